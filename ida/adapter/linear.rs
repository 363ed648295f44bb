//! The linear solver interface the integrator sources were written against, on top of the repository's `linear` crate.
use nalgebra::{Const, SMatrix, SVector};
use ndarray::prelude::*;
use real_linear::LSolver as RealLSolver;
pub use real_linear::LSolverType;

#[derive(Debug, failure::Fail)]
pub enum Error {
    #[fail(display = "singular")]
    LUFactFail { col: usize },
}

pub trait LSolver<Scalar> {
    fn new(size: usize) -> Self;
    fn get_type(&self) -> LSolverType;
    fn set_scaling_vectors<S1, S2>(&mut self, _s1: ArrayBase<S1, Ix1>, _s2: ArrayBase<S2, Ix1>)
    where
        S1: ndarray::Data<Elem = Scalar>,
        S2: ndarray::Data<Elem = Scalar>,
    {
    }
    fn setup<S1>(&mut self, mat_a: ArrayBase<S1, Ix2>) -> Result<(), failure::Error>
    where
        S1: ndarray::DataMut<Elem = Scalar>;
    fn solve<S1, S2, S3>(
        &self,
        mat_a: ArrayBase<S1, Ix2>,
        x: ArrayBase<S2, Ix1>,
        b: ArrayBase<S3, Ix1>,
        tol: Scalar,
    ) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = Scalar>,
        S2: ndarray::DataMut<Elem = Scalar>,
        S3: ndarray::Data<Elem = Scalar>;
    fn num_iters(&self) -> usize {
        0
    }
}

macro_rules! sizes {
    ($($V:ident $n:literal),*) => {
        #[derive(Clone, Debug)]
        enum Inner { $($V(real_linear::Dense<Const<$n>>)),* }

        /// `linear::Dense` of a size chosen at run time
        #[derive(Clone, Debug)]
        pub struct Dense<Scalar> { inner: Inner, _p: std::marker::PhantomData<Scalar> }

        impl<T: nalgebra::RealField + Copy> LSolver<T> for Dense<T> {
            fn new(size: usize) -> Self {
                let inner = match size {
                    $($n => Inner::$V(<real_linear::Dense<Const<$n>> as RealLSolver<T, Const<$n>>>::new()),)*
                    n => panic!("adapter: no dense solver of size {}", n),
                };
                Dense { inner, _p: std::marker::PhantomData }
            }
            fn get_type(&self) -> LSolverType { LSolverType::Direct }
            fn setup<S1: ndarray::DataMut<Elem = T>>(&mut self, mut mat_a: ArrayBase<S1, Ix2>) -> Result<(), failure::Error> {
                match &mut self.inner {
                    $(Inner::$V(d) => {
                        let mut m = SMatrix::<T, $n, $n>::from_fn(|i, j| mat_a[[i, j]]);
                        let r = RealLSolver::<T, Const<$n>>::setup(d, &mut m);
                        for i in 0..$n { for j in 0..$n { mat_a[[i, j]] = m[(i, j)]; } }
                        r.map_err(|real_linear::Error::LUFactFail { col }| failure::Error::from(Error::LUFactFail { col }))
                    })*
                }
            }
            fn solve<S1, S2, S3>(&self, mat_a: ArrayBase<S1, Ix2>, mut x: ArrayBase<S2, Ix1>, b: ArrayBase<S3, Ix1>, tol: T) -> Result<(), failure::Error>
            where
                S1: ndarray::Data<Elem = T>,
                S2: ndarray::DataMut<Elem = T>,
                S3: ndarray::Data<Elem = T>,
            {
                match &self.inner {
                    $(Inner::$V(d) => {
                        let m = SMatrix::<T, $n, $n>::from_fn(|i, j| mat_a[[i, j]]);
                        let bb = SVector::<T, $n>::from_fn(|i, _| b[i]);
                        let mut xx = SVector::<T, $n>::from_fn(|i, _| x[i]);
                        let r = RealLSolver::<T, Const<$n>>::solve(d, &m, &mut xx, &bb, tol);
                        for i in 0..$n { x[i] = xx[i]; }
                        r.map_err(|real_linear::Error::LUFactFail { col }| failure::Error::from(Error::LUFactFail { col }))
                    })*
                }
            }
        }
    };
}
sizes!(N1 1, N2 2, N3 3, N4 4, N5 5, N6 6, N8 8, N10 10, N13 13, N18 18);

