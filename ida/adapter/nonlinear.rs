//! The nonlinear solver interface the integrator sources were written against, on top of the repository's `nonlinear` crate.
use crate::traits::ModelSpec;
use nalgebra::{Const, Matrix, SVector, Storage, StorageMut, U1};
use ndarray::prelude::*;
use real_nonlinear::{NLProblem as RealNLProblem, NLSolver as RealNLSolver};

pub use newton::Newton;

#[derive(Debug, failure::Fail)]
pub enum Error {
    #[fail(display = "not converged")]
    Continue {},
    #[fail(display = "convergence failure")]
    ConvergenceRecover {},
    #[fail(display = "illegal input")]
    IllegalInput {},
    #[fail(display = "linear setup failed")]
    LinearSetupFailed {},
}

pub trait NLProblem<P: ModelSpec> {
    fn sys<S1, S2>(&mut self, y: ArrayBase<S1, Ix1>, f: ArrayBase<S2, Ix1>) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::DataMut<Elem = P::Scalar>;
    fn setup<S1, S2>(&mut self, y: ArrayBase<S1, Ix1>, f: ArrayBase<S2, Ix1>, jbad: bool) -> Result<bool, failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::Data<Elem = P::Scalar>;
    fn solve<S1, S2>(&mut self, y: ArrayBase<S1, Ix1>, b: ArrayBase<S2, Ix1>) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::DataMut<Elem = P::Scalar>;
    fn ctest<S1, S2, S3, NLS>(
        &mut self,
        solver: &NLS,
        y: ArrayBase<S1, Ix1>,
        del: ArrayBase<S2, Ix1>,
        tol: P::Scalar,
        ewt: ArrayBase<S3, Ix1>,
    ) -> Result<bool, failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::Data<Elem = P::Scalar>,
        S3: ndarray::Data<Elem = P::Scalar>,
        NLS: NLSolver<P>;
}

pub trait NLSolver<P: ModelSpec> {
    fn new(size: usize, maxiters: usize) -> Self;
    fn setup<S1>(&mut self, _y: &mut ArrayBase<S1, Ix1>) -> Result<(), failure::Error>
    where
        S1: ndarray::DataMut<Elem = P::Scalar>,
    {
        Ok(())
    }
    fn solve<NLP, S1, S2, S3>(
        &mut self,
        problem: &mut NLP,
        y0: ArrayBase<S1, Ix1>,
        y: ArrayBase<S2, Ix1>,
        w: ArrayBase<S3, Ix1>,
        tol: P::Scalar,
        call_lsetup: bool,
    ) -> Result<(), failure::Error>
    where
        NLP: NLProblem<P>,
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::DataMut<Elem = P::Scalar>,
        S3: ndarray::Data<Elem = P::Scalar>;
    fn get_num_iters(&self) -> usize {
        0
    }
    fn get_cur_iter(&self) -> usize;
    fn get_num_conv_fails(&self) -> usize {
        0
    }
}

/// what the convergence test may ask of the solver
struct CurIter(usize);
impl<P: ModelSpec> NLSolver<P> for CurIter {
    fn new(_: usize, _: usize) -> Self {
        CurIter(0)
    }
    fn solve<NLP, S1, S2, S3>(
        &mut self,
        _: &mut NLP,
        _: ArrayBase<S1, Ix1>,
        _: ArrayBase<S2, Ix1>,
        _: ArrayBase<S3, Ix1>,
        _: P::Scalar,
        _: bool,
    ) -> Result<(), failure::Error>
    where
        NLP: NLProblem<P>,
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::DataMut<Elem = P::Scalar>,
        S3: ndarray::Data<Elem = P::Scalar>,
    {
        unreachable!()
    }
    fn get_cur_iter(&self) -> usize {
        self.0
    }
}

/// presents an integrator-side problem to the real solver; an error the real solver has no name for is kept aside and
/// handed back when the solve returns
struct Prob<'a, NLP, P> {
    p: &'a mut NLP,
    kept: Option<failure::Error>,
    _p: std::marker::PhantomData<P>,
}
impl<'a, NLP, P> Prob<'a, NLP, P> {
    fn out<R>(&mut self, r: Result<R, failure::Error>) -> Result<R, real_nonlinear::Error> {
        r.map_err(|e| match e.downcast_ref::<Error>() {
            Some(Error::ConvergenceRecover {}) => real_nonlinear::Error::ConvergenceRecover {},
            _ => {
                self.kept = Some(e);
                real_nonlinear::Error::IllegalInput {}
            }
        })
    }
}
fn arr<T: nalgebra::Scalar + Copy, const N: usize, S: Storage<T, Const<N>, U1>>(m: &Matrix<T, Const<N>, U1, S>) -> Array1<T> {
    Array1::from_vec((0..N).map(|i| m[i]).collect())
}
impl<'a, NLP, P, const N: usize> RealNLProblem<P::Scalar, Const<N>> for Prob<'a, NLP, P>
where
    P: ModelSpec,
    P::Scalar: nalgebra::RealField + Copy,
    NLP: NLProblem<P>,
{
    fn sys<SB1, SB2>(
        &mut self,
        y: &Matrix<P::Scalar, Const<N>, U1, SB1>,
        f: &mut Matrix<P::Scalar, Const<N>, U1, SB2>,
    ) -> Result<(), real_nonlinear::Error>
    where
        SB1: Storage<P::Scalar, Const<N>, U1>,
        SB2: StorageMut<P::Scalar, Const<N>, U1>,
    {
        let mut ff = Array1::from_vec((0..N).map(|i| f[i]).collect());
        let r = self.p.sys(arr(y), ff.view_mut());
        for i in 0..N {
            f[i] = ff[i];
        }
        self.out(r)
    }
    fn setup<SA, SB>(
        &mut self,
        y: &Matrix<P::Scalar, Const<N>, U1, SA>,
        f: &Matrix<P::Scalar, Const<N>, U1, SB>,
        jbad: bool,
    ) -> Result<bool, real_nonlinear::Error>
    where
        SA: Storage<P::Scalar, Const<N>, U1>,
        SB: Storage<P::Scalar, Const<N>, U1>,
    {
        let r = self.p.setup(arr(y), arr(f), jbad);
        self.out(r)
    }
    fn solve<SA, SB>(
        &mut self,
        y: &Matrix<P::Scalar, Const<N>, U1, SA>,
        b: &mut Matrix<P::Scalar, Const<N>, U1, SB>,
    ) -> Result<(), real_nonlinear::Error>
    where
        SA: Storage<P::Scalar, Const<N>, U1>,
        SB: StorageMut<P::Scalar, Const<N>, U1>,
    {
        let mut bb = Array1::from_vec((0..N).map(|i| b[i]).collect());
        let r = self.p.solve(arr(y), bb.view_mut());
        for i in 0..N {
            b[i] = bb[i];
        }
        self.out(r)
    }
    fn ctest<NLS, SA, SB, SC>(
        &mut self,
        solver: &NLS,
        y: &Matrix<P::Scalar, Const<N>, U1, SA>,
        del: &Matrix<P::Scalar, Const<N>, U1, SB>,
        tol: P::Scalar,
        ewt: &Matrix<P::Scalar, Const<N>, U1, SC>,
    ) -> Result<bool, real_nonlinear::Error>
    where
        NLS: RealNLSolver<P::Scalar, Const<N>>,
        SA: Storage<P::Scalar, Const<N>, U1>,
        SB: Storage<P::Scalar, Const<N>, U1>,
        SC: Storage<P::Scalar, Const<N>, U1>,
    {
        let r = self.p.ctest(&CurIter(solver.get_cur_iter()), arr(y), arr(del), tol, arr(ewt));
        self.out(r)
    }
}

pub mod newton {
    use super::*;

    macro_rules! sizes {
        ($($V:ident $n:literal),*) => {
            #[derive(Clone, Debug)]
            enum Inner<T: nalgebra::Scalar> { $($V(real_nonlinear::Newton<T, Const<$n>>)),* }

            /// `nonlinear::Newton` of a size chosen at run time
            #[derive(Clone, Debug)]
            pub struct Newton<P: ModelSpec> where P::Scalar: nalgebra::Scalar { inner: Inner<P::Scalar> }

            impl<P: ModelSpec> NLSolver<P> for Newton<P> where P::Scalar: nalgebra::RealField + Copy {
                fn new(size: usize, maxiters: usize) -> Self {
                    let inner = match size {
                        $($n => Inner::$V(<real_nonlinear::Newton<P::Scalar, Const<$n>> as RealNLSolver<P::Scalar, Const<$n>>>::new(maxiters)),)*
                        n => panic!("adapter: no Newton solver of size {}", n),
                    };
                    Newton { inner }
                }
                fn solve<NLP, S1, S2, S3>(
                    &mut self, problem: &mut NLP, y0: ArrayBase<S1, Ix1>, mut y: ArrayBase<S2, Ix1>, w: ArrayBase<S3, Ix1>, tol: P::Scalar, call_lsetup: bool,
                ) -> Result<(), failure::Error>
                where
                    NLP: NLProblem<P>,
                    S1: ndarray::Data<Elem = P::Scalar>,
                    S2: ndarray::DataMut<Elem = P::Scalar>,
                    S3: ndarray::Data<Elem = P::Scalar>,
                {
                    let mut prob = Prob { p: problem, kept: None, _p: std::marker::PhantomData::<P> };
                    let r = match &mut self.inner {
                        $(Inner::$V(s) => {
                            let y0 = SVector::<P::Scalar, $n>::from_fn(|i, _| y0[i]);
                            let mut yy = SVector::<P::Scalar, $n>::from_fn(|i, _| y[i]);
                            let w = SVector::<P::Scalar, $n>::from_fn(|i, _| w[i]);
                            let r = s.solve(&mut prob, &y0, &mut yy, &w, tol, call_lsetup);
                            for i in 0..$n { y[i] = yy[i]; }
                            r
                        })*
                    };
                    let kept = prob.kept.take();
                    r.map_err(|e| match (e, kept) {
                        (real_nonlinear::Error::IllegalInput {}, Some(k)) => k,
                        (real_nonlinear::Error::IllegalInput {}, None) => Error::IllegalInput {}.into(),
                        (real_nonlinear::Error::ConvergenceRecover {}, _) => Error::ConvergenceRecover {}.into(),
                        (real_nonlinear::Error::Continue {}, _) => Error::Continue {}.into(),
                        (_, _) => Error::LinearSetupFailed {}.into(),
                    })
                }
                fn get_num_iters(&self) -> usize { match &self.inner { $(Inner::$V(s) => s.get_num_iters(),)* } }
                fn get_cur_iter(&self) -> usize { match &self.inner { $(Inner::$V(s) => s.get_cur_iter(),)* } }
                fn get_num_conv_fails(&self) -> usize { match &self.inner { $(Inner::$V(s) => s.get_num_conv_fails(),)* } }
            }
        };
    }
    sizes!(N1 1, N2 2, N3 3, N4 4, N5 5, N6 6, N8 8, N10 10, N13 13, N18 18);
}
