//! Stand-in for the part of ndarray 0.12 which the integrator sources use: strided arrays and views of one and two
//! dimensions (and dynamic ones for `broadcast`), slicing, lanes, element-wise arithmetic with broadcasting, and `Zip`.
//! Plain and slow; semantics follow the documentation of ndarray 0.12.
use std::fmt;
use std::marker::PhantomData;
use std::ops::*;

mod more;
pub use more::*;

pub mod prelude {
    pub use crate::{
        Array, Array1, Array2, ArrayBase, ArrayView, ArrayView1, ArrayView2, ArrayViewMut, ArrayViewMut1, ArrayViewMut2, Axis,
        Dim, Dimension, Ix0, Ix1, Ix2, IxDyn,
    };
    pub use crate::{arr1, arr2, array, aview1, azip, s};
}

// ---------------------------------------------------------------- dimensions

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Axis(pub usize);

#[derive(Clone, Debug, PartialEq, Eq, Copy)]
pub struct Dim<I>(I);
pub type Ix0 = Dim<[usize; 0]>;
pub type Ix1 = Dim<[usize; 1]>;
pub type Ix2 = Dim<[usize; 2]>;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DynIx(Vec<usize>);
pub type IxDyn = Dim<DynIx>;

pub trait Dimension: Clone + fmt::Debug + PartialEq + 'static {
    type Pattern;
    type Smaller: Dimension;
    type Larger: Dimension;
    fn sl(&self) -> &[usize];
    fn sl_mut(&mut self) -> &mut [usize];
    fn from_sl(s: &[usize]) -> Option<Self>;
    fn pattern(&self) -> Self::Pattern;
}
impl Dimension for Ix0 {
    type Pattern = ();
    type Smaller = Ix0;
    type Larger = Ix1;
    fn sl(&self) -> &[usize] { &self.0 }
    fn sl_mut(&mut self) -> &mut [usize] { &mut self.0 }
    fn from_sl(s: &[usize]) -> Option<Self> { if s.is_empty() { Some(Dim([])) } else { None } }
    fn pattern(&self) {}
}
impl Dimension for Ix1 {
    type Pattern = usize;
    type Smaller = Ix0;
    type Larger = Ix2;
    fn sl(&self) -> &[usize] { &self.0 }
    fn sl_mut(&mut self) -> &mut [usize] { &mut self.0 }
    fn from_sl(s: &[usize]) -> Option<Self> { if s.len() == 1 { Some(Dim([s[0]])) } else { None } }
    fn pattern(&self) -> usize { self.0[0] }
}
impl Dimension for Ix2 {
    type Pattern = (usize, usize);
    type Smaller = Ix1;
    type Larger = IxDyn;
    fn sl(&self) -> &[usize] { &self.0 }
    fn sl_mut(&mut self) -> &mut [usize] { &mut self.0 }
    fn from_sl(s: &[usize]) -> Option<Self> { if s.len() == 2 { Some(Dim([s[0], s[1]])) } else { None } }
    fn pattern(&self) -> (usize, usize) { (self.0[0], self.0[1]) }
}
impl Dimension for IxDyn {
    type Pattern = IxDyn;
    type Smaller = IxDyn;
    type Larger = IxDyn;
    fn sl(&self) -> &[usize] { &self.0 .0 }
    fn sl_mut(&mut self) -> &mut [usize] { &mut self.0 .0 }
    fn from_sl(s: &[usize]) -> Option<Self> { Some(Dim(DynIx(s.to_vec()))) }
    fn pattern(&self) -> IxDyn { self.clone() }
}

pub trait IntoDimension {
    type Dim: Dimension;
    fn into_dimension(self) -> Self::Dim;
}
impl IntoDimension for usize {
    type Dim = Ix1;
    fn into_dimension(self) -> Ix1 { Dim([self]) }
}
impl IntoDimension for [usize; 1] {
    type Dim = Ix1;
    fn into_dimension(self) -> Ix1 { Dim(self) }
}
impl IntoDimension for (usize, usize) {
    type Dim = Ix2;
    fn into_dimension(self) -> Ix2 { Dim([self.0, self.1]) }
}
impl IntoDimension for [usize; 2] {
    type Dim = Ix2;
    fn into_dimension(self) -> Ix2 { Dim(self) }
}
impl IntoDimension for Vec<usize> {
    type Dim = IxDyn;
    fn into_dimension(self) -> IxDyn { Dim(DynIx(self)) }
}
impl<I> IntoDimension for Dim<I> where Dim<I>: Dimension {
    type Dim = Self;
    fn into_dimension(self) -> Self { self }
}

// ---------------------------------------------------------------- storage

pub unsafe trait Data: Sized {
    type Elem;
}
pub unsafe trait DataMut: Data {}
pub unsafe trait DataOwned: Data {}
pub unsafe trait DataClone: Data {
    /// the clone and, for owned storage, its base pointer with the offset of the given pointer
    fn clone_with(&self, ptr: *mut Self::Elem) -> (Self, *mut Self::Elem);
}

pub struct OwnedRepr<A>(Vec<A>);
pub struct ViewRepr<A>(PhantomData<A>);
unsafe impl<A> Data for OwnedRepr<A> { type Elem = A; }
unsafe impl<A> DataMut for OwnedRepr<A> {}
unsafe impl<A> DataOwned for OwnedRepr<A> {}
unsafe impl<A: Clone> DataClone for OwnedRepr<A> {
    fn clone_with(&self, ptr: *mut A) -> (Self, *mut A) {
        let off = unsafe { ptr.offset_from(self.0.as_ptr()) };
        let mut v = self.0.clone();
        let p = unsafe { v.as_mut_ptr().offset(off) };
        (OwnedRepr(v), p)
    }
}
unsafe impl<'a, A> Data for ViewRepr<&'a A> { type Elem = A; }
unsafe impl<'a, A> Data for ViewRepr<&'a mut A> { type Elem = A; }
unsafe impl<'a, A> DataMut for ViewRepr<&'a mut A> {}
unsafe impl<'a, A> DataClone for ViewRepr<&'a A> {
    fn clone_with(&self, ptr: *mut A) -> (Self, *mut A) { (ViewRepr(PhantomData), ptr) }
}

pub struct ArrayBase<S: Data, D> {
    data: S,
    ptr: *mut S::Elem,
    dim: D,
    str_: D,
}
pub type Array<A, D> = ArrayBase<OwnedRepr<A>, D>;
pub type Array1<A> = Array<A, Ix1>;
pub type Array2<A> = Array<A, Ix2>;
pub type ArrayView<'a, A, D> = ArrayBase<ViewRepr<&'a A>, D>;
pub type ArrayView1<'a, A> = ArrayView<'a, A, Ix1>;
pub type ArrayView2<'a, A> = ArrayView<'a, A, Ix2>;
pub type ArrayViewMut<'a, A, D> = ArrayBase<ViewRepr<&'a mut A>, D>;
pub type ArrayViewMut1<'a, A> = ArrayViewMut<'a, A, Ix1>;
pub type ArrayViewMut2<'a, A> = ArrayViewMut<'a, A, Ix2>;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ShapeError;

pub trait ScalarOperand: 'static + Clone {}
impl ScalarOperand for f64 {}
impl ScalarOperand for f32 {}

pub mod linalg {
    use super::*;
    pub trait Dot<Rhs> {
        type Output;
        fn dot(&self, rhs: &Rhs) -> Self::Output;
    }
    impl<A, S, S2> Dot<ArrayBase<S2, Ix1>> for ArrayBase<S, Ix1>
    where
        S: Data<Elem = A>,
        S2: Data<Elem = A>,
        A: Clone + Add<Output = A> + Mul<Output = A> + num_traits::Zero,
    {
        type Output = A;
        fn dot(&self, rhs: &ArrayBase<S2, Ix1>) -> A {
            assert_eq!(self.len(), rhs.len());
            self.iter().zip(rhs.iter()).fold(A::zero(), |a, (x, y)| a + x.clone() * y.clone())
        }
    }
}

fn c_strides<D: Dimension>(dim: &D) -> D {
    let mut st = dim.clone();
    let n = dim.sl().len();
    let mut acc = 1;
    for i in (0..n).rev() {
        st.sl_mut()[i] = acc;
        acc *= dim.sl()[i];
    }
    st
}

/// every element's offset, in row-major order of the indices
fn offsets<D: Dimension>(dim: &D, st: &D) -> Vec<isize> {
    let (d, s) = (dim.sl(), st.sl());
    match d.len() {
        0 => vec![0],
        1 => (0..d[0]).map(|i| i as isize * s[0] as isize).collect(),
        2 => (0..d[0]).flat_map(|i| (0..d[1]).map(move |j| i as isize * s[0] as isize + j as isize * s[1] as isize)).collect(),
        _ => {
            let total: usize = d.iter().product();
            (0..total)
                .map(|mut k| {
                    let mut o = 0isize;
                    for a in (0..d.len()).rev() {
                        o += (k % d[a]) as isize * s[a] as isize;
                        k /= d[a];
                    }
                    o
                })
                .collect()
        }
    }
}

fn broadcast_strides<D: Dimension, E: Dimension>(dim: &D, st: &D, to: &E) -> Option<E> {
    let (d, s, t) = (dim.sl(), st.sl(), to.sl());
    if d.len() > t.len() {
        return None;
    }
    let mut out = to.clone();
    for x in out.sl_mut() {
        *x = 0;
    }
    let k = t.len() - d.len();
    for i in 0..d.len() {
        if d[i] == t[k + i] {
            out.sl_mut()[k + i] = s[i];
        } else if d[i] != 1 {
            return None;
        }
    }
    Some(out)
}

impl<A, D: Dimension> Array<A, D> {
    fn from_vec_dim(mut v: Vec<A>, dim: D) -> Self {
        assert_eq!(v.len(), dim.sl().iter().product::<usize>());
        let ptr = v.as_mut_ptr();
        let str_ = c_strides(&dim);
        ArrayBase { data: OwnedRepr(v), ptr, dim, str_ }
    }
}
impl<A> Array<A, Ix1> {
    pub fn from_vec(v: Vec<A>) -> Self {
        let n = v.len();
        Self::from_vec_dim(v, Dim([n]))
    }
    pub fn from_iter<I: IntoIterator<Item = A>>(i: I) -> Self {
        Self::from_vec(i.into_iter().collect())
    }
}
impl<A> Array<A, Ix2> {
    pub fn from_rows<const C: usize>(v: Vec<[A; C]>) -> Self {
        let r = v.len();
        Self::from_vec_dim(v.into_iter().flatten().collect(), Dim([r, C]))
    }
}
#[macro_export]
macro_rules! array {
    ($([$($x:expr),* $(,)*]),+ $(,)*) => { $crate::Array::from_rows(vec![$([$($x,)*],)*]) };
    ($($x:expr),* $(,)*) => { $crate::Array::from_vec(vec![$($x,)*]) };
}

impl<S: Data, D: Dimension> ArrayBase<S, D> {
    pub fn from_elem<Sh>(shape: Sh, e: S::Elem) -> Self
    where
        Sh: IntoDimension<Dim = D>,
        S: FromVec,
        S::Elem: Clone,
    {
        let dim = shape.into_dimension();
        let n = dim.sl().iter().product();
        let (data, ptr) = S::from_vec(vec![e; n]);
        let str_ = c_strides(&dim);
        ArrayBase { data, ptr, dim, str_ }
    }
    pub fn zeros<Sh>(shape: Sh) -> Self
    where
        Sh: IntoDimension<Dim = D>,
        S: FromVec,
        S::Elem: Clone + num_traits::Zero,
    {
        Self::from_elem(shape, num_traits::Zero::zero())
    }
    pub fn shape(&self) -> &[usize] { self.dim.sl() }
    pub fn len(&self) -> usize { self.dim.sl().iter().product() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn len_of(&self, a: Axis) -> usize { self.dim.sl()[a.0] }
    pub fn dim(&self) -> D::Pattern { self.dim.pattern() }
    pub fn view(&self) -> ArrayView<'_, S::Elem, D> {
        ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: self.dim.clone(), str_: self.str_.clone() }
    }
    pub fn view_mut(&mut self) -> ArrayViewMut<'_, S::Elem, D>
    where
        S: DataMut,
    {
        ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim: self.dim.clone(), str_: self.str_.clone() }
    }
    pub fn to_owned(&self) -> Array<S::Elem, D>
    where
        S::Elem: Clone,
    {
        Array::from_vec_dim(self.iter().cloned().collect(), self.dim.clone())
    }
    pub fn iter(&self) -> std::vec::IntoIter<&S::Elem> {
        offsets(&self.dim, &self.str_).into_iter().map(|o| unsafe { &*self.ptr.offset(o) }).collect::<Vec<_>>().into_iter()
    }
    pub fn iter_mut(&mut self) -> std::vec::IntoIter<&mut S::Elem>
    where
        S: DataMut,
    {
        offsets(&self.dim, &self.str_).into_iter().map(|o| unsafe { &mut *self.ptr.offset(o) }).collect::<Vec<_>>().into_iter()
    }
    pub fn map<'a, B, F: FnMut(&'a S::Elem) -> B>(&'a self, f: F) -> Array<B, D> {
        Array::from_vec_dim(self.iter().map(f).collect(), self.dim.clone())
    }
    pub fn mapv<B, F: FnMut(S::Elem) -> B>(&self, mut f: F) -> Array<B, D>
    where
        S::Elem: Clone,
    {
        self.map(|x| f(x.clone()))
    }
    pub fn mapv_inplace<F: FnMut(S::Elem) -> S::Elem>(&mut self, mut f: F)
    where
        S: DataMut,
        S::Elem: Clone,
    {
        for x in self.iter_mut() {
            *x = f(x.clone());
        }
    }
    pub fn fill(&mut self, x: S::Elem)
    where
        S: DataMut,
        S::Elem: Clone,
    {
        for e in self.iter_mut() {
            *e = x.clone();
        }
    }
    pub fn broadcast<E: IntoDimension>(&self, dim: E) -> Option<ArrayView<'_, S::Elem, E::Dim>> {
        let dim = dim.into_dimension();
        let str_ = broadcast_strides(&self.dim, &self.str_, &dim)?;
        Some(ArrayBase { data: ViewRepr(PhantomData), ptr: self.ptr, dim, str_ })
    }
    pub fn into_dimensionality<D2: Dimension>(self) -> Result<ArrayBase<S, D2>, ShapeError> {
        let (d, s) = (D2::from_sl(self.dim.sl()), D2::from_sl(self.str_.sl()));
        match (d, s) {
            (Some(dim), Some(str_)) => Ok(ArrayBase { data: self.data, ptr: self.ptr, dim, str_ }),
            _ => Err(ShapeError),
        }
    }
    pub fn reversed_axes(mut self) -> Self {
        self.dim.sl_mut().reverse();
        self.str_.sl_mut().reverse();
        self
    }
    pub fn t(&self) -> ArrayView<'_, S::Elem, D> {
        self.view().reversed_axes()
    }
    fn sub(&self, a: Axis, i: usize) -> (*mut S::Elem, D::Smaller, D::Smaller) {
        assert!(i < self.len_of(a), "index {} out of bounds for axis of length {}", i, self.len_of(a));
        let p = unsafe { self.ptr.offset(i as isize * self.str_.sl()[a.0] as isize) };
        let rm = |v: &[usize]| {
            let mut v = v.to_vec();
            v.remove(a.0);
            D::Smaller::from_sl(&v).unwrap()
        };
        (p, rm(self.dim.sl()), rm(self.str_.sl()))
    }
    pub fn index_axis(&self, a: Axis, i: usize) -> ArrayView<'_, S::Elem, D::Smaller> {
        let (ptr, dim, str_) = self.sub(a, i);
        ArrayBase { data: ViewRepr(PhantomData), ptr, dim, str_ }
    }
    pub fn index_axis_mut(&mut self, a: Axis, i: usize) -> ArrayViewMut<'_, S::Elem, D::Smaller>
    where
        S: DataMut,
    {
        let (ptr, dim, str_) = self.sub(a, i);
        ArrayBase { data: ViewRepr(PhantomData), ptr, dim, str_ }
    }
    fn cut(&self, cuts: &[(usize, Slice)]) -> (*mut S::Elem, D, D) {
        let (mut p, mut dim, mut str_) = (self.ptr, self.dim.clone(), self.str_.clone());
        for (a, s) in cuts {
            let n = dim.sl()[*a] as isize;
            let abs = |i: isize| if i < 0 { n + i } else { i };
            let start = abs(s.start);
            let end = s.end.map(abs).unwrap_or(n).max(start);
            assert!(start <= n && end <= n, "slice {:?} out of bounds of axis length {}", s, n);
            assert!(s.step != 0);
            let m = end - start;
            let st = str_.sl()[*a] as isize;
            let first = if s.step < 0 { end - 1 } else { start };
            if m > 0 {
                p = unsafe { p.offset(first * st) };
            }
            let k = s.step.abs();
            dim.sl_mut()[*a] = ((m + k - 1) / k) as usize;
            str_.sl_mut()[*a] = (st * s.step) as usize;
        }
        (p, dim, str_)
    }
    pub fn slice_axis(&self, a: Axis, s: Slice) -> ArrayView<'_, S::Elem, D> {
        let (ptr, dim, str_) = self.cut(&[(a.0, s)]);
        ArrayBase { data: ViewRepr(PhantomData), ptr, dim, str_ }
    }
    pub fn slice_axis_mut(&mut self, a: Axis, s: Slice) -> ArrayViewMut<'_, S::Elem, D>
    where
        S: DataMut,
    {
        let (ptr, dim, str_) = self.cut(&[(a.0, s)]);
        ArrayBase { data: ViewRepr(PhantomData), ptr, dim, str_ }
    }
    fn carve<O: Dimension>(&self, i: &SliceInfo<O>) -> (*mut S::Elem, O, O) {
        assert_eq!(i.0.len(), self.dim.sl().len());
        let cuts: Vec<_> = i.0.iter().enumerate().filter(|(_, x)| !x.1).map(|(a, x)| (a, x.0)).collect();
        let (mut p, dim, str_) = self.cut(&cuts);
        let (mut d, mut s) = (Vec::new(), Vec::new());
        for (a, x) in i.0.iter().enumerate() {
            let n = dim.sl()[a];
            if x.1 {
                let k = if x.0.start < 0 { n as isize + x.0.start } else { x.0.start };
                assert!(k >= 0 && (k as usize) < n, "index {} out of bounds for axis of length {}", x.0.start, n);
                p = unsafe { p.offset(k * str_.sl()[a] as isize) };
            } else {
                d.push(n);
                s.push(str_.sl()[a]);
            }
        }
        (p, O::from_sl(&d).unwrap(), O::from_sl(&s).unwrap())
    }
    pub fn slice<O: Dimension, I: std::borrow::Borrow<SliceInfo<O>>>(&self, i: I) -> ArrayView<'_, S::Elem, O> {
        let (ptr, dim, str_) = self.carve(i.borrow());
        ArrayBase { data: ViewRepr(PhantomData), ptr, dim, str_ }
    }
    pub fn slice_mut<O: Dimension, I: std::borrow::Borrow<SliceInfo<O>>>(&mut self, i: I) -> ArrayViewMut<'_, S::Elem, O>
    where
        S: DataMut,
    {
        let (ptr, dim, str_) = self.carve(i.borrow());
        ArrayBase { data: ViewRepr(PhantomData), ptr, dim, str_ }
    }
    /// the lanes along the last axis
    fn lane_ptrs(&self) -> (Vec<*mut S::Elem>, Ix1, Ix1) {
        let (d, s) = (self.dim.sl(), self.str_.sl());
        match d.len() {
            1 => (vec![self.ptr], Dim([d[0]]), Dim([s[0]])),
            2 => (
                (0..d[0]).map(|i| unsafe { self.ptr.offset(i as isize * s[0] as isize) }).collect(),
                Dim([d[1]]),
                Dim([s[1]]),
            ),
            _ => unimplemented!(),
        }
    }
    pub fn genrows(&self) -> Lanes<'_, S::Elem> {
        let (p, dim, str_) = self.lane_ptrs();
        Lanes(p.into_iter().map(|ptr| ArrayBase { data: ViewRepr(PhantomData), ptr, dim: dim.clone(), str_: str_.clone() }).collect())
    }
    pub fn genrows_mut(&mut self) -> LanesMut<'_, S::Elem>
    where
        S: DataMut,
    {
        let (p, dim, str_) = self.lane_ptrs();
        LanesMut(p.into_iter().map(|ptr| ArrayBase { data: ViewRepr(PhantomData), ptr, dim: dim.clone(), str_: str_.clone() }).collect())
    }
    pub fn assign<S2, E>(&mut self, rhs: &ArrayBase<S2, E>)
    where
        S: DataMut,
        S2: Data<Elem = S::Elem>,
        E: Dimension,
        S::Elem: Clone,
    {
        self.zip2(rhs, |a, b| *a = b.clone());
    }
    fn zip2<S2: Data, E: Dimension>(&mut self, rhs: &ArrayBase<S2, E>, mut f: impl FnMut(&mut S::Elem, &S2::Elem))
    where
        S: DataMut,
    {
        let st = broadcast_strides(&rhs.dim, &rhs.str_, &self.dim)
            .unwrap_or_else(|| panic!("could not broadcast array from shape {:?} to {:?}", rhs.dim, self.dim));
        let (oa, ob) = (offsets(&self.dim, &self.str_), offsets(&self.dim, &st));
        for (a, b) in oa.into_iter().zip(ob) {
            unsafe { f(&mut *self.ptr.offset(a), &*rhs.ptr.offset(b)) }
        }
    }
    pub fn scaled_add<S2, E>(&mut self, k: S::Elem, rhs: &ArrayBase<S2, E>)
    where
        S: DataMut,
        S2: Data<Elem = S::Elem>,
        E: Dimension,
        S::Elem: Clone + Add<Output = S::Elem> + Mul<Output = S::Elem>,
    {
        self.zip2(rhs, |a, b| *a = a.clone() + k.clone() * b.clone());
    }
    pub fn sum_axis(&self, a: Axis) -> Array<S::Elem, D::Smaller>
    where
        S::Elem: Clone + num_traits::Zero + Add<Output = S::Elem>,
    {
        let mut v = self.dim.sl().to_vec();
        v.remove(a.0);
        let dim = D::Smaller::from_sl(&v).unwrap();
        let n = dim.sl().iter().product();
        let mut r = Array::from_vec_dim(vec![<S::Elem as num_traits::Zero>::zero(); n], dim);
        for i in 0..self.len_of(a) {
            r.zip2(&self.index_axis(a, i), |x, y| *x = x.clone() + y.clone());
        }
        r
    }
    pub fn sum(&self) -> S::Elem
    where
        S::Elem: Clone + num_traits::Zero + Add<Output = S::Elem>,
    {
        self.iter().fold(num_traits::Zero::zero(), |a: S::Elem, x| a + x.clone())
    }
    pub fn dot<Rhs>(&self, rhs: &Rhs) -> <Self as linalg::Dot<Rhs>>::Output
    where
        Self: linalg::Dot<Rhs>,
    {
        linalg::Dot::dot(self, rhs)
    }
}

#[doc(hidden)]
pub trait FromVec: DataOwned {
    fn from_vec(v: Vec<Self::Elem>) -> (Self, *mut Self::Elem);
}
impl<A> FromVec for OwnedRepr<A> {
    fn from_vec(mut v: Vec<A>) -> (Self, *mut A) {
        let p = v.as_mut_ptr();
        (OwnedRepr(v), p)
    }
}

impl<S: DataClone, D: Dimension> Clone for ArrayBase<S, D> {
    fn clone(&self) -> Self {
        let (data, ptr) = self.data.clone_with(self.ptr);
        ArrayBase { data, ptr, dim: self.dim.clone(), str_: self.str_.clone() }
    }
}
impl<S: Data, D: Dimension> fmt::Debug for ArrayBase<S, D>
where
    S::Elem: fmt::Debug,
{
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.debug_list().entries(self.iter()).finish() }
}
impl<S: Data, D: Dimension> fmt::Display for ArrayBase<S, D>
where
    S::Elem: fmt::Debug,
{
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.debug_list().entries(self.iter()).finish() }
}
impl<S: Data, D: Dimension> fmt::LowerExp for ArrayBase<S, D>
where
    S::Elem: fmt::Debug,
{
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.debug_list().entries(self.iter()).finish() }
}
impl<S: Data, S2: Data, D: Dimension> PartialEq<ArrayBase<S2, D>> for ArrayBase<S, D>
where
    S::Elem: PartialEq<S2::Elem>,
{
    fn eq(&self, o: &ArrayBase<S2, D>) -> bool { self.shape() == o.shape() && self.iter().zip(o.iter()).all(|(a, b)| a == b) }
}

impl<S: Data> Index<usize> for ArrayBase<S, Ix1> {
    type Output = S::Elem;
    fn index(&self, i: usize) -> &S::Elem {
        assert!(i < self.dim.0[0], "index out of bounds");
        unsafe { &*self.ptr.offset(i as isize * self.str_.0[0] as isize) }
    }
}
impl<S: DataMut> IndexMut<usize> for ArrayBase<S, Ix1> {
    fn index_mut(&mut self, i: usize) -> &mut S::Elem {
        assert!(i < self.dim.0[0], "index out of bounds");
        unsafe { &mut *self.ptr.offset(i as isize * self.str_.0[0] as isize) }
    }
}
impl<S: Data> Index<[usize; 1]> for ArrayBase<S, Ix1> {
    type Output = S::Elem;
    fn index(&self, i: [usize; 1]) -> &S::Elem { &self[i[0]] }
}
impl<S: DataMut> IndexMut<[usize; 1]> for ArrayBase<S, Ix1> {
    fn index_mut(&mut self, i: [usize; 1]) -> &mut S::Elem { &mut self[i[0]] }
}
impl<S: Data> Index<(usize, usize)> for ArrayBase<S, Ix2> {
    type Output = S::Elem;
    fn index(&self, i: (usize, usize)) -> &S::Elem { &self[[i.0, i.1]] }
}
impl<S: DataMut> IndexMut<(usize, usize)> for ArrayBase<S, Ix2> {
    fn index_mut(&mut self, i: (usize, usize)) -> &mut S::Elem { &mut self[[i.0, i.1]] }
}
impl<S: Data> Index<[usize; 2]> for ArrayBase<S, Ix2> {
    type Output = S::Elem;
    fn index(&self, i: [usize; 2]) -> &S::Elem {
        assert!(i[0] < self.dim.0[0] && i[1] < self.dim.0[1], "index out of bounds");
        unsafe { &*self.ptr.offset(i[0] as isize * self.str_.0[0] as isize + i[1] as isize * self.str_.0[1] as isize) }
    }
}
impl<S: DataMut> IndexMut<[usize; 2]> for ArrayBase<S, Ix2> {
    fn index_mut(&mut self, i: [usize; 2]) -> &mut S::Elem {
        assert!(i[0] < self.dim.0[0] && i[1] < self.dim.0[1], "index out of bounds");
        unsafe { &mut *self.ptr.offset(i[0] as isize * self.str_.0[0] as isize + i[1] as isize * self.str_.0[1] as isize) }
    }
}

// ---------------------------------------------------------------- slices

#[derive(Clone, Copy, Debug)]
pub struct Slice {
    pub start: isize,
    pub end: Option<isize>,
    pub step: isize,
}
impl Slice {
    pub fn step_by(self, s: isize) -> Self { Slice { step: self.step * s, ..self } }
}
macro_rules! slice_from {
    ($t:ty, $r:ident => $s:expr, $e:expr) => {
        impl From<$t> for Slice {
            fn from($r: $t) -> Self { Slice { start: $s as isize, end: $e, step: 1 } }
        }
    };
}
macro_rules! slice_from_int {
    ($i:ty) => {
        slice_from!(Range<$i>, r => r.start, Some(r.end as isize));
        slice_from!(RangeInclusive<$i>, r => *r.start(), if *r.end() as isize == -1 { None } else { Some(*r.end() as isize + 1) });
        slice_from!(RangeFrom<$i>, r => r.start, None);
        slice_from!(RangeTo<$i>, r => 0, Some(r.end as isize));
        slice_from!(RangeToInclusive<$i>, r => 0, if r.end as isize == -1 { None } else { Some(r.end as isize + 1) });
    };
}
slice_from_int!(usize);
slice_from_int!(isize);
slice_from_int!(i32);
impl From<RangeFull> for Slice {
    fn from(_: RangeFull) -> Self { Slice { start: 0, end: None, step: 1 } }
}
/// one entry per axis: the range, or (true) the single index which removes the axis
pub struct SliceInfo<O>(pub Vec<(Slice, bool)>, pub PhantomData<O>);
pub trait SliceArg<D> {
    type Out;
    fn arg(self) -> (Slice, bool);
}
macro_rules! slice_arg_range {
    ($($t:ty)+) => { $(impl<D: Dimension> SliceArg<D> for $t {
        type Out = D::Larger;
        fn arg(self) -> (Slice, bool) { (Slice::from(self), false) }
    })+ };
}
slice_arg_range!(Range<usize> RangeInclusive<usize> RangeFrom<usize> RangeTo<usize> RangeToInclusive<usize>);
slice_arg_range!(Range<isize> RangeInclusive<isize> RangeFrom<isize> RangeTo<isize> RangeToInclusive<isize>);
slice_arg_range!(Range<i32> RangeInclusive<i32> RangeFrom<i32> RangeTo<i32> RangeToInclusive<i32>);
slice_arg_range!(RangeFull Slice);
macro_rules! slice_arg_index {
    ($($t:ty)+) => { $(impl<D: Dimension> SliceArg<D> for $t {
        type Out = D;
        fn arg(self) -> (Slice, bool) { (Slice { start: self as isize, end: None, step: 1 }, true) }
    })+ };
}
slice_arg_index!(usize isize i32);
pub struct SliceBuilder<D>(Vec<(Slice, bool)>, PhantomData<D>);
impl SliceBuilder<Ix0> {
    pub fn new() -> Self { SliceBuilder(Vec::new(), PhantomData) }
}
impl<D: Dimension> SliceBuilder<D> {
    pub fn add<T: SliceArg<D>>(mut self, t: T) -> SliceBuilder<T::Out> {
        self.0.push(t.arg());
        SliceBuilder(self.0, PhantomData)
    }
    pub fn add_step<T: SliceArg<D>>(mut self, t: T, s: isize) -> SliceBuilder<T::Out> {
        let (r, i) = t.arg();
        self.0.push((r.step_by(s), i));
        SliceBuilder(self.0, PhantomData)
    }
    pub fn done(self) -> SliceInfo<D> { SliceInfo(self.0, PhantomData) }
}
#[macro_export]
macro_rules! s {
    (@add $b:expr, $r:expr; $st:expr) => { $b.add_step($r, $st as isize) };
    (@add $b:expr, $r:expr) => { $b.add($r) };
    (@go $b:expr; ) => { $b };
    (@go $b:expr; $r:expr; $st:expr) => { $b.add_step($r, $st as isize) };
    (@go $b:expr; $r:expr) => { $b.add($r) };
    (@go $b:expr; $r:expr; $st:expr, $($t:tt)*) => { $crate::s!(@go $b.add_step($r, $st as isize); $($t)*) };
    (@go $b:expr; $r:expr, $($t:tt)*) => { $crate::s!(@go $b.add($r); $($t)*) };
    ($($t:tt)+) => { &$crate::s!(@go $crate::SliceBuilder::new(); $($t)+).done() };
}

pub struct Lanes<'a, A>(Vec<ArrayView1<'a, A>>);
pub struct LanesMut<'a, A>(Vec<ArrayViewMut1<'a, A>>);
impl<'a, A> IntoIterator for Lanes<'a, A> {
    type Item = ArrayView1<'a, A>;
    type IntoIter = std::vec::IntoIter<ArrayView1<'a, A>>;
    fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
}
impl<'a, A> IntoIterator for LanesMut<'a, A> {
    type Item = ArrayViewMut1<'a, A>;
    type IntoIter = std::vec::IntoIter<ArrayViewMut1<'a, A>>;
    fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
}

// ---------------------------------------------------------------- arithmetic

macro_rules! ops {
    ($T:ident $f:ident $TA:ident $fa:ident) => {
        // &a op &b
        impl<'a, 'b, A, S, S2, D, E> $T<&'b ArrayBase<S2, E>> for &'a ArrayBase<S, D>
        where
            A: Clone + $T<A, Output = A>,
            S: Data<Elem = A>,
            S2: Data<Elem = A>,
            D: Dimension,
            E: Dimension,
        {
            type Output = Array<A, D>;
            fn $f(self, rhs: &'b ArrayBase<S2, E>) -> Array<A, D> {
                let mut r = self.to_owned();
                r.zip2(rhs, |x, y| *x = x.clone().$f(y.clone()));
                r
            }
        }
        // a op &b
        impl<'b, A, S, S2, D, E> $T<&'b ArrayBase<S2, E>> for ArrayBase<S, D>
        where
            A: Clone + $T<A, Output = A>,
            S: DataOwned<Elem = A> + DataMut,
            S2: Data<Elem = A>,
            D: Dimension,
            E: Dimension,
        {
            type Output = ArrayBase<S, D>;
            fn $f(mut self, rhs: &'b ArrayBase<S2, E>) -> ArrayBase<S, D> {
                self.zip2(rhs, |x, y| *x = x.clone().$f(y.clone()));
                self
            }
        }
        // a op b
        impl<A, S, S2, D, E> $T<ArrayBase<S2, E>> for ArrayBase<S, D>
        where
            A: Clone + $T<A, Output = A>,
            S: DataOwned<Elem = A> + DataMut,
            S2: Data<Elem = A>,
            D: Dimension,
            E: Dimension,
        {
            type Output = ArrayBase<S, D>;
            fn $f(mut self, rhs: ArrayBase<S2, E>) -> ArrayBase<S, D> {
                self.zip2(&rhs, |x, y| *x = x.clone().$f(y.clone()));
                self
            }
        }
        // &a op scalar, a op scalar
        impl<'a, A, S, D, B> $T<B> for &'a ArrayBase<S, D>
        where
            A: Clone + $T<B, Output = A>,
            B: ScalarOperand,
            S: Data<Elem = A>,
            D: Dimension,
        {
            type Output = Array<A, D>;
            fn $f(self, k: B) -> Array<A, D> { self.map(|x| x.clone().$f(k.clone())) }
        }
        impl<A, S, D, B> $T<B> for ArrayBase<S, D>
        where
            A: Clone + $T<B, Output = A>,
            B: ScalarOperand,
            S: DataOwned<Elem = A> + DataMut,
            D: Dimension,
        {
            type Output = ArrayBase<S, D>;
            fn $f(mut self, k: B) -> ArrayBase<S, D> {
                for x in self.iter_mut() {
                    *x = x.clone().$f(k.clone());
                }
                self
            }
        }
        // a op= &b, a op= scalar
        impl<'b, A, S, S2, D, E> $TA<&'b ArrayBase<S2, E>> for ArrayBase<S, D>
        where
            A: Clone + $TA<A>,
            S: DataMut<Elem = A>,
            S2: Data<Elem = A>,
            D: Dimension,
            E: Dimension,
        {
            fn $fa(&mut self, rhs: &'b ArrayBase<S2, E>) { self.zip2(rhs, |x, y| x.$fa(y.clone())); }
        }
        impl<A, S, D> $TA<A> for ArrayBase<S, D>
        where
            A: ScalarOperand + $TA<A>,
            S: DataMut<Elem = A>,
            D: Dimension,
        {
            fn $fa(&mut self, k: A) {
                for x in self.iter_mut() {
                    x.$fa(k.clone());
                }
            }
        }
    };
}
ops!(Add add AddAssign add_assign);
ops!(Sub sub SubAssign sub_assign);
ops!(Mul mul MulAssign mul_assign);
ops!(Div div DivAssign div_assign);
impl<A, S, D> Neg for ArrayBase<S, D>
where
    A: Clone + Neg<Output = A>,
    S: DataOwned<Elem = A> + DataMut,
    D: Dimension,
{
    type Output = Self;
    fn neg(mut self) -> Self {
        for x in self.iter_mut() {
            *x = -x.clone();
        }
        self
    }
}

// ---------------------------------------------------------------- Zip

pub enum FoldWhile<T> {
    Continue(T),
    Done(T),
}
impl<T> FoldWhile<T> {
    pub fn into_inner(self) -> T {
        match self {
            FoldWhile::Continue(t) | FoldWhile::Done(t) => t,
        }
    }
    pub fn is_done(&self) -> bool { matches!(self, FoldWhile::Done(_)) }
}

pub trait IntoNdProducer {
    type Item;
    type Dim: Dimension;
    fn items(self) -> (Self::Dim, Vec<Self::Item>);
}
impl<'a, A, D: Dimension> IntoNdProducer for ArrayBase<ViewRepr<&'a A>, D> {
    type Item = &'a A;
    type Dim = D;
    fn items(self) -> (D, Vec<&'a A>) {
        let v = offsets(&self.dim, &self.str_).into_iter().map(|o| unsafe { &*self.ptr.offset(o) }).collect();
        (self.dim, v)
    }
}
impl<'a, A, D: Dimension> IntoNdProducer for ArrayBase<ViewRepr<&'a mut A>, D> {
    type Item = &'a mut A;
    type Dim = D;
    fn items(self) -> (D, Vec<&'a mut A>) {
        let v = offsets(&self.dim, &self.str_).into_iter().map(|o| unsafe { &mut *self.ptr.offset(o) }).collect();
        (self.dim, v)
    }
}
impl<'a, A: 'a, S: Data<Elem = A>, D: Dimension> IntoNdProducer for &'a ArrayBase<S, D> {
    type Item = &'a A;
    type Dim = D;
    fn items(self) -> (D, Vec<&'a A>) { self.view().items() }
}
impl<'a, A: 'a, S: DataMut<Elem = A>, D: Dimension> IntoNdProducer for &'a mut ArrayBase<S, D> {
    type Item = &'a mut A;
    type Dim = D;
    fn items(self) -> (D, Vec<&'a mut A>) { self.view_mut().items() }
}
impl<'a, A> IntoNdProducer for Lanes<'a, A> {
    type Item = ArrayView1<'a, A>;
    type Dim = Ix1;
    fn items(self) -> (Ix1, Vec<Self::Item>) { (Dim([self.0.len()]), self.0) }
}
impl<'a, A> IntoNdProducer for LanesMut<'a, A> {
    type Item = ArrayViewMut1<'a, A>;
    type Dim = Ix1;
    fn items(self) -> (Ix1, Vec<Self::Item>) { (Dim([self.0.len()]), self.0) }
}
pub struct Indexed<D>(D);
pub trait IndexPattern: Dimension {
    fn unravel(&self, k: usize) -> Self::Pattern;
}
impl IndexPattern for Ix1 {
    fn unravel(&self, k: usize) -> usize { k }
}
impl IndexPattern for Ix2 {
    fn unravel(&self, k: usize) -> (usize, usize) { (k / self.0[1], k % self.0[1]) }
}

pub struct Zip<T, D> {
    dim: D,
    parts: T,
}
impl<I, D: Dimension> Zip<(Vec<I>,), D> {
    pub fn from<P: IntoNdProducer<Item = I, Dim = D>>(p: P) -> Self {
        let (dim, v) = p.items();
        Zip { dim, parts: (v,) }
    }
}
impl<I, D: IndexPattern> Zip<(Vec<D::Pattern>, Vec<I>), D> {
    pub fn indexed<P: IntoNdProducer<Item = I, Dim = D>>(p: P) -> Self {
        let (dim, v) = p.items();
        let idx = (0..v.len()).map(|k| dim.unravel(k)).collect();
        Zip { dim, parts: (idx, v) }
    }
}
macro_rules! zip {
    ($($I:ident $v:ident)+) => {
        impl<$($I,)+ D: Dimension> Zip<($(Vec<$I>,)+), D> {
            pub fn apply<F: FnMut($($I),+)>(self, mut f: F) {
                let ($($v,)+) = self.parts;
                $(let mut $v = $v.into_iter();)+
                loop {
                    $(let $v = match $v.next() { Some(x) => x, None => break };)+
                    f($($v),+);
                }
            }
            pub fn for_each<F: FnMut($($I),+)>(self, f: F) { self.apply(f) }
            pub fn fold<Acc, F: FnMut(Acc, $($I),+) -> Acc>(self, acc: Acc, mut f: F) -> Acc {
                self.fold_while(acc, |acc, $($v),+| FoldWhile::Continue(f(acc, $($v),+))).into_inner()
            }
            pub fn all<F: FnMut($($I),+) -> bool>(self, mut f: F) -> bool {
                !self.fold_while((), |_, $($v),+| if f($($v),+) { FoldWhile::Continue(()) } else { FoldWhile::Done(()) }).is_done()
            }
            pub fn any<F: FnMut($($I),+) -> bool>(self, mut f: F) -> bool { !self.all(|$($v),+| !f($($v),+)) }
            fn map_vec<R, F: FnMut($($I),+) -> R>(self, mut f: F) -> Vec<R> {
                let ($($v,)+) = self.parts;
                $(let mut $v = $v.into_iter();)+
                let mut r = Vec::new();
                loop {
                    $(let $v = match $v.next() { Some(x) => x, None => break };)+
                    r.push(f($($v),+));
                }
                r
            }
            pub fn map_collect<R, F: FnMut($($I),+) -> R>(self, f: F) -> Array<R, D> {
                let dim = self.dim.clone();
                Array::from_vec_dim(self.map_vec(f), dim)
            }
            pub fn apply_collect<R, F: FnMut($($I),+) -> R>(self, f: F) -> Array<R, D> { self.map_collect(f) }
            pub fn size(&self) -> usize { self.dim.sl().iter().product() }
            pub fn fold_while<Acc, F: FnMut(Acc, $($I),+) -> FoldWhile<Acc>>(self, acc: Acc, mut f: F) -> FoldWhile<Acc> {
                let ($($v,)+) = self.parts;
                $(let mut $v = $v.into_iter();)+
                let mut acc = acc;
                loop {
                    $(let $v = match $v.next() { Some(x) => x, None => break };)+
                    match f(acc, $($v),+) {
                        FoldWhile::Continue(a) => acc = a,
                        d => return d,
                    }
                }
                FoldWhile::Continue(acc)
            }
        }
    };
}
macro_rules! zip_and {
    ($($I:ident $v:ident)+) => {
        impl<$($I,)+ D: Dimension> Zip<($(Vec<$I>,)+), D> {
            pub fn and<P: IntoNdProducer<Item = N, Dim = D>, N>(self, p: P) -> Zip<($(Vec<$I>,)+ Vec<N>,), D> {
                let (dim, v) = p.items();
                assert!(dim == self.dim, "Zip: producer dimension mismatch");
                let ($($v,)+) = self.parts;
                Zip { dim: self.dim, parts: ($($v,)+ v,) }
            }
        }
    };
}
zip!(I1 a);
zip!(I1 a I2 b);
zip!(I1 a I2 b I3 c);
zip!(I1 a I2 b I3 c I4 d);
zip!(I1 a I2 b I3 c I4 d I5 e);
zip!(I1 a I2 b I3 c I4 d I5 e I6 g);
zip_and!(I1 a);
zip_and!(I1 a I2 b);
zip_and!(I1 a I2 b I3 c);
zip_and!(I1 a I2 b I3 c I4 d);
zip_and!(I1 a I2 b I3 c I4 d I5 e);
