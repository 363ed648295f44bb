//! The rest of the interface that code written against ndarray commonly reaches for.
use super::*;
use num_traits::{One, Zero};
use std::iter::FromIterator;

impl fmt::Display for ShapeError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("ShapeError") }
}
impl std::error::Error for ShapeError {}

unsafe impl<S: Data + Send, D: Send> Send for ArrayBase<S, D> where S::Elem: Send {}
unsafe impl<S: Data + Sync, D: Sync> Sync for ArrayBase<S, D> where S::Elem: Sync {}

pub fn arr1<A: Clone>(v: &[A]) -> Array1<A> { Array1::from_vec(v.to_vec()) }
pub fn arr2<A: Clone, const C: usize>(v: &[[A; C]]) -> Array2<A> { Array2::from_rows(v.to_vec()) }
pub fn aview1<A>(v: &[A]) -> ArrayView1<'_, A> { v.into() }

/// `azip!((a in &x, b in &y) *a = *b)`, the newer form, in terms of `Zip`.
#[macro_export]
macro_rules! azip {
    (($a:pat in $x:expr $(, $b:pat in $y:expr)* $(,)?) $body:expr) => {
        $crate::Zip::from($x)$(.and($y))*.apply(|$a $(, $b)*| { $body; })
    };
    ((index $i:pat, $a:pat in $x:expr $(, $b:pat in $y:expr)* $(,)?) $body:expr) => {
        $crate::Zip::indexed($x)$(.and($y))*.apply(|$i, $a $(, $b)*| { $body; })
    };
}

impl<A> From<Vec<A>> for Array1<A> {
    fn from(v: Vec<A>) -> Self { Array1::from_vec(v) }
}
impl<A> FromIterator<A> for Array1<A> {
    fn from_iter<I: IntoIterator<Item = A>>(i: I) -> Self { Array1::from_vec(i.into_iter().collect()) }
}
impl<'a, A> From<&'a [A]> for ArrayView1<'a, A> {
    fn from(v: &'a [A]) -> Self { ArrayBase { data: ViewRepr(PhantomData), ptr: v.as_ptr() as *mut A, dim: Dim([v.len()]), str_: Dim([1]) } }
}
impl<'a, A> From<&'a Vec<A>> for ArrayView1<'a, A> {
    fn from(v: &'a Vec<A>) -> Self { v.as_slice().into() }
}
impl<'a, A> From<&'a mut [A]> for ArrayViewMut1<'a, A> {
    fn from(v: &'a mut [A]) -> Self { ArrayBase { data: ViewRepr(PhantomData), ptr: v.as_mut_ptr(), dim: Dim([v.len()]), str_: Dim([1]) } }
}
impl<'a, A, S: Data<Elem = A>, D: Dimension> From<&'a ArrayBase<S, D>> for ArrayView<'a, A, D> {
    fn from(v: &'a ArrayBase<S, D>) -> Self { v.view() }
}
impl<'a, A, S: DataMut<Elem = A>, D: Dimension> From<&'a mut ArrayBase<S, D>> for ArrayViewMut<'a, A, D> {
    fn from(v: &'a mut ArrayBase<S, D>) -> Self { v.view_mut() }
}
impl<A: Default + Clone> Default for Array<A, Ix1> {
    fn default() -> Self { Array::from_vec(Vec::new()) }
}
impl<A: Default + Clone> Default for Array<A, Ix2> {
    fn default() -> Self { Array::from_vec_dim(Vec::new(), Dim([0, 0])) }
}

impl<A> Array<A, Ix1> {
    pub fn range(start: A, end: A, step: A) -> Self
    where
        A: num_traits::Float,
    {
        let n = ((end - start) / step).ceil();
        let n = n.to_usize().unwrap_or(0);
        Array::from_vec((0..n).map(|i| start + step * A::from(i).unwrap()).collect())
    }
    pub fn linspace(start: A, end: A, n: usize) -> Self
    where
        A: num_traits::Float,
    {
        let step = if n > 1 { (end - start) / A::from(n - 1).unwrap() } else { A::zero() };
        Array::from_vec((0..n).map(|i| start + step * A::from(i).unwrap()).collect())
    }
}
impl<A: Clone + Zero + One> Array<A, Ix2> {
    pub fn eye(n: usize) -> Self {
        let mut r = Self::zeros((n, n));
        for i in 0..n {
            r[[i, i]] = A::one();
        }
        r
    }
}
impl<A, D: Dimension> Array<A, D> {
    pub fn from_shape_vec<Sh: IntoDimension<Dim = D>>(shape: Sh, v: Vec<A>) -> Result<Self, ShapeError> {
        let dim = shape.into_dimension();
        if v.len() == dim.sl().iter().product::<usize>() { Ok(Self::from_vec_dim(v, dim)) } else { Err(ShapeError) }
    }
    pub fn from_shape_fn<Sh: IntoDimension<Dim = D>, F: FnMut(D::Pattern) -> A>(shape: Sh, mut f: F) -> Self
    where
        D: IndexPattern,
    {
        let dim = shape.into_dimension();
        let n = dim.sl().iter().product::<usize>();
        let v = (0..n).map(|k| f(dim.unravel(k))).collect();
        Self::from_vec_dim(v, dim)
    }
    pub fn ones<Sh: IntoDimension<Dim = D>>(shape: Sh) -> Self
    where
        A: Clone + One,
    {
        Self::from_elem(shape, A::one())
    }
    pub fn default<Sh: IntoDimension<Dim = D>>(shape: Sh) -> Self
    where
        A: Clone + Default,
    {
        Self::from_elem(shape, A::default())
    }
    pub fn into_raw_vec(self) -> Vec<A>
    where
        A: Clone,
    {
        self.iter().cloned().collect()
    }
    pub fn into_shape<Sh: IntoDimension>(self, shape: Sh) -> Result<Array<A, Sh::Dim>, ShapeError>
    where
        A: Clone,
    {
        Array::from_shape_vec(shape, self.into_raw_vec())
    }
}

fn contiguous<D: Dimension>(dim: &D, st: &D) -> bool {
    dim.sl().iter().any(|&n| n == 0)
        || dim.sl().iter().zip(st.sl().iter().zip(c_strides(dim).sl())).all(|(&n, (a, b))| n == 1 || a == b)
}

impl<S: Data, D: Dimension> ArrayBase<S, D> {
    pub fn ndim(&self) -> usize { self.shape().len() }
    pub fn raw_dim(&self) -> D { self.dim.clone() }
    pub fn strides(&self) -> Vec<isize> { self.str_.sl().iter().map(|&s| s as isize).collect() }
    pub fn as_ptr(&self) -> *const S::Elem { self.ptr }
    pub fn is_standard_layout(&self) -> bool { contiguous(&self.dim, &self.str_) }
    pub fn as_slice(&self) -> Option<&[S::Elem]> {
        if self.is_standard_layout() { Some(unsafe { std::slice::from_raw_parts(self.ptr, self.len()) }) } else { None }
    }
    pub fn as_slice_mut(&mut self) -> Option<&mut [S::Elem]>
    where
        S: DataMut,
    {
        if self.is_standard_layout() { Some(unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len()) }) } else { None }
    }
    pub fn into_owned(self) -> Array<S::Elem, D>
    where
        S::Elem: Clone,
    {
        self.to_owned()
    }
    pub fn into_dyn(self) -> ArrayBase<S, IxDyn> { self.into_dimensionality().unwrap() }
    pub fn swap_axes(&mut self, a: usize, b: usize) {
        self.dim.sl_mut().swap(a, b);
        self.str_.sl_mut().swap(a, b);
    }
    pub fn invert_axis(&mut self, a: Axis) {
        let (n, s) = (self.dim.sl()[a.0] as isize, self.str_.sl()[a.0] as isize);
        if n > 0 {
            self.ptr = unsafe { self.ptr.offset((n - 1) * s) };
        }
        self.str_.sl_mut()[a.0] = (-s) as usize;
    }
    pub fn insert_axis(self, a: Axis) -> ArrayBase<S, D::Larger> {
        let ins = |v: &[usize], x: usize| {
            let mut v = v.to_vec();
            v.insert(a.0, x);
            D::Larger::from_sl(&v).unwrap()
        };
        let (dim, str_) = (ins(self.dim.sl(), 1), ins(self.str_.sl(), 0));
        ArrayBase { data: self.data, ptr: self.ptr, dim, str_ }
    }
    pub fn first(&self) -> Option<&S::Elem> { self.iter().next() }
    pub fn last(&self) -> Option<&S::Elem> { self.iter().last() }
    pub fn indexed_iter(&self) -> std::vec::IntoIter<(D::Pattern, &S::Elem)>
    where
        D: IndexPattern,
    {
        self.iter().enumerate().map(|(k, x)| (self.dim.unravel(k), x)).collect::<Vec<_>>().into_iter()
    }
    pub fn indexed_iter_mut(&mut self) -> std::vec::IntoIter<(D::Pattern, &mut S::Elem)>
    where
        S: DataMut,
        D: IndexPattern,
    {
        let dim = self.dim.clone();
        self.iter_mut().enumerate().map(|(k, x)| (dim.unravel(k), x)).collect::<Vec<_>>().into_iter()
    }
    pub fn axis_iter(&self, a: Axis) -> std::vec::IntoIter<ArrayView<'_, S::Elem, D::Smaller>> {
        (0..self.len_of(a)).map(|i| self.index_axis(a, i)).collect::<Vec<_>>().into_iter()
    }
    pub fn axis_iter_mut(&mut self, a: Axis) -> std::vec::IntoIter<ArrayViewMut<'_, S::Elem, D::Smaller>>
    where
        S: DataMut,
    {
        (0..self.len_of(a))
            .map(|i| {
                let (ptr, dim, str_) = self.sub(a, i);
                ArrayBase { data: ViewRepr(PhantomData), ptr, dim, str_ }
            })
            .collect::<Vec<_>>()
            .into_iter()
    }
    pub fn outer_iter(&self) -> std::vec::IntoIter<ArrayView<'_, S::Elem, D::Smaller>> { self.axis_iter(Axis(0)) }
    pub fn outer_iter_mut(&mut self) -> std::vec::IntoIter<ArrayViewMut<'_, S::Elem, D::Smaller>>
    where
        S: DataMut,
    {
        self.axis_iter_mut(Axis(0))
    }
    pub fn subview(&self, a: Axis, i: usize) -> ArrayView<'_, S::Elem, D::Smaller> { self.index_axis(a, i) }
    pub fn subview_mut(&mut self, a: Axis, i: usize) -> ArrayViewMut<'_, S::Elem, D::Smaller>
    where
        S: DataMut,
    {
        self.index_axis_mut(a, i)
    }
    pub fn index_axis_move(self, a: Axis, i: usize) -> ArrayBase<S, D::Smaller> {
        let (ptr, dim, str_) = self.sub(a, i);
        ArrayBase { data: self.data, ptr, dim, str_ }
    }
    pub fn rows(&self) -> Lanes<'_, S::Elem> { self.genrows() }
    pub fn rows_mut(&mut self) -> LanesMut<'_, S::Elem>
    where
        S: DataMut,
    {
        self.genrows_mut()
    }
    pub fn lanes(&self, a: Axis) -> Lanes<'_, S::Elem> {
        let mut v = self.view();
        let n = v.ndim();
        v.swap_axes(a.0, n - 1);
        let (p, dim, str_) = v.lane_ptrs();
        Lanes(p.into_iter().map(|ptr| ArrayBase { data: ViewRepr(PhantomData), ptr, dim, str_ }).collect())
    }
    pub fn gencolumns(&self) -> Lanes<'_, S::Elem> { self.lanes(Axis(0)) }
    pub fn columns(&self) -> Lanes<'_, S::Elem> { self.lanes(Axis(0)) }
    pub fn map_inplace<F: FnMut(&mut S::Elem)>(&mut self, mut f: F)
    where
        S: DataMut,
    {
        for x in self.iter_mut() {
            f(x);
        }
    }
    pub fn mapv_into<F: FnMut(S::Elem) -> S::Elem>(mut self, f: F) -> Self
    where
        S: DataMut,
        S::Elem: Clone,
    {
        self.mapv_inplace(f);
        self
    }
    pub fn for_each<'a, F: FnMut(&'a S::Elem)>(&'a self, mut f: F) {
        for x in self.iter() {
            f(x);
        }
    }
    pub fn visit<'a, F: FnMut(&'a S::Elem)>(&'a self, f: F) { self.for_each(f) }
    pub fn fold<'a, B, F: FnMut(B, &'a S::Elem) -> B>(&'a self, b: B, f: F) -> B { self.iter().fold(b, f) }
    pub fn zip_mut_with<B, S2, E, F>(&mut self, rhs: &ArrayBase<S2, E>, f: F)
    where
        S: DataMut,
        S2: Data<Elem = B>,
        E: Dimension,
        F: FnMut(&mut S::Elem, &B),
    {
        self.zip2(rhs, f);
    }
    pub fn assign_to<S2>(&self, to: &mut ArrayBase<S2, D>)
    where
        S2: DataMut<Elem = S::Elem>,
        S::Elem: Clone,
    {
        to.assign(self);
    }
    pub fn swap<I>(&mut self, i: I, j: I)
    where
        S: DataMut,
        Self: IndexMut<I, Output = S::Elem>,
    {
        let (a, b): (*mut S::Elem, *mut S::Elem) = (&mut self[i], &mut self[j]);
        unsafe { std::ptr::swap(a, b) }
    }
    pub fn get<I: IntoDimension<Dim = D>>(&self, i: I) -> Option<&S::Elem> { self.offset_of(i).map(|o| unsafe { &*self.ptr.offset(o) }) }
    pub fn get_mut<I: IntoDimension<Dim = D>>(&mut self, i: I) -> Option<&mut S::Elem>
    where
        S: DataMut,
    {
        self.offset_of(i).map(|o| unsafe { &mut *self.ptr.offset(o) })
    }
    /// # Safety
    /// the index is in bounds
    pub unsafe fn uget<I: IntoDimension<Dim = D>>(&self, i: I) -> &S::Elem { self.get(i).unwrap() }
    /// # Safety
    /// the index is in bounds
    pub unsafe fn uget_mut<I: IntoDimension<Dim = D>>(&mut self, i: I) -> &mut S::Elem
    where
        S: DataMut,
    {
        self.get_mut(i).unwrap()
    }
    fn offset_of<I: IntoDimension<Dim = D>>(&self, i: I) -> Option<isize> {
        let i = i.into_dimension();
        if i.sl().iter().zip(self.dim.sl()).any(|(a, b)| a >= b) {
            return None;
        }
        Some(i.sl().iter().zip(self.str_.sl()).map(|(&a, &s)| a as isize * s as isize).sum())
    }
    pub fn product(&self) -> S::Elem
    where
        S::Elem: Clone + One + Mul<Output = S::Elem>,
    {
        self.iter().fold(One::one(), |a: S::Elem, x| a * x.clone())
    }
    /// ndarray 0.12 has no `mean`; the newer one returns an option
    pub fn mean(&self) -> Option<S::Elem>
    where
        S::Elem: Clone + num_traits::FromPrimitive + Zero + Add<Output = S::Elem> + Div<Output = S::Elem>,
    {
        if self.is_empty() { None } else { Some(self.sum() / num_traits::FromPrimitive::from_usize(self.len()).unwrap()) }
    }
    pub fn map_axis<'a, B, F: FnMut(ArrayView1<'a, S::Elem>) -> B>(&'a self, a: Axis, f: F) -> Array<B, D::Smaller>
    where
        S::Elem: 'a,
    {
        let mut v = self.dim.sl().to_vec();
        v.remove(a.0);
        Array::from_vec_dim(self.lanes(a).into_iter().map(f).collect(), D::Smaller::from_sl(&v).unwrap())
    }
    pub fn fold_axis<B: Clone, F: FnMut(&B, &S::Elem) -> B>(&self, a: Axis, b: B, mut f: F) -> Array<B, D::Smaller> {
        self.map_axis(a, |l| l.into_iter().fold(b.clone(), |x, y| f(&x, y)))
    }
    pub fn all_close<S2: Data<Elem = S::Elem>>(&self, rhs: &ArrayBase<S2, D>, tol: S::Elem) -> bool
    where
        S::Elem: num_traits::Float,
    {
        self.shape() == rhs.shape() && self.iter().zip(rhs.iter()).all(|(a, b)| num_traits::Float::abs(*a - *b) <= tol)
    }
}

impl<S: Data> ArrayBase<S, Ix1> {
    pub fn to_vec(&self) -> Vec<S::Elem>
    where
        S::Elem: Clone,
    {
        self.iter().cloned().collect()
    }
    pub fn into_vec(self) -> Vec<S::Elem>
    where
        S::Elem: Clone,
    {
        self.to_vec()
    }
}
impl<S: Data> ArrayBase<S, Ix2> {
    pub fn nrows(&self) -> usize { self.shape()[0] }
    pub fn ncols(&self) -> usize { self.shape()[1] }
    /// ndarray 0.12's names
    pub fn is_square(&self) -> bool { self.nrows() == self.ncols() }
    pub fn row(&self, i: usize) -> ArrayView1<'_, S::Elem> { self.index_axis(Axis(0), i) }
    pub fn column(&self, i: usize) -> ArrayView1<'_, S::Elem> { self.index_axis(Axis(1), i) }
    pub fn row_mut(&mut self, i: usize) -> ArrayViewMut1<'_, S::Elem>
    where
        S: DataMut,
    {
        self.index_axis_mut(Axis(0), i)
    }
    pub fn column_mut(&mut self, i: usize) -> ArrayViewMut1<'_, S::Elem>
    where
        S: DataMut,
    {
        self.index_axis_mut(Axis(1), i)
    }
    fn diag_parts(&self) -> (*mut S::Elem, Ix1, Ix1) {
        (self.ptr, Dim([self.nrows().min(self.ncols())]), Dim([self.str_.0[0].wrapping_add(self.str_.0[1])]))
    }
    pub fn diag(&self) -> ArrayView1<'_, S::Elem> {
        let (ptr, dim, str_) = self.diag_parts();
        ArrayBase { data: ViewRepr(PhantomData), ptr, dim, str_ }
    }
    pub fn diag_mut(&mut self) -> ArrayViewMut1<'_, S::Elem>
    where
        S: DataMut,
    {
        let (ptr, dim, str_) = self.diag_parts();
        ArrayBase { data: ViewRepr(PhantomData), ptr, dim, str_ }
    }
}
impl<A, S, S2> linalg::Dot<ArrayBase<S2, Ix1>> for ArrayBase<S, Ix2>
where
    S: Data<Elem = A>,
    S2: Data<Elem = A>,
    A: Clone + Add<Output = A> + Mul<Output = A> + Zero,
{
    type Output = Array1<A>;
    fn dot(&self, rhs: &ArrayBase<S2, Ix1>) -> Array1<A> { self.genrows().into_iter().map(|r| r.dot(rhs)).collect() }
}
impl<A, S, S2> linalg::Dot<ArrayBase<S2, Ix2>> for ArrayBase<S, Ix2>
where
    S: Data<Elem = A>,
    S2: Data<Elem = A>,
    A: Clone + Add<Output = A> + Mul<Output = A> + Zero,
{
    type Output = Array2<A>;
    fn dot(&self, rhs: &ArrayBase<S2, Ix2>) -> Array2<A> {
        assert_eq!(self.ncols(), rhs.nrows());
        Array2::from_shape_fn((self.nrows(), rhs.ncols()), |(i, j)| self.row(i).dot(&rhs.column(j)))
    }
}

impl<'a, A, D: Dimension> ArrayView<'a, A, D> {
    pub fn split_at(self, a: Axis, k: usize) -> (Self, Self) {
        let (p, d, s) = self.cut(&[(a.0, Slice::from(..k))]);
        let (q, e, t) = self.cut(&[(a.0, Slice::from(k..))]);
        (
            ArrayBase { data: ViewRepr(PhantomData), ptr: p, dim: d, str_: s },
            ArrayBase { data: ViewRepr(PhantomData), ptr: q, dim: e, str_: t },
        )
    }
}
impl<'a, A, D: Dimension> ArrayViewMut<'a, A, D> {
    pub fn split_at(self, a: Axis, k: usize) -> (Self, Self) {
        let (p, d, s) = self.cut(&[(a.0, Slice::from(..k))]);
        let (q, e, t) = self.cut(&[(a.0, Slice::from(k..))]);
        (
            ArrayBase { data: ViewRepr(PhantomData), ptr: p, dim: d, str_: s },
            ArrayBase { data: ViewRepr(PhantomData), ptr: q, dim: e, str_: t },
        )
    }
}
impl<'a, A: 'a, D: Dimension> IntoIterator for ArrayView<'a, A, D> {
    type Item = &'a A;
    type IntoIter = std::vec::IntoIter<&'a A>;
    fn into_iter(self) -> Self::IntoIter { self.items().1.into_iter() }
}
impl<'a, A: 'a, D: Dimension> IntoIterator for ArrayViewMut<'a, A, D> {
    type Item = &'a mut A;
    type IntoIter = std::vec::IntoIter<&'a mut A>;
    fn into_iter(self) -> Self::IntoIter { self.items().1.into_iter() }
}
impl<'a, S: Data, D: Dimension> IntoIterator for &'a ArrayBase<S, D> {
    type Item = &'a S::Elem;
    type IntoIter = std::vec::IntoIter<&'a S::Elem>;
    fn into_iter(self) -> Self::IntoIter { self.iter() }
}
impl<'a, S: DataMut, D: Dimension> IntoIterator for &'a mut ArrayBase<S, D> {
    type Item = &'a mut S::Elem;
    type IntoIter = std::vec::IntoIter<&'a mut S::Elem>;
    fn into_iter(self) -> Self::IntoIter { self.iter_mut() }
}
impl<'a, A> IntoNdProducer for &'a [A] {
    type Item = &'a A;
    type Dim = Ix1;
    fn items(self) -> (Ix1, Vec<&'a A>) { (Dim([self.len()]), self.iter().collect()) }
}
impl<'a, A> IntoNdProducer for &'a mut [A] {
    type Item = &'a mut A;
    type Dim = Ix1;
    fn items(self) -> (Ix1, Vec<&'a mut A>) { (Dim([self.len()]), self.iter_mut().collect()) }
}
impl<'a, A> IntoNdProducer for &'a Vec<A> {
    type Item = &'a A;
    type Dim = Ix1;
    fn items(self) -> (Ix1, Vec<&'a A>) { self.as_slice().items() }
}
impl<'a, A> IntoNdProducer for &'a mut Vec<A> {
    type Item = &'a mut A;
    type Dim = Ix1;
    fn items(self) -> (Ix1, Vec<&'a mut A>) { self.as_mut_slice().items() }
}

macro_rules! scalar_ops {
    ($f:ty: $($T:ident $m:ident)+) => { $(
        impl<S: DataOwned<Elem = $f> + DataMut, D: Dimension> $T<ArrayBase<S, D>> for $f {
            type Output = ArrayBase<S, D>;
            fn $m(self, mut rhs: ArrayBase<S, D>) -> ArrayBase<S, D> {
                rhs.mapv_inplace(|x| self.$m(x));
                rhs
            }
        }
        impl<'a, S: Data<Elem = $f>, D: Dimension> $T<&'a ArrayBase<S, D>> for $f {
            type Output = Array<$f, D>;
            fn $m(self, rhs: &'a ArrayBase<S, D>) -> Array<$f, D> { rhs.mapv(|x| self.$m(x)) }
        }
    )+ };
}
scalar_ops!(f64: Add add Sub sub Mul mul Div div);
scalar_ops!(f32: Add add Sub sub Mul mul Div div);
impl<'a, A, S, D> Neg for &'a ArrayBase<S, D>
where
    A: Clone + Neg<Output = A>,
    S: Data<Elem = A>,
    D: Dimension,
{
    type Output = Array<A, D>;
    fn neg(self) -> Array<A, D> { self.map(|x| -x.clone()) }
}
macro_rules! mixed_ops {
    ($($T:ident $f:ident)+) => { $(
        // &a op b, as newer versions have it
        impl<'a, A, S, S2, D> $T<ArrayBase<S2, D>> for &'a ArrayBase<S, D>
        where
            A: Clone + $T<A, Output = A>,
            S: Data<Elem = A>,
            S2: DataOwned<Elem = A> + DataMut,
            D: Dimension,
        {
            type Output = ArrayBase<S2, D>;
            fn $f(self, mut rhs: ArrayBase<S2, D>) -> ArrayBase<S2, D> {
                rhs.zip2(self, |y, x| *y = x.clone().$f(y.clone()));
                rhs
            }
        }
    )+ };
}
mixed_ops!(Add add Sub sub Mul mul Div div);
