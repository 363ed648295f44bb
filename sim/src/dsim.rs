//! Dense-level simulation: the real `linear::Dense` used by several sessions whose calls are
//! interleaved, with matrices that fail to factor or carry non-finite data as the injected faults.

use crate::common::*;
use crate::exec::{self, YieldFn};
use crate::rng::{mix, Rng};
use linear::{Dense, LSolver};
use nalgebra::allocator::Allocator;
use nalgebra::{Const, DefaultAllocator, DimName, Dyn, MatrixViewMut, OMatrix, OVector};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mk {
    Rand,
    TinyDiag,
    PermTri,
    Sparse,
    Graded,
    NegDom,
    Scaled,
    Ill,
    Growth,
    Perm,
    HugeEntry,
    ZeroDiag,
    /// exact elimination, no zero pivot, columns scaled by powers of two
    ExactOk,
    /// exact elimination whose step `col` finds a zero column
    ExactSingular,
    /// a row (not column) of zeros, exact elimination
    ZeroRow,
    Zero,
    NonFinite,
}

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Debug)]
pub struct MatSpec {
    pub kind: Mk,
    pub seed: u64,
    /// column (from 0) at which ExactSingular fails
    pub col: usize,
    /// power-of-two scaling range
    pub scale: i32,
}

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rk {
    Rand,
    Unit,
    Zero,
    Huge,
    Tiny,
    Small,
    SparseB,
    NanB,
    /// the same right-hand side as the previous solve
    Again,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum DOp {
    Setup { mat: MatSpec, layout: u8 },
    Solve { rhs: Rk, seed: u64, xfill: u8, layout: u8 },
    Fork { ops: Vec<DOp>, order: u8 },
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct DSession {
    pub f32: bool,
    pub n: usize,
    pub start: u64,
    pub lat: Vec<u32>,
    pub ops: Vec<DOp>,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct DPlan {
    pub sessions: Vec<DSession>,
}

/// 2^e, subnormal results included (powi may go through an overflowing reciprocal)
fn pow2(e: i32) -> f64 {
    if e < -1000 {
        2f64.powi(e + 1000) * 2f64.powi(-1000)
    } else {
        2f64.powi(e)
    }
}

pub const SIZES: [usize; 20] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 24, 32, 33, 48, 64, 70];

/// The matrix (column-major) a spec stands for, already rounded to the scalar type.
pub fn build(m: &MatSpec, n: usize, f32: bool) -> Vec<f64> {
    let mut r = Rng::new(mix(m.seed, 0xA11CE));
    let mut a = vec![0.0; n * n];
    let ix = |i: usize, j: usize| j * n + i;
    let perm = |r: &mut Rng| {
        let mut p: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            p.swap(i, r.us(i + 1));
        }
        p
    };
    let tiny = if f32 { 1e-6 } else { 1e-13 };
    match m.kind {
        Mk::Rand | Mk::Scaled | Mk::Graded => a.iter_mut().for_each(|x| *x = r.s()),
        Mk::TinyDiag => {
            a.iter_mut().for_each(|x| *x = r.s());
            for i in 0..n {
                a[ix(i, i)] *= tiny;
            }
            if n == 1 {
                a[0] = tiny
            }
        }
        Mk::ZeroDiag => {
            a.iter_mut().for_each(|x| *x = r.s());
            if n > 1 {
                for i in 0..n {
                    a[ix(i, i)] = 0.0;
                }
            }
        }
        Mk::PermTri => {
            let p = perm(&mut r);
            let up = r.chance(0.5);
            for j in 0..n {
                for i in 0..n {
                    let x = if i == j {
                        (1.0 + r.f()) * if r.chance(0.5) { -1.0 } else { 1.0 }
                    } else if (i < j) == up {
                        r.s() * 0.7
                    } else {
                        0.0
                    };
                    a[ix(p[i], j)] = x;
                }
            }
        }
        Mk::Sparse => {
            let p = perm(&mut r);
            for j in 0..n {
                for i in 0..n {
                    if r.chance(0.2) {
                        a[ix(i, j)] = r.s();
                    }
                }
            }
            for j in 0..n {
                a[ix(p[j], j)] = (2.0 + r.f()) * if r.chance(0.5) { -1.0 } else { 1.0 };
            }
        }
        Mk::NegDom => {
            let p = perm(&mut r);
            a.iter_mut().for_each(|x| *x = r.f() * 0.4);
            for j in 0..n {
                a[ix(p[j], j)] = -(1.0 + r.f()) * n as f64;
            }
        }
        Mk::Ill => {
            // Hilbert-like, increasingly ill-conditioned
            for j in 0..n {
                for i in 0..n {
                    a[ix(i, j)] = 1.0 / (i + j + 1) as f64 + 1e-3 * r.s() / (1 + i * j) as f64;
                }
            }
        }
        Mk::Growth => {
            for j in 0..n {
                for i in 0..n {
                    a[ix(i, j)] = if j == n - 1 || i == j {
                        1.0
                    } else if i > j {
                        -1.0
                    } else {
                        0.0
                    } * (1.0 - if i > j { 0.01 + 0.05 * r.f() } else { 0.0 });
                }
            }
        }
        Mk::Perm => {
            let p = perm(&mut r);
            for j in 0..n {
                a[ix(p[j], j)] = 2f64.powi(r.us(9) as i32 - 4) * if r.chance(0.5) { -1.0 } else { 1.0 };
            }
        }
        Mk::HugeEntry => {
            a.iter_mut().for_each(|x| *x = r.s());
            let (i, j) = (r.us(n), r.us(n));
            a[ix(i, j)] = if f32 { 1e5 } else { 1e10 };
        }
        Mk::Zero => {
            if r.chance(0.5) {
                a.iter_mut().for_each(|x| *x = -0.0)
            }
        }
        Mk::NonFinite => {
            a.iter_mut().for_each(|x| *x = r.s());
            for _ in 0..1 + r.us(3) {
                let (i, j) = (r.us(n), r.us(n));
                a[ix(i, j)] = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            }
        }
        Mk::ExactOk | Mk::ExactSingular | Mk::ZeroRow => {
            // A = P L U with |l| < 1 in quarters and power-of-two pivots: elimination is exact, and
            // every pivot is the strict maximum of its column
            let p = perm(&mut r);
            let dens = *r.pick(&[1.0, 0.6, 0.3]);
            let mut l = vec![0.0; n * n];
            let mut u = vec![0.0; n * n];
            for j in 0..n {
                for i in 0..n {
                    if i > j && r.chance(dens) {
                        l[ix(i, j)] = (r.us(7) as f64 - 3.0) * 0.25;
                    }
                    if i < j && r.chance(dens) {
                        u[ix(i, j)] = r.us(9) as f64 - 4.0;
                    }
                }
                l[ix(j, j)] = 1.0;
                u[ix(j, j)] = *r.pick(&[1.0, 2.0, 4.0, -1.0, -2.0, -4.0]);
            }
            match m.kind {
                Mk::ExactSingular => {
                    u[ix(m.col, m.col)] = 0.0;
                    if r.chance(0.3) {
                        // further dependent columns behind the first
                        for j in m.col + 1..n {
                            if r.chance(0.4) {
                                u[ix(j, j)] = 0.0
                            }
                        }
                    }
                }
                Mk::ZeroRow => {
                    for j in 0..n {
                        l[ix(n - 1, j)] = 0.0;
                    }
                    l[ix(n - 1, n - 1)] = 1.0;
                    u[ix(n - 1, n - 1)] = 0.0;
                }
                _ => {}
            }
            for j in 0..n {
                let mut e = (r.s() * m.scale as f64) as i32;
                if m.scale > if f32 { 30 } else { 300 } && e > 0 {
                    e = if r.chance(0.5) { -e } else { 0 };
                }
                let s = pow2(e);
                for i in 0..n {
                    let mut x = 0.0;
                    for k in 0..=i.min(j) {
                        x += l[ix(i, k)] * u[ix(k, j)];
                    }
                    a[ix(p[i], j)] = if x == 0.0 && r.chance(0.2) { -0.0 } else { x * s };
                }
            }
        }
    }
    match m.kind {
        Mk::Scaled => {
            let s = 2f64.powi((r.s() * if f32 { 30.0 } else { 100.0 }) as i32);
            a.iter_mut().for_each(|x| *x *= s);
        }
        Mk::Graded => {
            let e = if f32 { 12.0 } else { 40.0 };
            let rs: Vec<f64> = (0..n).map(|_| 2f64.powi((r.s() * e) as i32)).collect();
            let cs: Vec<f64> = (0..n).map(|_| 2f64.powi((r.s() * e) as i32)).collect();
            let both = r.us(3);
            for j in 0..n {
                for i in 0..n {
                    if both != 1 {
                        a[ix(i, j)] *= rs[i];
                    }
                    if both != 0 {
                        a[ix(i, j)] *= cs[j];
                    }
                }
            }
        }
        _ => {}
    }
    if f32 {
        a.iter_mut().for_each(|x| *x = *x as f32 as f64);
    }
    a
}

/// What setup must answer, where that is determined exactly.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Expect {
    Ok,
    Err(usize),
    Any,
}
pub fn expect(m: &MatSpec, n: usize) -> Expect {
    match m.kind {
        Mk::ExactSingular => Expect::Err(m.col + 1),
        Mk::ZeroRow => Expect::Err(n),
        Mk::Zero => Expect::Err(1),
        Mk::NonFinite => Expect::Any,
        _ => Expect::Ok,
    }
}

pub fn rhs(k: Rk, seed: u64, n: usize, f32: bool, prev: &[f64]) -> Vec<f64> {
    let mut r = Rng::new(mix(seed, 0xB0B));
    let mut b: Vec<f64> = (0..n).map(|_| r.s() * 10.0).collect();
    match k {
        Rk::Rand => {}
        Rk::Unit => {
            let j = r.us(n);
            b = (0..n).map(|i| if i == j { 1.0 } else { 0.0 }).collect()
        }
        Rk::Zero => b = vec![0.0; n],
        Rk::Huge => b.iter_mut().for_each(|x| *x *= if f32 { 1e12 } else { 1e60 }),
        Rk::Tiny => b.iter_mut().for_each(|x| *x *= if f32 { 1e-12 } else { 1e-60 }),
        // small enough for solutions in the units of subnormal columns to be finite
        Rk::Small => {
            let f = 2f64.powi(-(r.us(if f32 { 28 } else { 90 }) as i32));
            b.iter_mut().for_each(|x| *x *= f)
        }
        Rk::SparseB => b.iter_mut().for_each(|x| {
            if r.chance(0.7) {
                *x = 0.0
            }
        }),
        Rk::NanB => {
            let j = r.us(n);
            b[j] = f64::NAN
        }
        Rk::Again => {
            if prev.len() == n {
                b = prev.to_vec()
            }
        }
    }
    if f32 {
        b.iter_mut().for_each(|x| *x = *x as f32 as f64);
    }
    b
}

#[derive(Clone, Debug)]
pub enum DRec {
    Setup { mat: MatSpec, a: Vec<f64>, res: Result<(), usize>, lu: Vec<f64>, stray: bool },
    Solve {
        b: Vec<f64>,
        x: Vec<f64>,
        ok: bool,
        /// factors / right-hand side / anything else changed
        fac_changed: bool,
        rhs_changed: bool,
        stray: bool,
        kind: Rk,
    },
    Panic(String),
    Skip,
}

#[derive(Clone, Debug)]
pub enum DItem {
    One(DRec),
    Fork { clone: Vec<DRec>, orig: Vec<DRec> },
}

impl DRec {
    fn hash_into(&self, h: &mut H) {
        match self {
            DRec::Setup { a, res, lu, stray, .. } => {
                h.u(1);
                h.v(a);
                h.u(match res {
                    Ok(()) => 0,
                    Err(c) => 1 + *c as u64,
                });
                h.v(lu);
                h.u(*stray as u64);
            }
            DRec::Solve { b, x, ok, fac_changed, rhs_changed, stray, .. } => {
                h.u(2);
                h.v(b);
                h.v(x);
                h.u(*ok as u64 + 2 * *fac_changed as u64 + 4 * *rhs_changed as u64 + 8 * *stray as u64);
            }
            DRec::Panic(_) => h.u(3),
            DRec::Skip => h.u(4),
        }
    }
    /// Difference visible to the caller (the contents a failed setup leaves are not compared).
    fn diff(&self, o: &DRec) -> Option<String> {
        match (self, o) {
            (DRec::Setup { res: r1, lu: l1, .. }, DRec::Setup { res: r2, lu: l2, .. }) => {
                if r1 != r2 {
                    return Some(format!("setup answers {r1:?} instead of {r2:?}"));
                }
                if r1.is_ok() && !biteq(l1, l2) {
                    return Some("setup leaves other factors".into());
                }
                None
            }
            (DRec::Solve { x: x1, ok: k1, .. }, DRec::Solve { x: x2, ok: k2, .. }) => {
                if k1 != k2 || !biteq(x1, x2) {
                    return Some(format!("solution {} instead of {}", short(x1), short(x2)));
                }
                None
            }
            (DRec::Panic(a), DRec::Panic(_)) => Some(format!("panics: {a}")),
            (DRec::Skip, DRec::Skip) => None,
            (a, b) => Some(format!("{a:?} instead of {b:?}")),
        }
    }
}

pub fn short(v: &[f64]) -> String {
    if v.len() <= 4 {
        format!("{v:?}")
    } else {
        format!("{:?}...({})", &v[..4], v.len())
    }
}

/// Column-major storage with optional padding and strides, surrounded by canaries.
/// layout 0: owned matrix; 1: contiguous view with offset; 2: padded columns; 3: strided rows and columns
#[derive(Clone)]
struct Buf<T> {
    d: Vec<T>,
    off: usize,
    rs: usize,
    cs: usize,
    n: usize,
    m: usize,
}
const CANARY: f64 = 12345.0;
impl<T: Sc> Buf<T> {
    fn new(v: &[f64], n: usize, m: usize, layout: u8) -> Buf<T> {
        let (off, rs, cs) = match layout {
            0 => (0, 1, n),
            1 => (3, 1, n),
            2 => (3, 1, n + 3),
            _ => (5, 2, 2 * n + 3),
        };
        let len = off + rs * (n - 1) + cs * (m - 1) + 1 + if layout == 0 { 0 } else { 5 };
        let mut b = Buf { d: vec![T::of(CANARY); len], off, rs, cs, n, m };
        for j in 0..m {
            for i in 0..n {
                let k = b.at(i, j);
                b.d[k] = T::of(v[j * n + i]);
            }
        }
        b
    }
    fn at(&self, i: usize, j: usize) -> usize {
        self.off + i * self.rs + j * self.cs
    }
    fn get(&self) -> Vec<f64> {
        let mut v = vec![];
        for j in 0..self.m {
            for i in 0..self.n {
                v.push(self.d[self.at(i, j)].f());
            }
        }
        v
    }
    /// is everything outside the matrix as it was
    fn stray(&self) -> bool {
        let mut inside = vec![false; self.d.len()];
        for j in 0..self.m {
            for i in 0..self.n {
                inside[self.at(i, j)] = true;
            }
        }
        self.d.iter().zip(&inside).any(|(x, i)| !i && x.f() != CANARY)
    }
    fn raw(&self) -> Vec<f64> {
        self.d.iter().map(|x| x.f()).collect()
    }
}

pub trait DSess {
    fn run(&mut self, op: &DOp) -> DRec;
    fn fork(&self) -> Box<dyn DSess>;
}

struct DSessT<T: Sc, const N: usize>
where
    DefaultAllocator: Allocator<usize, Const<N>>,
{
    s: Dense<Const<N>>,
    fac: Option<Buf<T>>,
    layout: u8,
    prev: Vec<f64>,
}

fn fills(k: u8, n: usize, b: &[f64]) -> Vec<f64> {
    match k {
        0 => vec![0.0; n],
        1 => vec![f64::NAN; n],
        2 => vec![1e30; n],
        _ => b.iter().map(|x| -x).collect(),
    }
}

impl<T: Sc, const N: usize> DSess for DSessT<T, N>
where
    Const<N>: DimName,
    DefaultAllocator: Allocator<T, Const<N>> + Allocator<T, Const<N>, Const<N>> + Allocator<usize, Const<N>>,
{
    fn run(&mut self, op: &DOp) -> DRec {
        match op {
            DOp::Setup { mat, layout } => {
                let a = build(mat, N, T::IS32);
                let s = &mut self.s;
                let mut buf = Buf::<T>::new(&a, N, N, *layout);
                let r = if *layout == 0 {
                    let mut m = OMatrix::<T, Const<N>, Const<N>>::from_fn(|i, j| T::of(a[j * N + i]));
                    let r = guarded(|| s.setup(&mut m));
                    for j in 0..N {
                        for i in 0..N {
                            buf.d[j * N + i] = m[(i, j)];
                        }
                    }
                    r
                } else {
                    let (rs, cs, off) = (buf.rs, buf.cs, buf.off);
                    let mut m = MatrixViewMut::from_slice_with_strides_generic(
                        &mut buf.d[off..],
                        Const::<N>,
                        Const::<N>,
                        Dyn(rs),
                        Dyn(cs),
                    );
                    guarded(|| LSolver::<T, Const<N>>::setup(s, &mut m))
                };
                let res = match r {
                    Ok(Ok(())) => Ok(()),
                    Ok(Err(linear::Error::LUFactFail { col })) => Err(col),
                    Err(Caught::Lib(m)) => return DRec::Panic(m),
                    Err(_) => return DRec::Panic(String::new()),
                };
                let stray = buf.stray();
                let lu = buf.get();
                self.layout = *layout;
                self.fac = if res.is_ok() { Some(buf) } else { None };
                if res.is_err() {
                    fault("singular matrix");
                }
                if mat.kind == Mk::NonFinite {
                    fault("non-finite matrix");
                }
                DRec::Setup { mat: *mat, a, res, lu, stray }
            }
            DOp::Solve { rhs: k, seed, xfill, layout } => {
                let Some(fac) = &mut self.fac else { return DRec::Skip };
                let b = rhs(*k, *seed, N, T::IS32, &self.prev);
                self.prev = b.clone();
                if *k == Rk::NanB {
                    fault("non-finite right-hand side");
                }
                if *xfill == 1 {
                    fault("solution vector holds NaN on entry");
                }
                let before = fac.raw();
                let s = &self.s;
                let xin = fills(*xfill, N, &b);
                let mut bx = Buf::<T>::new(&xin, N, 1, *layout);
                let mut bb = Buf::<T>::new(&b, N, 1, *layout);
                let b_before = bb.raw();
                let r = if *layout == 0 && self.layout == 0 {
                    let m = OMatrix::<T, Const<N>, Const<N>>::from_fn(|i, j| fac.d[j * N + i]);
                    let bv = OVector::<T, Const<N>>::from_fn(|i, _| bb.d[i]);
                    let mut xv = OVector::<T, Const<N>>::from_fn(|i, _| bx.d[i]);
                    let r = guarded(|| s.solve(&m, &mut xv, &bv, T::of(0.0)));
                    for j in 0..N {
                        for i in 0..N {
                            fac.d[j * N + i] = m[(i, j)];
                        }
                        bx.d[j] = xv[j];
                        bb.d[j] = bv[j];
                    }
                    r
                } else {
                    let (o, rs, cs) = (fac.off, fac.rs, fac.cs);
                    let m = MatrixViewMut::from_slice_with_strides_generic(&mut fac.d[o..], Const::<N>, Const::<N>, Dyn(rs), Dyn(cs));
                    let (o, rs, cs) = (bx.off, bx.rs, bx.cs);
                    let mut xv = MatrixViewMut::from_slice_with_strides_generic(&mut bx.d[o..], Const::<N>, Const::<1>, Dyn(rs), Dyn(cs));
                    let bv = MatrixViewMut::from_slice_with_strides_generic(&mut bb.d[o..], Const::<N>, Const::<1>, Dyn(rs), Dyn(cs));
                    guarded(|| s.solve(&m, &mut xv, &bv, T::of(0.0)))
                };
                let ok = match r {
                    Ok(r) => r.is_ok(),
                    Err(Caught::Lib(m)) => return DRec::Panic(m),
                    Err(_) => return DRec::Panic(String::new()),
                };
                DRec::Solve {
                    x: bx.get(),
                    ok,
                    fac_changed: !biteq(&before, &fac.raw()),
                    rhs_changed: !biteq(&b_before, &bb.raw()),
                    stray: bx.stray() || bb.stray() || fac.stray(),
                    b,
                    kind: *k,
                }
            }
            DOp::Fork { .. } => DRec::Skip,
        }
    }
    fn fork(&self) -> Box<dyn DSess> {
        Box::new(DSessT::<T, N> {
            s: self.s.clone(),
            fac: self.fac.clone(),
            layout: self.layout,
            prev: self.prev.clone(),
        })
    }
}

fn mk<T: Sc, const N: usize>() -> Box<dyn DSess>
where
    Const<N>: DimName,
    DefaultAllocator: Allocator<T, Const<N>> + Allocator<T, Const<N>, Const<N>> + Allocator<usize, Const<N>>,
{
    Box::new(DSessT::<T, N> { s: <Dense<Const<N>> as LSolver<T, Const<N>>>::new(), fac: None, layout: 0, prev: vec![] })
}

pub fn make(f32: bool, n: usize) -> Box<dyn DSess> {
    macro_rules! d {
        ($($k:literal)*) => { match (f32, n) {
            $((false, $k) => mk::<f64, $k>(),
              (true, $k) => mk::<f32, $k>(),)*
            _ => panic!("unsupported size {n}"),
        } };
    }
    d!(1 2 3 4 5 6 7 8 9 10 12 16 17 20 24 32 33 48 64 70)
}

// ------------------------------------------------------------------ reference

/// Exact product sum by double-double accumulation: b - A x.
fn residual(a: &[f64], x: &[f64], b: &[f64]) -> Vec<f64> {
    let n = x.len();
    (0..n)
        .map(|i| {
            let (mut hi, mut lo) = (b[i], 0.0f64);
            for j in 0..n {
                let p = -a[j * n + i] * x[j];
                let e = (-a[j * n + i]).mul_add(x[j], -p);
                let s = hi + p;
                let bb = s - hi;
                lo += (hi - (s - bb)) + (p - bb) + e;
                hi = s;
            }
            hi + lo
        })
        .collect()
}

/// Componentwise bound |L||U||x| (rows in original order) from an independent elimination; the
/// flag tells that pivot choices were close, so that another elimination may legitimately differ.
fn lu_bound(a: &[f64], x: &[f64], n: usize) -> Option<(Vec<f64>, bool, f64)> {
    let mut m = a.to_vec();
    let mut p: Vec<usize> = (0..n).collect();
    let ix = |i: usize, j: usize| j * n + i;
    let mut near = false;
    for k in 0..n {
        let mut l = k;
        for i in k + 1..n {
            if m[ix(i, k)].abs() > m[ix(l, k)].abs() {
                l = i;
            }
        }
        let mx = m[ix(l, k)].abs();
        if mx == 0.0 || !mx.is_finite() {
            return None;
        }
        for i in k..n {
            if i != l && m[ix(i, k)].abs() > mx * (1.0 - 1e-3) {
                near = true;
            }
        }
        if l != k {
            for j in 0..n {
                m.swap(ix(k, j), ix(l, j));
            }
            p.swap(k, l);
        }
        for i in k + 1..n {
            let f = m[ix(i, k)] / m[ix(k, k)];
            m[ix(i, k)] = f;
            if f != 0.0 {
                for j in k + 1..n {
                    m[ix(i, j)] -= f * m[ix(k, j)];
                }
            }
        }
    }
    let mut ux = vec![0.0; n];
    let mut umax: f64 = 0.0;
    for i in 0..n {
        for j in i..n {
            ux[i] += m[ix(i, j)].abs() * x[j].abs();
            umax = umax.max(m[ix(i, j)].abs());
        }
    }
    let mut out = vec![0.0; n];
    for i in 0..n {
        let mut s = ux[i];
        for j in 0..i {
            s += m[ix(i, j)].abs() * ux[j];
        }
        out[p[i]] = s;
    }
    Some((out, near, umax))
}

/// Largest magnitude met while solving with an independent elimination in double precision.
fn reference_solve(a: &[f64], b: &[f64]) -> Option<f64> {
    let n = b.len();
    let (mut m, mut y) = (a.to_vec(), b.to_vec());
    let mut big: f64 = 0.0;
    let ix = |i: usize, j: usize| j * n + i;
    for k in 0..n {
        let l = (k..n).max_by(|i, j| m[ix(*i, k)].abs().total_cmp(&m[ix(*j, k)].abs()))?;
        if m[ix(l, k)] == 0.0 {
            return None;
        }
        for j in 0..n {
            m.swap(ix(k, j), ix(l, j));
        }
        y.swap(k, l);
        for i in k + 1..n {
            let f = m[ix(i, k)] / m[ix(k, k)];
            for j in k..n {
                m[ix(i, j)] -= f * m[ix(k, j)];
            }
            y[i] -= f * y[k];
            big = big.max(y[i].abs());
        }
    }
    for k in (0..n).rev() {
        y[k] /= m[ix(k, k)];
        big = big.max(y[k].abs());
        for i in 0..k {
            y[i] -= m[ix(i, k)] * y[k];
            big = big.max(y[i].abs());
        }
    }
    if big.is_finite() {
        Some(big)
    } else {
        None
    }
}

/// Is the matrix, by an independent elimination, clearly away from singular in working precision?
fn clearly_regular(a: &[f64], n: usize, f32: bool) -> bool {
    let eps = if f32 { f32::EPSILON as f64 } else { f64::EPSILON };
    let mut m = a.to_vec();
    let ix = |i: usize, j: usize| j * n + i;
    for k in 0..n {
        let col: f64 = (0..n).map(|i| a[ix(i, k)].abs()).fold(0.0, f64::max);
        let l = (k..n).max_by(|i, j| m[ix(*i, k)].abs().total_cmp(&m[ix(*j, k)].abs())).unwrap();
        let p = m[ix(l, k)].abs();
        if !(p > 1e3 * n as f64 * eps * col) || !p.is_finite() {
            return false;
        }
        for j in 0..n {
            m.swap(ix(k, j), ix(l, j));
        }
        for i in k + 1..n {
            let f = m[ix(i, k)] / m[ix(k, k)];
            for j in k..n {
                m[ix(i, j)] -= f * m[ix(k, j)];
            }
        }
    }
    true
}

/// None if `x` solves `A x = b` to backward-stable accuracy.
fn backward_error(a: &[f64], x: &[f64], b: &[f64], f32: bool) -> Option<String> {
    let n = x.len();
    if x.iter().any(|v| !v.is_finite()) {
        // a legitimate overflow is not an error: consult an elimination in double precision
        let big = if f32 { 1e30 } else { 1e280 };
        let (_, _, umax) = lu_bound(a, &vec![0.0; n], n)?;
        let m = reference_solve(a, b)?;
        return if m < big && umax < big {
            Some(format!("solution {} is not finite", short(x)))
        } else {
            None
        };
    }
    let eps = if f32 { f32::EPSILON as f64 } else { f64::EPSILON };
    let (bound, near, umax) = lu_bound(a, x, n)?;
    let r = residual(a, x, b);
    let top = bound.iter().cloned().fold(0.0, f64::max);
    let xm = x.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    // underflow: a few units of the smallest subnormal number in the factors and in every product
    let under = if f32 { 1e-43 } else { 1e-321 } * n as f64 * (1.0 + umax) * (1.0 + xm);
    for i in 0..n {
        let lim = 32.0 * n as f64 * eps * if near { top } else { bound[i] } + under;
        if !(r[i].abs() <= lim) {
            return Some(format!("row {i}: |b - A x| = {:e} exceeds {:e} (x = {})", r[i].abs(), lim, short(x)));
        }
    }
    None
}

// ------------------------------------------------------------------ generation

fn gen_mat(r: &mut Rng, n: usize, f32: bool, mix_: u8) -> MatSpec {
    let regular = [
        Mk::Rand, Mk::TinyDiag, Mk::PermTri, Mk::Sparse, Mk::Graded, Mk::NegDom, Mk::Scaled, Mk::Ill,
        Mk::Growth, Mk::Perm, Mk::HugeEntry, Mk::ZeroDiag, Mk::ExactOk,
    ];
    let kind = match (mix_, r.below(20)) {
        (0, 0..=14) | (1, 0..=9) => *r.pick(&regular),
        (_, 15..=16) | (1, 10..=13) => Mk::ExactSingular,
        (1, 14) => Mk::ZeroRow,
        (_, 17) => *r.pick(&[Mk::Zero, Mk::ZeroRow]),
        (_, 18) => Mk::NonFinite,
        _ => Mk::ExactOk,
    };
    let mut kind = kind;
    if (kind == Mk::Growth && n > 24) || (kind == Mk::Ill && (n > if f32 { 4 } else { 9 })) || (kind == Mk::ZeroDiag && n == 1) {
        kind = Mk::Rand;
    }
    if kind == Mk::TinyDiag && n == 2 && r.chance(0.5) {
        kind = Mk::NegDom
    }
    let lim = if f32 { 30 } else { 300 };
    // now and then far enough for columns of subnormal numbers (entries are multiples of 1/4)
    let lim = if kind == Mk::ExactOk && r.chance(0.25) { if f32 { 146 } else { 1071 } } else { lim };
    MatSpec {
        kind,
        seed: r.u64() >> 16,
        col: match r.below(4) {
            0 => n - 1,
            1 => 0,
            _ => r.us(n),
        },
        scale: if r.chance(0.5) { 0 } else { r.us(lim) as i32 },
    }
}

fn gen_ops(r: &mut Rng, prop: &str, n: usize, f32: bool, depth: u8, count: usize) -> Vec<DOp> {
    let mut v = vec![];
    let mix_ = if prop == "D02" { 1 } else { 0 };
    let views = if prop == "D03" { 0.5 } else { 0.15 };
    for _ in 0..count {
        let lay = |r: &mut Rng| if r.chance(views) { 1 + r.us(3) as u8 } else { 0 };
        let x = r.below(100);
        if depth == 0 && x < if prop == "D04" { 25 } else { 3 } {
            let k = 1 + r.us(4);
            v.push(DOp::Fork { ops: gen_ops(r, prop, n, f32, 1, k), order: r.us(4) as u8 });
        } else if x < 45 || v.is_empty() && depth == 0 {
            let mat = gen_mat(r, n, f32, mix_);
            v.push(DOp::Setup { mat, layout: lay(r) });
        } else {
            let k = *r.pick(&[Rk::Rand, Rk::Rand, Rk::Rand, Rk::Unit, Rk::Zero, Rk::Huge, Rk::Tiny, Rk::Small, Rk::SparseB, Rk::NanB, Rk::Again, Rk::Again]);
            v.push(DOp::Solve { rhs: k, seed: r.u64() >> 16, xfill: r.us(4) as u8, layout: lay(r) });
        }
    }
    v
}

pub fn gen(prop: &str, r: &mut Rng, idx: u64) -> DPlan {
    let ns = match prop {
        "D04" => 1 + r.us(4),
        _ => 1 + r.us(2),
    };
    let sessions = (0..ns)
        .map(|_| {
            let n = match r.below(10) {
                0..=5 => 1 + r.us(8),
                6..=8 => *r.pick(&[3usize, 9, 10, 12, 16, 17]),
                _ => {
                    if idx % 8 == 0 {
                        *r.pick(&[20usize, 24, 32, 33, 48, 64, 70])
                    } else {
                        4
                    }
                }
            };
            let f32 = r.chance(0.35);
            let count = 2 + r.us(if n > 17 { 6 } else { 12 });
            let ops = gen_ops(r, prop, n, f32, 0, count);
            DSession { f32, n, start: r.below(20), lat: (0..1 + r.us(6)).map(|_| r.below(9) as u32).collect(), ops }
        })
        .collect();
    DPlan { sessions }
}

// ------------------------------------------------------------------ execution

fn run_op(s: &mut Box<dyn DSess>, op: &DOp, pause: &dyn Fn()) -> DItem {
    let it = match op {
        DOp::Fork { ops, order } => {
            fault("clone");
            let mut c = s.fork();
            let (mut cl, mut or) = (vec![], vec![]);
            match order {
                0 => {
                    for o in ops {
                        cl.push(c.run(o));
                        pause();
                    }
                    drop(c);
                    for o in ops {
                        or.push(s.run(o));
                        pause();
                    }
                }
                1 => {
                    for o in ops {
                        or.push(s.run(o));
                        pause();
                    }
                    for o in ops {
                        cl.push(c.run(o));
                        pause();
                    }
                }
                2 => {
                    for o in ops {
                        cl.push(c.run(o));
                        pause();
                        or.push(s.run(o));
                        pause();
                    }
                }
                _ => {
                    // the clone continues, the original is kept but not used in between
                    for o in ops {
                        or.push(s.run(o));
                        cl.push(c.run(o));
                        pause();
                    }
                }
            }
            DItem::Fork { clone: cl, orig: or }
        }
        o => DItem::One(s.run(o)),
    };
    trace(|| format!("t={} {}", exec::NOW.get(), describe(op, &it)));
    pause();
    it
}

fn describe(op: &DOp, it: &DItem) -> String {
    match it {
        DItem::One(DRec::Setup { mat, res, .. }) => format!("setup {:?} -> {res:?}", mat.kind),
        DItem::One(DRec::Solve { kind, x, .. }) => format!("solve {kind:?} -> {}", short(x)),
        DItem::One(r) => format!("{r:?}"),
        DItem::Fork { .. } => match op {
            DOp::Fork { ops, .. } => format!("fork with {} operations on each side", ops.len()),
            _ => String::new(),
        },
    }
}

fn body(p: DSession, id: usize, out: Rc<RefCell<Vec<Vec<DItem>>>>) -> exec::Body {
    Box::new(move |yld: YieldFn| {
        let mut s = make(p.f32, p.n);
        let pos = Cell::new(0usize);
        let pause = || {
            let k = pos.get();
            pos.set(k + 1);
            yld(if p.lat.is_empty() { 0 } else { p.lat[k % p.lat.len()] as u64 })
        };
        for op in &p.ops {
            let it = run_op(&mut s, op, &pause);
            out.borrow_mut()[id].push(it);
        }
    })
}

fn execute(p: &DPlan) -> (Vec<Vec<DItem>>, exec::Sched) {
    let out = Rc::new(RefCell::new(vec![vec![]; p.sessions.len()]));
    let bodies = p.sessions.iter().enumerate().map(|(i, s)| body(s.clone(), i, out.clone())).collect();
    let start: Vec<u64> = p.sessions.iter().map(|s| s.start).collect();
    let sc = exec::interleave(bodies, &start);
    (Rc::try_unwrap(out).ok().unwrap().into_inner(), sc)
}

fn alone(s: &DSession, edit: impl Fn(&mut DSession)) -> Vec<DItem> {
    let mut s = s.clone();
    s.lat = vec![];
    s.start = 0;
    edit(&mut s);
    uncounted(|| execute(&DPlan { sessions: vec![s] }).0.remove(0))
}

/// Walks one solver's records in order.
fn judge(recs: &[(DOp, DRec, String)], s: &DSession, prop: &str, o: &mut RunOut) {
    let mut cur: Option<(MatSpec, Vec<f64>, DOp)> = None;
    let mut had_fault = false;
    let mut seen: Vec<(Vec<f64>, Vec<f64>)> = vec![];
    for (i, (op, r, tag)) in recs.iter().enumerate() {
        match r {
            DRec::Panic(m) => {
                for p in ["D01", "D02", "D03", "D04"] {
                    o.add(p, "panic", format!("{tag}: panicked: {m}"));
                }
                return;
            }
            DRec::Skip => {}
            DRec::Setup { mat, a, res, lu: _, stray } => {
                o.solves += 1;
                seen.clear();
                if *stray {
                    o.add("D03", "setup writes outside the matrix", tag.clone());
                }
                match (expect(mat, s.n), res) {
                    (Expect::Ok, Err(c)) if mat.kind == Mk::ExactOk || clearly_regular(a, s.n, s.f32) => {
                        o.add("D02", "regular matrix rejected", format!("{tag}: {:?} matrix of size {} rejected at column {c}", mat.kind, s.n));
                    }
                    (Expect::Err(c), Ok(())) => {
                        o.add("D02", "singular matrix accepted", format!("{tag}: column {c} depends on the columns before it, setup succeeded"));
                    }
                    (Expect::Err(c), Err(d)) if c != *d => {
                        o.add("D02", "wrong column", format!("{tag}: reported column {d}, first dependent column is {c}"));
                    }
                    (Expect::Err(_), Err(_)) => probe("singular matrix reported at its column"),
                    _ => {}
                }
                if expect(mat, s.n) == Expect::Any {
                    had_fault = true;
                }
                cur = if res.is_ok() { Some((*mat, a.clone(), op.clone())) } else { None };
                if res.is_err() {
                    had_fault = true;
                } else if mat.kind != Mk::NonFinite {
                    probe(if had_fault { "setup succeeded after a failed or non-finite one" } else { "setup succeeded" });
                }
                if (prop == "D01" || prop == "D02") && i > 0 {
                    let f = uncounted(|| make(s.f32, s.n).run(op));
                    if let Some(d) = r.diff(&f) {
                        o.add("D01", "setup depends on history", format!("{tag}: {d} (on a new solver)"));
                        o.add("D02", "setup depends on history", format!("{tag}: {d} (on a new solver)"));
                    }
                }
            }
            DRec::Solve { b, x, ok, fac_changed, rhs_changed, stray, kind: _ } => {
                o.solves += 1;
                if !ok {
                    o.add("D01", "solve fails", format!("{tag}: solve returned an error after a successful setup"));
                }
                if *fac_changed {
                    o.add("D03", "factors changed", tag.clone());
                }
                if *rhs_changed {
                    o.add("D03", "right-hand side changed", tag.clone());
                }
                if *stray {
                    o.add("D03", "solve writes outside the solution", tag.clone());
                }
                for (b2, x2) in &seen {
                    if biteq(b2, b) {
                        probe("same right-hand side solved again");
                        if !biteq(x2, x) {
                            o.add("D03", "not repeatable", format!("{tag}: {} instead of {}", short(x), short(x2)));
                        }
                        break;
                    }
                }
                if seen.len() < 20 {
                    seen.push((b.clone(), x.clone()));
                }
                let Some((mat, a, sop)) = &cur else { continue };
                let finite = expect(mat, s.n) == Expect::Ok && b.iter().all(|v| v.is_finite());
                if finite {
                    if let Some(d) = backward_error(a, x, b, s.f32) {
                        o.add("D01", "inaccurate", format!("{tag}: {:?} matrix of size {}, {}: {d}", mat.kind, s.n, if s.f32 { "f32" } else { "f64" }));
                    } else {
                        probe("solution within the backward error bound");
                    }
                }
                if prop == "D01" || prop == "D02" {
                    // the same setup and solve on a new solver, the solution vector holding something else
                    let f = uncounted(|| {
                        let mut f = make(s.f32, s.n);
                        f.run(sop);
                        let DOp::Solve { rhs: k, seed, xfill, layout } = op else { unreachable!() };
                        if *k == Rk::Again {
                            // bring the previous right-hand side along
                            return f_again(&mut f, b, *seed, (*xfill + 1) % 4, *layout);
                        }
                        f.run(&DOp::Solve { rhs: *k, seed: *seed, xfill: (*xfill + 1) % 4, layout: *layout })
                    });
                    if let Some(f) = Some(f).filter(|f| !matches!(f, DRec::Skip)) {
                        if let Some(d) = r.diff(&f) {
                            o.add("D01", "solve depends on history", format!("{tag}: {d} (on a new solver)"));
                            o.add("D02", "solve depends on history", format!("{tag}: {d} (on a new solver)"));
                        } else if had_fault {
                            probe("after a failed setup, equals a new solver");
                        }
                    }
                }
            }
        }
    }
}

/// `Rk::Again` depends on session history; a new solver cannot repeat it, so it is skipped there
/// unless the right-hand side is the generator's default.
fn f_again(f: &mut Box<dyn DSess>, b: &[f64], seed: u64, xfill: u8, layout: u8) -> DRec {
    let r = f.run(&DOp::Solve { rhs: Rk::Again, seed, xfill, layout });
    match &r {
        DRec::Solve { b: b2, .. } if biteq(b, b2) => r,
        _ => DRec::Skip,
    }
}

/// The sequences each solver (original, clones) went through.
fn lines(items: &[DItem], s: &DSession, id: usize) -> Vec<Vec<(DOp, DRec, String)>> {
    let mut main: Vec<(DOp, DRec, String)> = vec![];
    let mut all = vec![];
    for (i, (it, op)) in items.iter().zip(&s.ops).enumerate() {
        match (it, op) {
            (DItem::One(r), op) => main.push((op.clone(), r.clone(), format!("s{id} op {i}"))),
            (DItem::Fork { clone, orig }, DOp::Fork { ops, .. }) => {
                let mut c = main.clone();
                let k = c.len();
                for (j, (r, o)) in clone.iter().zip(ops).enumerate() {
                    c.push((o.clone(), r.clone(), format!("s{id} op {i}.{j} (clone)")));
                }
                // only the part after the last setup before the fork matters again
                let st = c[..k].iter().rposition(|(o, ..)| matches!(o, DOp::Setup { .. })).unwrap_or(0);
                all.push(c.split_off(st));
                for (j, (r, o)) in orig.iter().zip(ops).enumerate() {
                    main.push((o.clone(), r.clone(), format!("s{id} op {i}.{j} (original)")));
                }
            }
            _ => {}
        }
    }
    all.push(main);
    all
}

pub fn run(prop: &str, p: &DPlan) -> RunOut {
    let mut o = RunOut::default();
    let (obs, sc) = execute(p);
    o.simtime = sc.simtime;
    o.sched = sc.hash;
    if sc.switches > 1 {
        probe_n("session switches", sc.switches);
    }
    trace(|| format!("resume order: {:?}", sc.order));
    let mut h = H::new();
    h.u(sc.hash);
    for (i, items) in obs.iter().enumerate() {
        let s = &p.sessions[i];
        for l in lines(items, s, i) {
            judge(&l, s, prop, &mut o);
        }
        for it in items {
            match it {
                DItem::One(r) => r.hash_into(&mut h),
                DItem::Fork { clone, orig } => {
                    clone.iter().chain(orig).for_each(|r| r.hash_into(&mut h));
                    for (j, (a, b)) in clone.iter().zip(orig).enumerate() {
                        if let Some(d) = a.diff(b) {
                            o.add("D04", "clone differs from original", format!("s{i} fork op {j}: {d}"));
                        }
                    }
                    probe("clone continued beside its original");
                }
            }
        }
        let cmp = |al: &[DItem], prop: &'static str, class: &str, o: &mut RunOut| {
            for (j, (a, b)) in items.iter().zip(al).enumerate() {
                let pairs: Vec<(&DRec, &DRec)> = match (a, b) {
                    (DItem::One(x), DItem::One(y)) => vec![(x, y)],
                    (DItem::Fork { clone: c1, orig: o1 }, DItem::Fork { clone: c2, orig: o2 }) => {
                        c1.iter().zip(c2).chain(o1.iter().zip(o2)).collect()
                    }
                    _ => vec![],
                };
                for (x, y) in pairs {
                    if let Some(d) = x.diff(y) {
                        o.add(prop, class, format!("s{i} op {j}: {d}"));
                    }
                }
            }
        };
        if prop == "D04" {
            let al = alone(s, |_| {});
            cmp(&al, "D04", "differs from running alone", &mut o);
            probe("session compared with running alone");
            // using a clone in between does not change the original
            if s.ops.iter().any(|o| matches!(o, DOp::Fork { .. })) {
                let flat = alone(s, |s| {
                    let ops = std::mem::take(&mut s.ops);
                    for op in ops {
                        match op {
                            DOp::Fork { ops, .. } => s.ops.extend(ops),
                            o => s.ops.push(o),
                        }
                    }
                });
                let mut k = 0;
                for it in items {
                    let orig: Vec<&DRec> = match it {
                        DItem::One(r) => vec![r],
                        DItem::Fork { orig, .. } => orig.iter().collect(),
                    };
                    for r in orig {
                        if let DItem::One(f) = &flat[k] {
                            if let Some(d) = r.diff(f) {
                                o.add("D04", "a clone disturbs its original", format!("s{i} step {k}: {d}"));
                            }
                        }
                        k += 1;
                    }
                }
            }
        }
        if prop == "D03" {
            // every storage gives the same bits
            for lay in 0..4u8 {
                let al = alone(s, |s| s.ops.iter_mut().for_each(|o| relayout(o, lay)));
                cmp(&al, "D03", "storage changes the result", &mut o);
            }
            probe("compared across storage layouts");
        }
    }
    o.hash = h.0;
    o
}

fn relayout(o: &mut DOp, l: u8) {
    match o {
        DOp::Setup { layout, .. } | DOp::Solve { layout, .. } => *layout = l,
        DOp::Fork { ops, .. } => ops.iter_mut().for_each(|o| relayout(o, l)),
    }
}

pub fn simpler(p: &DPlan) -> Vec<DPlan> {
    let mut v = vec![];
    if p.sessions.len() > 1 {
        for i in 0..p.sessions.len() {
            let mut q = p.clone();
            q.sessions.remove(i);
            v.push(q);
        }
    }
    for i in 0..p.sessions.len() {
        let s = &p.sessions[i];
        let mut edit = |f: &dyn Fn(&mut DSession)| {
            let mut q = p.clone();
            f(&mut q.sessions[i]);
            if q != *p {
                v.push(q);
            }
        };
        let n = s.ops.len();
        let mut c = n / 2;
        while c >= 1 {
            let mut a = 0;
            while a < n {
                let b = (a + c).min(n);
                edit(&|s| {
                    s.ops.drain(a..b);
                });
                a += c;
            }
            c /= 2;
        }
        edit(&|s| s.lat = vec![]);
        edit(&|s| s.start = 0);
        edit(&|s| s.f32 = false);
        for m in SIZES {
            if m < s.n {
                edit(&|s| {
                    s.n = m;
                    s.ops.iter_mut().for_each(|o| clampcol(o, m));
                });
            }
        }
        for j in 0..n {
            match &s.ops[j] {
                DOp::Setup { mat, .. } => {
                    edit(&|s| relayout(&mut s.ops[j], 0));
                    let mk = mat.kind;
                    edit(&|s| {
                        if let DOp::Setup { mat, .. } = &mut s.ops[j] {
                            mat.scale = 0
                        }
                    });
                    for seed in 0..6 {
                        edit(&|s| {
                            if let DOp::Setup { mat, .. } = &mut s.ops[j] {
                                if mat.seed > seed {
                                    mat.seed = seed
                                }
                            }
                        });
                    }
                    if mk != Mk::Rand {
                        edit(&|s| {
                            if let DOp::Setup { mat, .. } = &mut s.ops[j] {
                                mat.kind = Mk::Rand
                            }
                        });
                    }
                }
                DOp::Solve { .. } => {
                    edit(&|s| relayout(&mut s.ops[j], 0));
                    edit(&|s| {
                        if let DOp::Solve { rhs, .. } = &mut s.ops[j] {
                            *rhs = Rk::Rand
                        }
                    });
                    edit(&|s| {
                        if let DOp::Solve { xfill, .. } = &mut s.ops[j] {
                            *xfill = 0
                        }
                    });
                    edit(&|s| {
                        if let DOp::Solve { seed, .. } = &mut s.ops[j] {
                            *seed = 1
                        }
                    });
                }
                DOp::Fork { ops, .. } => {
                    edit(&|s| {
                        if let DOp::Fork { ops, .. } = s.ops[j].clone() {
                            s.ops.splice(j..j + 1, ops);
                        }
                    });
                    for k in 0..ops.len() {
                        edit(&|s| {
                            if let DOp::Fork { ops, .. } = &mut s.ops[j] {
                                ops.remove(k);
                            }
                        });
                    }
                    edit(&|s| relayout(&mut s.ops[j], 0));
                    edit(&|s| {
                        if let DOp::Fork { order, .. } = &mut s.ops[j] {
                            *order = 0
                        }
                    });
                }
            }
        }
    }
    v
}

fn clampcol(o: &mut DOp, n: usize) {
    match o {
        DOp::Setup { mat, .. } => mat.col = mat.col.min(n - 1),
        DOp::Fork { ops, .. } => ops.iter_mut().for_each(|o| clampcol(o, n)),
        _ => {}
    }
}
