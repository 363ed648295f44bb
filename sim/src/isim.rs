//! The integrator (sources of /repo/src on the real `linear` and `nonlinear` crates) under simulation:
//! model equations, root functions, tolerances and both solvers' boundaries belong to the simulator,
//! which records everything that crosses them and injects faults there.

use crate::common::*;
use crate::rng::{mix, Rng};
use ida::linear::LSolver;
use ida::nonlinear::{NLProblem, NLSolver};
use ida::tol_control::TolControl;
use ida::traits::{Jacobian, ModelSpec, Residual, Root};
use ida::{Ida, IdaSolveStatus, IdaTask};
use ndarray::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

// ------------------------------------------------------------------ plans

/// One component: y' = phi' + lam (y - phi) - mu (y - phi)^3, or 0 = (y - phi) - link terms for algebraic ones,
/// phi(t) = a + b sin(om t + ph) + c exp(-ga |t|) + d t; starts `off` away from phi.
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct Comp {
    pub alg: bool,
    pub a: f64,
    pub b: f64,
    pub om: f64,
    pub ph: f64,
    pub c: f64,
    pub ga: f64,
    pub d: f64,
    pub lam: f64,
    pub mu: f64,
    pub off: f64,
    /// algebraic: couples to the deviation of this differential component
    pub link: Option<(usize, f64)>,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum Model {
    /// components, and the row-major matrix that mixes their equations
    Mixed { comps: Vec<Comp>, mix: Vec<f64> },
    /// y' = -sign y^2, y(0) = y0
    Decay { y0: f64 },
    /// y' = r y (1 - y)
    Logistic { r: f64, y0: f64 },
    /// the repository's own sample problem
    Roberts,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum G {
    Time { c: f64, s: f64 },
    /// zero at the start, then of one sign until c
    TimeZero { c: f64, s: f64 },
    Comp { i: usize, c: f64, s: f64 },
    Sin { om: f64, ph: f64 },
    Jump { c: f64, lo: f64, hi: f64 },
    /// (t - c)^p, odd p
    Flat { c: f64, p: i32 },
    Pole { c: f64 },
    /// exactly zero within w of c
    Plateau { c: f64, w: f64 },
    /// crosses at a and at b, exactly zero within w of a
    Twice { a: f64, b: f64, w: f64, s: f64 },
}

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Debug)]
pub enum Ik {
    ResNan,
    ResInf,
    /// adds a constant to one residual component for the whole attempt
    ResBump(f64),
    JacZero,
    JacNan,
    JacScale(f64),
    /// reports non-convergence: 0 before iterating, 1 after the real iteration, 2 after leaving garbage behind, 3 NaN behind
    NlsFail(u8),
    NlsFatal,
    LsSetup,
    LsSolve,
    EwtBad,
    EwtHuge,
    RootNan,
}

/// Active from the `at`-th attempt (weight evaluation, root evaluation) on, `len` of them.
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Debug)]
pub struct IFault {
    pub kind: Ik,
    pub at: u64,
    pub len: u64,
    pub comp: usize,
    /// which residual evaluation of the attempt (255: all)
    pub nth: u64,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum Op {
    /// integrate to `tout`; `tries`: how often a root return or an error is answered by calling again
    Solve { normal: bool, tout: f64, tries: u32 },
    /// evaluate the solution at this fraction of the last step (0: its start, 1: its end)
    Query { frac: f64 },
    Dky { frac: f64, k: usize },
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct ISession {
    pub model: Model,
    pub rtol: f64,
    pub atol: Vec<f64>,
    pub roots: Vec<G>,
    pub faults: Vec<IFault>,
    pub ops: Vec<Op>,
    /// residual evaluations allowed before the run is wound down
    pub budget: u64,
    pub start: u64,
    pub lat: Vec<u32>,
    /// initial values that do not fit the equations: added to y0 and y0'
    #[serde(default)]
    pub misfit: Option<(Vec<f64>, Vec<f64>)>,
}

impl ISession {
    pub fn initial(&self) -> (Vec<f64>, Vec<f64>) {
        let (mut y, mut yp) = self.model.initial();
        if let Some((a, b)) = &self.misfit {
            for i in 0..y.len() {
                y[i] += a[i];
                yp[i] += b[i];
            }
        }
        (y, yp)
    }
    pub fn n(&self) -> usize {
        match &self.model {
            Model::Mixed { comps, .. } => comps.len(),
            Model::Roberts => 3,
            _ => 1,
        }
    }
}

// ------------------------------------------------------------------ model equations

fn phi(c: &Comp, t: f64) -> (f64, f64) {
    let (s, co) = (c.om * t + c.ph).sin_cos();
    let e = if c.c == 0.0 { 0.0 } else { c.c * (-c.ga * t.abs()).exp() };
    // at 0 the side matters; see `initial`
    let de = if t == 0.0 { 0.0 } else { -c.ga * t.signum() * e };
    (c.a + c.b * s + e + c.d * t, c.b * c.om * co + de + c.d)
}

impl Model {
    /// y and y' at 0
    pub fn initial(&self) -> (Vec<f64>, Vec<f64>) {
        match self {
            Model::Mixed { comps, .. } => {
                let mut y = vec![];
                let mut yp = vec![];
                for c in comps {
                    let (p, dp0) = phi(c, 0.0);
                    // the derivative of exp(-ga|t|) at 0 depends on the side; `lam`'s sign tells the direction
                    let dp = if c.c != 0.0 { dp0 - c.ga * c.c * dirsign(comps) } else { dp0 };
                    if c.alg {
                        let (off, doff) = match c.link {
                            Some((j, k)) => {
                                let cj = &comps[j];
                                (k * cj.off, k * (cj.lam * cj.off - cj.mu * cj.off.powi(3)))
                            }
                            None => (0.0, 0.0),
                        };
                        y.push(p + off);
                        yp.push(dp + doff);
                    } else {
                        y.push(p + c.off);
                        yp.push(dp + c.lam * c.off - c.mu * c.off.powi(3));
                    }
                }
                (y, yp)
            }
            Model::Decay { y0 } => (vec![*y0], vec![-y0 * y0]),
            Model::Logistic { r, y0 } => (vec![*y0], vec![r * y0 * (1.0 - y0)]),
            Model::Roberts => (vec![1.0, 0.0, 0.0], vec![-0.04, 0.04, 0.0]),
        }
    }
    /// the exact solution, where it is known
    pub fn exact(&self, t: f64) -> Option<Vec<f64>> {
        match self {
            Model::Mixed { comps, .. } => {
                let dev = |c: &Comp| {
                    if c.off == 0.0 {
                        Some(0.0)
                    } else if c.mu == 0.0 {
                        Some(c.off * (c.lam * t).exp())
                    } else {
                        None
                    }
                };
                comps
                    .iter()
                    .map(|c| {
                        let p = phi(c, t).0;
                        if c.alg {
                            match c.link {
                                Some((j, k)) => dev(&comps[j]).map(|d| p + k * d),
                                None => Some(p),
                            }
                        } else {
                            dev(c).map(|d| p + d)
                        }
                    })
                    .collect()
            }
            Model::Decay { y0 } => Some(vec![y0 / (1.0 + y0 * t)]),
            Model::Logistic { r, y0 } => {
                let e = (-r * t).exp();
                Some(vec![y0 / (y0 + (1.0 - y0) * e)])
            }
            Model::Roberts => None,
        }
    }
    fn raw(comps: &[Comp], t: f64, y: &[f64], yp: &[f64]) -> Vec<f64> {
        comps
            .iter()
            .enumerate()
            .map(|(i, c)| {
                let (p, mut dp) = phi(c, t);
                if t == 0.0 && c.c != 0.0 {
                    dp -= c.ga * c.c * dirsign(comps);
                }
                let d = y[i] - p;
                if c.alg {
                    let l = c.link.map_or(0.0, |(j, k)| k * (y[j] - phi(&comps[j], t).0));
                    d - l
                } else {
                    yp[i] - dp - c.lam * d + c.mu * d * d * d
                }
            })
            .collect()
    }
    pub fn residual(&self, t: f64, y: &[f64], yp: &[f64]) -> Vec<f64> {
        match self {
            Model::Mixed { comps, mix } => {
                let n = comps.len();
                let r = Model::raw(comps, t, y, yp);
                (0..n).map(|i| (0..n).map(|j| mix[i * n + j] * r[j]).sum()).collect()
            }
            Model::Decay { .. } => vec![yp[0] + y[0] * y[0]],
            Model::Logistic { r, .. } => vec![yp[0] - r * y[0] * (1.0 - y[0])],
            Model::Roberts => {
                let mut r = Array1::zeros(3);
                ida::sample_problems::Roberts {}.res(
                    t,
                    Array1::from_vec(y.to_vec()),
                    Array1::from_vec(yp.to_vec()),
                    r.view_mut(),
                );
                r.iter().cloned().collect()
            }
        }
    }
    /// row-major dF/dy + cj dF/dy'
    pub fn jacobian(&self, t: f64, cj: f64, y: &[f64], yp: &[f64]) -> Vec<f64> {
        match self {
            Model::Mixed { comps, mix } => {
                let n = comps.len();
                let mut k = vec![0.0; n * n];
                for (i, c) in comps.iter().enumerate() {
                    if c.alg {
                        k[i * n + i] = 1.0;
                        if let Some((j, l)) = c.link {
                            k[i * n + j] -= l;
                        }
                    } else {
                        let d = y[i] - phi(c, t).0;
                        k[i * n + i] = cj - c.lam + 3.0 * c.mu * d * d;
                    }
                }
                let mut out = vec![0.0; n * n];
                for i in 0..n {
                    for j in 0..n {
                        out[i * n + j] = (0..n).map(|q| mix[i * n + q] * k[q * n + j]).sum();
                    }
                }
                out
            }
            Model::Decay { .. } => vec![cj + 2.0 * y[0]],
            Model::Logistic { r, .. } => vec![cj - r * (1.0 - 2.0 * y[0])],
            Model::Roberts => {
                let mut m = Array::zeros((3, 3));
                ida::sample_problems::Roberts {}.jac(
                    t,
                    cj,
                    Array1::from_vec(y.to_vec()),
                    Array1::from_vec(yp.to_vec()),
                    Array1::from_vec(vec![0.0; 3]),
                    m.view_mut(),
                );
                m.iter().cloned().collect()
            }
        }
    }
}

fn dirsign(comps: &[Comp]) -> f64 {
    if comps.iter().any(|c| !c.alg && c.lam > 0.0) {
        -1.0
    } else {
        1.0
    }
}

pub fn gval(g: &G, t: f64, y: &[f64]) -> f64 {
    match *g {
        G::Time { c, s } => s * (t - c),
        G::TimeZero { c, s } => s * t * (t - c),
        G::Comp { i, c, s } => s * (y[i] - c),
        G::Sin { om, ph } => (om * t + ph).sin(),
        G::Jump { c, lo, hi } => {
            if t < c {
                lo
            } else {
                hi
            }
        }
        G::Flat { c, p } => (t - c).powi(p),
        G::Pole { c } => {
            if t == c {
                1.0
            } else {
                1.0 / (t - c)
            }
        }
        G::Plateau { c, w } => {
            if (t - c).abs() <= w {
                0.0
            } else {
                t - c
            }
        }
        G::Twice { a, b, w, s } => {
            if (t - a).abs() <= w {
                0.0
            } else {
                s * (t - a) * (t - b)
            }
        }
    }
}

// ------------------------------------------------------------------ records

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Ok,
    Recover,
    /// an error that must go straight to the caller
    Fatal,
    /// an error of the linear solver's boundary
    Linear,
    Unknown,
}

#[derive(Clone, Debug)]
pub enum Ev {
    Call { normal: bool, tout: f64 },
    Ret(Box<Ret>),
    Ewt { y: Vec<f64>, w: Vec<f64> },
    Attempt { w: Vec<f64> },
    AttemptEnd { end: End, ee: Vec<f64>, injected: bool, garbage: bool },
    Res { t: f64, y: Vec<f64>, yp: Vec<f64>, r: Vec<f64> },
    Jac { t: f64, cj: f64, y: Vec<f64>, yp: Vec<f64>, rr: Vec<f64>, j: Vec<f64>, dirty: bool },
    LsSetup { m: Vec<f64>, ok: bool },
    LsSolve { b: Vec<f64>, x: Vec<f64>, ok: bool },
    Root { t: f64, y: Vec<f64>, g: Vec<f64> },
    Query { t: f64, k: Option<usize>, ok: bool, kind: Ek, times: Vec<f64>, y: Vec<f64>, yp: Vec<f64>, tn: f64, hu: f64, hh: f64, kused: usize },
    Panic { msg: String, query: bool },
}

#[derive(Clone, Debug, PartialEq, Copy)]
pub enum Status {
    Success,
    Root,
    TStop,
    Continue,
    Err,
}

/// What an error says about itself.
#[derive(Clone, Debug, PartialEq, Copy)]
pub enum Ek {
    None,
    Illegal,
    Accuracy,
    CloseRoots,
    RootFail,
    BadTime,
    BadK,
    Conv,
    ErrTest,
    Fatal,
    Other,
}

fn kind_of(e: &failure::Error) -> Ek {
    let t = format!("{e:?} {e}");
    let has = |x: &str| t.contains(x);
    if has(FATAL_MSG) {
        Ek::Fatal
    } else if has("TooMuchAccuracy") || has("too much accuracy") {
        Ek::Accuracy
    } else if has("IllegalInput") || has("illegal") {
        Ek::Illegal
    } else if has("CloseRoots") {
        Ek::CloseRoots
    } else if has("RootFunctionFail") {
        Ek::RootFail
    } else if has("BadTimeValue") {
        Ek::BadTime
    } else if has("BadK") {
        Ek::BadK
    } else if has("ConvergenceFail") {
        Ek::Conv
    } else if has("IDA_ERR_FAIL") || has("TestFail") || has("rror test") || has("rror Test") {
        Ek::ErrTest
    } else {
        Ek::Other
    }
}

/// The times an error names: t, and the bounds tdiff and tcurr where it gives them.
fn times_of(e: &failure::Error) -> Vec<f64> {
    let s = format!("{e:?}");
    let num = |k: &str| {
        let v = s.split([' ', ',', '{', '}', '(', ')']).skip_while(|x| *x != k).nth(1)?;
        v.parse().ok()
    };
    let v: Vec<Option<f64>> = vec![num("t:"), num("tdiff:"), num("tcurr:")];
    v.into_iter().map_while(|x| x).collect()
}

#[derive(Clone, Debug)]
pub struct Ret {
    pub st: Status,
    pub times: Vec<f64>,
    pub msg: String,
    pub kind: Ek,
    pub tolsf: f64,
    pub h0u: f64,
    pub tret: f64,
    pub tret_before: f64,
    pub tn: f64,
    pub hu: f64,
    pub hh: f64,
    pub kused: usize,
    pub knext: usize,
    pub nst: usize,
    pub nre: usize,
    pub nsetups: usize,
    pub netf: usize,
    pub nje: usize,
    pub nni: usize,
    pub ncfn: usize,
    pub nge: usize,
    pub y: Vec<f64>,
    pub yp: Vec<f64>,
    pub iroots: Vec<f64>,
    /// residual and root evaluations within the call
    pub calls: u64,
    pub gcalls: u64,
}

/// The units the integrator sees everything in; the record and the model are in base units.
/// All factors are powers of two, some of them negative, so that conversion is exact.
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct Units {
    pub t: f64,
    pub y: Vec<f64>,
    pub f: f64,
    pub g: f64,
}

impl Units {
    pub fn base(n: usize) -> Units {
        Units { t: 1.0, y: vec![1.0; n], f: 1.0, g: 1.0 }
    }
    fn by(&self, y: &[f64]) -> Vec<f64> {
        y.iter().zip(&self.y).map(|(a, u)| a / u).collect()
    }
    fn bw(&self, w: &[f64]) -> Vec<f64> {
        w.iter().zip(&self.y).map(|(a, u)| a * u.abs()).collect()
    }
    fn byp(&self, yp: &[f64]) -> Vec<f64> {
        yp.iter().zip(&self.y).map(|(a, u)| a / u * self.t).collect()
    }
    fn bf(&self, r: &[f64]) -> Vec<f64> {
        r.iter().map(|a| a / self.f).collect()
    }
    /// row-major derivatives of the equations by the solution
    fn bj(&self, m: &[f64]) -> Vec<f64> {
        let n = self.y.len();
        m.iter().enumerate().map(|(i, a)| a / self.f * self.y[i % n]).collect()
    }
}

pub struct World {
    pub s: ISession,
    pub u: Units,
    pub log: RefCell<Vec<Ev>>,
    pub attempt: Cell<u64>,
    nth: Cell<u64>,
    pub nres: Cell<u64>,
    pub nroot: Cell<u64>,
    newt: Cell<u64>,
    /// Newton iterations asked of the real solver plus the ones injected ones stood in for
    call_res: Cell<u64>,
    call_root: Cell<u64>,
    yld: Cell<Option<*const dyn Fn(u64)>>,
    ncb: Cell<u64>,
    in_attempt: Cell<bool>,
}

thread_local! { static CUR: RefCell<Option<Rc<World>>> = const { RefCell::new(None) }; }

pub const RES_PER_CALL: u64 = 120_000;
pub const ROOT_PER_CALL: u64 = 60_000;

impl World {
    fn hit(&self, sel: impl Fn(&Ik) -> bool, n: u64) -> Option<IFault> {
        self.s.faults.iter().find(|f| sel(&f.kind) && n >= f.at && n - f.at < f.len).copied()
    }
    fn ev(&self, e: Ev) {
        self.log.borrow_mut().push(e);
    }
    fn tick(&self) {
        let k = self.ncb.get();
        self.ncb.set(k + 1);
        if let Some(y) = self.yld.get() {
            let l = self.s.lat[(k % self.s.lat.len() as u64) as usize] as u64;
            // the executor outlives every session it runs
            unsafe { (*y)(l) }
        }
    }
}

// ------------------------------------------------------------------ the seams

#[derive(Clone)]
pub struct SimP(pub Rc<World>);

impl ModelSpec for SimP {
    type Scalar = f64;
    type Dim = Ix1;
    fn model_size(&self) -> usize {
        self.0.s.n()
    }
}
fn vec1<S: ndarray::Data<Elem = f64>>(a: &ArrayBase<S, Ix1>) -> Vec<f64> {
    a.iter().cloned().collect()
}
impl Residual for SimP {
    fn res<S1, S2, S3>(&self, tt: f64, yy: ArrayBase<S1, Ix1>, yp: ArrayBase<S2, Ix1>, mut rr: ArrayBase<S3, Ix1>)
    where
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::Data<Elem = f64>,
        S3: ndarray::DataMut<Elem = f64>,
    {
        let w = &self.0;
        let tt = tt / w.u.t;
        let (y, yp) = (w.u.by(&vec1(&yy)), w.u.byp(&vec1(&yp)));
        w.nres.set(w.nres.get() + 1);
        w.call_res.set(w.call_res.get() + 1);
        if w.call_res.get() > RES_PER_CALL {
            std::panic::panic_any(BudgetPanic);
        }
        let mut r = w.s.model.residual(tt, &y, &yp);
        let k = w.nth.get();
        w.nth.set(k + 1);
        if let Some(f) = w.hit(|k| matches!(k, Ik::ResNan | Ik::ResInf | Ik::ResBump(_)), w.attempt.get()) {
            let c = f.comp % r.len();
            match f.kind {
                Ik::ResBump(x) => {
                    fault("residual off for a whole attempt");
                    r[c] += x;
                }
                _ if f.nth == 255 || f.nth == k => {
                    fault("non-finite residual");
                    r[c] = if f.kind == Ik::ResNan { f64::NAN } else { f64::INFINITY };
                }
                _ => {}
            }
        }
        for (i, x) in r.iter().enumerate() {
            rr[i] = *x * w.u.f;
        }
        trace(|| format!("residual t={tt:e} y={y:?} -> {r:?}"));
        w.ev(Ev::Res { t: tt, y, yp, r });
        w.tick();
    }
}
impl Jacobian for SimP {
    fn jac<S1, S2, S3, S4>(
        &self,
        tt: f64,
        cj: f64,
        yy: ArrayBase<S1, Ix1>,
        yp: ArrayBase<S2, Ix1>,
        rr: ArrayBase<S3, Ix1>,
        mut jac: ArrayBase<S4, Ix2>,
    ) where
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::Data<Elem = f64>,
        S3: ndarray::Data<Elem = f64>,
        S4: ndarray::DataMut<Elem = f64>,
    {
        let w = &self.0;
        let (tt, cj) = (tt / w.u.t, cj * w.u.t);
        let (y, yp, rr) = (w.u.by(&vec1(&yy)), w.u.byp(&vec1(&yp)), w.u.bf(&vec1(&rr)));
        let n = y.len();
        let dirty = jac.iter().any(|x| *x != 0.0);
        let mut j = w.s.model.jacobian(tt, cj, &y, &yp);
        if let Some(f) = w.hit(|k| matches!(k, Ik::JacZero | Ik::JacNan | Ik::JacScale(_)), w.attempt.get()) {
            match f.kind {
                Ik::JacZero => {
                    fault("singular Jacobian");
                    j[(f.comp % n) * n..(f.comp % n + 1) * n].fill(0.0);
                }
                Ik::JacNan => {
                    fault("non-finite Jacobian");
                    j[f.comp % (n * n)] = f64::NAN;
                }
                Ik::JacScale(x) => {
                    fault("scaled Jacobian");
                    j.iter_mut().for_each(|e| *e *= x);
                }
                _ => {}
            }
        }
        // like most users' code: only the entries that are there
        for i in 0..n {
            for k in 0..n {
                if j[i * n + k] != 0.0 {
                    jac[[i, k]] = j[i * n + k] * w.u.f / w.u.y[k];
                }
            }
        }
        trace(|| format!("jacobian t={tt:e} cj={cj:e}"));
        w.ev(Ev::Jac { t: tt, cj, y, yp, rr, j, dirty });
        w.tick();
    }
}
impl Root for SimP {
    fn num_roots(&self) -> usize {
        self.0.s.roots.len()
    }
    fn root<S1, S2, S3>(&self, t: f64, y: ArrayBase<S1, Ix1>, _yp: ArrayBase<S2, Ix1>, mut gout: ArrayBase<S3, Ix1>)
    where
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::Data<Elem = f64>,
        S3: ndarray::DataMut<Elem = f64>,
    {
        let w = &self.0;
        w.call_root.set(w.call_root.get() + 1);
        if w.call_root.get() > ROOT_PER_CALL {
            std::panic::panic_any(BudgetPanic);
        }
        let t = t / w.u.t;
        let y = w.u.by(&vec1(&y));
        let mut g: Vec<f64> = w.s.roots.iter().map(|g| gval(g, t, &y)).collect();
        if let Some(f) = w.hit(|k| matches!(k, Ik::RootNan), w.nroot.get()) {
            fault("root function gives NaN");
            let k = f.comp % g.len();
            g[k] = f64::NAN;
        }
        w.nroot.set(w.nroot.get() + 1);
        for (i, x) in g.iter().enumerate() {
            gout[i] = *x * w.u.g;
        }
        trace(|| format!("roots t={t:e} -> {g:?}"));
        w.ev(Ev::Root { t, y, g });
        w.tick();
    }
}

pub struct SimTol(Rc<World>);
impl TolControl<f64> for SimTol {
    fn ewt_set<S1, S2>(&self, ycur: ArrayBase<S1, Ix1>, mut ewt: ArrayBase<S2, Ix1>)
    where
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::DataMut<Elem = f64>,
    {
        let w = &self.0;
        let y = w.u.by(&vec1(&ycur));
        // the repository's own weights
        let s = &w.s;
        if s.atol.len() == 1 {
            ida::tol_control::TolControlSS::new(s.rtol, s.atol[0] * w.u.y[0].abs()).ewt_set(ycur.view(), ewt.view_mut());
        } else {
            ida::tol_control::TolControlSV::new(s.rtol, Array1::from_iter(s.atol.iter().zip(&w.u.y).map(|(a, u)| a * u.abs()))).ewt_set(ycur.view(), ewt.view_mut());
        }
        let k = w.newt.get();
        w.newt.set(k + 1);
        if let Some(f) = w.hit(|k| matches!(k, Ik::EwtBad | Ik::EwtHuge), k) {
            match f.kind {
                Ik::EwtBad => {
                    fault("unusable weight");
                    ewt[f.comp % y.len()] = match f.nth {
                        255 => -1.0 / w.u.y[f.comp % y.len()].abs(),
                        0 => 0.0,
                        1 => f64::NAN,
                        _ => f64::INFINITY,
                    };
                }
                _ => {
                    fault("weights beyond machine precision");
                    let n = y.len();
                    for i in 0..n {
                        ewt[i] = if f.nth == 255 || y.iter().any(|x| x.abs() < 1e-100) {
                            1e25 / w.u.y[i].abs()
                        } else {
                            // the norm times epsilon comes out at this factor
                            [1e9, 1.5, 1.0 + 1e-9, 1.0 - 1e-9, 0.7, 1e-3][f.comp % 6] / f64::EPSILON / y[i].abs() / w.u.y[i].abs()
                        };
                    }
                }
            }
        }
        let wv = w.u.bw(&(0..y.len()).map(|i| ewt[i]).collect::<Vec<f64>>());
        w.ev(Ev::Ewt { y, w: wv });
        w.tick();
    }
}

pub struct SimLs {
    w: Rc<World>,
    real: ida::linear::Dense<f64>,
}
impl LSolver<f64> for SimLs {
    fn new(size: usize) -> Self {
        let w = CUR.with_borrow(|c| c.clone()).expect("a world");
        SimLs { w, real: <ida::linear::Dense<f64> as LSolver<f64>>::new(size) }
    }
    fn get_type(&self) -> ida::linear::LSolverType {
        self.real.get_type()
    }
    fn setup<S1: ndarray::DataMut<Elem = f64>>(&mut self, mut mat_a: ArrayBase<S1, Ix2>) -> Result<(), failure::Error> {
        let w = self.w.clone();
        let m = w.u.bj(&mat_a.iter().cloned().collect::<Vec<f64>>());
        let r = if w.hit(|k| *k == Ik::LsSetup, w.attempt.get()).is_some() {
            fault("linear setup fails");
            Err(ida::linear::Error::LUFactFail { col: 1 }.into())
        } else {
            self.real.setup(mat_a.view_mut())
        };
        trace(|| format!("linear setup ok={}", r.is_ok()));
        w.ev(Ev::LsSetup { m, ok: r.is_ok() });
        r
    }
    fn solve<S1, S2, S3>(&self, mat_a: ArrayBase<S1, Ix2>, mut x: ArrayBase<S2, Ix1>, b: ArrayBase<S3, Ix1>, tol: f64) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::DataMut<Elem = f64>,
        S3: ndarray::Data<Elem = f64>,
    {
        let w = &self.w;
        let bv = w.u.bf(&vec1(&b));
        let r = self.real.solve(mat_a, x.view_mut(), b, tol);
        let r = match w.hit(|k| *k == Ik::LsSolve, w.attempt.get()) {
            Some(f) => {
                fault("linear solve fails");
                for i in 0..bv.len() {
                    x[i] = if f.nth == 255 { 0.0 } else { 1e30 * w.u.y[i] };
                }
                Err(ida::linear::Error::LUFactFail { col: 1 }.into())
            }
            None => r,
        };
        w.ev(Ev::LsSolve { b: bv, x: w.u.by(&vec1(&x)), ok: r.is_ok() });
        r
    }
}

pub struct SimNls {
    w: Rc<World>,
    real: ida::nonlinear::Newton<SimP>,
    extra: usize,
}

pub const FATAL_MSG: &str = "injected unrecoverable failure";
struct Fatal;
impl std::fmt::Display for Fatal {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(FATAL_MSG)
    }
}

impl NLSolver<SimP> for SimNls {
    fn new(size: usize, maxiters: usize) -> Self {
        let w = CUR.with_borrow(|c| c.clone()).expect("a world");
        SimNls { w, real: <ida::nonlinear::Newton<SimP> as NLSolver<SimP>>::new(size, maxiters), extra: 0 }
    }
    fn solve<NLP, S1, S2, S3>(
        &mut self,
        problem: &mut NLP,
        y0: ArrayBase<S1, Ix1>,
        mut y: ArrayBase<S2, Ix1>,
        w: ArrayBase<S3, Ix1>,
        tol: f64,
        call_lsetup: bool,
    ) -> Result<(), failure::Error>
    where
        NLP: NLProblem<SimP>,
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::DataMut<Elem = f64>,
        S3: ndarray::Data<Elem = f64>,
    {
        let wd = self.w.clone();
        wd.ev(Ev::Attempt { w: wd.u.bw(&vec1(&w)) });
        trace(|| format!("attempt {} begins, setup wanted: {call_lsetup}", wd.attempt.get()));
        wd.nth.set(0);
        wd.in_attempt.set(true);
        let n = y0.len();
        let f = wd.hit(|k| matches!(k, Ik::NlsFail(_) | Ik::NlsFatal), wd.attempt.get());
        let mut garbage = false;
        let r = match f.map(|f| f.kind) {
            Some(Ik::NlsFatal) => {
                fault("unrecoverable failure of the nonlinear solver");
                let mut r = Array1::zeros(n);
                problem.sys(y0.view(), r.view_mut())?;
                Err((End::Fatal, failure::err_msg(Fatal)))
            }
            Some(Ik::NlsFail(how)) => {
                fault("nonlinear solver does not converge");
                if how == 0 {
                    let mut r = Array1::zeros(n);
                    problem.sys(y0.view(), r.view_mut())?;
                } else {
                    let _ = self.real.solve(problem, y0.view(), y.view_mut(), w.view(), tol, call_lsetup);
                    if how >= 2 {
                        garbage = true;
                        for i in 0..n {
                            y[i] = if how == 3 { f64::NAN } else { 1e3 * ((i + 1) as f64) * wd.u.y[i] };
                        }
                    }
                }
                Err((End::Recover, ida::nonlinear::Error::ConvergenceRecover {}.into()))
            }
            _ => self.real.solve(problem, y0.view(), y.view_mut(), w.view(), tol, call_lsetup).map_err(|e| {
                let k = match e.downcast_ref::<ida::nonlinear::Error>() {
                    Some(ida::nonlinear::Error::ConvergenceRecover {}) => End::Recover,
                    _ => End::Linear,
                };
                (k, e)
            }),
        };
        let end = match &r {
            Ok(()) => End::Ok,
            Err((k, _)) => k.clone(),
        };
        trace(|| format!("attempt {} ends: {end:?}", wd.attempt.get()));
        wd.ev(Ev::AttemptEnd { end, ee: wd.u.by(&vec1(&y)), injected: f.is_some(), garbage });
        wd.attempt.set(wd.attempt.get() + 1);
        wd.in_attempt.set(false);
        self.extra += 0;
        r.map_err(|(_, e)| e)
    }
    fn get_num_iters(&self) -> usize {
        self.real.get_num_iters() + self.extra
    }
    fn get_cur_iter(&self) -> usize {
        self.real.get_cur_iter()
    }
    fn get_num_conv_fails(&self) -> usize {
        self.real.get_num_conv_fails()
    }
}

// ------------------------------------------------------------------ the client

type It = Ida<SimP, SimLs, SimNls, SimTol>;

/// What one session did.
pub struct Record {
    pub log: Vec<Ev>,
    pub attempts: u64,
    pub nres: u64,
}

pub fn hash_log(log: &[Ev]) -> u64 {
    let mut h = H::new();
    for e in log {
        match e {
            Ev::Call { normal, tout } => {
                h.u(1 + *normal as u64);
                h.f(*tout)
            }
            Ev::Ret(r) => {
                h.u(3 + r.st as u64);
                h.f(r.tret);
                h.f(r.tn);
                h.f(r.hu);
                h.f(r.hh);
                for c in [r.kused, r.knext, r.nst, r.nre, r.nsetups, r.netf, r.nje, r.nni, r.ncfn, r.nge] {
                    h.u(c as u64)
                }
                h.v(&r.y);
                h.v(&r.yp);
                h.v(&r.iroots);
                h.v(&r.times)
            }
            Ev::Ewt { y, w } => {
                h.v(y);
                h.v(w)
            }
            Ev::Attempt { w } => h.v(w),
            Ev::AttemptEnd { ee, .. } => h.v(ee),
            Ev::Res { t, y, yp, r } => {
                h.f(*t);
                h.v(y);
                h.v(yp);
                h.v(r)
            }
            Ev::Jac { t, cj, y, yp, rr, .. } => {
                h.f(*t);
                h.f(*cj);
                h.v(y);
                h.v(yp);
                h.v(rr)
            }
            Ev::LsSetup { m, ok } => {
                h.v(m);
                h.u(*ok as u64)
            }
            Ev::LsSolve { b, x, ok } => {
                h.v(b);
                h.v(x);
                h.u(*ok as u64)
            }
            Ev::Root { t, y, g } => {
                h.f(*t);
                h.v(y);
                h.v(g)
            }
            Ev::Query { t, ok, times, y, yp, .. } => {
                h.f(*t);
                h.u(*ok as u64);
                h.v(times);
                h.v(y);
                h.v(yp)
            }
            Ev::Panic { msg, .. } => h.u(crate::rng::hash_str(msg)),
        }
    }
    h.0
}

/// How the client behaves; the differential property replays the same session with other habits.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Habit {
    AsPlanned,
    /// after the first step only single steps, up to this many calls
    OneSteps(u32),
    /// the plan's calls with interpolation queries in between
    Curious,
}

fn call(it: &mut It, w: &Rc<World>, normal: bool, tout: f64, tret: &mut f64) -> Option<Status> {
    w.ev(Ev::Call { normal, tout });
    w.call_res.set(0);
    w.call_root.set(0);
    let before = *tret;
    trace(|| format!("solve(tout={tout:e}, {})", if normal { "Normal" } else { "OneStep" }));
    let u = &w.u;
    let r = guarded(|| it.solve(tout * u.t, tret, if normal { IdaTask::Normal } else { IdaTask::OneStep }));
    let mut times = vec![];
    if let Ok(Err(e)) = &r {
        times = times_of(e).iter().map(|t| t / u.t).collect();
    }
    let (st, msg, kind) = match r {
        Ok(Ok(s)) => (
            match s {
                IdaSolveStatus::Success => Status::Success,
                IdaSolveStatus::Root => Status::Root,
                IdaSolveStatus::TStop => Status::TStop,
                IdaSolveStatus::ContinueSteps => Status::Continue,
            },
            String::new(),
            Ek::None,
        ),
        Ok(Err(e)) => (Status::Err, e.to_string(), kind_of(&e)),
        Err(c) => {
            let msg = match c {
                Caught::Budget => format!("unbounded work: more than {RES_PER_CALL} residual or {ROOT_PER_CALL} root evaluations in one call"),
                Caught::Injected => "injected".into(),
                Caught::Lib(m) => m,
            };
            w.ev(Ev::Panic { msg, query: false });
            return None;
        }
    };
    trace(|| format!("  -> {st:?} {msg} tret={:e} tn={:e}", *tret / u.t, it.get_current_time() / u.t));
    w.ev(Ev::Ret(Box::new(Ret {
        st,
        times,
        msg,
        kind,
        tolsf: it.get_tol_scale_factor(),
        h0u: it.get_actual_init_step() / u.t,
        tret: *tret / u.t,
        tret_before: before / u.t,
        tn: it.get_current_time() / u.t,
        hu: it.get_last_step() / u.t,
        hh: it.get_current_setp() / u.t,
        kused: it.get_last_order(),
        knext: it.get_current_order(),
        nst: it.get_num_steps(),
        nre: it.get_num_res_evals(),
        nsetups: it.get_num_lin_solv_setups(),
        netf: it.get_num_err_test_fails(),
        nje: it.get_num_jac_evals(),
        nni: it.get_num_nonlin_solv_iters(),
        ncfn: it.get_num_nonlin_solv_conv_fails(),
        nge: it.get_num_g_evals(),
        y: u.by(&vec1(&it.get_yy())),
        yp: u.byp(&vec1(&it.get_yp())),
        iroots: vec1(&it.get_root_info()),
        calls: w.call_res.get(),
        gcalls: w.call_root.get(),
    })));
    Some(st)
}

fn query(it: &mut It, w: &Rc<World>, t: f64, k: Option<usize>) -> bool {
    let (tn, hu, hh, kused) = (it.get_current_time(), it.get_last_step(), it.get_current_setp(), it.get_last_order());
    let n = w.s.n();
    let r = guarded(|| match k {
        None => it.get_solution(t).map(|_| (vec1(&it.get_yy()), vec1(&it.get_yp()))),
        Some(k) => {
            let mut d = Array1::zeros(n);
            it.get_dky(t, k, &mut d).map(|_| (vec1(&d), vec![]))
        }
    });
    match r {
        Ok(r) => {
            let ok = r.is_ok();
            let kind = r.as_ref().err().map_or(Ek::None, kind_of);
            let times = r.as_ref().err().map_or(vec![], times_of);
            let (y, yp) = r.unwrap_or_default();
            trace(|| format!("query t={t:e} k={k:?} ok={ok} -> {y:?}"));
            let u = &w.u;
            let times = times.iter().map(|t| t / u.t).collect();
            let (y, yp) = match k {
                None => (u.by(&y), u.byp(&yp)),
                Some(k) => (u.by(&y).iter().map(|x| x * u.t.powi(k as i32)).collect(), yp),
            };
            w.ev(Ev::Query { t: t / u.t, k, ok, kind, times, y, yp, tn: tn / u.t, hu: hu / u.t, hh: hh / u.t, kused });
            true
        }
        Err(c) => {
            let msg = match c {
                Caught::Lib(m) => m,
                _ => "panic".into(),
            };
            w.ev(Ev::Panic { msg, query: true });
            false
        }
    }
}

pub fn run_session(s: &ISession, habit: Habit, y: Option<&dyn Fn(u64)>) -> Record {
    run_units(s, habit, y, Units::base(s.n()))
}

pub fn run_units(s: &ISession, habit: Habit, y: Option<&dyn Fn(u64)>, u: Units) -> Record {
    let w = Rc::new(World {
        s: s.clone(),
        u,
        log: RefCell::new(Vec::new()),
        attempt: Cell::new(0),
        nth: Cell::new(0),
        nres: Cell::new(0),
        nroot: Cell::new(0),
        newt: Cell::new(0),
        call_res: Cell::new(0),
        call_root: Cell::new(0),
        // SAFETY: the pointer is used only while this function runs
        yld: Cell::new(y.map(|f| unsafe { std::mem::transmute::<&dyn Fn(u64), *const dyn Fn(u64)>(f) })),
        ncb: Cell::new(0),
        in_attempt: Cell::new(false),
    });
    let (mut y0, mut yp0) = s.initial();
    for i in 0..y0.len() {
        y0[i] *= w.u.y[i];
        yp0[i] *= w.u.y[i] / w.u.t;
    }
    CUR.with_borrow_mut(|c| *c = Some(w.clone()));
    let mut it: It = Ida::new(SimP(w.clone()), Array1::from_vec(y0), Array1::from_vec(yp0), SimTol(w.clone()));
    CUR.with_borrow_mut(|c| *c = None);
    let mut tret = 0.0;
    let first = s.ops.iter().find_map(|o| if let Op::Solve { tout, .. } = o { Some(*tout) } else { None }).unwrap_or(1.0);
    let mut q = Rng::new(mix(s.budget, 0xc0));
    let at = |it: &It, frac: f64| {
        let (tn, hu) = (it.get_current_time(), it.get_last_step());
        if frac == 1.0 {
            tn
        } else if frac == 0.0 {
            tn - hu
        } else {
            tn - hu + frac * hu
        }
    };
    'run: {
        for op in &s.ops {
            if w.nres.get() > s.budget {
                break;
            }
            match op {
                Op::Solve { normal, tout, tries } => {
                    let mut k = 0;
                    loop {
                        // until there is a first step the first output time decides the initial step size: keep to it
                        let started = it.get_num_steps() > 0;
                        let to = if started { *tout } else { first };
                        let st = match call(&mut it, &w, *normal, to, &mut tret) {
                            Some(s) => s,
                            None => break 'run,
                        };
                        if habit == Habit::Curious && it.get_num_steps() > 0 {
                            for _ in 0..1 + q.us(2) {
                                let t = at(&it, q.f());
                                let kk = q.us(7);
                                let kk = if kk < 6 { Some(kk.min(it.get_last_order())) } else { None };
                                if !query(&mut it, &w, t, kk) {
                                    break 'run;
                                }
                            }
                        }
                        k += 1;
                        if w.nres.get() > s.budget || k > *tries {
                            break;
                        }
                        match st {
                            Status::Root | Status::Err => continue,
                            _ => break,
                        }
                    }
                    if let Habit::OneSteps(m) = habit {
                        if it.get_num_steps() > 0 {
                            for _ in 0..m {
                                if w.nres.get() > s.budget || call(&mut it, &w, false, first, &mut tret).is_none() {
                                    break 'run;
                                }
                            }
                            break;
                        }
                    }
                }
                Op::Query { frac } => {
                    let t = at(&it, *frac);
                    if it.get_num_steps() > 0 && !query(&mut it, &w, t, None) {
                        break 'run;
                    }
                }
                Op::Dky { frac, k } => {
                    let t = at(&it, *frac);
                    if it.get_num_steps() > 0 && !query(&mut it, &w, t, Some(*k)) {
                        break 'run;
                    }
                }
            }
        }
        if it.get_num_steps() > 0 {
            let t = it.get_current_time();
            query(&mut it, &w, t, None);
        }
    }
    drop(it);
    let log = w.log.borrow_mut().split_off(0);
    Record { log, attempts: w.attempt.get(), nres: w.nres.get() }
}
