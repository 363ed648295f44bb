//! A time-stepping client on the real solver stack: implicit Euler on stiff, contractive systems,
//! Jacobians reused across steps, failed steps retried with a fresh Jacobian, crashes answered by a
//! restart from the last checkpoint (clones of solver, factors and state).

use crate::common::*;
use crate::exec::{self, YieldFn};
use crate::nsim::{Cb, Fk, Vm};
use crate::rng::{mix, Rng};
use linear::{Dense, LSolver};
use nalgebra::allocator::Allocator;
use nalgebra::{Const, DefaultAllocator, DimName, DimNameAdd, Matrix, OMatrix, OVector, Storage, StorageMut, U1};
use nonlinear::norm_wrms::NormWRMS;
use nonlinear::{Error, NLProblem, NLSolver, Newton};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// Fires at the `at`-th callback since the client's start, whatever callback that is.
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Debug)]
pub struct TFault {
    pub at: u64,
    pub kind: Fk,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct TSession {
    pub n: usize,
    pub seed: u64,
    pub steps: usize,
    pub h: f64,
    /// the step size doubles and halves every so many steps (0: never)
    pub hperiod: usize,
    /// setup is requested every so many steps
    pub msbp: usize,
    pub maxiters: usize,
    pub tol: f64,
    pub ws: f64,
    /// a checkpoint is taken every so many steps
    pub ckpt: usize,
    /// the client is cloned before this step, and the clone run to the end as well
    pub fork_at: Option<usize>,
    /// the clone runs before the original continues
    pub clone_first: bool,
    pub start: u64,
    pub lat: Vec<u32>,
    pub faults: Vec<TFault>,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct TPlan {
    pub sessions: Vec<TSession>,
}

pub const SIZES: [usize; 7] = [1, 2, 3, 4, 5, 8, 12];

/// y' = -D y + K y - c y^3 + s(t), K skew: contractive, stiff through D.
#[derive(Clone)]
struct Ode<const N: usize> {
    d: [f64; N],
    k: Vec<f64>,
    c: f64,
    amp: [f64; N],
    y0: [f64; N],
}

impl<const N: usize> Ode<N> {
    fn new(s: &TSession) -> Self {
        let mut r = Rng::new(mix(s.seed, 0x0de));
        let stiff = r.f() * 4.0;
        let d: [f64; N] = std::array::from_fn(|_| 10f64.powf(r.f() * stiff));
        let mut k = vec![0.0; N * N];
        let ks = 10f64.powf(r.f() * 2.0);
        for i in 0..N {
            for j in 0..i {
                let x = r.s() * ks;
                k[i * N + j] = x;
                k[j * N + i] = -x;
            }
        }
        Ode {
            amp: std::array::from_fn(|i| 0.5 * d[i].min(3.0) * r.s()),
            d,
            k,
            c: 0.01 * r.f() / s.h.max(0.01),
            y0: std::array::from_fn(|_| r.s()),
        }
    }
    fn rhs(&self, t: f64, y: &[f64; N]) -> [f64; N] {
        std::array::from_fn(|i| {
            let ky: f64 = (0..N).map(|j| self.k[i * N + j] * y[j]).sum();
            -self.d[i] * y[i] + ky - self.c * y[i] * y[i] * y[i] + self.amp[i] * (t * (1.0 + i as f64)).sin()
        })
    }
    /// I - h df/dy, row-major
    fn jac(&self, h: f64, y: &[f64; N]) -> Vec<f64> {
        let mut j = vec![0.0; N * N];
        for i in 0..N {
            for q in 0..N {
                j[i * N + q] = -h * self.k[i * N + q];
            }
            j[i * N + i] = 1.0 + h * (self.d[i] + 3.0 * self.c * y[i] * y[i]);
        }
        j
    }
}

fn step_h(s: &TSession, k: usize) -> f64 {
    if s.hperiod > 0 && (k / s.hperiod) % 2 == 1 {
        s.h * 0.5
    } else {
        s.h
    }
}

/// The harness's own solution of the implicit Euler equations, to rounding.
fn reference<const N: usize>(s: &TSession, o: &Ode<N>) -> Option<Vec<[f64; N]>> {
    let mut y = o.y0;
    let mut t = 0.0;
    let mut out = vec![y];
    for k in 0..s.steps {
        let h = step_h(s, k);
        t += h;
        let p = y;
        let mut done = false;
        for _ in 0..60 {
            let f = o.rhs(t, &y);
            let mut b: Vec<f64> = (0..N).map(|i| -(y[i] - p[i] - h * f[i])).collect();
            let mut a = o.jac(h, &y);
            // plain elimination with pivoting, row-major
            for c in 0..N {
                let l = (c..N).max_by(|x, z| a[x * N + c].abs().total_cmp(&a[z * N + c].abs()))?;
                for j in 0..N {
                    a.swap(c * N + j, l * N + j);
                }
                b.swap(c, l);
                for i in c + 1..N {
                    let q = a[i * N + c] / a[c * N + c];
                    for j in c..N {
                        a[i * N + j] -= q * a[c * N + j];
                    }
                    b[i] -= q * b[c];
                }
            }
            for c in (0..N).rev() {
                b[c] /= a[c * N + c];
                for i in 0..c {
                    b[i] -= a[i * N + c] * b[c];
                }
            }
            let mut m: f64 = 0.0;
            for i in 0..N {
                y[i] += b[i];
                m = m.max(b[i].abs());
            }
            if m < 1e-13 {
                done = true;
                break;
            }
        }
        if !done {
            return None;
        }
        out.push(y);
    }
    Some(out)
}

/// Everything the client keeps; cloning it is taking a checkpoint.
struct Client<const N: usize>
where
    Const<N>: DimNameAdd<Const<N>>,
    DefaultAllocator: Allocator<usize, Const<N>> + Allocator<f64, Const<N>, Const<N>> + Allocator<f64, Const<N>>,
{
    newton: Newton<f64, Const<N>>,
    dense: Dense<Const<N>>,
    jac: OMatrix<f64, Const<N>, Const<N>>,
    /// step size of the factors, None if there are none
    fac_h: Option<f64>,
    y: [f64; N],
    t: f64,
    k: usize,
    want_setup: bool,
    traj: Vec<[f64; N]>,
}

impl<const N: usize> Clone for Client<N>
where
    Const<N>: DimName + DimNameAdd<Const<N>>,
    DefaultAllocator: Allocator<usize, Const<N>> + Allocator<f64, Const<N>, Const<N>> + Allocator<f64, Const<N>>,
{
    fn clone(&self) -> Self {
        Client {
            newton: self.newton.clone(),
            dense: self.dense.clone(),
            jac: self.jac.clone(),
            fac_h: self.fac_h,
            y: self.y,
            t: self.t,
            k: self.k,
            want_setup: self.want_setup,
            traj: self.traj.clone(),
        }
    }
}

struct Env<'a, const N: usize>
where
    DefaultAllocator: Allocator<usize, Const<N>> + Allocator<f64, Const<N>, Const<N>> + Allocator<f64, Const<N>>,
{
    ode: &'a Ode<N>,
    h: f64,
    t: f64,
    yp: [f64; N],
    dense: &'a mut Dense<Const<N>>,
    jac: &'a mut OMatrix<f64, Const<N>, Const<N>>,
    fac_h: &'a mut Option<f64>,
    w: &'a World<'a>,
    total: u32,
    budget: u32,
    fired: u32,
}

/// What survives a crash of the client: the outside world with its fault schedule.
struct World<'a> {
    calls: Cell<u64>,
    faults: &'a [TFault],
    pause: &'a dyn Fn(u64),
    h: RefCell<H>,
}

impl<const N: usize> Env<'_, N>
where
    DefaultAllocator: Allocator<usize, Const<N>> + Allocator<f64, Const<N>, Const<N>> + Allocator<f64, Const<N>>,
{
    fn enter(&mut self, cb: Cb) -> Result<Option<Fk>, Error> {
        if self.total >= self.budget {
            std::panic::resume_unwind(Box::new(BudgetPanic));
        }
        self.total += 1;
        let k = self.w.calls.get();
        self.w.calls.set(k + 1);
        self.w.h.borrow_mut().u(cb as u64);
        let (mut r, mut extra) = (None, 0);
        for f in self.w.faults {
            if f.at == k {
                fault(&format!("{:?}:{}", cb, f.kind.name()));
                if let Fk::Stall(t) = f.kind {
                    extra += t as u64
                } else {
                    self.fired += 1;
                    r = r.or(Some(f.kind));
                }
            }
        }
        (self.w.pause)(extra);
        trace(|| format!("t={} {cb:?} (callback {k}){}", exec::NOW.get(), r.map(|e| format!(" fault {e:?}")).unwrap_or_default()));
        match r {
            Some(Fk::Recover) => Err(Error::ConvergenceRecover {}),
            Some(Fk::Illegal) => Err(Error::IllegalInput {}),
            Some(Fk::Panic) => std::panic::resume_unwind(Box::new(InjectedPanic)),
            r => Ok(r),
        }
    }
}

fn arr<const N: usize, S: Storage<f64, Const<N>, U1>>(v: &Matrix<f64, Const<N>, U1, S>) -> [f64; N] {
    std::array::from_fn(|i| v[i])
}

impl<const N: usize> NLProblem<f64, Const<N>> for Env<'_, N>
where
    Const<N>: DimName + DimNameAdd<Const<N>>,
    DefaultAllocator: Allocator<usize, Const<N>> + Allocator<f64, Const<N>, Const<N>> + Allocator<f64, Const<N>>,
{
    fn sys<SA, SB>(&mut self, y: &Matrix<f64, Const<N>, U1, SA>, f: &mut Matrix<f64, Const<N>, U1, SB>) -> Result<(), Error>
    where
        SA: Storage<f64, Const<N>, U1>,
        SB: StorageMut<f64, Const<N>, U1>,
    {
        let v = self.enter(Cb::Sys)?;
        let y = arr(y);
        let r = self.ode.rhs(self.t, &y);
        for i in 0..N {
            f[i] = y[i] - self.yp[i] - self.h * r[i];
        }
        if matches!(v, Some(Fk::Val(_))) {
            f[0] = f64::NAN;
        }
        Ok(())
    }
    fn setup<SA, SB>(&mut self, y: &Matrix<f64, Const<N>, U1, SA>, _f: &Matrix<f64, Const<N>, U1, SB>, _jbad: bool) -> Result<bool, Error>
    where
        SA: Storage<f64, Const<N>, U1>,
        SB: Storage<f64, Const<N>, U1>,
    {
        let v = self.enter(Cb::Setup)?;
        if v == Some(Fk::Decline) && *self.fac_h == Some(self.h) {
            return Ok(false);
        }
        let j = self.ode.jac(self.h, &arr(y));
        for i in 0..N {
            for q in 0..N {
                self.jac[(i, q)] = j[i * N + q];
            }
        }
        if let Some(Fk::Val(m)) = v {
            for i in 0..N {
                self.jac[(i, N - 1)] = if m == Vm::Zero { 0.0 } else { f64::NAN };
            }
        }
        *self.fac_h = None;
        self.dense.setup(self.jac)?;
        *self.fac_h = Some(self.h);
        Ok(true)
    }
    fn solve<SA, SB>(&mut self, _y: &Matrix<f64, Const<N>, U1, SA>, b: &mut Matrix<f64, Const<N>, U1, SB>) -> Result<(), Error>
    where
        SA: Storage<f64, Const<N>, U1>,
        SB: StorageMut<f64, Const<N>, U1>,
    {
        let v = self.enter(Cb::Solve)?;
        if self.fac_h.is_none() {
            return Err(Error::ConvergenceRecover {});
        }
        let rhs = OVector::<f64, Const<N>>::from_fn(|i, _| b[i]);
        let mut x = OVector::<f64, Const<N>>::zeros();
        self.dense.solve(self.jac, &mut x, &rhs, 0.0)?;
        if matches!(v, Some(Fk::Val(_))) {
            x[0] = f64::INFINITY;
        }
        for i in 0..N {
            b[i] = x[i];
        }
        Ok(())
    }
    fn ctest<NLS, SA, SB, SC>(
        &mut self,
        _solver: &NLS,
        _y: &Matrix<f64, Const<N>, U1, SA>,
        del: &Matrix<f64, Const<N>, U1, SB>,
        tol: f64,
        ewt: &Matrix<f64, Const<N>, U1, SC>,
    ) -> Result<bool, Error>
    where
        NLS: NLSolver<f64, Const<N>>,
        SA: Storage<f64, Const<N>, U1>,
        SB: Storage<f64, Const<N>, U1>,
        SC: Storage<f64, Const<N>, U1>,
    {
        self.enter(Cb::Ctest)?;
        let d = OVector::<f64, Const<N>>::from_fn(|i, _| del[i]);
        let w = OVector::<f64, Const<N>>::from_fn(|i, _| ewt[i]);
        Ok(d.norm_wrms(&w) <= tol)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum TEnd {
    Done,
    /// the client gave up: what happened
    Stuck(String),
    Lib(String),
}

#[derive(Clone, Debug)]
pub struct TOut {
    traj: Vec<Vec<f64>>,
    end: TEnd,
    attempts: u64,
    crashes: u64,
    hash: u64,
}

fn drive<const N: usize>(s: &TSession, ode: &Ode<N>, w: &World, c: &mut Client<N>, until: usize) -> TOut
where
    Const<N>: DimName + DimNameAdd<Const<N>>,
    DefaultAllocator: Allocator<usize, Const<N>> + Allocator<f64, Const<N>, Const<N>> + Allocator<f64, Const<N>>,
{
    let mut saved = c.clone();
    let (mut attempts, mut crashes) = (0u64, 0u64);
    let nf = s.faults.len() as u64;
    let cap = (s.steps as u64 + 1) + nf * (s.ckpt as u64 + 3);
    let wv = OVector::<f64, Const<N>>::from_element(s.ws);
    let mut end = TEnd::Done;
    while c.k < until {
        if c.k % s.ckpt == 0 && saved.k != c.k {
            saved = c.clone();
        }
        let h = step_h(s, c.k);
        let t = c.t + h;
        let lsetup = c.want_setup || c.k % s.msbp == 0 || c.fac_h != Some(h);
        attempts += 1;
        if attempts > cap {
            end = TEnd::Stuck(format!("{attempts} step attempts for {} steps and {nf} faults", s.steps));
            break;
        }
        let y0 = OVector::<f64, Const<N>>::from_fn(|i, _| c.y[i]);
        let mut y = OVector::<f64, Const<N>>::from_element(f64::NAN);
        let mut env = Env {
            ode,
            h,
            t,
            yp: c.y,
            dense: &mut c.dense,
            jac: &mut c.jac,
            fac_h: &mut c.fac_h,
            w,
            total: 0,
            budget: crate::nsim::budget(s.maxiters) + 10,
            fired: 0,
        };
        let nw = &mut c.newton;
        let r = guarded(|| nw.solve(&mut env, &y0, &mut y, &wv, s.tol, lsetup));
        let fired = env.fired;
        match r {
            Ok(Ok(())) => {
                c.y = arr(&y);
                c.t = t;
                c.k += 1;
                c.want_setup = false;
                c.traj.push(c.y);
                w.h.borrow_mut().v(&c.y);
                trace(|| format!("step {} done", c.k));
            }
            Ok(Err(e)) => {
                trace(|| format!("step {} failed: {e:?}", c.k));
                if fired == 0 {
                    end = TEnd::Stuck(format!("step {} failed ({e:?}) although no fault occurred in it (setup requested: {lsetup})", c.k));
                    break;
                }
                probe("step retried after a fault");
                c.want_setup = true;
            }
            Err(Caught::Injected) => {
                crashes += 1;
                probe("client restarted from a checkpoint");
                *c = saved.clone();
                trace(|| format!("client crashed, restarts from step {}", c.k));
            }
            Err(Caught::Budget) => {
                end = TEnd::Stuck(format!("the solve of step {} does not end", c.k));
                break;
            }
            Err(Caught::Lib(m)) => {
                end = TEnd::Lib(m);
                break;
            }
        }
    }
    let hash = w.h.borrow().0;
    TOut { traj: c.traj.iter().map(|a| a.to_vec()).collect(), end, attempts, crashes, hash }
}

fn tbody<const N: usize>(s: TSession, id: usize, out: Rc<RefCell<Vec<Vec<TOut>>>>) -> exec::Body
where
    Const<N>: DimName + DimNameAdd<Const<N>>,
    DefaultAllocator: Allocator<usize, Const<N>> + Allocator<f64, Const<N>, Const<N>> + Allocator<f64, Const<N>>,
{
    Box::new(move |yld: YieldFn| {
        let pos = Cell::new(0usize);
        let pause = |extra: u64| {
            let k = pos.get();
            pos.set(k + 1);
            yld(extra + if s.lat.is_empty() { 0 } else { s.lat[k % s.lat.len()] as u64 })
        };
        let ode = Ode::<N>::new(&s);
        let w = World { calls: Cell::new(0), faults: &s.faults, pause: &pause, h: RefCell::new(H::new()) };
        let mut c = Client::<N> {
            newton: Newton::new(s.maxiters),
            dense: <Dense<Const<N>> as LSolver<f64, Const<N>>>::new(),
            jac: OMatrix::<f64, Const<N>, Const<N>>::zeros(),
            fac_h: None,
            y: ode.y0,
            t: 0.0,
            k: 0,
            want_setup: true,
            traj: vec![ode.y0],
        };
        if let Some(f) = s.fork_at.filter(|f| *f < s.steps) {
            let r = drive(&s, &ode, &w, &mut c, f);
            if r.end != TEnd::Done {
                out.borrow_mut()[id].push(r);
                return;
            }
            fault("clone of the running client");
            let mut c2 = c.clone();
            // both meet the same world from here on
            let w2 = World { calls: w.calls.clone(), faults: &s.faults, pause: &pause, h: RefCell::new(*w.h.borrow()) };
            let (a, b);
            if s.clone_first {
                b = drive(&s, &ode, &w2, &mut c2, s.steps);
                a = drive(&s, &ode, &w, &mut c, s.steps);
            } else {
                a = drive(&s, &ode, &w, &mut c, s.steps);
                b = drive(&s, &ode, &w2, &mut c2, s.steps);
            }
            out.borrow_mut()[id].extend([a, b]);
        } else {
            let r = drive(&s, &ode, &w, &mut c, s.steps);
            out.borrow_mut()[id].push(r);
        }
    })
}

fn tjudge<const N: usize>(s: &TSession, r: &[TOut], id: usize, o: &mut RunOut) {
    let ode = Ode::<N>::new(s);
    for (k, x) in r.iter().enumerate() {
        let tag = format!("client {id}{}", if k == 1 { " (clone)" } else { "" });
        o.solves += x.attempts;
        match &x.end {
            TEnd::Lib(m) => o.add("S04", "panic", format!("{tag}: the library panicked: {m}")),
            TEnd::Stuck(m) => o.add("S04", "no progress", format!("{tag}: {m}")),
            TEnd::Done => {}
        }
    }
    if let [a, b] = r {
        if a.end != b.end || a.hash != b.hash || a.traj.len() != b.traj.len() || !a.traj.iter().zip(&b.traj).all(|(x, y)| biteq(x, y)) {
            o.add("S04", "restart diverges", format!("client {id}: continuing a clone from step {:?} gives another trajectory", s.fork_at));
        } else {
            probe("clone of the client reached the same trajectory");
        }
    }
    let Some(rf) = reference(s, &ode) else { return };
    let ymax = 1.5 * rf.iter().flat_map(|y| y.iter()).fold(0.0f64, |m, v| m.max(v.abs())) + 0.2;
    let rho = 6.0 * ode.c * s.h * ymax * ymax;
    if rho > 0.5 {
        return;
    }
    let per = rho / (1.0 - rho) * s.tol / s.ws * (N as f64).sqrt();
    for (k, x) in r.iter().enumerate() {
        for (i, y) in x.traj.iter().enumerate() {
            let e = y.iter().zip(&rf[i]).map(|(a, b)| (a - b) * (a - b)).sum::<f64>().sqrt();
            let lim = i as f64 * (per * 1.01 + 1e-11) + 1e-12;
            if !(e <= lim) {
                o.add(
                    "S04",
                    "trajectory off",
                    format!("client {id}{}: step {i} is {e:e} away from the reference, accumulated tolerance {lim:e}", if k == 1 { " (clone)" } else { "" }),
                );
                return;
            }
        }
        if x.end == TEnd::Done {
            probe("trajectory within tolerance");
            if x.crashes > 0 {
                probe("trajectory within tolerance after a crash");
            }
        }
    }
}

macro_rules! sized {
    ($n:expr, $f:ident, $($a:expr),*) => {
        match $n {
            1 => $f::<1>($($a),*), 2 => $f::<2>($($a),*), 3 => $f::<3>($($a),*), 4 => $f::<4>($($a),*),
            5 => $f::<5>($($a),*), 8 => $f::<8>($($a),*), 12 => $f::<12>($($a),*),
            n => panic!("unsupported size {n}"),
        }
    };
}

pub fn run(_prop: &str, p: &TPlan) -> RunOut {
    let mut o = RunOut::default();
    let out: Rc<RefCell<Vec<Vec<TOut>>>> = Rc::new(RefCell::new(vec![vec![]; p.sessions.len()]));
    let bodies = p.sessions.iter().enumerate().map(|(i, s)| sized!(s.n, tbody, s.clone(), i, out.clone())).collect();
    let start: Vec<u64> = p.sessions.iter().map(|s| s.start).collect();
    let sc = exec::interleave(bodies, &start);
    o.simtime = sc.simtime;
    o.sched = sc.hash;
    let mut h = H::new();
    h.u(sc.hash);
    for (i, r) in out.borrow().iter().enumerate() {
        for x in r {
            h.u(x.hash);
            h.u(x.attempts);
            x.traj.iter().for_each(|y| h.v(y));
        }
        sized!(p.sessions[i].n, tjudge, &p.sessions[i], r, i, &mut o);
    }
    o.hash = h.0;
    o
}

pub fn gen(r: &mut Rng) -> TPlan {
    let ns = if r.chance(0.35) { 2 + r.us(2) } else { 1 };
    TPlan {
        sessions: (0..ns)
            .map(|_| {
                let steps = 3 + r.us(40);
                let kinds: Vec<Fk> = {
                    let all = [
                        Fk::Recover,
                        Fk::Illegal,
                        Fk::Panic,
                        Fk::Decline,
                        Fk::Val(Vm::Nan),
                        Fk::Val(Vm::Zero),
                        Fk::Stall(100_000),
                    ];
                    let mut k: Vec<Fk> = all.into_iter().filter(|_| r.chance(0.5)).collect();
                    if k.is_empty() {
                        k.push(Fk::Recover)
                    }
                    k
                };
                let nf = match r.below(5) {
                    0 => 0,
                    1 | 2 => 1 + r.us(3),
                    3 => 3 + r.us(6),
                    _ => r.us(steps),
                };
                let span = steps as u64 * 9;
                let mut faults: Vec<TFault> = vec![];
                for _ in 0..nf {
                    let at = r.below(span);
                    faults.push(TFault { at, kind: *r.pick(&kinds) });
                    if r.chance(0.3) {
                        // a burst, so that the retry fails too
                        for d in 1..1 + r.below(6) {
                            faults.push(TFault { at: at + d, kind: *r.pick(&kinds) });
                        }
                    }
                }
                TSession {
                    n: SIZES[r.us(SIZES.len())],
                    seed: r.u64() >> 16,
                    steps,
                    h: 10f64.powf(-3.0 + 2.5 * r.f()),
                    hperiod: if r.chance(0.4) { 1 + r.us(8) } else { 0 },
                    msbp: 1 + r.us(12),
                    maxiters: *r.pick(&[12usize, 20, 40]),
                    tol: 10f64.powf(-1.0 - 4.0 * r.f()),
                    ws: 10f64.powf(4.0 * r.f()),
                    ckpt: 1 + r.us(8),
                    fork_at: if r.chance(0.4) { Some(r.us(steps)) } else { None },
                    clone_first: r.chance(0.5),
                    start: r.below(20),
                    lat: (0..1 + r.us(8)).map(|_| r.below(20) as u32).collect(),
                    faults,
                }
            })
            .collect(),
    }
}

pub fn simpler(p: &TPlan) -> Vec<TPlan> {
    let mut v = vec![];
    if p.sessions.len() > 1 {
        for i in 0..p.sessions.len() {
            let mut q = p.clone();
            q.sessions.remove(i);
            v.push(q);
        }
    }
    for i in 0..p.sessions.len() {
        let s = &p.sessions[i];
        let mut edit = |f: &dyn Fn(&mut TSession)| {
            let mut q = p.clone();
            f(&mut q.sessions[i]);
            if q != *p {
                v.push(q);
            }
        };
        let n = s.faults.len();
        let mut c = n;
        while c >= 1 {
            let mut a = 0;
            while a < n {
                edit(&|s| {
                    s.faults.drain(a..(a + c).min(n));
                });
                a += c;
            }
            c /= 2;
        }
        edit(&|s| s.fork_at = None);
        edit(&|s| s.lat = vec![]);
        edit(&|s| s.start = 0);
        edit(&|s| s.hperiod = 0);
        edit(&|s| s.steps /= 2);
        if s.steps > 1 {
            edit(&|s| s.steps -= 1);
        }
        for m in SIZES {
            if m < s.n {
                edit(&|s| s.n = m);
            }
        }
        edit(&|s| s.ckpt = 1);
        edit(&|s| s.msbp = 1);
        for k in 0..n {
            edit(&|s| s.faults[k].at /= 2);
        }
        edit(&|s| s.seed = 1);
    }
    v
}
