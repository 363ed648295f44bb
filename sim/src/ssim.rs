//! System-level simulation: the real Newton solver, dense linear solver and weighted norm together
//! on model equations whose root and contraction are known, with faults injected in the callbacks.

use crate::common::*;
use crate::exec::{self, YieldFn};
use crate::nsim::{Cb, Fault, Fk, Vm, CBS};
use crate::rng::{mix, Rng};
use linear::{Dense, LSolver};
use nalgebra::allocator::Allocator;
use nalgebra::{Const, DefaultAllocator, DimName, DimNameAdd, Matrix, OMatrix, OVector, Storage, StorageMut, U1};
use nonlinear::norm_wrms::NormWRMS;
use nonlinear::{Error, NLProblem, NLSolver, Newton};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct SOp {
    pub lsetup: bool,
    pub start: u64,
    /// weighted distance of the initial guess from the root
    pub radius: f64,
    pub tol: f64,
    pub fill: Vm,
    pub faults: Vec<Fault>,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct SSession {
    pub n: usize,
    pub seed: u64,
    /// strength of the nonlinearity
    pub lambda: f64,
    /// size of the Jacobian's perturbation
    pub pert: f64,
    pub maxiters: usize,
    pub start: u64,
    pub lat: Vec<u32>,
    pub ops: Vec<SOp>,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct SPlan {
    pub sessions: Vec<SSession>,
}

pub const SIZES: [usize; 14] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 17, 20, 33];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SEnd {
    Ok,
    Recover,
    Fatal,
    Injected,
    Budget,
    Lib,
}

#[derive(Clone, Debug)]
pub struct SRec {
    pub end: SEnd,
    pub msg: String,
    pub y: Vec<f64>,
    pub del: Vec<f64>,
    pub tests: u32,
    pub iters: u64,
    pub fired: u32,
    /// the factors in use at the end come from a Jacobian with a non-finite entry
    pub tainted: bool,
    pub hash: u64,
}

/// F(y) = M W^-1 (u + lambda N(u)), u = W (y - ystar), N(u)_i = sin(u_pi(i))
#[derive(Clone)]
pub struct Model<const N: usize> {
    m: Vec<f64>, // row-major
    pub w: [f64; N],
    pub ystar: [f64; N],
    pi: [usize; N],
    lambda: f64,
    pert: f64,
    seed: u64,
}

impl<const N: usize> Model<N> {
    fn new(s: &SSession) -> Self {
        let mut r = Rng::new(mix(s.seed, 0x30de1));
        let mut p: Vec<usize> = (0..N).collect();
        let mut pi: Vec<usize> = (0..N).collect();
        for i in (1..N).rev() {
            p.swap(i, r.us(i + 1));
            pi.swap(i, r.us(i + 1));
        }
        let mut m = vec![0.0; N * N];
        for i in 0..N {
            let rs = 2f64.powi(r.us(9) as i32 - 4) * if r.chance(0.5) { -1.0 } else { 1.0 };
            for j in 0..N {
                let x = 0.4 * r.s() / (N as f64).sqrt() + if i == j { 1.0 } else { 0.0 };
                m[p[i] * N + j] = x * rs;
            }
        }
        let wr = r.f() * 3.0;
        Model {
            m,
            w: std::array::from_fn(|_| 10f64.powf(r.f() * wr)),
            ystar: std::array::from_fn(|_| r.s() * 2.0),
            pi: std::array::from_fn(|i| pi[i]),
            lambda: s.lambda,
            pert: s.pert,
            seed: s.seed,
        }
    }
    fn f(&self, y: &[f64; N]) -> [f64; N] {
        let u: [f64; N] = std::array::from_fn(|i| self.w[i] * (y[i] - self.ystar[i]));
        let g: [f64; N] = std::array::from_fn(|i| (u[i] + self.lambda * u[self.pi[i]].sin()) / self.w[i]);
        std::array::from_fn(|i| (0..N).map(|j| self.m[i * N + j] * g[j]).sum())
    }
    fn jac(&self, y: &[f64; N], k: u64) -> Vec<f64> {
        let mut r = Rng::new(mix(self.seed, 0x1ac0 + k));
        let mut b = vec![0.0; N * N];
        for i in 0..N {
            for j in 0..N {
                b[i * N + j] = self.pert / N as f64 * r.s();
            }
            b[i * N + i] += 1.0;
            let q = self.pi[i];
            b[i * N + q] += self.lambda * (self.w[q] * (y[q] - self.ystar[q])).cos();
        }
        for i in 0..N {
            for j in 0..N {
                b[i * N + j] *= self.w[j] / self.w[i];
            }
        }
        let mut o = vec![0.0; N * N];
        for i in 0..N {
            for j in 0..N {
                o[i * N + j] = (0..N).map(|k| self.m[i * N + k] * b[k * N + j]).sum();
            }
        }
        o
    }
    /// contraction factor of one iteration in the weighted norm, with any Jacobian this model hands out
    fn rho(&self) -> f64 {
        (2.0 * self.lambda + self.pert) / (1.0 - self.lambda - self.pert)
    }
    pub fn wn(&self, v: &[f64]) -> f64 {
        (v.iter().zip(&self.w).map(|(x, w)| (x * w) * (x * w)).sum::<f64>() / N as f64).sqrt()
    }
    fn err(&self, y: &[f64]) -> f64 {
        let d: Vec<f64> = y.iter().zip(&self.ystar).map(|(a, b)| a - b).collect();
        self.wn(&d)
    }
    fn slack(&self, y: &[f64]) -> f64 {
        let s = (0..N).map(|i| self.w[i] * (y[i].abs() + self.ystar[i].abs() + 1.0)).fold(0.0, f64::max);
        1e3 * N as f64 * f64::EPSILON * s
    }
}

struct Env<'a, const N: usize>
where
    DefaultAllocator: Allocator<usize, Const<N>> + Allocator<f64, Const<N>, Const<N>>,
{
    model: Model<N>,
    dense: Dense<Const<N>>,
    jac: OMatrix<f64, Const<N>, Const<N>>,
    have: bool,
    tainted: bool,
    setups: u64,
    // per solve
    faults: Vec<Fault>,
    n: [u32; 4],
    total: u32,
    budget: u32,
    fired: u32,
    tests: u32,
    last_del: Vec<f64>,
    h: H,
    pause: &'a dyn Fn(u64),
}

fn arr<const N: usize, S: Storage<f64, Const<N>, U1>>(v: &Matrix<f64, Const<N>, U1, S>) -> [f64; N] {
    std::array::from_fn(|i| v[i])
}

impl<const N: usize> Env<'_, N>
where
    DefaultAllocator: Allocator<usize, Const<N>> + Allocator<f64, Const<N>, Const<N>>,
{
    fn enter(&mut self, cb: Cb) -> Result<Option<Fk>, Error> {
        if self.total >= self.budget {
            std::panic::resume_unwind(Box::new(BudgetPanic));
        }
        self.total += 1;
        let k = self.n[cb as usize];
        self.n[cb as usize] += 1;
        self.h.u(cb as u64);
        let mut val = None;
        let mut err = None;
        let mut extra = 0;
        for f in &self.faults {
            if f.cb == cb && f.at == k {
                self.fired += 1;
                fault(&format!("{:?}:{}", cb, f.kind.name()));
                match f.kind {
                    Fk::Stall(t) => extra += t as u64,
                    Fk::Val(_) | Fk::Decline => val = Some(f.kind),
                    e => err = err.or(Some(e)),
                }
            }
        }
        (self.pause)(extra);
        trace(|| format!("t={} {cb:?}#{k}{}", exec::NOW.get(), err.or(val).map(|e| format!(" fault {e:?}")).unwrap_or_default()));
        match err {
            Some(Fk::Recover) => Err(Error::ConvergenceRecover {}),
            Some(Fk::Panic) => std::panic::resume_unwind(Box::new(InjectedPanic)),
            Some(_) => Err(Error::IllegalInput {}),
            None => Ok(val),
        }
    }
}

fn corrupt(v: Vm) -> f64 {
    match v {
        Vm::Inf => f64::INFINITY,
        Vm::NegInf => f64::NEG_INFINITY,
        _ => f64::NAN,
    }
}

impl<const N: usize> NLProblem<f64, Const<N>> for Env<'_, N>
where
    Const<N>: DimName + DimNameAdd<Const<N>>,
    DefaultAllocator: Allocator<usize, Const<N>> + Allocator<f64, Const<N>, Const<N>> + Allocator<f64, Const<N>>,
{
    fn sys<SA, SB>(&mut self, y: &Matrix<f64, Const<N>, U1, SA>, f: &mut Matrix<f64, Const<N>, U1, SB>) -> Result<(), Error>
    where
        SA: Storage<f64, Const<N>, U1>,
        SB: StorageMut<f64, Const<N>, U1>,
    {
        let v = self.enter(Cb::Sys)?;
        let r = self.model.f(&arr(y));
        for i in 0..N {
            f[i] = r[i];
            self.h.f(y[i]);
        }
        if let Some(Fk::Val(m)) = v {
            f[N - 1] = corrupt(m);
        }
        Ok(())
    }
    fn setup<SA, SB>(&mut self, y: &Matrix<f64, Const<N>, U1, SA>, _f: &Matrix<f64, Const<N>, U1, SB>, jbad: bool) -> Result<bool, Error>
    where
        SA: Storage<f64, Const<N>, U1>,
        SB: Storage<f64, Const<N>, U1>,
    {
        let v = self.enter(Cb::Setup)?;
        self.h.u(jbad as u64);
        if v == Some(Fk::Decline) && self.have {
            return Ok(false);
        }
        self.setups += 1;
        let j = self.model.jac(&arr(y), self.setups);
        for i in 0..N {
            for k in 0..N {
                self.jac[(i, k)] = j[i * N + k];
            }
        }
        match v {
            Some(Fk::Val(Vm::Zero)) => {
                // a singular Jacobian: one column vanishes
                let c = self.setups as usize % N;
                for i in 0..N {
                    self.jac[(i, c)] = 0.0;
                }
            }
            Some(Fk::Val(m)) => self.jac[(0, N - 1)] = corrupt(m),
            _ => {}
        }
        self.have = false;
        self.tainted = matches!(v, Some(Fk::Val(m)) if m != Vm::Zero);
        match self.dense.setup(&mut self.jac) {
            Ok(()) => {
                self.have = true;
                Ok(true)
            }
            // a client that treats a singular Jacobian as recoverable every other time
            Err(e) => {
                probe("singular Jacobian met by the dense solver");
                if self.setups % 2 == 0 {
                    Err(Error::ConvergenceRecover {})
                } else {
                    Err(Error::from(e))
                }
            }
        }
    }
    fn solve<SA, SB>(&mut self, _y: &Matrix<f64, Const<N>, U1, SA>, b: &mut Matrix<f64, Const<N>, U1, SB>) -> Result<(), Error>
    where
        SA: Storage<f64, Const<N>, U1>,
        SB: StorageMut<f64, Const<N>, U1>,
    {
        let v = self.enter(Cb::Solve)?;
        if !self.have {
            return Err(Error::ConvergenceRecover {});
        }
        let rhs = OVector::<f64, Const<N>>::from_fn(|i, _| b[i]);
        let mut x = OVector::<f64, Const<N>>::from_element(f64::NAN);
        self.dense.solve(&self.jac, &mut x, &rhs, 0.0)?;
        if let Some(Fk::Val(m)) = v {
            x[N / 2] = corrupt(m);
        }
        for i in 0..N {
            b[i] = x[i];
            self.h.f(x[i]);
        }
        Ok(())
    }
    fn ctest<NLS, SA, SB, SC>(
        &mut self,
        _solver: &NLS,
        y: &Matrix<f64, Const<N>, U1, SA>,
        del: &Matrix<f64, Const<N>, U1, SB>,
        tol: f64,
        ewt: &Matrix<f64, Const<N>, U1, SC>,
    ) -> Result<bool, Error>
    where
        NLS: NLSolver<f64, Const<N>>,
        SA: Storage<f64, Const<N>, U1>,
        SB: Storage<f64, Const<N>, U1>,
        SC: Storage<f64, Const<N>, U1>,
    {
        self.enter(Cb::Ctest)?;
        self.tests += 1;
        self.last_del = arr(del).to_vec();
        // the library's own weighted norm decides
        let d = OVector::<f64, Const<N>>::from_fn(|i, _| del[i]);
        let w = OVector::<f64, Const<N>>::from_fn(|i, _| ewt[i]);
        let nrm: f64 = d.norm_wrms(&w);
        self.h.f(nrm);
        for i in 0..N {
            self.h.f(y[i]);
        }
        Ok(nrm <= tol)
    }
}

struct Stack<'a, const N: usize>
where
    Const<N>: DimNameAdd<Const<N>>,
    DefaultAllocator: Allocator<usize, Const<N>> + Allocator<f64, Const<N>, Const<N>> + Allocator<f64, Const<N>>,
{
    newton: Newton<f64, Const<N>>,
    env: Env<'a, N>,
    maxiters: usize,
}

impl<'a, const N: usize> Stack<'a, N>
where
    Const<N>: DimName + DimNameAdd<Const<N>>,
    DefaultAllocator: Allocator<usize, Const<N>> + Allocator<f64, Const<N>, Const<N>> + Allocator<f64, Const<N>>,
{
    fn new(s: &SSession, pause: &'a dyn Fn(u64)) -> Self {
        Stack {
            newton: Newton::new(s.maxiters),
            maxiters: s.maxiters,
            env: Env {
                model: Model::new(s),
                dense: <Dense<Const<N>> as LSolver<f64, Const<N>>>::new(),
                jac: OMatrix::<f64, Const<N>, Const<N>>::zeros(),
                have: false,
                tainted: false,
                setups: 0,
                faults: vec![],
                n: [0; 4],
                total: 0,
                budget: 0,
                fired: 0,
                tests: 0,
                last_del: vec![],
                h: H::new(),
                pause,
            },
        }
    }
    fn run(&mut self, op: &SOp) -> SRec {
        let e = &mut self.env;
        e.faults = op.faults.clone();
        e.n = [0; 4];
        e.total = 0;
        e.budget = crate::nsim::budget(self.maxiters) + 20;
        e.fired = 0;
        e.tests = 0;
        e.last_del = vec![];
        e.h = H::new();
        let mut r = Rng::new(mix(op.start, 0x57a7));
        let dir: [f64; N] = std::array::from_fn(|_| r.s());
        let dn = (dir.iter().map(|x| x * x).sum::<f64>() / N as f64).sqrt().max(1e-3);
        let m = &e.model;
        let y0 = OVector::<f64, Const<N>>::from_fn(|i, _| m.ystar[i] + op.radius * dir[i] / dn / m.w[i]);
        let w = OVector::<f64, Const<N>>::from_fn(|i, _| m.w[i]);
        let mut y = OVector::<f64, Const<N>>::from_fn(|i, _| crate::nsim::val(op.start, 4, 0, i, op.fill, false));
        let before = self.newton.get_num_iters();
        let nw = &mut self.newton;
        let res = guarded(|| nw.solve(e, &y0, &mut y, &w, op.tol, op.lsetup));
        let (end, msg) = match res {
            Ok(Ok(())) => (SEnd::Ok, String::new()),
            Ok(Err(Error::ConvergenceRecover {})) => (SEnd::Recover, String::new()),
            Ok(Err(_)) => (SEnd::Fatal, String::new()),
            Err(Caught::Injected) => (SEnd::Injected, String::new()),
            Err(Caught::Budget) => (SEnd::Budget, String::new()),
            Err(Caught::Lib(m)) => (SEnd::Lib, m),
        };
        if end == SEnd::Injected {
            // the unwound callback may have left the factors half done: a careful client drops them
            e.have = false;
        }
        trace(|| format!("t={} solve ends {end:?}", exec::NOW.get()));
        SRec {
            end,
            msg,
            y: y.iter().cloned().collect(),
            del: e.last_del.clone(),
            tests: e.tests,
            iters: (self.newton.get_num_iters() - before) as u64,
            fired: e.fired,
            tainted: e.tainted,
            hash: e.h.0,
        }
    }
}

fn judge<const N: usize>(prop: &str, s: &SSession, recs: &[SRec], id: usize, o: &mut RunOut)
where
    Const<N>: DimName + DimNameAdd<Const<N>>,
    DefaultAllocator: Allocator<usize, Const<N>> + Allocator<f64, Const<N>, Const<N>> + Allocator<f64, Const<N>>,
{
    let model = Model::<N>::new(s);
    let rho = model.rho();
    let mut dirty = false;
    for (i, (op, r)) in s.ops.iter().zip(recs).enumerate() {
        o.solves += 1;
        let tag = format!("s{id} op {i}");
        match r.end {
            SEnd::Lib => {
                for p in ["S01", "S02", "S03"] {
                    o.add(p, "panic", format!("{tag}: the library panicked: {}", r.msg));
                }
                return;
            }
            SEnd::Budget => {
                o.add("S03", "unbounded", format!("{tag}: the solve does not end"));
                o.add("S02", "unbounded", format!("{tag}: the solve does not end"));
            }
            SEnd::Ok => {
                let fin = r.y.iter().all(|v| v.is_finite());
                let dfin = r.del.iter().all(|v| v.is_finite());
                if !fin || !dfin {
                    o.add("S02", "non-finite accepted", format!("{tag}: reported success with y = {:?}, last correction {:?}", r.y, r.del));
                } else {
                    let dn = model.wn(&r.del);
                    let err = model.err(&r.y);
                    if !(dn <= op.tol * (1.0 + 1e-12)) {
                        o.add("S01", "correction above tolerance", format!("{tag}: accepted with a correction of weighted norm {dn:e}, tolerance {:e}", op.tol));
                    }
                    let lim = rho / (1.0 - rho) * dn * (1.0 + 1e-9) + model.slack(&r.y);
                    // an infinite Jacobian entry can factor and then yield finite, wrong corrections:
                    // the bound is about corrections from a Jacobian of the model
                    if r.tainted {
                        probe("converged with factors from a non-finite Jacobian (bound not applicable)");
                    } else if !(err <= lim) {
                        o.add("S01", "error above bound", format!("{tag}: accepted with a true error of {err:e}, the last correction ({dn:e}) allows {lim:e}"));
                    } else {
                        probe("converged within the error bound");
                        if r.fired > 0 {
                            probe("converged within the error bound despite faults in the solve");
                        }
                    }
                }
            }
            _ => probe("solve failed"),
        }
        // bounded recovery: a fault-free solve with a fresh Jacobian
        let clean = op.lsetup && op.faults.iter().all(|f| matches!(f.kind, Fk::Stall(_)));
        if clean {
            let mut need = 1;
            let mut b = (1.0 + rho) * op.radius;
            while b > op.tol * 0.99 - model.slack(&model.ystar) && need < 500 {
                b *= rho;
                need += 1;
            }
            let must = s.maxiters.max(1) >= need;
            let q = uncounted(|| {
                let nop = |_| {};
                Stack::<N>::new(s, &nop).run(&SOp { fill: Vm::Zero, ..op.clone() })
            });
            if must && r.end != SEnd::Ok {
                o.add("S03", "no recovery", format!("{tag}: fault-free solve with a fresh Jacobian ends {:?} (at most {need} iterations needed, limit {})", r.end, s.maxiters));
            }
            // (a perturbed Jacobian differs from setup to setup, so only exact ones are compared)
            if s.pert == 0.0 && q.end == SEnd::Ok && (r.end != SEnd::Ok || r.iters > q.iters) {
                o.add(
                    "S03",
                    "slower than a new solver",
                    format!("{tag}: ends {:?} after {} iterations, a new solver {:?} after {}", r.end, r.iters, q.end, q.iters),
                );
            }
            if s.pert == 0.0 && (q.hash != r.hash || q.end != r.end) {
                o.add("S02", "later solve affected", format!("{tag}: fault-free solve ends {:?} y {:?}, on a new solver {:?} y {:?}", r.end, r.y, q.end, q.y));
            }
            if r.end == SEnd::Ok {
                probe(if dirty { "fault-free solve recovers after faults" } else { "fault-free solve succeeds" });
            }
        }
        if r.fired > 0 {
            dirty = true;
        }
    }
    let _ = prop;
}

fn sbody<const N: usize>(s: SSession, id: usize, out: Rc<RefCell<Vec<Vec<SRec>>>>) -> exec::Body
where
    Const<N>: DimName + DimNameAdd<Const<N>>,
    DefaultAllocator: Allocator<usize, Const<N>> + Allocator<f64, Const<N>, Const<N>> + Allocator<f64, Const<N>>,
{
    Box::new(move |yld: YieldFn| {
        let pos = Cell::new(0usize);
        let pause = |extra: u64| {
            let k = pos.get();
            pos.set(k + 1);
            yld(extra + if s.lat.is_empty() { 0 } else { s.lat[k % s.lat.len()] as u64 })
        };
        let mut st = Stack::<N>::new(&s, &pause);
        for op in &s.ops {
            let r = st.run(op);
            out.borrow_mut()[id].push(r);
        }
    })
}

macro_rules! sized {
    ($n:expr, $f:ident, $($a:expr),*) => {
        match $n {
            1 => $f::<1>($($a),*), 2 => $f::<2>($($a),*), 3 => $f::<3>($($a),*), 4 => $f::<4>($($a),*),
            5 => $f::<5>($($a),*), 6 => $f::<6>($($a),*), 7 => $f::<7>($($a),*), 9 => $f::<9>($($a),*), 10 => $f::<10>($($a),*), 17 => $f::<17>($($a),*), 8 => $f::<8>($($a),*), 12 => $f::<12>($($a),*), 20 => $f::<20>($($a),*),
            33 => $f::<33>($($a),*),
            n => panic!("unsupported size {n}"),
        }
    };
}

pub fn run(prop: &str, p: &SPlan) -> RunOut {
    let mut o = RunOut::default();
    let out: Rc<RefCell<Vec<Vec<SRec>>>> = Rc::new(RefCell::new(vec![vec![]; p.sessions.len()]));
    let bodies = p.sessions.iter().enumerate().map(|(i, s)| sized!(s.n, sbody, s.clone(), i, out.clone())).collect();
    let start: Vec<u64> = p.sessions.iter().map(|s| s.start).collect();
    let sc = exec::interleave(bodies, &start);
    o.simtime = sc.simtime;
    o.sched = sc.hash;
    trace(|| format!("resume order: {:?}", sc.order));
    let mut h = H::new();
    h.u(sc.hash);
    for (i, recs) in out.borrow().iter().enumerate() {
        for r in recs {
            h.u(r.hash);
            h.u(r.end as u64);
            h.v(&r.y);
            h.u(r.iters);
            o.callbacks += r.tests as u64;
        }
        sized!(p.sessions[i].n, judge, prop, &p.sessions[i], recs, i, &mut o);
    }
    o.hash = h.0;
    o
}

fn gen_fault(prop: &str, r: &mut Rng, kinds: &[u8], m: usize) -> Fault {
    let mut cb = CBS[r.us(4)];
    let kind = match *r.pick(kinds) {
        0 => Fk::Recover,
        1 => Fk::Illegal,
        2 => Fk::Panic,
        3 => {
            cb = Cb::Setup;
            Fk::Decline
        }
        4 => {
            cb = *r.pick(&[Cb::Sys, Cb::Solve, Cb::Setup, Cb::Sys, Cb::Solve]);
            Fk::Val(*r.pick(&[Vm::Nan, Vm::Inf, Vm::NegInf]))
        }
        5 => {
            cb = Cb::Setup;
            Fk::Val(Vm::Zero)
        }
        _ => Fk::Stall(1 + r.below(1_000_000) as u32),
    };
    let _ = prop;
    let span = if cb == Cb::Setup { 2 } else { m as u64 + 2 };
    let at = match r.below(4) {
        0 => 0,
        1 => 1.min(span - 1),
        2 => r.below(span.min(5)),
        _ => r.below(span),
    } as u32;
    Fault { cb, at, kind, partial: false }
}

pub fn gen(prop: &str, r: &mut Rng, _idx: u64) -> SPlan {
    let ns = if r.chance(0.3) { 2 + r.us(2) } else { 1 };
    let sessions = (0..ns)
        .map(|_| {
            let n = match r.below(12) {
                0..=7 => SIZES[r.us(6)],
                8..=10 => SIZES[6 + r.us(5)],
                _ => *r.pick(&[17usize, 20, 33]),
            };
            let mut kinds: Vec<u8> = (0..7u8)
                .filter(|k| {
                    r.chance(match (prop, k) {
                        ("S02", 4) => 1.0,
                        (_, 4) => 0.3,
                        (_, 0) => 0.8,
                        (_, 3) => 0.5,
                        (_, 5) => 0.4,
                        (_, 2) => 0.3,
                        _ => 0.3,
                    })
                })
                .collect();
            if kinds.is_empty() {
                kinds.push(0)
            }
            let maxiters = *r.pick(&[2usize, 3, 4, 5, 8, 10, 15, 20, 30]);
            let nops = 1 + r.us(6);
            let mut ops: Vec<SOp> = (0..nops)
                .map(|i| {
                    let nf = match r.below(10) {
                        0..=2 => 0,
                        3..=6 => 1,
                        7..=8 => 2,
                        _ => 3 + r.us(3),
                    };
                    SOp {
                        lsetup: i == 0 || r.chance(0.4),
                        start: r.u64() >> 16,
                        radius: 10f64.powf(r.f() * 5.0 - 3.0),
                        tol: 10f64.powf(-1.0 - r.f() * 5.0),
                        fill: *r.pick(&[Vm::Nan, Vm::Normal, Vm::Zero]),
                        faults: (0..nf).map(|_| gen_fault(prop, r, &kinds, maxiters)).collect(),
                    }
                })
                .collect();
            if prop != "S01" || r.chance(0.3) {
                // faults stop: the last solve is fault-free and asks for a fresh Jacobian
                let mut o = ops[r.us(ops.len())].clone();
                o.lsetup = true;
                o.faults.clear();
                if r.chance(0.7) {
                    o.radius = o.tol * 10f64.powf(r.f() * 2.5);
                }
                ops.push(o);
            }
            SSession {
                n,
                seed: r.u64() >> 16,
                lambda: if r.chance(0.2) { 0.0 } else { 0.1 * r.f() },
                pert: if prop == "S02" || r.chance(0.5) { 0.0 } else { 0.1 * r.f() },
                maxiters,
                start: r.below(20),
                lat: (0..1 + r.us(8)).map(|_| r.below(20) as u32).collect(),
                ops,
            }
        })
        .collect();
    SPlan { sessions }
}

pub fn simpler(p: &SPlan) -> Vec<SPlan> {
    let mut v = vec![];
    if p.sessions.len() > 1 {
        for i in 0..p.sessions.len() {
            let mut q = p.clone();
            q.sessions.remove(i);
            v.push(q);
        }
    }
    for i in 0..p.sessions.len() {
        let s = &p.sessions[i];
        let mut edit = |f: &dyn Fn(&mut SSession)| {
            let mut q = p.clone();
            f(&mut q.sessions[i]);
            if q != *p {
                v.push(q);
            }
        };
        for j in 0..s.ops.len() {
            edit(&|s| {
                s.ops.remove(j);
            });
        }
        edit(&|s| s.lat = vec![]);
        edit(&|s| s.start = 0);
        edit(&|s| s.pert = 0.0);
        edit(&|s| s.lambda = 0.0);
        if s.lambda != 0.0 {
            edit(&|s| s.lambda = 0.1);
        }
        for m in SIZES {
            if m < s.n {
                edit(&|s| s.n = m);
            }
        }
        if s.maxiters > 2 {
            edit(&|s| s.maxiters -= 1);
        }
        for j in 0..s.ops.len() {
            edit(&|s| s.ops[j].faults.clear());
            for k in 0..s.ops[j].faults.len() {
                edit(&|s| {
                    s.ops[j].faults.remove(k);
                });
                edit(&|s| s.ops[j].faults[k].at /= 2);
            }
            edit(&|s| s.ops[j].fill = Vm::Zero);
            edit(&|s| s.ops[j].radius = 1.0);
            edit(&|s| s.ops[j].tol = 1e-2);
            edit(&|s| s.ops[j].start = 1);
        }
        edit(&|s| s.seed = 1);
    }
    v
}
