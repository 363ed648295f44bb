//! Newton-level simulation: the real `nonlinear::Newton` driven against scripted, fault-injecting
//! callbacks. The script is explicit (so that it can be minimised and replayed) and the responses
//! depend on nothing but the script.

use crate::common::*;
use crate::exec::YieldFn;
use crate::rng::mix;
use nalgebra::allocator::Allocator;
use nalgebra::{
    Const, DefaultAllocator, Dim, DimName, DimNameAdd, Dyn, Matrix, MatrixView, MatrixViewMut,
    OVector, Storage, StorageMut, U1,
};
use nonlinear::{Error, NLProblem, NLSolver, Newton};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cb {
    Sys,
    Setup,
    Solve,
    Ctest,
}
pub const CBS: [Cb; 4] = [Cb::Sys, Cb::Setup, Cb::Solve, Cb::Ctest];

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Vm {
    Normal,
    Zero,
    NegZero,
    Tiny,
    Huge,
    Nan,
    NanOne,
    Inf,
    NegInf,
    Int,
    Same,
}

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fk {
    Recover,
    Illegal,
    LinFail(usize),
    Continue,
    Panic,
    Decline,
    Val(Vm),
    Stall(u32),
    Nest,
}
impl Fk {
    pub fn name(&self) -> String {
        match self {
            Fk::LinFail(_) => "LinFail".into(),
            Fk::Stall(_) => "Stall".into(),
            Fk::Val(v) => format!("Value{v:?}"),
            f => format!("{f:?}"),
        }
    }
    pub fn is_err(&self) -> bool {
        matches!(
            self,
            Fk::Recover | Fk::Illegal | Fk::LinFail(_) | Fk::Continue | Fk::Panic
        )
    }
}

/// Fires at the `at`-th call (from 0) of callback `cb` within one solve.
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fault {
    pub cb: Cb,
    pub at: u32,
    pub kind: Fk,
    /// for errors: the callback has already written part of its output
    #[serde(default)]
    pub partial: bool,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct SolveOp {
    pub lsetup: bool,
    pub vseed: u64,
    pub tol: f64,
    /// what the output vector holds before the call
    pub fill: Vm,
    /// kind of initial guess
    pub y0: Vm,
    /// the convergence test accepts at this call (from 0); never if u32::MAX
    pub accept: u32,
    /// storage of y0, y, w: 0 owned, 1 offset view, 2 strided view
    #[serde(default)]
    pub layout: u8,
    pub faults: Vec<Fault>,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum NOp {
    Solve(SolveOp),
    /// clone the solver, run the same solves on both (0 clone first, 1 original first, 2 alternating)
    Fork { ops: Vec<SolveOp>, order: u8 },
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct NSession {
    pub f32: bool,
    pub n: usize,
    pub maxiters: usize,
    pub start: u64,
    /// simulated latencies, used cyclically
    pub lat: Vec<u32>,
    pub ops: Vec<NOp>,
    /// a second solver whose operations run inside this one's callbacks at `Nest` faults
    #[serde(default)]
    pub nested: Option<Box<NSession>>,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct NPlan {
    pub sessions: Vec<NSession>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Resp {
    Ok,
    Bool(bool),
    Recover,
    Illegal,
    Lin(usize),
    Cont,
    Panic,
}
impl Resp {
    pub fn fatal(&self) -> bool {
        matches!(self, Resp::Illegal | Resp::Lin(_))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Ok,
    Recover,
    Illegal,
    Lin(usize),
    Cont,
    Injected,
    Budget,
    LibPanic,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub cb: Cb,
    /// iterate passed in
    pub y: Vec<f64>,
    /// second vector passed in: setup's residual, solve's right-hand side, ctest's correction
    pub v: Vec<f64>,
    /// ctest's weights
    pub w: Vec<f64>,
    /// what the callback wrote: sys's residual, solve's correction
    pub out: Vec<f64>,
    pub tol: f64,
    pub jbad: bool,
    pub curiter: u64,
    pub resp: Resp,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub op: SolveOp,
    pub y0: Vec<f64>,
    pub w: Vec<f64>,
    pub evs: Vec<Ev>,
    pub end: End,
    pub msg: String,
    pub yout: Vec<f64>,
    pub before: (u64, u64),
    pub after: (u64, u64),
    pub budget: u32,
}

#[derive(Clone, Debug)]
pub enum Item {
    One(Rec),
    Fork { clone: Vec<Rec>, orig: Vec<Rec>, c0: (u64, u64), o0: (u64, u64) },
}

fn key(x: f64) -> u64 {
    canon(x)
}

impl Rec {
    /// Everything a caller can see of one solve, counters relative to its start.
    pub fn hash_into(&self, h: &mut H, absolute: bool) {
        h.v(&self.y0);
        for e in &self.evs {
            h.u(e.cb as u64);
            h.v(&e.y);
            h.v(&e.v);
            h.v(&e.w);
            h.v(&e.out);
            h.f(e.tol);
            h.u(e.jbad as u64);
            h.u(e.curiter);
            h.u(match e.resp {
                Resp::Ok => 1,
                Resp::Bool(b) => 2 + b as u64,
                Resp::Recover => 4,
                Resp::Illegal => 5,
                Resp::Lin(c) => 100 + c as u64,
                Resp::Cont => 6,
                Resp::Panic => 7,
            });
        }
        h.u(match self.end {
            End::Ok => 1,
            End::Recover => 2,
            End::Illegal => 3,
            End::Cont => 4,
            End::Injected => 5,
            End::Budget => 6,
            End::LibPanic => 7,
            End::Lin(c) => 100 + c as u64,
        });
        if self.end == End::Ok {
            h.v(&self.yout);
        }
        if absolute {
            for x in [self.before.0, self.before.1, self.after.0, self.after.1] {
                h.u(x);
            }
        } else if self.end != End::Injected {
            h.u(self.after.0.wrapping_sub(self.before.0));
            h.u(self.after.1.wrapping_sub(self.before.1));
        }
    }
    /// First difference between what two executions of the same solve did; None if identical.
    pub fn diff(&self, o: &Rec, absolute: bool) -> Option<String> {
        for (i, (a, b)) in self.evs.iter().zip(&o.evs).enumerate() {
            if a.cb != b.cb {
                return Some(format!("callback {i}: {:?} instead of {:?}", a.cb, b.cb));
            }
            for (what, x, y) in [("iterate", &a.y, &b.y), ("vector", &a.v, &b.v), ("weights", &a.w, &b.w)] {
                if !biteq(x, y) {
                    return Some(format!("callback {i} {:?}: {what} {x:?} instead of {y:?}", a.cb));
                }
            }
            if key(a.tol) != key(b.tol) || a.jbad != b.jbad || a.curiter != b.curiter {
                return Some(format!(
                    "callback {i} {:?}: tol/jbad/iteration {:?} instead of {:?}",
                    a.cb,
                    (a.tol, a.jbad, a.curiter),
                    (b.tol, b.jbad, b.curiter)
                ));
            }
        }
        if self.evs.len() != o.evs.len() {
            return Some(format!("{} callbacks instead of {}", self.evs.len(), o.evs.len()));
        }
        if self.end != o.end {
            return Some(format!("ends {:?} instead of {:?}", self.end, o.end));
        }
        if self.end == End::Ok && !biteq(&self.yout, &o.yout) {
            return Some(format!("returns {:?} instead of {:?}", self.yout, o.yout));
        }
        if absolute && (self.before, self.after) != (o.before, o.after) {
            return Some(format!(
                "statistics {:?}->{:?} instead of {:?}->{:?}",
                self.before, self.after, o.before, o.after
            ));
        }
        if !absolute && self.end != End::Injected {
            let d = |r: &Rec| (r.after.0.wrapping_sub(r.before.0), r.after.1.wrapping_sub(r.before.1));
            if d(self) != d(o) {
                return Some(format!("statistics grow by {:?} instead of {:?}", d(self), d(o)));
            }
        }
        None
    }
}

/// Deterministic test values: element `i` of the vector produced by call `call` of stream `tag`.
pub fn val(seed: u64, tag: u64, call: u64, i: usize, m: Vm, f32: bool) -> f64 {
    let h = mix(mix(seed, tag), mix(call, i as u64));
    let u = (h >> 11) as f64 / (1u64 << 53) as f64;
    let sgn = if h & 1 == 0 { 1.0 } else { -1.0 };
    let e = ((h >> 1) & 7) as i32 - 4;
    let normal = sgn * (0.5 + u) * 2f64.powi(e);
    let x = match m {
        Vm::Normal | Vm::Same => normal,
        Vm::Zero => 0.0,
        Vm::NegZero => -0.0,
        Vm::Tiny => normal * if f32 { 1e-30 } else { 1e-290 },
        Vm::Huge => normal * if f32 { 1e30 } else { 1e290 },
        Vm::Nan => f64::NAN,
        Vm::NanOne => {
            if i == 0 {
                f64::NAN
            } else {
                normal
            }
        }
        Vm::Inf => f64::INFINITY,
        Vm::NegInf => f64::NEG_INFINITY,
        Vm::Int => (normal * 4.0).trunc(),
    };
    if f32 {
        x as f32 as f64
    } else {
        x
    }
}

fn vec_of<T: Sc, R: Dim, S: Storage<T, R, U1>>(v: &Matrix<T, R, U1, S>) -> Vec<f64> {
    v.iter().map(|x| x.f()).collect()
}

/// One solver with erased scalar type and size.
pub trait Sess {
    fn run(&mut self, op: &SolveOp, cx: &Cx) -> Rec;
    fn fork(&self) -> Box<dyn Sess>;
    fn counts(&self) -> (u64, u64);
}

/// What the scripted environment needs from the simulator while a solve runs.
pub struct Cx<'a> {
    pub yld: YieldFn<'a>,
    pub lat: &'a [u32],
    pub pos: &'a std::cell::Cell<usize>,
    pub nested: Option<&'a RefCell<NestedRun>>,
    pub name: &'a str,
}
impl Cx<'_> {
    fn pause(&self, extra: u64) {
        let p = self.pos.get();
        self.pos.set(p + 1);
        let l = if self.lat.is_empty() { 0 } else { self.lat[p % self.lat.len()] as u64 };
        (self.yld)(l + extra)
    }
}

pub struct NestedRun {
    pub plan: NSession,
    pub sess: Box<dyn Sess>,
    pub next: usize,
    pub items: Vec<Item>,
}
impl NestedRun {
    pub fn new(p: &NSession) -> NestedRun {
        NestedRun { plan: p.clone(), sess: make(p.f32, p.n, p.maxiters), next: 0, items: vec![] }
    }
    fn step(&mut self, yld: YieldFn, pos: &std::cell::Cell<usize>) -> bool {
        if self.next >= self.plan.ops.len() {
            return false;
        }
        let op = self.plan.ops[self.next].clone();
        self.next += 1;
        let lat = self.plan.lat.clone();
        let cx = Cx { yld, lat: &lat, pos, nested: None, name: "nested" };
        let it = run_op(&mut self.sess, &op, &cx);
        self.items.push(it);
        true
    }
}

struct Env<'a, 'b> {
    op: &'a SolveOp,
    cx: &'a Cx<'b>,
    f32: bool,
    n: [u32; 4],
    total: u32,
    budget: u32,
    evs: Vec<Ev>,
    last: Vec<f64>,
}

impl Env<'_, '_> {
    /// Common part of every callback: counts the call, injects non-value faults, yields.
    /// Returns the fault error (if any), the value mode and whether partial output is wanted.
    fn enter(&mut self, cb: Cb) -> (Option<Fk>, Vm, bool) {
        if self.total >= self.budget {
            std::panic::resume_unwind(Box::new(BudgetPanic));
        }
        self.total += 1;
        let k = self.n[cb as usize];
        self.n[cb as usize] += 1;
        let (mut err, mut vm, mut partial, mut extra, mut nest) = (None, Vm::Normal, false, 0u64, 0);
        for f in &self.op.faults {
            if f.cb == cb && f.at == k {
                fault(&format!("{:?}:{}", cb, f.kind.name()));
                match f.kind {
                    Fk::Stall(t) => extra += t as u64,
                    Fk::Nest => nest += 1,
                    Fk::Val(m) => vm = m,
                    e => {
                        if err.is_none() {
                            err = Some(e);
                            partial = f.partial;
                        }
                    }
                }
            }
        }
        self.cx.pause(extra);
        for _ in 0..nest {
            if let Some(nr) = self.cx.nested {
                // a nested session never nests itself, so the borrow cannot conflict
                if nr.borrow_mut().step(self.cx.yld, self.cx.pos) {
                    probe("nested solve inside a callback");
                }
            }
        }
        (err, vm, partial)
    }
    fn fill<T: Sc, R: Dim, S: StorageMut<T, R, U1>>(
        &mut self,
        tag: u64,
        call: u32,
        m: Vm,
        upto: usize,
        f: &mut Matrix<T, R, U1, S>,
    ) {
        for i in 0..upto {
            let x = if m == Vm::Same && i < self.last.len() {
                self.last[i]
            } else {
                val(self.op.vseed, tag, call as u64, i, m, self.f32)
            };
            f[i] = T::of(x);
        }
        if upto > 0 && upto == f.nrows() {
            self.last = vec_of(f);
        }
    }
    fn finish(&mut self, mut ev: Ev, err: Option<Fk>, ok: Resp) -> Result<Resp, Error> {
        let resp = match err {
            None => ok,
            Some(Fk::Recover) => Resp::Recover,
            Some(Fk::Illegal) => Resp::Illegal,
            Some(Fk::LinFail(c)) => Resp::Lin(c),
            Some(Fk::Continue) => Resp::Cont,
            Some(Fk::Panic) => Resp::Panic,
            Some(_) => ok,
        };
        ev.resp = resp;
        let name = self.cx.name;
        trace(|| {
            format!(
                "t={} {name} {:?}#{} -> {:?}{}{}",
                crate::exec::NOW.get(),
                ev.cb,
                self.n[ev.cb as usize] - 1,
                ev.resp,
                if ev.cb == Cb::Setup { format!(" (jbad={})", ev.jbad) } else { String::new() },
                if ev.y.len() <= 3 { format!(" y={:?}", ev.y) } else { String::new() }
            )
        });
        self.evs.push(ev);
        match resp {
            Resp::Recover => Err(Error::ConvergenceRecover {}),
            Resp::Illegal => Err(Error::IllegalInput {}),
            Resp::Lin(c) => Err(Error::LinearSetupFailed { source: linear::Error::LUFactFail { col: c } }),
            Resp::Cont => Err(Error::Continue {}),
            Resp::Panic => std::panic::resume_unwind(Box::new(InjectedPanic)),
            r => Ok(r),
        }
    }
}

fn ev0(cb: Cb) -> Ev {
    Ev { cb, y: vec![], v: vec![], w: vec![], out: vec![], tol: 0.0, jbad: false, curiter: 0, resp: Resp::Ok }
}

impl<T: Sc, D: Dim> NLProblem<T, D> for Env<'_, '_> {
    fn sys<SA, SB>(&mut self, y: &Matrix<T, D, U1, SA>, f: &mut Matrix<T, D, U1, SB>) -> Result<(), Error>
    where
        SA: Storage<T, D, U1>,
        SB: StorageMut<T, D, U1>,
    {
        let k = self.n[0];
        let (err, vm, partial) = self.enter(Cb::Sys);
        let n = f.nrows();
        self.fill(0, k, vm, if err.is_none() { n } else if partial { n / 2 + 1 } else { 0 }, f);
        let ev = Ev { y: vec_of(y), out: vec_of(f), ..ev0(Cb::Sys) };
        self.finish(ev, err, Resp::Ok).map(|_| ())
    }

    fn setup<SA, SB>(&mut self, y: &Matrix<T, D, U1, SA>, f: &Matrix<T, D, U1, SB>, jbad: bool) -> Result<bool, Error>
    where
        SA: Storage<T, D, U1>,
        SB: Storage<T, D, U1>,
    {
        let (err, _, _) = self.enter(Cb::Setup);
        let ev = Ev { y: vec_of(y), v: vec_of(f), jbad, ..ev0(Cb::Setup) };
        let b = err != Some(Fk::Decline);
        self.finish(ev, err, Resp::Bool(b)).map(|_| b)
    }

    fn solve<SA, SB>(&mut self, y: &Matrix<T, D, U1, SA>, b: &mut Matrix<T, D, U1, SB>) -> Result<(), Error>
    where
        SA: Storage<T, D, U1>,
        SB: StorageMut<T, D, U1>,
    {
        let k = self.n[2];
        let (err, vm, partial) = self.enter(Cb::Solve);
        let v = vec_of(b);
        let n = b.nrows();
        self.fill(1, k, vm, if err.is_none() { n } else if partial { n / 2 + 1 } else { 0 }, b);
        let ev = Ev { y: vec_of(y), v, out: vec_of(b), ..ev0(Cb::Solve) };
        self.finish(ev, err, Resp::Ok).map(|_| ())
    }

    fn ctest<NLS, SA, SB, SC>(
        &mut self,
        solver: &NLS,
        y: &Matrix<T, D, U1, SA>,
        del: &Matrix<T, D, U1, SB>,
        tol: T,
        ewt: &Matrix<T, D, U1, SC>,
    ) -> Result<bool, Error>
    where
        NLS: NLSolver<T, D>,
        SA: Storage<T, D, U1>,
        SB: Storage<T, D, U1>,
        SC: Storage<T, D, U1>,
    {
        let k = self.n[3];
        let (err, _, _) = self.enter(Cb::Ctest);
        let ev = Ev {
            y: vec_of(y),
            v: vec_of(del),
            w: vec_of(ewt),
            tol: tol.f(),
            curiter: solver.get_cur_iter() as u64,
            ..ev0(Cb::Ctest)
        };
        let c = k == self.op.accept;
        self.finish(ev, err, Resp::Bool(c)).map(|_| c)
    }
}

pub struct SessT<T: Sc, const N: usize>
where
    Const<N>: DimNameAdd<Const<N>>,
    DefaultAllocator: Allocator<T, Const<N>>,
{
    s: Newton<T, Const<N>>,
    maxiters: usize,
}

fn end_of(r: Result<Result<(), Error>, Caught>) -> (End, String) {
    match r {
        Ok(Ok(())) => (End::Ok, String::new()),
        Ok(Err(Error::ConvergenceRecover {})) => (End::Recover, String::new()),
        Ok(Err(Error::IllegalInput {})) => (End::Illegal, String::new()),
        Ok(Err(Error::Continue {})) => (End::Cont, String::new()),
        Ok(Err(Error::LinearSetupFailed { source: linear::Error::LUFactFail { col } })) => (End::Lin(col), String::new()),
        Err(Caught::Injected) => (End::Injected, String::new()),
        Err(Caught::Budget) => (End::Budget, String::new()),
        Err(Caught::Lib(m)) => (End::LibPanic, m),
    }
}

/// One more callback than any permitted history can contain.
pub fn budget(maxiters: usize) -> u32 {
    let m = maxiters.max(1).min(100_000) as u32;
    2 * (3 * m + 3) + 2
}

impl<T: Sc, const N: usize> Sess for SessT<T, N>
where
    Const<N>: DimNameAdd<Const<N>> + DimName,
    DefaultAllocator: Allocator<T, Const<N>>,
{
    fn run(&mut self, op: &SolveOp, cx: &Cx) -> Rec {
        let mk = |tag: u64, m: Vm| -> OVector<T, Const<N>> {
            OVector::<T, Const<N>>::from_fn(|i, _| T::of(val(op.vseed, tag, 0, i, m, T::IS32)))
        };
        let y0 = mk(2, op.y0);
        let w = mk(3, Vm::Normal).map(|x| x.abs());
        let mut y = mk(4, op.fill);
        let tol = T::of(if T::IS32 { op.tol as f32 as f64 } else { op.tol });
        let before = self.counts();
        let bud = budget(self.maxiters);
        let mut env = Env {
            op,
            cx,
            f32: T::IS32,
            n: [0; 4],
            total: 0,
            budget: bud,
            evs: vec![],
            last: vec![],
        };
        let s = &mut self.s;
        let r = if op.layout == 0 {
            guarded(|| s.solve(&mut env, &y0, &mut y, &w, tol, op.lsetup))
        } else {
            let st = op.layout as usize;
            let size = N * st + 4;
            let lay = |v: &OVector<T, Const<N>>| {
                let mut b = vec![T::of(7.0); size];
                for i in 0..N {
                    b[2 + i * st] = v[i];
                }
                b
            };
            let (by0, mut by, bw) = (lay(&y0), lay(&y), lay(&w));
            let r = {
                let d = (Const::<N>, Const::<1>, Dyn(st), Dyn(size));
                let vy0 = MatrixView::from_slice_with_strides_generic(&by0[2..], d.0, d.1, d.2, d.3);
                let vw = MatrixView::from_slice_with_strides_generic(&bw[2..], d.0, d.1, d.2, d.3);
                let mut vy = MatrixViewMut::from_slice_with_strides_generic(&mut by[2..], d.0, d.1, d.2, d.3);
                guarded(|| s.solve(&mut env, &vy0, &mut vy, &vw, tol, op.lsetup))
            };
            for i in 0..N {
                y[i] = by[2 + i * st];
            }
            r
        };
        let evs = std::mem::take(&mut env.evs);
        let (end, msg) = end_of(r);
        let name = cx.name;
        trace(|| format!("t={} {name} solve ends: {end:?} {msg}", crate::exec::NOW.get()));
        Rec {
            op: op.clone(),
            y0: vec_of(&y0),
            w: vec_of(&w),
            evs,
            end,
            msg,
            yout: vec_of(&y),
            before,
            after: self.counts(),
            budget: bud,
        }
    }
    fn fork(&self) -> Box<dyn Sess> {
        Box::new(SessT::<T, N> { s: self.s.clone(), maxiters: self.maxiters })
    }
    fn counts(&self) -> (u64, u64) {
        (self.s.get_num_iters() as u64, self.s.get_num_conv_fails() as u64)
    }
}

fn mk<T: Sc, const N: usize>(maxiters: usize) -> Box<dyn Sess>
where
    Const<N>: DimNameAdd<Const<N>> + DimName,
    DefaultAllocator: Allocator<T, Const<N>>,
{
    Box::new(SessT::<T, N> { s: Newton::new(maxiters), maxiters })
}

pub const SIZES: [usize; 10] = [1, 2, 3, 4, 5, 8, 12, 17, 32, 40];

pub fn make(f32: bool, n: usize, maxiters: usize) -> Box<dyn Sess> {
    macro_rules! d {
        ($($k:literal)*) => { match (f32, n) {
            $((false, $k) => mk::<f64, $k>(maxiters),
              (true, $k) => mk::<f32, $k>(maxiters),)*
            _ => panic!("unsupported size {n}"),
        } };
    }
    d!(1 2 3 4 5 8 12 17 32 40)
}

fn run_op(s: &mut Box<dyn Sess>, op: &NOp, cx: &Cx) -> Item {
    match op {
        NOp::Solve(o) => Item::One(s.run(o, cx)),
        NOp::Fork { ops, order } => {
            let mut c = s.fork();
            let (c0, o0) = (c.counts(), s.counts());
            fault("clone");
            let (mut cl, mut or) = (vec![], vec![]);
            match order {
                0 => {
                    cl.extend(ops.iter().map(|o| c.run(o, cx)));
                    drop(c);
                    or.extend(ops.iter().map(|o| s.run(o, cx)));
                }
                1 => {
                    or.extend(ops.iter().map(|o| s.run(o, cx)));
                    cl.extend(ops.iter().map(|o| c.run(o, cx)));
                }
                _ => {
                    for o in ops {
                        cl.push(c.run(o, cx));
                        or.push(s.run(o, cx));
                    }
                }
            }
            Item::Fork { clone: cl, orig: or, c0, o0 }
        }
    }
}

/// Body of one session; its observations end up in `out`.
pub fn body(p: NSession, id: usize, out: Rc<RefCell<Vec<(Vec<Item>, Vec<Item>)>>>) -> crate::exec::Body {
    Box::new(move |yld| {
        let mut s = make(p.f32, p.n, p.maxiters);
        let pos = std::cell::Cell::new(0);
        let nested = p.nested.as_ref().map(|n| RefCell::new(NestedRun::new(n)));
        let name = format!("s{id}");
        let cx = Cx { yld, lat: &p.lat, pos: &pos, nested: nested.as_ref(), name: &name };
        for op in &p.ops {
            let it = run_op(&mut s, op, &cx);
            out.borrow_mut()[id].0.push(it);
            cx.pause(0);
        }
        if let Some(n) = nested {
            let mut n = n.into_inner();
            while n.step(yld, &pos) {}
            out.borrow_mut()[id].1 = n.items;
        }
    })
}
