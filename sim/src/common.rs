use crate::rng::mix;
use nalgebra::RealField;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

/// Scalar types the library is exercised with. Every value is recorded as f64 (lossless for f32).
pub trait Sc: RealField + Copy + 'static {
    const EPS: f64;
    const IS32: bool;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
}
impl Sc for f64 {
    const EPS: f64 = f64::EPSILON;
    const IS32: bool = false;
    fn of(x: f64) -> f64 {
        x
    }
    fn f(self) -> f64 {
        self
    }
}
impl Sc for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const IS32: bool = true;
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
}

/// One observed breach: which property it belongs to, a stable class name, and what was seen.
#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: &'static str,
    pub class: String,
    pub detail: String,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
}

thread_local! {
    pub static STATS: RefCell<Stats> = RefCell::new(Stats::default());
    pub static NFAULT: Cell<u64> = const { Cell::new(0) };
    /// When false, nothing is counted (reference executions, shrinking).
    pub static COUNT: Cell<bool> = const { Cell::new(true) };
    /// Set while a trace is wanted (replay).
    pub static TRACE: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
}

pub fn fault(name: &str) {
    if COUNT.get() {
        NFAULT.set(NFAULT.get() + 1);
        STATS.with_borrow_mut(|s| match s.faults.get_mut(name) {
            Some(c) => *c += 1,
            None => {
                s.faults.insert(name.to_string(), 1);
            }
        });
    }
}
pub fn probe(name: &str) {
    probe_n(name, 1)
}
pub fn probe_n(name: &str, n: u64) {
    if COUNT.get() {
        STATS.with_borrow_mut(|s| match s.probes.get_mut(name) {
            Some(c) => *c += n,
            None => {
                s.probes.insert(name.to_string(), n);
            }
        });
    }
}
/// Runs `f` without counting faults or probes and without tracing.
pub fn uncounted<R>(f: impl FnOnce() -> R) -> R {
    let c = COUNT.replace(false);
    let t = TRACE.with_borrow_mut(|t| t.take());
    let r = f();
    TRACE.with_borrow_mut(|x| *x = t);
    COUNT.set(c);
    r
}
pub fn trace(f: impl FnOnce() -> String) {
    if TRACE.with_borrow(|t| t.is_some()) {
        let s = f();
        TRACE.with_borrow_mut(|t| {
            if let Some(v) = t {
                if v.len() < 4000 {
                    v.push(s)
                }
            }
        });
    }
}

/// Result of executing one plan.
#[derive(Default, Clone)]
pub struct RunOut {
    pub viols: Vec<Viol>,
    /// hash of everything observed
    pub hash: u64,
    /// hash of the order in which sessions were resumed
    pub sched: u64,
    pub simtime: u64,
    pub solves: u64,
    pub callbacks: u64,
}

impl RunOut {
    pub fn add(&mut self, prop: &'static str, class: &str, detail: String) {
        if self.viols.len() < 200 {
            self.viols.push(Viol {
                prop,
                class: class.to_string(),
                detail,
            });
        }
    }
}

#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    pub fn new() -> H {
        H(0x1357)
    }
    pub fn u(&mut self, x: u64) {
        self.0 = mix(self.0, x);
    }
    pub fn f(&mut self, x: f64) {
        self.u(canon(x));
    }
    pub fn v(&mut self, v: &[f64]) {
        self.u(v.len() as u64);
        for x in v {
            self.f(*x)
        }
    }
}

/// Bits with all NaNs identified.
pub fn canon(x: f64) -> u64 {
    if x.is_nan() {
        0x7ff8_0000_0000_0000
    } else {
        x.to_bits()
    }
}
pub fn biteq(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| canon(*x) == canon(*y))
}
/// Numerically equal (0 == -0, NaN == NaN).
pub fn numeq(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (x.is_nan() && y.is_nan()))
}

/// Payloads of panics raised on purpose.
pub struct InjectedPanic;
pub struct BudgetPanic;

thread_local! { pub static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = m);
    }));
}

pub enum Caught {
    Injected,
    Budget,
    Lib(String),
}
/// Runs `f`, sorting a panic into injected ones and ones of the code under test.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<InjectedPanic>() {
                Err(Caught::Injected)
            } else if p.is::<BudgetPanic>() {
                Err(Caught::Budget)
            } else {
                Err(Caught::Lib(PANIC_MSG.with_borrow(|m| m.clone())))
            }
        }
    }
}
