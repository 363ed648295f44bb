//! Generation, execution and minimisation candidates of Newton-level plans.

use crate::common::*;
use crate::exec;
use crate::noracle::{self, Out, St};
use crate::nsim::*;
use crate::rng::Rng;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub fn gen_fault(r: &mut Rng, kinds: &[u8], maxiters: usize, nestable: bool) -> Fault {
    let m = maxiters.max(1) as u64;
    let mut cb = CBS[r.us(4)];
    let kind = match kinds[r.us(kinds.len())] {
        0 => Fk::Recover,
        1 => {
            if r.chance(0.5) {
                Fk::Illegal
            } else {
                Fk::LinFail(1 + r.us(70))
            }
        }
        2 => Fk::Panic,
        3 => {
            cb = Cb::Setup;
            Fk::Decline
        }
        4 => {
            cb = if r.chance(0.5) { Cb::Sys } else { Cb::Solve };
            Fk::Val(*r.pick(&[Vm::Zero, Vm::NegZero, Vm::Tiny, Vm::Huge, Vm::Nan, Vm::NanOne, Vm::Inf, Vm::NegInf, Vm::Int, Vm::Same]))
        }
        5 => Fk::Stall(1 + r.below(5_000_000) as u32),
        6 => Fk::Continue,
        _ => {
            if nestable {
                Fk::Nest
            } else {
                Fk::Recover
            }
        }
    };
    let span = match cb {
        Cb::Setup => 2,
        _ => 2 * m + 2,
    };
    let at = match r.below(6) {
        0 | 1 => 0,
        2 => 1.min(span - 1),
        3 => r.below(span.min(4)),
        4 => (m - 1 + r.below(3)).min(span - 1),
        _ => r.below(span),
    } as u32;
    Fault { cb, at, kind, partial: r.chance(0.3) }
}

pub fn gen_op(r: &mut Rng, kinds: &[u8], maxiters: usize, nestable: bool) -> SolveOp {
    let m = maxiters.max(1) as u64;
    let nf = match r.below(20) {
        0..=6 => 0,
        7..=13 => 1,
        14..=17 => 2,
        18 => 3,
        _ => 4 + r.us(4),
    };
    let mut faults: Vec<Fault> = (0..nf).map(|_| gen_fault(r, kinds, maxiters, nestable)).collect();
    if kinds.contains(&3) && r.chance(0.1) {
        // a setup that never refreshes
        for at in 0..2 {
            faults.push(Fault { cb: Cb::Setup, at, kind: Fk::Decline, partial: false });
        }
    }
    if kinds.contains(&0) && r.chance(0.08) {
        // a callback that keeps failing recoverably
        let cb = CBS[r.us(4)];
        for at in 0..4 {
            faults.push(Fault { cb, at, kind: Fk::Recover, partial: r.chance(0.3) });
        }
    }
    if nestable {
        for _ in 0..r.us(3) {
            let mut f = gen_fault(r, &[9], maxiters, true);
            f.partial = false;
            faults.push(f);
        }
    }
    let accept = match r.below(10) {
        0..=1 => u32::MAX,
        2..=4 => r.below(m.min(3)) as u32,
        5..=6 => r.below(m) as u32,
        7 => (m - 1) as u32,
        _ => (m + r.below(m.min(1000))) as u32,
    };
    SolveOp {
        lsetup: r.chance(0.5),
        vseed: r.u64() >> 16,
        tol: match r.below(12) {
            0 => 0.0,
            1 => -1.0,
            2 => f64::NAN,
            3 => 1e300,
            _ => 10f64.powi(-(r.us(14) as i32)) * (0.5 + r.f()),
        },
        fill: *r.pick(&[Vm::Normal, Vm::Nan, Vm::Zero, Vm::Inf, Vm::Huge]),
        y0: *r.pick(&[Vm::Normal, Vm::Normal, Vm::Normal, Vm::Normal, Vm::Zero, Vm::Tiny, Vm::Huge, Vm::NanOne, Vm::Int]),
        accept,
        layout: if r.chance(0.2) { 1 + r.us(2) as u8 } else { 0 },
        faults,
    }
}

fn gen_lat(r: &mut Rng) -> Vec<u32> {
    let n = 1 + r.us(12);
    let hi = *r.pick(&[1u64, 3, 10, 1000]);
    (0..n).map(|_| r.below(hi + 1) as u32).collect()
}

fn gen_session(prop: &str, r: &mut Rng, nested: bool, allow_nest: bool) -> NSession {
    // swarm: each session enables its own subset of fault kinds
    let mut kinds: Vec<u8> = vec![];
    for k in 0..7u8 {
        let p = match (prop, k) {
            (_, 0) => 0.75,
            ("N04", 1) => 0.95,
            (_, 1) => 0.4,
            ("N07", 2) => 0.6,
            (_, 2) => 0.25,
            ("N01", 3) | ("N03", 3) => 0.7,
            (_, 3) => 0.45,
            ("N06", 4) | ("N02", 4) | ("N07", 4) => 0.7,
            (_, 4) => 0.4,
            (_, 5) => 0.3,
            ("N01", 6) => 0.2,
            _ => 0.02,
        };
        if r.chance(p) {
            kinds.push(k)
        }
    }
    if kinds.is_empty() {
        kinds.push(0)
    }
    let n = match r.below(20) {
        0..=3 => 1,
        4..=7 => 2,
        8..=11 => 3,
        12..=13 => 4,
        14..=15 => 5,
        16 => 8,
        17 => 12,
        18 => 17,
        _ => *r.pick(&[32usize, 40]),
    };
    let maxiters = match r.below(24) {
        0 => 0,
        1..=3 => 1,
        4..=7 => 2,
        8..=11 => 3,
        12..=15 => 4,
        16..=18 => 5,
        19 => 7,
        20 => 10,
        21 => 1 + r.us(24),
        22 => {
            if n <= 5 {
                *r.pick(&[33usize, 64, 100, 128, 200])
            } else {
                6
            }
        }
        _ => 3,
    };
    let has_nest = allow_nest && r.chance(0.5);
    let nops = match prop {
        "N07" | "N05" | "N08" => 1 + r.us(8),
        _ => 1 + r.us(5),
    };
    let mut ops = vec![];
    for _ in 0..nops {
        if (prop == "N08" && r.chance(0.3)) || r.chance(0.03) {
            let k = 1 + r.us(3);
            ops.push(NOp::Fork {
                ops: (0..k).map(|_| gen_op(r, &kinds, maxiters, has_nest)).collect(),
                order: r.us(3) as u8,
            });
        } else {
            ops.push(NOp::Solve(gen_op(r, &kinds, maxiters, has_nest)));
        }
    }
    NSession {
        f32: r.chance(0.3),
        n,
        maxiters,
        start: r.below(50),
        lat: gen_lat(r),
        ops,
        nested: if has_nest && !nested { Some(Box::new(gen_session(prop, r, true, false))) } else { None },
    }
}

pub fn gen(prop: &str, r: &mut Rng, idx: u64) -> NPlan {
    if (prop == "N05" && idx % 4000 == 11) || (prop == "N01" && idx % 20000 == 13) {
        return gen_long(r);
    }
    let (ns, nest) = match prop {
        "N08" => (1 + r.us(4), true),
        _ => (if r.chance(0.3) { 2 } else { 1 }, r.chance(0.1)),
    };
    let mut p = NPlan { sessions: (0..ns).map(|_| gen_session(prop, r, false, nest)).collect() };
    if prop == "N05" && idx % 400 == 7 {
        // very many solves on one solver, so that the counts go through many values
        let s = &mut p.sessions[0];
        s.maxiters = s.maxiters.min(5);
        s.n = 1 + r.us(2);
        for _ in 0..200 {
            s.ops.push(NOp::Solve(gen_op(r, &[0, 1, 3], s.maxiters, false)));
        }
    }
    p
}

/// One solver whose statistics run past 16 bits.
fn gen_long(r: &mut Rng) -> NPlan {
    let big = r.chance(0.5);
    let maxiters = if big { 66_000 + r.us(5000) } else { 1 };
    let mut ops = vec![];
    if big {
        for _ in 0..2 {
            let mut o = gen_op(r, &[0, 3], maxiters, false);
            o.accept = u32::MAX;
            o.layout = 0;
            o.faults.clear();
            ops.push(NOp::Solve(o));
        }
    } else {
        for i in 0..35_000 {
            let mut o = gen_op(r, &[0, 1, 3], 1, false);
            o.accept = if i % 16 == 0 { 0 } else { u32::MAX };
            o.faults.clear();
            if i % 4 == 0 {
                o.lsetup = true;
                o.faults.push(Fault { cb: Cb::Setup, at: 0, kind: Fk::Decline, partial: false })
            }
            ops.push(NOp::Solve(o));
        }
    }
    NPlan { sessions: vec![NSession { f32: r.chance(0.5), n: 1, maxiters, start: 0, lat: vec![1], ops, nested: None }] }
}

type Obs = (Vec<Item>, Vec<Item>);

pub fn execute(p: &NPlan) -> (Vec<Obs>, exec::Sched) {
    let out: Rc<RefCell<Vec<Obs>>> = Rc::new(RefCell::new(vec![(vec![], vec![]); p.sessions.len()]));
    let bodies = p.sessions.iter().enumerate().map(|(i, s)| body(s.clone(), i, out.clone())).collect();
    let start: Vec<u64> = p.sessions.iter().map(|s| s.start).collect();
    let sc = exec::interleave(bodies, &start);
    (Rc::try_unwrap(out).ok().unwrap().into_inner(), sc)
}

/// The session (or nested session) executed with nothing around it.
fn execute_alone(s: &NSession) -> Vec<Item> {
    let mut s = s.clone();
    s.nested = None;
    s.lat = vec![];
    s.start = 0;
    execute(&NPlan { sessions: vec![s] }).0.remove(0).0
}

fn walk(items: &[Item], s: &NSession, tag: &str, o: &mut RunOut, prop: &str) {
    let mut st = noracle::fresh();
    let mut first = true;
    for (i, it) in items.iter().enumerate() {
        match it {
            Item::One(r) => {
                let before = st;
                let mut out = Out { o, tag: format!("{tag} op {i}") };
                noracle::check(r, s.maxiters, s.f32, &mut st, &mut out);
                tally(r, o);
                if prop == "N07" {
                    against_new(r, s, &before, first, &format!("{tag} op {i}"), o);
                }
                first = false;
            }
            Item::Fork { clone, orig, c0, o0 } => {
                if c0 != o0 || *o0 != st.counts {
                    o.add("N08", "clone's statistics", format!("{tag} op {i}: clone reads {c0:?}, original {o0:?}, expected {:?}", st.counts));
                }
                let mut cst = st;
                for (j, r) in clone.iter().enumerate() {
                    let mut out = Out { o, tag: format!("{tag} op {i}.{j} (clone)") };
                    noracle::check(r, s.maxiters, s.f32, &mut cst, &mut out);
                }
                for (j, r) in orig.iter().enumerate() {
                    let mut out = Out { o, tag: format!("{tag} op {i}.{j} (original)") };
                    noracle::check(r, s.maxiters, s.f32, &mut st, &mut out);
                    tally(r, o);
                }
                for (j, (a, b)) in clone.iter().zip(orig).enumerate() {
                    if let Some(d) = a.diff(b, true) {
                        o.add("N08", "clone differs from original", format!("{tag} op {i}.{j}: clone: {d}"));
                    }
                }
                probe("clone continued beside its original");
                first = false;
            }
        }
    }
}

fn tally(r: &Rec, o: &mut RunOut) {
    o.solves += 1;
    o.callbacks += r.evs.len() as u64;
    probe(match r.end {
        End::Ok => "solve succeeded",
        End::Recover => "solve failed recoverably",
        End::Illegal | End::Lin(_) => "solve failed unrecoverably",
        End::Injected => "solve unwound by a panic",
        _ => "solve ended otherwise",
    });
}

fn quiet_cx<R>(f: impl FnOnce(&Cx) -> R) -> R {
    let pos = Cell::new(0);
    let cx = Cx { yld: &|_| {}, lat: &[], pos: &pos, nested: None, name: "reference" };
    uncounted(|| f(&cx))
}

/// Brings a new solver into the state "Jacobian current".
fn prime(s: &mut Box<dyn Sess>, cx: &Cx) {
    let op = SolveOp {
        lsetup: true,
        vseed: 99,
        tol: 1.0,
        fill: Vm::Zero,
        y0: Vm::Normal,
        accept: u32::MAX,
        layout: 0,
        faults: vec![Fault { cb: Cb::Solve, at: 0, kind: Fk::Recover, partial: false }],
    };
    s.run(&op, cx);
}

fn against_new(r: &Rec, s: &NSession, st: &St, first: bool, tag: &str, o: &mut RunOut) {
    if r.end == End::LibPanic {
        return;
    }
    if r.op.faults.iter().any(|f| f.kind == Fk::Continue) {
        return;
    }
    let mut op = r.op.clone();
    op.faults.retain(|f| f.kind != Fk::Nest && !matches!(f.kind, Fk::Stall(_)));
    op.fill = if op.fill == Vm::Nan { Vm::Normal } else { Vm::Nan };
    let variants: Vec<bool> = match st.jcur {
        Some(b) => vec![b],
        None => vec![false, true],
    };
    let mut d = None;
    for cur in variants {
        let rr = quiet_cx(|cx| {
            let mut f = make(s.f32, s.n, s.maxiters);
            if cur {
                prime(&mut f, cx);
            }
            f.run(&op, cx)
        });
        match r.diff(&rr, false) {
            None => {
                probe(if first { "first solve equals one with another output vector" } else { "later solve equals one on a new solver" });
                return;
            }
            x => d = x,
        }
    }
    o.add("N07", "differs from a new solver", format!("{tag}: {}", d.unwrap()));
}

pub fn run(prop: &str, p: &NPlan) -> RunOut {
    let mut o = RunOut::default();
    let (obs, sc) = execute(p);
    o.simtime = sc.simtime;
    o.sched = sc.hash;
    if sc.switches > 1 {
        probe_n("session switches", sc.switches);
    }
    trace(|| format!("resume order: {:?}", sc.order));
    let mut h = H::new();
    h.u(sc.hash);
    for (i, (main, nested)) in obs.iter().enumerate() {
        let s = &p.sessions[i];
        walk(main, s, &format!("s{i}"), &mut o, prop);
        for it in main.iter().chain(nested) {
            match it {
                Item::One(r) => r.hash_into(&mut h, true),
                Item::Fork { clone, orig, .. } => {
                    for r in clone.iter().chain(orig) {
                        r.hash_into(&mut h, true)
                    }
                }
            }
        }
        if let Some(ns) = &s.nested {
            walk(nested, ns, &format!("s{i}.nested"), &mut o, prop);
        }
        if prop == "N08" {
            for (what, items, s) in [("", main, Some(s)), (".nested", nested, s.nested.as_deref())] {
                let Some(s) = s else { continue };
                let al = uncounted(|| execute_alone(s));
                for (j, (a, b)) in items.iter().zip(&al).enumerate() {
                    let pairs: Vec<(&Rec, &Rec)> = match (a, b) {
                        (Item::One(x), Item::One(y)) => vec![(x, y)],
                        (Item::Fork { clone: c1, orig: o1, .. }, Item::Fork { clone: c2, orig: o2, .. }) => {
                            c1.iter().zip(c2).chain(o1.iter().zip(o2)).collect()
                        }
                        _ => vec![],
                    };
                    for (x, y) in pairs {
                        if let Some(d) = x.diff(y, true) {
                            o.add("N08", "differs from running alone", format!("s{i}{what} op {j}: {d}"));
                        } else {
                            probe("solve equals the same solve run alone");
                        }
                    }
                }
            }
        }
    }
    o.hash = h.0;
    o
}

/// Simpler plans to try, most aggressive first.
pub fn simpler(p: &NPlan) -> Vec<NPlan> {
    let mut v: Vec<NPlan> = vec![];
    if p.sessions.len() > 1 {
        for i in 0..p.sessions.len() {
            let mut q = p.clone();
            q.sessions.remove(i);
            v.push(q);
        }
    }
    for i in 0..p.sessions.len() {
        let mut edit = |f: &dyn Fn(&mut NSession)| {
            let mut q = p.clone();
            f(&mut q.sessions[i]);
            if q != *p {
                v.push(q);
            }
        };
        let s = &p.sessions[i];
        simpler_session(s, &mut edit);
        if let Some(ns) = &s.nested {
            edit(&|s| s.nested = None);
            let mut inner = |f: &dyn Fn(&mut NSession)| edit(&|s| f(s.nested.as_mut().unwrap()));
            simpler_session(ns, &mut inner);
        }
    }
    v
}

fn simpler_session(s: &NSession, edit: &mut dyn FnMut(&dyn Fn(&mut NSession))) {
    let n = s.ops.len();
    // remove chunks, then single operations
    let mut c = n / 2;
    while c >= 1 {
        let mut a = 0;
        while a < n {
            let b = (a + c).min(n);
            edit(&|s| {
                s.ops.drain(a..b);
            });
            a += c;
            if n > 400 && a > 40 * c {
                break;
            }
        }
        c /= 2;
        if n > 400 && c < n / 64 {
            break;
        }
    }
    edit(&|s| s.lat = vec![]);
    edit(&|s| s.lat.truncate(1));
    edit(&|s| s.start = 0);
    edit(&|s| s.f32 = false);
    for m in [1, 2, 3, 5] {
        if m < s.maxiters {
            edit(&|s| s.maxiters = m);
        }
    }
    if s.maxiters > 8 {
        edit(&|s| s.maxiters /= 2);
        edit(&|s| s.maxiters -= 1);
    }
    for m in SIZES {
        if m < s.n {
            edit(&|s| s.n = m);
        }
    }
    if n > 60 {
        return;
    }
    for j in 0..n {
        match &s.ops[j] {
            NOp::Solve(o) => {
                simpler_op(o, &mut |f| {
                    edit(&|s| {
                        if let NOp::Solve(o) = &mut s.ops[j] {
                            f(o)
                        }
                    })
                });
            }
            NOp::Fork { ops, .. } => {
                edit(&|s| {
                    if let NOp::Fork { ops, .. } = s.ops[j].clone() {
                        s.ops.splice(j..j + 1, ops.into_iter().map(NOp::Solve));
                    }
                });
                for k in 0..ops.len() {
                    if ops.len() > 1 {
                        edit(&|s| {
                            if let NOp::Fork { ops, .. } = &mut s.ops[j] {
                                ops.remove(k);
                            }
                        });
                    }
                    simpler_op(&ops[k], &mut |f| {
                        edit(&|s| {
                            if let NOp::Fork { ops, .. } = &mut s.ops[j] {
                                f(&mut ops[k])
                            }
                        })
                    });
                }
                edit(&|s| {
                    if let NOp::Fork { order, .. } = &mut s.ops[j] {
                        *order = 0
                    }
                });
            }
        }
    }
}

fn simpler_op(o: &SolveOp, edit: &mut dyn FnMut(&dyn Fn(&mut SolveOp))) {
    if o.faults.len() > 1 {
        edit(&|o| o.faults.clear());
    }
    for k in 0..o.faults.len() {
        edit(&|o| {
            o.faults.remove(k);
        });
        edit(&|o| o.faults[k].partial = false);
        edit(&|o| o.faults[k].at /= 2);
        if o.faults[k].at > 0 {
            edit(&|o| o.faults[k].at -= 1);
        }
        if matches!(o.faults[k].kind, Fk::LinFail(c) if c > 1) {
            edit(&|o| o.faults[k].kind = Fk::LinFail(1));
        }
        if matches!(o.faults[k].kind, Fk::Stall(c) if c > 1) {
            edit(&|o| o.faults[k].kind = Fk::Stall(1));
        }
    }
    edit(&|o| o.layout = 0);
    edit(&|o| o.fill = Vm::Zero);
    edit(&|o| o.y0 = Vm::Normal);
    if o.tol != 1.0 {
        edit(&|o| o.tol = 1.0);
    }
    if o.accept != 0 {
        edit(&|o| o.accept = 0);
        if o.accept != u32::MAX {
            edit(&|o| o.accept /= 2);
            edit(&|o| o.accept -= 1);
        } else {
            edit(&|o| o.accept = 1);
        }
    }
    edit(&|o| o.vseed = 1);
}
