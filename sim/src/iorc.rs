//! The oracles over an integration's history, one function per property.

use crate::common::*;
use crate::ihist::*;
use crate::isim::*;

/// largest observed/allowed ratios, for calibration
thread_local! { pub static PEAK: std::cell::RefCell<std::collections::BTreeMap<&'static str, f64>> = const { std::cell::RefCell::new(std::collections::BTreeMap::new()) }; }
pub fn peak(name: &'static str, r: f64) {
    if r.is_finite() {
        PEAK.with_borrow_mut(|p| {
            let e = p.entry(name).or_insert(0.0);
            if r > *e {
                *e = r
            }
        })
    }
}
/// Is a within c*tol of b? (exact equality and NaN on both sides included)
fn close(name: &'static str, a: f64, b: f64, tol: f64, c: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    peak(name, (a - b).abs() / tol);
    (a - b).abs() <= c * tol
}
fn vclose(name: &'static str, a: &[f64], b: &[f64], tol: &[f64], c: f64) -> bool {
    (0..a.len()).all(|i| close(name, a[i], b[i], tol[i], c))
}

fn silent(k: &Ik) -> bool {
    matches!(k, Ik::ResBump(_))
}

/// I01: what a call to `solve` reports, and that it gets somewhere.
pub fn contract(s: &ISession, h: &Hist, o: &mut RunOut) {
    const P: &str = "I01";
    if let Some((m, _)) = &h.panic {
        o.add(P, if m.starts_with("unbounded") { "unbounded" } else { "panic" }, m.clone());
        return;
    }
    let mut prev: Option<&Ret> = None;
    let mut dir = 0.0;
    // where steps are too short to be told apart, so are the accepted from the rejected
    let blur = indistinct(h).unwrap_or(usize::MAX);
    for c in &h.calls {
        let Some(r) = h.ret(c) else { continue };
        let steps = c.p1 - c.p0;
        let what = format!("solve(tout={:e}, {}) -> {:?} {} tret={:e} tn={:e}", c.tout, if c.normal { "Normal" } else { "OneStep" }, r.st, r.msg, r.tret, r.tn);
        if dir == 0.0 && c.p1 > 1 {
            dir = h.pts[1].t.signum();
            if let Some(c0) = h.calls.first() {
                if c0.tout * dir <= 0.0 {
                    o.add(P, "direction", format!("first tout {:e} but first step to {:e}", c0.tout, h.pts[1].t));
                }
            }
        }
        // time never runs backwards, and is that of the last accepted point
        if r.tn != h.pts[c.p1 - 1].t {
            o.add(P, "current-time", format!("current time is {:e}, the last accepted point is at {:e}: {what}", r.tn, h.pts[c.p1 - 1].t));
        }
        for q in c.p0..c.p1 {
            let dt = (h.pts[q].t - h.pts[q - 1].t) * dir;
            if dt < 0.0 || dt == 0.0 && !worn(h, q) {
                o.add(P, "backwards", format!("a step from {:e} to {:e}: {what}", h.pts[q - 1].t, h.pts[q].t));
            }
        }
        match r.st {
            Status::Success if c.normal => {
                if r.tret != c.tout {
                    o.add(P, "tout", format!("success without having reached tout: {what}"));
                }
                // the steps end with the first one that reaches tout
                if steps > 0 && (h.pts[c.p1 - 2].t - c.tout) * dir >= 0.0 {
                    o.add(P, "overshoot", format!("a step was taken although tout had been passed at {:e}: {what}", h.pts[c.p1 - 2].t));
                }
                if c.p1 > 1 && (r.tn - c.tout) * dir < 0.0 {
                    o.add(P, "short", format!("success with tout not yet reached: {what}"));
                }
            }
            Status::Success => {
                if steps > 1 {
                    o.add(P, "one-step", format!("{steps} steps: {what}"));
                }
                if r.tret != r.tn {
                    o.add(P, "one-step-time", what.clone());
                }
                let dt = (r.tret - r.tret_before) * dir;
                if dt < 0.0 || dt == 0.0 && !worn(h, c.p1) {
                    o.add(P, "no-progress", format!("previous tret {:e}: {what}", r.tret_before));
                }
            }
            Status::Root => {
                if s.roots.is_empty() {
                    o.add(P, "root-without-functions", what.clone());
                }
                let tt = 200.0 * EPS * (r.tn.abs() + r.hh.abs() + r.hu.abs());
                if (r.tret - r.tret_before) * dir < -tt || (r.tn - r.tret) * dir < 0.0 || (c.normal && (c.tout - r.tret) * dir < -tt) {
                    // a call whose tout lies behind what was already returned may find an earlier root
                    if !(c.normal && (c.tout - r.tret_before) * dir < 0.0) {
                        o.add(P, "root-time", format!("previous tret {:e}: {what}", r.tret_before));
                    }
                }
                if !c.normal && steps > 1 {
                    o.add(P, "one-step", format!("{steps} steps: {what}"));
                }
            }
            Status::TStop | Status::Continue => o.add(P, "status", what.clone()),
            Status::Err => {
                if r.tret.to_bits() != r.tret_before.to_bits() && r.tret != r.tn {
                    o.add(P, "error-time", format!("previous tret {:e}: {what}", r.tret_before));
                }
                if steps > 500 {
                    o.add(P, "too-many-steps", what.clone());
                }
                if c.ret.is_some_and(|e| e > blur) {
                    prev = Some(r);
                    continue;
                }
                if steps == 500 {
                    probe("step limit reached");
                }
                // an error needs a reason
                let last = h.atts[c.atts.clone()].last();
                let failed = last.is_some_and(|a| !a.accepted);
                let legal = failed
                    || steps == 500
                    || c.tout.abs() < 1e-300
                    || (c.normal && prev.is_some() && c.p0 > 1 && (c.tout - (h.pts[c.p0 - 1].t - prev.unwrap().hu)) * dir < 0.0)
                    || refused(h, c)
                    || nan_root(h, c)
                    || (!s.roots.is_empty() && close_roots(h, c));
                if !legal {
                    o.add(P, "error-without-cause", what.clone());
                }
                // where it names a time of the root search, the root functions are broken there
                if let (Ek::RootFail | Ek::CloseRoots, Some(t)) = (r.kind, r.times.first()) {
                    probe(if r.kind == Ek::RootFail { "failing root functions" } else { "roots too close" });
                    let bad = h.log[..c.ret.unwrap_or(h.log.len())].iter().any(|e| {
                        matches!(e, Ev::Root { t: u, g, .. } if u == t && g.iter().any(|g| if r.kind == Ek::RootFail { g.is_nan() } else { *g == 0.0 }))
                    });
                    if !bad {
                        o.add(P, "error-time", format!("the error names t={t:e}: {what}"));
                    }
                }
                if failed {
                    // given up at the tenth failure of a kind, and the error says of which
                    let tail: Vec<&Att> = h.atts[c.atts.clone()].iter().rev().take_while(|a| !a.accepted).collect();
                    let test = tail.iter().filter(|a| a.end == End::Ok).count();
                    let conv = tail.len() - test;
                    let (n, kind) = match tail[0].end {
                        End::Ok => (test, Ek::ErrTest),
                        End::Fatal => (10, Ek::Fatal),
                        _ => (conv, Ek::Conv),
                    };
                    if n != 10 {
                        o.add(P, "gave-up", format!("after {test} failed error tests and {conv} failures to converge: {what}"));
                    }
                    if r.kind != kind && (kind != Ek::ErrTest || r.kind != Ek::Other) {
                        o.add(P, "error-kind", format!("expected {kind:?}, the error says {:?}: {what}", r.kind));
                    }
                }
                if failed && dying(h, c) < 10 && !h.atts[c.atts.clone()].last().is_some_and(|a| a.end == End::Fatal) {
                    o.add(P, "gave-up-early", format!("after {} failed attempts: {what}", dying(h, c)));
                }
            }
        }
        prev = Some(r);
    }
    // once the faults are over, steps succeed again
    let last_fault = s.faults.iter().filter(|f| !matches!(f.kind, Ik::EwtBad | Ik::EwtHuge | Ik::RootNan)).map(|f| f.at.saturating_add(f.len)).max().unwrap_or(0);
    let stray = s.misfit.is_some() || s.faults.iter().any(|f| matches!(f.kind, Ik::RootNan | Ik::EwtBad | Ik::EwtHuge) || silent(&f.kind));
    if !stray {
        for c in &h.calls {
            let Some(r) = h.ret(c) else { continue };
            if r.st == Status::Err && !c.atts.is_empty() && c.atts.start as u64 >= last_fault {
                let last = &h.atts[c.atts.end - 1];
                if !last.accepted && h.pts.len() > 0 {
                    let hh = (last.t - h.pts[last.base - 1].t).abs();
                    if hh > 1e3 * EPS * last.t.abs() {
                        o.add(P, "no-recovery", format!("no fault active, yet: {:?} {} at t={:e} h={hh:e}", r.st, r.msg, last.t));
                    }
                }
            }
        }
    }
}

/// The weights in force when a call ended, and the solution they belong to.
fn in_force<'a>(h: &'a Hist, c: &Call) -> Option<(&'a Vec<f64>, &'a Vec<f64>)> {
    let end = c.ret.unwrap_or(h.log.len());
    h.ewts.iter().rev().find(|(e, _)| *e < end).and_then(|(e, _)| match &h.log[*e] {
        Ev::Ewt { y, w } => Some((y, w)),
        _ => None,
    })
}
fn unusable(w: &[f64]) -> bool {
    w.iter().any(|x| !(*x > 0.0 && x.is_finite()))
}
/// Room for the rounding of a norm compared to one.
const ROOM: f64 = 1e-12;

fn refused(h: &Hist, c: &Call) -> bool {
    in_force(h, c).is_some_and(|(y, w)| unusable(w) || !(EPS * wrms(y, w) <= 1.0 - ROOM))
}
fn nan_root(h: &Hist, c: &Call) -> bool {
    h.log[c.ev..c.ret.unwrap_or(h.log.len())].iter().any(|e| matches!(e, Ev::Root { g, .. } if g.iter().any(|x| x.is_nan())))
}

/// I12: no step on unusable weights or with more accuracy asked for than there is; no refusal otherwise.
pub fn guard(h: &Hist, o: &mut RunOut) {
    const P: &str = "I12";
    if let Some((m, _)) = &h.panic {
        o.add(P, "panic", m.clone());
        return;
    }
    let mut factor: Option<f64> = None;
    for c in &h.calls {
        let Some(r) = h.ret(c) else { continue };
        let end = c.ret.unwrap_or(h.log.len());
        let what = format!("solve(tout={:e}, {}) -> {:?} {} tret={:e} tn={:e}", c.tout, if c.normal { "Normal" } else { "OneStep" }, r.st, r.msg, r.tret, r.tn);
        // every evaluation of the equations happens under usable weights
        let mut cur = h.ewts.iter().rev().find(|(e, _)| *e < c.ev).map(|(e, _)| *e);
        let mut fresh = false;
        for i in c.ev..end {
            match &h.log[i] {
                Ev::Ewt { .. } => {
                    cur = Some(i);
                    fresh = true;
                }
                Ev::Res { t, .. } => {
                    let Some(Ev::Ewt { y, w }) = cur.map(|i| &h.log[i]) else {
                        o.add(P, "no-weights", format!("residual at {t:e} before any weights: {what}"));
                        return;
                    };
                    if unusable(w) {
                        o.add(P, "unusable-weights", format!("a step is tried (residual at {t:e}) on the weights {w:?}: {what}"));
                        return;
                    }
                    let q = EPS * wrms(y, w);
                    if !(q <= 1.0 + ROOM) {
                        o.add(P, "impossible-accuracy", format!("a step is tried (residual at {t:e}) with epsilon times the solution's norm at {q:e}: {what}"));
                        return;
                    }
                }
                _ => {}
            }
        }
        let Some((y, w)) = in_force(h, c) else {
            if r.kind == Ek::Accuracy {
                o.add(P, "refused-without-weights", what);
                return;
            }
            continue;
        };
        let (bad, q) = (unusable(w), EPS * wrms(y, w));
        let first = c.p1 == 1;
        if fresh && bad {
            probe("unusable weights met");
            if r.st != Status::Err || r.kind != Ek::Illegal {
                o.add(P, "unusable-accepted", format!("weights {w:?}: {what}"));
                return;
            }
        } else if fresh && !first && q > 1.0 + ROOM {
            if r.st != Status::Err || r.kind != Ek::Accuracy {
                o.add(P, "accuracy-accepted", format!("epsilon times norm is {q:e}: {what}"));
                return;
            }
        }
        if r.kind == Ek::Accuracy {
            probe("impossible accuracy refused");
            if bad || !(q > 1.0 - ROOM) {
                o.add(P, "accuracy-refused", format!("epsilon times norm is only {q:e}: {what}"));
                return;
            }
            if r.tret != r.tn || r.times.iter().any(|t| *t != r.tn) {
                o.add(P, "refusal-time", format!("{what}; the error names {:?}", r.times));
                return;
            }
        }
        if r.kind == Ek::Illegal {
            let behind = c.normal && c.p0 > 1 && c.p1 == c.p0;
            if !bad && c.p1 - c.p0 != 500 && !(first && c.tout == 0.0) && !behind {
                o.add(P, "refused", format!("weights {w:?}: {what}"));
                return;
            }
            if bad && fresh && r.tret != r.tn {
                o.add(P, "refusal-time", what.clone());
                return;
            }
        }
        // a refusal leaves the last accepted point behind
        if (r.kind == Ek::Accuracy || (bad && fresh)) && !first && r.st == Status::Err {
            let p = &h.pts[c.p1 - 1];
            if !(0..h.n).all(|i| close("y after refusal", r.y[i], p.y[i], EPS * p.scale[i].max(p.y[i].abs()), 256.0)) {
                o.add(P, "refusal-state", format!("left y={:?}, the last accepted point is {:?}: {what}", r.y, p.y));
                return;
            }
        }
        // the reported factor is that of the last check
        if r.kind == Ek::Accuracy {
            factor = Some(10.0 * q);
        } else if !c.atts.is_empty() {
            let at = h.ewts.iter().rev().find(|(e, _)| *e < h.atts[c.atts.end - 1].ev.start).map(|(e, _)| *e);
            if let Some(Ev::Ewt { y, w }) = at.map(|e| &h.log[e]) {
                factor = Some(EPS * wrms(y, w));
            }
        }
        if let Some(f) = factor {
            if !close("factor", r.tolsf, f, f * 1e-13, 10.0) {
                o.add(P, "factor", format!("tolerance scale factor {:e}, that of the last check is {f:e}: {what}", r.tolsf));
                return;
            }
            if r.kind != Ek::Accuracy && r.st != Status::Err && !c.atts.is_empty() && r.tolsf > 1.0 + ROOM {
                o.add(P, "factor", format!("tolerance scale factor {:e}: {what}", r.tolsf));
                return;
            }
        }
    }
}

/// After many failures the step may be shorter than the spacing of numbers there.
fn worn(h: &Hist, q: usize) -> bool {
    h.atts.iter().filter(|a| a.base <= q && !a.accepted).count() >= 10
}

/// attempts that failed since the last accepted point of the call
fn dying(h: &Hist, c: &Call) -> usize {
    h.atts[c.atts.clone()].iter().rev().take_while(|a| !a.accepted).count()
}

/// Did a root function vanish at two neighbouring times in this call?
fn close_roots(h: &Hist, c: &Call) -> bool {
    let end = c.ret.unwrap_or(h.log.len());
    let mut last: Option<&Vec<f64>> = None;
    for e in &h.log[c.ev..end] {
        if let Ev::Root { g, .. } = e {
            if let Some(l) = last {
                if l.iter().zip(g).any(|(a, b)| *a == 0.0 && *b == 0.0) {
                    return true;
                }
            }
            last = Some(g);
        }
    }
    false
}

/// I02: every attempt starts from the extrapolation of the accepted points, whatever failed before.
pub fn state(s: &ISession, h: &Hist, o: &mut RunOut) {
    const P: &str = "I02";
    for x in &h.stray {
        o.add(P, "stray", x.clone());
    }
    let n = h.n;
    for (ai, a) in h.atts.iter().enumerate() {
        if !a.has_res {
            continue;
        }
        let m = a.base - 1;
        let prior = ai > 0 && !h.atts[ai - 1].accepted;
        let desc = || {
            format!(
                "attempt {ai} (t={:e}, from point {m} at {:e}{})",
                a.t,
                h.pts[m].t,
                if prior { ", after a failed attempt" } else { "" }
            )
        };
        if m == 0 {
            for i in 0..n {
                let v = h.y0[i] + a.t * h.yp0[i];
                if !close("first y", a.yp[i], v, EPS * (h.y0[i].abs() + (a.t * h.yp0[i]).abs()), 64.0) {
                    o.add(P, "first-prediction", format!("{}: y[{i}] predicted {:e}, y0 + h y0' is {v:e}", desc(), a.yp[i]));
                    return;
                }
                if !close("first yp", a.ypp[i], h.yp0[i], EPS * h.yp0[i].abs(), 256.0) {
                    o.add(P, "first-prediction", format!("{}: y'[{i}] predicted {:e}, y0' is {:e}", desc(), a.ypp[i], h.yp0[i]));
                    return;
                }
            }
        } else if a.ks == 0 {
            let mut why = String::new();
            for k in 1..=5.min(m) {
                let p = Poly::through(h, m, k);
                let (v, tol) = p.eval(a.t, 0);
                let (d, dtol) = p.eval(a.t, 1);
                let q = (0..n).map(|i| f64::max((v[i] - a.yp[i]).abs() / tol[i], (d[i] - a.ypp[i]).abs() / dtol[i])).fold(0.0, f64::max);
                why += &format!(" k={k}: {q:.3e}");
            }
            o.add(P, "prediction", format!("{}: y={:?} y'={:?} is no extrapolation of the accepted points (deviation in roundings{why})", desc(), a.yp, a.ypp));
            return;
        } else if a.k > 0 {
            let p = Poly::through(h, m, a.k);
            let (v, tol) = p.eval(a.t, 0);
            let (d, dtol) = p.eval(a.t, 1);
            vclose("pred y", &a.yp, &v, &tol, CP);
            vclose("pred yp", &a.ypp, &d, &dtol, CP);
        }
        // residual points stay at one time
        for e in &h.log[a.ev.clone()] {
            if let Ev::Res { t, .. } = e {
                if *t != a.t {
                    o.add(P, "time-within-attempt", format!("{}: residual at t={t:e}", desc()));
                    return;
                }
            }
        }
    }
    // what the weights are computed from is the last accepted point, and that is prediction plus correction
    for (ev, p) in &h.ewts {
        if let Ev::Ewt { y, w } = &h.log[*ev] {
            let pt = &h.pts[*p];
            let (want, sc): (Vec<f64>, Vec<f64>) = if pt.att == usize::MAX {
                (h.y0.clone(), vec![0.0; n])
            } else {
                let a = &h.atts[pt.att];
                ((0..n).map(|i| a.yp[i] + a.ee[i]).collect(), pt.scale.iter().map(|x| x * EPS).collect())
            };
            if !vclose("accepted", y, &want, &sc, 64.0) {
                o.add(P, "accepted-point", format!("accepted point {p} (t={:e}): weights from {y:?}, prediction plus correction is {want:?}", pt.t));
                return;
            }
            // every later evaluation for the same point sees the same values
            if !biteq(y, &pt.y) {
                o.add(P, "accepted-point", format!("point {p} changed between evaluations: {y:?}, {:?}", pt.y));
                return;
            }
            let bad = s.faults.iter().any(|f| matches!(f.kind, Ik::EwtBad | Ik::EwtHuge));
            for i in 0..n {
                let at = if s.atol.len() == 1 { s.atol[0] } else { s.atol[i] };
                let r = 1.0 / (s.rtol * y[i].abs() + at);
                if !bad && !close("weight", w[i], r, EPS * r, 8.0) {
                    o.add(P, "weights", format!("weight {:e} for y={:e}, 1/(rtol |y| + atol) is {r:e}", w[i], y[i]));
                    return;
                }
            }
        }
    }
    // attempts use the weights of the point they start from
    let mut wi = 0;
    for a in &h.atts {
        while wi < h.ewts.len() && h.ewts[wi].0 < a.ev.start {
            wi += 1;
        }
        if wi == 0 {
            o.add(P, "weights", "an attempt before any weights".into());
            return;
        }
        let (ev, p) = h.ewts[wi - 1];
        if let Ev::Ewt { w, .. } = &h.log[ev] {
            if p != a.base - 1 || !biteq(w, &a.w) {
                o.add(P, "weights", format!("attempt at t={:e} with weights {:?}, those of its starting point are {w:?}", a.t, a.w));
                return;
            }
        }
    }
    // an error leaves the last accepted point behind
    for c in &h.calls {
        let Some(r) = h.ret(c) else { continue };
        if r.st != Status::Err || c.atts.is_empty() {
            continue;
        }
        let m = c.p1 - 1;
        let failed = !h.atts[c.atts.end - 1].accepted;
        if !failed {
            continue;
        }
        let (y, tol, yp, ytol) = if m == 0 {
            (h.y0.clone(), h.y0.iter().map(|x| x.abs() * EPS).collect(), h.yp0.clone(), h.yp0.iter().map(|x| x.abs() * 16.0 * EPS).collect::<Vec<_>>())
        } else {
            let k = r.kused.clamp(1, 5.min(m));
            let p = Poly::through(h, m, k);
            let (y, t) = p.eval(r.tn, 0);
            let (d, dt) = p.eval(r.tn, 1);
            (y, t, d, dt)
        };
        if !vclose("y after error", &r.y, &y, &tol, CP) {
            o.add(P, "after-error", format!("after {} at tn={:e}: y={:?}, the last accepted point is {y:?}", r.msg, r.tn, r.y));
            return;
        }
        if !vclose("yp after error", &r.yp, &yp, &ytol, CP) {
            o.add(P, "after-error", format!("after {} at tn={:e}: y'={:?}, the accepted points give {yp:?} (order {})", r.msg, r.tn, r.yp, r.kused));
            return;
        }
    }
}

/// I04: accepted steps pass the local error test; rejected ones failed it.
pub fn local_error(h: &Hist, o: &mut RunOut) {
    const P: &str = "I04";
    for (ai, a) in h.atts.iter().enumerate() {
        if a.end != End::Ok || !a.has_res || (ai + 1 == h.atts.len() && !a.accepted) {
            continue;
        }
        let nrm = wrms(&a.ee, &a.w);
        let ks: Vec<usize> = if a.k > 0 { vec![a.k] } else { (1..=5).filter(|k| a.ks >> k & 1 == 1).collect() };
        let est: Vec<f64> = ks.iter().map(|k| ck(h, a, *k) * nrm).collect();
        let hh = a.t - h.pts[a.base - 1].t;
        let rel = 1e-9 + 64.0 * EPS * (a.t / hh).abs();
        if a.accepted {
            if !est.iter().any(|e| *e <= 1.0 + rel) {
                o.add(P, "accepted-too-big", format!("step to t={:e} accepted with an error estimate of {est:?} tolerances (order {ks:?})", a.t));
                return;
            }
        } else if !est.is_empty() && est.iter().all(|e| *e <= 1.0 - rel) {
            o.add(P, "rejected-without-cause", format!("attempt at t={:e} rejected with an error estimate of {est:?} tolerances (order {ks:?})", a.t));
            return;
        }
    }
}

/// t of the i-th point back from m, with the fictitious one before the start
fn tback(h: &Hist, m: usize, i: usize, first: f64) -> f64 {
    if i <= m {
        h.pts[m - i].t
    } else {
        -first
    }
}

/// the variable-step error coefficient of an attempt at order k
pub fn ck(h: &Hist, a: &Att, k: usize) -> f64 {
    let m = a.base - 1;
    let hh = a.t - h.pts[m].t;
    let alpha = |i: usize| if i == 0 { 1.0 } else { hh / (a.t - tback(h, m, i, hh)) };
    let s: f64 = (0..k).map(alpha).sum();
    let al = alpha(k);
    f64::max((al + s - sk(k)).abs(), al)
}

/// I04 (second half): the computed solution stays near the exact one.
pub fn global_error(s: &ISession, h: &Hist, o: &mut RunOut) {
    const P: &str = "I04";
    if s.misfit.is_some() || s.faults.iter().any(|f| silent(&f.kind) || matches!(f.kind, Ik::JacScale(_) | Ik::EwtHuge | Ik::EwtBad)) {
        return;
    }
    let mut worst = 0.0f64;
    let mut at = 0;
    for (i, p) in h.pts.iter().enumerate().skip(1) {
        let Some(x) = s.model.exact(p.t) else { return };
        let d: Vec<f64> = x.iter().zip(&p.y).map(|(a, b)| a - b).collect();
        let w: Vec<f64> = (0..h.n).map(|i| 1.0 / (s.rtol * x[i].abs() + if s.atol.len() == 1 { s.atol[0] } else { s.atol[i] })).collect();
        let e = wrms(&d, &w);
        if !(e <= worst) {
            worst = e;
            at = i;
        }
    }
    peak("global error", worst);
    if !(worst <= GLOBAL) {
        o.add(P, "global-error", format!("at t={:e} the solution is off by {worst:e} tolerances", h.pts[at].t));
    }
}
pub const GLOBAL: f64 = 1e7;

/// I05: interpolated output is the polynomial through the last accepted points.
pub fn dense_output(s: &ISession, h: &Hist, o: &mut RunOut) {
    const P: &str = "I05";
    if let Some((m, true)) = &h.panic {
        o.add(P, "panic", format!("a query panics: {m}"));
    }
    for (ev, np) in &h.qpts {
        let Ev::Query { t, k, ok, kind, times, y, yp, tn, hu, hh, kused } = &h.log[*ev] else { continue };
        let m = np - 1;
        if m == 0 {
            continue;
        }
        let dir = h.pts[1].t.signum();
        let tp = h.pts[m - 1].t;
        let fz = 1000.0 * EPS * (tn.abs() + hh.abs() + hu.abs());
        if k.is_some_and(|k| k > *kused) {
            if *ok {
                o.add(P, "too-high-derivative", format!("derivative {k:?} answered although the order is {kused}"));
            } else if *kind != Ek::BadK && (t - tp) * dir >= fz {
                o.add(P, "too-high-derivative", format!("derivative {k:?} with order {kused} refused for another reason: {kind:?}"));
            }
            continue;
        }
        if (t - tp) * dir < -fz {
            if *ok {
                o.add(P, "out-of-range", format!("t={t:e} answered although the last step began at {tp:e}"));
                return;
            }
            if *kind != Ek::BadTime {
                o.add(P, "out-of-range", format!("t={t:e} before the last step's beginning {tp:e} refused for another reason: {kind:?}"));
                return;
            }
            let room = 8.0 * EPS * (tn.abs() + hu.abs());
            if let [a, b, c] = times[..] {
                probe("refusals naming the last step");
                if a != *t || !near(b, tn - hu, room) || c != *tn {
                    o.add(P, "error-times", format!("t={t:e} before the last step [{tp:e}, {tn:e}]: the error names {a:e}, {b:e} and {c:e}"));
                    return;
                }
            }
            continue;
        }
        if !*ok {
            if (t - tp) * dir >= 0.0 && (tn - t) * dir >= 0.0 {
                o.add(P, "refused", format!("t={t:e} refused within the last step [{tp:e}, {tn:e}]"));
                return;
            }
            continue;
        }
        if (t - tn) * dir > fz {
            continue;
        }
        if *kused < 1 || *kused > 5.min(m) {
            o.add(P, "order", format!("order {kused} after {m} steps"));
            return;
        }
        let p = Poly::through(h, m, *kused);
        let d = k.unwrap_or(0);
        let (v, tol) = p.eval(*t, d);
        if !vclose(["dky 0", "dky 1", "dky 2", "dky 3", "dky 4", "dky 5"][d], y, &v, &tol, CP) {
            o.add(P, "value", format!("t={t:e} in the step [{tp:e}, {tn:e}], order {kused}, derivative {d}: {y:?}, the polynomial through the accepted points gives {v:?} (rounding {tol:?})"));
            return;
        }
        if k.is_none() {
            let (v, tol) = p.eval(*t, 1);
            if !vclose("solution'", yp, &v, &tol, CP) {
                o.add(P, "derivative", format!("t={t:e} in the step [{tp:e}, {tn:e}], order {kused}: y'={yp:?}, the polynomial through the accepted points gives {v:?}"));
                return;
            }
        }
    }
    // what solve leaves in y and y'
    for c in &h.calls {
        let Some(r) = h.ret(c) else { continue };
        let m = c.p1 - 1;
        if m == 0 || !matches!(r.st, Status::Success | Status::Root) {
            continue;
        }
        let dir = h.pts[1].t.signum();
        if r.kused < 1 || r.kused > 5.min(m) {
            o.add(P, "order", format!("order {} after {m} steps", r.kused));
            return;
        }
        let back = (r.tret - h.pts[m - 1].t) * dir;
        let fz = 1000.0 * EPS * (r.tn.abs() + r.hh.abs() + r.hu.abs());
        if back < -fz {
            o.add(P, "returned-time", format!("tret={:e} lies before the last step, which began at {:e}", r.tret, h.pts[m - 1].t));
            return;
        }
        let p = Poly::through(h, m, r.kused);
        let (v, tol) = p.eval(r.tret, 0);
        if !vclose("returned y", &r.y, &v, &tol, CP) {
            o.add(P, "returned-y", format!("{:?} at tret={:e} (order {}): y={:?}, the accepted points give {v:?}", r.st, r.tret, r.kused, r.y));
            return;
        }
        let (v, tol) = p.eval(r.tret, 1);
        if !vclose("returned yp", &r.yp, &v, &tol, CP) {
            // at a step's end the derivative used by the formula itself will do
            let a = &h.atts[h.pts[m].att];
            let bdf = r.tret == h.pts[m].t && {
                let cj = sk(r.kused) / (a.t - h.pts[m - 1].t);
                let rel = 1e-9 + 16.0 * EPS * (a.t / (a.t - h.pts[m - 1].t)).abs();
                (0..h.n).all(|i| near(r.yp[i], a.ypp[i] + cj * a.ee[i], rel * (cj * a.ee[i]).abs() + 16.0 * EPS * a.ypp[i].abs()))
            };
            if !bdf {
                o.add(P, "returned-yp", format!("{:?} at tret={:e} (order {}): y'={:?}, the accepted points give {v:?}", r.st, r.tret, r.kused, r.yp));
                return;
            }
        }
    }
    // root functions are evaluated on that polynomial too
    if !s.roots.is_empty() {
        let mut np = 1;
        let mut pi = 0;
        for (i, e) in h.log.iter().enumerate() {
            while pi < h.calls.len() && h.calls[pi].ev <= i {
                pi += 1;
            }
            if let Ev::Root { t, y, .. } = e {
                while np < h.pts.len() && h.atts[h.pts[np].att].ev.end <= i {
                    np += 1;
                }
                let m = np - 1;
                if m == 0 {
                    continue;
                }
                let dir = h.pts[1].t.signum();
                let hh = h.pts[m].t - h.pts[m - 1].t;
                let fz = 1000.0 * EPS * (h.pts[m].t.abs() + hh.abs());
                if (t - h.pts[m].t) * dir > 0.0 {
                    // just past the step's end: continued along the tangent or the polynomial
                    continue;
                }
                if (t - h.pts[m - 1].t) * dir < -fz {
                    o.add(P, "root-argument", format!("root functions evaluated at t={t:e}, before the last step [{:e}, {:e}]", h.pts[m - 1].t, h.pts[m].t));
                    return;
                }
                let a = &h.atts[h.pts[m].att];
                let ks: Vec<usize> = if a.k > 0 { vec![a.k] } else { (1..=5.min(m)).filter(|k| a.ks >> k & 1 == 1).collect() };
                let ok = ks.iter().any(|k| {
                    let p = Poly::through(h, m, *k);
                    let (v, tol) = p.eval(*t, 0);
                    vclose("root y", y, &v, &tol, CP)
                });
                if !ok {
                    o.add(P, "root-argument", format!("root functions evaluated at t={t:e} on y={y:?}, which is not the solution there (order {ks:?})"));
                    return;
                }
            }
        }
    }
}

/// I03: sign changes of root functions are found, placed and described correctly.
pub fn roots(s: &ISession, h: &Hist, o: &mut RunOut) {
    const P: &str = "I03";
    if s.roots.is_empty() || s.roots.iter().any(|g| matches!(g, G::Plateau { .. })) || s.faults.iter().any(|f| f.kind == Ik::RootNan) {
        return;
    }
    let nr = s.roots.len();
    let sg = |x: f64| if x > 0.0 { 1i8 } else if x < 0.0 { -1 } else { 0 };
    // sign at (t, y): Some(0) only for functions of time alone
    let sign = |i: usize, t: f64, y: &[f64]| -> Option<i8> {
        let g = gval(&s.roots[i], t, y);
        match s.roots[i] {
            G::Comp { i: c, c: lvl, s: k } => {
                if g.abs() > 1e3 * EPS * (y[c].abs() + lvl.abs()) * k.abs() {
                    Some(sg(g))
                } else {
                    None
                }
            }
            _ => Some(sg(g)),
        }
    };
    let mut cur: Vec<Option<i8>> = (0..nr).map(|i| sign(i, 0.0, &h.y0).filter(|x| *x != 0)).collect();
    // zero at the start: what counts is the sign a tenth of the first step later
    if let Some(a) = h.atts.first().filter(|a| a.has_res) {
        for i in 0..nr {
            if let G::TimeZero { c, .. } = s.roots[i] {
                if c / a.t > 0.1 + 1e-9 {
                    cur[i] = sign(i, 0.05 * a.t, &h.y0).filter(|x| *x != 0);
                }
            }
        }
    }
    let mut last_t = 0.0;
    let mut prev_tret = f64::NAN;
    // functions of time alone that are exactly zero at the last root take their sign from a little further on
    let mut from_zero = vec![false; nr];
    let mut prev_at = (0.0f64, 0.0f64);
    for c in &h.calls {
        let Some(r) = h.ret(c) else { return };
        if c.p1 == 1 {
            continue;
        }
        let dir = h.pts[1].t.signum();
        for i in 0..nr {
            if std::mem::take(&mut from_zero[i]) && !matches!(s.roots[i], G::Comp { .. }) {
                // how much further depends on the current time and step when the call is made
                let e = 100.0 * EPS * dir;
                let d = e * (prev_at.0.abs() + prev_at.1.abs());
                let (p, q) = (sign(i, last_t + 0.99 * d, &[]), sign(i, last_t + 1.01 * d, &[]));
                if p == q {
                    cur[i] = p.filter(|x| *x != 0);
                }
            }
        }
        if c.normal && (c.tout - prev_tret) * dir < 0.0 {
            return;
        }
        let round = 200.0 * EPS * (r.tn.abs() + r.hh.abs() + r.hu.abs());
        // ends of steps passed within the call, the one before it included
        let mut cps: Vec<(f64, &[f64])> = vec![];
        let interior = matches!(r.st, Status::Root) || (r.st == Status::Success && c.normal);
        for q in c.p0 - 1..c.p1 {
            let t = h.pts[q].t;
            if q == 0 || (t - last_t) * dir <= 2.0 * round {
                continue;
            }
            if interior && (t - r.tret) * dir >= 0.0 {
                break;
            }
            cps.push((t, &h.pts[q].y));
        }
        if r.st == Status::Err && close_roots(h, c) {
            return;
        }
        if interior && (r.st == Status::Root || (r.tret - last_t) * dir > 2.0 * round) {
            cps.push((r.tret, &r.y));
        }
        let ncp = cps.len();
        for (ci, (t, y)) in cps.into_iter().enumerate() {
            let at_root = r.st == Status::Root && ci + 1 == ncp;
            for i in 0..nr {
                let g = gval(&s.roots[i], t, y);
                if at_root && r.iroots[i] != 0.0 {
                    let dirn = r.iroots[i];
                    let before = if g == 0.0 { cur[i] } else { Some(-sg(g)) };
                    if g != 0.0 {
                        if cur[i].is_some() && cur[i] == Some(sg(g)) {
                            o.add(P, "no-sign-change", format!("function {i} reported at t={t:e} has the sign it had at t={last_t:e}"));
                            return;
                        }
                        // seen with the other sign within the location tolerance
                        let ttol = 150.0 * EPS * (r.tn.abs() + r.hh.abs().max(r.hu.abs()));
                        let ret = c.ret.unwrap();
                        // a function that is zero at the start or at the root before gets its sign from the tangent a little further on
                        let tangent = h.log[..ret].iter().any(|e| matches!(e, Ev::Root { t, g, .. } if *t == last_t && g[i] == 0.0));
                        let wit = h.log[..ret].iter().rev().any(|e| match e {
                            Ev::Root { t: tt, g: gg, .. } => (tangent || (t - tt) * dir >= 0.0 && (t - tt).abs() <= ttol) && sg(gg[i]) == -sg(g),
                            _ => false,
                        });
                        if !wit {
                            o.add(P, "root-not-located", format!("function {i} reported at t={t:e}, value {g:e} there, without a sign change within {ttol:e} before it"));
                            return;
                        }
                    }
                    if let Some(b) = before {
                        if dirn != -(b as f64) {
                            o.add(P, "direction", format!("function {i} at t={t:e}: went from sign {b} to value {g:e}, reported as {dirn}"));
                            return;
                        }
                    } else if dirn.abs() != 1.0 {
                        o.add(P, "direction", format!("function {i} at t={t:e} reported as {dirn}"));
                        return;
                    }
                    cur[i] = Some(sg(g)).filter(|x| *x != 0);
                    from_zero[i] = g == 0.0;
                    probe("roots reported");
                } else {
                    let now = sign(i, t, y);
                    match (cur[i], now) {
                        (Some(a), Some(b)) if a != b => {
                            o.add(
                                P,
                                "missed",
                                format!(
                                    "function {i} ({:?}) has sign {a} at t={last_t:e} and {b} at t={t:e} (value {g:e}), and no root was reported between{}",
                                    s.roots[i],
                                    if at_root { "; another one was reported there" } else { "" }
                                ),
                            );
                            return;
                        }
                        _ => {}
                    }
                    cur[i] = now.filter(|x| *x != 0);
                }
            }
            if at_root && !(0..nr).any(|i| r.iroots[i] != 0.0) {
                o.add(P, "unnamed", format!("a root reported at t={t:e} without a function that has it"));
                return;
            }
            last_t = t;
        }
        prev_tret = r.tret;
        prev_at = (r.tn, r.hh);
    }
}

/// cj of an attempt, if known
fn cj_of(h: &Hist, a: &Att) -> Option<(f64, f64)> {
    if a.k == 0 {
        return None;
    }
    let hh = a.t - h.pts[a.base - 1].t;
    Some((sk(a.k) / hh, 1e-9 + 16.0 * EPS * (a.t / hh).abs()))
}

/// I06: residuals, Jacobians and linear solves within an attempt belong to one and the same Newton system.
pub fn newton_system(_s: &ISession, h: &Hist, o: &mut RunOut) {
    const P: &str = "I06";
    let n = h.n;
    // leading coefficient the factors in use were made for; None: not usable
    let mut cjfac: Option<f64> = None;
    for (ai, a) in h.atts.iter().enumerate() {
        if !a.has_res {
            continue;
        }
        let hh = a.t - h.pts[a.base - 1].t;
        let desc = format!("attempt {ai} at t={:e} (h={hh:e})", a.t);
        let rel = 1e-9 + 16.0 * EPS * (a.t / hh).abs();
        let cj = cj_of(h, a).map(|x| x.0);
        let evs = &h.log[a.ev.clone()];
        let mut res: Option<(&Vec<f64>, &Vec<f64>, &Vec<f64>)> = None;
        let mut jac: Option<(&Vec<f64>, f64)> = None;
        let mut cor = vec![0.0; n];
        let mut big = vec![0.0f64; n];
        for e in evs {
            match e {
                Ev::Res { y, yp, r, .. } => {
                    // a restart begins from the prediction again
                    let restart = biteq(y, &a.yp);
                    if restart {
                        cor.fill(0.0);
                        big.fill(0.0);
                    }
                    for i in 0..n {
                        let want = a.yp[i] + cor[i];
                        if !close("iterate", y[i], want, EPS * (a.yp[i].abs() + big[i]), 64.0) {
                            o.add(P, "iterate", format!("{desc}: residual at y[{i}]={:e}, prediction plus corrections is {want:e}", y[i]));
                            return;
                        }
                        if let Some(cj) = cj {
                            let want = a.ypp[i] + cj * cor[i];
                            let tol = 64.0 * EPS * (a.ypp[i].abs() + (cj * big[i]).abs()) + rel * (cj * cor[i]).abs();
                            if !near(yp[i], want, tol) {
                                o.add(P, "derivative", format!("{desc}: residual with y'[{i}]={:e}, predicted derivative plus cj times the correction is {want:e} (order {})", yp[i], a.k));
                                return;
                            }
                        }
                    }
                    res = Some((y, yp, r));
                }
                Ev::Jac { t, cj: c, y, yp, rr, j, dirty } => {
                    if *t != a.t {
                        o.add(P, "jacobian-time", format!("{desc}: Jacobian requested for t={t:e}"));
                        return;
                    }
                    if let Some(cj) = cj {
                        if !near(*c, cj, rel * cj.abs()) {
                            o.add(P, "jacobian-cj", format!("{desc}: Jacobian requested with cj={c:e}, the formula's is {cj:e} (order {})", a.k));
                            return;
                        }
                    } else if a.ks != 0 && !(1..=5).any(|k| a.ks >> k & 1 == 1 && near(*c, sk(k) / hh, rel * c.abs())) {
                        o.add(P, "jacobian-cj", format!("{desc}: Jacobian requested with cj={c:e}, no order's"));
                        return;
                    }
                    match res {
                        Some((ly, lyp, lr)) => {
                            if !biteq(y, ly) || !biteq(yp, lyp) || !biteq(rr, lr) {
                                o.add(P, "jacobian-point", format!("{desc}: Jacobian requested at y={y:?} y'={yp:?} r={rr:?}, the last residual was {lr:?} at {ly:?} {lyp:?}"));
                                return;
                            }
                        }
                        None => {
                            o.add(P, "jacobian-point", format!("{desc}: Jacobian before any residual"));
                            return;
                        }
                    }
                    if *dirty {
                        o.add(P, "jacobian-storage", format!("{desc}: the Jacobian's storage was not cleared"));
                        return;
                    }
                    jac = Some((j, *c));
                }
                Ev::LsSetup { m, ok } => match jac.take() {
                    Some((j, c)) => {
                        if !numeq(m, j) {
                            o.add(P, "factored-matrix", format!("{desc}: factored {m:?}, the Jacobian is {j:?}"));
                            return;
                        }
                        cjfac = if *ok { Some(c) } else { None };
                    }
                    None => {
                        o.add(P, "factored-matrix", format!("{desc}: factorization without a Jacobian"));
                        return;
                    }
                },
                Ev::LsSolve { b, x, ok } => {
                    let Some((_, _, lr)) = res else {
                        o.add(P, "right-hand-side", format!("{desc}: linear solve before any residual"));
                        return;
                    };
                    let neg: Vec<f64> = lr.iter().map(|x| -x).collect();
                    if !numeq(b, &neg) {
                        o.add(P, "right-hand-side", format!("{desc}: linear solve for {b:?}, the residual is {lr:?}"));
                        return;
                    }
                    let Some(cf) = cjfac else {
                        o.add(P, "no-factors", format!("{desc}: linear solve without factors of a successful setup"));
                        return;
                    };
                    if !ok {
                        continue;
                    }
                    if let Some(cj) = cj {
                        let q = cj / cf;
                        if !(q > 0.6 - rel && q < 1.0 / 0.6 + rel) {
                            o.add(P, "stale-factors", format!("{desc}: cj={cj:e}, factors in use were made for {cf:e}"));
                            return;
                        }
                        let f = 2.0 / (1.0 + q);
                        for i in 0..n {
                            cor[i] += f * x[i];
                            big[i] = big[i].max((f * x[i]).abs() * (1.0 + rel / EPS * 0.25)).max(cor[i].abs());
                        }
                    } else {
                        // order unknown: take the iterate as it comes
                        for i in 0..n {
                            big[i] = f64::INFINITY;
                        }
                    }
                }
                _ => {}
            }
        }
        if a.end == End::Ok && !a.injected {
            for i in 0..n {
                if !close("correction", a.ee[i], cor[i], EPS * big[i], 64.0) {
                    o.add(P, "correction", format!("{desc}: correction {:?} returned, the linear solves give {cor:?}", a.ee));
                    return;
                }
            }
        }
    }
}

/// I11: the corrector iteration stops exactly as the documented test says.
pub fn convergence(h: &Hist, o: &mut RunOut) {
    const P: &str = "I11";
    let mut ss = 20.0f64;
    let mut ss_known = true;
    let mut cjfac = f64::NAN;
    let mut prev: Option<(usize, f64, f64)> = None; // order, h and its uncertainty, of the attempt before
    for (ai, a) in h.atts.iter().enumerate() {
        if !a.has_res {
            continue;
        }
        let hh = a.t - h.pts[a.base - 1].t;
        let dh = 8.0 * EPS * a.t.abs();
        let first = a.base == 1;
        let changed = match prev {
            Some((k, ph, pd)) if k > 0 && a.k > 0 => Some(k != a.k || (ph - hh).abs() > pd + dh),
            _ => None,
        };
        if first {
            ss = 20.0;
            ss_known = true;
        }
        match changed {
            Some(true) if !first => {
                ss = 100.0;
                ss_known = true;
            }
            None if !first => ss_known = false,
            _ => {}
        }
        prev = Some((a.k, hh, dh));
        let Some((cj, _)) = cj_of(h, a) else {
            ss_known = false;
            for e in &h.log[a.ev.clone()] {
                if let Ev::Jac { cj, .. } = e {
                    cjfac = *cj;
                }
            }
            continue;
        };
        let mut m = 0;
        let mut old = f64::NAN;
        let evs = &h.log[a.ev.clone()];
        let mut solves = 0;
        for (i, e) in evs.iter().enumerate() {
            match e {
                Ev::Jac { cj: c, .. } => cjfac = *c,
                Ev::LsSetup { ok, .. } => {
                    if *ok {
                        ss = 20.0;
                        ss_known = true;
                    } else {
                        ss_known = false;
                    }
                    m = 0;
                }
                Ev::LsSolve { x, ok, .. } => {
                    solves += 1;
                    if !ok {
                        break;
                    }
                    let f = 2.0 / (1.0 + cj / cjfac);
                    let d: Vec<f64> = x.iter().map(|v| v * f).collect();
                    let nrm = wrms(&d, &a.w);
                    // what comes next tells the verdict
                    let next = &evs[i + 1];
                    let verdict = match next {
                        Ev::AttemptEnd { end: End::Ok, .. } => 1,
                        Ev::AttemptEnd { .. } => 3, // gave up
                        Ev::Res { y, .. } if biteq(y, &a.yp) && matches!(evs.get(i + 2), Some(Ev::Jac { .. })) => 3,
                        Ev::Res { .. } => 2,
                        _ => 0,
                    };
                    let mi = m;
                    let desc = |x: &str| format!("attempt {ai} at t={:e}, iteration {mi}: correction norm {nrm:e}: {x}", a.t);
                    let mut diverged = false;
                    let mut known = ss_known;
                    let mut tie = false;
                    if m == 0 {
                        old = nrm;
                    } else {
                        let rate = (nrm / old).powf(1.0 / m as f64);
                        diverged = rate > 0.9;
                        tie = (rate - 0.9).abs() < 1e-7;
                        if !diverged {
                            ss = rate / (1.0 - rate);
                            ss_known = true;
                            known = true;
                        }
                    }
                    let small = m == 0 && nrm <= 1e-4 * (1e-4 * 0.33);
                    let lim = 0.33;
                    tie |= (ss * nrm - lim).abs() < 1e-7 * lim || (m == 0 && (nrm - 3.3e-9).abs() < 1e-15);
                    tie |= nrm < 1e-290 && nrm > 0.0;
                    let good = !diverged && (small || ss * nrm <= lim);
                    if a.injected {
                        break;
                    }
                    if !tie && nrm.is_finite() && old.is_finite() && (known || diverged || small) {
                        if good && verdict != 1 {
                            o.add(P, "not-accepted", desc("passes the convergence test, yet the iteration goes on"));
                            return;
                        }
                        if !good && verdict == 1 {
                            o.add(P, "accepted", desc(&format!("fails the convergence test ({ss:e} times the norm against 0.33), yet is accepted")));
                            return;
                        }
                        if diverged && verdict == 2 {
                            o.add(P, "diverging", desc("diverges, yet the iteration goes on"));
                            return;
                        }
                        if !good && !diverged && verdict == 3 && m + 1 < 4 {
                            o.add(P, "gave-up", desc("could go on, yet the iteration is given up"));
                            return;
                        }
                    }
                    if !nrm.is_finite() && verdict == 1 {
                        o.add(P, "accepted", desc("not a number, yet accepted"));
                        return;
                    }
                    if !nrm.is_finite() || (m > 0 && diverged) {
                        // what the factor is afterwards is nobody's business
                        ss_known = ss_known && nrm.is_finite();
                    }
                    m += 1;
                    if m > 4 {
                        o.add(P, "too-many-iterations", desc("more than four iterations"));
                        return;
                    }
                }
                _ => {}
            }
        }
        if a.end == End::Ok && !a.injected && solves == 0 {
            o.add(P, "accepted", format!("attempt {ai} at t={:e} accepted without a single iteration", a.t));
            return;
        }
    }
}

/// I08: reported totals are what happened.
pub fn counters(h: &Hist, o: &mut RunOut) {
    const P: &str = "I08";
    let (mut nre, mut nje, mut nge, mut nni) = (0usize, 0usize, 0usize, 0usize);
    let mut ci = 0;
    for (i, e) in h.log.iter().enumerate() {
        match e {
            Ev::Res { .. } => nre += 1,
            Ev::Jac { .. } => nje += 1,
            Ev::Root { .. } => nge += 1,
            Ev::LsSolve { .. } => nni += 1,
            Ev::Ret(r) => {
                while h.calls[ci].ret != Some(i) {
                    ci += 1;
                }
                let c = &h.calls[ci];
                let done = &h.atts[..c.atts.end];
                let netf = done.iter().filter(|a| a.end == End::Ok && !a.accepted).count();
                let ncfn = done.iter().filter(|a| a.end != End::Ok).count();
                let nst = c.p1 - 1;
                for (name, got, want) in [
                    ("steps", r.nst, nst),
                    ("residual evaluations", r.nre, nre),
                    ("Jacobian evaluations", r.nje, nje),
                    ("linear setups", r.nsetups, nje),
                    ("root function evaluations", r.nge, nge),
                    ("error test failures", r.netf, netf),
                    ("convergence failures", r.ncfn, ncfn),
                    ("nonlinear iterations", r.nni, nni),
                ] {
                    if got != want {
                        o.add(P, "count", format!("{name}: {got} reported, {want} happened (at t={:e})", r.tn));
                        return;
                    }
                }
                if c.p1 > 1 {
                    let (a, b) = (h.pts[c.p1 - 2].t, h.pts[c.p1 - 1].t);
                    if !near(r.hu, b - a, 8.0 * EPS * (a.abs() + b.abs())) {
                        o.add(P, "last-step", format!("last step reported as {:e}, from {a:e} to {b:e}", r.hu));
                        return;
                    }
                    let at = &h.atts[h.pts[c.p1 - 1].att];
                    if at.ks != 0 && at.ks >> r.kused & 1 == 0 || (at.k > 0 && at.k != r.kused) {
                        o.add(P, "last-order", format!("order {} reported for the step to {b:e}, which was of order {}", r.kused, at.k));
                        return;
                    }
                }
            }
            _ => {}
        }
    }
    // the size of the first step
    if h.pts.len() > 1 && h.pts[1].att == 0 {
        if let Some(r) = h.calls.last().and_then(|c| h.ret(c)) {
            if !near(r.h0u, h.pts[1].t, 8.0 * EPS * h.pts[1].t.abs()) {
                o.add(P, "first-step", format!("first step reported as {:e}, it went from 0 to {:e}", r.h0u, h.pts[1].t));
                return;
            }
        }
    }
    // and what is announced for the next step is what is tried
    for (ci, c) in h.calls.iter().enumerate() {
        let Some(r) = h.ret(c) else { continue };
        if c.p1 == 1 {
            continue;
        }
        let Some(a) = h.calls[ci + 1..].iter().find(|c| !c.atts.is_empty()).map(|c| &h.atts[c.atts.start]) else { break };
        if !a.has_res || a.base != c.p1 {
            continue;
        }
        let hh = a.t - h.pts[a.base - 1].t;
        if !near(r.hh, hh, 8.0 * EPS * (a.t.abs() + hh.abs())) {
            o.add(P, "next-step", format!("next step announced as {:e}, tried was {hh:e}", r.hh));
            return;
        }
        if a.ks != 0 && a.ks >> r.knext & 1 == 0 || (a.k > 0 && a.k != r.knext) {
            o.add(P, "next-order", format!("next order announced as {}, tried was {}", r.knext, a.k));
            return;
        }
    }
}

/// What the controller may be about to do: the next attempt's order and step, and the counters its later decisions need.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Hyp {
    k: usize,
    lo: f64,
    hi: f64,
    /// step size untouched since the last accepted step
    same: bool,
    phase: u8,
    ns: usize,
    kused: usize,
}

fn add_hyp(v: &mut Vec<Hyp>, x: Hyp) {
    for y in v.iter_mut() {
        if (y.k, y.same, y.phase, y.ns, y.kused) == (x.k, x.same, x.phase, x.ns, x.kused) && x.lo <= y.hi && y.lo <= x.hi {
            y.lo = y.lo.min(x.lo);
            y.hi = y.hi.max(x.hi);
            return;
        }
    }
    v.push(x);
}

/// outcomes of a <= b for uncertain numbers
fn le(a: (f64, f64), b: (f64, f64)) -> &'static [bool] {
    let u = a.1 + b.1;
    if !((a.0 - b.0).abs() > u) {
        &[true, false]
    } else if a.0 <= b.0 {
        &[true]
    } else {
        &[false]
    }
}

/// Error estimates of an attempt taken at order k: (value, uncertainty)
struct Est {
    err_k: (f64, f64),
    err_km1: (f64, f64),
    terr_k: (f64, f64),
    /// orders the estimates may suggest
    knews: Vec<usize>,
    rel: f64,
}
fn sc(x: (f64, f64), f: f64) -> (f64, f64) {
    (x.0 * f, x.1 * f)
}
fn estimates(h: &Hist, a: &Att, k: usize) -> Est {
    let m = a.base - 1;
    let hh = a.t - h.pts[m].t;
    let alpha = |i: usize| if i == 0 { 1.0 } else { hh / (a.t - tback(h, m, i, hh)) };
    let mut sigma = [1.0f64; 7];
    for i in 1..=k {
        sigma[i] = sigma[i - 1] * i as f64 * alpha(i);
    }
    let rel = 1e-10 + 64.0 * EPS * (a.t / hh).abs();
    // the differences the integrator keeps are the successive extrapolations' differences
    let lower = |q: usize| -> (f64, f64) {
        let p = Poly::through(h, m, q);
        let (v, tol) = p.eval(a.t, 0);
        let d: Vec<f64> = (0..h.n).map(|i| a.yp[i] - v[i] + a.ee[i]).collect();
        let u: Vec<f64> = (0..h.n).map(|i| CP * (tol[i] + EPS * a.yp[i].abs())).collect();
        let e = wrms(&d, &a.w);
        (e, e * rel + wrms(&u, &a.w))
    };
    let en = wrms(&a.ee, &a.w);
    let err_k = sc((en, en * rel), sigma[k]);
    let terr_k = sc(err_k, k as f64 + 1.0);
    let mut err_km1 = (0.0, 0.0);
    let knews: Vec<usize> = if k > 1 {
        err_km1 = sc(lower(k - 1), sigma[k - 1]);
        let t1 = sc(err_km1, k as f64);
        let v = if k > 2 {
            let t2 = sc(sc(lower(k - 2), sigma[k - 2]), k as f64 - 1.0);
            le((t1.0.max(t2.0), t1.1.max(t2.1)), terr_k)
        } else {
            le(t1, sc(terr_k, 0.5))
        };
        v.iter().map(|b| if *b { k - 1 } else { k }).collect()
    } else {
        vec![k]
    };
    Est { err_k, err_km1, terr_k, knews, rel }
}

/// I09 (after failures) and I10 (after successes): step size and order follow the documented strategy.
///
/// Rounding can leave a decision open; every continuation is then followed until the history settles it.
pub fn control(h: &Hist, prop: &str, o: &mut RunOut) {
    let mut hyps: Option<Vec<Hyp>> = None;
    let (mut ncf, mut nef) = (0, 0);
    let mut after_failure = false;
    let mut prev_ee: Vec<f64> = vec![];
    for (ai, a) in h.atts.iter().enumerate() {
        if !a.has_res {
            return;
        }
        let m = a.base - 1;
        let c = &h.calls[a.call];
        let hh = a.t - h.pts[m].t;
        let dh = 8.0 * EPS * (a.t.abs() + h.pts[m].t.abs());
        let first_in_call = ai == c.atts.start;
        if first_in_call || h.atts[ai - 1].accepted {
            ncf = 0;
            nef = 0;
        }
        if m == 0 && first_in_call {
            // the tentative first step
            let td = c.tout.abs();
            let yn = wrms(&h.yp0, &a.w);
            let h0 = 0.001 * td;
            let mut v = vec![];
            let mut opt = |x: f64| {
                let x = x.copysign(c.tout);
                let d = 1e-12 * x.abs();
                add_hyp(&mut v, Hyp { k: 1, lo: x - d, hi: x + d, same: false, phase: 0, ns: 0, kused: 0 })
            };
            let r = yn * h0 / 2.0;
            if !(r > 1.0 + 1e-9) {
                opt(h0);
            }
            if !(r < 1.0 - 1e-9) {
                opt(0.5 / yn);
            }
            hyps = Some(v);
            after_failure = false;
        }
        // judged against what the strategy allows
        let mut now: Vec<Hyp> = vec![];
        match &hyps {
            Some(os) => {
                now = os
                    .iter()
                    .filter(|p| (a.ks == 0 || a.ks >> p.k & 1 == 1) && (a.k == 0 || a.k == p.k) && hh >= p.lo - dh && hh <= p.hi + dh)
                    .copied()
                    .collect();
                if now.is_empty() {
                    let pr = if after_failure { "I09" } else { "I10" };
                    if pr == prop {
                        o.add(
                            pr,
                            if after_failure { "retry" } else { "strategy" },
                            format!(
                                "attempt {ai} at t={:e} ({}): h={hh:e}, order {} (candidates {:#b}), the strategy allows {os:?}",
                                a.t,
                                if after_failure { "after a failed attempt" } else if m == 0 { "first step" } else { "after an accepted step" },
                                a.k,
                                a.ks >> 1,
                            ),
                        );
                        return;
                    }
                    // the sibling property's business
                    if prop == "I10" {
                        return;
                    }
                    hyps = None;
                } else {
                    probe("decisions judged");
                }
            }
            None => probe("decisions not judged"),
        }
        if too_short(h, a) {
            probe("judged up to where steps became indistinct");
            return;
        }
        if hyps.is_none() && a.k > 0 {
            // what happens after a failure can still be told from the order alone
            now = vec![Hyp { k: a.k, lo: 0.0, hi: 0.0, same: false, phase: 1, ns: 0, kused: 0 }];
        }
        let lost = hyps.is_none();
        for p in &mut now {
            if !(p.same && p.k == p.kused) {
                p.ns = 0;
            }
            p.ns = (p.ns + 1).min(p.kused + 2);
        }
        let last = ai + 1 == h.atts.len();
        let rejected = a.end == End::Ok && !a.accepted;
        if rejected && last && c.ret.is_none() {
            return;
        }
        let hr = |r: f64, u: f64| -> (f64, f64) {
            let (x, y) = (hh * (r - u), hh * (r + u));
            let d = dh * r.abs();
            (x.min(y) - d, x.max(y) + d)
        };
        let pw = |e: (f64, f64), kn: usize| -> (f64, f64) {
            // range of (2e + 1e-4)^(-1/(kn+1))
            let f = |x: f64| (2.0 * x.max(0.0) + 1e-4).powf(-1.0 / (kn as f64 + 1.0));
            (f(e.0 + e.1) * (1.0 - 1e-10), f(e.0 - e.1) * (1.0 + 1e-10))
        };
        let mut next: Vec<Hyp> = vec![];
        let mut ests: Vec<Option<Est>> = (0..6).map(|_| None).collect();
        if a.end != End::Ok {
            ncf += 1;
        } else if rejected {
            nef += 1;
        }
        for p in &now {
            let k = p.k;
            if a.end != End::Ok {
                // no convergence
                let f = if a.end == End::Fatal { 1.0 } else { 0.25 };
                let (x, y) = (f * hh - f * dh, f * hh + f * dh);
                // an attempt that was undone does not count among the steps of equal length
                add_hyp(&mut next, Hyp { lo: x.min(y), hi: x.max(y), same: a.end == End::Fatal && p.same, phase: 1, ns: p.ns.saturating_sub(1), ..*p });
                continue;
            }
            let e = ests[k].get_or_insert_with(|| estimates(h, a, k));
            let mut put = |kn: usize, r: f64, u: f64, same: bool, phase: u8, kused: usize| {
                let (lo, hi) = hr(r, u);
                add_hyp(&mut next, Hyp { k: kn, lo, hi, same, phase, ns: p.ns, kused })
            };
            if rejected {
                for &knew in &e.knews {
                    if nef == 1 {
                        let er = if knew == k { e.err_k } else { e.err_km1 };
                        let (r0, r1) = pw(er, knew);
                        let (c0, c1) = ((0.9 * r0).clamp(0.25, 0.9), (0.9 * r1).clamp(0.25, 0.9));
                        put(knew, (c0 + c1) / 2.0, (c1 - c0) / 2.0, false, 1, p.kused);
                    } else if nef == 2 {
                        put(knew, 0.25, 0.0, false, 1, p.kused);
                    } else if nef < 10 {
                        put(1, 0.25, 0.0, false, 1, p.kused);
                    } else {
                        put(k, 1.0, 0.0, false, 1, p.kused);
                    }
                }
                continue;
            }
            // accepted
            for &knew in &e.knews {
                let phase = if knew + 1 == k || k == 5 { 1 } else { p.phase };
                if phase == 0 {
                    if m + 1 > 1 {
                        put(k + 1, 2.0, 0.0, false, 0, k);
                    } else {
                        put(k, 1.0, 0.0, true, 0, k);
                    }
                    continue;
                }
                let mut acts: Vec<(usize, (f64, f64))> = vec![];
                if knew + 1 == k {
                    acts.push((k - 1, e.err_km1));
                } else if k == 5 || k + 1 >= p.ns || k == p.kused + 1 {
                    acts.push((k, e.err_k));
                } else {
                    let d: Vec<f64> = (0..h.n).map(|i| a.ee[i] - prev_ee[i]).collect();
                    let u: Vec<f64> = (0..h.n).map(|i| 64.0 * EPS * (a.ee[i].abs() + prev_ee[i].abs())).collect();
                    let x = wrms(&d, &a.w) / (k as f64 + 2.0);
                    let err_kp1 = (x, x * e.rel + wrms(&u, &a.w));
                    let tp = sc(err_kp1, k as f64 + 2.0);
                    if k == 1 {
                        for b in le(sc(e.terr_k, 0.5), tp) {
                            acts.push(if *b { (k, e.err_k) } else { (k + 1, err_kp1) });
                        }
                    } else {
                        let t1 = sc(e.err_km1, k as f64);
                        let mn = (e.terr_k.0.min(tp.0), e.terr_k.1.max(tp.1));
                        for b in le(t1, mn) {
                            if *b {
                                acts.push((k - 1, e.err_km1));
                            } else {
                                for b in le(e.terr_k, tp) {
                                    acts.push(if *b { (k, e.err_k) } else { (k + 1, err_kp1) });
                                }
                            }
                        }
                    }
                }
                for (kn, er) in acts {
                    let (r0, r1) = pw(er, kn);
                    if r1 >= 2.0 {
                        put(kn, 2.0, 0.0, false, 1, k);
                    }
                    if r0 <= 1.0 {
                        let (c0, c1) = (r0.clamp(0.5, 0.9), r1.clamp(0.5, 0.9));
                        put(kn, (c0 + c1) / 2.0, (c1 - c0) / 2.0, false, 1, k);
                    }
                    if r1 > 1.0 && r0 < 2.0 {
                        put(kn, 1.0, 0.0, true, 1, k);
                    }
                }
            }
        }
        after_failure = !a.accepted;
        if a.accepted {
            prev_ee = a.ee.clone();
        }
        let bad = next.is_empty() || next.len() > 64 || next.iter().any(|p| !p.lo.is_finite() || !p.hi.is_finite()) || (lost && a.accepted);
        if bad && !lost {
            probe("step-size model lost track");
        }
        if bad && prop == "I10" {
            return;
        }
        hyps = if bad { None } else { Some(next) };
        // when to stop trying
        if prop == "I09" && !a.accepted {
            let ends = ai + 1 == c.atts.end;
            let must = a.end == End::Fatal || ncf >= 10 || nef >= 10;
            let what = format!("attempt {ai} at t={:e} ({:?}; {ncf} convergence and {nef} error test failures in this step)", a.t, a.end);
            if must && !ends {
                o.add("I09", "not-stopped", format!("{what}: another attempt follows"));
                return;
            }
            if !must && ends && c.ret.is_some() {
                o.add("I09", "gave-up", format!("{what}: the call ends with {:?}", h.ret(c).map(|r| (r.st, r.msg.clone()))));
                return;
            }
            if must && ends {
                if let Some(r) = h.ret(c) {
                    if r.st != Status::Err {
                        o.add("I09", "not-reported", format!("{what}: the call returns {:?}", r.st));
                        return;
                    }
                    if a.end == End::Fatal && r.msg != FATAL_MSG {
                        o.add("I09", "error-replaced", format!("{what}: the call returns '{}'", r.msg));
                        return;
                    }
                }
            }
            probe("failed attempts judged");
        }
    }
}
