//! Reference model of one nonlinear solve, checked against a recorded history. It is written from
//! the property statements (and SUNDIALS' documented Newton iteration), not from the code.

use crate::common::*;
use crate::nsim::*;

/// What is known about a solver between solves.
#[derive(Clone, Copy, Debug)]
pub struct St {
    /// is the Jacobian current; None when a panic or an ambiguous failure left it open
    pub jcur: Option<bool>,
    pub counts: (u64, u64),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Next {
    Head,
    Setup,
    Solve,
    Test,
    Again,
    RetryHead,
    Done,
    FailRec,
    FailFatal(Resp),
    RetryOrFail,
}

pub struct Out<'a> {
    pub o: &'a mut RunOut,
    pub tag: String,
}
impl Out<'_> {
    fn v(&mut self, props: &[&'static str], class: &str, d: String) {
        for p in props {
            self.o.add(p, class, format!("{}: {d}", self.tag));
        }
    }
}

fn end_resp(e: End) -> Option<Resp> {
    match e {
        End::Illegal => Some(Resp::Illegal),
        End::Lin(c) => Some(Resp::Lin(c)),
        _ => None,
    }
}

fn add(a: &[f64], b: &[f64], f32: bool) -> Vec<f64> {
    a.iter()
        .zip(b)
        .map(|(x, y)| if f32 { (*x as f32 + *y as f32) as f64 } else { x + y })
        .collect()
}
fn neg(a: &[f64]) -> Vec<f64> {
    a.iter().map(|x| -x).collect()
}

/// Checks one solve; updates `st` to what is known afterwards.
pub fn check(r: &Rec, maxiters: usize, f32: bool, st: &mut St, o: &mut Out) {
    let lim = maxiters.max(1) as u64;
    if r.end == End::LibPanic {
        for p in ["N01", "N02", "N03", "N04", "N05", "N06", "N07", "N08"] {
            o.v(&[p], "panic", format!("the solver panicked: {}", r.msg));
        }
        st.jcur = None;
        st.counts = r.after;
        return;
    }
    if r.end == End::Budget {
        o.v(
            &["N01", "N03"],
            "unbounded",
            format!("more than {} callbacks with iteration limit {maxiters}: the solve goes on", r.budget),
        );
        // what follows is still checked up to the cut
    }
    // N01's bound holds whatever the callbacks answer
    let nsolve = r.evs.iter().filter(|e| e.cb == Cb::Solve).count() as u64;
    let nsetup = r.evs.iter().filter(|e| e.cb == Cb::Setup).count();
    if nsolve > 2 * lim {
        o.v(&["N01"], "too many linear solves", format!("{nsolve} linear solves, limit {lim} per attempt"));
    }
    if nsetup > 2 {
        o.v(&["N01", "N03"], "too many setups", format!("{nsetup} setups in one solve"));
    }
    if st.counts != r.before {
        o.v(
            &["N05"],
            "statistics between solves",
            format!("statistics read {:?} before the solve, expected {:?}", r.before, st.counts),
        );
    }
    if r.evs.iter().any(|e| e.resp == Resp::Cont) {
        // how `Continue` from a callback is treated is not specified beyond boundedness
        st.jcur = None;
        st.counts = r.after;
        return;
    }

    let mut next = Next::Head;
    let mut retry = false;
    let mut fails = 0u64;
    let mut res: Vec<f64> = vec![];
    let mut cur: Vec<f64> = r.y0.clone();
    let mut del: Vec<f64> = vec![];
    let mut k = 0u64;
    let mut limit_hit = false;
    let mut kind_ok = true;
    let mut jcur = st.jcur;
    let mut last_fail_cb: Option<Cb> = None;

    let n = r.evs.len();
    let mut i = 0;
    loop {
        let ev = if i < n { Some(&r.evs[i]) } else { None };
        // after an injected panic (or the budget cut) nothing more is expected
        if ev.is_none() && (r.end == End::Injected || r.end == End::Budget) {
            break;
        }
        if next == Next::RetryOrFail {
            // Jacobian status unknown: both continuations are legitimate
            if ev.is_some() {
                next = Next::RetryHead;
                jcur = Some(false);
            } else {
                next = Next::FailRec;
                jcur = Some(true);
            }
            if next == Next::RetryHead {
                retry = true;
            }
        }
        let want = match next {
            Next::Head | Next::RetryHead | Next::Again => Some(Cb::Sys),
            Next::Setup => Some(Cb::Setup),
            Next::Solve => Some(Cb::Solve),
            Next::Test => Some(Cb::Ctest),
            _ => None,
        };
        let got = ev.map(|e| e.cb);
        // ---- does the next observation have the expected kind?
        let at = || format!("after {i} callbacks, expected {next:?}, got {:?}", got.map(|c| format!("{c:?}")).unwrap_or(format!("end {:?}", r.end)));
        match (next, got) {
            (Next::Done, None) => {
                if r.end == End::Ok {
                    if !numeq(&r.yout, &cur) {
                        o.v(&["N02"], "wrong iterate returned", format!("returned {:?}, accepted {:?}", r.yout, cur));
                    }
                } else {
                    o.v(&["N02"], "accepted iterate not returned as success", at());
                }
                break;
            }
            (Next::Done, Some(_)) => {
                o.v(&["N02"], "goes on after acceptance", at());
                kind_ok = false;
                break;
            }
            (Next::FailRec, None) => {
                match r.end {
                    End::Recover => {}
                    End::Ok => o.v(&["N02", "N03"], "failure reported as success", at()),
                    _ => o.v(&["N01", "N03"], "recoverable failure returned as another", at()),
                }
                break;
            }
            (Next::FailRec, Some(c)) => {
                if limit_hit && (c == Cb::Solve || (c == Cb::Sys && numeq(&r.evs[i].y, &cur) && !numeq(&cur, &r.y0))) {
                    o.v(&["N01"], "iterates past the limit", at());
                } else {
                    o.v(&["N03"], "goes on after an incurable failure", at());
                    if c != Cb::Sys || retry {
                        o.v(&["N01"], "goes on after an incurable failure", at());
                    }
                }
                kind_ok = false;
                break;
            }
            (Next::FailFatal(e), None) => {
                if end_resp(r.end) != Some(e) {
                    o.v(&["N04"], "unrecoverable error changed", format!("{:?} came back as {:?}", e, r.end));
                    if r.end == End::Ok {
                        o.v(&["N02"], "failure reported as success", at());
                    }
                }
                break;
            }
            (Next::FailFatal(_), Some(_)) => {
                o.v(&["N04"], "goes on after an unrecoverable error", at());
                kind_ok = false;
                break;
            }
            (nx, g) if g != want => {
                kind_ok = false;
                let ended_ok = g.is_none() && r.end == End::Ok;
                let ended_err = g.is_none() && r.end != End::Ok;
                let mut t: Vec<&'static str> = vec![];
                if ended_ok {
                    t.push("N02");
                }
                match nx {
                    Next::Head => {
                        if ended_err {
                            t.push("N01")
                        } else {
                            t.push("N06")
                        }
                    }
                    Next::Setup => {
                        t.push("N03");
                        if ended_err {
                            t.push("N01")
                        }
                    }
                    Next::Solve => {
                        if ended_err {
                            t.push("N01")
                        } else if g == Some(Cb::Setup) {
                            t.push("N03")
                        } else {
                            t.push("N06");
                            if g == Some(Cb::Ctest) {
                                t.push("N02")
                            }
                        }
                    }
                    Next::Test => {
                        t.push("N06");
                        if !t.contains(&"N02") {
                            t.push("N02")
                        }
                        if ended_err {
                            t.push("N01")
                        }
                    }
                    Next::Again => {
                        if ended_err {
                            t.push("N01")
                        } else if g == Some(Cb::Setup) {
                            t.push("N03")
                        } else if !ended_ok {
                            t.push("N06")
                        }
                    }
                    _ => {
                        // RetryHead
                        t.push("N03");
                        if ended_err && r.end != End::Recover {
                            t.push("N01")
                        }
                        if !ended_err && !ended_ok {
                            t.push("N06")
                        }
                    }
                }
                o.v(&t, &format!("{nx:?} missing"), at());
                break;
            }
            _ => {}
        }
        let e = ev.unwrap();
        i += 1;
        // ---- arguments
        let arg = |o: &mut Out, t: &[&'static str], what: &str, a: &[f64], b: &[f64]| {
            if !numeq(a, b) {
                o.v(t, &format!("{what} wrong"), format!("callback {} ({:?}): {what} is {a:?}, expected {b:?}", i - 1, e.cb));
            }
        };
        match next {
            Next::Head => arg(o, &["N06"], "head residual's point", &e.y, &r.y0),
            Next::RetryHead => arg(o, &["N06", "N03"], "retry residual's point", &e.y, &r.y0),
            Next::Again => arg(o, &["N06"], "residual's point", &e.y, &cur),
            Next::Setup => {
                arg(o, &["N06"], "setup's point", &e.y, &r.y0);
                arg(o, &["N06"], "setup's residual", &e.v, &res);
                if e.jbad != retry {
                    o.v(&["N03"], "bad-Jacobian flag", format!("setup flagged jbad={} in {} attempt", e.jbad, if retry { "the retry" } else { "the first" }));
                }
            }
            Next::Solve => {
                arg(o, &["N06"], "linear solve's iterate", &e.y, &cur);
                arg(o, &["N06"], "linear solve's right-hand side", &e.v, &neg(&res));
            }
            Next::Test => {
                let exp = add(&cur, &del, f32);
                arg(o, &["N06", "N02"], "tested iterate", &e.y, &exp);
                arg(o, &["N06"], "tested correction", &e.v, &del);
                arg(o, &["N06"], "weights", &e.w, &r.w);
                let tol = if f32 { r.op.tol as f32 as f64 } else { r.op.tol };
                if canon(e.tol) != canon(tol) {
                    o.v(&["N06"], "tolerance wrong", format!("tolerance {} instead of {tol}", e.tol));
                }
                if e.curiter != k {
                    o.v(&["N05"], "current iteration", format!("iteration number {} in iteration {k}", e.curiter));
                }
                // follow what the solver really has, so that one slip is reported once
                cur = e.y.clone();
            }
            _ => {}
        }
        // ---- what the answer leads to
        let mut recoverable = false;
        match e.resp {
            Resp::Panic => {
                // unwound: nothing more may follow
                if i < n || r.end != End::Injected {
                    o.v(&["N04"], "panic swallowed", at_(i, n, r));
                }
                st.jcur = None;
                st.counts = r.after;
                return;
            }
            f if f.fatal() => next = Next::FailFatal(f),
            Resp::Recover => {
                recoverable = true;
                last_fail_cb = Some(e.cb);
            }
            _ => match next {
                Next::Head | Next::RetryHead => {
                    res = e.out.clone();
                    next = if retry || r.op.lsetup { Next::Setup } else { Next::Solve };
                    cur = r.y0.clone();
                    k = 0;
                }
                Next::Setup => {
                    jcur = Some(e.resp == Resp::Bool(true));
                    next = Next::Solve;
                }
                Next::Solve => {
                    del = e.out.clone();
                    next = Next::Test;
                }
                Next::Test => {
                    if e.resp == Resp::Bool(true) {
                        next = Next::Done;
                        jcur = Some(false);
                    } else {
                        k += 1;
                        if k >= lim {
                            limit_hit = true;
                            recoverable = true;
                            last_fail_cb = None;
                        } else {
                            next = Next::Again;
                        }
                    }
                }
                _ => {
                    res = e.out.clone();
                    next = Next::Solve;
                }
            },
        }
        if let Next::FailFatal(_) = next {
            fails += 1;
            if e.cb == Cb::Setup && jcur != Some(false) {
                jcur = None;
            }
        }
        if recoverable {
            fails += 1;
            if e.cb == Cb::Setup && jcur != Some(false) {
                // a failed setup: whether the previous Jacobian still counts as current is open
                jcur = None;
            }
            if !limit_hit {
                probe(&format!("recoverable failure at {:?}{}", last_fail_cb.unwrap_or(Cb::Ctest), if retry { " in the retry" } else { "" }));
            }
            next = if retry {
                Next::FailRec
            } else {
                match jcur {
                    Some(true) => Next::FailRec,
                    Some(false) => {
                        limit_hit = false;
                        retry = true;
                        Next::RetryHead
                    }
                    None => Next::RetryOrFail,
                }
            };
        }
    }
    if retry {
        probe("retried with a forced setup");
    }
    if limit_hit {
        probe("iteration limit reached");
    }
    st.jcur = if kind_ok && r.end != End::Injected && r.end != End::Budget { jcur } else { None };
    // ---- statistics
    if r.end != End::Injected && r.end != End::Budget {
        let dn = r.after.0.wrapping_sub(r.before.0);
        if dn != nsolve {
            o.v(&["N05"], "iteration count", format!("iteration count grew by {dn} over {nsolve} linear solves"));
        }
        let df = r.after.1.wrapping_sub(r.before.1);
        if kind_ok && df != fails {
            o.v(&["N05"], "failure count", format!("failure count grew by {df} over {fails} failed attempts"));
        }
    }
    st.counts = r.after;
}

fn at_(i: usize, n: usize, r: &Rec) -> String {
    format!("a callback panicked, but {} callbacks followed and the solve ended {:?}", n - i, r.end)
}

/// Solver statistics when no solve has run yet.
pub fn fresh() -> St {
    St { jcur: Some(false), counts: (0, 0) }
}
