//! Plans for the integrator: drawing, running and judging, and simplifying them.

use crate::common::*;
use crate::exec::{self, YieldFn};
use crate::ihist::{indistinct, parse};
use crate::iorc;
use crate::isim::*;
use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct IPlan {
    pub sessions: Vec<ISession>,
}

fn pow10(r: &mut Rng, lo: f64, hi: f64) -> f64 {
    10f64.powf(lo + (hi - lo) * r.f())
}
fn between(r: &mut Rng, lo: f64, hi: f64) -> f64 {
    lo + (hi - lo) * r.f()
}

/// numbers of components beyond 6 that the adapters provide for
const WIDE: [usize; 4] = [8, 10, 13, 18];

/// Takes component `k` out, and the ones after it up to the next size there is.
fn drop_comp(s: &mut ISession, k: usize) {
    loop {
        let Model::Mixed { comps, mix } = &mut s.model else { return };
        let n = comps.len();
        if n == 1 {
            return;
        }
        let k = k % n;
        comps.remove(k);
        for c in comps.iter_mut() {
            c.link = match c.link {
                Some((j, _)) if j == k => None,
                Some((j, x)) if j > k => Some((j - 1, x)),
                l => l,
            };
        }
        let m = n - 1;
        *mix = (0..m * m).map(|q| if q / m == q % m { 1.0 } else { 0.0 }).collect();
        if s.atol.len() == n {
            s.atol.remove(k);
        }
        if let Some((a, b)) = &mut s.misfit {
            a.remove(k);
            b.remove(k);
        }
        for g in &mut s.roots {
            if let G::Comp { i, .. } = g {
                *i %= m;
            }
        }
        if m <= 6 || WIDE.contains(&m) {
            return;
        }
    }
}

/// (model, length of the interesting time span)
fn gen_model(prop: &str, r: &mut Rng, dir: f64) -> (Model, f64) {
    let pick = r.us(20);
    if pick == 0 && dir > 0.0 && prop != "I03" {
        return (Model::Roberts, pow10(r, -1.0, 7.0));
    }
    if pick <= 2 {
        let y0 = pow10(r, -2.0, 2.0) * dir;
        // decays in the direction of integration
        return (Model::Decay { y0 }, pow10(r, -1.0, 1.5) / y0.abs());
    }
    if pick <= 4 {
        let k = pow10(r, -2.0, 3.0);
        return (Model::Logistic { r: k * dir, y0: between(r, 0.01, 1.6) }, between(r, 1.0, 12.0) / k);
    }
    let tt = pow10(r, -5.0, 3.0);
    let n = match r.us(24) {
        0 => *r.pick(&WIDE),
        _ => *r.pick(&[1usize, 1, 2, 2, 3, 3, 4, 5, 6]),
    };
    let scale = pow10(r, -3.0, 3.0);
    let mut comps: Vec<Comp> = vec![];
    for i in 0..n {
        let alg = i > 0 && r.us(4) == 0;
        let nl = !alg && r.us(3) == 0;
        let lam = match r.us(8) {
            0 => 0.0,
            1 => -pow10(r, 2.0, 5.0),
            _ => -pow10(r, -1.0, 2.0),
        } * dir
            / tt;
        let sc = scale * pow10(r, -1.0, 1.0);
        let b = if r.us(3) > 0 { sc * between(r, 0.1, 1.5) } else { 0.0 };
        let c = if r.us(4) == 0 { sc * between(r, -1.0, 1.0) } else { 0.0 };
        // off the manifold only where it is attracted at a pace the first step can follow
        let off = if !alg && lam != 0.0 && lam.abs() * tt < 120.0 && r.us(3) == 0 { sc * between(r, -1.0, 1.0) } else { 0.0 };
        comps.push(Comp {
            alg,
            a: if r.us(4) == 0 { 0.0 } else { sc * between(r, -2.0, 2.0) },
            b,
            om: between(r, 0.3, 9.0) / tt,
            ph: between(r, 0.0, 6.0),
            c,
            ga: between(r, 0.3, 20.0) / tt,
            d: if r.us(3) == 0 { sc * between(r, -1.0, 1.0) / tt } else { 0.0 },
            lam,
            mu: if nl { dir * between(r, 0.0, 5.0) / tt / (sc * sc) } else { 0.0 },
            off,
            link: None,
        });
    }
    for i in 0..n {
        if comps[i].alg && r.us(2) == 0 {
            let j = r.us(n);
            if !comps[j].alg {
                comps[i].link = Some((j, between(r, -1.0, 1.0)));
            }
        }
    }
    if comps.iter().all(|c| c.lam * dir >= 0.0) {
        // the direction of time is read off a damping term
        comps[0].lam = -dir * 0.5 / tt;
        comps[0].alg = false;
    }
    let mut mix = vec![0.0; n * n];
    match r.us(3) {
        0 => (0..n).for_each(|i| mix[i * n + i] = 1.0),
        1 => (0..n).for_each(|i| mix[i * n + (i + 1) % n] = between(r, 0.2, 3.0)),
        _ => {
            for i in 0..n {
                for j in 0..n {
                    mix[i * n + j] = if i == j { 1.0 } else { between(r, -0.6, 0.6) / n as f64 };
                }
            }
            let k = r.us(n);
            for j in 0..n {
                mix.swap(j, k * n + j);
            }
        }
    }
    (Model::Mixed { comps, mix }, tt)
}

fn gen_fault(prop: &str, r: &mut Rng, n: usize, scale: f64) -> IFault {
    let kind = match prop {
        "I03" | "I05" => *r.pick(&[Ik::NlsFail(0), Ik::NlsFail(2), Ik::ResNan, Ik::LsSetup, Ik::ResBump(0.0), Ik::JacZero, Ik::NlsFail(3)]),
        "I12" => *r.pick(&[Ik::EwtBad, Ik::EwtBad, Ik::EwtBad, Ik::EwtHuge, Ik::EwtHuge, Ik::EwtHuge, Ik::NlsFail(0), Ik::NlsFatal, Ik::ResBump(0.0), Ik::RootNan, Ik::LsSetup]),
        "I01" | "I13" => *r.pick(&[
            Ik::NlsFail(0),
            Ik::NlsFail(1),
            Ik::NlsFail(2),
            Ik::NlsFail(3),
            Ik::NlsFatal,
            Ik::ResNan,
            Ik::ResInf,
            Ik::ResBump(0.0),
            Ik::JacZero,
            Ik::JacNan,
            Ik::JacScale(0.0),
            Ik::LsSetup,
            Ik::LsSolve,
            Ik::EwtBad,
            Ik::EwtHuge,
            Ik::RootNan,
        ]),
        "I04" => *r.pick(&[Ik::NlsFail(0), Ik::NlsFail(1), Ik::NlsFail(2), Ik::ResNan, Ik::JacZero, Ik::JacNan, Ik::LsSetup, Ik::LsSolve, Ik::ResBump(0.0)]),
        "I06" | "I11" => *r.pick(&[
            Ik::NlsFail(0),
            Ik::NlsFail(1),
            Ik::ResNan,
            Ik::ResBump(0.0),
            Ik::JacZero,
            Ik::JacNan,
            Ik::JacScale(0.0),
            Ik::LsSetup,
            Ik::LsSolve,
            Ik::JacScale(0.0),
            Ik::NlsFatal,
        ]),
        _ => *r.pick(&[
            Ik::NlsFail(0),
            Ik::NlsFail(1),
            Ik::NlsFail(2),
            Ik::NlsFail(3),
            Ik::NlsFatal,
            Ik::ResNan,
            Ik::ResInf,
            Ik::ResBump(0.0),
            Ik::ResBump(0.0),
            Ik::JacZero,
            Ik::JacNan,
            Ik::JacScale(0.0),
            Ik::LsSetup,
            Ik::LsSolve,
        ]),
    };
    let kind = match kind {
        Ik::ResBump(_) => Ik::ResBump(scale * pow10(r, -4.0, 2.0) * if r.us(2) == 0 { -1.0 } else { 1.0 }),
        Ik::JacScale(_) => Ik::JacScale(match r.us(3) {
            0 => pow10(r, -1.0, 1.0),
            1 => between(r, 0.5, 1.9),
            _ => -1.0,
        }),
        k => k,
    };
    let at = match r.us(5) {
        0 => r.us(3),
        1 | 2 => r.us(15),
        _ => r.us(60),
    } as u64;
    let len = match r.us(8) {
        0 => 10 + r.us(3),
        1 | 2 => 2 + r.us(3),
        _ => 1,
    } as u64;
    IFault { kind, at, len, comp: r.us(n * n), nth: if r.us(2) == 0 { 255 } else { r.us(3) as u64 } }
}

fn gen_root(prop: &str, r: &mut Rng, n: usize, dir: f64, tt: f64, m: &Model) -> G {
    let at = dir * tt * between(r, 0.02, 1.1);
    let s = pow10(r, -3.0, 3.0) * if r.us(2) == 0 { -1.0 } else { 1.0 };
    match r.us(if prop == "I01" { 9 } else { 8 }) {
        0 | 1 => G::Time { c: at, s },
        2 => G::TimeZero { c: at, s },
        3 | 4 => {
            let i = r.us(n);
            let y = m.exact(at).unwrap_or_else(|| m.initial().0);
            G::Comp { i, c: y[i], s }
        }
        5 => G::Sin { om: between(r, 1.0, 40.0) / tt, ph: between(r, 0.0, 6.0) },
        6 => G::Jump { c: at, lo: -s, hi: s * between(r, 0.1, 2.0) },
        7 => match r.us(3) {
            0 => G::Pole { c: at },
            _ => G::Flat { c: at, p: *r.pick(&[1, 3, 5]) },
        },
        _ => G::Plateau { c: at, w: tt * pow10(r, -6.0, -1.0) },
    }
}

/// An oscillation followed for more than 2^16 steps, in calls that end at the step limit or an output time.
fn long_session(r: &mut Rng) -> ISession {
    let c = Comp {
        alg: false,
        a: 0.0,
        b: between(r, 0.5, 2.0),
        om: 1.0,
        ph: between(r, 0.0, 6.0),
        c: 0.0,
        ga: 1.0,
        d: 0.0,
        lam: -between(r, 0.1, 2.0),
        mu: 0.0,
        off: 0.0,
        link: None,
    };
    let model = Model::Mixed { comps: vec![c], mix: vec![1.0] };
    let far = 2.5e4;
    let roots = vec![G::Time { c: 2.0 * far, s: 1.0 }; r.us(2)];
    let mut faults: Vec<IFault> = (0..r.us(4)).map(|_| gen_fault("I08", r, 1, 1.0)).filter(|f| f.kind != Ik::RootNan).collect();
    faults.iter_mut().for_each(|f| f.at = r.us(40_000) as u64);
    let out = |t: f64| Op::Solve { normal: true, tout: t, tries: 400 };
    ISession { model, rtol: 1e-6, atol: vec![1e-6], roots, faults, ops: vec![out(r.f()), out(far)], budget: 200_000, start: 0, lat: vec![1], misfit: None }
}

/// The same, with calls of all kinds around those that end at the step limit.
fn busy_session(r: &mut Rng) -> ISession {
    let mut s = long_session(r);
    let n = s.faults.len();
    s.faults.truncate(r.us(n + 1));
    s.faults.iter_mut().for_each(|f| f.at = r.us(1500) as u64);
    s.roots = (0..r.us(3)).map(|_| G::Time { c: between(r, 1.0, 300.0), s: 1.0 }).collect();
    s.rtol = pow10(r, -7.5, -5.5);
    s.atol = vec![s.rtol];
    s.budget = 4000;
    s.ops.clear();
    let mut t = 0.0;
    for i in 0..3 + r.us(5) {
        t += if r.us(2) == 0 { between(r, 100.0, 1000.0) } else { between(r, 0.01, 40.0) };
        s.ops.push(Op::Solve { normal: i == 0 || r.us(2) == 0, tout: t, tries: r.us(2) as u32 });
        if r.us(2) == 0 {
            s.ops.extend(vec![Op::Solve { normal: false, tout: t, tries: 0 }; 1 + r.us(3)]);
        }
        if r.us(3) == 0 {
            s.ops.push(Op::Query { frac: r.f() });
        }
    }
    s
}

pub fn gen_session(prop: &str, r: &mut Rng) -> ISession {
    if !matches!(prop, "I07" | "I12") && r.us(150) == 0 {
        return busy_session(r);
    }
    if matches!(prop, "I01" | "I08") && r.us(10_000) == 0 {
        return long_session(r);
    }
    let dir = if r.us(4) == 0 { -1.0 } else { 1.0 };
    let (model, tt) = gen_model(prop, r, dir);
    let n = match &model {
        Model::Mixed { comps, .. } => comps.len(),
        Model::Roberts => 3,
        _ => 1,
    };
    let y0 = model.initial().0;
    let mag = y0.iter().fold(1e-3f64, |a, b| a.max(b.abs()));
    let (rtol, atol) = if model == Model::Roberts {
        (pow10(r, -6.0, -3.0), vec![1e-8, 1e-14, 1e-6])
    } else {
        let rt = pow10(r, -7.0, -1.5);
        let k = if r.us(3) == 0 { n } else { 1 };
        (rt, (0..k).map(|_| mag * rt * pow10(r, -2.0, 0.5)).collect())
    };
    let nroots = match prop {
        "I03" if r.us(16) == 0 => 4 + r.us(6),
        "I03" => 1 + r.us(3),
        "I01" | "I05" | "I08" | "I07" | "I13" => {
            if r.us(2) == 0 {
                r.us(3)
            } else {
                0
            }
        }
        _ => (r.us(6) == 0) as usize,
    };
    let roots: Vec<G> = (0..nroots).map(|_| gen_root(prop, r, n, dir, tt, &model)).collect();
    let mut faults = vec![];
    let nf = match r.us(6) {
        0 => 0,
        1 | 2 => 1,
        3 | 4 => 2,
        _ => 3 + r.us(3),
    };
    for _ in 0..nf {
        let f = gen_fault(prop, r, n, mag / tt);
        if f.kind == Ik::RootNan && roots.is_empty() {
            continue;
        }
        faults.push(f);
    }
    let mut ops = vec![];
    let mut t = 0.0f64;
    let nops = 1 + r.us(if prop == "I07" { 4 } else { 9 });
    let queries = matches!(prop, "I05" | "I01" | "I02" | "I08" | "I03" | "I13");
    let tries = *r.pick(&[0u32, 1, 2, 5, 12]);
    let first = dir * tt * pow10(r, -4.0, 0.0);
    for i in 0..nops {
        let fwd = if i == 0 { first } else { t + dir * tt * pow10(r, -3.0, 0.0) };
        match r.us(12) {
            0..=6 => {
                t = fwd;
                ops.push(Op::Solve { normal: true, tout: t, tries });
            }
            7 | 8 => {
                if i == 0 {
                    t = fwd;
                }
                for _ in 0..1 + r.us(12) {
                    ops.push(Op::Solve { normal: false, tout: if t == 0.0 { fwd } else { t }, tries });
                }
            }
            9 if i > 0 => ops.push(Op::Solve { normal: true, tout: t, tries }),
            10 if i > 0 && prop != "I03" => {
                // a little back: may or may not still be within the last step
                let b = t * (1.0 - pow10(r, -6.0, -1.0));
                ops.push(Op::Solve { normal: true, tout: b, tries: 0 });
            }
            11 if prop == "I01" && r.us(4) == 0 => ops.push(Op::Solve { normal: true, tout: 0.0, tries: 0 }),
            _ => {
                t = fwd;
                ops.push(Op::Solve { normal: true, tout: t, tries });
            }
        }
        if queries {
            for _ in 0..r.us(if prop == "I05" { 6 } else { 2 }) {
                let frac = match r.us(8) {
                    0 => 0.0,
                    1 => 1.0,
                    2 if prop == "I05" || prop == "I01" => *r.pick(&[-0.5, -0.01, -1e-13, 1.5]),
                    _ => r.f(),
                };
                ops.push(if r.us(2) == 0 { Op::Query { frac } } else { Op::Dky { frac, k: r.us(7) } });
            }
        }
    }
    let budget = match r.us(4) {
        0 => 2500,
        1 => 900,
        _ => 350,
    };
    let misfit = if r.us(12) == 0 { Some(gen_misfit(r, &model, mag, tt)) } else { None };
    let mut lat = vec![];
    for _ in 0..3 + r.us(5) {
        lat.push(1 + r.us(90) as u32);
    }
    let mut s = ISession { model, rtol, atol, roots, faults, ops, budget, start: r.us(200) as u64, lat, misfit };
    if prop == "I12" {
        hard_tolerances(r, &mut s);
    }
    if matches!(prop, "I01" | "I03" | "I05" | "I08" | "I13") && r.us(3) == 0 {
        aim(prop, r, &mut s, dir);
    }
    s
}

/// Initial slopes that do not fit the equations, now and then algebraic values that do not either.
fn gen_misfit(r: &mut Rng, m: &Model, mag: f64, tt: f64) -> (Vec<f64>, Vec<f64>) {
    let (y, yp) = m.initial();
    let n = y.len();
    let (mut a, mut b) = (vec![0.0; n], vec![0.0; n]);
    let all = r.us(3) == 0;
    let size = mag * pow10(r, -4.0, 1.5);
    for i in 0..n {
        if all {
            b[i] = -yp[i];
        } else if r.us(2) == 0 {
            b[i] = size * between(r, -1.0, 1.0) / tt;
        }
        if let Model::Mixed { comps, .. } = m {
            if comps[i].alg && r.us(3) == 0 {
                a[i] = size * between(r, -1.0, 1.0);
            }
        }
    }
    (a, b)
}

/// Tolerances at the edge of what there is: zero ones next to components that are zero or pass through it, and relative ones around epsilon.
fn hard_tolerances(r: &mut Rng, s: &mut ISession) {
    let n = s.n();
    match r.us(6) {
        0 | 1 => {
            s.rtol = f64::EPSILON * pow10(r, -2.0, 2.0);
            s.atol = vec![0.0];
        }
        2 | 3 => {
            if s.atol.len() == 1 {
                s.atol = vec![s.atol[0]; n];
            }
            let k = r.us(n);
            s.atol[k] = 0.0;
            if r.us(2) == 0 {
                s.rtol = 0.0;
            }
            if let Model::Mixed { comps, .. } = &mut s.model {
                if r.us(2) == 0 {
                    let c = &mut comps[k];
                    (c.a, c.b, c.c, c.d, c.off) = (0.0, 0.0, 0.0, 0.0, 0.0);
                }
            }
        }
        _ => {}
    }
}

/// Ends of the first steps of a session; they do not depend on its output times or root functions.
fn scout(s: &ISession, first: f64) -> Vec<f64> {
    let mut q = s.clone();
    q.roots.clear();
    q.faults.retain(|f| f.kind != Ik::RootNan);
    q.ops = vec![Op::Solve { normal: false, tout: first, tries: 3 }; 25];
    q.budget = 350;
    let rec = uncounted(|| run_session(&q, Habit::AsPlanned, None));
    let mut v = vec![0.0];
    for e in &rec.log {
        if let Ev::Ret(r) = e {
            if r.st == Status::Success && r.tn != v[v.len() - 1] {
                v.push(r.tn);
            }
        }
    }
    v
}

/// Places output times and root functions at, next to and between the ends of the session's own steps.
fn aim(prop: &str, r: &mut Rng, s: &mut ISession, dir: f64) {
    let Some(first) = s.ops.iter().find_map(|o| if let Op::Solve { tout, .. } = o { Some(*tout) } else { None }) else { return };
    let ends = scout(s, first);
    if ends.len() < 4 {
        return;
    }
    let near = |r: &mut Rng, t: f64| match r.us(5) {
        0..=2 => t,
        3 => f64::from_bits(t.to_bits() + 1),
        _ => f64::from_bits(t.to_bits() - 1),
    };
    let place = |r: &mut Rng, i: usize, frac: f64| match r.us(4) {
        0 => near(r, ends[i]),
        _ => ends[i - 1] + frac * (ends[i] - ends[i - 1]),
    };
    if r.us(3) > 0 {
        let mut ts = vec![];
        for _ in 0..2 + r.us(8) {
            let i = 1 + r.us(ends.len() - 1);
            let f = r.f();
            ts.push(place(r, i, f));
        }
        ts.sort_by(|a, b| (a * dir).partial_cmp(&(b * dir)).unwrap());
        let tries = *r.pick(&[0u32, 2, 5]);
        s.ops = vec![Op::Solve { normal: false, tout: first, tries: 3 }];
        for t in ts {
            match r.us(6) {
                0 => s.ops.push(Op::Solve { normal: false, tout: t, tries }),
                1 => s.ops.extend([Op::Solve { normal: true, tout: t, tries: 0 }, Op::Solve { normal: true, tout: t, tries }]),
                _ => s.ops.push(Op::Solve { normal: true, tout: t, tries }),
            }
            if prop == "I05" && r.us(2) == 0 {
                s.ops.push(Op::Query { frac: r.f() });
            }
        }
    }
    if !s.roots.is_empty() || prop == "I03" {
        let n = 1 + r.us(3);
        let i = 1 + r.us(ends.len() - 1);
        s.roots.truncate(r.us(2));
        for _ in 0..n {
            let i = (i + r.us(2)).min(ends.len() - 1);
            let h = ends[i] - ends[i - 1];
            let k = pow10(r, -2.0, 2.0) * if r.us(2) == 0 { -1.0 } else { 1.0 };
            let (f, g) = (r.f(), r.f());
            let c = place(r, i, f);
            s.roots.push(match r.us(6) {
                5 => G::TimeZero { c: if r.us(3) > 0 { ends[1] * between(r, 0.08, 1.0) } else { c }, s: k },
                0 => G::Time { c, s: k },
                1 => G::Jump { c, lo: -k, hi: k },
                2 => G::Flat { c, p: 3 },
                _ => {
                    // as wide as the search can just tell apart
                    let ttol = 100.0 * f64::EPSILON * (ends[i].abs() + h.abs());
                    let b = c + dir * g * 1.5 * h.abs();
                    G::Twice { a: c, b, w: if r.us(4) == 0 { 0.0 } else { ttol * between(r, 0.05, 0.45) }, s: k }
                }
            });
        }
    }
}

pub fn gen(prop: &str, r: &mut Rng) -> IPlan {
    let n = match prop {
        "I07" => 1 + r.us(3),
        _ => 1 + (r.us(8) == 0) as usize,
    };
    IPlan { sessions: (0..n).map(|_| gen_session(prop, r)).collect() }
}

fn judge(prop: &str, s: &ISession, rec: &Record, o: &mut RunOut) {
    let mut h = parse(s, &rec.log);
    probe_n("steps accepted", h.pts.len() as u64 - 1);
    probe_n("attempts rejected or failed", h.atts.iter().filter(|a| !a.accepted).count() as u64);
    if h.atts.iter().any(|a| a.k == 5) {
        probe("runs reaching order 5");
    }
    if h.pts.len() > 1 << 16 {
        probe("integrations of more than 65536 steps");
    }
    if let ("I02" | "I03" | "I04" | "I05" | "I06" | "I08" | "I11" | "I12", Some(e)) = (prop, indistinct(&h)) {
        probe("judged up to where steps became indistinct");
        h = parse(s, &rec.log[..e]);
    }
    match prop {
        "I01" => iorc::contract(s, &h, o),
        "I02" => iorc::state(s, &h, o),
        "I03" => iorc::roots(s, &h, o),
        "I04" => {
            iorc::local_error(&h, o);
            iorc::global_error(s, &h, o);
        }
        "I05" => iorc::dense_output(s, &h, o),
        "I06" => iorc::newton_system(s, &h, o),
        "I08" => iorc::counters(&h, o),
        "I09" | "I10" => iorc::control(&h, prop, o),
        "I11" => iorc::convergence(&h, o),
        "I12" => iorc::guard(&h, o),
        _ => {}
    }
}

/// The internal computation, without what depends on when output was asked for.
fn inner(log: &[Ev]) -> Vec<&Ev> {
    log.iter().filter(|e| matches!(e, Ev::Res { .. } | Ev::Jac { .. } | Ev::Attempt { .. } | Ev::AttemptEnd { .. } | Ev::LsSolve { .. })).collect()
}
fn same(a: &Ev, b: &Ev) -> bool {
    use std::slice::from_ref;
    hash_log(from_ref(a)) == hash_log(from_ref(b))
}

/// Equal up to the sign of zero.
fn alike(a: &Ev, b: &Ev) -> bool {
    let z = |v: &[f64], w: &[f64]| v.len() == w.len() && v.iter().zip(w).all(|(a, b)| a == b || (a.is_nan() && b.is_nan()));
    match (a, b) {
        (Ev::Ret(a), Ev::Ret(b)) => {
            a.st == b.st
                && a.kind == b.kind
                && z(&[a.tret, a.tn, a.hu, a.hh, a.tolsf, a.h0u], &[b.tret, b.tn, b.hu, b.hh, b.tolsf, b.h0u])
                && [a.kused, a.knext, a.nst, a.nre, a.nsetups, a.netf, a.nje, a.nni, a.ncfn, a.nge] == [b.kused, b.knext, b.nst, b.nre, b.nsetups, b.netf, b.nje, b.nni, b.ncfn, b.nge]
                && z(&a.y, &b.y)
                && z(&a.yp, &b.yp)
                && z(&a.iroots, &b.iroots)
                && z(&a.times, &b.times)
        }
        (Ev::Call { normal: a, tout: b }, Ev::Call { normal: c, tout: d }) => a == c && z(&[*b], &[*d]),
        (Ev::Ewt { y: a, w: b }, Ev::Ewt { y: c, w: d }) => z(a, c) && z(b, d),
        (Ev::Attempt { w: a }, Ev::Attempt { w: b }) => z(a, b),
        (Ev::AttemptEnd { end: a, ee: b, .. }, Ev::AttemptEnd { end: c, ee: d, .. }) => a == c && z(b, d),
        (Ev::Res { t: a, y: b, yp: c, r: d }, Ev::Res { t: e, y: f, yp: g, r: h }) => a == e && z(b, f) && z(c, g) && z(d, h),
        (Ev::Jac { t: a, cj: b, y: c, yp: d, rr: e, .. }, Ev::Jac { t: f, cj: g, y: h, yp: i, rr: j, .. }) => a == f && b == g && z(c, h) && z(d, i) && z(e, j),
        (Ev::LsSetup { m: a, ok: b }, Ev::LsSetup { m: c, ok: d }) => z(a, c) && b == d,
        (Ev::LsSolve { b: a, x: b, ok: c }, Ev::LsSolve { b: d, x: e, ok: f }) => z(a, d) && z(b, e) && c == f,
        (Ev::Root { t: a, y: b, g: c }, Ev::Root { t: d, y: e, g: f }) => a == d && z(b, e) && z(c, f),
        (Ev::Query { t: a, k: b, ok: c, y: d, yp: e, times: k, .. }, Ev::Query { t: f, k: g, ok: h, y: i, yp: j, times: l, .. }) => a == f && b == g && c == h && z(d, i) && z(e, j) && z(k, l),
        (Ev::Panic { query: a, .. }, Ev::Panic { query: b, .. }) => a == b,
        _ => false,
    }
}

fn independence(s: &ISession, rec: &Record, o: &mut RunOut) {
    const P: &str = "I07";
    let base = inner(&rec.log);
    if rec.log.iter().any(|e| matches!(e, Ev::Panic { .. })) {
        return;
    }
    for habit in [Habit::OneSteps(60), Habit::Curious] {
        let other = uncounted(|| run_session(s, habit, None));
        if other.log.iter().any(|e| matches!(e, Ev::Panic { .. })) {
            probe("comparison run ended by a panic");
            continue;
        }
        let b = inner(&other.log);
        let n = base.len().min(b.len());
        for i in 0..n {
            if !same(base[i], b[i]) {
                let what = if matches!(habit, Habit::Curious) {
                    "with interpolation queries in between"
                } else {
                    "with single steps instead of output times"
                };
                o.add(P, "requests-matter", format!("{what} the integration differs from its {i}-th internal event on: {:?} against {:?}", base[i], b[i]));
                return;
            }
        }
        probe_n("internal events compared", n as u64);
    }
}

/// Factors for one comparison: a power of two, or its negative, for time, each component, the equations and the root functions.
fn draw_units(s: &ISession, k: u64) -> Units {
    let mut r = Rng::new(mix(mix(s.budget, s.lat.iter().fold(s.start, |a, b| mix(a, *b as u64))), k));
    let n = s.n();
    let two = |r: &mut Rng, e: usize| 2f64.powi(r.us(2 * e + 1) as i32 - e as i32);
    let sign = |r: &mut Rng| if r.us(2) == 0 { -1.0 } else { 1.0 };
    let mut u = Units::base(n);
    // one at a time now and then
    let which = r.us(6);
    if which != 1 && which != 2 {
        let far = if r.us(4) == 0 { 100 } else { 40 };
        u.t = two(&mut r, far) * sign(&mut r);
        if which == 0 {
            u.t = -1.0;
        }
    }
    if which > 1 {
        let far = if r.us(4) == 0 { 250 } else { 30 };
        if s.atol.len() == 1 {
            let m = two(&mut r, far);
            u.y.iter_mut().for_each(|x| *x = m * sign(&mut r));
        } else {
            u.y.iter_mut().for_each(|x| *x = two(&mut r, far) * sign(&mut r));
        }
    }
    if which == 1 || which > 2 {
        u.f = two(&mut r, 20) * sign(&mut r);
        u.g = two(&mut r, 20);
    }
    // functions whose products are no numbers any more, while they and their quotients are
    if which > 0 && r.us(3) == 0 {
        u.g = two(&mut r, 700);
    }
    u
}

/// Numbers so small or large that a change of units may push something over the edge of the arithmetic.
fn extreme(e: &Ev) -> bool {
    let x = |v: &[f64]| v.iter().any(|x| *x != 0.0 && x.is_finite() && !(1e-120..1e120).contains(&x.abs()));
    match e {
        Ev::Call { tout, .. } => x(&[*tout]),
        Ev::Ret(r) => x(&[r.tret, r.tn, r.hh, r.hu]) || x(&r.y) || x(&r.yp),
        Ev::Ewt { y, w } => x(y) || x(w),
        Ev::Attempt { w } => x(w),
        Ev::AttemptEnd { ee, .. } => x(ee),
        Ev::Res { y, yp, r, .. } => x(y) || x(yp) || x(r),
        Ev::Jac { y, yp, rr, j, cj, .. } => x(y) || x(yp) || x(rr) || x(j) || x(&[*cj]),
        Ev::LsSetup { m, .. } => x(m),
        Ev::LsSolve { b, x: y, .. } => x(b) || x(y),
        // the scale of the functions may be extreme, times a length of time it has to stay a number
        Ev::Root { g, y, .. } => x(y) || g.iter().any(|x| *x != 0.0 && x.is_finite() && !(1e-60..1e60).contains(&x.abs())),
        Ev::Query { y, yp, .. } => x(y) || x(yp),
        Ev::Panic { .. } => false,
    }
}

/// I13: the same equations in other units, or run the other way round, give the same integration.
fn units(s: &ISession, rec: &Record, o: &mut RunOut) {
    const P: &str = "I13";
    for k in 0..2 {
        let u = draw_units(s, k);
        let other = uncounted(|| run_units(s, Habit::AsPlanned, None, u.clone()));
        let (a, b) = (&rec.log, &other.log);
        let mut seen = 0;
        for i in 0..a.len().max(b.len()) {
            let (x, y) = (a.get(i), b.get(i));
            if x.is_some_and(extreme) || y.is_some_and(extreme) {
                probe("compared up to extreme numbers");
                break;
            }
            let ok = match (x, y) {
                (Some(x), Some(y)) => alike(x, y),
                _ => false,
            };
            if !ok {
                o.add(P, "units-matter", format!("with time times {:e}, components times {:?}, equations times {:e}, root functions times {:e} event {i} is (in the original units) {y:?}, it was {x:?}", u.t, u.y, u.f, u.g));
                return;
            }
            seen += 1;
        }
        probe_n("events compared in other units", seen);
        if u.t < 0.0 {
            probe("compared with time reversed");
        }
    }
}

pub fn run(prop: &str, p: &IPlan) -> RunOut {
    let mut o = RunOut::default();
    let out: Rc<RefCell<Vec<(usize, Record)>>> = Rc::new(RefCell::new(vec![]));
    let mut bodies: Vec<exec::Body> = vec![];
    let mut start = vec![];
    for (i, s) in p.sessions.iter().enumerate() {
        start.push(s.start);
        let (s, out) = (s.clone(), out.clone());
        bodies.push(Box::new(move |y: YieldFn| {
            let rec = run_session(&s, Habit::AsPlanned, Some(y));
            out.borrow_mut().push((i, rec));
        }));
    }
    let many = bodies.len() > 1;
    let sched = exec::interleave(bodies, &start);
    o.sched = if many { sched.hash } else { 0 };
    o.simtime = sched.simtime;
    let mut recs = out.borrow_mut().split_off(0);
    recs.sort_by_key(|r| r.0);
    let mut h = H::new();
    for (i, rec) in &recs {
        let s = &p.sessions[*i];
        let hl = hash_log(&rec.log);
        h.u(hl);
        o.callbacks += rec.nres;
        o.solves += rec.log.iter().filter(|e| matches!(e, Ev::Call { .. })).count() as u64;
        judge(prop, s, rec, &mut o);
        if prop == "I07" {
            if many {
                let lone = uncounted(|| run_session(s, Habit::AsPlanned, None));
                if hash_log(&lone.log) != hl {
                    o.add("I07", "interference", format!("session {i} behaves differently next to {} others than alone", p.sessions.len() - 1));
                }
            }
            independence(s, rec, &mut o);
        }
        if prop == "I13" {
            units(s, rec, &mut o);
        }
    }
    h.u(o.sched);
    o.hash = h.0;
    o
}

pub fn simpler(p: &IPlan) -> Vec<IPlan> {
    let mut v = vec![];
    if p.sessions.len() > 1 {
        for i in 0..p.sessions.len() {
            let mut q = p.clone();
            q.sessions.remove(i);
            v.push(q);
        }
    }
    for i in 0..p.sessions.len() {
        let s = &p.sessions[i];
        let mut edit = |f: &dyn Fn(&mut ISession)| {
            let mut q = p.clone();
            f(&mut q.sessions[i]);
            if q != *p {
                v.push(q);
            }
        };
        for (n, sel) in [(s.faults.len(), 0), (s.ops.len(), 1), (s.roots.len(), 2)] {
            let mut c = n;
            while c >= 1 {
                let mut a = 0;
                while a < n {
                    edit(&|s| match sel {
                        0 => drop(s.faults.drain(a..(a + c).min(n))),
                        1 => {
                            s.ops.drain(a..(a + c).min(n));
                            if s.ops.is_empty() {
                                s.ops.push(Op::Solve { normal: false, tout: 1.0, tries: 0 });
                            }
                        }
                        _ => drop(s.roots.drain(a..(a + c).min(n))),
                    });
                    a += c;
                }
                c /= 2;
            }
        }
        if let Model::Mixed { comps, .. } = &s.model {
            let n = comps.len();
            for k in 0..n {
                if n > 1 {
                    edit(&|s| drop_comp(s, k));
                }
                for w in 0..8 {
                    edit(&|s| {
                        if let Model::Mixed { comps, .. } = &mut s.model {
                            let c = &mut comps[k];
                            match w {
                                0 => c.mu = 0.0,
                                1 => c.off = 0.0,
                                2 => c.c = 0.0,
                                3 => c.d = 0.0,
                                4 => c.b = 0.0,
                                5 => c.link = None,
                                6 => c.a = 1.0,
                                _ => c.ph = 0.0,
                            }
                        }
                    });
                }
            }
            edit(&|s| {
                if let Model::Mixed { comps, mix } = &mut s.model {
                    let m = comps.len();
                    *mix = (0..m * m).map(|q| if q / m == q % m { 1.0 } else { 0.0 }).collect();
                }
            });
        }
        edit(&|s| s.misfit = None);
        edit(&|s| s.start = 0);
        edit(&|s| s.lat = vec![1]);
        edit(&|s| s.atol.truncate(1));
        if s.budget > 40 {
            edit(&|s| s.budget /= 2);
        }
        for k in 0..s.faults.len() {
            edit(&|s| s.faults[k].at /= 2);
            if s.faults[k].at > 0 {
                edit(&|s| s.faults[k].at -= 1);
            }
            if s.faults[k].len > 1 {
                edit(&|s| s.faults[k].len -= 1);
            }
            edit(&|s| s.faults[k].comp = 0);
        }
        for k in 0..s.ops.len() {
            edit(&|s| {
                if let Op::Solve { tries, .. } = &mut s.ops[k] {
                    *tries = 0;
                }
            });
            edit(&|s| {
                if let Op::Solve { normal, .. } = &mut s.ops[k] {
                    *normal = false;
                }
            });
        }
    }
    v
}
