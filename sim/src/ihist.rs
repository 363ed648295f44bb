//! What an integration did, reconstructed from the record of everything that crossed the seams:
//! attempts, accepted points, and the polynomials through them.

use crate::isim::*;
use std::ops::Range;

pub const EPS: f64 = f64::EPSILON;

pub struct Att {
    pub call: usize,
    /// event range, from the attempt's start to its end
    pub ev: Range<usize>,
    /// points accepted before it (the last of them is where it starts from)
    pub base: usize,
    pub w: Vec<f64>,
    pub t: f64,
    pub yp: Vec<f64>,
    pub ypp: Vec<f64>,
    pub has_res: bool,
    pub end: End,
    pub ee: Vec<f64>,
    pub injected: bool,
    pub accepted: bool,
    /// orders for which the first residual point is the prediction
    pub ks: u8,
    /// the order, when the record settles it
    pub k: usize,
    scale: Vec<f64>,
}

pub struct Point {
    pub t: f64,
    pub y: Vec<f64>,
    /// attempt it came from
    pub att: usize,
    /// magnitudes that entered its computation, per component
    pub scale: Vec<f64>,
    /// attempts undone before it was reached
    pub undone: usize,
}

pub struct Call {
    pub ev: usize,
    pub ret: Option<usize>,
    pub normal: bool,
    pub tout: f64,
    pub atts: Range<usize>,
    /// points known before and after the call
    pub p0: usize,
    pub p1: usize,
}

pub struct Hist<'a> {
    pub log: &'a [Ev],
    pub atts: Vec<Att>,
    pub pts: Vec<Point>,
    pub calls: Vec<Call>,
    pub y0: Vec<f64>,
    pub yp0: Vec<f64>,
    /// (event, point it was evaluated for)
    pub ewts: Vec<(usize, usize)>,
    /// per event of kind Query: points known then
    pub qpts: Vec<(usize, usize)>,
    /// events outside their place
    pub stray: Vec<String>,
    pub panic: Option<(String, bool)>,
    pub n: usize,
    /// attempts undone so far
    pub undone: usize,
}

impl<'a> Hist<'a> {
    pub fn ret(&self, c: &Call) -> Option<&'a Ret> {
        match &self.log[c.ret?] {
            Ev::Ret(r) => Some(r),
            _ => None,
        }
    }
}

pub fn parse<'a>(s: &ISession, log: &'a [Ev]) -> Hist<'a> {
    let (y0, yp0) = s.initial();
    let mut h = Hist {
        log,
        atts: vec![],
        pts: vec![Point { t: 0.0, y: y0.clone(), att: usize::MAX, scale: y0.iter().map(|x| x.abs()).collect(), undone: 0 }],
        calls: vec![],
        n: y0.len(),
        undone: 0,
        y0,
        yp0,
        ewts: vec![],
        qpts: vec![],
        stray: vec![],
        panic: None,
    };
    let mut open: Option<usize> = None; // attempt under way
    let mut pending: Option<usize> = None; // ended well, fate open
    let mut incall = false;
    fn accept(h: &mut Hist, a: usize) {
        h.atts[a].accepted = true;
        let at = &h.atts[a];
        let y: Vec<f64> = (0..h.n).map(|i| at.yp[i] + at.ee[i]).collect();
        let scale = (0..h.n).map(|i| f64::max(at.scale[i], y[i].abs()) + at.ee[i].abs()).collect();
        let p = Point { t: at.t, y, att: a, scale, undone: h.undone };
        h.pts.push(p);
    }
    for (i, e) in log.iter().enumerate() {
        match e {
            Ev::Call { normal, tout } => {
                let na = h.atts.len();
                h.calls.push(Call { ev: i, ret: None, normal: *normal, tout: *tout, atts: na..na, p0: h.pts.len(), p1: h.pts.len() });
                incall = true;
            }
            Ev::Ret(r) => {
                if let Some(a) = pending.take() {
                    if r.tn == h.atts[a].t {
                        accept(&mut h, a);
                    } else {
                        h.undone += 1;
                    }
                }
                let (na, np) = (h.atts.len(), h.pts.len());
                if let Some(c) = h.calls.last_mut() {
                    c.ret = Some(i);
                    c.atts.end = na;
                    c.p1 = np;
                }
                incall = false;
            }
            Ev::Ewt { y, .. } => {
                if let Some(a) = pending.take() {
                    accept(&mut h, a);
                }
                let np = h.pts.len();
                h.ewts.push((i, np - 1));
                if !incall {
                    h.stray.push("weights evaluated outside a call".into());
                }
                h.pts[np - 1].y = y.clone();
            }
            Ev::Attempt { w } => {
                if pending.take().is_some() {
                    h.undone += 1;
                }
                let call = h.calls.len().wrapping_sub(1);
                h.atts.push(Att {
                    call,
                    ev: i..i,
                    base: h.pts.len(),
                    w: w.clone(),
                    t: f64::NAN,
                    yp: vec![],
                    ypp: vec![],
                    has_res: false,
                    end: End::Unknown,
                    ee: vec![],
                    injected: false,
                    accepted: false,
                    ks: 0,
                    k: 0,
                    scale: vec![],
                });
                open = Some(h.atts.len() - 1);
            }
            Ev::AttemptEnd { end, ee, injected, .. } => {
                if let Some(a) = open.take() {
                    let at = &mut h.atts[a];
                    at.ev.end = i + 1;
                    at.end = end.clone();
                    at.ee = ee.clone();
                    at.injected = *injected;
                    if at.has_res {
                        settle(&mut h, a);
                        if h.atts[a].end == End::Ok {
                            pending = Some(a);
                        } else {
                            h.undone += 1;
                        }
                    } else {
                        h.stray.push("an attempt without a residual evaluation".into());
                    }
                }
            }
            Ev::Res { t, y, yp, .. } => match open {
                Some(a) => {
                    let at = &mut h.atts[a];
                    if !at.has_res {
                        at.has_res = true;
                        at.t = *t;
                        at.yp = y.clone();
                        at.ypp = yp.clone();
                    }
                }
                None => h.stray.push("a residual evaluated outside an attempt".into()),
            },
            Ev::Jac { .. } | Ev::LsSetup { .. } | Ev::LsSolve { .. } => {
                if open.is_none() {
                    h.stray.push("linear solver work outside an attempt".into())
                }
            }
            Ev::Root { .. } => {
                if let Some(a) = pending.take() {
                    accept(&mut h, a);
                }
            }
            Ev::Query { t, k, ok, y, tn, .. } => {
                let np = h.pts.len();
                h.qpts.push((i, np));
                if k.is_none() && *ok && t == tn && h.pts[np - 1].t == *tn {
                    // only as a refinement: a wrong answer is another matter
                    let p = &mut h.pts[np - 1];
                    if p.att != usize::MAX && y.iter().zip(&p.y).zip(&p.scale).all(|((a, b), s)| (a - b).abs() <= 1e3 * EPS * s) {
                        p.y = y.clone();
                    }
                }
            }
            Ev::Panic { msg, query } => {
                h.panic = Some((msg.clone(), *query));
            }
        }
    }
    let na = h.atts.len();
    let np = h.pts.len();
    if let Some(c) = h.calls.last_mut() {
        if c.ret.is_none() {
            c.atts.end = na;
            c.p1 = np;
        }
    }
    h
}

/// Where steps became so short that their ends cannot be told apart in this arithmetic, if that happened.
pub fn indistinct(h: &Hist) -> Option<usize> {
    h.atts.iter().find(|a| too_short(h, a)).map(|a| a.ev.start)
}
pub fn too_short(h: &Hist, a: &Att) -> bool {
    let b = h.pts[a.base - 1].t;
    a.has_res && !((a.t - b).abs() > 256.0 * EPS * f64::max(a.t.abs(), b.abs()))
}

/// S_k = 1 + 1/2 + .. + 1/k
pub fn sk(k: usize) -> f64 {
    (1..=k).map(|i| 1.0 / i as f64).sum()
}

/// Finds which orders an attempt's first residual point is the prediction of.
fn settle(h: &mut Hist, a: usize) {
    let at = &h.atts[a];
    if too_short(h, at) {
        h.atts[a].scale = vec![0.0; h.n];
        return;
    }
    let m = at.base - 1; // index of the point it starts from
    let n = h.n;
    let mut ks = 0u8;
    let mut kcj = 0u8;
    let mut scale = vec![0.0f64; n];
    if m == 0 {
        ks = 1 << 1;
        for i in 0..n {
            scale[i] = h.y0[i].abs() + (at.t * h.yp0[i]).abs();
        }
    } else {
        for k in 1..=5.min(m) {
            let p = Poly::through(h, m, k);
            let (v, tol) = p.eval(at.t, 0);
            let (d, dtol) = p.eval(at.t, 1);
            if (0..n).all(|i| near(at.yp[i], v[i], CP * tol[i]) && near(at.ypp[i], d[i], CP * dtol[i])) {
                ks |= 1 << k;
                let mag = p.magnitude(at.t);
                for i in 0..n {
                    scale[i] = f64::max(scale[i], mag[i]);
                }
            }
        }
    }
    // the same from the leading coefficient seen by the residual and Jacobian callbacks
    let hh = at.t - h.pts[m].t;
    for k in 1..=5usize {
        let cj = sk(k) / hh;
        let rel = 1e-9 + 16.0 * EPS * (at.t.abs() / hh.abs());
        let mut ok = true;
        let mut seen = false;
        for e in &h.log[at.ev.start..h.atts[a].ev.end.max(at.ev.start)] {
            match e {
                Ev::Jac { cj: c, .. } => {
                    seen = true;
                    if !near(*c, cj, rel * cj.abs()) {
                        ok = false;
                    }
                }
                Ev::Res { y, yp, .. } => {
                    // the component that moved most tells best
                    for i in 0..n {
                        let dy = y[i] - at.yp[i];
                        let noise = 8.0 * EPS * (y[i].abs() + at.yp[i].abs());
                        if dy.is_finite() && dy.abs() > 1e4 * noise && dy != 0.0 {
                            let dyp = yp[i] - at.ypp[i];
                            let t = rel * (cj * dy).abs() + cj.abs() * noise + 8.0 * EPS * (yp[i].abs() + at.ypp[i].abs());
                            if t < 0.01 * (cj * dy).abs() {
                                seen = true;
                                if !near(dyp, cj * dy, 4.0 * t) {
                                    ok = false;
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if ok && seen {
            kcj |= 1 << k;
        }
    }
    let both = if kcj != 0 { ks & kcj } else { ks };
    let k = if both.count_ones() == 1 { both.trailing_zeros() as usize } else { 0 };
    let at = &mut h.atts[a];
    at.ks = ks;
    at.k = k;
    at.scale = scale;
}

/// Allowance for accumulated rounding, in units of the first-order estimate.
pub const CP: f64 = 64.0;

pub fn near(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol || (a.is_nan() && b.is_nan())
}

/// The polynomial of degree k through the points m-k..=m.
pub struct Poly {
    n: usize,
    k: usize,
    tb: f64,
    sc: f64,
    /// monomial coefficients of the Lagrange basis in s = (t - tb) / sc
    b: [[f64; 6]; 6],
    s: [f64; 6],
    y: Vec<f64>,
    /// rounding of the data, per component
    un: Vec<f64>,
    dt: f64,
}

impl Poly {
    pub fn through(h: &Hist, m: usize, k: usize) -> Poly {
        let n = h.n;
        let tb = h.pts[m].t;
        let sc = (h.pts[m].t - h.pts[m - 1].t).abs();
        let mut s = [0.0; 6];
        for j in 0..=k {
            s[j] = (h.pts[m - j].t - tb) / sc;
        }
        let mut b = [[0.0; 6]; 6];
        for j in 0..=k {
            let mut c = [0.0; 6];
            c[0] = 1.0;
            let mut deg = 0;
            for i in 0..=k {
                if i == j {
                    continue;
                }
                let d = s[j] - s[i];
                let mut nc = [0.0; 6];
                for q in 0..=deg {
                    nc[q + 1] += c[q] / d;
                    nc[q] -= c[q] * s[i] / d;
                }
                deg += 1;
                c = nc;
            }
            b[j] = c;
        }
        let mut y = vec![0.0; n * (k + 1)];
        let mut un = vec![0.0f64; n];
        for j in 0..=k {
            y[j * n..(j + 1) * n].copy_from_slice(&h.pts[m - j].y);
        }
        // rounding enters the divided differences with the last few points only, and with every undone attempt
        let q0 = m.saturating_sub(k + 2);
        for q in q0..=m {
            for i in 0..n {
                un[i] = un[i].max(h.pts[q].scale[i]);
            }
        }
        let undone = h.undone - h.pts[q0].undone;
        for u in &mut un {
            *u *= 1.0 + undone as f64 / 16.0;
        }
        let tmax = (m - k..=m).map(|q| h.pts[q].t.abs()).fold(0.0, f64::max);
        Poly { n, k, tb, sc, b, s, y, un, dt: 4.0 * EPS * tmax }
    }
    /// (weight, its magnitude) of the basis polynomials' d-th derivatives
    fn weights(&self, s: f64, d: usize) -> [(f64, f64); 6] {
        let mut out = [(0.0, 0.0); 6];
        for j in 0..=self.k {
            let (mut v, mut m) = (0.0, 0.0);
            for q in (d..=self.k).rev() {
                let f: f64 = (q - d + 1..=q).map(|x| x as f64).product();
                v = v * s + self.b[j][q] * f;
                m = m * s.abs() + (self.b[j][q] * f).abs();
            }
            let g = self.sc.powi(-(d as i32));
            out[j] = (v * g, m * g);
        }
        out
    }
    /// sum of the absolute terms that make up the value at t
    fn magnitude(&self, t: f64) -> Vec<f64> {
        let w = self.weights((t - self.tb) / self.sc, 0);
        (0..self.n).map(|i| (0..=self.k).map(|j| (w[j].0 * self.y[j * self.n + i]).abs()).sum()).collect()
    }
    fn raw(&self, w: &[(f64, f64); 6], i: usize) -> f64 {
        (0..=self.k).map(|j| w[j].0 * self.y[j * self.n + i]).sum()
    }
    /// d-th derivative at t, and a first-order estimate of the rounding in it
    pub fn eval(&self, t: f64, d: usize) -> (Vec<f64>, Vec<f64>) {
        let s = (t - self.tb) / self.sc;
        let w = self.weights(s, d);
        let w1 = self.weights(s, d + 1);
        let mut nodes = [[(0.0, 0.0); 6]; 6];
        for j in 0..=self.k {
            nodes[j] = self.weights(self.s[j], 1);
        }
        let dt = self.dt + 2.0 * EPS * t.abs();
        let mut v = vec![0.0; self.n];
        let mut tol = vec![0.0; self.n];
        for i in 0..self.n {
            v[i] = self.raw(&w, i);
            let mut m = 0.0;
            let mut tm = self.raw(&w1, i).abs();
            for j in 0..=self.k {
                m += w[j].1;
                tm += w[j].1 * self.raw(&nodes[j], i).abs();
            }
            tol[i] = EPS * m * self.un[i] + dt * tm + 1e-300;
        }
        (v, tol)
    }
}

pub fn wrms(x: &[f64], w: &[f64]) -> f64 {
    let s: f64 = x.iter().zip(w).map(|(a, b)| (a * b) * (a * b)).sum();
    (s / x.len() as f64).sqrt()
}
