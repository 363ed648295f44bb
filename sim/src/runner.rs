//! Batches of seeded runs in worker processes, minimisation, replay files and evidence.

use crate::common::*;
use crate::rng::{hash_str, mix, Rng};
use crate::{dsim, nrun, nsim, ssim, tsim};
#[cfg(feature = "ida")]
use crate::irun;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub enum Plan {
    Newton(nsim::NPlan),
    Dense(dsim::DPlan),
    System(ssim::SPlan),
    Stepping(tsim::TPlan),
    #[cfg(feature = "ida")]
    Integrator(irun::IPlan),
}

pub fn layer(prop: &str) -> &'static str {
    match prop {
        "N01" | "N02" | "N03" | "N04" | "N05" | "N06" | "N07" | "N08" => "newton",
        "D01" | "D02" | "D03" | "D04" => "dense",
        "S01" | "S02" | "S03" => "system",
        "S04" => "stepping",
        #[cfg(feature = "ida")]
        "I01" | "I02" | "I03" | "I04" | "I05" | "I06" | "I07" | "I08" | "I09" | "I10" | "I11" | "I12" | "I13" => "integrator",
        _ => "",
    }
}

pub fn generate(prop: &str, seed: u64, idx: u64) -> Plan {
    let mut r = Rng::new(mix(mix(seed, hash_str(prop)), idx));
    match layer(prop) {
        "newton" => Plan::Newton(nrun::gen(prop, &mut r, idx)),
        "dense" => Plan::Dense(dsim::gen(prop, &mut r, idx)),
        "system" => Plan::System(ssim::gen(prop, &mut r, idx)),
        "stepping" => Plan::Stepping(tsim::gen(&mut r)),
        #[cfg(feature = "ida")]
        "integrator" => Plan::Integrator(irun::gen(prop, &mut r)),
        _ => panic!("unknown property {prop}"),
    }
}

pub fn execute(prop: &str, p: &Plan) -> RunOut {
    let mut o = match p {
        Plan::Newton(p) => nrun::run(prop, p),
        Plan::Dense(p) => dsim::run(prop, p),
        Plan::System(p) => ssim::run(prop, p),
        Plan::Stepping(p) => tsim::run(prop, p),
        #[cfg(feature = "ida")]
        Plan::Integrator(p) => irun::run(prop, p),
    };
    o.viols.retain(|v| v.prop == prop);
    o
}

fn simpler(p: &Plan) -> Vec<Plan> {
    match p {
        Plan::Newton(p) => nrun::simpler(p).into_iter().map(Plan::Newton).collect(),
        Plan::Dense(p) => dsim::simpler(p).into_iter().map(Plan::Dense).collect(),
        Plan::System(p) => ssim::simpler(p).into_iter().map(Plan::System).collect(),
        Plan::Stepping(p) => tsim::simpler(p).into_iter().map(Plan::Stepping).collect(),
        #[cfg(feature = "ida")]
        Plan::Integrator(p) => irun::simpler(p).into_iter().map(Plan::Integrator).collect(),
    }
}

/// Runs of the quick tier per property; sized to about 20 s on 8 cores.
fn runs(prop: &str, thorough: bool) -> u64 {
    let q = match prop {
        "N05" => 500_000,
        "N07" => 1_000_000,
        "N08" => 200_000,
        "D01" | "D02" => 600_000,
        "D03" => 250_000,
        "D04" => 200_000,
        "S01" | "S02" | "S03" => 2_000_000,
        "S04" => 600_000,
        "I07" => 30_000,
        "I13" => 60_000,
        _ if prop.starts_with('I') => 120_000,
        _ => 1_500_000,
    };
    if thorough {
        q * 20
    } else {
        q
    }
}

const HANG_S: u64 = 60;
static PROGRESS: AtomicU64 = AtomicU64::new(0);

fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Ends the process if one run makes no progress for a long time.
fn watchdog(on_hang: impl Fn() + Send + 'static) {
    std::thread::spawn(move || {
        let mut last = PROGRESS.load(Ordering::Relaxed);
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let p = PROGRESS.load(Ordering::Relaxed);
            if p != last {
                last = p;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(HANG_S) {
                on_hang();
            }
        }
    });
}

fn tick() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerReport {
    evaluations: u64,
    nontrivial: Vec<u64>,
    scheds: Vec<u64>,
    simtime: u64,
    solves: u64,
    callbacks: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    rerun: u64,
    rerun_diff: Vec<u64>,
    /// lowest violating run of this worker
    viol: Option<(u64, String, String)>,
    truncated: bool,
    sample: Option<Value>,
    digest: u64,
}

/// worker PROP SEED FIRST STRIDE END PROGRESSFILE DEADLINE_S
pub fn worker(a: &[String]) -> i32 {
    let prop = a[0].clone();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, first, stride, end, deadline) = (n(1), n(2), n(3), n(4), n(6));
    let pf = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(&a[5]).unwrap();
    watchdog(|| std::process::exit(77));
    let t0 = Instant::now();
    let mut w = WorkerReport::default();
    let mut nontrivial = BTreeSet::new();
    let mut scheds = BTreeSet::new();
    let mut i = first;
    while i < end {
        if t0.elapsed() > Duration::from_secs(deadline) {
            w.truncated = true;
            break;
        }
        {
            use std::os::unix::fs::FileExt;
            let _ = pf.write_at(&i.to_le_bytes(), 0);
        }
        tick();
        let p = generate(&prop, seed, i);
        NFAULT.set(0);
        let o = execute(&prop, &p);
        w.evaluations += 1;
        w.simtime += o.simtime;
        w.solves += o.solves;
        w.callbacks += o.callbacks;
        w.digest = w.digest.wrapping_add(mix(o.hash, i));
        if NFAULT.get() > 0 {
            nontrivial.insert(o.hash);
            if o.sched != 0 {
                scheds.insert(o.sched);
            }
            if w.sample.is_none() && NFAULT.get() > 1 {
                w.sample = Some(json!({"run": i, "plan": p}));
            }
        }
        if let Some(v) = o.viols.first() {
            w.viol = Some((i, v.class.clone(), v.detail.clone()));
            break;
        }
        // every so often the same plan again: it must give the same history
        if (i / stride) % 50 == 3 {
            tick();
            let o2 = uncounted(|| execute(&prop, &p));
            w.rerun += 1;
            if o2.hash != o.hash {
                w.rerun_diff.push(i);
                if matches!(prop.as_str(), "N07" | "N08" | "D04" | "I07") {
                    w.viol = Some((i, "repeat".into(), "the same plan executed twice in one process gives two different histories".into()));
                    break;
                }
            }
        }
        i += stride;
    }
    w.nontrivial = nontrivial.into_iter().collect();
    w.scheds = scheds.into_iter().collect();
    let st = STATS.with_borrow(|s| s.clone());
    w.faults = st.faults;
    w.probes = st.probes;
    println!("{}", serde_json::to_string(&w).unwrap());
    0
}

#[derive(Serialize, Deserialize, Clone)]
struct Replay {
    property: String,
    seed: u64,
    run: u64,
    class: String,
    detail: String,
    /// how often the plan is executed in one process (2 only for breaches of repeatability)
    #[serde(default)]
    repeat: u32,
    /// runs executed before it in the same process (first, stride), when the breach needs them
    #[serde(default)]
    after: Option<(u64, u64)>,
    plan: Plan,
    #[serde(default)]
    trace: Vec<String>,
}

/// Does the plan (after its predecessors, if any) still break the property? Some((class, detail)).
fn reproduces(r: &Replay) -> Option<(String, String)> {
    if let Some((first, stride)) = r.after {
        let mut i = first;
        while i < r.run {
            tick();
            let p = generate(&r.property, r.seed, i);
            let o = uncounted(|| execute(&r.property, &p));
            if (i / stride) % 50 == 3 {
                uncounted(|| execute(&r.property, &p));
            }
            std::hint::black_box(o.hash);
            i += stride;
        }
    }
    tick();
    let o = execute(&r.property, &r.plan);
    if let Some(v) = o.viols.first() {
        return Some((v.class.clone(), v.detail.clone()));
    }
    if r.repeat > 1 {
        let o2 = uncounted(|| execute(&r.property, &r.plan));
        if o2.hash != o.hash {
            return Some(("repeat".into(), "the same plan executed twice in one process gives two different histories".into()));
        }
    }
    None
}

fn minimise(r: &Replay) -> Replay {
    let t0 = Instant::now();
    let mut best = r.clone();
    let mut tries = 0u64;
    'again: loop {
        for c in simpler(&best.plan) {
            if t0.elapsed() > Duration::from_secs(25) {
                break 'again;
            }
            tries += 1;
            let cand = Replay { plan: c, ..best.clone() };
            let res = uncounted(|| guarded(|| reproduces(&cand)));
            match res {
                Ok(Some((class, detail))) if class == r.class => {
                    best = Replay { class, detail, ..cand };
                    continue 'again;
                }
                _ => {}
            }
        }
        break;
    }
    eprintln!("minimised in {tries} executions");
    best
}

fn traced(r: &Replay) -> Vec<String> {
    TRACE.with_borrow_mut(|t| *t = Some(vec![]));
    let _ = guarded(|| execute(&r.property, &r.plan));
    TRACE.with_borrow_mut(|t| t.take()).unwrap_or_default()
}

/// replay FILE: exit 1 and a VIOLATION line if the file's plan still breaks its property, else 0.
pub fn replay(path: &str) -> i32 {
    let r: Replay = match std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(r) => r,
        None => {
            eprintln!("cannot read {path}");
            return 2;
        }
    };
    let (p, id) = (path.to_string(), r.property.clone());
    watchdog(move || {
        println!("hang: no progress for {HANG_S} s");
        println!("VIOLATION property={id} replay={p}");
        std::process::exit(1)
    });
    match reproduces(&r) {
        Some((c, d)) => {
            for l in traced(&r) {
                println!("  {l}");
            }
            println!("{c}: {d}");
            println!("VIOLATION property={} replay={path}", r.property);
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

/// one PROP INDEX: executes a single run and, when it breaks the property, minimises it and writes the replay file.
pub fn one(a: &[String]) -> i32 {
    let (seed, run) = (env_seed(), a[1].parse::<u64>().unwrap());
    let plan = generate(&a[0], seed, run);
    let o = match guarded(|| execute(&a[0], &plan)) {
        Ok(o) => o,
        Err(_) => return 3,
    };
    let Some(v) = o.viols.first() else {
        println!("{}", serde_json::to_string_pretty(&plan).unwrap());
        return 0;
    };
    let r = Replay {
        property: a[0].clone(),
        seed,
        run,
        class: v.class.clone(),
        detail: v.detail.clone(),
        repeat: 1,
        after: None,
        plan,
        trace: vec![],
    };
    let mut m = minimise(&r);
    m.trace = traced(&m);
    let path = write_replay(&m);
    for l in &m.trace {
        println!("  {l}");
    }
    println!("{}: {}\n{path}", m.class, m.detail);
    1
}

/// peaks PROP FROM TO: largest deviation seen per comparison, in units of the rounding estimate.
#[cfg(feature = "ida")]
pub fn peaks(a: &[String]) -> i32 {
    let seed = env_seed();
    let mut classes: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    for i in a[1].parse::<u64>().unwrap()..a[2].parse::<u64>().unwrap() {
        let o = match guarded(|| execute(&a[0], &generate(&a[0], seed, i))) {
            Ok(o) => o,
            Err(Caught::Lib(m)) => panic!("run {i}: {}", { eprintln!("run {i}: {m}"); m }),
            Err(_) => panic!("run {i}"),
        };
        if let Some(v) = o.viols.first() {
            let e = classes.entry(v.class.clone()).or_insert((0, i, v.detail.clone()));
            e.0 += 1;
        }
    }
    for (k, (n, i, d)) in classes {
        println!("{k}: {n} (first {i}: {})", d.chars().take(600).collect::<String>());
    }
    crate::iorc::PEAK.with_borrow(|p| {
        for (k, v) in p {
            println!("  peak {k}: {v:.3e}");
        }
    });
    STATS.with_borrow(|s| println!("  {:?}\n  {:?}", s.faults, s.probes));
    0
}

/// hashes PROP FROM TO: the history hash of every run (for determinism comparisons).
pub fn hashes(a: &[String]) -> i32 {
    let seed = env_seed();
    let so = std::io::stdout();
    let mut so = so.lock();
    for i in a[1].parse::<u64>().unwrap()..a[2].parse::<u64>().unwrap() {
        let p = generate(&a[0], seed, i);
        let o = execute(&a[0], &p);
        let _ = writeln!(so, "{i} {:016x} {:016x} {}", o.hash, o.sched, o.simtime);
    }
    0
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

struct Ended {
    report: Option<WorkerReport>,
    at: u64,
    code: Option<i32>,
    signal: Option<i32>,
    err: String,
}

fn run_workers(prop: &str, seed: u64, total: u64, nw: u64, dir: &str, deadline: u64) -> Vec<Ended> {
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for k in 0..nw {
        let pf = format!("{dir}/progress-{k}");
        let c = Command::new(&exe)
            .args([
                "worker",
                prop,
                &seed.to_string(),
                &k.to_string(),
                &nw.to_string(),
                &total.to_string(),
                &pf,
                &deadline.to_string(),
            ])
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .stdin(Stdio::null())
            .spawn()
            .expect("spawn worker");
        kids.push((pf, c));
    }
    let handles: Vec<_> = kids
        .into_iter()
        .map(|(pf, c)| {
            std::thread::spawn(move || {
                let out = c.wait_with_output().expect("wait");
                use std::os::unix::process::ExitStatusExt;
                let report = std::io::BufReader::new(&out.stdout[..])
                    .lines()
                    .map_while(Result::ok)
                    .filter_map(|l| serde_json::from_str::<WorkerReport>(&l).ok())
                    .last();
                let at = std::fs::read(&pf)
                    .ok()
                    .and_then(|b| b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap())))
                    .unwrap_or(0);
                Ended {
                    report,
                    at,
                    code: out.status.code(),
                    signal: out.status.signal(),
                    err: String::from_utf8_lossy(&out.stderr).chars().take(2000).collect(),
                }
            })
        })
        .collect();
    handles.into_iter().map(|h| h.join().unwrap()).collect()
}

fn write_replay(r: &Replay) -> String {
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-seed{}-run{}.json", r.property, r.seed, r.run);
    std::fs::write(&path, serde_json::to_string_pretty(r).unwrap()).expect("write replay");
    path
}

/// Replays a file in a fresh process; Some(exit code) unless it died from a signal.
fn replay_fresh(path: &str) -> (Option<i32>, String) {
    let out = Command::new(std::env::current_exe().unwrap())
        .args(["replay", path])
        .stdin(Stdio::null())
        .output()
        .expect("spawn replay");
    (out.status.code(), String::from_utf8_lossy(&out.stdout).into_owned())
}

pub fn run_check(prop: &str) -> i32 {
    if layer(prop).is_empty() {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let seed = env_seed();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let nw = std::env::var("VERIF_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(8));
    let total = std::env::var("VERIF_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| runs(prop, thorough));
    println!("property={prop} seed={seed} tier={tier} runs={total} workers={nw}");
    let t0 = Instant::now();
    let dir = format!("{}/target/scratch-{prop}-{}", verif(), std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let deadline = if thorough { 3000 } else { 420 };
    let mut ends = run_workers(prop, seed, total, nw, &dir, deadline);
    if ends.iter().any(|e| e.signal == Some(9)) {
        // ended from outside (memory guard): once more with fewer workers
        eprintln!("a worker was killed from outside; again with half the workers");
        ends = run_workers(prop, seed, total, (nw / 2).max(1), &dir, deadline);
    }
    let nw = ends.len() as u64;
    let _ = std::fs::remove_dir_all(&dir);

    // violations: the lowest run index wins, abnormal ends included
    let mut found: Option<(u64, u64, String, String)> = None;
    for (k, e) in ends.iter().enumerate() {
        let v = match (&e.report, e.code) {
            (Some(r), Some(0)) => r.viol.clone(),
            (_, Some(77)) => Some((e.at, "hang".to_string(), format!("no progress for {HANG_S} s"))),
            (_, None) if e.signal != Some(9) => {
                Some((e.at, "crash".to_string(), format!("the process died from signal {:?}", e.signal)))
            }
            _ => {
                eprintln!("worker {k} ended with {:?}/{:?}: {}", e.code, e.signal, e.err);
                return 2;
            }
        };
        if let Some((i, c, d)) = v {
            if found.as_ref().map_or(true, |f| i < f.0) {
                found = Some((i, k as u64, c, d));
            }
        }
    }
    let reports: Vec<&WorkerReport> = ends.iter().filter_map(|e| e.report.as_ref()).collect();
    let mut code = 0;
    let mut violation_note = Value::Null;
    if let Some((idx, k, class, detail)) = found {
        let plan = generate(prop, seed, idx);
        let mut r = Replay {
            property: prop.to_string(),
            seed,
            run: idx,
            class: class.clone(),
            detail: detail.clone(),
            repeat: if class == "repeat" { 2 } else { 1 },
            after: None,
            plan,
            trace: vec![],
        };
        let path;
        if class == "hang" || class == "crash" {
            // cannot be judged in this process: keep the plan as it is
            path = write_replay(&r);
            let (c, _) = replay_fresh(&path);
            if c == Some(0) {
                r.after = Some((k, nw));
                write_replay(&r);
            }
        } else {
            let whole = r.clone();
            let alone = uncounted(|| guarded(|| reproduces(&r))).ok().flatten();
            if alone.is_some() {
                r = minimise(&r);
                r.trace = traced(&r);
            }
            path = write_replay(&r);
            let (c, _) = replay_fresh(&path);
            if c == Some(0) {
                // the minimised plan needs more history than itself: fall back step by step
                r = Replay { after: None, ..whole };
                write_replay(&r);
                if replay_fresh(&path).0 == Some(0) {
                    r.after = Some((k, nw));
                    write_replay(&r);
                    if replay_fresh(&path).0 == Some(0) {
                        eprintln!("warning: the replay file does not reproduce the violation");
                    }
                }
            }
        }
        println!("{}: {}", r.class, r.detail);
        for l in r.trace.iter().take(60) {
            println!("  {l}");
        }
        println!("VIOLATION property={prop} replay={path}");
        violation_note = json!({"run": idx, "class": r.class, "detail": r.detail, "replay": path});
        code = 1;
    }
    evidence(prop, seed, &tier, &reports, t0.elapsed().as_secs_f64(), violation_note, nw);
    if code == 0 {
        println!("held on everything explored ({:.1} s)", t0.elapsed().as_secs_f64());
    }
    code
}

fn evidence(prop: &str, seed: u64, tier: &str, rs: &[&WorkerReport], wall: f64, viol: Value, nw: u64) {
    let sum = |f: fn(&WorkerReport) -> u64| rs.iter().map(|r| f(r)).sum::<u64>();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct = BTreeSet::new();
    let mut scheds = BTreeSet::new();
    let mut rerun_diff = vec![];
    for r in rs {
        for (k, v) in &r.faults {
            *faults.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.probes {
            *probes.entry(k.clone()).or_default() += v;
        }
        distinct.extend(r.nontrivial.iter().cloned());
        scheds.extend(r.scheds.iter().cloned());
        rerun_diff.extend(r.rerun_diff.iter().cloned());
    }
    let runs = sum(|r| r.evaluations);
    let samples: Vec<&Value> = rs.iter().filter_map(|r| r.sample.as_ref()).take(3).collect();
    let (real, stub) = match layer(prop) {
        "newton" => ("nonlinear::Newton (crates/nonlinear)", "the problem's callbacks: scripted, fault-injecting environment"),
        "dense" => ("linear::Dense (crates/linear)", "none; the caller is the simulator"),
        "integrator" => (
            "ida (all of /repo/src), nonlinear::Newton, linear::Dense, NormWRMS",
            "the model equations and root functions, the client; ndarray and failure replaced by stand-ins, src/linear.rs and src/nonlinear.rs (absent) by adapters onto the real crates",
        ),
        _ => (
            "nonlinear::Newton, linear::Dense, NormWRMS together",
            "the model equations and the time-stepping client",
        ),
    };
    let e = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": wall,
        "violations": if viol.is_null() { 0 } else { 1 },
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": distinct.len(),
            "rule": "one evaluation is one simulated run of a plan (sessions, operations, latencies, faults) drawn from the seed; a run is non-trivial if at least one fault fired in it, and distinct if the hash over its whole recorded history and schedule is",
            "samples": samples,
            "simulated_runs_per_hour_each_from_its_own_seed": (runs as f64 / wall * 3600.0) as u64,
            "simulated_time_us": sum(|r| r.simtime),
            "library_calls": sum(|r| r.solves),
            "callbacks_answered": sum(|r| r.callbacks),
            "faults_fired": faults,
            "probes": probes,
            "distinct_interleavings": scheds.len(),
            "interleaving_measure": "distinct hashes of the order in which concurrent sessions were resumed, over runs with at least two sessions and a fault",
            "repeated_runs": sum(|r| r.rerun),
            "repeated_runs_that_differed": rerun_diff,
            "digest_of_all_histories": format!("{:016x}", rs.iter().fold(0u64, |a, r| a.wrapping_add(r.digest))),
            "cut_short_by_deadline": rs.iter().any(|r| r.truncated),
            "workers": nw,
            "real_code": real,
            "stubs": stub,
            "violation": viol,
        },
        "assumptions": [
            "a clean batch is evidence from sampled schedules and faults, not a proof",
            "callbacks misbehave only in the listed fault kinds"
        ]
    });
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&e).unwrap()).expect("write evidence");
}
