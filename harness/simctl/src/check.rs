//! Seeded search, minimisation, replay files and evidence.
use crate::mjudge::Verdict;
use crate::run::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simproto::*;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| {
        let exe = std::env::current_exe().unwrap();
        // <verif>/target/harness/release/simctl
        exe.ancestors().nth(4).unwrap().to_path_buf()
    })
}

pub fn generate(prop: &str, seed: u64) -> Case {
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" => crate::meas::generate(prop, seed),
        "C08" if seed % 4 == 0 => crate::tui::generate(prop, seed),
        "C08" => crate::fresh::generate(prop, seed),
        "C09" => crate::load::generate(prop, seed),
        "C10" | "C11" | "C12" | "C13" | "C14" | "C17" => crate::tui::generate(prop, seed),
        "C15" => crate::report::generate(prop, seed),
        "C16" => crate::nav::generate(prop, seed),
        _ => panic!("unknown property {prop}"),
    }
}
pub fn judge(case: &Case, runs: &[Run]) -> Verdict {
    match case.family.as_str() {
        "measure" => crate::mjudge::judge(case, runs),
        "fresh" => crate::fresh::judge(case, runs),
        "load" => crate::load::judge(case, runs),
        "report" => crate::report::judge(case, runs),
        "nav" => crate::nav::judge(case, runs),
        "tui" => crate::tuijudge::judge(case, runs),
        f => panic!("unknown family {f}"),
    }
}
pub fn targets(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" => &["drv"],
        "C08" => &["drv", "bins"],
        "C09" => &["drvtrace"],
        _ => &["bins"],
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Replay {
    pub property: String,
    pub code: String,
    pub what: String,
    pub case: Case,
    pub hash: u64,
    pub trace: Vec<String>,
    pub decisions: Vec<String>,
    pub minimised: String,
}

#[derive(Default)]
struct Tally {
    cases: u64,
    runs: u64,
    sim_ns: u128,
    calls: u128,
    edges: u128,
    switches: u128,
    stats: BTreeMap<String, u64>,
    ends: BTreeMap<String, u64>,
    ilv: HashSet<u64>,
    nontrivial: HashSet<u64>,
    cov: Vec<u8>,
    cov_bin: BTreeMap<String, Vec<u8>>,
    harness: Vec<String>,
    nharness: u64,
    determinism: u64,
    nondeterministic: Vec<u64>,
    unreproducible: Vec<String>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
}
impl Tally {
    fn add(&mut self, case: &Case, runs: &[Run]) {
        self.cases += 1;
        for (s, r) in case.sessions.iter().zip(runs) {
            self.runs += 1;
            self.sim_ns += r.sim_ns as u128;
            self.calls += r.calls as u128;
            self.edges += r.edges as u128;
            self.switches += r.switches as u128;
            for (k, v) in &r.stats {
                *self.stats.entry(k.clone()).or_insert(0) += v;
            }
            *self.ends.entry(r.why.clone()).or_insert(0) += 1;
            if r.why.starts_with("limit") && std::env::var_os("SIM_LIMITS").is_some() {
                println!("{} seed {:#x}", r.why, case.seed);
            }
            if r.switches > 0 {
                self.ilv.insert(r.ilv);
            }
            let c = self.cov_bin.entry(s.bin.clone()).or_default();
            if c.len() < r.cov.len() {
                c.resize(r.cov.len(), 0);
            }
            for (a, b) in c.iter_mut().zip(&r.cov) {
                *a |= (*b != 0) as u8;
            }
        }
    }
    fn merge(&mut self, o: Tally) {
        self.cases += o.cases;
        self.runs += o.runs;
        self.sim_ns += o.sim_ns;
        self.calls += o.calls;
        self.edges += o.edges;
        self.switches += o.switches;
        for (k, v) in o.stats {
            *self.stats.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.ends {
            *self.ends.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        self.ilv.extend(o.ilv);
        self.nontrivial.extend(o.nontrivial);
        for (b, c) in o.cov_bin {
            let d = self.cov_bin.entry(b).or_default();
            if d.len() < c.len() {
                d.resize(c.len(), 0);
            }
            for (x, y) in d.iter_mut().zip(&c) {
                *x |= y;
            }
        }
        self.harness.extend(o.harness);
        self.harness.truncate(10);
        self.nharness += o.nharness;
        self.determinism += o.determinism;
        self.nondeterministic.extend(o.nondeterministic);
        self.unreproducible.extend(o.unreproducible);
        self.samples.extend(o.samples);
        self.samples.truncate(6);
        let _ = &self.cov;
    }
}

struct Known {
    prop: String,
    code: String,
    needle: String,
    text: String,
}
/// known: property=C01 code=C01.x match="..." text
fn known_findings(v: &Path, prop: &str) -> Vec<Known> {
    let mut r = Vec::new();
    let Ok(s) = std::fs::read_to_string(v.join("known-findings.txt")) else { return r };
    for l in s.lines() {
        let Some(rest) = l.strip_prefix("known: property=") else { continue };
        let Some((p, rest)) = rest.split_once(" code=") else { continue };
        let Some((code, rest)) = rest.split_once(" match=\"") else { continue };
        let Some((needle, text)) = rest.split_once("\" ") else { continue };
        if p == prop {
            r.push(Known { prop: p.into(), code: code.into(), needle: needle.into(), text: text.into() });
        }
    }
    r
}

fn unknown(bad: &[(String, String)], known: &[Known]) -> Vec<(String, String)> {
    bad.iter().filter(|b| !known.iter().any(|k| k.code == b.0 && b.1.contains(&k.needle))).cloned().collect()
}

fn sample(case: &Case, runs: &[Run]) -> Value {
    let sc = &case.sessions[0].sc;
    json!({
        "seed": format!("{:#x}", case.seed),
        "family": case.family,
        "sessions": case.sessions.iter().zip(runs).map(|(s, r)| json!({
            "program": s.bin, "argv": s.sc.argv, "driver": s.sc.driver, "end": r.why,
            "simulated_s": r.sim_ns as f64 / 1e9, "calls": r.calls, "switches": r.switches,
            "decisions": r.choices.len(), "user_steps": s.sc.tty.as_ref().map(|t| t.user.len()),
        })).collect::<Vec<_>>(),
        "sched": sc.sched, "faults": sc.faults, "programs": sc.programs.len(), "files": sc.files.len(),
        "first_events": runs.first().map(|r| r.text(12)),
    })
}

fn has_code(bad: &[(String, String)], code: &str) -> bool {
    bad.iter().any(|b| b.0 == code)
}

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub tier: String,
    pub seconds: f64,
    pub max_cases: u64,
    pub threads: usize,
    pub build: bool,
    pub survey: bool,
}

pub fn build(prop: &str) -> Result<(), String> {
    let v = verif();
    let o = std::process::Command::new("bash")
        .arg(v.join("tools/build.sh"))
        .args(targets(prop))
        .output()
        .map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("build failed:\n{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)));
    }
    Ok(())
}

pub fn check(o: Opts) -> i32 {
    let t_start = Instant::now();
    let v = verif();
    if o.build {
        if let Err(e) = build(&o.prop) {
            eprintln!("{e}");
            return 2;
        }
    }
    let known = known_findings(&v, &o.prop);
    let cpus = allowed_cpus();
    let nthreads = o.threads.min(cpus.len().max(1)).max(1);
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<(u64, Case, String, String)>> = Mutex::new(Vec::new());
    let survey: Mutex<BTreeMap<String, (u64, u64, String)>> = Mutex::new(BTreeMap::new());
    let total = Mutex::new(Tally::default());
    let base = mix3(o.seed, 0xC0FFEE, o.prop.bytes().fold(0, |a, b| a * 31 + b as u64));
    std::thread::scope(|s| {
        for th in 0..nthreads {
            let (next, stop, found, total, known, v, o, survey) = (&next, &stop, &found, &total, &known, &v, &o, &survey);
            let cpu = cpus.get(th).copied();
            s.spawn(move || {
                let mut rn = Runner::new(v, cpu);
                let mut ty = Tally::default();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if stop.load(Ordering::Relaxed) || i >= o.max_cases || t0.elapsed().as_secs_f64() > o.seconds {
                        break;
                    }
                    let seed = mix3(base, i, 7);
                    let case = generate(&o.prop, seed);
                    let runs = run_case(&mut rn, &case);
                    ty.add(&case, &runs);
                    if let Some(e) = runs.iter().find_map(|r| r.harness_error.clone()) {
                        ty.nharness += 1;
                        if ty.harness.len() < 5 {
                            ty.harness.push(format!("case {i} seed {seed:#x}: {e}"));
                        }
                        continue;
                    }
                    let vd = judge(&case, &runs);
                    if vd.nontrivial {
                        let h = runs.iter().fold(0, |a, r| mix(a ^ r.raw_hash));
                        ty.nontrivial.insert(h);
                        if ty.samples.is_empty() {
                            ty.samples.push(sample(&case, &runs));
                        }
                    }
                    if i % 40 == 0 {
                        ty.determinism += 1;
                        let again = run_case(&mut rn, &case);
                        if again.iter().zip(&runs).any(|(a, b)| a.raw_hash != b.raw_hash) {
                            ty.nondeterministic.push(seed);
                        }
                    }
                    for b in &vd.bad {
                        if let Some(k) = known.iter().find(|k| k.code == b.0 && b.1.contains(&k.needle)) {
                            *ty.known.entry(k.text.clone()).or_insert(0) += 1;
                        }
                    }
                    let bad = unknown(&vd.bad, known);
                    if let Some(b) = bad.first() {
                        if o.survey {
                            let mut g = survey.lock().unwrap();
                            for b in &bad {
                                let e = g.entry(b.0.clone()).or_insert((0, seed, b.1.clone()));
                                e.0 += 1;
                            }
                            continue;
                        }
                        // It must be reproducible to count
                        let again = run_case(&mut rn, &case);
                        let ok = again.iter().all(|r| r.harness_error.is_none()) && has_code(&judge(&case, &again).bad, &b.0);
                        if ok {
                            found.lock().unwrap().push((i, case, b.0.clone(), b.1.clone()));
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                        ty.unreproducible.push(format!("seed {seed:#x}: {} {}", b.0, b.1));
                    }
                }
                total.lock().unwrap().merge(ty);
            });
        }
    });
    let search_s = t0.elapsed().as_secs_f64();
    let tally = total.into_inner().unwrap();
    if o.survey {
        println!("cases {} runs {} in {:.1}s", tally.cases, tally.runs, search_s);
        for (k, (n, seed, m)) in survey.into_inner().unwrap() {
            println!("{k}: {n} e.g. seed {seed:#x}: {m}");
        }
        println!("harness errors {}: {:?}", tally.nharness, tally.harness);
        println!("nondeterministic {:?} of {}", tally.nondeterministic, tally.determinism);
        println!("ends {:?}", tally.ends);
        println!("nontrivial {} interleavings {}", tally.nontrivial.len(), tally.ilv.len());
        println!("stats {:?}", tally.stats);
        return 0;
    }
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.0);
    let mut code = 0;
    let mut violation = Value::Null;
    if let Some((i, case, c, what)) = found.into_iter().next() {
        let mut rn = Runner::new(&v, cpus.first().copied());
        let (path, rep) = minimise(&mut rn, &v, &case, &c, &what, &known);
        println!("violated: {} (case {i}, seed {:#x}): {}", rep.code, case.seed, rep.what);
        println!("minimised: {}", rep.minimised);
        // The file must reproduce the violation in a fresh process
        let exe = std::env::current_exe().unwrap();
        let ok = std::process::Command::new(exe).arg("replay").arg(&path).output().map(|x| x.status.code() == Some(1)).unwrap_or(false);
        if !ok {
            eprintln!("replay file {} does not reproduce the violation", path.display());
        }
        println!("VIOLATION property={} replay={}", o.prop, path.display());
        violation = json!({"code": rep.code, "what": rep.what, "seed": format!("{:#x}", case.seed), "replay": path, "replay_reproduces": ok});
        code = 1;
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", k.prop, k.text);
    }
    let cov: BTreeMap<String, Value> = tally
        .cov_bin
        .iter()
        .map(|(b, c)| (b.clone(), json!({"edges": c.len(), "reached": c.iter().filter(|x| **x != 0).count()})))
        .collect();
    let wall = t_start.elapsed().as_secs_f64();
    let ev = json!({
        "property": o.prop, "tier": o.tier, "seed": o.seed, "level": "exploration",
        "wall_s": wall, "violations": code,
        "coverage": {
            "evaluations": tally.runs,
            "distinct_nontrivial": tally.nontrivial.len(),
            "rule": rule(&o.prop),
            "samples": tally.samples,
            "cases": tally.cases,
            "search_s": search_s,
            "simulated_runs_per_hour": (tally.runs as f64 / search_s * 3600.0) as u64,
            "seeds_per_hour": (tally.cases as f64 / search_s * 3600.0) as u64,
            "simulated_time_s": tally.sim_ns as f64 / 1e9,
            "intercepted_calls": tally.calls as u64,
            "instrumented_edges_executed": tally.edges as u64,
            "context_switches": tally.switches as u64,
            "distinct_interleavings": tally.ilv.len(),
            "interleaving_measure": "hash of the sequence of (from thread, to thread, call count) of all context switches of a run",
            "code_edges": cov,
            "faults_and_decisions_injected": tally.stats,
            "run_endings": tally.ends,
            "determinism_reruns": tally.determinism,
            "determinism_mismatches": tally.nondeterministic.iter().map(|s| format!("{s:#x}")).collect::<Vec<_>>(),
            "discarded_runs": {"count": tally.nharness, "first": tally.harness},
            "unreproducible": tally.unreproducible,
            "known_findings_met": tally.known,
            "violation": violation,
            "components": components(&o.prop),
        },
        "assumptions": [
            "one virtual CPU: code between two intercepted calls or instrumented edges is atomic, and memory is sequentially consistent",
            "the kernel, job processes, compiler and user are simulated from the scenario",
        ],
    });
    let _ = std::fs::create_dir_all(v.join("evidence"));
    if let Err(e) = std::fs::write(v.join(format!("evidence/{}.json", o.prop)), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!(
        "{}: {} cases, {} runs, {:.0} simulated s, {} interleavings, {} nontrivial, {:.1} s",
        o.prop,
        tally.cases,
        tally.runs,
        tally.sim_ns as f64 / 1e9,
        tally.ilv.len(),
        tally.nontrivial.len(),
        wall
    );
    if code == 0 && (tally.cases == 0 || tally.nharness * 5 > tally.cases) {
        eprintln!("{} of {} cases could not be simulated: {:?}", tally.nharness, tally.cases, tally.harness);
        return 2;
    }
    code
}

fn rule(prop: &str) -> String {
    let what = match prop {
        "C01" => "at least two jobs, at least two workers and success reported",
        "C02" => "at least two jobs or a failure cause that took effect",
        "C03" => "at least two jobs were started",
        "C04" => "the handle was dropped while a job process was running",
        "C05" => "the safety margin was reached and a worker had to stop",
        "C06" => "a recorded job had several processes and a sustained memory level",
        "C07" => "at least two jobs",
        "C08" => "at least one query was answered after a fault, a clock jump or a file change",
        "C09" => "the file had content and a fault, truncation or short read took effect",
        "C10" | "C11" => "a measurement was started and then failed, was aborted or completed",
        "C12" => "at least one trace was displayed after an abort, a zoom or another trace",
        "C13" => "the application displayed a screen and the user pressed at least three keys",
        "C14" => "the application was killed while a measurement was under way",
        "C16" => "a screen was compared with the model after at least three keys",
        "C17" => "something needed at the start was missing, broken or unsuitable",
        "C15" => "a fault or a split of the input or output took effect",
        _ => "",
    };
    format!("scenarios are generated from the seed (workload, system, schedule and fault profile); non-trivial: {what}; distinct: by hash of the complete event log")
}

fn components(prop: &str) -> Value {
    let real: &[&str] = match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" => {
            &["cmakeperf", "std", "crossbeam-deque", "atomic-wait", "sysinfo", "wait-timeout", "csv", "serde_json", "shlex", "pathdiff"]
        }
        "C09" => &["cmakeperf", "clang-time-trace", "cpparser", "asylum", "std", "csv", "serde_json"],
        "C15" => &["crofiler (binary)", "simpp (binary)", "clang-time-trace", "cpparser", "asylum", "std", "clap"],
        _ => &["crofiler (binary, text interface)", "cmakeperf", "clang-time-trace", "cpparser", "asylum", "cursive", "crossterm", "mio", "signal-hook", "std", "syslog client"],
    };
    json!({
        "real": real,
        "simulated": ["thread scheduler", "futexes", "clocks and timers", "file system", "/proc", "child processes", "signals", "pipes", "terminal and user", "syslog daemon", "randomness"],
        "driver": if matches!(prop, "C01"|"C02"|"C03"|"C04"|"C05"|"C06"|"C07"|"C08"|"C09") { "verif/drv (simdrv)" } else { "none, the shipped binary runs" },
    })
}

/// Replace the random decisions of every session by the recorded ones
fn explicit(case: &Case, runs: &[Run]) -> Case {
    let mut c = case.clone();
    for (s, r) in c.sessions.iter_mut().zip(runs) {
        s.sc.explicit = true;
        s.sc.choices = r.choices.clone();
    }
    c
}

fn minimise(rn: &mut Runner, v: &Path, case: &Case, code: &str, what: &str, known: &[Known]) -> (PathBuf, Replay) {
    let t0 = Instant::now();
    let budget = Duration::from_secs(60);
    let runs0 = run_case(rn, case);
    let n0: usize = runs0.iter().map(|r| r.choices.len()).sum();
    let mut attempts = 0u64;
    let mut fails = |rn: &mut Runner, c: &Case| -> bool {
        attempts += 1;
        let r = run_case(rn, c);
        r.iter().all(|x| x.harness_error.is_none()) && has_code(&unknown(&judge(c, &r).bad, known), code)
    };
    let mut cur = explicit(case, &runs0);
    let mut note = String::new();
    if fails(rn, &cur) {
        // Structure first: every smaller scenario that still fails
        loop {
            let mut progress = false;
            for c in shrink(&cur) {
                if t0.elapsed() > budget {
                    break;
                }
                if fails(rn, &c) {
                    cur = c;
                    progress = true;
                    break;
                }
            }
            if !progress || t0.elapsed() > budget {
                break;
            }
        }
        // Then the decisions (ddmin)
        for si in 0..cur.sessions.len() {
            let mut n = 2usize;
            loop {
                let ch = cur.sessions[si].sc.choices.clone();
                if ch.is_empty() || t0.elapsed() > budget {
                    break;
                }
                let n2 = n.min(ch.len());
                let size = ch.len().div_ceil(n2);
                let mut reduced = false;
                for k in 0..n2 {
                    if t0.elapsed() > budget {
                        break;
                    }
                    let mut c = cur.clone();
                    let rest: Vec<Choice> =
                        ch.iter().enumerate().filter(|(i, _)| *i < k * size || *i >= (k + 1) * size).map(|(_, x)| *x).collect();
                    if rest.len() == ch.len() {
                        continue;
                    }
                    c.sessions[si].sc.choices = rest;
                    if fails(rn, &c) {
                        cur = c;
                        reduced = true;
                        n = n.saturating_sub(1).max(2);
                        break;
                    }
                }
                if !reduced {
                    if n >= ch.len() {
                        break;
                    }
                    n = (n * 2).min(ch.len());
                }
            }
        }
        // Structure again, now that fewer decisions depend on it
        loop {
            let mut progress = false;
            for c in shrink(&cur) {
                if t0.elapsed() > budget * 3 / 2 {
                    break;
                }
                if fails(rn, &c) {
                    cur = c;
                    progress = true;
                    break;
                }
            }
            if !progress || t0.elapsed() > budget * 3 / 2 {
                break;
            }
        }
        let n1: usize = cur.sessions.iter().map(|s| s.sc.choices.len()).sum();
        note = format!("{n0} scheduling and fault decisions reduced to {n1} in {attempts} runs");
    } else {
        cur = case.clone();
        note.push_str("replayed from its seed");
    }
    let runs = run_case(rn, &cur);
    let vd = judge(&cur, &runs);
    let what = vd.bad.iter().find(|b| b.0 == code).map(|b| b.1.clone()).unwrap_or(what.into());
    let mut trace = Vec::new();
    for (i, r) in runs.iter().enumerate() {
        trace.push(format!("--- session {i}: {} {:?}", cur.sessions[i].bin, cur.sessions[i].sc.argv));
        trace.extend(r.text(1500));
    }
    let decisions = cur
        .sessions
        .iter()
        .enumerate()
        .flat_map(|(i, s)| {
            s.sc.choices.iter().map(move |c| format!("session {i}: {} thread {} #{} -> {}", kind::NAMES[c.0 as usize % 12], c.1, c.2, c.3))
        })
        .collect();
    let rep = Replay {
        property: case.prop.clone(),
        code: code.into(),
        what,
        hash: runs.iter().fold(0, |a, r| mix(a ^ r.raw_hash)),
        case: cur,
        trace,
        decisions,
        minimised: note,
    };
    let _ = std::fs::create_dir_all(v.join("replays"));
    let path = v.join(format!("replays/{}-{:016x}.json", case.prop, case.seed));
    std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("cannot write replay file");
    (path, rep)
}

/// Smaller variants of a case
fn shrink(case: &Case) -> Vec<Case> {
    let mut out = Vec::new();
    for i in 0..case.sessions.len() {
        let sc = &case.sessions[i].sc;
        let mut push = |f: &dyn Fn(&mut Scenario)| {
            let mut c = case.clone();
            f(&mut c.sessions[i].sc);
            if c != *case {
                out.push(c);
            }
        };
        for k in 1..kind::NAMES.len() as u8 {
            push(&|s| s.choices.retain(|c| c.0 != k));
        }
        for k in 0..sc.faults.rules.len() {
            push(&|s| {
                s.faults.rules.remove(k);
            });
        }
        for k in 0..sc.faults.slow.len() {
            push(&|s| {
                s.faults.slow.remove(k);
            });
        }
        push(&|s| s.clock_jumps.clear());
        push(&|s| s.bg_mem.truncate(1));
        push(&|s| s.pid_space = 30000);
        push(&|s| {
            for p in &mut s.programs {
                p.script.sig_latency = 0;
            }
        });
        for k in 0..sc.programs.len().min(80) {
            push(&|s| {
                let p = &mut s.programs[k];
                p.script.ops.retain(|o| !matches!(o, Op::Out(..) | Op::OutN(..) | Op::Threads(_)));
            });
            push(&|s| s.programs[k].script.term = OnTerm::Die);
        }
        if let Some(t) = &sc.tty {
            for k in (0..t.user.len()).rev() {
                push(&|s| {
                    s.tty.as_mut().unwrap().user.remove(k);
                });
            }
        }
    }
    if case.family == "measure" {
        out.extend(crate::meas::shrink(case));
    }
    out
}

pub fn replay(path: &str, show: bool) -> i32 {
    let rep: Replay = match std::fs::read(path).map_err(|e| e.to_string()).and_then(|d| serde_json::from_slice(&d).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("cannot read {path}: {e}");
            return 2;
        }
    };
    let v = verif();
    let mut rn = Runner::new(&v, allowed_cpus().first().copied());
    let runs = run_case(&mut rn, &rep.case);
    if show {
        for r in &runs {
            for l in r.text(usize::MAX) {
                println!("{l}");
            }
        }
    }
    let h = runs.iter().fold(0, |a, r| mix(a ^ r.raw_hash));
    if let Some(e) = runs.iter().find_map(|r| r.harness_error.clone()) {
        eprintln!("harness error: {e}");
        return 2;
    }
    let vd = judge(&rep.case, &runs);
    for b in &vd.bad {
        println!("{}: {}", b.0, b.1);
    }
    println!("event log {}", if h == rep.hash { "identical to the recorded one" } else { "differs from the recorded one" });
    if has_code(&vd.bad, &rep.code) {
        println!("VIOLATION property={} replay={}", rep.property, path);
        1
    } else {
        println!("the violation does not occur");
        0
    }
}
