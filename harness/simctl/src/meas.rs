//! Full-build measurements (C01–C07): scenario generator.
use crate::gen::*;
use crate::run::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use simproto::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Job {
    pub file: String,
    pub dir: String,
    pub argv: Vec<String>,
    /// Why the job must fail, empty if it must not
    pub fail: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Meta {
    pub jobs: Vec<Job>,
    pub measures: Vec<Meas>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Meas {
    pub id: u64,
    pub path: String,
    pub time: bool,
    pub concurrency: Option<u64>,
    pub oversub: bool,
    pub kill: bool,
}

#[derive(Clone, Copy, Default)]
struct Knobs {
    fail: f64,
    kill: f64,
    mem: f64,
    out: f64,
    bigout: f64,
    tree: f64,
    orphan: f64,
    threads: f64,
    disk: f64,
    pids: f64,
    stalls: bool,
    curves: f64,
    clock: f64,
    long: f64,
    grace: f64,
    conc_none: f64,
    again: f64,
}

fn knobs(prop: &str) -> Knobs {
    let k = Knobs { stalls: true, out: 0.15, tree: 0.15, conc_none: 0.15, grace: 0.15, curves: 0.2, ..Default::default() };
    match prop {
        "C01" => Knobs { mem: 0.4, long: 0.1, kill: 0.03, again: 0.1, ..k },
        "C02" => Knobs { fail: 0.6, disk: 0.3, out: 0.5, bigout: 0.25, mem: 0.1, long: 0.15, ..k },
        "C03" => Knobs { kill: 0.08, mem: 0.15, conc_none: 0.5, again: 0.15, ..k },
        "C04" => Knobs { kill: 1.0, mem: 0.25, fail: 0.1, tree: 0.5, grace: 0.4, bigout: 0.1, again: 0.15, ..k },
        "C05" => Knobs { mem: 1.0, tree: 0.2, kill: 0.03, grace: 0.3, ..k },
        "C06" => Knobs { tree: 0.6, threads: 0.4, mem: 0.2, pids: 0.3, curves: 0.9, clock: 0.4, orphan: 0.1, bigout: 0.05, ..k },
        "C07" => Knobs { out: 0.5, bigout: 0.4, tree: 0.3, mem: 0.15, fail: 0.1, pids: 0.1, clock: 0.2, again: 0.1, ..k },
        _ => k,
    }
}

struct Style {
    dur: u64,
    base: u64,
    mem_lo: u64,
    mem_hi: u64,
    ramp: bool,
}

fn duration(r: &mut Rng, s: &Style) -> u64 {
    match s.dur {
        0 => r.below(2 * MS),
        1 => s.base,
        2 => {
            let k = r.range(0, 8) * 50 * MS;
            (k + r.below(4 * MS)).saturating_sub(2 * MS)
        }
        3 => r.logu(100 * US, 3 * S),
        // Like those of real life
        5 => {
            if r.chance(0.5) {
                r.logu(50 * MS, 3 * S)
            } else {
                r.logu(2 * S, 60 * S)
            }
        }
        _ => s.base / 2 + r.below(s.base),
    }
}

fn level(r: &mut Rng, s: &Style) -> u64 {
    r.logu(s.mem_lo, s.mem_hi) / 4096 * 4096
}

/// Memory-using work of one process
fn work(r: &mut Rng, s: &Style, k: &Knobs, total: u64, ops: &mut Vec<Op>) {
    if s.ramp {
        let top = level(r, s);
        let n = r.range(1, 12);
        for i in 1..=n {
            ops.push(Op::Rss(top / n * i / 4096 * 4096));
            ops.push(Op::Sleep(total / n));
        }
    } else if r.chance(k.curves) {
        let n = r.range(1, 6);
        for _ in 0..n {
            ops.push(Op::Rss(level(r, s)));
            ops.push(Op::Sleep(total / n));
        }
    } else {
        ops.push(Op::Rss(level(r, s)));
        ops.push(Op::Sleep(total));
    }
}

fn job_script(r: &mut Rng, s: &Style, k: &Knobs) -> Script {
    let mut ops = Vec::new();
    if r.chance(0.3) {
        ops.push(Op::Sleep(r.below(5 * MS)));
    }
    if r.chance(k.threads) {
        ops.push(Op::Threads(r.range(2, 8) as u32));
    }
    let out = |r: &mut Rng, ops: &mut Vec<Op>| {
        if r.chance(k.out) {
            let f = 1 + r.below(2) as i32;
            ops.push(Op::Out(f, nasty_output(r)));
        }
        if r.chance(k.bigout) {
            let f = 1 + r.below(2) as i32;
            ops.push(Op::OutN(f, r.logu(1000, 400_000)));
        }
    };
    let term = |r: &mut Rng, sc: &mut Script| {
        if r.chance(k.grace) {
            sc.term = OnTerm::Grace(r.logu(MS, 500 * MS));
        }
        if r.chance(0.2) {
            sc.sig_latency = r.logu(10 * US, 5 * MS);
        }
    };
    out(r, &mut ops);
    let d = duration(r, s);
    if r.chance(k.tree) {
        // Compiler driver: small parent, working children, maybe nested
        ops.push(Op::Rss(level(r, s).min(20 * MB)));
        let n = if r.chance(0.7) { 1 } else { r.range(2, 3) };
        for _ in 0..n {
            let mut c = Vec::new();
            let threads = r.chance(k.threads);
            if threads {
                c.push(Op::Threads(r.range(2, 8) as u32));
            }
            if r.chance(0.3) {
                let mut g = Vec::new();
                work(r, s, k, d / 2, &mut g);
                let mut gs = script(g);
                term(r, &mut gs);
                // Wrappers around wrappers
                for _ in 0..if r.chance(0.6) { r.range(0, 7) } else { 0 } {
                    let mut w = vec![Op::Rss(MB), Op::Fork(gs), Op::WaitKids];
                    if r.chance(0.3) {
                        w.insert(1, Op::Sleep(r.below(3 * MS)));
                    }
                    gs = script(w);
                    term(r, &mut gs);
                }
                c.push(Op::Fork(gs));
                work(r, s, k, d / 2, &mut c);
                c.push(Op::WaitKids);
            } else {
                work(r, s, k, d, &mut c);
            }
            out(r, &mut c);
            let mut cs = script(c);
            term(r, &mut cs);
            ops.push(Op::Fork(cs));
            if r.chance(0.3) {
                ops.push(Op::Sleep(r.below(d.max(1))));
            }
        }
        if !r.chance(k.orphan) {
            ops.push(Op::WaitKids);
        }
    } else {
        work(r, s, k, d, &mut ops);
    }
    out(r, &mut ops);
    let mut sc = script(ops);
    term(r, &mut sc);
    sc
}

pub fn generate(prop: &str, seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut k = knobs(prop);
    if r.chance(0.2) {
        let stronger = *r.pick(&["C01", "C02", "C03", "C04", "C05", "C06", "C07"]);
        k = knobs(stronger);
    }
    let mut sc = Scenario { seed: simproto::mix(seed), ..Default::default() };
    sched(r, &mut sc, k.stalls);
    // Workload size
    let n = match r.below(10) {
        0 => r.range(0, 1),
        1..=6 => r.range(2, 9),
        7..=8 => r.range(10, 24),
        _ => r.range(25, 60),
    } as usize;
    sc.ncpu = r.range(1, 8) as u32;
    let time = r.chance(if prop == "C06" { 0.75 } else { 0.5 });
    // Machines with more workers than bits in a word
    let wide = prop == "C05" && r.chance(0.04) || matches!(prop, "C02" | "C03" | "C04") && r.chance(0.02);
    // ...with enough jobs for all of them
    let n = if wide && (prop != "C05" || r.chance(0.3)) { r.range(60, 150) as usize } else { n };
    // Short dips of available memory while few jobs are left
    let tail = !wide && matches!(prop, "C01" | "C03" | "C05" | "C07") && r.chance(0.2);
    // ...down to one that is sent back to workers which have nothing left to do
    let last = tail && r.chance(0.6);
    let slow = tail && !last && r.chance(if prop == "C05" { 0.6 } else { 0.3 });
    let turns = r.range(1, 2);
    let width = r.range(2, 3);
    let n = if last { (turns * width + 1) as usize } else if slow { r.range(3, 9) as usize } else if tail { r.range(2, 6) as usize } else { n };
    let conc = if last { Some(width) } else if tail { Some(r.range(2, 4).min(n as u64)) } else if wide { Some(*r.pick(&[63, 64, 65, 70, 128])) } else if r.chance(k.conc_none) { None } else { Some(r.logu(1, 10)) };
    let limit = conc.unwrap_or(if time { 1 } else { sc.ncpu as u64 });
    let oversub = r.chance(0.06);
    let mut st = Style {
        dur: r.below(5),
        base: r.logu(5 * MS, 800 * MS),
        mem_lo: MB,
        mem_hi: 60 * MB,
        ramp: false,
    };
    if wide && prop != "C05" {
        st.dur = *r.pick(&[1, 4]);
        st.base = r.logu(50 * MS, S);
    } else if n > 24 {
        st.dur = *r.pick(&[0, 1, 4]);
        st.base = r.logu(MS, 100 * MS);
    }
    if matches!(prop, "C02" | "C04" | "C06") && n < 10 && r.chance(0.06) {
        st.dur = 5;
    }
    let wide_mem = wide && prop == "C05";
    let mem = !tail && (wide_mem || !wide && r.chance(k.mem));
    let bkg = if oversub { sc.ncpu as u64 } else { 1 };
    if mem {
        if st.dur != 5 && (st.dur == 0 || st.base < 60 * MS) {
            st.dur = *r.pick(&[1, 2, 4]);
            st.base = r.range(60 * MS, 900 * MS);
        }
        st.ramp = r.chance(0.75);
        st.mem_lo = *r.pick(&[20 * MB, 60 * MB, 100 * MB]);
        st.mem_hi = *r.pick(&[120 * MB, 160 * MB, 300 * MB, 700 * MB]);
        let margin = 100_000_000 * (limit + bkg);
        let per = (st.mem_lo + st.mem_hi) / 2;
        // room for between none and all of the jobs
        let fit = r.below(limit * 2 + 1) * per / 2;
        sc.mem_total = 64 << 30;
        let free = margin + fit + r.below(200 * MB);
        let bg = sc.mem_total - free;
        sc.bg_mem = vec![(0, bg)];
        if wide_mem {
            // everything must go
            sc.bg_mem = vec![(0, sc.mem_total - margin - 200 * MB), (60 * MS + r.below(60 * MS), sc.mem_total - 90 * MB)];
        } else if r.chance(0.4) {
            // other applications come and go
            let mut t = 0;
            for _ in 0..r.range(1, 4) {
                t += r.logu(10 * MS, S);
                let f = if r.chance(0.5) { margin.saturating_sub(r.below(margin)) } else { margin + r.below(per * limit) };
                sc.bg_mem.push((t, sc.mem_total - f.max(30 * MB)));
            }
        }
    }
    if tail {
        st = Style { dur: if slow { 5 } else { 3 }, base: 0, mem_lo: MB, mem_hi: 4 * MB, ramp: false };
        sc.mem_total = 64 << 30;
        let margin = |active: u64| 100_000_000 * (active + bkg);
        let high = sc.mem_total - margin(limit) - r.range(30, 90) * MB;
        sc.bg_mem = vec![(0, high)];
        let (mut t, mut active) = (0, limit);
        if last {
            st.dur = 1;
            st.base = r.range(80 * MS, S);
            let at = turns * (st.base + 3 * MS) + r.range(st.base / 8, st.base * 3 / 4);
            sc.bg_mem.push((at, sc.mem_total - margin(active) + r.below(90_000_000)));
            sc.bg_mem.push((at + r.range(60, 120) * MS, high));
        }
        for _ in 0..if last { 0 } else { r.range(1, limit) } {
            t += if slow { r.logu(S, 25 * S) } else { r.logu(30 * MS, 3 * S) };
            sc.bg_mem.push((t, sc.mem_total - margin(active) + r.below(90_000_000)));
            t += r.range(60, 120) * MS;
            sc.bg_mem.push((t, high));
            active = (active - 1).max(1);
        }
    }
    if r.chance(k.pids) {
        sc.pid_space = if wide { 2000 } else { r.range(200, 260) as u32 };
    }
    if r.chance(k.clock) {
        for _ in 0..r.range(1, 4) {
            let t = r.below(2 * S);
            let d = *r.pick(&[-3600_i64, 3600, -1, 1, -86_400 * 365, 40]) * S as i64;
            sc.clock_jumps.push((t, d));
        }
    }
    // Jobs
    let long = !tail && r.chance(k.long);
    let n = if long { r.range(20, 50) as usize } else { n };
    if long {
        st.dur = 0;
    }
    let mut jobs: Vec<Job> = Vec::new();
    let mut db = Vec::new();
    sc.files.push(dir("/work/obj"));
    sc.files.push(dir("/work/sub dir"));
    sc.files.push(dir("/other"));
    let will_fail = r.chance(k.fail);
    let nfail = if will_fail && n > 0 { 1 + r.below(2.min(n as u64)) } else { 0 };
    let failing: Vec<usize> = (0..nfail).map(|_| r.below(n as u64) as usize).collect();
    for i in 0..n {
        let mut file = match r.below(12) {
            0 => format!("/other/lib{i}.cpp"),
            1 => format!("/work/sub dir/f, \"{i}\".cpp"),
            2 => format!("/work/src/é{i}.cpp"),
            3 => format!("rel{i}.cpp"),
            4 => format!("/work/f{i}.cpp"),
            5 => format!("/x{i}.cc"),
            _ => format!("/work/src/mod{}/f{i}.cpp", i % 3),
        };
        if long {
            file = format!("/work/src/{}/f{i}.cpp", "long-directory-name/".repeat(r.range(8, 20) as usize));
        }
        if i > 0 && r.chance(0.08) {
            // Several targets share a source file
            let k = r.below(i as u64) as usize;
            file = jobs[k].file.clone();
        }
        let cwd = match r.below(5) {
            0 => "/work/sub dir",
            1 => "/other",
            2 => "/work/obj",
            _ => "/work",
        }
        .to_string();
        let mut argv = vec![if r.chance(0.3) { "/usr/bin/c++".to_string() } else { "clang++".to_string() }, format!("-DJOB={i}")];
        for _ in 0..r.below(4) {
            argv.push(match r.below(15) {
                12 => "-DW=\\".into(),
                13 => "'\"".into(),
                14 => "-DV=a\\\\".into(),
                8 => "-DS=a b".into(),
                9 => "-I/path with/two  spaces".into(),
                10 => "#x".into(),
                11 => "-DT=a\tb\\\\c".into(),
                0 => "-DNAME=\"a b\"".into(),
                1 => "-I/usr/include/it's".into(),
                2 => "-DX=\\n$y".into(),
                3 => "".into(),
                4 => "-O2".into(),
                5 => "--".into(),
                6 => "-DU=é".into(),
                _ => "a;b|c&d>e*?~#".into(),
            });
        }
        argv.push("-o".into());
        argv.push(format!("f{i}.o"));
        argv.push("-c".into());
        argv.push(file.clone());
        let mut cmd = String::new();
        let backslash = r.chance(0.15);
        for (j, a) in argv.iter().enumerate() {
            if j > 0 {
                cmd.push_str(if r.chance(0.1) { "  " } else { " " });
            }
            cmd.push_str(&if backslash { escape(a) } else { quote(r, a) });
        }
        let mut scr = job_script(r, &st, &k);
        let mut errno = 0;
        let mut fail = String::new();
        let mut cwd = cwd;
        if failing.contains(&i) {
            match r.below(8) {
                0..=2 => {
                    fail = "exit".into();
                    scr.ops.push(Op::Exit(*r.pick(&[1, 2, 255])));
                }
                3 => {
                    fail = "signal".into();
                    scr.ops.push(Op::Die(*r.pick(&[6, 11, 9, 15])));
                }
                4 => {
                    // early failure while others go on
                    fail = "exit".into();
                    scr.ops = vec![Op::Sleep(r.below(20 * MS)), Op::Exit(1)];
                }
                5 => {
                    fail = "spawn".into();
                    errno = *r.pick(&[libc::ENOENT, libc::EACCES, libc::EAGAIN, libc::ENOMEM]);
                }
                6 => {
                    fail = "nodir".into();
                    cwd = "/work/missing".into();
                }
                _ => {
                    fail = "noprog".into();
                    cmd = "  ".into();
                    argv.clear();
                }
            }
        }
        sc.programs.push(Prog { args: vec![format!("-DJOB={i}")], from: 0, errno, script: scr.clone() });
        if mem && r.chance(0.3) {
            // Behaves differently when run again
            let again = job_script(r, &st, &k);
            if fail.is_empty() {
                sc.programs.push(Prog { args: vec![format!("-DJOB={i}")], from: 1, errno, script: again });
            }
        }
        db.push(json!({"directory": cwd, "command": cmd, "file": file}));
        jobs.push(Job { file, dir: cwd, argv, fail });
    }
    sc.files.push(file("/work/compile_commands.json", &to_latin(serde_json::to_string(&db).unwrap().as_bytes()), T0 - 100 * S as i64));
    if r.chance(0.3) {
        sc.files.push(file("/work/prof.csv", "file,max_rss,time\nold.cpp,1,\n", T0 - 50 * S as i64));
    }
    if r.chance(k.disk) {
        match r.below(5) {
            0 => sc.faults.rules.push(FaultRule {
                op: "open".into(),
                path: "prof.csv".into(),
                nth: 0,
                count: 1,
                errno: *r.pick(&[libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EMFILE]),
            }),
            _ => sc.faults.rules.push(FaultRule {
                op: "write".into(),
                path: "prof.csv".into(),
                nth: r.below(3) as u32,
                count: *r.pick(&[1, 1, 1000]),
                errno: *r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT]),
            }),
        }
    }
    // Driver
    let est: u64 = {
        let per = match st.dur {
            0 => MS,
            2 => 200 * MS,
            3 => 500 * MS,
            5 => 6 * S,
            _ => st.base,
        };
        (per + 5 * MS) * (n as u64).div_ceil(limit).max(1)
    };
    let mut measures = Vec::new();
    let mut drv = Vec::new();
    let reps = if r.chance(k.again) { 2 } else { 1 };
    for id in 0..reps {
        let kill = r.chance(k.kill) || (reps == 2 && id == 0 && r.chance(0.6));
        let path = if id == 0 { "prof.csv".to_string() } else { "/work/obj/prof2.csv".to_string() };
        let mut c = json!({"cmd": "measure", "path": path, "time": time, "id": id, "oversub": oversub});
        if let Some(x) = conc {
            c["concurrency"] = json!(x);
        }
        if kill {
            if r.chance(0.25) && n > 0 {
                c["kill_step"] = json!(r.range(1, n as u64));
            } else {
                let t = match r.below(4) {
                    0 => r.below(3 * MS),
                    1 => r.logu(10 * US, est + 60 * MS),
                    _ => r.below(est + 60 * MS),
                };
                c["kill_ns"] = json!(t);
            }
        }
        measures.push(Meas { id, path: if id == 0 { "/work/prof.csv".into() } else { path }, time, concurrency: conc, oversub, kill });
        drv.push(c);
    }
    if r.chance(0.3) {
        drv.push(json!({"cmd": "sleep", "ns": r.logu(MS, S)}));
    }
    sc.driver = json!(drv);
    sc.limits.max_calls = 2_000_000;
    sc.limits.max_time = 600 * S;
    let meta = Meta { jobs, measures };
    Case {
        prop: prop.into(),
        family: "measure".into(),
        seed,
        sessions: vec![Session { bin: "simdrv".into(), inherit: false, sc }],
        meta: serde_json::to_value(meta).unwrap(),
    }
}

/// Smaller variants: fewer jobs, simpler driver
pub fn shrink(case: &Case) -> Vec<Case> {
    let mut out = Vec::new();
    let meta: Meta = serde_json::from_value(case.meta.clone()).unwrap();
    let dbp = "/work/compile_commands.json";
    let Some(fi) = case.sessions[0].sc.files.iter().position(|f| f.path == dbp) else { return out };
    let db: Vec<serde_json::Value> =
        serde_json::from_slice(&from_latin(&case.sessions[0].sc.files[fi].data)).unwrap_or_default();
    let n = db.len();
    // The oracle identifies jobs by index: drop them from the end only
    for m in [n / 2, n * 3 / 4, n.saturating_sub(1)] {
        if m < n {
            let mut c = case.clone();
            c.sessions[0].sc.files[fi].data = to_latin(serde_json::to_string(&db[..m]).unwrap().as_bytes());
            let mut me = meta.clone();
            me.jobs.truncate(m);
            c.meta = serde_json::to_value(me).unwrap();
            out.push(c);
        }
    }
    out
}
