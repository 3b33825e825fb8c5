//! The text interface (C10–C14 and the prompts of C08): scenario generator.
use crate::gen::*;
use crate::load::*;
use crate::run::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simproto::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Unit {
    /// Source file
    pub file: String,
    /// Path as it must appear in a profile (relative to the build directory)
    pub rel: String,
    pub dir: String,
    /// Arguments of the compiler, program excluded
    pub args: Vec<String>,
    /// Expected trace file
    pub trace: String,
    /// Memory according to the initial profile
    pub mem: u64,
    /// Does the job of the build measurement succeed?
    pub job_ok: bool,
    /// Does the compiler succeed when measuring a trace (per invocation)?
    pub clang_ok: Vec<bool>,
    /// Trace that the compiler produces (per invocation, Latin-1), empty if it fails
    pub product: Vec<String>,
    pub tag: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Meta {
    /// build, trace, visit, keys
    pub mode: String,
    pub units: Vec<Unit>,
    pub profile: String,
    /// Result of the clang --version probe is acceptable
    pub clang_fine: bool,
    pub granularity: Option<u64>,
    /// Expected prompt at the start: none, new, stale, maybe
    pub prompt: String,
    /// Visits of C12: (unit, number of snapshots), in order
    pub visits: Vec<Visit>,
    /// No file system or program failures are injected
    pub healthy: bool,
    /// The profile was chosen on the command line
    #[serde(default)]
    pub explicit: bool,
    /// The user lets the measurement go on
    #[serde(default)]
    pub undisturbed: bool,
    /// Unit of interest
    #[serde(default)]
    pub target: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Visit {
    pub unit: usize,
    /// Label prefix of the snapshots in the main session
    pub label: String,
    /// Index of the reference session
    pub session: usize,
    pub snaps: usize,
}

pub const UP: &str = "\x1b[A";
pub const DOWN: &str = "\x1b[B";
pub const RIGHT: &str = "\x1b[C";
pub const LEFT: &str = "\x1b[D";
pub const ENTER: &str = "\r";
pub const ESC: &str = "\x1b";

pub fn keys(k: &str) -> UserStep {
    UserStep::Keys(to_latin(k.as_bytes()))
}
pub fn sleep(d: u64) -> UserStep {
    UserStep::Sleep(d)
}
pub fn wait(t: &str, d: u64) -> UserStep {
    UserStep::Wait(t.into(), d)
}

/// A click, a double click, a drag or a turn of the wheel
fn mouse_event(r: &mut Rng, w: u64, h: u64) -> String {
    // The top of the screen, its center where dialogs are, anything
    let place = |r: &mut Rng| match r.below(3) {
        0 => (r.range(1, w), r.range(1, 8)),
        1 => (r.range(w / 4, w * 3 / 4), (h / 2).saturating_sub(4) + r.below(9)),
        _ => (r.range(1, w), r.range(1, h)),
    };
    let (x, y) = place(r);
    match r.below(8) {
        0 => format!("\x1b[<64;{x};{y}M"),
        1 => format!("\x1b[<65;{x};{y}M"),
        2 => {
            let (u, v) = place(r);
            format!("\x1b[<0;{x};{y}M\x1b[<32;{u};{v}M\x1b[<0;{u};{v}m")
        }
        3 => format!("\x1b[<0;{x};{y}M\x1b[<0;{x};{y}m\x1b[<0;{x};{y}M\x1b[<0;{x};{y}m"),
        4 => format!("\x1b[<{};{x};{y}M", r.below(3)),
        5 => format!("\x1b[<2;{x};{y}M\x1b[<2;{x};{y}m"),
        _ => format!("\x1b[<0;{x};{y}M\x1b[<0;{x};{y}m"),
    }
}

/// Leave the application from any state
pub fn leave(u: &mut Vec<UserStep>) {
    for i in 0..6 {
        u.push(UserStep::SkipUnless("<Quit>".into(), 2));
        u.push(keys(ENTER));
        u.push(sleep(500 * MS));
        u.push(UserStep::SkipUnless("Ready to quit?".into(), 2));
        // Make sure that the first button has the focus
        u.push(keys("\x1b[D\x1b[D\r"));
        u.push(sleep(500 * MS));
        if i > 0 {
            // Another dialog may be in the way
            u.push(keys(ESC));
            u.push(sleep(500 * MS));
            u.push(UserStep::SkipUnless("<Ok>".into(), 2));
            u.push(keys("\x1b[C\x1b[C\t\r"));
            u.push(sleep(500 * MS));
            u.push(UserStep::SkipUnless("<Ok>".into(), 2));
            u.push(keys(ENTER));
            u.push(sleep(500 * MS));
        }
        u.push(keys("q"));
        u.push(wait("Ready to quit?", 4 * S));
        u.push(UserStep::SkipUnless("Ready to quit?".into(), 2));
        u.push(keys(ENTER));
        u.push(sleep(4 * S));
    }
}

pub struct App {
    pub sc: Scenario,
    pub meta: Meta,
    pub mtime_profile: Option<i64>,
    /// Unusual files
    pub odd: bool,
}

/// A complete profile of all units
fn profile_text(r: &mut Rng, units: &[Unit], time: bool, odd: bool) -> String {
    let mut s = String::from("file,max_rss,time\n");
    let mut order: Vec<usize> = (0..units.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    for i in order {
        let u = &units[i];
        let mut t = if time { format!("{}.{:03}", r.below(100), r.below(1000)) } else { String::new() };
        if odd && r.chance(0.4) {
            t = (*r.pick(&["", "NaN", "inf", "-1", "-0.0", "1e30", "3.5"])).into();
        }
        s += &format!("{},{},{t}\n", u.rel, u.mem);
    }
    s
}

pub fn trace_text(r: &mut Rng, tag: &str, size: u64) -> String {
    trace_text_of(r, tag, size, false)
}

/// A trace, possibly an unusual one
fn trace_text_of(r: &mut Rng, tag: &str, size: u64, odd: bool) -> String {
    let t = gen_trace_of(r, size, false, true);
    let mut v = t.json;
    if odd {
        let real = |e: &Value| e["ph"] == "X" && !e["name"].as_str().unwrap().starts_with("Total ");
        let ev = v["traceEvents"].as_array_mut().unwrap();
        match r.below(4) {
            0 => ev.retain(|e| !real(e)),
            1 => ev.iter_mut().filter(|e| real(e)).for_each(|e| e["dur"] = json!(0)),
            // A few that take no time
            2 => {
                let kids: Vec<usize> = (0..ev.len()).filter(|&i| real(&ev[i])).collect();
                let i = *r.pick(&kids);
                let mut e = ev[i].clone();
                e["ts"] = json!(e["ts"].as_f64().unwrap() + e["dur"].as_f64().unwrap());
                e["dur"] = json!(0);
                ev.push(e);
            }
            _ => v["beginningOfTime"] = json!(*r.pick(&[1e18, -1e18, 1e300, -5.0, 0.0, 2.6e17, -6.3e16])),
        }
    }
    // The name of the process tells traces apart
    let ev = if v.is_array() { v.as_array_mut() } else { v["traceEvents"].as_array_mut() };
    for e in ev.unwrap() {
        if e["name"] == "process_name" {
            e["args"]["name"] = json!(tag);
        }
    }
    // Control characters are not for terminals
    fn printable(v: &mut Value) {
        match v {
            Value::String(s) => *s = s.replace(|c: char| c.is_control(), "_"),
            Value::Array(a) => a.iter_mut().for_each(printable),
            Value::Object(o) => o.values_mut().for_each(printable),
            _ => {}
        }
    }
    printable(&mut v);
    to_latin(json_text(r, &v, 0).as_bytes())
}

/// Everything around the application, without any user
pub fn app(r: &mut Rng, nmax: u64, twice: bool) -> App {
    // twice: some source files are compiled several times
    let mut sc = Scenario { seed: r.next(), ..Default::default() };
    sched(r, &mut sc, true);
    // Reading a regular file is not interrupted, and the CSV reader relies on that
    sc.faults.p_eintr = 0.0;
    sc.ncpu = r.range(1, 4) as u32;
    sc.syslog = true;
    sc.stdout_tty = true;
    sc.limits.max_time = 4000 * S;
    sc.files = vec![dir("/work"), dir("/src")];
    let n = r.range(1, nmax) as usize;
    let mut units: Vec<Unit> = vec![];
    let mut entries = vec![];
    let old = T0 - 86400 * S as i64;
    let outputs = r.chance(0.3);
    for i in 0..n {
        let file = match r.below(4) {
            0 => format!("/work/f{i}.cpp"),
            1 => format!("/src/mod/x{i}.cc"),
            2 => format!("/src/é{i}.cpp"),
            _ => format!("/src/f{i}.cpp"),
        };
        let again = twice && i > 0 && r.chance(0.5);
        let file = if again { r.pick(&units[..]).file.clone() } else { file };
        let d = if r.chance(0.7) { "/work".to_string() } else { "/work/sub".into() };
        let obj = match r.below(3) {
            0 => format!("o{i}.o"),
            1 => format!("CMakeFiles/t.dir/f{i}.cpp.o"),
            _ => format!("/work/out/f{i}.cpp.o"),
        };
        let mut args = vec![format!("-DJOB={i}")];
        if r.chance(0.3) {
            args.push("-DNAME=\"a b\"".into());
        }
        if r.chance(0.4) {
            // The order and the repetitions matter
            let pool = ["-I", "a", "-I", "b", "-Wall", "-Wno-all", "-Xclang", "-O2", "-std=c++17", "-DS=\"a  b\"", "-DQ='x'", "-DB=\\n", "-D*", "$HOME", "#", ""];
            for _ in 0..r.range(1, 6) {
                args.push(r.pick(&pool).to_string());
            }
        }
        args.extend(["-o".into(), obj.clone(), "-c".into(), file.clone()]);
        let program = if r.chance(0.5) { "/usr/bin/c++" } else { "g++" };
        let cmd: Vec<String> = std::iter::once(program.to_string()).chain(args.iter().cloned()).map(|a| quote(r, &a)).collect();
        let abs = if obj.starts_with('/') { obj } else { format!("{d}/{obj}") };
        let mut entry = json!({"directory": d, "command": cmd.join(" "), "file": file});
        if outputs {
            // Newer versions of CMake tell the output, from the build directory
            entry["output"] = json!(if r.chance(0.8) { rel(&abs, "/work") } else { abs.clone() });
        }
        entries.push(entry);
        if !again {
            sc.files.push(file_at(&file, "int x;", old - r.below(1000 * S) as i64));
        }
        let trace = abs.strip_suffix(".o").unwrap().to_string() + ".json";
        sc.files.push(dir(trace.rsplit_once('/').unwrap().0));
        units.push(Unit {
            rel: rel(&file, "/work"),
            file,
            dir: d,
            args,
            trace,
            mem: (n - i) as u64 * 100_000_000 + r.below(50_000_000),
            job_ok: true,
            clang_ok: vec![],
            product: vec![],
            tag: format!("clang-T{i}-"),
        });
    }
    sc.files.push(dir("/work/sub"));
    sc.files.push(file("/work/compile_commands.json", &to_latin(serde_json::to_string(&entries).unwrap().as_bytes()), old));
    sc.programs.push(Prog {
        args: vec!["--version".into()],
        from: 0,
        errno: 0,
        script: script(vec![
            Op::Out(1, "Ubuntu clang version 14.0.5-1\nTarget: x86_64\n".into()),
            Op::Exit(0),
        ]),
    });
    let tty = Tty { w: r.range(100, 180) as u16, h: r.range(24, 60) as u16, user: vec![] };
    sc.tty = Some(tty);
    let meta = Meta {
        mode: String::new(),
        units,
        profile: "/work/cmakeperf.csv".into(),
        clang_fine: true,
        granularity: None,
        prompt: String::new(),
        visits: vec![],
        healthy: true,
        explicit: false,
        undisturbed: false,
        target: 0,
    };
    App { sc, meta, mtime_profile: None, odd: false }
}

fn file_at(path: &str, data: &str, mtime: i64) -> FileSpec {
    file(path, data, mtime)
}

impl App {
    pub fn case(self, prop: &str, seed: u64) -> Case {
        Case {
            prop: prop.into(),
            family: "tui".into(),
            seed,
            sessions: vec![Session { bin: "crofiler".into(), inherit: false, sc: self.sc }],
            meta: serde_json::to_value(self.meta).unwrap(),
        }
    }

    pub fn user(&mut self) -> &mut Vec<UserStep> {
        &mut self.sc.tty.as_mut().unwrap().user
    }

    /// Jobs of the build measurement
    pub fn jobs(&mut self, r: &mut Rng, p_fail: f64) {
        let long = r.logu(MS, 3 * S);
        let n = self.meta.units.len();
        let bad = if r.chance(p_fail) { Some(r.below(n as u64) as usize) } else { None };
        for (i, u) in self.meta.units.iter_mut().enumerate() {
            let mut ops = vec![];
            let mut errno = 0;
            ops.push(Op::Rss(r.logu(1 << 20, 2 << 30) / 4096 * 4096));
            if r.chance(0.2) {
                ops.push(Op::Out(r.range(1, 2) as i32, shown_output(r)));
            }
            ops.push(Op::Sleep(if r.chance(0.5) { long } else { r.logu(10 * US, 3 * S) }));
            if bad == Some(i) {
                u.job_ok = false;
                match r.below(5) {
                    0 => errno = *r.pick(&[libc::ENOENT, libc::EACCES, libc::EAGAIN, libc::ENOMEM]),
                    1 => ops.push(Op::Die(libc::SIGSEGV)),
                    _ => {
                        ops.push(Op::Out(2, "error: expected ';'\n".into()));
                        ops.push(Op::Exit(r.range(1, 255) as i32));
                    }
                }
            } else {
                ops.push(Op::Exit(0));
            }
            let mut sp = script(ops);
            if r.chance(0.2) {
                sp.term = OnTerm::Grace(r.logu(MS, 300 * MS));
            }
            if r.chance(0.2) {
                sp.sig_latency = r.logu(10 * US, 20 * MS);
            }
            self.sc.programs.push(Prog { args: vec![format!("-DJOB={i}")], from: 0, errno, script: sp });
        }
    }

    /// Compiler runs for trace measurement
    pub fn clang(&mut self, r: &mut Rng, unit: usize, runs: usize, p_fail: f64) {
        let gr = self.meta.granularity;
        let _ = gr;
        for k in 0..runs {
            let u = &mut self.meta.units[unit];
            let tag = format!("{}v{}-", u.tag, k + 1);
            let size = r.logu(1, 60);
            let text = trace_text(r, &tag, size);
            let chunk = match r.below(3) {
                0 => 1 << 30,
                1 => r.logu(1, 200),
                _ => r.logu(100, 4096),
            };
            let chunk = chunk.max(text.len() as u64 / 40);
            let delay = if r.chance(0.5) { r.logu(US, 100 * MS) } else { 0 };
            let mut ops = vec![Op::Sleep(r.logu(10 * US, 3 * S))];
            if r.chance(0.2) {
                ops.push(Op::Out(2, shown_output(r)));
            }
            if r.chance(0.15) {
                ops.push(Op::OutN(r.range(1, 2) as i32, r.logu(1000, 400_000)));
            }
            let fail = r.chance(p_fail);
            let mut errno = 0;
            u.clang_ok.push(!fail);
            if fail {
                let w = match r.below(4) {
                    0 => None,
                    1 => Some(text.clone()),
                    _ => Some(text.chars().take(r.below(text.len() as u64) as usize).collect()),
                };
                if let Some(w) = w {
                    ops.push(Op::WriteFile(u.trace.clone(), w, chunk, delay));
                }
                match r.below(6) {
                    0 => errno = *r.pick(&[libc::ENOENT, libc::EACCES, libc::EAGAIN, libc::ENOMEM]),
                    1 => ops.push(Op::Die(*r.pick(&[libc::SIGSEGV, libc::SIGKILL, libc::SIGABRT]))),
                    _ => {
                        ops.push(Op::Out(2, "fatal error: no such file\n".into()));
                        ops.push(Op::Exit(r.range(1, 255) as i32));
                    }
                }
                u.product.push(String::new());
            } else {
                ops.push(Op::WriteFile(u.trace.clone(), text.clone(), chunk, delay));
                ops.push(Op::Sleep(r.logu(US, 200 * MS)));
                ops.push(Op::Exit(0));
                u.product.push(text);
            }
            // Drivers, caches and the like run the compiler in another process
            for _ in 0..if r.chance(0.25) { r.range(1, 2) } else { 0 } {
                let mut inner = script(ops);
                if r.chance(0.5) {
                    inner.sig_latency = r.logu(10 * US, 100 * MS);
                }
                ops = vec![Op::Sleep(r.logu(US, 50 * MS)), Op::Fork(inner), Op::WaitKids, Op::Exit(-1)];
            }
            if r.chance(0.05) {
                // Something that lasts, such as a compilation server
                let end = ops.len() - 1;
                ops.insert(end, Op::Fork(script(vec![Op::Sleep(r.range(20, 40) * S)])));
            }
            let mut sp = script(ops);
            if r.chance(0.5) {
                sp.sig_latency = r.logu(10 * US, 100 * MS);
            }
            self.sc.programs.push(Prog { args: vec!["-ftime-trace".into(), format!("-DJOB={unit}")], from: k as u32, errno, script: sp });
        }
    }

    /// Initial build profile
    pub fn old_profile(&mut self, r: &mut Rng, kind: u64) {
        let time = r.chance(0.3);
        let odd = self.odd && r.chance(0.2);
        let text = profile_text(r, &self.meta.units, time, odd);
        let m = match kind {
            // From the future
            _ if odd && r.chance(0.3) => T0 + 5000 * S as i64,
            // Up to date
            0 => T0 - r.below(55 * S) as i64,
            // Maybe outdated
            1 => T0 - 61 * S as i64 - r.logu(S, 80000 * S) as i64,
            // Outdated
            _ => T0 - 86400 * S as i64 - 2000 * S as i64,
        };
        self.meta.prompt = ["none", "maybe", "stale"][kind.min(2) as usize].into();
        if kind == 2 {
            // The compilation database is newer
        }
        self.mtime_profile = Some(m);
        let text = to_latin(text.as_bytes());
        self.sc.files.push(file(&self.meta.profile.clone(), &text, m));
    }
}

/// A moment within a process that takes about d
pub fn moment(r: &mut Rng, d: u64) -> u64 {
    match r.below(4) {
        0 => 0,
        1 => r.logu(US, d.max(US)),
        _ => r.below(d + d / 2 + 1),
    }
}

/// Same path with another extension (or none)
pub fn sibling(p: &str, ext: &str) -> String {
    std::path::Path::new(p).with_extension(ext).to_str().unwrap().to_string()
}

/// Measure (or not) the profile of the build from the initial prompt, then leave
pub fn build_flow(a: &mut App, r: &mut Rng) {
    a.meta.mode = "build".into();
    let kind = r.below(5);
    if r.chance(0.25) {
        // Another location, for which the age of the profile does not matter
        a.meta.profile = if r.chance(0.7) {
            r.pick(&["/work/mine.csv", "/work/sub/prof.csv", "/out/p.csv"]).to_string()
        } else {
            // Nothing says what its extension should be
            r.pick(&["/work/mine", "/work/a.b.csv", "/work/data.tmp", "/out/data.bak", "/work/cmakeperf.tmp", "/work/.csv", "/out/prof.csv.tmp"]).to_string()
        };
        a.meta.explicit = true;
        a.sc.files.push(dir("/out"));
        let p = a.meta.profile.strip_prefix("/work/").unwrap_or(&a.meta.profile).to_string();
        a.sc.argv.extend(["--build-profile".into(), p]);
        if kind < 4 {
            a.old_profile(r, 2);
        } else {
            a.meta.prompt = "new".into();
        }
        if r.chance(0.5) {
            a.sc.files.push(file("/work/cmakeperf.csv", "nonsense", T0 - 99 * S as i64));
        }
    } else if kind < 4 {
        a.old_profile(r, kind.max(1));
    } else {
        a.meta.prompt = "new".into();
    }
    if r.chance(0.15) {
        // Leftovers of a crash
        let p = if r.chance(0.5) { sibling(&a.meta.profile, "tmp") } else { format!("{}.tmp", a.meta.profile) };
        if p != a.meta.profile {
            a.sc.files.push(file(&p, "file,max_rss,time\nold", T0 - 99 * S as i64));
        }
    }
    let stem = sibling(a.meta.profile.strip_prefix("/work/").unwrap_or(&a.meta.profile), "");
    if r.chance(0.25) {
        for _ in 0..r.range(1, 2) {
            a.sc.faults.slow.push(SlowRule {
                op: r.pick(&["open", "write", "write", "rename", "unlink"]).to_string(),
                path: stem.clone(),
                nth: r.below(3) as u32,
                count: *r.pick(&[1, 1, 1000]),
                delay: r.logu(MS, 800 * MS),
            });
        }
    }
    if r.chance(0.4) {
        // An older or unrelated backup
        let b = match r.below(3) {
            0 => "unrelated".to_string(),
            1 => "file,max_rss,time\nother.cpp,5,\n".into(),
            _ => String::new(),
        };
        let p = sibling(&a.meta.profile, "bak");
        if p != a.meta.profile {
            a.sc.files.push(file(&p, &b, T0 - 99 * S as i64));
        }
    }
    let pf = if r.chance(0.5) { 0.0 } else { 1.0 };
    a.jobs(r, pf);
    let total: u64 = 500 * MS + a.meta.units.len() as u64 * 300 * MS;
    let choose = if a.meta.prompt == "new" { ENTER.to_string() } else { format!("{RIGHT}{ENTER}") };
    let act = r.below(8);
    // Disk trouble
    if r.chance(0.2) {
        a.meta.healthy = false;
        let op = *r.pick(&["open", "write", "write", "rename"]);
        let rule = FaultRule {
            op: op.into(),
            path: stem.clone(),
            nth: if op == "write" { r.logu(1, 20) as u32 - 1 } else { r.below(3) as u32 },
            count: if r.chance(0.5) { 1 } else { 1000 },
            errno: *r.pick(&[libc::ENOSPC, libc::EIO, libc::EACCES, libc::EROFS]),
        };
        a.sc.faults.rules.push(rule);
    }
    let m = moment(r, total);
    let lag = r.logu(MS, S);
    let ahead = r.chance(0.15);
    let reusable = a.meta.prompt != "new";
    let u = a.user();
    if !ahead {
        u.push(wait(if choose == ENTER { "<Yes>" } else { "<Measure>" }, 60 * S));
        u.push(UserStep::Snap("prompt".into()));
        u.push(sleep(lag));
    } else {
        u.push(sleep(lag));
    }
    match act {
        0 if ahead || m == 0 => {
            // Measure and abort in one go
            u.push(keys(&format!("{choose}{ENTER}")));
        }
        0..=2 => {
            u.push(keys(&choose));
            u.push(sleep(m));
            u.push(UserStep::SkipUnless("<Abort>".into(), 1));
            u.push(keys(ENTER));
        }
        3 => {
            // Quit
            u.push(keys(&choose));
            u.push(sleep(m));
            u.push(keys(["q", "\x03"][r.below(2) as usize]));
            u.push(wait("Ready to quit?", 5 * S));
            u.push(sleep(lag));
            u.push(UserStep::SkipUnless("Ready to quit?".into(), 1));
            u.push(keys(ENTER));
        }
        4 if reusable => {
            // Keep the old one
            a.meta.mode = "reuse".into();
            let u = a.user();
            u.push(keys(ENTER));
        }
        _ => {
            u.push(keys(&choose));
            a.meta.undisturbed = !ahead;
            let u = a.user();
            for k in 0..r.below(4) {
                u.push(sleep(r.logu(50 * MS, 2 * S)));
                u.push(UserStep::Snap(format!("progress{k}")));
            }
        }
    }
    let profile = a.meta.profile.clone();
    let u = a.user();
    u.push(sleep(300 * MS));
    u.push(UserStep::WaitGone("Profiling the build".into(), 300 * S));
    u.push(sleep(4 * S));
    u.push(UserStep::Snap("after".into()));
    u.push(UserStep::SnapFile("after".into(), profile));
    leave(u);
}

/// Open the (fresh) profile of the build
fn open_profile(a: &mut App, r: &mut Rng) {
    let k = if r.chance(0.8) { 0 } else { r.range(1, 2) };
    a.old_profile(r, k);
    let u = a.user();
    if k > 0 {
        u.push(wait("<Reuse>", 60 * S));
        u.push(keys(ENTER));
    }
    u.push(wait("Press H for help", 60 * S));
    u.push(sleep(200 * MS));
}

/// Go to a row of the build profile (sorted by decreasing memory)
fn go(a: &mut App, unit: usize) {
    let n = a.meta.units.len();
    let u = a.user();
    u.push(keys(&UP.repeat(n)));
    u.push(sleep(200 * MS));
    if unit > 0 {
        u.push(keys(&DOWN.repeat(unit)));
        u.push(sleep(200 * MS));
    }
}

/// Initial trace of a unit: age as in old_profile, 3 for none
fn old_trace(a: &mut App, r: &mut Rng, unit: usize, kind: u64, size: u64) {
    let u = a.meta.units[unit].clone();
    if kind < 3 {
        let tag = format!("{}v0-", u.tag);
        let odd = a.odd && r.chance(0.2);
        let text = trace_text_of(r, &tag, size, odd);
        let m = match kind {
            0 => T0 - 3600 * S as i64,
            1 => T0 - r.below(40 * S) as i64,
            _ => T0 - 86400 * S as i64 - 2000 * S as i64,
        };
        a.sc.files.push(file(&u.trace, &text, m));
    }
}

/// Measure the trace of units from the build profile
pub fn trace_flow(a: &mut App, r: &mut Rng) {
    a.meta.mode = "trace".into();
    if r.chance(0.3) {
        let g = r.range(0, 5000);
        a.meta.granularity = Some(g);
        a.sc.argv.extend(["-g".into(), g.to_string()]);
    }
    open_profile(a, r);
    let n = a.meta.units.len();
    let rounds = r.range(1, 3) as usize;
    let unit = r.below(n as u64) as usize;
    let kind = *r.pick(&[0, 2, 3, 3]);
    let size = r.logu(1, 60);
    old_trace(a, r, unit, kind, size);
    if r.chance(0.35) {
        let p = a.meta.units[unit].trace.replace(".json", ".bak");
        let b = match r.below(3) {
            0 => "unrelated".to_string(),
            1 => trace_text(r, "clang-stale-", 5),
            _ => String::new(),
        };
        a.sc.files.push(file(&p, &b, T0 - 99 * S as i64));
    }
    let pf = *r.pick(&[0.0, 0.5, 1.0]);
    a.clang(r, unit, rounds, pf);
    if r.chance(0.15) {
        a.meta.healthy = false;
        let op = *r.pick(&["rename", "unlink", "open", "read"]);
        let path = a.meta.units[unit].trace.trim_end_matches("json").to_string();
        a.sc.faults.rules.push(FaultRule {
            op: op.into(),
            path,
            nth: r.below(4) as u32,
            count: if r.chance(0.5) { 1 } else { 1000 },
            errno: *r.pick(&[libc::ENOSPC, libc::EIO, libc::EACCES, libc::EROFS]),
        });
    }
    if r.chance(0.3) {
        let stem = a.meta.units[unit].trace.trim_end_matches("json").trim_start_matches("/work/").to_string();
        for _ in 0..r.range(1, 2) {
            let (op, ext) = *r.pick(&[("rename", "bak"), ("rename", "json"), ("unlink", ""), ("read", "json"), ("open", "json")]);
            a.sc.faults.slow.push(SlowRule {
                op: op.into(),
                path: format!("{stem}{ext}"),
                nth: r.below(2) as u32,
                count: *r.pick(&[1, 1, 1000]),
                delay: r.logu(MS, 800 * MS),
            });
        }
    }
    go(a, unit);
    for k in 0..rounds {
        let settle = r.chance(0.7);
        let m = moment(r, 1500 * MS);
        let lag = r.logu(MS, S);
        let act = r.below(7);
        let early = r.chance(0.5);
        let late = r.chance(0.5);
        let tr = a.meta.units[unit].trace.clone();
        let u = a.user();
        u.push(UserStep::SnapFile(format!("before{k}"), tr.clone()));
        u.push(keys(ENTER));
        u.push(sleep(300 * MS + lag));
        // Answer the prompt if there is one
        u.push(UserStep::SkipUnless("<Yes>".into(), 1));
        u.push(keys(ENTER));
        u.push(UserStep::SkipUnless("<Measure>".into(), 1));
        u.push(keys(&format!("{RIGHT}{ENTER}")));
        match act {
            0..=2 => {
                u.push(sleep(m));
                u.push(UserStep::SkipUnless("<Abort>".into(), 1));
                u.push(keys(ENTER));
            }
            3 => {
                u.push(sleep(m));
                u.push(keys("q"));
                u.push(wait("Ready to quit?", 5 * S));
                u.push(sleep(lag));
                u.push(UserStep::SkipUnless("Ready to quit?".into(), 1));
                u.push(keys(ENTER));
            }
            4 if late => {
                u.push(sleep(8 * S));
                u.push(UserStep::SkipUnless("<Abort>".into(), 1));
                u.push(keys(ENTER));
            }
            4 => {
                u.push(sleep(m));
                // This has no effect during the measurement
                u.push(keys(ESC));
                u.push(sleep(200 * MS));
            }
            _ => {}
        }
        if act != 3 && early {
            u.push(UserStep::WaitGone("Measuring time trace".into(), 300 * S));
            u.push(UserStep::Snap(format!("early{k}")));
            u.push(UserStep::SnapFile(format!("early{k}"), tr.clone()));
        }
        if settle {
            u.push(sleep(300 * MS));
            u.push(UserStep::WaitGone("Measuring time trace".into(), 300 * S));
            u.push(UserStep::WaitGone("Processing time trace".into(), 60 * S));
            u.push(sleep(5 * S));
            u.push(UserStep::Snap(format!("after{k}")));
            u.push(UserStep::SnapFile(format!("after{k}"), tr.clone()));
            u.push(UserStep::SnapFile(format!("bak{k}"), tr.replace(".json", ".bak")));
        } else {
            u.push(sleep(r.logu(MS, S)));
        }
        // Back to the build profile
        for _ in 0..3 {
            u.push(UserStep::SkipUnless("<Ok>".into(), 2));
            u.push(keys(ENTER));
            u.push(sleep(300 * MS));
        }
        u.push(UserStep::SkipUnless("Data from".into(), 2));
        u.push(keys(ESC));
        u.push(sleep(300 * MS));
    }
    let u = a.user();
    leave(u);
}

/// Keys pressed while exploring a trace
fn explore(r: &mut Rng, sorts: bool) -> Vec<String> {
    let mut v = vec![];
    for _ in 0..r.below(7) {
        let k = match r.below(if sorts { 12 } else { 9 }) {
            0 | 1 => DOWN.repeat(r.range(1, 3) as usize),
            2 | 3 => ENTER.to_string(),
            4 => "u".into(),
            5 => "f".into(),
            6 => UP.to_string(),
            7 => "b".into(),
            8 => "h".into(),
            9 => format!("{RIGHT}{ENTER}"),
            10 => format!("{LEFT}{ENTER}"),
            _ => format!("{RIGHT}{RIGHT}{ENTER}"),
        };
        v.push(k.clone());
        if k == "b" || k == "h" {
            v.push(ESC.into());
        }
    }
    v
}

/// Visit traces, aborting the loading of some (C12)
pub fn visit_flow(a: &mut App, r: &mut Rng) -> Vec<Session> {
    a.meta.mode = "visit".into();
    let reference = {
        let mut s = a.sc.clone();
        s.sched = Sched { call_cost: 1000, ..Default::default() };
        s.faults = Faults::default();
        s
    };
    let n = a.meta.units.len();
    let before = a.sc.files.len();
    open_profile(a, r);
    for i in 0..n {
        let size = if r.chance(0.5) { r.logu(1, 60) } else { r.logu(30, 400) };
        old_trace(a, r, i, 1, size);
    }
    if r.chance(0.4) {
        // Loading takes time
        for _ in 0..r.range(1, 3) {
            let unit = r.below(n as u64) as usize;
            let path = if r.chance(0.4) { ".json".to_string() } else { a.meta.units[unit].trace.trim_start_matches("/work/").to_string() };
            a.sc.faults.slow.push(SlowRule {
                op: r.pick(&["open", "read", "read"]).to_string(),
                path,
                nth: r.below(4) as u32,
                count: *r.pick(&[1, 2, 1000]),
                delay: r.logu(10 * MS, S),
            });
        }
    }
    let intro = a.user().clone();
    let files = a.sc.files[before..].to_vec();
    let mut out = vec![];
    let nv = r.range(2, 6);
    for v in 0..nv {
        let unit = r.below(n as u64) as usize;
        go(a, unit);
        let last = v + 1 == nv;
        if !last && r.chance(0.6) {
            // Start loading and abort
            let d = r.logu(10 * US, 300 * MS);
            let u = a.user();
            match r.below(3) {
                0 => u.push(keys("\r\r")),
                1 => {
                    u.push(keys(ENTER));
                    u.push(sleep(d));
                    u.push(keys(ENTER));
                }
                _ => {
                    u.push(keys(ENTER));
                    u.push(sleep(60 * MS));
                    u.push(UserStep::SkipUnless("<Reuse>".into(), 1));
                    u.push(keys(ENTER));
                    u.push(sleep(d));
                    u.push(UserStep::SkipUnless("<Abort>".into(), 1));
                    u.push(keys(ENTER));
                }
            }
            // Be sure to be back at the build profile before going on
            u.push(sleep(if r.chance(0.5) { r.range(40, 120) * MS } else { 600 * MS }));
            u.push(UserStep::SkipUnless("<Reuse>".into(), 2));
            u.push(keys(ENTER));
            u.push(sleep(250 * MS));
            for _ in 0..8 {
                u.push(UserStep::SkipUnless("Data from".into(), 2));
                u.push(keys(ESC));
                u.push(sleep(250 * MS));
            }
        } else {
            let ks = explore(r, last);
            let label = format!("v{v}-");
            let mut mine = vec![];
            mine.push(UserStep::Snap(format!("{label}pre")));
            mine.push(keys(ENTER));
            // A trace that is more than a minute old may be outdated
            mine.push(sleep(400 * MS));
            mine.push(UserStep::SkipUnless("<Reuse>".into(), 1));
            mine.push(keys(ENTER));
            mine.push(wait("Data from", 60 * S));
            mine.push(sleep(3 * S));
            mine.push(UserStep::Snap(format!("{label}0")));
            for (i, k) in ks.iter().enumerate() {
                mine.push(keys(k));
                mine.push(sleep(2 * S));
                mine.push(UserStep::Snap(format!("{label}{}", i + 1)));
            }
            a.user().extend(mine.clone());
            // The same in a fresh application
            let mut s = reference.clone();
            s.files.extend(files.clone());
            s.tty.as_mut().unwrap().user = intro.clone();
            let mut tmp = App { sc: s, meta: a.meta.clone(), mtime_profile: None, odd: false };
            go(&mut tmp, unit);
            tmp.user().extend(mine);
            a.meta.visits.push(Visit { unit, label, session: out.len() + 1, snaps: ks.len() + 1 });
            tmp.user().push(UserStep::Crash);
            out.push(Session { bin: "crofiler".into(), inherit: false, sc: tmp.sc });
            let u = a.user();
            for _ in 0..10 {
                u.push(UserStep::SkipUnless("Data from".into(), 2));
                u.push(keys(ESC));
                u.push(sleep(400 * MS));
            }
        }
    }
    let u = a.user();
    leave(u);
    out
}

/// The prompts shown before measuring (C08)
pub fn prompt_flow(a: &mut App, r: &mut Rng) {
    a.meta.mode = "prompt".into();
    a.sc.sched.stall_max = a.sc.sched.stall_max.min(100 * MS);
    a.sc.sched.estall_max = a.sc.sched.estall_max.min(100 * MS);
    let age = |r: &mut Rng| -> i64 {
        let unit = *r.pick(&[S, 60 * S, 3600 * S, 86400 * S]);
        match r.below(8) {
            0 => r.below(60 * S) as i64,
            1 => -(r.logu(S, 10 * 86400 * S) as i64),
            2 => (unit * r.range(1, 70)) as i64 - r.below(2) as i64 * S as i64,
            3 => 60 * S as i64 + r.below(3 * S) as i64 - S as i64,
            _ => r.logu(S, 30 * 86400 * S) as i64,
        }
    };
    // Sources and database: usually old, sometimes newer than everything
    let bulk = T0 - r.logu(100 * S, 40 * 86400 * S) as i64;
    let files: Vec<String> = a.meta.units.iter().map(|u| u.file.clone()).collect();
    for f in &mut a.sc.files {
        if f.path == "/work/compile_commands.json" || files.contains(&f.path) {
            f.mtime = bulk - r.logu(1, 1000 * S) as i64;
        }
    }
    if r.chance(0.5) {
        a.meta.profile = r.pick(&["/work/mine.csv", "/work/sub/prof.csv", "/out.csv"]).to_string();
        let p = a.meta.profile.clone();
        let p = p.strip_prefix("/work/").unwrap_or(&p).to_string();
        a.sc.argv.extend(["--build-profile".into(), p]);
        a.meta.explicit = true;
        if r.chance(0.5) {
            // The default location does not matter then
            a.sc.files.push(file("/work/cmakeperf.csv", "nonsense", T0 - age(r)));
        }
    }
    if r.chance(0.85) {
        let text = profile_text(r, &a.meta.units, false, false);
        let m = T0 - age(r);
        a.sc.files.push(file(&a.meta.profile.clone(), &to_latin(text.as_bytes()), m));
    }
    let unit = r.below(a.meta.units.len() as u64) as usize;
    for i in 0..a.meta.units.len() {
        if r.chance(0.8) {
            let u = a.meta.units[i].clone();
            let text = trace_text(r, &format!("{}v0-", u.tag), 5);
            let m = T0 - age(r);
            a.sc.files.push(file(&u.trace, &text, m));
        }
    }
    // One file close to one product
    if r.chance(0.6) {
        let products: Vec<i64> = a.sc.files.iter().filter(|f| f.path == a.meta.profile || f.path == a.meta.units[unit].trace).map(|f| f.mtime).collect();
        if !products.is_empty() {
            let t = *r.pick(&products) + *r.pick(&[-1, 0, 1, 1, 1000, S as i64]);
            let p = if r.chance(0.25) { "/work/compile_commands.json".to_string() } else { files[if r.chance(0.6) { unit } else { r.below(files.len() as u64) as usize }].clone() };
            for f in &mut a.sc.files {
                if f.path == p {
                    f.mtime = t;
                }
            }
        }
    }
    if r.chance(0.1) {
        let p = r.pick(&files).clone();
        a.sc.files.retain(|f| f.path != p);
    }
    if r.chance(0.2) {
        let mut ps = files.clone();
        ps.push("/work/compile_commands.json".into());
        ps.push(a.meta.profile.clone());
        ps.push(a.meta.units[unit].trace.clone());
        a.sc.faults.rules.push(FaultRule {
            op: "stat".into(),
            path: r.pick(&ps).clone(),
            nth: 0,
            count: 1_000_000,
            errno: *r.pick(&[libc::EACCES, libc::EIO, libc::ELOOP, libc::ENOTDIR, libc::ESTALE, libc::ENOENT]),
        });
    }
    a.jobs(r, 0.0);
    a.clang(r, unit, 1, 0.0);
    let u = a.user();
    u.push(sleep(3 * S));
    u.push(UserStep::Snap("prompt".into()));
    // The second answer of the first prompt ends the experiment
    if r.chance(0.25) {
        u.push(UserStep::SkipUnless("<".into(), 2));
        u.push(keys(RIGHT));
        u.push(sleep(200 * MS));
        u.push(keys(ENTER));
        u.push(sleep(200 * S));
        u.push(UserStep::Snap("other".into()));
        u.push(UserStep::Crash);
    } else if r.chance(0.15) {
        u.push(keys(ENTER));
        u.push(sleep(200 * S));
        u.push(UserStep::Snap("default".into()));
        u.push(UserStep::Crash);
    }
    u.push(UserStep::SkipUnless("<Reuse>".into(), 1));
    u.push(keys(ENTER));
    u.push(sleep(S));
    go(a, unit);
    a.meta.target = unit;
    let u = a.user();
    u.push(UserStep::Snap("table".into()));
    u.push(UserStep::SkipUnless("Press H for help".into(), 3));
    u.push(keys(ENTER));
    u.push(sleep(3 * S));
    u.push(UserStep::Snap("tprompt".into()));
    if r.chance(0.5) {
        let other = r.chance(0.5);
        u.push(UserStep::SkipUnless("<".into(), if other { 5 } else { 3 }));
        if other {
            u.push(keys(RIGHT));
            u.push(sleep(200 * MS));
            u.push(keys(ENTER));
            u.push(sleep(30 * S));
            u.push(UserStep::Snap("tother".into()));
        } else {
            u.push(keys(ENTER));
            u.push(sleep(30 * S));
            u.push(UserStep::Snap("tdefault".into()));
        }
    }
    u.push(UserStep::Crash);
}

/// Anything at all (C13)
pub fn key_flow(a: &mut App, r: &mut Rng) {
    a.meta.mode = "keys".into();
    a.odd = true;
    let n = a.meta.units.len();
    match r.below(8) {
        0 => {}
        1 => a.old_profile(r, 1),
        2 => a.old_profile(r, 2),
        _ => a.old_profile(r, 0),
    }
    let pf = *r.pick(&[0.0, 0.5]);
    a.jobs(r, pf);
    for i in 0..n {
        let kind = r.below(5).min(3);
        let size = r.logu(1, 300);
        old_trace(a, r, i, kind, size);
        let runs = r.range(1, 4) as usize;
        a.clang(r, i, runs, pf);
    }
    if r.chance(0.2) {
        // One trace only
        let i = r.below(n as u64) as usize;
        let t = a.meta.units[i].trace.clone();
        let size = r.logu(1, 300);
        a.sc.files.retain(|f| f.path != t);
        let tag = format!("{}v0-", a.meta.units[i].tag);
        let odd = r.chance(0.2);
        let text = trace_text_of(r, &tag, size, odd);
        let text = if r.chance(0.2) { text.chars().take(r.below(text.len() as u64) as usize).collect() } else { text };
        a.sc.files.push(file(&t, &text, T0 - 1));
        a.sc.argv.push(t);
    }
    let nk = r.range(3, 60);
    let resize = r.chance(0.2);
    let slow = r.chance(0.5);
    // How often the mouse is used instead of the keyboard
    let mouse = if r.chance(0.3) { *r.pick(&[0.1, 0.5, 0.9]) } else { 0.0 };
    let (w, h) = a.sc.tty.as_ref().map(|t| (t.w as u64, t.h as u64)).unwrap();
    let u = a.user();
    u.push(sleep(r.logu(MS, S)));
    for _ in 0..nk {
        let k = if r.chance(mouse) { mouse_event(r, w, h) } else { match r.below(30) {
            0..=5 => ENTER.to_string(),
            6..=8 => DOWN.into(),
            9 => UP.into(),
            10 | 11 => RIGHT.into(),
            12 => LEFT.into(),
            13..=14 => ESC.into(),
            15 => "\t".into(),
            16 => "u".into(),
            17 | 18 => "f".into(),
            19 => "b".into(),
            20 => "h".into(),
            21 => "q".into(),
            22 => "\x1b[6~".into(),
            23 => "\x1b[5~".into(),
            24 => "\x1b[H".into(),
            25 => "\x1b[F".into(),
            26 => format!("{DOWN}{ENTER}"),
            27 => format!("{RIGHT}{ENTER}"),
            28 => "\x1b[Z".into(),
            _ => ["x", "\x03", " ", "\x7f", "é", "\x1b[3~", "\x1bOP"][r.below(7) as usize].into(),
        }};
        u.push(keys(&k));
        if resize && r.chance(0.1) {
            u.push(UserStep::Resize(r.range(80, 200) as u16, r.range(24, 70) as u16));
        }
        if k == ESC || r.chance(0.8) {
            u.push(sleep(if slow { r.logu(10 * MS, 3 * S) } else { r.logu(100 * US, 300 * MS) }));
        }
    }
    u.push(sleep(S));
    leave(u);
    if r.chance(0.3) {
        a.meta.healthy = false;
        for _ in 0..r.range(1, 3) {
            let op = *r.pick(&["open", "read", "write", "stat", "rename", "unlink", "spawn", "opendir", "kill"]);
            let path = match op {
                "spawn" | "kill" => "",
                "opendir" => "/proc",
                _ => *r.pick(&["/work/", "/src", "json", "csv", "/proc"]),
            };
            a.sc.faults.rules.push(FaultRule {
                op: op.into(),
                path: path.into(),
                nth: r.logu(1, 30) as u32 - 1,
                count: if r.chance(0.6) { 1 } else { 1000 },
                errno: *r.pick(&[libc::ENOSPC, libc::EIO, libc::EACCES, libc::ENOENT, libc::ENOMEM, libc::EAGAIN]),
            });
        }
    }
    if r.chance(0.25) {
        for _ in 0..r.range(1, 3) {
            a.sc.faults.slow.push(SlowRule {
                op: r.pick(&["open", "read", "read", "write", "rename", "unlink"]).to_string(),
                path: r.pick(&["json", ".bak", "cmakeperf"]).to_string(),
                nth: r.below(6) as u32,
                count: *r.pick(&[1, 2, 1000]),
                delay: r.logu(10 * MS, S),
            });
        }
    }
    // An unsuitable environment
    match r.below(40) {
        0 => a.sc.programs[0].script.ops[0] = Op::Out(1, "clang version 8.0.1\n".into()),
        1 => a.sc.programs[0].script.ops[0] = Op::Out(1, "\u{ff}\u{fe}".into()),
        2 => a.sc.programs[0].errno = libc::ENOENT,
        3 => a.sc.programs[0].script.ops = vec![Op::Exit(3)],
        4 => a.sc.files.retain(|f| f.path != "/work/compile_commands.json"),
        5 => {
            for f in &mut a.sc.files {
                if f.path == "/work/compile_commands.json" {
                    let n = f.data.chars().count() as u64;
                    f.data = f.data.chars().take(r.below(n) as usize).collect();
                }
            }
        }
        6 | 7 => {
            let s = r.pick(&a.meta.units).file.clone();
            a.sc.files.retain(|f| f.path != s);
        }
        8 | 9 => a.sc.syslog = false,
        _ => return,
    }
    a.meta.healthy = false;
}

/// Quit in the middle of something that takes a long time (C13)
pub fn quit_flow(a: &mut App, r: &mut Rng) {
    a.meta.mode = "quit".into();
    let unit = r.below(a.meta.units.len() as u64) as usize;
    let kind = r.below(7);
    if kind > 4 {
        return twice_flow(a, r);
    }
    let size = r.logu(1, 100);
    let slow_load = |a: &mut App, r: &mut Rng| {
        let path = a.meta.units[unit].trace.trim_start_matches("/work/").to_string();
        a.sc.faults.slow.push(SlowRule {
            op: r.pick(&["open", "read"]).to_string(),
            path,
            nth: 0,
            count: *r.pick(&[1, 1, 2]),
            delay: r.logu(500 * MS, 5 * S),
        });
    };
    let longer = |a: &mut App, r: &mut Rng| {
        for p in &mut a.sc.programs {
            if p.args.iter().any(|x| x.starts_with("-DJOB")) {
                p.script.ops.insert(0, Op::Sleep(r.range(200, 3000) * S));
            }
        }
    };
    match kind {
        0 | 1 => {
            // Compile for a trace
            open_profile(a, r);
            let age = *r.pick(&[0, 2, 3]);
            old_trace(a, r, unit, age, size);
            a.clang(r, unit, 1, 0.0);
            longer(a, r);
            go(a, unit);
            let u = a.user();
            u.push(keys(ENTER));
            u.push(sleep(300 * MS));
            u.push(UserStep::SkipUnless("<Measure>".into(), 1));
            u.push(keys(RIGHT));
            u.push(keys(ENTER));
            u.push(wait("<Abort>", 20 * S));
        }
        2 => {
            // Build
            let k = r.range(1, 3);
            if k < 3 {
                a.old_profile(r, k);
            }
            a.jobs(r, 0.0);
            longer(a, r);
            let u = a.user();
            u.push(sleep(S));
            u.push(UserStep::SkipUnless("<Measure>".into(), 1));
            u.push(keys(RIGHT));
            u.push(keys(ENTER));
            u.push(wait("<Abort>", 20 * S));
        }
        3 => {
            // Load a trace
            open_profile(a, r);
            old_trace(a, r, unit, 1, size);
            slow_load(a, r);
            go(a, unit);
            let u = a.user();
            u.push(keys(ENTER));
            u.push(sleep(200 * MS));
            u.push(UserStep::SkipUnless("<Reuse>".into(), 1));
            u.push(keys(ENTER));
            u.push(wait("<Abort>", 2 * S));
        }
        _ => {
            // Nothing but a trace
            old_trace(a, r, unit, 1, size);
            slow_load(a, r);
            let t = a.meta.units[unit].trace.clone();
            a.sc.argv.push(t);
            let u = a.user();
            u.push(wait("<Abort>", 2 * S));
        }
    }
    let d = if kind < 3 && r.chance(0.3) { r.logu(S, 120 * S) } else { r.logu(US, S) };
    let u = a.user();
    u.push(sleep(d));
    if kind == 4 && r.chance(0.7) {
        u.push(UserStep::SkipUnless("<Abort>".into(), 3));
        u.push(keys(ENTER));
        u.push(sleep(9 * S));
        u.push(UserStep::Snap("aborted".into()));
    } else if kind < 3 && r.chance(0.3) {
        // Abort, but stay
        u.push(UserStep::SkipUnless("<Abort>".into(), 3));
        u.push(UserStep::Snap("abort".into()));
        u.push(keys(ENTER));
        u.push(UserStep::WaitGone("<Abort>".into(), 30 * S));
    } else {
        u.push(keys(if r.chance(0.7) { "q" } else { "\x03" }));
        u.push(wait("Ready to quit?", 10 * S));
        u.push(UserStep::SkipUnless("Ready to quit?".into(), 4));
        u.push(UserStep::Snap("asked".into()));
        u.push(keys(ENTER));
        u.push(sleep(20 * S));
        u.push(UserStep::Snap("still".into()));
    }
    leave(u);
}

/// Start in an environment which may not be suitable (C17)
fn start_flow(a: &mut App, r: &mut Rng) {
    let old = T0 - 86400 * S as i64;
    let db = "/work/compile_commands.json";
    let errnos = [libc::EIO, libc::EACCES, libc::EISDIR, libc::ENOMEM];
    let fail = |a: &mut App, r: &mut Rng, path: &str| {
        let op = r.pick(&["open", "read", "read"]).to_string();
        let nth = if op == "read" { r.below(3) as u32 } else { 0 };
        a.sc.faults.rules.push(FaultRule { op, path: path.into(), nth, count: if r.chance(0.5) { 1 } else { 1000 }, errno: *r.pick(&errnos) });
    };
    let cut = |r: &mut Rng, t: &str| -> String {
        let n = t.chars().count() as u64;
        t.chars().take(r.below(n) as usize).collect()
    };
    // What is expected: fine, or what the message is about
    let mut say = "";
    if r.chance(0.25) {
        // Only a trace, for which neither the database nor the compiler matter
        a.meta.mode = "start-trace".into();
        let size = r.logu(1, 60);
        old_trace(a, r, 0, 1, size);
        let t = a.meta.units[0].trace.clone();
        a.sc.argv.push(t.clone());
        match r.below(5) {
            0 => {
                a.sc.files.retain(|f| f.path != t);
                say = "input";
            }
            1 => {
                let f = a.sc.files.iter_mut().find(|f| f.path == t).unwrap();
                f.data = cut(r, &f.data);
                say = "input";
            }
            2 => {
                fail(a, r, &t);
                // May come after the end of the file
                say = "input?";
            }
            _ => {}
        }
        if r.chance(0.5) {
            a.sc.files.retain(|f| f.path != db);
        }
        if r.chance(0.5) {
            a.sc.programs[0].errno = libc::ENOENT;
        }
    } else {
        a.meta.mode = "start".into();
        match r.below(16) {
            0 => {
                a.sc.files.retain(|f| f.path != db);
                say = "database";
            }
            1 | 2 => {
                fail(a, r, db);
                say = "database?";
            }
            3 => {
                let f = a.sc.files.iter_mut().find(|f| f.path == db).unwrap();
                f.data = cut(r, &f.data);
                say = "database";
            }
            4 => {
                let f = a.sc.files.iter_mut().find(|f| f.path == db).unwrap();
                f.data = match r.below(5) {
                    0 => "{}".into(),
                    1 => String::new(),
                    2 => f.data.replacen("\"directory\"", "\"dir\"", 1),
                    3 => f.data.replacen("\"file\":", "\"file\":7,\"f\":", 1),
                    _ => f.data.clone() + "]",
                };
                say = "database";
            }
            _ => {}
        }
        // The compiler
        let p = &mut a.sc.programs[0];
        let suitable = [
            "clang version 9.0.0 (tags/RELEASE_900/final)",
            "clang version 9.0.1-12",
            "clang version 10.0.0-4ubuntu1 ",
            "Ubuntu clang version 14.0.5-1",
            "Debian clang version 11.0.1-2",
            "Apple clang version 12.0.5 (clang-1205.0.22.9)",
            "clang version 17.0.0 (https://github.com/llvm/llvm-project.git 01234)",
            "clang version 100.2.3",
        ];
        let unsuitable = [
            "clang version 8.0.1-9 (tags/RELEASE_801/final)",
            "clang version 3.9.1",
            "Ubuntu clang version 7.0.1-12",
            "Apple clang version 8.1.0 (clang-802.0.42)",
            "g++ (GCC) 13.2.0",
            "clang version unknown",
            "clang 12.0",
        ];
        let wrong = r.chance(0.4);
        let mut bad = "clang";
        let mut line = r.pick(&suitable).to_string();
        let mut end = Op::Exit(0);
        if wrong {
            match r.below(7) {
                0..=2 => line = r.pick(&unsuitable).to_string(),
                3 => {
                    p.errno = *r.pick(&[libc::ENOENT, libc::EACCES, libc::EAGAIN, libc::ENOMEM]);
                }
                4 => end = Op::Exit(r.range(1, 255) as i32),
                5 => end = Op::Die(*r.pick(&[libc::SIGSEGV, libc::SIGKILL, libc::SIGABRT])),
                _ => line = "\u{ff}\u{fe}clang version 12.0".into(),
            }
        } else {
            bad = "";
        }
        let text = format!("{line}\nTarget: x86_64-pc-linux-gnu\nThread model: posix\nInstalledDir: /usr/bin\n");
        let mut ops = vec![];
        let mut rest: Vec<char> = text.chars().collect();
        while !rest.is_empty() {
            let k = if r.chance(0.5) { rest.len() } else { r.range(1, rest.len() as u64) as usize };
            ops.push(Op::Out(1, rest.drain(..k).collect()));
            if r.chance(0.5) {
                ops.push(Op::Sleep(r.logu(US, S)));
            }
            if r.chance(0.1) {
                ops.push(Op::OutN(2, r.logu(1, 200_000)));
            }
        }
        ops.push(end);
        p.script.ops = ops;
        if say.is_empty() {
            say = bad;
        } else if say == "database?" && wrong {
            say = "database?clang";
        }
        // The profile
        match r.below(6) {
            0 => {}
            1 => a.old_profile(r, 2),
            2 => {
                a.old_profile(r, 0);
                let p = a.meta.profile.clone();
                let f = a.sc.files.iter_mut().find(|f| f.path == p).unwrap();
                f.data = match r.below(4) {
                    0 => f.data.replacen(',', ";", 3),
                    1 => f.data.clone() + "a.cpp,12x,\n",
                    2 => f.data.clone() + "a.cpp\n",
                    _ => f.data.clone() + "a.cpp,-1,\n",
                };
                if say.is_empty() {
                    say = "profile";
                } else if say == "database?" {
                    say = "database?profile";
                }
            }
            3 => {
                a.old_profile(r, 0);
                let p = a.meta.profile.clone();
                fail(a, r, &p);
                if say.is_empty() {
                    say = "profile?";
                } else if say == "database?" {
                    say = "database?profile?";
                }
            }
            _ => a.old_profile(r, 0),
        }
        if r.chance(0.1) {
            a.sc.files.push(file("/work/cmakeperf.csv.tmp", "left over", old));
        }
    }
    a.meta.prompt = say.into();
    if r.chance(0.1) {
        a.sc.syslog = false;
    }
    let u = a.user();
    u.push(sleep(r.range(12, 20) * S));
    u.push(UserStep::Snap("start".into()));
    u.push(UserStep::SkipUnless("<Quit>".into(), 3));
    u.push(keys(ENTER));
    u.push(sleep(6 * S));
    u.push(UserStep::Snap("acknowledged".into()));
    leave(u);
}

/// Abort loading a trace, and load another one while the first is still being read (C13)
fn twice_flow(a: &mut App, r: &mut Rng) {
    a.meta.mode = "twice".into();
    open_profile(a, r);
    let n = a.meta.units.len();
    for i in 0..n {
        let size = r.logu(1, 100);
        old_trace(a, r, i, 1, size);
        let path = a.meta.units[i].trace.trim_start_matches("/work/").to_string();
        if r.chance(0.9) {
            a.sc.faults.slow.push(SlowRule {
                op: r.pick(&["open", "read"]).to_string(),
                path,
                nth: 0,
                count: *r.pick(&[1, 1, 2, 3]),
                delay: r.logu(500 * MS, 8 * S),
            });
        }
    }
    let k = r.range(2, 4);
    for i in 0..k {
        let unit = r.below(n as u64) as usize;
        go(a, unit);
        let u = a.user();
        u.push(keys(ENTER));
        u.push(sleep(r.range(100, 300) * MS));
        u.push(UserStep::SkipUnless("<Reuse>".into(), 1));
        u.push(keys(ENTER));
        let d = if r.chance(0.7) { r.logu(MS, 300 * MS) } else { r.logu(300 * MS, 3 * S) };
        u.push(sleep(d));
        if i + 1 == k {
            break;
        }
        u.push(UserStep::SkipUnless("<Abort>".into(), 1));
        u.push(keys(ENTER));
        u.push(sleep(r.range(100, 400) * MS));
        u.push(UserStep::SkipUnless("Data from".into(), 2));
        u.push(keys(ESC));
        u.push(sleep(300 * MS));
    }
    let u = a.user();
    // Keys which do nothing, to tell whether the application still answers
    let gap = r.range(100, 600) * MS;
    for _ in 0..r.range(5, 25) {
        u.push(keys("x"));
        u.push(sleep(gap));
    }
    if r.chance(0.3) {
        u.push(UserStep::SkipUnless("<Abort>".into(), 1));
        u.push(keys(ENTER));
        u.push(sleep(300 * MS));
    }
    leave(u);
}

pub fn generate(prop: &str, seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let twice = prop == "C10" && r.chance(0.25);
    let mut a = app(r, if prop == "C12" { 4 } else { 6 }, twice);
    match prop {
        "C08" => prompt_flow(&mut a, r),
        "C10" => build_flow(&mut a, r),
        "C11" => trace_flow(&mut a, r),
        "C12" => {
            if a.sc.sched.stall_max > 300 * MS {
                a.sc.sched.stall_max = 300 * MS;
            }
            a.sc.sched.estall_max = a.sc.sched.estall_max.min(300 * MS);
            let more = visit_flow(&mut a, r);
            let mut c = a.case(prop, seed);
            c.sessions.extend(more);
            return c;
        }
        "C13" => match r.below(12) {
            10 | 11 => quit_flow(&mut a, r),
            0 => build_flow(&mut a, r),
            1 | 2 => trace_flow(&mut a, r),
            _ => key_flow(&mut a, r),
        },
        "C14" => return crash_case(a, r, prop, seed),
        "C17" => start_flow(&mut a, r),
        _ => panic!(),
    }
    a.case(prop, seed)
}

/// Killed at any point of a measurement, then started again (C14)
fn crash_case(mut a: App, r: &mut Rng, prop: &str, seed: u64) -> Case {
    let build = r.chance(0.5);
    if build {
        build_flow(&mut a, r);
    } else {
        trace_flow(&mut a, r);
    }
    a.sc.faults.rules.clear();
    a.meta.healthy = true;
    let first = a.sc.clone();
    let meta = a.meta.clone();
    a.sc.crash_at = 0;
    if r.chance(0.75) {
        a.sc.crash_fs = if r.chance(0.8) { r.range(1, 10) } else { r.logu(1, 60) };
    } else {
        a.sc.crash_at = r.logu(300, 60_000);
    }
    let mut c = a.case(prop, seed);
    for k in 0..r.range(1, 2) {
        let mut sc = first.clone();
        sc.files.clear();
        sc.seed = mix3(seed, k, 5);
        sc.realtime += (k as i64 + 1) * r.logu(S, 20000 * S) as i64 + 100 * S as i64;
        let m = moment(r, S);
        let abort = r.chance(0.6);
        let u = &mut sc.tty.as_mut().unwrap().user;
        u.clear();
        u.push(sleep(2 * S));
        let redo = r.chance(0.7);
        if build {
            if redo {
                u.push(UserStep::SkipUnless("<Yes>".into(), 1));
                u.push(keys(ENTER));
                u.push(UserStep::SkipUnless("<Measure>".into(), 1));
                u.push(keys(&format!("{RIGHT}{ENTER}")));
            } else {
                u.push(UserStep::SkipUnless("<Reuse>".into(), 1));
                u.push(keys(ENTER));
            }
        } else {
            u.push(UserStep::SkipUnless("<Reuse>".into(), 1));
            u.push(keys(ENTER));
            u.push(wait("Press H for help", 10 * S));
            let target = first.tty.as_ref().unwrap().user.iter().find_map(|s| match s {
                UserStep::SnapFile(_, p) => meta.units.iter().position(|x| x.trace == *p),
                _ => None,
            });
            let n = target.unwrap_or(0);
            if n > 0 {
                u.push(keys(&DOWN.repeat(n)));
                u.push(sleep(200 * MS));
            }
            u.push(keys(ENTER));
            u.push(sleep(S));
            if redo {
                u.push(UserStep::SkipUnless("<Yes>".into(), 1));
                u.push(keys(ENTER));
                u.push(UserStep::SkipUnless("<Measure>".into(), 1));
                u.push(keys(&format!("{RIGHT}{ENTER}")));
            } else {
                u.push(UserStep::SkipUnless("<Reuse>".into(), 1));
                u.push(keys(ENTER));
            }
        }
        if abort {
            u.push(sleep(m));
            u.push(UserStep::SkipUnless("<Abort>".into(), 1));
            u.push(keys(ENTER));
        }
        u.push(sleep(300 * MS));
        u.push(UserStep::WaitGone("<Abort>".into(), 300 * S));
        u.push(sleep(4 * S));
        u.push(UserStep::Snap("after".into()));
        u.push(UserStep::SkipUnless("<Ok>".into(), 2));
        u.push(keys(ENTER));
        u.push(sleep(300 * MS));
        leave(u);
        if r.chance(0.25) {
            sc.crash_fs = if r.chance(0.8) { r.range(1, 10) } else { r.logu(1, 60) };
        }
        c.sessions.push(Session { bin: "crofiler".into(), inherit: true, sc });
    }
    c
}
