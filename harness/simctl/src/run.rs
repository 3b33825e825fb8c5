//! Running one simulation and parsing its log.
use serde::{Deserialize, Serialize};
use simproto::*;
use std::collections::BTreeMap;
use std::os::fd::RawFd;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};

/// One execution of one program, part of a case
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Session {
    /// simdrv, crofiler or simpp
    pub bin: String,
    /// Start from the file system left by the previous session
    pub inherit: bool,
    pub sc: Scenario,
}

/// One test case: a sequence of sessions judged together
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub prop: String,
    pub family: String,
    pub seed: u64,
    pub sessions: Vec<Session>,
    pub meta: serde_json::Value,
}

#[derive(Clone, Debug)]
pub struct Line {
    pub t: u64,
    /// Virtual time spent executing up to now
    pub b: u64,
    pub tid: i32,
    pub k: String,
    pub f: Vec<String>,
}
impl Line {
    pub fn s(&self, i: usize) -> String {
        String::from_utf8_lossy(&unesc(self.f.get(i).map(|s| s.as_str()).unwrap_or(""))).into_owned()
    }
    pub fn raw(&self, i: usize) -> Vec<u8> {
        unesc(self.f.get(i).map(|s| s.as_str()).unwrap_or(""))
    }
    pub fn i(&self, i: usize) -> i64 {
        self.f.get(i).and_then(|s| s.parse().ok()).unwrap_or(i64::MIN)
    }
    pub fn u(&self, i: usize) -> u64 {
        self.f.get(i).and_then(|s| s.parse().ok()).unwrap_or(0)
    }
    pub fn json(&self) -> serde_json::Value {
        serde_json::from_slice(&self.raw(0)).unwrap_or(serde_json::Value::Null)
    }
}

#[derive(Clone, Debug, Default)]
pub struct Run {
    pub lines: Vec<Line>,
    pub choices: Vec<Choice>,
    pub stats: BTreeMap<String, u64>,
    /// why the run ended, from the END line
    pub why: String,
    pub code: i32,
    pub signal: i32,
    pub calls: u64,
    pub edges: u64,
    pub switches: u64,
    pub ilv: u64,
    pub hash: String,
    pub sim_ns: u64,
    pub ended: bool,
    pub harness_error: Option<String>,
    pub cov: Vec<u8>,
    pub raw_hash: u64,
}
impl Run {
    pub fn of<'a>(&'a self, k: &'a str) -> impl Iterator<Item = &'a Line> + 'a {
        self.lines.iter().filter(move |l| l.k == k)
    }
    /// Files at the end of the run
    pub fn files(&self, sc: &Scenario) -> BTreeMap<String, (u32, i64, Vec<u8>)> {
        let orig: BTreeMap<&str, &FileSpec> = sc.files.iter().map(|f| (f.path.as_str(), f)).collect();
        let mut r = BTreeMap::new();
        for l in self.of("FILE") {
            let d = l.f.get(3).cloned().unwrap_or_default();
            let data = if let Some(o) = d.strip_prefix('=') {
                let o = String::from_utf8_lossy(&unesc(o)).into_owned();
                orig.get(o.as_str()).map(|f| from_latin(&f.data)).unwrap_or_default()
            } else {
                unesc(d.strip_prefix('+').unwrap_or(""))
            };
            r.insert(l.s(0), (l.u(1) as u32, l.i(2), data));
        }
        r
    }
    pub fn end_time(&self) -> u64 {
        self.lines.last().map(|l| l.t).unwrap_or(0)
    }
    pub fn text(&self, max: usize) -> Vec<String> {
        self.lines
            .iter()
            .take(max)
            .map(|l| {
                let mut s = format!("{:.6} T{} {}", l.t as f64 / 1e9, l.tid, l.k);
                for f in &l.f {
                    s.push(' ');
                    if f.len() > 400 {
                        s.push_str(&f.chars().take(400).collect::<String>());
                        s.push('…');
                    } else {
                        s.push_str(f);
                    }
                }
                s
            })
            .collect()
    }
}

pub struct Runner {
    log_fd: RawFd,
    map: *mut u8,
    cpu: Option<usize>,
    pub bin_dir: PathBuf,
    pub simrt: PathBuf,
}
unsafe impl Send for Runner {}

pub fn allowed_cpus() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return vec![];
        }
        (0..1024).filter(|&i| libc::CPU_ISSET(i, &set)).collect()
    }
}

fn memfd(name: &str) -> RawFd {
    let c = std::ffi::CString::new(name).unwrap();
    let fd = unsafe { libc::memfd_create(c.as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd_create failed");
    fd
}

impl Runner {
    pub fn new(verif: &std::path::Path, cpu: Option<usize>) -> Runner {
        let bin_dir = verif.join("target/sut/x86_64-unknown-linux-gnu/debug");
        let simrt = verif.join("target/harness/release/libsimrt.so");
        let log_fd = memfd("simlog");
        unsafe {
            assert_eq!(libc::ftruncate(log_fd, LOG_SIZE as i64), 0);
            let map = libc::mmap(
                std::ptr::null_mut(),
                LOG_SIZE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                log_fd,
                0,
            );
            assert!(map != libc::MAP_FAILED);
            Runner { log_fd, map: map as *mut u8, cpu, bin_dir, simrt }
        }
    }

    pub fn run(&mut self, bin: &str, sc: &Scenario) -> Run {
        let mut r = self.run_once(bin, sc);
        // Resource shortages of the host are not results
        let mut tries = 0;
        while r.harness_error.as_deref() == Some("host") && tries < 5 {
            tries += 1;
            std::thread::sleep(std::time::Duration::from_millis(200 << tries));
            r = self.run_once(bin, sc);
        }
        r
    }

    fn run_once(&mut self, bin: &str, sc: &Scenario) -> Run {
        let js = serde_json::to_vec(sc).unwrap();
        let sfd = memfd("scenario");
        unsafe {
            libc::ftruncate(self.log_fd, 0);
            libc::ftruncate(self.log_fd, LOG_SIZE as i64);
            let mut off = 0;
            while off < js.len() {
                let n = libc::write(sfd, js[off..].as_ptr() as *const _, js.len() - off);
                assert!(n > 0);
                off += n as usize;
            }
            libc::lseek(sfd, 0, libc::SEEK_SET);
        }
        let path = self.bin_dir.join(bin);
        let mut c = Command::new(&path);
        c.args(&sc.argv)
            .env_clear()
            .env("LD_PRELOAD", &self.simrt)
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", "/home/user")
            .env("TERM", "xterm-256color")
            .env("LANG", "C.UTF-8")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null());
        let (lfd, cpu) = (self.log_fd, self.cpu);
        unsafe {
            c.pre_exec(move || {
                if libc::dup2(sfd, SCEN_FD) < 0 || libc::dup2(lfd, LOG_FD) < 0 {
                    return Err(std::io::Error::last_os_error());
                }
                libc::personality(0x0040000);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                if let Some(cpu) = cpu {
                    let mut set: libc::cpu_set_t = std::mem::zeroed();
                    libc::CPU_SET(cpu, &mut set);
                    libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
                }
                let l = libc::rlimit { rlim_cur: 60, rlim_max: 60 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &l);
                Ok(())
            });
        }
        let status = c.status();
        unsafe { libc::close(sfd) };
        let mut r = Run::default();
        let status = match status {
            Ok(s) => s,
            Err(e) => {
                r.harness_error = Some(if matches!(e.raw_os_error(), Some(libc::EAGAIN) | Some(libc::ENOMEM)) {
                    "host".into()
                } else {
                    format!("cannot run {}: {e}", path.display())
                });
                return r;
            }
        };
        use std::os::unix::process::ExitStatusExt;
        r.signal = status.signal().unwrap_or(0);
        r.code = status.code().unwrap_or(-1);
        self.parse(&mut r);
        let unimpl = r.of("UNIMPL").next().cloned();
        if !r.ended {
            r.harness_error = Some(format!(
                "run ended without a final state (exit code {}, signal {}); last lines: {:?}",
                r.code,
                r.signal,
                r.lines.iter().rev().take(3).map(|l| format!("{} {} {}", l.t, l.k, l.f.join(" "))).collect::<Vec<_>>()
            ));
            if r.signal == libc::SIGKILL {
                r.harness_error = Some("host".into());
            }
            // A crash of the program itself is a result, not a harness error
            if matches!(r.signal, libc::SIGSEGV | libc::SIGABRT | libc::SIGILL | libc::SIGBUS | libc::SIGFPE) {
                r.harness_error = None;
                r.why = format!("signal-{}", r.signal);
            }
        } else if let Some(l) = unimpl {
            r.harness_error = Some(format!("unsupported call: {}", l.f.join(" ")));
        } else if (88..=94).contains(&r.code) || r.code == 97 {
            r.harness_error = Some(format!("simulator runtime error {}", r.code));
        }
        r
    }

    fn parse(&self, r: &mut Run) {
        let (used, nguards);
        let data: &[u8];
        unsafe {
            used = (*(self.map as *const u64) as usize).min(LOG_SIZE - LOG_HEADER - COV_SIZE);
            nguards = (*(self.map.add(16) as *const u64) as usize).min(COV_SIZE);
            data = std::slice::from_raw_parts(self.map.add(LOG_HEADER), used);
            r.cov = std::slice::from_raw_parts(self.map.add(LOG_SIZE - COV_SIZE), nguards).to_vec();
        }
        let mut h = 0xcbf29ce484222325u64;
        for l in data.split(|&b| b == b'\n') {
            if l.is_empty() {
                continue;
            }
            for &b in l {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
            let s = String::from_utf8_lossy(l);
            if let Some(c) = s.strip_prefix("\t\tC\t") {
                let v: Vec<u64> = c.split('\t').filter_map(|x| x.parse().ok()).collect();
                if v.len() == 4 {
                    r.choices.push((v[0] as u8, v[1] as u32, v[2], v[3]));
                }
                continue;
            }
            let mut it = s.split('\t');
            let t = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            let b = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            let tid = it.next().and_then(|x| x.parse().ok()).unwrap_or(-1);
            let k = it.next().unwrap_or("").to_string();
            let f: Vec<String> = it.map(|x| x.to_string()).collect();
            let line = Line { t, b, tid, k, f };
            match line.k.as_str() {
                "STATS" => {
                    r.stats.insert(line.s(0), line.u(1));
                    continue;
                }
                "END" => {
                    r.ended = true;
                    r.why = line.s(0);
                    r.calls = line.u(2);
                    r.edges = line.u(3);
                    r.switches = line.u(4);
                    r.ilv = u64::from_str_radix(&line.f[5], 16).unwrap_or(0);
                    r.hash = line.s(6);
                    r.sim_ns = line.t;
                }
                _ => {}
            }
            r.lines.push(line);
        }
        r.raw_hash = h;
    }
}

/// Run all sessions of a case
pub fn run_case(rn: &mut Runner, case: &Case) -> Vec<Run> {
    let mut runs: Vec<Run> = Vec::new();
    let mut prev: Option<Scenario> = None;
    for s in &case.sessions {
        let mut sc = s.sc.clone();
        if s.inherit {
            if let (Some(p), Some(r)) = (&prev, runs.last()) {
                let keep: Vec<FileSpec> = p.files.iter().filter(|f| f.kind != FileKind::File).cloned().collect();
                sc.files = keep;
                for (path, (mode, mtime, data)) in r.files(p) {
                    sc.files.push(FileSpec { path, kind: FileKind::File, data: to_latin(&data), mtime, mode });
                }
                // files given explicitly by the session replace inherited ones
                for f in &s.sc.files {
                    sc.files.retain(|g| g.path != f.path);
                    sc.files.push(f.clone());
                }
            }
        }
        let r = rn.run(&s.bin, &sc);
        prev = Some(sc);
        let stop = r.harness_error.is_some();
        runs.push(r);
        if stop {
            break;
        }
    }
    runs
}

/// Scenario a session really started from (after inheritance)
pub fn effective(case: &Case, runs: &[Run], i: usize) -> Scenario {
    let mut prev: Option<Scenario> = None;
    for (j, s) in case.sessions.iter().enumerate().take(i + 1) {
        let mut sc = s.sc.clone();
        if s.inherit && j > 0 {
            if let Some(p) = &prev {
                sc.files = p.files.iter().filter(|f| f.kind != FileKind::File).cloned().collect();
                for (path, (mode, mtime, data)) in runs[j - 1].files(p) {
                    sc.files.push(FileSpec { path, kind: FileKind::File, data: to_latin(&data), mtime, mode });
                }
                for f in &s.sc.files {
                    sc.files.retain(|g| g.path != f.path);
                    sc.files.push(f.clone());
                }
            }
        }
        prev = Some(sc);
    }
    prev.unwrap()
}
