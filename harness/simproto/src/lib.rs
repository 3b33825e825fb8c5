//! Data shared between the simulator runtime (simrt, lives inside the program
//! under test) and the orchestrator (simctl).

pub mod vt;

use serde::{Deserialize, Serialize};

/// File descriptor of the scenario memfd inside of the simulated process
pub const SCEN_FD: i32 = 900;
/// File descriptor of the shared log memfd inside of the simulated process
pub const LOG_FD: i32 = 901;
/// Size of the shared log
pub const LOG_SIZE: usize = 96 << 20;
/// Log header: used bytes (u64), status (u64), coverage length (u64)
pub const LOG_HEADER: usize = 4096;
/// Room for the edge coverage map at the end of the log
pub const COV_SIZE: usize = 1 << 20;

/// splitmix-style mixing, used everywhere a pure function of (seed, key) is needed
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix3(a: u64, b: u64, c: u64) -> u64 {
    mix(mix(mix(a) ^ b.wrapping_mul(0xD6E8FEB86659FD93)) ^ c.wrapping_mul(0xA24BAED4963EE407))
}

/// Small deterministic PRNG for scenario generation
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5151_7AB1E))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// Uniform in [0, n)
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    /// Uniform in [a, b]
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Log-uniform in [a, b]
    pub fn logu(&mut self, a: u64, b: u64) -> u64 {
        let (la, lb) = ((a.max(1) as f64).ln(), (b.max(1) as f64).ln());
        let x = (la + (lb - la) * self.f()).exp();
        (x as u64).clamp(a, b)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Sched {
    /// Probability of a preemption at an intercepted call
    pub p_sys: f64,
    /// Probability of a preemption at an instrumented code edge
    pub p_edge: f64,
    /// Priority-based scheduling (PCT style) instead of uniform choice
    pub pct: bool,
    /// Probability that a priority changes at an intercepted call (PCT)
    pub p_prio: f64,
    /// Probability that a thread is stalled at an intercepted call
    pub p_stall: f64,
    /// Maximal stall duration
    pub stall_max: u64,
    /// Virtual cost of an intercepted call
    pub call_cost: u64,
    /// Probability of a spurious futex wake-up
    pub p_spurious: f64,
    /// Maximal delay of a timer/child exit notification
    pub lag_max: u64,
    /// Probability of a decision just after an operation that others can observe
    pub p_hot: f64,
    /// Probability that a decision at a code edge is a stall and not a preemption
    pub p_estall: f64,
    /// Maximal duration of such a stall
    pub estall_max: u64,
    /// Probability of a decision where some code is executed for the first time
    pub p_first: f64,
    /// Some threads are disturbed more than others, especially at their beginning
    pub focus: bool,
}
impl Default for Sched {
    fn default() -> Self {
        Sched {
            p_sys: 0.0,
            p_edge: 0.0,
            pct: false,
            p_prio: 0.0,
            p_stall: 0.0,
            stall_max: 0,
            call_cost: 1000,
            p_spurious: 0.0,
            lag_max: 0,
            p_hot: 0.0,
            p_estall: 0.0,
            estall_max: 0,
            p_first: 0.0,
            focus: false,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct Faults {
    /// Probability that an interruptible call fails with EINTR
    pub p_eintr: f64,
    /// Probability that a read or write is shortened
    pub p_short: f64,
    /// Probability that a process vanishes between listing and examination
    pub p_vanish: f64,
    /// Explicit fault list
    pub rules: Vec<FaultRule>,
    /// Slow storage
    #[serde(default)]
    pub slow: Vec<SlowRule>,
}

/// Make matching operations (from the nth on, count of them) take some time
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SlowRule {
    /// open, read, write, rename, unlink
    pub op: String,
    /// Substring of the path
    pub path: String,
    pub nth: u32,
    pub count: u32,
    pub delay: u64,
}

/// Make the nth matching operation (and the following count-1 ones) fail
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FaultRule {
    /// open, read, write, stat, rename, unlink, spawn, wait, kill, opendir
    pub op: String,
    /// Substring of the path (or command line for spawn)
    pub path: String,
    pub nth: u32,
    pub count: u32,
    pub errno: i32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FileKind {
    File,
    Dir,
    Symlink,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FileSpec {
    pub path: String,
    pub kind: FileKind,
    /// Latin-1 encoded content
    #[serde(default)]
    pub data: String,
    #[serde(default)]
    pub mtime: i64,
    #[serde(default = "mode_default")]
    pub mode: u32,
}
fn mode_default() -> u32 {
    0o644
}

pub fn to_latin(data: &[u8]) -> String {
    data.iter().map(|&b| b as char).collect()
}
pub fn from_latin(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}

/// What a simulated child process does
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Sleep(u64),
    /// Set resident memory
    Rss(u64),
    /// Write to fd 1 or 2 (Latin-1)
    Out(i32, String),
    /// Write n bytes of a fixed pattern to fd 1 or 2
    OutN(i32, u64),
    Fork(Script),
    /// Wait for all children
    WaitKids,
    /// Create/overwrite a file: (path, data, chunk size, delay between chunks)
    WriteFile(String, String, u64, u64),
    Threads(u32),
    /// With a status, or with that of the last child that failed if negative
    Exit(i32),
    Die(i32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum OnTerm {
    Die,
    /// Keep running for that long, then die
    Grace(u64),
    Ignore,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Script {
    pub ops: Vec<Op>,
    #[serde(default = "term_default")]
    pub term: OnTerm,
    /// Latency of signal delivery
    #[serde(default)]
    pub sig_latency: u64,
}
fn term_default() -> OnTerm {
    OnTerm::Die
}

/// Which script a command line runs
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Prog {
    /// All of these must be equal to one of the arguments
    pub args: Vec<String>,
    /// Only match from the nth such invocation on (0-based)
    #[serde(default)]
    pub from: u32,
    /// errno of the spawn call, 0 if it works
    #[serde(default)]
    pub errno: i32,
    pub script: Script,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum UserStep {
    /// Wait
    Sleep(u64),
    /// Send bytes to the terminal (Latin-1)
    Keys(String),
    /// Wait until the screen contains this text (timeout)
    Wait(String, u64),
    /// Wait until the screen does not contain this text any more (timeout)
    WaitGone(String, u64),
    /// Record the screen under a label
    Snap(String),
    Resize(u16, u16),
    /// Write a file behind the application's back
    Touch(String, String),
    /// Remove a file behind the application's back
    Remove(String),
    /// Change the modification time of a file
    SetMtime(String, i64),
    /// Record the content of a file under a label
    SnapFile(String, String),
    /// Kill the whole application
    Crash,
    /// Skip the following n steps unless the screen contains this text
    SkipUnless(String, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Tty {
    pub w: u16,
    pub h: u16,
    pub user: Vec<UserStep>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Limits {
    pub max_calls: u64,
    pub max_edges: u64,
    pub max_time: u64,
}
impl Default for Limits {
    fn default() -> Self {
        Limits {
            max_calls: 3_000_000,
            max_edges: 400_000_000,
            max_time: 4_000_000_000_000,
        }
    }
}

/// One recorded decision: (kind, thread, index, value)
pub type Choice = (u8, u32, u64, u64);

pub mod kind {
    pub const PREEMPT: u8 = 1;
    pub const EDGE: u8 = 2;
    pub const BLOCK: u8 = 3;
    pub const STALL: u8 = 4;
    pub const SPURIOUS: u8 = 5;
    pub const EINTR: u8 = 6;
    pub const SHORT: u8 = 7;
    pub const SIGTGT: u8 = 8;
    pub const VANISH: u8 = 9;
    pub const LAG: u8 = 10;
    pub const WAKE: u8 = 11;
    pub const NAMES: [&str; 12] = [
        "?", "preempt", "edge-preempt", "pick-next", "stall", "spurious-wake", "eintr", "short-io",
        "signal-target", "proc-vanish", "lag", "wake-order",
    ];
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Scenario {
    pub seed: u64,
    /// Replay: only the listed decisions are taken, everything else is default
    pub explicit: bool,
    pub choices: Vec<Choice>,
    pub sched: Sched,
    pub faults: Faults,
    pub ncpu: u32,
    pub mem_total: u64,
    /// Memory used by the rest of the system: (time, bytes)
    pub bg_mem: Vec<(u64, u64)>,
    pub realtime: i64,
    /// System clock jumps: (time, delta)
    pub clock_jumps: Vec<(u64, i64)>,
    pub cwd: String,
    pub files: Vec<FileSpec>,
    pub programs: Vec<Prog>,
    pub tty: Option<Tty>,
    /// Standard input, when not the terminal (Latin-1)
    pub stdin: Option<String>,
    pub stdout_tty: bool,
    pub syslog: bool,
    pub limits: Limits,
    /// Size of the process id space (small: frequent reuse)
    pub pid_space: u32,
    /// Kill the whole application at the nth intercepted call (0: never)
    pub crash_at: u64,
    /// ... or right after the nth change of the file system (0: never)
    pub crash_fs: u64,
    /// What the driver program should do
    pub driver: serde_json::Value,
    /// Command-line arguments
    pub argv: Vec<String>,
    /// Maximal delay between process exec and its first action
    pub exec_latency: u64,
    /// Log every call (debugging and determinism checks)
    pub verbose: bool,
}
impl Default for Scenario {
    fn default() -> Self {
        Scenario {
            seed: 0,
            explicit: false,
            choices: Vec::new(),
            sched: Sched::default(),
            faults: Faults::default(),
            ncpu: 4,
            mem_total: 64 << 30,
            bg_mem: vec![(0, 4 << 30)],
            realtime: 1_700_000_000_000_000_000,
            clock_jumps: Vec::new(),
            cwd: "/work".into(),
            files: Vec::new(),
            programs: Vec::new(),
            tty: None,
            stdin: None,
            stdout_tty: false,
            syslog: true,
            limits: Limits::default(),
            pid_space: 30000,
            crash_at: 0,
            crash_fs: 0,
            driver: serde_json::Value::Null,
            argv: Vec::new(),
            exec_latency: 1_000_000,
            verbose: false,
        }
    }
}

/// Escape a log field
pub fn esc(s: &[u8]) -> String {
    let mut o = String::with_capacity(s.len() + 8);
    for &b in s {
        match b {
            b'\\' => o.push_str("\\\\"),
            b'\t' => o.push_str("\\t"),
            b'\n' => o.push_str("\\n"),
            32..=126 => o.push(b as char),
            _ => o.push_str(&format!("\\x{b:02x}")),
        }
    }
    o
}
pub fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            match b[i + 1] {
                b'\\' => o.push(b'\\'),
                b't' => o.push(b'\t'),
                b'n' => o.push(b'\n'),
                b'x' => {
                    let h = std::str::from_utf8(&b[i + 2..i + 4]).unwrap_or("00");
                    o.push(u8::from_str_radix(h, 16).unwrap_or(0));
                    i += 2;
                }
                c => o.push(c),
            }
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
