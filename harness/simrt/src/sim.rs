//! Simulator core: threads, virtual time, decisions, event queue, log.
use crate::fs::Fs;
use crate::proc::Procs;
use crate::raw;
use simproto::vt::Screen;
use simproto::{kind, Scenario};
use std::cell::Cell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use std::sync::atomic::{AtomicU32, Ordering};

thread_local! {
    pub static TID: Cell<i32> = const { Cell::new(-1) };
    pub static IN_SIM: Cell<u32> = const { Cell::new(0) };
}

pub static mut SIM: *mut Sim = std::ptr::null_mut();
pub static mut EDGES: u64 = 0;
pub static mut NEXT_EDGE: u64 = u64::MAX;
/// Truth that decisions can be taken when some code is executed for the first time
pub static mut FIRSTS: bool = false;
/// Kernel thread id of a thread that is exiting and must be gone before anyone proceeds
static PENDING_EXIT: AtomicU32 = AtomicU32::new(0);

#[inline]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
#[inline]
pub fn active() -> bool {
    unsafe { !SIM.is_null() && TID.with(|t| t.get()) >= 0 && IN_SIM.with(|t| t.get()) == 0 }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Wait {
    Run,
    Futex { addr: usize, bits: u32, woken: bool },
    Sleep,
    Stall,
    Poll(Vec<(i32, i16)>),
    Read(usize),
    Write(usize),
    Pid(i32),
    Join(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Woke {
    Ready,
    Timeout,
    Intr,
    /// A restarted call must be made again
    Again,
}

/// Marks the edge decisions that are stalls
const EDGE_STALL: u64 = 1 << 50;

pub struct Thr {
    pub go: AtomicU32,
    pub wait: Wait,
    pub deadline: Option<u64>,
    pub seq: u64,
    pub finished: bool,
    pub sig: Vec<i32>,
    pub pthread: libc::pthread_t,
    pub edges: u64,
    pub next_edge: u64,
    pub edge_k: u64,
    pub edge_is_decision: bool,
    pub hot: bool,
    pub calls: u64,
    pub edges_accounted: u64,
    pub prio: u64,
    pub ktid: i32,
    pub name: String,
    pub in_handler: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ev {
    Proc(i32, u64),
    Sig(i32, i32, u64),
    User,
    Clock(usize),
    BgMem,
}

pub struct SigAct {
    pub handler: usize,
    pub flags: i32,
}

pub struct Sim {
    pub sc: Scenario,
    explicit: BTreeMap<(u8, u32, u64), u64>,
    /// Sorted explicit edge preemptions per thread
    explicit_edges: BTreeMap<u32, VecDeque<(u64, u64)>>,
    counters: BTreeMap<(u8, u32), u64>,
    pub now: u64,
    /// Part of the virtual time that was spent executing
    pub busy: u64,
    pub fs_changes: u64,
    pub calls: u64,
    pub total_edges: u64,
    pub thr: Vec<Box<Thr>>,
    pub cur: usize,
    events: BinaryHeap<Reverse<(u64, u64, Ev)>>,
    seq: u64,
    pub fs: Fs,
    pub pr: Procs,
    pub realtime: i64,
    pub sigs: BTreeMap<i32, SigAct>,
    pub stats: BTreeMap<&'static str, u64>,
    pub hash: u64,
    pub ilv: u64,
    pub switches: u64,
    log_ptr: *mut u8,
    log_used: usize,
    pub ended: bool,
    pub rule_hits: Vec<u32>,
    pub slow_hits: Vec<u32>,
    // terminal
    pub screen: Screen,
    pub tty_in: VecDeque<u8>,
    pub tty_raw: bool,
    pub tty_bytes: u64,
    pub last_input: u64,
    pub user_pc: usize,
    pub user_wait: Option<u64>,
    pub sleepers: u64,
}

pub unsafe fn init_sim(sc: Scenario, log_ptr: *mut u8) {
    let mut explicit = BTreeMap::new();
    let mut explicit_edges: BTreeMap<u32, VecDeque<(u64, u64)>> = BTreeMap::new();
    if sc.explicit {
        let mut ch = sc.choices.clone();
        ch.sort();
        for (k, t, i, v) in ch {
            if k == kind::EDGE {
                explicit_edges.entry(t).or_default().push_back((i, v));
            } else {
                explicit.insert((k, t, i), v);
            }
        }
    }
    let (w, h) = sc.tty.as_ref().map(|t| (t.w, t.h)).unwrap_or((1, 1));
    let nrules = sc.faults.rules.len();
    let nslow = sc.faults.slow.len();
    let s = Box::new(Sim {
        explicit,
        explicit_edges,
        counters: BTreeMap::new(),
        now: 1_000_000_000_000,
        busy: 0,
        fs_changes: 0,
        calls: 0,
        total_edges: 0,
        thr: Vec::new(),
        cur: 0,
        events: BinaryHeap::new(),
        seq: 0,
        fs: Fs::new(&sc),
        pr: Procs::new(&sc),
        realtime: sc.realtime,
        sigs: BTreeMap::new(),
        stats: BTreeMap::new(),
        hash: 0,
        ilv: 0,
        switches: 0,
        log_ptr,
        log_used: 0,
        ended: false,
        rule_hits: vec![0; nrules],
        slow_hits: vec![0; nslow],
        screen: Screen::new(w, h),
        tty_in: VecDeque::new(),
        tty_raw: false,
        tty_bytes: 0,
        last_input: 0,
        user_pc: 0,
        user_wait: None,
        sleepers: 0,
        sc,
    });
    SIM = Box::into_raw(s);
    let s = sim();
    s.add_thread("main");
    s.thr[0].ktid = raw::gettid();
    TID.with(|t| t.set(0));
    for i in 0..s.sc.clock_jumps.len() {
        let t = s.sc.clock_jumps[i].0;
        s.at(s.now + t, Ev::Clock(i));
    }
    for i in 0..s.sc.bg_mem.len() {
        let t = s.sc.bg_mem[i].0;
        s.at(s.now + t, Ev::BgMem);
    }
    if s.sc.tty.is_some() {
        s.at(s.now, Ev::User);
    }
    s.log("START", &[&format!("{}", s.sc.seed)]);
    unsafe { FIRSTS = s.sc.sched.p_first > 0.0 && !s.sc.explicit };
    s.load_edges(0);
}

impl Sim {
    pub fn t0(&self) -> u64 {
        1_000_000_000_000
    }
    pub fn rel(&self) -> u64 {
        self.now - self.t0()
    }

    // ---- log ----
    pub fn log(&mut self, kind: &str, fields: &[&str]) {
        let tid = TID.with(|t| t.get());
        let mut line = format!("{}\t{}\t{}\t{}", self.now - self.t0(), self.busy, tid, kind);
        for f in fields {
            line.push('\t');
            line.push_str(f);
        }
        line.push('\n');
        self.log_raw(line.as_bytes());
        if self.sc.crash_fs > 0 && (matches!(kind, "WRITE" | "RENAME" | "UNLINK" | "PWRITE") || kind == "OPEN" && fields[1] == "w") {
            self.fs_changes += 1;
            if self.fs_changes == self.sc.crash_fs {
                self.sc.crash_at = self.calls + 1;
            }
        }
    }
    pub fn log_raw(&mut self, b: &[u8]) {
        let room = simproto::LOG_SIZE - simproto::LOG_HEADER - simproto::COV_SIZE - self.log_used;
        if b.len() > room {
            unsafe { *(self.log_ptr.add(8) as *mut u64) = 99 };
            self.ended = true;
            unsafe { raw::exit_group(97) };
        }
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.log_ptr.add(simproto::LOG_HEADER + self.log_used), b.len());
            self.log_used += b.len();
            *(self.log_ptr as *mut u64) = self.log_used as u64;
        }
    }
    pub fn stat(&mut self, name: &'static str) {
        *self.stats.entry(name).or_insert(0) += 1;
    }
    pub fn add_hash(&mut self, v: u64) {
        self.hash = simproto::mix(self.hash ^ v);
    }

    // ---- decisions ----
    fn counter(&mut self, k: u8, tid: u32) -> u64 {
        let c = self.counters.entry((k, tid)).or_insert(0);
        *c += 1;
        *c - 1
    }
    fn note_choice(&mut self, k: u8, tid: u32, idx: u64, v: u64) {
        let l = format!("\t\tC\t{k}\t{tid}\t{idx}\t{v}\n");
        self.log_raw(l.as_bytes());
        self.stat(kind::NAMES[k as usize]);
    }
    /// Returns 0 (default) or, with probability p, a value in 1..=n
    pub fn decide(&mut self, k: u8, tid: u32, p: f64, n: u64) -> u64 {
        let idx = self.counter(k, tid);
        if self.sc.explicit {
            if self.explicit.is_empty() {
                return 0;
            }
            let v = self.explicit.get(&(k, tid, idx)).copied().unwrap_or(0);
            if v != 0 {
                self.note_choice(k, tid, idx, v);
            }
            return v;
        }
        if p <= 0.0 || n == 0 {
            return 0;
        }
        let h = simproto::mix3(self.sc.seed ^ ((k as u64) << 56), tid as u64, idx);
        if (h >> 11) as f64 / (1u64 << 53) as f64 >= p {
            return 0;
        }
        let v = 1 + simproto::mix(h ^ 0xABCD) % n;
        self.note_choice(k, tid, idx, v);
        v
    }

    // ---- events ----
    pub fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.events.push(Reverse((t, self.seq, e)));
    }
    fn run_due(&mut self) {
        while let Some(Reverse((t, _, _))) = self.events.peek() {
            if *t > self.now {
                break;
            }
            let Reverse((_, _, e)) = self.events.pop().unwrap();
            match e {
                Ev::Proc(pid, gen) => self.proc_step(pid, gen),
                Ev::Sig(pid, sig, start) => self.proc_signal(pid, sig, start),
                Ev::User => self.user_step(),
                Ev::Clock(i) => {
                    let d = self.sc.clock_jumps[i].1;
                    self.realtime += d;
                    self.stat("clock-jump");
                    self.log("CLOCKJUMP", &[&d.to_string()]);
                }
                Ev::BgMem => self.check_memory(),
            }
        }
    }
    pub fn wall(&self) -> i64 {
        self.realtime + (self.now - self.t0()) as i64
    }

    // ---- threads ----
    pub fn add_thread(&mut self, name: &str) -> usize {
        let tid = self.thr.len();
        let prio = simproto::mix3(self.sc.seed, 77, tid as u64);
        self.thr.push(Box::new(Thr {
            go: AtomicU32::new(0),
            wait: Wait::Run,
            deadline: None,
            seq: 0,
            finished: false,
            sig: Vec::new(),
            pthread: 0,
            edges: 0,
            next_edge: u64::MAX,
            edge_k: 0,
            edge_is_decision: false,
            hot: false,
            calls: 0,
            edges_accounted: 0,
            prio,
            ktid: 0,
            name: name.into(),
            in_handler: 0,
        }));
        self.next_edge(tid);
        tid
    }

    const SLICE: u64 = 60_000;

    /// Determine at which edge count the thread must stop next
    fn next_edge(&mut self, tid: usize) {
        let cur = self.thr[tid].edges;
        let mut next = cur + Self::SLICE;
        let mut dec = false;
        if self.sc.explicit {
            if let Some(q) = self.explicit_edges.get_mut(&(tid as u32)) {
                while let Some(&(i, _)) = q.front() {
                    if i <= cur {
                        q.pop_front();
                    } else {
                        if i <= next {
                            next = i;
                            dec = true;
                        }
                        break;
                    }
                }
            }
        } else if self.sc.sched.p_edge > 0.0 {
            let mut p_edge = self.sc.sched.p_edge;
            if self.sc.sched.focus && tid > 0 {
                let f = [0.3, 1.0, 10.0, 100.0][(simproto::mix3(self.sc.seed ^ 0xF0C5, tid as u64, 1) % 4) as usize];
                p_edge = (p_edge * f).min(p_edge.max(0.05));
            }
            let k = self.thr[tid].edge_k;
            let h = simproto::mix3(self.sc.seed ^ 0xED6E, tid as u64, k);
            let u = ((h >> 11) as f64 + 1.0) / (1u64 << 53) as f64;
            let gap = (u.ln() / (1.0 - p_edge).ln()).ceil().clamp(1.0, 1e12) as u64;
            if gap <= Self::SLICE {
                next = cur + gap;
                dec = true;
            }
            self.thr[tid].edge_k += 1;
        }
        self.thr[tid].next_edge = next;
        self.thr[tid].edge_is_decision = dec;
    }
    fn save_edges(&mut self, tid: usize) {
        unsafe {
            self.thr[tid].edges = EDGES;
        }
    }
    fn load_edges(&mut self, tid: usize) {
        unsafe {
            EDGES = self.thr[tid].edges;
            NEXT_EDGE = self.thr[tid].next_edge;
        }
    }
    /// Account the time of the code executed since the last call
    fn account(&mut self) {
        let me = self.cur;
        self.save_edges(me);
        let t = &mut self.thr[me];
        let d = t.edges - t.edges_accounted;
        t.edges_accounted = t.edges;
        self.now += d * 2;
        self.busy += d * 2;
        self.total_edges += d;
    }

    pub fn ready(&self, tid: usize) -> bool {
        let t = &self.thr[tid];
        if t.finished {
            return false;
        }
        if t.wait == Wait::Run {
            return true;
        }
        if let Some(d) = t.deadline {
            if d <= self.now {
                return true;
            }
        }
        if !t.sig.is_empty() && t.wait != Wait::Stall {
            return true;
        }
        self.cond(&t.wait)
    }
    pub fn cond(&self, w: &Wait) -> bool {
        match w {
            Wait::Run => true,
            Wait::Futex { woken, .. } => *woken,
            Wait::Sleep | Wait::Stall => false,
            Wait::Poll(l) => l.iter().any(|&(fd, ev)| self.poll_fd(fd, ev) != 0),
            Wait::Read(o) => self.obj_readable(*o),
            Wait::Write(o) => self.obj_writable(*o),
            Wait::Pid(p) => self.pr.waitable(*p),
            Wait::Join(t) => self.thr[*t].finished,
        }
    }

    fn ready_list(&self, except: usize) -> Vec<usize> {
        let n = self.thr.len();
        let c = self.cur;
        (1..=n).map(|i| (c + i) % n).filter(|&t| t != except && self.ready(t)).collect()
    }

    /// Switch to another thread (the current one keeps its wait state)
    unsafe fn switch(&mut self, next: usize) {
        let me = self.cur;
        if me == next {
            return;
        }
        self.save_edges(me);
        self.switches += 1;
        self.ilv = simproto::mix(self.ilv ^ ((me as u64) << 48) ^ ((next as u64) << 40) ^ (self.calls << 1));
        self.cur = next;
        self.load_edges(next);
        let my = &*(&*self.thr[me] as *const Thr);
        let nx = &*(&*self.thr[next] as *const Thr);
        nx.go.store(1, Ordering::Release);
        raw::futex_wake(nx.go.as_ptr());
        park(my);
    }

    /// Pick the next thread to run when the current one cannot go on
    fn pick_blocked(&mut self) -> usize {
        loop {
            let l = self.ready_list(usize::MAX);
            if !l.is_empty() {
                if l.len() == 1 {
                    return l[0];
                }
                if self.sc.sched.pct && !self.sc.explicit {
                    let best = (0..l.len()).max_by_key(|&i| self.thr[l[i]].prio).unwrap();
                    let idx = self.counter(kind::BLOCK, self.cur as u32);
                    if best != 0 {
                        let c = self.cur as u32;
                        self.note_choice(kind::BLOCK, c, idx, best as u64);
                    }
                    return l[best];
                }
                let p = if self.sc.sched.p_sys > 0.0 { 0.7 } else { 0.0 };
                let v = self.decide(kind::BLOCK, self.cur as u32, p, (l.len() - 1) as u64);
                return l[(v as usize) % l.len()];
            }
            // Nothing can run: advance the clock
            let mut next = self.events.peek().map(|Reverse((t, _, _))| *t);
            for t in &self.thr {
                if !t.finished {
                    if let Some(d) = t.deadline {
                        next = Some(next.map_or(d, |n| n.min(d)));
                    }
                }
            }
            match next {
                Some(t) => {
                    if t > self.now {
                        self.now = t;
                    }
                    self.run_due();
                }
                None => {
                    let st: Vec<String> = self
                        .thr
                        .iter()
                        .enumerate()
                        .filter(|(_, t)| !t.finished)
                        .map(|(i, t)| format!("{}:{}:{:?}", i, t.name, t.wait))
                        .collect();
                    self.log("DEADLOCK", &[&simproto::esc(st.join("; ").as_bytes())]);
                    self.finish("deadlock", 96);
                }
            }
            if self.rel() > self.sc.limits.max_time {
                self.log("LIMIT", &["time"]);
                self.finish("limit-time", 95);
            }
        }
    }

    pub fn finish(&mut self, why: &str, code: i32) -> ! {
        if !self.ended {
            self.ended = true;
            unsafe { NEXT_EDGE = u64::MAX };
            self.dump(why, code);
        }
        unsafe { raw::exit_group(code) }
    }

    /// Block the current thread
    pub fn block(&mut self, w: Wait, deadline: Option<u64>, intr: Intr) -> Woke {
        let me = self.cur;
        self.seq += 1;
        self.thr[me].wait = w;
        self.thr[me].deadline = deadline;
        self.thr[me].seq = self.seq;
        loop {
            let next = self.pick_blocked();
            unsafe { self.switch(next) };
            // We run again
            let w = self.thr[me].wait.clone();
            if self.cond(&w) {
                self.thr[me].wait = Wait::Run;
                self.thr[me].deadline = None;
                return Woke::Ready;
            }
            if !self.thr[me].sig.is_empty() && w != Wait::Stall {
                let sv = (w.clone(), self.thr[me].deadline);
                self.thr[me].wait = Wait::Run;
                self.thr[me].deadline = None;
                let restart = self.run_handlers();
                if !(intr == Intr::Restart && restart) && intr != Intr::Never {
                    return Woke::Intr;
                }
                if intr == Intr::Restart && matches!(sv.0, Wait::Futex { .. }) {
                    // The restarted call looks at the value again
                    return Woke::Again;
                }
                self.thr[me].wait = sv.0;
                self.thr[me].deadline = sv.1;
                continue;
            }
            if let Some(d) = self.thr[me].deadline {
                if d <= self.now {
                    self.thr[me].wait = Wait::Run;
                    self.thr[me].deadline = None;
                    return Woke::Timeout;
                }
            }
        }
    }

    /// Run pending signal handlers on the current thread; true if all had SA_RESTART
    pub fn run_handlers(&mut self) -> bool {
        let me = self.cur;
        let mut restart = true;
        while let Some(sig) = self.thr[me].sig.pop() {
            let (h, flags) = match self.sigs.get(&sig) {
                Some(a) => (a.handler, a.flags),
                None => continue,
            };
            if h <= 1 {
                continue;
            }
            restart &= flags & libc::SA_RESTART != 0;
            self.log("HANDLER", &[&sig.to_string()]);
            self.thr[me].in_handler += 1;
            let e = unsafe { *libc::__errno_location() };
            let depth = IN_SIM.with(|c| c.replace(0));
            unsafe {
                let mut info: libc::siginfo_t = std::mem::zeroed();
                info.si_signo = sig;
                let f: extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) = std::mem::transmute(h);
                f(sig, &mut info, std::ptr::null_mut());
            }
            IN_SIM.with(|c| c.set(depth));
            unsafe { *libc::__errno_location() = e };
            self.thr[me].in_handler -= 1;
        }
        restart
    }

    /// Send a process-directed signal to the application
    pub fn raise(&mut self, sig: i32) {
        let has = matches!(self.sigs.get(&sig), Some(a) if a.handler > 1);
        if !has {
            return;
        }
        let l: Vec<usize> = (0..self.thr.len()).filter(|&t| !self.thr[t].finished).collect();
        if l.is_empty() {
            return;
        }
        let p = if self.sc.sched.p_sys > 0.0 { 0.5 } else { 0.0 };
        let v = self.decide(kind::SIGTGT, 0xffff, p, l.len() as u64);
        let t = l[(v as usize) % l.len()];
        // Standard signals coalesce while pending
        if !self.thr.iter().any(|t| t.sig.contains(&sig)) {
            self.thr[t].sig.push(sig);
        }
    }

    /// Entry of every intercepted call
    pub fn enter(&mut self, name: &'static str) {
        self.calls += 1;
        self.account();
        self.now += self.sc.sched.call_cost;
        self.busy += self.sc.sched.call_cost;
        let me = self.cur;
        if self.sc.verbose {
            self.log("CALL", &[name]);
        }
        self.add_hash((name.len() as u64) ^ ((name.as_bytes()[0] as u64) << 8) ^ ((me as u64) << 16) ^ (self.now << 20));
        if self.calls == self.sc.crash_at {
            self.stat("crash");
            self.log("CRASH", &[name]);
            self.finish("crash", 137);
        }
        if self.calls > self.sc.limits.max_calls {
            self.log("LIMIT", &["calls"]);
            self.finish("limit-calls", 95);
        }
        if self.total_edges > self.sc.limits.max_edges {
            self.log("LIMIT", &["edges"]);
            self.finish("limit-edges", 95);
        }
        if self.rel() > self.sc.limits.max_time {
            self.log("LIMIT", &["time"]);
            self.finish("limit-time", 95);
        }
        self.run_due();
        let mut p_stall = self.sc.sched.p_stall;
        if p_stall > 0.0 && self.sc.sched.focus && me > 0 && !self.sc.explicit {
            let n = self.thr[me].calls;
            if n == 0 {
                p_stall = 0.15;
            } else if n < 200 {
                let f = [0.5, 1.0, 10.0, 50.0][(simproto::mix3(self.sc.seed ^ 0xF0C5, me as u64, 2) % 4) as usize];
                p_stall = (p_stall * f).min(0.1);
            }
        }
        self.thr[me].calls += 1;
        self.hot(name);
        let st = self.decide(kind::STALL, me as u32, p_stall, 1 << 20);
        if st != 0 {
            // log-uniform duration
            let max = self.sc.sched.stall_max.max(1000) as f64;
            let x = (st as f64 / (1 << 20) as f64) * (max / 1000.0).ln();
            let d = (1000.0 * x.exp()) as u64;
            self.log("STALL", &[&d.to_string()]);
            let dl = self.now + d;
            self.block(Wait::Stall, Some(dl), Intr::Never);
        }
        self.maybe_preempt();
        if !self.thr[me].sig.is_empty() && self.thr[me].in_handler == 0 {
            self.run_handlers();
        }
    }

    /// The code that follows an operation that others can observe deserves attention
    fn hot(&mut self, name: &str) {
        let p = self.sc.sched.p_hot;
        if p <= 0.0 || self.sc.explicit {
            return;
        }
        let me = self.cur;
        let p = match name {
            "write" | "rename" | "unlink" | "kill" | "syscall" | "close" | "pthread_create" | "posix_spawnp" | "waitpid" | "open" | "send" | "sendto" | "writev" => p,
            _ => p * 0.03,
        };
        let h = simproto::mix3(self.sc.seed ^ 0x407, me as u64, self.thr[me].calls);
        let u = (h >> 11) as f64 / (1u64 << 53) as f64;
        if u >= p {
            return;
        }
        // Short distances first
        let gap = 1 + (simproto::mix(h) % 64 >> (simproto::mix(h ^ 1) % 7));
        let t = &mut self.thr[me];
        let at = t.edges + gap;
        if at < t.next_edge {
            t.next_edge = at;
            t.edge_is_decision = true;
            t.hot = true;
            unsafe { NEXT_EDGE = at };
        }
    }

    /// Code which is executed for the first time deserves attention too
    pub fn first_visit(&mut self) {
        let me = self.cur;
        let at = unsafe { EDGES };
        let h = simproto::mix3(self.sc.seed ^ 0x1057, me as u64, at);
        let u = (h >> 11) as f64 / (1u64 << 53) as f64;
        if u < self.sc.sched.p_first * if me > 0 { 1.0 } else { 0.03 } {
            let t = &mut self.thr[me];
            t.next_edge = at;
            t.edge_is_decision = true;
            t.hot = true;
            unsafe { NEXT_EDGE = at };
        }
    }

    fn maybe_preempt(&mut self) {
        if self.thr.len() == 1 {
            return;
        }
        let me = self.cur;
        if self.sc.sched.pct && !self.sc.explicit {
            let idx = self.counter(kind::PREEMPT, me as u32);
            let h = simproto::mix3(self.sc.seed ^ 0xFCF, me as u64, idx);
            if (h >> 11) as f64 / ((1u64 << 53) as f64) < self.sc.sched.p_prio {
                self.thr[me].prio = simproto::mix(h);
            }
            let l = self.ready_list(me);
            if let Some(b) = (0..l.len()).max_by_key(|&i| self.thr[l[i]].prio) {
                if self.thr[l[b]].prio > self.thr[me].prio {
                    self.note_choice(kind::PREEMPT, me as u32, idx, b as u64 + 1);
                    unsafe { self.switch(l[b]) };
                }
            }
            return;
        }
        let p = self.sc.sched.p_sys;
        if p <= 0.0 && !self.sc.explicit {
            return;
        }
        let v = self.decide(kind::PREEMPT, me as u32, p, 1 << 20);
        if v != 0 {
            let l = self.ready_list(me);
            if !l.is_empty() {
                let t = l[(v as usize - 1) % l.len()];
                unsafe { self.switch(t) };
            }
        }
    }

    /// The current thread gives up its turn
    pub fn yield_now(&mut self) {
        let me = self.cur;
        if self.sc.sched.pct {
            // Avoid starving the thread that is being waited for
            self.thr[me].prio = simproto::mix(self.thr[me].prio) >> 8;
        }
        let l = self.ready_list(me);
        if l.is_empty() {
            // Let time pass if nobody else can run
            self.now += 1000;
            self.busy += 1000;
            self.run_due();
            return;
        }
        let p = if self.sc.sched.p_sys > 0.0 { 0.5 } else { 0.0 };
        let v = self.decide(kind::BLOCK, me as u32, p, l.len() as u64);
        unsafe { self.switch(l[(v as usize) % l.len()]) };
    }

    /// An instrumented edge hit its stop count
    pub fn edge_stop(&mut self) {
        let me = self.cur;
        self.account();
        let dec = self.thr[me].edge_is_decision;
        let at = self.thr[me].edges;
        let mut val = 0;
        if dec {
            if self.sc.explicit {
                if let Some(q) = self.explicit_edges.get_mut(&(me as u32)) {
                    if let Some(&(i, v)) = q.front() {
                        if i == at {
                            q.pop_front();
                            val = v;
                        }
                    }
                }
            } else {
                let h = simproto::mix3(self.sc.seed ^ 0xE0E0, me as u64, at);
                val = 1 + h % (1 << 20);
                let u = (simproto::mix(h) >> 11) as f64 / (1u64 << 53) as f64;
                let p = self.sc.sched.p_estall * if self.thr[me].hot { 1.0 } else { 0.1 };
                if u < p {
                    // log-uniform duration
                    let max = self.sc.sched.estall_max.max(1000) as f64;
                    let x = (simproto::mix(h ^ 5) >> 11) as f64 / (1u64 << 53) as f64;
                    val = EDGE_STALL | (1000.0 * (x * (max / 1000.0).ln()).exp()) as u64;
                }
            }
        }
        self.thr[me].hot = false;
        self.next_edge(me);
        self.load_edges(me);
        if self.total_edges > self.sc.limits.max_edges {
            self.log("LIMIT", &["edges"]);
            self.finish("limit-edges", 95);
        }
        if self.rel() > self.sc.limits.max_time {
            self.log("LIMIT", &["time"]);
            self.finish("limit-time", 95);
        }
        self.run_due();
        if dec && val == 0 {
            return;
        }
        if val & EDGE_STALL != 0 {
            self.note_choice(kind::EDGE, me as u32, at, val);
            let d = val & (EDGE_STALL - 1);
            self.stat("edge-stall");
            self.log("STALL", &[&d.to_string()]);
            let dl = self.now + d;
            self.block(Wait::Stall, Some(dl), Intr::Never);
            if !self.thr[me].sig.is_empty() && self.thr[me].in_handler == 0 {
                self.run_handlers();
            }
            return;
        }
        let l = self.ready_list(me);
        if !l.is_empty() {
            if dec {
                self.note_choice(kind::EDGE, me as u32, at, val);
                let t = l[(val as usize - 1) % l.len()];
                unsafe { self.switch(t) };
            } else {
                unsafe { self.switch(l[0]) };
            }
        }
        if !self.thr[me].sig.is_empty() && self.thr[me].in_handler == 0 {
            self.run_handlers();
        }
    }

    /// The current thread is over
    pub fn thread_exit(&mut self) {
        let me = self.cur;
        self.account();
        self.thr[me].finished = true;
        let ktid = self.thr[me].ktid as u32;
        // Pending signals go to someone else
        let sigs = std::mem::take(&mut self.thr[me].sig);
        for s in sigs {
            self.raise(s);
        }
        if self.sc.verbose {
            self.log("THREXIT", &[]);
        }
        let next = self.pick_blocked();
        self.switches += 1;
        self.ilv = simproto::mix(self.ilv ^ ((me as u64) << 48) ^ ((next as u64) << 40) ^ (self.calls << 1));
        self.cur = next;
        self.load_edges(next);
        PENDING_EXIT.store(ktid, Ordering::Release);
        let nx = unsafe { &*(&*self.thr[next] as *const Thr) };
        nx.go.store(1, Ordering::Release);
        unsafe { raw::futex_wake(nx.go.as_ptr()) };
    }

    // ---- fault rules ----
    /// Slow storage: the caller waits
    pub fn slow(&mut self, op: &str, path: &str) {
        let mut d = 0;
        for i in 0..self.sc.faults.slow.len() {
            let r = &self.sc.faults.slow[i];
            if r.op == op && path.contains(&r.path) {
                let n = self.slow_hits[i];
                self.slow_hits[i] += 1;
                if n >= r.nth && n - r.nth < r.count {
                    d += r.delay;
                }
            }
        }
        if d > 0 {
            self.stat("slow-io");
            self.log("SLOW", &[&d.to_string(), op, path]);
            let dl = self.now + d;
            self.block(Wait::Stall, Some(dl), Intr::Never);
        }
    }
    /// Explicit fault on an operation: errno or 0
    pub fn fault(&mut self, op: &str, path: &str) -> i32 {
        for i in 0..self.sc.faults.rules.len() {
            let r = &self.sc.faults.rules[i];
            if r.op == op && path.contains(&r.path) {
                let n = self.rule_hits[i];
                self.rule_hits[i] += 1;
                if n >= r.nth && n - r.nth < r.count {
                    let e = r.errno;
                    let name: &'static str = match op {
                        "open" => "fault-open",
                        "read" => "fault-read",
                        "write" => "fault-write",
                        "stat" => "fault-stat",
                        "rename" => "fault-rename",
                        "unlink" => "fault-unlink",
                        "spawn" => "fault-spawn",
                        "wait" => "fault-wait",
                        "kill" => "fault-kill",
                        "opendir" => "fault-opendir",
                        _ => "fault-other",
                    };
                    self.stat(name);
                    self.log("FAULT", &[op, &simproto::esc(path.as_bytes()), &e.to_string()]);
                    return e;
                }
            }
        }
        0
    }
    pub fn inject_eintr(&mut self) -> bool {
        let me = self.cur as u32;
        self.decide(kind::EINTR, me, self.sc.faults.p_eintr, 1) != 0
    }
    pub fn shorten(&mut self, n: usize) -> usize {
        if n <= 1 {
            return n;
        }
        let me = self.cur as u32;
        let v = self.decide(kind::SHORT, me, self.sc.faults.p_short, 1 << 20);
        if v == 0 {
            n
        } else {
            // favour very short ones
            let f = v as f64 / (1 << 20) as f64;
            ((f * f * n as f64) as usize).clamp(1, n)
        }
    }

    // ---- futex ----
    pub fn futex_wake(&mut self, addr: usize, n: u32, bits: u32) -> i64 {
        let mut w: Vec<(u64, usize)> = self
            .thr
            .iter()
            .enumerate()
            .filter(|(_, t)| !t.finished)
            .filter_map(|(i, t)| match t.wait {
                Wait::Futex { addr: a, bits: b, woken: false } if a == addr && b & bits != 0 => Some((t.seq, i)),
                _ => None,
            })
            .collect();
        w.sort();
        let mut cnt = 0;
        while cnt < n && !w.is_empty() {
            let k = if w.len() > 1 && (n as usize) < w.len() {
                let p = if self.sc.sched.p_sys > 0.0 { 0.5 } else { 0.0 };
                let me = self.cur as u32;
                self.decide(kind::WAKE, me, p, (w.len() - 1) as u64) as usize % w.len()
            } else {
                0
            };
            let (_, t) = w.remove(k);
            if let Wait::Futex { woken, .. } = &mut self.thr[t].wait {
                *woken = true;
            }
            cnt += 1;
        }
        cnt as i64
    }
    /// Returns 0 or -errno
    pub fn futex_wait(&mut self, addr: usize, val: u32, bits: u32, deadline: Option<u64>) -> i64 {
        let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
        if cur != val {
            return -(libc::EAGAIN as i64);
        }
        if let Some(d) = deadline {
            if d <= self.now {
                return -(libc::ETIMEDOUT as i64);
            }
        }
        if self.inject_eintr() {
            return -(libc::EINTR as i64);
        }
        let me = self.cur as u32;
        let sp = self.decide(kind::SPURIOUS, me, self.sc.sched.p_spurious, 2_000_000);
        let mut dl = deadline;
        let mut spurious = false;
        if sp != 0 {
            let d = self.now + sp;
            if dl.map_or(true, |x| d < x) {
                dl = Some(d);
                spurious = true;
            }
        }
        let intr = if deadline.is_some() { Intr::Yes } else { Intr::Restart };
        match self.block(Wait::Futex { addr, bits, woken: false }, dl, intr) {
            Woke::Ready => 0,
            Woke::Timeout if spurious => 0,
            Woke::Timeout => -(libc::ETIMEDOUT as i64),
            Woke::Intr => -(libc::EINTR as i64),
            Woke::Again => self.futex_wait(addr, val, bits, deadline),
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Intr {
    Yes,
    Restart,
    Never,
}

/// Wait for the baton
pub unsafe fn park(my: &Thr) {
    while my.go.load(Ordering::Acquire) == 0 {
        raw::futex_wait(my.go.as_ptr(), 0);
    }
    my.go.store(0, Ordering::Relaxed);
    // Let an exiting thread vanish completely before going on
    let k = PENDING_EXIT.swap(0, Ordering::AcqRel);
    if k != 0 {
        let pid = raw::sc(libc::SYS_getpid, 0, 0, 0);
        while raw::sc(libc::SYS_tgkill, pid, k as i64, 0) == 0 {
            raw::sc(libc::SYS_sched_yield, 0, 0, 0);
        }
    }
}
