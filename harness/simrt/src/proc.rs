//! Simulated child processes and the scripted user.
use crate::fs::{Fs, ObjKind, PIPE_CAP, SUT_PID};
use crate::sim::{Ev, Sim};
use simproto::{esc, kind, OnTerm, Op, Scenario, Script, UserStep};
use std::collections::{BTreeMap, VecDeque};

pub struct P {
    pub pid: i32,
    pub serial: u64,
    pub ppid: i32,
    pub cmd: Vec<String>,
    pub cwd: String,
    pub ops: VecDeque<Op>,
    pub term: OnTerm,
    pub latency: u64,
    pub rss: u64,
    pub tids: Vec<i32>,
    pub start: u64,
    pub gen: u64,
    pub fds: BTreeMap<i32, usize>,
    pub zombie: Option<i32>,
    pub blocked: bool,
    pub blocked_on: usize,
    pub waiting: bool,
    /// Exit status of its last child that failed
    pub kid_status: i32,
    pub termed: bool,
    /// Remaining part of a file being written: (inode, offset)
    pub writing: Option<(usize, usize)>,
}

pub struct Procs {
    pub procs: BTreeMap<i32, P>,
    next_pid: i32,
    space: i32,
    serial: u64,
    gen: u64,
    pub nblocked: u32,
    invocations: BTreeMap<Vec<String>, u32>,
    pub live_rss: u64,
}

impl Procs {
    pub fn new(sc: &Scenario) -> Procs {
        Procs {
            procs: BTreeMap::new(),
            next_pid: 0,
            space: sc.pid_space.max(200) as i32,
            serial: 0,
            gen: 0,
            nblocked: 0,
            invocations: BTreeMap::new(),
            live_rss: 0,
        }
    }
    pub fn get(&self, pid: i32) -> Option<&P> {
        self.procs.get(&pid)
    }
    pub fn list(&self) -> Vec<i32> {
        self.procs.keys().copied().collect()
    }
    pub fn waitable(&self, pid: i32) -> bool {
        match pid {
            -1 => {
                self.procs.values().any(|p| p.ppid == SUT_PID && p.zombie.is_some())
                    || !self.procs.values().any(|p| p.ppid == SUT_PID)
            }
            p => match self.procs.get(&p) {
                Some(p) => p.ppid != SUT_PID || p.zombie.is_some(),
                None => true,
            },
        }
    }
    fn alloc_pid(&mut self) -> i32 {
        loop {
            let p = 1000 + self.next_pid;
            self.next_pid = (self.next_pid + 1) % self.space;
            if !self.procs.contains_key(&p) && !self.procs.values().any(|q| q.tids.contains(&p)) {
                return p;
            }
        }
    }
}

pub struct SpawnReq {
    pub prog: String,
    pub argv: Vec<String>,
    pub cwd: Option<String>,
    pub dups: Vec<(i32, i32)>,
}

impl Sim {
    pub fn available_memory(&self) -> u64 {
        let t = self.rel();
        let mut bg = 0;
        for &(at, b) in &self.sc.bg_mem {
            if at <= t {
                bg = b;
            }
        }
        self.sc.mem_total.saturating_sub(bg).saturating_sub(self.pr.live_rss)
    }

    fn set_rss(&mut self, pid: i32, rss: u64) {
        let p = self.pr.procs.get_mut(&pid).unwrap();
        let old = p.rss;
        p.rss = rss;
        self.pr.live_rss = self.pr.live_rss - old + rss;
        if old != rss {
            let av = self.available_memory();
            self.log("RSS", &[&pid.to_string(), &rss.to_string(), &av.to_string()]);
        }
    }

    /// Kernel out-of-memory killer
    pub fn check_memory(&mut self) {
        let av = self.available_memory();
        self.log("MEM", &[&av.to_string()]);
        let mut guard = 0;
        while self.available_memory() < (1 << 20) && guard < 100 {
            guard += 1;
            let v = self.pr.procs.values().filter(|p| p.zombie.is_none() && p.rss > 0).max_by_key(|p| (p.rss, p.pid)).map(|p| p.pid);
            match v {
                Some(pid) => {
                    self.stat("kernel-oom-kill");
                    self.log("KOOM", &[&pid.to_string()]);
                    self.proc_exit(pid, 9);
                }
                None => break,
            }
        }
    }

    pub fn k_spawn(&mut self, rq: SpawnReq) -> Result<i32, i32> {
        let line = rq.argv.join(" ");
        let e = self.fault("spawn", &line);
        if e != 0 {
            self.log("SPAWNERR", &[&e.to_string(), &esc(line.as_bytes())]);
            return Err(e);
        }
        let cwd = match &rq.cwd {
            Some(c) => match self.fs.resolve(&self.fs.cwd, c, true) {
                Ok(c) => c,
                Err(e) => {
                    self.log("SPAWNERR", &[&e.to_string(), &esc(line.as_bytes())]);
                    return Err(e);
                }
            },
            None => self.fs.cwd.clone(),
        };
        if !matches!(self.fs.nodes.get(&cwd), Some(crate::fs::Node::Dir)) {
            self.log("SPAWNERR", &["2", &esc(line.as_bytes())]);
            return Err(libc::ENOENT);
        }
        // Find the script
        let mut best: Option<(usize, u32, usize)> = None;
        let mut groups: Vec<Vec<String>> = Vec::new();
        for (i, p) in self.sc.programs.iter().enumerate() {
            if !p.args.iter().all(|a| rq.argv.contains(a)) {
                continue;
            }
            if !groups.contains(&p.args) {
                groups.push(p.args.clone());
            }
            let n = self.pr.invocations.get(&p.args).copied().unwrap_or(0);
            if p.from > n {
                continue;
            }
            let k = (p.args.len(), p.from, i);
            if best.map_or(true, |b| (b.0, b.1) < (k.0, k.1)) {
                best = Some(k);
            }
        }
        for g in groups {
            *self.pr.invocations.entry(g).or_insert(0) += 1;
        }
        let Some((_, _, i)) = best else {
            self.log("SPAWNERR", &["2", &esc(line.as_bytes())]);
            return Err(libc::ENOENT);
        };
        let prog = self.sc.programs[i].clone();
        if prog.errno != 0 {
            self.stat("spawn-error");
            self.log("SPAWNERR", &[&prog.errno.to_string(), &esc(line.as_bytes())]);
            return Err(prog.errno);
        }
        let mut fds = BTreeMap::new();
        for i in 0..3 {
            if let Some(f) = self.fs.fd(i) {
                if !f.cloexec {
                    fds.insert(i, f.obj);
                }
            }
        }
        for (a, b) in &rq.dups {
            if let Some(f) = self.fs.fd(*a) {
                fds.insert(*b, f.obj);
            } else {
                return Err(libc::EBADF);
            }
        }
        for (_, &o) in &fds {
            self.fs.obj_ref(o);
        }
        let js = serde_json::to_string(&rq.argv).unwrap();
        let pid = self.proc_new(SUT_PID, rq.argv, cwd.clone(), prog.script, fds);
        let serial = self.pr.procs[&pid].serial;
        self.log("SPAWN", &[&pid.to_string(), &serial.to_string(), &esc(cwd.as_bytes()), &esc(js.as_bytes()), &esc(rq.prog.as_bytes())]);
        Ok(pid)
    }

    fn proc_new(&mut self, ppid: i32, cmd: Vec<String>, cwd: String, script: Script, fds: BTreeMap<i32, usize>) -> i32 {
        let pid = self.pr.alloc_pid();
        self.pr.serial += 1;
        self.pr.gen += 1;
        let p = P {
            pid,
            serial: 1000 + self.pr.serial,
            ppid,
            cmd,
            cwd,
            ops: script.ops.into(),
            term: script.term,
            latency: script.sig_latency,
            rss: 0,
            tids: Vec::new(),
            start: self.now,
            gen: self.pr.gen,
            fds,
            zombie: None,
            blocked: false,
            blocked_on: 0,
            waiting: false,
            kid_status: 0,
            termed: false,
            writing: None,
        };
        let gen = p.gen;
        self.pr.procs.insert(pid, p);
        let lat = simproto::mix3(self.sc.seed ^ 0x5Fa3, self.pr.serial, 1) % (self.sc.exec_latency + 1);
        self.at(self.now + lat, Ev::Proc(pid, gen));
        pid
    }

    fn resched(&mut self, pid: i32, delay: u64) {
        self.pr.gen += 1;
        let g = self.pr.gen;
        if let Some(p) = self.pr.procs.get_mut(&pid) {
            p.gen = g;
            let t = self.now + delay;
            self.at(t, Ev::Proc(pid, g));
        }
    }

    pub fn proc_kick(&mut self) {
        let fs = &self.fs;
        let l: Vec<i32> = (self.pr.procs.values())
            .filter(|p| p.blocked && fs.pipes.get(p.blocked_on).is_none_or(|q| q.readers == 0 || q.buf.len() < PIPE_CAP))
            .map(|p| p.pid)
            .collect();
        for pid in l {
            self.pr.procs.get_mut(&pid).unwrap().blocked = false;
            self.pr.nblocked -= 1;
            self.resched(pid, 0);
        }
    }

    pub fn proc_step(&mut self, pid: i32, gen: u64) {
        loop {
            let op = match self.pr.procs.get_mut(&pid) {
                Some(p) if p.gen == gen && p.zombie.is_none() => p.ops.pop_front(),
                _ => return,
            };
            match op {
                None => {
                    self.proc_exit(pid, 0);
                    return;
                }
                Some(Op::Sleep(d)) => {
                    self.resched(pid, d);
                    return;
                }
                Some(Op::Rss(b)) => {
                    self.set_rss(pid, b);
                    self.check_memory();
                }
                Some(Op::Out(fd, s)) => {
                    let data = simproto::from_latin(&s);
                    if !self.proc_out(pid, fd, data) {
                        return;
                    }
                }
                Some(Op::OutN(fd, n)) => {
                    let k = n.min(32768);
                    if n > k {
                        self.pr.procs.get_mut(&pid).unwrap().ops.push_front(Op::OutN(fd, n - k));
                    }
                    let data = (0..k).map(|i| if i % 64 == 63 { b'\n' } else { b'a' + (i % 26) as u8 }).collect();
                    if !self.proc_out(pid, fd, data) {
                        return;
                    }
                }
                Some(Op::Fork(s)) => {
                    let (cmd, cwd, fds) = {
                        let p = &self.pr.procs[&pid];
                        (p.cmd.clone(), p.cwd.clone(), p.fds.clone())
                    };
                    for (_, &o) in &fds {
                        self.fs.obj_ref(o);
                    }
                    let c = self.proc_new(pid, cmd, cwd, s, fds);
                    let ser = self.pr.procs[&c].serial;
                    self.log("PFORK", &[&c.to_string(), &ser.to_string(), &pid.to_string()]);
                }
                Some(Op::WaitKids) => {
                    if self.pr.procs.values().any(|q| q.ppid == pid) {
                        self.pr.procs.get_mut(&pid).unwrap().waiting = true;
                        return;
                    }
                }
                Some(Op::Threads(n)) => {
                    let mut v = Vec::new();
                    for _ in 1..n {
                        let t = self.pr.alloc_pid();
                        v.push(t);
                    }
                    self.pr.procs.get_mut(&pid).unwrap().tids = v;
                }
                Some(Op::WriteFile(path, data, chunk, delay)) => {
                    let cwd = self.pr.procs[&pid].cwd.clone();
                    let w = self.wall();
                    let ino = match self.pr.procs[&pid].writing {
                        Some(x) => x,
                        None => {
                            let full = match self.fs.resolve(&cwd, &path, true) {
                                Ok(f) => f,
                                Err(_) => {
                                    self.proc_exit(pid, 1 << 8);
                                    return;
                                }
                            };
                            if self.fs.parent_ok(&full).is_err() || self.fault("open", &full) != 0 {
                                self.proc_exit(pid, 1 << 8);
                                return;
                            }
                            self.log("PWRITE", &[&pid.to_string(), &esc(full.as_bytes()), &data.chars().count().to_string()]);
                            (self.fs.create(&full, w), 0)
                        }
                    };
                    let bytes = simproto::from_latin(&data);
                    let (i, off) = ino;
                    let n = (chunk.max(1) as usize).min(bytes.len() - off);
                    self.fs.inodes[i].data.extend_from_slice(&bytes[off..off + n]);
                    self.fs.inodes[i].mtime = w;
                    self.fs.inodes[i].dirty = true;
                    let p = self.pr.procs.get_mut(&pid).unwrap();
                    if off + n < bytes.len() {
                        p.writing = Some((i, off + n));
                        p.ops.push_front(Op::WriteFile(path, data, chunk, delay));
                        if delay > 0 {
                            self.resched(pid, delay);
                            return;
                        }
                    } else {
                        p.writing = None;
                    }
                }
                Some(Op::Exit(c)) => {
                    let c = match self.pr.procs[&pid].kid_status {
                        _ if c >= 0 => c,
                        s if s & 0x7f != 0 => 128 + (s & 0x7f),
                        s => s >> 8,
                    };
                    self.proc_exit(pid, (c & 0xff) << 8);
                    return;
                }
                Some(Op::Die(s)) => {
                    self.proc_exit(pid, s & 0x7f);
                    return;
                }
            }
        }
    }

    /// Write on behalf of a process; false if it blocked or died
    fn proc_out(&mut self, pid: i32, fd: i32, data: Vec<u8>) -> bool {
        let Some(&o) = self.pr.procs[&pid].fds.get(&fd) else { return true };
        match self.fs.obj(o).kind.clone() {
            ObjKind::PipeW(p) => {
                if self.fs.pipes[p].readers == 0 {
                    self.stat("job-sigpipe");
                    self.proc_exit(pid, 13);
                    return false;
                }
                let n = data.len().min(PIPE_CAP - self.fs.pipes[p].buf.len());
                self.fs.pipes[p].buf.extend(&data[..n]);
                if n < data.len() {
                    let rest = simproto::to_latin(&data[n..]);
                    let q = self.pr.procs.get_mut(&pid).unwrap();
                    q.ops.push_front(Op::Out(fd, rest));
                    q.blocked = true;
                    q.blocked_on = p;
                    self.pr.nblocked += 1;
                    self.stat("job-blocked-on-pipe");
                    return false;
                }
                true
            }
            ObjKind::Out(n) => {
                let t = esc(&data);
                self.log("OUT", &[&n.to_string(), &t]);
                true
            }
            ObjKind::Tty => {
                self.stat("child-writes-to-terminal");
                self.log("CHILDTTY", &[&pid.to_string()]);
                self.tty_write(&data);
                true
            }
            _ => true,
        }
    }

    pub fn proc_exit(&mut self, pid: i32, status: i32) {
        let (ppid, serial) = {
            let Some(p) = self.pr.procs.get(&pid) else { return };
            if p.zombie.is_some() {
                return;
            }
            (p.ppid, p.serial)
        };
        self.log("PEXIT", &[&pid.to_string(), &serial.to_string(), &status.to_string()]);
        self.set_rss(pid, 0);
        let p = self.pr.procs.get_mut(&pid).unwrap();
        if p.blocked {
            p.blocked = false;
            self.pr.nblocked -= 1;
        }
        p.zombie = Some(status);
        p.gen = u64::MAX;
        p.tids.clear();
        p.waiting = false;
        let fds = std::mem::take(&mut p.fds);
        for (_, o) in fds {
            self.fs.obj_unref(o);
        }
        self.kick_writers();
        // Orphans
        let kids: Vec<i32> = self.pr.procs.values().filter(|q| q.ppid == pid).map(|q| q.pid).collect();
        for k in kids {
            let q = self.pr.procs.get_mut(&k).unwrap();
            q.ppid = 1;
            if q.zombie.is_some() {
                self.pr.procs.remove(&k);
            }
        }
        if ppid == SUT_PID {
            let lag = self.sc.sched.lag_max;
            let v = if lag > 0 { self.decide(kind::LAG, 0xfffe, 0.5, lag) } else { 0 };
            if v > 0 {
                let t = self.now + v;
                self.at(t, Ev::Sig(SUT_PID, libc::SIGCHLD, 0));
            } else {
                self.raise(libc::SIGCHLD);
            }
        } else {
            // Reaped at once by its parent or by init
            self.pr.procs.remove(&pid);
            if let Some(q) = self.pr.procs.get_mut(&ppid) {
                if status != 0 {
                    q.kid_status = status;
                }
                let waiting = q.waiting;
                if waiting && !self.pr.procs.values().any(|r| r.ppid == ppid) {
                    self.pr.procs.get_mut(&ppid).unwrap().waiting = false;
                    self.resched(ppid, 0);
                }
            }
        }
    }

    pub fn proc_signal(&mut self, pid: i32, sig: i32, serial: u64) {
        if pid == SUT_PID {
            self.raise(sig);
            return;
        }
        let Some(p) = self.pr.procs.get_mut(&pid) else { return };
        if p.serial != serial || p.zombie.is_some() {
            return;
        }
        match sig {
            libc::SIGKILL => self.proc_exit(pid, 9),
            libc::SIGTERM | libc::SIGINT | libc::SIGHUP => match p.term {
                OnTerm::Die => self.proc_exit(pid, sig),
                OnTerm::Grace(d) => {
                    p.term = OnTerm::Ignore;
                    p.ops = vec![Op::Sleep(d), Op::Die(sig)].into();
                    if p.blocked {
                        p.blocked = false;
                        self.pr.nblocked -= 1;
                    }
                    let p = self.pr.procs.get_mut(&pid).unwrap();
                    p.waiting = false;
                    self.resched(pid, 0);
                }
                OnTerm::Ignore => {}
            },
            libc::SIGSTOP | libc::SIGCONT => {
                self.log("UNIMPL", &["stop/cont"]);
            }
            _ => self.proc_exit(pid, sig),
        }
    }

    pub fn k_kill(&mut self, pid: i32, sig: i32) -> i64 {
        let (serial, zombie, lat) = match self.pr.procs.get_mut(&pid) {
            Some(p) => {
                if sig != 0 && p.zombie.is_none() {
                    p.termed = true;
                }
                (p.serial, p.zombie.is_some(), p.latency)
            }
            None => {
                self.log("KILL", &[&pid.to_string(), "0", &sig.to_string(), "-3"]);
                return -(libc::ESRCH as i64);
            }
        };
        let e = self.fault("kill", "");
        if e != 0 {
            self.log("KILL", &[&pid.to_string(), &serial.to_string(), &sig.to_string(), &(-e).to_string()]);
            return -(e as i64);
        }
        let z = if zombie { "1" } else { "0" };
        self.log("KILL", &[&pid.to_string(), &serial.to_string(), &sig.to_string(), "0", z]);
        if sig != 0 && !zombie {
            let t = self.now + lat;
            if lat == 0 {
                self.proc_signal(pid, sig, serial);
            } else {
                self.at(t, Ev::Sig(pid, sig, serial));
            }
        }
        0
    }

    /// Result: Some((pid, status)) reaped, None nothing ready (only if nohang)
    pub fn k_reap(&mut self, pid: i32) -> Result<Option<(i32, i32)>, i32> {
        let own: Vec<i32> =
            self.pr.procs.values().filter(|p| p.ppid == SUT_PID && (pid <= 0 || p.pid == pid)).map(|p| p.pid).collect();
        if own.is_empty() {
            return Err(libc::ECHILD);
        }
        for p in own {
            if let Some(st) = self.pr.procs[&p].zombie {
                let serial = self.pr.procs[&p].serial;
                self.pr.procs.remove(&p);
                self.log("REAP", &[&p.to_string(), &serial.to_string(), &st.to_string()]);
                return Ok(Some((p, st)));
            }
        }
        Ok(None)
    }

    // ---- terminal and user ----
    pub fn tty_write(&mut self, data: &[u8]) {
        self.tty_bytes += data.len() as u64;
        self.screen.feed(data);
    }

    fn log_screen(&mut self, label: &str) {
        let mut f: Vec<String> = vec![esc(label.as_bytes())];
        let s = &self.screen;
        f.push(format!("{}x{}", s.w, s.h));
        f.push(format!("{}", s.flags()));
        for l in s.lines() {
            f.push(esc(l.trim_end().as_bytes()));
        }
        let r: Vec<&str> = f.iter().map(|s| s.as_str()).collect();
        self.log("SCREEN", &r);
    }

    pub fn user_step(&mut self) {
        const POLL: u64 = 10_000_000;
        loop {
            let Some(tty) = &self.sc.tty else { return };
            let Some(step) = tty.user.get(self.user_pc).cloned() else { return };
            match step {
                UserStep::Sleep(d) => {
                    self.user_pc += 1;
                    let t = self.now + d;
                    self.at(t, Ev::User);
                    return;
                }
                UserStep::Keys(k) => {
                    self.user_pc += 1;
                    let b = simproto::from_latin(&k);
                    self.log("KEYS", &[&esc(&b)]);
                    self.stat("keys");
                    if !self.tty_raw && b.contains(&3) {
                        self.log("SIGINT", &[]);
                        if !matches!(self.sigs.get(&libc::SIGINT), Some(a) if a.handler > 1) {
                            self.finish("sigint", 130);
                        }
                        self.raise(libc::SIGINT);
                        continue;
                    }
                    if self.tty_in.is_empty() {
                        self.last_input = self.now;
                    }
                    self.tty_in.extend(&b);
                }
                UserStep::Wait(ref t, to) | UserStep::WaitGone(ref t, to) => {
                    let gone = matches!(step, UserStep::WaitGone(..));
                    let ok = self.screen.flat().contains(t.as_str()) != gone;
                    let dl = *self.user_wait.get_or_insert(self.now + to);
                    if ok || self.now >= dl {
                        self.user_wait = None;
                        self.user_pc += 1;
                        let r = if ok { "ok" } else { "timeout" };
                        let g = if gone { "gone" } else { "shown" };
                        self.log("WAITED", &[r, g, &esc(t.as_bytes())]);
                        if !ok {
                            self.log_screen("timeout");
                        }
                        continue;
                    }
                    let n = (self.now + POLL).min(dl);
                    self.at(n, Ev::User);
                    return;
                }
                UserStep::Snap(l) => {
                    self.user_pc += 1;
                    self.log_screen(&l);
                }
                UserStep::SnapFile(l, p) => {
                    self.user_pc += 1;
                    let c = match self.fs.content(&p) {
                        Some(c) => format!("+{}", esc(c)),
                        None => "-".into(),
                    };
                    self.log("SNAPFILE", &[&esc(l.as_bytes()), &esc(p.as_bytes()), &c]);
                }
                UserStep::Resize(w, h) => {
                    self.user_pc += 1;
                    self.screen.resize(w, h);
                    self.stat("resize");
                    self.log("RESIZE", &[&w.to_string(), &h.to_string()]);
                    self.raise(libc::SIGWINCH);
                }
                UserStep::Touch(p, d) => {
                    self.user_pc += 1;
                    let w = self.wall();
                    let full = Fs::norm(&self.fs.cwd, &p);
                    if let Some(i) = full.rfind('/') {
                        self.fs.mkdirs(&full[..i]);
                    }
                    let i = self.fs.create(&full, w);
                    self.fs.inodes[i].data = simproto::from_latin(&d);
                    self.stat("user-file-change");
                    self.log("TOUCH", &[&esc(full.as_bytes()), &w.to_string()]);
                }
                UserStep::Remove(p) => {
                    self.user_pc += 1;
                    let full = Fs::norm(&self.fs.cwd, &p);
                    if matches!(self.fs.nodes.get(&full), Some(crate::fs::Node::File(_))) {
                        self.fs.nodes.remove(&full);
                        self.stat("user-file-change");
                        self.log("TOUCH", &[&esc(full.as_bytes()), "-"]);
                    }
                }
                UserStep::SetMtime(p, m) => {
                    self.user_pc += 1;
                    let full = Fs::norm(&self.fs.cwd, &p);
                    if let Some(crate::fs::Node::File(i)) = self.fs.nodes.get(&full) {
                        let i = *i;
                        self.fs.inodes[i].mtime = m;
                        self.stat("user-file-change");
                        self.log("TOUCH", &[&esc(full.as_bytes()), &m.to_string()]);
                    }
                }
                UserStep::Crash => {
                    self.stat("crash");
                    self.log("CRASH", &["user"]);
                    self.finish("crash", 137);
                }
                UserStep::SkipUnless(t, n) => {
                    self.user_pc += 1;
                    if !self.screen.flat().contains(t.as_str()) {
                        self.user_pc += n as usize;
                    }
                }
            }
        }
    }

    /// Final state of the run
    pub fn dump(&mut self, why: &str, code: i32) {
        if self.sc.tty.is_some() {
            self.log_screen("final");
            self.log("TTYSTATE", &[&(self.tty_raw as u8).to_string(), &self.screen.flags().to_string(), &self.tty_bytes.to_string()]);
            let (a, b) = (self.user_pc, self.sc.tty.as_ref().unwrap().user.len());
            self.log("USERPC", &[&a.to_string(), &b.to_string()]);
        }
        let l: Vec<(i32, u64, i32, bool, bool, String)> = self
            .pr
            .procs
            .values()
            .map(|p| (p.pid, p.serial, p.ppid, p.zombie.is_some(), p.termed, p.cmd.join(" ")))
            .collect();
        for (pid, ser, ppid, z, t, c) in l {
            self.log(
                "ALIVE",
                &[
                    &pid.to_string(),
                    &ser.to_string(),
                    &ppid.to_string(),
                    if z { "zombie" } else { "live" },
                    if t { "signalled" } else { "untouched" },
                    &esc(c.as_bytes()),
                ],
            );
        }
        let names: Vec<String> = self.fs.nodes.keys().cloned().collect();
        for n in names {
            let rec = match &self.fs.nodes[&n] {
                crate::fs::Node::File(i) => {
                    let x = &self.fs.inodes[*i];
                    if x.dirty {
                        Some((x.mode, x.mtime, format!("+{}", esc(&x.data))))
                    } else {
                        Some((x.mode, x.mtime, format!("={}", esc(x.orig.as_deref().unwrap_or("").as_bytes()))))
                    }
                }
                _ => None,
            };
            if let Some((m, t, d)) = rec {
                self.log("FILE", &[&esc(n.as_bytes()), &m.to_string(), &t.to_string(), &d]);
            }
        }
        let st: Vec<(&'static str, u64)> = self.stats.iter().map(|(k, v)| (*k, *v)).collect();
        for (k, v) in st {
            self.log("STATS", &[k, &v.to_string()]);
        }
        let un: Vec<String> = self
            .thr
            .iter()
            .enumerate()
            .filter(|(_, t)| !t.finished)
            .map(|(i, t)| format!("{}:{:?}", i, t.wait))
            .collect();
        self.log("THREADS", &[&esc(un.join("; ").as_bytes())]);
        let (a, b, c, d, e) = (self.calls, self.total_edges, self.switches, self.ilv, self.hash);
        self.log(
            "END",
            &[why, &code.to_string(), &a.to_string(), &b.to_string(), &c.to_string(), &format!("{d:x}"), &format!("{e:x}")],
        );
    }
}
