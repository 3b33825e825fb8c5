//! In-memory file system, file descriptors, pipes, synthetic /proc.
use crate::sim::{Intr, Sim, Wait, Woke};
use simproto::{esc, FileKind, Scenario};
use std::collections::{BTreeMap, VecDeque};

pub const SUT_PID: i32 = 500;
pub const PIPE_CAP: usize = 65536;

pub enum Node {
    File(usize),
    Dir,
    Link(String),
}

pub struct Inode {
    pub data: Vec<u8>,
    pub mtime: i64,
    pub mode: u32,
    pub dirty: bool,
    pub orig: Option<String>,
}

pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub readers: u32,
    pub writers: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum ObjKind {
    File { ino: usize, path: String },
    Proc { path: String, serial: u64, data: Vec<u8> },
    Dir(String),
    Null,
    Tty,
    PipeR(usize),
    PipeW(usize),
    /// Socket pair end: (own input pipe, peer input pipe)
    Sock(usize, usize),
    Datagram,
    Stdin(Vec<u8>),
    Out(i32),
}

pub struct Obj {
    pub kind: ObjKind,
    pub pos: usize,
    pub read: bool,
    pub write: bool,
    pub append: bool,
    pub nonblock: bool,
    pub refs: u32,
}

#[derive(Clone, Copy)]
pub struct Fd {
    pub obj: usize,
    pub cloexec: bool,
}

pub struct Fs {
    pub nodes: BTreeMap<String, Node>,
    pub inodes: Vec<Inode>,
    pub fds: Vec<Option<Fd>>,
    pub objs: Vec<Option<Obj>>,
    pub pipes: Vec<Pipe>,
    pub cwd: String,
}

impl Fs {
    pub fn new(sc: &Scenario) -> Fs {
        let mut f = Fs {
            nodes: BTreeMap::new(),
            inodes: Vec::new(),
            fds: Vec::new(),
            objs: Vec::new(),
            pipes: Vec::new(),
            cwd: sc.cwd.clone(),
        };
        f.nodes.insert("/".into(), Node::Dir);
        for d in ["/tmp", "/dev", "/proc", "/sys"] {
            f.nodes.insert(d.into(), Node::Dir);
        }
        f.mkdirs(&sc.cwd);
        for s in &sc.files {
            if let Some(i) = s.path.rfind('/') {
                f.mkdirs(&s.path[..i.max(1)]);
            }
            match s.kind {
                FileKind::File => {
                    f.inodes.push(Inode {
                        data: simproto::from_latin(&s.data),
                        mtime: s.mtime,
                        mode: s.mode,
                        dirty: false,
                        orig: Some(s.path.clone()),
                    });
                    let i = f.inodes.len() - 1;
                    f.nodes.insert(s.path.clone(), Node::File(i));
                }
                FileKind::Dir => f.mkdirs(&s.path),
                FileKind::Symlink => {
                    f.nodes.insert(s.path.clone(), Node::Link(s.data.clone()));
                }
            }
        }
        // Standard streams
        let stdin = match &sc.stdin {
            Some(s) => f.new_obj(ObjKind::Stdin(simproto::from_latin(s)), true, false),
            None if sc.tty.is_some() => f.new_obj(ObjKind::Tty, true, true),
            None => f.new_obj(ObjKind::Null, true, false),
        };
        f.fds.push(Some(Fd { obj: stdin, cloexec: false }));
        for i in 1..=2 {
            let o = if sc.stdout_tty {
                f.new_obj(ObjKind::Tty, true, true)
            } else {
                f.new_obj(ObjKind::Out(i), false, true)
            };
            f.fds.push(Some(Fd { obj: o, cloexec: false }));
        }
        f
    }
    pub fn mkdirs(&mut self, p: &str) {
        let mut cur = String::new();
        for c in p.split('/').filter(|c| !c.is_empty()) {
            cur.push('/');
            cur.push_str(c);
            self.nodes.entry(cur.clone()).or_insert(Node::Dir);
        }
    }
    pub fn new_obj(&mut self, kind: ObjKind, read: bool, write: bool) -> usize {
        let o = Obj { kind, pos: 0, read, write, append: false, nonblock: false, refs: 1 };
        for (i, s) in self.objs.iter_mut().enumerate() {
            if s.is_none() {
                *s = Some(o);
                return i;
            }
        }
        self.objs.push(Some(o));
        self.objs.len() - 1
    }
    pub fn obj(&mut self, o: usize) -> &mut Obj {
        self.objs[o].as_mut().unwrap()
    }
    pub fn obj_ref(&mut self, o: usize) {
        self.obj(o).refs += 1;
    }
    pub fn obj_unref(&mut self, o: usize) {
        let ob = self.obj(o);
        ob.refs -= 1;
        if ob.refs == 0 {
            let k = ob.kind.clone();
            self.objs[o] = None;
            match k {
                ObjKind::PipeR(p) => self.pipes[p].readers -= 1,
                ObjKind::PipeW(p) => self.pipes[p].writers -= 1,
                ObjKind::Sock(a, b) => {
                    self.pipes[a].readers -= 1;
                    self.pipes[b].writers -= 1;
                }
                _ => {}
            }
        }
    }
    pub fn new_fd(&mut self, obj: usize, cloexec: bool, min: usize) -> i32 {
        let f = Fd { obj, cloexec };
        for i in min..self.fds.len() {
            if self.fds[i].is_none() {
                self.fds[i] = Some(f);
                return i as i32;
            }
        }
        while self.fds.len() < min {
            self.fds.push(None);
        }
        self.fds.push(Some(f));
        self.fds.len() as i32 - 1
    }
    pub fn fd(&self, fd: i32) -> Option<Fd> {
        if fd < 0 {
            return None;
        }
        self.fds.get(fd as usize).copied().flatten()
    }
    pub fn new_pipe(&mut self) -> usize {
        self.pipes.push(Pipe { buf: VecDeque::new(), readers: 1, writers: 1 });
        self.pipes.len() - 1
    }

    pub fn norm(base: &str, p: &str) -> String {
        let mut parts: Vec<&str> = Vec::new();
        if !p.starts_with('/') {
            parts.extend(base.split('/').filter(|c| !c.is_empty()));
        }
        for c in p.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    parts.pop();
                }
                c => parts.push(c),
            }
        }
        format!("/{}", parts.join("/"))
    }

    /// Resolve a path component by component; the last component may not exist
    pub fn resolve(&self, base: &str, p: &str, follow_last: bool) -> Result<String, i32> {
        self.resolve_d(base, p, follow_last, 0)
    }
    fn resolve_d(&self, base: &str, p: &str, follow_last: bool, depth: u32) -> Result<String, i32> {
        if p.is_empty() {
            return Err(libc::ENOENT);
        }
        if depth > 20 {
            return Err(libc::ELOOP);
        }
        let mut cur: String = if p.starts_with('/') { String::new() } else { base.trim_end_matches('/').to_string() };
        let comps: Vec<&str> = p.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        for (i, c) in comps.iter().enumerate() {
            if *c == ".." {
                match cur.rfind('/') {
                    Some(i) => cur.truncate(i),
                    None => {}
                }
                continue;
            }
            let next = format!("{cur}/{c}");
            let last = i + 1 == comps.len();
            if cur.starts_with("/proc") || cur.starts_with("/sys") {
                cur = next;
                continue;
            }
            match self.nodes.get(&next) {
                Some(Node::Link(t)) if !last || follow_last => {
                    let b = if cur.is_empty() { "/" } else { &cur };
                    cur = self.resolve_d(b, t, true, depth + 1)?;
                    if cur == "/" {
                        cur.clear();
                    }
                }
                Some(Node::File(_)) if !last => return Err(libc::ENOTDIR),
                None if !last => return Err(libc::ENOENT),
                _ => cur = next,
            }
        }
        if cur.is_empty() {
            cur.push('/');
        }
        Ok(cur)
    }
    pub fn parent_ok(&self, p: &str) -> Result<(), i32> {
        let i = p.rfind('/').unwrap_or(0);
        let d = if i == 0 { "/" } else { &p[..i] };
        match self.nodes.get(d) {
            Some(Node::Dir) => Ok(()),
            Some(_) => Err(libc::ENOTDIR),
            None => Err(libc::ENOENT),
        }
    }
    pub fn content(&self, p: &str) -> Option<&[u8]> {
        match self.nodes.get(p) {
            Some(Node::File(i)) => Some(&self.inodes[*i].data),
            _ => None,
        }
    }
    /// Create or truncate
    pub fn create(&mut self, p: &str, mtime: i64) -> usize {
        if let Some(Node::File(i)) = self.nodes.get(p) {
            let i = *i;
            self.inodes[i].data.clear();
            self.inodes[i].mtime = mtime;
            self.inodes[i].dirty = true;
            return i;
        }
        self.inodes.push(Inode { data: Vec::new(), mtime, mode: 0o644, dirty: true, orig: None });
        let i = self.inodes.len() - 1;
        self.nodes.insert(p.to_string(), Node::File(i));
        i
    }
}

pub struct Stat {
    pub mode: u32,
    pub size: u64,
    pub mtime: i64,
    pub ino: u64,
}

impl Sim {
    // ---- readiness ----
    pub fn obj_readable(&self, o: usize) -> bool {
        match &self.fs.objs[o] {
            None => true,
            Some(ob) => match &ob.kind {
                ObjKind::PipeR(p) => !self.fs.pipes[*p].buf.is_empty() || self.fs.pipes[*p].writers == 0,
                ObjKind::Sock(a, _) => !self.fs.pipes[*a].buf.is_empty() || self.fs.pipes[*a].writers == 0,
                ObjKind::Tty => !self.tty_in.is_empty(),
                _ => true,
            },
        }
    }
    pub fn obj_writable(&self, o: usize) -> bool {
        match &self.fs.objs[o] {
            None => true,
            Some(ob) => match &ob.kind {
                ObjKind::PipeW(p) | ObjKind::Sock(_, p) => {
                    self.fs.pipes[*p].buf.len() < PIPE_CAP || self.fs.pipes[*p].readers == 0
                }
                _ => true,
            },
        }
    }
    pub fn poll_fd(&self, fd: i32, events: i16) -> i16 {
        let Some(f) = self.fs.fd(fd) else { return libc::POLLNVAL };
        let mut r = 0;
        if events & libc::POLLIN != 0 && self.obj_readable(f.obj) {
            r |= libc::POLLIN;
        }
        if events & libc::POLLOUT != 0 && self.obj_writable(f.obj) {
            r |= libc::POLLOUT;
        }
        match &self.fs.objs[f.obj].as_ref().unwrap().kind {
            ObjKind::PipeR(p) if self.fs.pipes[*p].writers == 0 => {
                r |= libc::POLLHUP;
                if self.fs.pipes[*p].buf.is_empty() {
                    r &= !libc::POLLIN;
                }
            }
            ObjKind::PipeW(p) if self.fs.pipes[*p].readers == 0 => r |= libc::POLLERR,
            _ => {}
        }
        r
    }

    // ---- files ----
    fn is_synthetic(p: &str) -> bool {
        p == "/proc" || p.starts_with("/proc/") || p.starts_with("/sys/")
    }

    pub fn k_open(&mut self, path: &str, flags: i32) -> i64 {
        let cloexec = flags & libc::O_CLOEXEC != 0;
        let acc = flags & libc::O_ACCMODE;
        let (rd, wr) = (acc != libc::O_WRONLY, acc != libc::O_RDONLY);
        let kind = if path == "/dev/null" {
            ObjKind::Null
        } else if path == "/dev/tty" {
            if self.sc.tty.is_none() {
                return -(libc::ENXIO as i64);
            }
            ObjKind::Tty
        } else {
            let full = match self.fs.resolve(&self.fs.cwd, path, true) {
                Ok(p) => p,
                Err(e) => return self.open_res(path, flags, -(e as i64)),
            };
            self.slow("open", &full);
            let e = self.fault("open", &full);
            if e != 0 {
                return self.open_res(&full, flags, -(e as i64));
            }
            if Self::is_synthetic(&full) {
                match self.proc_open(&full) {
                    Some(serial) => ObjKind::Proc { path: full, serial, data: Vec::new() },
                    None => return -(libc::ENOENT as i64),
                }
            } else {
                match self.fs.nodes.get(&full) {
                    Some(Node::Dir) => {
                        if wr {
                            return self.open_res(&full, flags, -(libc::EISDIR as i64));
                        }
                        ObjKind::Dir(full)
                    }
                    Some(Node::File(i)) => {
                        let i = *i;
                        let m = self.fs.inodes[i].mode;
                        if (rd && m & 0o400 == 0) || (wr && m & 0o200 == 0) {
                            return self.open_res(&full, flags, -(libc::EACCES as i64));
                        }
                        if flags & libc::O_EXCL != 0 && flags & libc::O_CREAT != 0 {
                            return self.open_res(&full, flags, -(libc::EEXIST as i64));
                        }
                        if wr && flags & libc::O_TRUNC != 0 {
                            self.fs.inodes[i].data.clear();
                            self.fs.inodes[i].dirty = true;
                            self.fs.inodes[i].mtime = self.wall();
                            self.stat("truncate");
                        }
                        ObjKind::File { ino: i, path: full }
                    }
                    Some(Node::Link(_)) => return -(libc::ELOOP as i64),
                    None => {
                        if flags & libc::O_CREAT == 0 {
                            return self.open_res(&full, flags, -(libc::ENOENT as i64));
                        }
                        if let Err(e) = self.fs.parent_ok(&full) {
                            return self.open_res(&full, flags, -(e as i64));
                        }
                        let w = self.wall();
                        let i = self.fs.create(&full, w);
                        ObjKind::File { ino: i, path: full }
                    }
                }
            }
        };
        let p = match &kind {
            ObjKind::File { path, .. } => Some(path.clone()),
            _ => None,
        };
        let o = self.fs.new_obj(kind, rd, wr);
        let ob = self.fs.obj(o);
        ob.append = flags & libc::O_APPEND != 0;
        ob.nonblock = flags & libc::O_NONBLOCK != 0;
        let fd = self.fs.new_fd(o, cloexec, 0);
        if let Some(p) = p {
            self.open_res(&p, flags, fd as i64);
        }
        fd as i64
    }
    fn open_res(&mut self, path: &str, flags: i32, r: i64) -> i64 {
        if !Self::is_synthetic(path) {
            let m = if flags & libc::O_ACCMODE == libc::O_RDONLY { "r" } else { "w" };
            self.log("OPEN", &[&esc(path.as_bytes()), m, &r.to_string()]);
        }
        r
    }

    pub fn k_close(&mut self, fd: i32) -> i64 {
        let Some(f) = self.fs.fd(fd) else { return -(libc::EBADF as i64) };
        self.fs.fds[fd as usize] = None;
        let p = path_of(&self.fs.obj(f.obj).kind).to_string();
        if !p.is_empty() && self.fs.obj(f.obj).write {
            self.log("CLOSE", &[&esc(p.as_bytes())]);
        }
        self.fs.obj_unref(f.obj);
        self.kick_writers();
        0
    }

    /// Wake simulated processes blocked on a pipe
    pub fn kick_writers(&mut self) {
        if self.pr.nblocked > 0 {
            self.proc_kick();
        }
    }

    /// Blocking read. Returns bytes or -errno
    pub fn k_read(&mut self, fd: i32, buf: &mut [u8]) -> i64 {
        let Some(f) = self.fs.fd(fd) else { return -(libc::EBADF as i64) };
        let o = f.obj;
        if !self.fs.obj(o).read {
            return -(libc::EBADF as i64);
        }
        if buf.is_empty() {
            return 0;
        }
        let kind = light(&self.fs.obj(o).kind, READING);
        match kind {
            Light::File(ino) => {
                let path = path_of(&self.fs.obj(o).kind).to_string();
                let e = self.fault("read", &path);
                if e != 0 {
                    return -(e as i64);
                }
                if self.inject_eintr() {
                    return -(libc::EINTR as i64);
                }
                let pos = self.fs.obj(o).pos;
                let avail = self.fs.inodes[ino].data.len().saturating_sub(pos);
                let n = self.shorten(avail.min(buf.len()));
                buf[..n].copy_from_slice(&self.fs.inodes[ino].data[pos..pos + n]);
                self.fs.obj(o).pos += n;
                self.slow("read", &path);
                n as i64
            }
            Light::Proc => {
                let (path, serial) = match &self.fs.obj(o).kind {
                    ObjKind::Proc { path, serial, .. } => (path.clone(), *serial),
                    _ => unreachable!(),
                };
                let e = self.fault("read", &path);
                if e != 0 {
                    return -(e as i64);
                }
                let pos = self.fs.obj(o).pos;
                if pos == 0 {
                    match self.proc_content(&path, serial) {
                        Some(d) => {
                            if let ObjKind::Proc { data, .. } = &mut self.fs.obj(o).kind {
                                *data = d;
                            }
                        }
                        None => return -(libc::ESRCH as i64),
                    }
                }
                let avail = match &self.fs.obj(o).kind {
                    ObjKind::Proc { data, .. } => data.len().saturating_sub(pos),
                    _ => 0,
                };
                let n = avail.min(buf.len());
                if let ObjKind::Proc { data, .. } = &self.fs.obj(o).kind {
                    buf[..n].copy_from_slice(&data[pos..pos + n]);
                }
                self.fs.obj(o).pos += n;
                n as i64
            }
            Light::Dir => -(libc::EISDIR as i64),
            Light::Null => 0,
            Light::Stdin => {
                let e = self.fault("read", "<stdin>");
                if e != 0 {
                    return -(e as i64);
                }
                if self.inject_eintr() {
                    return -(libc::EINTR as i64);
                }
                let pos = self.fs.obj(o).pos;
                let len = match &self.fs.obj(o).kind {
                    ObjKind::Stdin(d) => d.len(),
                    _ => 0,
                };
                let n = self.shorten((len - pos).min(buf.len()));
                if let ObjKind::Stdin(d) = &self.fs.obj(o).kind {
                    buf[..n].copy_from_slice(&d[pos..pos + n]);
                }
                self.fs.obj(o).pos += n;
                n as i64
            }
            Light::Tty => {
                if self.tty_in.is_empty() {
                    if self.fs.obj(o).nonblock {
                        return -(libc::EAGAIN as i64);
                    }
                    if self.block(Wait::Read(o), None, Intr::Restart) == Woke::Intr {
                        return -(libc::EINTR as i64);
                    }
                }
                let mut n = 0;
                while n < buf.len() {
                    match self.tty_in.pop_front() {
                        Some(b) => {
                            buf[n] = b;
                            n += 1;
                        }
                        None => break,
                    }
                }
                let d = self.now - self.last_input;
                self.log("TREAD", &[&esc(&buf[..n]), &d.to_string()]);
                n as i64
            }
            Light::PipeR(p) => {
                let mut waited = false;
                loop {
                    if !self.fs.pipes[p].buf.is_empty() || self.fs.pipes[p].writers == 0 {
                        break;
                    }
                    if self.fs.obj(o).nonblock {
                        return -(libc::EAGAIN as i64);
                    }
                    waited = true;
                    if self.block(Wait::Read(o), None, Intr::Restart) == Woke::Intr {
                        return -(libc::EINTR as i64);
                    }
                    if self.fs.objs[o].is_none() {
                        return -(libc::EBADF as i64);
                    }
                }
                if waited && self.inject_eintr() {
                    return -(libc::EINTR as i64);
                }
                let n = self.fs.pipes[p].buf.len().min(buf.len());
                let n = self.shorten(n);
                for b in buf[..n].iter_mut() {
                    *b = self.fs.pipes[p].buf.pop_front().unwrap();
                }
                if n > 0 {
                    self.kick_writers();
                }
                n as i64
            }
            _ => -(libc::EBADF as i64),
        }
    }

    pub fn k_write(&mut self, fd: i32, buf: &[u8]) -> i64 {
        let Some(f) = self.fs.fd(fd) else { return -(libc::EBADF as i64) };
        let o = f.obj;
        if !self.fs.obj(o).write {
            return -(libc::EBADF as i64);
        }
        let kind = light(&self.fs.obj(o).kind, WRITING);
        match kind {
            Light::File(ino) => {
                let path = path_of(&self.fs.obj(o).kind).to_string();
                let e = self.fault("write", &path);
                if e != 0 {
                    self.log("WRITE", &[&esc(path.as_bytes()), "-", &(-e).to_string()]);
                    return -(e as i64);
                }
                if self.inject_eintr() {
                    return -(libc::EINTR as i64);
                }
                let n = self.shorten(buf.len());
                let w = self.wall();
                let pos = if self.fs.obj(o).append { self.fs.inodes[ino].data.len() } else { self.fs.obj(o).pos };
                let d = &mut self.fs.inodes[ino];
                if d.data.len() < pos {
                    d.data.resize(pos, 0);
                }
                let end = (pos + n).min(d.data.len());
                d.data.splice(pos..end, buf[..n].iter().copied());
                d.dirty = true;
                d.mtime = w;
                self.fs.obj(o).pos = pos + n;
                self.log("WRITE", &[&esc(path.as_bytes()), &pos.to_string(), &n.to_string()]);
                self.slow("write", &path);
                n as i64
            }
            Light::Null => buf.len() as i64,
            Light::Datagram => {
                // Messages of level debug only describe layouts
                if !buf.starts_with(b"<15>") {
                    let txt = esc(buf);
                    self.log("SYSLOG", &[&txt]);
                }
                buf.len() as i64
            }
            Light::Out(n) => {
                let e = self.fault("write", if n == 1 { "<stdout>" } else { "<stderr>" });
                if e != 0 {
                    return -(e as i64);
                }
                if self.inject_eintr() {
                    return -(libc::EINTR as i64);
                }
                let k = self.shorten(buf.len());
                let t = esc(&buf[..k]);
                self.log("OUT", &[&n.to_string(), &t]);
                k as i64
            }
            Light::Tty => {
                self.tty_write(buf);
                buf.len() as i64
            }
            Light::PipeW(p) => {
                if buf.is_empty() {
                    return 0;
                }
                loop {
                    if self.fs.pipes[p].readers == 0 {
                        return -(libc::EPIPE as i64);
                    }
                    if self.fs.pipes[p].buf.len() < PIPE_CAP {
                        break;
                    }
                    if self.fs.obj(o).nonblock {
                        return -(libc::EAGAIN as i64);
                    }
                    if self.block(Wait::Write(o), None, Intr::Restart) == Woke::Intr {
                        return -(libc::EINTR as i64);
                    }
                }
                let n = buf.len().min(PIPE_CAP - self.fs.pipes[p].buf.len());
                self.fs.pipes[p].buf.extend(&buf[..n]);
                n as i64
            }
            _ => -(libc::EBADF as i64),
        }
    }

    pub fn k_lseek(&mut self, fd: i32, off: i64, whence: i32) -> i64 {
        let Some(f) = self.fs.fd(fd) else { return -(libc::EBADF as i64) };
        let o = f.obj;
        let (pos, len) = match &self.fs.obj(o).kind {
            ObjKind::File { ino, .. } => {
                let i = *ino;
                (self.fs.obj(o).pos as i64, self.fs.inodes[i].data.len() as i64)
            }
            ObjKind::Proc { .. } => (self.fs.obj(o).pos as i64, 0),
            ObjKind::Null => (0, 0),
            _ => return -(libc::ESPIPE as i64),
        };
        let n = match whence {
            libc::SEEK_SET => off,
            libc::SEEK_CUR => pos + off,
            libc::SEEK_END => len + off,
            _ => -1,
        };
        if n < 0 {
            return -(libc::EINVAL as i64);
        }
        self.fs.obj(o).pos = n as usize;
        n
    }

    pub fn k_stat(&mut self, path: &str, follow: bool) -> Result<Stat, i32> {
        let full = self.fs.resolve(&self.fs.cwd, path, follow)?;
        let e = self.fault("stat", &full);
        if e != 0 {
            return Err(e);
        }
        if Self::is_synthetic(&full) {
            if self.proc_dir(&full).is_some() {
                return Ok(Stat { mode: libc::S_IFDIR | 0o555, size: 0, mtime: 0, ino: 2 });
            }
            return match self.proc_open(&full) {
                Some(_) => Ok(Stat { mode: libc::S_IFREG | 0o444, size: 0, mtime: 0, ino: 1 }),
                None => Err(libc::ENOENT),
            };
        }
        if full == "/dev/null" || full == "/dev/tty" {
            return Ok(Stat { mode: libc::S_IFCHR | 0o666, size: 0, mtime: 0, ino: 3 });
        }
        let r = match self.fs.nodes.get(&full) {
            None => Err(libc::ENOENT),
            Some(Node::Dir) => Ok(Stat { mode: libc::S_IFDIR | 0o755, size: 4096, mtime: self.sc.realtime, ino: 7 }),
            Some(Node::Link(t)) => Ok(Stat { mode: libc::S_IFLNK | 0o777, size: t.len() as u64, mtime: 0, ino: 8 }),
            Some(Node::File(i)) => {
                let n = &self.fs.inodes[*i];
                Ok(Stat { mode: libc::S_IFREG | n.mode, size: n.data.len() as u64, mtime: n.mtime, ino: 100 + *i as u64 })
            }
        };
        let t = match &r {
            Ok(s) => s.mtime.to_string(),
            Err(e) => format!("-{e}"),
        };
        self.log("STAT", &[&esc(full.as_bytes()), &t]);
        r
    }
    pub fn k_fstat(&mut self, fd: i32) -> Result<Stat, i32> {
        let Some(f) = self.fs.fd(fd) else { return Err(libc::EBADF) };
        let m = match &self.fs.obj(f.obj).kind {
            ObjKind::File { ino, .. } => {
                let i = *ino;
                let n = &self.fs.inodes[i];
                return Ok(Stat {
                    mode: libc::S_IFREG | n.mode,
                    size: n.data.len() as u64,
                    mtime: n.mtime,
                    ino: 100 + i as u64,
                });
            }
            ObjKind::Proc { .. } => libc::S_IFREG | 0o444,
            ObjKind::Dir(_) => libc::S_IFDIR | 0o755,
            ObjKind::Null | ObjKind::Tty => libc::S_IFCHR | 0o666,
            ObjKind::PipeR(_) | ObjKind::PipeW(_) | ObjKind::Stdin(_) | ObjKind::Out(_) => libc::S_IFIFO | 0o600,
            ObjKind::Sock(..) | ObjKind::Datagram => libc::S_IFSOCK | 0o777,
        };
        Ok(Stat { mode: m, size: 0, mtime: 0, ino: 5 })
    }

    pub fn k_rename(&mut self, a: &str, b: &str) -> i64 {
        self.slow("rename", a);
        let r = (|| {
            let fa = self.fs.resolve(&self.fs.cwd, a, false)?;
            let fb = self.fs.resolve(&self.fs.cwd, b, false)?;
            let e = self.fault("rename", &fa);
            if e != 0 {
                return Err(e);
            }
            self.fs.parent_ok(&fb)?;
            match self.fs.nodes.get(&fa) {
                None => return Err(libc::ENOENT),
                Some(Node::Dir) => return Err(libc::EISDIR),
                _ => {}
            }
            if let Some(Node::Dir) = self.fs.nodes.get(&fb) {
                return Err(libc::EISDIR);
            }
            if fa != fb {
                let n = self.fs.nodes.remove(&fa).unwrap();
                self.fs.nodes.insert(fb.clone(), n);
            }
            Ok(())
        })();
        let c = match r {
            Ok(()) => 0,
            Err(e) => -(e as i64),
        };
        self.log("RENAME", &[&esc(a.as_bytes()), &esc(b.as_bytes()), &c.to_string()]);
        c
    }
    pub fn k_unlink(&mut self, a: &str) -> i64 {
        self.slow("unlink", a);
        let r = (|| {
            let fa = self.fs.resolve(&self.fs.cwd, a, false)?;
            let e = self.fault("unlink", &fa);
            if e != 0 {
                return Err(e);
            }
            match self.fs.nodes.get(&fa) {
                None => return Err(libc::ENOENT),
                Some(Node::Dir) => return Err(libc::EISDIR),
                _ => {}
            }
            self.fs.nodes.remove(&fa);
            Ok(())
        })();
        let c = match r {
            Ok(()) => 0,
            Err(e) => -(e as i64),
        };
        self.log("UNLINK", &[&esc(a.as_bytes()), &c.to_string()]);
        c
    }

    pub fn dir_list(&mut self, full: &str) -> Option<Vec<(String, u8)>> {
        if Self::is_synthetic(full) {
            return self.proc_dir(full);
        }
        match self.fs.nodes.get(full) {
            Some(Node::Dir) => {}
            _ => return None,
        }
        let pre = if full == "/" { "/".to_string() } else { format!("{full}/") };
        let mut v = vec![(".".to_string(), libc::DT_DIR), ("..".to_string(), libc::DT_DIR)];
        for (k, n) in self.fs.nodes.range(pre.clone()..) {
            if !k.starts_with(&pre) {
                break;
            }
            let rest = &k[pre.len()..];
            if rest.is_empty() || rest.contains('/') {
                continue;
            }
            v.push((
                rest.to_string(),
                match n {
                    Node::File(_) => libc::DT_REG,
                    Node::Dir => libc::DT_DIR,
                    Node::Link(_) => libc::DT_LNK,
                },
            ));
        }
        Some(v)
    }

    // ---- /proc ----
    fn proc_parse(path: &str) -> Option<(i32, &str)> {
        let rest = path.strip_prefix("/proc/")?;
        let (p, r) = rest.split_once('/').unwrap_or((rest, ""));
        let pid = if p == "self" { SUT_PID } else { p.parse().ok()? };
        Some((pid, r))
    }
    /// Instance identity of a /proc file, None if it does not exist
    fn proc_open(&mut self, path: &str) -> Option<u64> {
        match path {
            "/proc/meminfo" | "/proc/stat" | "/proc/uptime" => return Some(0),
            _ => {}
        }
        let (pid, rest) = Self::proc_parse(path)?;
        let name = match rest.strip_prefix("task/") {
            Some(r) => {
                let (t, f) = r.split_once('/')?;
                let t: i32 = t.parse().ok()?;
                if !self.proc_tasks(pid)?.contains(&t) {
                    return None;
                }
                f
            }
            None => rest,
        };
        let serial = self.proc_serial(pid)?;
        match name {
            "stat" | "statm" | "cmdline" | "io" => Some(serial),
            _ => None,
        }
    }
    pub fn proc_tasks(&self, pid: i32) -> Option<Vec<i32>> {
        if pid == SUT_PID {
            return Some(
                (0..self.thr.len()).filter(|&i| i == 0 || !self.thr[i].finished).map(|i| SUT_PID + i as i32).collect(),
            );
        }
        if pid == 1 || pid == 2 || pid == 400 {
            return Some(vec![pid]);
        }
        let p = self.pr.get(pid)?;
        let mut v = vec![pid];
        v.extend(p.tids.iter());
        Some(v)
    }
    fn proc_serial(&self, pid: i32) -> Option<u64> {
        match pid {
            1 | 2 | 400 | SUT_PID => Some(1),
            _ => self.pr.get(pid).map(|p| p.serial),
        }
    }
    pub fn proc_dir(&mut self, path: &str) -> Option<Vec<(String, u8)>> {
        let mut v = vec![(".".to_string(), libc::DT_DIR), ("..".to_string(), libc::DT_DIR)];
        if path == "/proc" {
            self.log("PSCAN", &[]);
            for f in ["meminfo", "stat", "uptime"] {
                v.push((f.into(), libc::DT_REG));
            }
            v.push(("sys".into(), libc::DT_DIR));
            for p in [1, 2, 400, SUT_PID] {
                v.push((p.to_string(), libc::DT_DIR));
            }
            for p in self.pr.list() {
                v.push((p.to_string(), libc::DT_DIR));
            }
            return Some(v);
        }
        let (pid, rest) = Self::proc_parse(path)?;
        if pid == 2 && rest == "task" {
            v.push(("2".into(), libc::DT_DIR));
            return Some(v);
        }
        self.proc_serial(pid)?;
        match rest {
            "" => {
                for f in ["stat", "statm"] {
                    v.push((f.into(), libc::DT_REG));
                }
                v.push(("task".into(), libc::DT_DIR));
                Some(v)
            }
            "task" => {
                for t in self.proc_tasks(pid)? {
                    v.push((t.to_string(), libc::DT_DIR));
                }
                Some(v)
            }
            r => {
                // task/<tid>
                let t: i32 = r.strip_prefix("task/")?.parse().ok()?;
                if self.proc_tasks(pid)?.contains(&t) {
                    Some(v)
                } else {
                    None
                }
            }
        }
    }
    fn proc_content(&mut self, path: &str, serial: u64) -> Option<Vec<u8>> {
        match path {
            "/proc/meminfo" => {
                let av = self.available_memory();
                self.log("MEMINFO", &[&av.to_string()]);
                let t = self.sc.mem_total / 1024;
                return Some(
                    format!(
                        "MemTotal:       {t} kB\nMemFree:        {} kB\nMemAvailable:   {} kB\nBuffers:        1000 kB\nCached:         2000 kB\nSwapTotal:      0 kB\nSwapFree:       0 kB\n",
                        av / 2048,
                        av / 1024
                    )
                    .into_bytes(),
                );
            }
            "/proc/stat" => {
                let b = (self.sc.realtime - self.t0() as i64) / 1_000_000_000;
                return Some(format!("cpu  1 2 3 4 5 6 7 0 0 0\nbtime {b}\nprocesses 100\n").into_bytes());
            }
            "/proc/uptime" => {
                let u = self.now / 10_000_000;
                return Some(format!("{}.{:02} 100.00\n", u / 100, u % 100).into_bytes());
            }
            _ => {}
        }
        let (pid, rest) = Self::proc_parse(path)?;
        if self.proc_serial(pid)? != serial {
            return None;
        }
        let (tid, name) = match rest.strip_prefix("task/") {
            Some(r) => {
                let (t, f) = r.split_once('/')?;
                let t: i32 = t.parse().ok()?;
                if !self.proc_tasks(pid)?.contains(&t) {
                    return None;
                }
                (t, f)
            }
            None => (pid, rest),
        };
        let (comm, ppid, state, start, rss, nthr, flags) = match pid {
            1 => ("init".to_string(), 0, 'S', 0, 10 << 20, 1, 0x400100u64),
            2 => ("kthreadd".to_string(), 0, 'S', 0, 0, 1, 0x208040),
            400 => ("bash".to_string(), 1, 'S', 500_000_000_000, 5 << 20, 1, 0x400000),
            SUT_PID => {
                let n = self.proc_tasks(pid)?.len();
                ("crofiler".to_string(), 400, 'R', self.t0(), 30 << 20, n, 0x400000)
            }
            _ => {
                let p = self.pr.get(pid)?;
                let comm: String =
                    p.cmd.first().map(|c| c.rsplit('/').next().unwrap_or("").chars().take(15).collect()).unwrap_or_default();
                let st = if p.zombie.is_some() { 'Z' } else { 'S' };
                (comm, p.ppid, st, p.start, p.rss, 1 + p.tids.len(), 0x400000)
            }
        };
        match name {
            "stat" => Some(
                format!(
                    "{tid} ({comm}) {state} {ppid} {pid} {pid} 0 -1 {flags} 100 0 0 0 10 5 0 0 20 0 {nthr} 0 {} {} {} 18446744073709551615 1 1 0 0 0 0 0 0 0 0 0 0 17 1 0 0 0 0 0 0 0 0 0 0 0 0 0\n",
                    start / 10_000_000,
                    rss + (50 << 20),
                    rss / 4096
                )
                .into_bytes(),
            ),
            "statm" => {
                if state == 'Z' {
                    return Some(b"0 0 0 0 0 0 0\n".to_vec());
                }
                self.stat("statm-read");
                Some(format!("{} {} 100 10 0 50 0\n", rss / 4096 + 12800, rss / 4096).into_bytes())
            }
            _ => Some(Vec::new()),
        }
    }
}

enum Light {
    File(usize),
    Proc,
    Dir,
    Null,
    Tty,
    PipeR(usize),
    PipeW(usize),
    Datagram,
    Stdin,
    Out(i32),
}
const READING: bool = false;
const WRITING: bool = true;
/// Object kind without its content; each direction of a socket is a pipe
fn light(k: &ObjKind, writing: bool) -> Light {
    match k {
        ObjKind::File { ino, .. } => Light::File(*ino),
        ObjKind::Proc { .. } => Light::Proc,
        ObjKind::Dir(_) => Light::Dir,
        ObjKind::Null => Light::Null,
        ObjKind::Tty => Light::Tty,
        ObjKind::PipeR(p) => Light::PipeR(*p),
        ObjKind::PipeW(p) => Light::PipeW(*p),
        ObjKind::Sock(a, b) => {
            if writing {
                Light::PipeW(*b)
            } else {
                Light::PipeR(*a)
            }
        }
        ObjKind::Datagram => Light::Datagram,
        ObjKind::Stdin(_) => Light::Stdin,
        ObjKind::Out(n) => Light::Out(*n),
    }
}
fn path_of(k: &ObjKind) -> &str {
    match k {
        ObjKind::File { path, .. } => path,
        _ => "",
    }
}
