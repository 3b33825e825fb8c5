//! Simulator runtime: interposes the C library interface used by the program
//! under test and runs it under a deterministic scheduler.
#![allow(clippy::missing_safety_doc, non_camel_case_types, static_mut_refs)]

mod alloc;
mod fs;
mod proc;
mod raw;
mod sim;

use fs::{ObjKind, SUT_PID};
use libc::{c_char, c_int, c_void, size_t, ssize_t};
use raw::{libc_ret, set_errno};
use sim::{active, sim, Intr, Wait, Woke, IN_SIM, SIM, TID};
use std::ffi::CStr;
use std::sync::atomic::{AtomicU32, Ordering};

#[global_allocator]
static ALLOC: alloc::Arena = alloc::Arena::new();

struct Guard;
impl Guard {
    fn new() -> Guard {
        IN_SIM.with(|c| c.set(c.get() + 1));
        Guard
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        IN_SIM.with(|c| c.set(c.get() - 1));
    }
}

unsafe fn cstr(p: *const c_char) -> String {
    if p.is_null() {
        return String::new();
    }
    String::from_utf8_lossy(CStr::from_ptr(p).to_bytes()).into_owned()
}

/// Enter the simulation or return a passthrough value
macro_rules! enter {
    ($name:expr, $pass:expr) => {{
        if !active() {
            return $pass;
        }
        let g = Guard::new();
        sim().enter($name);
        g
    }};
}
fn unimpl(name: &str) {
    if active() {
        let _g = Guard::new();
        sim().log("UNIMPL", &[name]);
    }
    unsafe { set_errno(libc::ENOSYS) };
}
macro_rules! unimpl_fns {
    ($($n:ident),*) => { $( #[no_mangle] pub unsafe extern "C" fn $n() -> i64 { unimpl(stringify!($n)); -1 } )* };
}
unimpl_fns!(
    fork, vfork, execvp, execve, execv, getaddrinfo, accept4, listen, recvmsg, sendmsg, getpeername, getsockname,
    waitid, select, epoll_create1, eventfd, inotify_init1, posix_spawnattr_setpgroup, openat64, mkdir, rmdir, symlink,
    link, ftruncate64, chmod, pread64, pwrite64, fsync, fdatasync, readdir, system, popen, truncate64, utimensat, futimens
);

// ---------------------------------------------------------------- start-up

type CreateFn = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    extern "C" fn(*mut c_void) -> *mut c_void,
    *mut c_void,
) -> c_int;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
type SigactionFn = unsafe extern "C" fn(c_int, *const libc::sigaction, *mut libc::sigaction) -> c_int;
static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;
static mut REAL_SIGACTION: Option<SigactionFn> = None;
static mut COV: *mut u8 = std::ptr::null_mut();
static mut NGUARDS: u32 = 0;
static mut LOG: *mut u8 = std::ptr::null_mut();

extern "C" {
    fn on_exit(f: extern "C" fn(c_int, *mut c_void), arg: *mut c_void) -> c_int;
    fn __cxa_thread_atexit_impl(f: extern "C" fn(*mut c_void), obj: *mut c_void, dso: *mut c_void) -> c_int;
}

#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn() = init;

extern "C" fn init() {
    unsafe {
        REAL_CREATE = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()));
        REAL_JOIN = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr()));
        REAL_SIGACTION = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"sigaction".as_ptr()));
        // Find the scenario
        let mut st: libc::stat64 = std::mem::zeroed();
        if raw::sc(libc::SYS_fstat, simproto::SCEN_FD as i64, &mut st as *mut _ as i64, 0) < 0 {
            // Not simulated (build scripts...)
            return;
        }
        let n = st.st_size as usize;
        let mut data = vec![0u8; n];
        let mut off = 0;
        while off < n {
            let r = raw::sc6(
                libc::SYS_pread64,
                simproto::SCEN_FD as i64,
                data.as_mut_ptr().add(off) as i64,
                (n - off) as i64,
                off as i64,
                0,
                0,
            );
            if r <= 0 {
                raw::exit_group(92);
            }
            off += r as usize;
        }
        LOG = raw::sc6(
            libc::SYS_mmap,
            0x2000_0000_0000,
            simproto::LOG_SIZE as i64,
            (libc::PROT_READ | libc::PROT_WRITE) as i64,
            (libc::MAP_SHARED | libc::MAP_FIXED_NOREPLACE) as i64,
            simproto::LOG_FD as i64,
            0,
        ) as *mut u8;
        if LOG as usize != 0x2000_0000_0000 {
            raw::exit_group(91);
        }
        COV = LOG.add(simproto::LOG_SIZE - simproto::COV_SIZE);
        libc::mallopt(-8 /* M_ARENA_MAX */, 1);
        libc::mallopt(-3 /* M_MMAP_THRESHOLD */, 1 << 20);
        let sc: simproto::Scenario = match serde_json::from_slice(&data) {
            Ok(s) => s,
            Err(_) => raw::exit_group(90),
        };
        on_exit(at_exit, std::ptr::null_mut());
        let _g = Guard::new();
        sim::init_sim(sc, LOG);
    }
}

extern "C" fn at_exit(code: c_int, _: *mut c_void) {
    IN_SIM.with(|c| c.set(c.get() + 1));
    sim().finish("exit", code);
}

#[no_mangle]
pub unsafe extern "C" fn _exit(code: c_int) -> ! {
    if SIM.is_null() {
        raw::exit_group(code);
    }
    IN_SIM.with(|c| c.set(c.get() + 1));
    sim().finish("exit", code)
}
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    if SIM.is_null() {
        raw::exit_group(134);
    }
    if IN_SIM.with(|c| c.get()) > 0 {
        // The runtime itself is broken
        raw::exit_group(89);
    }
    IN_SIM.with(|c| c.set(c.get() + 1));
    sim().finish("abort", 134)
}

// ---------------------------------------------------------------- coverage

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    while start < stop {
        NGUARDS += 1;
        *start = NGUARDS;
        start = start.add(1);
    }
    if !LOG.is_null() {
        *(LOG.add(16) as *mut u64) = NGUARDS as u64;
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if COV.is_null() {
        return;
    }
    let g = *guard as usize;
    sim::EDGES += 1;
    if g < simproto::COV_SIZE {
        *COV.add(g) = 1;
        if SEEN[g] == 0 {
            SEEN[g] = 1;
            if sim::FIRSTS {
                first_visit();
            }
        }
    }
    if sim::EDGES >= sim::NEXT_EDGE {
        edge_slow();
    }
}
/// Code that has been executed in this run
static mut SEEN: [u8; simproto::COV_SIZE] = [0; simproto::COV_SIZE];
#[cold]
#[inline(never)]
unsafe fn first_visit() {
    if active() {
        sim().first_visit();
    }
}
#[cold]
#[inline(never)]
unsafe fn edge_slow() {
    if !active() {
        return;
    }
    let _g = Guard::new();
    let e = *libc::__errno_location();
    sim().edge_stop();
    set_errno(e);
}

// ---------------------------------------------------------------- driver API

#[no_mangle]
pub unsafe extern "C" fn simrt_spec(buf: *mut u8, cap: usize) -> usize {
    if !active() {
        return 0;
    }
    let _g = Guard::new();
    let s = serde_json::to_vec(&sim().sc.driver).unwrap();
    if s.len() <= cap {
        std::ptr::copy_nonoverlapping(s.as_ptr(), buf, s.len());
    }
    s.len()
}
#[no_mangle]
pub unsafe extern "C" fn simrt_note(buf: *const u8, len: usize) {
    if !active() {
        return;
    }
    let _g = Guard::new();
    let s = simproto::esc(std::slice::from_raw_parts(buf, len));
    sim().log("NOTE", &[&s]);
}

// ---------------------------------------------------------------- threads

struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    tid: usize,
    ready: AtomicU32,
}
extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    unsafe {
        let st = &*(p as *const Start);
        let (f, arg, tid) = (st.f, st.arg, st.tid);
        let my = &mut *(&mut *sim().thr[tid] as *mut sim::Thr);
        my.ktid = raw::gettid();
        TID.with(|t| t.set(tid as i32));
        IN_SIM.with(|c| c.set(0));
        __cxa_thread_atexit_impl(thread_dtor, std::ptr::null_mut(), &INIT as *const _ as *mut c_void);
        st.ready.store(1, Ordering::Release);
        raw::futex_wake(st.ready.as_ptr());
        sim::park(my);
        f(arg)
    }
}
extern "C" fn thread_dtor(_: *mut c_void) {
    IN_SIM.with(|c| c.set(c.get() + 1));
    sim().thread_exit();
    TID.with(|t| t.set(-1));
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let real = REAL_CREATE.unwrap();
    let _g = enter!("pthread_create", real(t, attr, f, arg));
    let e = sim().fault("thread", "");
    if e != 0 {
        return e;
    }
    let tid = sim().add_thread("t");
    let st = Box::into_raw(Box::new(Start { f, arg, tid, ready: AtomicU32::new(0) }));
    let r = real(t, attr, tramp, st as *mut c_void);
    if r != 0 {
        raw::exit_group(88);
    }
    while (*st).ready.load(Ordering::Acquire) == 0 {
        raw::futex_wait((*st).ready.as_ptr(), 0);
    }
    sim().thr[tid].pthread = *t;
    sim().log("THREAD", &[&tid.to_string()]);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    let real = REAL_JOIN.unwrap();
    let _g = enter!("pthread_join", real(t, ret));
    let s = sim();
    let Some(tid) = (0..s.thr.len()).rev().find(|&i| i > 0 && s.thr[i].pthread == t) else { return libc::ESRCH };
    if !s.thr[tid].finished {
        s.block(Wait::Join(tid), None, Intr::Never);
    }
    s.thr[tid].pthread = 0;
    real(t, ret)
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    let _g = enter!("sched_yield", 0);
    sim().yield_now();
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_pid: i32, size: size_t, set: *mut u8) -> c_int {
    let _g = enter!("sched_getaffinity", -1);
    for i in 0..size {
        *set.add(i) = 0;
    }
    for i in 0..sim().sc.ncpu as usize {
        if i / 8 < size {
            *set.add(i / 8) |= 1 << (i % 8);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(n: c_int) -> i64 {
    match n {
        libc::_SC_PAGESIZE => 4096,
        libc::_SC_CLK_TCK => 100,
        libc::_SC_HOST_NAME_MAX => 64,
        libc::_SC_NPROCESSORS_ONLN | libc::_SC_NPROCESSORS_CONF => {
            let _g = enter!("sysconf", 1);
            sim().sc.ncpu as i64
        }
        libc::_SC_GETPW_R_SIZE_MAX => 1024,
        libc::_SC_IOV_MAX => 1024,
        _ => {
            unimpl("sysconf");
            -1
        }
    }
}

unsafe fn ts_ns(t: *const libc::timespec) -> u64 {
    ((*t).tv_sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*t).tv_nsec as u64)
}

unsafe fn do_futex(addr: usize, op: i64, val: u32, ts: *const libc::timespec, val3: u32) -> i64 {
    let s = sim();
    let cmd = op & 127;
    match cmd as i32 {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let bits = if cmd as i32 == libc::FUTEX_WAIT { u32::MAX } else { val3 };
            let dl = if ts.is_null() {
                None
            } else if cmd as i32 == libc::FUTEX_WAIT {
                Some(s.now.saturating_add(ts_ns(ts)))
            } else if op & libc::FUTEX_CLOCK_REALTIME as i64 != 0 {
                let d = ts_ns(ts) as i64 - s.wall();
                Some(s.now.saturating_add(d.max(0) as u64))
            } else {
                Some(ts_ns(ts))
            };
            s.futex_wait(addr, val, bits, dl)
        }
        libc::FUTEX_WAKE => s.futex_wake(addr, val, u32::MAX),
        libc::FUTEX_WAKE_BITSET => s.futex_wake(addr, val, val3),
        _ => {
            s.log("UNIMPL", &["futex op"]);
            -(libc::ENOSYS as i64)
        }
    }
}

static mut RND: u64 = 0;
unsafe fn fill_random(buf: *mut u8, n: usize) {
    let seed = sim().sc.seed;
    for i in 0..n {
        *buf.add(i) = simproto::mix3(seed ^ 0x7A11D0, RND, 3) as u8;
        RND += 1;
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let _g = enter!("syscall", libc_ret(raw::sc6(n, a, b, c, d, e, f)));
    let r = match n {
        libc::SYS_futex => do_futex(a as usize, b, c as u32, d as *const _, f as u32),
        libc::SYS_getrandom => {
            fill_random(a as *mut u8, b as usize);
            b
        }
        libc::SYS_gettid => (SUT_PID + TID.with(|t| t.get())) as i64,
        libc::SYS_getpid => SUT_PID as i64,
        libc::SYS_pidfd_open | libc::SYS_clone3 => -(libc::ENOSYS as i64),
        _ => {
            sim().log("UNIMPL", &[&format!("syscall {n}")]);
            -(libc::ENOSYS as i64)
        }
    };
    libc_ret(r)
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: size_t, _flags: u32) -> ssize_t {
    let _g = enter!("getrandom", libc_ret(raw::sc(libc::SYS_getrandom, buf as i64, n as i64, 0)) as ssize_t);
    fill_random(buf, n);
    n as ssize_t
}

// ---------------------------------------------------------------- time

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    let _g = enter!("clock_gettime", libc_ret(raw::sc(libc::SYS_clock_gettime, clk as i64, ts as i64, 0)) as c_int);
    let s = sim();
    let v = match clk {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => s.wall(),
        _ => s.now as i64,
    };
    (*ts).tv_sec = v.div_euclid(1_000_000_000);
    (*ts).tv_nsec = v.rem_euclid(1_000_000_000);
    0
}
unsafe fn do_sleep(dl: u64, rem: *mut libc::timespec) -> c_int {
    let s = sim();
    s.sleepers += 1;
    if s.block(Wait::Sleep, Some(dl), Intr::Yes) == Woke::Intr {
        if !rem.is_null() {
            let r = dl.saturating_sub(s.now);
            (*rem).tv_sec = (r / 1_000_000_000) as i64;
            (*rem).tv_nsec = (r % 1_000_000_000) as i64;
        }
        return libc::EINTR;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: c_int,
    flags: c_int,
    rq: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    let _g = enter!("clock_nanosleep", 0);
    let s = sim();
    let n = ts_ns(rq);
    let dl = if flags & libc::TIMER_ABSTIME != 0 {
        if clk == libc::CLOCK_REALTIME {
            s.now + (n as i64 - s.wall()).max(0) as u64
        } else {
            n
        }
    } else {
        s.now.saturating_add(n)
    };
    do_sleep(dl, if flags & libc::TIMER_ABSTIME != 0 { std::ptr::null_mut() } else { rem })
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(rq: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    let _g = enter!("nanosleep", 0);
    let dl = sim().now.saturating_add(ts_ns(rq));
    let e = do_sleep(dl, rem);
    if e != 0 {
        set_errno(e);
        -1
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn pause() -> c_int {
    let _g = enter!("pause", -1);
    sim().block(Wait::Sleep, None, Intr::Yes);
    set_errno(libc::EINTR);
    -1
}

// ---------------------------------------------------------------- identity

#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    SUT_PID
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> c_int {
    SUT_PID + TID.with(|t| t.get()).max(0)
}
#[no_mangle]
pub unsafe extern "C" fn gethostname(b: *mut c_char, n: size_t) -> c_int {
    let h = b"simhost\0";
    if n < h.len() {
        set_errno(libc::ENAMETOOLONG);
        return -1;
    }
    std::ptr::copy_nonoverlapping(h.as_ptr() as *const c_char, b, h.len());
    0
}
#[no_mangle]
pub unsafe extern "C" fn getrlimit(_r: c_int, l: *mut libc::rlimit) -> c_int {
    (*l).rlim_cur = 1024;
    (*l).rlim_max = 4096;
    0
}
#[no_mangle]
pub unsafe extern "C" fn setrlimit(_r: c_int, _l: *const libc::rlimit) -> c_int {
    0
}

// ---------------------------------------------------------------- files

unsafe fn do_open(path: *const c_char, flags: c_int) -> c_int {
    let _g = enter!("open", {
        set_errno(libc::ENOENT);
        -1
    });
    let p = cstr(path);
    libc_ret(sim().k_open(&p, flags)) as c_int
}
#[allow(invalid_runtime_symbol_definitions)]
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, _mode: c_int) -> c_int {
    do_open(path, flags)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, _mode: c_int) -> c_int {
    do_open(path, flags)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let _g = enter!("close", libc_ret(raw::sc(libc::SYS_close, fd as i64, 0, 0)) as c_int);
    libc_ret(sim().k_close(fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let _g = enter!("read", libc_ret(raw::sc(libc::SYS_read, fd as i64, buf as i64, n as i64)) as ssize_t);
    libc_ret(sim().k_read(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n))) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    let _g = enter!("write", libc_ret(raw::sc(libc::SYS_write, fd as i64, buf as i64, n as i64)) as ssize_t);
    libc_ret(sim().k_write(fd, std::slice::from_raw_parts(buf as *const u8, n))) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    let _g = enter!("writev", libc_ret(raw::sc(libc::SYS_writev, fd as i64, iov as i64, n as i64)) as ssize_t);
    let mut v = Vec::new();
    for i in 0..n as usize {
        let e = &*iov.add(i);
        if e.iov_len > 0 {
            v.extend_from_slice(std::slice::from_raw_parts(e.iov_base as *const u8, e.iov_len));
        }
    }
    libc_ret(sim().k_write(fd, &v)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    for i in 0..n as usize {
        let e = &*iov.add(i);
        if e.iov_len > 0 {
            return read(fd, e.iov_base, e.iov_len);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    let _g = enter!("lseek", -1);
    libc_ret(sim().k_lseek(fd, off, wh))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, wh: c_int) -> i64 {
    lseek64(fd, off, wh)
}

unsafe fn fill_stat(st: *mut libc::stat64, s: &fs::Stat) {
    *st = std::mem::zeroed();
    (*st).st_mode = s.mode;
    (*st).st_size = s.size as i64;
    (*st).st_ino = s.ino;
    (*st).st_dev = 66;
    (*st).st_nlink = 1;
    (*st).st_uid = 1000;
    (*st).st_gid = 1000;
    (*st).st_blksize = 4096;
    (*st).st_mtime = s.mtime.div_euclid(1_000_000_000);
    (*st).st_mtime_nsec = s.mtime.rem_euclid(1_000_000_000);
    (*st).st_atime = (*st).st_mtime;
    (*st).st_ctime = (*st).st_mtime;
}
unsafe fn stat_res(r: Result<fs::Stat, i32>, st: *mut libc::stat64) -> c_int {
    match r {
        Ok(s) => {
            fill_stat(st, &s);
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    let _g = enter!("stat", -1);
    let p = cstr(path);
    stat_res(sim().k_stat(&p, true), st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    let _g = enter!("lstat", -1);
    let p = cstr(path);
    stat_res(sim().k_stat(&p, false), st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    let _g = enter!("fstat", -1);
    stat_res(sim().k_fstat(fd), st)
}
unsafe fn at_path(dirfd: c_int, p: &str) -> Option<String> {
    if p.starts_with('/') || dirfd == libc::AT_FDCWD {
        return Some(p.to_string());
    }
    let f = sim().fs.fd(dirfd)?;
    match &sim().fs.obj(f.obj).kind {
        ObjKind::Dir(d) => Some(format!("{d}/{p}")),
        _ => None,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(dirfd: c_int, path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    let _g = enter!("fstatat", -1);
    let p = cstr(path);
    if p.is_empty() {
        return stat_res(sim().k_fstat(dirfd), st);
    }
    match at_path(dirfd, &p) {
        Some(p) => stat_res(sim().k_stat(&p, flags & libc::AT_SYMLINK_NOFOLLOW == 0), st),
        None => {
            set_errno(libc::EBADF);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, path: *const c_char, flags: c_int, _mask: u32, x: *mut libc::statx) -> c_int {
    let _g = enter!("statx", -1);
    let p = cstr(path);
    let r = if p.is_empty() {
        sim().k_fstat(dirfd)
    } else {
        match at_path(dirfd, &p) {
            Some(p) => sim().k_stat(&p, flags & libc::AT_SYMLINK_NOFOLLOW == 0),
            None => Err(libc::EBADF),
        }
    };
    match r {
        Ok(s) => {
            *x = std::mem::zeroed();
            (*x).stx_mask = 0x7ff;
            (*x).stx_blksize = 4096;
            (*x).stx_nlink = 1;
            (*x).stx_uid = 1000;
            (*x).stx_gid = 1000;
            (*x).stx_mode = s.mode as u16;
            (*x).stx_ino = s.ino;
            (*x).stx_size = s.size;
            (*x).stx_mtime.tv_sec = s.mtime.div_euclid(1_000_000_000);
            (*x).stx_mtime.tv_nsec = s.mtime.rem_euclid(1_000_000_000) as u32;
            // Other times than the modification time tell nothing about the content
            let w = sim().wall();
            (*x).stx_atime.tv_sec = w.div_euclid(1_000_000_000);
            (*x).stx_ctime = (*x).stx_atime;
            (*x).stx_btime.tv_sec = s.mtime.div_euclid(1_000_000_000) - 86400;
            (*x).stx_mask |= 0x800;
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, _mode: c_int) -> c_int {
    let _g = enter!("access", -1);
    let p = cstr(path);
    match sim().k_stat(&p, true) {
        Ok(_) => 0,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let _g = enter!("rename", -1);
    let (a, b) = (cstr(a), cstr(b));
    libc_ret(sim().k_rename(&a, &b)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let _g = enter!("unlink", -1);
    let a = cstr(a);
    libc_ret(sim().k_unlink(&a)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    let _g = enter!("realpath", std::ptr::null_mut());
    let p = cstr(p);
    let s = sim();
    let r = s.fs.resolve(&s.fs.cwd, &p, true).and_then(|f| {
        if f.starts_with("/proc") || s.fs.nodes.contains_key(&f) {
            Ok(f)
        } else {
            Err(libc::ENOENT)
        }
    });
    match r {
        Ok(f) => {
            let o = if out.is_null() { libc::malloc(f.len() + 1) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(f.as_ptr() as *const c_char, o, f.len());
            *o.add(f.len()) = 0;
            o
        }
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    let _g = enter!("getcwd", std::ptr::null_mut());
    let c = sim().fs.cwd.clone();
    if c.len() + 1 > n {
        set_errno(libc::ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(c.as_ptr() as *const c_char, b, c.len());
    *b.add(c.len()) = 0;
    b
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    let _g = enter!("chdir", -1);
    let p = cstr(p);
    let s = sim();
    match s.fs.resolve(&s.fs.cwd, &p, true) {
        Ok(f) => {
            s.fs.cwd = f;
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    let _g = enter!("readlink", -1);
    let p = cstr(p);
    let s = sim();
    let t = if p == "/proc/self/exe" {
        Ok("/usr/bin/crofiler".to_string())
    } else {
        s.fs.resolve(&s.fs.cwd, &p, false).and_then(|f| match s.fs.nodes.get(&f) {
            Some(fs::Node::Link(t)) => Ok(t.clone()),
            Some(_) => Err(libc::EINVAL),
            None => Err(libc::ENOENT),
        })
    };
    match t {
        Ok(t) => {
            let k = t.len().min(n);
            std::ptr::copy_nonoverlapping(t.as_ptr() as *const c_char, b, k);
            k as ssize_t
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

struct DirS {
    entries: Vec<(String, u8)>,
    pos: usize,
    fd: c_int,
    ent: libc::dirent64,
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DirS2 {
    let _g = enter!("opendir", std::ptr::null_mut());
    let p = cstr(p);
    let s = sim();
    let r = s.fs.resolve(&s.fs.cwd, &p, true).and_then(|f| {
        let e = s.fault("opendir", &f);
        if e != 0 {
            return Err(e);
        }
        match s.dir_list(&f) {
            Some(l) => Ok((f, l)),
            None if s.fs.nodes.contains_key(&f) => Err(libc::ENOTDIR),
            None => Err(libc::ENOENT),
        }
    });
    match r {
        Ok((f, entries)) => {
            let o = s.fs.new_obj(ObjKind::Dir(f), true, false);
            let fd = s.fs.new_fd(o, true, 0);
            Box::into_raw(Box::new(DirS { entries, pos: 0, fd, ent: std::mem::zeroed() })) as *mut DirS2
        }
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
pub type DirS2 = c_void;
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DirS2) -> *mut libc::dirent64 {
    let _g = enter!("readdir", std::ptr::null_mut());
    let d = &mut *(d as *mut DirS);
    if d.pos >= d.entries.len() {
        return std::ptr::null_mut();
    }
    let (n, t) = &d.entries[d.pos];
    d.pos += 1;
    d.ent = std::mem::zeroed();
    d.ent.d_ino = 10 + d.pos as u64;
    d.ent.d_type = *t;
    d.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
    for (i, b) in n.bytes().take(254).enumerate() {
        d.ent.d_name[i] = b as c_char;
    }
    &mut d.ent
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DirS2) -> c_int {
    let _g = enter!("closedir", 0);
    let d = Box::from_raw(d as *mut DirS);
    libc_ret(sim().k_close(d.fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DirS2) -> c_int {
    (*(d as *mut DirS)).fd
}

// ---------------------------------------------------------------- descriptors

#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    let _g = enter!("dup", -1);
    dup_min(fd, 0, false)
}
unsafe fn dup_min(fd: c_int, min: usize, cloexec: bool) -> c_int {
    let s = sim();
    match s.fs.fd(fd) {
        Some(f) => {
            s.fs.obj_ref(f.obj);
            s.fs.new_fd(f.obj, cloexec, min)
        }
        None => {
            set_errno(libc::EBADF);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn dup2(a: c_int, b: c_int) -> c_int {
    let _g = enter!("dup2", -1);
    let s = sim();
    let Some(f) = s.fs.fd(a) else {
        set_errno(libc::EBADF);
        return -1;
    };
    if a == b {
        return b;
    }
    s.fs.obj_ref(f.obj);
    if s.fs.fd(b).is_some() {
        s.k_close(b);
    }
    while s.fs.fds.len() <= b as usize {
        s.fs.fds.push(None);
    }
    s.fs.fds[b as usize] = Some(fs::Fd { obj: f.obj, cloexec: false });
    b
}
unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    let _g = enter!("fcntl", 0);
    let s = sim();
    let Some(f) = s.fs.fd(fd) else {
        set_errno(libc::EBADF);
        return -1;
    };
    match cmd {
        libc::F_DUPFD_CLOEXEC => dup_min(fd, arg as usize, true),
        libc::F_DUPFD => dup_min(fd, arg as usize, false),
        libc::F_GETFD => f.cloexec as c_int,
        libc::F_SETFD => {
            s.fs.fds[fd as usize].as_mut().unwrap().cloexec = arg & 1 != 0;
            0
        }
        libc::F_GETFL => {
            let o = s.fs.obj(f.obj);
            let m = match (o.read, o.write) {
                (true, true) => libc::O_RDWR,
                (false, true) => libc::O_WRONLY,
                _ => libc::O_RDONLY,
            };
            m | if o.nonblock { libc::O_NONBLOCK } else { 0 }
        }
        libc::F_SETFL => {
            s.fs.obj(f.obj).nonblock = arg as c_int & libc::O_NONBLOCK != 0;
            0
        }
        _ => {
            s.log("UNIMPL", &["fcntl"]);
            set_errno(libc::EINVAL);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: u64, arg: *mut c_void) -> c_int {
    let _g = enter!("ioctl", -1);
    let s = sim();
    let Some(f) = s.fs.fd(fd) else {
        set_errno(libc::EBADF);
        return -1;
    };
    match req {
        libc::TIOCGWINSZ => {
            if s.fs.obj(f.obj).kind != ObjKind::Tty {
                set_errno(libc::ENOTTY);
                return -1;
            }
            let w = &mut *(arg as *mut libc::winsize);
            w.ws_col = s.screen.w as u16;
            w.ws_row = s.screen.h as u16;
            w.ws_xpixel = 0;
            w.ws_ypixel = 0;
            0
        }
        libc::FIONBIO => {
            s.fs.obj(f.obj).nonblock = *(arg as *const c_int) != 0;
            0
        }
        libc::FIOCLEX => {
            s.fs.fds[fd as usize].as_mut().unwrap().cloexec = true;
            0
        }
        _ => {
            s.log("UNIMPL", &["ioctl"]);
            set_errno(libc::EINVAL);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    let _g = enter!("isatty", 0);
    let s = sim();
    match s.fs.fd(fd) {
        Some(f) if s.fs.obj(f.obj).kind == ObjKind::Tty => 1,
        Some(_) => {
            set_errno(libc::ENOTTY);
            0
        }
        None => {
            set_errno(libc::EBADF);
            0
        }
    }
}
static mut TERMIOS: Option<libc::termios> = None;
unsafe fn termios() -> libc::termios {
    match TERMIOS {
        Some(t) => t,
        None => {
            let mut t: libc::termios = std::mem::zeroed();
            t.c_iflag = libc::ICRNL | libc::IXON | libc::BRKINT;
            t.c_oflag = libc::OPOST | libc::ONLCR;
            t.c_cflag = libc::CS8 | libc::CREAD;
            t.c_lflag = libc::ICANON | libc::ECHO | libc::ISIG | libc::IEXTEN;
            t.c_cc[libc::VMIN] = 1;
            t
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn tcgetattr(fd: c_int, t: *mut libc::termios) -> c_int {
    let _g = enter!("tcgetattr", -1);
    let s = sim();
    match s.fs.fd(fd) {
        Some(f) if s.fs.obj(f.obj).kind == ObjKind::Tty => {
            *t = termios();
            0
        }
        _ => {
            set_errno(libc::ENOTTY);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn tcsetattr(fd: c_int, _act: c_int, t: *const libc::termios) -> c_int {
    let _g = enter!("tcsetattr", -1);
    let s = sim();
    match s.fs.fd(fd) {
        Some(f) if s.fs.obj(f.obj).kind == ObjKind::Tty => {
            TERMIOS = Some(*t);
            s.tty_raw = (*t).c_lflag & libc::ICANON == 0;
            let r = s.tty_raw as u8;
            let cur = TERMIOS.take();
            let x = termios();
            TERMIOS = cur;
            let same = (x.c_iflag, x.c_oflag, x.c_cflag, x.c_lflag)
                == ((*t).c_iflag, (*t).c_oflag, (*t).c_cflag, (*t).c_lflag);
            s.log("TCSET", &[&r.to_string(), if same { "initial" } else { "changed" }]);
            0
        }
        _ => {
            set_errno(libc::ENOTTY);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, flags: c_int) -> c_int {
    let _g = enter!("pipe2", -1);
    let s = sim();
    let e = s.fault("pipe", "");
    if e != 0 {
        set_errno(e);
        return -1;
    }
    let p = s.fs.new_pipe();
    let ce = flags & libc::O_CLOEXEC != 0;
    let a = s.fs.new_obj(ObjKind::PipeR(p), true, false);
    let b = s.fs.new_obj(ObjKind::PipeW(p), false, true);
    *fds = s.fs.new_fd(a, ce, 0);
    *fds.add(1) = s.fs.new_fd(b, ce, 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn pipe(fds: *mut c_int) -> c_int {
    pipe2(fds, 0)
}
#[no_mangle]
pub unsafe extern "C" fn socketpair(_d: c_int, ty: c_int, _p: c_int, fds: *mut c_int) -> c_int {
    let _g = enter!("socketpair", -1);
    let s = sim();
    let p = s.fs.new_pipe();
    let q = s.fs.new_pipe();
    let ce = ty & libc::SOCK_CLOEXEC != 0;
    let a = s.fs.new_obj(ObjKind::Sock(p, q), true, true);
    let b = s.fs.new_obj(ObjKind::Sock(q, p), true, true);
    let nb = ty & libc::SOCK_NONBLOCK != 0;
    s.fs.obj(a).nonblock = nb;
    s.fs.obj(b).nonblock = nb;
    *fds = s.fs.new_fd(a, ce, 0);
    *fds.add(1) = s.fs.new_fd(b, ce, 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, ty: c_int, _p: c_int) -> c_int {
    let _g = enter!("socket", -1);
    let s = sim();
    if d != libc::AF_UNIX || ty & 0xf != libc::SOCK_DGRAM {
        set_errno(libc::EAFNOSUPPORT);
        return -1;
    }
    let a = s.fs.new_obj(ObjKind::Datagram, true, true);
    s.fs.new_fd(a, ty & libc::SOCK_CLOEXEC != 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn bind(_fd: c_int, _a: *const c_void, _n: u32) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn connect(_fd: c_int, a: *const libc::sockaddr_un, _n: u32) -> c_int {
    let _g = enter!("connect", -1);
    let p = cstr((*a).sun_path.as_ptr());
    if sim().sc.syslog && p == "/dev/log" {
        0
    } else {
        set_errno(libc::ENOENT);
        -1
    }
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const u8, n: size_t, _flags: c_int) -> ssize_t {
    let _g = enter!("send", -1);
    libc_ret(sim().k_write(fd, std::slice::from_raw_parts(b, n))) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendto(
    fd: c_int,
    b: *const u8,
    n: size_t,
    _flags: c_int,
    _a: *const c_void,
    _l: u32,
) -> ssize_t {
    let _g = enter!("sendto", -1);
    libc_ret(sim().k_write(fd, std::slice::from_raw_parts(b, n))) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut u8, n: size_t, flags: c_int) -> ssize_t {
    let _g = enter!("recv", -1);
    let s = sim();
    if flags & libc::MSG_DONTWAIT != 0 {
        if let Some(f) = s.fs.fd(fd) {
            if !s.obj_readable(f.obj) {
                set_errno(libc::EAGAIN);
                return -1;
            }
        }
    }
    libc_ret(s.k_read(fd, std::slice::from_raw_parts_mut(b, n))) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut libc::pollfd, n: u64, timeout: c_int) -> c_int {
    let _g = enter!("poll", 0);
    let s = sim();
    let l: Vec<(i32, i16)> = (0..n as usize).map(|i| ((*p.add(i)).fd, (*p.add(i)).events)).collect();
    if s.inject_eintr() {
        set_errno(libc::EINTR);
        return -1;
    }
    let scan = |s: &sim::Sim| {
        let mut c = 0;
        for (i, &(fd, ev)) in l.iter().enumerate() {
            let r = if fd < 0 { 0 } else { s.poll_fd(fd, ev) };
            unsafe { (*p.add(i)).revents = r };
            if r != 0 {
                c += 1;
            }
        }
        c
    };
    let c = scan(s);
    if c > 0 || timeout == 0 {
        return c;
    }
    let dl = if timeout < 0 { None } else { Some(s.now + timeout as u64 * 1_000_000) };
    match s.block(Wait::Poll(l.iter().copied().filter(|x| x.0 >= 0).collect()), dl, Intr::Yes) {
        Woke::Intr => {
            set_errno(libc::EINTR);
            -1
        }
        _ => scan(s),
    }
}

// ---------------------------------------------------------------- signals

#[no_mangle]
pub unsafe extern "C" fn sigaction(sig: c_int, act: *const libc::sigaction, old: *mut libc::sigaction) -> c_int {
    if sig == libc::SIGSEGV || sig == libc::SIGBUS {
        return REAL_SIGACTION.unwrap()(sig, act, old);
    }
    let _g = enter!("sigaction", 0);
    let s = sim();
    if !old.is_null() {
        *old = std::mem::zeroed();
        if let Some(a) = s.sigs.get(&sig) {
            (*old).sa_sigaction = a.handler;
            (*old).sa_flags = a.flags;
        }
    }
    if !act.is_null() {
        s.sigs.insert(sig, sim::SigAct { handler: (*act).sa_sigaction, flags: (*act).sa_flags });
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn signal(sig: c_int, h: usize) -> usize {
    let _g = enter!("signal", 0);
    let s = sim();
    let old = s.sigs.get(&sig).map(|a| a.handler).unwrap_or(0);
    s.sigs.insert(sig, sim::SigAct { handler: h, flags: libc::SA_RESTART });
    old
}
#[no_mangle]
pub unsafe extern "C" fn kill(pid: c_int, sig: c_int) -> c_int {
    let _g = enter!("kill", -1);
    if pid == SUT_PID {
        sim().raise(sig);
        return 0;
    }
    libc_ret(sim().k_kill(pid, sig)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int {
    let _g = enter!("waitpid", -1);
    let s = sim();
    let e = s.fault("wait", "");
    if e != 0 {
        set_errno(e);
        return -1;
    }
    if opt & libc::WNOHANG == 0 && s.inject_eintr() {
        set_errno(libc::EINTR);
        return -1;
    }
    loop {
        match s.k_reap(pid) {
            Err(e) => {
                set_errno(e);
                return -1;
            }
            Ok(Some((p, status))) => {
                if !st.is_null() {
                    *st = status;
                }
                return p;
            }
            Ok(None) => {
                if opt & libc::WNOHANG != 0 {
                    return 0;
                }
                if s.block(Wait::Pid(pid), None, Intr::Restart) == Woke::Intr {
                    set_errno(libc::EINTR);
                    return -1;
                }
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn wait4(pid: c_int, st: *mut c_int, opt: c_int, _ru: *mut c_void) -> c_int {
    waitpid(pid, st, opt)
}

// ---------------------------------------------------------------- spawn

struct Acts {
    dups: Vec<(i32, i32)>,
    cwd: Option<String>,
}
unsafe fn acts(p: *mut c_void) -> &'static mut Acts {
    &mut **(p as *mut *mut Acts)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_init(p: *mut c_void) -> c_int {
    let _g = Guard::new();
    *(p as *mut *mut Acts) = Box::into_raw(Box::new(Acts { dups: Vec::new(), cwd: None }));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(p: *mut c_void) -> c_int {
    let _g = Guard::new();
    drop(Box::from_raw(*(p as *mut *mut Acts)));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(p: *mut c_void, a: c_int, b: c_int) -> c_int {
    let _g = Guard::new();
    acts(p).dups.push((a, b));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(p: *mut c_void, d: *const c_char) -> c_int {
    let _g = Guard::new();
    acts(p).cwd = Some(cstr(d));
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir(p: *mut c_void, d: *const c_char) -> c_int {
    posix_spawn_file_actions_addchdir_np(p, d)
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_init(_p: *mut c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_destroy(_p: *mut c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_setflags(_p: *mut c_void, _f: i16) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_setsigdefault(_p: *mut c_void, _s: *const c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_setsigmask(_p: *mut c_void, _s: *const c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut c_int,
    file: *const c_char,
    fa: *mut c_void,
    _attr: *const c_void,
    argv: *const *const c_char,
    _env: *const *const c_char,
) -> c_int {
    let _g = enter!("posix_spawnp", libc::ENOSYS);
    let mut v = Vec::new();
    let mut i = 0;
    while !(*argv.add(i)).is_null() {
        v.push(cstr(*argv.add(i)));
        i += 1;
    }
    let (dups, cwd) = if fa.is_null() {
        (Vec::new(), None)
    } else {
        let a = acts(fa);
        (a.dups.clone(), a.cwd.clone())
    };
    match sim().k_spawn(proc::SpawnReq { prog: cstr(file), argv: v, cwd, dups }) {
        Ok(p) => {
            *pid = p;
            0
        }
        Err(e) => e,
    }
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn(
    pid: *mut c_int,
    file: *const c_char,
    fa: *mut c_void,
    attr: *const c_void,
    argv: *const *const c_char,
    env: *const *const c_char,
) -> c_int {
    posix_spawnp(pid, file, fa, attr, argv, env)
}
#[no_mangle]
pub unsafe extern "C" fn pidfd_spawnp() -> c_int {
    libc::ENOSYS
}
#[no_mangle]
pub unsafe extern "C" fn pidfd_getpid() -> c_int {
    set_errno(libc::ENOSYS);
    -1
}
