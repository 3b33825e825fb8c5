//! Raw system calls: the runtime itself must never go through the libc
//! functions that it intercepts.
use std::arch::asm;

#[inline(always)]
pub unsafe fn sc6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
         in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
#[inline(always)]
pub unsafe fn sc(n: i64, a: i64, b: i64, c: i64) -> i64 {
    sc6(n, a, b, c, 0, 0, 0)
}

pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

/// Raw syscall with libc error convention
pub unsafe fn libc_ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub unsafe fn futex_wait(a: *const u32, v: u32) {
    sc6(libc::SYS_futex, a as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, v as i64, 0, 0, 0);
}
pub unsafe fn futex_wake(a: *const u32) {
    sc6(libc::SYS_futex, a as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 1, 0, 0, 0);
}
pub unsafe fn exit_group(code: i32) -> ! {
    loop {
        sc(libc::SYS_exit_group, code as i64, 0, 0);
    }
}
pub unsafe fn gettid() -> i32 {
    sc(libc::SYS_gettid, 0, 0, 0) as i32
}
