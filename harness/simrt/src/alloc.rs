//! Private allocator: the runtime must not disturb the allocation pattern of
//! the program under test, because addresses are observable (hash tables keyed
//! by pointers).
use crate::raw;
use std::alloc::{GlobalAlloc, Layout};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, Ordering};

const BASE: usize = 0x3000_0000_0000;
const SIZE: usize = 16 << 30;

struct State {
    init: bool,
    next: usize,
    free: [usize; 48],
}
pub struct Arena {
    lock: AtomicBool,
    st: UnsafeCell<State>,
}
unsafe impl Sync for Arena {}
impl Arena {
    pub const fn new() -> Arena {
        Arena { lock: AtomicBool::new(false), st: UnsafeCell::new(State { init: false, next: BASE, free: [0; 48] }) }
    }
    fn class(l: &Layout) -> usize {
        let n = l.size().max(l.align()).max(32);
        (usize::BITS - (n - 1).leading_zeros()) as usize
    }
    fn lock(&self) {
        while self.lock.swap(true, Ordering::Acquire) {
            std::hint::spin_loop();
        }
    }
}
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        self.lock();
        let s = &mut *self.st.get();
        if !s.init {
            let r = raw::sc6(
                libc::SYS_mmap,
                BASE as i64,
                SIZE as i64,
                (libc::PROT_READ | libc::PROT_WRITE) as i64,
                (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE) as i64,
                -1,
                0,
            );
            if r != BASE as i64 {
                raw::exit_group(94);
            }
            s.init = true;
        }
        let c = Self::class(&l);
        let p = if s.free[c] != 0 {
            let p = s.free[c];
            s.free[c] = *(p as *const usize);
            p
        } else {
            let sz = 1usize << c;
            let p = (s.next + sz.min(4096) - 1) & !(sz.min(4096) - 1);
            s.next = p + sz;
            if s.next > BASE + SIZE {
                raw::exit_group(93);
            }
            p
        };
        self.lock.store(false, Ordering::Release);
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        self.lock();
        let s = &mut *self.st.get();
        let c = Self::class(&l);
        *(p as *mut usize) = s.free[c];
        s.free[c] = p as usize;
        self.lock.store(false, Ordering::Release);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        if Self::class(&l) == Self::class(&nl) {
            return p;
        }
        let q = self.alloc(nl);
        std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        self.dealloc(p, l);
        q
    }
}
