//! The allocator behind the simulated calls: fixed base address, deterministic reuse, poisoned blocks, exact live
//! counts, and failures on demand. Allocations made outside simulated calls go to the system allocator.
use crate::raw;
use crate::sched::tls;
use crate::shared::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::*};

pub struct SimAlloc;

const BASE: usize = 0x1000_0000_0000;
const SIZE: usize = 2 << 30;
const CLASSES: usize = 33;

static READY: AtomicBool = AtomicBool::new(false);
static BUMP: AtomicUsize = AtomicUsize::new(BASE);
static mut FREE: [usize; CLASSES] = [0; CLASSES];
static LOCK: AtomicBool = AtomicBool::new(false);
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);

/// Reserves the arena. Called in the parent, which never allocates from it.
pub fn init_arena() {
    unsafe {
        // MAP_PRIVATE|ANON|NORESERVE|FIXED_NOREPLACE
        let p = raw::mmap(BASE as *mut u8, SIZE, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0);
        assert!(p as usize == BASE, "could not reserve the simulated heap");
    }
    READY.store(true, SeqCst);
}

pub fn live() -> (i64, i64) {
    (LIVE_BYTES.load(SeqCst), LIVE_BLOCKS.load(SeqCst))
}

fn class_of(l: &Layout) -> usize {
    let n = l.size().max(l.align()).max(16);
    (usize::BITS - (n - 1).leading_zeros()) as usize
}

fn lock() {
    while LOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
}

unsafe fn arena_alloc(l: &Layout) -> *mut u8 {
    let c = class_of(l);
    if c >= CLASSES {
        return std::ptr::null_mut();
    }
    let sz = 1usize << c;
    lock();
    let mut p = FREE[c];
    if p != 0 {
        FREE[c] = *(p as *const usize);
    } else {
        let b = BUMP.load(Relaxed);
        let a = (b + sz - 1) & !(sz - 1);
        if a + sz > BASE + SIZE {
            LOCK.store(false, Release);
            return std::ptr::null_mut();
        }
        BUMP.store(a + sz, Relaxed);
        p = a;
    }
    LOCK.store(false, Release);
    LIVE_BYTES.fetch_add(l.size() as i64, SeqCst);
    LIVE_BLOCKS.fetch_add(1, SeqCst);
    std::ptr::write_bytes(p as *mut u8, 0xCD, l.size().min(512));
    p as *mut u8
}

unsafe fn arena_free(p: *mut u8, l: &Layout, reuse: bool) {
    LIVE_BYTES.fetch_sub(l.size() as i64, SeqCst);
    LIVE_BLOCKS.fetch_sub(1, SeqCst);
    std::ptr::write_bytes(p, 0xDD, l.size().min(512));
    if reuse {
        let c = class_of(l);
        lock();
        *(p as *mut usize) = FREE[c];
        FREE[c] = p as usize;
        LOCK.store(false, Release);
    }
}

fn in_arena(p: *mut u8) -> bool {
    (p as usize) >= BASE && (p as usize) < BASE + SIZE
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let t = tls();
        if !t.active.get() || !READY.load(Relaxed) {
            return System.alloc(l);
        }
        let n = t.allocs.get() + 1;
        t.allocs.set(n);
        // Not while a panic is being handled: the runtime would abort, whatever the code does.
        if n == t.fail_alloc.get() && !std::thread::panicking() {
            t.fail_alloc.set(0);
            t.alloc_failed.set(true);
            sh().starved |= 1 << (t.op.get() % 64);
            count(C_ALLOCFAIL, 1);
            return std::ptr::null_mut();
        }
        arena_alloc(&l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p) {
            // Only the thread whose turn it is may change the free lists, or addresses would depend on real timing.
            arena_free(p, &l, tls().tid.get() >= 0 && tls().running.get())
        } else {
            System.dealloc(p, l)
        }
    }
}
