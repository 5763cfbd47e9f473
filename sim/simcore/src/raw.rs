//! Raw system calls (x86-64 Linux), used by the simulator itself and as pass-through for code that is not simulated.
use std::arch::asm;

pub const SYS_FUTEX: i64 = 202;
pub const SYS_SCHED_YIELD: i64 = 24;
pub const SYS_NANOSLEEP: i64 = 35;
pub const SYS_GETTIMEOFDAY: i64 = 96;
pub const SYS_CLOCK_GETTIME: i64 = 228;
pub const SYS_CLOCK_NANOSLEEP: i64 = 230;
pub const SYS_GETRANDOM: i64 = 318;

extern "C" {
    fn __errno_location() -> *mut i32;
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn setrlimit(res: i32, rlim: *const [u64; 2]) -> i32;
    pub fn alarm(secs: u32) -> u32;
    pub fn sched_setaffinity(pid: i32, len: usize, mask: *const u8) -> i32;
    pub fn sched_getaffinity(pid: i32, len: usize, mask: *mut u8) -> i32;
    pub fn dup2(a: i32, b: i32) -> i32;
}

pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

#[inline]
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let mut r = n;
    asm!("syscall", inlateout("rax") r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         out("rcx") _, out("r11") _);
    r
}

/// As `sys6`, with the C convention for errors.
pub unsafe fn sysc(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r = sys6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub fn futex_wait_real(addr: &std::sync::atomic::AtomicU32, val: u32) {
    unsafe {
        sys6(SYS_FUTEX, addr as *const _ as i64, 128, val as i64, 0, 0, 0);
    }
}

pub fn futex_wake_real(addr: &std::sync::atomic::AtomicU32) {
    unsafe {
        sys6(SYS_FUTEX, addr as *const _ as i64, 129, 1, 0, 0, 0);
    }
}
