//! C symbols that take the place of libc's: the executable's definition wins over the shared library's.
use crate::raw::*;
use crate::sched::{self, tls};
use crate::shared::*;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

pub static N_EDGES: AtomicU32 = AtomicU32::new(0);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = N_EDGES.fetch_add(1, Relaxed) + 1;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let t = tls();
    if !t.active.get() {
        return;
    }
    let s = t.steps.get() + 1;
    t.steps.set(s);
    let id = *guard as usize;
    if t.cover.get() && id < EDGE_CAP {
        sh().edges[id] = 1;
    }
    if s >= t.next.get() {
        sched::slow_step(false);
    } else if t.hot_mask.get() != 0 {
        let h = (id as u64 ^ t.hot_key.get()).wrapping_mul(0x9E3779B97F4A7C15) >> 40;
        if h & t.hot_mask.get() == 0 {
            sched::slow_step(true);
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let t = tls();
    if t.active.get() {
        if n == SYS_FUTEX {
            // FUTEX_PRIVATE_FLAG and FUTEX_CLOCK_REALTIME do not matter here.
            match b & 0x7f {
                0 | 9 => return sched::futex_wait(a as usize, c as u32, d as *const [i64; 2], b & 0x7f == 9),
                1 | 10 => return sched::futex_wake(a as usize, c as u32),
                _ => {}
            }
        } else if n == SYS_GETRANDOM {
            return sched::fill_random(a as *mut u8, b as usize);
        }
    } else if n == SYS_GETRANDOM {
        return getrandom(a as *mut u8, b as usize, 0) as i64;
    }
    sysc(n, a, b, c, d, e, f)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if tls().active.get() {
        return sched::fill_random(buf, len) as isize;
    }
    // Nothing outside a call may depend on real entropy either.
    let _ = flags;
    for i in 0..len {
        *buf.add(i) = (i as u8).wrapping_mul(167) ^ 0x5a;
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
    if tls().active.get() {
        let now = sched::clock_now(clk);
        (*ts)[0] = (now / 1_000_000_000) as i64;
        (*ts)[1] = (now % 1_000_000_000) as i64;
        return 0;
    }
    sysc(SYS_CLOCK_GETTIME, clk as i64, ts as i64, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut [i64; 2], tz: *mut u8) -> i32 {
    if tls().active.get() {
        let now = sched::clock_now(0);
        (*tv)[0] = (now / 1_000_000_000) as i64;
        (*tv)[1] = (now % 1_000_000_000 / 1000) as i64;
        return 0;
    }
    sysc(SYS_GETTIMEOFDAY, tv as i64, tz as i64, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if tls().active.get() {
        sched::sim_sleep(((*req)[0] as u64) * 1_000_000_000 + (*req)[1] as u64);
        return 0;
    }
    sysc(SYS_NANOSLEEP, req as i64, rem as i64, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if tls().active.get() {
        let t = ((*req)[0] as u64) * 1_000_000_000 + (*req)[1] as u64;
        let d = if flags & 1 != 0 { t.saturating_sub(sched::clock_now(clk)) } else { t };
        sched::sim_sleep(d);
        return 0;
    }
    let r = sys6(SYS_CLOCK_NANOSLEEP, clk as i64, flags as i64, req as i64, rem as i64, 0, 0);
    (-r) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if tls().active.get() {
        sched::voluntary_yield();
        return 0;
    }
    sysc(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0) as i32
}

pub static ENTROPY: AtomicU64 = AtomicU64::new(0);
