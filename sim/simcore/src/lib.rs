//! Deterministic simulator core: real OS threads, of which exactly one runs at a time; every switch,
//! futex wait/wake, clock read, entropy read and allocation failure is decided here.
//!
//! The seams are below the code under test, so nothing in it has to cooperate:
//!   * `__sanitizer_cov_trace_pc_guard`: called on every control-flow edge of the instrumented crates
//!     (pddl, lazy_static, the workload): a preemption point and a step counter;
//!   * `syscall(SYS_futex, ..)`: every std lock, once, condvar and park blocks and wakes through it;
//!   * `clock_gettime`, `nanosleep`, `sched_yield`, `getrandom`: simulated time and entropy;
//!   * the global allocator: deterministic addresses, exact accounting, injected failures.
//!
//! This crate itself is compiled without instrumentation.
#![feature(alloc_error_hook)]
#![allow(static_mut_refs)]
#![allow(clippy::missing_safety_doc)]

pub mod alloc;
pub mod hooks;
pub mod prng;
pub mod raw;
pub mod sched;
pub mod shared;

pub use prng::Rng;
pub use sched::*;
pub use shared::*;

/// Hash tables of the simulator itself: std's own `RandomState` keys belong to the thread and are advanced
/// by every map made on it, so the simulator makes none; the code under test finds them untouched.
#[derive(Clone, Copy, Default)]
pub struct Fnv(u64);

impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        let z = self.0;
        (z ^ (z >> 29)).wrapping_mul(0xBF58476D1CE4E5B9)
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = hash_bytes(self.0 ^ 0xcbf29ce484222325, b).0;
    }
}

pub type HashMap<K, V> = std::collections::HashMap<K, V, std::hash::BuildHasherDefault<Fnv>>;
pub type HashSet<K> = std::collections::HashSet<K, std::hash::BuildHasherDefault<Fnv>>;

/// FNV-1a over `b` starting from `h`, and its length (here so that it is not instrumented).
pub fn hash_bytes(h: u64, b: &[u8]) -> (u64, u64) {
    let mut h = h;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    (h, b.len() as u64)
}
