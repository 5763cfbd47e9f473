//! The block of memory a run shares with the worker that forked it, so that nothing is lost when the run dies.
use crate::raw;

pub const MAX_DECISIONS: usize = 1 << 17;
pub const MSG_CAP: usize = 1 << 20;
pub const EDGE_CAP: usize = 1 << 20;

/// One scheduling or fault decision, keyed by where the deciding thread was.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(C)]
pub struct Decision {
    /// Thread that was running.
    pub tid: u16,
    /// What was decided: see `K_*`.
    pub kind: u16,
    /// Its operation number and the number of steps into that operation.
    pub op: u32,
    pub step: u64,
    /// The thread chosen (or the index chosen, for wake order).
    pub to: u32,
    /// Which simulated call of that operation (round << 20 | number).
    pub call: u32,
}

/// Preemption: the running thread stays runnable, `to` goes on.
pub const K_PREEMPT: u16 = 0;
/// The running thread blocked, stalled, ended or has not started: `to` goes on.
pub const K_BLOCK: u16 = 1;
/// A futex wait returned early (spurious wake-up or EINTR).
pub const K_SPURIOUS: u16 = 2;
/// A wake chose waiter number `to`.
pub const K_WAKE: u16 = 3;
/// As a preemption, at a voluntary yield.
pub const K_YIELD: u16 = 4;

pub const C_STEPS: usize = 0;
pub const C_PREEMPT: usize = 1;
pub const C_BLOCK: usize = 2;
pub const C_SPURIOUS: usize = 3;
pub const C_WAKE: usize = 4;
pub const C_PANIC: usize = 5;
pub const C_REENTER: usize = 6;
pub const C_STALL: usize = 7;
pub const C_ALLOCFAIL: usize = 8;
pub const C_CLOCKREAD: usize = 9;
pub const C_ENTROPY: usize = 10;
pub const C_CLOCKJUMP: usize = 11;
pub const C_TORN: usize = 12;
pub const C_FLIP: usize = 13;
pub const C_BLOCKFAULT: usize = 14;
pub const C_FLOOD: usize = 15;
pub const C_FATAL: usize = 16;
pub const C_INCOMPLETE: usize = 17;
pub const C_OPS: usize = 18;
pub const C_NAMES: usize = 19;
pub const C_PARSE_OK: usize = 20;
pub const C_PARSE_ERR: usize = 21;
pub const C_SIMMS: usize = 22;
pub const C_LOCKWAIT_CONTENDED: usize = 23;
pub const C_PTRCMP: usize = 24;
pub const C_TLSOP: usize = 25;
pub const C_UNWINDOP: usize = 26;
pub const C_SOFTERR: usize = 27;
pub const C_STALL_OVERLAP: usize = 28;
pub const C_CUTS: usize = 29;
pub const C_ROUNDS: usize = 30;
pub const C_XREAD: usize = 31;
pub const C_LIE: usize = 32;
pub const C_DAMAGED: usize = 33;
pub const C_BUFREUSE: usize = 34;
pub const C_OTHER: usize = 35;
pub const C_REFS: usize = 36;
/// A maximum, not a sum: steps per byte (texts counted 100 bytes longer than they are).
pub const C_MAXRATIO: usize = 37;
pub const C_TRANSFER: usize = 38;
pub const C_STALE: usize = 39;
pub const C_UNUSED: usize = 40;
pub const C_PRINTS: usize = 41;
pub const C_REFUSED: usize = 42;
/// Runs that std itself ended because memory ran out where it cannot unwind.
pub const C_STD_ABORT: usize = 43;
pub const N_COUNTERS: usize = 44;

pub const COUNTER_NAMES: [&str; N_COUNTERS] = [
    "steps", "preemptions", "blocking_switches", "spurious_futex_wakeups", "futex_wakes", "callback_panics",
    "callback_reentries", "callback_stalls", "allocation_failures", "clock_reads", "entropy_reads", "clock_jumps",
    "torn_documents", "flipped_documents", "block_faults", "floods", "fatal_element_errors",
    "incomplete_element_errors", "operations", "names_created", "parses_ok", "parses_err", "simulated_ms",
    "contended_lock_waits", "storage_comparisons", "thread_exit_ops", "during_unwind_ops", "soft_element_errors",
    "calls_completed_while_another_is_stalled", "cut_points", "memory_rounds", "cross_thread_reads", "inconsistent_conversions",
    "damaged_documents", "buffer_reuses", "judgements_of_other_properties",
    "reference_parses", "max_budget_permille", "text_mode_transfers", "stale_tails", "documents_not_used", "prints_into_sinks",
    "refusing_sinks", "runs_ended_by_std_without_memory",
];

pub const ST_NONE: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
/// The harness met something it does not understand.
pub const ST_HARNESS: u32 = 3;

#[repr(C)]
pub struct Shared {
    pub status: u32,
    pub msg_len: u32,
    pub n_decisions: u32,
    pub decisions_lost: u32,
    pub log_hash: u64,
    pub sched_hash: u64,
    pub cur_tid: u32,
    pub cur_op: u32,
    /// Operations (modulo 64) under way in which an allocation has failed.
    pub starved: u64,
    pub value: u64,
    pub refbuf: [u64; 8],
    pub counters: [u64; N_COUNTERS],
    pub decisions: [Decision; MAX_DECISIONS],
    pub class_len: u32,
    pub class: [u8; 64],
    pub msg: [u8; MSG_CAP],
    pub edges: [u8; EDGE_CAP],
}

static mut SH: *mut Shared = std::ptr::null_mut();

/// Maps the shared block of this worker.
pub fn map_shared() {
    unsafe {
        let p = raw::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        assert!(p as isize != -1, "mmap of the shared block failed");
        SH = p as *mut Shared;
    }
}

pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SH }
}

pub fn have_sh() -> bool {
    unsafe { !SH.is_null() }
}

pub fn count(c: usize, n: u64) {
    if have_sh() {
        sh().counters[c] = sh().counters[c].wrapping_add(n);
    }
}

impl Shared {
    /// Clears everything but the edge bitmap and counters, which accumulate over the runs of a worker.
    pub fn reset(&mut self) {
        self.status = ST_NONE;
        self.msg_len = 0;
        self.class_len = 0;
        self.n_decisions = 0;
        self.decisions_lost = 0;
        self.log_hash = 0;
        self.sched_hash = 0;
        self.cur_tid = 0;
        self.cur_op = 0;
        self.starved = 0;
        self.value = 0;
        self.refbuf = [0; 8];
    }
    pub fn set_msg(&mut self, m: &str) {
        let b = m.as_bytes();
        let n = b.len().min(MSG_CAP);
        self.msg[..n].copy_from_slice(&b[..n]);
        self.msg_len = n as u32;
    }
    pub fn set_class(&mut self, m: &str) {
        let b = m.as_bytes();
        let n = b.len().min(64);
        self.class[..n].copy_from_slice(&b[..n]);
        self.class_len = n as u32;
    }
    pub fn get_msg(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len as usize]).into_owned()
    }
    pub fn get_class(&self) -> String {
        String::from_utf8_lossy(&self.class[..self.class_len as usize]).into_owned()
    }
    pub fn decide(&mut self, d: Decision) {
        let n = self.n_decisions as usize;
        if n < MAX_DECISIONS {
            self.decisions[n] = d;
            self.n_decisions += 1;
        } else {
            self.decisions_lost += 1;
        }
        let h = self.sched_hash;
        self.sched_hash = crate::prng::mix(&[
            h,
            ((d.tid as u64) << 48) | ((d.kind as u64) << 32) | d.op as u64,
            d.step ^ ((d.call as u64) << 40),
            d.to as u64,
        ]);
    }
}

/// Ends the run at once with this verdict (other simulated threads stay where they are and die with the process).
pub fn finish_run(status: u32, class: &str, msg: &str) -> ! {
    let s = sh();
    s.set_class(class);
    s.set_msg(msg);
    s.status = status;
    unsafe { raw::_exit(0) }
}

pub fn violation(class: &str, msg: &str) -> ! {
    finish_run(ST_VIOLATION, class, msg)
}

pub fn harness_error(msg: &str) -> ! {
    finish_run(ST_HARNESS, "harness", msg)
}
