//! The scheduler: which thread runs, when it is taken off, whom it wakes, what the clock says.
use crate::hooks::ENTROPY;
use crate::prng::{mix, splitmix, Rng};
use crate::raw;
use crate::shared::*;
use std::cell::Cell;
use crate::HashMap;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicU32, Ordering::*};

pub const MAX_THREADS: usize = 16;
/// Operation number used while a thread ends (its thread-local destructors).
pub const OP_EXIT: u32 = 0xffff_fff0;

pub struct Tls {
    /// Inside a simulated call: every seam is live.
    pub active: Cell<bool>,
    /// Holds the token.
    pub running: Cell<bool>,
    pub tid: Cell<i32>,
    pub op: Cell<u32>,
    pub call: Cell<u32>,
    pub last_op: Cell<u32>,
    pub steps: Cell<u64>,
    /// Step of the next slow path.
    pub next: Cell<u64>,
    pub budget: Cell<u64>,
    pub hot_mask: Cell<u64>,
    pub hot_key: Cell<u64>,
    pub cover: Cell<bool>,
    pub allocs: Cell<u64>,
    pub fail_alloc: Cell<u64>,
    pub alloc_failed: Cell<bool>,
    /// Steps since this thread was last switched in (fairness).
    pub slice_start: Cell<u64>,
    pub total_steps: Cell<u64>,
    pub quiet: Cell<bool>,
    /// This call has used up its steps once; since then all threads take turns.
    pub extended: Cell<bool>,
    /// Steps up to which time has been accounted for.
    pub timed: Cell<u64>,
}

thread_local! {
    static TLS: Tls = const { Tls {
        active: Cell::new(false), running: Cell::new(false), tid: Cell::new(-1), op: Cell::new(0), call: Cell::new(0), last_op: Cell::new(u32::MAX), steps: Cell::new(0),
        next: Cell::new(u64::MAX), budget: Cell::new(u64::MAX), hot_mask: Cell::new(0), hot_key: Cell::new(0),
        cover: Cell::new(false), allocs: Cell::new(0), fail_alloc: Cell::new(0), alloc_failed: Cell::new(false),
        slice_start: Cell::new(0), total_steps: Cell::new(0), quiet: Cell::new(false),
        extended: Cell::new(false), timed: Cell::new(0),
    } };
}

#[inline(always)]
pub fn tls() -> &'static Tls {
    TLS.with(|t| unsafe { &*(t as *const Tls) })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Absent,
    Runnable,
    Blocked { addr: usize, seq: u64, deadline: u64 },
    Sleeping { deadline: u64 },
    Stalled,
    Done,
}

/// What a blocked thread finds when it goes on.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Why {
    Woken,
    Timeout,
    Plain,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Strategy {
    /// Run each thread to its next block or end.
    Serial,
    /// Preempt after gaps with this mean, uniformly to any other runnable thread.
    Uniform { mean: u64 },
    /// Random priorities with change points on average every `mean` steps.
    Pct { mean: u64 },
    /// Preempt often at a random subset of code edges (1 in `mask+1`).
    Hot { mask: u64, key: u64 },
    /// Decisions come from a recorded trace.
    Replay,
}

#[derive(Clone, Debug)]
pub struct Knobs {
    pub seed: u64,
    pub strategy: Strategy,
    /// Chance in 256 that a futex wait returns without a wake-up.
    pub spurious: u32,
    /// Chance in 256 of a switch between two operations.
    pub between: u32,
    pub entropy: u64,
    pub clock_base: u64,
    /// Nanoseconds of simulated time per scheduling point and per 1000 steps.
    pub tick: u64,
    /// The realtime clock jumps (backwards, too) by up to this many seconds on each read.
    pub clock_jitter_s: u64,
}

impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            seed: 1,
            strategy: Strategy::Serial,
            spurious: 0,
            between: 0,
            entropy: 1,
            clock_base: 1_700_000_000_000_000_000,
            tick: 1000,
            clock_jitter_s: 0,
        }
    }
}

struct Sched {
    n: usize,
    st: [St; MAX_THREADS],
    why: [Why; MAX_THREADS],
    prio: [u64; MAX_THREADS],
    cur: usize,
    rng: Rng,
    /// The clock's own stream, so that replay sees the same times.
    crng: Rng,
    k: Knobs,
    seq: u64,
    now: u64,
    rt_skew: i64,
    ent: u64,
    replay: HashMap<(u16, u16, u32, u32, u64), VecDeque<u32>>,
    /// Preemption points per (thread, operation), ascending.
    replay_next: HashMap<(u16, u32, u32), VecDeque<u64>>,
    low_prio: u64,
    round: u32,
    rest_ns: u64,
    stalled_release: bool,
    /// Calls that have used up their steps and get more, with all threads taking turns: a call that waits for
    /// another thread in a loop is to be told from one that never ends.
    calm: u32,
}

static mut SCHED: Option<Box<Sched>> = None;
static GATES: [AtomicU32; MAX_THREADS] = [const { AtomicU32::new(0) }; MAX_THREADS];

fn s() -> &'static mut Sched {
    unsafe { SCHED.as_mut().expect("scheduler not set up") }
}

/// Runs `f` with the seams off (harness work in the middle of a simulated call).
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let t = tls();
    let was = t.active.replace(false);
    let r = f();
    t.active.set(was);
    r
}

/// Sets up a run with `n` simulated threads; the calling thread becomes thread `n`, the controller.
pub fn sched_init(n: usize, k: Knobs, trace: Option<&[Decision]>) {
    assert!(n + 1 <= MAX_THREADS);
    let mut rng = Rng::new(mix(&[k.seed, 0x5ced]));
    let mut st = [St::Absent; MAX_THREADS];
    for x in st.iter_mut().take(n) {
        *x = St::Runnable;
    }
    let mut prio = [0; MAX_THREADS];
    for p in prio.iter_mut() {
        *p = (1 << 40) + rng.below(1 << 40);
    }
    let mut replay: HashMap<_, VecDeque<u32>> = HashMap::default();
    let mut replay_next: HashMap<_, VecDeque<u64>> = HashMap::default();
    if let Some(tr) = trace {
        for d in tr {
            replay.entry((d.tid, d.kind, d.op, d.call, d.step)).or_default().push_back(d.to);
            if d.kind == K_PREEMPT {
                replay_next.entry((d.tid, d.op, d.call)).or_default().push_back(d.step);
            }
        }
    }
    let now = k.clock_base;
    let clock_seed = k.seed;
    let ent = k.entropy;
    ENTROPY.store(ent, SeqCst);
    unsafe {
        SCHED = Some(Box::new(Sched {
            n,
            st,
            why: [Why::Plain; MAX_THREADS],
            prio,
            cur: n,
            rng,
            crng: Rng::new(mix(&[clock_seed, 0xc10c])),
            k,
            seq: 0,
            now,
            rt_skew: 0,
            ent,
            replay,
            replay_next,
            low_prio: 1 << 39,
            round: 0,
            rest_ns: 0,
            stalled_release: false,
            calm: 0,
        }));
    }
    let t = tls();
    t.tid.set(n as i32);
    t.running.set(true);
}

fn arm_next() {
    // When does the running thread next enter the slow path on its own?
    let t = tls();
    let sc = s();
    let steps = t.steps.get();
    let nx = match sc.k.strategy {
        Strategy::Uniform { mean } | Strategy::Pct { mean } => steps + sc.rng.gap(mean),
        Strategy::Replay => {
            let key = (t.tid.get() as u16, t.op.get(), t.call.get());
            match sc.replay_next.get_mut(&key) {
                Some(q) => {
                    while let Some(&f) = q.front() {
                        if f <= steps {
                            q.pop_front();
                        } else {
                            break;
                        }
                    }
                    q.front().copied().unwrap_or(u64::MAX)
                }
                None => u64::MAX,
            }
        }
        _ => u64::MAX,
    };
    // A fairness point every so often keeps a spinning thread from starving the one it waits for.
    let fair = steps + if sc.calm > 0 { CALM_SLICE } else { 60_000 };
    let fair = if matches!(sc.k.strategy, Strategy::Replay) { u64::MAX } else { fair };
    t.next.set(nx.min(t.budget.get()).min(fair));
    t.slice_start.set(steps);
    match sc.k.strategy {
        Strategy::Hot { mask, key } if sc.calm == 0 => {
            t.hot_mask.set(mask);
            t.hot_key.set(key);
        }
        _ => t.hot_mask.set(0),
    }
}

fn runnable(except: usize) -> Vec<usize> {
    let sc = s();
    (0..sc.n).filter(|&i| i != except && sc.st[i] == St::Runnable).collect()
}

fn record(kind: u16, to: u32) {
    let t = tls();
    sh().decide(Decision { tid: t.tid.get() as u16, kind, op: t.op.get(), step: t.steps.get(), to, call: t.call.get() });
}

fn take_replay(kind: u16) -> Option<u32> {
    let t = tls();
    s().replay
        .get_mut(&(t.tid.get() as u16, kind, t.op.get(), t.call.get(), t.steps.get()))
        .and_then(|q| q.pop_front())
}

fn park(me: usize) {
    let g = &GATES[me];
    while g.swap(0, SeqCst) == 0 {
        raw::futex_wait_real(g, 0);
    }
    let t = tls();
    t.running.set(true);
    let shd = sh();
    shd.cur_tid = me as u32;
    shd.cur_op = t.op.get();
}

fn hand_over(to: usize) {
    tls().running.set(false);
    s().cur = to;
    GATES[to].store(1, SeqCst);
    raw::futex_wake_real(&GATES[to]);
}

fn switch_to(to: usize) {
    let me = tls().tid.get() as usize;
    if me == to {
        return;
    }
    hand_over(to);
    park(me);
}

fn is_replay() -> bool {
    matches!(s().k.strategy, Strategy::Replay)
}

/// Chooses among `cand` (not empty) where one must be chosen.
fn choose(kind: u16, cand: &[usize]) -> usize {
    let sc = s();
    if is_replay() {
        if let Some(x) = take_replay(kind) {
            if cand.contains(&(x as usize)) {
                record(kind, x);
                return x as usize;
            }
        }
        record(kind, cand[0] as u32);
        return cand[0];
    }
    let to = match sc.k.strategy {
        Strategy::Pct { .. } => *cand.iter().max_by_key(|&&i| sc.prio[i]).unwrap(),
        Strategy::Serial => cand[0],
        _ => cand[sc.rng.us(cand.len())],
    };
    record(kind, to as u32);
    to
}

fn next_deadline() -> Option<u64> {
    let sc = s();
    (0..sc.n)
        .filter_map(|i| match sc.st[i] {
            St::Blocked { deadline, .. } | St::Sleeping { deadline } if deadline != u64::MAX => Some(deadline),
            _ => None,
        })
        .min()
}

fn fire_timers() {
    let sc = s();
    for i in 0..sc.n {
        match sc.st[i] {
            St::Blocked { deadline, .. } if deadline <= sc.now => {
                sc.st[i] = St::Runnable;
                sc.why[i] = Why::Timeout;
            }
            St::Sleeping { deadline } if deadline <= sc.now => {
                sc.st[i] = St::Runnable;
                sc.why[i] = Why::Plain;
            }
            _ => {}
        }
    }
}

fn describe() -> String {
    let sc = s();
    (0..sc.n).map(|i| format!("thread {}: {:?}", i, sc.st[i])).collect::<Vec<_>>().join("; ")
}

/// The running thread cannot go on: finds who does. Returns the controller when all are done.
fn pick_next() -> usize {
    loop {
        let r = runnable(usize::MAX);
        if !r.is_empty() {
            return choose(K_BLOCK, &r);
        }
        let sc = s();
        if let Some(d) = next_deadline() {
            let adv = d.saturating_sub(sc.now);
            count_time(adv);
            sc.now = sc.now.max(d);
            fire_timers();
            continue;
        }
        let stalled: Vec<usize> = (0..sc.n).filter(|&i| sc.st[i] == St::Stalled).collect();
        let blocked: Vec<usize> = (0..sc.n).filter(|&i| matches!(sc.st[i], St::Blocked { .. })).collect();
        if !stalled.is_empty() {
            if !blocked.is_empty() {
                violation(
                    "blocked-by-stalled",
                    &format!("a call waits for another caller's stalled conversion: {}", describe()),
                );
            }
            sc.stalled_release = true;
            for i in stalled {
                sc.st[i] = St::Runnable;
            }
            continue;
        }
        if !blocked.is_empty() {
            violation("deadlock", &format!("no thread can go on: {}", describe()));
        }
        return sc.n;
    }
}

fn block_here() {
    let me = tls().tid.get() as usize;
    if me == s().n {
        violation("deadlock", "the only thread waits for a wake-up nobody can send");
    }
    count(C_BLOCK, 1);
    let to = pick_next();
    if to == s().n {
        harness_error("controller chosen while a thread blocks");
    }
    if to != me {
        switch_to(to);
    }
}

fn preempt_to(to: usize) {
    preempt_as(K_PREEMPT, to)
}

fn preempt_as(kind: u16, to: usize) {
    pass_time();
    s().now += s().k.tick;
    count_time(s().k.tick);
    fire_timers();
    record(kind, to as u32);
    count(C_PREEMPT, 1);
    switch_to(to);
}

const CALM_SLICE: u64 = 2_000;

/// The call has used up its steps.
fn overrun(what: &str) {
    let t = tls();
    let sc = s();
    let me = t.tid.get() as usize;
    let steps = t.steps.get();
    pass_time();
    if runnable(me).is_empty() {
        if let Some(d) = next_deadline() {
            sc.now = sc.now.max(d);
            fire_timers();
        }
    }
    if t.extended.get() || me >= sc.n || runnable(me).is_empty() {
        violation("no-progress", &format!("thread {} op {}: {} ({} steps in one call without an end)", me, t.op.get(), what, steps));
    }
    t.extended.set(true);
    t.budget.set(steps + t.budget.get().min(10_000_000));
    sc.calm += 1;
}

/// Work takes time.
fn pass_time() {
    let t = tls();
    let sc = s();
    let d = (t.steps.get() - t.timed.get()).saturating_mul(sc.k.tick) / 1000;
    t.timed.set(t.steps.get());
    sc.now += d;
    count_time(d);
}

/// A scheduling point on a code edge.
#[cold]
#[inline(never)]
pub fn slow_step(hot: bool) {
    let t = tls();
    t.active.set(false);
    let sc = s();
    let me = t.tid.get() as usize;
    if t.steps.get() >= t.budget.get() {
        overrun("it goes on and on");
    }
    let mut switched = false;
    if me < sc.n {
        if is_replay() {
            if let Some(to) = take_replay(K_PREEMPT) {
                if runnable(me).contains(&(to as usize)) {
                    preempt_to(to as usize);
                }
            }
        } else {
            let fair = t.steps.get().saturating_sub(t.slice_start.get()) >= 60_000;
            let r = runnable(me);
            if sc.calm > 0 {
                if !r.is_empty() && (!hot || t.steps.get() >= t.next.get()) {
                    preempt_to(r.iter().copied().find(|&i| i > me).unwrap_or(r[0]));
                    switched = true;
                }
            } else if !r.is_empty() {
                match sc.k.strategy {
                    Strategy::Pct { .. } => {
                        sc.low_prio -= 1;
                        sc.prio[me] = sc.low_prio;
                        let to = *r.iter().max_by_key(|&&i| sc.prio[i]).unwrap();
                        preempt_to(to);
                    }
                    Strategy::Hot { .. } => {
                        if fair || (hot && sc.rng.chance(1, 2)) {
                            let to = r[sc.rng.us(r.len())];
                            preempt_to(to);
                            switched = true;
                        }
                    }
                    Strategy::Uniform { .. } => {
                        let to = r[sc.rng.us(r.len())];
                        preempt_to(to);
                    }
                    Strategy::Serial => {
                        if fair {
                            preempt_to(r[0]);
                        }
                    }
                    Strategy::Replay => {}
                }
            }
        }
    }
    if !hot || switched || t.steps.get() >= t.next.get() {
        arm_next();
    }
    t.active.set(true);
}

pub fn voluntary_yield() {
    let t = tls();
    t.active.set(false);
    let me = t.tid.get() as usize;
    let sc = s();
    // Yielding is progress of nothing: charged against the call.
    t.steps.set(t.steps.get() + 100);
    if t.steps.get() >= t.budget.get() {
        overrun("it keeps yielding");
    }
    let r = runnable(me);
    if me < sc.n && !r.is_empty() {
        if is_replay() {
            let to = take_replay(K_YIELD).map(|x| x as usize).filter(|x| r.contains(x)).unwrap_or(r[0]);
            preempt_as(K_YIELD, to);
        } else {
            let to = if sc.calm > 0 { r.iter().copied().find(|&i| i > me).unwrap_or(r[0]) } else { r[sc.rng.us(r.len())] };
            preempt_as(K_YIELD, to);
        }
    } else if me < sc.n && next_deadline().is_some() {
        sim_sleep_inner(sc.k.tick);
    }
    t.active.set(true);
}

fn sim_sleep_inner(ns: u64) {
    let me = tls().tid.get() as usize;
    let sc = s();
    if me == sc.n {
        sc.now += ns;
        count_time(ns);
        return;
    }
    sc.st[me] = St::Sleeping { deadline: sc.now.saturating_add(ns) };
    block_here();
}

pub fn sim_sleep(ns: u64) {
    let t = tls();
    t.active.set(false);
    // A sleep is progress of nothing: charge it against the call, so that polling for ever is noticed.
    t.steps.set(t.steps.get() + 1000);
    sim_sleep_inner(ns);
    if t.steps.get() >= t.budget.get() {
        overrun("it keeps sleeping");
    }
    t.active.set(true);
}

/// The caller (in the middle of a conversion, say) makes no progress until nobody else can make any.
pub fn stall() {
    let t = tls();
    let was = t.active.replace(false);
    let me = t.tid.get() as usize;
    let sc = s();
    count(C_STALL, 1);
    if me < sc.n {
        sc.st[me] = St::Stalled;
        block_here();
    }
    t.active.set(was);
}

pub fn any_stalled() -> bool {
    s().st.iter().take(s().n).any(|x| *x == St::Stalled)
}

/// Linux `FUTEX_WAIT`.
pub fn futex_wait(addr: usize, val: u32, timeout: *const [i64; 2], absolute: bool) -> i64 {
    let t = tls();
    t.active.set(false);
    let r = futex_wait_inner(addr, val, timeout, absolute);
    t.active.set(true);
    r
}

fn futex_wait_inner(addr: usize, val: u32, timeout: *const [i64; 2], absolute: bool) -> i64 {
    let sc = s();
    let t = tls();
    let me = t.tid.get() as usize;
    let a = unsafe { &*(addr as *const AtomicU32) };
    t.steps.set(t.steps.get() + 1);
    if a.load(SeqCst) != val {
        raw::set_errno(11);
        return -1;
    }
    let spurious = if is_replay() {
        take_replay(K_SPURIOUS).is_some()
    } else {
        sc.k.spurious > 0 && sc.rng.below(256) < sc.k.spurious as u64
    };
    if spurious {
        record(K_SPURIOUS, 0);
        count(C_SPURIOUS, 1);
        if sc.seq & 1 == 0 {
            raw::set_errno(4);
            return -1;
        }
        return 0;
    }
    let deadline = if timeout.is_null() {
        u64::MAX
    } else {
        let ns = unsafe { ((*timeout)[0] as u64).saturating_mul(1_000_000_000) + (*timeout)[1] as u64 };
        if absolute {
            ns
        } else {
            sc.now.saturating_add(ns)
        }
    };
    sc.seq += 1;
    count(C_LOCKWAIT_CONTENDED, 1);
    sc.why[me] = Why::Plain;
    if me < sc.n {
        sc.st[me] = St::Blocked { addr, seq: sc.seq, deadline };
    } else if deadline != u64::MAX {
        sc.now = sc.now.max(deadline);
        raw::set_errno(110);
        return -1;
    }
    block_here();
    let sc = s();
    match sc.why[me] {
        Why::Timeout => {
            raw::set_errno(110);
            -1
        }
        _ => 0,
    }
}

/// Linux `FUTEX_WAKE`.
pub fn futex_wake(addr: usize, n: u32) -> i64 {
    let t = tls();
    t.active.set(false);
    let sc = s();
    let mut w: Vec<(u64, usize)> = (0..sc.n)
        .filter_map(|i| match sc.st[i] {
            St::Blocked { addr: a, seq, .. } if a == addr => Some((seq, i)),
            _ => None,
        })
        .collect();
    w.sort();
    let mut woken = 0;
    while woken < n as i64 && !w.is_empty() {
        let ids: Vec<usize> = w.iter().map(|x| x.1).collect();
        let to = if ids.len() == 1 || n as usize >= ids.len() && n > 1 {
            ids[0]
        } else if is_replay() {
            let x = take_replay(K_WAKE).map(|x| x as usize).filter(|x| ids.contains(x)).unwrap_or(ids[0]);
            record(K_WAKE, x as u32);
            x
        } else {
            let x = ids[sc.rng.us(ids.len())];
            record(K_WAKE, x as u32);
            x
        };
        w.retain(|x| x.1 != to);
        sc.st[to] = St::Runnable;
        sc.why[to] = Why::Woken;
        woken += 1;
    }
    count(C_WAKE, woken as u64);
    t.active.set(true);
    woken
}

pub fn fill_random(p: *mut u8, len: usize) -> i64 {
    count(C_ENTROPY, 1);
    let sc = s();
    for i in 0..len {
        // Entropy 0 and !0 stand for sources stuck at all zeroes and all ones.
        let b = match sc.k.entropy {
            0 => 0,
            u64::MAX => 0xff,
            _ => (splitmix(&mut sc.ent) >> 13) as u8,
        };
        unsafe { *p.add(i) = b }
    }
    len as i64
}

pub fn clock_now(clk: i32) -> u64 {
    let t = tls();
    let was = t.active.replace(false);
    count(C_CLOCKREAD, 1);
    pass_time();
    let sc = s();
    sc.now += 37;
    let r = if clk == 0 {
        if sc.k.clock_jitter_s > 0 {
            let j = sc.k.clock_jitter_s;
            sc.rt_skew = sc.crng.below(2 * j) as i64 - j as i64;
        }
        (sc.now as i64 + sc.rt_skew * 1_000_000_000) as u64
    } else {
        sc.now
    };
    t.active.set(was);
    r
}

/// Moves the clocks forward.
pub fn clock_jump(ns: u64) {
    count(C_CLOCKJUMP, 1);
    count_time(ns);
    s().now += ns;
    fire_timers();
}

pub fn sim_now() -> u64 {
    s().now
}

/// Begins a simulated call on this thread.
pub fn begin_call(op: u32, budget: u64) {
    let t = tls();
    t.op.set(op);
    let round = s().round << 20;
    if t.last_op.replace(op) == op && t.call.get() >> 20 == s().round {
        t.call.set(t.call.get() + 1);
    } else {
        t.call.set(round);
    }
    t.steps.set(0);
    t.timed.set(0);
    t.allocs.set(0);
    t.alloc_failed.set(false);
    t.budget.set(budget);
    let me = t.tid.get() as usize;
    let shd = sh();
    shd.cur_tid = me as u32;
    shd.cur_op = op;
    shd.starved &= !(1 << (op % 64));
    let sc = s();
    if me < sc.n {
        if is_replay() {
            if let Some(to) = take_replay(K_PREEMPT) {
                if runnable(me).contains(&(to as usize)) {
                    preempt_to(to as usize);
                }
            }
        } else if sc.k.between > 0 && sc.rng.below(256) < sc.k.between as u64 {
            let r = runnable(me);
            if !r.is_empty() {
                let to = r[sc.rng.us(r.len())];
                preempt_to(to);
            }
        }
    }
    arm_next();
    t.active.set(true);
}

/// Ends it; returns the steps it took.
pub fn end_call() -> u64 {
    let t = tls();
    t.active.set(false);
    t.fail_alloc.set(0);
    t.next.set(u64::MAX);
    let n = t.steps.get();
    t.total_steps.set(t.total_steps.get() + n);
    count(C_STEPS, n);
    count(C_OPS, 1);
    pass_time();
    if t.extended.replace(false) {
        s().calm -= 1;
    }
    s().now += s().k.tick;
    count_time(s().k.tick);
    n
}

/// Body of a simulated thread: waits for its first turn. Its last act is `thread_done`.
pub fn thread_start(tid: usize) {
    let t = tls();
    t.tid.set(tid as i32);
    t.cover.set(true);
    ARRIVED.fetch_add(1, SeqCst);
    raw::futex_wake_real(&ARRIVED);
    park(tid);
}

/// Threads that got as far as the simulator, and those asked for.
static ARRIVED: AtomicU32 = AtomicU32::new(0);
static ASKED: AtomicU32 = AtomicU32::new(0);

pub fn thread_done() {
    let t = tls();
    t.active.set(false);
    let me = t.tid.get() as usize;
    let sc = s();
    sc.st[me] = St::Done;
    t.op.set(OP_EXIT + 1);
    t.call.set(sc.round << 20);
    t.steps.set(0);
    t.timed.set(0);
    let to = pick_next();
    hand_over(to);
    t.tid.set(-1);
}

/// Tells apart the decisions of repeated phases.
pub fn set_round(r: u32) {
    s().round = r;
}

/// The controller lets the simulated threads run until all are done.
pub fn run_threads() {
    let t = tls();
    // Threads on their way here share locks of the standard library, which are real until they arrive.
    loop {
        let n = ARRIVED.load(SeqCst);
        if n == ASKED.load(SeqCst) {
            break;
        }
        raw::futex_wait_real(&ARRIVED, n);
    }
    t.op.set(OP_EXIT + 2);
    t.call.set(s().round << 20);
    t.steps.set(0);
    t.timed.set(0);
    let me = s().n;
    let to = pick_next();
    if to != me {
        hand_over(to);
        park(me);
    }
    t.op.set(0);
}

/// Adds a thread for a later phase (only the controller may).
pub fn thread_again(tid: usize) {
    s().st[tid] = St::Runnable;
    ASKED.fetch_add(1, SeqCst);
}

pub fn install_alloc_failure(hook: fn(std::alloc::Layout)) {
    std::alloc::set_alloc_error_hook(hook);
}

/// Adds to the simulated time, counted in milliseconds.
fn count_time(ns: u64) {
    let sc = s();
    sc.rest_ns += ns % 1_000_000;
    count(C_SIMMS, ns / 1_000_000 + sc.rest_ns / 1_000_000);
    sc.rest_ns %= 1_000_000;
}

pub fn round() -> u32 {
    s().round
}
