//! Runs a plan in this (freshly forked) process and judges what happens.
use crate::entries::*;
use crate::gen::{how_names, pieces, variant, HOW_STALE};
use crate::held::*;
use crate::plan::*;
use nom_greedyerror::GreedyErrorKind;
use pddl::parsers::{ParseError, ParseResult, Span};
use pddl::*;
use simcore::prng::mix;
use simcore::*;
use std::any::Any;
use std::cell::Cell;
use simcore::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

/// What a text parses to in a process of its own.
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Ref {
    /// 0..=3 as `POut::kind`; 8: died; 9: exceeded its steps.
    pub kind: u8,
    pub dig: (u64, u64),
    pub rest_off: u64,
    pub rest_len: u64,
    pub rest_line: u32,
    pub steps: u64,
}

pub type RefKey = (u16, u8, u32);

pub struct NameEnt {
    pub held: Held,
    pub text: u32,
    pub interned: bool,
    pub ptr: usize,
    pub route: u8,
}

pub struct ValEnt {
    pub val: Box<dyn Val>,
    pub entry: u16,
    pub route: u8,
    pub text: u32,
    pub dig: (u64, u64),
}

pub struct World {
    pub plan: &'static Plan,
    pub refs: HashMap<RefKey, Ref>,
    pub slots: Vec<Option<Arc<NameEnt>>>,
    pub vslots: Vec<Option<Arc<ValEnt>>>,
    pub buf_busy: Vec<bool>,
    pub leaked: HashMap<u32, &'static str>,
    pub log: u64,
    pub verbose: bool,
}

static mut WORLD: Option<Box<World>> = None;

pub fn w() -> &'static mut World {
    unsafe { (*(&raw mut WORLD)).as_mut().expect("world") }
}

const BUF_BASE: usize = 0x2000_0000_0000;
const BUF_SIZE: usize = 1 << 22;
pub const N_BUFS: usize = 8;
const LEAK_BASE: usize = 0x2100_0000_0000;
const LEAK_SIZE: usize = 1 << 26;
static mut LEAK_AT: usize = LEAK_BASE;

pub fn map_buffers() {
    unsafe {
        for (a, l) in [(BUF_BASE, BUF_SIZE * N_BUFS), (LEAK_BASE, LEAK_SIZE)] {
            let p = raw::mmap(a as *mut u8, l, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0);
            assert!(p as usize == a, "could not map the text buffers");
        }
    }
}

fn buf(i: usize) -> &'static mut [u8] {
    unsafe { std::slice::from_raw_parts_mut((BUF_BASE + i * BUF_SIZE) as *mut u8, BUF_SIZE) }
}

/// A `'static` copy at an address that depends only on the history of the run.
fn leak(t: &str) -> &'static str {
    unsafe {
        let p = LEAK_AT;
        let n = t.len();
        assert!(p + n + 16 < LEAK_BASE + LEAK_SIZE);
        std::ptr::copy_nonoverlapping(t.as_ptr(), p as *mut u8, n);
        LEAK_AT = (p + n + 15) & !15;
        std::str::from_utf8_unchecked(std::slice::from_raw_parts(p as *const u8, n))
    }
}

static mut LAST_PANIC: Option<String> = None;

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|i| {
        simcore::outside(|| {
            let p = i.payload();
            let m = if p.is::<Injected>() || p.is::<AllocFail>() {
                String::new()
            } else if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            unsafe { LAST_PANIC = Some(format!("{} at {}", m, l)) };
        })
    }));
    simcore::install_alloc_failure(|_| std::panic::panic_any(AllocFail));
}

pub fn last_panic() -> String {
    unsafe { (*(&raw const LAST_PANIC)).clone().unwrap_or_default() }
}

pub enum Res<R> {
    Ok(R),
    Injected(u32),
    AllocFail,
    Foreign(String),
}

/// Names made before this run.
static mut NAMES0: u64 = 0;

/// One simulated call.
pub fn call<R>(id: u32, budget: u64, alloc_fail: u64, f: impl FnOnce() -> R) -> (Res<R>, u64, bool) {
    // Every now and then a table of names is rebuilt: time in proportion to their number.
    let names = simcore::sh().counters[C_NAMES].saturating_sub(unsafe { NAMES0 });
    begin_call(id, budget.saturating_add(names.saturating_mul(10_000)));
    if alloc_fail > 0 {
        tls().fail_alloc.set(alloc_fail);
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    let steps = end_call();
    let af = tls().alloc_failed.get();
    let r = match r {
        Ok(x) => Res::Ok(x),
        Err(p) => classify(p),
    };
    (r, steps, af)
}

fn classify<R>(p: Box<dyn Any + Send>) -> Res<R> {
    if let Some(i) = p.downcast_ref::<Injected>() {
        Res::Injected(i.0)
    } else if p.is::<AllocFail>() {
        Res::AllocFail
    } else {
        Res::Foreign(last_panic())
    }
}

/// Budget, in steps, of anything that makes or reads a few names.
const NAME_BUDGET: u64 = 3_000_000;

/// Steps a parse of the text may take at most (see DESIGN.md for the measurement behind it): each level of nesting may
/// be parsed again by each level around it, and that by the alternatives one level up.
pub fn parse_budget(t: &str) -> u64 {
    let (len, deep) = (t.len() as u64, crate::gen::nesting(t).1 as u64);
    2_000_000 + len * (30_000 + 800 * deep * deep)
}

fn here(op: &Op) -> String {
    format!("thread {} op {} ({:?})", tls().tid.get(), op.id, op.k)
}

/// Judgements of each property; what belongs to another one does not end the run.
pub fn classes(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" => &["wrong-text", "wrong-equality", "wrong-hash", "name-route", "moved", "foreign-panic", "deadlock", "no-progress"],
        "C02" => &["not-shared"],
        "C03" => &[
            "foreign-panic", "panic-swallowed", "wrong-text", "wrong-equality", "wrong-hash", "name-route", "moved", "not-shared",
            "depends-on-history", "deadlock", "no-progress",
        ],
        "C04" => &["deadlock", "blocked-by-stalled", "no-progress"],
        "C05" => &["depends-on-history", "foreign-panic", "deadlock", "no-progress"],
        "C06" => &["torn-accepted", "foreign-panic", "no-progress"],
        "C07" => &["parser-panic", "bad-position", "no-progress", "deadlock"],
        "C08" => &["fatal-swallowed", "panic-swallowed"],
        "C09" => &["memory-grows"],
        "C13" => &["transfer-changes", "foreign-panic", "no-progress"],
        "C22" => &["tail-changes", "foreign-panic", "no-progress"],
        "C23" => &["print-failure", "print-differs", "panic-swallowed", "foreign-panic", "deadlock", "no-progress"],
        "C10" => &["value-changed", "value-unequal", "not-send", "foreign-panic"],
        _ => &[],
    }
}

fn viol(class: &str, op: &Op, msg: &str) {
    let x = w();
    if classes(&x.plan.prop).contains(&class) {
        violation(class, &format!("{}: {}", here(op), msg));
    }
    count(C_OTHER, 1);
    if x.verbose {
        eprintln!("(not this property's: {} {})", class, msg);
    }
}

fn log(op: &Op, v: &[u64]) {
    let x = w();
    let t = tls().tid.get() as u64;
    let mut a = vec![x.log, t, op.id as u64];
    a.extend_from_slice(v);
    x.log = mix(&a);
    sh().log_hash = x.log;
    if x.verbose {
        eprintln!("[{:>12} ns] thread {} op {} {:?} -> {:x?}", sim_now() - x.plan.knobs.clock_base, t, op.id, op.k, v);
    }
}

fn text(i: u32) -> &'static String {
    &w().plan.texts[i as usize]
}

/// Unwraps a call in which nothing was made to fail.
fn clean<R>(op: &Op, r: Res<R>, what: &str) -> Option<R> {
    match r {
        Res::Ok(x) => return Some(x),
        Res::Injected(i) => viol("foreign-panic", op, &format!("{} met the panic injected in operation {}", what, i)),
        Res::AllocFail => viol("foreign-panic", op, &format!("{} met an allocation failure of another call", what)),
        Res::Foreign(m) => viol("foreign-panic", op, &format!("{} panicked: {}", what, m)),
    }
    None
}

fn drop_held(op: &Op, x: Option<Arc<NameEnt>>) {
    if let Some(x) = x {
        let (r, _, _) = call(op.id, NAME_BUDGET, 0, move || drop(x));
        clean(op, r, "dropping a name");
    }
}

fn drop_val(op: &Op, x: Option<Arc<ValEnt>>) {
    if let Some(x) = x {
        let (r, _, _) = call(op.id, NAME_BUDGET * 10, 0, move || drop(x));
        clean(op, r, "dropping a value");
    }
}

/// Which allocation of the operation fails. None in the first of several rounds, which fills tables and caches.
fn alloc_fault(f: &Fault) -> u64 {
    if f.site == SITE_ALLOC && (w().plan.mem_from == 0 || simcore::round() > 0) {
        f.nth as u64
    } else {
        0
    }
}

/// Whether the call failed for the allocation that was to fail in it.
fn out_of_memory<R>(op: &Op, r: &Res<R>, failed: bool) -> bool {
    let oom = failed && matches!(r, Res::AllocFail);
    if oom {
        log(op, &[2]);
    }
    oom
}

fn slot(i: u32) -> Option<Arc<NameEnt>> {
    w().slots.get(i as usize).and_then(|x| x.clone())
}

fn vslot(i: u32) -> Option<Arc<ValEnt>> {
    w().vslots.get(i as usize).and_then(|x| x.clone())
}

fn leaked(i: u32) -> &'static str {
    let x = w();
    if let Some(s) = x.leaked.get(&i) {
        return s;
    }
    let s = leak(&x.plan.texts[i as usize]);
    x.leaked.insert(i, s);
    s
}

/// An iterator of the caller.
struct Parts {
    texts: &'static [String],
    first: usize,
    at: usize,
    n: usize,
    how: u8,
    fault: Fault,
    id: u32,
}

impl Iterator for Parts {
    type Item = &'static str;
    fn next(&mut self) -> Option<&'static str> {
        let i = self.at;
        if i <= self.n {
            self.at += 1;
            match self.fault.what {
                // Another list is built in the same way before this one goes on.
                What::Reenter(t) if t % 3 == 0 && self.fault.nth == self.at as u32 && self.fault.site == SITE_ITER => {
                    count(C_REENTER, 1);
                    let l = gather(self.how, Parts { first: t as usize, at: 0, n: 1, fault: NOFAULT, ..*self });
                    if l.len() != 1 || l[0].str() != self.texts[t as usize % self.texts.len()] {
                        fired().bad = Some("a list built while another one is being built is wrong".to_string());
                    }
                }
                _ => maybe_fault(&self.fault, SITE_ITER, self.at as u32, self.id, self.texts),
            }
        }
        (i < self.n).then(|| self.texts[(self.first + i) % self.texts.len()].as_str())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        // Some callers know how much is to come.
        if self.first % 2 == 0 {
            (self.n - self.at.min(self.n), Some(self.n - self.at.min(self.n)))
        } else {
            (0, None)
        }
    }
}

pub const GATHERS: u8 = 9;

/// A list of names made from an iterator of the caller, and what it holds.
fn gather(how: u8, it: Parts) -> Vec<Held> {
    let typed = |it: Parts| it.map(|t| Name::new(t).to_typed("part"));
    let names = |l: &TypedList<Name>| l.iter().map(|x| Held::N(x.value().clone())).collect::<Vec<_>>();
    match how % GATHERS {
        0 => it.collect::<Type>().into_iter().map(Held::PType).collect(),
        1 => Name::new("x").to_typed_either(it.map(String::from)).type_().clone().into_iter().map(Held::PType).collect(),
        2 => {
            let d = Domain::builder(Name::new_static("d"), StructureDefs::default()).with_extends(it.map(Name::from));
            d.extends().iter().cloned().map(Held::N).collect()
        }
        3 => names(&Objects::new(typed(it))),
        4 => names(&typed(it).collect::<Constants>()),
        5 => names(&Types::from(typed(it).collect::<TypedList<Name>>())),
        6 => Variable::from("v").to_typed_either(it.map(Name::new)).type_().clone().into_iter().map(Held::PType).collect(),
        7 => {
            let l: PredicateDefinitions =
                it.map(|t| AtomicFormulaSkeleton::new(Predicate::from_str(t), TypedList::new(vec![]))).collect();
            l.iter().map(|x| Held::Pred(x.predicate().clone())).collect()
        }
        _ => {
            let g = PreconditionGoalDefinition::new_and(it.map(|t| {
                PreconditionGoalDefinition::new_forall(
                    TypedList::from_iter([Typed::new_object(Variable::from(t))]),
                    PreconditionGoalDefinitions::default(),
                )
            }));
            g.into_iter()
                .filter_map(|x| match x {
                    PreconditionGoalDefinition::Forall(v, _) => v.first().map(|v| Held::Var(v.value().clone())),
                    _ => None,
                })
                .collect()
        }
    }
}

/// The ordinary endings of a call in which the caller's own code may have failed.
fn mine<R>(op: &Op, r: Res<R>, afired: bool, f: Fired, steps: u64, what: &str) -> Option<R> {
    if let Some(b) = f.bad {
        viol("wrong-text", op, &b);
    }
    match r {
        Res::Injected(i) if i == op.id && f.panic => {
            log(op, &[1, steps]);
            None
        }
        Res::AllocFail if afired => {
            log(op, &[2, steps]);
            None
        }
        r => {
            let r = clean(op, r, what)?;
            if f.panic {
                viol("panic-swallowed", op, &format!("{} swallowed the panic of the caller's code", what));
            }
            Some(r)
        }
    }
}

fn no_fired() -> Fired {
    Fired { panic: false, reenter: false, stall: false, lie: false, bad: None }
}

fn op_gather(op: &Op, how: u8, first: u32, n: u32, si: u32) {
    let texts: &'static [String] = &w().plan.texts;
    *fired() = no_fired();
    let overlap = any_stalled();
    let it = Parts { texts, first: first as usize, at: 0, n: n as usize, how, fault: op.fault, id: op.id };
    let (r, steps, afired) = call(op.id, NAME_BUDGET * (2 + n as u64), alloc_fault(&op.fault), move || gather(how, it));
    let f = std::mem::replace(fired(), no_fired());
    let Some(mut l) = mine(op, r, afired, f, steps, "building a list") else { return };
    count(C_NAMES, n as u64);
    if overlap {
        count(C_STALL_OVERLAP, 1);
    }
    let what = "a list";
    if l.len() != n as usize {
        viol("wrong-text", op, &format!("a list of {} names has {}", n, l.len()));
    }
    for (i, h) in l.iter().enumerate() {
        let t = &texts[(first as usize + i) % texts.len()];
        if h.str() != t {
            viol("wrong-text", op, &format!("a name of a list made from {:?} reads {:?}", short(t), short(h.str())));
            continue;
        }
        if w().plan.interning && !t.is_empty() {
            check_storage(op, t, h.str().as_ptr() as usize, what);
        }
    }
    let last = l.pop();
    let (r, _, _) = call(op.id, NAME_BUDGET, 0, move || drop(l));
    clean(op, r, "dropping a list");
    let Some(held) = last else { return };
    let ti = (first + n - 1) % texts.len() as u32;
    let (int, ptr) = (w().plan.interning, held.str().as_ptr() as usize);
    log(op, &[0, steps, ptr as u64]);
    if held.str() != text(ti) {
        let (r, _, _) = call(op.id, NAME_BUDGET, 0, move || drop(held));
        clean(op, r, "dropping a name");
        return;
    }
    let ent = Arc::new(NameEnt { held, text: ti, interned: int, ptr, route: 3 });
    if si == NO_SLOT {
        drop_held(op, Some(ent));
    } else {
        let old = w().slots[si as usize].replace(ent);
        drop_held(op, old);
    }
}

/// A hasher of the caller.
struct Hashing {
    h: u64,
    n: u32,
    fault: Fault,
    id: u32,
    texts: &'static [String],
}

impl std::hash::Hasher for Hashing {
    fn finish(&self) -> u64 {
        self.h
    }
    fn write(&mut self, b: &[u8]) {
        self.n += 1;
        maybe_fault(&self.fault, SITE_HASH, self.n, self.id, self.texts);
        self.h = simcore::hash_bytes(self.h, b).0;
    }
}

fn op_hash(op: &Op, e: &Arc<NameEnt>) {
    let texts: &'static [String] = &w().plan.texts;
    let hash = |fault: Fault| {
        let x = e.clone();
        let (r, steps, _) = call(op.id, NAME_BUDGET, 0, || {
            let mut h = Hashing { h: 77, n: 0, fault, id: op.id, texts };
            x.held.hash_into(&mut h).then(|| (h.h, h.n))
        });
        drop_held(op, Some(x));
        (r, steps)
    };
    *fired() = no_fired();
    let overlap = any_stalled();
    let (r, steps) = hash(op.fault);
    let f = std::mem::replace(fired(), no_fired());
    let r = mine(op, r, false, f, steps, "hashing a name");
    if overlap {
        count(C_STALL_OVERLAP, 1);
    }
    // What comes after is not disturbed, and the same.
    let (again, _) = hash(NOFAULT);
    let Some(again) = clean(op, again, "hashing a name") else { return };
    if let Some(r) = r {
        if r != again {
            viol("wrong-hash", op, "a name hashes differently the second time");
        }
    }
    log(op, &[steps, again.map_or(0, |x| x.0)]);
}

fn op_name(op: &Op, route: u8, ti: u32, si: u32) {
    let t: &'static str = text(ti);
    let mut route = route;
    if (16..=21).contains(&route) && !grammar_name(t) {
        route = 0;
    }
    if route == ROUTE_DEFAULT && !t.is_empty() {
        route = ROUTE_STATIC;
    }
    let lk = if matches!(route, 22 | 26) { leaked(ti) } else { "" };
    let texts: &'static [String] = &w().plan.texts;
    *fired() = Fired { panic: false, reenter: false, stall: false, lie: false, bad: None };
    let overlap = any_stalled();
    let af = alloc_fault(&op.fault);
    let (fault, id) = (op.fault, op.id);
    let (r, steps, afired) = call(op.id, NAME_BUDGET, af, move || {
        // Built inside the call, so that its memory is the simulated heap's.
        let conv = is_custom(route).then(|| Conv {
            text: t.to_string(),
            other: match fault.what {
                What::Lie(o) => texts[o as usize].clone(),
                _ => String::new(),
            },
            fault,
            id,
            n_asref: Cell::new(0),
            n_into: Cell::new(0),
            texts,
        });
        make(route, t, lk, conv).map(|h| {
            let ptr = h.str().as_ptr() as usize;
            let ok = h.str() == t;
            (h, ptr, ok)
        })
    });
    let f = std::mem::replace(fired(), Fired { panic: false, reenter: false, stall: false, lie: false, bad: None });
    if let Some(b) = f.bad {
        viol("wrong-text", op, &b);
    }
    let made = match r {
        Res::Ok(x) => {
            if f.panic {
                viol("panic-swallowed", op, "the panic of the caller's own conversion was not delivered to the caller");
            }
            x
        }
        Res::Injected(i) => {
            if i != op.id || !f.panic {
                viol("foreign-panic", op, &format!("met the panic injected in operation {}", i));
            }
            log(op, &[1, steps]);
            return;
        }
        Res::AllocFail => {
            if !afired {
                viol("foreign-panic", op, "met an allocation failure of another call");
            }
            log(op, &[2, steps]);
            return;
        }
        Res::Foreign(m) => return viol("foreign-panic", op, &format!("making a name panicked: {}", m)),
    };
    let (held, ptr, ok) = match made {
        Ok(x) => x,
        Err(m) => return viol("name-route", op, &m),
    };
    count(C_NAMES, 1);
    if overlap {
        count(C_STALL_OVERLAP, 1);
    }
    if f.lie || matches!(op.fault.what, What::Lie(_)) && op.fault.site != SITE_NONE {
        // The caller contradicted itself: which text it gets is its own affair.
        let (r, _, _) = call(op.id, NAME_BUDGET, 0, move || drop(held));
        clean(op, r, "dropping a name");
        log(op, &[3, steps]);
        return;
    }
    if !ok {
        let got = held.str().to_string();
        viol("wrong-text", op, &format!("{} of {:?} reads {:?}", ROUTES[route as usize], short(t), short(&got)));
        let (r, _, _) = call(op.id, NAME_BUDGET, 0, move || drop(held));
        clean(op, r, "dropping a name");
        return;
    }
    let int = interned(route) && w().plan.interning;
    if int && !t.is_empty() {
        check_storage(op, t, ptr, ROUTES[route as usize]);
    }
    let ent = Arc::new(NameEnt { held, text: ti, interned: int, ptr, route });
    log(op, &[0, steps, ptr as u64]);
    if si == NO_SLOT {
        drop_held(op, Some(ent));
    } else {
        let old = w().slots[si as usize].replace(ent);
        drop_held(op, old);
    }
}

/// Every live interned name with this text has its bytes at `ptr`.
fn check_storage(op: &Op, t: &str, ptr: usize, what: &str) {
    for e in w().slots.iter().flatten() {
        if e.interned && text(e.text) == t {
            count(C_PTRCMP, 1);
            if e.ptr != ptr {
                viol(
                    "not-shared",
                    op,
                    &format!("{} of {:?} is stored apart from a live equal name made by {}", what, short(t), ROUTES[e.route as usize]),
                );
            }
        }
    }
}

fn op_check(op: &Op, e: &Arc<NameEnt>) {
    let t = text(e.text);
    let x = e.clone();
    let (r, steps, _) = call(op.id, NAME_BUDGET, 0, || {
        let r = x.held.read(t);
        (r, x.held.str().as_ptr() as usize)
    });
    drop_held(op, Some(x));
    let Some((r, ptr)) = clean(op, r, "reading a name") else { return };
    count(C_XREAD, 1);
    if let Err(m) = r {
        viol("wrong-text", op, &format!("a name made by {} {}", ROUTES[e.route as usize], m));
    }
    if ptr != e.ptr && !t.is_empty() {
        viol("moved", op, &format!("the storage of a held name {:?} moved", short(t)));
    }
    log(op, &[steps, ptr as u64]);
}

fn op_cmp(op: &Op, a: &Arc<NameEnt>, b: &Arc<NameEnt>) {
    let want = text(a.text) == text(b.text);
    let (x, y) = (a.clone(), b.clone());
    let (r, steps, _) = call(op.id, NAME_BUDGET, 0, || {
        let e1 = x.held.equal(&y.held);
        let e2 = y.held.equal(&x.held);
        let (h1, h2) = (x.held.hash(), y.held.hash());
        // By the names alone, whatever wraps them.
        let (n1, n2) = match (x.held.name(), y.held.name()) {
            (Some(n), Some(m)) => (Some(n == m), Some((hash_name(n), hash_name(m)))),
            _ => (None, None),
        };
        (e1, e2, h1, h2, n1, n2)
    });
    drop_held(op, Some(x));
    drop_held(op, Some(y));
    let Some((e1, e2, h1, h2, n1, n2)) = clean(op, r, "comparing names") else { return };
    let about = || {
        format!(
            "{:?} by {} and {:?} by {}",
            short(text(a.text)),
            ROUTES[a.route as usize],
            short(text(b.text)),
            ROUTES[b.route as usize]
        )
    };
    for (eq, ne) in [e1, e2].into_iter().flatten() {
        if eq != want || ne != want {
            viol("wrong-equality", op, &format!("equality of {} is {} / {}", about(), eq, ne));
        }
    }
    if let Some(eq) = n1 {
        if eq != want {
            viol("wrong-equality", op, &format!("equality of the names of {} is {}", about(), eq));
        }
    }
    if want {
        if let Some((p, q)) = n2 {
            if p != q {
                viol("wrong-hash", op, &format!("equal names hash differently: {}", about()));
            }
        }
        if let (Some(p), Some(q)) = (h1, h2) {
            if std::mem::discriminant(&a.held) == std::mem::discriminant(&b.held) && p != q {
                viol("wrong-hash", op, &format!("equal names hash differently: {}", about()));
            }
        }
        if a.interned && b.interned && !text(a.text).is_empty() {
            count(C_PTRCMP, 1);
            if a.ptr != b.ptr {
                viol("not-shared", op, &format!("two live equal names are stored apart: {}", about()));
            }
        }
    }
    log(op, &[steps, want as u64]);
}

/// Names inside a parsed value, as far as its type gives them away: (text pointer, text).
fn names_in(v: &dyn Val) -> Vec<(usize, String)> {
    let mut o: Vec<(usize, String)> = Vec::new();
    let mut add = |s: &str| o.push((s.as_ptr() as usize, s.to_string()));
    let a = v.any();
    if let Some(d) = a.downcast_ref::<Domain>() {
        add(d.name());
        d.extends().iter().for_each(|n| add(n));
        d.types().values().iter().for_each(|n| add(n.value()));
        d.constants().iter().for_each(|n| add(n.value()));
        d.predicates().values().iter().for_each(|n| add(n.name()));
    } else if let Some(p) = a.downcast_ref::<Problem>() {
        add(p.name());
        add(p.domain());
        p.objects().iter().for_each(|n| add(n.value()));
    } else if let Some(x) = a.downcast_ref::<Objects>() {
        x.iter().for_each(|n| add(n.value()));
    } else if let Some(x) = a.downcast_ref::<Types>() {
        x.values().iter().for_each(|n| {
            add(n.value());
            if let Type::Exactly(t) = n.type_() {
                // The implied type is a constant of the library, not a name that was made here.
                if &**t != "object" {
                    add(t)
                }
            }
        });
    } else if let Some(x) = a.downcast_ref::<Constants>() {
        x.iter().for_each(|n| add(n.value()));
    } else if let Some(x) = a.downcast_ref::<Name>() {
        add(x);
    } else if let Some(x) = a.downcast_ref::<Variable>() {
        add(x.as_ref());
    } else if let Some(x) = a.downcast_ref::<Predicate>() {
        add(x.as_ref());
    } else if let Some(x) = a.downcast_ref::<PredicateDefinitions>() {
        x.values().iter().for_each(|n| add(n.name()));
    } else if let Some(x) = a.downcast_ref::<Term>() {
        match x {
            Term::Name(n) => add(n),
            Term::Variable(n) => add(n.as_ref()),
            _ => {}
        }
    }
    o
}

struct BufGuard(Option<usize>);

/// The text in a caller's buffer: at an address used before for other texts.
fn place(ti: u32, b: u32) -> (&'static str, BufGuard) {
    let t = text(ti);
    let b = b as usize % N_BUFS;
    let x = w();
    if x.buf_busy[b] || t.len() + 64 > BUF_SIZE {
        return (t, BufGuard(None));
    }
    x.buf_busy[b] = true;
    count(C_BUFREUSE, 1);
    let m = buf(b);
    m[..t.len()].copy_from_slice(t.as_bytes());
    (unsafe { std::str::from_utf8_unchecked(&*(&m[..t.len()] as *const [u8])) }, BufGuard(Some(b)))
}

/// The caller reuses its buffer for something else.
fn scribble(g: BufGuard, len: usize, how: u64) {
    if let Some(b) = g.0 {
        let m = buf(b);
        for (i, x) in m[..len].iter_mut().enumerate() {
            *x = match how % 3 {
                0 => b')',
                1 => 0,
                _ => b'a' + ((i as u64 * 7 + how) % 26) as u8,
            };
        }
        w().buf_busy[b] = false;
    }
}

fn outcome_differs(o: &POut, r: &Ref) -> Option<String> {
    if o.kind != r.kind {
        return Some(format!("result kind {} instead of {} (0 value, 1 error, 2 failure, 3 incomplete)", o.kind, r.kind));
    }
    if o.dig != r.dig {
        return Some(format!("a different {}", if o.kind == 0 { "value" } else { "error" }));
    }
    if o.rest_off as u64 != r.rest_off || o.rest_len as u64 != r.rest_len || o.rest_line != r.rest_line {
        return Some(format!("remainder at {} instead of {}", o.rest_off, r.rest_off));
    }
    None
}

#[allow(clippy::too_many_arguments)]
fn op_parse(op: &Op, en: u16, route: u8, ti: u32, b: u32, vs: u32) {
    let rf = match w().refs.get(&(en, route, ti)) {
        Some(r) => *r,
        None => harness_error(&format!("no reference for op {}", op.id)),
    };
    if rf.kind >= 8 {
        // The text alone kills or overruns the parser: another property's business.
        return;
    }
    let (t, g) = place(ti, b);
    let af = alloc_fault(&op.fault);
    let overlap = any_stalled();
    let f = ENTRIES[en as usize].f;
    *fired() = no_fired();
    set_doc_fault((op.fault.site == SITE_INTO).then(|| (op.fault, op.id, &w().plan.texts[..])));
    let (r, steps, afired) = call(op.id, rf.steps * 8 + 1_000_000, af, || f(t, route));
    set_doc_fault(None);
    let fi = std::mem::replace(fired(), no_fired());
    if let Some(b) = fi.bad {
        viol("wrong-text", op, &b);
    }
    scribble(g, t.len(), op.id as u64);
    let out = match r {
        Res::Ok(x) => {
            if fi.panic {
                viol("panic-swallowed", op, "the panic of the caller's own conversion was not delivered to the caller");
            }
            x
        }
        Res::Injected(i) if i == op.id && fi.panic => {
            log(op, &[1, steps]);
            return;
        }
        Res::AllocFail if afired => {
            log(op, &[2, steps]);
            return;
        }
        Res::AllocFail => return viol("foreign-panic", op, "met an allocation failure of another call"),
        Res::Injected(i) => return viol("foreign-panic", op, &format!("met the panic injected in operation {}", i)),
        Res::Foreign(m) => return viol("foreign-panic", op, &format!("parsing {} {:?} panicked: {}", ENTRIES[en as usize].name, short(text(ti)), m)),
    };
    if overlap {
        count(C_STALL_OVERLAP, 1);
    }
    count(if out.kind == 0 { C_PARSE_OK } else { C_PARSE_ERR }, 1);
    if let Some(m) = outcome_differs(&out, &rf) {
        viol(
            "depends-on-history",
            op,
            &format!("{} {:?} alone in a process gives another result: {}", ENTRIES[en as usize].name, short(text(ti)), m),
        );
    }
    log(op, &[0, steps, out.dig.0, out.kind as u64]);
    let POut { value, dig, .. } = out;
    if let Some(v) = value {
        if w().plan.interning {
            let (r, _, _) = call(op.id, NAME_BUDGET * 10, 0, || names_in(&*v));
            let l = clean(op, r, "reading names").unwrap_or_default();
            for (p, s) in l.iter() {
                if !s.is_empty() {
                    check_storage(op, s, *p, ENTRIES[en as usize].name);
                }
            }
        }
        let ent = Arc::new(ValEnt { val: v, entry: en, route, text: ti, dig });
        if vs == NO_SLOT {
            drop_val(op, Some(ent));
        } else {
            let old = w().vslots[vs as usize].replace(ent);
            drop_val(op, old);
        }
    }
}

fn op_vcheck(op: &Op, e: &Arc<ValEnt>) {
    let x = e.clone();
    let (r, steps, _) = call(op.id, u64::MAX / 4, 0, || x.val.digest());
    drop_val(op, Some(x));
    let Some(d) = clean(op, r, "reading a value") else { return };
    count(C_XREAD, 1);
    if d != e.dig {
        viol("value-changed", op, &format!("a held {} value changed", ENTRIES[e.entry as usize].name));
    }
    log(op, &[steps, d.0]);
}

fn op_vcmp(op: &Op, a: &Arc<ValEnt>, b: &Arc<ValEnt>) {
    let (x, y) = (a.clone(), b.clone());
    let (r, steps, _) = call(op.id, u64::MAX / 4, 0, || (x.val.same(&*y.val), y.val.same(&*x.val)));
    drop_val(op, Some(x));
    drop_val(op, Some(y));
    let Some((p, q)) = clean(op, r, "comparing values") else { return };
    let same_text = a.entry == b.entry && text(a.text) == text(b.text);
    if same_text && !(p && q) {
        viol("value-unequal", op, "two values parsed from one text compare unequal");
    }
    if p != q {
        viol("value-unequal", op, "equality of values is not symmetric");
    }
    log(op, &[steps, p as u64]);
}

/// What the caller prints into: a file on a full disk, a closed pipe, its own code.
struct Sink<'a> {
    want: &'a str,
    at: usize,
    n: u32,
    fault: Fault,
    id: u32,
    texts: &'static [String],
    print: &'a dyn Fn(&mut dyn std::fmt::Write) -> std::fmt::Result,
    refused: bool,
    /// Written to after it had refused.
    after: bool,
    differs: bool,
}

impl std::fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.refused {
            self.after = true;
            return Err(std::fmt::Error);
        }
        self.n += 1;
        if self.fault.site == SITE_SINK && self.fault.nth == self.n {
            if self.fault.what == What::Refuse {
                self.refused = true;
                count(C_REFUSED, 1);
                return Err(std::fmt::Error);
            }
            maybe_fault(&self.fault, SITE_SINK, self.n, self.id, self.texts);
            if let What::Reenter(t) = self.fault.what {
                // Prints something else meanwhile.
                let t = &self.texts[t as usize];
                let (a, b) = (Name::new(t.as_str()), Name::new(t.as_str()));
                if format!("{:?}", a) != format!("{:?}", b) || a != b {
                    fired().bad = Some("a name printed while another value is printed prints wrongly".to_string());
                }
                let mut again = String::new();
                if (self.print)(&mut again).is_err() || again != self.want {
                    fired().bad = Some("a value printed while it is printed prints differently".to_string());
                }
            }
        }
        if self.want[self.at..].starts_with(s) {
            self.at += s.len();
        } else {
            self.differs = true;
        }
        Ok(())
    }
}

const PRINT_BUDGET: u64 = 2_000_000_000;

fn op_print(op: &Op, how: u8, times: u32, f: &dyn Fn(u8, &mut dyn std::fmt::Write) -> std::fmt::Result) {
    let whole = |what: &str| {
        let (r, _, _) = call(op.id, PRINT_BUDGET, 0, || {
            let mut s = String::new();
            f(how, &mut s).map(|()| s)
        });
        match clean(op, r, what) {
            Some(Ok(s)) => Some(s),
            Some(Err(_)) => {
                viol("print-failure", op, "printing failed although the sink took everything");
                None
            }
            None => None,
        }
    };
    let Some(want) = whole("printing") else { return };
    let texts: &'static [String] = &w().plan.texts;
    let mut writes = 0;
    let mut all_steps = 0;
    for i in 0..times.max(1) {
        // An odd number of times: later and later, with the whole text in the end.
        let mut fault = op.fault;
        if times % 2 == 1 {
            fault.nth = fault.nth.saturating_add(i);
        }
        *fired() = Fired { panic: false, reenter: false, stall: false, lie: false, bad: None };
        let mut k = Sink {
            want: &want,
            at: 0,
            n: 0,
            fault,
            id: op.id,
            texts,
            print: &|w| f(how, w),
            refused: false,
            after: false,
            differs: false,
        };
        let (r, steps, _) = call(op.id, PRINT_BUDGET, 0, || f(how, &mut k));
        count(C_PRINTS, 1);
        let fi = std::mem::replace(fired(), Fired { panic: false, reenter: false, stall: false, lie: false, bad: None });
        if let Some(b) = fi.bad {
            viol("print-differs", op, &b);
        }
        if k.differs {
            viol("print-differs", op, "what arrives at a sink is not what arrives at another one");
        }
        if k.after {
            viol("print-failure", op, "printing went on after the sink had refused");
        }
        match r {
            Res::Injected(i) if i == op.id && fi.panic => {}
            r => {
                let Some(r) = clean(op, r, "printing") else { return };
                if fi.panic {
                    viol("panic-swallowed", op, "the panic of the sink was not delivered to the caller");
                }
                match r {
                    Ok(()) if k.refused => viol("print-failure", op, "the sink refused, and printing reports success"),
                    Err(_) if !k.refused => viol("print-failure", op, "printing failed although the sink took everything"),
                    Ok(()) if k.at != want.len() && !fi.panic => viol("print-differs", op, "a part of the text did not arrive at the sink"),
                    _ => {}
                }
            }
        }
        writes += k.n as u64;
        all_steps += steps;
    }
    // And what comes after is whole again.
    if let Some(s) = whole("printing again") {
        if s != want {
            viol("print-differs", op, "the same value prints differently afterwards");
        }
    }
    log(op, &[all_steps, writes, want.len() as u64]);
}

fn op_vbuild(op: &Op, e: &Arc<ValEnt>, how: u8) {
    let x = e.clone();
    let (r, steps, af) = call(op.id, u64::MAX / 4, alloc_fault(&op.fault), || -> Result<(), String> {
        let before = x.val.render();
        match crate::rebuild::rebuild(x.val.any(), how) {
            Some(r) => r?,
            None => {
                let c = x.val.dup();
                let c2 = c.dup();
                drop(c);
                if !c2.same(&*x.val) {
                    return Err("a clone of a clone differs".into());
                }
            }
        }
        if x.val.render() != before {
            return Err("building from a clone changed the original".into());
        }
        Ok(())
    });
    drop_val(op, Some(x));
    if out_of_memory(op, &r, af) {
        return op_vcheck(op, e);
    }
    if let Some(Err(m)) = clean(op, r, "building from a clone") {
        viol("value-changed", op, &m);
    }
    log(op, &[steps]);
}

pub const FILLS: [&str; 11] = [
    "lost", "zeroed", "blank", "garbage", "other brackets", "control characters", "line ends", "random", "old data", "words",
    "next document",
];

fn fill_tail(t: &str, cut: usize, fill: u8) -> String {
    let mut s = t[..cut].to_string();
    let n = t.len() - cut;
    match fill {
        1 => s.extend(std::iter::repeat('\0').take(n)),
        2 => s.extend(std::iter::repeat(' ').take(n)),
        3 => {
            // Stale bytes of some other file, without a closing parenthesis among them.
            let g = "x(?- ;ab:\n9.\"#";
            s.extend(g.chars().cycle().skip(cut % 7).take(n))
        }
        4 => s.extend("]}>]]".chars().cycle().skip(cut % 5).take(1 + n % 3)),
        5 => s.extend("\u{1a}\u{4}\u{0}\u{1b}\u{7f}".chars().cycle().skip(cut % 5).take(n)),
        6 => s.extend("\n\r\n\t\n\r \u{c}\u{b}".chars().cycle().skip(cut % 9).take(n + 1)),
        7 => {
            let mut r = simcore::Rng::new(cut as u64 ^ ((t.len() as u64) << 32));
            let k = r.range(0, n as u64 + 40);
            for _ in 0..k {
                let c = match r.below(8) {
                    0..=5 => (32 + r.below(95) as u8) as char,
                    6 => *r.pick(&['\n', '\r', '\t', ';', '(', ' ', ':', '\0']),
                    _ => *r.pick(&['\u{ff09}', '\u{e9}', '\u{2029}', '\u{feff}', '\u{fffd}', '\u{1f600}']),
                };
                if c != ')' {
                    s.push(c);
                }
            }
        }
        8 => s.extend(t.chars().skip(cut / 3).filter(|c| *c != ')').take(n + 7)),
        9 => s.push_str(
            ["; end", " end", "\n;]", " eof", "; \n", ":end", "\n; (", "\\", " define", "\"", "#", ";;;"][cut % 12],
        ),
        10 => {
            // Whole documents or sections, which close what they open and nothing else.
            s.push('\n');
            s.push_str(match cut % 8 {
                0..=2 => t.trim_start(),
                3 => "(define (domain d))",
                4 => "(define (problem p) (:domain d) (:init) (:goal ()))\n; end",
                5 => "(:requirements :strips)",
                6 => "(:action a :parameters () :effect (p))",
                _ => "(p) (not (p))",
            });
        }
        _ => {}
    }
    s
}

fn op_cuts(op: &Op, en: u16, ti: u32, from: u32, to: u32, fill: u8) {
    let rf = match w().refs.get(&(en, 0, ti)) {
        Some(r) => *r,
        None => harness_error("no reference"),
    };
    if rf.kind != 0 {
        return;
    }
    let t = text(ti);
    let f = ENTRIES[en as usize].f;
    for cut in from as usize..(to as usize).min(t.len()) {
        if !t.is_char_boundary(cut) {
            continue;
        }
        // A cut that leaves nothing open tears nothing: what follows is then a document of its own.
        if fill == 10 && !t[..cut].lines().any(|l| l.split(';').next().is_some_and(|l| l.contains('('))) {
            continue;
        }
        let s = fill_tail(t, cut, fill);
        let (r, steps, _) = call(op.id, parse_budget(&s), 0, || f(&s, (cut % 3) as u8));
        let Some(out) = clean(op, r, "parsing a torn document") else { continue };
        count(C_CUTS, 1);
        if out.kind == 0 {
            viol(
                "torn-accepted",
                op,
                &format!(
                    "a {} cut at byte {} of {} ({} tail) was accepted: ...{:?}",
                    ENTRIES[en as usize].name,
                    cut,
                    t.len(),
                    FILLS[fill as usize],
                    s[..cut].chars().rev().take(60).collect::<Vec<_>>().into_iter().rev().collect::<String>()
                ),
            );
        }
        log(op, &[cut as u64, steps, out.dig.0]);
    }
}

fn op_damaged(op: &Op, en: u16, route: u8, ti: u32) {
    let t = text(ti);
    let f = ENTRIES[en as usize].f;
    let (r, steps, _) = call(op.id, parse_budget(t), 0, || f(t, route));
    let out = match r {
        Res::Ok(o) => o,
        Res::Foreign(m) => return viol("parser-panic", op, &format!("{} of {:?} panicked: {}", ENTRIES[en as usize].name, short(t), m)),
        _ => return viol("parser-panic", op, "an injected panic came out of a parse"),
    };
    count(C_DAMAGED, 1);
    let c = &mut simcore::sh().counters[simcore::C_MAXRATIO];
    *c = (*c).max(steps * 1000 / parse_budget(t));
    count(if out.kind == 0 { C_PARSE_OK } else { C_PARSE_ERR }, 1);
    if let Some(m) = &out.bad {
        viol("bad-position", op, &format!("{} of {:?}: {}", ENTRIES[en as usize].name, short(t), m));
    }
    if out.kind == 3 {
        viol("bad-position", op, &format!("{} of {:?} asks for more input", ENTRIES[en as usize].name, short(t)));
    }
    log(op, &[steps, out.dig.0, out.kind as u64]);
    let (r, _, _) = call(op.id, NAME_BUDGET * 10, 0, move || drop(out));
    clean(op, r, "dropping a value");
}

/// The text, and the text after changes that mean nothing: the same value.
fn op_variant(op: &Op, en: u16, route: u8, ti: u32, how: u32, seed: u32) {
    let t = text(ti);
    let e = &ENTRIES[en as usize];
    let (r, _, _) = call(op.id, parse_budget(t), 0, || (e.f)(t, 0));
    let Some(a) = clean(op, r, "parsing a document") else { return };
    if a.kind != 0 || a.rest_len != 0 {
        count(C_UNUSED, 1);
        return;
    }
    let stale = how & HOW_STALE != 0;
    let mut s = variant(t, how, seed);
    let at = if stale { t.len() } else { s.len() };
    let (r, steps, _) = call(op.id, parse_budget(&s), 0, || (e.f)(&s, route));
    let Some(b) = clean(op, r, "parsing a document") else { return };
    count(if stale { C_STALE } else { C_TRANSFER }, 1);
    let class = if stale { "tail-changes" } else { "transfer-changes" };
    let what = if stale { "what follows it".to_string() } else { how_names(how) };
    let about = |s: &str| format!("{} {:?} after {}: {:?}", e.name, short(t), what, short(s));
    if b.kind != 0 {
        viol(class, op, &format!("no longer accepted: {}", about(&s)));
    } else {
        let (same, _, _) = call(op.id, parse_budget(&s), 0, || match (&a.value, &b.value) {
            (Some(x), Some(y)) => x.same(&**y),
            _ => false,
        });
        if b.dig != a.dig || clean(op, same, "comparing values") == Some(false) {
            viol(class, op, &format!("parsed to another value: {}", about(&s)));
        }
        // What is left begins where the document ends, give or take white space and comments.
        if !tells_no_rest(route, &s) {
            let left = b.rest_len.min(s.len());
            let end = s.len() - left;
            let rest = s.split_off(end);
            let gap = if end < at { false } else { pieces(&s[at..]).iter().all(|p| matches!(p.0, 1 | 2)) };
            if !gap {
                viol(class, op, &format!("the remainder begins elsewhere ({:?}): {}", short(&rest), about(&s)));
            }
        }
    }
    log(op, &[steps, b.dig.0, b.kind as u64, b.rest_len as u64]);
    let (r, _, _) = call(op.id, NAME_BUDGET * 10, 0, move || drop((a, b)));
    clean(op, r, "dropping values");
}

fn op_marathon(op: &Op, en: u16, ti: u32, times: u32) {
    let rf = match w().refs.get(&(en, 0, ti)) {
        Some(r) => *r,
        None => harness_error("no reference"),
    };
    if rf.kind >= 8 {
        return;
    }
    let f = ENTRIES[en as usize].f;
    for i in 0..times {
        let t = text(ti);
        // Memory runs out a little later each time, or always in the same place.
        let mut fault = op.fault;
        fault.nth = fault.nth.saturating_add(i * [1, 0, 7][fault.nth as usize % 3]);
        let (r, steps, failed) = call(op.id, rf.steps * 8 + 1_000_000, alloc_fault(&fault), || f(t, 0));
        if out_of_memory(op, &r, failed) {
            continue;
        }
        let Some(out) = clean(op, r, "parsing") else { continue };
        count(if out.kind == 0 { C_PARSE_OK } else { C_PARSE_ERR }, 1);
        if let Some(m) = outcome_differs(&out, &rf) {
            viol(
                "depends-on-history",
                op,
                &format!("parse {} of {} {:?} differs: {}", i + 1, ENTRIES[en as usize].name, short(t), m),
            );
        }
        log(op, &[i as u64, steps, out.dig.0]);
        let (r, _, _) = call(op.id, NAME_BUDGET * 10, 0, move || drop(out));
        clean(op, r, "dropping a value");
    }
}

/// Steps of one crowd.
const CROWD_WORK: u64 = 100_000_000;

fn op_crowd(op: &Op, ti: u32, from: u32, n: u32, step: i32) {
    let p = text(ti);
    let nth = |i: u32| format!("{}{}{}", p, from as i64 + i as i64 * step as i64, if i % 2 == 1 { "-" } else { "" });
    let mut held: Vec<(Name, usize)> = Vec::with_capacity(n as usize);
    let mut work = 0;
    for i in 0..n {
        if work > CROWD_WORK {
            // A slow table is not an error.
            break;
        }
        let t = nth(i);
        let (r, steps, _) = call(op.id, NAME_BUDGET, 0, || {
            let m = Name::new(t.as_str());
            let ok = &*m == t.as_str();
            let p = m.as_ptr() as usize;
            (m, p, ok)
        });
        let Some((m, ptr, ok)) = clean(op, r, "making a name") else { return };
        work += steps;
        count(C_NAMES, 1);
        if !ok {
            viol("wrong-text", op, &format!("Name::new of {:?} reads otherwise", short(&t)));
        }
        held.push((m, ptr));
    }
    let n = held.len() as u32;
    let ints = w().plan.interning;
    for i in 0..n {
        let t = nth(i);
        let h = &held[i as usize];
        let (r, _, _) = call(op.id, NAME_BUDGET, 0, || {
            let m = Name::new(t.as_str());
            let ok = &*h.0 == t.as_str() && m == h.0 && h.0 == m && hash_name(&m) == hash_name(&h.0);
            let ok2 = h.0 != held[((i + 1) % n) as usize].0 || n == 1;
            (ok && ok2, m.as_ptr() as usize)
        });
        let Some((ok, ptr)) = clean(op, r, "making a name again") else { return };
        if !ok {
            viol("wrong-text", op, &format!("a name {:?} among {} reads or compares wrongly", short(&t), n));
        }
        if ints {
            count(C_PTRCMP, 1);
            if ptr != h.1 {
                viol("not-shared", op, &format!("a name {:?} among {} is stored again", short(&t), n));
            }
        }
    }
    let (r, _, _) = call(op.id, NAME_BUDGET * 50, 0, move || drop(held));
    clean(op, r, "dropping names");
    log(op, &[n as u64]);
}

struct UnwindGuard {
    text: &'static str,
    ok: &'static Cell<u8>,
}

impl Drop for UnwindGuard {
    fn drop(&mut self) {
        let n = Name::new(self.text);
        let m = Name::new(self.text.to_string());
        self.ok.set(if &*n == self.text && n == m { 1 } else { 2 });
    }
}

fn op_unwind(op: &Op, ti: u32) {
    let t: &'static str = text(ti);
    let ok: &'static Cell<u8> = Box::leak(Box::new(Cell::new(0)));
    let id = op.id;
    let (r, steps, _) = call(op.id, NAME_BUDGET, 0, || {
        let _g = UnwindGuard { text: t, ok };
        std::panic::panic_any(Injected(id));
    });
    match r {
        Res::Injected(i) if i == id => {}
        r => {
            let _: Option<()> = clean(op, r, "unwinding");
        }
    }
    count(C_UNWINDOP, 1);
    if ok.get() != 1 {
        viol("wrong-text", op, "a name made while a panic unwinds is wrong");
    }
    log(op, &[steps]);
}

pub const COMBS: [&str; 10] = [
    "typed_list(parse_name)", "function_typed_list(parse_atomic_function_skeleton)", "literal(parse_name)",
    "atomic_formula(parse_name)", "empty_or(parse_name)", "typed_list(parse_variable)", "literal(parse_term)",
    "atomic_formula(parse_term)", "typed_list in typed_list", "empty_or(typed_list(parse_name))",
];

struct ElemState {
    n: Cell<u32>,
    after: Cell<u32>,
    fired: Cell<bool>,
    at: Cell<usize>,
}

/// The caller's element parser: the library's own, with misfortune at the `nth` call.
fn elem<'a, 'b, T>(
    f: Fault,
    id: u32,
    st: &'b ElemState,
    texts: &'static [String],
    inner: impl Fn(Span<'a>) -> ParseResult<'a, T> + Clone + 'b,
) -> impl FnMut(Span<'a>) -> ParseResult<'a, T> + Clone + 'b {
    move |i: Span<'a>| {
        let n = st.n.get() + 1;
        st.n.set(n);
        if st.fired.get() {
            st.after.set(st.after.get() + 1);
        }
        if f.site == SITE_ELEM && f.nth == n {
            let e = || ParseError::<'a> { errors: vec![(i, GreedyErrorKind::Nom(nom::error::ErrorKind::TooLarge))] };
            match f.what {
                What::Failure => {
                    st.fired.set(true);
                    st.at.set(i.location_offset());
                    simcore::count(C_FATAL, 1);
                    return Err(nom::Err::Failure(e()));
                }
                What::Incomplete => {
                    st.fired.set(true);
                    simcore::count(C_INCOMPLETE, 1);
                    return Err(nom::Err::Incomplete(nom::Needed::new(4242)));
                }
                What::Soft => {
                    simcore::count(C_SOFTERR, 1);
                    return Err(nom::Err::Error(e()));
                }
                _ => maybe_fault(&f, SITE_ELEM, n, id, texts),
            }
        }
        inner(i)
    }
}

/// What a combinator returned, as data.
struct CombOut {
    out: POut,
    /// The failure carried exactly the element parser's error.
    exact: bool,
}

fn comb_out<'a, T: std::fmt::Debug + Clone + PartialEq + 'static>(
    r: ParseResult<'a, T>,
    t: &'a str,
    at: usize,
) -> CombOut {
    let exact = match &r {
        Err(nom::Err::Failure(e)) => {
            e.errors.len() == 1
                && e.errors[0].0.location_offset() == at
                && e.errors[0].1 == GreedyErrorKind::Nom(nom::error::ErrorKind::TooLarge)
        }
        Err(nom::Err::Incomplete(nom::Needed::Size(n))) => n.get() == 4242,
        _ => false,
    };
    CombOut { out: reduce(r, t), exact }
}

fn run_comb(c: u8, t: &str, f: Fault, id: u32, st: &ElemState, texts: &'static [String]) -> CombOut {
    use pddl::parsers::*;
    let s = Span::new(t);
    macro_rules! go {
        ($p:expr) => {{
            let mut p = $p;
            let r = p(s);
            comb_out(r, t, st.at.get())
        }};
    }
    match c {
        0 => go!(typed_list(elem(f, id, st, texts, |i| parse_name(i)))),
        1 => go!(function_typed_list(elem(f, id, st, texts, |i| parse_atomic_function_skeleton(i)))),
        2 => go!(literal(elem(f, id, st, texts, |i| parse_name(i)))),
        3 => go!(atomic_formula(elem(f, id, st, texts, |i| parse_name(i)))),
        4 => go!(empty_or(elem(f, id, st, texts, |i| parse_name(i)))),
        5 => go!(typed_list(elem(f, id, st, texts, |i| parse_variable(i)))),
        6 => go!(literal(elem(f, id, st, texts, |i| parse_term(i)))),
        7 => go!(atomic_formula(elem(f, id, st, texts, |i| parse_term(i)))),
        8 => {
            // The element parser is itself a list in parentheses.
            let inner = elem(f, id, st, texts, |i| parse_name(i));
            go!(typed_list(move |i: Span| {
                let (r, _) = nom::character::complete::char('(')(i)?;
                let (r, v) = typed_list(inner.clone())(r)?;
                let (r, _) = nom::character::complete::char(')')(r)?;
                Ok((r, v))
            }))
        }
        _ => {
            let inner = elem(f, id, st, texts, |i| parse_name(i));
            go!(empty_or(typed_list(inner)))
        }
    }
}

pub fn comb_ref(c: u8, t: &str) -> (POut, u32) {
    let st = ElemState { n: Cell::new(0), after: Cell::new(0), fired: Cell::new(false), at: Cell::new(0) };
    let o = run_comb(c, t, NOFAULT, 0, &st, &[]);
    (o.out, st.n.get())
}

fn op_comb(op: &Op, c: u8, ti: u32) {
    let t: &'static str = text(ti);
    let texts: &'static [String] = &w().plan.texts;
    let rf = w().refs.get(&(COMB_BASE + c as u16, 0, ti)).copied();
    *fired() = Fired { panic: false, reenter: false, stall: false, lie: false, bad: None };
    let overlap = any_stalled();
    let st = ElemState { n: Cell::new(0), after: Cell::new(0), fired: Cell::new(false), at: Cell::new(usize::MAX) };
    let f = op.fault;
    let af = alloc_fault(&f);
    let stp = &st;
    let (r, steps, afired) =
        call(op.id, parse_budget(t), af, move || run_comb(c, t, f, op.id, stp, texts));
    let fi = std::mem::replace(fired(), Fired { panic: false, reenter: false, stall: false, lie: false, bad: None });
    if let Some(b) = fi.bad {
        viol("wrong-text", op, &b);
    }
    let o = match r {
        Res::Ok(o) => {
            if fi.panic {
                viol("panic-swallowed", op, &format!("{} swallowed the panic of its element parser", COMBS[c as usize]));
            }
            o
        }
        Res::Injected(i) if i == op.id && fi.panic => {
            log(op, &[1, steps]);
            return;
        }
        Res::AllocFail if afired => {
            log(op, &[2, steps]);
            return;
        }
        Res::Injected(i) => return viol("foreign-panic", op, &format!("met the panic injected in operation {}", i)),
        Res::AllocFail => return viol("foreign-panic", op, "met an allocation failure of another call"),
        Res::Foreign(m) => {
            if st.fired.get() {
                viol("fatal-swallowed", op, &format!("{} turned a fatal element error into a panic: {}", COMBS[c as usize], m));
            }
            return viol("foreign-panic", op, &format!("{} panicked: {}", COMBS[c as usize], m));
        }
    };
    if overlap {
        count(C_STALL_OVERLAP, 1);
    }
    if let Some(m) = &o.out.bad {
        viol("bad-position", op, m);
    }
    if st.fired.get() {
        let want = if matches!(f.what, What::Failure) { 2 } else { 3 };
        if o.out.kind != want || !o.exact {
            viol(
                "fatal-swallowed",
                op,
                &format!(
                    "{} on {:?}: element call {} ended the parse with {:?}, but the caller got kind {}{}",
                    COMBS[c as usize],
                    short(t),
                    f.nth,
                    f.what,
                    o.out.kind,
                    if o.out.kind == want { " with another error" } else { "" }
                ),
            );
        }
        if st.after.get() > 0 {
            viol("fatal-swallowed", op, &format!("{} went on after a fatal element error", COMBS[c as usize]));
        }
    } else if !matches!(f.what, What::Soft) || f.nth > st.n.get() {
        if let Some(rf) = rf {
            if rf.kind < 8 {
                if let Some(m) = outcome_differs(&o.out, &rf) {
                    viol("depends-on-history", op, &format!("{} {:?} alone gives another result: {}", COMBS[c as usize], short(t), m));
                }
            }
        }
    }
    log(op, &[0, steps, o.out.dig.0, o.out.kind as u64, st.n.get() as u64]);
    let (r, _, _) = call(op.id, NAME_BUDGET * 10, 0, move || drop(o));
    clean(op, r, "dropping a value");
}

/// References to combinators are kept under entry numbers from here on.
pub const COMB_BASE: u16 = 1000;

pub fn run_op(op: &Op) {
    match &op.k {
        OpK::Name { route, text, slot } => op_name(op, *route, *text, *slot),
        OpK::Gather { how, text, n, slot } => op_gather(op, *how, *text, *n, *slot),
        OpK::Hash { slot: s } => {
            if let Some(e) = slot(*s) {
                op_hash(op, &e);
                drop_held(op, Some(e));
            }
        }
        OpK::Drop { slot } => {
            let x = w().slots[*slot as usize].take();
            drop_held(op, x);
        }
        OpK::Clone { src, dst } => {
            if let Some(e) = slot(*src) {
                let x = e.clone();
                let (r, _, _) = call(op.id, NAME_BUDGET, 0, || {
                    let h = x.held.clone();
                    let p = h.str().as_ptr() as usize;
                    (h, p)
                });
                drop_held(op, Some(x));
                let Some((h, p)) = clean(op, r, "cloning a name") else { return };
                let n = Arc::new(NameEnt { held: h, text: e.text, interned: e.interned, ptr: p, route: e.route });
                if e.interned && !text(e.text).is_empty() && p != e.ptr {
                    viol("not-shared", op, "a clone is stored apart from its original");
                }
                drop_held(op, Some(e));
                let old = w().slots[*dst as usize].replace(n);
                drop_held(op, old);
            }
        }
        OpK::Check { slot: s } => {
            if let Some(e) = slot(*s) {
                op_check(op, &e);
                drop_held(op, Some(e));
            }
        }
        OpK::Cmp { a, b } => {
            if let (Some(x), Some(y)) = (slot(*a), slot(*b)) {
                op_cmp(op, &x, &y);
                drop_held(op, Some(x));
                drop_held(op, Some(y));
            }
        }
        OpK::Parse { entry, route, text, buf, vslot } => op_parse(op, *entry, *route, *text, *buf, *vslot),
        OpK::Comb { comb, text } => op_comb(op, *comb, *text),
        OpK::VClone { src, dst } => {
            if let Some(e) = vslot(*src) {
                let x = e.clone();
                let (r, _, af) = call(op.id, u64::MAX / 4, alloc_fault(&op.fault), || x.val.dup());
                drop_val(op, Some(x));
                if out_of_memory(op, &r, af) {
                    op_vcheck(op, &e);
                    return drop_val(op, Some(e));
                }
                let Some(v) = clean(op, r, "cloning a value") else { return };
                let n = Arc::new(ValEnt { val: v, entry: e.entry, route: e.route, text: e.text, dig: e.dig });
                drop_val(op, Some(e));
                let old = w().vslots[*dst as usize].replace(n);
                drop_val(op, old);
            }
        }
        OpK::VDrop { slot } => {
            let x = w().vslots[*slot as usize].take();
            drop_val(op, x);
        }
        OpK::VCheck { slot } => {
            if let Some(e) = vslot(*slot) {
                op_vcheck(op, &e);
                drop_val(op, Some(e));
            }
        }
        OpK::VBuild { slot, how } => {
            if let Some(e) = vslot(*slot) {
                op_vbuild(op, &e, *how);
                drop_val(op, Some(e));
            }
        }
        OpK::VCmp { a, b } => {
            if let (Some(x), Some(y)) = (vslot(*a), vslot(*b)) {
                op_vcmp(op, &x, &y);
                drop_val(op, Some(x));
                drop_val(op, Some(y));
            }
        }
        OpK::Print { slot: s, how, name: true, times } => {
            if let Some(e) = slot(*s) {
                let x = e.clone();
                op_print(op, *how, *times, &|h, w| e.held.print(h, w));
                drop_held(op, Some(x));
                drop_held(op, Some(e));
            }
        }
        OpK::Print { slot, how, times, .. } => {
            if let Some(e) = vslot(*slot) {
                let x = e.clone();
                op_print(op, *how, *times, &|h, w| e.val.print(h, w));
                drop_val(op, Some(x));
                drop_val(op, Some(e));
            }
        }
        OpK::Cuts { entry, text, from, to, fill } => op_cuts(op, *entry, *text, *from, *to, *fill),
        OpK::Damaged { entry, route, text, .. } => op_damaged(op, *entry, *route, *text),
        OpK::Variant { entry, route, text, how, seed } => op_variant(op, *entry, *route, *text, *how, *seed),
        OpK::Clock { ns } => clock_jump(*ns),
        OpK::Unwind { text } => op_unwind(op, *text),
        OpK::AtExit { .. } => at_exit(op),
        OpK::Marathon { entry, text, times } => op_marathon(op, *entry, *text, *times),
        OpK::Crowd { text, from, n, step } => op_crowd(op, *text, *from, *n, *step),
    }
}

// ---- thread ends -----------------------------------------------------------------------------------------------

/// Registered first, so destroyed last: passes the turn on.
struct Final(Cell<bool>);

impl Drop for Final {
    fn drop(&mut self) {
        if self.0.get() {
            end_call();
            thread_done();
        }
    }
}

/// Registered second: destroyed after any thread-local state the library may have come to own.
struct ExitOps(Cell<Vec<Op>>);

impl Drop for ExitOps {
    fn drop(&mut self) {
        let ops = self.0.take();
        if ops.is_empty() {
            return;
        }
        end_call();
        for op in &ops {
            if let OpK::AtExit { text: ti } = op.k {
                let t = text(ti);
                let (r, steps, _) = call(op.id, NAME_BUDGET, 0, || {
                    let n = Name::new(t.as_str());
                    let v = Variable::from(t.as_str());
                    &*n == t.as_str() && *v == n
                });
                if clean(op, r, "making a name at the end of a thread") != Some(true) {
                    viol("wrong-text", op, "a name made at the end of a thread is wrong");
                }
                count(C_TLSOP, 1);
                log(op, &[steps]);
            }
        }
        drop(ops);
        begin_call(OP_EXIT + 3, NAME_BUDGET);
    }
}

thread_local! {
    static FINAL: Final = const { Final(Cell::new(false)) };
    static EXITS: ExitOps = const { ExitOps(Cell::new(Vec::new())) };
}

fn at_exit(op: &Op) {
    EXITS.with(|e| {
        let mut v = e.0.take();
        v.push(op.clone());
        e.0.set(v);
    });
}

fn thread_body(tid: usize) {
    FINAL.with(|f| f.0.set(true));
    EXITS.with(|_| ());
    thread_start(tid);
    for op in &w().plan.threads[tid] {
        run_op(op);
    }
    // From here to the last thread-local destructor the scheduler stays in charge.
    begin_call(OP_EXIT, NAME_BUDGET);
}

fn clear_slots(op: &Op) {
    for i in 0..w().slots.len() {
        let x = w().slots[i].take();
        drop_held(op, x);
    }
    for i in 0..w().vslots.len() {
        let x = w().vslots[i].take();
        drop_val(op, x);
    }
}

/// Sound of every type that must be usable from any thread.
pub mod sendsync {
    use std::marker::PhantomData;
    pub struct Probe<T>(PhantomData<T>);
    pub trait Fallback {
        const IS: bool = false;
    }
    impl<T> Fallback for Probe<T> {}
    impl<T: Send + Sync> Probe<T> {
        pub const IS: bool = true;
    }
    macro_rules! list {
        ($($t:ident),* $(,)?) => {
            pub fn all() -> Vec<(&'static str, bool)> {
                vec![ $( (stringify!($t), <Probe<pddl::$t>>::IS), )* ]
            }
        };
    }
    list!(
        Domain, Problem, Name, Variable, Predicate, PrimitiveType, Type, FunctionSymbol, ActionSymbol,
        DurativeActionSymbol, PreferenceName, Number, Term, Objects, Types, Constants, Functions, GoalDefinition,
        Effects, StructureDef, ActionDefinition, DurativeActionDefinition, DerivedPredicate, InitElements, GoalDef,
        MetricSpec, Requirements, PrefConGDs, ConGD,
    );
}

/// What one text parses to when nothing else ever happened in the process; the result goes to the shared block.
pub fn run_ref(entry: u16, route: u8, text: &'static str) -> ! {
    sched_init(0, Knobs::default(), None);
    unsafe { NAMES0 = sh().counters[C_NAMES] };
    let budget = parse_budget(&text);
    let (r, steps, _) = call(0, budget, 0, || {
        if entry >= COMB_BASE {
            comb_ref((entry - COMB_BASE) as u8, text).0
        } else {
            (ENTRIES[entry as usize].f)(text, route)
        }
    });
    let b = &mut sh().refbuf;
    match r {
        Res::Ok(o) => {
            *b = [o.kind as u64, o.dig.0, o.dig.1, o.rest_off as u64, o.rest_len as u64, o.rest_line as u64, steps, 1];
        }
        _ => *b = [8, 0, 0, 0, 0, 0, steps, 1],
    }
    finish_run(ST_OK, "ok", "");
}

/// Runs the plan to its end and never returns.
pub fn run(plan: &'static Plan, refs: HashMap<RefKey, Ref>, trace: Option<&[Decision]>, verbose: bool) -> ! {
    let mut knobs = plan.knobs.clone();
    if trace.is_some() {
        knobs.strategy = Strategy::Replay;
    }
    let n = plan.threads.len();
    sched_init(n, knobs, trace);
    unsafe { NAMES0 = sh().counters[C_NAMES] };
    unsafe {
        *(&raw mut WORLD) = Some(Box::new(World {
            plan,
            refs,
            slots: (0..plan.slots).map(|_| None).collect(),
            vslots: (0..plan.vslots).map(|_| None).collect(),
            buf_busy: vec![false; N_BUFS],
            leaked: HashMap::default(),
            log: 0,
            verbose,
        }));
    }
    tls().cover.set(true);
    let fin = Op { id: OP_EXIT - 1, k: OpK::Clock { ns: 0 }, fault: NOFAULT };
    if plan.prop == "C10" {
        for (t, ok) in sendsync::all() {
            if !ok {
                viol("not-send", &fin, &format!("{} values cannot be moved and shared between threads", t));
            }
        }
    }
    let mut lives: Vec<(i64, i64)> = Vec::new();
    for round in 0..plan.rounds {
        set_round(round);
        // In several rounds, this is the work of the one thread that lives through them all.
        if round == 0 || plan.mem_from > 0 {
            for op in &plan.pre {
                run_op(op);
            }
        }
        if n > 0 {
            let mut hs = Vec::new();
            for t in 0..n {
                thread_again(t);
                let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || thread_body(t));
                hs.push(h.unwrap_or_else(|_| harness_error("could not start a thread")));
            }
            run_threads();
            for h in hs {
                if h.join().is_err() {
                    harness_error("a simulated thread ended in a panic outside its operations");
                }
            }
        }
        if plan.mem_from > 0 {
            clear_slots(&fin);
            count(C_ROUNDS, 1);
            lives.push(simcore::alloc::live());
        }
    }
    if plan.mem_from > 0 && plan.rounds >= plan.mem_from + 5 {
        // What a program warms up (tables, caches) may settle; what goes on growing is lost.
        let early = &lives[plan.mem_from as usize - 1..plan.mem_from as usize + 2];
        let late = &lives[lives.len() - 3..];
        let grew = |f: fn(&(i64, i64)) -> i64| {
            let (e, l) = (early.iter().map(f).max().unwrap(), late.iter().map(f).min().unwrap());
            (l > e).then_some((e, l))
        };
        if let Some((e, l)) = grew(|x| x.0) {
            viol("memory-grows", &fin, &format!("{} bytes live after {} rounds of the same work, {} after {}", e, plan.mem_from, l, plan.rounds));
        }
        if let Some((e, l)) = grew(|x| x.1) {
            viol("memory-grows", &fin, &format!("{} blocks live after {} rounds of the same work, {} after {}", e, plan.mem_from, l, plan.rounds));
        }
    }
    for op in &plan.post {
        run_op(op);
    }
    // Everything still held reads, compares and is stored as it should.
    let live: Vec<u32> = (0..plan.slots).filter(|i| w().slots[*i as usize].is_some()).take(24).collect();
    for &i in &live {
        let e = slot(i).unwrap();
        op_check(&fin, &e);
        for &j in &live {
            if j >= i {
                let f = slot(j).unwrap();
                op_cmp(&fin, &e, &f);
            }
        }
    }
    let vl: Vec<u32> = (0..plan.vslots).filter(|i| w().vslots[*i as usize].is_some()).take(12).collect();
    for &i in &vl {
        let e = vslot(i).unwrap();
        op_vcheck(&fin, &e);
        for &j in &vl {
            if j > i {
                let f = vslot(j).unwrap();
                if f.entry == e.entry && text(f.text) == text(e.text) {
                    op_vcmp(&fin, &e, &f);
                }
            }
        }
    }
    finish_run(ST_OK, "ok", "");
}
