//! From a property and a seed to a plan: who does what, which faults happen, how the schedule is drawn.
use crate::entries::*;
use crate::exec::{COMBS, FILLS, GATHERS, N_BUFS};
use crate::gen::*;
use crate::held::*;
use crate::plan::*;
use simcore::prng::mix;
use simcore::{Knobs, Rng, Strategy};

pub const PROPS: [&str; 13] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C13", "C22", "C23"];

fn log_uniform(r: &mut Rng, lo: u64, hi: u64) -> u64 {
    let (a, b) = ((lo as f64).ln(), (hi as f64).ln());
    let u = r.below(1 << 30) as f64 / (1u64 << 30) as f64;
    (a + (b - a) * u).exp().round() as u64
}

/// `fine`: operations of some hundred steps (names); otherwise of some ten thousand (documents).
fn knobs(r: &mut Rng, fine: bool) -> Knobs {
    let (lo, hi) = if fine { (2, 600) } else { (40, 60_000) };
    let strategy = match r.below(16) {
        0 => Strategy::Serial,
        1..=6 => Strategy::Uniform { mean: log_uniform(r, lo, hi) },
        7..=10 => Strategy::Pct { mean: log_uniform(r, lo * 4, hi * 4) },
        _ => {
            let m = if fine { *r.pick(&[3u64, 7, 15, 31]) } else { *r.pick(&[63u64, 255, 1023, 4095]) };
            Strategy::Hot { mask: m, key: r.u64() >> 20 }
        }
    };
    Knobs {
        seed: r.u64(),
        strategy,
        spurious: *r.pick(&[0, 0, 0, 8, 64, 160]),
        between: *r.pick(&[0, 8, 64, 128]),
        entropy: match r.below(8) {
            0 => 0,
            1 => u64::MAX,
            _ => r.u64() | 2,
        },
        clock_base: *r.pick(&[0u64, 1_700_000_000_000_000_000, 1_700_000_000_000_000_000, 2_147_483_646_000_000_000, 4_294_967_294_000_000_000]),
        tick: *r.pick(&[1u64, 1000, 1000, 1_000_000, 1_000_000_000]),
        clock_jitter_s: *r.pick(&[0u64, 0, 1, 3600, 86_400 * 400]),
    }
}

struct B {
    r: Rng,
    next: u32,
    p: Plan,
}

impl B {
    fn new(prop: &str, family: &str, r: Rng, fine: bool, interning: bool) -> B {
        let mut r = r;
        let k = knobs(&mut r, fine);
        B {
            r,
            next: 0,
            p: Plan {
                prop: prop.into(),
                family: family.into(),
                interning,
                knobs: k,
                rounds: 1,
                mem_from: 0,
                slots: 0,
                vslots: 0,
                texts: vec![],
                pre: vec![],
                threads: vec![],
                post: vec![],
            },
        }
    }
    fn op(&mut self, k: OpK) -> Op {
        self.opf(k, NOFAULT)
    }
    fn opf(&mut self, k: OpK, fault: Fault) -> Op {
        self.next += 1;
        Op { id: self.next, k, fault }
    }
    /// Now and then, memory runs out in the middle of an operation on a value.
    fn memory_out(&mut self) -> Fault {
        if self.r.chance(1, 8) {
            Fault { site: SITE_ALLOC, nth: log_uniform(&mut self.r, 1, 400) as u32, what: What::None }
        } else {
            NOFAULT
        }
    }
    fn text(&mut self, t: String) -> u32 {
        if let Some(i) = self.p.texts.iter().position(|x| *x == t) {
            return i as u32;
        }
        self.p.texts.push(t);
        self.p.texts.len() as u32 - 1
    }
    fn slot(&mut self) -> u32 {
        self.r.below(self.p.slots as u64) as u32
    }
    fn vslot(&mut self) -> u32 {
        self.r.below(self.p.vslots as u64) as u32
    }
    fn some_text(&mut self, nt: usize) -> u32 {
        // A few texts get most of the traffic.
        if self.r.chance(1, 2) {
            self.r.below(nt.min(2) as u64) as u32
        } else {
            self.r.below(nt as u64) as u32
        }
    }
    fn n_threads(&mut self) -> usize {
        *self.r.pick(&[1usize, 2, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 8])
    }
    fn route(&mut self, prop: &str) -> u8 {
        match prop {
            "C02" => {
                if self.r.chance(1, 12) {
                    ROUTE_STATIC
                } else {
                    let x = *self.r.pick(&[0u8, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 24, 25]);
                    x
                }
            }
            _ => self.r.below(ROUTES.len() as u64) as u8,
        }
    }
    fn name_fault(&mut self, prop: &str, nt: usize) -> (Option<u8>, Fault) {
        // (route to use, fault)
        let custom = *self.r.pick(&ROUTE_CUSTOM);
        let site = *self.r.pick(&[SITE_ASREF, SITE_ASREF, SITE_INTO, SITE_INTO, SITE_DROP]);
        let nth = if site == SITE_ASREF { *self.r.pick(&[1u32, 1, 1, 2, 3]) } else { 1 };
        match prop {
            "C02" => {
                if self.r.chance(1, 8) {
                    let o = self.r.below(nt as u64) as u32;
                    return (Some(custom), Fault { site: SITE_INTO, nth: 1, what: What::Lie(o) });
                }
                if self.r.chance(1, 20) {
                    return (Some(custom), Fault { site, nth, what: What::Reenter(self.r.below(nt as u64) as u32) });
                }
            }
            "C03" => match self.r.below(10) {
                0 | 1 => return (Some(custom), Fault { site, nth, what: What::Panic }),
                2 | 3 => {
                    let nth = *self.r.pick(&[1u32, 1, 2, 2, 3, 4, 5, 6, 8]);
                    return (None, Fault { site: SITE_ALLOC, nth, what: What::None });
                }
                4 if self.r.chance(1, 3) => {
                    return (Some(custom), Fault { site, nth, what: What::Reenter(self.r.below(nt as u64) as u32) });
                }
                _ => {}
            },
            "C04" => match self.r.below(8) {
                0 | 1 => return (Some(custom), Fault { site, nth, what: What::Stall }),
                2 | 3 => {
                    let t = self.r.below(nt as u64) as u32;
                    return (Some(custom), Fault { site, nth, what: What::Reenter(t) });
                }
                4 if self.r.chance(1, 4) => return (Some(custom), Fault { site, nth, what: What::Panic }),
                _ => {}
            },
            "C01" => {
                if self.r.chance(1, 16) {
                    return (Some(custom), Fault { site, nth, what: What::Reenter(self.r.below(nt as u64) as u32) });
                }
                if self.r.chance(1, 30) {
                    return (Some(custom), Fault { site, nth, what: What::Panic });
                }
                if self.r.chance(1, 40) {
                    let t = self.r.below(nt as u64) as u32;
                    return (Some(custom), Fault { site: SITE_INTO, nth: 1, what: What::Lie(t) });
                }
            }
            _ => {}
        }
        (None, NOFAULT)
    }
    fn name_op(&mut self, prop: &str, nt: usize) -> Op {
        let text = self.some_text(nt);
        let (rt, fault) = self.name_fault(prop, nt);
        let route = rt.unwrap_or_else(|| self.route(prop));
        let slot = if self.r.chance(1, 10) { NO_SLOT } else { self.slot() };
        self.opf(OpK::Name { route, text, slot }, fault)
    }
    /// A small list of names as a document, parsed.
    fn small_doc(&mut self, prop: &str, nt: usize) -> Op {
        let k = self.r.range(1, 5);
        let mut l = Vec::new();
        for _ in 0..k {
            let i = self.some_text(nt) as usize;
            let t = self.p.texts[i].clone();
            l.push(if grammar_name(&t) { t } else { format!("n{}", i) });
        }
        let (e, t) = match self.r.below(5) {
            0 => ("Objects", format!("(:objects {} - {})", l.join(" "), l[0])),
            1 => ("Types", format!("(:types {})", l.join(" "))),
            2 => ("Term", l[0].clone()),
            3 => ("Variable", format!("?{}", l[0])),
            _ => ("Predicate", l[0].clone()),
        };
        let text = self.text(t);
        let vslot = if self.p.vslots == 0 || self.r.chance(1, 2) { NO_SLOT } else { self.vslot() };
        let route = self.r.below(N_PROUTES as u64) as u8;
        let buf = self.r.below(N_BUFS as u64) as u32;
        let fault = if route == R_INTO { self.own_fault(prop, nt, SITE_INTO, 1) } else { NOFAULT };
        self.opf(OpK::Parse { entry: entry_id(e), route, text, buf, vslot }, fault)
    }
    /// A fault as in `name_fault`, in another place of the caller's code.
    fn own_fault(&mut self, prop: &str, nt: usize, site: u8, max: u64) -> Fault {
        let (_, f) = self.name_fault(prop, nt);
        match f.what {
            What::Lie(_) => NOFAULT,
            What::None => f,
            what => Fault { site, nth: self.r.range(1, max) as u32, what },
        }
    }
    fn gather(&mut self, prop: &str, nt: usize) -> Op {
        let text = self.some_text(nt);
        let n = *self.r.pick(&[0u32, 1, 2, 2, 3, 5, 8]);
        let how = self.r.below(GATHERS as u64) as u8;
        let slot = if self.r.chance(1, 4) { NO_SLOT } else { self.slot() };
        let fault = self.own_fault(prop, nt, SITE_ITER, n as u64 + 1);
        self.opf(OpK::Gather { how, text, n, slot }, fault)
    }
    fn any_name_op(&mut self, prop: &str, nt: usize) -> Op {
        match self.r.below(100) {
            0..=54 => self.name_op(prop, nt),
            55..=62 => {
                let slot = self.slot();
                self.op(OpK::Drop { slot })
            }
            63..=68 => {
                let (src, dst) = (self.slot(), self.slot());
                self.op(OpK::Clone { src, dst })
            }
            69..=78 => {
                let slot = self.slot();
                self.op(OpK::Check { slot })
            }
            79..=86 => {
                let (a, b) = (self.slot(), self.slot());
                self.op(OpK::Cmp { a, b })
            }
            87..=89 => self.gather(prop, nt),
            90 => {
                let slot = self.slot();
                let fault = self.own_fault(prop, nt, SITE_HASH, 3);
                self.opf(OpK::Hash { slot }, fault)
            }
            91..=94 => self.small_doc(prop, nt),
            95 => {
                let text = self.some_text(nt);
                let n = *self.r.pick(&[2u32, 5, 12, 30]);
                let from = *self.r.pick(&[0u32, 1, 8, 95, 990]);
                let step = *self.r.pick(&[1i32, 1, -1, 7]);
                self.op(OpK::Crowd { text, from, n, step })
            }
            96 => {
                let ns = *self.r.pick(&[1u64, 1_000_000, 3_600_000_000_000, 86_400_000_000_000 * 365]);
                self.op(OpK::Clock { ns })
            }
            97 | 98 => {
                let text = self.some_text(nt);
                if self.r.chance(if prop == "C03" { 3 } else { 1 }, 4) {
                    self.op(OpK::Unwind { text })
                } else {
                    self.op(OpK::AtExit { text })
                }
            }
            _ => self.name_op(prop, nt),
        }
    }
}

fn names_plan(prop: &str, mut r: Rng, interning: bool) -> Plan {
    let big = r.chance(1, 60);
    let mut b = B::new(prop, "names", Rng::new(r.u64()), true, interning);
    let nt = if big { 300 } else { *b.r.pick(&[1usize, 1, 2, 2, 3, 5, 8, 16, 40]) };
    let ts = any_texts(&mut b.r, nt);
    for t in ts {
        b.p.texts.push(t);
    }
    // Some of the texts must be names of the grammar, or the parsing routes would not be taken.
    for i in 0..nt {
        if b.r.chance(1, 3) {
            let f = b.r.below(6);
            b.p.texts[i] = pddl_name(&mut b.r, f, i);
        }
    }
    b.p.slots = *b.r.pick(&[1u32, 2, 4, 8, 16, 32]);
    b.p.vslots = *b.r.pick(&[0u32, 0, 2, 4]);
    if big {
        b.p.slots = 64;
    }
    // An interner already full of other names, or not yet set up at all.
    match b.r.below(4) {
        0 => {
            let n = b.r.range(1, 6);
            for _ in 0..n {
                let mut o = b.name_op(prop, nt);
                o.fault = NOFAULT;
                b.p.pre.push(o);
            }
        }
        1 if b.r.chance(1, 3) => {
            let text = b.text("w".into());
            let n = *b.r.pick(&[3u32, 40, 200, 300, 600]);
            let o = b.op(OpK::Crowd { text, from: 0, n, step: 1 });
            b.p.pre.push(o);
        }
        _ => {}
    }
    let n = b.n_threads();
    let per = *b.r.pick(&[1u64, 2, 3, 4, 6, 10, 20]);
    let same_start = b.r.chance(1, 4);
    for _ in 0..n {
        let mut ops = Vec::new();
        if same_start {
            // All threads make the same name first.
            let route = b.route("C02");
            let slot = b.slot();
            ops.push(b.op(OpK::Name { route, text: 0, slot }));
        }
        let k = if big { 60 } else { b.r.range(1, per) };
        for _ in 0..k {
            ops.push(b.any_name_op(prop, nt));
        }
        b.p.threads.push(ops);
    }
    // Afterwards everything works as if nothing had happened.
    let k = b.r.range(0, 4);
    for _ in 0..k {
        let mut o = b.any_name_op(prop, nt);
        o.fault = NOFAULT;
        b.p.post.push(o);
    }
    if matches!(prop, "C03" | "C04" | "C02") {
        let text = b.some_text(nt);
        let route = b.route(prop);
        let slot = b.slot();
        let o = b.op(OpK::Name { route, text, slot });
        b.p.post.push(o);
    }
    b.p
}

/// Documents come from a pool, so that what they parse to alone is computed once per worker.
const POOL: u64 = 3000;

pub fn pool_doc(k: u64) -> (u16, String) {
    let seed = mix(&[0xd0c, k]);
    let mut r = Rng::new(seed);
    let mut g = G::new(r.u64());
    let e = match r.below(100) {
        0..=24 => entry_id("Domain"),
        25..=44 => entry_id("Problem"),
        _ => r.below(ENTRIES.len() as u64) as u16,
    };
    let mut t = g.entry(ENTRIES[e as usize].name);
    if t.len() > 3000 {
        g.depth = 1;
        g.wide = 1;
        t = g.entry(ENTRIES[e as usize].name);
    }
    if r.chance(1, 4) {
        let mut g2 = G::new(r.u64());
        let other = g2.entry(ENTRIES[e as usize].name);
        t = damage_tame(&mut r, &t, &other).0;
        if t.len() > 4000 {
            t = t.chars().take(2000).collect();
        }
    } else if r.chance(1, 6) {
        // Same length, one character changed: what a lookup by length or prefix would confuse.
        let mut c: Vec<char> = t.chars().collect();
        if !c.is_empty() {
            let i = r.us(c.len());
            if c[i].is_ascii_alphanumeric() {
                c[i] = if c[i] == 'z' { 'y' } else { 'z' };
            }
        }
        t = c.into_iter().collect();
    }
    (e, t)
}

impl B {
    fn doc(&mut self) -> (u16, u32) {
        let k = self.r.below(POOL);
        let (e, t) = pool_doc(k);
        if self.r.chance(1, 8) {
            // The same after a transfer in text mode, mostly with comments added first.
            let kinds: &[u32] = *self.r.pick(&[&[9u32, 10, 12][..], &[12], &[]]);
            let mut how = 0;
            for k in kinds {
                how |= 1 << k;
            }
            let v = variant(&t, how, self.r.u64() as u32);
            let some = if self.r.chance(1, 2) { 3 } else { TRANSFER.len() as u64 };
            let ends = 1 << self.r.below(some);
            let v = variant(&v, ends, self.r.u64() as u32);
            if v.len() <= 12_000 {
                return (e, self.text(v));
            }
        }
        (e, self.text(t))
    }
    fn docs(&mut self, n: usize) -> Vec<(u16, u32)> {
        let mut v: Vec<(u16, u32)> = Vec::new();
        for _ in 0..n {
            let d = self.doc();
            v.push(d);
            if self.r.chance(1, 4) {
                // A sibling of the same length, the same ending or the same beginning.
                let t = self.p.texts[d.1 as usize].clone();
                let mut c: Vec<char> = t.chars().collect();
                let n = c.len();
                if n > 2 {
                    let idx: Vec<usize> = (0..n).filter(|i| c[*i].is_ascii_alphanumeric()).collect();
                    if !idx.is_empty() {
                        let i = match self.r.below(3) {
                            0 => idx[0],
                            1 => *idx.last().unwrap(),
                            _ => *self.r.pick(&idx),
                        };
                        let x = c[i];
                        c[i] = match x {
                            '0'..='8' => (x as u8 + 1) as char,
                            'a'..='y' | 'A'..='Y' => (x as u8 + 1) as char,
                            '9' => '1',
                            _ => 'q',
                        };
                        let t2: String = c.into_iter().collect();
                        let ti = self.text(t2);
                        v.push((d.0, ti));
                    }
                }
            }
            if self.r.chance(1, 6) {
                // The same text read as something else.
                let e = self.r.below(ENTRIES.len() as u64) as u16;
                v.push((e, d.1));
            }
        }
        v
    }
}

fn parse_plan(prop: &str, r: Rng, interning: bool) -> Plan {
    let mut b = B::new(prop, "parse", r, false, interning);
    b.p.slots = 4;
    b.p.vslots = *b.r.pick(&[2u32, 4, 8]);
    let nd = *b.r.pick(&[1usize, 2, 3, 4, 6]);
    let mut docs = b.docs(nd);
    // Many threads deep inside one kind of text.
    let together = b.r.chance(1, 24);
    if together {
        let (e, t) = loop {
            let (e, t) = deep(&mut b.r);
            if tame(&t) && t.len() < 3000 {
                break (e, t);
            }
        };
        let t = b.text(t);
        docs = vec![(entry_id(e), t)];
    }
    // Parses that run out of memory many times over, deep inside of a text.
    let starving = !together && b.r.chance(1, if prop == "C03" { 2 } else { 12 });
    if starving && b.r.chance(3, 4) {
        let (e, t) = loop {
            let (e, t) = deep(&mut b.r);
            if tame(&t) && t.len() < 2000 {
                break (e, t);
            }
        };
        let t = b.text(t);
        docs.push((entry_id(e), t));
    }
    let names = b.p.texts.len();
    let f = b.r.below(6);
    for i in 0..3 {
        let t = pddl_name(&mut b.r, f, i);
        b.text(t);
    }
    let nt = b.p.texts.len();
    if b.r.chance(1, 60) {
        let n = *b.r.pick(&[100u32, 300, 1100]);
        let o = b.op(OpK::Crowd { text: 0, from: 0, n, step: 1 });
        b.p.pre.push(o);
    }
    let mut n = *b.r.pick(&[1usize, 1, 2, 2, 3, 4, 6, 8]);
    let mut per = *b.r.pick(&[1u64, 2, 4, 8]);
    if together {
        n = *b.r.pick(&[2usize, 4, 8, 8]);
        per = 2;
    }
    // One buffer for all, or one each.
    let one_buf = b.r.chance(1, 2);
    for th in 0..n {
        let mut ops = Vec::new();
        let k = b.r.range(1, per);
        if starving {
            let (entry, text) = if b.r.chance(1, 2) { docs[docs.len() - 1] } else { *b.r.pick(&docs) };
            let times = *b.r.pick(&[3u32, 10, 30, 70, 150]);
            let nth = log_uniform(&mut b.r, 1, 3_000) as u32;
            ops.push(b.opf(OpK::Marathon { entry, text, times }, Fault { site: SITE_ALLOC, nth, what: What::None }));
            for (entry, text) in docs.clone().into_iter().rev().take(4) {
                ops.push(b.op(OpK::Parse { entry, route: 0, text, buf: 0, vslot: NO_SLOT }));
            }
        }
        for _ in 0..k {
            let (entry, text) = *b.r.pick(&docs);
            let x = b.r.below(100);
            let o = match x {
                0..=69 => {
                    let route = b.r.below(N_PROUTES as u64) as u8;
                    let buf = if one_buf { 0 } else { th as u32 };
                    let vslot = if b.r.chance(1, 2) { NO_SLOT } else { b.vslot() };
                    let fault = if b.r.chance(1, if prop == "C03" { 4 } else { 12 }) {
                        let most = *b.r.pick(&[60, 60, 2_000]);
                        let nth = log_uniform(&mut b.r, 1, most) as u32;
                        Fault { site: SITE_ALLOC, nth, what: What::None }
                    } else if route == R_INTO && b.r.chance(2, 3) {
                        let what = if b.r.chance(1, 2) { What::Panic } else { What::Reenter(b.r.below(b.p.texts.len() as u64) as u32) };
                        Fault { site: SITE_INTO, nth: 1, what }
                    } else {
                        NOFAULT
                    };
                    b.opf(OpK::Parse { entry, route, text, buf, vslot }, fault)
                }
                70..=74 => {
                    let vslot = b.vslot();
                    b.op(OpK::VCheck { slot: vslot })
                }
                75..=79 => {
                    let len = b.p.texts[text as usize].len();
                    let times = if len < 60 {
                        *b.r.pick(&[5u32, 20, 70, 300, 1100])
                    } else if len < 400 {
                        *b.r.pick(&[3u32, 10, 40])
                    } else {
                        3
                    };
                    b.op(OpK::Marathon { entry, text, times })
                }
                80..=84 => {
                    let ns = *b.r.pick(&[1u64, 1_000_000, 3_600_000_000_000, 86_400_000_000_000 * 365]);
                    b.op(OpK::Clock { ns })
                }
                85..=89 => {
                    let i = names as u32 + b.r.below((nt - names).max(1) as u64) as u32;
                    let text = i.min(nt as u32 - 1);
                    if b.r.chance(1, 2) {
                        b.op(OpK::Unwind { text })
                    } else {
                        let slot = b.slot();
                        let fault = Fault { site: SITE_INTO, nth: 1, what: What::Panic };
                        b.opf(OpK::Name { route: 7, text, slot }, fault)
                    }
                }
                90..=92 => {
                    let slot = b.vslot();
                    b.op(OpK::VDrop { slot })
                }
                _ => {
                    let text = b.r.below(nt as u64) as u32;
                    let slot = b.slot();
                    let route = b.r.below(16) as u8;
                    b.op(OpK::Name { route, text, slot })
                }
            };
            let long = matches!(o.k, OpK::Marathon { .. });
            ops.push(o);
            if long && b.r.chance(2, 3) {
                // What that has left behind on this thread.
                for (entry, text) in docs.clone().into_iter().take(4) {
                    ops.push(b.op(OpK::Parse { entry, route: 0, text, buf: 0, vslot: NO_SLOT }));
                }
            }
        }
        b.p.threads.push(ops);
    }
    // The first document once more, after everything.
    let (entry, text) = docs[0];
    let o = b.op(OpK::Parse { entry, route: 0, text, buf: 0, vslot: NO_SLOT });
    b.p.post.push(o);
    b.p
}

/// Many different documents after one another in one process.
/// A document of many numbers or names, hardly any of them twice.
fn table(r: &mut Rng) -> (u16, String) {
    let n = *r.pick(&[60usize, 150, 400]);
    let digits = *r.pick(&[3u32, 5, 7, 9]);
    let number = |r: &mut Rng| match r.below(3) {
        0 => format!("{}", r.below(10u64.pow(digits))),
        1 => format!("{}.{}", r.below(10u64.pow(digits)), r.below(1000)),
        _ => format!("0.{}", r.below(10u64.pow(digits))),
    };
    let name = |r: &mut Rng| {
        let m = 2 + r.us(8);
        let mut s = String::from((b'a' + r.below(26) as u8) as char);
        for _ in 0..m {
            s.push(*r.pick(b"abcdefghijklmnopqrstuvwxyz0123456789-_") as char);
        }
        s
    };
    let mut items = Vec::new();
    let (e, head) = *r.pick(&[
        ("Problem", "(define (problem p) (:domain d) (:init "),
        ("Problem", "(define (problem p) (:domain d) (:init "),
        ("InitElements", "(:init "),
        ("Types", "(:types "),
        ("Constants", "(:constants "),
        ("PredicateDefinitions", "(:predicates "),
        ("Functions", "(:functions "),
    ]);
    for _ in 0..n {
        let s = match e {
            "Problem" | "InitElements" => match r.below(4) {
                0 => format!("(at {} ({}))", number(r), name(r)),
                1 => format!("(= ({} {}) {})", name(r), name(r), number(r)),
                _ => format!("(= (f) {})", number(r)),
            },
            "Types" | "Constants" if r.chance(1, 9) => format!("{} - {}", name(r), name(r)),
            "Types" | "Constants" => name(r),
            _ => format!("({} ?{} - {})", name(r), name(r), name(r)),
        };
        items.push(s);
    }
    let tail = if e == "Problem" { ") (:goal (g)))" } else { ")" };
    (entry_id(e), format!("{}{}{}", head, items.join(if r.chance(1, 2) { " " } else { "\n  " }), tail))
}

fn history_plan(prop: &str, r: Rng, interning: bool) -> Plan {
    let mut b = B::new(prop, "history", r, false, interning);
    b.p.slots = 1;
    b.p.vslots = 4;
    let n = *b.r.pick(&[1usize, 1, 1, 2, 3]);
    let per = *b.r.pick(&[12u64, 30, 60]);
    let mut seen: Vec<(u16, u32)> = Vec::new();
    // Tables: documents of hundreds of different numbers or names each.
    let tables = b.r.chance(1, 4);
    let per = if tables { *b.r.pick(&[6u64, 12, 20]) } else { per };
    for th in 0..n {
        let mut ops = Vec::new();
        for _ in 0..per {
            let (entry, text) = if tables && b.r.chance(5, 6) {
                let (e, t) = table(&mut b.r);
                (e, b.text(t))
            } else if !seen.is_empty() && b.r.chance(1, 6) {
                *b.r.pick(&seen)
            } else {
                let d = b.doc();
                seen.push(d);
                d
            };
            let route = b.r.below(N_PROUTES as u64) as u8;
            let vslot = if b.r.chance(3, 4) { NO_SLOT } else { b.vslot() };
            ops.push(b.op(OpK::Parse { entry, route, text, buf: th as u32 % 2, vslot }));
        }
        b.p.threads.push(ops);
    }
    b.p
}

fn values_plan(prop: &str, r: Rng, interning: bool) -> Plan {
    let mut b = B::new(prop, "values", r, false, interning);
    b.p.slots = 4;
    b.p.vslots = *b.r.pick(&[1u32, 2, 4, 8]);
    let nd = *b.r.pick(&[1usize, 2, 3]);
    let docs = b.docs(nd);
    let nt = b.p.texts.len();
    let parse = |b: &mut B, th: usize| {
        let (entry, text) = *b.r.pick(&docs);
        let vslot = b.vslot();
        let route = b.r.below(N_PROUTES as u64) as u8;
        b.op(OpK::Parse { entry, route, text, buf: th as u32 % 2, vslot })
    };
    if b.r.chance(2, 3) {
        for _ in 0..b.p.vslots.min(3) {
            let o = parse(&mut b, 0);
            b.p.pre.push(o);
        }
    }
    let n = *b.r.pick(&[1usize, 2, 2, 3, 4, 6]);
    let per = *b.r.pick(&[2u64, 4, 8, 14]);
    for th in 0..n {
        let mut ops = Vec::new();
        let k = b.r.range(1, per);
        for _ in 0..k {
            let o = match b.r.below(100) {
                0..=24 => parse(&mut b, th),
                25..=44 => {
                    let (src, dst) = (b.vslot(), b.vslot());
                    let f = b.memory_out();
                    b.opf(OpK::VClone { src, dst }, f)
                }
                45..=59 => {
                    let slot = b.vslot();
                    b.op(OpK::VDrop { slot })
                }
                60..=74 => {
                    let slot = b.vslot();
                    b.op(OpK::VCheck { slot })
                }
                75..=84 => {
                    let slot = b.vslot();
                    let how = b.r.below(16) as u8;
                    let f = b.memory_out();
                    b.opf(OpK::VBuild { slot, how }, f)
                }
                85..=92 => {
                    let (x, y) = (b.vslot(), b.vslot());
                    b.op(OpK::VCmp { a: x, b: y })
                }
                _ => {
                    let text = b.r.below(nt as u64) as u32;
                    let slot = b.slot();
                    b.op(OpK::Name { route: 0, text, slot })
                }
            };
            ops.push(o);
        }
        b.p.threads.push(ops);
    }
    b.p
}

/// Values and names are printed into sinks that refuse, panic, call back or stop.
fn print_plan(prop: &str, r: Rng, interning: bool) -> Plan {
    let mut b = B::new(prop, "print", r, false, interning);
    b.p.slots = 4;
    b.p.vslots = *b.r.pick(&[2u32, 4, 8]);
    let f = b.r.below(6);
    for i in 0..3 {
        let t = pddl_name(&mut b.r, f, i);
        b.text(t);
    }
    let names = b.p.texts.len();
    let nd = *b.r.pick(&[1usize, 2, 3, 5]);
    let mut docs = Vec::new();
    for _ in 0..nd {
        let s = b.r.u64();
        let mut g = G::new(s);
        let e = if b.r.chance(1, 4) { b.r.below(2) as u16 } else { b.r.below(ENTRIES.len() as u64) as u16 };
        let mut t = g.entry(ENTRIES[e as usize].name);
        if t.len() > 3000 {
            g.depth = 1;
            g.wide = 1;
            t = g.entry(ENTRIES[e as usize].name);
        }
        let t = b.text(t);
        docs.push((e, t));
    }
    let make = |b: &mut B, th: usize| {
        if b.r.chance(1, 4) {
            let o = b.name_op("", names);
            return o;
        }
        let (entry, text) = *b.r.pick(&docs);
        let vslot = b.vslot();
        let route = b.r.below(N_PROUTES as u64) as u8;
        b.op(OpK::Parse { entry, route, text, buf: th as u32 % 2, vslot })
    };
    for i in 0..b.p.vslots {
        let o = make(&mut b, i as usize);
        b.p.pre.push(o);
    }
    let n = *b.r.pick(&[1usize, 2, 2, 3, 4, 6]);
    let per = *b.r.pick(&[2u64, 4, 8]);
    for th in 0..n {
        let mut ops = Vec::new();
        let k = b.r.range(1, per);
        for _ in 0..k {
            if b.r.chance(1, 5) {
                let o = make(&mut b, th);
                ops.push(o);
                continue;
            }
            let what = match b.r.below(12) {
                0..=4 => What::Refuse,
                5 | 6 => What::Panic,
                7 | 8 => What::Reenter(b.r.below(names as u64) as u32),
                9 => What::Stall,
                _ => What::None,
            };
            let fault = if what == What::None {
                NOFAULT
            } else {
                let nth = if b.r.chance(1, 2) { 1 + b.r.below(3) as u32 } else { log_uniform(&mut b.r, 1, 2_000) as u32 };
                Fault { site: SITE_SINK, nth, what }
            };
            let name = b.r.chance(1, 5);
            let slot = if name { b.slot() } else { b.vslot() };
            let how = b.r.below(HOWS as u64) as u8;
            let times = match what {
                What::Refuse | What::Panic if b.r.chance(1, 4) => *b.r.pick(&[2u32, 3, 4, 5, 8, 17, 40, 130, 300]),
                _ => 1,
            };
            let o = b.opf(OpK::Print { slot, how, name, times }, fault);
            ops.push(o);
        }
        b.p.threads.push(ops);
    }
    b.p
}

fn cuts_plan(prop: &str, r: Rng, interning: bool) -> Plan {
    let mut b = B::new(prop, "cuts", r, false, interning);
    let entry = if b.r.chance(1, 2) { entry_id("Domain") } else { entry_id("Problem") };
    let big = b.r.chance(1, 10);
    let max = if big { *b.r.pick(&[3_000usize, 9_000]) } else { *b.r.pick(&[200usize, 400, 700, 1500]) };
    let mut t = String::new();
    for i in 0..40 {
        let s = b.r.u64();
        let mut g = G::new(s);
        if i > 25 {
            g.depth = 1;
            g.wide = 1;
        }
        if big {
            g.boost = (1 + b.r.below(6) as u32, *b.r.pick(&[40usize, 150, 400]));
        }
        t = g.entry(ENTRIES[entry as usize].name);
        if t.len() <= max && (t.len() * 3 > max || i > 12) {
            break;
        }
    }
    // Files as editors and transfers leave them.
    if b.r.chance(1, 3) {
        let mut how = 0;
        for _ in 0..*b.r.pick(&[1, 1, 2, 4]) {
            how |= 1u32 << b.r.below(TRANSFER.len() as u64);
        }
        let v = variant(&t, how, b.r.u64() as u32);
        if v.len() <= max.max(1_000) * 2 {
            t = v;
        }
    }
    let mut end = 0;
    pieces(&t).iter().fold(0, |at, (k, s)| {
        if *k == 4 {
            end = at;
        }
        at + s.len()
    });
    let text = b.text(t.clone());
    let n = *b.r.pick(&[1usize, 2, 3]);
    let fill = b.r.below(FILLS.len() as u64) as u8;
    let mut spans: Vec<(usize, usize, u8)> = Vec::new();
    // All of a short document, or windows of a long one: always its end, then random places.
    let budget: usize = if t.len() > 3_000 { 60 } else { 160 };
    if end <= budget {
        spans.push((0, end, fill));
    } else {
        spans.push((end.saturating_sub(24), end, fill));
        let mut left = budget - 24;
        while left > 0 {
            let w = if big { 6.min(left) } else { 16.min(left) };
            let mut a = b.r.us(end - 16);
            // Files are torn at blocks and pages.
            if b.r.chance(1, 4) {
                let block = *b.r.pick(&[64usize, 128, 256, 512, 1024, 4096]);
                if end > block {
                    a = (1 + b.r.us(end / block)) * block - 2;
                    a = a.min(end - w);
                }
            }
            spans.push((a, a + w, fill));
            left -= w;
        }
    }
    // The end of the document with the other fills, too.
    let f2 = b.r.below(FILLS.len() as u64) as u8;
    spans.push((end.saturating_sub(12), end, f2));
    for _ in 0..n {
        b.p.threads.push(vec![]);
    }
    // The undamaged document is accepted, before and after.
    let o = b.op(OpK::Parse { entry, route: 0, text, buf: 0, vslot: NO_SLOT });
    b.p.threads[0].push(o);
    for (i, (from, to, fill)) in spans.into_iter().enumerate() {
        let o = b.op(OpK::Cuts { entry, text, from: from as u32, to: to as u32, fill });
        b.p.threads[i % n].push(o);
    }
    b.p
}

fn damage_plan(prop: &str, r: Rng, interning: bool) -> Plan {
    let mut b = B::new(prop, "damage", r, false, interning);
    let n = *b.r.pick(&[1usize, 1, 1, 2, 3]);
    let k = b.r.range(6, 24);
    for _ in 0..n {
        b.p.threads.push(vec![]);
    }
    for i in 0..k {
        let (e, t, kind) = if b.r.chance(1, 20) {
            let (e, t) = large(&mut b.r);
            (entry_id(e), t, 9)
        } else if b.r.chance(1, 8) {
            let (e, mut t) = deep(&mut b.r);
            let mut kind = 9;
            if b.r.chance(1, 4) {
                let o = t.clone();
                (t, kind) = damage_tame(&mut b.r, &t, &o);
            }
            if !tame(&t) {
                continue;
            }
            (entry_id(e), t, kind)
        } else if b.r.chance(1, 20) {
            let e = b.r.below(ENTRIES.len() as u64) as u16;
            (e, flood(&mut b.r), 9)
        } else {
            let e = match b.r.below(10) {
                0 => entry_id("Domain"),
                1 => entry_id("Problem"),
                2 => entry_id("StructureDef"),
                _ => b.r.below(ENTRIES.len() as u64) as u16,
            };
            let s = b.r.u64();
            let mut g = G::new(s);
            let t = g.entry(ENTRIES[e as usize].name);
            let other_e = if b.r.chance(1, 2) { e } else { b.r.below(ENTRIES.len() as u64) as u16 };
            let other = g.entry(ENTRIES[other_e as usize].name);
            let (mut t, mut kind) = damage_tame(&mut b.r, &t, &other);
            // Faults come in company.
            while b.r.chance(1, 4) {
                let (t2, k2) = damage_tame(&mut b.r, &t, &other);
                t = t2;
                kind = k2;
            }
            if b.r.chance(1, 10) {
                let e2 = b.r.below(ENTRIES.len() as u64) as u16;
                (e2, t, kind)
            } else {
                (e, t, kind)
            }
        };
        let text = b.text(t);
        let route = b.r.below(N_PROUTES as u64) as u8;
        let o = b.op(OpK::Damaged { entry: e, route, text, kind: kind as u8 });
        b.p.threads[i as usize % n].push(o);
    }
    b.p
}

/// Documents as written, and as read after harmless changes on the way (C13) or with something behind them (C22).
fn variant_plan(prop: &str, r: Rng, interning: bool) -> Plan {
    let mut b = B::new(prop, "variants", r, false, interning);
    let n = *b.r.pick(&[1usize, 1, 2, 3]);
    for _ in 0..n {
        b.p.threads.push(vec![]);
    }
    let k = b.r.range(2, 10);
    for i in 0..k {
        let e = match b.r.below(10) {
            0..=2 => entry_id("Domain"),
            3 | 4 => entry_id("Problem"),
            5 => entry_id("StructureDef"),
            _ => b.r.below(ENTRIES.len() as u64 - 1) as u16,
        };
        let s = b.r.u64();
        let mut g = G::new(s);
        if prop == "C13" && b.r.chance(2, 3) {
            g.style = 2;
        }
        if b.r.chance(1, 12) {
            g.boost = (1 + b.r.below(4) as u32, *b.r.pick(&[12usize, 40, 150]));
        }
        let t = g.entry(ENTRIES[e as usize].name);
        if t.len() > 6000 {
            continue;
        }
        let text = b.text(t);
        for _ in 0..*b.r.pick(&[1usize, 2, 4]) {
            let how = if prop == "C22" {
                HOW_STALE
            } else {
                let mut how = 0;
                for _ in 0..*b.r.pick(&[1, 1, 1, 2, 3]) {
                    how |= 1u32 << b.r.below(TRANSFER.len() as u64);
                }
                // Comments before any other construct are not for everyone to take.
                if e > 1 {
                    how &= !(1 << TRANSFER.iter().position(|x| *x == "annotate").unwrap());
                }
                how
            };
            let route = b.r.below(N_PROUTES as u64) as u8;
            let seed = b.r.u64() as u32;
            let o = b.op(OpK::Variant { entry: e, route, text, how, seed });
            b.p.threads[i as usize % n].push(o);
        }
    }
    b.p
}

fn comb_plan(prop: &str, r: Rng, interning: bool) -> Plan {
    let mut b = B::new(prop, "combinators", r, true, interning);
    let n = *b.r.pick(&[1usize, 1, 2, 2, 3]);
    let per = *b.r.pick(&[1u64, 3, 8]);
    b.p.slots = 4;
    for i in 0..2 {
        let t = pddl_name(&mut b.r, 0, i);
        b.text(t);
    }
    for _ in 0..n {
        let mut ops = Vec::new();
        let k = b.r.range(1, per);
        for _ in 0..k {
            let comb = b.r.below(COMBS.len() as u64) as u8;
            let s = b.r.u64();
            let mut g = G::new(s);
            let mut t = g.comb(comb);
            if b.r.chance(1, 6) {
                let o = g.comb(comb);
                t = damage_tame(&mut b.r, &t, &o).0;
                if t.len() > 600 {
                    t = t.chars().take(300).collect();
                }
            }
            let text = b.text(t);
            let nth = *b.r.pick(&[1u32, 1, 2, 2, 3, 4, 5, 7, 9, 12]);
            let fault = match b.r.below(12) {
                0..=3 => Fault { site: SITE_ELEM, nth, what: What::Failure },
                4 | 5 => Fault { site: SITE_ELEM, nth, what: What::Incomplete },
                6 | 7 => Fault { site: SITE_ELEM, nth, what: What::Panic },
                8 => Fault { site: SITE_ELEM, nth, what: What::Soft },
                9 => Fault { site: SITE_ELEM, nth, what: if b.r.chance(1, 2) { What::Stall } else { What::Reenter(0) } },
                10 => Fault { site: SITE_ALLOC, nth, what: What::None },
                _ => NOFAULT,
            };
            ops.push(b.opf(OpK::Comb { comb, text }, fault));
            if b.r.chance(1, 5) {
                let slot = b.slot();
                ops.push(b.op(OpK::Name { route: 0, text: 0, slot }));
            }
        }
        b.p.threads.push(ops);
    }
    b.p
}

fn memory_plan(prop: &str, mut r: Rng, interning: bool) -> Plan {
    let names = r.chance(2, 5);
    let mut p = if !names && r.chance(1, 4) {
        // The texts that fail.
        let mut p = damage_plan(prop, Rng::new(r.u64()), interning);
        for t in p.threads.iter_mut() {
            let texts = &p.texts;
            t.retain(|o| matches!(&o.k, OpK::Damaged { text, .. } if texts[*text as usize].len() < 1_500));
            t.truncate(10);
        }
        p
    } else if names {
        let which = *r.pick(&["C01", "C02", "C03"]);
        let mut p = names_plan(which, Rng::new(r.u64()), interning);
        for t in p.threads.iter_mut() {
            t.truncate(8);
        }
        p
    } else if r.chance(1, 6) {
        let mut p = print_plan(prop, Rng::new(r.u64()), interning);
        // One that stops for ever ends no round.
        for o in p.threads.iter_mut().flatten().filter(|o| o.fault.what == What::Stall) {
            o.fault = NOFAULT;
        }
        p
    } else if r.chance(1, 2) {
        values_plan(prop, Rng::new(r.u64()), interning)
    } else {
        let mut p = parse_plan(prop, Rng::new(r.u64()), interning);
        for o in p.threads.iter_mut().flatten() {
            if let OpK::Marathon { times, .. } = &mut o.k {
                *times = (*times).min(8);
            }
        }
        p
    };
    p.prop = prop.into();
    p.family = format!("memory/{}", p.family);
    p.threads.truncate(3);
    // Every round does the same work whatever the schedule: slots of its own for each thread.
    let (ns, nv) = (p.slots, p.vslots);
    for (t, ops) in p.threads.iter_mut().enumerate() {
        for o in ops.iter_mut() {
            for (v, s) in o.k.slots_mut() {
                if *s != NO_SLOT {
                    *s += t as u32 * if v { nv } else { ns };
                }
            }
            // The language itself may lose a function's result when dropping its argument panics.
            if o.fault.site == SITE_DROP {
                o.fault = NOFAULT;
            }
        }
    }
    let n = p.threads.len().max(1) as u32;
    p.slots *= n;
    p.vslots *= n;
    if r.chance(2, 5) {
        // Threads that end give back what belonged to them: some work is done by one that goes on.
        let work = p.threads.remove(0);
        p.pre.extend(work);
    }
    p.rounds = *r.pick(&[12u32, 12, 16, 24]);
    p.mem_from = 4;
    p
}

/// A few long histories: one process, thousands of distinct names and parses.
fn long_plan(prop: &str, r: Rng, interning: bool) -> Plan {
    let mut b = B::new(prop, "long", r, true, interning);
    if let Strategy::Uniform { mean } | Strategy::Pct { mean } = &mut b.p.knobs.strategy {
        *mean = (*mean).max(300);
    }
    if let Strategy::Hot { mask, .. } = &mut b.p.knobs.strategy {
        *mask = (*mask).max(255);
    }
    b.p.slots = 16;
    let ts = any_texts(&mut b.r, 6);
    for t in ts {
        b.p.texts.push(t);
    }
    let n = *b.r.pick(&[1usize, 2, 3]);
    for _ in 0..n {
        let mut ops = Vec::new();
        let k = b.r.range(1, 3);
        for _ in 0..k {
            let text = b.r.below(6) as u32;
            let mut cnt = *b.r.pick(&[60u32, 150, 300, 600, 1100]);
            let mut step = *b.r.pick(&[1i32, -1, 3]);
            let mut from = *b.r.pick(&[0u32, 1, 250, 65_500]);
            if b.r.chance(1, 12) {
                // Past the sizes at which tables, counters and indices of 12, 13 or 16 bits end.
                cnt = *b.r.pick(&[4_200u32, 8_300, 66_000]);
                step = -1;
                from = 99_999;
            }
            ops.push(b.op(OpK::Crowd { text, from, n: cnt, step }));
            let e = b.any_name_op(prop, 6);
            ops.push(e);
        }
        b.p.threads.push(ops);
    }
    b.p
}

pub fn plan(prop: &str, seed: u64, interning: bool) -> Plan {
    let mut r = Rng::new(mix(&[seed, simcore::prng::fnv(prop.as_bytes())]));
    let sub = Rng::new(r.u64());
    match prop {
        "C01" | "C02" => {
            if r.chance(1, 100) {
                long_plan(prop, sub, interning)
            } else if r.chance(1, 8) {
                parse_plan(prop, sub, interning)
            } else {
                names_plan(prop, sub, interning)
            }
        }
        "C03" if r.chance(1, 8) => parse_plan(prop, sub, interning),
        "C03" | "C04" if r.chance(1, 60) => long_plan(prop, sub, interning),
        "C03" | "C04" => names_plan(prop, sub, interning),
        "C05" if r.chance(1, 6) => history_plan(prop, sub, interning),
        "C05" => parse_plan(prop, sub, interning),
        "C06" => cuts_plan(prop, sub, interning),
        "C07" => damage_plan(prop, sub, interning),
        "C13" | "C22" => variant_plan(prop, sub, interning),
        "C23" => print_plan(prop, sub, interning),
        "C08" => comb_plan(prop, sub, interning),
        "C09" => memory_plan(prop, sub, interning),
        _ => values_plan("C10", sub, interning),
    }
}
