//! What one run does. A plan is plain data: it is drawn from a seed, written to a replay file and read back.
use simcore::{Decision, Knobs, Strategy};
use std::fmt::Write;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum What {
    None,
    Panic,
    /// The conversion makes another name (text index) before it goes on.
    Reenter(u32),
    Stall,
    /// The two conversions of the caller disagree: `into` gives this other text.
    Lie(u32),
    /// Element parser only.
    Failure,
    Incomplete,
    Soft,
    /// Sink only: refuses from here on.
    Refuse,
}

pub const SITE_NONE: u8 = 0;
pub const SITE_ASREF: u8 = 1;
pub const SITE_INTO: u8 = 2;
pub const SITE_DROP: u8 = 3;
pub const SITE_ELEM: u8 = 4;
pub const SITE_ALLOC: u8 = 5;
/// What a value is printed into.
pub const SITE_SINK: u8 = 6;
/// An iterator of the caller that gives the parts of a list.
pub const SITE_ITER: u8 = 7;
/// A hasher of the caller.
pub const SITE_HASH: u8 = 8;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    pub site: u8,
    /// Which call (from 1) of that kind in this operation.
    pub nth: u32,
    pub what: What,
}

pub const NOFAULT: Fault = Fault { site: SITE_NONE, nth: 0, what: What::None };

#[derive(Clone, Debug, PartialEq)]
pub enum OpK {
    /// Make a name.
    Name { route: u8, text: u32, slot: u32 },
    Drop { slot: u32 },
    Clone { src: u32, dst: u32 },
    /// Read a name in every way there is.
    Check { slot: u32 },
    Cmp { a: u32, b: u32 },
    /// Parse a text from buffer `buf`; keep the value in `vslot`.
    Parse { entry: u16, route: u8, text: u32, buf: u32, vslot: u32 },
    /// Public combinator with a caller-supplied element parser.
    Comb { comb: u8, text: u32 },
    VClone { src: u32, dst: u32 },
    VDrop { slot: u32 },
    VCheck { slot: u32 },
    VBuild { slot: u32, how: u8 },
    VCmp { a: u32, b: u32 },
    /// Print a held value (or, if `name`, a held name) into a sink of the caller, `times` times in a row.
    Print { slot: u32, how: u8, name: bool, times: u32 },
    /// A list of `n` names (texts from `text` on), built from an iterator of the caller in way `how`.
    Gather { how: u8, text: u32, n: u32, slot: u32 },
    /// Hash a held name with a hasher of the caller.
    Hash { slot: u32 },
    /// Every prefix of the text from `from` to `to`, filled up in way `fill`, must be rejected.
    Cuts { entry: u16, text: u32, from: u32, to: u32, fill: u8 },
    /// Damaged text: any answer, but an answer.
    Damaged { entry: u16, route: u8, text: u32, kind: u8 },
    /// The text after harmless changes (`how` as in `gen::variant`) means the same.
    Variant { entry: u16, route: u8, text: u32, how: u32, seed: u32 },
    Clock { ns: u64 },
    /// Panic in the caller's own code; a destructor makes a name while the stack unwinds.
    Unwind { text: u32 },
    /// Make a name in a thread-local destructor when the thread ends.
    AtExit { text: u32 },
    /// `times` parses of the same text, results compared with the first.
    Marathon { entry: u16, text: u32, times: u32 },
    /// Many distinct names `prefix` + number, made and checked.
    Crowd { text: u32, from: u32, n: u32, step: i32 },
}

pub const NO_SLOT: u32 = u32::MAX;

impl OpK {
    /// The slots for names (false) and for values (true) this operation uses.
    pub fn slots_mut(&mut self) -> Vec<(bool, &mut u32)> {
        match self {
            OpK::Name { slot, .. } | OpK::Drop { slot } | OpK::Check { slot } => vec![(false, slot)],
            OpK::Gather { slot, .. } | OpK::Hash { slot } => vec![(false, slot)],
            OpK::Clone { src: a, dst: b } | OpK::Cmp { a, b } => vec![(false, a), (false, b)],
            OpK::Parse { vslot: slot, .. } | OpK::VDrop { slot } | OpK::VCheck { slot } | OpK::VBuild { slot, .. } => {
                vec![(true, slot)]
            }
            OpK::VClone { src: a, dst: b } | OpK::VCmp { a, b } => vec![(true, a), (true, b)],
            OpK::Print { slot, name, .. } => vec![(!*name, slot)],
            _ => vec![],
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub id: u32,
    pub k: OpK,
    pub fault: Fault,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub family: String,
    pub interning: bool,
    pub knobs: Knobs,
    pub rounds: u32,
    /// Live memory must be the same after every round from this one on (0: not looked at).
    pub mem_from: u32,
    pub slots: u32,
    pub vslots: u32,
    pub texts: Vec<String>,
    pub pre: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    pub post: Vec<Op>,
}

fn enc(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b.is_ascii_graphic() && b != b'%' || b == b' ' {
            o.push(b as char);
        } else {
            let _ = write!(o, "%{:02x}", b);
        }
    }
    o
}

fn dec(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(o).unwrap()
}

fn op_line(o: &Op) -> String {
    let mut v: Vec<i64> = Vec::new();
    let name = match &o.k {
        OpK::Name { route, text, slot } => {
            v.extend([*route as i64, *text as i64, *slot as i64]);
            "name"
        }
        OpK::Drop { slot } => {
            v.push(*slot as i64);
            "drop"
        }
        OpK::Clone { src, dst } => {
            v.extend([*src as i64, *dst as i64]);
            "clone"
        }
        OpK::Check { slot } => {
            v.push(*slot as i64);
            "check"
        }
        OpK::Cmp { a, b } => {
            v.extend([*a as i64, *b as i64]);
            "cmp"
        }
        OpK::Parse { entry, route, text, buf, vslot } => {
            v.extend([*entry as i64, *route as i64, *text as i64, *buf as i64, *vslot as i64]);
            "parse"
        }
        OpK::Comb { comb, text } => {
            v.extend([*comb as i64, *text as i64]);
            "comb"
        }
        OpK::VClone { src, dst } => {
            v.extend([*src as i64, *dst as i64]);
            "vclone"
        }
        OpK::VDrop { slot } => {
            v.push(*slot as i64);
            "vdrop"
        }
        OpK::VCheck { slot } => {
            v.push(*slot as i64);
            "vcheck"
        }
        OpK::VBuild { slot, how } => {
            v.extend([*slot as i64, *how as i64]);
            "vbuild"
        }
        OpK::VCmp { a, b } => {
            v.extend([*a as i64, *b as i64]);
            "vcmp"
        }
        OpK::Print { slot, how, name, times } => {
            v.extend([*slot as i64, *how as i64, *name as i64, *times as i64]);
            "print"
        }
        OpK::Gather { how, text, n, slot } => {
            v.extend([*how as i64, *text as i64, *n as i64, *slot as i64]);
            "gather"
        }
        OpK::Hash { slot } => {
            v.push(*slot as i64);
            "hash"
        }
        OpK::Cuts { entry, text, from, to, fill } => {
            v.extend([*entry as i64, *text as i64, *from as i64, *to as i64, *fill as i64]);
            "cuts"
        }
        OpK::Damaged { entry, route, text, kind } => {
            v.extend([*entry as i64, *route as i64, *text as i64, *kind as i64]);
            "damaged"
        }
        OpK::Variant { entry, route, text, how, seed } => {
            v.extend([*entry as i64, *route as i64, *text as i64, *how as i64, *seed as i64]);
            "variant"
        }
        OpK::Clock { ns } => {
            v.push(*ns as i64);
            "clock"
        }
        OpK::Unwind { text } => {
            v.push(*text as i64);
            "unwind"
        }
        OpK::AtExit { text } => {
            v.push(*text as i64);
            "atexit"
        }
        OpK::Marathon { entry, text, times } => {
            v.extend([*entry as i64, *text as i64, *times as i64]);
            "marathon"
        }
        OpK::Crowd { text, from, n, step } => {
            v.extend([*text as i64, *from as i64, *n as i64, *step as i64]);
            "crowd"
        }
    };
    let (w, a) = match o.fault.what {
        What::None => ("none", 0),
        What::Panic => ("panic", 0),
        What::Reenter(t) => ("reenter", t),
        What::Stall => ("stall", 0),
        What::Lie(t) => ("lie", t),
        What::Failure => ("failure", 0),
        What::Incomplete => ("incomplete", 0),
        What::Soft => ("soft", 0),
        What::Refuse => ("refuse", 0),
    };
    let args: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    let mut l = format!("{} {} {}", o.id, name, args.join(" "));
    if o.fault.site != SITE_NONE {
        let _ = write!(l, " ! {} {} {} {}", o.fault.site, o.fault.nth, w, a);
    }
    l
}

fn op_parse(l: &str) -> Option<Op> {
    let (l, f) = match l.split_once(" ! ") {
        Some((a, b)) => (a, Some(b)),
        None => (l, None),
    };
    let mut it = l.split_whitespace();
    let id: u32 = it.next()?.parse().ok()?;
    let name = it.next()?;
    let v: Vec<i64> = it.map(|x| x.parse().unwrap_or(0)).collect();
    let u = |i: usize| v[i] as u32;
    let k = match name {
        "name" => OpK::Name { route: v[0] as u8, text: u(1), slot: u(2) },
        "drop" => OpK::Drop { slot: u(0) },
        "clone" => OpK::Clone { src: u(0), dst: u(1) },
        "check" => OpK::Check { slot: u(0) },
        "cmp" => OpK::Cmp { a: u(0), b: u(1) },
        "parse" => OpK::Parse { entry: v[0] as u16, route: v[1] as u8, text: u(2), buf: u(3), vslot: u(4) },
        "comb" => OpK::Comb { comb: v[0] as u8, text: u(1) },
        "vclone" => OpK::VClone { src: u(0), dst: u(1) },
        "vdrop" => OpK::VDrop { slot: u(0) },
        "vcheck" => OpK::VCheck { slot: u(0) },
        "vbuild" => OpK::VBuild { slot: u(0), how: v[1] as u8 },
        "vcmp" => OpK::VCmp { a: u(0), b: u(1) },
        "print" => OpK::Print { slot: u(0), how: v[1] as u8, name: v[2] != 0, times: u(3) },
        "gather" => OpK::Gather { how: v[0] as u8, text: u(1), n: u(2), slot: u(3) },
        "hash" => OpK::Hash { slot: u(0) },
        "cuts" => OpK::Cuts { entry: v[0] as u16, text: u(1), from: u(2), to: u(3), fill: v[4] as u8 },
        "damaged" => OpK::Damaged { entry: v[0] as u16, route: v[1] as u8, text: u(2), kind: v[3] as u8 },
        "variant" => OpK::Variant { entry: v[0] as u16, route: v[1] as u8, text: u(2), how: u(3), seed: u(4) },
        "clock" => OpK::Clock { ns: v[0] as u64 },
        "unwind" => OpK::Unwind { text: u(0) },
        "atexit" => OpK::AtExit { text: u(0) },
        "marathon" => OpK::Marathon { entry: v[0] as u16, text: u(1), times: u(2) },
        "crowd" => OpK::Crowd { text: u(0), from: u(1), n: u(2), step: v[3] as i32 },
        _ => return None,
    };
    let fault = match f {
        None => NOFAULT,
        Some(f) => {
            let p: Vec<&str> = f.split_whitespace().collect();
            let a: u32 = p[3].parse().ok()?;
            let what = match p[2] {
                "panic" => What::Panic,
                "reenter" => What::Reenter(a),
                "stall" => What::Stall,
                "lie" => What::Lie(a),
                "failure" => What::Failure,
                "incomplete" => What::Incomplete,
                "soft" => What::Soft,
                "refuse" => What::Refuse,
                _ => What::None,
            };
            Fault { site: p[0].parse().ok()?, nth: p[1].parse().ok()?, what }
        }
    };
    Some(Op { id, k, fault })
}

impl Plan {
    pub fn n_ops(&self) -> usize {
        self.pre.len() + self.post.len() + self.threads.iter().map(|t| t.len()).sum::<usize>()
    }
    pub fn ops(&self) -> impl Iterator<Item = &Op> {
        self.pre.iter().chain(self.threads.iter().flatten()).chain(self.post.iter())
    }
    pub fn to_text(&self) -> String {
        let mut o = String::new();
        let _ = writeln!(o, "property {}", self.prop);
        let _ = writeln!(o, "family {}", self.family);
        let _ = writeln!(o, "interning {}", self.interning as u8);
        let k = &self.knobs;
        let st = match &k.strategy {
            Strategy::Serial => "serial 0 0".to_string(),
            Strategy::Uniform { mean } => format!("uniform {} 0", mean),
            Strategy::Pct { mean } => format!("pct {} 0", mean),
            Strategy::Hot { mask, key } => format!("hot {} {}", mask, key),
            Strategy::Replay => "replay 0 0".to_string(),
        };
        let _ = writeln!(
            o,
            "knobs seed={} strategy={} spurious={} between={} entropy={} clock={} tick={} jitter={}",
            k.seed, st.replace(' ', "/"), k.spurious, k.between, k.entropy, k.clock_base, k.tick, k.clock_jitter_s
        );
        let _ = writeln!(o, "rounds {} {}", self.rounds, self.mem_from);
        let _ = writeln!(o, "slots {} {}", self.slots, self.vslots);
        for t in &self.texts {
            let _ = writeln!(o, "text {}", enc(t));
        }
        for x in &self.pre {
            let _ = writeln!(o, "pre {}", op_line(x));
        }
        for (i, t) in self.threads.iter().enumerate() {
            let _ = writeln!(o, "thread {}", i);
            for x in t {
                let _ = writeln!(o, "op {}", op_line(x));
            }
        }
        for x in &self.post {
            let _ = writeln!(o, "post {}", op_line(x));
        }
        o
    }
    pub fn from_text(s: &str) -> (Plan, Vec<Decision>) {
        let mut p = Plan {
            prop: String::new(),
            family: String::new(),
            interning: true,
            knobs: Knobs::default(),
            rounds: 1,
            mem_from: 0,
            slots: 0,
            vslots: 0,
            texts: vec![],
            pre: vec![],
            threads: vec![],
            post: vec![],
        };
        let mut tr = Vec::new();
        for line in s.split('\n') {
            let (h, rest) = line.split_once(' ').unwrap_or((line, ""));
            match h {
                "property" => p.prop = rest.into(),
                "family" => p.family = rest.into(),
                "interning" => p.interning = rest == "1",
                "knobs" => {
                    for kv in rest.split_whitespace() {
                        let (k, v) = kv.split_once('=').unwrap();
                        let n = || v.parse::<u64>().unwrap();
                        match k {
                            "seed" => p.knobs.seed = n(),
                            "spurious" => p.knobs.spurious = n() as u32,
                            "between" => p.knobs.between = n() as u32,
                            "entropy" => p.knobs.entropy = n(),
                            "clock" => p.knobs.clock_base = n(),
                            "tick" => p.knobs.tick = n(),
                            "jitter" => p.knobs.clock_jitter_s = n(),
                            "strategy" => {
                                let q: Vec<&str> = v.split('/').collect();
                                let a: u64 = q[1].parse().unwrap();
                                let b: u64 = q[2].parse().unwrap();
                                p.knobs.strategy = match q[0] {
                                    "uniform" => Strategy::Uniform { mean: a },
                                    "pct" => Strategy::Pct { mean: a },
                                    "hot" => Strategy::Hot { mask: a, key: b },
                                    "replay" => Strategy::Replay,
                                    _ => Strategy::Serial,
                                }
                            }
                            _ => {}
                        }
                    }
                }
                "rounds" => {
                    let q: Vec<u32> = rest.split_whitespace().map(|x| x.parse().unwrap()).collect();
                    p.rounds = q[0];
                    p.mem_from = q[1];
                }
                "slots" => {
                    let q: Vec<u32> = rest.split_whitespace().map(|x| x.parse().unwrap()).collect();
                    p.slots = q[0];
                    p.vslots = q[1];
                }
                "text" => p.texts.push(dec(rest)),
                "thread" => p.threads.push(vec![]),
                "pre" => p.pre.push(op_parse(rest).expect("op")),
                "op" => p.threads.last_mut().unwrap().push(op_parse(rest).expect("op")),
                "post" => p.post.push(op_parse(rest).expect("op")),
                "decision" => {
                    let q: Vec<u64> = rest.split_whitespace().map(|x| x.parse().unwrap()).collect();
                    tr.push(Decision {
                        tid: q[0] as u16,
                        op: q[1] as u32,
                        call: q[2] as u32,
                        step: q[3],
                        kind: q[4] as u16,
                        to: q[5] as u32,
                    });
                }
                _ => {}
            }
        }
        (p, tr)
    }
}

pub fn trace_text(tr: &[Decision]) -> String {
    let mut o = String::new();
    for d in tr {
        let _ = writeln!(o, "decision {} {} {} {} {} {}", d.tid, d.op, d.call, d.step, d.kind, d.to);
    }
    o
}
