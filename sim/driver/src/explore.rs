//! Many runs, each in a process of its own; what fails is replayed, minimised and written down.
use crate::entries::ENTRIES;
use crate::exec::{self, Ref, RefKey, COMB_BASE};
use crate::families;
use crate::plan::*;
use simcore::prng::{fnv, mix};
use simcore::*;
use simcore::{HashMap, HashSet};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::time::Instant;

pub struct Outcome {
    pub class: String,
    pub msg: String,
    pub decisions: Vec<Decision>,
    pub lost: u32,
    pub log_hash: u64,
    pub sched_hash: u64,
}

impl Outcome {
    pub fn same(&self, o: &Outcome) -> bool {
        self.class == o.class && self.log_hash == o.log_hash && self.sched_hash == o.sched_hash && self.msg == o.msg
    }
}

enum End {
    Exit(i32),
    Signal(i32),
}

fn setup_child(cpu: u64, wall: u32, verbose: bool) {
    unsafe {
        raw::setrlimit(0, &[cpu, cpu + 1]);
        raw::setrlimit(4, &[0, 0]);
        raw::alarm(wall);
        raw::sysc(157, 1, 9, 0, 0, 0, 0); // die with the worker
        if !verbose {
            let fd = raw::sysc(2, c"/dev/null".as_ptr() as i64, 1, 0, 0, 0, 0);
            raw::dup2(fd as i32, 2);
        }
    }
}

fn in_child(cpu: u64, wall: u32, verbose: bool, f: impl FnOnce()) -> End {
    unsafe {
        let pid = raw::fork();
        if pid < 0 {
            eprintln!("fork failed");
            std::process::exit(2);
        }
        if pid == 0 {
            setup_child(cpu, wall, verbose);
            f();
            raw::_exit(99);
        }
        let mut st = 0;
        while raw::waitpid(pid, &mut st, 0) != pid {}
        if st & 0x7f == 0 {
            End::Exit((st >> 8) & 0xff)
        } else {
            End::Signal(st & 0x7f)
        }
    }
}

fn sig_name(s: i32) -> String {
    match s {
        4 => "SIGILL".into(),
        6 => "SIGABRT".into(),
        7 => "SIGBUS".into(),
        8 => "SIGFPE".into(),
        9 => "SIGKILL".into(),
        11 => "SIGSEGV".into(),
        n => format!("SIG{}", n),
    }
}

pub struct Runner {
    refs: HashMap<(u16, u8, u64, u64), Ref>,
    pub ref_runs: u64,
    /// References that gave no answer.
    pub ref_lost: u64,
}

const CPU_LIMIT: u64 = 60;

impl Runner {
    pub fn new() -> Self {
        Runner { refs: HashMap::default(), ref_runs: 0, ref_lost: 0 }
    }

    fn reference(&mut self, entry: u16, route: u8, text: &str) -> Ref {
        let key = (entry, route, fnv(text.as_bytes()), text.len() as u64);
        if let Some(r) = self.refs.get(&key) {
            return *r;
        }
        sh().reset();
        self.ref_runs += 1;
        let t: &'static str = unsafe { std::mem::transmute::<&str, &'static str>(text) };
        let e = in_child(CPU_LIMIT, 120, false, || exec::run_ref(entry, route, t));
        let b = sh().refbuf;
        let r = match e {
            End::Exit(0) if sh().status == ST_OK && b[7] == 1 => Ref {
                kind: b[0] as u8,
                dig: (b[1], b[2]),
                rest_off: b[3],
                rest_len: b[4],
                rest_line: b[5] as u32,
                steps: b[6],
            },
            End::Exit(_) if sh().status == ST_VIOLATION => Ref { kind: 9, ..Ref::default() },
            _ => Ref { kind: 8, ..Ref::default() },
        };
        if r.kind >= 8 {
            self.ref_lost += 1;
        }
        if self.refs.len() > 200_000 {
            self.refs.clear();
        }
        self.refs.insert(key, r);
        r
    }

    fn refs_of(&mut self, p: &Plan) -> HashMap<RefKey, Ref> {
        let mut keys: BTreeSet<RefKey> = BTreeSet::new();
        for o in p.ops() {
            match &o.k {
                OpK::Parse { entry, route, text, .. } => {
                    keys.insert((*entry, *route, *text));
                }
                OpK::Cuts { entry, text, .. } | OpK::Marathon { entry, text, .. } => {
                    keys.insert((*entry, 0, *text));
                }
                OpK::Comb { comb, text } => {
                    keys.insert((COMB_BASE + *comb as u16, 0, *text));
                }
                _ => {}
            }
        }
        keys.into_iter().map(|k| (k, self.reference(k.0, k.1, &p.texts[k.2 as usize]))).collect()
    }

    fn once(&mut self, p: &Plan, refs: HashMap<RefKey, Ref>, trace: Option<&[Decision]>, wall: u32, verbose: bool) -> Outcome {
        sh().reset();
        let pl: &'static Plan = unsafe { std::mem::transmute::<&Plan, &'static Plan>(p) };
        let e = in_child(CPU_LIMIT, wall, verbose, move || exec::run(pl, refs, trace, verbose));
        let s = sh();
        let (class, msg) = match (e, s.status) {
            (End::Exit(0), ST_OK) => ("ok".to_string(), String::new()),
            (End::Exit(0), ST_VIOLATION) => (s.get_class(), s.get_msg()),
            (End::Exit(0), ST_HARNESS) => ("harness".to_string(), s.get_msg()),
            (End::Signal(14), _) => ("harness-hang".to_string(), "the run made no progress outside the simulator".to_string()),
            (End::Signal(24), _) => ("no-progress".to_string(), format!("operation {} of thread {} used up its processor time", s.cur_op, s.cur_tid)),
            // Parts of std (the nodes of a `BTreeMap`) trap when memory runs out while they are taken apart, whoever uses them.
            (End::Signal(4), _) if s.starved >> (s.cur_op % 64) & 1 == 1 => {
                simcore::count(simcore::C_STD_ABORT, 1);
                ("std-abort".to_string(), format!("std gave up in operation {} of thread {}", s.cur_op, s.cur_tid))
            }
            (End::Signal(n), _) => {
                (format!("crash:{}", sig_name(n)), format!("the process died of {} in operation {} of thread {}", sig_name(n), s.cur_op, s.cur_tid))
            }
            (End::Exit(n), _) => ("crash:exit".to_string(), format!("the process ended with status {} in operation {} of thread {}", n, s.cur_op, s.cur_tid)),
        };
        Outcome {
            class,
            msg,
            decisions: s.decisions[..s.n_decisions as usize].to_vec(),
            lost: s.decisions_lost,
            log_hash: s.log_hash,
            sched_hash: s.sched_hash,
        }
    }

    pub fn run(&mut self, p: &Plan, trace: Option<&[Decision]>, verbose: bool) -> Outcome {
        let refs = self.refs_of(p);
        let o = self.once(p, refs.clone(), trace, 150, verbose);
        if o.class == "harness-hang" {
            return self.once(p, refs, trace, 400, verbose);
        }
        o
    }

    /// Whether what happened breaks the plan's own property.
    pub fn judge(&mut self, p: &Plan, o: &Outcome) -> bool {
        let mine = o.class.starts_with("crash:") || exec::classes(&p.prop).contains(&o.class.as_str());
        if !mine {
            return false;
        }
        if p.prop == "C03" && o.class != "panic-swallowed" {
            // Only what a failure elsewhere brought about: it must not happen without one.
            let mut q = p.clone();
            let strip = |v: &mut Vec<Op>| {
                for x in v.iter_mut() {
                    x.fault = NOFAULT;
                }
                v.retain(|x| !matches!(x.k, OpK::Unwind { .. }));
            };
            strip(&mut q.pre);
            strip(&mut q.post);
            q.threads.iter_mut().for_each(strip);
            for i in 0..16 {
                if self.run(&q, None, false).class == o.class {
                    return false;
                }
                q.knobs.seed = mix(&[q.knobs.seed, i]);
            }
        }
        true
    }

    // ---- minimising ----

    fn fails(&mut self, p: &Plan, tr: &Option<Vec<Decision>>, class: &str) -> Option<Outcome> {
        let o = self.run(p, tr.as_deref(), false);
        (o.class == class).then_some(o)
    }

    pub fn minimise(&mut self, p: &Plan, o: &Outcome, secs: f64) -> (Plan, Option<Vec<Decision>>, Outcome) {
        let t0 = Instant::now();
        let class = o.class.clone();
        let mut best = p.clone();
        let mut tr: Option<Vec<Decision>> = if o.lost == 0 { Some(o.decisions.clone()) } else { None };
        let mut out = match self.fails(&best, &tr, &class) {
            Some(x) => x,
            None => {
                tr = None;
                match self.fails(&best, &tr, &class) {
                    Some(x) => x,
                    // A dying process may lose its trace; keep the plan as it is.
                    None => return (best, tr, self.run(p, None, false)),
                }
            }
        };
        let over = |t0: &Instant| t0.elapsed().as_secs_f64() > secs;
        let take = |best: &mut Plan, out: &mut Outcome, tr: &mut Option<Vec<Decision>>, p: Plan, o: Outcome| {
            if tr.is_some() && !o.class.starts_with("crash") {
                *tr = Some(o.decisions.clone());
            }
            *best = p;
            *out = o;
        };
        // Whole threads, then runs of operations, then single ones.
        let mut changed = true;
        let mut pass = 0;
        while changed && pass < 4 && !over(&t0) {
            changed = false;
            pass += 1;
            for t in 0..best.threads.len() {
                if best.threads[t].is_empty() || over(&t0) {
                    continue;
                }
                let mut q = best.clone();
                q.threads[t].clear();
                if let Some(o) = self.fails(&q, &tr, &class) {
                    take(&mut best, &mut out, &mut tr, q, o);
                    changed = true;
                }
            }
            for which in 0..best.threads.len() + 2 {
                let list = |p: &mut Plan| -> *mut Vec<Op> {
                    match which {
                        0 => &mut p.pre,
                        1 => &mut p.post,
                        n => &mut p.threads[n - 2],
                    }
                };
                let mut size = unsafe { (&*list(&mut best)).len() };
                while size > 0 && !over(&t0) {
                    let mut i = 0;
                    while i < unsafe { (&*list(&mut best)).len() } && !over(&t0) {
                        let mut q = best.clone();
                        unsafe {
                            let l = &mut *list(&mut q);
                            let e = (i + size).min(l.len());
                            l.drain(i..e);
                        }
                        if let Some(o) = self.fails(&q, &tr, &class) {
                            take(&mut best, &mut out, &mut tr, q, o);
                            changed = true;
                        } else {
                            i += size;
                        }
                    }
                    size /= 2;
                }
            }
            // Faults that do not matter, shorter repetitions.
            let ids: Vec<u32> = best.ops().map(|o| o.id).collect();
            for id in ids {
                if over(&t0) {
                    break;
                }
                for how in 0..3 {
                    let mut q = best.clone();
                    let mut did = false;
                    for o in q.pre.iter_mut().chain(q.threads.iter_mut().flatten()).chain(q.post.iter_mut()) {
                        if o.id != id {
                            continue;
                        }
                        match how {
                            0 if o.fault != NOFAULT => {
                                o.fault = NOFAULT;
                                did = true;
                            }
                            1 => match &mut o.k {
                                OpK::Marathon { times, .. } | OpK::Print { times, .. } if *times > 1 => {
                                    *times /= 2;
                                    did = true;
                                }
                                OpK::Gather { n, .. } if *n > 1 => {
                                    *n -= 1;
                                    did = true;
                                }
                                OpK::Crowd { n, .. } if *n > 1 => {
                                    *n /= 2;
                                    did = true;
                                }
                                OpK::Variant { how, .. } if how.count_ones() > 1 => {
                                    *how &= *how - 1;
                                    did = true;
                                }
                                OpK::Cuts { from, to, .. } if *to - *from > 1 => {
                                    *from = (*from + *to) / 2;
                                    did = true;
                                }
                                _ => {}
                            },
                            2 => match &mut o.k {
                                OpK::Cuts { from, to, .. } if *to - *from > 1 => {
                                    *to = (*from + *to).div_ceil(2);
                                    did = true;
                                }
                                _ => {}
                            },
                            _ => {}
                        }
                    }
                    if did {
                        if let Some(o) = self.fails(&q, &tr, &class) {
                            take(&mut best, &mut out, &mut tr, q, o);
                            changed = true;
                        }
                    }
                }
            }
        }
        // Scheduling decisions that do not matter.
        if let Some(mut cur) = tr.clone() {
            let mut size = cur.len().div_ceil(2);
            while size > 0 && !over(&t0) {
                let mut i = 0;
                while i < cur.len() && !over(&t0) {
                    let e = (i + size).min(cur.len());
                    if cur[i..e].iter().all(|d| d.kind == K_BLOCK) && size > 1 {
                        i = e;
                        continue;
                    }
                    let mut c = cur.clone();
                    c.drain(i..e);
                    let t = Some(c.clone());
                    if let Some(o) = self.fails(&best, &t, &class) {
                        cur = c;
                        out = o;
                    } else {
                        i = e;
                    }
                }
                size /= 2;
            }
            tr = Some(cur);
        }
        // Texts: cut what does not matter out of them.
        let n_texts = best.texts.len();
        for ti in 0..n_texts {
            let used = best.ops().any(|o| text_of(o).contains(&(ti as u32)));
            if !used {
                if !best.texts[ti].is_empty() {
                    let mut q = best.clone();
                    q.texts[ti] = String::new();
                    if let Some(o) = self.fails(&q, &tr, &class) {
                        best = q;
                        out = o;
                    }
                }
                continue;
            }
            if matches!(best.prop.as_str(), "C06" | "C13" | "C22") {
                continue;
            }
            let mut size = best.texts[ti].chars().count().div_ceil(2);
            while size > 0 && !over(&t0) {
                let mut i = 0;
                while i < best.texts[ti].chars().count() && !over(&t0) {
                    let mut c: Vec<char> = best.texts[ti].chars().collect();
                    let e = (i + size).min(c.len());
                    c.drain(i..e);
                    let mut q = best.clone();
                    q.texts[ti] = c.into_iter().collect();
                    if let Some(o) = self.fails(&q, &tr, &class) {
                        best = q;
                        out = o;
                    } else {
                        i = e;
                    }
                }
                size /= 2;
            }
        }
        // What is written down is what a run with exactly these decisions gives.
        match self.fails(&best, &tr, &class) {
            Some(o) => (best, tr, o),
            None => (best, tr, out),
        }
    }
}

fn text_of(o: &Op) -> Vec<u32> {
    let mut v = match &o.k {
        OpK::Name { text, .. }
        | OpK::Parse { text, .. }
        | OpK::Comb { text, .. }
        | OpK::Cuts { text, .. }
        | OpK::Damaged { text, .. }
        | OpK::Variant { text, .. }
        | OpK::Unwind { text }
        | OpK::AtExit { text }
        | OpK::Marathon { text, .. }
        | OpK::Crowd { text, .. } => vec![*text],
        OpK::Gather { text, n, .. } => (0..*n).map(|i| *text + i).collect(),
        _ => vec![],
    };
    match o.fault.what {
        What::Reenter(t) | What::Lie(t) => v.push(t),
        _ => {}
    }
    v
}

pub fn replay_text(p: &Plan, tr: &Option<Vec<Decision>>, o: &Outcome, seed: u64, index: u64) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "# simulated run {} of seed {}; class {}", index, seed, o.class);
    for l in o.msg.lines() {
        let _ = writeln!(s, "# {}", l);
    }
    let _ = writeln!(s, "class {}", o.class);
    let _ = writeln!(s, "mode {}", if tr.is_some() { "trace" } else { "seed" });
    let _ = writeln!(s, "hashes {} {}", o.log_hash, o.sched_hash);
    s += &p.to_text();
    if let Some(t) = tr {
        s += &trace_text(t);
    }
    s
}

pub fn pin(i: usize) {
    unsafe {
        let mut m = [0u8; 128];
        raw::sched_getaffinity(0, 128, m.as_mut_ptr());
        let cpus: Vec<usize> = (0..1024).filter(|c| m[c / 8] >> (c % 8) & 1 == 1).collect();
        if cpus.is_empty() {
            return;
        }
        let c = cpus[i % cpus.len()];
        let mut k = [0u8; 128];
        k[c / 8] |= 1 << (c % 8);
        raw::sched_setaffinity(0, 128, k.as_ptr());
    }
}

pub struct Args {
    pub prop: String,
    pub runs: u64,
    pub first: u64,
    pub seed: u64,
    pub workers: usize,
    pub max_secs: f64,
    pub out: String,
    pub interning: bool,
}

fn run_seed(seed: u64, i: u64) -> u64 {
    mix(&[seed, i, 0x5eed])
}

/// Tells every worker to stop (a page shared by all).
fn shared_flag() -> &'static std::sync::atomic::AtomicU64 {
    unsafe {
        let p = raw::mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const std::sync::atomic::AtomicU64)
    }
}

fn faulty(c: &[u64; N_COUNTERS]) -> u64 {
    c[C_PREEMPT] + c[C_SPURIOUS] + c[C_PANIC] + c[C_REENTER] + c[C_STALL] + c[C_ALLOCFAIL] + c[C_FATAL] + c[C_INCOMPLETE] + c[C_LIE]
        + c[C_DAMAGED] + c[C_TRANSFER] + c[C_STALE] + c[C_CUTS] + c[C_UNWINDOP] + c[C_BUFREUSE]
}

fn worker(a: &Args, wi: usize, stop: &std::sync::atomic::AtomicU64) {
    use std::sync::atomic::Ordering::SeqCst;
    pin(wi);
    map_shared();
    let mut rn = Runner::new();
    let t0 = Instant::now();
    let mut runs = 0u64;
    let mut switched_runs = 0u64;
    let mut seen: HashSet<u64> = HashSet::default();
    let mut shapes: HashSet<u64> = HashSet::default();
    let mut nontrivial: HashSet<u64> = HashSet::default();
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    let mut ends: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut found: Vec<String> = Vec::new();
    let mut i = a.first + wi as u64;
    while i < a.first + a.runs && t0.elapsed().as_secs_f64() < a.max_secs {
        if stop.load(SeqCst) != 0 {
            break;
        }
        let p = families::plan(&a.prop, run_seed(a.seed, i), a.interning);
        let refs = rn.refs_of(&p);
        let before = sh().counters;
        let mut o = rn.once(&p, refs.clone(), None, 75, false);
        if o.class == "harness-hang" {
            o = rn.once(&p, refs, None, 200, false);
        }
        let mut delta = sh().counters;
        for (d, b) in delta.iter_mut().zip(before.iter()) {
            *d -= *b;
        }
        runs += 1;
        let h = mix(&[o.log_hash, o.sched_hash]);
        seen.insert(h);
        if delta[C_PREEMPT] > 0 {
            switched_runs += 1;
            shapes.insert(o.sched_hash);
        }
        if faulty(&delta) > 0 {
            nontrivial.insert(h);
        }
        for op in p.ops() {
            let k = format!("{:?}", op.k);
            let k = k.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
            *kinds.entry(k).or_default() += 1;
        }
        *ends.entry(o.class.clone()).or_default() += 1;
        if samples.len() < 2 && wi == 0 && runs % 7 == 3 {
            samples.push(format!(
                "run {} (seed {}): {} threads, {} operations, strategy {:?}, {} decisions, {} steps -> {}",
                i,
                a.seed,
                p.threads.len(),
                p.n_ops(),
                p.knobs.strategy,
                o.decisions.len(),
                delta[C_STEPS],
                o.class
            ));
        }
        if o.class.starts_with("harness") {
            found.push(format!("harness {} {}", i, o.msg.replace('\n', " ")));
            let _ = std::fs::write(format!("{}.harness.{}", a.out, i), replay_text(&p, &None, &o, a.seed, i));
            stop.store(i + 1, SeqCst);
            break;
        }
        if o.class != "ok" && rn.judge(&p, &o) {
            stop.store(i + 1, SeqCst);
            let (q, tr, o2) = rn.minimise(&p, &o, 40.0);
            let path = format!("{}.replay.{}", a.out, i);
            let _ = std::fs::write(&path, replay_text(&q, &tr, &o2, a.seed, i));
            found.push(format!("violation {} {} {} {}", i, path, o2.class, o2.msg.replace('\n', " ")));
            break;
        }
        i += a.workers as u64;
    }
    let mut s = String::new();
    let _ = writeln!(s, "runs {}", runs);
    let _ = writeln!(s, "switched_runs {}", switched_runs);
    let _ = writeln!(s, "reference_runs {}", rn.ref_runs);
    let _ = writeln!(s, "references_lost {}", rn.ref_lost);
    let _ = writeln!(s, "secs {}", t0.elapsed().as_secs_f64());
    let _ = writeln!(s, "edges_total {}", hooks::N_EDGES.load(SeqCst));
    for (i, n) in COUNTER_NAMES.iter().enumerate() {
        if !n.is_empty() {
            let _ = writeln!(s, "counter {} {}", n, sh().counters[i]);
        }
    }
    for (k, n) in kinds {
        let _ = writeln!(s, "op {} {}", k, n);
    }
    for (k, n) in ends {
        let _ = writeln!(s, "end {} {}", k, n);
    }
    for x in samples {
        let _ = writeln!(s, "sample {}", x);
    }
    for x in found {
        let _ = writeln!(s, "{}", x);
    }
    let list = |s: &mut String, k: &str, h: &HashSet<u64>| {
        let _ = write!(s, "{}", k);
        for x in h {
            let _ = write!(s, " {:x}", x);
        }
        s.push('\n');
    };
    list(&mut s, "seen", &seen);
    list(&mut s, "nontrivial", &nontrivial);
    list(&mut s, "schedules", &shapes);
    let e: HashSet<u64> = sh().edges.iter().enumerate().filter(|x| *x.1 != 0).map(|x| x.0 as u64).collect();
    list(&mut s, "edges", &e);
    let _ = std::fs::write(format!("{}.w{}", a.out, wi), s);
}

pub fn explore(a: Args) -> i32 {
    let stop = shared_flag();
    let mut pids = Vec::new();
    for wi in 0..a.workers {
        unsafe {
            let pid = raw::fork();
            if pid < 0 {
                eprintln!("fork failed");
                return 2;
            }
            if pid == 0 {
                raw::sysc(157, 1, 9, 0, 0, 0, 0);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| worker(&a, wi, stop)));
                if r.is_err() {
                    eprintln!("worker {}: {}", wi, crate::exec::last_panic());
                    raw::_exit(101);
                }
                raw::_exit(0);
            }
            pids.push(pid);
        }
    }
    let mut bad = 0;
    for p in pids {
        let mut st = 0;
        unsafe { while raw::waitpid(p, &mut st, 0) != p {} }
        if st != 0 {
            eprintln!("a worker ended with status {:x}", st);
            bad = 2;
        }
    }
    bad
}

/// Runs a replay file; whether it fails as it says.
pub fn replay(file: &str, verbose: bool) -> i32 {
    let s = match std::fs::read_to_string(file) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let (p, tr) = Plan::from_text(&s);
    let field = |k: &str| s.lines().find_map(|l| l.strip_prefix(k).map(|x| x.trim().to_string())).unwrap_or_default();
    let want = field("class ");
    let mode = field("mode ");
    map_shared();
    pin(0);
    let mut rn = Runner::new();
    let t = if mode == "trace" { Some(tr) } else { None };
    let o = rn.run(&p, t.as_deref(), verbose);
    let h = format!("{} {}", o.log_hash, o.sched_hash);
    println!("class {} (recorded {}), hashes {} (recorded {})", o.class, want, h, field("hashes "));
    println!("{}", o.msg);
    if o.class == want {
        println!("VIOLATION property={} replay={}", p.prop, file);
        return 1;
    }
    if o.class == "ok" {
        0
    } else {
        println!("VIOLATION property={} replay={}", p.prop, file);
        1
    }
}

/// Every run twice and once more from its own trace: all three must agree.
pub fn selftest(prop: &str, seed: u64, first: u64, n: u64, interning: bool, print: bool) -> i32 {
    map_shared();
    pin(0);
    let mut rn = Runner::new();
    let mut bad = 0;
    for i in first..first + n {
        let p = families::plan(prop, run_seed(seed, i), interning);
        let (p2, _) = Plan::from_text(&p.to_text());
        let a = rn.run(&p, None, false);
        let b = rn.run(&p2, None, false);
        let c = if a.lost == 0 { Some(rn.run(&p2, Some(&a.decisions), false)) } else { None };
        if print {
            println!("{} {} {:x} {:x}", i, a.class, a.log_hash, a.sched_hash);
        }
        let crash = a.class.starts_with("crash");
        if !a.same(&b) || c.as_ref().is_some_and(|c| !crash && !a.same(c)) {
            bad += 1;
            if let Some(c) = &c {
                let k = a.decisions.iter().zip(c.decisions.iter()).position(|(x, y)| x != y).unwrap_or(a.decisions.len().min(c.decisions.len()));
                for d in 0..3 {
                    eprintln!("   {}: {:?} / {:?}", k + d, a.decisions.get(k + d), c.decisions.get(k + d));
                }
            }
            eprintln!(
                "{} run {}: first {} {:x} {:x}, again {} {:x} {:x}, from trace {:?}",
                prop,
                i,
                a.class,
                a.log_hash,
                a.sched_hash,
                b.class,
                b.log_hash,
                b.sched_hash,
                c.map(|c| (c.class, format!("{:x} {:x}", c.log_hash, c.sched_hash)))
            );
        }
    }
    eprintln!("{}: {} runs, {} not repeatable", prop, n, bad);
    (bad > 0) as i32
}

/// How often the generated texts are accepted, and steps per byte.
pub fn genstats(n: u64) {
    map_shared();
    pin(0);
    let mut rn = Runner::new();
    for (e, en) in ENTRIES.iter().enumerate() {
        let (mut ok, mut full, mut bytes, mut steps, mut worst) = (0, 0, 0u64, 0u64, 0f64);
        let mut bad = String::new();
        for k in 0..n {
            let mut g = crate::gen::G::new(mix(&[e as u64, k, 77]));
            let t = g.entry(en.name);
            let r = rn.reference(e as u16, 0, &t);
            if r.kind == 0 {
                ok += 1;
                if r.rest_len == 0 {
                    full += 1;
                } else if bad.is_empty() {
                    bad = format!("left {:?}", &t[r.rest_off as usize..]);
                }
            } else {
                bad = format!("kind {} {:?}", r.kind, t);
            }
            bytes += t.len() as u64;
            steps += r.steps;
            worst = worst.max(r.steps as f64 / (t.len() + 20) as f64);
        }
        bad = bad.chars().take(150).collect();
        println!("{:30} ok {:>4} whole {:>4} of {} avg {:>6} bytes {:>6} steps/byte worst {:>8.0}  {}", en.name, ok, full, n, bytes / n, steps / bytes.max(1), worst, bad);
    }
}
