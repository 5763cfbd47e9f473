//! Texts: a random generator for every construct of the grammar, name pools, and the damage a bad disk or copy does.
use simcore::Rng;

pub struct G {
    pub r: Rng,
    pub names: Vec<String>,
    /// 0: single spaces; 1: newlines and indentation; 2: also comments.
    pub style: u8,
    pub depth: u32,
    pub wide: usize,
    /// The how manieth list from now becomes very long, and how long.
    pub boost: (u32, usize),
}

type S = String;

impl G {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng::new(seed);
        let n = *r.pick(&[2usize, 4, 8, 20]);
        let fam = r.below(6);
        let mut names = Vec::new();
        for i in 0..n {
            names.push(pddl_name(&mut r, fam, i));
        }
        let style = *r.pick(&[0, 0, 1, 1, 2]);
        let depth = r.range(1, 4) as u32;
        let wide = *r.pick(&[1usize, 2, 3, 5]);
        G { r, names, style, depth, wide, boost: (0, 0) }
    }
    /// White space that the grammar requires.
    fn s(&mut self) -> S {
        match self.style {
            0 => " ".into(),
            _ => match self.r.below(12) {
                0 => "\n".into(),
                1 => "\n    ".into(),
                2 => "\t".into(),
                3 => "\r\n  ".into(),
                4 => "  ".into(),
                _ => " ".into(),
            },
        }
    }
    /// White space before an opening parenthesis or list element, where comments may stand.
    fn c(&mut self) -> S {
        if self.style == 2 && self.r.chance(1, 8) {
            let k = self.r.below(6);
            let t = match k {
                0 => "; a comment",
                1 => ";; (with (parens",
                2 => "; closing ))) here",
                3 => "; two\n   ; lines",
                4 => ";",
                _ => "; caf\u{e9} \u{6f22}",
            };
            return format!("\n  {}\n  ", t);
        }
        self.s()
    }
    pub fn name(&mut self) -> S {
        self.r.pick(&self.names).clone()
    }
    fn n(&mut self, lo: usize) -> usize {
        let n = lo + self.r.us(self.wide + 1);
        self.boosted().unwrap_or(n)
    }
    fn boosted(&mut self) -> Option<usize> {
        if self.boost.0 > 0 {
            self.boost.0 -= 1;
            if self.boost.0 == 0 {
                return Some(self.boost.1);
            }
        }
        None
    }
    /// The elements of a very long list are small.
    fn small(&mut self, n: usize) -> (u32, usize) {
        let old = (self.depth, self.wide);
        if n > 100 {
            self.depth = self.depth.min(1);
            self.wide = self.wide.min(1);
        }
        old
    }
    fn num(&mut self) -> S {
        match self.r.below(6) {
            0 => format!("{}", self.r.below(10)),
            1 => format!("{}.{}", self.r.below(1000), self.r.below(1000)),
            2 => "0".into(),
            3 => "3.5".into(),
            4 => format!("{}", self.r.below(1 << 30)),
            _ => format!("{}.0", self.r.below(100)),
        }
    }
    fn var(&mut self) -> S {
        format!("?{}", self.name())
    }
    fn list(&mut self, lo: usize, f: fn(&mut G) -> S) -> S {
        let n = self.n(lo);
        let old = self.small(n);
        let mut o = S::new();
        for i in 0..n {
            if i > 0 {
                o += &self.c();
            }
            o += &f(self);
        }
        (self.depth, self.wide) = old;
        o
    }
    fn typ(&mut self) -> S {
        match self.r.below(6) {
            0 => "object".into(),
            1 => "number".into(),
            2 => {
                let l = match self.r.below(6) {
                    0 => (0..4 + self.r.us(14)).map(|_| self.name()).collect::<Vec<_>>().join(" "),
                    _ => self.list(1, G::name),
                };
                format!("(either {})", l)
            }
            _ => self.name(),
        }
    }
    fn typed(&mut self, f: fn(&mut G) -> S) -> S {
        let groups = self.r.us(3);
        let groups = self.boosted().unwrap_or(groups);
        let old = self.small(groups);
        let mut o = S::new();
        for _ in 0..groups {
            let l = self.list(1, f);
            let t = self.typ();
            if !o.is_empty() {
                o += &self.s();
            }
            o += &format!("{} - {}", l, t);
        }
        if groups == 0 || self.r.chance(1, 2) {
            let l = self.list(0, f);
            if !l.is_empty() {
                if !o.is_empty() {
                    o += &self.s();
                }
                o += &l;
            }
        }
        (self.depth, self.wide) = old;
        o
    }
    fn vars(&mut self) -> S {
        self.typed(G::var)
    }
    fn fterm(&mut self) -> S {
        let n = self.name();
        let l = self.list(0, G::term);
        if l.is_empty() {
            format!("({})", n)
        } else {
            format!("({} {})", n, l)
        }
    }
    fn term(&mut self) -> S {
        match self.r.below(8) {
            0 if self.depth > 0 => self.deeper(G::fterm),
            1..=4 => self.var(),
            _ => self.name(),
        }
    }
    fn deeper(&mut self, f: fn(&mut G) -> S) -> S {
        self.depth = self.depth.saturating_sub(1);
        let o = f(self);
        self.depth += 1;
        o
    }
    fn af(&mut self, t: fn(&mut G) -> S) -> S {
        if self.r.chance(1, 4) {
            let (a, b) = (t(self), t(self));
            format!("(= {} {})", a, b)
        } else {
            let p = self.name();
            let l = self.list(0, t);
            if l.is_empty() {
                format!("({})", p)
            } else {
                format!("({} {})", p, l)
            }
        }
    }
    fn af_t(&mut self) -> S {
        self.af(G::term)
    }
    fn lit_n(&mut self) -> S {
        let a = self.af(G::name);
        if self.r.chance(1, 4) {
            format!("(not {})", a)
        } else {
            a
        }
    }
    fn quant(&mut self, kw: &str, f: fn(&mut G) -> S) -> S {
        let v = self.vars();
        let (c, b) = (self.s(), self.deeper(f));
        format!("({} ({}){}{})", kw, v, c, b)
    }
    fn gd(&mut self) -> S {
        if self.depth == 0 {
            return self.af_t();
        }
        match self.r.below(10) {
            0 | 1 => {
                let l = self.deeper(|g| g.list(0, G::gd));
                format!("(and {})", l)
            }
            2 => {
                let l = self.deeper(|g| g.list(0, G::gd));
                format!("(or {})", l)
            }
            3 => format!("(not {})", self.deeper(G::gd)),
            4 => {
                let (a, c, b) = (self.deeper(G::gd), self.s(), self.deeper(G::gd));
                format!("(imply {}{}{})", a, c, b)
            }
            5 => self.quant("exists", G::gd),
            6 => self.quant("forall", G::gd),
            7 => self.fcomp(),
            _ => self.af_t(),
        }
    }
    fn fcomp(&mut self) -> S {
        let op = *self.r.pick(&[">", "<", "=", ">=", "<="]);
        let (a, b) = (self.fexp(), self.fexp());
        format!("({} {} {})", op, a, b)
    }
    fn fhead(&mut self) -> S {
        match self.r.below(3) {
            0 => self.name(),
            1 => {
                let n = self.name();
                format!("({})", n)
            }
            _ => {
                let n = self.name();
                let l = self.list(1, G::term);
                format!("({} {})", n, l)
            }
        }
    }
    fn arith(&mut self, leaf: fn(&mut G) -> S, rec: fn(&mut G) -> S) -> S {
        if self.depth <= 1 {
            return leaf(self);
        }
        match self.r.below(7) {
            0 | 1 => {
                let op = *self.r.pick(&["+", "-", "*", "/"]);
                let (a, b) = (self.deeper2(rec), self.deeper2(rec));
                format!("({} {} {})", op, a, b)
            }
            2 => {
                let op = *self.r.pick(&["+", "*"]);
                let (a, b, c) = (leaf(self), leaf(self), self.deeper2(rec));
                format!("({} {} {} {})", op, a, b, c)
            }
            3 => format!("(- {})", self.deeper2(rec)),
            _ => leaf(self),
        }
    }
    fn deeper2(&mut self, f: fn(&mut G) -> S) -> S {
        // Arithmetic nests little: its parse time grows exponentially with depth (a known finding).
        let d = self.depth;
        self.depth = d.saturating_sub(1).min(2);
        let o = f(self);
        self.depth = d;
        o
    }
    fn fleaf(&mut self) -> S {
        if self.r.chance(1, 2) {
            self.num()
        } else {
            self.fhead()
        }
    }
    fn fexp(&mut self) -> S {
        self.arith(G::fleaf, G::fexp)
    }
    fn fexp_da(&mut self) -> S {
        self.arith(
            |g| if g.r.chance(1, 3) { "?duration".into() } else { g.fleaf() },
            G::fexp_da,
        )
    }
    fn fexp_t(&mut self) -> S {
        match self.r.below(3) {
            0 => "#t".into(),
            1 => format!("(* #t {})", self.fexp()),
            _ => format!("(* {} #t)", self.fexp()),
        }
    }
    fn mfexp(&mut self) -> S {
        self.arith(
            |g| match g.r.below(5) {
                0 => "total-time".into(),
                1 => format!("(is-violated {})", g.name()),
                2 => g.num(),
                3 => g.name(),
                _ => {
                    let n = g.name();
                    let l = g.list(0, G::name);
                    format!("({} {})", n, l)
                }
            },
            G::mfexp,
        )
    }
    fn pref_gd(&mut self) -> S {
        match self.r.below(5) {
            0 => {
                let (n, g) = (self.name(), self.gd());
                format!("(preference {} {})", n, g)
            }
            1 => format!("(preference {})", self.gd()),
            _ => self.gd(),
        }
    }
    fn pre_gd(&mut self) -> S {
        if self.depth == 0 {
            return self.pref_gd();
        }
        match self.r.below(4) {
            0 => {
                let l = self.deeper(|g| g.list(0, G::pre_gd));
                format!("(and {})", l)
            }
            1 => self.quant("forall", G::pre_gd),
            _ => self.pref_gd(),
        }
    }
    fn con2(&mut self) -> S {
        if self.depth > 0 && self.r.chance(1, 2) {
            self.deeper(G::con_gd)
        } else {
            self.gd()
        }
    }
    fn con_gd(&mut self) -> S {
        let (n1, n2) = (self.num(), self.num());
        match self.r.below(12) {
            0 => {
                let l = if self.depth > 0 { self.deeper(|g| g.list(0, G::con_gd)) } else { S::new() };
                format!("(and {})", l)
            }
            1 if self.depth > 0 => self.quant("forall", G::con_gd),
            2 => format!("(at end {})", self.gd()),
            3 => format!("(always {})", self.con2()),
            4 => format!("(sometime {})", self.con2()),
            5 => format!("(within {} {})", n1, self.con2()),
            6 => format!("(at-most-once {})", self.con2()),
            7 => {
                let (a, b) = (self.con2(), self.con2());
                format!("(sometime-after {} {})", a, b)
            }
            8 => {
                let (a, b) = (self.con2(), self.con2());
                format!("(sometime-before {} {})", a, b)
            }
            9 => {
                let (a, b) = (self.con2(), self.con2());
                format!("(always-within {} {} {})", n1, a, b)
            }
            10 => format!("(hold-during {} {} {})", n1, n2, self.con2()),
            _ => format!("(hold-after {} {})", n1, self.con2()),
        }
    }
    fn pref_con_gd(&mut self) -> S {
        match self.r.below(6) {
            0 if self.depth > 0 => {
                let l = self.deeper(|g| g.list(0, G::pref_con_gd));
                format!("(and {})", l)
            }
            1 if self.depth > 0 => self.quant("forall", G::pref_con_gd),
            2 => {
                let (n, g) = (self.name(), self.con_gd());
                format!("(preference {} {})", n, g)
            }
            3 => format!("(preference {})", self.con_gd()),
            _ => self.con_gd(),
        }
    }
    fn p_effect(&mut self) -> S {
        match self.r.below(8) {
            0 => format!("(not {})", self.af_t()),
            1 => {
                let op = *self.r.pick(&["change", "assign", "scale-up", "scale-down", "increase", "decrease"]);
                let (h, e) = (self.fhead(), self.fexp());
                format!("({} {} {})", op, h, e)
            }
            2 => format!("(assign {} undefined)", self.fterm()),
            3 => {
                let (f, t) = (self.fterm(), self.term());
                format!("(assign {} {})", f, t)
            }
            _ => self.af_t(),
        }
    }
    fn cond_effect(&mut self) -> S {
        if self.r.chance(1, 2) {
            let l = self.list(0, G::p_effect);
            format!("(and {})", l)
        } else {
            self.p_effect()
        }
    }
    fn forall_c(&mut self) -> S {
        self.quant("forall", G::effect)
    }
    fn when_c(&mut self) -> S {
        let (g, c, e) = (self.gd(), self.s(), self.cond_effect());
        format!("(when {}{}{})", g, c, e)
    }
    fn c_effect(&mut self) -> S {
        match self.r.below(5) {
            0 if self.depth > 0 => self.forall_c(),
            1 => self.when_c(),
            _ => self.p_effect(),
        }
    }
    fn effect(&mut self) -> S {
        if self.r.chance(1, 2) {
            let l = self.list(0, G::c_effect);
            format!("(and {})", l)
        } else {
            self.c_effect()
        }
    }
    fn tspec(&mut self) -> S {
        (*self.r.pick(&["start", "end"])).into()
    }
    fn timed_gd(&mut self) -> S {
        if self.r.chance(1, 2) {
            let (t, g) = (self.tspec(), self.gd());
            format!("(at {} {})", t, g)
        } else {
            format!("(over all {})", self.gd())
        }
    }
    fn pref_timed_gd(&mut self) -> S {
        match self.r.below(4) {
            0 => {
                let (n, g) = (self.name(), self.timed_gd());
                format!("(preference {} {})", n, g)
            }
            1 => format!("(preference {})", self.timed_gd()),
            _ => self.timed_gd(),
        }
    }
    fn da_gd(&mut self) -> S {
        if self.depth == 0 {
            return self.pref_timed_gd();
        }
        match self.r.below(4) {
            0 => {
                let l = self.deeper(|g| g.list(0, G::da_gd));
                format!("(and {})", l)
            }
            1 => self.quant("forall", G::da_gd),
            _ => self.pref_timed_gd(),
        }
    }
    fn f_assign_da(&mut self) -> S {
        let op = *self.r.pick(&["change", "assign", "scale-up", "scale-down", "increase", "decrease"]);
        let (h, e) = (self.fhead(), self.fexp_da());
        format!("({} {} {})", op, h, e)
    }
    fn timed_effect(&mut self) -> S {
        match self.r.below(3) {
            0 => {
                let (t, e) = (self.tspec(), self.cond_effect());
                format!("(at {} {})", t, e)
            }
            1 => {
                let (t, e) = (self.tspec(), self.f_assign_da());
                format!("(at {} {})", t, e)
            }
            _ => {
                let op = *self.r.pick(&["increase", "decrease"]);
                let (h, e) = (self.fhead(), self.fexp_t());
                format!("({} {} {})", op, h, e)
            }
        }
    }
    fn da_effect(&mut self) -> S {
        if self.depth == 0 {
            return self.timed_effect();
        }
        match self.r.below(5) {
            0 => {
                let l = self.deeper(|g| g.list(0, G::da_effect));
                format!("(and {})", l)
            }
            1 => self.quant("forall", G::da_effect),
            2 => {
                let (g, c, e) = (self.da_gd(), self.s(), self.timed_effect());
                format!("(when {}{}{})", g, c, e)
            }
            _ => self.timed_effect(),
        }
    }
    fn simple_dur(&mut self) -> S {
        if self.depth > 0 && self.r.chance(1, 4) {
            let (t, d) = (self.tspec(), self.deeper(G::simple_dur));
            return format!("(at {} {})", t, d);
        }
        let op = *self.r.pick(&["<=", ">=", "="]);
        let v = self.d_value();
        format!("({} ?duration {})", op, v)
    }
    fn d_value(&mut self) -> S {
        if self.r.chance(1, 2) {
            self.num()
        } else {
            self.fexp()
        }
    }
    fn dur(&mut self) -> S {
        match self.r.below(4) {
            0 => "()".into(),
            1 => {
                let l = self.list(1, G::simple_dur);
                format!("(and {})", l)
            }
            _ => self.simple_dur(),
        }
    }
    fn skel(&mut self) -> S {
        let n = self.name();
        let v = self.vars();
        format!("({} {})", n, v)
    }
    fn action(&mut self) -> S {
        let n = self.name();
        let v = self.vars();
        let (c1, c2, c3) = (self.s(), self.s(), self.s());
        let mut o = format!("(:action {}{}:parameters ({})", n, c1, v);
        if self.r.chance(5, 6) {
            let g = if self.r.chance(1, 8) { "()".into() } else { self.pre_gd() };
            o += &format!("{}:precondition {}", c2, g);
        }
        if self.r.chance(5, 6) {
            let g = if self.r.chance(1, 8) { "()".into() } else { self.effect() };
            o += &format!("{}:effect {}", c3, g);
        }
        o += ")";
        o
    }
    fn da(&mut self) -> S {
        let n = self.name();
        let v = self.vars();
        let d = self.dur();
        let c = if self.r.chance(1, 6) { "()".into() } else { self.da_gd() };
        let e = if self.r.chance(1, 6) { "()".into() } else { self.da_effect() };
        let (a, b) = (self.s(), self.s());
        format!("(:durative-action {}{}:parameters ({}){}:duration {} :condition {} :effect {})", n, a, v, b, d, c, e)
    }
    fn derived(&mut self) -> S {
        let (s, c, g) = (self.skel(), self.s(), self.gd());
        format!("(:derived {}{}{})", s, c, g)
    }
    fn structure(&mut self) -> S {
        match self.r.below(4) {
            0 => self.derived(),
            1 => self.da(),
            _ => self.action(),
        }
    }
    fn req(&mut self) -> S {
        (*self.r.pick(&REQS)).into()
    }
    fn reqs(&mut self) -> S {
        let l = self.list(1, G::req);
        format!("(:requirements {})", l)
    }
    fn sect(&mut self, kw: &str, f: fn(&mut G) -> S) -> S {
        let b = f(self);
        let c = self.c();
        format!("({}{}{})", kw, c, b)
    }
    fn init_el(&mut self) -> S {
        match self.r.below(6) {
            0 => {
                let (n, l) = (self.num(), self.lit_n());
                format!("(at {} {})", n, l)
            }
            1 => {
                let (b, n) = (self.bft(), self.num());
                format!("(= {} {})", b, n)
            }
            2 => {
                let (b, n) = (self.bft(), self.name());
                format!("(= {} {})", b, n)
            }
            _ => self.lit_n(),
        }
    }
    fn bft(&mut self) -> S {
        if self.r.chance(1, 3) {
            self.name()
        } else {
            let n = self.name();
            let l = self.list(0, G::name);
            format!("({} {})", n, l)
        }
    }
    fn functions(&mut self) -> S {
        self.typed(G::skel)
    }
    fn length(&mut self) -> S {
        let mut o = S::from("(:length");
        if self.r.chance(2, 3) {
            o += &format!(" (:serial {})", self.r.below(1000));
        }
        if self.r.chance(2, 3) {
            o += &format!(" (:parallel {})", self.r.below(1000));
        }
        o + ")"
    }
    fn metric(&mut self) -> S {
        let o = *self.r.pick(&["minimize", "maximize"]);
        let e = self.mfexp();
        format!("(:metric {} {})", o, e)
    }
    fn types(&mut self) -> S {
        self.typed(G::name)
    }
    pub fn domain(&mut self) -> S {
        let n = self.name();
        let mut o = format!("(define (domain {})", n);
        let mut add = |g: &mut G, num: u64, den: u64, f: &mut dyn FnMut(&mut G) -> S| {
            if g.r.chance(num, den) {
                let c = g.c();
                let t = f(g);
                o += &c;
                o += &t;
            }
        };
        add(self, 1, 5, &mut |g| {
            let l = g.list(1, G::name);
            format!("(:extends {})", l)
        });
        add(self, 2, 3, &mut |g| g.reqs());
        add(self, 2, 3, &mut |g| g.sect(":types", G::types));
        add(self, 1, 2, &mut |g| g.sect(":constants", G::types));
        add(self, 2, 3, &mut |g| g.sect(":predicates", |g| g.list(1, G::skel)));
        add(self, 1, 2, &mut |g| g.sect(":functions", G::functions));
        add(self, 1, 3, &mut |g| g.sect(":constraints", G::con_gd));
        let k = self.n(0);
        let old = self.small(k);
        for _ in 0..k {
            add(self, 1, 1, &mut |g| g.structure());
        }
        (self.depth, self.wide) = old;
        let e = if self.style > 0 && self.r.chance(1, 3) { "\n" } else { "" };
        o + e + ")"
    }
    pub fn problem(&mut self) -> S {
        let (n, d) = (self.name(), self.name());
        let mut o = format!("(define (problem {}) (:domain {})", n, d);
        let mut add = |g: &mut G, num: u64, den: u64, f: &mut dyn FnMut(&mut G) -> S| {
            if g.r.chance(num, den) {
                let c = g.c();
                let t = f(g);
                o += &c;
                o += &t;
            }
        };
        add(self, 1, 3, &mut |g| g.reqs());
        add(self, 2, 3, &mut |g| g.sect(":objects", G::types));
        add(self, 1, 1, &mut |g| {
            let l = g.list(0, G::init_el);
            format!("(:init {})", l)
        });
        add(self, 1, 1, &mut |g| g.sect(":goal", G::pre_gd));
        add(self, 1, 3, &mut |g| g.sect(":constraints", G::pref_con_gd));
        add(self, 1, 3, &mut |g| g.metric());
        add(self, 1, 4, &mut |g| g.length());
        let e = if self.style > 0 && self.r.chance(1, 3) { "\n" } else { "" };
        o + e + ")"
    }
    /// A text for the entry point with this name.
    pub fn entry(&mut self, e: &str) -> S {
        match e {
            "Domain" => self.domain(),
            "Problem" => self.problem(),
            "Name" | "Predicate" | "FunctionSymbol" | "ActionSymbol" | "DurativeActionSymbol" | "PreferenceName" => {
                self.name()
            }
            "PrimitiveType" => {
                if self.r.chance(1, 4) {
                    "object".into()
                } else {
                    self.name()
                }
            }
            "Variable" => self.var(),
            "Type" | "FunctionType" => self.typ(),
            "Number" => self.num(),
            "Term" => self.term(),
            "FunctionTerm" => self.fterm(),
            "BasicFunctionTerm" => self.bft(),
            "Constants" => self.sect(":constants", G::types),
            "Types" => self.sect(":types", G::types),
            "Objects" => self.sect(":objects", G::types),
            "Functions" => self.sect(":functions", G::functions),
            "PredicateDefinitions" => self.sect(":predicates", |g| g.list(1, G::skel)),
            "Requirements" => self.reqs(),
            "Requirement" => self.req(),
            "AtomicFormulaSkeleton" | "AtomicFunctionSkeleton" => self.skel(),
            "GoalDefinition" => self.gd(),
            "PreconditionGoalDefinitions" => self.pre_gd(),
            "PreferenceGD" => self.pref_gd(),
            "ConGD" => self.con_gd(),
            "Con2GD" => self.con2(),
            "PrefConGDs" => self.pref_con_gd(),
            "Effects" => self.effect(),
            "CEffect" => self.c_effect(),
            "ForallCEffect" => self.forall_c(),
            "WhenCEffect" => self.when_c(),
            "PEffect" => self.p_effect(),
            "ConditionalEffect" => self.cond_effect(),
            "DurativeActionGoalDefinition" => self.da_gd(),
            "PrefTimedGD" => self.pref_timed_gd(),
            "TimedGD" => self.timed_gd(),
            "DurativeActionEffect" => self.da_effect(),
            "TimedEffect" => self.timed_effect(),
            "DurationConstraint" => self.dur(),
            "SimpleDurationConstraint" => self.simple_dur(),
            "DurationValue" => self.d_value(),
            "DOp" => (*self.r.pick(&["<=", ">=", "="])).into(),
            "FExp" => self.fexp(),
            "FExpDa" => self.fexp_da(),
            "FExpT" => self.fexp_t(),
            "FHead" => self.fhead(),
            "FComp" => self.fcomp(),
            "FAssignDa" => self.f_assign_da(),
            "InitElements" => {
                let l = self.list(0, G::init_el);
                format!("(:init {})", l)
            }
            "InitElement" => self.init_el(),
            "GoalDef" => self.sect(":goal", G::pre_gd),
            "MetricSpec" => self.metric(),
            "MetricFExp" => self.mfexp(),
            "LengthSpec" => self.length(),
            "Timeless" => {
                let l = self.list(1, G::lit_n);
                format!("(:timeless {})", l)
            }
            "Interval" => "all".into(),
            "TimeSpecifier" => self.tspec(),
            "AssignOp" => (*self.r.pick(&["change", "assign", "scale-up", "scale-down", "increase", "decrease"])).into(),
            "AssignOpT" => (*self.r.pick(&["increase", "decrease"])).into(),
            "BinaryOp" => (*self.r.pick(&["*", "+", "-", "/"])).into(),
            "BinaryComp" => (*self.r.pick(&[">", "<", "=", ">=", "<="])).into(),
            "MultiOp" => (*self.r.pick(&["*", "+"])).into(),
            "Optimization" => (*self.r.pick(&["minimize", "maximize"])).into(),
            "DomainConstraintsDef" => self.sect(":constraints", G::con_gd),
            "ProblemConstraintsDef" => self.sect(":constraints", G::pref_con_gd),
            "StructureDef" => self.structure(),
            "ActionDefinition" => self.action(),
            "DurativeActionDefinition" => self.da(),
            "DerivedPredicate" => self.derived(),
            "comment" => format!("; {}\n  ; more\n;\n{}", self.name(), self.name()),
            _ => panic!("no generator for {}", e),
        }
    }
    /// A list of bare elements for the public combinators.
    pub fn comb(&mut self, c: u8) -> S {
        match c {
            0 => self.types(),
            1 => {
                // Element parser: function skeletons.
                self.functions()
            }
            2 => self.lit_n(),
            3 => self.af(G::name),
            _ => {
                if self.r.chance(1, 4) {
                    "()".into()
                } else {
                    self.name()
                }
            }
        }
    }
}

pub const REQS: [&str; 21] = [
    ":strips", ":typing", ":negative-preconditions", ":disjunctive-preconditions", ":equality",
    ":existential-preconditions", ":universal-preconditions", ":quantified-preconditions", ":conditional-effects",
    ":fluents", ":numeric-fluents", ":object-fluents", ":adl", ":durative-actions", ":duration-inequalities",
    ":continuous-effects", ":derived-predicates", ":timed-initial-literals", ":preferences", ":constraints",
    ":action-costs",
];

const KEYWORDS: [&str; 24] = [
    "object", "number", "objects", "numbers", "either", "and", "or", "not", "define", "domain", "problem", "when",
    "forall", "preference", "undefined", "total-time", "start", "end", "all", "assign", "at", "over", "Object",
    "NUMBER",
];

/// A name that the grammar accepts.
pub fn pddl_name(r: &mut Rng, fam: u64, i: usize) -> String {
    let base = ["a", "at", "loc", "truck", "robot", "x", "fuel-level", "is_open", "B", "city"];
    match fam {
        0 => format!("{}{}", r.pick(&base), i),
        1 => format!("node-{}", i),
        2 => {
            // Names that agree on a long prefix.
            let l = *r.pick(&[7usize, 8, 15, 16, 24, 31, 32, 63, 64, 100, 255, 256, 300]);
            format!("{}{}", "p".repeat(l), (b'a' + (i % 26) as u8) as char)
        }
        3 => {
            // Case variants and permutations.
            let v = ["loc", "Loc", "LOC", "lOc", "col", "clo", "olc", "ocl", "lco"];
            format!("{}{}", v[i % v.len()], if i < v.len() { "".into() } else { format!("{}", i / v.len()) })
        }
        4 if i < 3 => (*r.pick(&KEYWORDS)).into(),
        _ => {
            let l = *r.pick(&[1usize, 2, 3, 5, 8, 13, 23, 40]);
            let mut s = String::new();
            for k in 0..l {
                let c = if k == 0 {
                    *r.pick(b"abcxyzABCXYZ")
                } else {
                    *r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_")
                };
                s.push(c as char);
            }
            s
        }
    }
}

/// Pairs with the same 32-bit FNV-1a, djb2 or CRC value.
const COLLIDING: [&str; 14] = [
    "costarring", "liquor", "declinate", "macallums", "altarage", "zinke", "hetairas", "mentioner", "heliotropes",
    "neurospora", "plumless", "buckeroo", "Aa", "BB",
];

/// Any text a name can be made from.
pub fn any_texts(r: &mut Rng, n: usize) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let fam = r.below(13);
    let plen = *r.pick(&[1usize, 3, 7, 8, 15, 16, 23, 24, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 1024, 4095, 4096]);
    let odd = [
        "", " ", "object", "number", "Object", "objects", "objec", "NUMBER", "number ", "a", "A", "b", "a b", "a\u{0}b",
        "\u{0}", "caf\u{e9}", "cafe\u{301}", "stra\u{df}e", "STRASSE", "\u{130}", "i\u{307}", "\u{6f22}\u{5b57}",
        "\u{1f600}", "\u{feff}x", "a\n", "\ta", "-", "_", "?x", "(and)", "0", "00", "\u{212a}", "k", "K", "\u{ff21}",
        "\u{10ffff}", "\u{7f}", "zz", "zzz", "object\u{0}",
    ];
    for i in 0..n {
        let t = match fam {
            0 => format!("n{}", i),
            1 => format!("{}{}", "q".repeat(plen), i),
            2 => format!("{}{}", i, "s".repeat(plen)),
            3 => format!("{}{}{}", "m".repeat(plen / 2), i, "m".repeat(plen / 2)),
            4 | 5 => (*r.pick(&odd)).to_string(),
            6 => {
                // Same length, same letters, different order.
                let mut c: Vec<u8> = b"abcdefgh".to_vec();
                r.shuffle(&mut c);
                String::from_utf8(c).unwrap()
            }
            7 => {
                let l = plen + r.us(3) - r.us(2).min(plen);
                "z".repeat(l)
            }
            8 => {
                let base = "Mixed-Case-Name";
                base.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
            }
            9 => {
                let l = r.us(6);
                (0..l).map(|_| *r.pick(&['a', 'b', '\u{e9}', '\u{6f22}', '-', '\u{1f600}'])).collect()
            }
            10 => {
                let k = r.below(6);
                pddl_name(r, k, i)
            }
            11 => {
                // Texts that agree under well-known hashes.
                if r.chance(1, 2) {
                    let l = *r.pick(&[1usize, 2, 2, 3]);
                    (0..l).map(|_| *r.pick(&["Aa", "BB"])).collect()
                } else {
                    (*r.pick(&COLLIDING)).to_string()
                }
            }
            _ => {
                if r.chance(1, 3) {
                    (*r.pick(&odd)).to_string()
                } else {
                    let l = r.us(4);
                    (0..l).map(|_| *r.pick(&['a', 'b'])).collect()
                }
            }
        };
        out.push(t);
    }
    out
}

pub const DAMAGE: [&str; 15] = [
    "flip", "flips", "lostblock", "dupblock", "swapblock", "misdirected", "torn", "zeroed", "garbage", "flood", "splice",
    "multibyte", "crlf", "token", "digits",
];

fn floor_char(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// What became of the text on its way: returns the damaged text and the kind of damage (index into `DAMAGE`).
pub fn damage(r: &mut Rng, text: &str, other: &str) -> (String, usize) {
    let k = r.us(DAMAGE.len());
    let mut b = text.as_bytes().to_vec();
    let n = b.len().max(1);
    let blk = *r.pick(&[1usize, 4, 8, 16, 64, 512]);
    let blk = blk.min(n);
    let nb = n / blk;
    let out = match DAMAGE[k] {
        "flip" => {
            if !b.is_empty() {
                let i = r.us(b.len());
                b[i] ^= 1 << r.below(8);
            }
            String::from_utf8_lossy(&b).into_owned()
        }
        "flips" => {
            let m = r.range(2, 20);
            for _ in 0..m {
                if !b.is_empty() {
                    let i = r.us(b.len());
                    b[i] ^= 1 << r.below(8);
                }
            }
            String::from_utf8_lossy(&b).into_owned()
        }
        "lostblock" => {
            let i = r.us(nb.max(1)) * blk;
            let e = (i + blk).min(b.len());
            b.drain(i.min(e)..e);
            String::from_utf8_lossy(&b).into_owned()
        }
        "dupblock" => {
            let i = (r.us(nb.max(1)) * blk).min(b.len());
            let e = (i + blk).min(b.len());
            let c = b[i..e].to_vec();
            let times = r.range(1, 4);
            for _ in 0..times {
                b.splice(e..e, c.iter().copied());
            }
            String::from_utf8_lossy(&b).into_owned()
        }
        "swapblock" => {
            let i = r.us(nb.max(1)) * blk;
            let j = r.us(nb.max(1)) * blk;
            for d in 0..blk {
                if i + d < b.len() && j + d < b.len() {
                    b.swap(i + d, j + d);
                }
            }
            String::from_utf8_lossy(&b).into_owned()
        }
        "misdirected" => {
            let o = other.as_bytes();
            let i = r.us(nb.max(1)) * blk;
            for d in 0..blk {
                if i + d < b.len() && i + d < o.len() {
                    b[i + d] = o[i + d];
                }
            }
            String::from_utf8_lossy(&b).into_owned()
        }
        "torn" => {
            let i = r.us(b.len() + 1);
            b.truncate(i);
            String::from_utf8_lossy(&b).into_owned()
        }
        "zeroed" => {
            let i = r.us(b.len() + 1);
            let e = (i + blk).min(b.len());
            for x in &mut b[i..e] {
                *x = 0;
            }
            String::from_utf8_lossy(&b).into_owned()
        }
        "garbage" => {
            let i = r.us(b.len() + 1);
            let e = (i + blk).min(b.len());
            for x in &mut b[i..e] {
                *x = r.below(256) as u8;
            }
            String::from_utf8_lossy(&b).into_owned()
        }
        "flood" => {
            let i = floor_char(text, r.us(text.len() + 1));
            let f = flood(r);
            format!("{}{}{}", &text[..i], f, &text[i..])
        }
        "splice" => {
            let i = floor_char(text, r.us(text.len() + 1));
            let j = floor_char(other, r.us(other.len() + 1));
            format!("{}{}", &text[..i], &other[j..])
        }
        "multibyte" => {
            let m = r.range(1, 4);
            let mut t = text.to_string();
            for _ in 0..m {
                let i = floor_char(&t, r.us(t.len() + 1));
                let c = *r.pick(&[
                    "\u{e9}", "\u{6f22}", "\u{1f600}", "\u{feff}", "\u{a0}", "\u{2028}", "\u{0}", "\u{1b}", "\u{fffd}", "\u{661}",
                    "\u{130}", "\u{ff08}",
                ]);
                // Insert, or replace the character there.
                if r.chance(1, 2) && i < t.len() {
                    let e = i + t[i..].chars().next().unwrap().len_utf8();
                    t.replace_range(i..e, c);
                } else {
                    t.insert_str(i, c);
                }
            }
            t
        }
        "crlf" => {
            let to = *r.pick(&["\r\n", "\r", "\n\n", "\u{b}", "\u{c}", "\u{85}"]);
            text.replace(*r.pick(&["\n", " "]), to)
        }
        "digits" => {
            // A number becomes another one.
            let mut toks = tokens(text);
            let at: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].starts_with(|c: char| c.is_ascii_digit())).collect();
            if !at.is_empty() {
                let i = *r.pick(&at);
                toks[i] = match r.below(8) {
                    0 => "9".repeat(*r.pick(&[5usize, 10, 11, 19, 20, 21, 38, 39, 40, 60, 310, 400])),
                    1 => format!("1{}", "0".repeat(*r.pick(&[9usize, 10, 18, 19, 20, 38, 39, 308, 309, 400]))),
                    2 => format!("{}{}", "0".repeat(*r.pick(&[1usize, 20, 400])), toks[i]),
                    3 => format!("{}.{}", toks[i], "3".repeat(*r.pick(&[1usize, 40, 400]))),
                    _ => (*r.pick(&[
                        "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296",
                        "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
                        "340282346638528859811704183484516925440", "340282366920938463463374607431768211455",
                        "340282366920938463463374607431768211456", "16777217", "1e5", "1e39", "0", "00", "1.", "1..2", "1.2.3",
                    ]))
                    .into(),
                };
            }
            toks.concat()
        }
        _ => {
            // A token lost, doubled, swapped or replaced.
            let mut toks = tokens(text);
            if !toks.is_empty() {
                let i = r.us(toks.len());
                let j = r.us(toks.len());
                match r.below(5) {
                    0 => {
                        toks.remove(i);
                    }
                    1 => {
                        let t = toks[i].clone();
                        toks.insert(j, t);
                    }
                    2 => toks.swap(i, j),
                    3 => {
                        toks[i] = (*r.pick(&[
                            "(", ")", "()", "?", "-", ";", ":", "#t", "?duration", "1.", ".5", "-1", "1e999", "99999999999999999999",
                            "99999999999999999999999999999999999999999999999999.5", "object", "either", "(either", "(-", "(not", "inf",
                            "nan", "=", "(=", ":length", "(:serial 99999999999999999999999)", "?(", "undefined", "total-time",
                        ]))
                        .into();
                    }
                    _ => {
                        let t = *r.pick(&["(", ")", ")", "(", "-", ";", "?", " "]);
                        toks.insert(i, t.into());
                    }
                }
            }
            toks.concat()
        }
    };
    (out, k)
}

pub fn tokens(t: &str) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    for c in t.chars() {
        let glue = match out.last() {
            Some(l) => {
                let p = l.chars().last().unwrap();
                p.is_alphanumeric() && c.is_alphanumeric() || (p.is_whitespace() && c.is_whitespace())
            }
            None => false,
        };
        if glue {
            out.last_mut().unwrap().push(c);
        } else {
            out.push(c.to_string());
        }
    }
    out
}

/// A long run of something. Opening parentheses stay within the depth that recursive descent is meant to take.
pub fn flood(r: &mut Rng) -> String {
    let big = *r.pick(&[50usize, 400, 3000, 12000]);
    match r.below(16) {
        0 => " ".repeat(big),
        1 => "\n".repeat(big),
        2 => "; a line of comment\n".repeat(big / 2),
        3 => "x".repeat(big),
        4 => format!(" {}", "9".repeat(big)),
        5 => format!(" 1.{}", "3".repeat(big)),
        6 => ")".repeat(big),
        7 => "(".repeat(big.min(40)),
        8 => " a".repeat(big / 2),
        9 => " ()".repeat(big / 4),
        10 => " (p a)".repeat(big / 4),
        11 => " ?v".repeat(big / 4),
        12 => " a - b".repeat(big / 8),
        13 => "\u{6f22}".repeat(big / 2),
        14 => "\u{0}".repeat(big),
        _ => ";".repeat(big),
    }
}

/// A large text: recursion per element (rather than per nesting level) would overflow on it.
pub fn large(r: &mut Rng) -> (&'static str, String) {
    let n = *r.pick(&[500usize, 3000, 8000, 8000, 20_000]);
    let k = r.below(16);
    let rep = |f: &dyn Fn(usize) -> String| -> String { (0..n).map(|i| f(i)).collect::<Vec<_>>().join(" ") };
    match k {
        0 => ("Objects", format!("(:objects {})", rep(&|i| format!("o{}", i % 50)))),
        1 => ("Predicate", format!("{}name", "; a line of comment\n".repeat(n * 2))),
        2 => ("Domain", format!("(define (domain d)\n{}(:requirements :strips))", "; c\n".repeat(n))),
        3 => ("Name", "n".repeat(n * 8)),
        4 => ("comment", "; line\n\n".repeat(n * 2)),
        _ => {
            // Any list of the grammar.
            let e = crate::entries::ENTRIES[r.us(crate::entries::ENTRIES.len())].name;
            let (seed, which) = (r.u64(), r.range(1, 6) as u32);
            let mut n = n;
            loop {
                let mut g = G::new(seed);
                g.boost = (which, n);
                let t = g.entry(e);
                if t.len() <= 80_000 || n < 50 {
                    return (e, t);
                }
                n = (n * 70_000 / t.len()).min(n / 2);
            }
        }
    }
}

type Nest = (&'static str, &'static str);
const N_GD: &[Nest] = &[
    ("(and ", ")"), ("(and (p) ", ")"), ("(and ", " (p))"), ("(or ", ")"), ("(or (p ?x) ", ")"), ("(not ", ")"), ("(imply ", " (q))"),
    ("(imply ", " (or (q) (p)))"), ("(imply (q) ", ")"), ("(exists (?x - t) ", ")"), ("(exists () ", ")"), ("(forall (?x) ", ")"),
];
const N_PRE: &[Nest] = &[("(and ", ")"), ("(forall (?x) ", ")"), ("(and (preference p (q)) ", ")"), ("(preference p ", ")")];
const N_CON: &[Nest] = &[
    ("(and ", ")"), ("(forall (?x) ", ")"), ("(always ", ")"), ("(sometime ", ")"), ("(within 5 ", ")"), ("(at-most-once ", ")"),
    ("(sometime-after (p) ", ")"), ("(sometime-after ", " (p))"), ("(sometime-before (p) ", ")"), ("(sometime-before ", " (p))"),
    ("(always-within 1 (p) ", ")"), ("(always-within 1 ", " (p))"), ("(hold-during 1 2 ", ")"), ("(hold-after 1 ", ")"),
    ("(at end ", ")"),
];
const N_PREFCON: &[Nest] = &[("(and ", ")"), ("(forall (?x) ", ")"), ("(preference ", ")"), ("(preference p ", ")")];
const N_EFF: &[Nest] = &[
    ("(forall (?x) ", ")"), ("(forall (?x) (and ", "))"), ("(when (p) ", ")"), ("(when ", " (p))"), ("(and ", ")"), ("(and (p) ", ")"),
    ("(not ", ")"),
];
const N_DAGD: &[Nest] = &[
    ("(and ", ")"), ("(forall (?x) ", ")"), ("(preference ", ")"), ("(preference p ", ")"), ("(at start ", ")"), ("(over all ", ")"),
];
const N_DAEFF: &[Nest] = &[
    ("(and ", ")"), ("(forall (?x) ", ")"), ("(when (at start (p)) ", ")"), ("(when ", " (at end (p)))"), ("(at start ", ")"),
    ("(at end (and ", "))"),
];
const N_TERM: &[Nest] = &[("(f ", ")"), ("(f a ", " ?x)"), ("(= a ", ")"), ("(= ", " b)"), ("(assign f ", ")"), ("(not (p ", "))")];
const N_DUR: &[Nest] = &[("(at start ", ")"), ("(at end ", ")"), ("(and ", ")")];

/// A text as deep as is claimed (see `tame`): every alternative that begins alike may be tried at every level.
pub fn deep(r: &mut Rng) -> (&'static str, String) {
    const KINDS: &[(&[&str], &[&[Nest]], &[&str])] = &[
        (&["GoalDefinition", "PreferenceGD", "Con2GD"], &[N_GD], &["(p)", "(= a b)", "(not (p))", "(> (f) 1)"]),
        (&["PreconditionGoalDefinitions", "GoalDef"], &[N_PRE, N_GD], &["(p)", "(= a b)", "(preference q (p))"]),
        (&["ConGD", "Con2GD", "DomainConstraintsDef"], &[N_CON, N_CON, N_GD], &["(p)", "(always (p))", "(at end (p))"]),
        (&["PrefConGDs", "ProblemConstraintsDef"], &[N_PREFCON, N_CON], &["(always (p))", "(preference (at end (p)))"]),
        (&["Effects", "CEffect", "ForallCEffect", "WhenCEffect"], &[N_EFF, N_EFF, N_GD], &["(p)", "(increase (f) 1)", "(assign (f) ?x)"]),
        (&["DurativeActionGoalDefinition", "PrefTimedGD", "TimedGD"], &[N_DAGD, N_GD], &["(at start (p))", "(over all (p))", "(p)"]),
        (&["DurativeActionEffect", "TimedEffect"], &[N_DAEFF, N_DAGD], &["(at start (p))", "(increase (f) (* #t 1))", "(p)"]),
        (&["Term", "FunctionTerm", "FHead", "PEffect", "InitElement", "FComp"], &[N_TERM], &["a", "?x", "(f)", "1"]),
        (&["SimpleDurationConstraint", "DurationConstraint"], &[N_DUR], &["(= ?duration 5)", "(<= ?duration (f a))"]),
        (&["GoalDefinition", "Effects", "ConGD", "FExp"], &[N_GD, N_TERM, N_EFF, N_CON], &["(p)", "a", "(f 1)"]),
    ];
    let (entries, sets, bases) = KINDS[r.us(KINDS.len())];
    let e = *r.pick(entries);
    let levels = *r.pick(&[3usize, 8, 15, 22, 30, 45, 50]);
    // One or a few templates, or all of them.
    let few = *r.pick(&[1usize, 1, 2, 3, 99]);
    let mut pool: Vec<Nest> = Vec::new();
    for _ in 0..few.min(40) {
        let s = *r.pick(sets);
        pool.push(*r.pick(s));
    }
    let (mut pre, mut suf) = (S::new(), S::new());
    for _ in 0..levels {
        let (a, b) = *r.pick(&pool);
        pre += a;
        suf.insert_str(0, b);
    }
    let base = match r.below(8) {
        0 => "",
        1 => "()",
        2 => ")",
        3 => "(p",
        4 => "?",
        _ => *r.pick(bases),
    };
    if r.chance(1, 8) {
        // The tail is lost.
        let l = r.us(suf.len() + 1);
        suf.truncate(l);
    }
    let t = format!("{}{}{}", pre, base, suf);
    match r.below(8) {
        0 => ("StructureDef", format!("(:action a :parameters () :precondition {} :effect {})", t, t)),
        1 => ("StructureDef", format!("(:durative-action a :parameters () :duration () :condition {} :effect {})", t, t)),
        2 => ("Domain", format!("(define (domain d) (:constraints {}) (:derived (p) {}))", t, t)),
        3 => ("Problem", format!("(define (problem p) (:domain d) (:init) (:goal {}) (:constraints {}))", t, t)),
        _ => (e, t),
    }
}

/// Greatest number of unclosed arithmetic parentheses, and of unclosed parentheses of any kind.
pub fn nesting(t: &str) -> (usize, usize) {
    let mut stack: Vec<bool> = Vec::new();
    let (mut a, mut ma, mut m) = (0usize, 0usize, 0usize);
    let b = t.as_bytes();
    for i in 0..b.len() {
        match b[i] {
            b'(' => {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_whitespace() {
                    j += 1;
                }
                let ar = j < b.len() && matches!(b[j], b'+' | b'-' | b'*' | b'/');
                stack.push(ar);
                if ar {
                    a += 1;
                    ma = ma.max(a);
                }
                m = m.max(stack.len());
            }
            b')' => {
                if stack.pop() == Some(true) {
                    a -= 1;
                }
            }
            _ => {}
        }
    }
    (ma, m)
}

/// Within the nesting for which the parser's time and stack are claimed (see the known findings).
pub fn tame(t: &str) -> bool {
    let (a, m) = nesting(t);
    a <= 5 && m <= 60
}

/// As `damage`, drawn again while the result nests beyond what is claimed.
pub fn damage_tame(r: &mut Rng, text: &str, other: &str) -> (String, usize) {
    for _ in 0..20 {
        let (t, k) = damage(r, text, other);
        if tame(&t) {
            return (t, k);
        }
    }
    (text.to_string(), 0)
}

/// What transfers in text mode, editors and formatters do to a file without changing what it says.
pub const TRANSFER: [&str; 13] = [
    "crlf", "lf", "cr", "tabs", "blanks", "trailing", "lines", "comment", "uncomment", "recomment", "annotate", "squeeze", "remark",
];

/// The text cut into pieces: 0 what counts, 1 white space, 2 a comment up to its line end, 3 and 4 a parenthesis.
pub fn pieces(t: &str) -> Vec<(u8, String)> {
    let mut out: Vec<(u8, String)> = Vec::new();
    let mut com = false;
    for c in t.chars() {
        if com && (c == '\n' || c == '\r') {
            com = false;
        }
        let k = match c {
            _ if com => 2,
            ';' => 2,
            ' ' | '\t' | '\r' | '\n' => 1,
            '(' => 3,
            ')' => 4,
            _ => 0,
        };
        com = k == 2;
        match out.last_mut() {
            Some(l) if l.0 == k && k < 3 => l.1.push(c),
            _ => out.push((k, c.to_string())),
        }
    }
    out
}

/// A comment with any text whatever.
fn a_comment(r: &mut Rng) -> String {
    const COM: [&str; 24] = [
        ";", "; ", ";x", "; (lost \u{e9})", ";;;; ) ;", "; \u{0}\u{1b}", ";\t(define (domain x", "; # - ?x )))))", ";\u{feff}\u{2028} a",
        "; -*- mode: lisp; coding: utf-8 -*-", "; vim: set ft=pddl:", ";#| and", ";|#", ";;; include \"x.pddl\"", ";@pragma off", "; \\",
        "; \"open", "; 'quote", "; TODO: ?", ";!", "; <?xml", "; end)", "; /* c */", ";:requirements :typing",
    ];
    match r.below(6) {
        0 | 1 => {
            let n = *r.pick(&[1usize, 3, 12, 40]);
            let t: String = (0..n).map(|_| (32 + r.below(95) as u8) as char).collect();
            format!(";{}", t)
        }
        2 if r.chance(1, 8) => {
            let n = *r.pick(&[127usize, 255, 256, 300, 1_100, 4_200]);
            format!("; {}", (*r.pick(&["x", " ", ")", "\u{6f22}", "ab (c) "])).repeat(n))
        }
        _ => (*r.pick(&COM)).to_string(),
    }
}

/// The same text after one of those, applied at every place or only at some.
pub fn transfer(r: &mut Rng, t: &str, kind: usize) -> String {
    const EOL: [&str; 5] = ["\n", "\r\n", "\n\n\n", "\r", "\n\t "];
    let mut p = pieces(t);
    let every = *r.pick(&[1u64, 1, 2, 5]);
    let kind = TRANSFER[kind];
    let n = p.len();
    let mut out = String::new();
    let mut depth = 0;
    for i in 0..n {
        let after_comment = i > 0 && p[i - 1].0 == 2;
        let before = if i > 0 { p[i - 1].0 } else { 9 };
        let next = if i + 1 < n { p[i + 1].0 } else { 9 };
        let (k, s) = (p[i].0, p[i].1.clone());
        // Comments may stand before a definition, before its sections and before its end.
        if k == 4 {
            depth -= 1;
        }
        let roomy = if k == 3 { depth <= 1 } else { depth == 0 };
        if k == 3 {
            depth += 1;
        }
        if !r.chance(1, every) && !matches!(kind, "squeeze") {
            out.push_str(&s);
            continue;
        }
        let s = match (k, kind) {
            (1, "crlf") => s.replace("\r\n", "\n").replace('\n', "\r\n"),
            (1, "lf") => s.replace("\r\n", "\n").replace('\r', "\n"),
            (1, "cr") => s.replace("\r\n", "\r").replace('\n', "\r"),
            (1, "tabs") if s.contains('\t') => s.replace('\t', "        "),
            (1, "tabs") => s.replace(' ', "\t"),
            (1, "blanks") if !s.contains(['\n', '\r']) => {
                let m = if r.chance(1, 60) { *r.pick(&[300usize, 4_200]) } else { *r.pick(&[2usize, 9, 70]) };
                " ".repeat(1 + r.us(m))
            }
            (1, "trailing") => match s.find('\n') {
                Some(_) if r.chance(1, 2) => s.replace('\n', " \t\n"),
                Some(j) => s[j..].to_string(),
                None => s,
            },
            (1, "lines") if after_comment || r.chance(1, 2) => {
                let m = if r.chance(1, 60) { *r.pick(&[300usize, 4_200]) } else { 1 };
                format!("{}{}", r.pick(&EOL).repeat(m), " ".repeat(r.us(5)))
            }
            (1, "lines") => " ".into(),
            (2, "comment") if r.chance(1, 2) => s.chars().map(|c| if c.is_ascii() { c } else { '?' }).collect(),
            (2, "comment") => a_comment(r),
            (2, "uncomment") => String::new(),
            (2, "recomment") => {
                let mut s = s;
                let m = match r.below(60) {
                    0 => 70_000 / n.max(20),
                    1 => 300,
                    _ => 1 + r.us(3),
                };
                for _ in 0..m {
                    s = format!("{}{}{}{}", s, r.pick(&EOL), " ".repeat(r.us(3)), a_comment(r));
                }
                s
            }
            (3, "annotate") if roomy => format!("{}{}{}{}(", if r.chance(1, 2) { " " } else { "" }, a_comment(r), r.pick(&EOL), " ".repeat(r.us(3))),
            (4, "annotate") if roomy => format!(" {}{}{})", a_comment(r), r.pick(&EOL), " ".repeat(r.us(3))),
            // Directly behind a part only where `(:metric` does not ask for white space first.
            (1, "remark") if !after_comment && i > 0 && i + 1 < n => {
                let metric = matches!(p[i - 1].1.to_ascii_lowercase().as_str(), "minimize" | "maximize");
                let gap = if metric || r.chance(1, 2) { s.as_str() } else { "" };
                format!("{}{}{}{}", gap, a_comment(r), r.pick(&EOL), " ".repeat(r.us(3)))
            }
            (1, "squeeze") if next == 4 && !after_comment => String::new(),
            _ => s,
        };
        out.push_str(&s);
    }
    out
}

/// Bits of `how`: the kinds of `TRANSFER`, applied in turn, or what follows the text.
pub const HOW_STALE: u32 = 1 << 31;

pub fn how_names(how: u32) -> String {
    let v: Vec<&str> = (0..TRANSFER.len()).filter(|i| how >> i & 1 != 0).map(|i| TRANSFER[i]).collect();
    v.join("+")
}

pub fn variant(t: &str, how: u32, seed: u32) -> String {
    let mut r = Rng::new(simcore::prng::mix(&[seed as u64, 0xC13]));
    if how & HOW_STALE != 0 {
        return format!("{}{}", t, stale_tail(&mut r, t));
    }
    let mut s = t.to_string();
    let mut kinds: Vec<usize> = (0..TRANSFER.len()).filter(|k| how >> k & 1 != 0).collect();
    while !kinds.is_empty() {
        let k = kinds.swap_remove(r.us(kinds.len()));
        s = transfer(&mut r, &s, k);
    }
    s
}

/// What may stand behind a document: a longer file it was written over, blocks never written, the next document.
fn stale_tail(r: &mut Rng, t: &str) -> String {
    let closed = t.ends_with(')');
    let n = *r.pick(&[1usize, 2, 8, 60, 600]);
    let mut s = match r.below(10) {
        0 | 1 => {
            let seed = r.u64();
            let mut g = G::new(seed);
            const LEFT: [&str; 16] = [
                "Domain", "Domain", "Problem", "Problem", "StructureDef", "GoalDefinition", "Effects", "InitElements", "Constants", "Requirements",
                "MetricSpec", "LengthSpec", "DomainConstraintsDef", "ProblemConstraintsDef", "Functions", "Types",
            ];
            let e = *r.pick(&LEFT);
            let o = g.entry(e);
            let mut i = floor_char(&o, r.us(o.len() + 1));
            // The end of a longer file may begin with one of its sections.
            if r.chance(1, 2) {
                i = o[i..].find('(').map_or(i, |j| i + j);
            }
            let gap = *r.pick(&["", "\n", " ", "\r\n    ", "\n\n"]);
            format!("{}{}", gap, &o[i..])
        }
        2 => format!("\n{}", t),
        3 => "\n".repeat(n),
        4 => "; what was here before\n".repeat(n / 2 + 1),
        5 => "\0".repeat(n),
        6 => (0..n).map(|_| *r.pick(&['\u{e9}', '\u{6f22}', '\u{fffd}', '\u{1f600}'])).collect(),
        7 => ")".repeat(n),
        8 => "(".repeat(n.min(60)),
        _ => (*r.pick(&["x", "-", "?x", " - object", ":init", "#t", "1.5", " a b", ";", "\"", "\r", "\u{feff}"])).to_string(),
    };
    if !closed && !s.starts_with([' ', '\n', ')', '(']) {
        s.insert(0, *r.pick(&[' ', '\n', ')', '(']));
    }
    s
}
