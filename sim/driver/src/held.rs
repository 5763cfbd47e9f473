//! Names as a program holds them: behind any of the types that wrap one, made by any public route.
use crate::entries::print_as;
use crate::plan::*;
use pddl::*;
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

#[derive(Clone)]
pub enum Held {
    N(Name),
    Var(Variable),
    Pred(Predicate),
    PType(PrimitiveType),
    FSym(FunctionSymbol),
    ASym(ActionSymbol),
    Da(DurativeActionSymbol),
    Pref(PreferenceName),
}

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Held {
    pub fn str(&self) -> &str {
        match self {
            Held::N(x) => x,
            Held::Var(x) => x.as_ref(),
            Held::Pred(x) => x.as_ref(),
            Held::PType(x) => x,
            Held::FSym(x) => x.as_ref(),
            Held::ASym(x) => x.as_ref(),
            Held::Da(x) => x.as_ref(),
            Held::Pref(x) => x,
        }
    }
    pub fn name(&self) -> Option<&Name> {
        Some(match self {
            Held::N(x) => x,
            Held::Var(x) => x,
            Held::Pred(x) => x,
            Held::PType(_) => return None,
            Held::FSym(x) => x,
            Held::ASym(x) => x,
            Held::Da(x) => x,
            Held::Pref(x) => x,
        })
    }
    pub fn hash(&self) -> Option<u64> {
        Some(match self {
            Held::N(x) => hash(x),
            Held::Var(x) => hash(x),
            Held::Pred(x) => hash(x),
            Held::PType(x) => hash(x),
            Held::FSym(x) => hash(x),
            Held::ASym(x) => hash(x),
            Held::Da(x) => hash(x),
            Held::Pref(_) => return None,
        })
    }
    /// False if there is no hash of it.
    pub fn hash_into<H: Hasher>(&self, h: &mut H) -> bool {
        match self {
            Held::N(x) => x.hash(h),
            Held::Var(x) => x.hash(h),
            Held::Pred(x) => x.hash(h),
            Held::PType(x) => x.hash(h),
            Held::FSym(x) => x.hash(h),
            Held::ASym(x) => x.hash(h),
            Held::Da(x) => x.hash(h),
            Held::Pref(_) => return false,
        }
        true
    }
    /// `self == other` by the type's own equality where both are of one type, else by that of their names.
    pub fn equal(&self, o: &Held) -> Option<(bool, bool)> {
        fn both<T: PartialEq>(a: &T, b: &T) -> Option<(bool, bool)> {
            #[allow(clippy::nonminimal_bool)]
            Some((a == b, !(a != b)))
        }
        match (self, o) {
            (Held::N(a), Held::N(b)) => both(a, b),
            (Held::Var(a), Held::Var(b)) => both(a, b),
            (Held::Pred(a), Held::Pred(b)) => both(a, b),
            (Held::PType(a), Held::PType(b)) => both(a, b),
            (Held::FSym(a), Held::FSym(b)) => both(a, b),
            (Held::ASym(a), Held::ASym(b)) => both(a, b),
            (Held::Da(a), Held::Da(b)) => both(a, b),
            (Held::Pref(a), Held::Pref(b)) => both(a, b),
            (a, b) => match (a.name(), b.name()) {
                (Some(x), Some(y)) => both(x, y),
                _ => None,
            },
        }
    }
    pub fn print(&self, how: u8, w: &mut dyn std::fmt::Write) -> std::fmt::Result {
        match self {
            Held::N(x) => print_as(x, how, w),
            Held::Var(x) => print_as(x, how, w),
            Held::Pred(x) => print_as(x, how, w),
            Held::PType(x) => print_as(x, how, w),
            Held::FSym(x) => print_as(x, how, w),
            Held::ASym(x) => print_as(x, how, w),
            Held::Da(x) => print_as(x, how, w),
            Held::Pref(x) => print_as(x, how, w),
        }
    }
    /// Reads the text in every way there is; the first disagreement with `want`.
    pub fn read(&self, want: &str) -> Result<(), String> {
        let s = self.str();
        if s != want {
            return Err(format!("reads {:?} instead of {:?}", short(s), short(want)));
        }
        let n = match self.name() {
            Some(n) => n,
            None => return Ok(()),
        };
        let d: &str = n;
        if d != want {
            return Err(format!("dereferences to {:?} instead of {:?}", short(d), short(want)));
        }
        let a: &str = n.as_ref();
        if a != want {
            return Err(format!("as_ref gives {:?} instead of {:?}", short(a), short(want)));
        }
        if n.len() != want.chars().count() {
            return Err(format!("len() is {} instead of {}", n.len(), want.chars().count()));
        }
        if n.is_empty() != want.is_empty() {
            return Err("is_empty() is wrong".to_string());
        }
        if !(n == want) || !(n == &want) || !(n == &want.to_string()) {
            return Err("does not compare equal to its own text".to_string());
        }
        let other = format!("{}x", want);
        if n == other.as_str() || n == &other {
            return Err("compares equal to a longer text".to_string());
        }
        if !want.is_empty() {
            let mut t = want.to_string();
            let c = t.pop();
            if n == t.as_str() {
                return Err("compares equal to a shorter text".to_string());
            }
            if let Some(c) = c {
                let flip = if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
                if flip != c {
                    t.push(flip);
                    if n == t.as_str() {
                        return Err("compares equal to a text of other case".to_string());
                    }
                }
            }
        }
        // One letter changed, somewhere in it.
        let l = want.len();
        for at in [0, l / 2, (l * 7 + 3) / 11, l.saturating_sub(17)] {
            if want.is_char_boundary(at) && want.as_bytes().get(at).is_some_and(|b| b.is_ascii()) {
                let mut t = want.to_string();
                let new = if want.as_bytes()[at] == b'x' { "y" } else { "x" };
                t.replace_range(at..at + 1, new);
                if n == t.as_str() || n == &t {
                    return Err("compares equal to a text that differs in one letter".to_string());
                }
            }
        }
        let c = n.clone();
        let cs: &str = &c;
        if cs != want || &c != n || hash(&c) != hash(n) {
            return Err("its clone differs".to_string());
        }
        let dbg = format!("{:?}", n);
        if want.bytes().all(|b| b.is_ascii_alphanumeric()) && !dbg.contains(want) {
            return Err(format!("its debug output {:?} lacks its text", short(&dbg)));
        }
        Ok(())
    }
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 80 {
        format!("{}..({} bytes)", s.chars().take(60).collect::<String>(), s.len())
    } else {
        s.to_string()
    }
}

pub fn hash_name(n: &Name) -> u64 {
    hash(n)
}

/// A caller's own string type, with misfortune built in.
pub struct Conv {
    pub text: String,
    pub other: String,
    pub fault: Fault,
    pub id: u32,
    pub n_asref: Cell<u32>,
    pub n_into: Cell<u32>,
    pub texts: &'static [String],
}

/// Payload of a panic the simulator injected in operation `0`.
pub struct Injected(pub u32);
pub struct AllocFail;

/// What fired in the current operation of each thread (written and read by the thread whose turn it is).
pub struct Fired {
    pub panic: bool,
    pub reenter: bool,
    pub stall: bool,
    pub lie: bool,
    pub bad: Option<String>,
}

pub static mut FIRED: [Fired; simcore::MAX_THREADS] =
    [const { Fired { panic: false, reenter: false, stall: false, lie: false, bad: None } }; simcore::MAX_THREADS];

pub fn fired() -> &'static mut Fired {
    let t = simcore::tls().tid.get();
    unsafe { &mut *(&raw mut FIRED[t as usize]) }
}

/// Runs the fault's effect if this is its moment.
pub fn maybe_fault(f: &Fault, site: u8, n: u32, id: u32, texts: &'static [String]) {
    if f.site != site || f.nth != n {
        return;
    }
    match f.what {
        What::Panic => {
            if std::thread::panicking() {
                return;
            }
            fired().panic = true;
            simcore::count(simcore::C_PANIC, 1);
            std::panic::panic_any(Injected(id));
        }
        What::Reenter(t) => {
            fired().reenter = true;
            simcore::count(simcore::C_REENTER, 1);
            let want = &texts[t as usize];
            // Make another name, or parse one, from inside the conversion.
            let ok = if t % 2 == 0 {
                let n = Name::new(want.as_str());
                &*n == want.as_str()
            } else {
                let doc = format!("(:objects inner-{} - t)", t % 7);
                match <Objects as Parser>::from_str(&doc) {
                    Ok(o) => o.len() == 1 && &**o[0].value() == &doc[10..doc.len() - 5],
                    Err(_) => false,
                }
            };
            if !ok {
                fired().bad = Some("a creation made inside a conversion gave a wrong result".to_string());
            }
        }
        What::Stall => {
            fired().stall = true;
            simcore::stall();
        }
        _ => {}
    }
}

/// What is to happen while a text of the caller's own type becomes one to parse, for each thread.
pub static mut DOC_FAULT: [Option<(Fault, u32, &'static [String])>; simcore::MAX_THREADS] = [None; simcore::MAX_THREADS];

pub fn set_doc_fault(f: Option<(Fault, u32, &'static [String])>) {
    let t = simcore::tls().tid.get();
    unsafe { DOC_FAULT[t as usize] = f };
}

pub fn doc_fault() {
    let t = simcore::tls().tid.get();
    if let Some((f, id, texts)) = unsafe { DOC_FAULT[t as usize].take() } {
        maybe_fault(&f, SITE_INTO, 1, id, texts);
    }
}

impl AsRef<str> for Conv {
    fn as_ref(&self) -> &str {
        let n = self.n_asref.get() + 1;
        self.n_asref.set(n);
        maybe_fault(&self.fault, SITE_ASREF, n, self.id, self.texts);
        &self.text
    }
}

impl From<Conv> for String {
    fn from(mut c: Conv) -> String {
        let n = c.n_into.get() + 1;
        c.n_into.set(n);
        maybe_fault(&c.fault, SITE_INTO, n, c.id, c.texts);
        if let What::Lie(_) = c.fault.what {
            fired().lie = true;
            simcore::count(simcore::C_LIE, 1);
            return std::mem::take(&mut c.other);
        }
        std::mem::take(&mut c.text)
    }
}

impl Drop for Conv {
    fn drop(&mut self) {
        maybe_fault(&self.fault, SITE_DROP, 1, self.id, self.texts);
    }
}

pub const ROUTES: [&str; 27] = [
    "Name::new(&str)", "Name::new(String)", "Name::from(&str)", "into()", "Name::new(&String)", "Name::new(Box<str>)",
    "Name::new(Cow)", "Name::new(custom)", "Name::from(custom)", "Variable::from", "Predicate::from_str",
    "PrimitiveType::from", "FunctionSymbol::from_str", "ActionSymbol::from(custom)", "DurativeActionSymbol::from_str",
    "PreferenceName::new", "Name::parse", "Variable::parse", "Predicate::parse", "Term::parse", "Objects::parse",
    "Domain::parse", "Name::new_static", "Name::default", "Type::from", "to_typed", "Predicate::from_static",
];
pub const ROUTE_CUSTOM: [u8; 3] = [7, 8, 13];
pub const ROUTE_STATIC: u8 = 22;
pub const ROUTE_DEFAULT: u8 = 23;

/// Whether names made this way take part in interning.
pub fn interned(route: u8) -> bool {
    !matches!(route, 22 | 23 | 26)
}

pub fn is_custom(route: u8) -> bool {
    ROUTE_CUSTOM.contains(&route)
}

pub fn grammar_name(t: &str) -> bool {
    let b = t.as_bytes();
    !b.is_empty()
        && b[0].is_ascii_alphabetic()
        && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-' || *c == b'_')
}

pub fn make(route: u8, text: &str, leaked: &'static str, conv: Option<Conv>) -> Result<Held, String> {
    let bad = |r: &str| Err(format!("{} of a valid name failed", r));
    Ok(match route {
        1 => Held::N(Name::new(text.to_string())),
        2 => Held::N(Name::from(text)),
        3 => {
            let n: Name = text.to_string().into();
            Held::N(n)
        }
        4 => Held::N(Name::new(&text.to_string())),
        5 => Held::N(Name::new(text.to_string().into_boxed_str())),
        6 => Held::N(Name::new(Cow::Borrowed(text))),
        7 => Held::N(Name::new(conv.unwrap())),
        8 => Held::N(Name::from(conv.unwrap())),
        9 => Held::Var(Variable::from(text)),
        10 => Held::Pred(Predicate::from_str(text)),
        11 => Held::PType(PrimitiveType::from(text)),
        12 => Held::FSym(FunctionSymbol::from_str(text)),
        13 => Held::ASym(ActionSymbol::from(conv.unwrap())),
        14 => Held::Da(DurativeActionSymbol::from_str(text)),
        15 => Held::Pref(PreferenceName::new(text)),
        16 => match <Name as Parser>::from_str(text) {
            Ok(n) => Held::N(n),
            Err(_) => return bad("Name::parse"),
        },
        17 => match <Variable as Parser>::from_str(&format!("?{}", text)) {
            Ok(n) => Held::Var(n),
            Err(_) => return bad("Variable::parse"),
        },
        18 => match <Predicate as Parser>::from_str(text) {
            Ok(n) => Held::Pred(n),
            Err(_) => return bad("Predicate::parse"),
        },
        19 => match <Term as Parser>::from_str(text) {
            Ok(Term::Name(n)) => Held::N(n),
            _ => return bad("Term::parse"),
        },
        20 => match <Objects as Parser>::from_str(&format!("(:objects {})", text)) {
            Ok(o) if o.len() == 1 => Held::N(o[0].value().clone()),
            _ => return bad("Objects::parse"),
        },
        21 => match <Domain as Parser>::from_str(&format!("(define (domain {}))", text)) {
            Ok(d) => Held::N(d.name().clone()),
            _ => return bad("Domain::parse"),
        },
        22 => Held::N(Name::new_static(leaked)),
        23 => Held::N(Name::default()),
        24 => match Type::from(text) {
            Type::Exactly(p) => Held::PType(p),
            _ => return bad("Type::from"),
        },
        25 => Held::N(Name::new(text).to_typed("t").value().clone()),
        26 => Held::Pred(Predicate::from_static(leaked)),
        _ => Held::N(Name::new(text)),
    })
}
