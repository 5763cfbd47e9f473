//! Every public way to parse a text, behind one signature.
use nom::Slice;
use nom_greedyerror::GreedyError;
use pddl::parsers::{ParseError, ParseResult, Span};
use pddl::Parser;
use std::any::Any;
use std::fmt::{Debug, Write};

/// A parsed value of any type.
pub trait Val: Any {
    fn digest(&self) -> (u64, u64);
    fn render(&self) -> String;
    fn dup(&self) -> Box<dyn Val>;
    fn same(&self, other: &dyn Val) -> bool;
    fn any(&self) -> &dyn Any;
    fn print(&self, how: u8, w: &mut dyn Write) -> std::fmt::Result;
}

/// Ways to print a value.
pub const HOWS: u8 = 5;

macro_rules! shown {
    ($v:expr, $w:expr, $($t:ident),*) => {
        $( if let Some(x) = $v.downcast_ref::<pddl::$t>() { return write!($w, "{}", x) } )*
    };
}

pub fn print_as<T: Debug + Any>(t: &T, how: u8, w: &mut dyn Write) -> std::fmt::Result {
    match how % HOWS {
        0 => write!(w, "{:?}", t),
        1 => write!(w, "{:#?}", t),
        2 => write!(w, "{:>12?}", t),
        3 => write!(w, "{:#08.3?}", t),
        _ => {
            let v: &dyn Any = t;
            shown!(v, w, Requirement, Optimization, Interval, TimeSpecifier, BinaryOp, AssignOp, AssignOpT, DOp, BinaryComp, MultiOp);
            write!(w, "{:?}", t)
        }
    }
}

/// Hashes what is formatted into it.
pub struct HashW {
    pub h: u64,
    pub n: u64,
}

impl HashW {
    pub fn new() -> Self {
        HashW { h: 0xcbf29ce484222325, n: 0 }
    }
}

impl Write for HashW {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let (h, n) = simcore::hash_bytes(self.h, s.as_bytes());
        self.h = h;
        self.n += n;
        Ok(())
    }
}

pub fn digest_of<T: Debug + ?Sized>(t: &T) -> (u64, u64) {
    let mut w = HashW::new();
    let _ = write!(w, "{:?}", t);
    (w.h, w.n)
}

impl<T: Debug + Clone + PartialEq + Any> Val for T {
    fn digest(&self) -> (u64, u64) {
        digest_of(self)
    }
    fn render(&self) -> String {
        format!("{:?}", self)
    }
    fn dup(&self) -> Box<dyn Val> {
        Box::new(self.clone())
    }
    fn same(&self, other: &dyn Val) -> bool {
        match other.any().downcast_ref::<T>() {
            Some(o) => self == o,
            None => false,
        }
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn print(&self, how: u8, w: &mut dyn Write) -> std::fmt::Result {
        print_as(self, how, w)
    }
}

/// What a parse gave, with everything a caller can see reduced to plain data.
pub struct POut {
    /// 0 value, 1 Error, 2 Failure, 3 Incomplete.
    pub kind: u8,
    /// Digest of the value, or of the error.
    pub dig: (u64, u64),
    pub rest_off: usize,
    pub rest_len: usize,
    pub rest_line: u32,
    pub value: Option<Box<dyn Val>>,
    /// Broken positions, if any.
    pub bad: Option<String>,
}

fn check_span(s: &Span, text: &str, what: &str) -> Option<String> {
    let off = s.location_offset();
    let f: &str = s.fragment();
    if off > text.len() || off + f.len() > text.len() || &text.as_bytes()[off..off + f.len()] != f.as_bytes() {
        return Some(format!("{} at offset {} (length {}) is not inside the text of {} bytes", what, off, f.len(), text.len()));
    }
    let line = 1 + text.as_bytes()[..off].iter().filter(|b| **b == b'\n').count();
    if s.location_line() as usize != line {
        return Some(format!("{} at offset {} claims line {} instead of {}", what, off, s.location_line(), line));
    }
    None
}

pub fn check_err(e: &ParseError, text: &str) -> Option<String> {
    let GreedyError { errors } = e;
    for (s, _) in errors.iter() {
        if let Some(m) = check_span(s, text, "an error position") {
            return Some(m);
        }
    }
    None
}

pub fn reduce<'a, T: Debug + Clone + PartialEq + 'static>(r: ParseResult<'a, T>, text: &'a str) -> POut {
    match r {
        Ok((rest, v)) => {
            let mut bad = check_span(&rest, text, "the remainder");
            if bad.is_none() && rest.location_offset() + rest.fragment().len() != text.len() {
                bad = Some("the remainder does not reach the end of the text".to_string());
            }
            POut {
                kind: 0,
                dig: digest_of(&v),
                rest_off: rest.location_offset(),
                rest_len: rest.fragment().len(),
                rest_line: rest.location_line(),
                value: Some(Box::new(v)),
                bad,
            }
        }
        Err(e) => {
            let (kind, bad) = match &e {
                nom::Err::Error(e) => (1, check_err(e, text)),
                nom::Err::Failure(e) => (2, check_err(e, text)),
                nom::Err::Incomplete(_) => (3, None),
            };
            POut { kind, dig: digest_of(&e), rest_off: 0, rest_len: 0, rest_line: 0, value: None, bad }
        }
    }
}

/// How the text gets in.
pub const R_PARSE_STR: u8 = 0;
pub const R_PARSE_SPAN: u8 = 1;
pub const R_FROM_STR: u8 = 2;
pub const R_SPAN_FN: u8 = 3;
/// From a place inside a longer text, as when parsing continues where another parse ended.
pub const R_MIDDLE: u8 = 4;
/// From a type of the caller's own.
pub const R_INTO: u8 = 5;
/// Through a parser of the caller's own, which has only what the trait provides.
pub const R_OWN: u8 = 6;
pub const N_PROUTES: u8 = 7;

/// Whether the text gets in through a `from_str`, which does not say what it left.
pub fn tells_no_rest(route: u8, text: &str) -> bool {
    route == R_FROM_STR || (route == R_OWN && text.len() % 2 == 1)
}

struct Doc<'a>(&'a str);

impl<'a> From<Doc<'a>> for Span<'a> {
    fn from(d: Doc<'a>) -> Span<'a> {
        crate::held::doc_fault();
        Span::new(d.0)
    }
}

struct Own<P>(std::marker::PhantomData<P>);

impl<P: Parser> Parser for Own<P> {
    type Item = P::Item;
    fn parse<'a, S: Into<Span<'a>>>(input: S) -> ParseResult<'a, Self::Item> {
        P::parse(input)
    }
}

const BEFORE: [&str; 4] = ["(x)", "; an é\n\n ", "\n(before) ; it\n\t", "a\r\nb "];

fn entry<P: Parser>(text: &str, route: u8) -> POut
where
    P::Item: Debug + Clone + PartialEq + 'static,
{
    match route {
        R_PARSE_SPAN => reduce(P::parse(Span::new(text)), text),
        R_SPAN_FN => reduce(P::parse_span(Span::new(text)), text),
        R_INTO => reduce(P::parse(Doc(text)), text),
        R_OWN if !tells_no_rest(route, text) => reduce(<Own<P> as Parser>::parse_span(Span::new(text)), text),
        R_FROM_STR | R_OWN => match if route == R_OWN { <Own<P> as Parser>::from_str(text) } else { P::from_str(text) } {
            Ok(v) => POut {
                kind: 0,
                dig: digest_of(&v),
                rest_off: 0,
                rest_len: 0,
                rest_line: 0,
                value: Some(Box::new(v)),
                bad: None,
            },
            Err(e) => reduce::<P::Item>(Err(e), text),
        },
        R_MIDDLE => {
            let before = BEFORE[text.len() % BEFORE.len()];
            let mut whole = String::with_capacity(before.len() + text.len());
            whole.push_str(before);
            whole.push_str(text);
            let rest = Span::new(&whole).slice(before.len()..);
            reduce(P::parse(rest), &whole)
        }
        _ => reduce(P::parse(text), text),
    }
}

fn comment(text: &str, _route: u8) -> POut {
    reduce(pddl::parsers::ignore_eol_comment(text), text)
}

pub struct Entry {
    pub name: &'static str,
    pub f: fn(&str, u8) -> POut,
}

macro_rules! entries {
    ($($t:ident),* $(,)?) => {
        pub static ENTRIES: &[Entry] = &[
            $( Entry { name: stringify!($t), f: entry::<pddl::$t> }, )*
            Entry { name: "comment", f: comment },
        ];
    };
}

entries!(
    Domain, Problem, Name, Variable, Predicate, PrimitiveType, Type, FunctionSymbol, ActionSymbol,
    DurativeActionSymbol, PreferenceName, Number, Term, FunctionTerm, BasicFunctionTerm, FunctionType, Constants,
    Types, Objects, Functions, PredicateDefinitions, Requirements, Requirement, AtomicFormulaSkeleton,
    AtomicFunctionSkeleton, GoalDefinition, PreconditionGoalDefinitions, PreferenceGD, ConGD, Con2GD, PrefConGDs,
    Effects, CEffect, ForallCEffect, WhenCEffect, PEffect, ConditionalEffect, DurativeActionGoalDefinition,
    PrefTimedGD, TimedGD, DurativeActionEffect, TimedEffect, DurationConstraint, SimpleDurationConstraint,
    DurationValue, DOp, FExp, FExpDa, FExpT, FHead, FComp, FAssignDa, InitElements, InitElement, GoalDef, MetricSpec,
    MetricFExp, LengthSpec, Timeless, Interval, TimeSpecifier, AssignOp, AssignOpT, BinaryOp, BinaryComp, MultiOp,
    Optimization, DomainConstraintsDef, ProblemConstraintsDef, StructureDef, ActionDefinition,
    DurativeActionDefinition, DerivedPredicate,
);

pub fn entry_id(name: &str) -> u16 {
    ENTRIES.iter().position(|e| e.name == name).unwrap_or_else(|| panic!("no entry {}", name)) as u16
}
