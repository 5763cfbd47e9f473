//! Taking values apart through their public parts and putting them together again.
use pddl::*;
use std::any::Any;

type R = Result<(), String>;

fn want(ok: bool, m: &str) -> R {
    if ok {
        Ok(())
    } else {
        Err(m.to_string())
    }
}

/// Iterates clones of `c`: one to its end, one to `k` items, two in turns.
fn iterate<C>(c: &C, k: usize, n: usize) -> Result<Vec<C::Item>, String>
where
    C: Clone + IntoIterator,
    C::Item: PartialEq,
{
    let mut part = c.clone().into_iter();
    let mut some = vec![];
    for _ in 0..k {
        match part.next() {
            Some(x) => some.push(x),
            None => break,
        }
    }
    let all: Vec<C::Item> = c.clone().into_iter().collect();
    want(all.len() == n, "a value has another number of items than it says")?;
    want(some.len() == k.min(n) && some[..] == all[..some.len()], "two iterations of the same value differ")?;
    // One ends early while the other goes on.
    let (mut a, mut b) = (c.clone().into_iter(), c.clone().into_iter());
    for i in 0..n {
        let x = a.next();
        if i == k {
            drop(std::mem::replace(&mut b, c.clone().into_iter()));
        }
        want(x.as_ref() == Some(&all[i]), "two iterations of the same value in turns differ")?;
        drop(b.next());
    }
    want(a.next().is_none(), "an iteration goes on after the last item")?;
    drop(part);
    Ok(all)
}

/// ... and collects the items again.
fn again<C>(c: &C, k: usize, n: usize) -> R
where
    C: Clone + IntoIterator + FromIterator<<C as IntoIterator>::Item>,
    C::Item: PartialEq + Clone,
{
    let all = iterate(c, k, n)?;
    if n == 0 {
        return Ok(());
    }
    let d: C = all.iter().cloned().collect();
    want(iterate(&d, k, n)? == all, "a value collected from the items of another has other items")
}

/// ... and is the same value again.
fn whole<C>(c: &C, k: usize, n: usize) -> R
where
    C: Clone + PartialEq + IntoIterator + FromIterator<<C as IntoIterator>::Item>,
    C::Item: PartialEq + Clone,
{
    again(c, k, n)?;
    let d: C = c.clone().into_iter().collect();
    want(&d == c, "a value collected from the items of another is not equal to it")
}

fn typed<T: Clone + PartialEq>(l: &TypedList<T>, k: usize) -> R {
    whole(l, k, l.len())?;
    let d: TypedList<T> = l.iter().map(|t| Typed::new(t.value().clone(), t.type_().clone())).collect();
    want(&d == l && l == l.value() && *l == l.to_vec(), "a typed list built from its parts is not equal to it")?;
    for t in l.iter() {
        ty(t.type_(), k)?;
    }
    Ok(())
}

fn ty(t: &Type, k: usize) -> R {
    again(t, k, t.len())?;
    let same = match t {
        Type::Exactly(p) => Type::from(p.clone()) == *t && Type::from(&**p) == *t,
        Type::EitherOf(v) => {
            let names: Vec<&str> = v.iter().map(|p| &**p).collect();
            Type::from(v.clone()) == *t && Type::from(names) == *t && v.iter().map(|p| Name::from(&**p)).collect::<Type>() == *t
        }
    };
    want(same, "a type built from the names of another is not equal to it")
}

fn pres(g: &PreconditionGoalDefinitions, k: usize) -> R {
    whole(g, k, g.len())?;
    let v: Vec<PreconditionGoalDefinition> = g.clone().into();
    want(v[..] == g[..] && GoalDef::from_iter(v) == *g, "goals built from the parts of others are not equal to them")?;
    let one = g.clone().try_get_single();
    want(one.is_some() == (g.len() == 1), "a single goal is or is not single")?;
    if let Some(x) = one {
        want(PreconditionGoalDefinitions::from(x.clone()) == *g && PreconditionGoalDefinitions::from(Some(x)) == *g, "a single goal built again differs")?;
    }
    for p in g.iter() {
        if let PreconditionGoalDefinition::Forall(vars, gd) = p {
            typed(vars, k)?;
            want(PreconditionGoalDefinition::new_forall(vars.clone(), gd.clone()) == *p, "a quantified goal built again differs")?;
            pres(gd, k)?;
        }
    }
    Ok(())
}

fn prefs(g: &PrefConGDs, k: usize) -> R {
    whole(g, k, g.len())?;
    let v: Vec<PrefConGD> = g.clone().into();
    want(v[..] == g[..] && PrefConGDs::from(v) == *g, "constraints built from the parts of others are not equal to them")?;
    for p in g.iter() {
        if let PrefConGD::Forall(vars, gd) = p {
            typed(vars, k)?;
            want(PrefConGD::new_forall(vars.clone(), gd.clone()) == *p, "a quantified constraint built again differs")?;
            prefs(gd, k)?;
        }
    }
    Ok(())
}

fn effects(e: &Effects, k: usize) -> R {
    whole(e, k, e.len())?;
    let one: Result<CEffect, ()> = e.clone().try_into();
    want(one.is_ok() == (e.len() == 1), "a single effect is or is not single")?;
    if let Ok(x) = one {
        want(Effects::from(x) == *e, "a single effect built again differs")?;
    }
    Ok(())
}

fn duration(d: &DurationConstraint, k: usize) -> R {
    again(d, k, d.len())
}

fn con(g: &ConGD, k: usize) -> R {
    match g {
        ConGD::And(v) => {
            want(ConGD::new_and(v.iter().cloned()) == *g, "a conjunction built again differs")?;
            v.iter().try_for_each(|x| con(x, k))
        }
        ConGD::Forall(vars, x) => {
            typed(vars, k)?;
            want(ConGD::new_forall(vars.clone(), (**x).clone()) == *g, "a quantified constraint built again differs")?;
            con(x, k)
        }
        _ => Ok(()),
    }
}

fn goal(g: &GoalDefinition, k: usize) -> R {
    let (same, inner): (bool, Vec<&GoalDefinition>) = match g {
        GoalDefinition::And(v) => (GoalDefinition::new_and(v.clone()) == *g, v.iter().collect()),
        GoalDefinition::Or(v) => (GoalDefinition::new_or(v.clone()) == *g, v.iter().collect()),
        GoalDefinition::Not(x) => (GoalDefinition::new_not((**x).clone()) == *g, vec![x]),
        GoalDefinition::Imply(x, y) => (GoalDefinition::new_imply((**x).clone(), (**y).clone()) == *g, vec![x, y]),
        GoalDefinition::Exists(v, x) => {
            typed(v, k)?;
            (GoalDefinition::new_exists(v.clone(), (**x).clone()) == *g, vec![x])
        }
        GoalDefinition::ForAll(v, x) => {
            typed(v, k)?;
            (GoalDefinition::new_forall(v.clone(), (**x).clone()) == *g, vec![x])
        }
        GoalDefinition::AtomicFormula(f) => (GoalDefinition::new_atomic_formula(f.clone()) == *g, vec![]),
        _ => (true, vec![]),
    };
    want(same, "a goal built from its own parts differs")?;
    inner.into_iter().try_for_each(|x| goal(x, k))
}

fn action(a: &ActionDefinition, k: usize) -> R {
    typed(a.parameters(), k)?;
    pres(a.precondition(), k)?;
    if let Some(e) = a.effect() {
        effects(e, k)?;
    }
    let d = ActionDefinition::new(a.symbol().clone(), a.parameters().clone(), a.precondition().clone(), a.effect().clone());
    want(&d == a, "an action built from its own parts differs")
}

fn durative(a: &DurativeActionDefinition, k: usize) -> R {
    typed(a.parameters(), k)?;
    if let Some(d) = a.duration() {
        duration(d, k)?;
    }
    let d = DurativeActionDefinition::new(
        a.symbol().clone(),
        a.parameters().clone(),
        a.duration().clone(),
        a.condition().clone(),
        a.effect().clone(),
    );
    want(&d == a, "a durative action built from its own parts differs")
}

fn derived(a: &DerivedPredicate, k: usize) -> R {
    goal(a.expression(), k)?;
    want(&DerivedPredicate::new(a.predicate().clone(), a.expression().clone()) == a, "a derived predicate built from its own parts differs")
}

fn structure(s: &StructureDef, k: usize) -> R {
    let same = match s {
        StructureDef::Action(a) => {
            action(a, k)?;
            StructureDef::from(a.clone()) == *s
        }
        StructureDef::DurativeAction(a) => {
            durative(a, k)?;
            StructureDef::from(a.clone()) == *s
        }
        StructureDef::Derived(a) => {
            derived(a, k)?;
            StructureDef::from(a.clone()) == *s
        }
    };
    want(same, "a structure built from its own parts differs")
}

fn functions(f: &Functions) -> R {
    let d: Functions = f.iter().map(|x| FunctionTyped::new(x.value_ref().clone(), x.type_ref().clone())).collect();
    want(&d == f && *f.values() == f.to_vec(), "functions built from the parts of others are not equal to them")
}

fn predicates(p: &PredicateDefinitions) -> R {
    let d: PredicateDefinitions = p.iter().cloned().collect();
    want(&d == p, "predicates built from the parts of others are not equal to them")
}

fn domain(d: &Domain, how: u8) -> R {
    let k = how as usize % 4;
    let c = || d.clone();
    // One part replaced: that part and no other.
    let bare = Domain::builder(d.name().clone(), d.structure().clone());
    let parts = |n: &Domain| -> [bool; 9] {
        [
            n.name() == d.name(),
            n.structure() == d.structure(),
            n.extends() == d.extends(),
            n.requirements() == d.requirements(),
            n.types() == d.types(),
            n.constants() == d.constants(),
            n.predicates() == d.predicates(),
            n.functions() == d.functions(),
            n.constraints() == d.constraints(),
        ]
    };
    let which = how as usize % 8;
    let req = Requirements::new([Requirement::Adl, Requirement::Constraints]);
    let (n, at, set) = match which {
        0 => {
            let n = c().with_requirements(req.clone());
            let ok = n.requirements() == &req;
            (n, 3, ok)
        }
        1 => {
            let n = c().with_extends([Name::new("built-upon")]);
            let ok = n.extends().len() == 1 && n.extends()[0] == "built-upon";
            (n, 2, ok)
        }
        2 => {
            let n = c().with_constants(Constants::from_iter([Name::new("const-x").to_typed("t-x")]));
            let ok = n.constants().len() == 1 && *n.constants()[0].value() == "const-x";
            (n, 5, ok)
        }
        3 => {
            let n = c().with_types(Types::new(TypedList::new(vec![Name::new("type-x").to_typed("object")])));
            let ok = n.types().len() == 1 && *n.types()[0].value() == "type-x" && *n.types()[0].type_() == Type::OBJECT;
            (n, 4, ok)
        }
        4 => {
            let n = c().with_predicates(PredicateDefinitions::new([]));
            let ok = n.predicates().is_empty();
            (n, 6, ok)
        }
        5 => {
            let n = c().with_functions(Functions::default());
            let ok = n.functions().is_empty();
            (n, 7, ok)
        }
        6 => {
            let n = c().with_constraints(ConGD::new_and([]).into());
            let ok = n.constraints().is_empty();
            (n, 8, ok)
        }
        _ => (c().with_timeless(Timeless::default()), 0, true),
    };
    want(set, "a domain built from a clone does not have the part it was given")?;
    for (i, ok) in parts(&n).into_iter().enumerate() {
        want(ok || i == at, "a domain built from a clone lost a part it had")?;
    }
    // The part put back: the same domain again.
    let back = match which {
        0 => n.with_requirements(d.requirements().iter().cloned().collect()),
        1 => n.with_extends(d.extends().iter().cloned()),
        2 => n.with_constants(d.constants().clone()),
        3 => n.with_types((**d.types()).clone()),
        4 => n.with_predicates(d.predicates().clone()),
        5 => n.with_functions(d.functions().clone()),
        6 => n.with_constraints(d.constraints().clone().into()),
        _ => n,
    };
    want(which == 7 || &back == d, "a domain with a part replaced and put back is not the same domain")?;
    // All parts put together from the start.
    let full = bare
        .with_constraints(DomainConstraintsDef::new(d.constraints().clone()))
        .with_functions(d.functions().iter().cloned().collect::<Functions>())
        .with_predicates(d.predicates().iter().cloned().collect::<PredicateDefinitions>())
        .with_constants(d.constants().iter().cloned().collect::<Constants>())
        .with_types(Types::from(d.types().iter().cloned().collect::<TypedList<Name>>()))
        .with_requirements(d.requirements().to_vec().into())
        .with_extends(d.extends().to_vec());
    want(full == c().with_timeless(Timeless::default()), "a domain put together from the parts of another is not equal to it")?;
    typed(d.types(), k)?;
    typed(d.constants(), k)?;
    functions(d.functions())?;
    predicates(d.predicates())?;
    con(d.constraints(), k)?;
    d.structure().iter().try_for_each(|s| structure(s, k))?;
    want(StructureDefs::from(d.structure().to_vec()) == *d.structure(), "structures built again differ")
}

fn problem(p: &Problem, how: u8) -> R {
    let k = how as usize % 4;
    let c = || p.clone();
    let parts = |n: &Problem| -> [bool; 9] {
        [
            n.name() == p.name(),
            n.domain() == p.domain(),
            n.requirements() == p.requirements(),
            n.objects() == p.objects(),
            n.init() == p.init(),
            n.goals() == p.goals(),
            n.constraints() == p.constraints(),
            n.metric_spec() == p.metric_spec(),
            n.length_spec() == p.length_spec(),
        ]
    };
    let (n, at, set) = match how % 4 {
        0 => {
            let r = Requirements::new([Requirement::Adl]);
            let n = c().with_requirements(r.clone());
            let ok = n.requirements() == &r;
            (n, 2, ok)
        }
        1 => {
            let n = c().with_objects(Objects::new([Name::new("obj-x").to_typed("t-x")]));
            let ok = n.objects().len() == 1 && *n.objects()[0].value() == "obj-x";
            (n, 3, ok)
        }
        2 => {
            let n = c().with_constraints(PrefConGDs::default());
            let ok = n.constraints().is_empty();
            (n, 6, ok)
        }
        _ => {
            let l = LengthSpec::new(Some(12), Some(21));
            let n = c().with_length_spec(l.clone());
            let ok = n.length_spec() == &Some(l);
            (n, 8, ok)
        }
    };
    want(set, "a problem built from a clone does not have the part it was given")?;
    for (i, ok) in parts(&n).into_iter().enumerate() {
        want(ok || i == at, "a problem built from a clone lost a part it had")?;
    }
    let back = match how % 4 {
        0 => n.with_requirements(p.requirements().clone()),
        1 => n.with_objects(p.objects().clone()),
        2 => n.with_constraints(p.constraints().clone()),
        _ => match p.length_spec() {
            Some(l) => n.with_length_spec(LengthSpec::new(l.serial(), l.parallel())),
            None => c(),
        },
    };
    want(&back == p, "a problem with a part replaced and put back is not the same problem")?;
    let full = Problem::new(
        p.name().clone(),
        p.domain().clone(),
        p.requirements().iter().cloned().collect(),
        p.objects().iter().cloned().collect(),
        InitElements::new(p.init().to_vec()),
        GoalDef::from(p.goals().clone()),
        ProblemConstraintsDef::new(p.constraints().clone()),
        p.metric_spec().as_ref().map(|m| MetricSpec::new(m.optimization(), m.expression().clone())),
        p.length_spec().clone(),
    );
    want(&full == p, "a problem put together from the parts of another is not equal to it")?;
    let mut b = Problem::builder(p.name().clone(), p.domain().clone(), p.init().iter().cloned().collect(), p.goals().iter().cloned().collect());
    if let Some(l) = p.length_spec() {
        b = b.with_length_spec(l.clone());
    }
    if let Some(m) = p.metric_spec() {
        b = b.with_metric_spec(m.clone());
    }
    let b = b
        .with_constraints(p.constraints().clone())
        .with_objects(p.objects().values().clone())
        .with_requirements(p.requirements().to_vec());
    want(&b == p, "a problem built from the parts of another is not equal to it")?;
    typed(p.objects(), k)?;
    prefs(p.constraints(), k)?;
    pres(p.goals(), k)
}

/// `None` if there is nothing to take apart.
pub fn rebuild(x: &dyn Any, how: u8) -> Option<R> {
    let k = how as usize % 4;
    macro_rules! is {
        ($($t:ty => $f:expr),* $(,)?) => {
            $( if let Some(v) = x.downcast_ref::<$t>() { return Some($f(v)) } )*
        };
    }
    is!(
        Domain => |d| domain(d, how),
        Problem => |p| problem(p, how),
        Effects => |e| effects(e, k),
        PreconditionGoalDefinitions => |g| pres(g, k),
        GoalDef => |g: &GoalDef| pres(g.value(), k),
        PrefConGDs => |g| prefs(g, k),
        ProblemConstraintsDef => |g: &ProblemConstraintsDef| prefs(g.value(), k),
        ConGD => |g| con(g, k),
        DomainConstraintsDef => |g: &DomainConstraintsDef| con(g.value(), k),
        GoalDefinition => |g| goal(g, k),
        DurationConstraint => |d| duration(d, k),
        ConditionalEffect => |e: &ConditionalEffect| {
            let n = match e {
                ConditionalEffect::Single(_) => 1,
                ConditionalEffect::All(v) => v.len(),
            };
            again(e, k, n)
        },
        Type => |t| ty(t, k),
        Types => |t: &Types| typed(t, k),
        Constants => |t: &Constants| typed(t, k),
        Objects => |t: &Objects| typed(t, k),
        Functions => functions,
        PredicateDefinitions => predicates,
        Requirements => |r: &Requirements| want(
            r.iter().cloned().collect::<Requirements>() == *r && r.to_effective() == r.clone().to_effective(),
            "requirements built from the parts of others are not equal to them",
        ),
        InitElements => |i: &InitElements| want(i.iter().cloned().collect::<InitElements>() == *i, "init elements built again differ"),
        Timeless => |t: &Timeless| want(t.iter().cloned().collect::<Timeless>() == *t, "timeless literals built again differ"),
        StructureDef => |s| structure(s, k),
        ActionDefinition => |s| action(s, k),
        DurativeActionDefinition => |s| durative(s, k),
        DerivedPredicate => |s| derived(s, k),
    );
    None
}
