//! All the ways to look at one value must agree: accessors, references, slices, iterators,
//! lengths, comparisons with other types and conversions back into parts.
use crate::dump::Dump;
use crate::tree::*;
use pddl::*;
use std::fmt::Debug;
use std::ops::Deref;

pub trait Views: Sized {
    fn views(&self) -> Result<(), String>;
}

fn ck(ok: bool, what: &str) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(format!("views of the same value disagree: {what}"))
    }
}
/// The same tree, whatever the kind of its root.
fn same_items(x: &Tree, y: &[Tree]) -> bool {
    x.kids() == y
}
fn trees<'a, T: Dump + 'a>(i: impl IntoIterator<Item = &'a T>) -> Vec<Tree> {
    i.into_iter().map(Dump::dump).collect()
}
fn owned<T: Dump>(i: impl IntoIterator<Item = T>) -> Vec<Tree> {
    i.into_iter().map(|x| x.dump()).collect()
}
/// A slice view of the value has the elements of its dump.
fn slice<T: Dump>(t: &Tree, s: &[T], what: &str) -> Result<(), String> {
    ck(same_items(t, &trees(s)), what)?;
    ck(s.len() == t.kids().len(), &format!("{what}: length"))?;
    ck(s.is_empty() == t.kids().is_empty(), &format!("{what}: emptiness"))?;
    ck(s.first().map(Dump::dump).as_ref() == t.kids().first(), &format!("{what}: first"))?;
    ck(s.last().map(Dump::dump).as_ref() == t.kids().last(), &format!("{what}: last"))
}
/// An iterator yields these elements and then stays at its end, with a truthful size hint.
fn drains<T: Dump>(t: &[Tree], mut i: impl Iterator<Item = T>, what: &str) -> Result<(), String> {
    for (k, x) in t.iter().enumerate() {
        let (lo, hi) = i.size_hint();
        let left = t.len() - k;
        ck(lo <= left && hi.map_or(true, |h| h >= left), &format!("{what}: size hint"))?;
        ck(i.next().map(|v| v.dump()).as_ref() == Some(x), what)?;
    }
    ck(i.next().is_none() && i.next().is_none(), &format!("{what}: end"))
}

macro_rules! nothing {
    ($($t:ty),*) => {$(impl Views for $t { fn views(&self) -> Result<(), String> { Ok(()) } })*};
}
nothing!(
    Term, FHead, FExp, FExpDa, FExpT, MetricFExp, MetricSpec, LengthSpec, FComp, FAssignDa,
    TimedGD, PrefTimedGD, DurativeActionGoalDefinition, TimedEffect, DurativeActionEffect,
    StructureDef, InitElement, DurationValue, SimpleDurationConstraint, PEffect, Number
);

fn name_is(n: &Name, s: &str) -> Result<(), String> {
    let r: &str = n.as_ref();
    let d: &str = n.deref();
    ck(r == s && d == s, "text of a name")?;
    ck(*n == *s && *n == s && *n == s.to_string(), "name compared with text")?;
    let mut other = s.to_string();
    other.push('x');
    ck(*n != *other && *n != other.as_str() && *n != other, "name compared with other text")?;
    ck(n.is_empty() == s.is_empty(), "emptiness of a name")?;
    ck(n.len() == s.chars().count(), "length of a name")?;
    ck(*n == n.clone(), "copy of a name")
}
impl Views for Name {
    fn views(&self) -> Result<(), String> {
        name_is(self, self.dump().text())
    }
}
macro_rules! symbols {
    ($($t:ty),*) => {$(
        impl Views for $t {
            fn views(&self) -> Result<(), String> {
                let t = self.dump();
                let s = if t.is("var") { t.at(0).text() } else { t.text() };
                let n: &Name = self.as_ref();
                name_is(n, s)?;
                let r: &str = self.as_ref();
                ck(r == s, "text of a symbol")?;
                ck(n == self.deref(), "name of a symbol")?;
                ck(<$t>::new(n.clone()) == *self, "symbol of its name")
            }
        }
    )*};
}
symbols!(ActionSymbol, DurativeActionSymbol, FunctionSymbol, Predicate, Variable);
impl Views for PreferenceName {
    fn views(&self) -> Result<(), String> {
        name_is(self.deref(), self.dump().text())
    }
}
impl Views for PrimitiveType {
    fn views(&self) -> Result<(), String> {
        let t = self.dump();
        let (r, d): (&str, &str) = (self.as_ref(), self.deref());
        ck(r == t.text() && d == t.text(), "text of a type")?;
        ck(PrimitiveType::from(t.text()) == *self, "type of its text")
    }
}
impl Views for Type {
    fn views(&self) -> Result<(), String> {
        let t = self.dump();
        let items = match &t {
            A(_) => vec![t.clone()],
            t => t.kids().to_vec(),
        };
        ck(self.len() == items.len(), "length of a type")?;
        drains(&items, self.clone().into_iter(), "iteration of a type")
    }
}
impl Views for FunctionType {
    fn views(&self) -> Result<(), String> {
        let t: &Type = self.deref();
        t.views()?;
        ck(FunctionType::new(t.clone()) == *self, "function type of its type")
    }
}
impl<T: Dump + Views + PartialEq + Clone + Debug> Views for Typed<T> {
    fn views(&self) -> Result<(), String> {
        ck(self.value() == self.deref(), "value of a typed item")?;
        self.value().views()?;
        self.type_().views()?;
        ck(Typed::new(self.value().clone(), self.type_().clone()) == *self, "typed item of its parts")
    }
}
impl<T: Dump + Views + PartialEq + Clone + Debug> Views for TypedList<T> {
    fn views(&self) -> Result<(), String> {
        let t = self.dump();
        slice(&t, self.value(), "typed list")?;
        slice(&t, self.deref(), "slice of a typed list")?;
        drains(t.kids(), self.clone().into_iter(), "iteration of a typed list")?;
        let v: Vec<Typed<T>> = self.value().to_vec();
        ck(*self == v && *self == v[..], "typed list compared with its elements")?;
        ck(TypedList::new(v.clone()) == *self, "typed list of its elements")?;
        if !v.is_empty() {
            ck(*self != v[1..] && *self != v[..v.len() - 1], "typed list compared with fewer")?;
            let mut w = v.clone();
            w.push(v[0].clone());
            ck(*self != w && *self != w[..], "typed list compared with more")?;
            let mut r = v.clone();
            r.reverse();
            ck((*self == r) == (r == v), "typed list compared with another order")?;
        }
        for x in &v {
            x.views()?;
        }
        Ok(())
    }
}
impl<T: Dump + Views + PartialEq + Clone + Debug> Views for FunctionTyped<T> {
    fn views(&self) -> Result<(), String> {
        ck(self.value_ref() == self.deref(), "value of a function typed item")?;
        self.value_ref().views()?;
        self.type_ref().views()?;
        let (v, t) = (self.value_ref().clone(), self.type_ref().clone());
        ck(FunctionTyped::new(v, t) == *self, "function typed item of its parts")
    }
}
impl<T: Dump + Views + PartialEq + Clone + Debug> Views for FunctionTypedList<T> {
    fn views(&self) -> Result<(), String> {
        let t = self.dump();
        slice(&t, self.values(), "function typed list")?;
        slice(&t, self.deref(), "slice of a function typed list")?;
        let v: Vec<FunctionTyped<T>> = self.values().to_vec();
        ck(*self == v && *self == v[..], "function typed list compared with its elements")?;
        ck(FunctionTypedList::new(v.clone()) == *self, "function typed list of its elements")?;
        if !v.is_empty() {
            ck(*self != v[1..] && *self != v[..v.len() - 1], "function typed list compared with fewer")?;
        }
        for x in &v {
            x.views()?;
        }
        Ok(())
    }
}
impl Views for AtomicFormulaSkeleton {
    fn views(&self) -> Result<(), String> {
        let n: &Name = self.predicate().as_ref();
        ck(self.name() == n, "name of a predicate skeleton")?;
        self.predicate().views()?;
        self.variables().views()
    }
}
impl Views for AtomicFunctionSkeleton {
    fn views(&self) -> Result<(), String> {
        self.symbol().views()?;
        self.variables().views()
    }
}
impl Views for FunctionTerm {
    fn views(&self) -> Result<(), String> {
        let t = self.dump();
        let s: &FunctionSymbol = self.as_ref();
        let v: &Vec<Term> = self.as_ref();
        ck(s == self.symbol(), "symbol of a function term")?;
        ck(t.kids()[1..] == trees(v)[..] && v == self.terms(), "terms of a function term")?;
        ck(FunctionTerm::new(s.clone(), v.clone()) == *self, "function term of its parts")
    }
}
impl Views for BasicFunctionTerm {
    fn views(&self) -> Result<(), String> {
        let s: &FunctionSymbol = self.as_ref();
        let v: &[Name] = self.as_ref();
        ck(s == self.symbol(), "symbol of a basic function term")?;
        ck(v == self.names(), "names of a basic function term")?;
        ck(BasicFunctionTerm::new(s.clone(), v.to_vec()) == *self, "basic function term of its parts")
    }
}
impl<T: Dump + PartialEq + Clone> Views for AtomicFormula<T> {
    fn views(&self) -> Result<(), String> {
        match self {
            AtomicFormula::Equality(e) => {
                let v = (e.first().clone(), e.second().clone());
                ck(EqualityAtomicFormula::from(v) == *e, "equality of its parts")
            }
            AtomicFormula::Predicate(p) => {
                let v: &[T] = p.deref();
                ck(v == p.values(), "slice of an atomic formula")?;
                let v = (p.predicate().clone(), v.to_vec());
                ck(PredicateAtomicFormula::from(v) == *p, "atomic formula of its parts")
            }
        }
    }
}
impl<T: Dump + PartialEq + Clone> Views for Literal<T> {
    fn views(&self) -> Result<(), String> {
        ck(self.is_negated() == self.dump().is("-"), "negation of a literal")?;
        match self {
            Literal::AtomicFormula(a) => {
                ck(Literal::from(a.clone()) == *self && Literal::new_not(a.clone()) != *self, "literal of its formula")?;
                a.views()
            }
            Literal::NotAtomicFormula(a) => {
                ck(Literal::from(a.clone()) != *self && Literal::new_not(a.clone()) == *self, "literal of its formula")?;
                a.views()
            }
        }
    }
}

/// Whether anything but connectives and quantifiers occurs in a goal or constraint.
pub fn says_something(t: &Tree) -> bool {
    match t.kind() {
        "g.af" | "g.lit" | "g.fcomp" => true,
        "g.exists" | "g.forall" | "c.forall" => says_something(t.at(1)),
        "tl" | "#n" | "#a" => false,
        _ => t.kids().iter().any(says_something),
    }
}
impl Views for GoalDefinition {
    fn views(&self) -> Result<(), String> {
        ck(self.is_empty() != says_something(&self.dump()), "emptiness of a goal")
    }
}
impl Views for ConGD {
    fn views(&self) -> Result<(), String> {
        ck(self.is_empty() != says_something(&self.dump()), "emptiness of a constraint")
    }
}
impl Views for Con2GD {
    fn views(&self) -> Result<(), String> {
        ck(self.is_empty() != says_something(&self.dump()), "emptiness of a nested constraint")
    }
}
impl Views for Preference {
    fn views(&self) -> Result<(), String> {
        ck(self.is_empty() != says_something(&self.goal().dump()), "emptiness of a preference")?;
        let p = Preference::from((self.name().clone(), self.goal().clone()));
        ck(p == *self, "preference of its parts")?;
        if let Some(n) = self.name() {
            ck(Preference::from((n.clone(), self.goal().clone())) == *self, "preference of its parts")?;
        } else {
            ck(Preference::from(self.goal().clone()) == *self, "preference of its goal")?;
        }
        Ok(())
    }
}
impl Views for PreferenceGD {
    fn views(&self) -> Result<(), String> {
        match self {
            PreferenceGD::Goal(g) => {
                g.views()?;
                ck(PreferenceGD::from_gd(g.clone()) == *self, "optional preference of its goal")
            }
            PreferenceGD::Preference(p) => {
                p.views()?;
                ck(PreferenceGD::from_preference(p.clone()) == *self, "optional preference of its preference")
            }
        }
    }
}
impl Views for PrefConGD {
    fn views(&self) -> Result<(), String> {
        let t = self.dump();
        match self {
            // A quantified one is a list as well: it is empty if it says nothing, but need not
            // look into every one of its elements.
            PrefConGD::Forall(_, x) => {
                x.views()?;
                ck(!x.is_empty() || self.is_empty(), "emptiness of a quantified constraint")?;
                let any = t.at(1).kids().iter().any(|p| match p.kind() {
                    "pc.forall" => true,
                    _ => says_something(p),
                });
                ck(!(self.is_empty() && any && says_something_pcs(t.at(1))), "emptiness of a quantified constraint")
            }
            PrefConGD::Preference(_, x) | PrefConGD::Goal(x) => {
                x.views()?;
                ck(self.is_empty() == x.is_empty(), "emptiness of a constraint with preference")
            }
        }
    }
}
fn says_something_pcs(t: &Tree) -> bool {
    t.kids().iter().any(|p| match p.kind() {
        "pc.goal" => says_something(p.at(0)),
        "pc.pref" => says_something(p.at(1)),
        _ => says_something_pcs(p.at(1)),
    })
}

/// A list that can be taken apart when it has exactly one element.
macro_rules! singles {
    ($($t:ty, $e:ty, $what:literal;)*) => {$(
        impl Views for $t {
            fn views(&self) -> Result<(), String> {
                let t = self.dump();
                let r: &[$e] = self.as_ref();
                slice(&t, r, concat!("reference to ", $what))?;
                slice(&t, self.deref(), concat!("slice of ", $what))?;
                ck(self.len() == t.kids().len(), concat!("length of ", $what))?;
                ck(self.is_empty() == t.kids().is_empty(), concat!("emptiness of ", $what))?;
                drains(t.kids(), self.iter(), concat!("borrowed iteration of ", $what))?;
                drains(t.kids(), self.clone().into_iter(), concat!("owned iteration of ", $what))?;
                let back: $t = self.clone().into_iter().collect();
                ck(back == *self, concat!($what, " of its elements"))?;
                let one: Option<Tree> = if t.kids().len() == 1 { Some(t.at(0).clone()) } else { None };
                let got = self.clone().try_get_single().map(|x| x.dump());
                ck(got == one, concat!("single element of ", $what))?;
                let got: Result<$e, ()> = self.clone().try_into();
                ck(got.ok().map(|x| x.dump()) == one, concat!($what, " converted into its single element"))?;
                for x in r {
                    let s = <$t>::from(x.clone());
                    ck(s.len() == 1 && s.try_get_single().as_ref() == Some(x), concat!($what, " of one element"))?;
                }
                Ok(())
            }
        }
    )*};
}
singles! {
    Effects, CEffect, "effects";
    PreconditionGoalDefinitions, PreconditionGoalDefinition, "preconditions";
    PrefConGDs, PrefConGD, "constraints with preferences";
}
/// Checks of the lists above that are not common to them.
pub fn pre_extra(p: &PreconditionGoalDefinitions) -> Result<(), String> {
    let v: Vec<PreconditionGoalDefinition> = p.clone().into();
    ck(owned(v) == p.dump().kids(), "vector of preconditions")?;
    let o = PreconditionGoalDefinitions::from(Some(p.clone()));
    ck(o == *p, "preconditions of an option")?;
    let o = PreconditionGoalDefinitions::from(p.first().cloned());
    ck(trees(&o[..]).first() == p.dump().kids().first() && o.len() == p.len().min(1), "preconditions of an optional element")?;
    let g = GoalDef::new(p.clone());
    let d: &PreconditionGoalDefinitions = g.deref();
    ck(d == p && g.value() == p && g == *p, "goal of preconditions")?;
    let b: PreconditionGoalDefinitions = g.into();
    ck(b == *p, "preconditions of a goal")
}
pub fn pcs_extra(p: &PrefConGDs) -> Result<(), String> {
    let v: Vec<PrefConGD> = p.clone().into();
    ck(owned(v) == p.dump().kids(), "vector of constraints")?;
    ck(PrefConGDs::from(Some(p.clone())) == *p, "constraints of an option")?;
    let o = PrefConGDs::from(p.first().cloned());
    ck(trees(&o[..]).first() == p.dump().kids().first() && o.len() == p.len().min(1), "constraints of an optional element")?;
    let g = ProblemConstraintsDef::new(p.clone());
    let d: &PrefConGDs = g.deref();
    ck(d == p && g.value() == p && g == *p, "problem constraints")?;
    let b: PrefConGDs = g.into();
    ck(b == *p, "constraints of problem constraints")
}

impl Views for PreconditionGoalDefinition {
    fn views(&self) -> Result<(), String> {
        match self {
            PreconditionGoalDefinition::Preference(p) => p.views(),
            PreconditionGoalDefinition::Forall(_, p) => p.views(),
        }
    }
}
impl Views for GoalDef {
    fn views(&self) -> Result<(), String> {
        self.value().views()?;
        pre_extra(self.value())?;
        let t = self.dump();
        slice(&t, self.value(), "goal")?;
        ck(self.len() == t.kids().len() && self.is_empty() == t.kids().is_empty(), "length of a goal")
    }
}
impl Views for ProblemConstraintsDef {
    fn views(&self) -> Result<(), String> {
        self.value().views()?;
        pcs_extra(self.value())
    }
}
impl Views for DomainConstraintsDef {
    fn views(&self) -> Result<(), String> {
        let d: &ConGD = self.deref();
        ck(d == self.value() && *self == *d, "domain constraints")?;
        ck(self.is_empty() == d.is_empty(), "emptiness of domain constraints")?;
        let b: ConGD = self.clone().into();
        ck(b == *d, "constraint of domain constraints")?;
        d.views()
    }
}
impl Views for CEffect {
    fn views(&self) -> Result<(), String> {
        let t = self.dump();
        let p: Result<PEffect, ()> = self.clone().try_into();
        let f: Result<ForallCEffect, ()> = self.clone().try_into();
        let w: Result<WhenCEffect, ()> = self.clone().try_into();
        let want = |k: &str| if t.is(k) { Some(if k == "e.p" { t.at(0).clone() } else { t.clone() }) } else { None };
        ck(p.ok().map(|x| x.dump()) == want("e.p"), "effect converted into a plain one")?;
        ck(f.ok().map(|x| x.dump()) == want("e.forall"), "effect converted into a quantified one")?;
        ck(w.ok().map(|x| x.dump()) == want("e.when"), "effect converted into a conditional one")
    }
}
impl Views for ForallCEffect {
    fn views(&self) -> Result<(), String> {
        let x = ForallCEffect::from((self.variables.clone(), self.effects.clone()));
        ck(x == *self, "quantified effect of its parts")?;
        self.effects.views()
    }
}
impl Views for WhenCEffect {
    fn views(&self) -> Result<(), String> {
        let x = WhenCEffect::from((self.condition.clone(), self.effect.clone()));
        ck(x == *self, "conditional effect of its parts")?;
        self.effect.views()
    }
}
impl Views for ConditionalEffect {
    fn views(&self) -> Result<(), String> {
        let t = self.dump();
        drains(t.kids(), self.clone().into_iter(), "iteration of a conditional effect")?;
        drains(t.kids(), self.clone().into_iter().map(|x| x), "iteration of a conditional effect")?;
        let all: ConditionalEffect = self.clone().into_iter().collect();
        ck(same_items(&t, all.dump().kids()), "conditional effect of its elements")?;
        ck(owned(self.clone()).len() == t.kids().len(), "count of a conditional effect")
    }
}
impl Views for DurationConstraint {
    fn views(&self) -> Result<(), String> {
        let t = self.dump();
        ck(self.len() == t.kids().len(), "length of a duration constraint")?;
        ck(self.is_empty() == t.kids().is_empty(), "emptiness of a duration constraint")?;
        drains(t.kids(), self.clone().into_iter(), "iteration of a duration constraint")
    }
}
impl Views for ActionDefinition {
    fn views(&self) -> Result<(), String> {
        let s: &ActionSymbol = self.as_ref();
        ck(s == self.symbol(), "symbol of an action")?;
        self.symbol().views()?;
        self.parameters().views()?;
        self.precondition().views()?;
        pre_extra(self.precondition())?;
        if let Some(e) = self.effect() {
            e.views()?;
        }
        let x = ActionDefinition::new(
            s.clone(), self.parameters().clone(), self.precondition().clone(), self.effect().clone());
        ck(x == *self, "action of its parts")
    }
}
impl Views for DurativeActionDefinition {
    fn views(&self) -> Result<(), String> {
        let s: &DurativeActionSymbol = self.as_ref();
        let v: &TypedVariables = self.as_ref();
        let d: &Option<DurationConstraint> = self.as_ref();
        let c: &Option<DurativeActionGoalDefinition> = self.as_ref();
        let e: &Option<DurativeActionEffect> = self.as_ref();
        ck(s == self.symbol() && v == self.parameters() && d == self.duration()
            && c == self.condition() && e == self.effect(), "references to the parts of a durative action")?;
        v.views()?;
        if let Some(d) = d {
            d.views()?;
        }
        let x = DurativeActionDefinition::new(s.clone(), v.clone(), d.clone(), c.clone(), e.clone());
        ck(x == *self, "durative action of its parts")
    }
}
impl Views for DerivedPredicate {
    fn views(&self) -> Result<(), String> {
        let s: &AtomicFormulaSkeleton = self.as_ref();
        let g: &GoalDefinition = self.as_ref();
        ck(s == self.predicate() && g == self.expression(), "references to the parts of a derived predicate")?;
        s.views()?;
        g.views()?;
        ck(DerivedPredicate::new(s.clone(), g.clone()) == *self, "derived predicate of its parts")
    }
}
macro_rules! lists {
    ($($t:ty, $what:literal;)*) => {$(
        impl Views for $t {
            fn views(&self) -> Result<(), String> {
                let t = self.dump();
                slice(&t, self.values(), $what)?;
                slice(&t, self.deref(), concat!("slice of ", $what))?;
                let back: $t = self.values().to_vec().into_iter().collect();
                ck(back == *self, concat!($what, " of its elements"))
            }
        }
    )*};
}
lists! {
    InitElements, "initial state";
    StructureDefs, "structures";
    PredicateDefinitions, "predicate definitions";
    Timeless, "timeless facts";
}
impl Views for Requirements {
    fn views(&self) -> Result<(), String> {
        let t = self.dump();
        slice(&t, self.deref(), "requirements")?;
        let back: Requirements = self.deref().to_vec().into();
        ck(back == *self, "requirements of their elements")
    }
}
macro_rules! name_lists {
    ($($t:ty, $what:literal;)*) => {$(
        impl Views for $t {
            fn views(&self) -> Result<(), String> {
                let v: &TypedNames = self.deref();
                v.views()?;
                slice(self.dump().at(0), v.value(), $what)?;
                ck(self.len() == v.value().len() && self.is_empty() == v.value().is_empty(), $what)?;
                ck(<$t>::from(v.clone()) == *self, concat!($what, " of their elements"))
            }
        }
    )*};
}
name_lists! {
    Types, "types";
    Constants, "constants";
    Objects, "objects";
}
impl Views for Functions {
    fn views(&self) -> Result<(), String> {
        let d: &FunctionTypedList<AtomicFunctionSkeleton> = self.deref();
        ck(d == self.values(), "functions")?;
        d.views()?;
        ck(Functions::from(d.clone()) == *self, "functions of their elements")
    }
}
impl Views for Domain {
    fn views(&self) -> Result<(), String> {
        let r: &Requirements = self.as_ref();
        let t: &Types = self.as_ref();
        let p: &PredicateDefinitions = self.as_ref();
        let f: &Functions = self.as_ref();
        let s: &StructureDefs = self.as_ref();
        ck(r == self.requirements() && t == self.types() && p == self.predicates()
            && f == self.functions() && s == self.structure(), "references to the parts of a domain")?;
        r.views()?;
        t.views()?;
        self.constants().views()?;
        p.views()?;
        f.views()?;
        s.views()?;
        self.constraints().views()?;
        self.name().views()
    }
}
impl Views for Problem {
    fn views(&self) -> Result<(), String> {
        self.requirements().views()?;
        self.objects().views()?;
        self.init().views()?;
        self.goals().views()?;
        self.constraints().views()?;
        pre_extra(self.goals())?;
        pcs_extra(self.constraints())?;
        self.domain().views()?;
        self.name().views()
    }
}
