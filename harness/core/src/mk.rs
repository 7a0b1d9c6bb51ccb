//! Crate values built from syntax trees through the public constructors, builders and
//! conversions. Where several ways exist, the seed selects among them.
use crate::choice::mix;
use crate::tree::*;
use pddl::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

pub struct Mk {
    s: Cell<u64>,
    fixed: bool,
}

type Vars = TypedList<Variable>;

/// A text that lives for ever, in one of two places in memory; not of every text, to keep memory
/// bounded.
pub fn leaked(s: &str, which: usize) -> Option<&'static str> {
    thread_local! {
        static TEXTS: RefCell<(HashMap<String, [&'static str; 2]>, usize)> = RefCell::new((HashMap::new(), 0));
    }
    TEXTS.with(|t| {
        let (map, size) = &mut *t.borrow_mut();
        if let Some(v) = map.get(s) {
            return Some(v[which % 2]);
        }
        if s.len() > 300 || *size + s.len() + 50 > 1_000_000 {
            return None;
        }
        *size += s.len() + 50;
        let two = [(); 2].map(|()| &*Box::leak(s.to_string().into_boxed_str()));
        map.insert(s.to_string(), two);
        Some(two[which % 2])
    })
}

impl Mk {
    /// Always the first way.
    pub fn plain() -> Self {
        Mk { s: Cell::new(0), fixed: true }
    }
    pub fn new(seed: u64) -> Self {
        Mk { s: Cell::new(mix(seed)), fixed: false }
    }
    fn alt(&self, n: u64) -> u64 {
        if self.fixed {
            return 0;
        }
        self.s.set(mix(self.s.get()));
        self.s.get() % n
    }
    fn vec<T>(&self, t: &[Tree], f: impl Fn(&Self, &Tree) -> T) -> Vec<T> {
        t.iter().map(|x| f(self, x)).collect()
    }
    fn opt<T>(&self, t: &Tree, f: impl Fn(&Self, &Tree) -> T) -> Option<T> {
        match t.kind() {
            "none" => None,
            "some" => Some(f(self, t.at(0))),
            k => panic!("option {k}"),
        }
    }

    pub fn text(&self, s: &str) -> Name {
        match self.alt(5) {
            0 => Name::new(s),
            1 => Name::new(s.to_string()),
            2 => s.into(),
            3 => s.to_string().into(),
            _ => match leaked(s, self.alt(2) as usize) {
                Some(s) => Name::new_static(s),
                None => Name::new(s).clone(),
            },
        }
    }
    pub fn name(&self, t: &Tree) -> Name {
        self.text(t.text())
    }
    pub fn var(&self, t: &Tree) -> Variable {
        let s = t.at(0).text();
        match self.alt(5) {
            0 => Variable::new(self.text(s)),
            1 => Variable::from_str(s),
            2 => Variable::from_name(self.text(s)),
            3 => s.into(),
            _ => match leaked(s, self.alt(2) as usize) {
                Some(s) => Variable::from_static(s),
                None => self.text(s).into(),
            },
        }
    }
    pub fn pred(&self, t: &Tree) -> Predicate {
        let s = t.text();
        match self.alt(5) {
            0 => Predicate::new(self.text(s)),
            1 => Predicate::from_str(s),
            2 => Predicate::from_name(self.text(s)),
            3 => s.into(),
            _ => match leaked(s, self.alt(2) as usize) {
                Some(s) => Predicate::from_static(s),
                None => self.text(s).into(),
            },
        }
    }
    pub fn fun(&self, t: &Tree) -> FunctionSymbol {
        let s = t.text();
        match self.alt(4) {
            0 => FunctionSymbol::new(self.text(s)),
            1 => FunctionSymbol::from_str(s),
            2 => FunctionSymbol::from_name(self.text(s)),
            _ => s.into(),
        }
    }
    pub fn act(&self, t: &Tree) -> ActionSymbol {
        let s = t.text();
        match self.alt(4) {
            0 => ActionSymbol::new(self.text(s)),
            1 => ActionSymbol::from_str(s),
            2 => ActionSymbol::from_name(self.text(s)),
            _ => s.into(),
        }
    }
    pub fn dact(&self, t: &Tree) -> DurativeActionSymbol {
        let s = t.text();
        match self.alt(4) {
            0 => DurativeActionSymbol::new(self.text(s)),
            1 => DurativeActionSymbol::from_str(s),
            2 => DurativeActionSymbol::from_name(self.text(s)),
            _ => s.into(),
        }
    }
    pub fn pname(&self, t: &Tree) -> PreferenceName {
        let s = t.text();
        match self.alt(5) {
            0 => PreferenceName::new(self.text(s)),
            1 => PreferenceName::from_str(s),
            2 => PreferenceName::from_name(self.text(s)),
            3 => s.into(),
            _ => match leaked(s, self.alt(2) as usize) {
                Some(s) => PreferenceName::from_static(s),
                None => PreferenceName::new(s),
            },
        }
    }
    pub fn num(&self, t: &Tree) -> Number {
        let v = t.num();
        match self.alt(5) {
            0 => Number::new(v),
            1 => Number::try_new(v).unwrap(),
            2 => v.into(),
            3 => (v as f64).into(),
            _ => v.to_string().parse().unwrap(),
        }
    }

    // ---- types ----

    pub fn ptype(&self, t: &Tree) -> PrimitiveType {
        match self.alt(2) {
            0 => PrimitiveType::new(self.name(t)),
            _ => t.text().into(),
        }
    }
    pub fn ty(&self, t: &Tree) -> Type {
        match t {
            A(s) => match self.alt(4) {
                0 => Type::Exactly(self.ptype(t)),
                1 => self.ptype(t).into(),
                2 => s.as_str().into(),
                _ if s == "object" => [Type::OBJECT, Type::default()][self.alt(2) as usize].clone(),
                _ if s == "number" => Type::NUMBER,
                _ => Type::Exactly(self.ptype(t)),
            },
            t => match self.alt(4) {
                0 => Type::EitherOf(self.vec(t.kids(), Self::ptype)),
                1 => self.vec(t.kids(), Self::ptype).into(),
                2 => t.kids().iter().map(|x| x.text()).collect::<Vec<&str>>().into(),
                _ => t.kids().iter().map(|x| self.ptype(x)).collect::<Type>(),
            },
        }
    }
    fn typed<T: ToTyped<T>>(&self, v: T, t: &Tree) -> Typed<T> {
        if t == &a("object") && self.alt(3) == 1 {
            return match self.alt(2) {
                0 => Typed::new_object(v),
                _ => v.into(),
            };
        }
        match self.alt(3) {
            0 => Typed::new(v, self.ty(t)),
            1 => v.to_typed(self.ty(t)),
            _ if t.is("either") => v.to_typed_either(self.vec(t.kids(), Self::ptype)),
            _ => v.to_typed(t.text()),
        }
    }
    fn list<T>(&self, v: Vec<Typed<T>>) -> TypedList<T> {
        match self.alt(3) {
            0 => TypedList::new(v),
            1 => v.into(),
            _ => v.into_iter().collect(),
        }
    }
    pub fn vars(&self, t: &Tree) -> Vars {
        let v = self.vec(t.kids(), |m, x| m.typed(m.var(x.at(0)), x.at(1)));
        self.list(v)
    }
    pub fn names(&self, t: &Tree) -> TypedNames {
        let v = self.vec(t.kids(), |m, x| m.typed(m.name(x.at(0)), x.at(1)));
        self.list(v)
    }
    pub fn ftype(&self, t: &Tree) -> FunctionType {
        match self.alt(5) {
            0 => FunctionType::new(self.ty(t)),
            1 => FunctionType::from(self.ty(t)),
            2 if t == &a("number") => FunctionType::default(),
            3 => match t {
                A(s) => FunctionType::new(s.as_str()),
                t => FunctionType::new(t.kids().iter().map(|x| x.text()).collect::<Vec<&str>>()),
            },
            _ => match t {
                A(s) => <FunctionType as From<&str>>::from(s),
                t => <FunctionType as From<Vec<&str>>>::from(
                    t.kids().iter().map(|x| x.text()).collect(),
                ),
            },
        }
    }
    pub fn fskel(&self, t: &Tree) -> AtomicFunctionSkeleton {
        let (s, v) = (self.fun(t.at(0)), self.vars(t.at(1)));
        match self.alt(3) {
            0 => AtomicFunctionSkeleton::new(s, v),
            1 => (s, v).into(),
            _ => (s, v.into_iter().collect::<Vec<_>>()).into(),
        }
    }
    pub fn pskel(&self, t: &Tree) -> AtomicFormulaSkeleton {
        let (s, v) = (self.pred(t.at(0)), self.vars(t.at(1)));
        match self.alt(2) {
            0 => AtomicFormulaSkeleton::new(s, v),
            _ => (s, v).into(),
        }
    }
    fn ftyped(&self, x: &Tree) -> FunctionTyped<AtomicFunctionSkeleton> {
        let s = self.fskel(x.at(0));
        if x.at(1) == &a("number") && self.alt(2) == 1 {
            return match self.alt(2) {
                0 => FunctionTyped::new_number(s),
                _ => s.into(),
            };
        }
        match self.alt(2) {
            0 => FunctionTyped::new(s, self.ftype(x.at(1))),
            _ => FunctionTyped::from_type(s, self.ty(x.at(1))),
        }
    }
    pub fn funs(&self, t: &Tree) -> FunctionTypedList<AtomicFunctionSkeleton> {
        let v = self.vec(t.kids(), Self::ftyped);
        match self.alt(3) {
            0 => FunctionTypedList::new(v),
            1 => v.into(),
            _ => v.into_iter().collect(),
        }
    }

    // ---- terms and formulas ----

    pub fn fterm(&self, t: &Tree) -> FunctionTerm {
        FunctionTerm::new(self.fun(t.at(0)), self.vec(&t.kids()[1..], Self::term))
    }
    pub fn term(&self, t: &Tree) -> Term {
        match (t.kind(), self.alt(3)) {
            ("var", 0) => Term::Variable(self.var(t)),
            ("var", 1) => Term::new_variable(self.var(t)),
            ("var", _) => self.var(t).into(),
            ("ft", 0) => Term::Function(self.fterm(t)),
            ("ft", 1) => Term::new_function(self.fterm(t)),
            ("ft", _) => self.fterm(t).into(),
            (_, 0) => Term::Name(self.name(t)),
            (_, 1) => Term::new_name(self.name(t)),
            _ => self.name(t).into(),
        }
    }
    pub fn af<T>(&self, t: &Tree, f: impl Fn(&Self, &Tree) -> T) -> AtomicFormula<T> {
        if t.is("eq") {
            let (x, y) = (f(self, t.at(0)), f(self, t.at(1)));
            match self.alt(3) {
                0 => AtomicFormula::new_equality(x, y),
                1 => EqualityAtomicFormula::new(x, y).into(),
                _ => AtomicFormula::Equality((x, y).into()),
            }
        } else {
            let p = self.pred(t.at(0));
            let v = self.vec(&t.kids()[1..], f);
            match self.alt(3) {
                0 => AtomicFormula::new_predicate(p, v),
                1 => PredicateAtomicFormula::new(p, v).into(),
                _ => AtomicFormula::Predicate((p, v).into()),
            }
        }
    }
    pub fn taf(&self, t: &Tree) -> AtomicFormula<Term> {
        self.af(t, Self::term)
    }
    pub fn lit<T>(&self, t: &Tree, f: impl Fn(&Self, &Tree) -> T) -> Literal<T> {
        let x = self.af(t.at(0), f);
        match (t.kind(), self.alt(3)) {
            ("+", 0) => Literal::AtomicFormula(x),
            ("+", 1) => Literal::new(x),
            ("+", _) => x.into(),
            ("-", 0) => Literal::NotAtomicFormula(x),
            ("-", _) => Literal::new_not(x),
            (k, _) => panic!("literal {k}"),
        }
    }
    pub fn nlit(&self, t: &Tree) -> NameLiteral {
        self.lit(t, Self::name)
    }
    pub fn goal(&self, t: &Tree) -> GoalDefinition {
        use GoalDefinition as G;
        let w = self.alt(3);
        match t.kind() {
            "g.af" if w == 0 => G::AtomicFormula(self.taf(t.at(0))),
            "g.af" => G::new_atomic_formula(self.taf(t.at(0))),
            "g.lit" if w == 0 => G::Literal(self.lit(t.at(0), Self::term)),
            "g.lit" => G::new_literal(self.lit(t.at(0), Self::term)),
            "g.and" if w == 0 => G::And(self.vec(t.kids(), Self::goal)),
            "g.and" => G::new_and(self.vec(t.kids(), Self::goal)),
            "g.or" if w == 0 => G::Or(self.vec(t.kids(), Self::goal)),
            "g.or" => G::new_or(self.vec(t.kids(), Self::goal)),
            "g.not" if w == 0 => G::Not(Box::new(self.goal(t.at(0)))),
            "g.not" => G::new_not(self.goal(t.at(0))),
            "g.imply" => {
                let (x, y) = (self.goal(t.at(0)), self.goal(t.at(1)));
                match w {
                    0 => G::Imply(Box::new(x), Box::new(y)),
                    1 => G::new_imply(x, y),
                    _ => G::new_imply_tuple((x, y)),
                }
            }
            "g.exists" => {
                let (x, y) = (self.vars(t.at(0)), self.goal(t.at(1)));
                match w {
                    0 => G::Exists(x, Box::new(y)),
                    1 => G::new_exists(x, y),
                    _ => G::new_exists_tuple((x, y)),
                }
            }
            "g.forall" => {
                let (x, y) = (self.vars(t.at(0)), self.goal(t.at(1)));
                match w {
                    0 => G::ForAll(x, Box::new(y)),
                    1 => G::new_forall(x, y),
                    _ => G::new_forall_tuple((x, y)),
                }
            }
            "g.fcomp" if w == 0 => G::FComp(self.fcomp(t)),
            "g.fcomp" => G::new_f_comp(self.fcomp(t)),
            k => panic!("goal {k}"),
        }
    }

    // ---- numeric expressions ----

    pub fn bop(&self, t: &Tree) -> BinaryOp {
        let o = match t.text() {
            "*" => BinaryOp::Multiplication,
            "+" => BinaryOp::Addition,
            "-" => BinaryOp::Subtraction,
            _ => BinaryOp::Division,
        };
        match self.alt(3) {
            0 => o,
            1 => t.text().try_into().unwrap(),
            _ => match MultiOp::try_from(o) {
                Ok(m) => m.into(),
                Err(_) => o,
            },
        }
    }
    pub fn mop(&self, t: &Tree) -> MultiOp {
        match (self.alt(3), t.text()) {
            (0, "*") => MultiOp::Multiplication,
            (0, _) => MultiOp::Addition,
            (1, s) => s.try_into().unwrap(),
            (_, "*") => BinaryOp::Multiplication.try_into().unwrap(),
            (_, _) => BinaryOp::Addition.try_into().unwrap(),
        }
    }
    pub fn comp(&self, t: &Tree) -> BinaryComp {
        match (self.alt(2), t.text()) {
            (1, s) => s.try_into().unwrap(),
            (_, ">") => BinaryComp::GreaterThan,
            (_, "<") => BinaryComp::LessThan,
            (_, "=") => BinaryComp::Equal,
            (_, ">=") => BinaryComp::GreaterOrEqual,
            (_, _) => BinaryComp::LessThanOrEqual,
        }
    }
    pub fn aop(&self, t: &Tree) -> AssignOp {
        match (self.alt(2), t.text()) {
            (1, s) => s.try_into().unwrap(),
            (_, "assign") => AssignOp::Assign,
            (_, "increase") => AssignOp::Increase,
            (_, "decrease") => AssignOp::Decrease,
            (_, "scale-up") => AssignOp::ScaleUp,
            (_, _) => AssignOp::ScaleDown,
        }
    }
    pub fn aopt(&self, t: &Tree) -> AssignOpT {
        match (self.alt(2), t.text()) {
            (1, s) => s.try_into().unwrap(),
            (_, "increase") => AssignOpT::Increase,
            (_, _) => AssignOpT::Decrease,
        }
    }
    pub fn dop(&self, t: &Tree) -> DOp {
        match (self.alt(2), t.text()) {
            (1, s) => s.try_into().unwrap(),
            (_, "=") => DOp::Equal,
            (_, "<=") => DOp::LessThanOrEqual,
            (_, _) => DOp::GreaterOrEqual,
        }
    }
    pub fn time(&self, t: &Tree) -> TimeSpecifier {
        match (self.alt(2), t.text()) {
            (1, s) => s.try_into().unwrap(),
            (_, "start") => TimeSpecifier::Start,
            (_, _) => TimeSpecifier::End,
        }
    }
    pub fn optim(&self, t: &Tree) -> Optimization {
        match (self.alt(2), t.text()) {
            (1, s) => s.try_into().unwrap(),
            (_, "minimize") => Optimization::Minimize,
            (_, _) => Optimization::Maximize,
        }
    }
    pub fn req(&self, t: &Tree) -> Requirement {
        use Requirement as R;
        match (self.alt(2), t.text()) {
            (1, s) => s.try_into().unwrap(),
            (_, ":strips") => R::Strips,
            (_, ":typing") => R::Typing,
            (_, ":negative-preconditions") => R::NegativePreconditions,
            (_, ":disjunctive-preconditions") => R::DisjunctivePreconditions,
            (_, ":equality") => R::Equality,
            (_, ":existential-preconditions") => R::ExistentialPreconditions,
            (_, ":universal-preconditions") => R::UniversalPreconditions,
            (_, ":quantified-preconditions") => R::QuantifiedPreconditions,
            (_, ":conditional-effects") => R::ConditionalEffects,
            (_, ":fluents") => R::Fluents,
            (_, ":numeric-fluents") => R::NumericFluents,
            (_, ":object-fluents") => R::ObjectFluents,
            (_, ":adl") => R::Adl,
            (_, ":durative-actions") => R::DurativeActions,
            (_, ":duration-inequalities") => R::DurationInequalities,
            (_, ":continuous-effects") => R::ContinuousEffects,
            (_, ":derived-predicates") => R::DerivedPredicates,
            (_, ":timed-initial-literals") => R::TimedInitialLiterals,
            (_, ":preferences") => R::Preferences,
            (_, ":constraints") => R::Constraints,
            (_, ":action-costs") => R::ActionCosts,
            (_, s) => panic!("requirement {s}"),
        }
    }
    pub fn head(&self, t: &Tree) -> FHead {
        let s = self.fun(t.at(0));
        match (t.kind(), self.alt(2)) {
            ("h", 0) => FHead::Simple(s),
            ("h", _) => FHead::new(s),
            (_, 0) => FHead::WithTerms(s, self.vec(&t.kids()[1..], Self::term)),
            (_, _) => FHead::new_with_terms(s, self.vec(&t.kids()[1..], Self::term)),
        }
    }
    pub fn fexp(&self, t: &Tree) -> FExp {
        let w = self.alt(2);
        match t.kind() {
            "x.n" if w == 0 => FExp::Number(self.num(t.at(0))),
            "x.n" => FExp::new_number(t.at(0).num()),
            "x.f" if w == 0 => FExp::Function(self.head(t.at(0))),
            "x.f" => FExp::new_function(self.head(t.at(0))),
            "x.neg" if w == 0 => FExp::Negative(Box::new(self.fexp(t.at(0)))),
            "x.neg" => FExp::new_negative(self.fexp(t.at(0))),
            "x.bin" => {
                let (o, x, y) = (self.bop(t.at(0)), self.fexp(t.at(1)), self.fexp(t.at(2)));
                match w {
                    0 => FExp::BinaryOp(o, Box::new(x), Box::new(y)),
                    _ => FExp::new_binary_op(o, x, y),
                }
            }
            "x.multi" => {
                let (o, x) = (self.mop(t.at(0)), self.fexp(t.at(1)));
                let v = self.vec(&t.kids()[2..], Self::fexp);
                match w {
                    0 => FExp::MultiOp(o, Box::new(x), v),
                    _ => FExp::new_multi_op(o, x, v),
                }
            }
            k => panic!("fexp {k}"),
        }
    }
    pub fn fexp_da(&self, t: &Tree) -> FExpDa {
        let w = self.alt(3);
        match t.kind() {
            "xd.dur" if w == 0 => FExpDa::Duration,
            "xd.dur" => FExpDa::new_duration(),
            "xd.x" => match w {
                0 => FExpDa::FExp(self.fexp(t.at(0))),
                1 => FExpDa::new_f_exp(self.fexp(t.at(0))),
                _ => self.fexp(t.at(0)).into(),
            },
            "xd.neg" if w == 0 => FExpDa::Negative(Box::new(self.fexp_da(t.at(0)))),
            "xd.neg" => FExpDa::new_negative(self.fexp_da(t.at(0))),
            "xd.bin" => {
                let (o, x, y) = (self.bop(t.at(0)), self.fexp_da(t.at(1)), self.fexp_da(t.at(2)));
                match w {
                    0 => FExpDa::BinaryOp(o, Box::new(x), Box::new(y)),
                    _ => FExpDa::new_binary_op(o, x, y),
                }
            }
            "xd.multi" => {
                let (o, x) = (self.mop(t.at(0)), self.fexp_da(t.at(1)));
                let v = self.vec(&t.kids()[2..], Self::fexp_da);
                match w {
                    0 => FExpDa::MultiOp(o, Box::new(x), v),
                    _ => FExpDa::new_multi_op(o, x, v),
                }
            }
            "xd.assign" => FExpDa::Assign(
                self.aop(t.at(0)),
                self.head(t.at(1)),
                Box::new(self.fexp_da(t.at(2))),
            ),
            k => panic!("fexp_da {k}"),
        }
    }
    pub fn fexp_t(&self, t: &Tree) -> FExpT {
        match (t.kind(), self.alt(3)) {
            ("xt.now", 0) => FExpT::Now,
            ("xt.now", 1) => FExpT::new(),
            ("xt.now", _) => FExpT::default(),
            (_, 0) => FExpT::Scaled(self.fexp(t.at(0))),
            (_, 1) => FExpT::new_scaled(self.fexp(t.at(0))),
            (_, _) => self.fexp(t.at(0)).into(),
        }
    }
    pub fn fcomp(&self, t: &Tree) -> FComp {
        let (o, x, y) = (self.comp(t.at(0)), self.fexp(t.at(1)), self.fexp(t.at(2)));
        match self.alt(2) {
            0 => FComp::new(o, x, y),
            _ => (o, x, y).into(),
        }
    }
    pub fn metric_exp(&self, t: &Tree) -> MetricFExp {
        use MetricFExp as M;
        let w = self.alt(2);
        match t.kind() {
            "m.total" if w == 0 => M::TotalTime,
            "m.total" => M::new_total_time(),
            "m.n" if w == 0 => M::Number(self.num(t.at(0))),
            "m.n" => M::new_number(t.at(0).num()),
            "m.viol" if w == 0 => M::IsViolated(self.pname(t.at(0))),
            "m.viol" => M::new_is_violated(self.pname(t.at(0))),
            "m.f" => {
                let (s, v) = (self.fun(t.at(0)), self.vec(&t.kids()[1..], Self::name));
                match w {
                    0 => M::Function(s, v),
                    _ => M::new_function(s, v),
                }
            }
            "m.neg" if w == 0 => M::Negative(Box::new(self.metric_exp(t.at(0)))),
            "m.neg" => M::new_negative(self.metric_exp(t.at(0))),
            "m.bin" => {
                let o = self.bop(t.at(0));
                let (x, y) = (self.metric_exp(t.at(1)), self.metric_exp(t.at(2)));
                match w {
                    0 => M::BinaryOp(o, Box::new(x), Box::new(y)),
                    _ => M::new_binary_op(o, x, y),
                }
            }
            "m.multi" => {
                let (o, x) = (self.mop(t.at(0)), self.metric_exp(t.at(1)));
                let v = self.vec(&t.kids()[2..], Self::metric_exp);
                match w {
                    0 => M::MultiOp(o, Box::new(x), v),
                    _ => M::new_multi_op(o, x, v),
                }
            }
            k => panic!("metric {k}"),
        }
    }
    pub fn metric(&self, t: &Tree) -> MetricSpec {
        MetricSpec::new(self.optim(t.at(0)), self.metric_exp(t.at(1)))
    }
    pub fn length(&self, t: &Tree) -> LengthSpec {
        let o = |t: &Tree| self.opt(t, |_, t| t.u());
        match (o(t.at(0)), o(t.at(1)), self.alt(2)) {
            (Some(s), None, 1) => LengthSpec::new_serial(s),
            (None, Some(p), 1) => LengthSpec::new_parallel(p),
            (None, None, 1) => LengthSpec::default(),
            (s, p, _) => LengthSpec::new(s, p),
        }
    }

    // ---- preconditions ----

    pub fn preference(&self, t: &Tree) -> Preference {
        let (n, g) = (self.opt(t.at(0), Self::pname), self.goal(t.at(1)));
        match (self.alt(3), n) {
            (0, n) => Preference::new(n, g),
            (1, Some(n)) => (n, g).into(),
            (1, None) => g.into(),
            (_, n) => (n, g).into(),
        }
    }
    pub fn pref_gd(&self, t: &Tree) -> PreferenceGD {
        match (t.kind(), self.alt(3)) {
            ("p.goal", 0) => PreferenceGD::Goal(self.goal(t.at(0))),
            ("p.goal", 1) => PreferenceGD::from_gd(self.goal(t.at(0))),
            ("p.goal", _) => self.goal(t.at(0)).into(),
            ("p.pref", 0) => PreferenceGD::Preference(self.preference(t)),
            ("p.pref", 1) => PreferenceGD::from_preference(self.preference(t)),
            ("p.pref", _) => self.preference(t).into(),
            (k, _) => panic!("preference {k}"),
        }
    }
    pub fn pre_item(&self, t: &Tree) -> PreconditionGoalDefinition {
        use PreconditionGoalDefinition as P;
        let w = self.alt(4);
        match t.kind() {
            "p.forall" => {
                let (v, g) = (self.vars(t.at(0)), self.pre(t.at(1)));
                match w {
                    0 => P::Forall(v, g),
                    _ => P::new_forall(v, g),
                }
            }
            "p.pref" if w == 3 => self.preference(t).into(),
            _ => match w {
                0 => P::Preference(self.pref_gd(t)),
                1 => P::new_preference(self.pref_gd(t)),
                _ => self.pref_gd(t).into(),
            },
        }
    }
    pub fn pre(&self, t: &Tree) -> PreconditionGoalDefinitions {
        use PreconditionGoalDefinitions as P;
        let v = t.kids();
        if v.len() == 1 && self.alt(2) == 1 {
            let x = &v[0];
            return match (self.alt(5), x.kind()) {
                (0, "p.forall") => P::new_forall(self.vars(x.at(0)), self.pre(x.at(1))),
                (0, _) => P::new_preference(self.pref_gd(x)),
                (1, _) => self.pre_item(x).into(),
                (2, _) => Some(self.pre_item(x)).into(),
                (3, _) => P::from_iter([self.pre_item(x)]),
                (_, _) => Some(P::new(vec![self.pre_item(x)])).into(),
            };
        }
        if v.is_empty() && self.alt(2) == 1 {
            return match self.alt(3) {
                0 => P::default(),
                1 => None::<PreconditionGoalDefinition>.into(),
                _ => None::<PreconditionGoalDefinitions>.into(),
            };
        }
        let v = self.vec(v, Self::pre_item);
        match self.alt(3) {
            0 => P::new(v),
            1 => v.into_iter().collect(),
            _ => PreconditionGoalDefinition::new_and(v),
        }
    }
    pub fn goal_def(&self, t: &Tree) -> GoalDef {
        match self.alt(4) {
            0 => GoalDef::new(self.pre(t)),
            1 => self.pre(t).into(),
            2 if t.kids().len() == 1 => self.pre_item(t.at(0)).into(),
            _ => t.kids().iter().map(|x| self.pre_item(x)).collect(),
        }
    }

    // ---- effects ----

    pub fn p_effect(&self, t: &Tree) -> PEffect {
        let w = self.alt(2);
        match t.kind() {
            "pe.add" if w == 0 => PEffect::AtomicFormula(self.taf(t.at(0))),
            "pe.add" => PEffect::new(self.taf(t.at(0))),
            "pe.del" if w == 0 => PEffect::NotAtomicFormula(self.taf(t.at(0))),
            "pe.del" => PEffect::new_not(self.taf(t.at(0))),
            "pe.num" => {
                let (o, h, x) = (self.aop(t.at(0)), self.head(t.at(1)), self.fexp(t.at(2)));
                match w {
                    0 => PEffect::AssignNumericFluent(o, h, x),
                    _ => PEffect::new_numeric_fluent(o, h, x),
                }
            }
            "pe.obj" => {
                let (f, v) = (self.fterm(t.at(0)), self.opt(t.at(1), Self::term));
                match w {
                    0 => PEffect::AssignObjectFluent(f, v),
                    _ => PEffect::new_object_fluent(f, v),
                }
            }
            k => panic!("effect {k}"),
        }
    }
    pub fn cond_effect(&self, t: &Tree) -> ConditionalEffect {
        use ConditionalEffect as C;
        match (t.kind(), self.alt(4)) {
            ("ce.single", 0) => C::Single(self.p_effect(t.at(0))),
            ("ce.single", 1) => C::new(self.p_effect(t.at(0))),
            ("ce.single", _) => self.p_effect(t.at(0)).into(),
            (_, 0) => C::All(self.vec(t.kids(), Self::p_effect)),
            (_, 1) => C::new_and(self.vec(t.kids(), Self::p_effect)),
            (_, 2) => self.vec(t.kids(), Self::p_effect).into(),
            (_, _) => t.kids().iter().map(|x| self.p_effect(x)).collect(),
        }
    }
    pub fn forall_c_effect(&self, t: &Tree) -> ForallCEffect {
        let (v, e) = (self.vars(t.at(0)), self.effects(t.at(1)));
        match self.alt(3) {
            0 => ForallCEffect::new(v, e),
            1 => (v, e).into(),
            _ => ForallCEffect { variables: v, effects: e },
        }
    }
    pub fn when_c_effect(&self, t: &Tree) -> WhenCEffect {
        let (g, e) = (self.goal(t.at(0)), self.cond_effect(t.at(1)));
        match self.alt(3) {
            0 => WhenCEffect::new(g, e),
            1 => (g, e).into(),
            _ => WhenCEffect { condition: g, effect: e },
        }
    }
    pub fn c_effect(&self, t: &Tree) -> CEffect {
        match (t.kind(), self.alt(3)) {
            ("e.p", 0) => CEffect::Effect(self.p_effect(t.at(0))),
            ("e.p", 1) => CEffect::new_p_effect(self.p_effect(t.at(0))),
            ("e.p", _) => self.p_effect(t.at(0)).into(),
            ("e.forall", 0) => CEffect::Forall(self.forall_c_effect(t)),
            ("e.forall", 1) => CEffect::new_forall(self.vars(t.at(0)), self.effects(t.at(1))),
            ("e.forall", _) => self.forall_c_effect(t).into(),
            ("e.when", 0) => CEffect::When(self.when_c_effect(t)),
            ("e.when", 1) => CEffect::new_when(self.goal(t.at(0)), self.cond_effect(t.at(1))),
            ("e.when", _) => self.when_c_effect(t).into(),
            (k, _) => panic!("c_effect {k}"),
        }
    }
    pub fn effects(&self, t: &Tree) -> Effects {
        let v = self.vec(t.kids(), Self::c_effect);
        match (self.alt(5), v.len()) {
            (0, _) => Effects::new_and(v),
            (1, _) => v.into(),
            (2, _) => v.into_iter().collect(),
            (3, 1) => Effects::new(v.into_iter().next().unwrap()),
            (4, 1) => v.into_iter().next().unwrap().into(),
            (3, 0) => Effects::default(),
            _ => Effects::new_and(v),
        }
    }
    pub fn action(&self, t: &Tree) -> ActionDefinition {
        ActionDefinition::new(
            self.act(t.at(0)),
            self.vars(t.at(1)),
            self.pre(t.at(2)),
            self.opt(t.at(3), Self::effects),
        )
    }

    // ---- durative actions ----

    pub fn dvalue(&self, t: &Tree) -> DurationValue {
        match (t.kind(), self.alt(3)) {
            ("v.n", 0) => DurationValue::Number(self.num(t.at(0))),
            ("v.n", 1) => DurationValue::new_number(t.at(0).num()),
            ("v.n", _) => self.num(t.at(0)).into(),
            (_, 0) => DurationValue::FExp(self.fexp(t.at(0))),
            (_, 1) => DurationValue::new_f_exp(self.fexp(t.at(0))),
            (_, _) => self.fexp(t.at(0)).into(),
        }
    }
    pub fn simple_duration(&self, t: &Tree) -> SimpleDurationConstraint {
        use SimpleDurationConstraint as S;
        match (t.kind(), self.alt(3)) {
            ("s.op", 0) => S::Op(self.dop(t.at(0)), self.dvalue(t.at(1))),
            ("s.op", 1) => S::new_op(self.dop(t.at(0)), self.dvalue(t.at(1))),
            ("s.op", _) => (self.dop(t.at(0)), self.dvalue(t.at(1))).into(),
            (_, 0) => S::At(self.time(t.at(0)), Box::new(self.simple_duration(t.at(1)))),
            (_, 1) => S::new_at(self.time(t.at(0)), self.simple_duration(t.at(1))),
            (_, _) => (self.time(t.at(0)), self.simple_duration(t.at(1))).into(),
        }
    }
    pub fn duration(&self, t: &Tree) -> DurationConstraint {
        use DurationConstraint as D;
        match (t.kind(), self.alt(3)) {
            ("d.single", 0) => D::Single(self.simple_duration(t.at(0))),
            ("d.single", 1) => D::new(self.simple_duration(t.at(0))),
            ("d.single", _) => self.simple_duration(t.at(0)).into(),
            (_, 1) if !t.kids().is_empty() => D::new_all(self.vec(t.kids(), Self::simple_duration)),
            (_, 2) if !t.kids().is_empty() => {
                t.kids().iter().map(|x| self.simple_duration(x)).collect()
            }
            (_, _) => D::All(self.vec(t.kids(), Self::simple_duration)),
        }
    }
    pub fn timed_goal(&self, t: &Tree) -> TimedGD {
        match (t.kind(), self.alt(3)) {
            ("t.at", 0) => TimedGD::At(self.time(t.at(0)), self.goal(t.at(1))),
            ("t.at", 1) => TimedGD::new_at(self.time(t.at(0)), self.goal(t.at(1))),
            ("t.at", _) => (self.time(t.at(0)), self.goal(t.at(1))).into(),
            (_, 0) => TimedGD::Over(Interval::All, self.goal(t.at(0))),
            (_, 1) => TimedGD::new_over(Interval::All, self.goal(t.at(0))),
            (_, _) => (Interval::All, self.goal(t.at(0))).into(),
        }
    }
    pub fn pref_timed_goal(&self, t: &Tree) -> PrefTimedGD {
        match (t.kind(), self.alt(3)) {
            ("pt.req", 0) => PrefTimedGD::Required(self.timed_goal(t.at(0))),
            ("pt.req", 1) => PrefTimedGD::new_required(self.timed_goal(t.at(0))),
            ("pt.req", _) => self.timed_goal(t.at(0)).into(),
            (_, w) => {
                let (n, g) = (self.opt(t.at(0), Self::pname), self.timed_goal(t.at(1)));
                match w {
                    0 => PrefTimedGD::Preference(n, g),
                    1 => PrefTimedGD::new_preference(n, g),
                    _ => (n, g).into(),
                }
            }
        }
    }
    pub fn da_goal(&self, t: &Tree) -> DurativeActionGoalDefinition {
        use DurativeActionGoalDefinition as D;
        match (t.kind(), self.alt(3)) {
            ("dg.timed", 0) => D::Timed(self.pref_timed_goal(t.at(0))),
            ("dg.timed", 1) => D::new_timed(self.pref_timed_goal(t.at(0))),
            ("dg.timed", _) => self.pref_timed_goal(t.at(0)).into(),
            ("dg.and", 0) => D::And(self.vec(t.kids(), Self::da_goal)),
            ("dg.and", _) => D::new_and(self.vec(t.kids(), Self::da_goal)),
            (_, 0) => D::Forall(self.vars(t.at(0)), Box::new(self.da_goal(t.at(1)))),
            (_, _) => D::new_forall(self.vars(t.at(0)), self.da_goal(t.at(1))),
        }
    }
    pub fn timed_effect(&self, t: &Tree) -> TimedEffect {
        use TimedEffect as T;
        let w = self.alt(3);
        match t.kind() {
            "te.cond" => {
                let (x, e) = (self.time(t.at(0)), self.cond_effect(t.at(1)));
                match w {
                    0 => T::Conditional(x, e),
                    1 => T::new_conditional(x, e),
                    _ => (x, e).into(),
                }
            }
            "te.num" => {
                let (o, h, x) = (self.aop(t.at(1)), self.head(t.at(2)), self.fexp_da(t.at(3)));
                let f = match self.alt(2) {
                    0 => FAssignDa::new(o, h, x),
                    _ => (o, h, x).into(),
                };
                let at = self.time(t.at(0));
                match w {
                    0 => T::NumericFluent(at, f),
                    1 => T::new_fluent(at, f),
                    _ => (at, f).into(),
                }
            }
            "te.cont" => {
                let (o, h, x) = (self.aopt(t.at(0)), self.head(t.at(1)), self.fexp_t(t.at(2)));
                match w {
                    0 => T::ContinuousEffect(o, h, x),
                    1 => T::new_continuous(o, h, x),
                    _ => (o, h, x).into(),
                }
            }
            k => panic!("timed effect {k}"),
        }
    }
    pub fn da_effect(&self, t: &Tree) -> DurativeActionEffect {
        use DurativeActionEffect as D;
        let w = self.alt(3);
        match t.kind() {
            "de.timed" => match w {
                0 => D::Timed(self.timed_effect(t.at(0))),
                1 => D::new_timed(self.timed_effect(t.at(0))),
                _ => self.timed_effect(t.at(0)).into(),
            },
            "de.all" => match w {
                0 => D::All(self.vec(t.kids(), Self::da_effect)),
                1 => D::new_and(self.vec(t.kids(), Self::da_effect)),
                _ => t.kids().iter().map(|x| self.da_effect(x)).collect(),
            },
            "de.forall" => {
                let (v, e) = (self.vars(t.at(0)), self.da_effect(t.at(1)));
                match w {
                    0 => D::Forall(v, Box::new(e)),
                    1 => D::new_forall(v, e),
                    _ => (v, e).into(),
                }
            }
            "de.when" => {
                let (g, e) = (self.da_goal(t.at(0)), self.timed_effect(t.at(1)));
                match w {
                    0 => D::When(g, e),
                    1 => D::new_when(g, e),
                    _ => (g, e).into(),
                }
            }
            k => panic!("da effect {k}"),
        }
    }
    pub fn durative_action(&self, t: &Tree) -> DurativeActionDefinition {
        DurativeActionDefinition::new(
            self.dact(t.at(0)),
            self.vars(t.at(1)),
            self.opt(t.at(2), Self::duration),
            self.opt(t.at(3), Self::da_goal),
            self.opt(t.at(4), Self::da_effect),
        )
    }
    pub fn derived(&self, t: &Tree) -> DerivedPredicate {
        let (s, g) = (self.pskel(t.at(0)), self.goal(t.at(1)));
        match self.alt(2) {
            0 => DerivedPredicate::new(s, g),
            _ => (s, g).into(),
        }
    }
    pub fn structure(&self, t: &Tree) -> StructureDef {
        use StructureDef as S;
        match (t.kind(), self.alt(3)) {
            ("action", 0) => S::Action(self.action(t)),
            ("action", 1) => S::new_action(self.action(t)),
            ("action", _) => self.action(t).into(),
            ("da", 0) => S::DurativeAction(self.durative_action(t)),
            ("da", 1) => S::new_durative_action(self.durative_action(t)),
            ("da", _) => self.durative_action(t).into(),
            (_, 0) => S::Derived(self.derived(t)),
            (_, 1) => S::new_derived(self.derived(t)),
            (_, _) => self.derived(t).into(),
        }
    }

    // ---- constraints ----

    pub fn con2(&self, t: &Tree) -> Con2GD {
        match (t.kind(), self.alt(3)) {
            ("k.g", 0) => Con2GD::Goal(self.goal(t.at(0))),
            ("k.g", 1) => Con2GD::new_goal(self.goal(t.at(0))),
            ("k.g", _) => self.goal(t.at(0)).into(),
            (_, 0) => Con2GD::Nested(Box::new(self.con(t.at(0)))),
            (_, 1) => Con2GD::new_nested(self.con(t.at(0))),
            (_, _) => self.con(t.at(0)).into(),
        }
    }
    pub fn con(&self, t: &Tree) -> ConGD {
        use ConGD as C;
        let n = |i: usize| self.num(t.at(i));
        let k = |i: usize| self.con2(t.at(i));
        if self.alt(2) == 0 {
            match t.kind() {
                "c.and" => C::And(self.vec(t.kids(), Self::con)),
                "c.forall" => C::Forall(self.vars(t.at(0)), Box::new(self.con(t.at(1)))),
                "c.at-end" => C::AtEnd(self.goal(t.at(0))),
                "c.always" => C::Always(k(0)),
                "c.sometime" => C::Sometime(k(0)),
                "c.within" => C::Within(n(0), k(1)),
                "c.at-most-once" => C::AtMostOnce(k(0)),
                "c.sometime-after" => C::SometimeAfter(k(0), k(1)),
                "c.sometime-before" => C::SometimeBefore(k(0), k(1)),
                "c.always-within" => C::AlwaysWithin(n(0), k(1), k(2)),
                "c.hold-during" => C::HoldDuring(n(0), n(1), k(2)),
                "c.hold-after" => C::HoldAfter(n(0), k(1)),
                k => panic!("con {k}"),
            }
        } else {
            match t.kind() {
                "c.and" if t.kids().is_empty() && self.alt(2) == 1 => C::default(),
                "c.and" => C::new_and(self.vec(t.kids(), Self::con)),
                "c.forall" => C::new_forall(self.vars(t.at(0)), self.con(t.at(1))),
                "c.at-end" => C::new_at_end(self.goal(t.at(0))),
                "c.always" => C::new_always(k(0)),
                "c.sometime" => C::new_sometime(k(0)),
                "c.within" => C::new_within(n(0), k(1)),
                "c.at-most-once" => C::new_at_most_once(k(0)),
                "c.sometime-after" => C::new_sometime_after(k(0), k(1)),
                "c.sometime-before" => C::new_sometime_before(k(0), k(1)),
                "c.always-within" => C::new_always_within(n(0), k(1), k(2)),
                "c.hold-during" => C::new_hold_during(n(0), n(1), k(2)),
                "c.hold-after" => C::new_hold_after(n(0), k(1)),
                k => panic!("con {k}"),
            }
        }
    }
    pub fn pref_con(&self, t: &Tree) -> PrefConGD {
        use PrefConGD as P;
        match (t.kind(), self.alt(2)) {
            ("pc.goal", 0) => P::Goal(self.con(t.at(0))),
            ("pc.goal", _) => P::new_goal(self.con(t.at(0))),
            ("pc.pref", 0) => P::Preference(self.opt(t.at(0), Self::pname), self.con(t.at(1))),
            ("pc.pref", _) => P::new_preference(self.opt(t.at(0), Self::pname), self.con(t.at(1))),
            (_, 0) => P::Forall(self.vars(t.at(0)), self.pref_cons(t.at(1))),
            (_, _) => P::new_forall(self.vars(t.at(0)), self.pref_cons(t.at(1))),
        }
    }
    pub fn pref_cons(&self, t: &Tree) -> PrefConGDs {
        use PrefConGDs as P;
        let v = t.kids();
        if v.len() == 1 && self.alt(2) == 1 {
            let x = &v[0];
            return match (self.alt(5), x.kind()) {
                (0, "pc.goal") => P::new_goal(self.con(x.at(0))),
                (1, "pc.goal") => self.con(x.at(0)).into(),
                (0, "pc.pref") => {
                    P::new_preference(self.opt(x.at(0), Self::pname), self.con(x.at(1)))
                }
                (0, _) => P::new_forall(self.vars(x.at(0)), self.pref_cons(x.at(1))),
                (2, _) => self.pref_con(x).into(),
                (3, _) => Some(self.pref_con(x)).into(),
                (_, _) => Some(P::new(vec![self.pref_con(x)])).into(),
            };
        }
        if v.is_empty() && self.alt(2) == 1 {
            return match self.alt(3) {
                0 => P::default(),
                1 => None::<PrefConGD>.into(),
                _ => None::<PrefConGDs>.into(),
            };
        }
        let v = self.vec(v, Self::pref_con);
        match self.alt(3) {
            0 => P::new(v),
            1 => v.into(),
            _ => v.into_iter().collect(),
        }
    }

    // ---- initial state ----

    pub fn bft(&self, t: &Tree) -> BasicFunctionTerm {
        BasicFunctionTerm::new(self.fun(t.at(0)), self.vec(&t.kids()[1..], Self::name))
    }
    pub fn init_el(&self, t: &Tree) -> InitElement {
        use InitElement as I;
        match (t.kind(), self.alt(2)) {
            ("i.lit", 0) => I::Literal(self.nlit(t.at(0))),
            ("i.lit", _) => I::new_literal(self.nlit(t.at(0))),
            ("i.at", 0) => I::At(self.num(t.at(0)), self.nlit(t.at(1))),
            ("i.at", _) => I::new_at(self.num(t.at(0)), self.nlit(t.at(1))),
            ("i.val", 0) => I::IsValue(self.bft(t.at(0)), self.num(t.at(1))),
            ("i.val", _) => I::new_is_value(self.bft(t.at(0)), self.num(t.at(1))),
            (_, 0) => I::IsObject(self.bft(t.at(0)), self.name(t.at(1))),
            (_, _) => I::new_is_object(self.bft(t.at(0)), self.name(t.at(1))),
        }
    }
    pub fn init(&self, t: &Tree) -> InitElements {
        let v = self.vec(t.kids(), Self::init_el);
        match self.alt(2) {
            0 => InitElements::new(v),
            _ => v.into_iter().collect(),
        }
    }

    // ---- sections and documents ----

    pub fn reqs(&self, t: &Tree) -> Requirements {
        let v = self.vec(t.kids(), Self::req);
        match self.alt(4) {
            0 => Requirements::new(v),
            1 => v.into(),
            2 if v.is_empty() => Requirements::default(),
            _ => v.into_iter().collect(),
        }
    }
    pub fn types(&self, t: &Tree) -> Types {
        match self.alt(2) {
            0 => Types::new(self.names(t.at(0))),
            _ => self.names(t.at(0)).into(),
        }
    }
    pub fn consts(&self, t: &Tree) -> Constants {
        match self.alt(3) {
            0 => Constants::new(self.names(t.at(0))),
            1 => self.names(t.at(0)).into(),
            _ => self.names(t.at(0)).into_iter().collect(),
        }
    }
    pub fn objs(&self, t: &Tree) -> Objects {
        match self.alt(3) {
            0 => Objects::new(self.names(t.at(0))),
            1 => self.names(t.at(0)).into(),
            _ => self.names(t.at(0)).into_iter().collect(),
        }
    }
    pub fn preds(&self, t: &Tree) -> PredicateDefinitions {
        let v = self.vec(t.kids(), Self::pskel);
        match self.alt(3) {
            0 => PredicateDefinitions::new(v),
            1 => PredicateDefinitions::from(v),
            _ => v.into_iter().collect(),
        }
    }
    pub fn functions(&self, t: &Tree) -> Functions {
        match self.alt(3) {
            0 => Functions::new(self.funs(t.at(0))),
            1 => self.funs(t.at(0)).into(),
            _ => t.at(0).kids().iter().map(|x| self.ftyped(x)).collect(),
        }
    }
    pub fn constr(&self, t: &Tree) -> DomainConstraintsDef {
        match self.alt(2) {
            0 => DomainConstraintsDef::new(self.con(t.at(0))),
            _ => self.con(t.at(0)).into(),
        }
    }
    pub fn pconstr(&self, t: &Tree) -> ProblemConstraintsDef {
        match self.alt(2) {
            0 => ProblemConstraintsDef::new(self.pref_cons(t)),
            _ => self.pref_cons(t).into(),
        }
    }
    pub fn structs(&self, t: &Tree) -> StructureDefs {
        let v = self.vec(t.kids(), Self::structure);
        match self.alt(3) {
            0 => StructureDefs::new(v),
            1 => v.into(),
            _ => v.into_iter().collect(),
        }
    }
    pub fn timeless(&self, t: &Tree) -> Timeless {
        let v = self.vec(t.kids(), Self::nlit);
        match self.alt(2) {
            0 => Timeless::new(v),
            _ => v.into_iter().collect(),
        }
    }
    /// Steps in any order, now and then one of them twice.
    fn steps(&self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n - 1 {
            let j = i + self.alt((n - i) as u64) as usize;
            v.swap(i, j);
        }
        if self.alt(4) == 3 {
            let i = self.alt(n as u64) as usize;
            v.push(v[i]);
        }
        v
    }
    pub fn domain(&self, t: &Tree) -> Domain {
        let mut d = Domain::builder(self.name(t.at(0)), self.structs(t.at(8)));
        // The order of the builder's steps must not matter.
        for s in self.steps(8) {
            if s == 7 {
                if t.kids().len() > 9 {
                    d = d.with_timeless(self.timeless(t.at(9)));
                }
                continue;
            }
            let s = s + 1;
            let x = t.at(s);
            let skip = match s {
                4 | 3 | 6 | 7 => x.at(0).kids().is_empty() && (s != 7 || x.at(0).is("c.and")),
                _ => x.kids().is_empty(),
            };
            if skip && self.alt(2) == 1 {
                continue;
            }
            d = match s {
                1 => d.with_extends(self.vec(x.kids(), Self::name)),
                2 => d.with_requirements(self.reqs(x)),
                3 if self.alt(2) == 0 => d.with_types(self.names(x.at(0))),
                3 => d.with_types(self.types(x)),
                4 if self.alt(2) == 0 => d.with_constants(self.names(x.at(0))),
                4 => d.with_constants(self.consts(x)),
                5 if self.alt(2) == 0 => d.with_predicates(self.vec(x.kids(), Self::pskel)),
                5 => d.with_predicates(self.preds(x)),
                6 if self.alt(2) == 0 => d.with_functions(self.funs(x.at(0))),
                6 => d.with_functions(self.functions(x)),
                _ => d.with_constraints(self.constr(x)),
            };
        }
        d
    }
    pub fn problem(&self, t: &Tree) -> Problem {
        let metric = self.opt(t.at(7), Self::metric);
        let length = self.opt(t.at(8), Self::length);
        if self.alt(2) == 0 {
            return Problem::new(
                self.name(t.at(0)),
                self.name(t.at(1)),
                self.reqs(t.at(2)),
                self.objs(t.at(3)),
                self.init(t.at(4)),
                self.goal_def(t.at(5)),
                self.pconstr(t.at(6)),
                metric,
                length,
            );
        }
        let mut p = Problem::builder(
            self.name(t.at(0)),
            self.name(t.at(1)),
            self.init(t.at(4)),
            self.goal_def(t.at(5)),
        );
        for s in self.steps(5) {
            p = match s {
                0 => match &length {
                    Some(l) => p.with_length_spec(l.clone()),
                    None => p,
                },
                1 if !t.at(2).kids().is_empty() || self.alt(2) == 0 => p.with_requirements(self.reqs(t.at(2))),
                2 => match &metric {
                    Some(m) => p.with_metric_spec(m.clone()),
                    None => p,
                },
                3 if !t.at(6).kids().is_empty() || self.alt(2) == 0 => {
                    if self.alt(2) == 0 {
                        p.with_constraints(self.pref_cons(t.at(6)))
                    } else {
                        p.with_constraints(self.pconstr(t.at(6)))
                    }
                }
                4 if !t.at(3).at(0).kids().is_empty() || self.alt(2) == 0 => {
                    if self.alt(2) == 0 {
                        p.with_objects(self.names(t.at(3).at(0)))
                    } else {
                        p.with_objects(self.objs(t.at(3)))
                    }
                }
                _ => p,
            };
        }
        p
    }
}
