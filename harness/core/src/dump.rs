//! Values of the crate as syntax trees, read through public accessors only.
use crate::tree::*;
use pddl::*;
use std::any::Any;
use std::fmt::Debug;

pub trait Dump {
    fn dump(&self) -> Tree;
}
impl<T: Dump + ?Sized> Dump for &T {
    fn dump(&self) -> Tree {
        (*self).dump()
    }
}

fn name_tree(n: &Name) -> Tree {
    let s: &str = n.as_ref();
    A(s.to_string())
}
fn opt<T: Dump>(o: &Option<T>) -> Tree {
    match o {
        None => none(),
        Some(v) => some(v.dump()),
    }
}
fn items<'a, T: Dump + 'a>(k: &'static str, v: impl IntoIterator<Item = &'a T>) -> Tree {
    L(k, v.into_iter().map(Dump::dump).collect())
}
fn op_items<'a, T: Dump + 'a>(
    k: &'static str,
    mut head: Vec<Tree>,
    v: impl IntoIterator<Item = &'a T>,
) -> Tree {
    head.extend(v.into_iter().map(Dump::dump));
    L(k, head)
}

impl Dump for Name {
    fn dump(&self) -> Tree {
        name_tree(self)
    }
}
macro_rules! named {
    ($($t:ty),*) => {$(
        impl Dump for $t {
            fn dump(&self) -> Tree {
                let n: &Name = std::ops::Deref::deref(self);
                name_tree(n)
            }
        }
    )*};
}
named!(ActionSymbol, DurativeActionSymbol, FunctionSymbol, PreferenceName, Predicate);
impl Dump for Variable {
    fn dump(&self) -> Tree {
        let n: &Name = std::ops::Deref::deref(self);
        l("var", [name_tree(n)])
    }
}
impl Dump for PrimitiveType {
    fn dump(&self) -> Tree {
        let s: &str = std::ops::Deref::deref(self);
        a(s)
    }
}
impl Dump for Type {
    fn dump(&self) -> Tree {
        match self {
            Type::Exactly(p) => p.dump(),
            Type::EitherOf(v) => items("either", v),
        }
    }
}
impl Dump for FunctionType {
    fn dump(&self) -> Tree {
        let t: &Type = std::ops::Deref::deref(self);
        t.dump()
    }
}
impl Dump for Number {
    fn dump(&self) -> Tree {
        let v: f32 = **self;
        // Equal values print alike: there is no negative zero numeral.
        N(if v == 0.0 { 0f32.to_bits() } else { v.to_bits() })
    }
}
impl<T: Dump> Dump for Typed<T> {
    fn dump(&self) -> Tree {
        l("t", [self.value().dump(), self.type_().dump()])
    }
}
impl<T: Dump> Dump for TypedList<T> {
    fn dump(&self) -> Tree {
        items("tl", self.value())
    }
}
impl<T: Dump> Dump for FunctionTyped<T> {
    fn dump(&self) -> Tree {
        l("t", [self.value_ref().dump(), self.type_ref().dump()])
    }
}
impl<T: Dump> Dump for FunctionTypedList<T> {
    fn dump(&self) -> Tree {
        items("ftl", self.values())
    }
}
impl Dump for AtomicFormulaSkeleton {
    fn dump(&self) -> Tree {
        l("pskel", [self.predicate().dump(), self.variables().dump()])
    }
}
impl Dump for AtomicFunctionSkeleton {
    fn dump(&self) -> Tree {
        l("fskel", [self.symbol().dump(), self.variables().dump()])
    }
}
impl Dump for FunctionTerm {
    fn dump(&self) -> Tree {
        op_items("ft", vec![self.symbol().dump()], self.terms())
    }
}
impl Dump for Term {
    fn dump(&self) -> Tree {
        match self {
            Term::Name(n) => n.dump(),
            Term::Variable(v) => v.dump(),
            Term::Function(f) => f.dump(),
        }
    }
}
impl<T: Dump> Dump for AtomicFormula<T> {
    fn dump(&self) -> Tree {
        match self {
            AtomicFormula::Equality(e) => l("eq", [e.first().dump(), e.second().dump()]),
            AtomicFormula::Predicate(p) => op_items("pred", vec![p.predicate().dump()], p.values()),
        }
    }
}
impl<T: Dump> Dump for Literal<T> {
    fn dump(&self) -> Tree {
        match self {
            Literal::AtomicFormula(f) => l("+", [f.dump()]),
            Literal::NotAtomicFormula(f) => l("-", [f.dump()]),
        }
    }
}
macro_rules! spelled {
    ($($t:ty { $($v:path => $s:expr),* })*) => {$(
        impl Dump for $t {
            fn dump(&self) -> Tree {
                match self { $($v => a($s)),* }
            }
        }
    )*};
}
spelled! {
    AssignOp { AssignOp::Assign => "assign", AssignOp::ScaleUp => "scale-up",
        AssignOp::ScaleDown => "scale-down", AssignOp::Increase => "increase",
        AssignOp::Decrease => "decrease" }
    AssignOpT { AssignOpT::Increase => "increase", AssignOpT::Decrease => "decrease" }
    BinaryComp { BinaryComp::GreaterThan => ">", BinaryComp::LessThan => "<",
        BinaryComp::Equal => "=", BinaryComp::GreaterOrEqual => ">=",
        BinaryComp::LessThanOrEqual => "<=" }
    BinaryOp { BinaryOp::Multiplication => "*", BinaryOp::Addition => "+",
        BinaryOp::Subtraction => "-", BinaryOp::Division => "/" }
    MultiOp { MultiOp::Multiplication => "*", MultiOp::Addition => "+" }
    DOp { DOp::Equal => "=", DOp::GreaterOrEqual => ">=", DOp::LessThanOrEqual => "<=" }
    TimeSpecifier { TimeSpecifier::Start => "start", TimeSpecifier::End => "end" }
    Interval { Interval::All => "all" }
    Optimization { Optimization::Minimize => "minimize", Optimization::Maximize => "maximize" }
    Requirement {
        Requirement::Strips => ":strips", Requirement::Typing => ":typing",
        Requirement::NegativePreconditions => ":negative-preconditions",
        Requirement::DisjunctivePreconditions => ":disjunctive-preconditions",
        Requirement::Equality => ":equality",
        Requirement::ExistentialPreconditions => ":existential-preconditions",
        Requirement::UniversalPreconditions => ":universal-preconditions",
        Requirement::QuantifiedPreconditions => ":quantified-preconditions",
        Requirement::ConditionalEffects => ":conditional-effects",
        Requirement::Fluents => ":fluents", Requirement::NumericFluents => ":numeric-fluents",
        Requirement::ObjectFluents => ":object-fluents", Requirement::Adl => ":adl",
        Requirement::DurativeActions => ":durative-actions",
        Requirement::DurationInequalities => ":duration-inequalities",
        Requirement::ContinuousEffects => ":continuous-effects",
        Requirement::DerivedPredicates => ":derived-predicates",
        Requirement::TimedInitialLiterals => ":timed-initial-literals",
        Requirement::Preferences => ":preferences", Requirement::Constraints => ":constraints",
        Requirement::ActionCosts => ":action-costs" }
}

// ---- numeric expressions ----

impl Dump for FHead {
    fn dump(&self) -> Tree {
        match self {
            FHead::Simple(s) => l("h", [s.dump()]),
            FHead::WithTerms(s, t) => op_items("hw", vec![s.dump()], t),
        }
    }
}
impl Dump for FExp {
    fn dump(&self) -> Tree {
        match self {
            FExp::Number(n) => l("x.n", [n.dump()]),
            FExp::Function(h) => l("x.f", [h.dump()]),
            FExp::Negative(x) => l("x.neg", [x.dump()]),
            FExp::BinaryOp(o, x, y) => l("x.bin", [o.dump(), x.dump(), y.dump()]),
            FExp::MultiOp(o, x, v) => op_items("x.multi", vec![o.dump(), x.dump()], v),
        }
    }
}
impl Dump for FExpDa {
    fn dump(&self) -> Tree {
        match self {
            FExpDa::Duration => l("xd.dur", []),
            FExpDa::FExp(x) => l("xd.x", [x.dump()]),
            FExpDa::Negative(x) => l("xd.neg", [x.dump()]),
            FExpDa::BinaryOp(o, x, y) => l("xd.bin", [o.dump(), x.dump(), y.dump()]),
            FExpDa::MultiOp(o, x, v) => op_items("xd.multi", vec![o.dump(), x.dump()], v),
            FExpDa::Assign(o, h, x) => l("xd.assign", [o.dump(), h.dump(), x.dump()]),
        }
    }
}
impl Dump for FExpT {
    fn dump(&self) -> Tree {
        match self {
            FExpT::Now => l("xt.now", []),
            FExpT::Scaled(x) => l("xt.scaled", [x.dump()]),
        }
    }
}
impl Dump for MetricFExp {
    fn dump(&self) -> Tree {
        match self {
            MetricFExp::TotalTime => l("m.total", []),
            MetricFExp::Number(n) => l("m.n", [n.dump()]),
            MetricFExp::IsViolated(p) => l("m.viol", [p.dump()]),
            MetricFExp::Function(s, n) => op_items("m.f", vec![s.dump()], n),
            MetricFExp::Negative(x) => l("m.neg", [x.dump()]),
            MetricFExp::BinaryOp(o, x, y) => l("m.bin", [o.dump(), x.dump(), y.dump()]),
            MetricFExp::MultiOp(o, x, v) => op_items("m.multi", vec![o.dump(), x.dump()], v),
        }
    }
}
impl Dump for MetricSpec {
    fn dump(&self) -> Tree {
        l("metric", [self.optimization().dump(), self.expression().dump()])
    }
}
impl Dump for LengthSpec {
    fn dump(&self) -> Tree {
        let o = |v: Option<u64>| v.map_or(none(), |n| some(U(n)));
        l("length", [o(self.serial()), o(self.parallel())])
    }
}
impl Dump for FComp {
    fn dump(&self) -> Tree {
        l(
            "g.fcomp",
            [self.comparison().dump(), self.first().dump(), self.second().dump()],
        )
    }
}
impl Dump for FAssignDa {
    fn dump(&self) -> Tree {
        l(
            "fassign",
            [
                self.operation().dump(),
                self.function().dump(),
                self.function_expr().dump(),
            ],
        )
    }
}

// ---- goals and preconditions ----

impl Dump for GoalDefinition {
    fn dump(&self) -> Tree {
        use GoalDefinition as G;
        match self {
            G::AtomicFormula(f) => l("g.af", [f.dump()]),
            G::Literal(x) => l("g.lit", [x.dump()]),
            G::And(v) => items("g.and", v),
            G::Or(v) => items("g.or", v),
            G::Not(g) => l("g.not", [g.dump()]),
            G::Imply(x, y) => l("g.imply", [x.dump(), y.dump()]),
            G::Exists(v, g) => l("g.exists", [v.dump(), g.dump()]),
            G::ForAll(v, g) => l("g.forall", [v.dump(), g.dump()]),
            G::FComp(c) => c.dump(),
        }
    }
}
impl Dump for PreferenceGD {
    fn dump(&self) -> Tree {
        match self {
            PreferenceGD::Goal(g) => l("p.goal", [g.dump()]),
            PreferenceGD::Preference(p) => p.dump(),
        }
    }
}
impl Dump for Preference {
    fn dump(&self) -> Tree {
        l("p.pref", [opt(self.name()), self.goal().dump()])
    }
}
impl Dump for PreconditionGoalDefinition {
    fn dump(&self) -> Tree {
        match self {
            PreconditionGoalDefinition::Preference(p) => p.dump(),
            PreconditionGoalDefinition::Forall(v, g) => l("p.forall", [v.dump(), g.dump()]),
        }
    }
}
impl Dump for PreconditionGoalDefinitions {
    fn dump(&self) -> Tree {
        items("pre", self.iter())
    }
}
impl Dump for GoalDef {
    fn dump(&self) -> Tree {
        self.value().dump()
    }
}

// ---- effects ----

impl Dump for PEffect {
    fn dump(&self) -> Tree {
        match self {
            PEffect::AtomicFormula(f) => l("pe.add", [f.dump()]),
            PEffect::NotAtomicFormula(f) => l("pe.del", [f.dump()]),
            PEffect::AssignNumericFluent(o, h, x) => l("pe.num", [o.dump(), h.dump(), x.dump()]),
            PEffect::AssignObjectFluent(f, t) => l("pe.obj", [f.dump(), opt(t)]),
        }
    }
}
impl Dump for ConditionalEffect {
    fn dump(&self) -> Tree {
        match self {
            ConditionalEffect::Single(p) => l("ce.single", [p.dump()]),
            ConditionalEffect::All(v) => items("ce.all", v),
        }
    }
}
impl Dump for CEffect {
    fn dump(&self) -> Tree {
        match self {
            CEffect::Effect(p) => l("e.p", [p.dump()]),
            CEffect::Forall(f) => f.dump(),
            CEffect::When(w) => w.dump(),
        }
    }
}
impl Dump for ForallCEffect {
    fn dump(&self) -> Tree {
        l("e.forall", [self.variables.dump(), self.effects.dump()])
    }
}
impl Dump for WhenCEffect {
    fn dump(&self) -> Tree {
        l("e.when", [self.condition.dump(), self.effect.dump()])
    }
}
impl Dump for Effects {
    fn dump(&self) -> Tree {
        items("effs", self.iter())
    }
}
impl Dump for ActionDefinition {
    fn dump(&self) -> Tree {
        l(
            "action",
            [
                self.symbol().dump(),
                self.parameters().dump(),
                self.precondition().dump(),
                opt(self.effect()),
            ],
        )
    }
}

// ---- durative actions ----

impl Dump for DurationValue {
    fn dump(&self) -> Tree {
        match self {
            DurationValue::Number(n) => l("v.n", [n.dump()]),
            DurationValue::FExp(x) => l("v.x", [x.dump()]),
        }
    }
}
impl Dump for SimpleDurationConstraint {
    fn dump(&self) -> Tree {
        match self {
            SimpleDurationConstraint::Op(o, v) => l("s.op", [o.dump(), v.dump()]),
            SimpleDurationConstraint::At(t, c) => l("s.at", [t.dump(), c.dump()]),
        }
    }
}
impl Dump for DurationConstraint {
    fn dump(&self) -> Tree {
        match self {
            DurationConstraint::Single(s) => l("d.single", [s.dump()]),
            DurationConstraint::All(v) => items("d.all", v),
        }
    }
}
impl Dump for TimedGD {
    fn dump(&self) -> Tree {
        match self {
            TimedGD::At(t, g) => l("t.at", [t.dump(), g.dump()]),
            TimedGD::Over(Interval::All, g) => l("t.over", [g.dump()]),
        }
    }
}
impl Dump for PrefTimedGD {
    fn dump(&self) -> Tree {
        match self {
            PrefTimedGD::Required(g) => l("pt.req", [g.dump()]),
            PrefTimedGD::Preference(n, g) => l("pt.pref", [opt(n), g.dump()]),
        }
    }
}
impl Dump for DurativeActionGoalDefinition {
    fn dump(&self) -> Tree {
        use DurativeActionGoalDefinition as D;
        match self {
            D::Timed(p) => l("dg.timed", [p.dump()]),
            D::And(v) => items("dg.and", v),
            D::Forall(v, g) => l("dg.forall", [v.dump(), g.dump()]),
        }
    }
}
impl Dump for TimedEffect {
    fn dump(&self) -> Tree {
        match self {
            TimedEffect::Conditional(t, e) => l("te.cond", [t.dump(), e.dump()]),
            TimedEffect::NumericFluent(t, f) => l(
                "te.num",
                [
                    t.dump(),
                    f.operation().dump(),
                    f.function().dump(),
                    f.function_expr().dump(),
                ],
            ),
            TimedEffect::ContinuousEffect(o, h, x) => {
                l("te.cont", [o.dump(), h.dump(), x.dump()])
            }
        }
    }
}
impl Dump for DurativeActionEffect {
    fn dump(&self) -> Tree {
        use DurativeActionEffect as D;
        match self {
            D::Timed(t) => l("de.timed", [t.dump()]),
            D::All(v) => items("de.all", v),
            D::Forall(v, e) => l("de.forall", [v.dump(), e.dump()]),
            D::When(g, e) => l("de.when", [g.dump(), e.dump()]),
        }
    }
}
impl Dump for DurativeActionDefinition {
    fn dump(&self) -> Tree {
        l(
            "da",
            [
                self.symbol().dump(),
                self.parameters().dump(),
                opt(self.duration()),
                opt(self.condition()),
                opt(self.effect()),
            ],
        )
    }
}
impl Dump for DerivedPredicate {
    fn dump(&self) -> Tree {
        l("derived", [self.predicate().dump(), self.expression().dump()])
    }
}
impl Dump for StructureDef {
    fn dump(&self) -> Tree {
        match self {
            StructureDef::Action(x) => x.dump(),
            StructureDef::DurativeAction(x) => x.dump(),
            StructureDef::Derived(x) => x.dump(),
        }
    }
}

// ---- constraints ----

impl Dump for ConGD {
    fn dump(&self) -> Tree {
        match self {
            ConGD::And(v) => items("c.and", v),
            ConGD::Forall(v, c) => l("c.forall", [v.dump(), c.dump()]),
            ConGD::AtEnd(g) => l("c.at-end", [g.dump()]),
            ConGD::Always(k) => l("c.always", [k.dump()]),
            ConGD::Sometime(k) => l("c.sometime", [k.dump()]),
            ConGD::Within(n, k) => l("c.within", [n.dump(), k.dump()]),
            ConGD::AtMostOnce(k) => l("c.at-most-once", [k.dump()]),
            ConGD::SometimeAfter(x, y) => l("c.sometime-after", [x.dump(), y.dump()]),
            ConGD::SometimeBefore(x, y) => l("c.sometime-before", [x.dump(), y.dump()]),
            ConGD::AlwaysWithin(n, x, y) => l("c.always-within", [n.dump(), x.dump(), y.dump()]),
            ConGD::HoldDuring(n, m, k) => l("c.hold-during", [n.dump(), m.dump(), k.dump()]),
            ConGD::HoldAfter(n, k) => l("c.hold-after", [n.dump(), k.dump()]),
        }
    }
}
impl Dump for Con2GD {
    fn dump(&self) -> Tree {
        match self {
            Con2GD::Goal(g) => l("k.g", [g.dump()]),
            Con2GD::Nested(c) => l("k.n", [c.dump()]),
        }
    }
}
impl Dump for PrefConGD {
    fn dump(&self) -> Tree {
        match self {
            PrefConGD::Goal(c) => l("pc.goal", [c.dump()]),
            PrefConGD::Preference(n, c) => l("pc.pref", [opt(n), c.dump()]),
            PrefConGD::Forall(v, c) => l("pc.forall", [v.dump(), c.dump()]),
        }
    }
}
impl Dump for PrefConGDs {
    fn dump(&self) -> Tree {
        items("pcs", self.iter())
    }
}

// ---- initial state ----

impl Dump for BasicFunctionTerm {
    fn dump(&self) -> Tree {
        op_items("bft", vec![self.symbol().dump()], self.names())
    }
}
impl Dump for InitElement {
    fn dump(&self) -> Tree {
        match self {
            InitElement::Literal(x) => l("i.lit", [x.dump()]),
            InitElement::At(n, x) => l("i.at", [n.dump(), x.dump()]),
            InitElement::IsValue(f, n) => l("i.val", [f.dump(), n.dump()]),
            InitElement::IsObject(f, n) => l("i.obj", [f.dump(), n.dump()]),
        }
    }
}
impl Dump for InitElements {
    fn dump(&self) -> Tree {
        items("inits", self.values())
    }
}

// ---- sections and documents ----

impl Dump for Requirements {
    fn dump(&self) -> Tree {
        items("reqs", self.iter())
    }
}
impl Dump for Types {
    fn dump(&self) -> Tree {
        l("types", [self.values().dump()])
    }
}
impl Dump for Constants {
    fn dump(&self) -> Tree {
        let v: &TypedNames = std::ops::Deref::deref(self);
        l("consts", [v.dump()])
    }
}
impl Dump for Objects {
    fn dump(&self) -> Tree {
        l("objs", [self.values().dump()])
    }
}
impl Dump for PredicateDefinitions {
    fn dump(&self) -> Tree {
        items("preds", self.values())
    }
}
impl Dump for Functions {
    fn dump(&self) -> Tree {
        l("funcs", [self.values().dump()])
    }
}
impl Dump for DomainConstraintsDef {
    fn dump(&self) -> Tree {
        l("constr", [self.value().dump()])
    }
}
impl Dump for ProblemConstraintsDef {
    fn dump(&self) -> Tree {
        self.value().dump()
    }
}
impl Dump for StructureDefs {
    fn dump(&self) -> Tree {
        items("structs", self.values())
    }
}
impl Dump for Timeless {
    fn dump(&self) -> Tree {
        items("timeless", self.values())
    }
}
impl Dump for Domain {
    fn dump(&self) -> Tree {
        l(
            "domain",
            [
                self.name().dump(),
                items("ext", self.extends()),
                self.requirements().dump(),
                self.types().dump(),
                self.constants().dump(),
                self.predicates().dump(),
                self.functions().dump(),
                l("constr", [self.constraints().dump()]),
                self.structure().dump(),
            ],
        )
    }
}
impl Dump for Problem {
    fn dump(&self) -> Tree {
        l(
            "problem",
            [
                self.name().dump(),
                self.domain().dump(),
                self.requirements().dump(),
                self.objects().dump(),
                self.init().dump(),
                self.goals().dump(),
                self.constraints().dump(),
                opt(self.metric_spec()),
                opt(self.length_spec()),
            ],
        )
    }
}
impl<T: Dump> Dump for Option<T> {
    fn dump(&self) -> Tree {
        opt(self)
    }
}

// ---- values of any type ----

/// A value of any type.
pub trait Val {
    fn tree(&self) -> Tree;
    fn same(&self, o: &dyn Val) -> bool;
    fn debug(&self) -> String;
    fn dup(&self) -> Box<dyn Val + Send>;
    fn any(&self) -> &dyn Any;
}
impl<T: Dump + PartialEq + Debug + Clone + Send + 'static> Val for T {
    fn tree(&self) -> Tree {
        self.dump()
    }
    fn same(&self, o: &dyn Val) -> bool {
        o.any().downcast_ref::<T>().is_some_and(|o| {
            let e = self == o;
            assert!(e == (o == self), "equality is not symmetric: {self:?} and {o:?}");
            assert!(e != (self != o), "== and != agree: {self:?} and {o:?}");
            e
        })
    }
    fn debug(&self) -> String {
        format!("{self:?}")
    }
    fn dup(&self) -> Box<dyn Val + Send> {
        Box::new(self.clone())
    }
    fn any(&self) -> &dyn Any {
        self
    }
}


/// Comparisons of a value with what another one of the same type wraps, as far as there are such.
pub fn across(x: &dyn Val, y: &dyn Val) -> Vec<(&'static str, bool)> {
    let mut r = vec![];
    fn list<T: PartialEq + Clone + 'static>(x: &dyn Val, y: &dyn Val, r: &mut Vec<(&'static str, bool)>)
    where
        TypedList<T>: 'static,
    {
        let (Some(x), Some(y)) = (x.any().downcast_ref::<TypedList<T>>(), y.any().downcast_ref::<TypedList<T>>()) else {
            return;
        };
        let v: Vec<Typed<T>> = y.to_vec();
        r.push(("list and vector", *x == v));
        r.push(("list and slice", *x == v[..]));
        r.push(("list and vector, by !=", !(*x != v)));
        r.push(("list and slice, by !=", !(*x != v[..])));
    }
    list::<Variable>(x, y, &mut r);
    list::<Name>(x, y, &mut r);
    type Funs = FunctionTypedList<AtomicFunctionSkeleton>;
    if let (Some(x), Some(y)) = (x.any().downcast_ref::<Funs>(), y.any().downcast_ref::<Funs>()) {
        let v: Vec<FunctionTyped<AtomicFunctionSkeleton>> = y.to_vec();
        r.push(("function list and vector", *x == v));
        r.push(("function list and slice", *x == v[..]));
        r.push(("function list and vector, by !=", !(*x != v)));
        r.push(("function list and slice, by !=", !(*x != v[..])));
    }
    macro_rules! wrapper {
        ($($t:ty, $name:literal;)*) => {$(
            if let (Some(x), Some(y)) = (x.any().downcast_ref::<$t>(), y.any().downcast_ref::<$t>()) {
                r.push(($name, *x == *y.value()));
                r.push(($name, !(*x != *y.value())));
                r.push(($name, *x.value() == *y.value()));
            }
        )*};
    }
    wrapper! {
        GoalDef, "problem goal and preconditions";
        ProblemConstraintsDef, "problem constraints and constraints";
        DomainConstraintsDef, "domain constraints and constraint";
    }
    r
}
