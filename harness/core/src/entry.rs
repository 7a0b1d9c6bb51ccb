//! Every parser entry point of the crate behind one uniform interface.
pub use crate::dump::Val;
use crate::gen::G;
use crate::tree::*;
use pddl::parsers::*;
use pddl::*;

/// The unread rest of the input.
#[derive(Clone, PartialEq, Debug)]
pub struct Rest {
    pub text: String,
    pub offset: usize,
    pub line: u32,
    pub column: usize,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Fail {
    /// `Error`, `Failure` or `Incomplete`.
    pub class: &'static str,
    pub debug: String,
    pub offset: Option<usize>,
}
pub type Got = Result<(Rest, Box<dyn Val + Send>), Fail>;

pub struct Entry {
    pub name: &'static str,
    /// The kind of value, the same for entries of the same language.
    pub parse: Option<fn(&str) -> Got>,
    /// From a text and the offset in it at which the input starts.
    pub parse_at: Option<fn(&str, usize) -> Got>,
    pub parse_span: Option<fn(&str, usize) -> Got>,
    pub from_str: Option<fn(&str) -> Result<Box<dyn Val + Send>, Fail>>,
    /// `UnwrapValue::is_value` of the result of parsing the first text with the value of the second.
    pub is_value: Option<fn(&str, &str) -> Option<bool>>,
    pub free: Option<fn(&str) -> Got>,
    pub free_at: Option<fn(&str, usize) -> Got>,
    /// A canonical value of the language.
    pub gen: fn(&mut G, usize) -> Tree,
    /// The kind of dumps of this entry, where it needs renaming to print.
    pub kind: Option<&'static str>,
}
impl Entry {
    pub fn run(&self, s: &str) -> Got {
        self.parse.or(self.free).unwrap()(s)
    }
    /// The value's tree as printed by `print`.
    pub fn tree(&self, v: &dyn Val) -> Tree {
        self.fix(v.tree())
    }
    pub fn fix(&self, t: Tree) -> Tree {
        match (self.kind, t) {
            (Some(k), L(_, v)) => L(k, v),
            (_, t) => t,
        }
    }
}

pub fn fail(e: nom::Err<ParseError>) -> Fail {
    use nom::Err::*;
    match e {
        Incomplete(n) => Fail { class: "Incomplete", debug: format!("{n:?}"), offset: None },
        Error(e) => Fail {
            class: "Error",
            offset: nom_offset(&e),
            debug: format!("{e:?}"),
        },
        Failure(e) => Fail {
            class: "Failure",
            offset: nom_offset(&e),
            debug: format!("{e:?}"),
        },
    }
}
fn nom_offset(e: &ParseError) -> Option<usize> {
    e.errors.iter().map(|(s, _)| s.location_offset()).max()
}
fn got<T: Val + Send + 'static>(r: ParseResult<T>) -> Got {
    match r {
        Ok((rest, v)) => Ok((
            Rest {
                text: rest.fragment().to_string(),
                offset: rest.location_offset(),
                line: rest.location_line(),
                column: rest.get_column(),
            },
            Box::new(v),
        )),
        Err(e) => Err(fail(e)),
    }
}
/// A span of the text that starts at an offset in it.
pub fn span_at(s: &str, at: usize) -> Span<'_> {
    use nom::Slice;
    Span::new(s).slice(at..)
}

macro_rules! typed {
    ($t:ty, $free:expr, $gen:expr, $kind:expr) => {
        Entry {
            name: stringify!($t),
            parse: Some(|s| got(<$t as Parser>::parse(s))),
            parse_at: Some(|s, at| got(<$t as Parser>::parse(span_at(s, at)))),
            parse_span: Some(|s, at| got(<$t as Parser>::parse_span(span_at(s, at)))),
            from_str: Some(|s| match <$t as Parser>::from_str(s) {
                Ok(v) => Ok(Box::new(v)),
                Err(e) => Err(fail(e)),
            }),
            is_value: Some(|s, o| {
                let v = <$t as Parser>::parse(o).ok()?.1;
                Some(UnwrapValue::is_value(&<$t as Parser>::parse(s), v))
            }),
            free: $free.0,
            free_at: $free.1,
            gen: $gen,
            kind: $kind,
        }
    };
}
macro_rules! list {
    ($($t:ty, $f:path, $gen:expr $(, $kind:literal)?;)*) => {
        vec![$(typed!($t, (Some((|s: &str| got($f(s))) as fn(&str) -> Got),
                    Some((|s: &str, at: usize| got($f(span_at(s, at)))) as fn(&str, usize) -> Got)),
            $gen, { let k: &[&'static str] = &[$($kind)?]; k.first().copied() })),*]
    };
}
macro_rules! free {
    ($v:ident; $($name:literal, $f:expr, $gen:expr $(, $kind:literal)?;)*) => {$(
        $v.push(Entry {
            name: $name,
            parse: None,
            parse_at: None,
            parse_span: None,
            from_str: None,
            is_value: None,
            free: Some(|s| got($f(Span::new(s)))),
            free_at: Some(|s, at| got($f(span_at(s, at)))),
            gen: $gen,
            kind: { let k: &[&'static str] = &[$($kind)?]; k.first().copied() },
        });
    )*};
}

fn pick(g: &mut G, v: &[&str]) -> Tree {
    let i = g.c.pick(v.len());
    a(v[i])
}
fn star(k: &'static str, t: Tree) -> Tree {
    match t {
        L(_, v) => L(k, v),
        t => t,
    }
}

pub fn entries() -> Vec<Entry> {
    let mut v = list! {
        ActionDefinition, parse_action_def, |g, _| g.action();
        ActionSymbol, parse_action_symbol, |g, _| g.name();
        AssignOp, parse_assign_op, |g, _| pick(g, crate::gen::ASSIGN);
        AssignOpT, parse_assign_op_t, |g, _| pick(g, &["increase", "decrease"]);
        AtomicFormulaSkeleton, parse_atomic_formula_skeleton, |g, _| g.pskel();
        AtomicFunctionSkeleton, parse_atomic_function_skeleton, |g, _| g.fskel();
        BasicFunctionTerm, parse_basic_function_term, |g, _| g.bft();
        BinaryComp, parse_binary_comp, |g, _| pick(g, crate::gen::COMP);
        BinaryOp, parse_binary_op, |g, _| pick(g, crate::gen::OPS);
        CEffect, parse_c_effect, |g, d| g.c_effect(d);
        ForallCEffect, parse_forall_c_effect, |g, d| {
            let v = g.vars();
            l("e.forall", [v, g.effects(d)])
        };
        WhenCEffect, parse_when_c_effect, |g, d| {
            let x = g.goal(d.min(6));
            l("e.when", [x, g.cond_effect(d.min(3))])
        };
        ConGD, parse_con_gd, |g, d| g.con(d);
        ConditionalEffect, parse_cond_effect, |g, d| g.cond_effect(d.min(4));
        Constants, parse_constants_def, |g, _| l("consts", [g.names()]);
        DOp, parse_d_op, |g, _| pick(g, crate::gen::DOPS);
        DurationValue, parse_d_value, |g, d| match g.fexp(d) {
            L("x.n", v) => L("v.n", v),
            x => l("v.x", [x]),
        };
        DurativeActionDefinition, parse_da_def, |g, _| g.durative_action();
        DurativeActionEffect, parse_da_effect, |g, d| g.da_effect(d);
        DurativeActionGoalDefinition, parse_da_gd, |g, d| g.da_goal(d);
        DurativeActionSymbol, parse_da_symbol, |g, _| g.name();
        DerivedPredicate, parse_derived_predicate, |g, _| g.derived();
        Domain, parse_domain, |g, _| g.domain();
        DomainConstraintsDef, parse_domain_constraints_def, |g, d| l("constr", [g.con(d)]);
        DurationConstraint, parse_duration_constraint, |g, d| g.duration(d);
        Effects, parse_effect, |g, d| g.effects(d);
        FAssignDa, parse_f_assign_da, |g, d| {
            let op = pick(g, crate::gen::ASSIGN);
            let h = g.head(d.min(3));
            l("fassign", [op, h, g.fexp_da(d)])
        };
        FComp, parse_f_comp, |g, d| g.fcomp(d);
        FExp, parse_f_exp, |g, d| g.fexp(d);
        FExpDa, parse_f_exp_da, |g, d| g.fexp_da(d);
        FExpT, parse_f_exp_t, |g, d| if g.c.pick(3) == 0 {
            l("xt.now", [])
        } else {
            l("xt.scaled", [g.fexp(d)])
        };
        FHead, parse_f_head, |g, d| g.head(d.min(6));
        FunctionSymbol, parse_function_symbol, |g, _| g.name();
        FunctionTerm, parse_function_term, |g, d| g.fterm(d.min(8));
        FunctionType, parse_function_type, |g, _| g.fty();
        Functions, parse_functions_def, |g, _| l("funcs", [g.funs()]);
        GoalDefinition, parse_gd, |g, d| g.goal(d);
        GoalDef, parse_problem_goal_def, |g, d| g.pre(d);
        InitElements, parse_problem_init_def, |g, _| g.init();
        InitElement, parse_init_el, |g, _| g.init_el();
        Interval, parse_interval, |_, _| a("all");
        LengthSpec, parse_problem_length_spec, |g, _| g.length();
        MetricFExp, parse_metric_f_exp, |g, d| g.metric_exp(d);
        MetricSpec, parse_problem_metric_spec, |g, _| g.metric();
        MultiOp, parse_multi_op, |g, _| pick(g, &["*", "+"]);
        Name, parse_name, |g, _| g.name();
        Number, parse_number, |g, _| g.num();
        Objects, parse_problem_objects_declaration, |g, _| l("objs", [g.names()]);
        Optimization, parse_optimization, |g, _| pick(g, &["minimize", "maximize"]);
        PEffect, parse_p_effect, |g, d| g.p_effect(d.min(6));
        PreconditionGoalDefinitions, parse_pre_gd, |g, d| star("pre*", g.pre(d)), "pre*";
        Predicate, parse_predicate, |g, _| g.name();
        PredicateDefinitions, parse_predicates_def, |g, _| match g.c.len(1) {
            n => L("preds", (0..n).map(|_| g.pskel()).collect()),
        };
        PrefConGDs, parse_pref_con_gd, |g, d| star("pcs*", g.pref_cons(d)), "pcs*";
        PreferenceGD, parse_pref_gd, |g, d| if g.c.pick(2) == 0 {
            l("p.goal", [g.goal(d)])
        } else {
            let n = g.opt_name();
            l("p.pref", [n, g.goal(d)])
        };
        PreferenceName, parse_pref_name, |g, _| g.name();
        PrefTimedGD, parse_pref_timed_gd, |g, d| g.pref_timed_goal(d);
        PrimitiveType, parse_primitive_type, |g, _| g.name();
        Problem, parse_problem, |g, _| g.problem();
        ProblemConstraintsDef, parse_problem_constraints_def, |g, d| g.pref_cons(d);
        Requirements, parse_require_def, |g, _| match g.c.len(1) {
            n => L("reqs", (0..n).map(|_| pick(g, crate::gen::REQUIREMENTS)).collect()),
        };
        Requirement, parse_require_key, |g, _| pick(g, crate::gen::REQUIREMENTS);
        SimpleDurationConstraint, parse_simple_duration_constraint, |g, d| g.simple_duration(d);
        StructureDef, parse_structure_def, |g, _| g.structure();
        Term, parse_term, |g, d| g.term(d.min(8));
        TimeSpecifier, parse_time_specifier, |g, _| pick(g, &["start", "end"]);
        TimedEffect, parse_timed_effect, |g, d| g.timed_effect(d.min(4));
        TimedGD, parse_timed_gd, |g, d| g.timed_goal(d);
        Timeless, parse_timeless_def, |g, _| match g.c.len(1) {
            n => L("timeless", (0..n).map(|_| g.lit_names()).collect()),
        };
        Type, parse_type, |g, _| g.ty();
        Types, parse_types_def, |g, _| l("types", [g.names()]);
        Variable, parse_variable, |g, _| g.var();
    };
    v.push(typed!(Con2GD, (None::<fn(&str) -> Got>, None::<fn(&str, usize) -> Got>), |g, d| g.con2(d), None));
    free! { v;
        "typed_list(name)", typed_list(parse_name), |g, _| g.names();
        "typed_list(variable)", typed_list(parse_variable), |g, _| g.vars();
        "function_typed_list(skeleton)", function_typed_list(parse_atomic_function_skeleton), |g, _| g.funs();
        "literal(name)", literal(parse_name), |g, _| g.lit_names();
        "literal(term)", literal(parse_term), |g, d| {
            let k = if g.c.pick(3) == 2 { "-" } else { "+" };
            l(k, [g.af(&[&["not"]], d.min(5))])
        };
        "atomic_formula(name)", atomic_formula(parse_name), |g, _| g.af_names(&[]);
        "atomic_formula(term)", atomic_formula(parse_term), |g, d| g.af(&[], d.min(5));
        "empty_or(gd)", empty_or(parse_gd), |g, d| if g.c.pick(4) == 0 { none() } else { some(g.goal(d)) };
        "empty_or(effect)", empty_or(parse_effect), |g, d| if g.c.pick(4) == 0 { none() } else { some(g.effects(d)) };
        "empty_or(da_gd)", empty_or(parse_da_gd), |g, d| if g.c.pick(4) == 0 { none() } else { some(g.da_goal(d)) };
    }
    v
}
