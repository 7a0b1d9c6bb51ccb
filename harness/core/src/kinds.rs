//! Every public type whose values can be generated, built and read back.
use crate::dump::Val;
use crate::gen::{G, REQUIREMENTS};
use crate::mk::Mk;
use crate::tree::*;
use crate::views::Views;

pub struct Kind {
    pub name: &'static str,
    pub gen: fn(&mut G, usize) -> Tree,
    pub make: fn(&Mk, &Tree) -> Box<dyn Val + Send>,
    pub views: fn(&Mk, &Tree) -> Result<(), String>,
    /// The parser entry point for such values, if there is one.
    pub entry: Option<&'static str>,
    /// As the entry point's trees are called, where that is different.
    pub root: Option<&'static str>,
}
macro_rules! kinds {
    ($($name:literal, $gen:expr, $f:ident $(, $e:literal $(as $r:literal)?)?;)*) => {
        vec![$(Kind {
            name: $name,
            gen: $gen,
            make: |m, t| Box::new(m.$f(t)),
            views: |m, t| m.$f(t).views(),
            entry: { let e: &[&'static str] = &[$($e)?]; e.first().copied() },
            root: { let e: &[&'static str] = &[$($($r)?)?]; e.first().copied() },
        }),*]
    };
}
fn list(g: &mut G, k: &'static str, f: fn(&mut G) -> Tree) -> Tree {
    let n = g.c.len(0);
    L(k, (0..n).map(|_| f(g)).collect())
}
pub fn kinds() -> Vec<Kind> {
    kinds! {
        "domain", |g, _| g.domain(), domain, "Domain";
        "problem", |g, _| g.problem(), problem, "Problem";
        "action", |g, _| g.action(), action, "ActionDefinition";
        "durative action", |g, _| g.durative_action(), durative_action, "DurativeActionDefinition";
        "derived predicate", |g, _| g.derived(), derived, "DerivedPredicate";
        "structure", |g, _| g.structure(), structure, "StructureDef";
        "structures", |g, _| list(g, "structs", |g| g.structure()), structs;
        "name", |g, _| g.name(), name, "Name";
        "variable", |g, _| g.var(), var, "Variable";
        "predicate", |g, _| g.name(), pred, "Predicate";
        "function symbol", |g, _| g.name(), fun, "FunctionSymbol";
        "action symbol", |g, _| g.name(), act, "ActionSymbol";
        "durative action symbol", |g, _| g.name(), dact, "DurativeActionSymbol";
        "preference name", |g, _| g.name(), pname, "PreferenceName";
        "number", |g, _| g.num(), num, "Number";
        "primitive type", |g, _| g.name(), ptype, "PrimitiveType";
        "type", |g, _| g.ty(), ty, "Type";
        "function type", |g, _| g.fty(), ftype, "FunctionType";
        "variables", |g, _| g.vars(), vars, "typed_list(variable)";
        "names", |g, _| g.names(), names, "typed_list(name)";
        "function list", |g, _| g.funs(), funs, "function_typed_list(skeleton)";
        "predicate skeleton", |g, _| g.pskel(), pskel, "AtomicFormulaSkeleton";
        "function skeleton", |g, _| g.fskel(), fskel, "AtomicFunctionSkeleton";
        "function term", |g, d| g.fterm(d.min(8)), fterm, "FunctionTerm";
        "basic function term", |g, _| g.bft(), bft, "BasicFunctionTerm";
        "term", |g, d| g.term(d.min(8)), term, "Term";
        "atomic formula", |g, d| g.af(&[], d.min(5)), taf, "atomic_formula(term)";
        "literal", |g, _| g.lit_names(), nlit, "literal(name)";
        "goal", |g, d| g.goal(d), goal, "GoalDefinition";
        "comparison", |g, d| g.fcomp(d), fcomp, "FComp";
        "function head", |g, d| g.head(d.min(6)), head, "FHead";
        "expression", |g, d| g.fexp(d), fexp, "FExp";
        "duration expression", |g, d| g.fexp_da(d), fexp_da, "FExpDa";
        "time expression", |g, d| if g.c.pick(3) == 0 { l("xt.now", []) } else { l("xt.scaled", [g.fexp(d)]) }, fexp_t, "FExpT";
        "metric expression", |g, d| g.metric_exp(d), metric_exp, "MetricFExp";
        "metric", |g, _| g.metric(), metric, "MetricSpec";
        "length", |g, _| g.length(), length, "LengthSpec";
        "preference", |g, d| { let n = g.opt_name(); l("p.pref", [n, g.goal(d)]) }, preference;
        "optional preference", |g, d| if g.c.pick(2) == 0 {
            l("p.goal", [g.goal(d)])
        } else {
            let n = g.opt_name();
            l("p.pref", [n, g.goal(d)])
        }, pref_gd, "PreferenceGD";
        "precondition", |g, d| g.pre_item(d), pre_item;
        "preconditions", |g, d| g.pre(d), pre, "PreconditionGoalDefinitions" as "pre*";
        "problem goal", |g, d| g.pre(d), goal_def, "GoalDef";
        "simple effect", |g, d| g.p_effect(d.min(6)), p_effect, "PEffect";
        "conditional effect", |g, d| g.cond_effect(d.min(4)), cond_effect, "ConditionalEffect";
        "effect", |g, d| g.c_effect(d), c_effect, "CEffect";
        "effects", |g, d| g.effects(d), effects, "Effects";
        "quantified effect", |g, d| { let v = g.vars(); l("e.forall", [v, g.effects(d)]) }, forall_c_effect, "ForallCEffect";
        "effect under a condition", |g, d| { let x = g.goal(d.min(6)); l("e.when", [x, g.cond_effect(d.min(3))]) }, when_c_effect, "WhenCEffect";
        "duration value", |g, d| match g.fexp(d) { L("x.n", v) => L("v.n", v), x => l("v.x", [x]) }, dvalue, "DurationValue";
        "duration constraint", |g, d| g.simple_duration(d), simple_duration, "SimpleDurationConstraint";
        "duration constraints", |g, d| loop {
            match g.duration(d) { L("some", v) => break v[0].clone(), _ if g.c.exhausted() => break l("d.single", [g.simple_duration(0)]), _ => {} }
        }, duration;
        "timed goal", |g, d| g.timed_goal(d), timed_goal, "TimedGD";
        "optional timed goal", |g, d| g.pref_timed_goal(d), pref_timed_goal, "PrefTimedGD";
        "durative goal", |g, d| g.da_goal(d), da_goal, "DurativeActionGoalDefinition";
        "timed effect", |g, d| g.timed_effect(d.min(4)), timed_effect, "TimedEffect";
        "durative effect", |g, d| g.da_effect(d), da_effect, "DurativeActionEffect";
        "nested constraint", |g, d| g.con2(d), con2, "Con2GD";
        "constraint", |g, d| g.con(d), con, "ConGD";
        "constraint with preference", |g, d| g.pref_con(d), pref_con;
        "constraints with preferences", |g, d| g.pref_cons(d), pref_cons, "PrefConGDs" as "pcs*";
        "problem constraints", |g, d| g.pref_cons(d), pconstr, "ProblemConstraintsDef";
        "domain constraints", |g, d| l("constr", [g.con(d)]), constr, "DomainConstraintsDef";
        "initial element", |g, _| g.init_el(), init_el, "InitElement";
        "initial state", |g, _| g.init(), init, "InitElements";
        "requirements", |g, _| list(g, "reqs", |g| a(g.c.of(REQUIREMENTS))), reqs;
        "types", |g, _| l("types", [g.names()]), types, "Types";
        "constants", |g, _| l("consts", [g.names()]), consts, "Constants";
        "objects", |g, _| l("objs", [g.names()]), objs, "Objects";
        "predicates", |g, _| list(g, "preds", |g| g.pskel()), preds;
        "functions", |g, _| l("funcs", [g.funs()]), functions, "Functions";
        "timeless", |g, _| list(g, "timeless", |g| g.lit_names()), timeless;
    }
}
