//! How the work of parsing grows with the size of what is parsed.
use crate::docs::*;
use crate::run::{cut, Res, Stats};
use crate::work::limited;
use pcore::choice::Ch;

/// Ways to put one construct inside another: the outer one, the text before and after, the inner.
const NEST: &[(&str, &str, &str, &str)] = &[
    ("gd", "(and ", ")", "gd"),
    ("gd", "(and (p) ", ")", "gd"),
    ("gd", "(and ", " (p))", "gd"),
    ("gd", "(or ", ")", "gd"),
    ("gd", "(or (q ?x) ", " (p))", "gd"),
    ("gd", "(not ", ")", "gd"),
    ("gd", "(imply ", " (p))", "gd"),
    ("gd", "(imply (p) ", ")", "gd"),
    ("gd", "(exists (?x) ", ")", "gd"),
    ("gd", "(forall (?x - t) ", ")", "gd"),
    ("gd", "(= ", " 1)", "fexp"),
    ("gd", "(> 1 ", ")", "fexp"),
    ("gd", "(<= ", " (f))", "fexp"),
    ("gd", "(= ", " ?x)", "term"),
    ("gd", "(= a ", ")", "term"),
    ("gd", "(p ", ")", "term"),
    ("gd", "(p ?y ", " b)", "term"),
    ("term", "(f ", ")", "term"),
    ("term", "(f ?x ", " b)", "term"),
    ("fexp", "(+ ", " 1)", "fexp"),
    ("fexp", "(+ 1 ", ")", "fexp"),
    ("fexp", "(- ", ")", "fexp"),
    ("fexp", "(- (f) ", ")", "fexp"),
    ("fexp", "(- ", " (f))", "fexp"),
    ("fexp", "(* ", " 2 3)", "fexp"),
    ("fexp", "(* 2 ", " 3)", "fexp"),
    ("fexp", "(+ 2 3 ", ")", "fexp"),
    ("fexp", "(/ ", " 2)", "fexp"),
    ("fexp", "(f ", ")", "term"),
    ("xda", "(+ ", " ?duration)", "xda"),
    ("xda", "(+ ?duration ", ")", "xda"),
    ("xda", "(- ", ")", "xda"),
    ("xda", "(* ", " 2 3)", "xda"),
    ("xda", "(* 2 ", " 3)", "xda"),
    ("xda", "(/ 1 ", ")", "xda"),
    ("xda", "(+ ", " 1)", "fexp"),
    ("metric", "(+ ", " 1)", "metric"),
    ("metric", "(+ total-time ", ")", "metric"),
    ("metric", "(- ", ")", "metric"),
    ("metric", "(- (f) ", ")", "metric"),
    ("metric", "(* ", " 2 3)", "metric"),
    ("metric", "(* 2 ", " (is-violated p))", "metric"),
    ("metric", "(/ ", " 2)", "metric"),
    ("pre", "(and ", ")", "pre"),
    ("pre", "(and (p) ", ")", "pre"),
    ("pre", "(and ", " (p))", "pre"),
    ("pre", "(forall (?x) ", ")", "pre"),
    ("pre", "(preference ", ")", "gd"),
    ("pre", "(preference n ", ")", "gd"),
    ("pre", "(or ", ")", "gd"),
    ("pre", "(not ", ")", "gd"),
    ("pe", "(not (p ", "))", "term"),
    ("pe", "(p ", ")", "term"),
    ("pe", "(assign (f) ", ")", "fexp"),
    ("pe", "(increase (f ", ") 1)", "term"),
    ("pe", "(assign (f) ", ")", "term"),
    ("eff", "(and ", ")", "eff"),
    ("eff", "(and (p) ", ")", "eff"),
    ("eff", "(and ", " (not (p)))", "eff"),
    ("eff", "(forall (?x) ", ")", "eff"),
    ("eff", "(when ", " (p))", "gd"),
    ("eff", "(when (p) ", ")", "pe"),
    ("eff", "(when (p) (and (q) ", "))", "pe"),
    ("eff", "(and ", ")", "pe"),
    ("con", "(and ", ")", "con"),
    ("con", "(and (always (p)) ", ")", "con"),
    ("con", "(and ", " (always (p)))", "con"),
    ("con", "(forall (?x) ", ")", "con"),
    ("con", "(at end ", ")", "gd"),
    ("con", "(always ", ")", "con2"),
    ("con", "(sometime ", ")", "con2"),
    ("con", "(within 1 ", ")", "con2"),
    ("con", "(at-most-once ", ")", "con2"),
    ("con", "(sometime-after ", " (p))", "con2"),
    ("con", "(sometime-after (p) ", ")", "con2"),
    ("con", "(sometime-before ", " (p))", "con2"),
    ("con", "(sometime-before (p) ", ")", "con2"),
    ("con", "(always-within 1 ", " (p))", "con2"),
    ("con", "(always-within 1 (p) ", ")", "con2"),
    ("con", "(hold-during 1 2 ", ")", "con2"),
    ("con", "(hold-after 1 ", ")", "con2"),
    ("con2", "(and ", ")", "con2"),
    ("con2", "(always ", ")", "con2"),
    ("con2", "(sometime-after ", " (p))", "con2"),
    ("con2", "(at end ", ")", "gd"),
    ("con2", "(and ", " (p))", "gd"),
    ("con2", "(not ", ")", "gd"),
    ("con2", "(hold-after 1 ", ")", "con2"),
    ("pcs", "(and ", ")", "pcs"),
    ("pcs", "(and (preference n (always (p))) ", ")", "pcs"),
    ("pcs", "(forall (?x) ", ")", "pcs"),
    ("pcs", "(preference ", ")", "con"),
    ("pcs", "(preference n ", ")", "con"),
    ("pcs", "(always ", ")", "con2"),
    ("dag", "(and ", ")", "dag"),
    ("dag", "(and (at start (p)) ", ")", "dag"),
    ("dag", "(and ", " (over all (p)))", "dag"),
    ("dag", "(forall (?x) ", ")", "dag"),
    ("dag", "(at start ", ")", "gd"),
    ("dag", "(over all ", ")", "gd"),
    ("dag", "(preference n (at end ", "))", "gd"),
    ("dae", "(and ", ")", "dae"),
    ("dae", "(and (at start (p)) ", ")", "dae"),
    ("dae", "(and ", " (at end (not (p))))", "dae"),
    ("dae", "(forall (?x) ", ")", "dae"),
    ("dae", "(when ", " (at end (p)))", "dag"),
    ("dae", "(when (at start (p)) (at end ", "))", "pe"),
    ("dae", "(at start (assign (f) ", "))", "xda"),
    ("dae", "(at end ", ")", "pe"),
    ("dae", "(increase (f) (* #t ", "))", "fexp"),
    ("dae", "(decrease (f) (* ", " #t))", "fexp"),
    ("dur", "(and ", ")", "dur"),
    ("dur", "(and (<= ?duration 1) ", ")", "dur"),
    ("dur", "(= ?duration ", ")", "fexp"),
    ("dur", "(at start (>= ?duration ", "))", "fexp"),
];
/// What is at the innermost place: right, and wrong.
const LEAF: &[(&str, &[&str], &[&str])] = &[
    ("gd", &["(p)", "(and)", "(= a b)", "(p ?x)", "(> (f) 1)"], &["(", "p", "(p", "(not)", "(p))x", "(and p)", "?x", "(> 1)", "(p 1)", "()"]),
    ("term", &["?x", "a", "(f)"], &["1", "(", "()", "?", "(f", "(1)", "-"]),
    ("fexp", &["1", "(f)", "f", "(+ 1 2)"], &["(", "?x", "()", "(+ 1", "(+)", "1.2.3", "(%", "#t", "?duration"]),
    ("xda", &["?duration", "1", "(f)"], &["(", "?x", "()", "(+ ?duration", "#t", "(+)", "?durations"]),
    ("metric", &["total-time", "1", "(f a)", "(is-violated p)"], &["(", "?x", "()", "(+ 1", "(is-violated)", "(f (g))", "#t"]),
    ("pre", &["(p)", "(and)", "(preference n (p))", "(not (p))"], &["(", "p", "(p", "(preference)", "(preference n)", "(and p)", "(p 1)", "()"]),
    ("pe", &["(p)", "(not (p))", "(increase (f) 1)"], &["(", "p", "(not)", "(increase (f))", "(assign)", "(or (p))", "()"]),
    ("eff", &["(p)", "(and)", "(not (p))", "(assign (f) undefined)"], &["(", "p", "(not)", "(when (p))", "(or (p) (q))", "(increase (f))", "()", "(p 1)"]),
    ("con", &["(always (p))", "(at end (p))", "(and)", "(sometime (and (p)))"], &["(", "(p)", "(always)", "(at start (p))", "(within (p))", "()", "(always p)", "(hold-during 1 (p))"]),
    ("con2", &["(p)", "(always (p))", "(and (p))"], &["(", "(always)", "(at start (p))", "(within (p))", "()", "(always p)", "p", "(p 1)"]),
    ("pcs", &["(always (p))", "(preference n (sometime (p)))", "(and)"], &["(", "(p)", "(always)", "(preference)", "(preference n (p))", "()", "p"]),
    ("dag", &["(at start (p))", "(over all (p))", "(and)", "(preference n (at end (p)))"], &["(", "(p)", "(at all (p))", "(over start (p))", "(preference n (p))", "()", "(at start)", "(at start p)"]),
    ("dae", &["(at start (p))", "(at end (not (p)))", "(and)", "(increase (f) #t)"], &["(", "(p)", "(at all (p))", "(over all (p))", "(increase (f) 1)", "()", "(at start)", "(when (at start (p)))"]),
    ("dur", &["(= ?duration 1)", "(at end (<= ?duration (f)))"], &["(", "()", "(and)", "(> ?duration 1)", "(= 1 ?duration)", "(= ?duration)", "(at all (= ?duration 1))"]),
];
/// The entries and documents in which a construct stands.
const PLACES: &[(&str, &[(&str, &str, &str)])] = &[
    ("gd", &[
        ("GoalDefinition", "", ""), ("PreconditionGoalDefinitions", "", ""), ("GoalDef", "(:goal ", ")"),
        ("PreferenceGD", "(preference n ", ")"), ("DerivedPredicate", "(:derived (p) ", ")"), ("Con2GD", "", ""), ("empty_or(gd)", "", ""),
        ("Problem", "(define (problem p) (:domain d) (:init) (:goal ", "))"),
        ("Domain", "(define (domain d) (:action a :parameters () :precondition ", "))"),
        ("Domain", "(define (domain d) (:derived (p) ", "))"),
    ]),
    ("term", &[("Term", "", ""), ("FunctionTerm", "(f ", ")"), ("atomic_formula(term)", "(p ", ")"), ("literal(term)", "(not (p ", "))"),
        ("FHead", "(f ", ")"), ("GoalDefinition", "(p ", ")")]),
    ("fexp", &[("FExp", "", ""), ("FComp", "(> ", " 1)"), ("FComp", "(= 1 ", ")"), ("FExpDa", "", ""), ("FExpT", "(* #t ", ")"), ("PEffect", "(increase (f) ", ")"),
        ("GoalDefinition", "(= ", " 1)"), ("Effects", "(assign (f) ", ")"), ("DurationConstraint", "(= ?duration ", ")"), ("DurationValue", "", "")]),
    ("xda", &[("FExpDa", "", ""), ("FAssignDa", "(assign (f) ", ")"), ("TimedEffect", "(at end (increase (f) ", "))"), ("DurativeActionEffect", "(at start (assign (f) ", "))")]),
    ("metric", &[("MetricFExp", "", ""), ("MetricSpec", "(:metric minimize ", ")"),
        ("Problem", "(define (problem p) (:domain d) (:init) (:goal (and)) (:metric maximize ", "))")]),
    ("pre", &[("PreconditionGoalDefinitions", "", ""), ("GoalDef", "(:goal ", ")"), ("ActionDefinition", "(:action a :parameters () :precondition ", ")"),
        ("Problem", "(define (problem p) (:domain d) (:init) (:goal ", "))")]),
    ("pe", &[("PEffect", "", ""), ("ConditionalEffect", "", ""), ("ConditionalEffect", "(and (p) ", ")"), ("Effects", "", ""), ("WhenCEffect", "(when (p) ", ")"), ("TimedEffect", "(at start ", ")")]),
    ("eff", &[("Effects", "", ""), ("CEffect", "(forall (?x) ", ")"), ("ForallCEffect", "(forall (?x) ", ")"), ("empty_or(effect)", "", ""),
        ("ActionDefinition", "(:action a :parameters () :effect ", ")"), ("Domain", "(define (domain d) (:action a :parameters () :effect ", "))")]),
    ("con", &[("ConGD", "", ""), ("Con2GD", "", ""), ("DomainConstraintsDef", "(:constraints ", ")"), ("Domain", "(define (domain d) (:constraints ", "))"), ("PrefConGDs", "", "")]),
    ("con2", &[("Con2GD", "", ""), ("ConGD", "(always ", ")"), ("PrefConGDs", "(sometime ", ")")]),
    ("pcs", &[("PrefConGDs", "", ""), ("ProblemConstraintsDef", "(:constraints ", ")"),
        ("Problem", "(define (problem p) (:domain d) (:init) (:goal (and)) (:constraints ", "))")]),
    ("dag", &[("DurativeActionGoalDefinition", "", ""), ("empty_or(da_gd)", "", ""),
        ("DurativeActionDefinition", "(:durative-action a :parameters () :duration () :condition ", " :effect ())"),
        ("Domain", "(define (domain d) (:durative-action a :parameters () :duration (= ?duration 1) :condition ", " :effect ()))")]),
    ("dae", &[("DurativeActionEffect", "", ""), ("DurativeActionDefinition", "(:durative-action a :parameters () :duration () :condition () :effect ", ")"),
        ("Domain", "(define (domain d) (:durative-action a :parameters () :duration () :condition () :effect ", "))")]),
    ("dur", &[("DurationConstraint", "", ""), ("DurativeActionDefinition", "(:durative-action a :parameters () :duration ", " :condition () :effect ())")]),
];
/// Lists of any length: where they stand, and what their elements are.
const WIDE: &[(&str, &str, &str, &[&str])] = &[
    ("typed_list(name)", "", "", &["a ", "a - t ", "a b - (either s t) ", "a - object "]),
    ("typed_list(variable)", "", "", &["?a ", "?a - t ", "?a ?b - (either s t) "]),
    ("Type", "(either ", ")", &["t ", "object "]),
    ("function_typed_list(skeleton)", "", "", &["(f) ", "(f ?x) - number ", "(f ?x - t) - t "]),
    ("Requirements", "(:requirements ", ")", &[":strips ", ":adl ", ":action-costs "]),
    ("PredicateDefinitions", "(:predicates ", ")", &["(p) ", "(p ?x - t) ", "(p ?x ?y) "]),
    ("InitElements", "(:init ", ")", &["(p) ", "(not (p a)) ", "(= (f a) 1) ", "(= f a) ", "(at 1 (p)) ", "(= (f) (g)) "]),
    ("Timeless", "(:timeless ", ")", &["(p) ", "(not (p a)) "]),
    ("Objects", "(:objects ", ")", &["a ", "a - t ", "a - (either s t) "]),
    ("GoalDefinition", "(and ", ")", &["(p) ", "(not (p ?x)) ", "(= a b) ", "(> (f) 1) ", "(and) ", "(forall (?x) (p)) ", "(or (p)) "]),
    ("GoalDefinition", "(or ", ")", &["(p) ", "(= (f) 1) "]),
    ("GoalDefinition", "(exists (", ") (p))", &["?x ", "?x - t "]),
    ("PreconditionGoalDefinitions", "(and ", ")", &["(p) ", "(preference n (p)) ", "(forall (?x) (p)) ", "(and) "]),
    ("Effects", "(and ", ")", &["(p) ", "(not (p)) ", "(when (p) (q)) ", "(forall (?x) (p)) ", "(increase (f) 1) ", "(assign (f) undefined) "]),
    ("Effects", "(when (p) (and ", "))", &["(p) ", "(not (p)) ", "(increase (f) 1) "]),
    ("FExp", "(+ 1 ", ")", &["1 ", "(f) ", "f ", "(- 1) ", "(+ 1 2) "]),
    ("FExpDa", "(* 1 ", ")", &["1 ", "?duration ", "(f) "]),
    ("MetricFExp", "(+ 1 ", ")", &["1 ", "total-time ", "(f a) ", "(is-violated p) "]),
    ("MetricFExp", "(f ", ")", &["a "]),
    ("atomic_formula(term)", "(p ", ")", &["?x ", "a ", "(f) ", "(f ?x) "]),
    ("ConGD", "(and ", ")", &["(always (p)) ", "(at end (p)) ", "(and) "]),
    ("PrefConGDs", "(and ", ")", &["(always (p)) ", "(preference n (always (p))) ", "(forall (?x) (always (p))) "]),
    ("DurativeActionGoalDefinition", "(and ", ")", &["(at start (p)) ", "(over all (p)) ", "(preference n (at end (p))) "]),
    ("DurativeActionEffect", "(and ", ")", &["(at start (p)) ", "(increase (f) #t) ", "(when (at start (p)) (at end (q))) ", "(at end (assign (f) ?duration)) "]),
    ("DurationConstraint", "(and ", ")", &["(= ?duration 1) ", "(at end (<= ?duration (f))) "]),
    ("Domain", "(define (domain d) ", ")", &["(:action a :parameters ()) ", "(:derived (p) (q)) ", "(:action a :parameters (?x) :precondition (p) :effect (q)) ",
        "(:durative-action a :parameters () :duration () :condition () :effect ()) ", "(:constraints (and)) "]),
    ("Domain", "(define (domain d) (:types ", ") (:action a :parameters ()))", &["a ", "a - t ", "a - (either s t) "]),
    ("Domain", "(define (domain d) (:predicates ", ") (:action a :parameters ()))", &["(p) ", "(p ?x - t) "]),
    ("Domain", "(define (domain d) (:functions ", ") (:action a :parameters ()))", &["(f) ", "(f ?x) - number "]),
    ("Problem", "(define (problem p) (:domain d) (:objects ", ") (:init) (:goal (and)))", &["a ", "a - t "]),
    ("Problem", "(define (problem p) (:domain d) (:init ", ") (:goal (and)))", &["(p) ", "(= (f a) 1) ", "(at 1 (p)) "]),
    ("Problem", "(define (problem p) (:domain d) (:init) (:goal (and ", ")))", &["(p) ", "(preference n (p)) "]),
    ("Domain", "(define ", "(domain d) (:action a :parameters ()))", &["; c\n", " ", "\n", "\t", ";\n", "; (\n", ";;;;;;;; ", ";\r\n"]),
    ("Problem", "(define (problem p) ", "(:domain d) (:init) (:goal (and)))", &["; c\n", " ", "\n", ";\n"]),
    ("Problem", "", "(define (problem p) (:domain d) (:init) (:goal (and)))", &["; c\n", " ", "\n", ";\n"]),
    ("Problem", "(define (problem p) (:domain d) (:init) (:goal (and)))", "", &["; c\n", " ", "\n", ";\n"]),
    ("Name", "a", "", &["a", "-", "_", "1"]),
    ("Variable", "?a", "", &["a", "-", "1"]),
    ("Number", "1", "", &["1", "0", "9"]),
    ("Number", "0.", "", &["1", "0", "9"]),
    ("Requirement", ":", "", &["a", ":", "-"]),
];

/// The same for what opens or closes an element and so is no list.
const CHAINS: &[(&str, &str, &str, &[&str])] = &[
    ("FExp", "", "", &["(", "(+ ", "(- ", "(f ", ")"]),
    ("GoalDefinition", "", "", &["(", "(and ", "(not ", "(or ", "(p ", "(= ", ")"]),
    ("PreconditionGoalDefinitions", "", "", &["(", "(preference n ", "(forall (", "((", "and "]),
    ("Effects", "", "", &["(", "(forall (", "(when ", "(when (p) ", "((", "(not "]),
    ("ConGD", "", "", &["(", "(always ", "((", "(within ", "(hold-during 1 ", "(preference "]),
    ("Term", "", "", &["(", "((", "(f ", "?"]),
];

/// How the work and the memory may grow from one size to the next.
struct Growth {
    label: &'static str,
    /// Twice the size may take so many times the work.
    factor: u64,
    /// The largest text, and the work at which to stop.
    longest: usize,
    most: u64,
}
/// Parsing is at most cubic in the size.
const CUBIC: Growth = Growth { label: "nest", factor: 9, longest: 60_000, most: 6_000_000 };
const CHAIN: Growth = Growth { label: "chain", ..CUBIC };
/// Lists take work in proportion to their length.
const LINEAR: Growth = Growth { label: "list", factor: 3, longest: 100_000, most: 30_000_000 };

/// Compares the work at growing sizes.
fn grow(entry_name: &str, base: usize, text: impl Fn(usize) -> String, s: &mut Stats, g: &Growth) -> Res {
    let e = entry(entry_name);
    let mut n = base;
    let mut last: Option<(u64, u64)> = None;
    let mut sizes = 0;
    loop {
        let t = text(n);
        if t.len() > g.longest {
            break;
        }
        s.input = format!("{entry_name} at size {n}: {}", cut(&t, 2000));
        let limit = last.map_or(crate::text::limit(&t), |w| g.factor * w.0 + SLACK * 5);
        let bytes = crate::work::allocated();
        let (_, w) = limited(limit, &s.input, || e.run(&t).is_ok());
        let bytes = crate::work::allocated() - bytes;
        if let Some((l, b)) = last {
            if w > l + SLACK {
                s.max(factor(g.label), (w * 100 / l.max(1)) as f64);
            }
            if bytes > b + SLACK {
                s.max(memory(g.label), (bytes * 100 / b.max(1)) as f64);
            }
            if bytes > g.factor * b + SLACK * 5 {
                return Err(format!("allocates {bytes} bytes, but {b} bytes at half the size"));
            }
        }
        s.max("most work", w as f64);
        last = Some((w, bytes));
        sizes += 1;
        if w > g.most {
            break;
        }
        n *= 2;
    }
    s.class(match sizes {
        1 | 2 => "up to 2 sizes",
        3..=5 => "3-5 sizes",
        _ => "6 sizes or more",
    });
    Ok(())
}
fn factor(label: &str) -> &'static str {
    match label {
        "nest" => "largest factor of work for twice the size when nested, in hundredths",
        "chain" => "largest such factor when left open",
        _ => "largest such factor in lists",
    }
}
fn memory(label: &str) -> &'static str {
    match label {
        "nest" => "largest factor of memory when nested",
        "chain" => "largest factor of memory when left open",
        _ => "largest factor of memory in lists",
    }
}
/// Work, or bytes, that are not considered growth at all.
const SLACK: u64 = 20_000;

pub fn nested(c: &mut Ch, s: &mut Stats) -> Res {
    // A walk through the constructs; its last part that returns to where it was is repeated.
    let start = PLACES[c.pick(PLACES.len())].0;
    let mut at = start;
    let mut seen = vec![at];
    let mut steps: Vec<(&str, &str)> = vec![];
    let len = 1 + c.pick(4);
    let mut best: Option<(usize, usize)> = None;
    for k in 0..len + 3 {
        let out: Vec<_> = NEST.iter().filter(|n| n.0 == at).collect();
        let n = out[c.pick(out.len())];
        steps.push((n.1, n.2));
        at = n.3;
        seen.push(at);
        if let Some(i) = seen[..=k].iter().position(|x| *x == at) {
            best = Some((i, k + 1));
            if k + 1 >= len {
                break;
            }
        }
    }
    let Some((i, j)) = best else { return Ok(()) };
    let kind = seen[j];
    let leaf = LEAF.iter().find(|l| l.0 == kind).unwrap();
    let bad = c.pick(2) == 1;
    let leafs = if bad { leaf.2 } else { leaf.1 };
    let leaf = leafs[c.pick(leafs.len())];
    let place = PLACES.iter().find(|p| p.0 == start).unwrap().1;
    let (en, before, after) = place[c.pick(place.len())];
    // What follows the nested thing, or is missing after it.
    let cut_off = c.pick(6) == 5;
    let gap = if c.pick(5) == 4 { " ; c\n " } else { "" };
    s.case((&steps[..j], i, leaf, en, before, cut_off, gap), true);
    s.class(format!("{} {}", seen[i], if bad { "invalid" } else { "valid" }));
    s.class(format!("in {en}"));
    let text = |n: usize| {
        let mut l = String::from(before);
        let mut r = vec![];
        for st in &steps[..i] {
            l.push_str(st.0);
            r.push(st.1);
        }
        for _ in 0..n {
            for st in &steps[i..j] {
                l.push_str(st.0);
                l.push_str(gap);
                r.push(st.1);
            }
        }
        l.push_str(leaf);
        if !cut_off {
            for x in r.iter().rev() {
                l.push_str(x);
            }
            l.push_str(after);
        }
        l
    };
    s.sample(|| format!("{en}: {}", text(2)));
    grow(en, 4, text, s, &CUBIC)
}
pub fn wide(c: &mut Ch, s: &mut Stats) -> Res {
    repeated(c, s, WIDE, &LINEAR)
}
pub fn open(c: &mut Ch, s: &mut Stats) -> Res {
    repeated(c, s, CHAINS, &CHAIN)
}
fn repeated(c: &mut Ch, s: &mut Stats, of: &[(&str, &str, &str, &[&str])], g: &Growth) -> Res {
    let (en, before, after, items) = of[c.pick(of.len())];
    let k = 1 + c.pick(3);
    let list: Vec<&str> = (0..k).map(|_| items[c.pick(items.len())]).collect();
    let end = ["", "", "", "(", ")", "?", " - ", "x", "(p", "1", ";"][c.pick(11)];
    let cut_off = c.pick(6) == 5;
    s.case((en, before, &list, end, cut_off), true);
    s.class(format!("list in {en}"));
    let text = |n: usize| {
        let mut t = String::from(before);
        for i in 0..n {
            t.push_str(list[i % k]);
        }
        t.push_str(end);
        if !cut_off {
            t.push_str(after);
        }
        t
    };
    s.sample(|| format!("{en}: {}", text(3)));
    grow(en, 16, text, s, g)
}
/// A document of the grammar: the work per byte is bounded.
pub fn documents(c: &mut Ch, s: &mut Stats) -> Res {
    let st = style(c);
    let t = any_doc(c);
    let e = doc_entry(&t);
    let toks = pcore::print::tokens_styled(&t, &mut Ch::new(&st[0]));
    let text = pcore::print::lay(&toks, &mut Ch::new(&st[1]), true);
    s.input.clone_from(&text);
    s.case(&text, text.len() > 50);
    s.class(e.name);
    // Each byte is looked at by the alternatives tried at each level above it.
    let d = t.depth() as u64;
    let n = text.len() as u64;
    let bound = 40_000 + n * (400 + 60 * d);
    let (_, w) = limited(bound * 4, &text, || e.run(&text).is_ok());
    s.max("most work per byte in hundredths", (w * 100 / n) as f64);
    s.max("most work for a share of the bound in hundredths", (w * 100 / bound) as f64);
    s.max("longest document", n as f64);
    s.sample(|| cut(&text, 300));
    Ok(())
}
