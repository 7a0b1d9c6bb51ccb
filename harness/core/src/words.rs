//! The keyword vocabularies of the crate behind one interface, with the spellings that the PDDL
//! definition gives them.
use pddl::*;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};

pub struct Vocab {
    pub name: &'static str,
    /// Every value's name in the crate, and its spelling.
    pub words: &'static [(&'static str, &'static str)],
    /// Texts read as another value's spelling.
    pub aliases: &'static [(&'static str, &'static str)],
    /// The value's name that a text converts to, or the error.
    pub read: fn(&str) -> Result<String, String>,
    /// The spelling of the value that a text converts to, written in every available way.
    pub spell: fn(&str) -> Option<Vec<String>>,
    /// Whether the values of two texts are equal, by every comparison, which must agree.
    pub equal: fn(&str, &str) -> Option<Vec<bool>>,
    /// Comparisons of the value of the first text with the second text.
    pub is_text: fn(&str, &str) -> Option<Vec<bool>>,
    /// The parser entry points for this vocabulary's words.
    pub entry: Option<&'static str>,
}

fn basic<T>(s: &str) -> Result<String, String>
where
    T: for<'a> TryFrom<&'a str> + Debug,
    for<'a> <T as TryFrom<&'a str>>::Error: Display + Debug,
{
    match T::try_from(s) {
        Ok(v) => Ok(format!("{v:?}")),
        Err(e) => Err(format!("{e} {e:?}")),
    }
}
fn shown<T: for<'a> TryFrom<&'a str> + Display>(s: &str) -> Option<Vec<String>> {
    let v = T::try_from(s).ok()?;
    Some(vec![v.to_string(), format!("{v:}")])
}
fn shown_str<T>(s: &str) -> Option<Vec<String>>
where
    T: for<'a> TryFrom<&'a str> + Display + AsRef<str> + std::borrow::Borrow<str>,
{
    let v = T::try_from(s).ok()?;
    let b: &str = v.borrow();
    Some(vec![v.to_string(), v.as_ref().to_string(), b.to_string()])
}
fn eq<T: for<'a> TryFrom<&'a str> + PartialEq + Clone>(a: &str, b: &str) -> Option<Vec<bool>> {
    let x = T::try_from(a).ok()?;
    let y = T::try_from(b).ok()?;
    #[allow(clippy::nonminimal_bool)]
    Some(vec![x == y, y == x, !(x != y), x.clone() == y.clone()])
}

macro_rules! str_eq {
    ($t:ident) => {
        |a, b| {
            let x = $t::try_from(a).ok()?;
            let s = b.to_string();
            let r: &$t = &x;
            Some(vec![x == b, x == s, *r == b, !(x != b), !(x != s)])
        }
    };
}
macro_rules! more_eq {
    ($t:ident) => {
        |a, b| {
            let mut v = eq::<$t>(a, b)?;
            let x = $t::try_from(a).ok()?;
            let y = $t::try_from(b).ok()?;
            v.push(&x == y);
            v.push(x == &y);
            v.push(x.as_str() == y.as_str());
            Some(v)
        }
    };
}

pub fn hash_of<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

pub fn vocabularies() -> Vec<Vocab> {
    vec![
        Vocab {
            name: "requirement",
            words: &[
                ("Strips", ":strips"),
                ("Typing", ":typing"),
                ("NegativePreconditions", ":negative-preconditions"),
                ("DisjunctivePreconditions", ":disjunctive-preconditions"),
                ("Equality", ":equality"),
                ("ExistentialPreconditions", ":existential-preconditions"),
                ("UniversalPreconditions", ":universal-preconditions"),
                ("QuantifiedPreconditions", ":quantified-preconditions"),
                ("ConditionalEffects", ":conditional-effects"),
                ("Fluents", ":fluents"),
                ("NumericFluents", ":numeric-fluents"),
                ("ObjectFluents", ":object-fluents"),
                ("Adl", ":adl"),
                ("DurativeActions", ":durative-actions"),
                ("DurationInequalities", ":duration-inequalities"),
                ("ContinuousEffects", ":continuous-effects"),
                ("DerivedPredicates", ":derived-predicates"),
                ("TimedInitialLiterals", ":timed-initial-literals"),
                ("Preferences", ":preferences"),
                ("Constraints", ":constraints"),
                ("ActionCosts", ":action-costs"),
            ],
            aliases: &[],
            read: basic::<Requirement>,
            spell: shown_str::<Requirement>,
            equal: |a, b| {
                let mut v = (more_eq!(Requirement) as fn(&str, &str) -> Option<Vec<bool>>)(a, b)?;
                let x = Requirement::try_from(a).ok()?;
                let y = Requirement::try_from(b).ok()?;
                v.push(x == y && hash_of(&x) == hash_of(&y));
                v.push(x.cmp(&y).is_eq());
                v.push(y.partial_cmp(&x) == Some(std::cmp::Ordering::Equal));
                Some(v)
            },
            is_text: str_eq!(Requirement),
            entry: Some("Requirement"),
        },
        Vocab {
            name: "assignment operator",
            words: &[
                ("Assign", "assign"),
                ("ScaleUp", "scale-up"),
                ("ScaleDown", "scale-down"),
                ("Increase", "increase"),
                ("Decrease", "decrease"),
            ],
            aliases: &[("change", "assign")],
            read: basic::<AssignOp>,
            spell: shown_str::<AssignOp>,
            equal: more_eq!(AssignOp),
            is_text: str_eq!(AssignOp),
            entry: Some("AssignOp"),
        },
        Vocab {
            name: "continuous assignment operator",
            words: &[("Increase", "increase"), ("Decrease", "decrease")],
            aliases: &[],
            read: basic::<AssignOpT>,
            spell: shown::<AssignOpT>,
            equal: eq::<AssignOpT>,
            is_text: |_, _| None,
            entry: Some("AssignOpT"),
        },
        Vocab {
            name: "comparison",
            words: &[
                ("GreaterThan", ">"),
                ("LessThan", "<"),
                ("Equal", "="),
                ("GreaterOrEqual", ">="),
                ("LessThanOrEqual", "<="),
            ],
            aliases: &[],
            read: basic::<BinaryComp>,
            spell: shown::<BinaryComp>,
            equal: eq::<BinaryComp>,
            is_text: |_, _| None,
            entry: Some("BinaryComp"),
        },
        Vocab {
            name: "binary operator",
            words: &[("Multiplication", "*"), ("Addition", "+"), ("Subtraction", "-"), ("Division", "/")],
            aliases: &[],
            read: basic::<BinaryOp>,
            spell: shown::<BinaryOp>,
            equal: eq::<BinaryOp>,
            is_text: |_, _| None,
            entry: Some("BinaryOp"),
        },
        Vocab {
            name: "multiple operator",
            words: &[("Multiplication", "*"), ("Addition", "+")],
            aliases: &[],
            read: basic::<MultiOp>,
            spell: shown::<MultiOp>,
            equal: eq::<MultiOp>,
            is_text: |_, _| None,
            entry: Some("MultiOp"),
        },
        Vocab {
            name: "duration operator",
            words: &[("Equal", "="), ("GreaterOrEqual", ">="), ("LessThanOrEqual", "<=")],
            aliases: &[],
            read: basic::<DOp>,
            spell: shown::<DOp>,
            equal: eq::<DOp>,
            is_text: |_, _| None,
            entry: Some("DOp"),
        },
        Vocab {
            name: "time specifier",
            words: &[("Start", "start"), ("End", "end")],
            aliases: &[],
            read: basic::<TimeSpecifier>,
            spell: shown::<TimeSpecifier>,
            equal: eq::<TimeSpecifier>,
            is_text: |_, _| None,
            entry: Some("TimeSpecifier"),
        },
        Vocab {
            name: "interval",
            words: &[("All", "all")],
            aliases: &[],
            read: basic::<Interval>,
            spell: shown::<Interval>,
            equal: eq::<Interval>,
            is_text: |_, _| None,
            entry: Some("Interval"),
        },
        Vocab {
            name: "optimization",
            words: &[("Minimize", "minimize"), ("Maximize", "maximize")],
            aliases: &[],
            read: basic::<Optimization>,
            spell: shown::<Optimization>,
            equal: eq::<Optimization>,
            is_text: |_, _| None,
            entry: Some("Optimization"),
        },
    ]
}

/// What the shorthand flags stand for; the others stand for themselves.
pub fn stands_for(flag: &'static str) -> Vec<&'static str> {
    match flag {
        ":quantified-preconditions" => vec![":existential-preconditions", ":universal-preconditions"],
        ":fluents" => vec![":numeric-fluents", ":object-fluents"],
        ":adl" => vec![
            ":strips",
            ":typing",
            ":negative-preconditions",
            ":disjunctive-preconditions",
            ":equality",
            ":existential-preconditions",
            ":universal-preconditions",
            ":conditional-effects",
        ],
        f => vec![f],
    }
}
