//! The properties and their families of cases.
use crate::cost;
use crate::docs::*;
use crate::features;
use crate::run::*;
use crate::text;
use crate::values;
use pcore::choice::Ch;

const TREES: &str = "A case is a syntax tree drawn from the grammar (names that are or begin with keywords, numerals of all magnitudes, every optional part present or absent, lists of up to 48 elements, nesting up to about 40; in the family `stretched` one list is repeated up to 65 600 elements, one name made up to 65 600 characters long, or one formula nested up to 1 100 levels), printed in one of its equivalent notations and layouts and parsed; the value read back through its accessors must be that tree and nothing may be left unread. Non-trivial: the tree has at least 5 nodes. Distinct: different entry point or text.";

fn domain(c: &mut Ch, s: &mut Stats) -> Res {
    trip_doc("Domain", c, s)
}
fn problem(c: &mut Ch, s: &mut Stats) -> Res {
    trip_doc("Problem", c, s)
}
fn focused_domain(c: &mut Ch, s: &mut Stats) -> Res {
    let f = ["goals", "effects", "durative", "declarations", "constraints"][c.pick(5)];
    trip_focused(f, c, s)
}
fn any_focus(c: &mut Ch, s: &mut Stats) -> Res {
    // Every subset of the optional parts of a problem.
    let f = FOCI[c.pick(FOCI.len())];
    trip_focused(f, c, s)
}

fn long_domain(c: &mut Ch, s: &mut Stats) -> Res {
    stretched_doc("Domain", c, s)
}
fn long_problem(c: &mut Ch, s: &mut Stats) -> Res {
    stretched_doc("Problem", c, s)
}

macro_rules! parts {
    ($id:literal, $focus:literal, $names:expr) => {{
        fn part(c: &mut Ch, s: &mut Stats) -> Res {
            trip_of($names, c, s)
        }
        fn doc(c: &mut Ch, s: &mut Stats) -> Res {
            trip_focused($focus, c, s)
        }
        fn long(c: &mut Ch, s: &mut Stats) -> Res {
            if c.pick(3) == 2 {
                stretched_doc($focus, c, s)
            } else {
                stretched_of($names, c, s)
            }
        }
        Prop {
            id: $id,
            rule: TREES,
            assumptions: vec![
                "keywords are written in lower case (the crate does not claim case-insensitivity)",
                "the tree compared is read through the public accessors and variants",
            ],
            families: vec![
                fam("parts", 60_000, 1_500_000, 500, part),
                fam("documents", 30_000, 800_000, 500, doc),
                fam("stretched", 4_000, 80_000, 120, long),
            ],
        }
    }};
}

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: TREES,
            assumptions: vec![],
            families: vec![
                fam("domains", 40_000, 1_000_000, 900, domain),
                fam("focused", 20_000, 500_000, 400, focused_domain),
                fam("stretched", 4_000, 80_000, 600, long_domain),
            ],
        },
        Prop {
            id: "C02",
            rule: TREES,
            assumptions: vec![],
            families: vec![
                fam("problems", 50_000, 1_200_000, 700, problem),
                fam("focused", 20_000, 500_000, 400, any_focus),
                fam("stretched", 4_000, 80_000, 600, long_problem),
            ],
        },
        parts!("C03", "goals", &["GoalDefinition", "PreconditionGoalDefinitions", "GoalDef", "DerivedPredicate",
            "PreferenceGD", "FComp", "atomic_formula(term)", "literal(term)", "Term", "FunctionTerm", "empty_or(gd)"]),
        parts!("C04", "effects", &["Effects", "CEffect", "ConditionalEffect", "PEffect", "ForallCEffect",
            "WhenCEffect", "ActionDefinition", "empty_or(effect)", "AssignOp"]),
        parts!("C05", "durative", &["DurativeActionDefinition", "DurativeActionEffect", "DurativeActionGoalDefinition",
            "TimedEffect", "TimedGD", "PrefTimedGD", "DurationConstraint", "SimpleDurationConstraint",
            "DurationValue", "FAssignDa", "FExpT", "FExpDa", "empty_or(da_gd)"]),
        parts!("C06", "numeric", &["FExp", "FExpDa", "MetricFExp", "FComp", "MetricSpec", "LengthSpec", "FExpT",
            "FHead", "FAssignDa", "DurationValue", "BinaryOp", "MultiOp", "BinaryComp", "Number"]),
        parts!("C07", "constraints", &["ConGD", "Con2GD", "PrefConGDs", "DomainConstraintsDef",
            "ProblemConstraintsDef"]),
        parts!("C08", "declarations", &["typed_list(name)", "typed_list(variable)",
            "function_typed_list(skeleton)", "Types", "Constants", "Objects", "PredicateDefinitions",
            "Functions", "AtomicFormulaSkeleton", "AtomicFunctionSkeleton", "Type", "FunctionType",
            "PrimitiveType"]),
        parts!("C09", "init", &["InitElements", "InitElement", "BasicFunctionTerm", "literal(name)",
            "atomic_formula(name)"]),
        Prop {
            id: "C10",
            rule: "A case is a document of the grammar written in two layouts: plainly, and with whitespace, line breaks and comments placed anywhere between its tokens (none where none is needed). Both must be read as the document's tree and the two values must be equal. Non-trivial: the layouts differ and there are more than 8 tokens. Distinct: different pair of texts.",
            assumptions: vec!["whitespace is space, tab, line feed and carriage return; a comment ends at a line feed or a carriage return"],
            families: vec![fam("layouts", 60_000, 1_500_000, 600, layout), fam("long gaps", 3_000, 60_000, 200, long_layout)],
        },
        Prop {
            id: "C11",
            rule: "A case is a text given to every one of the parser entry points, each under a limit on the instrumented branches taken (400 million plus a hundred per squared and four per cubed byte): random characters, token soup, documents and parts of documents of the grammar with characters deleted, inserted, repeated or cut off, numerals of up to thousands of digits in every numeric position, nesting up to thousands of levels, and long tokens and lists. A panic (overflow checks and debug assertions are on) or an exceeded limit is a failure. Non-trivial: longer than 3 bytes. Distinct: different text.",
            assumptions: vec!["nesting is kept below what a 1 GiB stack holds", "the limit on the work is several times the most work seen on the unchanged tree"],
            families: vec![
                fam("texts", 24_000, 500_000, 400, text::robust),
                fam("numerals", 4_000, 100_000, 12, text::numerals),
                fam("nesting", 1_000, 10_000, 8, text::deep),
                fam("length", 1_000, 20_000, 8, text::long),
            ],
        },
        Prop {
            id: "C12",
            rule: "A case is a token sequence: a document of the grammar with up to three edits (tokens deleted, repeated, swapped, replaced, inserted or misspelled; elements deleted, repeated, moved, exchanged, wrapped or unwrapped), or sections in an unusual order or number. If it is accepted, an independent definition of the grammar must confirm that the consumed tokens are a document and that the returned value is one of its readings; unedited documents must be accepted. Non-trivial: edited and more than 8 tokens. Distinct: different text.",
            assumptions: vec!["tokens are separated by whitespace except at parentheses, so that no two are run together", "where the grammar gives a text several readings, each is allowed here"],
            families: vec![
                fam("edits", 300_000, 3_000_000, 260, text::language),
                fam("sections", 40_000, 600_000, 60, text::soup),
            ],
        },
        Prop {
            id: "C13",
            rule: "A case is an entry point and a text (an element of its language in any layout, or an arbitrary text, followed by a tail), also placed behind other text in a larger span. parse, parse_span, from_str, the free function and the comparison helper must agree on value, error and rest; the rest must be the unread suffix with its true offset, line and column; the consumed prefix alone must give the same value; a tail must not be touched. Or several documents in one text, parsed one after the other. Non-trivial: the text is longer than 3 bytes. Distinct: different entry point, text or position.",
            assumptions: vec!["lines are counted by line feeds, columns in bytes"],
            families: vec![
                fam("agreement", 120_000, 2_500_000, 160, text::agree),
                fam("comparison", 20_000, 300_000, 80, text::helper),
                fam("consecutive", 10_000, 200_000, 500, text::consecutive),
            ],
        },
        Prop {
            id: "C14",
            rule: "A case is a pair of words of one vocabulary (all of them), or a text: a spelling with characters added, removed, exchanged or changed in case, a word of another vocabulary, or an arbitrary text, which is converted to every vocabulary's type, compared and parsed. Non-trivial: not the empty text. Distinct: different pair or text.",
            assumptions: vec!["the spellings are those of the PDDL 3.1 definition and the crate's documentation"],
            families: vec![
                all_of("words", values::word_count(), values::words),
                all_of("operators", 4, values::op_pairs),
                fam("texts", 300_000, 10_000_000, 16, values::word_texts),
            ],
        },
        Prop {
            id: "C15",
            rule: "A case is a pair of flags (all of them) or a list of up to 48 flags with repetitions in any order, made by every constructor and declared in a domain and a problem. Non-trivial: not the empty list. Distinct: different pair or list.",
            assumptions: vec!["a flag contains another exactly when it stands for everything the other stands for"],
            families: vec![
                all_of("pairs", values::flag_count(), values::contains),
                fam("lists", 150_000, 4_000_000, 60, values::flag_lists),
            ],
        },
        Prop {
            id: "C16",
            rule: "A case is a text (numerals up to thousands of digits, at and next to the midpoints of neighbouring floats and around the largest float, and texts that are not numerals), or a float, double and integers of any bit pattern, or a list of up to 14 numbers with neighbours, negatives and equals, compared pairwise, sorted and put into sets. Non-trivial: more than one character. Distinct: different text, floats or list.",
            assumptions: vec!["the standard library's conversion of texts and doubles to the nearest single is correct"],
            families: vec![
                fam("texts", 200_000, 6_000_000, 40, values::number_texts),
                fam("floats", 200_000, 6_000_000, 8, values::number_floats),
                fam("order", 100_000, 3_000_000, 60, values::number_order),
            ],
        },
        Prop {
            id: "C17",
            rule: "A case is a history of making names (by every constructor of names and symbols, from texts that are equal, prefixes of one another, well-known, empty, long, not ASCII), copying and dropping them, in one thread or in up to four at the same time, or of thousands of names; every name is compared with its text and with every other name of the history. Non-trivial: more than two names. Distinct: different history.",
            assumptions: vec![],
            families: vec![
                fam("histories", 60_000, 1_500_000, 240, values::names),
                fam("threads", 2_000, 60_000, 8, values::name_threads),
                fam("many", 300, 6_000, 4, values::many_names),
            ],
        },
        Prop {
            id: "C18",
            rule: "A case is a value of one of 68 public types, described by a tree, built in three ways chosen among all constructors, builders and conversions and read back, copied, and compared with values that differ in one part; or parsed and compared with the one built from the same parts. Non-trivial: the tree has more than two nodes. Distinct: different type and tree, or text.",
            assumptions: vec!["a domain's timeless facts have no accessor and are compared by equality only"],
            families: vec![
                fam("built", 120_000, 3_000_000, 400, values::made_values),
                fam("parsed", 50_000, 1_500_000, 400, values::parsed_values),
                fam("stretched", 6_000, 120_000, 200, values::made_long),
                fam("stretched and parsed", 3_000, 60_000, 200, values::parsed_long),
            ],
        },
        Prop {
            id: "C19",
            rule: "A case is a family of texts: constructs nested in one another along a random cycle of the grammar (all recursive constructs), with a valid or an invalid innermost part, complete or cut off, or left open; or a list of repeated elements; each in one of the entry points or documents in which it may stand, at sizes doubling until the text is 60 kB long or the work exceeds 6 million branches (lists: 100 kB and 30 million); twice the size must not take more than nine times the work, nor allocate nine times the memory, and for lists no more than three times. Or a document of the grammar, whose work must stay below a bound linear in its length times its depth. Work is the number of instrumented branches taken in the crate and its dependencies. Non-trivial: all families, and documents longer than 50 bytes. Distinct: different family or document.",
            assumptions: vec!["constant factors are not judged"],
            families: vec![
                fam("nested", 2_500, 150_000, 24, cost::nested),
                fam("lists", 1_000, 30_000, 10, cost::wide),
                fam("left open", 400, 8_000, 10, cost::open),
                fam("documents", 20_000, 500_000, 900, cost::documents),
            ],
        },
        Prop {
            id: "C20",
            rule: "A case is given to four processes, built with neither, one and both of the features parser and interning; each answers with everything observed: a value of one of 68 public types built by its constructors (tree, description, equality, views, a changed one), a set of names (texts, equalities, hashes, lengths, symbols), numbers, words converted to all vocabularies with their errors, requirement lists, or a text given to the parser entry points (where there is a parser) with all values and errors. The answers must be the same. That the four builds succeed is part of the check. Non-trivial: more than 20 bytes observed. Distinct: different observations.",
            assumptions: vec![],
            families: vec![fam("features", 90_000, 1_500_000, 400, features::features).unguided()],
        },
        Prop {
            id: "C21",
            rule: "A case is a history of parsing two to eight texts (documents, parts, tampered ones and garbage) by chosen entry points, repeatedly, in different orders and in up to two other threads at the same time, while seven other cases run in this process; or of up to thirteen documents whose values are kept and compared again after each further one; or of up to 70,000 times parsing a few short texts in turn. Results are compared by equality, description and tree. Non-trivial: a text longer than 3 bytes. Distinct: different history.",
            assumptions: vec!["interleavings are those the operating system produces"],
            families: vec![
                fam("repeated", 15_000, 400_000, 400, values::repeated),
                fam("documents", 8_000, 200_000, 900, values::long_history),
                fam("many times", 600, 15_000, 200, values::many_times),
            ],
        },
        Prop {
            id: "C22",
            rule: "A case is a value of one of 68 public types, of any length and nesting, built in one of the possible ways, whose views (lengths, emptiness, slices, indexing, borrowed and owned iteration with size hints, single-element access, conversions) are compared with each other and with its tree; or a mostly hollow value (conjunctions with their elements removed at any depth) whose emptiness is compared with what it contains. Non-trivial: the tree has more than two nodes. Distinct: different type and tree.",
            assumptions: vec![],
            families: vec![
                fam("views", 120_000, 3_000_000, 400, values::viewed),
                fam("stretched", 8_000, 150_000, 200, values::viewed_long),
                fam("hollow", 60_000, 1_500_000, 120, values::hollow),
            ],
        },
    ]
}
