import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe,state=None):
    a={"files":["src/"+f for f in files],"mechanism":[{"name":n,"where":"src/"+w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=state
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","A domain document is read back exactly as written",
"Parsing any well-formed PDDL 3.1 domain document succeeds, consumes the whole document, and yields a domain value whose name, extended domains, requirements, types, constants, predicates, functions, constraints, actions, durative actions and derived predicates are exactly those written, in the written order. No section, element, parameter, type, condition or effect is dropped, duplicated, reordered, merged or attributed to another element, whichever optional sections are present and however many elements they have.",
["inputs"],"every domain document of the supported grammar: any subset of the optional sections, any number and nesting of elements, any legal names and numbers",
"The suite parses one hand-written domain (briefcase world) and a few fragments; interactions of optional sections, element counts, names and nesting are unbounded.",
["parsers/domain.rs","parsers/structure_def.rs","parsers/action_def.rs","parsers/utilities.rs","types/domain.rs","types/action_definition.rs","types/structure_defs.rs"],
[("ordered optional sections combined into the domain builder","parsers/domain.rs"),("structure alternatives","parsers/structure_def.rs"),("domain builder and accessors","types/domain.rs")],
["Domain::parse / Domain::from_str and the accessors of the returned domain"])

p("C02","A problem document is read back exactly as written",
"Parsing any well-formed PDDL 3.1 problem document succeeds, consumes the whole document, and yields a problem value whose name, domain name, requirements, objects, initial state, goals, constraints, metric and length specification are exactly those written, in the written order. An omitted optional section reads back as empty or absent and never disturbs the sections around it.",
["inputs"],"every problem document of the supported grammar: any subset of optional sections, any number and nesting of elements, any legal names and numbers",
"The suite parses one small problem without constraints, metric or length; combinations of sections and contents are unbounded.",
["parsers/problem.rs","parsers/init_def.rs","parsers/goal_def.rs","parsers/problem_constraints_def.rs","parsers/metric_spec.rs","parsers/length_spec.rs","types/problem.rs"],
[("ordered sections combined into the problem value","parsers/problem.rs"),("problem accessors","types/problem.rs")],
["Problem::parse / Problem::from_str and the accessors of the returned problem"])

p("C03","Goal and precondition formulas keep their logical structure",
"Every goal or precondition formula built from atoms, equality, numeric comparisons, negation, conjunction, disjunction, implication, quantifiers and (named or unnamed) preferences parses to a tree with the same connectives, operand order, quantified variables with their types, preference names and terms as written. A conjunction of preconditions reads as the list of its conjuncts in order (nested conjunctions flattened, an empty one as no condition), and a name that merely begins with a keyword is an ordinary name.",
["inputs"],"every formula of the goal / precondition grammar, at any nesting and width, standing alone or inside an action precondition, derived predicate or problem goal",
"Unit tests check about a dozen fixed formulas, each one level deep; the grammar is recursive and its alternatives overlap, so order-of-alternative errors show only on particular shapes.",
["parsers/gd.rs","parsers/pre_gd.rs","parsers/pref_gd.rs","parsers/atomic_formula.rs","parsers/literal.rs","parsers/term.rs","parsers/function_term.rs","parsers/f_comp.rs","parsers/derived_predicate.rs","types/gd.rs","types/pre_gd.rs"],
[("ordered alternatives for formulas","parsers/gd.rs"),("flattening of conjunctions of preconditions","parsers/pre_gd.rs"),("preference forms","parsers/pref_gd.rs")],
["goal, precondition, preference and derived-predicate parsers"])

p("C04","Action effects keep their meaning",
"Every action effect built from additions, deletions, numeric assignments, object-fluent assignments (including to undefined), universal effects and conditional effects parses to the same list of effects in the same order, with the same conditions, quantified variables, operators, targets and values. Additions never turn into deletions or the reverse, an absent or empty effect is distinguishable from an empty conjunction, and a single effect means the same as a one-element conjunction of it.",
["inputs"],"every effect expression of the grammar, any nesting of forall/when, any list length",
"Tests cover one instance per effect kind; the kinds share prefixes (not, assign, forall, when, predicate names) and are told apart by the order of alternatives.",
["parsers/effects.rs","parsers/c_effect.rs","parsers/cond_effect.rs","parsers/p_effect.rs","parsers/action_def.rs","parsers/empty_or.rs","parsers/assign_op.rs","types/effects.rs","types/c_effect.rs","types/conditional_effect.rs","types/p_effect.rs"],
[("effect alternatives","parsers/p_effect.rs"),("conditional and universal effects","parsers/c_effect.rs"),("empty-or-present effect","parsers/empty_or.rs")],
["effect parsers and the action's effect accessor"])

p("C05","Durative actions keep their timing, conditions and effects",
"Every durative action parses to a value whose name, parameters, duration constraints, timed conditions (at start, at end, over all, preferences, conjunctions, quantifiers) and timed effects (at start, at end, continuous, conditional, quantified, duration-dependent) are exactly those written and in the written order. An empty duration, condition or effect reads as absent.",
["inputs"],"every durative action of the grammar, any nesting of and/forall/when/preference and any duration constraint form",
"Tests parse two fixed durative actions; start/end/over-all, duration operators and the overlapping effect alternatives multiply beyond what examples reach.",
["parsers/da_def.rs","parsers/da_gd.rs","parsers/da_effect.rs","parsers/timed_gd.rs","parsers/pref_timed_gd.rs","parsers/timed_effect.rs","parsers/duration_constraint.rs","parsers/simple_duration_constraint.rs","parsers/d_value.rs","parsers/d_op.rs","parsers/f_assign_da.rs","parsers/f_exp_t.rs","parsers/f_exp_da.rs","types/da_def.rs"],
[("durative action sections","parsers/da_def.rs"),("timed effect alternatives","parsers/timed_effect.rs"),("duration constraints","parsers/duration_constraint.rs")],
["durative action parser and accessors"])

p("C06","Numeric expressions, metrics and length limits keep their value",
"Every numeric expression, comparison, duration-dependent or time-scaled expression, metric and length specification parses to a tree with the same operators, operand order and arity, function names and arguments, and numerals; so evaluating the parsed tree under any assignment of values to functions gives the same result as evaluating the written expression. Unary minus, two-operand and many-operand forms stay distinct, and total time, preference-violation counts, minimise/maximise and serial/parallel limits are kept as written.",
["inputs"],"every numeric expression of the grammars for effects, conditions, durations and metrics, any nesting; every length specification with any 64-bit limits",
"Tests check a handful of one-level expressions; operand order, arity and nesting errors need particular shapes.",
["parsers/f_exp.rs","parsers/f_exp_da.rs","parsers/f_exp_t.rs","parsers/f_head.rs","parsers/f_comp.rs","parsers/binary_op.rs","parsers/multi_op.rs","parsers/binary_comp.rs","parsers/metric_f_exp.rs","parsers/metric_spec.rs","parsers/length_spec.rs","types/f_exp.rs","types/metric_f_exp.rs","types/length_spec.rs"],
[("numeric expression alternatives","parsers/f_exp.rs"),("metric expression alternatives","parsers/metric_f_exp.rs"),("length limits","parsers/length_spec.rs")],
["numeric, metric and length parsers"])

p("C07","Trajectory constraints and their preferences keep their structure",
"Every trajectory constraint (conjunction, quantification, at end, always, sometime, within, at-most-once, sometime-after, sometime-before, always-within, hold-during, hold-after) parses to the same modality with the same time bounds, goal operands in the written order and nesting; a modality nested inside another is read as a nested constraint, never as an ordinary predicate. Problem constraints read as the flat, ordered list of their conjuncts with each preference's name and each quantifier's variables kept.",
["inputs"],"every constraint of the domain- and problem-constraint grammars, any nesting of modalities, conjunctions, quantifiers and preferences",
"Tests exercise each modality once around a single atom; nesting of modalities and operand order are recursive and asymmetric.",
["parsers/con_gd.rs","parsers/pref_con_gd.rs","parsers/domain_constraints_def.rs","parsers/problem_constraints_def.rs","types/con_gd.rs","types/pref_con_gd.rs"],
[("modal alternatives","parsers/con_gd.rs"),("flattened preference constraints","parsers/pref_con_gd.rs")],
["constraint parsers"])

p("C08","Declarations keep names, types and order",
"In every list of types, constants, objects, parameters, predicates and functions, each declared name reads back once, in order, with exactly the type annotation that follows its group: the single named type, or all alternatives of an either type in order, or by default object (number for functions) when no annotation follows. A type whose name merely begins with or contains a built-in type's name is that type and no other, and each predicate or function keeps its own parameter list.",
["inputs"],"every typed list of any length and grouping, over names, variables and function skeletons, including untyped tails, either types and mixed groups",
"Tests check fixed lists of two to four entries; distributing types over groups of arbitrary size and position is a list-wide relation.",
["parsers/typed_list.rs","parsers/function_typed_list.rs","parsers/type.rs","parsers/primitive_type.rs","parsers/types_def.rs","parsers/constants_def.rs","parsers/objects_def.rs","parsers/predicates_def.rs","parsers/functions_def.rs","parsers/atomic_formula_skeleton.rs","parsers/atomic_function_skeleton.rs","types/typed_list.rs","types/typed.rs","types/type.rs","types/function_typed.rs"],
[("type groups distributed over entries","parsers/typed_list.rs"),("function return types","parsers/function_typed_list.rs"),("either types","parsers/type.rs")],
["declaration parsers and the typed values they return"])

p("C09","The initial state keeps every fact, value and time",
"Every element of a problem's initial state reads back in order as what it was written as: a positive or negative fact, a timed fact with its time, a numeric function value or an object function value, with the same function, arguments, numeral or object. Facts about a predicate called at are told apart from timed facts, and equalities between objects from function values.",
["inputs"],"every initial state of any length mixing all element kinds, with any names, arguments and numerals",
"Tests cover one example per kind; the kinds overlap on 'at' and '=' and are separated only by what follows.",
["parsers/init_def.rs","parsers/init_el.rs","parsers/basic_function_term.rs","parsers/literal.rs","parsers/atomic_formula.rs","parsers/number.rs","types/init_el.rs","types/init_els.rs","types/basic_function_term.rs"],
[("initial-state alternatives","parsers/init_el.rs")],
["initial state parser and the problem's init accessor"])

p("C10","Layout and comments never change what a document means",
"Two domain or problem documents that consist of the same sequence of tokens parse to equal values: spaces, tabs, line breaks of any convention and line comments, in any amount (comments may be empty and may contain any text), can stand between any two tokens, before the first and after the last one. None of them is needed before an opening or closing parenthesis or after an opening one.",
["inputs"],"every valid document and every placement of whitespace and comments between its tokens",
"Tests place comments at a few fixed spots; the number of gaps times layouts is unbounded and each parser handles its own gaps.",
["parsers/utilities.rs","parsers/comments.rs","parsers/empty_or.rs","parsers/duration_constraint.rs","parsers/atomic_formula.rs","parsers/function_term.rs"],
[("whitespace and comment skipping","parsers/utilities.rs"),("comment parser","parsers/comments.rs")],
["Domain and Problem parsing of re-laid-out documents"])

p("C11","Any text is either parsed or rejected with an error, never a crash",
"For every input text, of any length, content or encoding of characters, every parser entry point returns either a value with the unread rest or an error; it never panics, overflows, or fails to terminate. Nesting deep enough to exceed the call stack is the only resource limit.",
["inputs"],"all UTF-8 strings: arbitrary text, mutated and truncated documents, extreme numerals, long tokens, long lists, deep nesting; all parser entry points",
"Tests feed a few dozen well-formed strings; a panic hides in a numeral, an odd character or a truncation no example contains.",
["parsers/mod.rs","parsers/number.rs","parsers/name.rs","parsers/comments.rs","parsers/requirements.rs","parsers/length_spec.rs","parsers/assign_op.rs","types/number.rs"],
[("error results of the combinators","parsers/mod.rs"),("numeral conversion","parsers/number.rs"),("keyword conversions marked unreachable","parsers/requirements.rs")],
["every parse entry point under arbitrary text"])

p("C12","Only documents of the language are accepted, and as what they say",
"Whenever a domain or problem document is accepted, its token sequence belongs to the PDDL 3.1 grammar and the returned value is one of the readings the grammar gives it; text that misplaces, misspells, drops, repeats or adds a token, keyword, section or parenthesis so that no reading exists is rejected. In particular a section that contains an error makes the whole document fail instead of being skipped.",
["inputs"],"all token sequences near valid documents: token deletions, insertions, duplications, swaps, keyword and name substitutions, section reorderings",
"Tests contain almost no negative examples; wrong acceptance can only be seen by comparing against an independent definition of the language.",
["parsers/domain.rs","parsers/problem.rs","parsers/utilities.rs","parsers/gd.rs","parsers/action_def.rs","parsers/da_def.rs","parsers/typed_list.rs","parsers/con_gd.rs"],
[("mandatory and optional elements of each production","parsers/utilities.rs"),("section order","parsers/domain.rs")],
["accept/reject decision and value of Domain and Problem parsing"])

p("C13","All parser entry points agree and report the exact unread rest",
"For every input, parsing from text, from a located span, discarding the rest, and through the corresponding free function give the same value or the same error; the reported rest is exactly the unread suffix of the input, with the byte offset and line number at which it really starts, and parsing the consumed prefix alone gives the same value. Text following a complete element is left unread, so consecutive documents in one text can be parsed one after the other.",
["inputs","histories"],"all parsable types, all inputs including concatenated documents and trailing garbage, spans starting at any offset and line",
"Tests call entry points on isolated complete strings and mostly ignore the rest; agreement and offset arithmetic are relations over all inputs.",
["parsers/mod.rs","parsers/utilities.rs","parsers/domain.rs","parsers/problem.rs"],
[("default methods of the parser trait","parsers/mod.rs"),("located spans threaded through the combinators","parsers/utilities.rs")],
["parse, parse_span, from_str and the free parse functions"])

p("C14","Keyword vocabularies map one-to-one between text and value",
"For every requirement flag, assignment operator, comparison, arithmetic operator, duration operator, time specifier, interval and optimisation direction, converting the value to text gives its PDDL spelling, and converting or parsing that spelling gives the value back; distinct values have distinct spellings and compare unequal. Every other text is rejected by the conversion (the deprecated spelling change being read as assign), and comparing a value with text agrees with comparing spellings.",
["inputs"],"all values of the keyword types and all texts (exact spellings, prefixes, extensions, case variants, arbitrary)",
"Tests check a few spellings in one direction; rejection and bijectivity quantify over all texts.",
["types/requirement.rs","types/assign_op.rs","types/assign_op_t.rs","types/binary_comp.rs","types/binary_op.rs","types/multi_op.rs","types/d_op.rs","types/time_specifier.rs","types/interval.rs","types/optimization.rs","parsers/requirements.rs","parsers/assign_op.rs"],
[("spelling tables","types/requirement.rs"),("text conversions","types/assign_op.rs"),("operator conversions","types/binary_op.rs")],
["text conversions, display, comparison with text, keyword parsers"])

p("C15","Requirement flags imply exactly what PDDL says they imply",
"For every list of declared requirement flags, the effective set is exactly the union over the flags of the elementary flags each stands for (adl, quantified-preconditions and fluents being the shorthands; every other flag stands for itself), and plain STRIPS when nothing is declared, regardless of order and repetition. Asking whether one flag contains another agrees with the flags it stands for.",
["inputs"],"all lists of requirement flags of any length, order and multiplicity; all pairs of flags",
"Tests check three containment lists positively and never the negative side nor the effective set of combinations.",
["types/requirement.rs","types/requirements.rs","parsers/requirements.rs"],
[("expansion of shorthand flags","types/requirement.rs"),("effective set","types/requirements.rs")],
["effective requirement set, expansion, containment"])

p("C16","Numbers are finite, totally ordered and read exactly",
"Every number value is finite: constructing one from any text, literal or float either yields the closest representable value or is refused, with an error wherever an error can be returned. Equality, ordering and hashing of numbers are mutually consistent, agree with the mathematical order of the values (both zeros being equal), and are total.",
["inputs"],"all numerals of any length and precision, all 32/64-bit floats and integers, all pairs and triples of numbers",
"Tests compare a few small integers; consistency of equality, order and hash and correct rounding quantify over pairs and over all numerals.",
["types/number.rs","parsers/number.rs"],
[("finite-value check","types/number.rs"),("equality, order and hash","types/number.rs"),("numeral parser","parsers/number.rs")],
["number construction, comparison, hashing and parsing"])

p("C17","Names behave exactly like their text, however and whenever created",
"Two names are equal exactly when their texts are equal, and equal names hash equally, no matter which constructor made them, in which order or on which thread, and a name always reads back the text it was created from, with that text's length and emptiness. With interning enabled, equal texts created through the interning constructor share one stored copy, and interning never confuses, reorders or loses texts however many are created.",
["inputs","histories","schedules"],"all histories of creating, cloning, comparing and dropping names over arbitrary texts (prefixes of each other, well-known names, empty, non-ASCII), from one or several threads",
"Tests compare single names with literals; the interning table is process-global state whose correctness depends on the whole insertion history.",
["types/name.rs","types/variable.rs","types/predicate.rs","types/function_symbols.rs","types/action_symbols.rs","types/pref_name.rs"],
[("sorted global interning table behind a lock","types/name.rs"),("static well-known names","types/name.rs")],
["name construction, equality, hash, text, length, sharing"],
[{"name":"STRING_INTERNING","meaning":"process-global sorted table of interned strings","where":"src/types/name.rs"}])

p("C18","Constructing a value and reading it back loses nothing",
"Every value of the public types, built through any of its constructors, builders and conversions, reads back through its accessors, iterators and conversions exactly the parts it was given, in order. Two values are equal exactly when all their parts are equal, a copy equals its original, changing any one part (and only that) is visible in the result, and building a value from the parts of a parsed one gives an equal value.",
["inputs"],"all values of the public types, any nesting and size; all single-part changes of them",
"Tests build values only to compare with parser output of small examples; equality that ignores a part, or an accessor that returns a sibling's part, needs distinguishing values.",
["types/domain.rs","types/problem.rs","types/action_definition.rs","types/da_def.rs","types/gd.rs","types/effects.rs","types/c_effect.rs","types/con_gd.rs","types/pref_con_gd.rs","types/pre_gd.rs","types/iterators.rs","types/typed_list.rs","types/timeless.rs"],
[("builders and accessors","types/domain.rs"),("conversions","types/c_effect.rs"),("flattening iterator","types/iterators.rs")],
["constructors, builders, accessors, iterators, conversions, equality"])

p("C19","Parsing cost stays polynomial in the size of the document",
"The work to parse or reject a document grows at most polynomially, and no worse than about cubically, with its length, its list lengths and its nesting depth; no nesting of formulas, expressions, effects, constraints, preferences or comments makes it grow exponentially; in the number of elements of a list (objects, types, parameters, facts, conjuncts, operands, sections, comments) it grows in proportion, and so does the memory that is allocated.",
["inputs"],"families of documents growing in depth and width, valid and invalid at the innermost position, for every recursive construct",
"Tests use constant-size inputs, on which exponential backtracking is invisible.",
["parsers/f_exp.rs","parsers/f_exp_da.rs","parsers/metric_f_exp.rs","parsers/gd.rs","parsers/con_gd.rs","parsers/pref_con_gd.rs","parsers/pre_gd.rs","parsers/effects.rs","parsers/comments.rs"],
[("ordered alternatives with backtracking","parsers/f_exp.rs"),("overlapping nonterminals","parsers/con_gd.rs")],
["allocation and work counts while parsing growing families"])

p("C20","Crate features change cost, never behaviour",
"The documented feature combinations (parser and interning each on or off) all build, and every operation available in two of them gives the same observable result in both: the same parse results and errors, the same texts, equalities, orders, iteration and effective requirements. In particular the types are usable without the parser.",
["configurations","inputs"],"the four feature combinations times all inputs and constructed values",
"The suite is only ever built with all features; the other combinations are never compiled, let alone compared.",
["lib.rs","types/name.rs","types/mod.rs","types/number.rs","types/requirement.rs","types/assign_op.rs","parsers/mod.rs"],
[("feature gates","lib.rs"),("interning gate","types/name.rs"),("error types of the conversions","types/assign_op.rs")],
["digests of parse results and constructed values per configuration"])

p("C21","Parsing depends only on the text, not on history or threads",
"Parsing the same text gives equal values or the same error every time, regardless of what was parsed or created before it in the process, how often, and how many threads parse at the same time. Values obtained earlier never change because of later parsing, and equal values obtained from different threads are interchangeable.",
["histories","schedules","inputs"],"all sequences of parses of valid and invalid documents, from one thread or several concurrently sharing the process-wide name table",
"Each test parses once in a fresh context; cross-talk through the shared name table needs long or concurrent histories.",
["types/name.rs","parsers/name.rs","parsers/mod.rs"],
[("shared name table behind a lock","types/name.rs"),("stateless combinators","parsers/mod.rs")],
["results of repeated and concurrent parsing"],
[{"name":"STRING_INTERNING","meaning":"process-global sorted table of interned strings","where":"src/types/name.rs"}])

p("C22","Emptiness, counts and single-element access agree with the contents",
"For every collection-like value (effects, preconditions, constraints, duration constraints, types, conditional effects, typed lists) the reported length, emptiness, iteration (borrowed and owned) and slice view describe the same elements in the same order; extracting the single element succeeds exactly when there is exactly one and then returns it. A goal or constraint reports itself empty exactly when it contains no atom, literal or comparison anywhere.",
["inputs"],"all values of the collection-like types, of any length and nesting, including nested empty conjunctions",
"Tests check emptiness of one or two values; agreement of five views of one value is a relation over all contents.",
["types/effects.rs","types/pre_gd.rs","types/pref_con_gd.rs","types/con_gd.rs","types/gd.rs","types/preference.rs","types/duration_constraint.rs","types/conditional_effect.rs","types/type.rs","types/iterators.rs"],
[("length, emptiness and single-element access","types/effects.rs"),("recursive emptiness","types/con_gd.rs"),("flattening iterator","types/iterators.rs")],
["len, is_empty, iter, into_iter, slices, single-element conversions"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
