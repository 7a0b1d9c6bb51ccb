import json
T={
"C01":"generated documents with a print/parse round trip against the generating syntax tree",
"C02":"generated documents with a print/parse round trip against the generating syntax tree",
"C03":"generated formulas with a print/parse round trip against the generating syntax tree",
"C04":"generated effects with a print/parse round trip against the generating syntax tree",
"C05":"generated durative actions with a print/parse round trip against the generating syntax tree",
"C06":"generated expressions with a print/parse round trip against the generating syntax tree",
"C07":"generated trajectory constraints with a print/parse round trip against the generating syntax tree",
"C08":"generated declarations with a print/parse round trip against the generating syntax tree",
"C09":"generated initial states with a print/parse round trip against the generating syntax tree",
"C10":"metamorphic: generated documents in two generated layouts must parse to the same value",
"C11":"fuzzing of all entry points (garbage, token soup, tampered documents, extreme numerals, nesting and lengths) under a deterministic work limit",
"C12":"grammar-aware mutation of token sequences against an independent reference grammar that validates value and consumed tokens",
"C13":"differential: generated texts and positions through all entry points, with exact checks of the unread rest",
"C14":"enumeration of all word pairs and generated texts against a table of spellings",
"C15":"enumeration of all flag pairs and generated flag lists against a reference expansion",
"C16":"generated numerals, floats and lists of numbers against exact conversion and order",
"C17":"model-based histories of name creation in one and several threads against plain strings",
"C18":"generated values of all public types built in several ways, read back, copied and compared with one-part mutants",
"C19":"generated families of growing texts with deterministic work counts compared across doubled sizes",
"C20":"differential: the same generated cases in builds with all four feature combinations",
"C21":"histories of repeated and concurrent parses of generated texts compared with their first results",
"C22":"generated values whose views are compared with each other and with the generating tree",
}
NOTE={
"default":"Random search over a generator of the whole grammar with an explicit oracle; shows absence of a violation only for what was generated. Trusts the harness's printer, generator and tree reader.",
"C11":"Random search; work is counted in branches of the instrumented code, so the limit does not depend on the machine. Nesting is bounded by a 1 GiB stack.",
"C12":"Random search around the language; trusts the independent reference grammar. Run-together tokens are out of scope.",
"C14":"Complete over the words; random over other texts. Trusts the table of spellings in the harness.",
"C15":"Complete over pairs of flags; random over lists. One known finding is listed in known_findings.txt.",
"C16":"Random search over texts and bit patterns, with values at rounding boundaries; trusts the standard library's float conversions.",
"C17":"Random histories; thread interleavings are those the operating system produces.",
"C19":"Random families over all recursive constructs at doubling sizes; deterministic counts of instrumented branches. Judges growth (at most cubic), not constants.",
"C20":"Random search; the four builds are made from the current tree by the check.",
"C21":"Random histories; thread interleavings are those the operating system produces.",
}
checks=[]
for k,v in T.items():
    checks.append({"property":k,"quick_cmd":f"./check.sh {k} quick","thorough_cmd":f"./check.sh {k} thorough","technique":v,"level":"exploration","level_note":NOTE.get(k,NOTE["default"])})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":[],
"notes":"No hooks in /repo: everything is observed through the public interface. The harness is harness/ (crates core, vh, variant); see DESIGN.md. Genuine defects found and repaired are listed in known_findings.txt."},
open('/verif/MANIFEST.json','w'),indent=1)
