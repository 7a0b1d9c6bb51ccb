//! Arbitrary and mutated texts: robustness, accepted language and agreement of entry points.
use crate::docs::*;
pub use pcore::texts::*;
use crate::run::{cut, Res, Stats};
use crate::work::limited;
use pcore::choice::{mix, Ch};
use pcore::entry::{Got, Rest};
use pcore::gen::G;
use pcore::lits;
use pcore::print::{lay, plain, tokens_styled};
use pcore::refp;

/// Far more than any of the generated texts takes.
pub fn limit(text: &str) -> u64 {
    let n = text.len() as u64;
    400_000_000 + n.saturating_mul(n).saturating_mul(4 * n + 100).min(20_000_000_000)
}

/// Every entry point returns a value or an error.
pub fn robust(c: &mut Ch, s: &mut Stats) -> Res {
    let text = some_text(c);
    all_entries(&text, s)
}
fn all_entries(text: &str, s: &mut Stats) -> Res {
    s.input.clear();
    s.input.push_str(text);
    let mut ok = 0;
    let mut worst = 0;
    for e in table() {
        let (r, w) = limited(limit(text), text, || e.run(text).is_ok());
        worst = worst.max(w);
        ok += r as u32;
    }
    s.case(text, text.len() > 3);
    s.class(match ok {
        0 => "accepted by no entry point",
        1..=5 => "accepted by 1-5 entry points",
        _ => "accepted by more than 5 entry points",
    });
    s.max("most work for a text", worst as f64);
    s.max("longest text", text.len() as f64);
    if ok > 0 && text.len() > 20 {
        s.sample(|| text.to_string());
    }
    Ok(())
}
/// Numerals of any length and magnitude, wherever numbers stand.
pub fn numerals(c: &mut Ch, s: &mut Stats) -> Res {
    let n = match c.pick(4) {
        0 => c.pick(50),
        1 => 35 + c.pick(10),
        2 => c.pick(400),
        _ => c.pick(5000),
    };
    let seed = c.next() as u64;
    let digits = |n: usize, k: u64| -> String {
        (0..n).map(|i| (b'0' + (mix(seed ^ k ^ (i as u64) << 8) % 10) as u8) as char).collect()
    };
    let mut num = match c.pick(4) {
        0 => "9".repeat(n + 1),
        1 => format!("1{}", "0".repeat(n)),
        2 => format!("{}{}", "0".repeat(c.pick(40)), digits(n + 1, 1)),
        _ => digits(n + 1, 2),
    };
    match c.pick(4) {
        0 => {}
        1 => num.push('.'),
        2 => {
            let z = "0".repeat(c.pick(400));
            num.push_str(&format!(".{z}{}", digits(1 + c.pick(60), 3)));
        }
        _ => num.push_str(".5"),
    }
    let forms = [
        "@", "(= (f) @)", "(+ @ 1)", "(within @ (p))", "(hold-during @ @ (p))", "(:serial @)",
        "(:length (:serial @) (:parallel @))", "(at @ (p))", "(:metric minimize @)", "(<= ?duration @)",
        "(increase (f) (* @ #t))", "(:init (= (f) @) (at @ (p)))", "(- @)", "(:length (:parallel @))",
    ];
    let text = c.of(&forms).replace('@', &num);
    all_entries(&text, s)
}
/// Nesting, deeper than any real document.
pub fn deep(c: &mut Ch, s: &mut Stats) -> Res {
    let open = [
        "(", "(and ", "(or (p) ", "(not ", "(imply (p) ", "(forall (?x) ", "(exists (?x - (either a b)) ",
        "(- ", "(+ 1 ", "(* 1 2 ", "(f ", "(f a ?x ", "(always ", "(sometime-after (p) ", "(within 1 ",
        "(when (p) ", "(at start ", "(preference n ", "(forall (?x) (and ", "(at end (and ",
        "(not (f ", "(assign (f) ", "(increase (f) ", "(= (f ", "(:init (", "(:action a :parameters () :precondition ",
        "(define (domain d) ", "(either ", "(over all ", ";", "(hold-during 1 2 ", "(at-most-once (and ",
    ];
    let o = c.of(&open);
    let mut n = [5, 30, 80, 150][c.pick(4)];
    if n == 150 {
        n = lits::size(c, 400).unwrap_or(n);
    }
    let leaf = c.of(&["(p)", "", "x", "1", "?", "(", "?duration", "#t", "-"]);
    let close = o.matches('(').count() - o.matches(')').count();
    let mut text = o.repeat(n);
    text.push_str(leaf);
    let m = [n * close, 0, n * close / 2, n * close + 1][c.pick(4)];
    text.push_str(&")".repeat(m));
    all_entries(&text, s)
}
/// Long tokens and long lists.
pub fn long(c: &mut Ch, s: &mut Stats) -> Res {
    let unit = match c.pick(3) {
        0 => c.of(VOCAB),
        1 => c.of(ODD),
        _ => c.of(&["x", "0", "-", "_", " ", "\n", ";\n", "; x\r", "(p) ", "?x ", "a ", "a - b ", ":strips ",
            "(f ?x) ", "(f) - number ", "(= f 1) ", "(at 5 (p)) ", "(preference (p)) ", "(at start (p)) "]),
    };
    let mut n = [3, 10, 100, 1000, 4000][c.pick(5)];
    if n == 100 || n == 10 {
        n = lits::size(c, 4000).unwrap_or(n);
    }
    let wrap = c.of(&["@", "(@", "(@)", "(and @)", "(:init @)", "(:types @)", "(p @)", "?@", ":@", "(:requirements @)",
        "(:constants @ - @)", "(forall (@) (p))", "(define (domain @))", "(:functions @)", "@(p)", "(preference @ (p))"]);
    let text = wrap.replace('@', &unit.repeat(n));
    all_entries(&text, s)
}

// ---- accepted language ----

fn subtrees(ts: &[String]) -> Vec<(usize, usize)> {
    let mut open = vec![];
    let mut v = vec![];
    for (i, t) in ts.iter().enumerate() {
        match t.as_str() {
            "(" => open.push(i),
            ")" => {
                if let Some(o) = open.pop() {
                    v.push((o, i + 1));
                }
            }
            _ => {}
        }
    }
    v.sort();
    v
}
fn misspell(t: &str, k: usize) -> Option<String> {
    let b = t.as_bytes();
    if !b.iter().any(|c| c.is_ascii_alphanumeric()) {
        return None;
    }
    Some(match k % 11 {
        0 => format!("{t}x"),
        1 => format!("{t}s"),
        2 => format!("{t}-x"),
        3 if b.len() > 2 => t[..t.len() - 1].to_string(),
        4 if b[0] == b':' => t[1..].to_string(),
        4 => format!(":{t}"),
        5 if b[0] == b'?' => t[1..].to_string(),
        5 => format!("?{t}"),
        6 if b.len() > 3 => {
            let mut v = t.as_bytes().to_vec();
            v.swap(1, 2);
            String::from_utf8(v).ok()?
        }
        7 => t.to_uppercase(),
        8 => t.char_indices().map(|(i, c)| if i == (k / 11) % t.len() { c.to_ascii_uppercase() } else { c }).collect(),
        9 => bent(k / 11),
        _ => format!("{t}0"),
    })
}
/// Words that a lenient parser might take for words of the language.
const NEAR: &[&str] = &[
    "any", "begin", "finish", "stop", "middle", "every", "each", "never", "during", "throughout", "xor", "nand", "iff", "implies",
    "if", "then", "else", "unless", "for", "some", "all-of", "one-of", "eventually", "finally", "until", "next", "weak-until",
    "before", "after", "set", "put", "inc", "dec", "add", "sub", "del", "delete", "true", "false", "nil", "null", "undefined",
    "minimise", "maximise", "minimum", "maximum", "min", "max", "duration", "?dur", "time", "total-cost", "cost", "violated",
    "is-satisfied", "==", "!=", "<>", "=<", "=>", "<<", "**", "^", "mod", ":length", ":horizon", ":parameter", ":params", ":vars",
    ":precond", ":preconditions", ":effects", ":conditions", ":durative", ":process", ":event", ":axiom", ":situation", ":object",
    ":predicate", ":function", ":type", ":constant", ":goals", ":facts", ":domain-name", ":steps", ":sequential", ":minimize",
    "integer", "int", "float", "real", "bool", "boolean", "string", "obj", "thing", "any-object", "not-equal", "unequal", "?t", "#T",
    "#t1", "exist", "for-all", "at-start", "at-end", "over-all", "prefer", "preferences", "whenever", "domains", "problems", "def",
];
/// A token of the language or one of the dictionary's.
fn token(k: usize) -> String {
    if k % 4 == 3 {
        if let Some(t) = lits::name(&mut Ch::new(&[k as u32 / 4, k as u32 / 7, k as u32 / 13])) {
            return t;
        }
    }
    VOCAB[k % VOCAB.len()].into()
}
/// One edit of a token sequence; returns its kind.
pub fn edit(ts: &mut Vec<String>, op: usize, x: usize, y: usize, z: usize) -> &'static str {
    let n = ts.len();
    if n == 0 {
        return "none";
    }
    let sub = subtrees(ts);
    let s1 = (!sub.is_empty()).then(|| sub[x % sub.len()]);
    let s2 = (!sub.is_empty()).then(|| sub[y % sub.len()]);
    match op % 17 {
        0 => {
            ts.remove(x % n);
            "delete token"
        }
        1 => {
            let t = ts[x % n].clone();
            ts.insert(x % n, t);
            "duplicate token"
        }
        2 => {
            let i = x % n;
            if i + 1 < n {
                ts.swap(i, i + 1);
            }
            "swap adjacent tokens"
        }
        3 => {
            ts[x % n] = token(y);
            "replace token"
        }
        4 => {
            ts.insert(x % (n + 1), token(y));
            "insert token"
        }
        5 => {
            let words: Vec<usize> = (0..n).filter(|i| ts[*i] != "(" && ts[*i] != ")").collect();
            if let Some(&i) = words.get(x % words.len().max(1)) {
                if let Some(m) = misspell(&ts[i], y) {
                    ts[i] = m;
                }
            }
            "misspell token"
        }
        6 => {
            if let Some((a, b)) = s1 {
                ts.drain(a..b);
            }
            "delete element"
        }
        7 => {
            if let Some((a, b)) = s1 {
                let v = ts[a..b].to_vec();
                ts.splice(a..a, v);
            }
            "duplicate element"
        }
        8 => {
            if let Some((a, b)) = s1 {
                let v: Vec<String> = ts.drain(a..b).collect();
                let i = y % (ts.len() + 1);
                ts.splice(i..i, v);
            }
            "move element"
        }
        9 => {
            if let (Some((a, b)), Some((p, q))) = (s1, s2) {
                let v = ts[p..q].to_vec();
                ts.splice(a..b, v);
            }
            "replace element"
        }
        10 => {
            if let Some((a, b)) = s1 {
                ts.insert(b, ")".into());
                ts.insert(a, "(".into());
            }
            "wrap element"
        }
        11 => {
            if let Some((a, b)) = s1 {
                ts.remove(b - 1);
                ts.remove(a);
            }
            "unwrap element"
        }
        12 => {
            if let Some((a, _)) = s1 {
                // The element that follows in the same list, if any.
                let (_, b) = s1.unwrap();
                if ts.get(b).is_some_and(|t| t == "(") {
                    let e = sub.iter().find(|s| s.0 == b).map(|s| s.1);
                    if let Some(e) = e {
                        ts[a..e].rotate_left(b - a);
                    }
                }
            }
            "swap elements"
        }
        13 => {
            if let Some((a, b)) = s1 {
                ts.splice(a..b, [VOCAB[y % VOCAB.len()].to_string()]);
            }
            "replace element by token"
        }
        15 => {
            // A word of the language in place of another one, or something like it.
            let words: Vec<usize> = (0..n).filter(|i| VOCAB.contains(&ts[*i].as_str()) && ts[*i].len() > 1).collect();
            if let Some(&i) = words.get(x % words.len().max(1)) {
                ts[i] = match y % 4 {
                    0 => lits::name(&mut Ch::new(&[z as u32, z as u32 / 7, z as u32 / 13])).unwrap_or("any".into()),
                    1 => NEAR[z % NEAR.len()].into(),
                    2 => VOCAB[z % VOCAB.len()].into(),
                    _ => misspell(&ts[i], z).unwrap_or("none".into()),
                };
            }
            "replace word"
        }
        16 => {
            let nums: Vec<usize> = (0..n).filter(|i| ts[*i].starts_with(|c: char| c.is_ascii_digit())).collect();
            if let Some(&i) = nums.get(x % nums.len().max(1)) {
                ts[i] = pcore::observe::odd_token(&ts[i], y, z);
            }
            "spoil numeral"
        }
        _ => {
            let heads = ["(and", "(not", "(or", "(forall ( ?x )", "(when ( p )", "(at start", "(preference", "(always", "(- 1"];
            if let Some((a, b)) = s1 {
                ts.insert(b, ")".into());
                let h: Vec<String> = heads[z % heads.len()]
                    .replace('(', "( ")
                    .split_whitespace()
                    .map(String::from)
                    .collect();
                ts.splice(a..a, h);
            }
            "put element into another"
        }
    }
}
fn acceptable(t: &str) -> bool {
    // Texts that are not tokens of the language, and would be read as two tokens.
    t != "?" && t != "#" && t != ":" && !t.is_empty() && !t.char_indices().any(|(i, c)| i > 0 && "?:#".contains(c))
}

/// Whatever is accepted is a document and means what was read.
pub fn language(c: &mut Ch, s: &mut Stats) -> Res {
    let times = [1, 1, 1, 2, 2, 3, 0][c.pick(7)];
    let edits: Vec<[usize; 4]> = (0..times)
        .map(|_| [c.pick(17), c.next() as usize, c.next() as usize, c.next() as usize])
        .collect();
    let st = c.fork();
    let t = any_doc(c);
    let mut ts = tokens_styled(&t, &mut Ch::new(&st));
    let before = ts.clone();
    let mut kinds = vec![];
    for e in edits {
        kinds.push(edit(&mut ts, e[0], e[1], e[2], e[3]));
    }
    ts.retain(|t| acceptable(t));
    if !refp::reads(&before, &t) {
        return Err(format!("harness: the reference grammar refuses {}", plain(&before)));
    }
    judge(&ts, ts != before, &kinds, s)
}
/// Token sequences near one section or element, edited exhaustively at random places.
fn judge(ts: &[String], changed: bool, kinds: &[&str], s: &mut Stats) -> Res {
    let text = plain(ts);
    s.input.clone_from(&text);
    s.case(&text, changed && ts.len() > 8);
    let mut accepted = false;
    for name in ["Domain", "Problem"] {
        let e = entry(name);
        let (r, _) = limited(limit(&text), &text, || e.run(&text));
        if let Ok((rest, v)) = r {
            accepted = true;
            let tree = v.tree();
            let used = text.len() - rest.text.len();
            // How many tokens that is.
            let mut at = 0;
            let mut k = 0;
            for (i, t) in ts.iter().enumerate() {
                if i > 0 && ts[i - 1] != "(" && t != ")" {
                    at += 1;
                }
                if at + t.len() > used {
                    break;
                }
                at += t.len();
                k += 1;
            }
            if !blank(&text[at..used]) {
                return Err(format!("{name} stops within a token: {:?}", cut(&rest.text, 60)));
            }
            if !refp::reads(&ts[..k], &tree) {
                return Err(format!("{name} accepts what is no document, or not as what it says: read as {tree:?}"));
            }
        }
    }
    if changed {
        for k in kinds {
            s.class(format!("{k}: {}", if accepted { "accepted" } else { "rejected" }));
        }
        if !accepted {
            s.sample(|| text.clone());
        }
    } else {
        s.class("unchanged");
        if !accepted {
            return Err("rejects a document".into());
        }
    }
    Ok(())
}
/// Short sequences of sections and elements in any order and number.
pub fn soup(c: &mut Ch, s: &mut Stats) -> Res {
    const PARTS: &[&str] = &[
        "( domain d )", "( problem p )", "( :domain d )", "( :extends e )", "( :requirements :strips )", "( :requirements )",
        "( :types t )", "( :types )", "( :constants k - t )", "( :predicates ( p ?x ) )", "( :predicates )",
        "( :functions ( f ) )", "( :functions ( f ?x - t ) - number )", "( :constraints ( and ) )",
        "( :constraints ( always ( p ) ) )", "( :action a :parameters ( ) )", "( :action a :parameters ( ?x ) :effect ( p ) )",
        "( :action a :effect ( p ) :parameters ( ) )", "( :action a :parameters ( ) :effect ( p ) :precondition ( p ) )",
        "( :durative-action a :parameters ( ) :duration ( ) :condition ( ) :effect ( ) )",
        "( :durative-action a :parameters ( ) :duration ( ) :effect ( ) )",
        "( :derived ( p ) ( q ) )", "( :derived ( p ) )", "( :objects o )", "( :init ( p ) )", "( :init )", "( :goal ( p ) )",
        "( :goal ( and ) )", "( :goal )", "( :goal ( ) )", "( :metric minimize total-time )", "( :metric total-time )",
        "( :length ( :serial 1 ) )", "( :length ( :parallel 1 ) ( :serial 1 ) )", "( :length )", "( :length 5 )",
        "( :timeless ( p ) )", "( :axiom )", "( )", "x", ":action", "( p )", "( :action )", "( :constraints )",
    ];
    let mut ts: Vec<String> = vec!["(".into(), "define".into()];
    let start = c.pick(4);
    let head: &[usize] = [&[0usize][..], &[1, 2], &[1], &[]][start];
    let mut parts: Vec<usize> = head.to_vec();
    // The usual order, each part now and then, with deviations.
    let body = if start == 0 { 3..23 } else { 4..36 };
    let dense = 2 + c.pick(4);
    for i in body {
        if c.pick(dense) == 1 {
            parts.push(i);
        }
    }
    if start > 0 && c.pick(4) > 0 {
        for need in [25, 26] {
            if !parts.contains(&need) {
                parts.push(need);
            }
        }
        parts.sort();
    }
    match c.pick(4) {
        1 if !parts.is_empty() => {
            let i = c.pick(parts.len());
            let x = parts.remove(i);
            let j = c.pick(parts.len() + 1);
            parts.insert(j, x);
        }
        2 => {
            let j = c.pick(parts.len() + 1);
            parts.insert(j, c.pick(PARTS.len()));
        }
        _ => {}
    }
    for p in &parts {
        ts.extend(PARTS[*p].split(' ').map(String::from));
    }
    ts.push(")".into());
    judge(&ts, true, &["sections"], s)
}

// ---- agreement of entry points ----

fn sig(g: &Got) -> String {
    match g {
        Ok((r, v)) => format!("{} rest {:?}@{}:{}", v.debug(), r.text, r.offset, r.line),
        Err(f) => format!("{f:?}"),
    }
}
fn same(x: &Got, y: &Got) -> bool {
    match (x, y) {
        (Ok((r, v)), Ok((q, w))) => r == q && v.same(&**w),
        (Err(e), Err(f)) => e == f,
        _ => false,
    }
}
fn rest_is_right(whole: &str, r: &Rest) -> Result<(), String> {
    let at = match whole.len().checked_sub(r.text.len()) {
        Some(at) if whole.is_char_boundary(at) && whole[at..] == r.text => at,
        _ => return Err(format!("the rest {:?} is not a suffix of the input", r.text)),
    };
    let line = 1 + whole[..at].matches('\n').count() as u32;
    let column = at - whole[..at].rfind('\n').map_or(0, |i| i + 1) + 1;
    if r.offset != at || r.line != line || r.column != column {
        return Err(format!(
            "the rest is reported at offset {} line {} column {}, but is at {at}, {line}, {column}",
            r.offset, r.line, r.column
        ));
    }
    Ok(())
}

pub fn agree(c: &mut Ch, s: &mut Stats) -> Res {
    let before = match c.pick(4) {
        0 => String::new(),
        1 => "\n\n  ".to_string(),
        2 => "(x) ; é\n".to_string(),
        _ => "abc\r\n日本 ".to_string(),
    };
    let tail = [
        "", " ", "\n", ")", " x", "(p)", " (p)\n", "; c\nx", " - t", "\n\n)", "é", "\t(define (domain x))", " and", ":x",
        ";", " ; c", "\r\n", "\u{a0}",
    ][c.pick(18)];
    let e = &table()[c.pick(table().len())];
    let valid = c.pick(3) < 2;
    let text = if valid {
        let st = style(c);
        let mut g = G::new(c);
        let d = g.depth().min(7);
        let t = (e.gen)(&mut g, d);
        lay(&tokens_styled(&t, &mut Ch::new(&st[0])), &mut Ch::new(&st[1]), false)
    } else {
        some_text(c)
    };
    let whole = format!("{text}{tail}");
    s.input = format!("{}: {whole:?} after {before:?}", e.name);
    let (first, _) = limited(limit(&whole), &whole, || e.run(&whole));
    s.case((e.name, &whole, &before), text.len() > 3);
    s.class(if first.is_ok() { "accepted" } else { "rejected" });
    if let Ok((r, _)) = &first {
        s.class_if(!r.text.is_empty(), "with an unread rest");
        s.class_if(r.line > 1, "rest not on the first line");
    }
    if text.len() > 15 {
        s.sample(|| s_input(e.name, &whole, &before));
    }
    let differ = |what: &str, x: &Got| -> Res {
        Err(format!("{what} gives {} but parse gives {}", cut(&sig(x), 500), cut(&sig(&first), 500)))
    };
    for (what, f) in [("the free function", e.free), ("parse", e.parse)] {
        if let Some(f) = f {
            let x = f(&whole);
            if !same(&first, &x) {
                return differ(what, &x);
            }
        }
    }
    for (what, f) in [
        ("parse from a span", e.parse_at),
        ("parse_span", e.parse_span),
        ("the free function from a span", e.free_at),
    ] {
        if let Some(f) = f {
            let x = f(&whole, 0);
            if !same(&first, &x) {
                return differ(what, &x);
            }
            let long = format!("{before}{whole}");
            let x = f(&long, before.len());
            let ok = match (&first, &x) {
                (Ok((r, v)), Ok((q, w))) => {
                    rest_is_right(&long, q)?;
                    v.same(&**w) && r.text == q.text
                }
                (Err(a), Err(b)) => {
                    a.class == b.class && a.offset.map(|o| o + before.len()) == b.offset
                }
                _ => false,
            };
            if !ok {
                return differ(&format!("{what} within a text"), &x);
            }
        }
    }
    if let Some(f) = e.from_str {
        let ok = match (&first, f(&whole)) {
            (Ok((_, v)), Ok(w)) => v.same(&*w),
            (Err(a), Err(b)) => *a == b,
            _ => false,
        };
        if !ok {
            return Err("from_str does not agree with parse".into());
        }
    }
    let (rest, v) = match &first {
        Ok(x) => x,
        Err(f) => {
            if f.offset.is_some_and(|o| o > whole.len()) {
                return Err("the error is located outside of the input".into());
            }
            return Ok(());
        }
    };
    rest_is_right(&whole, rest)?;
    // The consumed prefix alone.
    let used = &whole[..rest.offset];
    match e.run(used) {
        Ok((r, w)) if r.text.is_empty() && v.same(&*w) => {}
        x => {
            return Err(format!(
                "reads {:?} of the input, but that alone gives {}",
                used,
                cut(&sig(&x), 500)
            ))
        }
    }
    // What follows a complete element stays unread.
    if valid && text.starts_with('(') && !e.name.contains("typed_list") {
        match e.run(&text) {
            Ok((r, w)) => {
                if !v.same(&*w) {
                    return Err("the text that follows changes the value".into());
                }
                let eaten = rest.offset.saturating_sub(text.len() - r.text.len());
                let t = &whole[text.len() - r.text.len()..][..eaten];
                if !blank(t) {
                    return Err(format!("reads {t:?} after the end of the element"));
                }
            }
            Err(_) => return Err("accepted with, but not without, following text".into()),
        }
    }
    // The comparison helper.
    if let Some(f) = e.is_value {
        if f(&whole, used) != Some(true) {
            return Err("is_value denies the value".into());
        }
    }
    Ok(())
}
fn s_input(name: &str, whole: &str, before: &str) -> String {
    format!("{name}: {whole:?} after {before:?}")
}
/// `UnwrapValue` agrees with equality for two different texts.
pub fn helper(c: &mut Ch, s: &mut Stats) -> Res {
    let e = &table()[c.pick(table().len())];
    let (Some(is_value), Some(parse)) = (e.is_value, e.parse) else { return Ok(()) };
    let same_text = c.pick(4) == 3;
    let mut one = || {
        let mut g = G::new(c);
        let t = (e.gen)(&mut g, 3);
        plain(&tokens_styled(&t, &mut Ch::new(&[])))
    };
    let x = one();
    let y = if same_text { x.clone() } else { one() };
    let y = if y.len() > 400 { x.clone() } else { y };
    s.input = format!("{}: {x:?} and {y:?}", e.name);
    s.case((e.name, &x, &y), x != y);
    let (Ok((_, v)), Ok((_, w))) = (parse(&x), parse(&y)) else {
        return Err("rejects a value of the language".into());
    };
    let eq = v.same(&*w);
    s.class(if eq { "equal values" } else { "different values" });
    if is_value(&x, &y) != Some(eq) {
        return Err(format!("is_value disagrees with equality ({eq})"));
    }
    if is_value("\u{1}", &y) == Some(true) {
        return Err("is_value of an error is true".into());
    }
    Ok(())
}
/// Documents one after the other in one text.
pub fn consecutive(c: &mut Ch, s: &mut Stats) -> Res {
    let n = 2 + c.pick(4);
    let mut text = String::new();
    let mut docs = vec![];
    for _ in 0..n {
        let st = style(c);
        let k = c.left() / n;
        let part: Vec<u32> = (0..k).map(|_| c.next()).collect();
        let t = any_doc(&mut Ch::new(&part));
        let toks = tokens_styled(&t, &mut Ch::new(&st[0]));
        let one = lay(&toks, &mut Ch::new(&st[1]), true);
        text.push_str(&one);
        // An unterminated comment must not swallow the next document.
        if one.ends_with("; end") {
            text.push('\n');
        }
        docs.push(t);
    }
    s.input.clone_from(&text);
    s.case(&text, true);
    s.sample(|| text.clone());
    let mut at = 0;
    for t in &docs {
        let e = doc_entry(t);
        let (r, v) = match e.parse_at.unwrap()(&text, at) {
            Ok(x) => x,
            Err(f) => return Err(format!("rejects the document at offset {at}: {}", cut(&f.debug, 200))),
        };
        rest_is_right(&text, &r)?;
        let got = v.tree();
        if got != *t {
            return Err(format!("misreads the document at offset {at}: {}", t.diff(&got)));
        }
        // The same from text, without the position.
        match e.run(&text[at..]) {
            Ok((q, w)) if q.text == r.text && v.same(&*w) => {}
            x => return Err(format!("from text: {}", cut(&sig(&x), 300))),
        }
        at = r.offset;
    }
    if at != text.len() {
        return Err(format!("{:?} is left", &text[at..]));
    }
    Ok(())
}

