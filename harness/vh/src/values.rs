//! Values made and read without documents: vocabularies, requirement flags, numbers, names, and
//! every other public type.
use crate::docs::*;
use crate::run::{cut, guard, Res, Stats};
use pcore::choice::{mix, Ch};
use pcore::dump::across;
use pcore::lits::{self, lits};
use pcore::gen::{vary, G, SIMPLE, TRICKY};
use pcore::kinds::{kinds, Kind};
use pcore::mk::{leaked, Mk};
use pcore::mutate::mutate;
use pcore::print;
use pcore::stretch::stretch;
use pcore::tree::*;
use pcore::words::{hash_of, stands_for, vocabularies, Vocab};
use pddl::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::OnceLock;

fn vocabs() -> &'static Vec<Vocab> {
    static V: OnceLock<Vec<Vocab>> = OnceLock::new();
    V.get_or_init(vocabularies)
}
fn ck(ok: bool, m: impl FnOnce() -> String) -> Res {
    if ok {
        Ok(())
    } else {
        Err(m())
    }
}

// ---- vocabularies ----

/// Every word of every vocabulary against every other.
fn word_pairs() -> &'static Vec<(usize, usize, usize)> {
    static P: OnceLock<Vec<(usize, usize, usize)>> = OnceLock::new();
    P.get_or_init(|| {
        let mut r = vec![];
        for (k, v) in vocabs().iter().enumerate() {
            for i in 0..v.words.len() {
                for j in 0..v.words.len() {
                    r.push((k, i, j));
                }
            }
        }
        r
    })
}
pub fn word_count() -> u64 {
    word_pairs().len() as u64
}
pub fn words(c: &mut Ch, s: &mut Stats) -> Res {
    let (k, i, j) = word_pairs()[c.next() as usize];
    let v = &vocabs()[k];
    let (x, xs) = v.words[i];
    let (_, ys) = v.words[j];
    s.input = format!("{}: {xs} {ys}", v.name);
    s.case((k, i, j), true);
    s.class(v.name);
    ck((v.read)(xs) == Ok(x.to_string()), || format!("{xs} converts to {:?}, not {x}", (v.read)(xs)))?;
    let sp = (v.spell)(xs).unwrap();
    ck(sp.iter().all(|t| t == xs), || format!("{x} is spelled {sp:?}, not {xs}"))?;
    let e = (v.equal)(xs, ys).unwrap();
    ck(e.iter().all(|b| *b == (i == j)), || format!("comparing {xs} and {ys} gives {e:?}"))?;
    if let Some(e) = (v.is_text)(xs, ys) {
        ck(e.iter().all(|b| *b == (i == j)), || format!("comparing {xs} with the text {ys} gives {e:?}"))?;
    }
    for tail in ["", " ", ")", "(", "\n", " x", ";c", "\t?x"] {
        parsed(v, xs, tail)?;
    }
    Ok(())
}
fn meaning(v: &Vocab, t: &str) -> Option<(&'static str, &'static str)> {
    let w = v.aliases.iter().find(|(a, _)| *a == t).map_or(t, |(_, w)| *w);
    v.words.iter().find(|(_, s)| *s == w).copied()
}
/// Parsing a word followed by something else gives its value and leaves the rest; what is no word
/// is not read as a whole.
fn parsed(v: &Vocab, t: &str, tail: &str) -> Res {
    let e = entry(v.entry.unwrap());
    let text = format!("{t}{tail}");
    match (e.run(&text), meaning(v, t)) {
        (Ok((rest, x)), m) => {
            let got = e.tree(&*x);
            if let Some((_, w)) = m {
                ck(got == a(w), || format!("{text:?} is parsed as {got:?}, not {w}"))?;
                return ck(tail.ends_with(rest.text.trim_start()), || format!("{text:?} leaves {:?}", rest.text));
            }
            ck(rest.offset < t.len(), || format!("{text:?} is parsed as {} {got:?}", v.name))?;
            ck(meaning(v, text[..rest.offset].trim()).is_some_and(|(_, w)| got == a(w)), || {
                format!("{text:?} is parsed as {} {got:?}, leaving {:?}", v.name, rest.text)
            })
        }
        (Err(f), Some(_)) => Err(format!("{text:?} is not parsed as {}: {}", v.name, f.debug)),
        (Err(_), None) => Ok(()),
    }
}
fn word_like(t: &str) -> bool {
    let b = t.strip_prefix(':').unwrap_or(t);
    b.starts_with(|c: char| c.is_ascii_alphabetic())
        && b.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_')
}
fn near_word(c: &mut Ch) -> String {
    if !lits().words.is_empty() && c.pick(5) == 4 {
        if let Some(t) = lits::text(c) {
            return t;
        }
    }
    let v = &vocabs()[c.pick(vocabs().len())];
    let all: Vec<&str> = v.words.iter().map(|w| w.1).chain(v.aliases.iter().map(|w| w.0)).collect();
    let mut t = all[c.pick(all.len())].to_string();
    for _ in 0..c.pick(3) {
        let n = t.chars().count();
        let mut ch: Vec<char> = t.chars().collect();
        match c.pick(14) {
            0 => t.push_str(["x", "-", "1", "_x", "s", "-up", "=", " ", "é"][c.pick(9)]),
            1 => t.insert_str(0, [":", " ", "x", "un", "-", "?", "=", "::"][c.pick(8)]),
            2 if n > 0 => {
                ch.remove(c.pick(n));
                t = ch.into_iter().collect();
            }
            3 => t = ch[..c.pick(n + 1)].iter().collect(),
            4 => t = ch[c.pick(n + 1)..].iter().collect(),
            5 => t = t.to_uppercase(),
            6 if n > 0 => {
                let i = c.pick(n);
                ch[i] = ch[i].to_ascii_uppercase();
                t = ch.into_iter().collect();
            }
            7 => t = t.replace('-', "_"),
            8 => t = t.replace('-', ""),
            9 if n > 1 => {
                let i = c.pick(n - 1);
                ch.swap(i, i + 1);
                t = ch.into_iter().collect();
            }
            10 => {
                let w = &vocabs()[c.pick(vocabs().len())];
                t.push_str(w.words[c.pick(w.words.len())].1);
            }
            11 => t = t.trim_start_matches(':').to_string(),
            12 => t = [".", "==", "<>", "!=", "=<", "=>", "**", "\u{2212}", "\u{d7}", "≥", "%", "^", "", "scale", "up"][c.pick(15)].into(),
            _ => t.push('\0'),
        }
    }
    t
}
pub fn word_texts(c: &mut Ch, s: &mut Stats) -> Res {
    let t = match c.pick(6) {
        0 => TRICKY[c.pick(TRICKY.len())].to_string(),
        1 => {
            let n = c.len(0);
            (0..n).map(|_| (32 + c.pick(95) as u8) as char).collect()
        }
        _ => near_word(c),
    };
    let u = near_word(c);
    s.input = format!("{t:?} {u:?}");
    s.case(&t, !t.is_empty());
    let mut known = false;
    for v in vocabs() {
        let m = meaning(v, &t);
        known |= m.is_some();
        match ((v.read)(&t), m) {
            (Ok(x), Some((n, w))) => {
                ck(x == n, || format!("{t:?} converts to {} {x}, not {n}", v.name))?;
                let sp = (v.spell)(&t).unwrap();
                ck(sp.iter().all(|x| x == w), || format!("{} {n} is spelled {sp:?}, not {w}", v.name))?;
                if let Some(e) = (v.is_text)(&t, &u) {
                    ck(e.iter().all(|b| *b == (w == u)), || format!("comparing {w} with the text {u:?} gives {e:?}"))?;
                }
                if let Some(e) = (v.equal)(&t, &u) {
                    let same = meaning(v, &u).map(|x| x.0) == Some(n);
                    ck(e.iter().all(|b| *b == same), || format!("comparing {t:?} and {u:?} gives {e:?}"))?;
                }
            }
            (Err(_), Some((n, _))) => return Err(format!("{t:?} does not convert to {} {n}", v.name)),
            (Ok(x), None) => return Err(format!("{t:?} converts to {} {x}", v.name)),
            (Err(e), None) => ck(!e.is_empty(), || format!("{t:?}: an error without a message"))?,
        }
        if word_like(&t) {
            for tail in ["", " ", ")", " x"] {
                parsed(v, &t, tail)?;
            }
        }
    }
    s.class(if known { "a spelling" } else { "not a spelling" });
    s.class_if(word_like(&t), "word");
    s.sample(|| format!("{t:?}"));
    Ok(())
}
pub fn op_pairs(c: &mut Ch, s: &mut Stats) -> Res {
    let (t, m) = [("*", true), ("+", true), ("-", false), ("/", false)][c.next() as usize];
    s.input = t.into();
    s.case(t, true);
    let b = BinaryOp::try_from(t).map_err(|e| e.to_string())?;
    match MultiOp::try_from(b) {
        Ok(x) => {
            ck(m && x.to_string() == t, || format!("{t} becomes {x}"))?;
            ck(MultiOp::try_from(t).is_ok_and(|y| x == y), || format!("{t} becomes {x:?}"))?;
            ck(BinaryOp::from(x) == b, || format!("{x:?} becomes {:?}", BinaryOp::from(x)))
        }
        Err(_) => ck(!m, || format!("{t} is no multiple operator")),
    }
}

// ---- requirement flags ----

fn flags() -> &'static [(&'static str, &'static str)] {
    vocabs()[0].words
}
fn flag(s: &str) -> Requirement {
    Requirement::try_from(s).unwrap_or_else(|e| panic!("{s}: {e}"))
}
pub fn flag_count() -> u64 {
    (flags().len() * flags().len()) as u64
}
pub fn contains(c: &mut Ch, s: &mut Stats) -> Res {
    let i = c.next() as usize;
    let (x, y) = (flags()[i / flags().len()], flags()[i % flags().len()]);
    s.input = format!("{} {}", x.1, y.1);
    s.case((x, y), true);
    let (px, py) = (stands_for(x.1), stands_for(y.1));
    let expected = py.iter().all(|p| px.contains(p));
    s.class(if expected { "contained" } else { "not contained" });
    let (fx, fy) = (flag(x.1), flag(y.1));
    ck(fx.contains(fy) == fx.contains(&fy), || "containment depends on borrowing".into())?;
    if fx.contains(fy) != expected {
        let sig = format!("{} contains {}: {}", x.1, y.1, fx.contains(fy));
        ck(s.known("C15", &sig), || format!("{sig}, but {} stands for {px:?} and {} for {py:?}", x.1, y.1))?;
    }
    let e: Vec<String> = fx.expand().iter().map(|r| r.to_string()).collect();
    let e: BTreeSet<&str> = e.iter().map(|r| r.as_str()).collect();
    ck(e == px.iter().copied().collect(), || format!("{} is expanded to {e:?}, not {px:?}", x.1))
}
fn effective(list: &[&'static str]) -> BTreeSet<String> {
    let mut r: BTreeSet<String> = list.iter().flat_map(|f| stands_for(f)).map(str::to_string).collect();
    if r.is_empty() {
        r.insert(":strips".into());
    }
    r
}
fn got_effective(r: &Requirements) -> Result<BTreeSet<String>, String> {
    let set = r.to_effective();
    let out: BTreeSet<String> = set.iter().map(|r| r.to_string()).collect();
    ck(out.len() == set.len(), || format!("effective set has equal members: {set:?}"))?;
    Ok(out)
}
pub fn flag_lists(c: &mut Ch, s: &mut Stats) -> Res {
    let n = c.len(0);
    // Often only few different ones, so that one shorthand's parts are told apart from others'.
    let few: Vec<usize> = (0..1 + c.pick(3)).map(|_| c.pick(flags().len())).collect();
    let mixed = c.pick(2) == 1;
    let list: Vec<&'static str> = (0..n)
        .map(|_| flags()[if mixed { c.pick(flags().len()) } else { few[c.pick(few.len())] }].1)
        .collect();
    s.input = format!("{list:?}");
    s.case(&list, !list.is_empty());
    s.class(match n {
        0 => "no flags",
        1..=3 => "1-3 flags",
        _ => "4+ flags",
    });
    s.class_if(list.iter().any(|f| stands_for(f).len() > 1), "with shorthands");
    s.sample(|| format!("{list:?}"));
    let want = effective(&list);
    let v: Vec<Requirement> = list.iter().map(|f| flag(f)).collect();
    let all = [
        Requirements::new(v.clone()),
        Requirements::from(v.clone()),
        v.iter().copied().collect::<Requirements>(),
        Requirements::new(v.iter().copied()).clone(),
    ];
    for r in &all {
        ck(r.as_slice() == v.as_slice(), || format!("{list:?} is kept as {r:?}"))?;
        ck(*r == all[0], || "equal lists differ".into())?;
        let got = got_effective(r)?;
        ck(got == want, || format!("{list:?} is effectively {got:?}, not {want:?}"))?;
        // Asking the flags one by one agrees with the set, for the elementary flags.
    }
    // The same when declared in a document.
    let decl = if list.is_empty() { String::new() } else { format!("(:requirements {})", list.join(" ")) };
    let text = format!("(define (domain d) {decl} (:action a :parameters ()))");
    let d = Domain::from_str(&text).map_err(|e| format!("{text} is rejected: {e:?}"))?;
    let got = got_effective(d.requirements())?;
    ck(got == want, || format!("{text} effectively requires {got:?}, not {want:?}"))?;
    let text = format!("(define (problem p) (:domain d) {decl} (:init) (:goal (and)))");
    let p = Problem::from_str(&text).map_err(|e| format!("{text} is rejected: {e:?}"))?;
    let got = got_effective(p.requirements())?;
    ck(got == want, || format!("{text} effectively requires {got:?}, not {want:?}"))?;
    if let Some((first, _)) = v.split_first() {
        let one = Requirements::new([*first]);
        ck((one == all[0]) == (v.len() == 1), || "different lists are equal".into())?;
    }
    Ok(())
}

// ---- numbers ----

const SPECIAL: &[u32] = &[
    0x0000_0000, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 0x0000_0001, 0x8000_0001, 0x007f_ffff,
    0x0080_0000, 0x7f7f_ffff, 0xff7f_ffff, 0x4b80_0000, 0x4b80_0001, 0x4f00_0000, 0x4f80_0000,
    0x5f00_0000, 0x3f00_0000, 0x3f7f_ffff, 0x3f80_0001, 0x4049_0fdb,
];
fn float(c: &mut Ch) -> f32 {
    if !lits().floats.is_empty() && c.pick(4) == 3 {
        if let Some(x) = lits::float(c) {
            return x;
        }
    }
    match c.pick(6) {
        0 => f32::from_bits(SPECIAL[c.pick(SPECIAL.len())]),
        1 => c.pick(8) as f32 - 3.0,
        2 => f32::from_bits(SPECIAL[c.pick(SPECIAL.len())].wrapping_add(c.pick(5) as u32).wrapping_sub(2)),
        3 => [f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -f32::NAN][c.pick(4)],
        4 => (c.next() as i32) as f32 / [1.0, 10.0, 1000.0, 65536.0][c.pick(4)],
        _ => f32::from_bits(c.next()),
    }
}
fn finite(c: &mut Ch) -> f32 {
    let v = float(c);
    if v.is_finite() {
        v
    } else {
        c.pick(100) as f32
    }
}
fn panics<T>(f: impl FnOnce() -> T) -> bool {
    guard(f).is_err()
}
fn is(n: Number, v: f32, how: &str) -> Res {
    ck(n.to_bits() == v.to_bits(), || format!("{how} gives {:?}, not {v:?}", *n))
}

/// Exact comparison of a decimal numeral with the midpoint of two neighbouring floats is done by
/// the standard library; this is the value the numeral must have.
fn nearest(t: &str) -> Option<f32> {
    t.parse::<f32>().ok().filter(|v| v.is_finite())
}
fn numeral_text(c: &mut Ch) -> String {
    match c.pick(9) {
        0 | 1 => G::new(c).numeral(),
        2 | 3 => {
            let v = f32::from_bits((c.next() & 0x7fff_ffff) % 0x7f7f_ffff);
            pcore::gen::midpoint(c, v)
        }
        4 => {
            // Around the largest finite value.
            let t = ["340282346638528859811704183484516925440", "340282356779733661637539395458142568447",
                "340282356779733661637539395458142568448", "340282356779733661637539395458142568449",
                "340282366920938463463374607431768211456"][c.pick(5)];
            format!("{t}{}", ["", ".0", ".5", ".00000000000000000001", "0", ".999999999999"][c.pick(6)])
        }
        5 => {
            let n = 1 + c.pick(700);
            let d = (b'0' + c.pick(10) as u8) as char;
            let mut t: String = std::iter::repeat(d).take(n).collect();
            if c.pick(2) == 1 {
                t.insert(c.pick(n) + 1 - usize::from(n == 1), '.');
                if t.ends_with('.') {
                    t.push('5');
                }
                if t.starts_with('.') {
                    t.insert(0, '0');
                }
            }
            t
        }
        6 => {
            let t = ["inf", "nan", "-inf", "infinity", "1e5", "1e40", "-1e39", "1e-50", "-0", "-0.0", "+3", ".5", "5.", "-3.25", "1e", "e1", "", " 1",
                "1 ", "1_000", "0x10", "1,5", "--1", "1.2.3", "NaN", "+inf", "1f", "1e+5", "1E5", "٣", "−1"];
            t[c.pick(t.len())].into()
        }
        7 => format!("{}e{}", c.pick(1000), c.pick(100) as i32 - 50),
        _ => {
            let n = c.pick(8);
            (0..n).map(|_| b"0123456789.-+eE inf"[c.pick(19)] as char).collect()
        }
    }
}
pub fn number_texts(c: &mut Ch, s: &mut Stats) -> Res {
    let t = numeral_text(c);
    s.input.clone_from(&t);
    let want = nearest(&t);
    s.case(&t, t.len() > 1);
    s.class(match want {
        Some(_) => "readable text",
        None if t.parse::<f32>().is_ok() => "not finite text",
        None => "not a number text",
    });
    s.class_if(t.len() > 60, "long text");
    s.sample(|| t.clone());
    match (t.parse::<Number>(), want) {
        (Ok(n), Some(v)) => {
            ck(n.is_finite(), || format!("{t} is read as {:?}", *n))?;
            is(n, v, &t)?;
        }
        (Err(e), None) => ck(!e.to_string().is_empty(), || "an error without a message".into())?,
        (Ok(n), None) => return Err(format!("{t:?} is read as {:?}", *n)),
        (Err(e), Some(v)) => return Err(format!("{t:?} is refused ({e}), not read as {v:?}")),
    }
    if pcore::refp::is_numeral(&t) {
        s.class("numeral of the grammar");
        let e = entry("Number");
        match (e.run(&t), want) {
            (Ok((rest, x)), Some(v)) => {
                ck(x.tree() == N(v.to_bits()), || format!("{t} is parsed as {}, not {v:?}", x.debug()))?;
                ck(rest.text.is_empty(), || format!("{t} leaves {}", rest.text))?;
            }
            (Err(_), None) => {}
            (Ok((_, x)), None) => return Err(format!("{t} is parsed as {}", x.debug())),
            (Err(f), Some(v)) => return Err(format!("{t} is not parsed as {v:?}: {}", f.debug)),
        }
    }
    Ok(())
}
pub fn number_floats(c: &mut Ch, s: &mut Stats) -> Res {
    let v = float(c);
    let d: f64 = match c.pick(5) {
        0 => v as f64,
        1 => v as f64 * [1.0000000001, 0.9999999999, 1e30, 1e-30][c.pick(4)],
        2 => f64::from_bits(((c.next() as u64) << 32) | c.next() as u64),
        3 => [f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::INFINITY, f64::NAN, 3.4028235677973366e38, 3.4028235677973362e38, 16777217.0, 0.1][c.pick(9)],
        _ => {
            let x = v.abs();
            if x < f32::MAX {
                (x as f64 + f32::from_bits(x.to_bits() + 1) as f64) / 2.0
            } else {
                1.5
            }
        }
    };
    let i = c.next();
    s.input = format!("{v:?} {d:?} {i}");
    s.case((v.to_bits(), d.to_bits(), i), true);
    s.class(if v.is_finite() { "finite" } else { "not finite" });
    s.class(if (d as f32).is_finite() { "finite double" } else { "not finite double" });
    match Number::try_new(v) {
        Ok(n) => {
            ck(v.is_finite(), || format!("{v:?} is accepted"))?;
            is(n, v, "try_new")?;
            is(Number::new(v), v, "new")?;
            is(Number::from(v), v, "from")?;
            let w: Number = v.into();
            is(w, v, "into")?;
            #[allow(clippy::clone_on_copy)]
            is(n.clone(), v, "clone")?;
        }
        Err(e) => {
            ck(!v.is_finite(), || format!("{v:?} is refused: {e}"))?;
            ck(matches!(e.to_string().as_str(), t if !t.is_empty()), || "an error without a message".into())?;
            ck(panics(|| Number::new(v)) && panics(|| Number::from(v)), || format!("{v:?} makes a number"))?;
        }
    }
    let w = d as f32;
    if w.is_finite() {
        is(Number::from(d), w, "from a double")?;
    } else {
        ck(panics(|| Number::from(d)), || format!("{d:?} makes a number"))?;
    }
    is(Number::from(i), i as f32, "from u32")?;
    is(Number::from(i as i32), i as i32 as f32, "from i32")?;
    is(Number::from(i as u16), i as u16 as f32, "from u16")?;
    is(Number::from(i as i16), i as i16 as f32, "from i16")?;
    is(Number::from(i as u8), i as u8 as f32, "from u8")?;
    is(Number::from(i as i8), i as i8 as f32, "from i8")?;
    is(Number::default(), 0.0, "default")?;
    s.sample(|| format!("{v:?} {d:?} {i}"));
    Ok(())
}
pub fn number_order(c: &mut Ch, s: &mut Stats) -> Res {
    let n = 2 + c.len(0).min(12);
    let mut v: Vec<f32> = (0..n).map(|_| finite(c)).collect();
    for i in 1..n {
        // Neighbours, negatives and equals of earlier ones.
        if c.pick(3) == 2 {
            let x = v[c.pick(i)];
            v[i] = match c.pick(4) {
                0 => x,
                1 => -x,
                2 => f32::from_bits(x.to_bits() ^ 1),
                _ => x / 2.0,
            };
            if !v[i].is_finite() {
                v[i] = x;
            }
        }
    }
    s.input = format!("{v:?}");
    s.case(v.iter().map(|x| x.to_bits()).collect::<Vec<_>>(), true);
    s.class_if(v.iter().any(|x| x.to_bits() == 0) && v.iter().any(|x| x.to_bits() == 1 << 31), "both zeros");
    s.class_if(v.iter().any(|x| x.is_subnormal()), "subnormal");
    s.sample(|| format!("{v:?}"));
    let k: Vec<Number> = v.iter().map(|x| Number::new(*x)).collect();
    for (x, a) in v.iter().zip(&k) {
        for (y, b) in v.iter().zip(&k) {
            let o = x.partial_cmp(y).unwrap();
            let bad = |m: &str| format!("{x:?} and {y:?}: {m}");
            ck(a.cmp(b) == o, || bad("order"))?;
            ck(a.partial_cmp(b) == Some(o), || bad("partial order"))?;
            ck((a == b) == o.is_eq() && (a != b) == o.is_ne(), || bad("equality"))?;
            ck((a < b) == o.is_lt() && (a <= b) == o.is_le(), || bad("less"))?;
            ck((a > b) == o.is_gt() && (a >= b) == o.is_ge(), || bad("greater"))?;
            ck((*a == *y) == o.is_eq(), || bad("equality with a float"))?;
            ck((*a == *y as f64) == o.is_eq(), || bad("equality with a double"))?;
            ck(!o.is_eq() || hash_of(a) == hash_of(b), || bad("hashes of equal numbers"))?;
            ck((*a.max(b) == *b) == o.is_le() || *a.max(b) == *a, || bad("maximum"))?;
        }
        let i = *x as i32;
        ck((*a == i) == (i as f32 == *x), || format!("{x:?} compared with the integer {i}"))?;
        let i = *x as u8;
        ck((*a == i) == (i as f32 == *x), || format!("{x:?} compared with the integer {i}"))?;
        let i = *x as i8;
        ck((*a == i) == (i as f32 == *x), || format!("{x:?} compared with the integer {i}"))?;
        let i = *x as u16;
        ck((*a == i) == (i as f32 == *x), || format!("{x:?} compared with the integer {i}"))?;
        let i = *x as i16;
        ck((*a == i) == (i as f32 == *x), || format!("{x:?} compared with the integer {i}"))?;
        let i = *x as u32;
        ck((*a == i) == (i as f32 == *x), || format!("{x:?} compared with the integer {i}"))?;
        ck((*a == *x) && (*a == *x as f64), || format!("{x:?} compared with its own float"))?;
    }
    let mut sorted = k.clone();
    sorted.sort();
    let mut want = v.clone();
    want.sort_by(|x, y| x.partial_cmp(y).unwrap());
    ck(sorted.iter().zip(&want).all(|(n, x)| **n == *x), || format!("sorted as {sorted:?}"))?;
    let mut classes: Vec<f32> = want.clone();
    classes.dedup_by(|x, y| x == y);
    let tree: BTreeSet<Number> = k.iter().copied().collect();
    let hash: HashSet<Number> = k.iter().copied().collect();
    ck(tree.len() == classes.len(), || format!("{} ordered classes, not {}", tree.len(), classes.len()))?;
    ck(hash.len() == classes.len(), || format!("{} hashed classes, not {}", hash.len(), classes.len()))?;
    ck(v.iter().all(|x| hash.contains(&Number::new(*x)) && tree.contains(&Number::new(-(-*x)))), || "not found again".into())
}

// ---- names ----

fn name_text(c: &mut Ch) -> String {
    if !lits().is_empty() && c.pick(4) == 3 {
        match (lits::text(c), lits::size(c, 5000)) {
            (t, Some(n)) if t.is_none() || c.pick(2) == 1 => {
                let mut t: String = std::iter::repeat_n('l', n).collect();
                t.push_str(["", "a", "b", "é"][c.pick(4)]);
                return t;
            }
            (Some(t), _) => return t,
            _ => {}
        }
    }
    match c.pick(12) {
        0 => ["object", "number", "", "o", "objects", "objec", "Object", "numbers", "numbe", "object ", "obj\u{e9}ct"][c.pick(11)].into(),
        1 => SIMPLE[c.pick(SIMPLE.len())].into(),
        2 => TRICKY[c.pick(TRICKY.len())].into(),
        3 => format!("k{}", c.pick(60_000)),
        4 => {
            // Prefixes of one another.
            let n = c.pick(40);
            "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"[..n].into()
        }
        5 => {
            let n = c.pick(5);
            (0..n).map(|_| ['a', 'b', 'A', '-', 'é', '日', '\u{0}', '\u{10ffff}', 'z', ' '][c.pick(10)]).collect()
        }
        6 => {
            let n = 1 + c.pick(2000);
            let mut t = "long".repeat(n / 4 + 1);
            t.truncate(n);
            t.push((b'a' + c.pick(3) as u8) as char);
            t
        }
        _ => pcore::gen::pool_name(c.pick(300) as u64),
    }
}
fn static_text(c: &mut Ch, again: Option<&str>) -> &'static str {
    if let Some(t) = again {
        if c.pick(2) == 1 {
            if let Some(t) = leaked(t, c.pick(2)) {
                return t;
            }
        }
    }
    match c.pick(6) {
        4 | 5 => {
            let t = name_text(c);
            leaked(&t, c.pick(2)).unwrap_or("many")
        }
        0 => ["object", "number", "", "é"][c.pick(4)],
        1 => TRICKY[c.pick(TRICKY.len())],
        _ => SIMPLE[c.pick(SIMPLE.len())],
    }
}
/// A name, its text, and whether it was made by the interning constructor.
struct Made {
    name: Name,
    text: String,
    shared: bool,
    at: *const u8,
    how: &'static str,
}
fn made(c: &mut Ch, pool: &[Made]) -> Made {
    let again = if pool.is_empty() || c.pick(3) == 0 { None } else { Some(&pool[c.pick(pool.len())]) };
    let text = match again {
        None => name_text(c),
        Some(m) if c.pick(3) == 2 => vary(c, &m.text),
        Some(m) => m.text.clone(),
    };
    let s = text.as_str();
    let (how, name, text, shared) = match c.pick(18) {
        0 | 1 => ("new(&str)", Name::new(s), text, true),
        2 => ("new(String)", Name::new(text.clone()), text, true),
        3 => ("from(&str)", Name::from(s), text, true),
        4 => {
            let n: Name = text.clone().into();
            ("into", n, text, true)
        }
        5 => {
            let t = static_text(c, again.map(|m| m.text.as_str()));
            ("new_static", Name::new_static(t), t.to_string(), false)
        }
        6 => ("variable", (*Variable::from_str(s)).clone(), text, true),
        7 => ("predicate", (*Predicate::from_str(s)).clone(), text, true),
        8 => ("function", (*FunctionSymbol::from_str(s)).clone(), text, true),
        9 => ("action", (*ActionSymbol::from_str(s)).clone(), text, true),
        10 => ("durative action", (*DurativeActionSymbol::from_str(s)).clone(), text, true),
        11 => ("preference", (*PreferenceName::from_str(s)).clone(), text, true),
        12 => {
            let t = static_text(c, again.map(|m| m.text.as_str()));
            ("static variable", (*Variable::from_static(t)).clone(), t.to_string(), false)
        }
        13 => ("default", Name::default(), String::new(), false),
        14 if pcore::refp::is_name(s) => match Name::from_str(s) {
            Ok(n) => ("parser", n, text, true),
            Err(e) => panic!("the name {s} is rejected: {e:?}"),
        },
        15 => ("variable of a name", (*Variable::new(Name::new(s))).clone(), text, true),
        _ => match again {
            Some(m) => ("copy", m.name.clone(), m.text.clone(), m.shared),
            None => ("new(&str)", Name::new(s), text, true),
        },
    };
    let at = name.as_ref().as_ptr();
    Made { name, text, shared, at, how }
}
/// A name against the text it was made from.
fn reads(m: &Made) -> Res {
    let (n, t) = (&m.name, m.text.as_str());
    let bad = |w: &str| format!("{} of a name made by {} from {t:?}", w, m.how);
    let r: &str = n.as_ref();
    let d: &str = n;
    ck(r == t && d == t, || format!("{}: {r:?}", bad("text")))?;
    ck(n.len() == t.chars().count(), || format!("{}: {}", bad("length"), n.len()))?;
    ck(n.is_empty() == t.is_empty(), || bad("emptiness"))?;
    ck(*n == *t && *n == t && *n == t.to_string(), || bad("comparison with the text"))?;
    ck(r.as_ptr() == m.at, || bad("stable place of the text"))?;
    ck(format!("{n:?}").contains(t) || t.is_empty(), || bad("description"))
}
fn history(c: &mut Ch, pool: &mut Vec<Made>, steps: usize) -> Res {
    for _ in 0..steps {
        match c.pick(8) {
            0 if pool.len() > 2 => {
                let i = c.pick(pool.len());
                pool.swap_remove(i);
            }
            _ => {
                let m = made(c, pool);
                reads(&m)?;
                pool.push(m);
            }
        }
    }
    Ok(())
}
fn check_pool(pool: &[Made]) -> Res {
    for m in pool {
        reads(m)?;
    }
    for (i, x) in pool.iter().enumerate() {
        for y in &pool[i..] {
            let want = x.text == y.text;
            let bad = |w: &str| {
                format!("{w} of {:?} made by {} and {:?} made by {}", x.text, x.how, y.text, y.how)
            };
            ck((x.name == y.name) == want && (y.name == x.name) == want && (x.name != y.name) != want, || bad("equality"))?;
            ck((x.name == y.text) == want && (y.name == x.text.as_str()) == want, || bad("equality with text"))?;
            ck(!want || hash_of(&x.name) == hash_of(&y.name), || bad("hash"))?;
            let (v, w) = (Variable::new(x.name.clone()), Variable::new(y.name.clone()));
            ck((v == w) == want && (!want || hash_of(&v) == hash_of(&w)), || bad("equality of variables"))?;
            if want && x.shared && y.shared && !x.text.is_empty() {
                ck(x.at == y.at, || bad("sharing of the text"))?;
            }
        }
    }
    let set: HashSet<&Name> = pool.iter().map(|m| &m.name).collect();
    let texts: HashSet<&str> = pool.iter().map(|m| m.text.as_str()).collect();
    ck(set.len() == texts.len(), || format!("{} different names of {} texts", set.len(), texts.len()))?;
    let map: HashMap<&Name, &str> = pool.iter().map(|m| (&m.name, m.text.as_str())).collect();
    for m in pool {
        let again = Name::new(m.text.as_str());
        ck(map.get(&again) == Some(&m.text.as_str()), || format!("{:?} is not found by a new name", m.text))?;
        if m.shared && !m.text.is_empty() {
            ck(again.as_ref().as_ptr() == m.at, || format!("{:?} does not share its text", m.text))?;
        }
    }
    Ok(())
}
pub fn names(c: &mut Ch, s: &mut Stats) -> Res {
    let mut pool = vec![];
    let steps = 2 + c.left() / 4;
    history(c, &mut pool, steps.min(60))?;
    note_pool(&pool, s);
    check_pool(&pool)
}
fn note_pool(pool: &[Made], s: &mut Stats) {
    let l: Vec<String> = pool.iter().map(|m| format!("{} {:?}", m.how, cut(&m.text, 40))).collect();
    s.input = l.join("; ");
    s.case(&s.input.clone(), pool.len() > 2);
    let texts: HashSet<&str> = pool.iter().map(|m| m.text.as_str()).collect();
    s.class_if(texts.len() < pool.len(), "with equal texts");
    s.class_if(pool.iter().any(|m| !m.text.is_ascii()), "with non-ASCII texts");
    s.class_if(pool.iter().any(|m| m.text == "object" || m.text == "number"), "with well-known names");
    s.class_if(pool.iter().any(|m| !m.shared), "with static names");
    s.max("most names in a history", pool.len() as f64);
    s.sample(|| s_input(pool));
}
fn s_input(pool: &[Made]) -> String {
    pool.iter().map(|m| format!("{} {:?}", m.how, m.text)).collect::<Vec<_>>().join("; ")
}
/// Several threads create names at the same time; then all are compared with each other.
pub fn name_threads(c: &mut Ch, s: &mut Stats) -> Res {
    let k = 2 + c.pick(3);
    let seeds: Vec<u64> = (0..k).map(|_| c.next() as u64).collect();
    let unique = c.next() as u64;
    let steps = 5 + c.pick(60);
    struct Pool(Vec<Made>);
    // The addresses are only compared.
    unsafe impl Send for Pool {}
    let start = std::sync::Barrier::new(k);
    let pools: Vec<Result<Pool, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|seed| {
                let start = &start;
                sc.spawn(move || {
                    let d: Vec<u32> = (0..steps as u64 * 8).map(|i| mix(mix(*seed) ^ i) as u32).collect();
                    let mut c = Ch::new(&d);
                    let mut pool = vec![];
                    start.wait();
                    let r = guard(|| {
                        // Texts nobody has used yet, at the same time.
                        for i in 0..20 {
                            let text = format!("u{}-{}", unique % 100_000, (i * (1 + seed % 3)) % 20);
                            let name = Name::new(text.as_str());
                            let at = name.as_ref().as_ptr();
                            pool.push(Made { name, text, shared: true, at, how: "new(&str)" });
                        }
                        history(&mut c, &mut pool, steps)
                    })
                    .and_then(|r| r);
                    r.map(|_| Pool(pool))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut all = vec![];
    for p in pools {
        all.extend(p?.0);
    }
    s.class(format!("{k} threads"));
    note_pool(&all, s);
    check_pool(&all)
}
/// So many names that the table grows and everything in it moves.
pub fn many_names(c: &mut Ch, s: &mut Stats) -> Res {
    let mut n = 200 + c.pick(3000);
    if let Some(m) = lits::size(c, 40_000) {
        n = m.max(2);
    }
    let start = c.pick(60_000);
    let step = 1 + c.pick(60_000);
    let form = c.pick(3);
    let text = |i: usize| {
        let k = (start + i * step) % 60_013;
        match form {
            0 => format!("m{k}"),
            1 => format!("m{:05}", 60_013 - k),
            _ => format!("{k}m"),
        }
    };
    s.input = format!("{n} names {}, {}, …", text(0), text(1));
    s.case((n, start, step, form), true);
    s.class(format!("form {form}"));
    s.sample(|| s_text(n, &text));
    let v: Vec<Name> = (0..n).map(|i| Name::new(text(i))).collect();
    let at: Vec<*const u8> = v.iter().map(|x| x.as_ref().as_ptr()).collect();
    let again: Vec<Name> = (0..n).rev().map(|i| Name::new(text(i).as_str())).collect();
    let mut seen: HashMap<&Name, usize> = HashMap::new();
    for i in 0..n {
        let t = text(i);
        ck(v[i] == t, || format!("{t:?} became {:?}", v[i]))?;
        let w = &again[n - 1 - i];
        ck(*w == t && *w == v[i], || format!("{t:?} became {w:?}"))?;
        ck(v[i].as_ref().as_ptr() == at[i] && w.as_ref().as_ptr() == at[i], || format!("{t:?} moved or is not shared"))?;
        ck(hash_of(w) == hash_of(&v[i]), || format!("hash of {t:?}"))?;
        seen.entry(&v[i]).or_insert(i);
    }
    let texts: HashSet<String> = (0..n).map(text).collect();
    ck(seen.len() == texts.len(), || format!("{} names of {} texts", seen.len(), texts.len()))
}
fn s_text(n: usize, text: &dyn Fn(usize) -> String) -> String {
    format!("{n} names {}, {}, {}, …", text(0), text(1), text(2))
}

// ---- all types ----

fn all_kinds() -> &'static Vec<Kind> {
    static K: OnceLock<Vec<Kind>> = OnceLock::new();
    K.get_or_init(kinds)
}
/// Without what cannot be read back: a domain's timeless facts have no accessor.
pub fn visible(t: &Tree) -> Tree {
    match t {
        L("domain", v) => L("domain", v[..v.len().min(9)].to_vec()),
        t => t.clone(),
    }
}
fn draw(c: &mut Ch, wide: bool) -> (&'static Kind, Tree) {
    let k = &all_kinds()[c.pick(all_kinds().len())];
    let mut g = if wide { G::wide(c) } else { G::new(c) };
    let d = g.depth().min(12);
    (k, (k.gen)(&mut g, d))
}
/// A value one part of which is long or deep.
fn draw_long(c: &mut Ch, wide: bool, s: &mut Stats) -> Option<(&'static Kind, Tree)> {
    let how: Vec<u32> = (0..10).map(|_| c.next()).collect();
    let mut h = Ch::new(&how);
    let budget = if h.pick(60) == 59 { 140_000 } else { 2_500 };
    let (k, t) = draw(c, wide);
    let (t, what) = stretch(&t, budget, &mut h)?;
    s.class(what);
    Some((k, t))
}
pub fn made_long(c: &mut Ch, s: &mut Stats) -> Res {
    let (s1, s2) = (c.next() as u64, c.next() as u64);
    match draw_long(c, true, s) {
        Some((k, t)) => made_values_of(k, t, s1, s2, 1, c, s).map_err(|m| cut(&m, 2000)),
        None => Ok(()),
    }
}
pub fn parsed_long(c: &mut Ch, s: &mut Stats) -> Res {
    let s1 = c.next() as u64;
    match draw_long(c, false, s) {
        Some((k, t)) => parsed_values_of(k, t, s1, [vec![], vec![]], s).map_err(|m| cut(&m, 2000)),
        None => Ok(()),
    }
}
pub fn viewed_long(c: &mut Ch, s: &mut Stats) -> Res {
    let s1 = c.next() as u64;
    let wide = c.next() % 2 == 1;
    match draw_long(c, wide, s) {
        Some((k, t)) => {
            s.input = cut(&format!("{}: {t:?}", k.name), 5000);
            s.case((k.name, &t), true);
            (k.views)(&Mk::new(s1), &t).map_err(|m| cut(&m, 2000))
        }
        None => Ok(()),
    }
}
/// What is put in is read back, whichever way it is put in, and copies and changes are told apart.
pub fn made_values(c: &mut Ch, s: &mut Stats) -> Res {
    let (s1, s2) = (c.next() as u64, c.next() as u64);
    let (k, t) = draw(c, true);
    made_values_of(k, t, s1, s2, 3, c, s)
}
fn made_values_of(k: &'static Kind, t: Tree, s1: u64, s2: u64, changes: usize, c: &mut Ch, s: &mut Stats) -> Res {
    s.input = cut(&format!("{}: {t:?}", k.name), 20_000);
    s.case((k.name, &t), t.size() > 2);
    s.class(format!("as {}", k.name));
    s.max("largest tree", t.size() as f64);
    s.max("deepest tree", t.depth() as f64);
    if t.size() > 8 {
        s.sample(|| format!("{}: {t:?}", k.name));
    }
    let want = visible(&t);
    let x = (k.make)(&Mk::plain(), &t);
    let y = (k.make)(&Mk::new(s1), &t);
    let z = (k.make)(&Mk::new(s2), &t);
    for v in [&x, &y, &z] {
        let got = v.tree();
        ck(got == want, || format!("{} reads back differently {}", k.name, want.diff(&got)))?;
    }
    ck(x.same(&*y) && y.same(&*z) && z.same(&*x), || format!("equal {} values are not equal", k.name))?;
    for (what, e) in across(&*x, &*y).into_iter().chain(across(&*y, &*z)) {
        ck(e, || format!("equal {} values differ as {what}", k.name))?;
    }
    ck(x.debug() == y.debug(), || format!("equal {} values are described differently", k.name))?;
    let w = y.dup();
    ck(w.same(&*y) && w.tree() == want, || format!("a copied {} differs", k.name))?;
    drop((y, z));
    ck(w.tree() == want && x.same(&*w), || format!("a copied {} changes", k.name))?;
    // Every value can be told from one that differs in one part.
    for _ in 0..changes {
        let Some((u, what)) = mutate(&t, c) else { break };
        let v = (k.make)(&Mk::new(s1 ^ 5), &u);
        let want = visible(&u);
        let got = v.tree();
        s.class(format!("changed {what}"));
        ck(got == want, || format!("{} reads back differently {}", k.name, want.diff(&got)))?;
        ck(!v.same(&*x) && !x.same(&*v), || {
            format!("{} values that differ are equal: {}", k.name, t.diff(&u))
        })?;
        for (what, e) in across(&*x, &*v).into_iter().chain(across(&*v, &*x)) {
            ck(!e, || format!("{} values that differ are equal as {what}: {}", k.name, t.diff(&u)))?;
        }
        ck(x.same(&*w) && x.tree() == visible(&t), || "changed".into())?;
    }
    Ok(())
}
/// What is parsed equals what is built from the same parts.
pub fn parsed_values(c: &mut Ch, s: &mut Stats) -> Res {
    let s1 = c.next() as u64;
    let st = style(c);
    let (k, t) = draw(c, false);
    parsed_values_of(k, t, s1, st, s)
}
fn parsed_values_of(k: &'static Kind, t: Tree, s1: u64, st: [Vec<u32>; 2], s: &mut Stats) -> Res {
    let Some(en) = k.entry else {
        return Ok(());
    };
    let e = entry(en);
    let printed = match (k.root, &t) {
        (Some(r), L(_, v)) => L(r, v.clone()),
        (_, t) => t.clone(),
    };
    let toks = print::tokens_styled(&printed, &mut Ch::new(&st[0]));
    let text = print::lay(&toks, &mut Ch::new(&st[1]), is_doc(e));
    s.input.clone_from(&text);
    s.case((k.name, &text), t.size() > 2);
    s.class(format!("as {}", k.name));
    let v = (k.make)(&Mk::new(s1), &t);
    let p = must_read(e, &e.fix(v.tree()), &text)?;
    ck(p.same(&*v) && v.same(&*p), || format!("parsed and built {} differ: {} and {}", k.name, p.debug(), v.debug()))?;
    // Built again from what is read back.
    let again = (k.make)(&Mk::new(s1 ^ 77), &p.tree());
    ck(again.same(&*p), || format!("{} built from a parsed one's parts differs", k.name))?;
    let copy = p.dup();
    drop(p);
    ck(copy.same(&*v) && copy.tree() == v.tree(), || format!("a copied parsed {} differs", k.name))?;
    if t.size() > 8 {
        s.sample(|| format!("{}: {text}", k.name));
    }
    Ok(())
}
/// All views of a value agree.
pub fn viewed(c: &mut Ch, s: &mut Stats) -> Res {
    let s1 = c.next() as u64;
    let (k, t) = draw(c, c.left() % 2 == 0);
    s.input = format!("{}: {t:?}", k.name);
    s.case((k.name, &t), t.size() > 2);
    s.class(format!("as {}", k.name));
    s.max("largest tree", t.size() as f64);
    if t.size() > 8 {
        s.sample(|| format!("{}: {t:?}", k.name));
    }
    (k.views)(&Mk::new(s1), &t)
}
const HOLLOW: &[&str] = &["goal", "precondition", "preconditions", "problem goal", "preference", "optional preference",
    "constraint", "nested constraint", "constraint with preference", "constraints with preferences", "problem constraints",
    "domain constraints", "effects", "duration constraints", "conditional effect", "type", "initial state"];
/// Values of few parts, often empty ones: emptiness is decided by what is deep inside.
pub fn hollow(c: &mut Ch, s: &mut Stats) -> Res {
    let name = HOLLOW[c.pick(HOLLOW.len())];
    let k = all_kinds().iter().find(|k| k.name == name).unwrap();
    let s1 = c.next() as u64;
    let mut g = G::wide(c);
    let d = 1 + g.c.pick(5);
    let t = prune(&(k.gen)(&mut g, d), c);
    s.input = format!("{}: {t:?}", k.name);
    s.case((k.name, &t), t.size() > 1);
    s.class(format!("as {}", k.name));
    (k.views)(&Mk::new(s1), &t)
}
/// With most of the elements of its conjunctions and disjunctions removed.
fn prune(t: &Tree, c: &mut Ch) -> Tree {
    match t {
        L(k, v) => {
            let mut w: Vec<Tree> = v.iter().map(|x| prune(x, c)).collect();
            if matches!(*k, "g.and" | "g.or" | "pre" | "pcs" | "c.and" | "effs" | "ce.all" | "inits" | "either") {
                while !w.is_empty() && c.pick(3) == 2 {
                    let i = c.pick(w.len());
                    w.remove(i);
                }
                if c.pick(4) == 3 {
                    w.clear();
                }
            }
            L(k, w)
        }
        t => t.clone(),
    }
}

// ---- histories ----

/// The same texts give the same results, however often and wherever they are parsed.
pub fn repeated(c: &mut Ch, s: &mut Stats) -> Res {
    use pcore::entry::Got;
    let threads = c.pick(3);
    let n = 2 + c.pick(6);
    let order: Vec<usize> = (0..n * 2).map(|_| c.next() as usize).collect();
    let mut items: Vec<(usize, String)> = vec![];
    for _ in 0..n {
        let mut text = crate::text::some_text(c);
        if text.len() > 4000 {
            let mut k = 4000;
            while !text.is_char_boundary(k) {
                k -= 1;
            }
            text.truncate(k);
        }
        // Most texts go to an entry that accepts them.
        let k = c.pick(table().len());
        let fits = c.pick(4) < 3;
        let e = (0..table().len())
            .map(|i| (i + k) % table().len())
            .find(|i| fits && table()[*i].run(&text).is_ok());
        items.push((e.unwrap_or(k), text));
    }
    s.input = items.iter().map(|(e, t)| format!("{}: {t}", table()[*e].name)).collect::<Vec<_>>().join("\n----\n");
    s.case(&s.input.clone(), items.iter().any(|(_, t)| t.len() > 3));
    let parse = |(e, t): &(usize, String)| -> Got { table()[*e].run(t) };
    let say = |g: &Got| -> String {
        match g {
            Ok((r, v)) => format!("{r:?} {} {:?}", v.debug(), v.tree()),
            Err(f) => format!("{f:?}"),
        }
    };
    let first: Vec<Got> = items.iter().map(parse).collect();
    let said: Vec<String> = first.iter().map(say).collect();
    s.class_if(first.iter().any(|g| g.is_ok()), "with accepted texts");
    s.class_if(first.iter().any(|g| g.is_err()), "with rejected texts");
    s.class(format!("{threads} other threads"));
    let again = |order: &[usize]| -> Result<Vec<(usize, Got)>, String> {
        let mut kept = vec![];
        for o in order {
            let i = o % items.len();
            let g = parse(&items[i]);
            let now = say(&g);
            ck(now == said[i], || {
                format!("{} reads {:?} differently: first {}, later {}", table()[items[i].0].name, cut(&items[i].1, 300), cut(&said[i], 300), cut(&now, 300))
            })?;
            kept.push((i, g));
        }
        Ok(kept)
    };
    let kept = again(&order)?;
    let mut other = vec![];
    if threads > 0 {
        let start = std::sync::Barrier::new(threads);
        let res: Vec<Result<Vec<(usize, Got)>, String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|k| {
                    let (again, order, start) = (&again, &order, &start);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            let mut o = order.clone();
                            o.rotate_left((k * 3 + 1) % order.len());
                            start.wait();
                            guard(|| again(&o)).and_then(|r| r)
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for r in res {
            other.extend(r?);
        }
    }
    for (i, g) in kept.iter().chain(&other) {
        match (&first[*i], g) {
            (Ok((r, v)), Ok((q, w))) => ck(r == q && v.same(&**w), || {
                format!("values of the same text differ: {} and {}", v.debug(), w.debug())
            })?,
            (Err(x), Err(y)) => ck(x == y, || format!("errors of the same text differ: {x:?} and {y:?}"))?,
            _ => return Err("accepted once and rejected once".into()),
        }
    }
    for (g, was) in first.iter().zip(&said) {
        ck(say(g) == *was, || format!("an earlier value changed: from {} to {}", cut(was, 300), cut(&say(g), 300)))?;
    }
    // The values remain the same when others are dropped.
    drop((kept, other));
    for (g, was) in first.iter().zip(&said) {
        ck(say(g) == *was, || format!("an earlier value changed: from {} to {}", cut(was, 300), cut(&say(g), 300)))?;
    }
    s.sample(|| s_items(&items));
    Ok(())
}
fn s_items(items: &[(usize, String)]) -> String {
    items.iter().map(|(e, t)| format!("{}: {}", table()[*e].name, cut(t, 150))).collect::<Vec<_>>().join(" ---- ")
}
/// A few short texts, read a great many times in turn.
pub fn many_times(c: &mut Ch, s: &mut Stats) -> Res {
    use pcore::entry::Got;
    let n = match lits::size(c, 300_000) {
        Some(n) => n,
        None => [300, 1_100, 5_000, 70_000][[0, 0, 0, 0, 1, 1, 2, 3][c.pick(8)]],
    } + c.pick(20);
    let k = 1 + c.pick(4);
    let mut items: Vec<(usize, String)> = vec![];
    for _ in 0..k {
        let mut text = crate::text::some_text(c);
        let mut m = text.len().min(if n > 10_000 { 40 } else { 150 });
        while !text.is_char_boundary(m) {
            m -= 1;
        }
        text.truncate(m);
        let from = c.pick(table().len());
        let fits = c.pick(4) < 3;
        let e = (0..table().len())
            .map(|i| (i + from) % table().len())
            .find(|i| fits && table()[*i].run(&text).is_ok());
        items.push((e.unwrap_or(from), text));
    }
    let fresh = c.pick(2) == 1;
    s.input = format!("{n} times{}\n", if fresh { ", with new names between" } else { "" })
        + &items.iter().map(|(e, t)| format!("{}: {t}", table()[*e].name)).collect::<Vec<_>>().join("\n----\n");
    s.case(&s.input.clone(), items.iter().any(|(_, t)| t.len() > 3));
    s.max("most repetitions", n as f64);
    let first: Vec<Got> = items.iter().map(|(e, t)| table()[*e].run(t)).collect();
    s.class_if(first.iter().any(|g| g.is_ok()), "with accepted texts");
    s.class_if(first.iter().any(|g| g.is_err()), "with rejected texts");
    let said: Vec<String> = first.iter().map(|g| g.as_ref().map_or_else(|f| format!("{f:?}"), |(r, v)| format!("{r:?} {}", v.debug()))).collect();
    for i in 0..n {
        let j = i % items.len();
        let g = table()[items[j].0].run(&items[j].1);
        match (&first[j], &g) {
            (Ok((r, v)), Ok((q, w))) if r == q && v.same(&**w) => {}
            (Err(x), Err(y)) if x == y => {}
            _ => return Err(format!("{} reads {:?} differently the {i}th time: {:?}, not {}", table()[items[j].0].name,
                items[j].1, g.map(|(r, v)| (r, v.debug())), said[j])),
        }
        if fresh && i < 20_000 {
            let _ = Name::new(format!("f{}-{i}", c.left()));
        }
    }
    for (g, was) in first.iter().zip(&said) {
        let now = g.as_ref().map_or_else(|f| format!("{f:?}"), |(r, v)| format!("{r:?} {}", v.debug()));
        ck(now == *was, || format!("an earlier value changed: from {} to {}", cut(was, 300), cut(&now, 300)))?;
    }
    s.sample(|| s_items(&items));
    Ok(())
}
/// Long histories of documents that share names in all roles.
pub fn long_history(c: &mut Ch, s: &mut Stats) -> Res {
    let mut n = 3 + c.pick(10);
    if let Some(m) = lits::size(c, 40) {
        n = m;
    }
    let mut seen: BTreeMap<String, (usize, Box<dyn pcore::entry::Val + Send>, Tree, String)> = BTreeMap::new();
    for i in 0..n {
        let t = any_doc(c);
        let e = doc_entry(&t);
        let text = print::text(&t);
        s.input = text.clone();
        let v = must_read(e, &t, &text)?;
        let dbg = v.debug();
        seen.insert(text, (i, v, t, dbg));
        // Names come and go between.
        for k in 0..c.pick(4) {
            let _ = Name::new(format!("h{}-{k}", c.next() % 5000));
        }
        for (text, (_, v, t, dbg)) in &seen {
            ck(v.tree() == *t && v.debug() == *dbg, || format!("the value of an earlier document changed: {}", cut(text, 300)))?;
        }
    }
    for (text, (_, v, t, _)) in &seen {
        let e = doc_entry(t);
        let again = must_read(e, t, text)?;
        ck(again.same(&**v), || format!("{} parsed again differs: {} and {}", cut(text, 300), v.debug(), again.debug()))?;
    }
    s.case(seen.keys().collect::<Vec<_>>(), seen.len() > 2);
    s.max("most documents in a history", seen.len() as f64);
    s.sample(|| seen.keys().map(|k| cut(k, 150)).collect::<Vec<_>>().join(" ---- "));
    let _ = Ordering::Equal;
    Ok(())
}
