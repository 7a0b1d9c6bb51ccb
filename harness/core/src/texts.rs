//! Arbitrary texts: garbage, token soup, and documents that have been tampered with.
use crate::choice::Ch;
use crate::doc::*;
use crate::entry::{entries, Entry};
use crate::gen::G;
use crate::lits::{self, lits};
use crate::print::{lay, tokens_styled};
use std::sync::OnceLock;

pub fn table() -> &'static Vec<Entry> {
    static T: OnceLock<Vec<Entry>> = OnceLock::new();
    T.get_or_init(entries)
}
pub fn entry(name: &str) -> &'static Entry {
    table().iter().find(|e| e.name == name).unwrap_or_else(|| panic!("no entry {name}"))
}

/// Tokens of the language and some that nearly are.
pub const VOCAB: &[&str] = &[
    "(", ")", "-", "=", "<", ">", "<=", ">=", "+", "*", "/", "?x", "?y", "?duration", "#t", "0", "1",
    "2.5", "a", "b", "p", "object", "number", "either", "undefined", "and", "or", "not", "imply",
    "exists", "forall", "when", "preference", "at", "over", "all", "start", "end", "always",
    "sometime", "within", "at-most-once", "sometime-after", "sometime-before", "always-within",
    "hold-during", "hold-after", "assign", "change", "scale-up", "scale-down", "increase",
    "decrease", "minimize", "maximize", "total-time", "is-violated", "define", "domain", "problem",
    ":domain", ":extends", ":requirements", ":types", ":constants", ":predicates", ":functions",
    ":constraints", ":action", ":durative-action", ":derived", ":parameters", ":precondition",
    ":effect", ":duration", ":condition", ":objects", ":init", ":goal", ":metric", ":length",
    ":serial", ":parallel", ":timeless", ":strips", ":typing", ":adl", ":fluents",
    ":negative-preconditions", ":disjunctive-preconditions", ":equality", ":existential-preconditions",
    ":universal-preconditions", ":quantified-preconditions", ":conditional-effects", ":numeric-fluents",
    ":object-fluents", ":durative-actions", ":duration-inequalities", ":continuous-effects",
    ":derived-predicates", ":timed-initial-literals", ":preferences", ":action-costs",
];
pub const ODD: &[&str] = &[
    "?", ":", "#", ".", "_", "-x", "=a", "1.", ".5", "1e5", "-1", "1.5.2", "99999999999999999999999999999999999999999",
    "18446744073709551616", "é", "日本", "\u{0}", "\"", ";", "; c\n", "\r", "\n", "\t", "\u{a0}", "\u{feff}", "\u{b}",
    "??x", "::a", "A", "AND", ":ACTION", "#T", "?DURATION", "'", "`", "\\", "|", "[", "]", "{", "}", "//", "/*",
    "0000000000000000000000000000000000000000000000000000001",
    "340282346638528859811704183484516925440", "340282366920938463463374607431768211456",
    "0.00000000000000000000000000000000000000000000000000000000000000000001", "\u{1f600}", "e\u{301}",
];

/// A token of the language, mostly in another spelling.
pub fn bent(k: usize) -> String {
    if !lits().words.is_empty() && k % 5 == 4 {
        let d = [k as u32 / 5, (k / 5 + k / 77) as u32, k as u32 / 11];
        if let Some(t) = lits::text(&mut Ch::new(&d)) {
            return t;
        }
    }
    let t = VOCAB[(k / 16) % VOCAB.len()];
    match k % 16 {
        0 | 1 => t.to_uppercase(),
        2 => t.char_indices().map(|(i, c)| if i == usize::from(t.starts_with(':')) { c.to_ascii_uppercase() } else { c }).collect(),
        3 | 4 => t.char_indices().map(|(i, c)| if k >> (10 + i % 12) & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect(),
        5 => t.split('-').enumerate().map(|(i, p)| if i == 0 { p.to_string() } else { p.to_uppercase() }).collect::<Vec<_>>().join("-"),
        6 => t.replace('-', "_"),
        7 => t.replace('-', ""),
        8 => format!("{t}x"),
        9 => format!("{t}-"),
        10 => format!("x{t}"),
        11 => t.chars().take(t.chars().count().saturating_sub(1)).collect(),
        12 => t.chars().skip(1).collect(),
        13 => format!("{t}{t}"),
        14 => format!("{t}\u{e9}"),
        _ => t.to_string(),
    }
}

/// Some text: garbage, token soup, or a document or part of one that has been tampered with.
pub fn some_text(c: &mut Ch) -> String {
    match c.pick(6) {
        0 => {
            // Characters.
            let n = c.left().min(300);
            let mut s = String::new();
            for _ in 0..n {
                let k = c.next();
                match k % 8 {
                    0 | 1 => s.push(b"()?:-; \n"[(k >> 8) as usize % 8] as char),
                    2..=4 => s.push((32 + (k >> 8) % 95) as u8 as char),
                    5 => s.push(((k >> 8) % 32) as u8 as char),
                    _ => s.push(char::from_u32((k >> 8) % 0x11_0000).unwrap_or('\u{fffd}')),
                }
            }
            s
        }
        1 => {
            let mut s = String::new();
            for _ in 0..c.left().min(200) {
                let k = c.next() as usize;
                match k % 8 {
                    7 => s.push_str(ODD[(k / 8) % ODD.len()]),
                    6 => s.push_str(&bent(k / 8)),
                    _ => s.push_str(VOCAB[(k / 8) % VOCAB.len()]),
                }
                if k % 3 > 0 {
                    s.push(' ');
                }
            }
            s
        }
        k => {
            let times = [0, 1, 1, 2, 3, 6][c.pick(6)];
            let edits: Vec<(usize, usize, usize)> = (0..times)
                .map(|_| (c.next() as usize, c.pick(8), c.next() as usize))
                .collect();
            let st = style(c);
            let t = if k == 2 {
                any_doc(c)
            } else {
                let e = &table()[c.pick(table().len())];
                let mut g = G::new(c);
                let d = g.depth();
                (e.gen)(&mut g, d)
            };
            let toks = tokens_styled(&t, &mut Ch::new(&st[0]));
            let mut s: Vec<char> = lay(&toks, &mut Ch::new(&st[1]), true).chars().collect();
            for (at, op, with) in edits {
                let i = at % (s.len() + 1);
                match op {
                    0 if i < s.len() => {
                        s.remove(i);
                    }
                    1 => s.truncate(i),
                    2 => {
                        let t = ODD[with % ODD.len()];
                        s.splice(i..i, t.chars());
                    }
                    3 => {
                        let t = VOCAB[with % VOCAB.len()];
                        s.splice(i..i, t.chars());
                    }
                    4 => s.splice(i..i, bent(with).chars()).for_each(drop),
                    5 => {
                        // The case of a whole word, or of one letter.
                        let word = |c: &char| c.is_alphanumeric() || "-_:?".contains(*c);
                        let mut j = i;
                        let one = with % 4 == 3;
                        while j < s.len() && word(&s[j]) && (!one || j == i) {
                            s[j] = if s[j].is_lowercase() { s[j].to_ascii_uppercase() } else { s[j].to_ascii_lowercase() };
                            j += 1;
                        }
                        let mut j = i;
                        while !one && j > 0 && word(&s[j - 1]) {
                            j -= 1;
                            s[j] = if s[j].is_lowercase() { s[j].to_ascii_uppercase() } else { s[j].to_ascii_lowercase() };
                        }
                    }
                    6 => {
                        // A word or parenthesis replaced.
                        let word = |c: &char| c.is_alphanumeric() || "-_:?".contains(*c);
                        let a = s[..i].iter().rposition(|c| !word(c)).map_or(0, |k| k + 1);
                        let b = s[i..].iter().position(|c| !word(c)).map_or(s.len(), |k| i + k);
                        s.splice(a..b, bent(with).chars());
                    }
                    _ => {
                        let j = (i + with % 20).min(s.len());
                        let part: Vec<char> = s[i..j].to_vec();
                        s.splice(i..i, part);
                    }
                }
            }
            s.into_iter().collect()
        }
    }
}

