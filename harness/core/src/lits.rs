//! A dictionary of literals from the sources under test: numbers that code may compare sizes or
//! values with and texts that it may treat specially. It only directs the generators, as the
//! automatic dictionaries of fuzzers do; what is right is decided without it. Literals that are
//! known already (all of them have their place in the generators) are left out, so it is empty
//! unless the sources have changed.
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::sync::OnceLock;

#[derive(Default, Clone, PartialEq, Debug)]
pub struct Lits {
    /// Whole numbers from 2 up to 100 million.
    pub sizes: Vec<usize>,
    /// Numbers as such.
    pub floats: Vec<f32>,
    pub words: Vec<String>,
}
const KNOWN: &str = include_str!("known_literals.txt");

pub fn lits() -> &'static Lits {
    static L: OnceLock<Lits> = OnceLock::new();
    L.get_or_init(|| match std::env::var("VH_LITERALS") {
        Ok(s) => from_lines(&s),
        Err(_) => {
            let known: BTreeSet<&str> = KNOWN.lines().collect();
            let all = scan(&std::env::var("VH_SOURCES").unwrap_or_else(|_| "/repo/src".into()));
            from_lines(&all.iter().filter(|l| !known.contains(l.as_str())).cloned().collect::<Vec<_>>().join("\n"))
        }
    })
}
impl Lits {
    pub fn is_empty(&self) -> bool {
        self.sizes.is_empty() && self.words.is_empty() && self.floats.is_empty()
    }
    /// One line per literal, as in the file of the known ones.
    pub fn lines(&self) -> Vec<String> {
        let mut r: Vec<String> = self.sizes.iter().map(|n| format!("n {n}")).collect();
        r.extend(self.floats.iter().map(|x| format!("f {}", x.to_bits())));
        r.extend(self.words.iter().map(|w| format!("w {}", esc(w))));
        r
    }
}
fn esc(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '\\' | '\n' | '\r' => {
                let _ = write!(r, "\\{};", c as u32);
            }
            c => r.push(c),
        }
    }
    r
}
fn unesc(s: &str) -> String {
    let mut r = String::new();
    let mut i = s.chars();
    while let Some(c) = i.next() {
        if c == '\\' {
            let n: String = i.by_ref().take_while(|c| *c != ';').collect();
            r.push(n.parse().ok().and_then(char::from_u32).unwrap_or('?'));
        } else {
            r.push(c);
        }
    }
    r
}
fn from_lines(s: &str) -> Lits {
    let mut l = Lits::default();
    for x in s.lines() {
        match x.split_once(' ') {
            Some(("n", n)) => l.sizes.extend(n.parse::<usize>()),
            Some(("f", n)) => l.floats.extend(n.parse::<u32>().map(f32::from_bits)),
            Some(("w", w)) => l.words.push(unesc(w)),
            _ => {}
        }
    }
    l
}
/// The literals of all source files under a directory, without tests and comments.
pub fn scan(dir: &str) -> BTreeSet<String> {
    let mut out = Lits::default();
    let mut todo = vec![std::path::PathBuf::from(dir)];
    while let Some(p) = todo.pop() {
        if p.is_dir() {
            todo.extend(std::fs::read_dir(&p).into_iter().flatten().flatten().map(|e| e.path()));
        } else if p.extension().is_some_and(|e| e == "rs") {
            let t = std::fs::read_to_string(&p).unwrap_or_default();
            let end = t.find("#[cfg(test)]\nmod ").unwrap_or(t.len());
            literals(&t[..end], &mut out);
        }
    }
    out.lines().into_iter().collect()
}
fn number(l: &mut Lits, v: f64, whole: bool) {
    if whole && (2.0..=1e8).contains(&v) {
        l.sizes.push(v as usize);
    }
    let x = v as f32;
    if x.is_finite() {
        l.floats.push(x);
    }
}
fn word(l: &mut Lits, s: &str) {
    if s.is_empty() || s.len() > 300 {
        return;
    }
    l.words.push(s.to_string());
    for w in s.split(|c: char| c.is_whitespace() || "()".contains(c)) {
        if !w.is_empty() && w != s {
            l.words.push(w.to_string());
        }
    }
}
fn literals(t: &str, out: &mut Lits) {
    let s: Vec<char> = t.chars().collect();
    let at = |i: usize| s.get(i).copied().unwrap_or('\0');
    let ident = |c: char| c.is_alphanumeric() || c == '_';
    let mut i = 0;
    // The last whole number and the operator that follows it.
    let mut last: Option<f64> = None;
    let mut op = '\0';
    while i < s.len() {
        let c = s[i];
        if c == '/' && at(i + 1) == '/' {
            while i < s.len() && s[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if c == '/' && at(i + 1) == '*' {
            i += 2;
            while i < s.len() && !(s[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
            continue;
        }
        if c == '"' {
            i = string(&s, i, out);
            last = None;
            continue;
        }
        if c == '\'' {
            // A character or a lifetime.
            if at(i + 1) == '\\' {
                let mut j = i + 2;
                let mut e = String::from("\\");
                while j < s.len() && (s[j] != '\'' || j == i + 2) {
                    e.push(s[j]);
                    j += 1;
                }
                word(out, &escapes(&e));
                i = j + 1;
            } else if at(i + 2) == '\'' {
                word(out, &at(i + 1).to_string());
                i += 3;
            } else {
                i += 1;
            }
            last = None;
            continue;
        }
        if c.is_ascii_digit() {
            let mut j = i;
            while ident(at(j)) || (at(j) == '.' && at(j + 1).is_ascii_digit()) || ("+-".contains(at(j)) && "eE".contains(at(j - 1)) && !s[i..j].contains(&'x')) {
                j += 1;
            }
            let raw: String = s[i..j].iter().filter(|c| **c != '_').collect();
            i = j;
            let mut num = raw.as_str();
            for suffix in ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize", "f32", "f64"] {
                num = num.strip_suffix(suffix).filter(|n| !n.is_empty()).unwrap_or(num);
            }
            let radix = match num.get(..2) {
                Some("0x") => 16,
                Some("0o") => 8,
                Some("0b") => 2,
                _ => 10,
            };
            let value = if radix == 10 {
                num.parse::<f64>().ok()
            } else {
                u64::from_str_radix(&num[2..], radix).ok().map(|v| v as f64)
            };
            if let Some(v) = value {
                let whole = v.fract() == 0.0;
                number(out, v, whole);
                if let (Some(x), true) = (last, whole) {
                    match op {
                        '<' => number(out, x * 2f64.powi(v as i32), true),
                        '*' => number(out, x * v, true),
                        '+' => number(out, x + v, true),
                        _ => {}
                    }
                }
                last = whole.then_some(v);
                op = '\0';
            }
            continue;
        }
        if ident(c) {
            let mut j = i;
            while ident(at(j)) {
                j += 1;
            }
            let id: String = s[i..j].iter().collect();
            if (id == "r" || id == "b" || id == "br") && (at(j) == '"' || at(j) == '#') {
                if id.contains('r') {
                    let hashes = s[j..].iter().take_while(|c| **c == '#').count();
                    if at(j + hashes) == '"' {
                        let from = j + hashes + 1;
                        let mut k = from;
                        while k < s.len() && !(s[k] == '"' && s[k + 1..].iter().take_while(|c| **c == '#').count() >= hashes) {
                            k += 1;
                        }
                        word(out, &s[from..k.min(s.len())].iter().collect::<String>());
                        i = k + 1 + hashes;
                        continue;
                    }
                } else if at(j) == '"' {
                    i = string(&s, j, out);
                    continue;
                }
            }
            let rest: String = s[j..(j + 5).min(s.len())].iter().collect();
            if rest == "::MAX" {
                let v = match id.as_str() {
                    "u8" => 255.0,
                    "i8" => 127.0,
                    "u16" => 65_535.0,
                    "i16" => 32_767.0,
                    "u32" => u32::MAX as f64,
                    "i32" => i32::MAX as f64,
                    _ => 0.0,
                };
                if v > 0.0 {
                    number(out, v, true);
                }
            }
            i = j;
            last = None;
            continue;
        }
        match c {
            '<' | '*' | '+' => op = c,
            c if c.is_whitespace() => {}
            _ => last = None,
        }
        i += 1;
    }
    for v in [&mut out.words] {
        v.sort();
        v.dedup();
    }
    out.sizes.sort_unstable();
    out.sizes.dedup();
    out.floats.sort_by(f32::total_cmp);
    out.floats.dedup_by_key(|x| x.to_bits());
}
/// Reads a string literal that begins at `i` and returns where it ends.
fn string(s: &[char], i: usize, out: &mut Lits) -> usize {
    let mut j = i + 1;
    let mut t = String::new();
    while j < s.len() && s[j] != '"' {
        t.push(s[j]);
        if s[j] == '\\' && j + 1 < s.len() {
            j += 1;
            t.push(s[j]);
        }
        j += 1;
    }
    word(out, &escapes(&t));
    j + 1
}
fn escapes(t: &str) -> String {
    let mut r = String::new();
    let mut i = t.chars().peekable();
    while let Some(c) = i.next() {
        if c != '\\' {
            r.push(c);
            continue;
        }
        match i.next() {
            Some('n') => r.push('\n'),
            Some('r') => r.push('\r'),
            Some('t') => r.push('\t'),
            Some('0') => r.push('\0'),
            Some('x') => {
                let h: String = i.by_ref().take(2).collect();
                r.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some('u') => {
                let h: String = i.by_ref().take_while(|c| *c != '}').filter(|c| *c != '{').collect();
                r.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some('\n') => while i.next_if(|c| c.is_whitespace()).is_some() {},
            Some(c) => r.push(c),
            None => {}
        }
    }
    r
}

use crate::choice::Ch;
/// A size near one of the dictionary's, if there are any.
pub fn size(c: &mut Ch, max: usize) -> Option<usize> {
    let v = &lits().sizes;
    if v.is_empty() {
        return None;
    }
    let n = v[c.pick(v.len())];
    let n = [n, n + 1, n.saturating_sub(1), n + 2, n * 2, n + n / 2][c.pick(6)];
    (n <= max).then_some(n)
}
/// One of the dictionary's texts, perhaps with something around it.
pub fn text(c: &mut Ch) -> Option<String> {
    let v = &lits().words;
    if v.is_empty() {
        return None;
    }
    let w = &v[c.pick(v.len())];
    Some(match c.pick(8) {
        0..=2 => w.clone(),
        3 => format!("{w}{}", ["x", "-a", "1", "_", "s"][c.pick(5)]),
        4 => format!("{}{w}", ["x", "a-", "n1", "x_"][c.pick(4)]),
        5 => format!("a{w}b"),
        6 => w.to_uppercase(),
        _ => {
            let n = w.chars().count();
            w.chars().take(c.pick(n + 1)).collect()
        }
    })
}
/// One of the dictionary's texts as a name.
pub fn name(c: &mut Ch) -> Option<String> {
    let t = text(c)?;
    let t: String = t.trim_start_matches(|c: char| !c.is_ascii_alphabetic()).chars()
        .take_while(|c| c.is_ascii_alphanumeric() || *c == '-' || *c == '_').collect();
    (!t.is_empty()).then_some(t)
}
/// A number near one of the dictionary's.
pub fn float(c: &mut Ch) -> Option<f32> {
    let v = &lits().floats;
    if v.is_empty() {
        return None;
    }
    let x = v[c.pick(v.len())];
    let y = match c.pick(8) {
        0..=2 => x,
        3 => x + 1.0,
        4 => x - 1.0,
        5 => f32::from_bits(x.to_bits().wrapping_add(1)),
        6 => f32::from_bits(x.to_bits().wrapping_sub(1)),
        _ => -x,
    };
    y.is_finite().then_some(y)
}
