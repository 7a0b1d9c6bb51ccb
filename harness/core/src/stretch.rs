//! Making one part of a syntax tree long or deep, to sizes at which code may change its behaviour.
use crate::choice::{mix, Ch};
use crate::gen::con_skeleton_has_leaf;
use crate::lits::{self, lits};
use crate::mutate::{list_from, vocabulary};
use crate::tree::*;

const SIZES: &[usize] = &[
    16, 20, 33, 64, 65, 100, 129, 256, 257, 300, 32, 128, 255, 513, 1025, 17, 130, 260, 2049, 5000, 65_600,
];
/// A size near some power of two or ten.
pub fn size(c: &mut Ch, max: usize) -> usize {
    if !lits().sizes.is_empty() && c.pick(2) == 1 {
        if let Some(n) = lits::size(c, max) {
            return n;
        }
    }
    let n = SIZES[c.pick(SIZES.len())] + c.pick(3);
    if n <= max {
        n
    } else {
        let small = SIZES.iter().copied().filter(|s| *s <= max).max().unwrap_or(max);
        small.min(max)
    }
}

struct Spot {
    path: Vec<usize>,
    /// What can be stretched: the kind of the list, "name" or "in " and the kind of the formula.
    what: String,
}

fn letter(k: &str) -> Option<&'static str> {
    Some(match k {
        "ft" => "ft",
        _ if k.starts_with("g.") => "g",
        _ if k.starts_with("p.") => "p",
        _ if k.starts_with("e.") => "e",
        _ if k.starts_with("x.") => "x",
        _ if k.starts_with("xd.") && k != "xd.assign" => "xd",
        _ if k.starts_with("m.") => "m",
        _ if k.starts_with("dg.") => "dg",
        _ if k.starts_with("de.") => "de",
        _ if k.starts_with("c.") => "c",
        _ if k.starts_with("pc.") => "pc",
        _ if k.starts_with("s.") => "s",
        _ => return None,
    })
}
fn spots(t: &Tree, parent: &str, idx: usize, p: &mut Vec<usize>, out: &mut Vec<Spot>) {
    let mut add = |what: String| out.push(Spot { path: p.clone(), what });
    match t {
        A(_) => {
            if !parent.is_empty() && vocabulary(parent, idx).is_none() {
                add(format!("name in {parent}"));
            }
        }
        L(k, v) => {
            if list_from(k).is_some_and(|f| v.len() > f) {
                add(k.to_string());
            }
            if let Some(x) = letter(k) {
                let ok = match x {
                    _ if parent.is_empty() => false,
                    "x" => parent != "xd.x",
                    "c" => parent != "pc.goal",
                    _ => true,
                };
                if ok {
                    add(format!("in {x}"));
                }
            }
            for (i, x) in v.iter().enumerate() {
                p.push(i);
                spots(x, k, i, p, out);
                p.pop();
            }
        }
        _ => {}
    }
}
fn edit(t: &Tree, p: &[usize], parent: &str, f: &mut dyn FnMut(&Tree, &str) -> Tree) -> Tree {
    match (p, t) {
        ([], _) => f(t, parent),
        ([i, rest @ ..], L(k, v)) => {
            let mut v = v.clone();
            v[*i] = edit(&v[*i], rest, k, f);
            L(k, v)
        }
        _ => unreachable!(),
    }
}
/// A copy that differs from other copies, where there is a name or number to change.
fn copy(t: &Tree, parent: &str, at: usize, n: usize) -> Tree {
    fn go(t: &Tree, parent: &str, idx: usize, n: usize, done: &mut bool) -> Tree {
        if *done {
            return t.clone();
        }
        match t {
            A(s) if vocabulary(parent, idx).is_none() => {
                *done = true;
                A(format!("{s}{n}"))
            }
            N(_) => {
                *done = true;
                N((n as f32).to_bits())
            }
            L(k, v) => L(k, v.iter().enumerate().map(|(i, x)| go(x, k, i, n, done)).collect()),
            _ => t.clone(),
        }
    }
    go(t, parent, at, n, &mut false)
}
fn tl() -> Tree {
    l("tl", [])
}
fn wrap(x: Tree, k: &str, parent: &str, n: usize, c: &mut Ch) -> Tree {
    let seed = c.next() as u64;
    // One construct only, or several in turn.
    let several = c.pick(2) == 1;
    let first = c.pick(12);
    let mut t = x;
    for i in 0..n {
        let outermost = i + 1 == n;
        let r = if several { mix(seed ^ i as u64) as usize % 12 } else { first };
        t = match k {
            "g" if outermost => l("g.not", [t]),
            "g" => match r % 7 {
                0 => l("g.not", [t]),
                1 => l("g.and", [t]),
                2 => l("g.or", [t]),
                3 => l("g.imply", [l("g.af", [l("pred", [a("q")])]), t]),
                4 => l("g.imply", [t, l("g.af", [l("pred", [a("q")])])]),
                5 => l("g.exists", [tl(), t]),
                _ => l("g.forall", [tl(), t]),
            },
            "p" => l("p.forall", [tl(), l("pre", [t])]),
            "e" => l("e.forall", [tl(), l("effs", [t])]),
            "x" | "xd" | "m" => {
                let one = N(1f32.to_bits());
                let (neg, bin, multi, leaf) = match k {
                    "x" => ("x.neg", "x.bin", "x.multi", l("x.n", [one])),
                    "xd" => ("xd.neg", "xd.bin", "xd.multi", l("xd.dur", [])),
                    _ => ("m.neg", "m.bin", "m.multi", l("m.n", [one])),
                };
                match r % 4 {
                    0 => l(neg, [t]),
                    1 => l(bin, [a("-"), leaf, t]),
                    2 => l(bin, [a("/"), t, leaf]),
                    _ => l(multi, [a("+"), leaf.clone(), t, leaf]),
                }
            }
            "dg" if r % 2 == 0 => l("dg.and", [t]),
            "dg" => l("dg.forall", [tl(), t]),
            "de" if r % 2 == 0 => l("de.all", [t]),
            "de" => l("de.forall", [tl(), t]),
            "c" => {
                let leaf = con_skeleton_has_leaf(&t);
                match r % 5 {
                    0 => l("c.and", [t]),
                    1 => l("c.forall", [tl(), t]),
                    2 if leaf => l("c.always", [l("k.n", [t])]),
                    3 if leaf => l("c.within", [N(2f32.to_bits()), l("k.n", [t])]),
                    4 if leaf => l("c.sometime-before", [l("k.n", [t]), l("k.g", [l("g.af", [l("pred", [a("q")])])])]),
                    _ => l("c.and", [t]),
                }
            }
            "pc" => l("pc.forall", [tl(), l("pcs", [t])]),
            "s" => l("s.at", [a(if r % 2 == 0 { "start" } else { "end" }), t]),
            "ft" => l("ft", [a("f"), t]),
            _ => t,
        };
        let _ = parent;
    }
    t
}

/// The tree with one part stretched, and which. At most about `budget` more nodes.
pub fn stretch(t: &Tree, budget: usize, c: &mut Ch) -> Option<(Tree, String)> {
    let mut all = vec![];
    spots(t, "", 0, &mut vec![], &mut all);
    if all.is_empty() {
        return None;
    }
    let way = c.pick(8);
    let pref = |w: &str| match way {
        0..=4 => !w.starts_with("name") && !w.starts_with("in "),
        5 | 6 => w.starts_with("in "),
        _ => w.starts_with("name"),
    };
    if all.iter().any(|s| pref(&s.what)) {
        all.retain(|s| pref(&s.what));
    }
    // First what, then where, so that rare things get their share.
    let mut kinds: Vec<&str> = all.iter().map(|s| s.what.as_str()).collect();
    kinds.sort();
    kinds.dedup();
    let kind = kinds[c.pick(kinds.len())].to_string();
    all.retain(|s| s.what == kind);
    let spot = &all[c.pick(all.len())];
    let mut n = 0;
    let r = edit(t, &spot.path, "", &mut |x, parent| match x {
        A(s) => {
            n = size(c, budget);
            let seed = c.next() as u64;
            let more: String = (0..n)
                .map(|i| b"abcxyz019-_"[mix(seed ^ i as u64) as usize % 11] as char)
                .collect();
            A(format!("{s}{more}"))
        }
        L(k, v) if !kind.starts_with("in ") => {
            let f = list_from(k).unwrap();
            n = size(c, budget);
            let i = f + c.pick(v.len() - f);
            let mut e = &v[i];
            if e.size() * n > budget {
                e = v[f..].iter().min_by_key(|x| x.size()).unwrap();
                n = n.min((budget / e.size()).max(16));
            }
            let at = f + c.pick(v.len() - f + 1);
            let mut r = v[..at].to_vec();
            r.extend((0..n).map(|i| copy(e, k, f, i)));
            r.extend_from_slice(&v[at..]);
            L(k, r)
        }
        _ => {
            n = size(c, (budget / 4).min(1100));
            wrap(x.clone(), &kind[3..], parent, n, c)
        }
    });
    let class = match n {
        0..=63 => "to 63",
        64..=254 => "to 254",
        255..=999 => "to 999",
        1000..=65_534 => "to 65534",
        _ => "beyond 65534",
    };
    Some((r, format!("stretched {kind} {class}")))
}

/// A text with one gap between tokens made long.
pub fn stretch_gap(tokens: &[String], c: &mut Ch) -> String {
    let n = size(c, 70_000);
    let mut k = c.pick(tokens.len() + 1);
    if crate::print::metric_gap(tokens, k) {
        k += 1;
    }
    let unit = [" ", "\n", "\r\n", "\t", ";\n", "; c\n", " \n  ; (\n"][c.pick(7)];
    let mut s = String::new();
    for (i, t) in tokens.iter().enumerate() {
        if i == k {
            gap(&mut s, unit, n, c.pick(6));
        } else if i > 0 {
            s.push(' ');
        }
        s.push_str(t);
    }
    if k == tokens.len() {
        gap(&mut s, unit, n, c.pick(6));
    }
    s
}
fn gap(s: &mut String, unit: &str, n: usize, long: usize) {
    s.push(' ');
    if long == 5 {
        // One long comment.
        s.push(';');
        s.extend(std::iter::repeat_n('é', n));
        s.push('\n');
    } else {
        s.extend(std::iter::repeat_n(unit, n));
    }
}
