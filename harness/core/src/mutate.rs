//! Changing one part of a syntax tree so that it still is a value of the same type.
use crate::choice::Ch;
use crate::gen::{vary, ASSIGN, COMP, DOPS, OPS, REQUIREMENTS};
use crate::tree::*;

/// Where the elements of a list start, for nodes that are lists.
pub fn list_from(k: &str) -> Option<usize> {
    Some(match k {
        "either" | "tl" | "ftl" | "g.and" | "g.or" | "effs" | "pre" | "pcs" | "ce.all" | "d.all" | "dg.and"
        | "de.all" | "c.and" | "inits" | "preds" | "structs" | "timeless" | "reqs" | "ext" => 0,
        "pred" | "ft" | "hw" | "bft" | "m.f" => 1,
        "x.multi" | "xd.multi" | "m.multi" => 2,
        _ => return None,
    })
}
pub fn vocabulary(parent: &str, i: usize) -> Option<&'static [&'static str]> {
    Some(match (parent, i) {
        ("x.bin" | "xd.bin" | "m.bin", 0) => OPS,
        ("x.multi" | "xd.multi" | "m.multi", 0) => &["+", "*"],
        ("g.fcomp", 0) => COMP,
        ("pe.num" | "fassign" | "xd.assign", 0) | ("te.num", 1) => ASSIGN,
        ("te.cont", 0) => &["increase", "decrease"],
        ("s.op", 0) => DOPS,
        ("te.num" | "te.cond" | "t.at" | "s.at", 0) => &["start", "end"],
        ("metric", 0) => &["minimize", "maximize"],
        ("reqs", _) => REQUIREMENTS,
        _ => return None,
    })
}
const TWINS: &[&[&str]] = &[
    &["+", "-"],
    &["g.and", "g.or"],
    &["g.exists", "g.forall"],
    &["pe.add", "pe.del"],
    &["c.always", "c.sometime", "c.at-most-once"],
    &["c.within", "c.hold-after"],
    &["c.sometime-after", "c.sometime-before"],
];
fn swappable(k: &str) -> Option<(usize, usize)> {
    Some(match k {
        "x.bin" | "xd.bin" | "m.bin" | "g.fcomp" | "c.always-within" => (1, 2),
        "g.imply" | "eq" | "c.sometime-after" | "c.sometime-before" | "c.hold-during" | "length" => (0, 1),
        _ => return None,
    })
}
fn swap(v: &[Tree], i: usize, j: usize) -> Vec<Tree> {
    let mut v = v.to_vec();
    v.swap(i, j);
    v
}

/// Other values of the same type that differ from a node in one respect.
fn options(t: &Tree, parent: &str, idx: usize, c: &mut Ch) -> Vec<Tree> {
    let mut r = vec![];
    match t {
        A(s) => match vocabulary(parent, idx) {
            Some(v) => r.extend(v.iter().map(|x| a(*x))),
            None => {
                r.push(A(format!("{s}x")));
                r.push(A(format!("x{s}")));
                let mut up: String = s.clone();
                if let Some(f) = s.chars().next() {
                    let f2: String = if f.is_uppercase() { f.to_lowercase().collect() } else { f.to_uppercase().collect() };
                    up = f2 + &s[f.len_utf8()..];
                }
                r.push(A(up));
                let mut short = s.clone();
                short.pop();
                if !short.is_empty() {
                    r.push(A(short));
                }
                let near = vary(c, s);
                if crate::refp::is_name(&near) {
                    r.push(A(near));
                }
                r.push(a(["object", "number", "a", "b"][c.pick(4)]));
            }
        },
        N(b) => {
            let v = f32::from_bits(*b);
            r.extend([v + 1.0, v * 2.0, 0.0, 0.5, f32::MAX, f32::from_bits(b + 1)].iter().filter(|x| x.is_finite()).map(|x| N(x.to_bits())));
        }
        U(u) => r.extend([u.wrapping_add(1), u / 2, u64::MAX, 0].map(U)),
        L(k, v) => {
            if let Some(f) = list_from(k) {
                let n = v.len() - f.min(v.len());
                if n > 0 {
                    let i = f + c.pick(n);
                    let j = f + c.pick(n);
                    // Constructors that ask for one element at least.
                    let one = matches!(*k, "m.multi" | "d.all");
                    if n > usize::from(one) {
                        let mut x = v.clone();
                        x.remove(i);
                        r.push(L(k, x));
                    }
                    if !one {
                        r.push(L(k, v[..f].to_vec()));
                    }
                    let mut x = v.clone();
                    x.insert(j, v[i].clone());
                    r.push(L(k, x));
                    r.push(L(k, swap(v, i, j)));
                    r.push(L(k, swap(v, f, v.len() - 1)));
                }
            }
            if let Some((i, j)) = swappable(k) {
                r.push(L(k, swap(v, i, j)));
            }
            if let Some(g) = TWINS.iter().find(|g| g.contains(k)) {
                r.extend(g.iter().map(|k| L(k, v.clone())));
            }
            match *k {
                "some" => r.push(none()),
                "g.not" => r.push(v[0].clone()),
                "g.af" | "g.fcomp" => r.push(l("g.not", [t.clone()])),
                "p.goal" => r.push(l("p.pref", [none(), v[0].clone()])),
                "pc.goal" => r.push(l("pc.pref", [none(), v[0].clone()])),
                "pt.req" => r.push(l("pt.pref", [none(), v[0].clone()])),
                "h" => r.push(L("hw", v.clone())),
                "hw" if v.len() == 1 => r.push(L("h", v.clone())),
                "d.single" => r.push(L("d.all", v.clone())),
                "ce.single" => r.push(L("ce.all", v.clone())),
                "t.over" => r.push(l("t.at", [a("start"), v[0].clone()])),
                "t.at" => r.push(l("t.over", [v[1].clone()])),
                "x.neg" | "xd.neg" | "m.neg" => r.push(v[0].clone()),
                "x.n" => r.push(l("x.neg", [t.clone()])),
                "xd.dur" => r.push(l("xd.x", [l("x.n", [N(1f32.to_bits())])])),
                "xt.now" => r.push(l("xt.scaled", [l("x.n", [N(1f32.to_bits())])])),
                "m.total" => r.push(l("m.f", [a("total-time")])),
                "m.viol" => r.push(L("m.f", v.clone())),
                "c.at-end" => r.push(l("c.always", [l("k.g", [v[0].clone()])])),
                "k.n" if v[0].is("c.at-end") => r.push(l("k.g", [v[0].at(0).clone()])),
                "k.g" => r.push(l("k.n", [l("c.at-end", [v[0].clone()])])),
                "var" if parent != "t" && parent != "" => r.push(v[0].clone()),
                "i.lit" => r.push(l("i.at", [N(1f32.to_bits()), v[0].clone()])),
                "x.bin" | "xd.bin" | "m.bin" if v[0] == a("+") || v[0] == a("*") => {
                    let k = match *k {
                        "x.bin" => "x.multi",
                        "xd.bin" => "xd.multi",
                        _ => "m.multi",
                    };
                    r.push(L(k, v.clone()));
                }
                _ => {}
            }
        }
    }
    // The whole value stays of its kind.
    r.retain(|x| x != t && (parent != "" || x.kind() == t.kind()));
    r
}

fn path(t: &Tree, n: &mut usize, p: &mut Vec<usize>) -> bool {
    if *n == 0 {
        return true;
    }
    *n -= 1;
    for (i, k) in t.kids().iter().enumerate() {
        p.push(i);
        if path(k, n, p) {
            return true;
        }
        p.pop();
    }
    false
}
fn replace(t: &Tree, p: &[usize], x: Tree) -> Tree {
    match (p, t) {
        ([], _) => x,
        ([i, rest @ ..], L(k, v)) => {
            let mut v = v.clone();
            v[*i] = replace(&v[*i], rest, x);
            L(k, v)
        }
        _ => unreachable!(),
    }
}

/// A tree that differs in one part, and what was changed.
pub fn mutate(t: &Tree, c: &mut Ch) -> Option<(Tree, String)> {
    let size = t.size();
    for _ in 0..20 {
        let mut n = c.pick(size);
        let mut p = vec![];
        path(t, &mut n, &mut p);
        let mut node = t;
        let mut parent = "";
        for i in &p {
            parent = node.kind();
            node = node.at(*i);
        }
        let o = options(node, parent, p.last().copied().unwrap_or(0), c);
        if o.is_empty() {
            continue;
        }
        let x = o[c.pick(o.len())].clone();
        let what = format!("{}/{}", parent, node.kind());
        return Some((replace(t, &p, x), what));
    }
    None
}
