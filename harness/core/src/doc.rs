//! Whole documents, complete or about one thing.
use crate::choice::Ch;
use crate::gen::G;
use crate::tree::*;

pub fn style(c: &mut Ch) -> [Vec<u32>; 2] {
    [c.fork(), c.fork()]
}
// ---- documents around a part ----

pub fn empty_domain() -> Vec<Tree> {
    vec![
        a("d"),
        l("ext", []),
        l("reqs", []),
        l("types", [l("tl", [])]),
        l("consts", [l("tl", [])]),
        l("preds", []),
        l("funcs", [l("ftl", [])]),
        l("constr", [l("c.and", [])]),
        l("structs", []),
    ]
}
pub fn empty_problem() -> Vec<Tree> {
    vec![
        a("p"),
        a("d"),
        l("reqs", []),
        l("objs", [l("tl", [])]),
        l("inits", []),
        l("pre", []),
        l("pcs", []),
        none(),
        none(),
    ]
}
fn plain_action(n: &str) -> Tree {
    let af = |k: &str| l("pred", [a(k), l("var", [a("x")])]);
    l(
        "action",
        [
            a(n),
            l("tl", [l("t", [l("var", [a("x")]), a("object")])]),
            l("pre", [l("p.goal", [l("g.af", [af("before")])])]),
            some(l("effs", [l("e.p", [l("pe.add", [af("after")])])])),
        ],
    )
}
/// A domain with this structure between others.
pub fn domain_of_structure(x: Tree, c: &mut Ch) -> Tree {
    let mut d = empty_domain();
    let mut v = vec![];
    if c.pick(3) == 2 {
        v.push(plain_action("first"));
    }
    v.push(x);
    if c.pick(3) == 2 {
        v.push(plain_action("last"));
    }
    d[8] = L("structs", v);
    L("domain", d)
}
/// A document that says one thing, by the property whose subject this is.
pub fn focused(which: &str, c: &mut Ch) -> Tree {
    let d = G::new(c).depth();
    let structure = |x: Tree, c: &mut Ch| domain_of_structure(x, c);
    let mut p = empty_problem();
    let mut dm = empty_domain();
    match which {
        "goals" => match c.pick(4) {
            0 | 1 => {
                let x = G::new(c).pre(d);
                if c.pick(2) == 0 {
                    let x = l("action", [a("a"), l("tl", []), x, none()]);
                    return structure(x, c);
                }
                p[5] = x;
            }
            2 => {
                let x = G::new(c).derived();
                return structure(x, c);
            }
            _ => {
                let g = G::new(c).goal(d);
                let x = l("derived", [l("pskel", [a("p"), l("tl", [])]), g]);
                return structure(x, c);
            }
        },
        "effects" => {
            let e = G::new(c).effects(d);
            let e = if c.pick(8) == 7 { none() } else { some(e) };
            let pre = if c.pick(4) == 3 { G::new(c).pre(d.min(3)) } else { l("pre", []) };
            let x = l("action", [a("a"), l("tl", []), pre, e]);
            return structure(x, c);
        }
        "durative" => {
            let x = G::new(c).durative_action();
            return structure(x, c);
        }
        "numeric" => match c.pick(6) {
            0 | 1 => {
                let x = G::new(c).metric();
                p[7] = some(x);
                if c.pick(3) == 2 {
                    p[8] = some(G::new(c).length());
                }
            }
            2 => p[8] = some(G::new(c).length()),
            3 => {
                let x = G::new(c).fcomp(d);
                p[5] = l("pre", [l("p.goal", [x])]);
            }
            4 => {
                let mut g = G::new(c);
                let op = a(g.c.of(crate::gen::ASSIGN));
                let h = g.head(2);
                let x = l("pe.num", [op, h, g.fexp(d)]);
                let x = l("action", [a("a"), l("tl", []), l("pre", []), some(l("effs", [l("e.p", [x])]))]);
                return structure(x, c);
            }
            _ => {
                let mut g = G::new(c);
                let t = a(g.c.of(&["start", "end"]));
                let op = a(g.c.of(crate::gen::ASSIGN));
                let h = g.head(2);
                let x = l("te.num", [t, op, h, g.fexp_da(d)]);
                let u = g.duration(d);
                let x = l("da", [a("a"), l("tl", []), u, none(), some(l("de.timed", [x]))]);
                return structure(x, c);
            }
        },
        "constraints" => {
            if c.pick(2) == 0 {
                dm[7] = l("constr", [G::new(c).con(d)]);
                return L("domain", dm);
            }
            p[6] = G::new(c).pref_cons(d);
        }
        "declarations" => match c.pick(6) {
            0 => dm[3] = l("types", [G::new(c).names()]),
            1 => dm[4] = l("consts", [G::new(c).names()]),
            2 => {
                let n = c.len(1);
                dm[5] = L("preds", (0..n).map(|_| G::new(c).pskel()).collect());
            }
            3 => dm[6] = l("funcs", [G::new(c).funs()]),
            4 => {
                let v = G::new(c).vars();
                let x = l("action", [a("a"), v, l("pre", []), none()]);
                return structure(x, c);
            }
            _ => p[3] = l("objs", [G::new(c).names()]),
        },
        "init" => p[4] = G::new(c).init(),
        k => panic!("focus {k}"),
    }
    if matches!(which, "declarations") && p[3].at(0).kids().is_empty() {
        return L("domain", dm);
    }
    L("problem", p)
}
pub const FOCI: &[&str] = &[
    "goals", "effects", "durative", "numeric", "constraints", "declarations", "init",
];
/// Any document: complete or about one thing.
pub fn any_doc(c: &mut Ch) -> Tree {
    match c.pick(6) {
        0 | 1 => G::new(c).domain(),
        2 | 3 => G::new(c).problem(),
        _ => {
            let f = FOCI[c.pick(FOCI.len())];
            focused(f, c)
        }
    }
}

