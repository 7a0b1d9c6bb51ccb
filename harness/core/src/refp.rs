//! An independent definition of the accepted language: decides whether a syntax tree is a reading
//! of a token sequence. It never parses; it only judges a proposed reading, so it can allow every
//! reading that the grammar gives to an ambiguous text.
use crate::gen;
use crate::tree::*;

#[derive(Debug, Clone)]
pub enum S<'a> {
    W(&'a str),
    P(Vec<S<'a>>),
}
use S::{P, W};

/// The nested structure of a complete sequence of tokens that starts with a parenthesis.
pub fn sexp<'a>(ts: &'a [String]) -> Option<S<'a>> {
    let mut stack: Vec<Vec<S<'a>>> = vec![];
    for (i, t) in ts.iter().enumerate() {
        match t.as_str() {
            "(" => stack.push(vec![]),
            ")" => {
                let v = stack.pop()?;
                match stack.last_mut() {
                    Some(p) => p.push(P(v)),
                    None => return (i + 1 == ts.len()).then_some(P(v)),
                }
            }
            w => stack.last_mut()?.push(W(w)),
        }
    }
    None
}

pub fn is_name(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty()
        && b[0].is_ascii_alphabetic()
        && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-' || *c == b'_')
}
pub fn is_numeral(s: &str) -> bool {
    let d = |s: &str| !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit());
    match s.split_once('.') {
        None => d(s),
        Some((i, f)) => d(i) && d(f),
    }
}
impl<'a> S<'a> {
    fn word(&self) -> Option<&'a str> {
        match self {
            W(w) => Some(w),
            P(_) => None,
        }
    }
    fn list(&self) -> Option<&[S<'a>]> {
        match self {
            W(_) => None,
            P(v) => Some(v),
        }
    }
    /// The elements after a keyword.
    fn after(&self, k: &str) -> Option<&[S<'a>]> {
        let v = self.list()?;
        (v.first()?.word()? == k).then(|| &v[1..])
    }
    fn is(&self, w: &str) -> bool {
        self.word() == Some(w)
    }
}

fn all<'a>(s: &[S<'a>], t: &[Tree], f: fn(&S<'a>, &Tree) -> bool) -> bool {
    s.len() == t.len() && s.iter().zip(t).all(|(s, t)| f(s, t))
}
fn name(s: &S, t: &Tree) -> bool {
    matches!((s.word(), t), (Some(w), A(n)) if is_name(w) && w == n)
}
fn word_in(s: &S, t: &Tree, of: &[&str]) -> bool {
    matches!((s.word(), t), (Some(w), A(n)) if w == n && of.contains(&w))
}
fn num(s: &S, t: &Tree) -> bool {
    match (s.word(), t) {
        (Some(w), N(b)) if is_numeral(w) => w
            .parse::<f32>()
            .is_ok_and(|v| v.is_finite() && (v.to_bits() == *b)),
        _ => false,
    }
}
fn var(s: &S, t: &Tree) -> bool {
    match s.word() {
        Some(w) => {
            t.is("var")
                && w.strip_prefix('?').is_some_and(|w| is_name(w) && w == t.at(0).text())
        }
        None => false,
    }
}
fn term(s: &S, t: &Tree) -> bool {
    match t.kind() {
        "var" => var(s, t),
        "ft" => fterm(s, t.kids()),
        _ => name(s, t),
    }
}
/// `(symbol term*)`
fn fterm(s: &S, t: &[Tree]) -> bool {
    match s.list() {
        Some([h, r @ ..]) => name(h, &t[0]) && all(r, &t[1..], term),
        _ => false,
    }
}
fn ty(s: &S, t: &Tree) -> bool {
    match t {
        A(_) => name(s, t),
        L("either", v) => s.after("either").is_some_and(|s| !s.is_empty() && all(s, v, name)),
        _ => false,
    }
}
fn typed<'a>(
    s: &[S<'a>],
    t: &Tree,
    default: &str,
    item: fn(&S<'a>, &Tree) -> bool,
) -> bool {
    let v = t.kids();
    let mut start = 0;
    let mut n = 0;
    let mut i = 0;
    while i < s.len() {
        if s[i].is("-") {
            let Some(y) = s.get(i + 1) else { return false };
            // A type must follow at least one item.
            if n == start || !v[start..n].iter().all(|x| ty(y, x.at(1))) {
                return false;
            }
            start = n;
            i += 2;
        } else {
            match v.get(n) {
                Some(x) if item(&s[i], x.at(0)) => n += 1,
                _ => return false,
            }
            i += 1;
        }
    }
    n == v.len() && v[start..].iter().all(|x| x.at(1) == &a(default))
}
fn vars(s: &[S], t: &Tree) -> bool {
    typed(s, t, "object", var)
}
fn pvars(s: &S, t: &Tree) -> bool {
    s.list().is_some_and(|s| vars(s, t))
}
fn skel(s: &S, t: &Tree) -> bool {
    match s.list() {
        Some([h, r @ ..]) => name(h, t.at(0)) && vars(r, t.at(1)),
        _ => false,
    }
}
fn af_of<'a>(s: &S<'a>, t: &Tree, item: fn(&S<'a>, &Tree) -> bool) -> bool {
    match (t, s.list()) {
        (L("eq", v), Some([e, r @ ..])) => e.is("=") && r.len() == 2 && all(r, v, item),
        (L("pred", v), Some([h, r @ ..])) => name(h, &v[0]) && all(r, &v[1..], item),
        _ => false,
    }
}
fn af(s: &S, t: &Tree) -> bool {
    af_of(s, t, term)
}
fn lit_of<'a>(s: &S<'a>, t: &Tree, item: fn(&S<'a>, &Tree) -> bool) -> bool {
    match t.kind() {
        "+" => af_of(s, t.at(0), item),
        "-" => match s.after("not") {
            Some([x]) => af_of(x, t.at(0), item),
            _ => false,
        },
        _ => false,
    }
}
fn lit_names(s: &S, t: &Tree) -> bool {
    lit_of(s, t, name)
}

fn goal(s: &S, t: &Tree) -> bool {
    let v = t.kids();
    match t.kind() {
        "g.af" => af(s, t.at(0)),
        "g.and" => s.after("and").is_some_and(|r| all(r, v, goal)),
        "g.or" => s.after("or").is_some_and(|r| all(r, v, goal)),
        "g.not" => matches!(s.after("not"), Some([x]) if goal(x, t.at(0))),
        "g.imply" => {
            matches!(s.after("imply"), Some([x, y]) if goal(x, t.at(0)) && goal(y, t.at(1)))
        }
        "g.exists" | "g.forall" => {
            matches!(s.after(&t.kind()[2..]), Some([x, y]) if pvars(x, t.at(0)) && goal(y, t.at(1)))
        }
        "g.fcomp" => match s.list() {
            Some([o, r @ ..]) => word_in(o, t.at(0), gen::COMP) && r.len() == 2 && all(r, &v[1..], fexp),
            _ => false,
        },
        // Literals are never a reading of their own: `(not (p))` is a negation of an atom.
        _ => false,
    }
}
/// Matches the items of a conjunction and its nested conjunctions; returns how many were used.
fn flat<'a>(
    s: &S<'a>,
    t: &[Tree],
    item: fn(&S<'a>, &Tree) -> bool,
    and_item: fn(&S<'a>, &Tree) -> bool,
) -> Option<usize> {
    if let Some(r) = s.after("and") {
        if t.first().is_some_and(|t| and_item(s, t)) {
            return Some(1);
        }
        let mut n = 0;
        for x in r {
            n += flat(x, &t[n..], item, and_item)?;
        }
        return Some(n);
    }
    item(s, t.first()?).then_some(1)
}
fn pre_item(s: &S, t: &Tree) -> bool {
    match t.kind() {
        "p.goal" => {
            let g = t.at(0);
            goal(s, g) && !g.is("g.and") && !g.is("g.forall")
        }
        "p.pref" => preference(s, t, goal),
        "p.forall" => matches!(s.after("forall"), Some([v, x]) if pvars(v, t.at(0)) && pre(x, t.at(1))),
        _ => false,
    }
}
fn preference<'a>(s: &S<'a>, t: &Tree, f: fn(&S<'a>, &Tree) -> bool) -> bool {
    let n = t.at(0);
    match s.after("preference") {
        Some([x]) => n.is("none") && f(x, t.at(1)),
        Some([y, x]) => n.is("some") && name(y, n.at(0)) && f(x, t.at(1)),
        _ => false,
    }
}
fn pre(s: &S, t: &Tree) -> bool {
    let v = t.kids();
    flat(s, v, pre_item, |s, t| {
        t.is("p.goal") && t.at(0).is("g.af") && goal(s, t.at(0))
    }) == Some(v.len())
}
fn empty(s: &S) -> bool {
    s.list().is_some_and(|s| s.is_empty())
}

fn head(s: &S, t: &Tree) -> bool {
    match t.kind() {
        "h" => match s {
            W(_) => name(s, t.at(0)),
            P(v) => v.len() == 1 && name(&v[0], t.at(0)),
        },
        "hw" => t.kids().len() > 1 && fterm(s, t.kids()),
        _ => false,
    }
}
/// An operation whose operands are read by `f`: the operator and the operands.
fn operation<'a>(s: &S<'a>, t: &Tree, f: fn(&S<'a>, &Tree) -> bool) -> bool {
    let Some([o, r @ ..]) = s.list() else { return false };
    let v = t.kids();
    let k = t.kind().split('.').nth(1).unwrap();
    match k {
        "neg" => o.is("-") && all(r, v, f),
        "bin" => r.len() == 2 && word_in(o, &v[0], gen::OPS) && all(r, &v[1..], f),
        "multi" => r.len() >= 3 && word_in(o, &v[0], &["+", "*"]) && all(r, &v[1..], f),
        _ => false,
    }
}
fn fexp(s: &S, t: &Tree) -> bool {
    match t.kind() {
        "x.n" => num(s, t.at(0)),
        "x.f" => head(s, t.at(0)),
        _ => operation(s, t, fexp),
    }
}
fn fexp_da(s: &S, t: &Tree) -> bool {
    match t.kind() {
        "xd.dur" => s.is("?duration"),
        "xd.x" => fexp(s, t.at(0)),
        "xd.assign" => false,
        _ => operation(s, t, fexp_da),
    }
}
fn fexp_t(s: &S, t: &Tree) -> bool {
    if t.is("xt.now") {
        return s.is("#t");
    }
    match s.after("*") {
        Some([x, y]) => (x.is("#t") && fexp(y, t.at(0))) || (y.is("#t") && fexp(x, t.at(0))),
        _ => false,
    }
}
fn metric_exp(s: &S, t: &Tree) -> bool {
    match t.kind() {
        "m.total" => s.is("total-time"),
        "m.n" => num(s, t.at(0)),
        "m.viol" => matches!(s.after("is-violated"), Some([x]) if name(x, t.at(0))),
        "m.f" => match s {
            W(_) => t.kids().len() == 1 && name(s, t.at(0)),
            P(v) => all(v, t.kids(), name),
        },
        _ => operation(s, t, metric_exp),
    }
}
fn assign_op(s: &S, t: &Tree) -> bool {
    word_in(s, t, gen::ASSIGN) || (s.is("change") && t == &a("assign"))
}
fn p_effect(s: &S, t: &Tree) -> bool {
    match t.kind() {
        "pe.add" => af(s, t.at(0)),
        "pe.del" => matches!(s.after("not"), Some([x]) if af(x, t.at(0))),
        "pe.num" => {
            matches!(s.list(), Some([o, h, x]) if assign_op(o, t.at(0)) && head(h, t.at(1)) && fexp(x, t.at(2)))
        }
        "pe.obj" => match s.after("assign") {
            Some([f, v]) => {
                fterm(f, t.at(0).kids())
                    && match t.at(1).kids() {
                        [] => v.is("undefined"),
                        [x] => !v.is("undefined") && term(v, x),
                        _ => false,
                    }
            }
            _ => false,
        },
        _ => false,
    }
}
fn cond_effect(s: &S, t: &Tree) -> bool {
    match t.kind() {
        "ce.single" => p_effect(s, t.at(0)),
        _ => s.after("and").is_some_and(|r| all(r, t.kids(), p_effect)),
    }
}
fn c_effect(s: &S, t: &Tree) -> bool {
    match t.kind() {
        "e.p" => p_effect(s, t.at(0)),
        "e.when" => {
            matches!(s.after("when"), Some([g, e]) if goal(g, t.at(0)) && cond_effect(e, t.at(1)))
        }
        "e.forall" => {
            matches!(s.after("forall"), Some([v, e]) if pvars(v, t.at(0)) && effects(e, t.at(1)))
        }
        _ => false,
    }
}
fn effects(s: &S, t: &Tree) -> bool {
    let v = t.kids();
    s.after("and").is_some_and(|r| all(r, v, c_effect)) || (v.len() == 1 && c_effect(s, &v[0]))
}
/// Takes `keyword value` off the front.
fn take<'s, 'a>(r: &mut &'s [S<'a>], k: &str) -> Option<&'s S<'a>> {
    match r {
        [w, x, rest @ ..] if w.is(k) => {
            *r = rest;
            Some(x)
        }
        _ => None,
    }
}
fn action(s: &S, t: &Tree) -> bool {
    let Some([n, r @ ..]) = s.after(":action") else { return false };
    let mut r = r;
    let Some(p) = take(&mut r, ":parameters") else { return false };
    if !(name(n, t.at(0)) && pvars(p, t.at(1))) {
        return false;
    }
    let ok = match take(&mut r, ":precondition") {
        None => t.at(2).kids().is_empty(),
        Some(x) => (empty(x) && t.at(2).kids().is_empty()) || pre(x, t.at(2)),
    };
    let ok = ok
        && match take(&mut r, ":effect") {
            None => t.at(3).is("none"),
            Some(x) if empty(x) => t.at(3).is("none"),
            Some(x) => t.at(3).is("some") && effects(x, t.at(3).at(0)),
        };
    ok && r.is_empty()
}
const TIMES: &[&str] = &["start", "end"];
fn simple_duration(s: &S, t: &Tree) -> bool {
    match t.kind() {
        "s.at" => {
            matches!(s.after("at"), Some([w, x]) if word_in(w, t.at(0), TIMES) && simple_duration(x, t.at(1)))
        }
        _ => match s.list() {
            Some([o, d, v]) => {
                word_in(o, t.at(0), gen::DOPS)
                    && d.is("?duration")
                    && match t.at(1).kind() {
                        "v.n" => num(v, t.at(1).at(0)),
                        _ => fexp(v, t.at(1).at(0)),
                    }
            }
            _ => false,
        },
    }
}
fn duration(s: &S, t: &Tree) -> bool {
    match t.kind() {
        "none" => empty(s),
        "some" => duration(s, t.at(0)),
        "d.single" => simple_duration(s, t.at(0)),
        _ => s.after("and").is_some_and(|r| !r.is_empty() && all(r, t.kids(), simple_duration)),
    }
}
fn timed_goal(s: &S, t: &Tree) -> bool {
    match t.kind() {
        "t.over" => matches!(s.after("over"), Some([w, g]) if w.is("all") && goal(g, t.at(0))),
        _ => {
            matches!(s.after("at"), Some([w, g]) if word_in(w, t.at(0), TIMES) && goal(g, t.at(1)))
        }
    }
}
fn da_goal(s: &S, t: &Tree) -> bool {
    match t.kind() {
        "dg.timed" => {
            let p = t.at(0);
            match p.kind() {
                "pt.req" => timed_goal(s, p.at(0)),
                _ => preference(s, p, timed_goal),
            }
        }
        "dg.and" => s.after("and").is_some_and(|r| all(r, t.kids(), da_goal)),
        _ => matches!(s.after("forall"), Some([v, g]) if pvars(v, t.at(0)) && da_goal(g, t.at(1))),
    }
}
fn timed_effect(s: &S, t: &Tree) -> bool {
    let v = t.kids();
    match t.kind() {
        "te.cond" => {
            matches!(s.after("at"), Some([w, e]) if word_in(w, &v[0], TIMES) && cond_effect(e, &v[1]))
        }
        "te.num" => match s.after("at") {
            Some([w, P(e)]) => {
                word_in(w, &v[0], TIMES)
                    && matches!(&e[..], [o, h, x] if assign_op(o, &v[1]) && head(h, &v[2]) && fexp_da(x, &v[3]))
            }
            _ => false,
        },
        _ => {
            matches!(s.list(), Some([o, h, x]) if word_in(o, &v[0], &["increase", "decrease"])
                && head(h, &v[1]) && fexp_t(x, &v[2]))
        }
    }
}
fn da_effect(s: &S, t: &Tree) -> bool {
    match t.kind() {
        "de.timed" => timed_effect(s, t.at(0)),
        "de.all" => s.after("and").is_some_and(|r| all(r, t.kids(), da_effect)),
        "de.forall" => {
            matches!(s.after("forall"), Some([v, e]) if pvars(v, t.at(0)) && da_effect(e, t.at(1)))
        }
        _ => {
            matches!(s.after("when"), Some([g, e]) if da_goal(g, t.at(0)) && timed_effect(e, t.at(1)))
        }
    }
}
fn durative_action(s: &S, t: &Tree) -> bool {
    let Some([n, r @ ..]) = s.after(":durative-action") else { return false };
    let mut r = r;
    let opt = |s: &S, t: &Tree, f: fn(&S, &Tree) -> bool| match t.kids() {
        [] => empty(s),
        [x] => f(s, x),
        _ => false,
    };
    name(n, t.at(0))
        && take(&mut r, ":parameters").is_some_and(|x| pvars(x, t.at(1)))
        && take(&mut r, ":duration").is_some_and(|x| duration(x, t.at(2)))
        && take(&mut r, ":condition").is_some_and(|x| opt(x, t.at(3), |s, t| da_goal(s, t)))
        && take(&mut r, ":effect").is_some_and(|x| opt(x, t.at(4), |s, t| da_effect(s, t)))
        && r.is_empty()
}
fn structure(s: &S, t: &Tree) -> bool {
    match t.kind() {
        "action" => action(s, t),
        "da" => durative_action(s, t),
        _ => matches!(s.after(":derived"), Some([k, g]) if skel(k, t.at(0)) && goal(g, t.at(1))),
    }
}
fn con2(s: &S, t: &Tree) -> bool {
    match t.kind() {
        "#n" => num(s, t),
        "k.g" => goal(s, t.at(0)),
        _ => con(s, t.at(0)),
    }
}
fn con(s: &S, t: &Tree) -> bool {
    let v = t.kids();
    match t.kind() {
        "c.and" => s.after("and").is_some_and(|r| all(r, v, con)),
        "c.forall" => matches!(s.after("forall"), Some([x, y]) if pvars(x, &v[0]) && con(y, &v[1])),
        "c.at-end" => matches!(s.after("at"), Some([w, g]) if w.is("end") && goal(g, &v[0])),
        k => s.after(&k[2..]).is_some_and(|r| all(r, v, con2)),
    }
}
fn pref_con(s: &S, t: &Tree) -> bool {
    match t.kind() {
        "pc.goal" => !t.at(0).is("c.and") && !t.at(0).is("c.forall") && con(s, t.at(0)),
        "pc.pref" => preference(s, t, con),
        _ => {
            matches!(s.after("forall"), Some([v, x]) if pvars(v, t.at(0)) && pref_cons(x, t.at(1)))
        }
    }
}
fn pref_cons(s: &S, t: &Tree) -> bool {
    let v = t.kids();
    flat(s, v, pref_con, |_, _| false) == Some(v.len())
}
fn bft(s: &S, t: &Tree, bare: bool) -> bool {
    match s {
        W(_) => bare && t.kids().len() == 1 && name(s, t.at(0)),
        P(v) => all(v, t.kids(), name),
    }
}
fn init_el(s: &S, t: &Tree) -> bool {
    let v = t.kids();
    match t.kind() {
        "i.lit" => lit_names(s, &v[0]),
        "i.at" => matches!(s.after("at"), Some([n, x]) if num(n, &v[0]) && lit_names(x, &v[1])),
        "i.val" => matches!(s.after("="), Some([f, n]) if bft(f, &v[0], true) && num(n, &v[1])),
        _ => matches!(s.after("="), Some([f, n]) if bft(f, &v[0], false) && name(n, &v[1])),
    }
}
fn limit(s: &S, k: &str, t: &Tree) -> bool {
    match s.after(k) {
        Some([W(n)]) => {
            n.bytes().all(|c| c.is_ascii_digit())
                && n.parse::<u64>().is_ok_and(|n| t == &some(U(n)))
        }
        _ => false,
    }
}
fn length(s: &S, t: &Tree) -> bool {
    let Some(r) = s.after(":length") else { return false };
    let mut r = r;
    for (i, k) in [":serial", ":parallel"].iter().enumerate() {
        let here = r.first().is_some_and(|s| s.after(k).is_some());
        if here {
            if !limit(&r[0], k, t.at(i)) {
                return false;
            }
            r = &r[1..];
        } else if !t.at(i).is("none") {
            return false;
        }
    }
    r.is_empty()
}
/// Takes an optional section off the front of a document.
fn sect<'s, 'a>(r: &mut &'s [S<'a>], k: &str) -> Option<&'s [S<'a>]> {
    let x = r.first()?.after(k)?;
    *r = &r[1..];
    Some(x)
}
pub fn domain(s: &S, t: &Tree) -> bool {
    let Some([d, r @ ..]) = s.after("define") else { return false };
    let mut r = r;
    let list = |x: Option<&[S]>, t: &Tree, f: fn(&S, &Tree) -> bool| match x {
        None => t.kids().is_empty(),
        Some(x) => !x.is_empty() && all(x, t.kids(), f),
    };
    matches!(d.after("domain"), Some([n]) if name(n, t.at(0)))
        && list(sect(&mut r, ":extends"), t.at(1), |s, t| name(s, t))
        && list(sect(&mut r, ":requirements"), t.at(2), |s, t| word_in(s, t, gen::REQUIREMENTS))
        && typed(sect(&mut r, ":types").unwrap_or(&[]), t.at(3).at(0), "object", name)
        && typed(sect(&mut r, ":constants").unwrap_or(&[]), t.at(4).at(0), "object", name)
        && list(sect(&mut r, ":predicates"), t.at(5), |s, t| skel(s, t))
        && typed(sect(&mut r, ":functions").unwrap_or(&[]), t.at(6).at(0), "number", skel)
        && match sect(&mut r, ":constraints") {
            None => t.at(7).at(0) == &l("c.and", []),
            Some([x]) => con(x, t.at(7).at(0)),
            _ => false,
        }
        && all(r, t.at(8).kids(), structure)
}
pub fn problem(s: &S, t: &Tree) -> bool {
    let Some([p, d, r @ ..]) = s.after("define") else { return false };
    let mut r = r;
    matches!(p.after("problem"), Some([n]) if name(n, t.at(0)))
        && matches!(d.after(":domain"), Some([n]) if name(n, t.at(1)))
        && match sect(&mut r, ":requirements") {
            None => t.at(2).kids().is_empty(),
            Some(x) => {
                !x.is_empty() && all(x, t.at(2).kids(), |s, t| word_in(s, t, gen::REQUIREMENTS))
            }
        }
        && typed(sect(&mut r, ":objects").unwrap_or(&[]), t.at(3).at(0), "object", name)
        && sect(&mut r, ":init").is_some_and(|x| all(x, t.at(4).kids(), init_el))
        && matches!(sect(&mut r, ":goal"), Some([x]) if pre(x, t.at(5)))
        && match sect(&mut r, ":constraints") {
            None => t.at(6).kids().is_empty(),
            Some([x]) => pref_cons(x, t.at(6)),
            _ => false,
        }
        && match sect(&mut r, ":metric") {
            None => t.at(7).is("none"),
            Some([o, x]) => {
                t.at(7).is("some") && {
                    let m = t.at(7).at(0);
                    word_in(o, m.at(0), &["minimize", "maximize"]) && metric_exp(x, m.at(1))
                }
            }
            _ => false,
        }
        && match (r, t.at(8).kids()) {
            ([], []) => true,
            ([s], [x]) => length(s, x),
            _ => false,
        }
}
/// Whether the tree is a reading of the tokens as a whole document.
pub fn reads(ts: &[String], t: &Tree) -> bool {
    match sexp(ts) {
        Some(s) => match t.kind() {
            "domain" => domain(&s, t),
            "problem" => problem(&s, t),
            _ => false,
        },
        None => false,
    }
}
