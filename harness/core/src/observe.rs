//! What can be observed of the crate for a case, as labelled texts. Observations with the same
//! label must be the same whatever the crate's features are.
use crate::choice::Ch;
use crate::gen::{G, REQUIREMENTS, SIMPLE, TRICKY};
use crate::kinds::kinds;
use crate::lits::{self, lits};
use crate::mk::Mk;
use crate::mutate::mutate;
use crate::words::{hash_of, vocabularies};
use pddl::*;
use std::fmt::Write;

pub type Seen = Vec<(&'static str, String)>;

fn values(c: &mut Ch, out: &mut Seen) {
    let ks = kinds();
    let k = &ks[c.pick(ks.len())];
    let s = c.next() as u64;
    let mut g = G::wide(c);
    let d = g.depth().min(12);
    let t = (k.gen)(&mut g, d);
    let v = (k.make)(&Mk::new(s), &t);
    let w = (k.make)(&Mk::new(s ^ 9), &t);
    out.push(("kind", k.name.to_string()));
    out.push(("tree", format!("{:?}", v.tree())));
    out.push(("value", v.debug()));
    out.push(("equal", format!("{} {}", v.same(&*w), v.dup().same(&*w))));
    out.push(("views", format!("{:?}", (k.views)(&Mk::new(s), &t))));
    if let Some((u, what)) = mutate(&t, c) {
        let x = (k.make)(&Mk::new(s ^ 4), &u);
        out.push(("changed", format!("{what} {:?} {} {}", x.tree(), x.same(&*v), v.same(&*x))));
    }
}
fn text(c: &mut Ch) -> String {
    if !lits().is_empty() && c.pick(5) == 4 {
        if let Some(t) = lits::text(c) {
            return t;
        }
        if let Some(n) = lits::size(c, 3000) {
            return "l".repeat(n);
        }
    }
    match c.pick(8) {
        0 => ["object", "number", "", "objects", "Object", "é", "a b", "\u{0}", "日本"][c.pick(9)].into(),
        1 | 2 => SIMPLE[c.pick(SIMPLE.len())].into(),
        3 => TRICKY[c.pick(TRICKY.len())].into(),
        4 => "aaaaaaaaaaaaaaaaaaaa"[..c.pick(20)].into(),
        _ => crate::gen::pool_name(c.pick(500) as u64),
    }
}
fn names(c: &mut Ch, out: &mut Seen) {
    let n = 2 + c.pick(10);
    let mut v: Vec<Name> = vec![Name::default()];
    for _ in 0..n {
        let t = match c.pick(4) {
            3 => {
                let i = c.pick(v.len());
                crate::gen::vary(c, &v[i].to_string())
            }
            _ => text(c),
        };
        v.push(match c.pick(6) {
            0 => Name::new(t),
            1 => Name::from(t.as_str()),
            2 => v[c.pick(v.len())].clone(),
            3 => Name::new_static(SIMPLE[c.pick(SIMPLE.len())]),
            4 => (*Variable::from_str(&t)).clone(),
            _ => (*Predicate::from_name(Name::new(t))).clone(),
        });
    }
    let mut s = String::new();
    for x in &v {
        let r: &str = x.as_ref();
        let _ = write!(s, "{r:?} {x:?} {} {} {} {}: ", x.len(), x.is_empty(), *x == *r, *x == r.to_string());
        for y in &v {
            // Hashes need only agree with equality.
            s.push(if x != y { '0' } else if hash_of(x) == hash_of(y) { '1' } else { 'h' });
        }
        s.push('\n');
    }
    out.push(("names", s));
    let mut s = String::new();
    for x in &v {
        let var = Variable::new(x.clone());
        let p = PrimitiveType::from(x.clone());
        let typed = x.clone().to_typed(Type::from(p.clone()));
        let _ = write!(s, "{var:?} {p:?} {typed:?} {:?} ", typed.value());
        for y in &v {
            let (w, q) = (Variable::new(y.clone()), PrimitiveType::from(y.clone()));
            s.push(if var != w { '0' } else if hash_of(&var) == hash_of(&w) { '1' } else { 'h' });
            s.push(if p != q { '0' } else if hash_of(&p) == hash_of(&q) { '1' } else { 'h' });
        }
        s.push('\n');
    }
    out.push(("symbols", s));
}
const ODD: &[&str] = &[
    "f", "x", "e", "E", "e5", "e-3", "E+2", "_", "_0", ".", "..", ".5", "-", "+", "%", "f32", "d", "L", "u", "0x", "inf", "/2", "i",
    "^2", "e+05", ".0.0", "--", "\u{e9}", ":", ",", ",5", "'", "\"", "?", "nan", "\u{0}", "#t", " ", "\n", "\t", ")", "(", ";", "(p)",
    " 2",
];
fn spoil(t: &str, place: usize, k: usize, what: &str) -> String {
    let mut at = [t.len(), t.len(), 0, k % (t.len() + 1)][place % 4];
    while !t.is_char_boundary(at) {
        at -= 1;
    }
    format!("{}{what}{}", &t[..at], &t[at..])
}
/// A numeral with something before, in or after it.
pub fn odd_numeral(c: &mut Ch) -> String {
    let t = G::new(c).numeral();
    spoil(&t, c.pick(4), c.next() as usize, c.of(ODD))
}
/// The same, without what would end the token.
pub fn odd_token(t: &str, x: usize, y: usize) -> String {
    spoil(t, x, x / 4, ODD[y % 34])
}
fn numbers(c: &mut Ch, out: &mut Seen) {
    let mut s = String::new();
    let n = 2 + c.pick(5);
    let mut v = vec![Number::default()];
    for _ in 0..n {
        let t = match c.pick(5) {
            0 => ["inf", "nan", "-0", "1e40", "1e-46", "", "x", "1e5", "-7.5"][c.pick(9)].to_string(),
            1 => odd_numeral(c),
            _ => G::new(c).numeral(),
        };
        match t.parse::<Number>() {
            Ok(x) => {
                let _ = write!(s, "{t} is {x:?}\n");
                v.push(x);
            }
            Err(e) => {
                let _ = write!(s, "{t} fails: {e} {e:?}\n");
            }
        }
        let f = match lits::float(c) {
            Some(x) if c.pick(3) == 2 => x,
            _ => f32::from_bits(c.next()),
        };
        match Number::try_new(f) {
            Ok(x) => v.push(x),
            Err(e) => {
                let _ = write!(s, "{f:?} fails: {e} {e:?}\n");
            }
        }
    }
    for x in &v {
        let _ = write!(s, "{x:?}: ");
        for y in &v {
            let _ = write!(s, "{:?}{}{} ", x.cmp(y), x == y, x != y || hash_of(x) == hash_of(y));
        }
    }
    let mut w = v.clone();
    w.sort();
    let _ = write!(s, "{w:?}");
    out.push(("numbers", s));
}
fn words(c: &mut Ch, out: &mut Seen) {
    let mut s = String::new();
    for _ in 0..4 {
        let vs = vocabularies();
        let w = &vs[c.pick(vs.len())].words;
        let mut t = w[c.pick(w.len())].1.to_string();
        match c.pick(6) {
            0 => t.push('x'),
            1 => {
                t.pop();
            }
            2 => t = t.to_uppercase(),
            3 => t = ["change", "", "==", ":", "Assign"][c.pick(5)].into(),
            _ => {}
        }
        let u = w[c.pick(w.len())].1;
        for v in vs {
            let _ = write!(
                s,
                "{t:?} {}: {:?} {:?} {:?} {:?}\n",
                v.name,
                (v.read)(&t),
                (v.spell)(&t),
                (v.equal)(&t, u),
                (v.is_text)(&t, u)
            );
        }
    }
    for b in [BinaryOp::Addition, BinaryOp::Division, BinaryOp::Multiplication, BinaryOp::Subtraction] {
        match MultiOp::try_from(b) {
            Ok(m) => {
                let _ = write!(s, "{b} {m} {:?}\n", BinaryOp::from(m));
            }
            Err(e) => {
                let _ = write!(s, "{b} {e} {e:?}\n");
            }
        }
    }
    out.push(("words", s));
}
fn requirements(c: &mut Ch, out: &mut Seen) {
    let n = c.len(0);
    let v: Vec<Requirement> = (0..n)
        .filter_map(|_| Requirement::try_from(REQUIREMENTS[c.pick(REQUIREMENTS.len())]).ok())
        .collect();
    let r = Requirements::new(v.clone());
    let mut e: Vec<Requirement> = r.to_effective().into_iter().collect();
    e.sort();
    let mut s = format!("{r:?} {e:?}\n");
    for x in v.iter().take(6) {
        let _ = write!(s, "{x} {:?} ", x.expand());
        for y in v.iter().take(6) {
            s.push(if x.contains(y) { '1' } else { '0' });
        }
    }
    out.push(("requirements", s));
}
#[cfg(feature = "parser")]
fn parsing(c: &mut Ch, out: &mut Seen) {
    use crate::texts::{some_text, table};
    let all = c.pick(3) == 0;
    let text = some_text(c);
    let mut s = String::new();
    for e in table() {
        if !all && !c.chance(1, 4) && e.name != "Domain" && e.name != "Problem" {
            continue;
        }
        match e.run(&text) {
            Ok((r, v)) => {
                let _ = write!(s, "{} {r:?} {} {:?}\n", e.name, v.debug(), v.tree());
            }
            Err(f) => {
                let _ = write!(s, "{} {f:?}\n", e.name);
            }
        }
    }
    out.push(("text", text));
    out.push(("parsed", s));
}
#[cfg(not(feature = "parser"))]
fn parsing(_: &mut Ch, _: &mut Seen) {}

pub fn observe(c: &mut Ch) -> Seen {
    let mut out = vec![];
    match c.pick(8) {
        0..=2 => values(c, &mut out),
        3 => names(c, &mut out),
        4 => numbers(c, &mut out),
        5 => words(c, &mut out),
        6 => requirements(c, &mut out),
        _ => parsing(c, &mut out),
    }
    out
}
