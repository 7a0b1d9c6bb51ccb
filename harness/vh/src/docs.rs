//! Documents and their parts: printed from generated syntax trees, parsed, and compared.
use crate::run::{cut, Res, Stats};
use pcore::choice::Ch;
pub use pcore::doc::*;
use pcore::entry::{Entry, Val};
use pcore::gen::G;
use pcore::print::{lay, lay_all, plain, tokens_styled};
use pcore::stretch::{stretch, stretch_gap};
use pcore::tree::*;

pub use pcore::texts::{entry, table};
pub fn is_doc(e: &Entry) -> bool {
    e.name == "Domain" || e.name == "Problem"
}

/// Whether a text is only whitespace and comments.
pub fn blank(s: &str) -> bool {
    let mut comment = false;
    for c in s.chars() {
        match c {
            '\n' | '\r' => comment = false,
            _ if comment => {}
            ';' => comment = true,
            ' ' | '\t' => {}
            _ => return false,
        }
    }
    true
}

/// Parses a complete text that must be read as the tree.
pub fn must_read(e: &Entry, t: &Tree, text: &str) -> Result<Box<dyn Val + Send>, String> {
    match crate::work::limited(crate::text::limit(text), text, || e.run(text)).0 {
        Err(f) => Err(format!("{} rejects {:?}: {}", e.name, t, cut(&f.debug, 200))),
        Ok((rest, v)) => {
            let got = e.tree(&*v);
            if got != *t {
                return Err(format!("{} misreads {}", e.name, t.diff(&got)));
            }
            let ok = if is_doc(e) { rest.text.is_empty() } else { blank(&rest.text) };
            if !ok {
                return Err(format!("{} leaves {:?} unread", e.name, cut(&rest.text, 80)));
            }
            Ok(v)
        }
    }
}
pub fn shape(s: &mut Stats, t: &Tree) {
    let d = t.depth();
    s.class(match d {
        0..=4 => "depth 1-4",
        5..=8 => "depth 5-8",
        9..=14 => "depth 9-14",
        _ => "depth 15+",
    });
    s.max("largest tree", t.size() as f64);
    s.max("deepest tree", d as f64);
}

/// A canonical tree of the entry, printed in some notation and layout, reads as itself.
pub fn trip(e: &Entry, t: &Tree, style: &[Vec<u32>; 2], s: &mut Stats) -> Res {
    let toks = tokens_styled(t, &mut Ch::new(&style[0]));
    let text = lay(&toks, &mut Ch::new(&style[1]), is_doc(e));
    s.input.clone_from(&text);
    s.case((e.name, &text), t.size() >= 5);
    s.class(format!("as {}", e.name));
    shape(s, t);
    if t.size() >= 8 {
        s.sample(|| format!("{}: {text}", e.name));
    }
    must_read(e, t, &text).map(|_| ())
}
pub fn trip_of(names: &[&str], c: &mut Ch, s: &mut Stats) -> Res {
    let e = entry(names[c.pick(names.len())]);
    let st = style(c);
    let t = {
        let mut g = G::new(c);
        let d = g.depth();
        (e.gen)(&mut g, d)
    };
    trip(e, &t, &st, s)
}

/// Counts which optional sections a document has.
pub fn sections(t: &Tree, s: &mut Stats) {
    for x in &t.kids()[1..] {
        let k = x.kind();
        let full = match k {
            "#a" | "none" => false,
            "types" | "consts" | "objs" | "funcs" | "constr" => !x.at(0).kids().is_empty(),
            "some" => true,
            _ => !x.kids().is_empty(),
        };
        let k = if k == "some" { x.at(0).kind() } else { k };
        s.class_if(full, &format!("with {k}"));
    }
}

pub fn doc_entry(t: &Tree) -> &'static Entry {
    entry(if t.is("domain") { "Domain" } else { "Problem" })
}

pub fn trip_focused(which: &str, c: &mut Ch, s: &mut Stats) -> Res {
    let st = style(c);
    let t = focused(which, c);
    sections(&t, s);
    trip(doc_entry(&t), &t, &st, s)
}
/// A document with all its sections.
pub fn trip_doc(which: &str, c: &mut Ch, s: &mut Stats) -> Res {
    let st = style(c);
    let t = if which == "Domain" { G::new(c).domain() } else { G::new(c).problem() };
    sections(&t, s);
    trip(doc_entry(&t), &t, &st, s)
}
/// A tree one part of which is long or deep, plainly written.
fn trip_stretched(e: &Entry, t: &Tree, c: &mut Ch, s: &mut Stats) -> Res {
    let budget = if c.pick(40) == 39 { 200_000 } else { 8_000 };
    let Some((t, what)) = stretch(t, budget, c) else {
        s.class("nothing to stretch");
        return Ok(());
    };
    s.class(what);
    let toks = tokens_styled(&t, &mut Ch::new(&[]));
    let text = plain(&toks);
    s.input.clone_from(&text);
    s.case((e.name, &text), true);
    s.class(format!("as {}", e.name));
    shape(s, &t);
    s.max("longest text", text.len() as f64);
    must_read(e, &t, &text).map(|_| ()).map_err(|m| cut(&m, 3000))
}
pub fn stretched_of(names: &[&str], c: &mut Ch, s: &mut Stats) -> Res {
    let e = entry(names[c.pick(names.len())]);
    let how: Vec<u32> = (0..10).map(|_| c.next()).collect();
    let t = {
        let mut g = G::new(c);
        let d = g.depth();
        (e.gen)(&mut g, d)
    };
    trip_stretched(e, &t, &mut Ch::new(&how), s)
}
pub fn stretched_doc(which: &str, c: &mut Ch, s: &mut Stats) -> Res {
    let how: Vec<u32> = (0..10).map(|_| c.next()).collect();
    let t = match which {
        "Domain" => G::new(c).domain(),
        "Problem" => G::new(c).problem(),
        f => focused(f, c),
    };
    trip_stretched(doc_entry(&t), &t, &mut Ch::new(&how), s)
}
// ---- layout ----

const METRIC: &str = "anything but whitespace between minimize or maximize and the expression of a metric";

/// One gap is made long.
pub fn long_layout(c: &mut Ch, s: &mut Stats) -> Res {
    let how: Vec<u32> = (0..10).map(|_| c.next()).collect();
    let t = any_doc(c);
    let e = doc_entry(&t);
    let toks = tokens_styled(&t, &mut Ch::new(&[]));
    let text = stretch_gap(&toks, &mut Ch::new(&how));
    s.input.clone_from(&text);
    s.case((e.name, &text), true);
    s.class("one long gap");
    s.max("longest text", text.len() as f64);
    let v = must_read(e, &t, &plain(&toks))?;
    let w = must_read(e, &t, &text).map_err(|m| cut(&m, 3000))?;
    if !v.same(&*w) {
        return Err("values of two layouts differ".into());
    }
    Ok(())
}

pub fn layout(c: &mut Ch, s: &mut Stats) -> Res {
    let st = style(c);
    let t = any_doc(c);
    let e = doc_entry(&t);
    let toks = tokens_styled(&t, &mut Ch::new(&st[0]));
    let one = plain(&toks);
    let two = lay_all(&toks, &mut Ch::new(&st[1]), true, true);
    s.input.clone_from(&two);
    s.case((&one, &two), one != two && toks.len() > 8);
    s.class(e.name);
    s.class_if(two.contains(';'), "with comments");
    s.class_if(two.contains('\r'), "with carriage returns");
    s.class_if(two.contains(";\n") || two.contains(";\r"), "with empty comments");
    shape(s, &t);
    if one != two {
        s.sample(|| two.clone());
    }
    let v = must_read(e, &t, &one).map_err(|m| format!("plain layout: {m}; text {}", cut(&one, 400)))?;
    let w = match must_read(e, &t, &two) {
        Ok(w) => w,
        Err(m) => {
            // The listed finding: it is that if it is gone when only that gap is a usual one.
            let usual = lay(&toks, &mut Ch::new(&st[1]), true);
            if usual != two
                && must_read(e, &t, &usual).is_ok_and(|w| v.same(&*w))
                && s.known("C10", METRIC)
            {
                s.class("rejected by the listed finding");
                return Ok(());
            }
            return Err(m);
        }
    };
    if !v.same(&*w) {
        return Err(format!("values of two layouts differ: {} and {}", v.debug(), w.debug()));
    }
    Ok(())
}
