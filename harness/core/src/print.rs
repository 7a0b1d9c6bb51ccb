//! Printing of syntax trees: as tokens, choosing among the equivalent notations of the grammar,
//! and of tokens as text, choosing among the equivalent layouts.
use crate::choice::{mix, Ch};
use crate::tree::*;

pub struct P<'a, 'b> {
    /// Notation choices; plain notation if there are none.
    c: Option<&'a mut Ch<'b>>,
    pub out: Vec<String>,
}

pub fn tokens(t: &Tree) -> Vec<String> {
    let mut p = P { c: None, out: vec![] };
    p.any(t);
    p.out
}
pub fn tokens_styled(t: &Tree, c: &mut Ch) -> Vec<String> {
    let mut p = P { c: Some(c), out: vec![] };
    p.any(t);
    p.out
}
/// The canonical text.
pub fn text(t: &Tree) -> String {
    plain(&tokens(t))
}
pub fn plain(ts: &[String]) -> String {
    let mut s = String::new();
    for (i, t) in ts.iter().enumerate() {
        if i > 0 && ts[i - 1] != "(" && t != ")" {
            s.push(' ');
        }
        s.push_str(t);
    }
    s
}

impl<'a, 'b> P<'a, 'b> {
    fn pick(&mut self, n: usize) -> usize {
        match &mut self.c {
            None => 0,
            Some(c) => c.pick(n),
        }
    }
    fn flip(&mut self) -> bool {
        self.pick(3) == 2
    }
    fn w<S: Into<String>>(&mut self, s: S) {
        self.out.push(s.into());
    }
    fn open(&mut self, s: &str) {
        self.w("(");
        self.w(s);
    }
    fn close(&mut self) {
        self.w(")");
    }
    fn wrap(&mut self, s: &str, f: impl FnOnce(&mut Self)) {
        self.open(s);
        f(self);
        self.close();
    }
    fn each(&mut self, v: &[Tree], f: impl Fn(&mut Self, &Tree)) {
        for x in v {
            f(self, x);
        }
    }
    fn opt(&mut self, t: &Tree, f: impl FnOnce(&mut Self, &Tree)) {
        if t.is("some") {
            f(self, t.at(0));
        }
    }

    // ---- names, numbers, types, terms ----

    fn name(&mut self, t: &Tree) {
        self.w(t.text());
    }
    fn num(&mut self, t: &Tree) {
        let v = t.num();
        let mut s = v.to_string();
        match self.pick(10) {
            4 if !s.contains('.') => s.push_str(".0"),
            5 if !s.contains('.') => s.push_str(".000"),
            4 | 5 => s.push('0'),
            6 => s.insert_str(0, "00"),
            // The exact decimal expansion of the value.
            7 => s = format!("{:.160}", v as f64),
            // Close to halfway to the float above or below, if that still reads as the value.
            n @ (8 | 9) if v > 0.0 && v < f32::MAX => {
                let c = self.c.as_mut().expect("choices");
                let t = crate::gen::midpoint(c, f32::from_bits(v.to_bits() - (n as u32 - 8)));
                if t.parse() == Ok(v) {
                    s = t;
                }
            }
            _ => {}
        }
        self.w(s);
    }
    fn ty(&mut self, t: &Tree) {
        match t {
            A(s) => self.w(s.as_str()),
            t => self.wrap("either", |p| p.each(t.kids(), Self::name)),
        }
    }
    fn typed(&mut self, t: &Tree, default: &str, item: fn(&mut Self, &Tree)) {
        let v = t.kids();
        let mut i = 0;
        while i < v.len() {
            let ty = v[i].at(1);
            let mut j = i + 1;
            while j < v.len() && v[j].at(1) == ty {
                j += 1;
            }
            // Split the run now and then.
            if j - i > 1 && self.flip() {
                j = i + 1 + self.pick(j - i - 1);
            }
            for x in &v[i..j] {
                item(self, x.at(0));
            }
            let implicit =
                ty == &a(default) && v[j..].iter().all(|x| x.at(1) == ty) && !self.flip();
            if implicit {
                for x in &v[j..] {
                    item(self, x.at(0));
                }
                return;
            }
            self.w("-");
            self.ty(ty);
            i = j;
        }
    }
    fn vars(&mut self, t: &Tree) {
        self.typed(t, "object", Self::var);
    }
    fn pvars(&mut self, t: &Tree) {
        self.w("(");
        self.vars(t);
        self.close();
    }
    fn names(&mut self, t: &Tree) {
        self.typed(t, "object", Self::name);
    }
    fn funs(&mut self, t: &Tree) {
        self.typed(t, "number", Self::skel);
    }
    fn var(&mut self, t: &Tree) {
        self.w(format!("?{}", t.at(0).text()));
    }
    fn skel(&mut self, t: &Tree) {
        self.open(t.at(0).text());
        self.vars(t.at(1));
        self.close();
    }
    fn term(&mut self, t: &Tree) {
        match t.kind() {
            "var" => self.var(t),
            "ft" => self.fterm(t),
            _ => self.name(t),
        }
    }
    fn fterm(&mut self, t: &Tree) {
        self.open(t.at(0).text());
        self.each(&t.kids()[1..], Self::term);
        self.close();
    }
    /// An atomic formula over terms or names.
    fn af(&mut self, t: &Tree) {
        if t.is("eq") {
            self.wrap("=", |p| p.each(t.kids(), Self::term));
        } else {
            self.open(t.at(0).text());
            self.each(&t.kids()[1..], Self::term);
            self.close();
        }
    }
    fn lit(&mut self, t: &Tree) {
        if t.is("-") {
            self.wrap("not", |p| p.af(t.at(0)));
        } else {
            self.af(t.at(0));
        }
    }

    // ---- goals ----

    fn goal(&mut self, t: &Tree) {
        let v = t.kids();
        match t.kind() {
            "g.af" => self.af(t.at(0)),
            "g.lit" => self.lit(t.at(0)),
            "g.and" => self.wrap("and", |p| p.each(v, Self::goal)),
            "g.or" => self.wrap("or", |p| p.each(v, Self::goal)),
            "g.not" => self.wrap("not", |p| p.goal(t.at(0))),
            "g.imply" => self.wrap("imply", |p| p.each(v, Self::goal)),
            "g.exists" | "g.forall" => self.wrap(&t.kind()[2..], |p| {
                p.pvars(t.at(0));
                p.goal(t.at(1));
            }),
            "g.fcomp" => self.wrap(t.at(0).text(), |p| p.each(&v[1..], Self::fexp)),
            k => panic!("goal {k}"),
        }
    }
    fn pre_item(&mut self, t: &Tree) {
        match t.kind() {
            "p.goal" => self.goal(t.at(0)),
            "p.pref" => self.wrap("preference", |p| {
                p.opt(t.at(0), Self::name);
                p.goal(t.at(1));
            }),
            "p.forall" => self.wrap("forall", |p| {
                p.pvars(t.at(0));
                p.pre(t.at(1));
            }),
            k => panic!("precondition {k}"),
        }
    }
    /// A list of which conjunctions are only notation.
    fn flat(&mut self, v: &[Tree], item: fn(&mut Self, &Tree)) {
        if v.len() == 1 && !self.flip() {
            return item(self, &v[0]);
        }
        self.open("and");
        let mut i = 0;
        while i < v.len() {
            if self.pick(8) == 7 {
                let n = 1 + self.pick(v.len() - i);
                self.flat(&v[i..i + n], item);
                i += n;
            } else {
                item(self, &v[i]);
                i += 1;
            }
            if self.pick(16) == 15 {
                self.flat(&[], item);
            }
        }
        self.close();
    }
    fn pre(&mut self, t: &Tree) {
        self.flat(t.kids(), Self::pre_item);
    }

    // ---- numeric expressions ----

    fn head(&mut self, t: &Tree) {
        if t.is("h") {
            if self.flip() {
                self.open(t.at(0).text());
                self.close();
            } else {
                self.name(t.at(0));
            }
        } else {
            self.fterm(t);
        }
    }
    fn fexp(&mut self, t: &Tree) {
        let v = t.kids();
        match t.kind() {
            "x.n" => self.num(t.at(0)),
            "x.f" => self.head(t.at(0)),
            "x.neg" => self.wrap("-", |p| p.fexp(t.at(0))),
            "x.bin" | "x.multi" => self.wrap(t.at(0).text(), |p| p.each(&v[1..], Self::fexp)),
            k => panic!("fexp {k}"),
        }
    }
    fn fexp_da(&mut self, t: &Tree) {
        let v = t.kids();
        match t.kind() {
            "xd.dur" => self.w("?duration"),
            "xd.x" => self.fexp(t.at(0)),
            "xd.neg" => self.wrap("-", |p| p.fexp_da(t.at(0))),
            "xd.bin" | "xd.multi" => {
                self.wrap(t.at(0).text(), |p| p.each(&v[1..], Self::fexp_da))
            }
            k => panic!("fexp_da {k}"),
        }
    }
    fn fexp_t(&mut self, t: &Tree) {
        if t.is("xt.now") {
            return self.w("#t");
        }
        if self.flip() {
            self.wrap("*", |p| {
                p.fexp(t.at(0));
                p.w("#t");
            });
        } else {
            self.wrap("*", |p| {
                p.w("#t");
                p.fexp(t.at(0));
            });
        }
    }
    fn metric_exp(&mut self, t: &Tree) {
        let v = t.kids();
        match t.kind() {
            "m.total" => self.w("total-time"),
            "m.n" => self.num(t.at(0)),
            "m.viol" => self.wrap("is-violated", |p| p.name(t.at(0))),
            "m.f" if v.len() == 1 && !self.flip() => self.name(t.at(0)),
            "m.f" => self.fterm(t),
            "m.neg" => self.wrap("-", |p| p.metric_exp(t.at(0))),
            "m.bin" | "m.multi" => {
                self.wrap(t.at(0).text(), |p| p.each(&v[1..], Self::metric_exp))
            }
            k => panic!("metric {k}"),
        }
    }
    fn op(&mut self, t: &Tree) {
        // A synonym.
        if t.text() == "assign" && self.flip() {
            self.w("change");
        } else {
            self.name(t);
        }
    }

    // ---- effects ----

    fn p_effect(&mut self, t: &Tree) {
        match t.kind() {
            "pe.add" => self.af(t.at(0)),
            "pe.del" => self.wrap("not", |p| p.af(t.at(0))),
            "pe.num" => {
                self.w("(");
                let (op, h, x) = (t.at(0), t.at(1), t.at(2));
                if op.text() == "assign" && x.is("x.f") {
                    // Would read as an assignment to an object fluent.
                    if h.is("h") && self.flip() {
                        self.w("assign");
                        self.name(h.at(0));
                    } else {
                        self.w("change");
                        self.head(h);
                    }
                } else {
                    self.op(op);
                    self.head(h);
                }
                self.fexp(x);
                self.close();
            }
            "pe.obj" => self.wrap("assign", |p| {
                p.fterm(t.at(0));
                if t.at(1).is("none") {
                    p.w("undefined");
                }
                p.opt(t.at(1), Self::term);
            }),
            k => panic!("effect {k}"),
        }
    }
    fn cond_effect(&mut self, t: &Tree) {
        if t.is("ce.single") {
            self.p_effect(t.at(0));
        } else {
            self.wrap("and", |p| p.each(t.kids(), Self::p_effect));
        }
    }
    fn c_effect(&mut self, t: &Tree) {
        match t.kind() {
            "e.p" => self.p_effect(t.at(0)),
            "e.when" => self.wrap("when", |p| {
                p.goal(t.at(0));
                p.cond_effect(t.at(1));
            }),
            "e.forall" => self.wrap("forall", |p| {
                p.pvars(t.at(0));
                p.effects(t.at(1));
            }),
            k => panic!("c_effect {k}"),
        }
    }
    fn effects(&mut self, t: &Tree) {
        if t.kids().len() == 1 && !self.flip() {
            self.c_effect(t.at(0));
        } else {
            self.wrap("and", |p| p.each(t.kids(), Self::c_effect));
        }
    }
    fn empty(&mut self) {
        self.w("(");
        self.close();
    }
    fn parameters(&mut self, t: &Tree) {
        self.w(":parameters");
        self.pvars(t);
    }
    fn action(&mut self, t: &Tree) {
        self.open(":action");
        self.name(t.at(0));
        self.parameters(t.at(1));
        let pre = t.at(2);
        if pre.kids().is_empty() {
            match self.pick(3) {
                0 => {}
                1 => {
                    self.w(":precondition");
                    self.empty();
                }
                _ => {
                    self.w(":precondition");
                    self.pre(pre);
                }
            }
        } else {
            self.w(":precondition");
            self.pre(pre);
        }
        if t.at(3).is("some") {
            self.w(":effect");
            self.effects(t.at(3).at(0));
        } else if self.flip() {
            self.w(":effect");
            self.empty();
        }
        self.close();
    }

    // ---- durative actions ----

    fn simple_duration(&mut self, t: &Tree) {
        if t.is("s.at") {
            return self.wrap("at", |p| {
                p.name(t.at(0));
                p.simple_duration(t.at(1));
            });
        }
        self.wrap(t.at(0).text(), |p| {
            p.w("?duration");
            let v = t.at(1);
            if v.is("v.n") {
                p.num(v.at(0));
            } else {
                p.fexp(v.at(0));
            }
        });
    }
    /// An optional duration.
    fn duration(&mut self, t: &Tree) {
        match t.kind() {
            "none" => self.empty(),
            "some" => self.duration(t.at(0)),
            "d.single" => self.simple_duration(t.at(0)),
            _ => self.wrap("and", |p| p.each(t.kids(), Self::simple_duration)),
        }
    }
    fn timed_goal(&mut self, t: &Tree) {
        if t.is("t.over") {
            self.wrap("over", |p| {
                p.w("all");
                p.goal(t.at(0));
            });
        } else {
            self.wrap("at", |p| {
                p.name(t.at(0));
                p.goal(t.at(1));
            });
        }
    }
    fn pref_timed_goal(&mut self, t: &Tree) {
        if t.is("pt.req") {
            self.timed_goal(t.at(0));
        } else {
            self.wrap("preference", |p| {
                p.opt(t.at(0), Self::name);
                p.timed_goal(t.at(1));
            });
        }
    }
    fn da_goal(&mut self, t: &Tree) {
        match t.kind() {
            "dg.timed" => self.pref_timed_goal(t.at(0)),
            "dg.and" => self.wrap("and", |p| p.each(t.kids(), Self::da_goal)),
            _ => self.wrap("forall", |p| {
                p.pvars(t.at(0));
                p.da_goal(t.at(1));
            }),
        }
    }
    fn timed_effect(&mut self, t: &Tree) {
        match t.kind() {
            "te.cond" => self.wrap("at", |p| {
                p.name(t.at(0));
                p.cond_effect(t.at(1));
            }),
            "te.num" => self.wrap("at", |p| {
                p.name(t.at(0));
                p.fassign(&t.kids()[1..]);
            }),
            _ => self.wrap(t.at(0).text(), |p| {
                p.head(t.at(1));
                p.fexp_t(t.at(2));
            }),
        }
    }
    fn fassign(&mut self, v: &[Tree]) {
        self.w("(");
        self.op(&v[0]);
        self.head(&v[1]);
        self.fexp_da(&v[2]);
        self.close();
    }
    fn da_effect(&mut self, t: &Tree) {
        match t.kind() {
            "de.timed" => self.timed_effect(t.at(0)),
            "de.all" => self.wrap("and", |p| p.each(t.kids(), Self::da_effect)),
            "de.forall" => self.wrap("forall", |p| {
                p.pvars(t.at(0));
                p.da_effect(t.at(1));
            }),
            _ => self.wrap("when", |p| {
                p.da_goal(t.at(0));
                p.timed_effect(t.at(1));
            }),
        }
    }
    fn durative_action(&mut self, t: &Tree) {
        self.open(":durative-action");
        self.name(t.at(0));
        self.parameters(t.at(1));
        self.w(":duration");
        self.duration(t.at(2));
        self.w(":condition");
        match t.at(3).kind() {
            "none" => self.empty(),
            _ => self.da_goal(t.at(3).at(0)),
        }
        self.w(":effect");
        match t.at(4).kind() {
            "none" => self.empty(),
            _ => self.da_effect(t.at(4).at(0)),
        }
        self.close();
    }
    fn structure(&mut self, t: &Tree) {
        match t.kind() {
            "action" => self.action(t),
            "da" => self.durative_action(t),
            _ => self.wrap(":derived", |p| {
                p.skel(t.at(0));
                p.goal(t.at(1));
            }),
        }
    }

    // ---- constraints ----

    fn con(&mut self, t: &Tree) {
        let v = t.kids();
        match t.kind() {
            "c.and" => self.wrap("and", |p| p.each(v, Self::con)),
            "c.forall" => self.wrap("forall", |p| {
                p.pvars(t.at(0));
                p.con(t.at(1));
            }),
            "c.at-end" => self.wrap("at", |p| {
                p.w("end");
                p.goal(t.at(0));
            }),
            k => self.wrap(&k[2..], |p| {
                for x in v {
                    match x.kind() {
                        "#n" => p.num(x),
                        "k.g" => p.goal(x.at(0)),
                        _ => p.con(x.at(0)),
                    }
                }
            }),
        }
    }
    fn pref_con(&mut self, t: &Tree) {
        match t.kind() {
            "pc.goal" => self.con(t.at(0)),
            "pc.pref" => self.wrap("preference", |p| {
                p.opt(t.at(0), Self::name);
                p.con(t.at(1));
            }),
            _ => self.wrap("forall", |p| {
                p.pvars(t.at(0));
                p.pref_cons(t.at(1));
            }),
        }
    }
    fn pref_cons(&mut self, t: &Tree) {
        self.flat(t.kids(), Self::pref_con);
    }

    // ---- initial state ----

    fn bft(&mut self, t: &Tree, bare: bool) {
        if bare && t.kids().len() == 1 && !self.flip() {
            self.name(t.at(0));
        } else {
            self.fterm(t);
        }
    }
    fn init_el(&mut self, t: &Tree) {
        match t.kind() {
            "i.lit" => self.lit(t.at(0)),
            "i.at" => self.wrap("at", |p| {
                p.num(t.at(0));
                p.lit(t.at(1));
            }),
            "i.val" => self.wrap("=", |p| {
                p.bft(t.at(0), true);
                p.num(t.at(1));
            }),
            _ => self.wrap("=", |p| {
                p.bft(t.at(0), false);
                p.name(t.at(1));
            }),
        }
    }

    // ---- sections and documents ----

    fn metric(&mut self, t: &Tree) {
        self.wrap(":metric", |p| {
            p.name(t.at(0));
            p.metric_exp(t.at(1));
        });
    }
    fn length(&mut self, t: &Tree) {
        self.wrap(":length", |p| {
            for (i, k) in [":serial", ":parallel"].iter().enumerate() {
                p.opt(t.at(i), |p, n| p.wrap(k, |p| p.w(n.u().to_string())));
            }
        });
    }
    /// A section as a token sequence; nothing if it is left out.
    fn section(&mut self, t: &Tree, doc: bool) {
        let v = t.kids();
        // Sections that may also be written if they are empty.
        let omit = |p: &mut Self, empty: bool| doc && empty && !p.flip();
        match t.kind() {
            "ext" if v.is_empty() => {}
            "ext" => self.wrap(":extends", |p| p.each(v, Self::name)),
            "reqs" if v.is_empty() => {}
            "reqs" => self.wrap(":requirements", |p| p.each(v, Self::name)),
            "types" | "consts" | "objs" | "funcs" => {
                let x = t.at(0);
                if omit(self, x.kids().is_empty()) {
                    return;
                }
                let (k, f): (_, fn(&mut Self, &Tree)) = match t.kind() {
                    "types" => (":types", Self::names),
                    "consts" => (":constants", Self::names),
                    "objs" => (":objects", Self::names),
                    _ => (":functions", Self::funs),
                };
                self.wrap(k, |p| f(p, x));
            }
            "preds" if v.is_empty() => {}
            "preds" => self.wrap(":predicates", |p| p.each(v, Self::skel)),
            "constr" => {
                let x = t.at(0);
                if !omit(self, x.is("c.and") && x.kids().is_empty()) {
                    self.wrap(":constraints", |p| p.con(x));
                }
            }
            "pcs" => {
                if !omit(self, v.is_empty()) {
                    self.wrap(":constraints", |p| p.pref_cons(t));
                }
            }
            "structs" => self.each(v, Self::structure),
            "inits" => self.wrap(":init", |p| p.each(v, Self::init_el)),
            "pre" => self.wrap(":goal", |p| p.pre(t)),
            "timeless" => self.wrap(":timeless", |p| p.each(v, Self::lit)),
            k => panic!("section {k}"),
        }
    }
    fn domain(&mut self, t: &Tree) {
        self.open("define");
        self.wrap("domain", |p| p.name(t.at(0)));
        for x in &t.kids()[1..9] {
            self.section(x, true);
        }
        self.close();
    }
    fn problem(&mut self, t: &Tree) {
        self.open("define");
        self.wrap("problem", |p| p.name(t.at(0)));
        self.wrap(":domain", |p| p.name(t.at(1)));
        for x in &t.kids()[2..7] {
            self.section(x, true);
        }
        self.opt(t.at(7), Self::metric);
        self.opt(t.at(8), Self::length);
        self.close();
    }

    /// Any tree; those that are a section are printed as the section.
    pub fn any(&mut self, t: &Tree) {
        let k = t.kind();
        match k {
            "domain" => self.domain(t),
            "problem" => self.problem(t),
            "#a" => self.name(t),
            "#n" => self.num(t),
            "var" | "ft" => self.term(t),
            "either" => self.ty(t),
            "tl" => {
                if t.kids().first().is_some_and(|x| x.at(0).is("var")) {
                    self.vars(t)
                } else {
                    self.names(t)
                }
            }
            "ftl" => self.funs(t),
            "pskel" | "fskel" => self.skel(t),
            "eq" | "pred" => self.af(t),
            "+" | "-" => self.lit(t),
            "h" | "hw" => self.head(t),
            "metric" => self.metric(t),
            "length" => self.length(t),
            "fassign" => self.fassign(t.kids()),
            "effs" => self.effects(t),
            "action" | "da" | "derived" => self.structure(t),
            "v.n" => self.num(t.at(0)),
            "v.x" => self.fexp(t.at(0)),
            "d.single" | "d.all" => self.duration(t),
            "bft" => self.bft(t, true),
            "pre*" => self.pre(&L("pre", t.kids().to_vec())),
            "pcs*" => self.pref_cons(&L("pcs", t.kids().to_vec())),
            "k.g" => self.goal(t.at(0)),
            "k.n" => self.con(t.at(0)),
            "none" => self.empty(),
            "some" => self.any(t.at(0)),
            _ => match k.split('.').next().unwrap() {
                "g" => self.goal(t),
                "x" => self.fexp(t),
                "xd" => self.fexp_da(t),
                "xt" => self.fexp_t(t),
                "m" => self.metric_exp(t),
                "p" => self.pre_item(t),
                "e" => self.c_effect(t),
                "ce" => self.cond_effect(t),
                "pe" => self.p_effect(t),
                "s" => self.simple_duration(t),
                "t" => self.timed_goal(t),
                "pt" => self.pref_timed_goal(t),
                "dg" => self.da_goal(t),
                "te" => self.timed_effect(t),
                "de" => self.da_effect(t),
                "c" => self.con(t),
                "pc" => self.pref_con(t),
                "i" => self.init_el(t),
                _ => self.section(t, false),
            },
        }
    }
}

// ---- layout ----

const COMMENTS: &[&str] = &[
    "", " ", ";", ";;; x", " a comment", "(", ")", " (and (p) ", "\"", "\t", " é ☃ 日本", "-", ":init",
    " define (domain x)", " ?x - object", "\u{0}\u{1}", "\u{b}\u{c}", "x", " 1.5", "\u{2028}",
];
/// What a comment may say that some other language gives a meaning to.
const MARKS: &[&str] = &[
    "\\", "!", "@", "#", "$", "%", "^", "&", "*", "_", "=", "+", "[", "]", "{", "}", "|", ":", "'", "\"",
    ",", ".", "<", ">", "/", "?", "~", "`", "*/", "/*", "//", "--", "|#", "#|", "-*-", "\\n", "\\\\", "<!--",
    "(", ")", ";", " ", "\t", "\u{feff}", "\u{85}", "\u{a0}", "\u{7f}", "\u{2029}", "\u{301}", "0", "9", "Z",
];
/// The text of a comment.
fn comment(c: &mut Ch, out: &mut String) {
    match c.pick(8) {
        0..=3 => out.push_str(c.of(COMMENTS)),
        4 | 5 => {
            for _ in 0..1 + c.pick(4) {
                out.push_str(if c.pick(3) == 2 { c.of(COMMENTS) } else { c.of(MARKS) });
            }
        }
        6 => {
            // A word of a document or of the library, first or last.
            let w = crate::lits::text(c).unwrap_or_default().replace(['\r', '\n'], " ");
            if c.pick(2) == 1 {
                out.push(' ');
            }
            out.push_str(&w);
        }
        _ => {
            let w: &str = c.of(&["-", "=", ";", "x ", "é", "☃", "(", "ab\t"]);
            let n = [3, 20, 79, 80, 127, 128, 255, 256, 300, 511, 1025][c.pick(11)];
            out.push_str(&w.repeat(n));
        }
    }
}
const EOLS: &[&str] = &["\n", "\r\n", "\r", "\n\n", "\n\r"];
const BLANKS: &[&str] = &[" ", "\n", "\t", "\r\n", "\r", "  ", " \n ", "\t\t", "\n\n", "        "];

/// Whether whitespace may be left out between two tokens.
pub fn may_join(a: &str, b: &str) -> bool {
    a == "(" || b == "(" || b == ")"
}

pub fn gap(c: &mut Ch, out: &mut String) {
    for _ in 0..1 + c.pick(3) {
        match c.pick(3) {
            0 | 1 => out.push_str(c.of(BLANKS)),
            _ => {
                out.push(';');
                comment(c, out);
                out.push_str(c.of(EOLS));
            }
        }
    }
}

/// Tokens with an arbitrary layout. `outer` also puts layout around the text. Leaves out what the
/// listed finding of C10 is about.
pub fn lay(ts: &[String], c: &mut Ch, outer: bool) -> String {
    lay_all(ts, c, outer, false)
}
/// Whether the gap before the token is the one between a metric's direction and its expression.
pub fn metric_gap(ts: &[String], i: usize) -> bool {
    i >= 2 && ts[i - 2] == ":metric" && (ts[i - 1] == "minimize" || ts[i - 1] == "maximize")
}
/// The same, where the gap between a metric's direction and its expression may be any, too.
pub fn lay_all(ts: &[String], c: &mut Ch, outer: bool, metric: bool) -> String {
    let mut s = String::new();
    // The overall style; zero is the plain one.
    let style = c.pick(4);
    let seed = c.next() as u64;
    if style == 0 {
        return plain(ts);
    }
    let mut gaps = 0u64;
    let mut put = |s: &mut String, join: bool, c: &mut Ch| {
        gaps += 1;
        let r = mix(seed ^ mix(gaps));
        match style {
            // As little as possible.
            1 => {
                if !join {
                    s.push_str(BLANKS[r as usize % 5]);
                }
            }
            // Mostly plain, with a few odd gaps whose place and kind shrink well.
            2 => {
                if r % 6 == 0 && c.left() > 0 {
                    match c.pick(4) {
                        0 if join => {}
                        _ => gap(c, s),
                    }
                } else if !join || r % 2 == 0 {
                    s.push(' ');
                }
            }
            // Everything everywhere.
            _ => {
                let d: Vec<u32> = (0..16).map(|i| mix(r ^ (i + 1)) as u32).collect();
                if !(join && r % 4 == 0) {
                    gap(&mut Ch::new(&d), s);
                }
            }
        }
    };
    if outer {
        put(&mut s, true, c);
    }
    for (i, t) in ts.iter().enumerate() {
        if i > 0 {
            if !metric && metric_gap(ts, i) {
                s.push_str(BLANKS[mix(seed) as usize % BLANKS.len()]);
            } else {
                let join = may_join(&ts[i - 1], t);
                put(&mut s, join, c);
            }
        }
        s.push_str(t);
    }
    if outer {
        put(&mut s, true, c);
        // A last comment need not be terminated.
        if seed % 5 == 0 {
            s.push_str(" ; end");
        }
    }
    s
}
