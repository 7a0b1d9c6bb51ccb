//! Generators of syntax trees. In strict mode (the default) every tree is canonical: it is the
//! one reading that the documentation gives to its printed form. In wide mode trees cover
//! whatever the public types can represent.
use crate::choice::{mix, Ch};
use crate::lits::{self, lits};
use crate::tree::*;

pub const SIMPLE: &[&str] = &[
    "a", "b", "c", "x", "y", "z", "p", "q", "r", "f", "g", "loc", "agent", "room1", "fuel-level",
    "has_key", "A", "Zed", "b1", "c-3", "d_4", "at", "in", "on",
];

/// Names that are keywords, begin with keywords or otherwise look like other tokens.
pub const TRICKY: &[&str] = &[
    "object", "number", "objects", "objectx", "object-1", "numbers", "number2", "either",
    "either-x", "eitherway", "undefined", "undefinedx", "undefined-1", "total-time",
    "total-time-x", "total-timer", "total-cost", "is-violated", "is-violated2", "and", "android",
    "and-1", "or", "orbit", "or_x", "not", "notify", "not-a", "imply", "implyx", "exists",
    "exists1", "existsy", "forall", "forallx", "forall-y", "when", "whenever", "when-x",
    "preference", "preferences", "preference1", "at", "at-end", "at10", "atx", "over", "overall",
    "over-all", "all", "allx", "start", "started", "start1", "end", "ending", "end-2", "always",
    "alwaysx", "always-within", "always-within2", "sometime", "sometimes", "sometime-after",
    "sometime-afterx", "sometime-before", "within", "withinx", "at-most-once", "hold-during",
    "hold-after", "assign", "assign-x", "assigned", "change", "changed", "scale-up", "scale-upx",
    "scale-down", "increase", "increase-y", "increased", "decrease", "decreases", "duration",
    "durationx", "define", "domain", "problem", "minimize", "minimizer", "maximize", "strips",
    "typing", "adl", "action", "t", "T", "e5", "E10", "nan", "inf", "infinity", "x-", "x--y",
    "x_", "a1b2", "serial", "parallel", "init", "goal", "metric", "domains", "tt",
];

pub const MODAL: &[&str] = &[
    "at", "always", "sometime", "within", "at-most-once", "sometime-after", "sometime-before",
    "always-within", "hold-during", "hold-after",
];
const GOAL_WORDS: &[&str] = &["and", "or", "not", "imply", "exists", "forall", "preference"];
const EFFECT_WORDS: &[&str] = &[
    "and", "forall", "when", "not", "assign", "change", "scale-up", "scale-down", "increase",
    "decrease",
];

pub const REQUIREMENTS: &[&str] = &[
    ":strips", ":typing", ":negative-preconditions", ":disjunctive-preconditions", ":equality",
    ":existential-preconditions", ":universal-preconditions", ":quantified-preconditions",
    ":conditional-effects", ":fluents", ":numeric-fluents", ":object-fluents", ":adl",
    ":durative-actions", ":duration-inequalities", ":continuous-effects", ":derived-predicates",
    ":timed-initial-literals", ":preferences", ":constraints", ":action-costs",
];
pub const ASSIGN: &[&str] = &["assign", "increase", "decrease", "scale-up", "scale-down"];
pub const COMP: &[&str] = &["=", "<", ">", "<=", ">="];
pub const OPS: &[&str] = &["+", "*", "-", "/"];
pub const DOPS: &[&str] = &["=", "<=", ">="];

pub fn pool_name(idx: u64) -> String {
    let mut h = mix(idx ^ 0x5eed);
    let n = 1 + (h % 7) as usize;
    let mut s = String::new();
    for i in 0..=n {
        h = mix(h);
        let al: &[u8] = if i == 0 {
            b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
        } else {
            b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_-_"
        };
        s.push(al[(h % al.len() as u64) as usize] as char);
    }
    s
}

/// A text that is nearly the same.
pub fn vary(c: &mut Ch, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    let n = v.len();
    if n == 0 {
        return "a".into();
    }
    let (i, j) = (c.pick(n), c.pick(n));
    match c.pick(8) {
        0 | 1 => v.swap(i, j),
        2 => v[i] = if v[i] == 'x' { 'y' } else { 'x' },
        3 => {
            v.remove(i);
        }
        4 => v.insert(i, v[j]),
        5 => {
            // Another letter of the same sum.
            if i != j && v[i].is_ascii_lowercase() && v[j].is_ascii_lowercase() && v[i] < 'z' && v[j] > 'a' {
                v[i] = (v[i] as u8 + 1) as char;
                v[j] = (v[j] as u8 - 1) as char;
            } else {
                v.reverse();
            }
        }
        6 => {
            let u: Vec<char> = v[i].to_uppercase().collect();
            let w: Vec<char> = v[i].to_lowercase().collect();
            v.splice(i..=i, if v[i].is_lowercase() { u } else { w });
        }
        _ => v.rotate_left(i),
    }
    v.into_iter().collect()
}
/// At, just above or just below the midpoint of a float and the next one.
pub fn midpoint(c: &mut Ch, v: f32) -> String {
    let w = f32::from_bits(v.to_bits() + 1);
    let m = (v as f64 + w as f64) / 2.0;
    let mut t = format!("{m:.200}");
    while t.ends_with('0') {
        t.pop();
    }
    if t.ends_with('.') {
        t.push('0');
    }
    match c.pick(4) {
        0 => t,
        1 => t + &"0".repeat(c.pick(60)) + "1",
        2 => {
            // One less in the last digit, then nines.
            let mut b: Vec<u8> = t.into_bytes();
            let mut i = b.len();
            while i > 0 {
                i -= 1;
                if b[i] == b'.' {
                    continue;
                }
                if b[i] == b'0' {
                    b[i] = b'9';
                } else {
                    b[i] -= 1;
                    break;
                }
            }
            String::from_utf8(b).unwrap() + &"9".repeat(c.pick(40))
        }
        _ => format!("{}{}", "0".repeat(c.pick(50)), t),
    }
}

pub struct G<'a, 'b> {
    pub c: &'a mut Ch<'b>,
    /// Generate values that need not have a printed form.
    pub wide: bool,
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Goal,
    /// Goals in places where trajectory constraints are allowed as well.
    Modal,
}

impl<'a, 'b> G<'a, 'b> {
    pub fn new(c: &'a mut Ch<'b>) -> Self {
        G { c, wide: false }
    }
    pub fn wide(c: &'a mut Ch<'b>) -> Self {
        G { c, wide: true }
    }

    pub fn depth(&mut self) -> usize {
        let d = [2, 3, 3, 4, 4, 5, 7, 12, 40][self.c.pick(9)];
        if d == 40 && !lits().sizes.is_empty() && self.c.pick(2) == 1 {
            return lits::size(self.c, 80).unwrap_or(d);
        }
        d
    }

    // ---- names, numbers, terms ----

    pub fn text(&mut self) -> String {
        if !lits().words.is_empty() && self.c.pick(8) == 7 {
            let t = if self.wide && self.c.pick(2) == 1 { lits::text(self.c) } else { lits::name(self.c) };
            if let Some(t) = t {
                return t;
            }
        }
        let s = match self.c.pick(20) {
            0..=8 => SIMPLE[self.c.pick(SIMPLE.len())].to_string(),
            9..=13 => TRICKY[self.c.pick(TRICKY.len())].to_string(),
            14..=17 => pool_name(self.c.pick(4096) as u64),
            18 => {
                let n = match lits::size(self.c, 5000) {
                    Some(n) if self.c.pick(2) == 1 => n.max(1),
                    _ => 10 + self.c.pick(290),
                };
                "long-name_X1".chars().cycle().take(n).collect()
            }
            _ => {
                let mut s = TRICKY[self.c.pick(TRICKY.len())].to_string();
                s.push_str(["-", "_", "1", "x", "-x", "0", "_2"][self.c.pick(7)]);
                s
            }
        };
        if self.wide && self.c.chance(1, 12) {
            return ["", " ", "é", "日本", "a b", "?x", "(", ":k", "\u{0}", "object "]
                [self.c.pick(10)]
            .to_string();
        }
        s
    }
    fn text_not(&mut self, no: &[&[&str]]) -> String {
        let mut s = self.text();
        if !self.wide && no.iter().any(|l| l.contains(&s.as_str())) {
            s.push_str("-n");
        }
        s
    }
    pub fn name(&mut self) -> Tree {
        A(self.text())
    }
    pub fn fun_name(&mut self) -> Tree {
        A(self.text_not(&[&["undefined"]]))
    }
    pub fn var(&mut self) -> Tree {
        l("var", [self.name()])
    }
    /// The value of a number as written by a numeral.
    pub fn num(&mut self) -> Tree {
        let s = self.numeral();
        let v: f32 = s.parse().unwrap();
        assert!(v.is_finite());
        N(v.to_bits())
    }
    /// A numeral of the grammar with a finite value.
    pub fn numeral(&mut self) -> String {
        let digits = |c: &mut Ch, n: usize| -> String {
            (0..n).map(|_| (b'0' + c.pick(10) as u8) as char).collect()
        };
        if !lits().floats.is_empty() && self.c.pick(6) == 5 {
            if let Some(x) = lits::float(self.c) {
                return format!("{}", x.abs());
            }
        }
        match self.c.pick(14) {
            13 => {
                // The ends of the ranges of numbers.
                let x = [
                    f32::MAX, f32::MIN_POSITIVE, f32::from_bits(1), f32::EPSILON, 16777216.0,
                    16777217.0, 2147483648.0, 4294967296.0, 32768.0, 65536.0, 1.0, 0.5,
                ][self.c.pick(12)];
                let y = f32::from_bits(x.to_bits() + self.c.pick(3) as u32 - 1);
                format!("{}", if y.is_finite() { y } else { f32::MAX })
            }
            12 => {
                let v = f32::from_bits(0x3000_0000 + self.c.next() % 0x2000_0000);
                midpoint(self.c, v)
            }
            0 => format!("{}", self.c.pick(10)),
            1 => format!("{}", self.c.pick(1000)),
            2 => format!("{}.{}", self.c.pick(100), self.c.pick(10)),
            3 => format!("{}.{:02}", self.c.pick(100), self.c.pick(100)),
            4 => "0".into(),
            5 => "0.0".into(),
            6 => format!("{}", self.c.next()),
            7 => {
                let n = 1 + self.c.pick(8);
                format!("0.{}", digits(self.c, n))
            }
            8 => {
                let n = 1 + self.c.pick(38);
                digits(self.c, n)
            }
            9 => {
                let n = 1 + self.c.pick(12);
                let m = 1 + self.c.pick(50);
                let i = digits(self.c, n);
                format!("{}.{}", i, digits(self.c, m))
            }
            10 => {
                let e = self.c.pick(128);
                format!("{}", 2f32.powi(e as i32))
            }
            _ => {
                // Any finite value at all.
                let b = self.c.next() & 0x7fff_ffff;
                let v = f32::from_bits(b);
                format!("{}", if v.is_finite() { v } else { 1.5 })
            }
        }
    }
    pub fn term(&mut self, d: usize) -> Tree {
        match self.c.pick(8) {
            0..=2 => self.name(),
            3..=5 => self.var(),
            _ if d == 0 => self.name(),
            _ => self.fterm(d - 1),
        }
    }
    pub fn fterm(&mut self, d: usize) -> Tree {
        let mut v = vec![self.name()];
        let n = self.c.len(0).min(6);
        for _ in 0..n {
            v.push(self.term(d));
        }
        L("ft", v)
    }
    fn list(&mut self, k: &'static str, min: usize, mut f: impl FnMut(&mut Self) -> Tree) -> Tree {
        let n = self.c.len(min);
        let v = (0..n).map(|_| f(self)).collect();
        L(k, v)
    }

    // ---- types and typed lists ----

    pub fn ty(&mut self) -> Tree {
        match self.c.pick(6) {
            0 | 1 => a("object"),
            2..=4 => self.name(),
            _ => {
                let min = if self.wide { 0 } else { 1 };
                self.list("either", min, |g| g.name())
            }
        }
    }
    pub fn fty(&mut self) -> Tree {
        match self.c.pick(6) {
            0 | 1 => a("number"),
            2 => a("object"),
            _ => self.ty(),
        }
    }
    /// A typed list, with runs of items of the same type.
    pub fn typed(
        &mut self,
        k: &'static str,
        mut item: impl FnMut(&mut Self) -> Tree,
        mut ty: impl FnMut(&mut Self) -> Tree,
    ) -> Tree {
        let n = self.c.len(0);
        let mut v: Vec<Tree> = vec![];
        for _ in 0..n {
            let i = item(self);
            let t = match v.last() {
                Some(p) if self.c.chance(1, 2) => p.at(1).clone(),
                _ => ty(self),
            };
            v.push(l("t", [i, t]));
        }
        L(k, v)
    }
    pub fn vars(&mut self) -> Tree {
        self.typed("tl", |g| g.var(), |g| g.ty())
    }
    pub fn names(&mut self) -> Tree {
        self.typed("tl", |g| g.name(), |g| g.ty())
    }
    pub fn funs(&mut self) -> Tree {
        self.typed("ftl", |g| g.fskel(), |g| g.fty())
    }
    pub fn pskel(&mut self) -> Tree {
        let n = self.name();
        l("pskel", [n, self.vars()])
    }
    pub fn fskel(&mut self) -> Tree {
        let n = self.name();
        l("fskel", [n, self.vars()])
    }

    // ---- atoms and goals ----

    pub fn af(&mut self, no: &[&[&str]], d: usize) -> Tree {
        if self.c.pick(6) == 5 {
            let x = self.term(d);
            l("eq", [x, self.term(d)])
        } else {
            let mut v = vec![A(self.text_not(no))];
            let n = self.c.len(0).min(12);
            for _ in 0..n {
                v.push(self.term(d));
            }
            L("pred", v)
        }
    }
    pub fn af_names(&mut self, no: &[&[&str]]) -> Tree {
        if self.c.pick(6) == 5 {
            let x = self.name();
            l("eq", [x, self.name()])
        } else {
            let mut v = vec![A(self.text_not(no))];
            let n = self.c.len(0).min(12);
            for _ in 0..n {
                v.push(self.name());
            }
            L("pred", v)
        }
    }
    pub fn lit_names(&mut self) -> Tree {
        let k = if self.c.pick(4) == 3 { "-" } else { "+" };
        l(k, [self.af_names(&[&["not"]])])
    }
    pub fn goal(&mut self, d: usize) -> Tree {
        self.goal_in(d, Mode::Goal)
    }
    fn goal_in(&mut self, d: usize, m: Mode) -> Tree {
        let no: &[&[&str]] = if m == Mode::Modal {
            &[GOAL_WORDS, MODAL]
        } else {
            &[GOAL_WORDS]
        };
        let k = if d == 0 { self.c.pick(4) } else { self.c.pick(16) };
        match k {
            0..=2 => l("g.af", [self.af(no, d.min(4))]),
            3 => self.fcomp(d),
            4 => {
                if self.wide {
                    let k = if self.c.chance(1, 2) { "-" } else { "+" };
                    let f = self.af(no, 1);
                    l("g.lit", [l(k, [f])])
                } else {
                    l("g.not", [l("g.af", [self.af(no, d.min(4))])])
                }
            }
            5 | 6 => self.list("g.and", 0, |g| g.goal_in(d - 1, m)),
            7 | 8 => self.list("g.or", 0, |g| g.goal_in(d - 1, m)),
            9 => l("g.not", [self.goal_in(d - 1, m)]),
            10 | 11 => {
                let x = self.goal_in(d - 1, m);
                l("g.imply", [x, self.goal_in(d - 1, m)])
            }
            12 | 13 => {
                let v = self.vars();
                l("g.exists", [v, self.goal_in(d - 1, m)])
            }
            _ => {
                let v = self.vars();
                l("g.forall", [v, self.goal_in(d - 1, m)])
            }
        }
    }
    pub fn fcomp(&mut self, d: usize) -> Tree {
        let op = self.c.of(COMP);
        let mut x = self.fexp(d.min(4));
        let y = self.fexp(d.min(4));
        // An equality of two terms is an atomic formula.
        if op == "=" && !self.wide && x.is("x.f") && y.is("x.f") {
            x = l("x.n", [self.num()]);
        }
        l("g.fcomp", [a(op), x, y])
    }

    // ---- numeric expressions ----

    pub fn head(&mut self, d: usize) -> Tree {
        if self.c.pick(3) == 0 {
            l("h", [self.fun_name()])
        } else {
            let mut v = vec![self.fun_name()];
            let n = self.c.len(if self.wide { 0 } else { 1 }).min(8);
            for _ in 0..n {
                v.push(self.term(d));
            }
            L("hw", v)
        }
    }
    pub fn fexp(&mut self, d: usize) -> Tree {
        let k = if d == 0 { self.c.pick(4) } else { self.c.pick(9) };
        match k {
            0 | 1 => l("x.n", [self.num()]),
            2 | 3 => l("x.f", [self.head(d.min(3))]),
            4 => l("x.neg", [self.fexp(d - 1)]),
            5 | 6 => {
                let op = a(self.c.of(OPS));
                let x = self.fexp(d - 1);
                l("x.bin", [op, x, self.fexp(d - 1)])
            }
            _ => {
                let mut v = vec![a(self.c.of(&["+", "*"]))];
                let n = self.c.len(if self.wide { 1 } else { 3 });
                for _ in 0..n {
                    v.push(self.fexp(d - 1));
                }
                L("x.multi", v)
            }
        }
    }
    pub fn fexp_da(&mut self, d: usize) -> Tree {
        let k = if d == 0 { self.c.pick(5) } else { self.c.pick(10) };
        match k {
            0 => l("xd.dur", []),
            1 | 2 => {
                let n = l("x.n", [self.num()]);
                l("xd.x", [n])
            }
            3 | 4 => {
                let x = if self.wide {
                    self.fexp(d.min(2))
                } else {
                    l("x.f", [self.head(d.min(3))])
                };
                l("xd.x", [x])
            }
            5 => l("xd.neg", [self.fexp_da(d - 1)]),
            6 if self.wide => {
                let op = a(self.c.of(ASSIGN));
                let h = self.head(1);
                l("xd.assign", [op, h, self.fexp_da(d - 1)])
            }
            6 | 7 => {
                let op = a(self.c.of(OPS));
                let x = self.fexp_da(d - 1);
                l("xd.bin", [op, x, self.fexp_da(d - 1)])
            }
            _ => {
                let mut v = vec![a(self.c.of(&["+", "*"]))];
                let n = self.c.len(if self.wide { 1 } else { 3 });
                for _ in 0..n {
                    v.push(self.fexp_da(d - 1));
                }
                L("xd.multi", v)
            }
        }
    }
    pub fn metric_exp(&mut self, d: usize) -> Tree {
        let k = if d == 0 { self.c.pick(6) } else { self.c.pick(12) };
        match k {
            0 => l("m.total", []),
            1 | 2 => l("m.n", [self.num()]),
            3 => l("m.viol", [self.name()]),
            4 | 5 => {
                let mut v = vec![A(self.text_not(&[&["total-time", "is-violated"]]))];
                let n = self.c.len(0).min(8);
                for _ in 0..n {
                    v.push(self.name());
                }
                L("m.f", v)
            }
            6 => l("m.neg", [self.metric_exp(d - 1)]),
            7 | 8 => {
                let op = a(self.c.of(OPS));
                let x = self.metric_exp(d - 1);
                l("m.bin", [op, x, self.metric_exp(d - 1)])
            }
            _ => {
                let mut v = vec![a(self.c.of(&["+", "*"]))];
                let n = self.c.len(if self.wide { 2 } else { 3 });
                for _ in 0..n {
                    v.push(self.metric_exp(d - 1));
                }
                L("m.multi", v)
            }
        }
    }
    pub fn metric(&mut self) -> Tree {
        let o = a(self.c.of(&["minimize", "maximize"]));
        let d = self.depth();
        l("metric", [o, self.metric_exp(d)])
    }
    fn limit(&mut self) -> Tree {
        match self.c.pick(6) {
            0 | 1 => none(),
            2 | 3 => some(U(self.c.pick(1000) as u64)),
            4 => some(U((self.c.next() as u64) << 32 | self.c.next() as u64)),
            _ => some(U(self.c.of(&[u64::MAX, 0, 1, u64::MAX - 1, 1 << 53, (1 << 53) + 1]))),
        }
    }
    pub fn length(&mut self) -> Tree {
        let s = self.limit();
        l("length", [s, self.limit()])
    }

    // ---- preconditions ----

    pub fn pre(&mut self, d: usize) -> Tree {
        self.list("pre", 0, |g| g.pre_item(d))
    }
    /// A precondition list as found below `:goal`.
    pub fn pre_item(&mut self, d: usize) -> Tree {
        match self.c.pick(8) {
            0..=4 => {
                let mut g = self.goal(d);
                if !self.wide && (g.is("g.and") || g.is("g.forall")) {
                    g = l("g.not", [g]);
                }
                l("p.goal", [g])
            }
            5 | 6 => {
                let n = self.opt_name();
                l("p.pref", [n, self.goal(d)])
            }
            _ if d == 0 => {
                let f = self.af(&[GOAL_WORDS], 1);
                l("p.goal", [l("g.af", [f])])
            }
            _ => {
                let v = self.vars();
                l("p.forall", [v, self.pre(d - 1)])
            }
        }
    }
    pub fn opt_name(&mut self) -> Tree {
        if self.c.pick(3) == 0 {
            none()
        } else {
            some(self.name())
        }
    }

    // ---- effects ----

    pub fn p_effect(&mut self, d: usize) -> Tree {
        match self.c.pick(10) {
            0..=2 => l("pe.add", [self.af(&[EFFECT_WORDS], d)]),
            3 | 4 => l("pe.del", [self.af(&[], d)]),
            5 | 6 => {
                let op = a(self.c.of(ASSIGN));
                let h = self.head(d);
                l("pe.num", [op, h, self.fexp(d)])
            }
            7 => l("pe.obj", [self.fterm(d), none()]),
            _ => {
                let f = self.fterm(d);
                let v = match self.term(d) {
                    A(s) if s == "undefined" => a("defined"),
                    t => t,
                };
                l("pe.obj", [f, some(v)])
            }
        }
    }
    pub fn cond_effect(&mut self, d: usize) -> Tree {
        if self.c.pick(2) == 0 {
            l("ce.single", [self.p_effect(d)])
        } else {
            self.list("ce.all", 0, |g| g.p_effect(d))
        }
    }
    pub fn effects(&mut self, d: usize) -> Tree {
        self.list("effs", 0, |g| g.c_effect(d))
    }
    pub fn c_effect(&mut self, d: usize) -> Tree {
        let k = if d == 0 { self.c.pick(3) } else { self.c.pick(6) };
        match k {
            0..=2 => l("e.p", [self.p_effect(d.min(2))]),
            3 | 4 => {
                let g = self.goal((d - 1).min(5));
                l("e.when", [g, self.cond_effect(d.min(2))])
            }
            _ => {
                let v = self.vars();
                l("e.forall", [v, self.effects(d - 1)])
            }
        }
    }
    pub fn action(&mut self) -> Tree {
        let d = self.depth();
        let n = self.name();
        let v = self.vars();
        let p = self.pre(d);
        let e = if self.c.pick(4) == 0 {
            none()
        } else {
            some(self.effects(d))
        };
        l("action", [n, v, p, e])
    }

    // ---- durative actions ----

    pub fn simple_duration(&mut self, d: usize) -> Tree {
        if d > 0 && self.c.pick(3) == 2 {
            let t = a(self.c.of(&["start", "end"]));
            return l("s.at", [t, self.simple_duration(d - 1)]);
        }
        let op = a(self.c.of(DOPS));
        let x = match self.fexp(d) {
            x if x.is("x.n") && !self.wide => L("v.n", vec![x.at(0).clone()]),
            x => {
                if self.wide && self.c.chance(1, 3) {
                    l("v.n", [self.num()])
                } else {
                    l("v.x", [x])
                }
            }
        };
        l("s.op", [op, x])
    }
    pub fn duration(&mut self, d: usize) -> Tree {
        match self.c.pick(4) {
            0 => none(),
            1 | 2 => {
                let s = self.simple_duration(d.min(5));
                some(l("d.single", [s]))
            }
            _ => some(self.list("d.all", 1, |g| g.simple_duration(d.min(5)))),
        }
    }
    pub fn timed_goal(&mut self, d: usize) -> Tree {
        if self.c.pick(3) == 2 {
            l("t.over", [self.goal(d)])
        } else {
            let t = a(self.c.of(&["start", "end"]));
            l("t.at", [t, self.goal(d)])
        }
    }
    pub fn pref_timed_goal(&mut self, d: usize) -> Tree {
        if self.c.pick(3) == 2 {
            let n = self.opt_name();
            l("pt.pref", [n, self.timed_goal(d)])
        } else {
            l("pt.req", [self.timed_goal(d)])
        }
    }
    pub fn da_goal(&mut self, d: usize) -> Tree {
        let k = if d == 0 { 0 } else { self.c.pick(5) };
        match k {
            0 | 1 => l("dg.timed", [self.pref_timed_goal(d.min(5))]),
            2 | 3 => self.list("dg.and", 0, |g| g.da_goal(d - 1)),
            _ => {
                let v = self.vars();
                l("dg.forall", [v, self.da_goal(d - 1)])
            }
        }
    }
    pub fn timed_effect(&mut self, d: usize) -> Tree {
        match self.c.pick(8) {
            0..=3 => {
                let t = a(self.c.of(&["start", "end"]));
                let mut e = self.cond_effect(d);
                if !self.wide && e.is("ce.single") {
                    // A single numeric effect is read as a duration-dependent assignment.
                    let p = e.at(0);
                    let ok = match p.kind() {
                        "pe.num" => false,
                        "pe.obj" => match p.at(1).kids().first() {
                            None => true,
                            Some(v) => v.is("var") && v.at(0).text() != "duration",
                        },
                        _ => true,
                    };
                    if !ok {
                        e = L("ce.all", vec![p.clone()]);
                    }
                }
                l("te.cond", [t, e])
            }
            4 | 5 => {
                let t = a(self.c.of(&["start", "end"]));
                let op = a(self.c.of(ASSIGN));
                let h = self.head(d);
                l("te.num", [t, op, h, self.fexp_da(d)])
            }
            _ => {
                let op = a(self.c.of(&["increase", "decrease"]));
                let h = self.head(d);
                let x = if self.c.pick(2) == 0 {
                    l("xt.now", [])
                } else {
                    l("xt.scaled", [self.fexp(d)])
                };
                l("te.cont", [op, h, x])
            }
        }
    }
    pub fn da_effect(&mut self, d: usize) -> Tree {
        let k = if d == 0 { 0 } else { self.c.pick(7) };
        match k {
            0..=2 => l("de.timed", [self.timed_effect(d.min(3))]),
            3 | 4 => self.list("de.all", 0, |g| g.da_effect(d - 1)),
            5 => {
                let v = self.vars();
                l("de.forall", [v, self.da_effect(d - 1)])
            }
            _ => {
                let g = self.da_goal(d - 1);
                l("de.when", [g, self.timed_effect(d.min(3))])
            }
        }
    }
    pub fn durative_action(&mut self) -> Tree {
        let d = self.depth();
        let n = self.name();
        let v = self.vars();
        let u = self.duration(d);
        let c = if self.c.pick(4) == 0 {
            none()
        } else {
            some(self.da_goal(d))
        };
        let e = if self.c.pick(4) == 0 {
            none()
        } else {
            some(self.da_effect(d))
        };
        l("da", [n, v, u, c, e])
    }
    pub fn derived(&mut self) -> Tree {
        let d = self.depth();
        let s = self.pskel();
        l("derived", [s, self.goal(d)])
    }
    pub fn structure(&mut self) -> Tree {
        match self.c.pick(5) {
            0..=2 => self.action(),
            3 => self.durative_action(),
            _ => self.derived(),
        }
    }

    // ---- constraints ----

    pub fn con(&mut self, d: usize) -> Tree {
        let k = if d == 0 { self.c.pick(6) } else { self.c.pick(18) };
        match k {
            0 => l("c.at-end", [self.goal_in(d.min(4), Mode::Goal)]),
            1 => l("c.always", [self.con2(d)]),
            2 => l("c.sometime", [self.con2(d)]),
            3 => l("c.at-most-once", [self.con2(d)]),
            4 => {
                let n = self.num();
                l("c.within", [n, self.con2(d)])
            }
            5 => {
                let n = self.num();
                l("c.hold-after", [n, self.con2(d)])
            }
            6 | 7 => {
                let x = self.con2(d);
                l("c.sometime-after", [x, self.con2(d)])
            }
            8 | 9 => {
                let x = self.con2(d);
                l("c.sometime-before", [x, self.con2(d)])
            }
            10 | 11 => {
                let n = self.num();
                let x = self.con2(d);
                l("c.always-within", [n, x, self.con2(d)])
            }
            12 | 13 => {
                let n = self.num();
                let m = self.num();
                l("c.hold-during", [n, m, self.con2(d)])
            }
            14 | 15 => self.list("c.and", 0, |g| g.con(d - 1)),
            _ => {
                let v = self.vars();
                l("c.forall", [v, self.con(d - 1)])
            }
        }
    }
    pub fn con2(&mut self, d: usize) -> Tree {
        if d > 0 && self.c.pick(3) == 2 {
            let c = self.con(d - 1);
            if self.wide || con_skeleton_has_leaf(&c) {
                return l("k.n", [c]);
            }
        }
        let g = self.goal_in(d.min(4), Mode::Modal);
        if self.wide || goal_skeleton_has_leaf(&g) {
            return l("k.g", [g]);
        }
        l("k.g", [l("g.af", [self.af(&[GOAL_WORDS, MODAL], 1)])])
    }
    pub fn pref_cons(&mut self, d: usize) -> Tree {
        self.list("pcs", 0, |g| g.pref_con(d))
    }
    pub fn pref_con(&mut self, d: usize) -> Tree {
        match self.c.pick(8) {
            0..=3 => {
                let mut c = self.con(d);
                if !self.wide && (c.is("c.and") || c.is("c.forall")) {
                    c = l("pc.pref", [none(), c]);
                    return c;
                }
                l("pc.goal", [c])
            }
            4 | 5 => {
                let n = self.opt_name();
                l("pc.pref", [n, self.con(d)])
            }
            _ if d == 0 => l("pc.goal", [l("c.at-end", [self.goal(0)])]),
            _ => {
                let v = self.vars();
                l("pc.forall", [v, self.pref_cons(d - 1)])
            }
        }
    }

    // ---- initial state ----

    pub fn bft(&mut self) -> Tree {
        let mut v = vec![self.name()];
        let n = self.c.len(0).min(8);
        for _ in 0..n {
            v.push(self.name());
        }
        L("bft", v)
    }
    pub fn init_el(&mut self) -> Tree {
        match self.c.pick(8) {
            0..=2 => l("i.lit", [self.lit_names()]),
            3 => {
                let n = self.num();
                l("i.at", [n, self.lit_names()])
            }
            4 | 5 => {
                let f = self.bft();
                l("i.val", [f, self.num()])
            }
            _ => {
                let f = self.bft();
                l("i.obj", [f, self.name()])
            }
        }
    }
    pub fn init(&mut self) -> Tree {
        self.list("inits", 0, |g| g.init_el())
    }

    // ---- documents ----

    pub fn reqs(&mut self) -> Tree {
        if self.c.pick(2) == 0 {
            return l("reqs", []);
        }
        self.list("reqs", 0, |g| a(g.c.of(REQUIREMENTS)))
    }
    fn opt_list(&mut self, k: &'static str, f: impl FnMut(&mut Self) -> Tree) -> Tree {
        if self.c.pick(2) == 0 {
            return l(k, []);
        }
        self.list(k, 0, f)
    }
    pub fn domain(&mut self) -> Tree {
        let mut v = vec![none(); 9];
        // Any section may come first to the choices, of which there may be few.
        let first = self.c.pick(9);
        for i in 0..9 {
            let i = (i + first) % 9;
            v[i] = match i {
                0 => self.name(),
                1 if self.c.pick(3) == 2 => self.list("ext", 0, |g| g.name()),
                1 => l("ext", []),
                2 => self.reqs(),
                3 | 4 => {
                    let x = if self.c.pick(2) == 0 { l("tl", []) } else { self.names() };
                    l(if i == 3 { "types" } else { "consts" }, [x])
                }
                5 => self.opt_list("preds", |g| g.pskel()),
                6 => {
                    let x = if self.c.pick(2) == 0 { l("ftl", []) } else { self.funs() };
                    l("funcs", [x])
                }
                7 => {
                    let x = if self.c.pick(3) == 2 {
                        let d = self.depth();
                        self.con(d)
                    } else {
                        l("c.and", [])
                    };
                    l("constr", [x])
                }
                _ => self.opt_list("structs", |g| g.structure()),
            };
        }
        if self.wide {
            // Timeless facts are not part of the parsed grammar.
            v.push(self.opt_list("timeless", |g| g.lit_names()));
        }
        L("domain", v)
    }
    pub fn problem(&mut self) -> Tree {
        let mut v = vec![none(); 9];
        let first = self.c.pick(9);
        for i in 0..9 {
            let i = (i + first) % 9;
            v[i] = match i {
                0 | 1 => self.name(),
                2 => self.reqs(),
                3 => {
                    let x = if self.c.pick(3) == 0 { l("tl", []) } else { self.names() };
                    l("objs", [x])
                }
                4 => self.init(),
                5 => {
                    let d = self.depth();
                    self.pre(d)
                }
                6 if self.c.pick(2) == 0 => l("pcs", []),
                6 => {
                    let d = self.depth();
                    self.pref_cons(d)
                }
                7 if self.c.pick(2) == 0 => none(),
                7 => some(self.metric()),
                _ if self.c.pick(3) == 2 => some(self.length()),
                _ => none(),
            };
        }
        L("problem", v)
    }
}

/// Whether a goal contains anything but conjunctions and universal quantifications at its top.
pub fn goal_skeleton_has_leaf(g: &Tree) -> bool {
    match g.kind() {
        "g.and" => g.kids().iter().any(goal_skeleton_has_leaf),
        "g.forall" => goal_skeleton_has_leaf(g.at(1)),
        _ => true,
    }
}
pub fn con_skeleton_has_leaf(g: &Tree) -> bool {
    match g.kind() {
        "c.and" => g.kids().iter().any(con_skeleton_has_leaf),
        "c.forall" => con_skeleton_has_leaf(g.at(1)),
        _ => true,
    }
}
