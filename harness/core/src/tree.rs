//! Untyped syntax trees: the reference representation of what a document says.
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Tree {
    /// A name, keyword or operator.
    A(String),
    /// A number, by the bits of its value.
    N(u32),
    U(u64),
    L(&'static str, Vec<Tree>),
}

pub use Tree::{A, L, N, U};

pub fn a<S: Into<String>>(s: S) -> Tree {
    A(s.into())
}
pub fn l<V: Into<Vec<Tree>>>(k: &'static str, v: V) -> Tree {
    L(k, v.into())
}
pub fn none() -> Tree {
    L("none", vec![])
}
pub fn some(t: Tree) -> Tree {
    L("some", vec![t])
}

impl Tree {
    pub fn kind(&self) -> &'static str {
        match self {
            L(k, _) => k,
            A(_) => "#a",
            N(_) => "#n",
            U(_) => "#u",
        }
    }
    pub fn kids(&self) -> &[Tree] {
        match self {
            L(_, v) => v,
            _ => &[],
        }
    }
    pub fn at(&self, i: usize) -> &Tree {
        &self.kids()[i]
    }
    pub fn text(&self) -> &str {
        match self {
            A(s) => s,
            t => panic!("not an atom: {t:?}"),
        }
    }
    pub fn num(&self) -> f32 {
        match self {
            N(b) => f32::from_bits(*b),
            t => panic!("not a number: {t:?}"),
        }
    }
    pub fn u(&self) -> u64 {
        match self {
            U(b) => *b,
            t => panic!("not an integer: {t:?}"),
        }
    }
    pub fn is(&self, k: &str) -> bool {
        self.kind() == k
    }
    /// Number of nodes.
    pub fn size(&self) -> usize {
        1 + self.kids().iter().map(Tree::size).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.kids().iter().map(Tree::depth).max().unwrap_or(0)
    }
    pub fn visit<'a>(&'a self, f: &mut dyn FnMut(&'a Tree)) {
        f(self);
        for k in self.kids() {
            k.visit(f);
        }
    }
    pub fn has(&self, k: &str) -> bool {
        self.is(k) || self.kids().iter().any(|t| t.has(k))
    }
    pub fn hash64(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = Fnv(0xcbf29ce484222325);
        self.hash(&mut h);
        h.finish()
    }
    /// The first difference between two trees, for messages.
    pub fn diff(&self, o: &Tree) -> String {
        fn go(a: &Tree, b: &Tree, path: &mut Vec<String>) -> Option<String> {
            if a == b {
                return None;
            }
            match (a, b) {
                (L(k, x), L(m, y)) if k == m && x.len() == y.len() => {
                    for (i, (p, q)) in x.iter().zip(y).enumerate() {
                        path.push(format!("{k}[{i}]"));
                        if let Some(r) = go(p, q, path) {
                            return Some(r);
                        }
                        path.pop();
                    }
                    None
                }
                _ => Some(format!(
                    "at {}: expected {:?}, got {:?}",
                    path.join("/"),
                    a,
                    b
                )),
            }
        }
        go(self, o, &mut vec![]).unwrap_or_else(|| "equal".into())
    }
}

impl fmt::Debug for Tree {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            A(s) => write!(f, "{s:?}"),
            N(b) => write!(f, "{}", f32::from_bits(*b)),
            U(u) => write!(f, "{u}u"),
            L(k, v) => {
                write!(f, "({k}")?;
                for t in v {
                    write!(f, " {t:?}")?;
                }
                write!(f, ")")
            }
        }
    }
}

/// A deterministic hasher.
pub struct Fnv(pub u64);
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 ^= *x as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}
