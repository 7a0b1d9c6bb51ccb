//! Shared machinery: syntax trees, generators, printer, dumping and building of crate values,
//! and a reference grammar.
pub mod choice;
pub mod doc;
pub mod dump;
pub mod gen;
pub mod lits;
pub mod mk;
pub mod observe;
pub mod print;
pub mod refp;
pub mod tree;
#[cfg(feature = "parser")]
pub mod entry;
#[cfg(feature = "parser")]
pub mod texts;
pub mod kinds;
pub mod mutate;
pub mod stretch;
pub mod views;
pub mod words;
