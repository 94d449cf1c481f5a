//! Harness library: symbolic inputs, an independent XML tree model (`El`), its serialiser with
//! presentation variants, an independent reader for the library's output, and fault injection.
pub mod cm;
pub mod gen;
pub mod schema;
pub mod tree;
pub mod vp;
pub mod xs;
pub use tree::*;
pub use vp::*;
