//! Analysis harness: every `pub fn` here is a root of the static analysis.
//! Nothing in this crate is ever executed; it only forces rustc to
//! monomorphise the public API of the workspace so that its MIR can be read.
#![allow(non_snake_case, non_camel_case_types, unused, clippy::all)]

pub mod si;     // secret integers
pub mod mi;     // Numeric/Integer traits on machine integers
pub mod arr;    // arrays and sequences
pub mod abs;    // abstract integers
pub mod pol;    // polynomials
pub mod spec;   // example specifications
mod ctl;     // positive controls of the effect scan
pub mod leak; // positive controls of the information-flow analysis
