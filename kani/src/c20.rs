//! Names of helpers.
#[path = "c20_gen.rs"]
pub mod gen;
