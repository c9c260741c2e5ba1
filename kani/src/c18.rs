//! Precedence of arguments.
#[path = "c18_gen.rs"]
pub mod gen;
#[path = "c18_more.rs"]
pub mod more;
#[path = "c18_vis.rs"]
pub mod vis;
