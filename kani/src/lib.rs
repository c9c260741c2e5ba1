#![allow(unused, static_mut_refs, clippy::all)]
pub mod built;
#[cfg(any(feature = "c11", feature = "c12", feature = "c14"))]
pub mod shapes;
pub mod common;
#[macro_use]
pub mod matrix;
pub mod mini_serde;
pub mod forms;
pub mod seq;
pub mod subject;

macro_rules! properties {
    ($( $feature:literal $module:ident; )+) => {
        $( #[cfg(feature = $feature)] pub mod $module; )+
    };
}
properties! {
    "c01" c01;
    "c02" c02;
    "c03" c03;
    "c04" c04;
    "c05" c05;
    "c06" c06;
    "c07" c07;
    "c08" c08;
    "c09" c09;
    "c10" c10;
    "c11" c11;
    "c12" c12;
    "c13" c13;
    "c14" c14;
    "c15" c15;
    "c16" c16;
    "c17" c17;
    "c18" c18;
    "c20" c20;
    "c21" c21;
}
