//! Bounded model checking of CQCL/hugr: shared engine and helpers.
#![allow(clippy::all)]
pub mod explore;
pub mod front;
pub mod sem;
pub mod subst;
pub mod prog;
pub mod interp;
pub mod families;
pub mod c01;
pub mod c07;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c23;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod patch;
pub mod c26;
pub mod c02;
pub mod spec;
pub mod c04;
pub mod c05;
pub mod c06;
