//! Specification of chronologic for the abstract interpreter. Never executed.
#![feature(macro_metavar_expr_concat)]
#![allow(dead_code, unused_must_use, private_bounds)]
pub mod rt;
pub mod stubs;
pub mod util;
pub mod graphs;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c27;
pub mod c28;
pub mod c32;
pub mod c33;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c17;
pub mod c16;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
