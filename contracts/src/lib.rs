//! Contracts (pre/postconditions, invariants and reference specifications) over the real code of
//! /repo.  Every contract is a function `fn(&mut impl Src) -> R`: it draws arguments from the value
//! source, states its precondition with `requires!`, calls the real function and states its
//! postcondition with `ensures!`.  Under Kani the source is symbolic; natively it is a
//! deterministic generator or a recorded counterexample.
#![allow(clippy::all, unused_macros, dead_code)]
#[macro_use]
pub mod rt;
#[macro_use]
pub mod types;
pub mod spec;
#[cfg(all(feature = "core", not(kani)))]
pub mod sys;
#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c11")]
pub mod c11;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c15")]
pub mod c15;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(feature = "c18")]
pub mod c18;
#[cfg(feature = "c19")]
pub mod c19;
#[cfg(feature = "c20")]
pub mod c20;
#[cfg(feature = "c21")]
pub mod c21;
#[cfg(feature = "c22")]
pub mod c22;
#[cfg(feature = "c23")]
pub mod c23;

#[cfg(feature = "hash")]
pub mod toy;
#[cfg(feature = "c21")]
pub mod vision_constants;
