//! Contracts of the library programs are written with, checked on the real crates for all values of their inputs.
#![feature(core_intrinsics)]
#![allow(internal_features)]
#[cfg(kani)]
mod abi;
#[cfg(kani)]
mod amount;
