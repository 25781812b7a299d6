//! Compile-time witnesses for the public API of every feature combination (property C41).
//! Nothing here runs: the check only asks whether it type-checks.
#![allow(unused, clippy::all)]
pub mod api;
pub mod manual;
