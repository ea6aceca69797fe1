//! A stand-in for `std` in which every source of nondeterminism that the
//! library under test can use (locks, condition variables, atomics, channels,
//! threads, sleeping, clocks, hash-map iteration order) is owned by a
//! controlled runtime (`rt`).  Everything else is re-exported from std.
#![allow(clippy::all)]
pub use ::std::*;

pub mod collections;
pub mod rt;
pub mod sync;
pub mod thread;
pub mod time;
