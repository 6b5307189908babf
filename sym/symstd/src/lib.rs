//! The standard library as the checked program sees it: the real one, except that
//!  * HashMap / HashSet are contract models whose iteration order is an explicit nondeterministic choice,
//!  * threads, sleeping, mutexes and atomics go through an explicit scheduler (every access to shared state is a scheduling point).
//! Everything else (files, strings, paths, formatting, process exit ...) is the real library.
#![allow(unused, static_mut_refs)]
pub use ::std::*;
pub mod rt;
pub mod collections;
pub mod thread;
pub mod sync;
