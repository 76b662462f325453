//! Deterministic simulation runtime. This crate is compiled WITHOUT instrumentation and owns every
//! source of nondeterminism of the process under simulation: which thread runs (token passing
//! between real threads, decided at instrumented basic-block edges, loads, stores and intercepted
//! blocking calls), what the allocator returns, what memory contains, clocks and random bytes.
#![allow(static_mut_refs)]
#![allow(unknown_lints)]
pub mod arena;
pub mod hooks;
pub mod prng;
pub mod raw;
pub mod sched;
pub mod shm;

pub use prng::Rng;
pub use sched::{host, sys};
