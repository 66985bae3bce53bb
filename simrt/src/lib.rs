//! Deterministic simulation runtime.
//!
//! One process is simulated at a time. Its threads are real OS threads, but exactly one of them ever runs: every
//! channel operation, file-system operation and SQLite VFS call is a scheduling point at which a seeded PRNG decides
//! who goes on. Time is simulated; the disk is an in-memory model that distinguishes written from synchronised data.
pub mod rng;
pub mod sched;
pub mod mpsc;
pub mod thread;
pub mod disk;
pub mod fs;
pub mod vfs;

pub use sched::*;
