//! Simulated operating system surface.
//!
//! Everything the code under test can observe from outside its own memory goes through libc:
//! `getrandom` (the keys of every std `HashMap`/`HashSet`, i.e. every iteration order), files,
//! directories and standard output.  This crate exports those symbols.  While a simulation context
//! is active on the calling thread they are answered by an in-memory file system under a seeded
//! fault plan; otherwise they are passed to the kernel.
//!
//! No std HashMap, no std I/O and no allocation-order dependence in here: only BTreeMaps and raw
//! system calls, so that the simulator itself adds no nondeterminism.

#![allow(unknown_lints, invalid_runtime_symbol_definitions)]

pub mod fs;
pub mod interpose;
pub mod plan;
pub mod rng;

pub use fs::{Fs, Node};
pub use interpose::{clear_ctx, raw_syscall, edges, set_blocking, set_ctx, set_edge, set_yield, Blocking, Ctx, Inner, StepLimit};
pub use plan::{Action, Chunk, Fault, OpClass, Plan};
pub use rng::SplitMix;
