//! The codec against the original C++ implementation.
#![allow(clippy::all)]
#[path = "../../harness/src/sym.rs"]
pub mod sym;
#[path = "../../harness/src/cfg.rs"]
pub mod cfg;
#[path = "../../harness/src/program.rs"]
pub mod program;
pub mod refs;
