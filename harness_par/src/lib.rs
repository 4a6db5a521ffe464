//! The parallel build of the codec (every parallelisable loop runs as a region of tasks).
#![allow(clippy::all)]
#[path = "../../harness/src/sym.rs"]
pub mod sym;
#[path = "../../harness/src/cfg.rs"]
pub mod cfg;
#[path = "../../harness/src/program.rs"]
pub mod program;
pub mod par;
pub mod history;
// the same harnesses as in the single-threaded build, for the default features
#[path = "../../harness/src/e2e.rs"]
pub mod e2e;
#[path = "../../harness/src/robust.rs"]
pub mod robust;
#[path = "../../harness/src/lift.rs"]
pub mod lift;
#[path = "../../harness/src/quant.rs"]
pub mod quant;
