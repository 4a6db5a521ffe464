//! Harnesses: each states a property over symbolic inputs of the real gfwx crate.
#![allow(clippy::all)]
pub mod sym;
pub mod lift;
pub mod cfg;
pub mod program;
pub mod e2e;
pub mod codes;
pub mod header;
pub mod quant;
pub mod color;
pub mod blocks;
pub mod robust;
pub mod stages;
pub mod split;
pub mod faults;
pub mod alone;
