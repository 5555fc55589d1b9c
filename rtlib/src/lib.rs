#![no_std]
pub use tribute_runtime::*;
