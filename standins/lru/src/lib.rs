//! The cached release is 0.16; the interface used is the same.
pub use real::*;
