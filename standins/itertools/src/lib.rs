//! The cached release is 0.13; the interface used is the same.
pub use real::*;
