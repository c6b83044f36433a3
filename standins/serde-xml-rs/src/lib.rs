//! Stand-in: only named by `extern crate`.
