//! Stand-in: nothing of `prost` is used directly.
