//! What the library under test links as `tokio`.
//!
//! Synchronisation primitives, macros and everything else come from the real tokio (with scheduling
//! points added); tasks, time and UDP sockets are those of `simrt`.
pub use tokio_real::*;

pub mod net;
pub mod task;
pub mod time;

pub use task::spawn;
