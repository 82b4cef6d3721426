//! A small deterministic simulator.
//!
//! * `sim`: one decision source per run.  Every scheduling decision, fault,
//!   generated operation and hash seed is drawn from it and recorded on a
//!   tape; replaying a tape repeats the run exactly.
//! * `world`: the simulated operating system.  The harness binary defines the
//!   libc symbols `getrandom`, `clock_gettime`, `read`, `write`, `open64`,
//!   `close`, ... itself; on simulated threads they are served from the
//!   simulated world (hash seeds, clock, standard streams, disk).
//! * `runner`: seeded search over many runs in several worker processes,
//!   minimisation, replay files, evidence.
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
pub mod json;
pub mod runner;
pub mod sim;
pub mod world;

pub use runner::{main_with, Check};
pub use sim::{Sim, Verdict, Violation};

#[macro_export]
macro_rules! ev {
    ($sim:expr, $($arg:tt)*) => { $sim.ev(format!($($arg)*)) };
}

/// Fail the run with a violation unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $kind:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::Violation::new($kind, format!($($arg)*)));
        }
    };
}

#[macro_export]
macro_rules! bail {
    ($kind:expr, $($arg:tt)*) => {
        return Err($crate::Violation::new($kind, format!($($arg)*)))
    };
}
