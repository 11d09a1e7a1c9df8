//! Entry points for the static analysis: each function is a composition of the public API of the
//! analysed crates.  Nothing here is ever executed; the functions are only type-checked, resolved
//! and analysed.
#![allow(clippy::all, dead_code)]

pub mod shims;
#[cfg(feature = "graph")]
pub mod graph;
#[cfg(feature = "proxy")]
pub mod proxy;
#[cfg(feature = "tx")]
pub mod tx;
#[cfg(feature = "schema")]
pub mod schema;
#[cfg(feature = "ops")]
pub mod ops;
#[cfg(feature = "trig")]
pub mod trig;
#[cfg(feature = "res")]
pub mod res;
#[cfg(feature = "access")]
pub mod access;
#[cfg(feature = "lazy")]
pub mod lazy;
#[cfg(feature = "cli")]
pub mod cli;

/// The command line's program.
#[cfg(feature = "bin")]
#[path = "/repo/plotline-cli/src/main.rs"]
mod bin;
