//! Formatting and serialization entries. Like `harness`, nothing here is ever
//! executed; this crate is separate because the core library is exported along.
#![no_std]
#![allow(dead_code)]
#![allow(clippy::all)]

#[path = "../../harness/src/ev.rs"]
pub mod ev;
#[path = "../../harness/src/host.rs"]
pub mod host;
#[path = "../../harness/src/obs.rs"]
pub mod obs;
#[macro_use]
#[path = "../../harness/src/units.rs"]
pub mod units;
pub use units::{b1, b16, b8};
pub mod describe;
pub mod tape;
pub mod saved;
pub mod text;
