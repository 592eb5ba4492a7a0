//! Analysis harness: monomorphic entry points through the public interface of
//! z80emu, with a host whose every reaction is an unconstrained fresh value.
//! Nothing in this crate is ever executed: the compiler driver exports the MIR
//! reachable from the `zh_*` functions and the analyser interprets it
//! abstractly. The functions of `ev` have no definition; the analyser treats
//! a call to one as an event (or as a fresh input).
#![allow(clippy::all)]
#![allow(dead_code)]

pub mod ev;
pub mod host;
pub mod obs;
#[macro_use]
pub mod core_entries;
#[macro_use]
pub mod units;
pub mod custom;
pub mod accessors;
pub mod convert;
pub mod hosts;
pub mod opcodes;
pub mod limit;
pub mod pairs;
pub mod flags;
pub mod disasm;
pub use obs::mk as mk_c;
pub use units::mk_any as mk_a;
