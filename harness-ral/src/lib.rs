//! Entries for the example computer (examples/ral1243). Like `harness`, nothing
//! here is ever executed.
#![allow(dead_code)]
#![allow(clippy::all)]

#[path = "../../harness/src/ev.rs"]
pub mod ev;
pub mod mock;
pub mod bus;
pub mod pio;
pub mod ctc;
pub mod map;
pub mod time;
pub mod trigger;
pub mod cause;

#[macro_export]
macro_rules! eq {
    ($n:expr, $a:expr, $b:expr) => {
        unsafe { $crate::ev::cl_eq($n, ($a) as u64, ($b) as u64) }
    };
}
pub fn b1(i: u32) -> bool {
    unsafe { ev::zi_bool(i) }
}
pub fn b8(i: u32) -> u8 {
    unsafe { ev::zi_u8(i) }
}
pub fn b16(i: u32) -> u16 {
    unsafe { ev::zi_u16(i) }
}
pub fn b32(i: u32) -> u32 {
    unsafe { ev::zi_u32(i) }
}
