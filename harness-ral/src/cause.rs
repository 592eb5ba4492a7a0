//! C34 with the standard library: a break cause as an error.
use crate::*;
use std::error::Error;
use z80emu::host::BreakCause;

fn told(c: BreakCause<u8, u16>) {
    let want: &'static str = (&c).into();
    #[allow(deprecated)]
    let d = c.description();
    eq!("description is the cause's text", d.as_bytes() == want.as_bytes(), true);
    eq!("no further cause", c.source().is_none(), true);
}
pub mod zu_c34 {
    use super::*;
    pub fn as_error() {
        told(BreakCause::Halt);
        told(BreakCause::WriteIo(b8(100)));
        told(BreakCause::Reti(b16(100)));
    }
}
