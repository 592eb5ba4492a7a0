use crate::ev::*;
use core::num::{NonZeroU16, NonZeroU8};
use z80emu::host::{Clock, Io, Memory};

/// Opaque newtypes: the generic CPU code can neither inspect nor forge them.
pub struct Ts(pub u8);
#[derive(Clone, Copy)]
pub struct Lim(pub u8);
pub struct WrBrk(pub u8);
pub struct RetiBrk(pub u8);

pub struct Clk {
    _x: u8,
}
impl Clk {
    pub fn new() -> Self {
        Clk { _x: 0 }
    }
}
impl Clock for Clk {
    type Limit = Lim;
    type Timestamp = Ts;
    fn is_past_limit(&self, limit: Lim) -> bool {
        unsafe { ck_past(limit.0) }
    }
    fn add_irq(&mut self, pc: u16) -> Ts {
        Ts(unsafe { ck_irq(pc) })
    }
    fn add_no_mreq(&mut self, address: u16, add_ts: NonZeroU8) {
        unsafe { ck_nomreq(address, add_ts.get()) }
    }
    fn add_m1(&mut self, address: u16) -> Ts {
        Ts(unsafe { ck_m1(address) })
    }
    fn add_mreq(&mut self, address: u16) -> Ts {
        Ts(unsafe { ck_mreq(address) })
    }
    fn add_io(&mut self, port: u16) -> Ts {
        Ts(unsafe { ck_io(port) })
    }
    fn add_wait_states(&mut self, bus: u16, wait_states: NonZeroU16) {
        unsafe { ck_wait(bus, wait_states.get()) }
    }
    fn as_timestamp(&self) -> Ts {
        Ts(unsafe { ck_now() })
    }
}

pub struct Ctl {
    _x: u8,
}
impl Ctl {
    pub fn new() -> Self {
        Ctl { _x: 0 }
    }
}
fn ws(v: u32) -> Option<NonZeroU16> {
    NonZeroU16::new((v >> 8) as u16)
}
impl Io for Ctl {
    type Timestamp = Ts;
    type WrIoBreak = WrBrk;
    type RetiBreak = RetiBrk;
    fn read_io(&mut self, port: u16, ts: Ts) -> (u8, Option<NonZeroU16>) {
        let v = unsafe { ct_rdio(port, ts.0) };
        (v as u8, ws(v))
    }
    fn write_io(&mut self, port: u16, data: u8, ts: Ts) -> (Option<WrBrk>, Option<NonZeroU16>) {
        let v = unsafe { ct_wrio(port, data, ts.0) };
        let b = if v & 1 != 0 { Some(WrBrk(unsafe { ct_token() })) } else { None };
        (b, ws(v))
    }
    fn is_irq(&mut self, ts: Ts) -> bool {
        unsafe { ct_isirq(ts.0) }
    }
    fn irq_data(&mut self, pc: u16, ts: Ts) -> (u8, Option<NonZeroU16>) {
        let v = unsafe { ct_irqdata(pc, ts.0) };
        (v as u8, ws(v))
    }
    fn reti(&mut self, address: u16, ts: Ts) -> Option<RetiBrk> {
        if unsafe { ct_reti(address, ts.0) } {
            Some(RetiBrk(unsafe { ct_token() }))
        } else {
            None
        }
    }
}
impl Memory for Ctl {
    type Timestamp = Ts;
    fn read_mem(&self, address: u16, ts: Ts) -> u8 {
        unsafe { ct_rdmem(address, ts.0) }
    }
    fn read_mem16(&self, address: u16, ts: Ts) -> u16 {
        unsafe { ct_rdmem16(address, ts.0) }
    }
    fn read_opcode(&mut self, pc: u16, ir: u16, ts: Ts) -> u8 {
        unsafe { ct_opcode(pc, ir, ts.0) }
    }
    fn write_mem(&mut self, address: u16, value: u8, ts: Ts) {
        unsafe { ct_wrmem(address, value, ts.0) }
    }
    fn read_debug(&self, address: u16) -> u8 {
        unsafe { ct_rddebug(address) }
    }
}

/// A host that does nothing: used only to leave a prefix pending while a
/// start state is put together.
pub struct Nul;
impl Io for Nul {
    type Timestamp = u8;
    type WrIoBreak = ();
    type RetiBreak = ();
}
impl Memory for Nul {
    type Timestamp = u8;
}
impl Clock for Nul {
    type Limit = u8;
    type Timestamp = u8;
    fn is_past_limit(&self, _: u8) -> bool {
        true
    }
    fn add_irq(&mut self, _: u16) -> u8 {
        0
    }
    fn add_no_mreq(&mut self, _: u16, _: NonZeroU8) {}
    fn add_m1(&mut self, _: u16) -> u8 {
        0
    }
    fn add_mreq(&mut self, _: u16) -> u8 {
        0
    }
    fn add_io(&mut self, _: u16) -> u8 {
        0
    }
    fn add_wait_states(&mut self, _: u16, _: NonZeroU16) {}
    fn as_timestamp(&self) -> u8 {
        0
    }
}
