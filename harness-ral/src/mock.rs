//! Devices with unknown answers that remember how they were called.
use crate::*;
use core::num::NonZeroU16;
use core::ops::Range;
use ral1243::bus::{BusDevice, MemoryControl};
use z80emu::{Io, Memory};

/// calls by kind: how many, the latest arguments; and the order of all
#[derive(Clone, Copy)]
pub struct Log {
    pub n: [u8; 8],
    pub x: [u32; 8],
    pub y: [u32; 8],
    pub order: u32,
}
impl Log {
    pub fn new() -> Log {
        Log { n: [0; 8], x: [0; 8], y: [0; 8], order: 0 }
    }
    pub fn put(&mut self, kind: usize, x: u32, y: u32) {
        self.n[kind] += 1;
        self.x[kind] = x;
        self.y[kind] = y;
        self.order = self.order << 4 | (kind as u32 + 1);
    }
    pub fn same(&self, o: &Log) {
        eq!("order of the calls", self.order, o.order);
        for i in 0..8 {
            eq!("number of calls", self.n[i], o.n[i]);
            eq!("argument of the call", self.x[i], o.x[i]);
            eq!("timestamp of the call", self.y[i], o.y[i]);
        }
    }
    /// exactly one call
    pub fn only(&self, kind: usize, x: u32, y: u32) {
        let mut l = Log::new();
        l.put(kind, x, y);
        self.same(&l);
    }
    pub fn none(&self) {
        self.same(&Log::new());
    }
}

pub const RESET: usize = 0;
pub const FRAME: usize = 1;
pub const M1: usize = 2;
pub const SECOND: usize = 3;
pub const READ: usize = 4;
pub const WRITE: usize = 5;
pub const IRQ: usize = 6;
pub const ACK: usize = 7;
// of an independent log
pub const RETI: usize = 0;

/// the rest of the daisy chain; answers are inputs 1000 + 16 * step and up
pub struct Next {
    pub log: Log,
    pub log2: Log,
    pub step: u32,
}
impl Next {
    pub fn new() -> Next {
        Next { log: Log::new(), log2: Log::new(), step: 0 }
    }
    pub fn at(step: u32) -> Next {
        Next { log: Log::new(), log2: Log::new(), step }
    }
    fn id(&self, k: u32) -> u32 {
        1000 + 16 * self.step + k
    }
    pub fn same(&self, o: &Next) {
        self.log.same(&o.log);
        self.log2.same(&o.log2);
    }
}
impl BusDevice for Next {
    type Timestamp = u32;
    type NextDevice = Next;
    fn reset(&mut self, ts: u32) {
        self.log.put(RESET, 0, ts)
    }
    fn frame_end(&mut self, ts: u32) {
        self.log.put(FRAME, 0, ts)
    }
    fn m1(&mut self, ts: u32) {
        self.log.put(M1, 0, ts)
    }
    fn next_device(&mut self) -> &mut Next {
        self
    }
    fn next_second(&mut self, d: u32) {
        self.log.put(SECOND, 0, d)
    }
}
impl Io for Next {
    type Timestamp = u32;
    type WrIoBreak = ();
    type RetiBreak = ();
    fn write_io(&mut self, port: u16, data: u8, ts: u32) -> (Option<()>, Option<NonZeroU16>) {
        self.log.put(WRITE, port as u32 | (data as u32) << 16, ts);
        (if b1(self.id(0)) { Some(()) } else { None }, NonZeroU16::new(b16(self.id(1))))
    }
    fn read_io(&mut self, port: u16, ts: u32) -> (u8, Option<NonZeroU16>) {
        self.log.put(READ, port as u32, ts);
        (b8(self.id(2)), NonZeroU16::new(b16(self.id(3))))
    }
    fn is_irq(&mut self, ts: u32) -> bool {
        self.log.put(IRQ, 0, ts);
        b1(self.id(4))
    }
    fn irq_data(&mut self, pc: u16, ts: u32) -> (u8, Option<NonZeroU16>) {
        self.log.put(ACK, pc as u32, ts);
        (b8(self.id(5)), NonZeroU16::new(b16(self.id(6))))
    }
    fn reti(&mut self, pc: u16, ts: u32) -> Option<()> {
        self.log2.put(RETI, pc as u32, ts);
        if b1(self.id(7)) {
            Some(())
        } else {
            None
        }
    }
}

pub const OPCODE: usize = 0;
pub const WRMEM: usize = 1;
pub const CTRL: usize = 2;
pub struct Mem {
    pub log: Log,
}
impl Mem {
    pub fn new() -> Mem {
        Mem { log: Log::new() }
    }
}
impl Memory for Mem {
    type Timestamp = u32;
    fn read_opcode(&mut self, pc: u16, ir: u16, ts: u32) -> u8 {
        self.log.put(OPCODE, pc as u32 | (ir as u32) << 16, ts);
        b8(900)
    }
    // an injective function of the arguments, as far as the width goes
    fn read_mem(&self, addr: u16, ts: u32) -> u8 {
        (addr as u8).rotate_left(1) ^ (addr >> 8) as u8 ^ (ts as u8).rotate_left(3) ^ b8(901)
    }
    fn read_mem16(&self, addr: u16, ts: u32) -> u16 {
        addr.rotate_left(1) ^ (ts as u16).rotate_left(3) ^ b16(902)
    }
    fn write_mem(&mut self, addr: u16, v: u8, ts: u32) {
        self.log.put(WRMEM, addr as u32 | (v as u32) << 16, ts)
    }
    fn read_debug(&self, addr: u16) -> u8 {
        (addr as u8).rotate_left(1) ^ (addr >> 8) as u8 ^ b8(903)
    }
}
impl MemoryControl for Mem {
    fn read_ctrl(&self) -> u8 {
        b8(904)
    }
    fn write_ctrl(&mut self, data: u8) {
        self.log.put(CTRL, data as u32, 0)
    }
    fn memory_debug(&self, _: Range<u16>) -> Vec<u8> {
        panic!()
    }
}
