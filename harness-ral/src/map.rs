//! C40: the memory map.
use crate::*;
use ral1243::bus::MemoryControl;
use ral1243::memory::Memory;
use z80emu::Memory as _;

const fn make(k: u8) -> [u8; 0x2000] {
    let mut a = [0; 0x2000];
    let mut i = 0;
    while i < 0x2000 {
        a[i] = (i as u8).rotate_left(1) ^ (i >> 7) as u8 ^ k;
        i += 1;
    }
    a
}
static ROM: [u8; 0x2000] = make(0x11);
static EX0: [u8; 0x2000] = make(0x52);
static EX1: [u8; 0x1000] = {
    let m = make(0x83);
    let mut a = [0; 0x1000];
    let mut i = 0;
    while i < 0x1000 {
        a[i] = m[i];
        i += 1;
    }
    a
};

/// what is there
struct Spec {
    top: u32,
    sel: u8,
    exroms: u8,
    /// the latest opcode came from the ROM
    ram_in: bool,
    w: Option<(u16, u8)>,
}
impl Spec {
    fn at(&self, a: u16) -> u8 {
        let i = (a & 0x1FFF) as usize;
        if a < 0x2000 {
            return ROM[i];
        }
        if a < 0x4000 && !self.ram_in {
            return match self.sel {
                0 if self.exroms > 0 => EX0[i],
                1 if self.exroms > 1 && i < 0x1000 => EX1[i],
                _ => 0xFF,
            };
        }
        if a as u32 >= self.top {
            return 0xFF;
        }
        match self.w {
            Some((b, v)) if a == b => v,
            _ => 0,
        }
    }
    fn write(&mut self, a: u16, v: u8) {
        if a >= 0x2000 && (a >= 0x4000 || self.ram_in) && (a as u32) < self.top {
            self.w = Some((a, v))
        }
    }
}
fn near<const B: u16>(i: u32) -> u16 {
    B.wrapping_sub(4).wrapping_add((b8(i) & 7) as u16)
}
fn run<const KB: usize, const EX: u8, const F: u16, const W: u16, const R: u16>() {
    let mut m = Memory::new(&ROM, KB);
    eq!("no cartridge yet", m.free_exrom_slots(), 256);
    if EX > 0 {
        eq!("cartridges", m.attach_exrom(Memory::make_rom(&EX0)), 1);
    }
    if EX > 1 {
        eq!("cartridges", m.attach_exrom(Memory::make_rom(&EX1)), 2);
    }
    eq!("room for cartridges", m.free_exrom_slots(), 256 - EX as usize);
    let top = if KB == 0 { 0x4000 } else { 0x4000 + KB as u32 * 1024 };
    let mut s = Spec { top, sel: 0, exroms: EX, ram_in: false, w: None };
    let f = near::<F>(10);
    let v = m.read_opcode(f, b16(11), 5);
    s.ram_in = f < 0x2000;
    eq!("opcode", v, s.at(f));
    let sel = b8(12) & 3;
    m.write_ctrl(sel);
    s.sel = sel;
    eq!("selected cartridge", m.read_ctrl(), sel);
    let w = near::<W>(13);
    m.write_mem(w, b8(14), 6);
    s.write(w, b8(14));
    // the bank changes with the next opcode from elsewhere
    if b1(16) {
        let f = if b1(17) { 0x1234 } else { 0x5678 };
        let v = m.read_opcode(f, b16(11), 6);
        s.ram_in = f < 0x2000;
        eq!("opcode", v, s.at(f));
    }
    if b1(18) {
        let v = m.eject_exroms();
        eq!("ejected", v.len(), EX);
        eq!("room for cartridges", m.free_exrom_slots(), 256);
        core::mem::forget(v);
        s.exroms = 0;
    }
    let r = near::<R>(15);
    eq!("byte", m.read_mem(r, 7), s.at(r));
    eq!("byte for the debugger", m.read_debug(r), s.at(r));
    eq!("word", m.read_mem16(r, 7), s.at(r) as u16 | (s.at(r.wrapping_add(1)) as u16) << 8);
    core::mem::forget(m);
}
pub mod zu_c40 {
    macro_rules! cases { ($($n:ident $kb:literal $ex:literal;)*) => { $( pub mod $n {
        use super::super::run;
        pub fn f0000_w0000_r0000() { run::<$kb, $ex, 0x0, 0x0, 0x0>() }
        pub fn f0000_w0000_r1000() { run::<$kb, $ex, 0x0, 0x0, 0x1000>() }
        pub fn f0000_w0000_r2000() { run::<$kb, $ex, 0x0, 0x0, 0x2000>() }
        pub fn f0000_w0000_r3000() { run::<$kb, $ex, 0x0, 0x0, 0x3000>() }
        pub fn f0000_w0000_r4000() { run::<$kb, $ex, 0x0, 0x0, 0x4000>() }
        pub fn f0000_w0000_r8000() { run::<$kb, $ex, 0x0, 0x0, 0x8000>() }
        pub fn f0000_w0000_r8400() { run::<$kb, $ex, 0x0, 0x0, 0x8400>() }
        pub fn f0000_w0000_ra000() { run::<$kb, $ex, 0x0, 0x0, 0xa000>() }
        pub fn f0000_w2000_r0000() { run::<$kb, $ex, 0x0, 0x2000, 0x0>() }
        pub fn f0000_w2000_r1000() { run::<$kb, $ex, 0x0, 0x2000, 0x1000>() }
        pub fn f0000_w2000_r2000() { run::<$kb, $ex, 0x0, 0x2000, 0x2000>() }
        pub fn f0000_w2000_r3000() { run::<$kb, $ex, 0x0, 0x2000, 0x3000>() }
        pub fn f0000_w2000_r4000() { run::<$kb, $ex, 0x0, 0x2000, 0x4000>() }
        pub fn f0000_w2000_r8000() { run::<$kb, $ex, 0x0, 0x2000, 0x8000>() }
        pub fn f0000_w2000_r8400() { run::<$kb, $ex, 0x0, 0x2000, 0x8400>() }
        pub fn f0000_w2000_ra000() { run::<$kb, $ex, 0x0, 0x2000, 0xa000>() }
        pub fn f0000_w4000_r0000() { run::<$kb, $ex, 0x0, 0x4000, 0x0>() }
        pub fn f0000_w4000_r1000() { run::<$kb, $ex, 0x0, 0x4000, 0x1000>() }
        pub fn f0000_w4000_r2000() { run::<$kb, $ex, 0x0, 0x4000, 0x2000>() }
        pub fn f0000_w4000_r3000() { run::<$kb, $ex, 0x0, 0x4000, 0x3000>() }
        pub fn f0000_w4000_r4000() { run::<$kb, $ex, 0x0, 0x4000, 0x4000>() }
        pub fn f0000_w4000_r8000() { run::<$kb, $ex, 0x0, 0x4000, 0x8000>() }
        pub fn f0000_w4000_r8400() { run::<$kb, $ex, 0x0, 0x4000, 0x8400>() }
        pub fn f0000_w4000_ra000() { run::<$kb, $ex, 0x0, 0x4000, 0xa000>() }
        pub fn f0000_w6000_r0000() { run::<$kb, $ex, 0x0, 0x6000, 0x0>() }
        pub fn f0000_w6000_r1000() { run::<$kb, $ex, 0x0, 0x6000, 0x1000>() }
        pub fn f0000_w6000_r2000() { run::<$kb, $ex, 0x0, 0x6000, 0x2000>() }
        pub fn f0000_w6000_r3000() { run::<$kb, $ex, 0x0, 0x6000, 0x3000>() }
        pub fn f0000_w6000_r4000() { run::<$kb, $ex, 0x0, 0x6000, 0x4000>() }
        pub fn f0000_w6000_r8000() { run::<$kb, $ex, 0x0, 0x6000, 0x8000>() }
        pub fn f0000_w6000_r8400() { run::<$kb, $ex, 0x0, 0x6000, 0x8400>() }
        pub fn f0000_w6000_ra000() { run::<$kb, $ex, 0x0, 0x6000, 0xa000>() }
        pub fn f0000_w8000_r0000() { run::<$kb, $ex, 0x0, 0x8000, 0x0>() }
        pub fn f0000_w8000_r1000() { run::<$kb, $ex, 0x0, 0x8000, 0x1000>() }
        pub fn f0000_w8000_r2000() { run::<$kb, $ex, 0x0, 0x8000, 0x2000>() }
        pub fn f0000_w8000_r3000() { run::<$kb, $ex, 0x0, 0x8000, 0x3000>() }
        pub fn f0000_w8000_r4000() { run::<$kb, $ex, 0x0, 0x8000, 0x4000>() }
        pub fn f0000_w8000_r8000() { run::<$kb, $ex, 0x0, 0x8000, 0x8000>() }
        pub fn f0000_w8000_r8400() { run::<$kb, $ex, 0x0, 0x8000, 0x8400>() }
        pub fn f0000_w8000_ra000() { run::<$kb, $ex, 0x0, 0x8000, 0xa000>() }
        pub fn f2000_w0000_r0000() { run::<$kb, $ex, 0x2000, 0x0, 0x0>() }
        pub fn f2000_w0000_r1000() { run::<$kb, $ex, 0x2000, 0x0, 0x1000>() }
        pub fn f2000_w0000_r2000() { run::<$kb, $ex, 0x2000, 0x0, 0x2000>() }
        pub fn f2000_w0000_r3000() { run::<$kb, $ex, 0x2000, 0x0, 0x3000>() }
        pub fn f2000_w0000_r4000() { run::<$kb, $ex, 0x2000, 0x0, 0x4000>() }
        pub fn f2000_w0000_r8000() { run::<$kb, $ex, 0x2000, 0x0, 0x8000>() }
        pub fn f2000_w0000_r8400() { run::<$kb, $ex, 0x2000, 0x0, 0x8400>() }
        pub fn f2000_w0000_ra000() { run::<$kb, $ex, 0x2000, 0x0, 0xa000>() }
        pub fn f2000_w2000_r0000() { run::<$kb, $ex, 0x2000, 0x2000, 0x0>() }
        pub fn f2000_w2000_r1000() { run::<$kb, $ex, 0x2000, 0x2000, 0x1000>() }
        pub fn f2000_w2000_r2000() { run::<$kb, $ex, 0x2000, 0x2000, 0x2000>() }
        pub fn f2000_w2000_r3000() { run::<$kb, $ex, 0x2000, 0x2000, 0x3000>() }
        pub fn f2000_w2000_r4000() { run::<$kb, $ex, 0x2000, 0x2000, 0x4000>() }
        pub fn f2000_w2000_r8000() { run::<$kb, $ex, 0x2000, 0x2000, 0x8000>() }
        pub fn f2000_w2000_r8400() { run::<$kb, $ex, 0x2000, 0x2000, 0x8400>() }
        pub fn f2000_w2000_ra000() { run::<$kb, $ex, 0x2000, 0x2000, 0xa000>() }
        pub fn f2000_w4000_r0000() { run::<$kb, $ex, 0x2000, 0x4000, 0x0>() }
        pub fn f2000_w4000_r1000() { run::<$kb, $ex, 0x2000, 0x4000, 0x1000>() }
        pub fn f2000_w4000_r2000() { run::<$kb, $ex, 0x2000, 0x4000, 0x2000>() }
        pub fn f2000_w4000_r3000() { run::<$kb, $ex, 0x2000, 0x4000, 0x3000>() }
        pub fn f2000_w4000_r4000() { run::<$kb, $ex, 0x2000, 0x4000, 0x4000>() }
        pub fn f2000_w4000_r8000() { run::<$kb, $ex, 0x2000, 0x4000, 0x8000>() }
        pub fn f2000_w4000_r8400() { run::<$kb, $ex, 0x2000, 0x4000, 0x8400>() }
        pub fn f2000_w4000_ra000() { run::<$kb, $ex, 0x2000, 0x4000, 0xa000>() }
        pub fn f2000_w6000_r0000() { run::<$kb, $ex, 0x2000, 0x6000, 0x0>() }
        pub fn f2000_w6000_r1000() { run::<$kb, $ex, 0x2000, 0x6000, 0x1000>() }
        pub fn f2000_w6000_r2000() { run::<$kb, $ex, 0x2000, 0x6000, 0x2000>() }
        pub fn f2000_w6000_r3000() { run::<$kb, $ex, 0x2000, 0x6000, 0x3000>() }
        pub fn f2000_w6000_r4000() { run::<$kb, $ex, 0x2000, 0x6000, 0x4000>() }
        pub fn f2000_w6000_r8000() { run::<$kb, $ex, 0x2000, 0x6000, 0x8000>() }
        pub fn f2000_w6000_r8400() { run::<$kb, $ex, 0x2000, 0x6000, 0x8400>() }
        pub fn f2000_w6000_ra000() { run::<$kb, $ex, 0x2000, 0x6000, 0xa000>() }
        pub fn f2000_w8000_r0000() { run::<$kb, $ex, 0x2000, 0x8000, 0x0>() }
        pub fn f2000_w8000_r1000() { run::<$kb, $ex, 0x2000, 0x8000, 0x1000>() }
        pub fn f2000_w8000_r2000() { run::<$kb, $ex, 0x2000, 0x8000, 0x2000>() }
        pub fn f2000_w8000_r3000() { run::<$kb, $ex, 0x2000, 0x8000, 0x3000>() }
        pub fn f2000_w8000_r4000() { run::<$kb, $ex, 0x2000, 0x8000, 0x4000>() }
        pub fn f2000_w8000_r8000() { run::<$kb, $ex, 0x2000, 0x8000, 0x8000>() }
        pub fn f2000_w8000_r8400() { run::<$kb, $ex, 0x2000, 0x8000, 0x8400>() }
        pub fn f2000_w8000_ra000() { run::<$kb, $ex, 0x2000, 0x8000, 0xa000>() }
        pub fn f4000_w0000_r0000() { run::<$kb, $ex, 0x4000, 0x0, 0x0>() }
        pub fn f4000_w0000_r1000() { run::<$kb, $ex, 0x4000, 0x0, 0x1000>() }
        pub fn f4000_w0000_r2000() { run::<$kb, $ex, 0x4000, 0x0, 0x2000>() }
        pub fn f4000_w0000_r3000() { run::<$kb, $ex, 0x4000, 0x0, 0x3000>() }
        pub fn f4000_w0000_r4000() { run::<$kb, $ex, 0x4000, 0x0, 0x4000>() }
        pub fn f4000_w0000_r8000() { run::<$kb, $ex, 0x4000, 0x0, 0x8000>() }
        pub fn f4000_w0000_r8400() { run::<$kb, $ex, 0x4000, 0x0, 0x8400>() }
        pub fn f4000_w0000_ra000() { run::<$kb, $ex, 0x4000, 0x0, 0xa000>() }
        pub fn f4000_w2000_r0000() { run::<$kb, $ex, 0x4000, 0x2000, 0x0>() }
        pub fn f4000_w2000_r1000() { run::<$kb, $ex, 0x4000, 0x2000, 0x1000>() }
        pub fn f4000_w2000_r2000() { run::<$kb, $ex, 0x4000, 0x2000, 0x2000>() }
        pub fn f4000_w2000_r3000() { run::<$kb, $ex, 0x4000, 0x2000, 0x3000>() }
        pub fn f4000_w2000_r4000() { run::<$kb, $ex, 0x4000, 0x2000, 0x4000>() }
        pub fn f4000_w2000_r8000() { run::<$kb, $ex, 0x4000, 0x2000, 0x8000>() }
        pub fn f4000_w2000_r8400() { run::<$kb, $ex, 0x4000, 0x2000, 0x8400>() }
        pub fn f4000_w2000_ra000() { run::<$kb, $ex, 0x4000, 0x2000, 0xa000>() }
        pub fn f4000_w4000_r0000() { run::<$kb, $ex, 0x4000, 0x4000, 0x0>() }
        pub fn f4000_w4000_r1000() { run::<$kb, $ex, 0x4000, 0x4000, 0x1000>() }
        pub fn f4000_w4000_r2000() { run::<$kb, $ex, 0x4000, 0x4000, 0x2000>() }
        pub fn f4000_w4000_r3000() { run::<$kb, $ex, 0x4000, 0x4000, 0x3000>() }
        pub fn f4000_w4000_r4000() { run::<$kb, $ex, 0x4000, 0x4000, 0x4000>() }
        pub fn f4000_w4000_r8000() { run::<$kb, $ex, 0x4000, 0x4000, 0x8000>() }
        pub fn f4000_w4000_r8400() { run::<$kb, $ex, 0x4000, 0x4000, 0x8400>() }
        pub fn f4000_w4000_ra000() { run::<$kb, $ex, 0x4000, 0x4000, 0xa000>() }
        pub fn f4000_w6000_r0000() { run::<$kb, $ex, 0x4000, 0x6000, 0x0>() }
        pub fn f4000_w6000_r1000() { run::<$kb, $ex, 0x4000, 0x6000, 0x1000>() }
        pub fn f4000_w6000_r2000() { run::<$kb, $ex, 0x4000, 0x6000, 0x2000>() }
        pub fn f4000_w6000_r3000() { run::<$kb, $ex, 0x4000, 0x6000, 0x3000>() }
        pub fn f4000_w6000_r4000() { run::<$kb, $ex, 0x4000, 0x6000, 0x4000>() }
        pub fn f4000_w6000_r8000() { run::<$kb, $ex, 0x4000, 0x6000, 0x8000>() }
        pub fn f4000_w6000_r8400() { run::<$kb, $ex, 0x4000, 0x6000, 0x8400>() }
        pub fn f4000_w6000_ra000() { run::<$kb, $ex, 0x4000, 0x6000, 0xa000>() }
        pub fn f4000_w8000_r0000() { run::<$kb, $ex, 0x4000, 0x8000, 0x0>() }
        pub fn f4000_w8000_r1000() { run::<$kb, $ex, 0x4000, 0x8000, 0x1000>() }
        pub fn f4000_w8000_r2000() { run::<$kb, $ex, 0x4000, 0x8000, 0x2000>() }
        pub fn f4000_w8000_r3000() { run::<$kb, $ex, 0x4000, 0x8000, 0x3000>() }
        pub fn f4000_w8000_r4000() { run::<$kb, $ex, 0x4000, 0x8000, 0x4000>() }
        pub fn f4000_w8000_r8000() { run::<$kb, $ex, 0x4000, 0x8000, 0x8000>() }
        pub fn f4000_w8000_r8400() { run::<$kb, $ex, 0x4000, 0x8000, 0x8400>() }
        pub fn f4000_w8000_ra000() { run::<$kb, $ex, 0x4000, 0x8000, 0xa000>() }
        pub fn f8000_w0000_r0000() { run::<$kb, $ex, 0x8000, 0x0, 0x0>() }
        pub fn f8000_w0000_r1000() { run::<$kb, $ex, 0x8000, 0x0, 0x1000>() }
        pub fn f8000_w0000_r2000() { run::<$kb, $ex, 0x8000, 0x0, 0x2000>() }
        pub fn f8000_w0000_r3000() { run::<$kb, $ex, 0x8000, 0x0, 0x3000>() }
        pub fn f8000_w0000_r4000() { run::<$kb, $ex, 0x8000, 0x0, 0x4000>() }
        pub fn f8000_w0000_r8000() { run::<$kb, $ex, 0x8000, 0x0, 0x8000>() }
        pub fn f8000_w0000_r8400() { run::<$kb, $ex, 0x8000, 0x0, 0x8400>() }
        pub fn f8000_w0000_ra000() { run::<$kb, $ex, 0x8000, 0x0, 0xa000>() }
        pub fn f8000_w2000_r0000() { run::<$kb, $ex, 0x8000, 0x2000, 0x0>() }
        pub fn f8000_w2000_r1000() { run::<$kb, $ex, 0x8000, 0x2000, 0x1000>() }
        pub fn f8000_w2000_r2000() { run::<$kb, $ex, 0x8000, 0x2000, 0x2000>() }
        pub fn f8000_w2000_r3000() { run::<$kb, $ex, 0x8000, 0x2000, 0x3000>() }
        pub fn f8000_w2000_r4000() { run::<$kb, $ex, 0x8000, 0x2000, 0x4000>() }
        pub fn f8000_w2000_r8000() { run::<$kb, $ex, 0x8000, 0x2000, 0x8000>() }
        pub fn f8000_w2000_r8400() { run::<$kb, $ex, 0x8000, 0x2000, 0x8400>() }
        pub fn f8000_w2000_ra000() { run::<$kb, $ex, 0x8000, 0x2000, 0xa000>() }
        pub fn f8000_w4000_r0000() { run::<$kb, $ex, 0x8000, 0x4000, 0x0>() }
        pub fn f8000_w4000_r1000() { run::<$kb, $ex, 0x8000, 0x4000, 0x1000>() }
        pub fn f8000_w4000_r2000() { run::<$kb, $ex, 0x8000, 0x4000, 0x2000>() }
        pub fn f8000_w4000_r3000() { run::<$kb, $ex, 0x8000, 0x4000, 0x3000>() }
        pub fn f8000_w4000_r4000() { run::<$kb, $ex, 0x8000, 0x4000, 0x4000>() }
        pub fn f8000_w4000_r8000() { run::<$kb, $ex, 0x8000, 0x4000, 0x8000>() }
        pub fn f8000_w4000_r8400() { run::<$kb, $ex, 0x8000, 0x4000, 0x8400>() }
        pub fn f8000_w4000_ra000() { run::<$kb, $ex, 0x8000, 0x4000, 0xa000>() }
        pub fn f8000_w6000_r0000() { run::<$kb, $ex, 0x8000, 0x6000, 0x0>() }
        pub fn f8000_w6000_r1000() { run::<$kb, $ex, 0x8000, 0x6000, 0x1000>() }
        pub fn f8000_w6000_r2000() { run::<$kb, $ex, 0x8000, 0x6000, 0x2000>() }
        pub fn f8000_w6000_r3000() { run::<$kb, $ex, 0x8000, 0x6000, 0x3000>() }
        pub fn f8000_w6000_r4000() { run::<$kb, $ex, 0x8000, 0x6000, 0x4000>() }
        pub fn f8000_w6000_r8000() { run::<$kb, $ex, 0x8000, 0x6000, 0x8000>() }
        pub fn f8000_w6000_r8400() { run::<$kb, $ex, 0x8000, 0x6000, 0x8400>() }
        pub fn f8000_w6000_ra000() { run::<$kb, $ex, 0x8000, 0x6000, 0xa000>() }
        pub fn f8000_w8000_r0000() { run::<$kb, $ex, 0x8000, 0x8000, 0x0>() }
        pub fn f8000_w8000_r1000() { run::<$kb, $ex, 0x8000, 0x8000, 0x1000>() }
        pub fn f8000_w8000_r2000() { run::<$kb, $ex, 0x8000, 0x8000, 0x2000>() }
        pub fn f8000_w8000_r3000() { run::<$kb, $ex, 0x8000, 0x8000, 0x3000>() }
        pub fn f8000_w8000_r4000() { run::<$kb, $ex, 0x8000, 0x8000, 0x4000>() }
        pub fn f8000_w8000_r8000() { run::<$kb, $ex, 0x8000, 0x8000, 0x8000>() }
        pub fn f8000_w8000_r8400() { run::<$kb, $ex, 0x8000, 0x8000, 0x8400>() }
        pub fn f8000_w8000_ra000() { run::<$kb, $ex, 0x8000, 0x8000, 0xa000>() }
    } )* } }
    cases! { full_two 48 2; some_one 17 1; none 0 0; }
}
