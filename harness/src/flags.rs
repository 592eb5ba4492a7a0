//! C31: flag helpers.
use crate::units::*;
use z80emu::*;

fn f() -> CpuFlags {
    CpuFlags::from_bits_retain(b8(100))
}
pub mod zu_c31 {
    use super::*;
    pub fn constants() {
        eq!("S", CpuFlags::S.bits(), 0x80);
        eq!("Z", CpuFlags::Z.bits(), 0x40);
        eq!("Y", CpuFlags::Y.bits(), 0x20);
        eq!("H", CpuFlags::H.bits(), 0x10);
        eq!("X", CpuFlags::X.bits(), 0x08);
        eq!("PV", CpuFlags::PV.bits(), 0x04);
        eq!("P", CpuFlags::P.bits(), 0x04);
        eq!("V", CpuFlags::V.bits(), 0x04);
        eq!("N", CpuFlags::N.bits(), 0x02);
        eq!("C", CpuFlags::C.bits(), 0x01);
        eq!("XY", CpuFlags::XY.bits(), 0x28);
        eq!("HMASK", CpuFlags::HMASK.bits(), 0x0F);
        eq!("all", CpuFlags::all().bits(), 0xFF);
        eq!("empty", CpuFlags::empty().bits(), 0);
        eq!("default", CpuFlags::default().bits(), 0);
    }
    pub fn getters() {
        let v = b8(100);
        eq!("bits", f().bits(), v);
        eq!("truncate", CpuFlags::from_bits_truncate(v).bits(), v);
        eq!("sf", f().sf(), v & 0x80 != 0);
        eq!("zf", f().zf(), v & 0x40 != 0);
        eq!("hf", f().hf(), v & 0x10 != 0);
        eq!("pvf", f().pvf(), v & 0x04 != 0);
        eq!("nf", f().nf(), v & 0x02 != 0);
        eq!("cf", f().cf(), v & 0x01 != 0);
    }
    pub fn reset() {
        let mut x = f();
        x.reset();
        eq!("reset", x.bits(), 0);
    }
    pub fn masks() {
        let v = b8(100);
        let b = b1(101);
        let bit = |m: u8| if b { m } else { 0 };
        eq!("mask_sign", CpuFlags::mask_sign(v).bits(), v & 0x80);
        eq!("mask_zero", CpuFlags::mask_zero(v).bits(), if v == 0 { 0x40 } else { 0 });
        eq!("mask_xy", CpuFlags::mask_xy(v).bits(), v & 0x28);
        eq!("mask_sxy", CpuFlags::mask_sxy(v).bits(), v & 0xA8);
        let p = (0..8).fold(0u8, |a, i| a ^ (v >> i & 1));
        eq!("parity", CpuFlags::parity(v).bits(), if p == 0 { 4 } else { 0 });
        eq!("mask_carry", CpuFlags::mask_carry(b).bits(), bit(0x01));
        eq!("mask_nf", CpuFlags::mask_nf(b).bits(), bit(0x02));
        eq!("mask_hf", CpuFlags::mask_hf(b).bits(), bit(0x10));
        eq!("mask_hcf", CpuFlags::mask_hcf(b).bits(), bit(0x11));
        eq!("mask_pvf", CpuFlags::mask_pvf(b).bits(), bit(0x04));
    }
    pub fn cvz() {
        let (c, v, z) = (b1(100), b1(101), b1(102));
        let e = c as u8 | (v as u8) << 2 | (z as u8) << 6;
        eq!("mask_cvz", CpuFlags::mask_cvz(c, v, z).bits(), e);
    }
    pub fn operators() {
        let (a, b) = (b8(100), b8(101));
        let (x, y) = (CpuFlags::from_bits_retain(a), CpuFlags::from_bits_retain(b));
        eq!("|", (x | y).bits(), a | b);
        eq!("&", (x & y).bits(), a & b);
        eq!("^", (x ^ y).bits(), a ^ b);
        eq!("!", (!x).bits(), !a);
        eq!("-", (x - y).bits(), a & !b);
        eq!("contains", x.contains(y), a & b == b);
        eq!("intersects", x.intersects(y), a & b != 0);
        eq!("==", x == y, a == b);
        let mut z = x;
        z.set(y, b1(102));
        eq!("set", z.bits(), if b1(102) { a | b } else { a & !b });
        let mut z = x;
        z.insert(y);
        z.remove(CpuFlags::C);
        z.toggle(CpuFlags::S);
        eq!("in place", z.bits(), (a | b) & 0xFE ^ 0x80);
    }
}
