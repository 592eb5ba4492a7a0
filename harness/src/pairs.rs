//! C33: operations of a register pair.
use crate::units::*;
use z80emu::*;

/// the pair reads as `v` in every way there is
fn reads(p: RegisterPair, v: u16) {
    let [lo, hi] = v.to_le_bytes();
    let mut p = p;
    eq!("16-bit value", p.get16(), v);
    eq!("high half", p.get8hi(), hi);
    eq!("low half", p.get8lo(), lo);
    let (a, b) = p.get();
    eq!("halves, high first", a, hi);
    eq!("halves, low second", b, lo);
    unsafe {
        let h = *p.ptr8hi();
        let l = *p.ptr8lo();
        eq!("high half in place", h, hi);
        eq!("low half in place", l, lo);
    }
    eq!("unchanged by reading", p.get16(), v);
}
fn any() -> (RegisterPair, u16) {
    let v = b16(100);
    (RegisterPair::from(v), v)
}
pub mod zu_c33 {
    use super::*;
    pub fn made() {
        reads(RegisterPair::default(), 0);
        let (p, v) = any();
        reads(p, v);
        reads(RegisterPair::from(v as i16), v);
        let (h, l) = (b8(101), b8(102));
        let w = (h as u16) << 8 | l as u16;
        reads(RegisterPair::from([l, h]), w);
        reads(RegisterPair::from((h, l)), w);
    }
    pub fn set() {
        let (p, v) = any();
        let (h, l) = (b8(101), b8(102));
        let mut q = p;
        q.set16(b16(103));
        reads(q, b16(103));
        let mut q = p;
        q.set(h, l);
        reads(q, (h as u16) << 8 | l as u16);
        let mut q = p;
        q.set8hi(h);
        reads(q, (h as u16) << 8 | v & 0xFF);
        let mut q = p;
        q.set8lo(l);
        reads(q, v & 0xFF00 | l as u16);
        reads(p, v);
    }
    pub fn set_in_place() {
        let (p, v) = any();
        let (h, l) = (b8(101), b8(102));
        let mut q = p;
        unsafe { *q.ptr8hi() = h };
        reads(q, (h as u16) << 8 | v & 0xFF);
        let mut q = p;
        unsafe { *q.ptr8lo() = l };
        reads(q, v & 0xFF00 | l as u16);
    }
    pub fn arithmetic() {
        let (p, v) = any();
        let mut q = p;
        q.inc16();
        reads(q, v.wrapping_add(1));
        let mut q = p;
        q.dec16();
        reads(q, v.wrapping_sub(1));
        let mut q = p;
        q.add16(b16(103));
        reads(q, v.wrapping_add(b16(103)));
        let mut q = p;
        let z = q.dec16_is_zero();
        reads(q, v.wrapping_sub(1));
        eq!("zero after counting down", z, v == 1);
    }
    pub fn applied() {
        let (p, v) = any();
        let (h, l) = (b8(101), b8(102));
        let mut q = p;
        let mut seen = 0;
        let mut times = 0;
        q.op16(|x| {
            seen = x;
            times += 1;
            (h, l)
        });
        reads(q, (h as u16) << 8 | l as u16);
        eq!("argument is the value", seen, v);
        eq!("applied once", times, 1);
        let mut q = p;
        let (mut seen, mut times) = (0, 0);
        q.op8hi(|x| {
            seen = x;
            times += 1;
            h
        });
        reads(q, (h as u16) << 8 | v & 0xFF);
        eq!("argument is the high half", seen, v >> 8);
        eq!("applied once", times, 1);
        let mut q = p;
        let (mut seen, mut times) = (0, 0);
        q.op8lo(|x| {
            seen = x;
            times += 1;
            l
        });
        reads(q, v & 0xFF00 | l as u16);
        eq!("argument is the low half", seen, v & 0xFF);
        eq!("applied once", times, 1);
    }
    pub fn compared() {
        let (p, v) = any();
        let q = RegisterPair::from(b16(103));
        eq!("equal exactly when the values are", p == q, v == b16(103));
        eq!("unequal exactly when the values are", p != q, v != b16(103));
        reads(p.clone(), v);
    }
    /// keeps what it is given
    #[derive(PartialEq)]
    pub struct Keep(u64);
    impl core::hash::Hasher for Keep {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            let mut i = 0;
            while i < b.len() {
                self.0 = self.0.rotate_left(5) ^ b[i] as u64;
                i += 1;
            }
        }
    }
    pub fn hashed() {
        use core::hash::Hash;
        let (p, v) = any();
        let q = RegisterPair::from([b8(101), b8(102)]);
        let w = (b8(102) as u16) << 8 | b8(101) as u16;
        let (mut a, mut b) = (Keep(0), Keep(0));
        p.hash(&mut a);
        q.hash(&mut b);
        eq!("equal values hash alike", v != w || a.0 == b.0, true);
    }
}
