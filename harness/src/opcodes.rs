//! C27: operand encodings, conditions and opcode constants.
use crate::units::*;
use core::convert::TryFrom;
use z80emu::opconsts::*;
use z80emu::*;

fn cond_flag(c: Condition) -> (u8, bool) {
    match c {
        Condition::NZ => (0x40, false),
        Condition::Z => (0x40, true),
        Condition::NC => (0x01, false),
        Condition::C => (0x01, true),
        Condition::PO => (0x04, false),
        Condition::PE => (0x04, true),
        Condition::P => (0x80, false),
        Condition::M => (0x80, true),
    }
}
pub mod zu_c27 {
    use super::*;
    use core::str::FromStr;
    pub fn reg8() {
        let v = b8(100);
        match Reg8::try_from(v) {
            Ok(r) => {
                eq!("re-encoded", r.to_code(), v & 7);
                eq!("into u8", u8::from(r), v & 7);
                eq!("is a register", v & 7 != 6, true);
                let n = match r {
                    Reg8::B => 0,
                    Reg8::C => 1,
                    Reg8::D => 2,
                    Reg8::E => 3,
                    Reg8::H => 4,
                    Reg8::L => 5,
                    Reg8::A => 7,
                };
                eq!("decoded", n, v & 7);
            }
            Err(()) => eq!("no register", v & 7, 6),
        }
        let r = any_r8(101);
        eq!("round trip", Reg8::try_from(r.to_code()) == Ok(r), true);
    }
    pub fn reg16() {
        let v = b8(100);
        let r = Reg16::from_code(v);
        eq!("Reg16 re-encoded", r.to_code(), v & 0x30);
        eq!("Reg16 into", u8::from(Reg16::from(v)), v & 0x30);
        let n = match r {
            Reg16::BC => 0x00,
            Reg16::DE => 0x10,
            Reg16::HL => 0x20,
            Reg16::SP => 0x30,
        };
        eq!("Reg16 decoded", n, v & 0x30);
        let r = StkReg16::from_code(v);
        eq!("StkReg16 re-encoded", r.to_code(), v & 0x30);
        eq!("StkReg16 into", u8::from(StkReg16::from(v)), v & 0x30);
        let n = match r {
            StkReg16::BC => 0x00,
            StkReg16::DE => 0x10,
            StkReg16::HL => 0x20,
            StkReg16::AF => 0x30,
        };
        eq!("StkReg16 decoded", n, v & 0x30);
        let r = any_r16(101);
        eq!("Reg16 round trip", Reg16::from_code(r.to_code()) == r, true);
        let r = any_stk(101);
        eq!("StkReg16 round trip", StkReg16::from_code(r.to_code()) == r, true);
    }
    pub fn condition() {
        let v = b8(100);
        let c = Condition::from_code(v);
        eq!("re-encoded", c.to_code(), v & 0x38);
        eq!("into", u8::from(Condition::from(v)), v & 0x38);
        let n = match c {
            Condition::NZ => 0,
            Condition::Z => 1,
            Condition::NC => 2,
            Condition::C => 3,
            Condition::PO => 4,
            Condition::PE => 5,
            Condition::P => 6,
            Condition::M => 7,
        };
        eq!("decoded", n, v >> 3 & 7);
        let j = Condition::from_jr_subset(v);
        eq!("jr subset", j.to_code(), v & 0x18);
        let d = any_cond(101);
        eq!("round trip", Condition::from_code(d.to_code()) == d, true);
    }
    pub fn satisfied() {
        let c = any_cond(100);
        let f = b8(101);
        let (m, s) = cond_flag(c);
        eq!("is_satisfied", c.is_satisfied(CpuFlags::from_bits_retain(f)), (f & m != 0) == s);
    }
    pub fn condition_names() {
        let all = [Condition::NZ, Condition::Z, Condition::NC, Condition::C, Condition::PO, Condition::PE, Condition::P, Condition::M];
        let n = ["NZ", "Z", "NC", "C", "PO", "PE", "P", "M"];
        for i in 0..8 {
            let s: &str = all[i].into();
            eq!("name", s == n[i], true);
            eq!("parsed", Condition::from_str(n[i]) == Ok(all[i]), true);
        }
        for s in ["", "nz", "N", "ZZ", "PX", "NZ "] {
            eq!("unknown", Condition::from_str(s).is_err(), true);
        }
    }
    pub fn register_names() {
        let r = [Reg8::B, Reg8::C, Reg8::D, Reg8::E, Reg8::H, Reg8::L, Reg8::A];
        let n = ["B", "C", "D", "E", "H", "L", "A"];
        for i in 0..7 {
            let s: &str = r[i].into();
            eq!("Reg8 name", s == n[i], true);
        }
        let r = [Reg16::BC, Reg16::DE, Reg16::HL, Reg16::SP];
        let n = ["BC", "DE", "HL", "SP"];
        for i in 0..4 {
            let s: &str = r[i].into();
            eq!("Reg16 name", s == n[i], true);
        }
        let r = [StkReg16::BC, StkReg16::DE, StkReg16::HL, StkReg16::AF];
        let n = ["BC", "DE", "HL", "AF"];
        for i in 0..4 {
            let s: &str = r[i].into();
            eq!("StkReg16 name", s == n[i], true);
        }
    }
    pub fn prefix() {
        let v = b8(100);
        match Prefix::try_from(v) {
            Ok(Prefix::Xdd) => eq!("DD", v, 0xDD),
            Ok(Prefix::Yfd) => eq!("FD", v, 0xFD),
            Err(()) => eq!("neither", v == 0xDD || v == 0xFD, false),
        }
        let p = any_px(101);
        eq!("to_code", p.to_code(), if b1(101) { 0xDD } else { 0xFD });
        eq!("into", u8::from(p), p.to_code());
    }
    pub fn mode() {
        let v = b8(100);
        match InterruptMode::try_from(v) {
            Ok(m) => {
                eq!("mode number", m.to_mode_number(), v);
                eq!("mode into", u8::from(m), v);
                eq!("mode", crate::obs::im_code(m), v);
            }
            Err(()) => eq!("no mode", v > 2, true),
        }
    }
    pub fn constants() {
        eq!("NMI", NMI_RESTART, 0x66);
        eq!("ED", ED_PREFIX, 0xED);
        eq!("DD", DD_PREFIX, 0xDD);
        eq!("FD", FD_PREFIX, 0xFD);
        eq!("NOP", NOP_OPCODE, 0x00);
        eq!("HALT", HALT_OPCODE, 0x76);
        eq!("DI", DI_OPCODE, 0xF3);
        eq!("EI", EI_OPCODE, 0xFB);
        eq!("RET", RET_OPCODE, 0xC9);
        eq!("CALL", CALL_OPCODE, 0xCD);
        eq!("JP", JP_OPCODE, 0xC3);
        eq!("JR", JR_OPCODE, 0x18);
        eq!("DJNZ", DJNZ_OPCODE, 0x10);
        eq!("RETI", RETI_OPCODE_T2.0 as u16 * 256 + RETI_OPCODE_T2.1 as u16, 0xED4D);
        eq!("RETN", RETN_OPCODE_T2.0 as u16 * 256 + RETN_OPCODE_T2.1 as u16, 0xED45);
        eq!("RETN base", RETN_OP2_BASE, 0x45);
        eq!("RETN mask", RETN_OP2_MASK, 0xC7);
        let r = [RST_00H_OPCODE, RST_08H_OPCODE, RST_10H_OPCODE, RST_18H_OPCODE, RST_20H_OPCODE, RST_28H_OPCODE, RST_30H_OPCODE, RST_38H_OPCODE];
        for i in 0..8u8 {
            eq!("RST", r[i as usize], 0xC7 + 8 * i);
        }
    }
    /// base|condition is the opcode of the conditional form, and masking any
    /// opcode tells exactly the conditional forms apart
    pub fn bases() {
        let c = any_cond(100);
        let v = b8(101);
        eq!("RET cc", RET_CC_OPBASE | c.to_code(), 0xC0 + (b8(100) & 7) * 8);
        eq!("JP cc", JP_CC_OPBASE | c.to_code(), 0xC2 + (b8(100) & 7) * 8);
        eq!("CALL cc", CALL_CC_OPBASE | c.to_code(), 0xC4 + (b8(100) & 7) * 8);
        eq!("is RET cc", v & RET_CC_OPMASK == RET_CC_OPBASE, v >= 0xC0 && v % 8 == 0);
        eq!("is JP cc", v & JP_CC_OPMASK == JP_CC_OPBASE, v >= 0xC0 && v % 8 == 2);
        eq!("is CALL cc", v & CALL_CC_OPMASK == CALL_CC_OPBASE, v >= 0xC0 && v % 8 == 4);
        eq!("is RST", v & RST_OPMASK == RST_OPBASE, v >= 0xC0 && v % 8 == 7);
        let j = b8(100) & 3;
        let d = Condition::from_jr_subset(j * 8);
        eq!("JR cc", JR_CC_OPBASE | d.to_code(), 0x20 + j * 8);
        eq!("is JR cc", v & JR_CC_OPMASK == JR_CC_OPBASE, v >= 0x20 && v < 0x40 && v % 8 == 0);
        eq!("is RETN", v & RETN_OP2_MASK == RETN_OP2_BASE, v >= 0x40 && v < 0x80 && v % 8 == 5);
    }
}
