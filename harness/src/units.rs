//! Claims: equations about the public interface, decided for all inputs.
use crate::ev::*;
use crate::obs::*;
use z80emu::z80::{Flavour, BM1, CMOS, NMOS};
use z80emu::*;

#[macro_export]
macro_rules! eq {
    ($n:expr, $a:expr, $b:expr) => {
        unsafe { $crate::ev::cl_eq($n, ($a) as u64, ($b) as u64) }
    };
}

/// the visible flag-modification history
pub trait Hist {
    fn hist(&self) -> u16;
    /// 0 NMOS, 1 CMOS, 2 BM1
    fn kind(&self) -> u8;
}
pub fn hist_of<Q: Flavour>(q: &Q) -> u16 {
    let mut q = *q;
    let a = q.get_q(0, CpuFlags::all()) as u16;
    q.begin_instruction();
    a | (q.get_q(0, CpuFlags::all()) as u16) << 8
}
pub fn kind_of<Q: Flavour>() -> u8 {
    if Q::CONSTANT_OUT_DATA != 0 {
        1
    } else if Q::memptr_mix(1, 0).0 == 0 {
        2
    } else {
        0
    }
}
impl<Q: Flavour> Hist for Z80<Q> {
    fn hist(&self) -> u16 {
        hist_of(&self.flavour)
    }
    fn kind(&self) -> u8 {
        kind_of::<Q>()
    }
}
impl Hist for Z80Any {
    fn hist(&self) -> u16 {
        match self {
            Z80Any::NMOS(c) => c.hist(),
            Z80Any::CMOS(c) => c.hist(),
            Z80Any::BM1(c) => c.hist(),
        }
    }
    fn kind(&self) -> u8 {
        match self {
            Z80Any::NMOS(..) => 0,
            Z80Any::CMOS(..) => 1,
            Z80Any::BM1(..) => 2,
        }
    }
}

pub fn mk_any<Q: Flavour>() -> Z80Any {
    let c = mk::<Q>();
    match kind_of::<Q>() {
        0 => Z80Any::NMOS(c.cast()),
        1 => Z80Any::CMOS(c.cast()),
        _ => Z80Any::BM1(c.cast()),
    }
}
/// identity between two names of one type
pub trait Cast {
    fn cast<R: 'static>(self) -> R;
}
impl<Q: Flavour> Cast for Z80<Q> {
    fn cast<R: 'static>(self) -> R {
        assert!(core::mem::size_of::<R>() == core::mem::size_of::<Self>());
        unsafe { core::mem::transmute_copy(&self) }
    }
}

pub const N: usize = 23;
pub const NAMES: [&str; N] = [
    "AF", "BC", "DE", "HL", "AF'", "BC'", "DE'", "HL'", "IX", "IY", "PC", "SP", "MEMPTR", "IR", "R", "IM", "IFF1", "IFF2", "HALT", "after-EI", "prefix",
    "history", "flavour",
];
pub const AF: usize = 0;
pub const BC: usize = 1;
pub const DE: usize = 2;
pub const HL: usize = 3;
pub const AF2: usize = 4;
pub const BC2: usize = 5;
pub const DE2: usize = 6;
pub const HL2: usize = 7;
pub const IX: usize = 8;
pub const IY: usize = 9;
pub const PC: usize = 10;
pub const SP: usize = 11;
pub const MP: usize = 12;
pub const IR: usize = 13;
pub const R: usize = 14;
pub const IM: usize = 15;
pub const IFF1: usize = 16;
pub const IFF2: usize = 17;
pub const HALT: usize = 18;
pub const EI: usize = 19;
pub const PX: usize = 20;
pub const HIST: usize = 21;
pub const FLAV: usize = 22;

#[derive(Clone, Copy)]
pub struct Snap(pub [u16; N]);

pub fn snap<C: Cpu + MemPtr + Hist>(c: &C) -> Snap {
    let (iff1, iff2) = c.get_iffs();
    Snap([
        c.get_reg16(StkReg16::AF),
        c.get_reg16(StkReg16::BC),
        c.get_reg16(StkReg16::DE),
        c.get_reg16(StkReg16::HL),
        c.get_alt_reg16(StkReg16::AF),
        c.get_alt_reg16(StkReg16::BC),
        c.get_alt_reg16(StkReg16::DE),
        c.get_alt_reg16(StkReg16::HL),
        c.get_index16(Prefix::Xdd),
        c.get_index16(Prefix::Yfd),
        c.get_pc(),
        c.get_sp(),
        c.memptr(),
        c.get_ir(),
        c.get_r() as u16,
        im_code(c.get_im()) as u16,
        iff1 as u16,
        iff2 as u16,
        c.is_halt() as u16,
        c.is_after_ei() as u16,
        px_code(c.get_prefix()) as u16,
        c.hist(),
        c.kind() as u16,
    ])
}

/// the state `fill` and `flav` put together, from the inputs alone
pub fn want<Q: Flavour>() -> Snap {
    unsafe {
        let kind = kind_of::<Q>();
        let q0 = zi_bool(I_Q0);
        let q1 = zi_bool(I_Q1);
        let h = |m: bool| if m || kind == 1 { 0 } else { 0xFF };
        let px = zi_u8(I_PX);
        Snap([
            zi_u16(I_AF),
            zi_u16(I_BC),
            zi_u16(I_DE),
            zi_u16(I_HL),
            zi_u16(I_AF2),
            zi_u16(I_BC2),
            zi_u16(I_DE2),
            zi_u16(I_HL2),
            zi_u16(I_IX),
            zi_u16(I_IY),
            zi_u16(I_PC),
            zi_u16(I_SP),
            zi_u16(I_MP),
            (zi_u8(I_I) as u16) << 8 | (zi_u8(I_R7) & 0x80 | zi_u8(I_R) & 0x7F) as u16,
            (zi_u8(I_R7) & 0x80 | zi_u8(I_R) & 0x7F) as u16,
            match zi_u8(I_IM) & 3 {
                0 => 0,
                1 => 1,
                _ => 2,
            },
            zi_bool(I_IFF1) as u16,
            zi_bool(I_IFF2) as u16,
            zi_bool(I_HALT) as u16,
            zi_bool(I_EI) as u16,
            if px == 1 {
                1
            } else if px == 2 {
                2
            } else {
                0
            },
            h(q0) | h(q1) << 8,
            kind as u16,
        ])
    }
}

pub fn same(got: &Snap, want: &Snap) {
    let mut i = 0;
    while i < N {
        eq!(NAMES[i], got.0[i], want.0[i]);
        i += 1;
    }
}

pub fn b16(id: u32) -> u16 {
    unsafe { zi_u16(id) }
}
pub fn b8(id: u32) -> u8 {
    unsafe { zi_u8(id) }
}
pub fn b1(id: u32) -> bool {
    unsafe { zi_bool(id) }
}

/// one of the enumeration values, chosen by an input
pub fn any_r8(id: u32) -> Reg8 {
    match b8(id) & 7 {
        0 => Reg8::B,
        1 => Reg8::C,
        2 => Reg8::D,
        3 => Reg8::E,
        4 => Reg8::H,
        5 => Reg8::L,
        _ => Reg8::A,
    }
}
pub fn any_stk(id: u32) -> StkReg16 {
    match b8(id) & 3 {
        0 => StkReg16::BC,
        1 => StkReg16::DE,
        2 => StkReg16::HL,
        _ => StkReg16::AF,
    }
}
pub fn any_r16(id: u32) -> Reg16 {
    match b8(id) & 3 {
        0 => Reg16::BC,
        1 => Reg16::DE,
        2 => Reg16::HL,
        _ => Reg16::SP,
    }
}
pub fn any_px(id: u32) -> Prefix {
    if b1(id) {
        Prefix::Xdd
    } else {
        Prefix::Yfd
    }
}
pub fn any_opx(id: u32) -> Option<Prefix> {
    match b8(id) & 3 {
        0 => Some(Prefix::Xdd),
        1 => Some(Prefix::Yfd),
        _ => None,
    }
}
pub fn any_cond(id: u32) -> Condition {
    match b8(id) & 7 {
        0 => Condition::NZ,
        1 => Condition::Z,
        2 => Condition::NC,
        3 => Condition::C,
        4 => Condition::PO,
        5 => Condition::PE,
        6 => Condition::P,
        _ => Condition::M,
    }
}
