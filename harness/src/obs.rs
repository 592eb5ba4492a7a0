//! Building an arbitrary CPU state through the public interface and observing
//! one through the public interface.
use crate::ev::*;
use crate::host::*;
use z80emu::host::BreakCause;
use z80emu::z80::Flavour;
use z80emu::*;

// input ids (u16 inputs use two consecutive byte slots in the analyser)
pub const I_AF: u32 = 0;
pub const I_BC: u32 = 1;
pub const I_DE: u32 = 2;
pub const I_HL: u32 = 3;
pub const I_AF2: u32 = 4;
pub const I_BC2: u32 = 5;
pub const I_DE2: u32 = 6;
pub const I_HL2: u32 = 7;
pub const I_IX: u32 = 8;
pub const I_IY: u32 = 9;
pub const I_PC: u32 = 10;
pub const I_SP: u32 = 11;
pub const I_MP: u32 = 12;
pub const I_I: u32 = 13;
pub const I_R7: u32 = 14;
pub const I_R: u32 = 15;
pub const I_IM: u32 = 16;
pub const I_IFF1: u32 = 17;
pub const I_IFF2: u32 = 18;
pub const I_HALT: u32 = 19;
pub const I_EI: u32 = 20;
pub const I_Q0: u32 = 21;
pub const I_Q1: u32 = 22;
pub const I_PX: u32 = 23;
pub const I_CODE: u32 = 24;
pub const I_X0: u32 = 25;
pub const I_X1: u32 = 26;
pub const I_X2: u32 = 27;
pub const I_X3: u32 = 28;

pub fn mode(v: u8) -> InterruptMode {
    match v & 3 {
        0 => InterruptMode::Mode0,
        1 => InterruptMode::Mode1,
        _ => InterruptMode::Mode2,
    }
}

pub trait MemPtr {
    fn memptr(&self) -> u16;
    fn set_mp(&mut self, v: u16);
}
impl<Q: Flavour> MemPtr for Z80<Q> {
    fn memptr(&self) -> u16 {
        self.get_memptr()
    }
    fn set_mp(&mut self, v: u16) {
        self.set_memptr(v)
    }
}

impl MemPtr for Z80Any {
    fn memptr(&self) -> u16 {
        self.get_memptr()
    }
    fn set_mp(&mut self, v: u16) {
        self.set_memptr(v)
    }
}

/// Put `c` into an arbitrary state, using only public operations.
pub fn fill<C: Cpu + MemPtr>(c: &mut C) {
    unsafe {
        match zi_u8(I_PX) {
            1 => {
                let _ = c.execute_instruction(&mut Nul, &mut Nul, None::<CpuDebugFn>, 0xDD);
            }
            2 => {
                let _ = c.execute_instruction(&mut Nul, &mut Nul, None::<CpuDebugFn>, 0xFD);
            }
            _ => {}
        }
        c.set_reg16(StkReg16::BC, zi_u16(I_BC2));
        c.set_reg16(StkReg16::DE, zi_u16(I_DE2));
        c.set_reg16(StkReg16::HL, zi_u16(I_HL2));
        c.exx();
        c.set_reg16(StkReg16::AF, zi_u16(I_AF2));
        c.ex_af_af();
        c.set_reg16(StkReg16::BC, zi_u16(I_BC));
        c.set_reg16(StkReg16::DE, zi_u16(I_DE));
        c.set_reg16(StkReg16::HL, zi_u16(I_HL));
        c.set_reg16(StkReg16::AF, zi_u16(I_AF));
        c.set_index16(Prefix::Xdd, zi_u16(I_IX));
        c.set_index16(Prefix::Yfd, zi_u16(I_IY));
        c.set_pc(zi_u16(I_PC));
        c.set_sp(zi_u16(I_SP));
        c.set_mp(zi_u16(I_MP));
        c.set_i(zi_u8(I_I));
        let r7 = zi_u8(I_R7);
        let r = zi_u8(I_R);
        c.set_r(r7);
        c.add_r(r.wrapping_sub(r7) as i32);
        c.set_im(mode(zi_u8(I_IM)));
        if zi_bool(I_EI) {
            c.enable_interrupts();
        }
        c.set_iffs(zi_bool(I_IFF1), zi_bool(I_IFF2));
        if zi_bool(I_HALT) {
            c.halt();
        }
    }
}

pub fn flav<Q: Flavour>(q: &mut Q) {
    unsafe {
        q.reset();
        if zi_bool(I_Q0) {
            q.flags_modified();
        }
        q.begin_instruction();
        if zi_bool(I_Q1) {
            q.flags_modified();
        }
    }
}

pub fn mk<Q: Flavour>() -> Z80<Q> {
    let mut c = Z80::<Q>::new();
    fill(&mut c);
    flav(&mut c.flavour);
    c
}

// observation slots
pub const O_RES: u32 = 0;
pub const O_TOK: u32 = 1;
pub const O_AF: u32 = 2;
pub const O_BC: u32 = 3;
pub const O_DE: u32 = 4;
pub const O_HL: u32 = 5;
pub const O_AF2: u32 = 6;
pub const O_BC2: u32 = 7;
pub const O_DE2: u32 = 8;
pub const O_HL2: u32 = 9;
pub const O_IX: u32 = 10;
pub const O_IY: u32 = 11;
pub const O_PC: u32 = 12;
pub const O_SP: u32 = 13;
pub const O_MP: u32 = 14;
pub const O_IR: u32 = 15;
pub const O_R: u32 = 16;
pub const O_IM: u32 = 17;
pub const O_IFF1: u32 = 18;
pub const O_IFF2: u32 = 19;
pub const O_HALT: u32 = 20;
pub const O_EI: u32 = 21;
pub const O_PX: u32 = 22;
pub const O_QL: u32 = 23;
pub const O_QN: u32 = 24;

pub fn o(slot: u32, v: u16) {
    unsafe { ob(slot, v) }
}

pub fn px_code(p: Option<Prefix>) -> u8 {
    match p {
        None => 0,
        Some(Prefix::Xdd) => 1,
        Some(Prefix::Yfd) => 2,
    }
}
pub fn im_code(m: InterruptMode) -> u8 {
    match m {
        InterruptMode::Mode0 => 0,
        InterruptMode::Mode1 => 1,
        InterruptMode::Mode2 => 2,
    }
}

pub fn watch<C: Cpu + MemPtr>(c: &C) {
    o(O_AF, c.get_reg16(StkReg16::AF));
    o(O_BC, c.get_reg16(StkReg16::BC));
    o(O_DE, c.get_reg16(StkReg16::DE));
    o(O_HL, c.get_reg16(StkReg16::HL));
    o(O_AF2, c.get_alt_reg16(StkReg16::AF));
    o(O_BC2, c.get_alt_reg16(StkReg16::BC));
    o(O_DE2, c.get_alt_reg16(StkReg16::DE));
    o(O_HL2, c.get_alt_reg16(StkReg16::HL));
    o(O_IX, c.get_index16(Prefix::Xdd));
    o(O_IY, c.get_index16(Prefix::Yfd));
    o(O_PC, c.get_pc());
    o(O_SP, c.get_sp());
    o(O_MP, c.memptr());
    o(O_IR, c.get_ir());
    o(O_R, c.get_r() as u16);
    o(O_IM, im_code(c.get_im()) as u16);
    let (iff1, iff2) = c.get_iffs();
    o(O_IFF1, iff1 as u16);
    o(O_IFF2, iff2 as u16);
    o(O_HALT, c.is_halt() as u16);
    o(O_EI, c.is_after_ei() as u16);
    o(O_PX, px_code(c.get_prefix()) as u16);
}

pub fn watch_flav<Q: Flavour>(q: &Q) {
    let mut q = *q;
    let all = CpuFlags::all();
    // last and current flag-modification history as far as it is visible
    o(O_QL, q.get_q(0, all) as u16);
    q.begin_instruction();
    o(O_QN, q.get_q(0, all) as u16);
}

pub fn watch_res(r: core::result::Result<(), BreakCause<WrBrk, RetiBrk>>) {
    let (k, t) = match r {
        Ok(()) => (0, 0),
        Err(BreakCause::Halt) => (1, 0),
        Err(BreakCause::WriteIo(WrBrk(t))) => (2, t),
        Err(BreakCause::Reti(RetiBrk(t))) => (3, t),
    };
    o(O_RES, k);
    o(O_TOK, t as u16);
}

pub fn r8_code(r: Reg8) -> u8 {
    match r {
        Reg8::B => 0,
        Reg8::C => 1,
        Reg8::D => 2,
        Reg8::E => 3,
        Reg8::H => 4,
        Reg8::L => 5,
        Reg8::A => 7,
    }
}
pub fn r16_code(r: Reg16) -> u8 {
    match r {
        Reg16::BC => 0,
        Reg16::DE => 1,
        Reg16::HL => 2,
        Reg16::SP => 3,
    }
}
pub fn stk_code(r: StkReg16) -> u8 {
    match r {
        StkReg16::BC => 0,
        StkReg16::DE => 1,
        StkReg16::HL => 2,
        StkReg16::AF => 3,
    }
}
pub fn cond_code(c: Condition) -> u8 {
    match c {
        Condition::NZ => 0,
        Condition::Z => 1,
        Condition::NC => 2,
        Condition::C => 3,
        Condition::PO => 4,
        Condition::PE => 5,
        Condition::P => 6,
        Condition::M => 7,
    }
}

pub fn dbg_arg(i: u8, a: CpuDebugArg) {
    let (k, x, y, w) = match a {
        CpuDebugArg::Imm8(n) => (1, n, 0, 0),
        CpuDebugArg::Bit(n) => (2, n as u8, 0, (n >> 8) as u16),
        CpuDebugArg::IntMode(m) => (3, im_code(m), 0, 0),
        CpuDebugArg::Reg8(px, r) => (4, px_code(px), r8_code(r), 0),
        CpuDebugArg::Imm16(nn) => (5, 0, 0, nn),
        CpuDebugArg::Reg16(px, r) => (6, px_code(px), r16_code(r), 0),
        CpuDebugArg::Stk16(r) => (7, stk_code(r), 0, 0),
        CpuDebugArg::Addr(CpuDebugAddr::ImmAddr(nn)) => (8, 0, 0, nn),
        CpuDebugArg::Addr(CpuDebugAddr::RegAddr(r)) => (9, r16_code(r), 0, 0),
        CpuDebugArg::Addr(CpuDebugAddr::IndexAddr(px, None)) => (10, px_code(Some(px)), 0, 0),
        CpuDebugArg::Addr(CpuDebugAddr::IndexAddr(px, Some(d))) => (10, px_code(Some(px)), 1, d as u8 as u16),
        CpuDebugArg::Port(CpuDebugPort::ImmPort(n)) => (11, n, 0, 0),
        CpuDebugArg::Port(CpuDebugPort::RegPort) => (12, 0, 0, 0),
        CpuDebugArg::Cond(c) => (13, cond_code(c), 0, 0),
        CpuDebugArg::I => (14, 0, 0, 0),
        CpuDebugArg::R => (15, 0, 0, 0),
    };
    unsafe { dg_arg(i, k, x, y, w) }
}

pub fn dbg(d: CpuDebug) {
    let code = d.code.as_slice();
    let g = |i: usize| if i < code.len() { code[i] } else { 0 };
    let m = d.mnemonic.as_bytes();
    let h = |i: usize| if i < m.len() { m[i] } else { 0 };
    unsafe {
        dg_rec(d.pc, px_code(d.prefix), code.len() as u8, g(0), g(1), g(2), g(3), h(0), h(1), h(2), h(3), m.len() as u8);
    }
    match d.args {
        CpuDebugArgs::None => {}
        CpuDebugArgs::Single(a) => dbg_arg(0, a),
        CpuDebugArgs::Double(a, b) => {
            dbg_arg(0, a);
            dbg_arg(1, b);
        }
        CpuDebugArgs::BitOpExt(n, a, r) => {
            dbg_arg(0, CpuDebugArg::Bit(n));
            dbg_arg(1, a);
            dbg_arg(2, CpuDebugArg::Reg8(None, r));
        }
    }
}
