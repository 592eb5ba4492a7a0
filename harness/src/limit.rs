//! C22: long runs until a limit, against single steps.
use crate::obs::*;
use crate::units::*;
use core::num::{NonZeroU16, NonZeroU8};
use z80emu::host::{BreakCause, Clock, Io, Memory};
use z80emu::z80::{Flavour, BM1, CMOS, NMOS};
use z80emu::*;

/// counts T-states and sums up every call
#[derive(Clone)]
struct Ck {
    ts: u32,
    sum: u64,
}
impl Ck {
    fn note(&mut self, kind: u64, a: u16, n: u32) -> u32 {
        let ts = self.ts;
        self.sum = self.sum.wrapping_mul(31).wrapping_add(kind << 48 ^ (a as u64) << 32 ^ ts as u64);
        self.ts = ts.wrapping_add(n);
        self.ts
    }
}
impl Clock for Ck {
    type Limit = u32;
    type Timestamp = u32;
    fn is_past_limit(&self, limit: u32) -> bool {
        self.ts >= limit
    }
    fn add_irq(&mut self, pc: u16) -> u32 {
        self.note(1, pc, 6)
    }
    fn add_no_mreq(&mut self, a: u16, n: NonZeroU8) {
        self.note(2, a, n.get() as u32);
    }
    fn add_m1(&mut self, a: u16) -> u32 {
        self.note(3, a, 4)
    }
    fn add_mreq(&mut self, a: u16) -> u32 {
        self.note(4, a, 3)
    }
    fn add_io(&mut self, p: u16) -> u32 {
        self.note(5, p & 0xFF, 4)
    }
    fn add_wait_states(&mut self, b: u16, n: NonZeroU16) {
        self.note(6, b & 0xFF, n.get() as u32);
    }
    fn as_timestamp(&self) -> u32 {
        self.ts
    }
}

/// 256 bytes of memory seen everywhere, an interrupt line following the time
#[derive(Clone)]
struct Host {
    mem: [u8; 256],
    /// the line is active when any of these bits of the time and all of `on`
    on: u32,
    /// or from then on
    from: u32,
    /// nothing asks to stop
    calm: bool,
    polls: u64,
    outs: u64,
}
impl Io for Host {
    type Timestamp = u32;
    type WrIoBreak = u8;
    type RetiBreak = u16;
    fn is_irq(&mut self, ts: u32) -> bool {
        self.polls = self.polls.wrapping_mul(31).wrapping_add(ts as u64 + 1);
        ts & self.on == self.on || ts >= self.from
    }
    fn irq_data(&mut self, _: u16, ts: u32) -> (u8, Option<NonZeroU16>) {
        self.polls = self.polls.wrapping_mul(37).wrapping_add(ts as u64);
        (0xFF, None)
    }
    fn write_io(&mut self, _: u16, _: u8, ts: u32) -> (Option<u8>, Option<NonZeroU16>) {
        self.outs = self.outs.wrapping_mul(31).wrapping_add(ts as u64 + 1);
        (if !self.calm && self.outs & 7 == 7 { Some(1) } else { None }, NonZeroU16::new((ts & 1) as u16))
    }
    fn read_io(&mut self, _: u16, _: u32) -> (u8, Option<NonZeroU16>) {
        (0x5A, NonZeroU16::new(1))
    }
    fn reti(&mut self, _: u16, ts: u32) -> Option<u16> {
        self.outs = self.outs.wrapping_mul(33).wrapping_add(ts as u64);
        if !self.calm && self.outs & 15 == 15 {
            Some(2)
        } else {
            None
        }
    }
}
impl Memory for Host {
    type Timestamp = u32;
    fn read_mem(&self, a: u16, _: u32) -> u8 {
        self.mem[a as u8 as usize]
    }
    fn read_mem16(&self, a: u16, _: u32) -> u16 {
        u16::from_le_bytes([self.mem[a as u8 as usize], self.mem[a.wrapping_add(1) as u8 as usize]])
    }
    fn read_opcode(&mut self, a: u16, _: u16, _: u32) -> u8 {
        self.mem[a as u8 as usize]
    }
    fn write_mem(&mut self, a: u16, v: u8, _: u32) {
        self.mem[a as u8 as usize] = v;
    }
    fn read_debug(&self, a: u16) -> u8 {
        self.mem[a as u8 as usize]
    }
}

const MAIN: [u8; 51] = [
    0x00, // 0
    0xFB, // 1 EI
    0xED, 0x56, // 2 IM 1
    0x06, 0x03, // 4 LD B,3
    0xDD, 0xDD, 0x23, // 6 INC IX
    0xC6, 0x11, // ADD A,n
    0xFD, 0xCB, 0x05, 0x46, // BIT 0,(IY+5)
    0xD3, 0x40, // OUT (n),A
    0xDB, 0x41, // IN A,(n)
    0xD5, // PUSH DE
    0xE1, // POP HL
    0x21, 0x90, 0x00, // LD HL,nn
    0x77, // LD (HL),A
    0xD9, // EXX
    0xD9, // EXX
    0x10, 0xE9, // DJNZ 6
    0x01, 0x02, 0x00, // LD BC,2
    0x11, 0x98, 0x00, // LD DE,nn
    0xED, 0xB0, // LDIR
    0xED, 0x46, // IM 0
    0xF3, // DI
    0xFE, 0x00, // CP n
    0xFB, // EI
    0xED, 0x5E, // IM 2
    0xED, 0x67, // RRD
    0xFB, // EI
    0xC3, 0x02, 0x00, // JP 2
];
const IRQ: [u8; 8] = [0xF5, 0xDD, 0xE5, 0xDD, 0xE1, 0xF1, 0xFB, 0xED];

fn host() -> Host {
    let mut mem = [0u8; 256];
    let mut i = 0;
    while i < MAIN.len() {
        mem[i] = MAIN[i];
        i += 1;
    }
    let mut i = 0;
    while i < IRQ.len() {
        mem[0x38 + i] = IRQ[i];
        i += 1;
    }
    mem[0x40] = 0x4D;
    mem[0xFF] = 0x38;
    Host { mem, on: 0x60, from: !0, calm: false, polls: 0, outs: 0 }
}
fn cpu<Q: Flavour>() -> Z80<Q> {
    let mut c = Z80::<Q>::new();
    c.set_reg16(StkReg16::AF, b16(I_AF));
    c.set_reg16(StkReg16::DE, b16(I_DE));
    c.set_reg16(StkReg16::HL, 0x80);
    c.set_sp(0xC0);
    c.exx();
    c.set_reg16(StkReg16::HL, b16(I_HL2));
    c.exx();
    c.set_i(0);
    c
}

fn code(r: Result<(), BreakCause<u8, u16>>) -> u16 {
    match r {
        Ok(()) => 0,
        Err(BreakCause::Halt) => 1,
        Err(BreakCause::WriteIo(v)) => 0x100 | v as u16,
        Err(BreakCause::Reti(v)) => 0x200 | v,
    }
}
/// until the limit or a reason to stop, one step at a time
fn steps<Q: Flavour>(c: &mut Z80<Q>, h: &mut Host, k: &mut Ck, limit: u32) -> u16 {
    while k.ts < limit {
        let r = code(c.execute_next(h, k, None::<CpuDebugFn>));
        if r != 0 {
            return r;
        }
    }
    0
}
fn agree<Q: Flavour>(c: &Z80<Q>, h: &Host, k: &Ck, d: &Z80<Q>, g: &Host, l: &Ck) {
    eq!("the time", k.ts, l.ts);
    eq!("every call of the clock", k.sum, l.sum);
    eq!("every poll of the interrupt line", h.polls, g.polls);
    eq!("every i/o write and return", h.outs, g.outs);
    same(&snap(c), &snap(d));
    eq!("memory written", h.mem[0x90], g.mem[0x90]);
    eq!("memory copied", u16::from_le_bytes([h.mem[0x98], h.mem[0x99]]), u16::from_le_bytes([g.mem[0x98], g.mem[0x99]]));
    eq!("the stack", u16::from_le_bytes([h.mem[0xBE], h.mem[0xBF]]), u16::from_le_bytes([g.mem[0xBE], g.mem[0xBF]]));
}
/// runs to the limit, continued after every reason to stop
fn whole<Q: Flavour>(limit: u32, part: u32, calm: bool) {
    let (mut c, mut h, mut k) = (cpu::<Q>(), host(), Ck { ts: 0, sum: 0 });
    h.calm = calm;
    if calm {
        h.on = !0;
    }
    let (mut d, mut g, mut l) = (c.clone(), h.clone(), k.clone());
    let mut to = part;
    loop {
        let a = code(c.execute_with_limit(&mut h, &mut k, to));
        let b = steps(&mut d, &mut g, &mut l, to);
        eq!("the reason to stop", a, b);
        eq!("the time it stops", k.ts, l.ts);
        if k.ts >= limit || l.ts >= limit {
            break;
        }
        while to <= k.ts {
            to += part;
        }
    }
    agree(&c, &h, &k, &d, &g, &l);
}
/// waiting in HALT for an interrupt
fn wait<Q: Flavour>(from: u32, limit: u32) {
    let (mut c, mut h, mut k) = (cpu::<Q>(), host(), Ck { ts: 0, sum: 0 });
    h.from = from;
    h.on = !0;
    c.set_pc(0x44);
    c.set_im(InterruptMode::Mode1);
    c.set_iffs(true, true);
    c.halt();
    let (mut d, mut g, mut l) = (c.clone(), h.clone(), k.clone());
    let a = code(c.execute_with_limit(&mut h, &mut k, limit));
    let b = steps(&mut d, &mut g, &mut l, limit);
    eq!("the reason to stop", a, b);
    agree(&c, &h, &k, &d, &g, &l);
}
pub mod zu_c22 {
    use super::*;
    pub fn long_run_nmos() {
        whole::<NMOS>(8000, 100_000, false)
    }
    pub fn long_run_cmos() {
        whole::<CMOS>(8000, 100_000, false)
    }
    pub fn long_run_bm1() {
        whole::<BM1>(8000, 100_000, false)
    }
    pub fn long_calm_nmos() {
        whole::<NMOS>(8000, 100_000, true)
    }
    pub fn long_calm_cmos() {
        whole::<CMOS>(8000, 100_000, true)
    }
    pub fn long_calm_bm1() {
        whole::<BM1>(8000, 100_000, true)
    }
    pub fn longer_calm_nmos() {
        whole::<NMOS>(530_000, 1_000_000, true)
    }
    pub fn long_parts_nmos() {
        whole::<NMOS>(8000, 100, false)
    }
    pub fn long_wait_nmos() {
        wait::<NMOS>(3000, 3030)
    }
    pub fn long_wait_cmos() {
        wait::<CMOS>(3000, 3030)
    }
    pub fn longer_wait_nmos() {
        wait::<NMOS>(264_000, 264_030)
    }
    pub fn long_wait_bm1() {
        wait::<BM1>(3000, 3030)
    }
}
