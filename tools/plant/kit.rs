// A recording host: 64 kB of memory, scripted interrupts, wait states and breaks.
#![allow(dead_code)]
pub use core::num::{NonZeroU16, NonZeroU8};
pub use std::{cell::RefCell, rc::Rc};
pub use z80emu::{z80::*, *};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    M1(u16), Mreq(u16), Io(u16), Irq(u16), NoMreq(u16, u8), Wait(u16, u16),
    Fetch(u16, u16, u32), Rd(u16, u32), Rd16(u16, u32), Wr(u16, u8, u32),
    In(u16, u32), Out(u16, u8, u32), IsIrq(u32), IrqData(u16, u32), Reti(u16, u32), Peek(u16),
}
pub type Log = Rc<RefCell<Vec<Ev>>>;

pub struct Clk { pub t: u32, pub log: Log }
impl Clock for Clk {
    type Limit = u32;
    type Timestamp = u32;
    fn is_past_limit(&self, l: u32) -> bool { self.t >= l }
    fn add_irq(&mut self, pc: u16) -> u32 { self.log.borrow_mut().push(Ev::Irq(pc)); let t = self.t + 2; self.t += 6; t }
    fn add_no_mreq(&mut self, a: u16, n: NonZeroU8) { self.log.borrow_mut().push(Ev::NoMreq(a, n.get())); self.t += n.get() as u32; }
    fn add_m1(&mut self, a: u16) -> u32 { self.log.borrow_mut().push(Ev::M1(a)); self.t += 4; self.t }
    fn add_mreq(&mut self, a: u16) -> u32 { self.log.borrow_mut().push(Ev::Mreq(a)); self.t += 3; self.t }
    fn add_io(&mut self, a: u16) -> u32 { self.log.borrow_mut().push(Ev::Io(a)); let t = self.t + 1; self.t += 4; t }
    fn add_wait_states(&mut self, a: u16, n: NonZeroU16) { self.log.borrow_mut().push(Ev::Wait(a, n.get())); self.t += n.get() as u32; }
    fn as_timestamp(&self) -> u32 { self.t }
}

pub struct Host {
    pub mem: Vec<u8>, pub log: Log, pub irq_from: u32, pub vector: u8, pub vector_wait: u16,
    pub input: u8, pub in_wait: u16, pub out_wait: u16, pub out_break: Option<u32>, pub reti_break: Option<u32>,
}
impl Io for Host {
    type Timestamp = u32;
    type WrIoBreak = u32;
    type RetiBreak = u32;
    fn read_io(&mut self, p: u16, t: u32) -> (u8, Option<NonZeroU16>) {
        self.log.borrow_mut().push(Ev::In(p, t)); (self.input, NonZeroU16::new(self.in_wait)) }
    fn write_io(&mut self, p: u16, d: u8, t: u32) -> (Option<u32>, Option<NonZeroU16>) {
        self.log.borrow_mut().push(Ev::Out(p, d, t)); (self.out_break, NonZeroU16::new(self.out_wait)) }
    fn is_irq(&mut self, t: u32) -> bool { self.log.borrow_mut().push(Ev::IsIrq(t)); t >= self.irq_from }
    fn irq_data(&mut self, pc: u16, t: u32) -> (u8, Option<NonZeroU16>) {
        self.log.borrow_mut().push(Ev::IrqData(pc, t)); self.irq_from = u32::MAX;
        (self.vector, NonZeroU16::new(self.vector_wait)) }
    fn reti(&mut self, a: u16, t: u32) -> Option<u32> { self.log.borrow_mut().push(Ev::Reti(a, t)); self.reti_break }
}
impl Memory for Host {
    type Timestamp = u32;
    fn read_mem(&self, a: u16, t: u32) -> u8 { self.log.borrow_mut().push(Ev::Rd(a, t)); self.mem[a as usize] }
    fn read_mem16(&self, a: u16, t: u32) -> u16 {
        self.log.borrow_mut().push(Ev::Rd16(a, t));
        u16::from_le_bytes([self.mem[a as usize], self.mem[a.wrapping_add(1) as usize]]) }
    fn read_opcode(&mut self, pc: u16, ir: u16, t: u32) -> u8 { self.log.borrow_mut().push(Ev::Fetch(pc, ir, t)); self.mem[pc as usize] }
    fn write_mem(&mut self, a: u16, v: u8, t: u32) { self.log.borrow_mut().push(Ev::Wr(a, v, t)); self.mem[a as usize] = v; }
    fn read_debug(&self, a: u16) -> u8 { self.log.borrow_mut().push(Ev::Peek(a)); self.mem[a as usize] }
}

pub const NODBG: Option<fn(CpuDebug)> = None;

pub struct Rig<C> { pub cpu: C, pub host: Host, pub clk: Clk }
impl<C: Cpu> Rig<C> {
    /// A CPU just after reset at `org`, SP = 0x8000, with `code` placed at `org`.
    pub fn with(cpu: C, org: u16, code: &[u8]) -> Self {
        let log: Log = Default::default();
        let mut mem = vec![0u8; 65536];
        for (i, b) in code.iter().enumerate() { mem[org.wrapping_add(i as u16) as usize] = *b; }
        let mut cpu = cpu;
        cpu.set_pc(org);
        cpu.set_sp(0x8000);
        Rig { cpu, clk: Clk { t: 0, log: log.clone() }, host: Host { mem, log, irq_from: u32::MAX, vector: 0xFF,
            vector_wait: 0, input: 0, in_wait: 0, out_wait: 0, out_break: None, reti_break: None } }
    }
    pub fn new(org: u16, code: &[u8]) -> Self { Self::with(C::default(), org, code) }
    pub fn step(&mut self) -> core::result::Result<(), BreakCause<u32, u32>> { self.cpu.execute_next(&mut self.host, &mut self.clk, NODBG) }
    pub fn step_dbg(&mut self) -> (core::result::Result<(), BreakCause<u32, u32>>, Option<CpuDebug>) {
        let mut d = None;
        let r = self.cpu.execute_next(&mut self.host, &mut self.clk, Some(|x: CpuDebug| d = Some(x)));
        (r, d)
    }
    pub fn limit(&mut self, l: u32) -> core::result::Result<(), BreakCause<u32, u32>> {
        self.cpu.execute_with_limit(&mut self.host, &mut self.clk, l) }
    pub fn events(&self) -> Vec<Ev> { self.clk.log.borrow_mut().drain(..).collect() }
    pub fn bus(&self) -> Vec<Ev> { self.events().into_iter().filter(|e| !matches!(e, Ev::IsIrq(_) | Ev::Peek(_))).collect() }
}
pub fn f(bits: u8) -> CpuFlags { CpuFlags::from_bits_retain(bits) }
