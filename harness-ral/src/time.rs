//! C39: the clock and the frames of emulated time.
use crate::mock::*;
use crate::*;
use core::num::{NonZeroU16, NonZeroU8, Wrapping};
use ral1243::bus::BusDevice;
use ral1243::clock::TClock;
use ral1243::FrameRunner;
use z80emu::*;
use z80emu::host;

/// up to 63 T-states more; every step may be up to 16 + 63, so seconds pass
const LONG: u16 = 0x3B;
fn at(hz: u32, t: u32) -> TClock {
    let mut c = TClock::new(hz);
    *c = Wrapping(t);
    c
}
fn chk(c: &TClock, t: u32) {
    eq!("counter", c.0, t);
    eq!("as_timestamp", c.as_timestamp(), t);
    eq!("clock_hz", c.clock_hz(), 4_000_000);
}
fn clk() -> (TClock, u32) {
    let t = b32(100);
    (at(4_000_000, t), t)
}

/// a processor that runs in steps of 4 T-states to the limit and then so much longer
#[derive(Clone, Default, PartialEq, Eq)]
pub struct Proc {
    step: u32,
    resets: u32,
    runs: u32,
}
impl Proc {
    fn new() -> Proc {
        Proc { step: 0, resets: 0, runs: 0 }
    }
    fn clear(&mut self, step: u32) {
        *self = Proc { step, resets: 0, runs: 0 }
    }
    /// how often it halts in this frame
    fn halts(&self) -> u32 {
        b8(200 + 10 * self.step) as u32 & 1
    }
    fn over(&self) -> u16 {
        b8(201 + 10 * self.step) as u16 & LONG
    }
    fn run<T: Clock, O, R>(&mut self, tsc: &mut T, limit: T::Limit) -> core::result::Result<(), BreakCause<O, R>> {
        self.runs += 1;
        if self.runs <= self.halts() {
            return Err(BreakCause::Halt);
        }
        for _ in 0..4 {
            if !tsc.is_past_limit(limit) {
                tsc.add_m1(0);
            }
        }
        if let Some(n) = NonZeroU16::new(self.over()) {
            tsc.add_wait_states(0, n)
        }
        Ok(())
    }
    fn nmi_at<T: Clock>(&mut self, tsc: &mut T) -> bool {
        if b1(300) {
            tsc.add_m1(0);
            true
        } else {
            false
        }
    }
}
#[allow(unused_variables)]
impl Cpu for Proc {
    fn reset(&mut self) { self.resets += 1 }
    fn get_pc(&self) -> u16 { panic!() }
    fn set_pc(&mut self, _pc: u16) { panic!() }
    fn get_sp(&self) -> u16 { panic!() }
    fn set_sp(&mut self, _sp: u16) { panic!() }
    fn get_acc(&self) -> u8 { panic!() }
    fn set_acc(&mut self, _val: u8) { panic!() }
    fn get_flags(&self) -> CpuFlags { panic!() }
    fn set_flags(&mut self, _flags: CpuFlags) { panic!() }
    fn inc_r(&mut self) { panic!() }
    fn add_r(&mut self, _delta: i32) { panic!() }
    fn get_r(&self) -> u8 { panic!() }
    fn set_r(&mut self, _r: u8) { panic!() }
    fn get_i(&self) -> u8 { panic!() }
    fn set_i(&mut self, _i: u8) { panic!() }
    fn get_ir(&self) -> u16 { panic!() }
    fn get_iffs(&self) -> (bool, bool) { panic!() }
    fn set_iffs(&mut self, _iff1: bool, _iff2: bool) { panic!() }
    fn halt(&mut self) { panic!() }
    fn is_halt(&self) -> bool { panic!() }
    fn get_im(&self) -> InterruptMode { panic!() }
    fn set_im(&mut self, _im: InterruptMode) { panic!() }
    fn ex_af_af(&mut self) { panic!() }
    fn exx(&mut self) { panic!() }
    fn get_reg(&self, _reg: Reg8, _prefix: Option<Prefix>) -> u8 { panic!() }
    fn set_reg(&mut self, _dst: Reg8, _prefix: Option<Prefix>, _val: u8) { panic!() }
    fn get_reg2(&self, _src: StkReg16) -> (u8, u8) { panic!() }
    fn get_alt_reg2(&self, _src: StkReg16) -> (u8, u8) { panic!() }
    fn get_reg16(&self, _src: StkReg16) -> u16 { panic!() }
    fn get_alt_reg16(&self, _src: StkReg16) -> u16 { panic!() }
    fn set_reg2(&mut self, _src: StkReg16, _hi: u8, _lo: u8) { panic!() }
    fn set_reg16(&mut self, _src: StkReg16, _val: u16) { panic!() }
    fn get_index2(&self, _prefix: Prefix) -> (u8, u8) { panic!() }
    fn get_index16(&self, _prefix: Prefix) -> u16 { panic!() }
    fn set_index2(&mut self, _prefix: Prefix, _hi: u8, _lo: u8) { panic!() }
    fn set_index16(&mut self, _prefix: Prefix, _val: u16) { panic!() }
    fn is_irq_allowed(&self) -> bool { panic!() }
    fn is_nmi_allowed(&self) -> bool { panic!() }
    fn restore_iff1(&mut self) { panic!() }
    fn disable_interrupts(&mut self) { panic!() }
    fn enable_interrupts(&mut self) { panic!() }
    fn is_after_ei(&self) -> bool { panic!() }
    fn is_after_prefix(&self) -> bool { panic!() }
    fn get_prefix(&self) -> Option<Prefix> { panic!() }
    fn irq<M, T, F>( &mut self, _control: &mut M, _tsc: &mut T, _debug: Option<F> ) -> Option<host::Result<M::WrIoBreak, M::RetiBreak>> where M: Memory<Timestamp=T::Timestamp> + Io<Timestamp=T::Timestamp>, T: Clock, F: FnOnce(CpuDebug) { panic!() }
    fn nmi<M, T>(&mut self, control: &mut M, tsc: &mut T) -> bool where M: Memory<Timestamp=T::Timestamp> + Io<Timestamp=T::Timestamp>, T: Clock { self.nmi_at(tsc) }
    fn execute_instruction<M, T, F>( &mut self, _control: &mut M, _tsc: &mut T, _debug: Option<F>, _code: u8 ) -> host::Result<M::WrIoBreak, M::RetiBreak> where M: Memory<Timestamp=T::Timestamp> + Io<Timestamp=T::Timestamp>, T: Clock, F: FnOnce(CpuDebug) { panic!() }
    fn execute_next<M, T, F>( &mut self, _control: &mut M, _tsc: &mut T, _debug: Option<F> ) -> host::Result<M::WrIoBreak, M::RetiBreak> where M: Memory<Timestamp=T::Timestamp> + Io<Timestamp=T::Timestamp>, T: Clock, F: FnOnce(CpuDebug) { panic!() }
    fn execute_with_limit<M, T>( &mut self, control: &mut M, tsc: &mut T, limit: T::Limit ) -> host::Result<M::WrIoBreak, M::RetiBreak> where M: Memory<Timestamp=T::Timestamp> + Io<Timestamp=T::Timestamp>, T: Clock { self.run(tsc, limit) }
}
/// memory, ports and devices: only notifications are expected
pub struct All {
    log: Log,
}
impl All {
    fn new() -> All {
        All { log: Log::new() }
    }
}
impl Memory for All {
    type Timestamp = u32;
}
impl Io for All {
    type Timestamp = u32;
    type WrIoBreak = ();
    type RetiBreak = ();
}
impl BusDevice for All {
    type Timestamp = u32;
    type NextDevice = Next;
    fn reset(&mut self, ts: u32) {
        self.log.put(RESET, 0, ts)
    }
    fn frame_end(&mut self, ts: u32) {
        self.log.put(FRAME, 0, ts)
    }
    fn m1(&mut self, _: u32) {
        panic!()
    }
    fn next_device(&mut self) -> &mut Next {
        panic!()
    }
    fn next_second(&mut self, d: u32) {
        self.log.put(SECOND, 0, d)
    }
}

pub mod zu_c39 {
    pub mod clock {
        use super::super::*;
        pub fn m1() {
            let (mut c, t) = clk();
            let r = c.add_m1(b16(101));
            chk(&c, t.wrapping_add(4));
            eq!("m1 timestamp", r, t.wrapping_add(4));
        }
        pub fn mreq() {
            let (mut c, t) = clk();
            let r = c.add_mreq(b16(101));
            chk(&c, t.wrapping_add(3));
            eq!("mreq timestamp", r, t.wrapping_add(3));
        }
        pub fn io() {
            let (mut c, t) = clk();
            let r = c.add_io(b16(101));
            chk(&c, t.wrapping_add(4));
            eq!("io timestamp", r, t.wrapping_add(4));
        }
        pub fn irq() {
            let (mut c, t) = clk();
            let r = c.add_irq(b16(101));
            chk(&c, t.wrapping_add(6));
            eq!("irq timestamp", r, t.wrapping_add(6));
        }
        pub fn no_mreq() {
            if let Some(n) = NonZeroU8::new(b8(102)) {
                let (mut c, t) = clk();
                c.add_no_mreq(b16(101), n);
                chk(&c, t.wrapping_add(b8(102) as u32));
            }
        }
        pub fn waits() {
            if let Some(n) = NonZeroU16::new(b16(102)) {
                let (mut c, t) = clk();
                c.add_wait_states(b16(101), n);
                chk(&c, t.wrapping_add(b16(102) as u32));
            }
        }
        pub fn limit() {
            let (c, t) = clk();
            eq!("is_past_limit", c.is_past_limit(b32(101)), t >= b32(101));
            chk(&c, t);
        }
        pub fn reset() {
            let (mut c, _) = clk();
            c.reset();
            chk(&c, 4_000_000);
            chk(&TClock::new(4_000_000), 4_000_000);
        }
        /// more than two seconds become one less, nothing else
        pub fn second() {
            let (mut c, t) = clk();
            let w = c.check_wrap_second();
            eq!("wrapped", w, t > 8_000_000);
            chk(&c, if t > 8_000_000 { t - 4_000_000 } else { t });
        }
    }
    pub mod frames {
        use super::super::*;
        /// 10 Hz outside, 10 frames a second, 100 Hz: 10 T-states each
        type Run = FrameRunner<10, 10>;
        const HZ: u32 = 100;
        const FRAME_TS: u32 = 10;
        struct Rig {
            r: Run,
            p: Proc,
            now: u32,
            limit: u32,
        }
        fn rig(_: ()) -> Rig {
            let mut r = Run::new(HZ);
            let mut p = Proc::new();
            let mut b = All::new();
            r.start(&mut p, &mut b);
            b.log.only(RESET, 0, HZ);
            eq!("the processor is reset", p.resets, 1);
            eq!("the processor is not run", p.runs, 0);
            Rig { r, p, now: HZ, limit: HZ }
        }
        impl Rig {
            fn step<const S: u32>(&mut self) {
                let mut b = All::new();
                self.p.clear(S);
                let mut log = Log::new();
                if self.now > 2 * HZ {
                    self.now -= HZ;
                    self.limit -= HZ;
                    log.put(SECOND, 0, HZ);
                }
                self.limit += FRAME_TS;
                let d = self.r.step(&mut self.p, &mut b);
                let mut end = self.now;
                for _ in 0..4 {
                    if end < self.limit {
                        end += 4
                    }
                }
                end += self.p.over() as u32;
                log.put(FRAME, 0, end);
                b.log.same(&log);
                eq!("runs of the processor", self.p.runs, self.p.halts() + 1);
                eq!("length of the frame", d, end - self.now);
                eq!("the processor is not reset", self.p.resets, 0);
                self.now = end;
            }
        }
        pub fn history() {
            let mut g = rig(());
            g.step::<0>();
            g.step::<1>();
            g.step::<2>();
            g.step::<3>();
        }
        pub fn again() {
            let mut g = rig(());
            g.step::<0>();
            g.step::<1>();
            let mut b = All::new();
            g.p.clear(0);
            g.r.start(&mut g.p, &mut b);
            b.log.only(RESET, 0, HZ);
            eq!("the processor is reset", g.p.resets, 1);
            g.now = HZ;
            g.limit = HZ;
            g.step::<2>();
        }
        pub fn reset() {
            let mut g = rig(());
            g.step::<0>();
            let mut b = All::new();
            g.p.clear(0);
            g.r.reset(&mut g.p, &mut b);
            b.log.only(RESET, 0, g.now);
            eq!("the processor is reset", g.p.resets, 1);
            g.step::<1>();
        }
        pub fn nmi() {
            let mut g = rig(());
            g.step::<0>();
            let mut b = All::new();
            g.p.clear(0);
            let x = g.r.nmi(&mut g.p, &mut b);
            eq!("accepted", x.is_some(), b1(300));
            eq!("length", x.unwrap_or(0), if b1(300) { 4 } else { 0 });
            b.log.none();
            if b1(300) {
                g.now += 4
            }
            g.step::<1>();
        }
        /// which clocks fit a runner, and what the outside clock then is
        pub fn valid() {
            let hz = b32(100);
            eq!("valid", FrameRunner::<16, 10>::clock_is_valid(hz), hz & 31 == 0 && hz >= 160);
            if hz & 31 == 0 && hz >= 160 {
                let r = FrameRunner::<16, 16>::new(hz);
                eq!("outside clock", r.external_clock_tstates(), hz >> 4);
            }
        }
    }
}
