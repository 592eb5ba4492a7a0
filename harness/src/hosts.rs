//! C24: the clock counter and host defaults; C25: forwarding macros.
use crate::ev::*;
use crate::units::*;
use core::num::{NonZeroU16, NonZeroU8, Wrapping};
use z80emu::host::cycles::*;
use z80emu::host::TsCounter;
use z80emu::*;

macro_rules! counter {
    ($($t:ident $inp:ident;)*) => { $( pub mod $t {
        use super::super::*;
        fn v(id: u32) -> $t { unsafe { $inp(id) as $t } }
        fn mk(_: ()) -> TsCounter<$t> { TsCounter(Wrapping(v(100))) }
        fn chk(c: &TsCounter<$t>, d: $t) {
            eq!("counter", (c.0).0, v(100).wrapping_add(d));
            eq!("as_timestamp", c.as_timestamp(), v(100).wrapping_add(d));
            eq!("deref", (**c).0, v(100).wrapping_add(d));
        }
        pub fn m1() { let mut c = mk(()); let t = c.add_m1(b16(101)); eq!("m1 timestamp", t, v(100).wrapping_add(4)); chk(&c, 4) }
        pub fn mreq() { let mut c = mk(()); let t = c.add_mreq(b16(101)); eq!("mreq timestamp", t, v(100).wrapping_add(3)); chk(&c, 3) }
        pub fn io() { let mut c = mk(()); let t = c.add_io(b16(101)); eq!("io timestamp", t, v(100).wrapping_add(1)); chk(&c, 4) }
        pub fn irq() { let mut c = mk(()); let t = c.add_irq(b16(101)); eq!("irq timestamp", t, v(100).wrapping_add(2)); chk(&c, 6) }
        pub fn no_mreq() { if let Some(n) = NonZeroU8::new(b8(102)) { let mut c = mk(()); c.add_no_mreq(b16(101), n); chk(&c, b8(102) as $t) } }
        pub fn waits() { if let Some(n) = NonZeroU16::new(b16(102)) { let mut c = mk(()); c.add_wait_states(b16(101), n); chk(&c, b16(102) as $t) } }
        pub fn limit() { let c = mk(()); eq!("is_past_limit", c.is_past_limit(v(101)), v(100) >= v(101)); chk(&c, 0) }
        pub fn from() {
            let c = TsCounter::<$t>::from(v(100));
            chk(&c, 0);
            let mut c = TsCounter::<$t>::from(Wrapping(v(100)));
            chk(&c, 0);
            *c = Wrapping(v(101));
            eq!("deref_mut", (c.0).0, v(101));
            eq!("default", (TsCounter::<$t>::default().0).0, 0);
            let d = mk(());
            eq!("==", c == d, v(100) == v(101));
            eq!("<", c < d, v(101) < v(100));
            eq!("clone", (d.clone().0).0, v(100));
        }
    } )* };
}
pub mod zu_c24 {
    counter! { i32 zi_u32; u32 zi_u32; u16 zi_u16; i64 zi_u64; u64 zi_u64; }
    pub mod defaults {
        use super::super::*;
        pub fn cycles() {
            eq!("M1", M1_CYCLE_TS, 4);
            eq!("MEMRW", MEMRW_CYCLE_TS, 3);
            eq!("IO", IO_CYCLE_TS, 4);
            eq!("IO sample", IO_IORQ_LOW_TS, 1);
            eq!("IRQ", IRQ_ACK_CYCLE_TS, 6);
            eq!("IRQ sample", INT_IORQ_LOW_TS, 2);
        }
        pub fn io() {
            let mut n = crate::host::Nul;
            let (p, d, t) = (b16(100), b8(101), b8(102));
            let (v, w) = n.read_io(p, t);
            eq!("read_io", v, 0xFF);
            eq!("read_io waits", w.is_none(), true);
            let (b, w) = n.write_io(p, d, t);
            eq!("write_io", b.is_none(), true);
            eq!("write_io waits", w.is_none(), true);
            eq!("is_irq", n.is_irq(t), false);
            let (v, w) = n.irq_data(p, t);
            eq!("irq_data", v, 0xFF);
            eq!("irq_data waits", w.is_none(), true);
            eq!("reti", n.reti(p, t).is_none(), true);
        }
        pub fn memory() {
            let mut n = crate::host::Nul;
            let (p, d, t) = (b16(100), b8(101), b8(102));
            eq!("read_mem", n.read_mem(p, t), 0xFF);
            eq!("read_mem16", n.read_mem16(p, t), 0xFFFF);
            eq!("read_opcode", n.read_opcode(p, b16(103), t), 0xFF);
            n.write_mem(p, d, t);
            eq!("read_debug", n.read_debug(p), 0xFF);
        }
        /// the default reads are those of `read_debug`
        pub fn derived() {
            struct Mem(u16, u8, u8);
            impl Memory for Mem {
                type Timestamp = u8;
                fn read_debug(&self, a: u16) -> u8 {
                    if a == self.0 {
                        self.1
                    } else if a == self.0.wrapping_add(1) {
                        self.2
                    } else {
                        0x5A
                    }
                }
            }
            let mut m = Mem(b16(100), b8(101), b8(102));
            let t = b8(103);
            eq!("read_mem", m.read_mem(b16(100), t), b8(101));
            eq!("read_mem16", m.read_mem16(b16(100), t), b8(101) as u16 | (b8(102) as u16) << 8);
            eq!("read_opcode", m.read_opcode(b16(100), b16(104), t), b8(101));
            m.write_mem(b16(100), b8(105), t);
            eq!("write_mem", m.1, b8(101));
        }
        pub fn causes() {
            let c: [BreakCause<u8, u8>; 3] = [BreakCause::Halt, BreakCause::WriteIo(b8(100)), BreakCause::Reti(b8(100))];
            let t = [
                "a HALT instruction was executed",
                "an I/O write operation has requested a break",
                "a break was requested at the end of an interrupt service routine",
            ];
            for i in 0..3 {
                let s: &str = (&c[i]).into();
                eq!("text", s == t[i], true);
            }
            let [a, b, c] = c;
            for (i, x) in [a, b, c].into_iter().enumerate() {
                let s: &str = x.into();
                eq!("owned text", s == t[i], true);
            }
        }
    }
}

// ------------------------------------------------------------------ C25
/// A recording inner host: remembers its latest call and answers from inputs.
pub struct Rec {
    pub kind: core::cell::Cell<u8>,
    pub calls: core::cell::Cell<u8>,
    pub a: core::cell::Cell<u16>,
    pub b: core::cell::Cell<u16>,
    pub t: core::cell::Cell<u32>,
}
impl Rec {
    fn new() -> Rec {
        use core::cell::Cell;
        Rec { kind: Cell::new(0), calls: Cell::new(0), a: Cell::new(0), b: Cell::new(0), t: Cell::new(0) }
    }
    fn log(&self, k: u8, a: u16, b: u16, t: u32) {
        self.kind.set(k);
        self.calls.set(self.calls.get() + 1);
        self.a.set(a);
        self.b.set(b);
        self.t.set(t);
    }
}
pub struct T32(pub u32);
#[derive(Clone, Copy)]
pub struct L32(pub u32);
pub struct Wb(pub u32);
pub struct Rb(pub u32);
fn n16(id: u32) -> Option<NonZeroU16> {
    NonZeroU16::new(b16(id))
}
fn opt16(o: Option<NonZeroU16>) -> u16 {
    match o {
        None => 0,
        Some(x) => x.get(),
    }
}
fn a32(id: u32) -> u32 {
    unsafe { zi_u32(id) }
}
impl Clock for Rec {
    type Limit = L32;
    type Timestamp = T32;
    fn is_past_limit(&self, l: L32) -> bool {
        self.log(1, 0, 0, l.0);
        b1(200)
    }
    fn add_irq(&mut self, pc: u16) -> T32 {
        self.log(2, pc, 0, 0);
        T32(a32(201))
    }
    fn add_no_mreq(&mut self, a: u16, n: NonZeroU8) {
        self.log(3, a, n.get() as u16, 0);
    }
    fn add_m1(&mut self, a: u16) -> T32 {
        self.log(4, a, 0, 0);
        T32(a32(201))
    }
    fn add_mreq(&mut self, a: u16) -> T32 {
        self.log(5, a, 0, 0);
        T32(a32(201))
    }
    fn add_io(&mut self, a: u16) -> T32 {
        self.log(6, a, 0, 0);
        T32(a32(201))
    }
    fn add_wait_states(&mut self, a: u16, n: NonZeroU16) {
        self.log(7, a, n.get(), 0);
    }
    fn as_timestamp(&self) -> T32 {
        self.log(8, 0, 0, 0);
        T32(a32(201))
    }
}
impl Io for Rec {
    type Timestamp = T32;
    type WrIoBreak = Wb;
    type RetiBreak = Rb;
    fn read_io(&mut self, p: u16, t: T32) -> (u8, Option<NonZeroU16>) {
        self.log(9, p, 0, t.0);
        (b8(202), n16(203))
    }
    fn write_io(&mut self, p: u16, d: u8, t: T32) -> (Option<Wb>, Option<NonZeroU16>) {
        self.log(10, p, d as u16, t.0);
        (if b1(200) { Some(Wb(a32(201))) } else { None }, n16(203))
    }
    fn is_irq(&mut self, t: T32) -> bool {
        self.log(11, 0, 0, t.0);
        b1(200)
    }
    fn irq_data(&mut self, p: u16, t: T32) -> (u8, Option<NonZeroU16>) {
        self.log(12, p, 0, t.0);
        (b8(202), n16(203))
    }
    fn reti(&mut self, p: u16, t: T32) -> Option<Rb> {
        self.log(13, p, 0, t.0);
        if b1(200) {
            Some(Rb(a32(201)))
        } else {
            None
        }
    }
}
impl Memory for Rec {
    type Timestamp = T32;
    fn read_mem(&self, a: u16, t: T32) -> u8 {
        self.log(14, a, 0, t.0);
        b8(202)
    }
    fn read_mem16(&self, a: u16, t: T32) -> u16 {
        self.log(15, a, 0, t.0);
        b16(203)
    }
    fn read_opcode(&mut self, a: u16, ir: u16, t: T32) -> u8 {
        self.log(16, a, ir, t.0);
        b8(202)
    }
    fn write_mem(&mut self, a: u16, v: u8, t: T32) {
        self.log(17, a, v as u16, t.0);
    }
    fn read_debug(&self, a: u16) -> u8 {
        self.log(18, a, 0, 0);
        b8(202)
    }
}

/// every method at once
pub struct Whole {
    inner: Rec,
}
impl Clock for Whole {
    forward_host_clock_types! {@ => Rec}
    forward_host_clock_methods! {@ => |w| w.inner}
}
impl Io for Whole {
    forward_host_io_types! {@ => Rec}
    forward_host_io_methods! {@ => |w| w.inner}
}
impl Memory for Whole {
    forward_host_memory_types! {@ => Rec}
    forward_host_memory_methods! {@ => |w| w.inner}
}
/// by reference kind
pub struct ByRef {
    inner: Rec,
}
impl ByRef {
    fn r(&self) -> &Rec {
        &self.inner
    }
    fn m(&mut self) -> &mut Rec {
        &mut self.inner
    }
}
impl Clock for ByRef {
    forward_host_clock_types! {@ => Rec}
    forward_host_clock_methods! {@ref => |w| w.r()}
    forward_host_clock_methods! {@mut => |w| w.m()}
}
impl Io for ByRef {
    forward_host_io_types! {@ => Rec}
    forward_host_io_methods! {@ => |w| w.m()}
}
impl Memory for ByRef {
    forward_host_memory_types! {@ => Rec}
    forward_host_memory_methods! {@ref => |w| w.r()}
    forward_host_memory_methods! {@mut => |w| w.m()}
}
/// method by method, types by name
pub struct Single {
    inner: Rec,
}
impl Clock for Single {
    forward_host_clock_types! {(Limit, Timestamp) => Rec}
    forward_host_clock_methods! {(is_past_limit, add_irq, add_no_mreq, add_m1) => |w| w.inner}
    forward_host_clock_methods! {(add_mreq add_io) => |w| w.inner}
    forward_host_clock_methods! {add_wait_states => |w| w.inner}
    forward_host_clock_methods! {as_timestamp => |w| w.inner}
}
impl Io for Single {
    forward_host_io_types! {(Timestamp, WrIoBreak, RetiBreak) => Rec}
    forward_host_io_methods! {(write_io read_io) => |w| w.inner}
    forward_host_io_methods! {(is_irq, irq_data) => |w| w.inner}
    forward_host_io_methods! {reti => |w| w.inner}
}
impl Memory for Single {
    forward_host_memory_types! {(Timestamp) => Rec}
    forward_host_memory_methods! {(read_opcode, read_mem) => |w| w.inner}
    forward_host_memory_methods! {(read_mem16 write_mem) => |w| w.inner}
    forward_host_memory_methods! {read_debug => |w| w.inner}
}
/// a reference to something that already is a wrapper
pub struct Nested<'a> {
    inner: &'a mut Whole,
}
impl Clock for Nested<'_> {
    forward_host_clock_types! {@ => Whole}
    forward_host_clock_methods! {@ => |w| w.inner}
}
impl Io for Nested<'_> {
    forward_host_io_types! {@ => Whole}
    forward_host_io_methods! {@ => |w| w.inner}
}
impl Memory for Nested<'_> {
    forward_host_memory_types! {@ => Whole}
    forward_host_memory_methods! {@ => |w| w.inner}
}

pub trait Rig: Sized {
    fn with(f: impl FnOnce(&mut Self)) {
        let _ = f;
    }
}
fn logged(r: &Rec, k: u8, a: u16, b: u16, t: u32) {
    eq!("called once", r.calls.get(), 1);
    eq!("method", r.kind.get(), k);
    eq!("first argument", r.a.get(), a);
    eq!("second argument", r.b.get(), b);
    eq!("timestamp or limit", r.t.get(), t);
}
pub trait Inner {
    fn rec(&self) -> &Rec;
}
impl Inner for Whole {
    fn rec(&self) -> &Rec {
        &self.inner
    }
}
impl Inner for ByRef {
    fn rec(&self) -> &Rec {
        &self.inner
    }
}
impl Inner for Single {
    fn rec(&self) -> &Rec {
        &self.inner
    }
}
impl Inner for Nested<'_> {
    fn rec(&self) -> &Rec {
        &self.inner.inner
    }
}

pub fn call<H>(h: &mut H, k: u8)
where
    H: Inner + Clock<Limit = L32, Timestamp = T32> + Io<Timestamp = T32, WrIoBreak = Wb, RetiBreak = Rb> + Memory<Timestamp = T32>,
{
    let (a, b, t) = (b16(100), b8(101), a32(102));
    let a = a as u16;
    match k {
        1 => {
            eq!("result", h.is_past_limit(L32(t)), b1(200));
            logged(h.rec(), 1, 0, 0, t);
        }
        2 => {
            eq!("result", h.add_irq(a).0, a32(201));
            logged(h.rec(), 2, a, 0, 0);
        }
        3 => {
            if let Some(n) = NonZeroU8::new(b) {
                h.add_no_mreq(a, n);
                logged(h.rec(), 3, a, b as u16, 0);
            }
        }
        4 => {
            eq!("result", h.add_m1(a).0, a32(201));
            logged(h.rec(), 4, a, 0, 0);
        }
        5 => {
            eq!("result", h.add_mreq(a).0, a32(201));
            logged(h.rec(), 5, a, 0, 0);
        }
        6 => {
            eq!("result", h.add_io(a).0, a32(201));
            logged(h.rec(), 6, a, 0, 0);
        }
        7 => {
            if let Some(n) = NonZeroU16::new(b16(103)) {
                h.add_wait_states(a, n);
                logged(h.rec(), 7, a, b16(103), 0);
            }
        }
        8 => {
            eq!("result", h.as_timestamp().0, a32(201));
            logged(h.rec(), 8, 0, 0, 0);
        }
        9 => {
            let (v, w) = h.read_io(a, T32(t));
            eq!("result", v, b8(202));
            eq!("wait states", opt16(w), b16(203));
            logged(h.rec(), 9, a, 0, t);
        }
        10 => {
            let (v, w) = h.write_io(a, b, T32(t));
            eq!("break", v.is_some(), b1(200));
            if let Some(x) = v {
                eq!("break value", x.0, a32(201));
            }
            eq!("wait states", opt16(w), b16(203));
            logged(h.rec(), 10, a, b as u16, t);
        }
        11 => {
            eq!("result", h.is_irq(T32(t)), b1(200));
            logged(h.rec(), 11, 0, 0, t);
        }
        12 => {
            let (v, w) = h.irq_data(a, T32(t));
            eq!("result", v, b8(202));
            eq!("wait states", opt16(w), b16(203));
            logged(h.rec(), 12, a, 0, t);
        }
        13 => {
            let v = h.reti(a, T32(t));
            eq!("break", v.is_some(), b1(200));
            if let Some(x) = v {
                eq!("break value", x.0, a32(201));
            }
            logged(h.rec(), 13, a, 0, t);
        }
        14 => {
            eq!("result", h.read_mem(a, T32(t)), b8(202));
            logged(h.rec(), 14, a, 0, t);
        }
        15 => {
            eq!("result", h.read_mem16(a, T32(t)), b16(203));
            logged(h.rec(), 15, a, 0, t);
        }
        16 => {
            eq!("result", h.read_opcode(a, b16(103), T32(t)), b8(202));
            logged(h.rec(), 16, a, b16(103), t);
        }
        17 => {
            h.write_mem(a, b, T32(t));
            logged(h.rec(), 17, a, b as u16, t);
        }
        _ => {
            eq!("result", h.read_debug(a), b8(202));
            logged(h.rec(), 18, a, 0, 0);
        }
    }
}
macro_rules! fwd {
    ($($n:ident $k:expr;)*) => {
        pub mod whole { $( pub fn $n() { crate::hosts::call(&mut crate::hosts::whole(), $k) } )* }
        pub mod by_ref { $( pub fn $n() { crate::hosts::call(&mut crate::hosts::by_ref(), $k) } )* }
        pub mod single { $( pub fn $n() { crate::hosts::call(&mut crate::hosts::single(), $k) } )* }
        pub mod nested { $( pub fn $n() { crate::hosts::nested($k) } )* }
    };
}
pub fn whole() -> Whole {
    Whole { inner: Rec::new() }
}
pub fn by_ref() -> ByRef {
    ByRef { inner: Rec::new() }
}
pub fn single() -> Single {
    Single { inner: Rec::new() }
}
pub fn nested(k: u8) {
    let mut w = whole();
    let mut n = Nested { inner: &mut w };
    call(&mut n, k)
}
pub mod zu_c25 {
    fwd! {
        is_past_limit 1; add_irq 2; add_no_mreq 3; add_m1 4; add_mreq 5; add_io 6; add_wait_states 7; as_timestamp 8;
        read_io 9; write_io 10; is_irq 11; irq_data 12; reti 13; read_mem 14; read_mem16 15; read_opcode 16; write_mem 17; read_debug 18;
    }
}
