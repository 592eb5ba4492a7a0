//! C37: the parallel port against a model of its handshake.
use crate::mock::*;
use crate::*;
use ral1243::bus::BusDevice;
use ral1243::pio::*;
use ral1243::pio_device::*;
use z80emu::Io;

pub const FLOAT: usize = 0;
pub const READY: usize = 1;
pub const SAMPLE: usize = 2;
pub const BUSDATA: usize = 3;
pub const OUTDATA: usize = 4;
pub const STROBE: usize = 5;

/// what is connected to a channel
pub struct Dev {
    pub log: Log,
    pub step: u32,
    which: u32,
}
impl Dev {
    pub fn new(which: u32) -> Dev {
        Dev { log: Log::new(), step: 0, which }
    }
    fn id(&self, k: u32) -> u32 {
        2000 + 16 * self.step + 8 * self.which + k
    }
}
impl PioDevice for Dev {
    type Timestamp = u32;
    fn set_floating_bus(&mut self, ts: u32) {
        self.log.put(FLOAT, 0, ts)
    }
    fn ready(&mut self, ts: u32) {
        self.log.put(READY, 0, ts)
    }
    fn try_sample_data(&mut self, ts: u32) -> Option<u8> {
        self.log.put(SAMPLE, 0, ts);
        if b1(self.id(0)) {
            Some(b8(self.id(1)))
        } else {
            None
        }
    }
    fn set_bus_data(&mut self, d: u8, ts: u32) {
        self.log.put(BUSDATA, d as u32, ts)
    }
    fn ready_with_data(&mut self, d: u8, ts: u32) {
        self.log.put(OUTDATA, d as u32, ts)
    }
    fn was_strobe(&mut self, ts: u32) -> bool {
        self.log.put(STROBE, 0, ts);
        b1(self.id(2))
    }
}

/// the specification
struct Chan {
    dev: Dev,
    output: bool,
    /// interrupts: asked for, enabled, pending
    asked: bool,
    on: bool,
    pend: bool,
    /// the READY line
    ready: bool,
    input: u8,
    out: u8,
    vector: u8,
}
impl Chan {
    fn new(which: u32) -> Chan {
        Chan { dev: Dev::new(which), output: false, asked: false, on: false, pend: false, ready: true, input: 0, out: 0, vector: 0 }
    }
    fn taken(&mut self) {
        self.pend |= self.on;
    }
    fn poll(&mut self, ts: u32) -> bool {
        if self.ready {
            if self.output {
                if self.dev.was_strobe(ts) {
                    self.ready = false;
                    self.taken()
                }
            } else if let Some(d) = self.dev.try_sample_data(ts) {
                self.input = d;
                self.ready = false;
                self.taken()
            }
        }
        self.pend
    }
    fn read(&mut self, ts: u32) -> u8 {
        if self.output {
            return self.out;
        }
        self.dev.ready(ts + if self.ready { 3 } else { 1 });
        self.ready = true;
        self.input
    }
    fn data(&mut self, d: u8, ts: u32) {
        self.out = d;
        if !self.output {
            return;
        }
        let busy = self.ready && !self.dev.was_strobe(ts);
        if self.ready && !busy {
            self.taken()
        }
        self.ready = true;
        self.dev.ready_with_data(d, ts + if busy { 3 } else { 1 });
    }
    fn control(&mut self, d: u8, ts: u32) {
        if d & 1 == 0 {
            self.vector = d
        } else if d & 15 == 15 {
            self.output = d >> 6 == 0;
            self.ready = !self.output;
            if self.output {
                self.dev.set_bus_data(self.out, ts)
            } else {
                self.dev.set_floating_bus(ts)
            }
        } else if d & 15 == 3 {
            if d & 0x80 != 0 {
                if !self.on {
                    self.asked = true
                }
            } else {
                self.asked = false;
                self.on = false;
                self.pend = false;
            }
        }
    }
    fn fetch(&mut self) {
        self.on |= self.asked;
        self.asked = false;
    }
    fn clear(&mut self, ts: u32) {
        self.output = false;
        self.asked = false;
        self.on = false;
        self.pend = false;
        self.ready = true;
        self.input = 0;
        self.out = 0;
        self.dev.set_floating_bus(ts)
    }
}
/// not emulated, as documented: bidirectional and bit modes, interrupt masks
fn unsupported(d: u8) -> bool {
    d & 15 == 15 && d >= 0x80 || d & 15 == 7
}

const SEL_CH: u32 = 6;
const SEL_CT: u32 = 1;
const MASK: u16 = 0x0300;
const BITS: u16 = 0x0100;

/// the port and its model side by side
struct Pair {
    p: Pio<u32, Dev, Dev, Next>,
    a: Chan,
    b: Chan,
    serving: bool,
}
impl Pair {
    fn new() -> Pair {
        let p = Pio::new(Dev::new(0), Dev::new(1), Next::new()).with_port_bits(MASK, BITS, SEL_CH, SEL_CT);
        Pair { p, a: Chan::new(0), b: Chan::new(1), serving: false }
    }
    /// vectors, modes, interrupts: any of both channels
    fn enabled() -> Pair {
        let mut s = Pair::new();
        for (i, v) in [(300, b8(301) & 0xFE), (302, if b1(303) { 0x0F } else { 0x4F }), (304, 0x83)] {
            if b1(i) {
                s.p.write_io(BITS | 1 << SEL_CT, v, 1);
                s.a.control(v, 1);
            }
        }
        for (i, v) in [(310, b8(311) & 0xFE), (312, if b1(313) { 0x0F } else { 0x4F }), (314, 0x83)] {
            if b1(i) {
                s.p.write_io(BITS | 1 << SEL_CT | 1 << SEL_CH, v, 1);
                s.b.control(v, 1);
            }
        }
        s.p.m1(2);
        s.a.fetch();
        s.b.fetch();
        s
    }
    /// any operation
    fn step(&mut self, s: u32) {
        self.op(s, b8(100 + 10 * s) & 15)
    }
    /// polling, acknowledging, ending interrupts
    fn irq(&mut self, s: u32) {
        self.op(
            s,
            match b8(100 + 10 * s) & 3 {
                0 | 1 => 5,
                2 => 7,
                _ => 9,
            },
        )
    }
    fn op(&mut self, s: u32, op: u8) {
        let Pair { p, a, b, serving } = self;
        let i = 100 + 10 * s;
        let (port, d, ts) = (b16(i + 1), b8(i + 2), b32(i + 3) & 0xFFFF);
        for x in [p.pio_device_a(), &mut a.dev] {
            x.log = Log::new();
            x.step = s;
        }
        for x in [p.pio_device_b(), &mut b.dev] {
            x.log = Log::new();
            x.step = s;
        }
        *p.next_device() = Next::at(s);
        let mut next = Next::at(s);
        let mine = port & MASK == BITS;
        let (chb, ctl) = (port >> SEL_CH & 1 == 1, port >> SEL_CT & 1 == 1);
        match op {
            0 | 1 | 2 => {
                if !(mine && ctl && unsupported(d)) {
                    let (br, ws) = p.write_io(port, d, ts);
                    let (br2, ws2) = if mine {
                match (chb, ctl) {
                            (false, false) => a.data(d, ts),
                            (false, true) => a.control(d, ts),
                            (true, false) => b.data(d, ts),
                            (true, true) => b.control(d, ts),
                        }
                        (None, None)
                    } else {
                        next.write_io(port, d, ts)
                    };
                    eq!("break", br.is_some(), br2.is_some());
                    eq!("wait states", ws.map(|x| x.get()).unwrap_or(0), ws2.map(|x| x.get()).unwrap_or(0));
                }
            }
            3 | 4 => {
                let (v, ws) = p.read_io(port, ts);
                let (v2, ws2) = if mine {
                    (if chb { b.read(ts) } else { a.read(ts) }, None)
                } else {
                    next.read_io(port, ts)
                };
                eq!("data read", v, v2);
                eq!("wait states", ws.map(|x| x.get()).unwrap_or(0), ws2.map(|x| x.get()).unwrap_or(0));
            }
            5 | 6 => {
                // the first in the chain that has something to say
                let q = p.is_irq(ts);
                let q2 = !*serving && (a.poll(ts) || b.poll(ts) || next.is_irq(ts));
                eq!("interrupt line", q, q2);
            }
            7 | 8 => {
                let (v, ws) = p.irq_data(port, ts);
                let (v2, ws2) = if a.pend {
                    a.pend = false;
                    *serving = true;
                    (a.vector, None)
                } else if b.pend {
                    b.pend = false;
                    *serving = true;
                    (b.vector, None)
                } else {
                    next.irq_data(port, ts)
                };
                eq!("vector", v, v2);
                eq!("wait states", ws.map(|x| x.get()).unwrap_or(0), ws2.map(|x| x.get()).unwrap_or(0));
            }
            9 | 10 => {
                let r = p.reti(port, ts);
                let r2 = if *serving {
                    *serving = false;
                    None
                } else {
                    next.reti(port, ts)
                };
                eq!("reti", r.is_some(), r2.is_some());
            }
            11 | 12 => {
                p.m1(ts);
                a.fetch();
                b.fetch();
                next.m1(ts);
            }
            13 => {
                p.frame_end(ts);
                a.poll(ts);
                b.poll(ts);
                next.frame_end(ts);
            }
            14 => {
                p.next_second(ts);
                next.next_second(ts);
            }
            _ => {
                p.reset(ts);
                a.clear(ts);
                b.clear(ts);
                *serving = false;
                next.reset(ts);
            }
        }
        p.pio_device_a().log.same(&a.dev.log);
        p.pio_device_b().log.same(&b.dev.log);
        p.next_device().same(&next);
    }
}

/// answers when asked, if it can
pub struct Wire {
    put: [u8; 4],
    n: usize,
    calls: u32,
}
impl Wire {
    fn new() -> Wire {
        Wire { put: [0; 4], n: 0, calls: 0 }
    }
}
impl PioSink for Wire {
    fn flush(&mut self, d: u8) -> bool {
        self.calls += 1;
        let ok = b1(400 + self.n as u32);
        if ok {
            self.put[0] = d;
        }
        ok
    }
}
impl PioStream for Wire {
    fn slurp(&mut self) -> Option<u8> {
        self.calls += 1;
        if b1(400) {
            Some(b8(401))
        } else {
            None
        }
    }
}

pub mod zu_c37 {
    pub mod history {
        use super::super::*;
        pub fn of_1() {
            let mut p = Pair::new();
            p.step(0);
        }
        pub fn of_2() {
            let mut p = Pair::new();
            p.step(0);
            p.step(1);
        }
        pub fn of_3() {
            let mut p = Pair::new();
            p.step(0);
            p.step(1);
            p.step(2);
        }
        pub fn of_4() {
            let mut p = Pair::new();
            p.step(0);
            p.step(1);
            p.step(2);
            p.step(3);
        }
    }
    /// the same, interrupts having been enabled before
    pub mod serving {
        use super::super::*;
        pub fn of_1() {
            let mut p = Pair::enabled();
            p.step(0);
        }
        pub fn of_2() {
            let mut p = Pair::enabled();
            p.step(0);
            p.step(1);
        }
        pub fn of_3() {
            let mut p = Pair::enabled();
            p.step(0);
            p.step(1);
            p.step(2);
        }
        pub fn deep_interrupts() {
            let mut p = Pair::enabled();
            p.irq(0);
            p.irq(1);
            p.irq(2);
            p.irq(3);
            p.irq(4);
            p.irq(5);
            p.irq(6);
        }
        pub fn interrupts() {
            let mut p = Pair::enabled();
            p.irq(0);
            p.irq(1);
            p.irq(2);
            p.irq(3);
            p.irq(4);
        }
    }
    /// longer ones, by the kinds of the operations they begin with
    pub mod deep {
        use super::super::*;
        fn history(enabled: bool, a: u8, b: u8) {
            let mut p = if enabled { Pair::enabled() } else { Pair::new() };
            p.op(0, a);
            p.op(1, b);
            p.step(2);
            p.step(3);
            if !enabled && (a > 0 || b > 0) {
                p.step(4);
            }
        }
        macro_rules! twos { ($($m:ident $a:literal;)*) => { $( pub mod $m {
            twos! {$a: deep_0 0; deep_3 3; deep_5 5; deep_7 7; deep_9 9; deep_11 11; deep_13 13; deep_14 14; deep_15 15;}
        } )* };
        ($a:literal: $($n:ident $b:literal;)*) => {
            pub mod fresh { $( pub fn $n() { super::super::history(false, $a, $b) } )* }
            pub mod enabled { $( pub fn $n() { super::super::history(true, $a, $b) } )* }
        } }
        twos! {o0 0; o3 3; o5 5; o7 7; o9 9; o11 11; o13 13; o14 14; o15 15;}
    }
    pub mod devices {
        use super::super::*;
        /// data is taken from the stream only while the channel is ready for it
        pub fn input() {
            let mut d = PioInput::new(Wire::new());
            let mut ready = false;
            for s in 0..4u32 {
                match b8(100 + s) & 3 {
                    0 => {
                        d.set_floating_bus(b32(110));
                        ready = true;
                    }
                    1 => {
                        d.set_bus_data(b8(111), b32(110));
                        ready = false;
                    }
                    2 => {
                        d.ready(b32(110));
                        ready = true;
                    }
                    _ => {
                        let v = d.try_sample_data(b32(110));
                        let v2 = if ready && b1(400) { Some(b8(401)) } else { None };
                        ready = ready && v2.is_none();
                        eq!("sampled", v.is_some(), v2.is_some());
                        eq!("data", v.unwrap_or(0), v2.unwrap_or(0));
                    }
                }
            }
            let mut d2 = PioInput::new(Wire::new());
            eq!("not ready", d2.try_sample_data(b32(110)).is_none(), true);
            eq!("stream not consulted", d2.into_inner().calls, 0);
        }
        /// every byte is flushed once, or kept until it can be
        pub fn output() {
            let mut d = PioOutput::new(Wire::new());
            let mut pending: Option<u8> = None;
            let mut last = 0;
            let mut calls = 0;
            for s in 0..4u32 {
                let ok = b1(400);
                match b8(100 + s) & 3 {
                    0 => {
                        d.set_floating_bus(b32(110));
                        pending = None;
                    }
                    1 => d.set_bus_data(b8(111), b32(110)),
                    2 => {
                        let v = b8(120 + s);
                        d.ready_with_data(v, b32(110));
                        calls += 1;
                        if ok {
                            last = v
                        } else {
                            pending = Some(v)
                        }
                    }
                    _ => {
                        let r = d.was_strobe(b32(110));
                        if let Some(v) = pending {
                            calls += 1;
                            if ok {
                                last = v;
                                pending = None
                            }
                        }
                        eq!("strobe", r, pending.is_none());
                    }
                }
            }
            let w = d.into_inner();
            eq!("calls", w.calls, calls);
            eq!("data", w.put[0], last);
        }
    }
}
