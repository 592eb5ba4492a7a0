//! C38: the counter/timer against a model that counts clock periods one by one.
use crate::mock::*;
use crate::*;
use ral1243::bus::BusDevice;
use ral1243::ctc::*;
use z80emu::Io;

/// CLK/TRG edges at given times, each either rising or falling
pub struct Line {
    pub zc: Log,
    t: [u32; 3],
    up: [bool; 3],
    gone: [bool; 3],
}
const NEVER: u32 = u32::MAX;
impl Line {
    fn quiet() -> Line {
        Line { zc: Log::new(), t: [NEVER; 3], up: [false; 3], gone: [true; 3] }
    }
    fn hint(&self) -> u32 {
        if !self.gone[0] {
            self.t[0]
        } else if !self.gone[1] {
            self.t[1]
        } else if !self.gone[2] {
            self.t[2]
        } else {
            NEVER
        }
    }
    fn pass(&mut self, k: usize, up: bool, ts: u32) -> bool {
        if !self.gone[k] && self.t[k] <= ts {
            self.gone[k] = true;
            self.up[k] == up
        } else {
            false
        }
    }
}
impl CtcTrigger for Line {
    type Timestamp = u32;
    fn next_clk_trg(&mut self, up: bool, ts: u32) -> Result<u32, u32> {
        if self.pass(0, up, ts) {
            Ok(self.t[0])
        } else if self.pass(1, up, ts) {
            Ok(self.t[1])
        } else if self.pass(2, up, ts) {
            Ok(self.t[2])
        } else {
            Err(self.hint())
        }
    }
    fn purge_clk_trg(&mut self, ts: u32) -> u32 {
        self.pass(0, true, ts);
        self.pass(1, true, ts);
        self.pass(2, true, ts);
        self.hint()
    }
    fn zc_to_pulse(&mut self, ts: u32) {
        self.zc.put(0, 0, ts)
    }
    fn next_second(&mut self, d: u32) {
        self.zc.put(1, 0, d);
        for k in 0..3 {
            self.t[k] = self.t[k].saturating_sub(d)
        }
    }
}

/// the specification of a channel
struct Chan {
    counter: bool,
    fast: bool,
    /// time constant
    restart: Option<u8>,
    load: bool,
    cur: u8,
    /// T-states times 16 (fast) or 1 to the next decrement
    sub: u16,
    /// the timer has counted up to here
    ticked: Option<u32>,
    by_trigger: bool,
    armed: Option<u32>,
    ints: bool,
    pend: bool,
    up: bool,
    zc: Log,
}
impl Chan {
    fn new() -> Chan {
        Chan { counter: false, fast: false, restart: None, load: false, cur: 0, sub: 256, ticked: None, by_trigger: false, armed: None, ints: false, pend: false, up: false, zc: Log::new() }
    }
    fn down(&mut self, r: u8, ts: u32) {
        self.cur = self.cur.wrapping_sub(1);
        if self.cur == 0 {
            self.cur = r;
            self.pend |= self.ints;
            self.zc.put(0, 0, ts)
        }
    }
    fn tick(&mut self, ts: u32) {
        if let (Some(r), Some(t)) = (self.restart, self.ticked) {
            if t < ts && !self.counter {
                self.ticked = Some(t + 1);
                self.sub -= if self.fast { 16 } else { 1 };
                if self.sub == 0 {
                    self.sub = 256;
                    self.down(r, t + 1)
                }
            }
        }
    }
    /// everything up to `ts`; at most one edge, and at most 16 T-states since
    fn until(&mut self, edge: Option<(u32, bool)>, ts: u32) {
        if let (Some(r), Some((e, up))) = (self.restart, edge) {
            if up == self.up {
                if self.counter {
                    self.down(r, e)
                } else if self.ticked.is_none() {
                    if let Some(a) = self.armed {
                        if e >= a {
                            self.ticked = Some(e + 1)
                        }
                    }
                }
            }
        }
        self.tick(ts);
        self.tick(ts);
        self.tick(ts);
        self.tick(ts);
        self.tick(ts);
        self.tick(ts);
        self.tick(ts);
        self.tick(ts);
        self.tick(ts);
        self.tick(ts);
        self.tick(ts);
        self.tick(ts);
        self.tick(ts);
        self.tick(ts);
        self.tick(ts);
        self.tick(ts);
    }
    fn idle(&mut self) {
        self.restart = None;
        self.ticked = None;
        self.armed = None;
        self.sub = 256;
    }
    /// whether the word was not the vector
    fn write(&mut self, d: u8, ts: u32) -> bool {
        if self.load {
            self.load = false;
            if self.restart.is_none() {
                self.cur = d
            }
            self.restart = Some(d);
            if !self.counter && self.ticked.is_none() {
                if self.by_trigger {
                    self.armed = Some(ts)
                } else {
                    self.ticked = Some(ts + 1)
                }
            }
            return true;
        }
        if d & 1 == 0 {
            return false;
        }
        if d & 2 != 0 {
            self.idle()
        }
        self.load = d & 4 != 0;
        self.fast = d & 0x20 == 0;
        self.ints = d & 0x80 != 0;
        self.pend &= self.ints;
        let go = self.restart.is_some() && !self.load;
        let was = self.counter;
        self.counter = d & 0x40 != 0;
        if self.counter && !was {
            self.ticked = None;
            self.armed = None
        }
        if !self.counter {
            let t = d & 8 != 0;
            if was && go {
                if t {
                    self.armed = Some(ts)
                } else {
                    self.ticked = Some(ts + 1)
                }
            }
            if t {
                self.by_trigger = true
            } else if self.by_trigger {
                if self.ticked.is_none() && go {
                    self.ticked = Some(ts + 1)
                }
                self.armed = None;
                self.by_trigger = false
            }
        }
        let up = d & 0x10 != 0;
        if up != self.up {
            // as good as an edge
            self.up = up;
            if let Some(r) = self.restart {
                if self.counter {
                    self.down(r, ts)
                } else if self.ticked.is_none() {
                    if let Some(a) = self.armed {
                        if ts >= a {
                            self.ticked = Some(ts + 1)
                        }
                    }
                }
            }
        }
        true
    }
    fn clear(&mut self) {
        self.idle();
        self.counter = false;
        self.load = false;
        self.ints = false;
        self.pend = false;
    }
}

const S1: u32 = 7;
const S0: u32 = 0;
const MASK: u16 = 0x0300;
const BITS: u16 = 0x0200;
type Rig = Ctc<u32, Line, Line, Line, Line, Next>;

/// one channel of four in use
struct Pair {
    p: Rig,
    c: Chan,
    vector: u8,
    serving: bool,
    now: u32,
    /// the channel is looked at before anything else
    fresh: bool,
}
fn port<const N: u16>() -> u16 {
    BITS | (N & 1) << S0 | (N >> 1) << S1
}
impl Pair {
    fn rig<const N: u16>() -> Pair {
        // times of the steps and of the edges
        let mut l = Line::quiet();
        let mut now = 100;
        for k in 0..3u32 {
            let i = 200 + 10 * k;
            let gap = (b8(i) & 15) as u32;
            let e = (b8(i + 1) & 15) as u32;
            l.t[k as usize] = now + 1 + e;
            l.up[k as usize] = b1(i + 2);
            l.gone[k as usize] = !(b1(i + 3) && e < gap);
            now += gap;
        }
        let q = Line::quiet;
        let p = match N {
            0 => Ctc::new(l, q(), q(), q(), Next::new()),
            1 => Ctc::new(q(), l, q(), q(), Next::new()),
            2 => Ctc::new(q(), q(), l, q(), Next::new()),
            _ => Ctc::new(q(), q(), q(), l, Next::new()),
        };
        let mut p = p.with_port_bits(MASK, BITS, S1, S0);
        // it may have been idle for some time
        if b1(199) {
            p.m1(99);
            p.is_irq(99);
            *p.next_device() = Next::new();
        }
        Pair { p, c: Chan::new(), vector: 0, serving: false, now: 100, fresh: false }
    }
    fn write<const N: u16>(&mut self, d: u8, ts: u32) {
        let (br, ws) = self.p.write_io(port::<N>(), d, ts);
        eq!("break", br.is_some(), false);
        eq!("wait states", ws.is_some(), false);
        if !self.c.write(d, ts) {
            self.vector = d & 0xF8
        }
    }
    fn line<const N: u16>(&mut self) -> &mut Line {
        match N {
            0 => self.p.ctc0_trigger(),
            1 => self.p.ctc1_trigger(),
            2 => self.p.ctc2_trigger(),
            _ => self.p.ctc3_trigger(),
        }
    }
    /// time passes, then any operation
    fn step<const N: u16, const S: u32>(&mut self) {
        self.op::<N, S>(b8(300 + 10 * S) & 7)
    }
    /// time passes, then anything but writing and resetting
    fn quiet<const N: u16, const S: u32>(&mut self) {
        self.op::<N, S>(match b8(300 + 10 * S) & 3 {
            0 => 3,
            1 => 4,
            2 => 5,
            _ => 6,
        })
    }
    fn op<const N: u16, const S: u32>(&mut self, op: u8) {
        let i = 200 + 10 * S;
        let gap = (b8(i) & 15) as u32;
        let e = (b8(i + 1) & 15) as u32;
        let edge = if b1(i + 3) && e < gap { Some((self.now + 1 + e, b1(i + 2))) } else { None };
        self.now += gap;
        let ts = self.now;
        *self.p.next_device() = Next::at(S);
        self.p.m1(ts);
        if self.fresh {
            self.p.read_io(port::<N>(), ts);
        }
        self.c.until(edge, ts);
        self.p.next_device().log.only(M1, 0, ts);
        *self.p.next_device() = Next::at(S);
        let mut next = Next::at(S);
        let pc = b16(301 + 10 * S);
        match op {
            0 | 1 => {
                let d = b8(302 + 10 * S);
                // the prescaler is changed only along with a reset
                let odd = d & 1 != 0 && d & 2 == 0 && (d & 0x20 == 0) != self.c.fast && !self.c.load;
                if !odd {
                    self.write::<N>(d, ts)
                }
            }
            2 | 3 => {
                let (v, ws) = self.p.read_io(port::<N>(), ts);
                eq!("counter", v, self.c.cur);
                eq!("wait states", ws.is_some(), false);
            }
            4 => eq!("interrupt line", self.p.is_irq(ts), !self.serving && (self.c.pend || next.is_irq(ts))),
            5 => {
                let (v, ws) = self.p.irq_data(pc, ts);
                let (v2, ws2) = if self.c.pend {
                    self.c.pend = false;
                    self.serving = true;
                    (self.vector | (N as u8) << 1, None)
                } else {
                    self.serving = false;
                    next.irq_data(pc, ts)
                };
                eq!("vector", v, v2);
                eq!("wait states", ws.map(|x| x.get()).unwrap_or(0), ws2.map(|x| x.get()).unwrap_or(0));
            }
            6 => {
                let r = self.p.reti(pc, ts);
                let r2 = if self.serving {
                    self.serving = false;
                    None
                } else {
                    next.reti(pc, ts)
                };
                eq!("reti", r.is_some(), r2.is_some());
            }
            _ => {
                self.p.reset(ts);
                self.c.clear();
                self.serving = false;
                next.reset(ts);
            }
        }
        self.p.next_device().same(&next);
    }
    fn end<const N: u16>(&mut self) {
        let ts = self.now;
        *self.p.next_device() = Next::at(9);
        let mut next = Next::at(9);
        self.p.frame_end(ts);
        next.frame_end(ts);
        self.p.next_device().same(&next);
        eq!("counter", self.p.read_io(port::<N>(), ts).0, self.c.cur);
        eq!("interrupt line", self.p.is_irq(ts), !self.serving && (self.c.pend || next.is_irq(ts)));
        let z = self.line::<N>().zc;
        z.same(&self.c.zc);
    }
}
fn history1<const N: u16>() {
    let mut p = Pair::rig::<N>();
    p.step::<N, 0>();
    p.end::<N>();
}
fn history2<const N: u16>() {
    let mut p = Pair::rig::<N>();
    p.step::<N, 0>();
    p.step::<N, 1>();
    p.end::<N>();
}
fn history3<const N: u16>() {
    let mut p = Pair::rig::<N>();
    p.step::<N, 0>();
    p.step::<N, 1>();
    p.step::<N, 2>();
    p.end::<N>();
}
/// counting already
fn counter<const N: u16>() {
    let mut p = Pair::rig::<N>();
    p.write::<N>(b8(400) & 0xF8, 100);
    p.write::<N>(0x47 | b8(401) & 0xB0, 100);
    p.write::<N>(b8(402), 100);
    p.quiet::<N, 0>();
    p.quiet::<N, 1>();
    p.end::<N>();
}
fn timer<const N: u16, const FAST: bool>(tc: u8) {
    timed::<N, FAST>(tc, false)
}
fn timed<const N: u16, const FAST: bool>(tc: u8, fresh: bool) {
    let mut p = Pair::rig::<N>();
    p.fresh = fresh;
    p.write::<N>(b8(400) & 0xF8, 100);
    p.write::<N>(if FAST { 7 } else { 0x27 } | b8(401) & 0x80, 100);
    p.write::<N>(tc, 100);
    p.quiet::<N, 0>();
    p.quiet::<N, 1>();
    p.end::<N>();
}
/// set up and running for a while, then a control word and what follows it
fn change<const N: u16>(word: u8, tc: u8, then: u8) {
    changed::<N>(word, tc, then, false)
}
fn changed<const N: u16>(word: u8, tc: u8, then: u8, fresh: bool) {
    let mut p = Pair::rig::<N>();
    p.fresh = fresh;
    p.write::<N>(word, 100);
    p.write::<N>(tc, 100);
    p.op::<N, 0>(4);
    let ts = p.now;
    p.write::<N>(then, ts);
    p.op::<N, 1>(4);
    let ts = p.now;
    p.write::<N>(2, ts);
    p.quiet::<N, 2>();
    p.end::<N>();
}
/// the chip awaits no event, then a timer is started: at its zero it asks
/// for an interrupt (recorded finding: not before an event of another kind)
fn wakes<const N: u16>() {
    let q = Line::quiet;
    let mut p = Ctc::new(q(), q(), q(), q(), Next::new()).with_port_bits(MASK, BITS, S1, S0);
    p.m1(99);
    p.write_io(port::<N>(), 0x87, 100);
    p.write_io(port::<N>(), 1, 100);
    eq!("not yet", p.is_irq(116), Next::new().is_irq(116));
    *p.next_device() = Next::new();
    eq!("interrupt in time", p.is_irq(117), true);
}
/// a second passes in between
fn seconds<const N: u16>(p: &mut Pair) {
    p.quiet::<N, 0>();
    *p.p.next_device() = Next::new();
    p.p.next_second(50);
    p.p.next_device().log.only(SECOND, 0, 50);
    p.now -= 50;
    p.c.zc.put(1, 0, 50);
    p.c.ticked = p.c.ticked.map(|t| t - 50);
    p.c.armed = p.c.armed.map(|t| t - 50);
    p.quiet::<N, 1>();
    p.end::<N>();
}
fn second_counter<const N: u16>() {
    let mut p = Pair::rig::<N>();
    p.write::<N>(0xC7 | b8(401) & 0x10, 100);
    p.write::<N>(b8(402), 100);
    seconds::<N>(&mut p);
}
fn second_timer<const N: u16>() {
    let mut p = Pair::rig::<N>();
    p.write::<N>(0x87 | b8(401) & 0x18, 100);
    p.write::<N>(2, 100);
    seconds::<N>(&mut p);
}
/// a line with at most one rising edge
fn single(i: u32) -> Line {
    let mut l = Line::quiet();
    l.t[0] = 101;
    l.up[0] = true;
    l.gone[0] = !b1(i);
    l
}
/// all four channels may ask for an interrupt; they are answered in turn
fn turn<const S: u32>(p: &mut Rig, w: &mut [bool; 4], v: u8) {
    *p.next_device() = Next::at(S);
    let mut next = Next::at(S);
    let any = w[0] || w[1] || w[2] || w[3];
    eq!("interrupt line", p.is_irq(110), any || next.is_irq(110));
    let a = p.irq_data(7, 110).0;
    if w[0] {
        w[0] = false;
        eq!("vector of channel 0", a, v);
    } else if w[1] {
        w[1] = false;
        eq!("vector of channel 1", a, v | 2);
    } else if w[2] {
        w[2] = false;
        eq!("vector of channel 2", a, v | 4);
    } else if w[3] {
        w[3] = false;
        eq!("vector of channel 3", a, v | 6);
    } else {
        eq!("vector of the others", a, next.irq_data(7, 110).0);
    }
    // while it is served no other
    eq!("interrupt line while serving", p.is_irq(111), if any { false } else { next.is_irq(111) });
    let r = p.reti(9, 112);
    eq!("reti", r.is_some(), if any { false } else { next.reti(9, 112).is_some() });
    p.next_device().same(&next);
}
fn priority() {
    let mut p = Ctc::new(single(10), single(11), single(12), single(13), Next::new()).with_port_bits(MASK, BITS, S1, S0);
    let v = b8(14) & 0xF8;
    p.write_io(port::<2>(), v, 100);
    p.write_io(port::<0>(), 0xD7, 100);
    p.write_io(port::<0>(), 1, 100);
    p.write_io(port::<1>(), 0xD7, 100);
    p.write_io(port::<1>(), 1, 100);
    p.write_io(port::<2>(), 0xD7, 100);
    p.write_io(port::<2>(), 1, 100);
    p.write_io(port::<3>(), 0xD7, 100);
    p.write_io(port::<3>(), 1, 100);
    let mut w = [b1(10), b1(11), b1(12), b1(13)];
    turn::<0>(&mut p, &mut w, v);
    turn::<1>(&mut p, &mut w, v);
    turn::<2>(&mut p, &mut w, v);
    turn::<3>(&mut p, &mut w, v);
    turn::<4>(&mut p, &mut w, v);
}
/// any port mask: which channel answers
fn ports<const H: u32, const L: u32>() {
    let sel = 1 << H | 1 << L;
    let mask = b16(10) & !sel;
    let bits = b16(11) & mask;
    let q = Line::quiet;
    let mut p = Ctc::new(q(), q(), q(), q(), Next::new()).with_port_bits(mask, bits, H, L);
    let c = [bits, bits | 1 << L, bits | 1 << H, bits | sel];
    p.write_io(c[0], 7, 1);
    p.write_io(c[0], 0x10, 1);
    p.write_io(c[1], 7, 1);
    p.write_io(c[1], 0x21, 1);
    p.write_io(c[2], 7, 1);
    p.write_io(c[2], 0x32, 1);
    p.write_io(c[3], 7, 1);
    p.write_io(c[3], 0x43, 1);
    p.next_device().log.none();
    let a = b16(12);
    let mine = a & mask == bits;
    *p.next_device() = Next::new();
    let mut next = Next::new();
    let (x, ws) = p.read_io(a, 2);
    if mine {
        eq!("channel", x, match (a >> H & 1, a >> L & 1) { (0, 0) => 0x10, (0, _) => 0x21, (_, 0) => 0x32, _ => 0x43 });
        eq!("wait states", ws.is_some(), false);
    } else {
        let (y, w2) = next.read_io(a, 2);
        eq!("forwarded", x, y);
        eq!("wait states", ws.map(|x| x.get()).unwrap_or(0), w2.map(|x| x.get()).unwrap_or(0));
    }
    let d = b8(13);
    let (b, ws) = p.write_io(a, d, 3);
    if mine {
        eq!("break", b.is_some(), false);
        eq!("wait states", ws.is_some(), false);
    } else {
        let (b2, w2) = next.write_io(a, d, 3);
        eq!("break", b.is_some(), b2.is_some());
        eq!("wait states", ws.map(|x| x.get()).unwrap_or(0), w2.map(|x| x.get()).unwrap_or(0));
    }
    p.next_device().same(&next);
}

pub mod zu_c38 {
    pub mod chip {
        pub fn priority() { super::super::priority() }
        pub fn ports_a() { super::super::ports::<7, 0>() }
        pub fn ports_b() { super::super::ports::<8, 15>() }
        pub fn ports_c() { super::super::ports::<3, 4>() }
    }
    pub mod channel {
        macro_rules! ch { ($($m:ident $n:literal;)*) => { $( pub mod $m {
            use super::super::super::*;
            pub fn history_1() { history1::<$n>() }
            pub fn history_2() { history2::<$n>() }
            pub fn deep_history_3() { history3::<$n>() }
            pub fn deep_timing_x16_3() { timer::<$n, true>(3) }
            pub fn deep_timing_x16_7() { timer::<$n, true>(7) }
            pub fn deep_timing_x256_2() { timer::<$n, false>(2) }
            pub fn deep_timing_x256_256() { timer::<$n, false>(0) }
            pub fn counting() { counter::<$n>() }
            pub fn counter_to_counter() { change::<$n>(0xD7, 3, 0xC1 | b8(402) & 0x96) }
            pub fn counter_to_timer() { change::<$n>(0xD7, 3, 0x81 | b8(402) & 0x9E) }
            pub fn timer_to_counter() { changed::<$n>(0x97 | b8(401) & 8, 2, 0xC1 | b8(402) & 0x96, true) }
            pub fn timer_auto_to_timer_auto() { changed::<$n>(0x97, 2, 0x81 | b8(402) & 0x96, true) }
            pub fn timer_auto_to_timer_armed() { changed::<$n>(0x97, 2, 0x89 | b8(402) & 0x96, true) }
            pub fn timer_armed_to_timer_auto() { changed::<$n>(0x9F, 2, 0x81 | b8(402) & 0x96, true) }
            pub fn timer_armed_to_timer_armed_same() { changed::<$n>(0x9F, 2, 0x99 | b8(402) & 0x84, true) }
            pub fn timer_armed_to_timer_armed_same_reset() { changed::<$n>(0x9F, 2, 0x9B | b8(402) & 0x84, true) }
            pub fn timer_armed_to_timer_armed_other() { changed::<$n>(0x9F, 2, 0x89 | b8(402) & 0x84, true) }
            pub fn timer_armed_to_timer_armed_other_reset() { changed::<$n>(0x9F, 2, 0x8B | b8(402) & 0x84, true) }
            pub fn slow_timer_auto_to_timer_auto() { changed::<$n>(0xB7, 2, 0xA1 | b8(402) & 0x96, true) }
            pub fn slow_timer_auto_to_timer_armed() { changed::<$n>(0xB7, 2, 0xA9 | b8(402) & 0x96, true) }
            pub fn slow_timer_armed_to_timer_auto() { changed::<$n>(0xBF, 2, 0xA1 | b8(402) & 0x96, true) }
            pub fn slow_timer_armed_to_timer_armed_same() { changed::<$n>(0xBF, 2, 0xB9 | b8(402) & 0x84, true) }
            pub fn slow_timer_armed_to_timer_armed_same_reset() { changed::<$n>(0xBF, 2, 0xBB | b8(402) & 0x84, true) }
            pub fn slow_timer_armed_to_timer_armed_other() { changed::<$n>(0xBF, 2, 0xA9 | b8(402) & 0x84, true) }
            pub fn slow_timer_armed_to_timer_armed_other_reset() { changed::<$n>(0xBF, 2, 0xAB | b8(402) & 0x84, true) }
            pub fn seconds_counting() { second_counter::<$n>() }
            pub fn seconds_timing() { second_timer::<$n>() }
            pub fn timing_x16_1() { timed::<$n, true>(1, true) }
            pub fn wakes_for_a_new_timer() { wakes::<$n>() }
            pub fn timing_x16_2() { timer::<$n, true>(2) }
            pub fn timing_x16_256() { timer::<$n, true>(0) }
            pub fn timing_x256_1() { timer::<$n, false>(1) }
        } )* } }
        ch! { c0 0; c1 1; c2 2; c3 3; }
    }
}
