//! C38: the clock line and the chained pulse line.
use crate::*;
use ral1243::ctc::CtcTrigger;
use ral1243::ctc_trigger::*;

/// edges of a clock of half-period `h`, the first at `h`, rising first
struct Clock {
    h: u32,
    last: u32,
    up: bool,
}
impl Clock {
    fn tick(&mut self) -> bool {
        self.last += self.h;
        self.up = !self.up;
        self.up
    }
    fn next(&mut self, up: bool, ts: u32) -> Result<u32, u32> {
        // of two consecutive edges one fits
        for _ in 0..2 {
            if self.last + self.h > ts {
                return Err(self.last + self.h);
            }
            if self.tick() == up {
                return Ok(self.last);
            }
        }
        unreachable!()
    }
    fn purge(&mut self, ts: u32) {
        // up to 3 * 15 clocks: 11 edges
        for _ in 0..12 {
            if self.last + self.h <= ts {
                self.tick();
            }
        }
    }
}
/// `fit`: the time of the next edge of the wanted direction
fn same(a: Result<u32, u32>, b: Result<u32, u32>, ts: u32, fit: u32) {
    eq!("edge", a.is_ok(), b.is_ok());
    match (a, b) {
        (Ok(x), Ok(y)) => eq!("time of the edge", x, y),
        // a hint: never late, and in the future
        (Err(x), Err(_)) => {
            eq!("hint in the future", x > ts, true);
            eq!("hint not late", x <= fit, true);
        }
        _ => {}
    }
}
pub mod zu_c38 {
    pub mod line {
        use super::super::*;
        /// up to two half-periods between two calls, a purge after one at most
        pub fn clock() {
            let mut a = CtcActive::<4>::new(8);
            let mut c = Clock { h: 4, last: 0, up: false };
            let mut ts = 0;
            for s in 0..3u32 {
                ts += (b8(100 + 4 * s) & 15) as u32;
                if b1(101 + 4 * s) && ts < c.last + 2 * c.h {
                    let h = a.purge_clk_trg(ts);
                    c.purge(ts);
                    eq!("hint after purging", h, c.last + c.h);
                } else {
                    let up = b1(102 + 4 * s);
                    let x = a.next_clk_trg(up, ts);
                    let y = c.next(up, ts);
                    let fit = if c.up != up { c.last + c.h } else { c.last + 2 * c.h };
                    same(x, y, ts, fit);
                }
            }
            core::mem::forget(a);
        }
        /// the seconds are forgotten in step
        pub fn clock_seconds() {
            let mut a = CtcActive::<4>::new(8);
            let mut c = Clock { h: 4, last: 0, up: false };
            let mut ts = 0;
            for _ in 0..5 {
                ts += 4;
                let h = a.purge_clk_trg(ts);
                c.purge(ts);
                eq!("hint after purging", h, c.last + c.h);
            }
            ts += (b8(100) & 3) as u32;
            a.next_second(16);
            c.last -= 16;
            let ts = ts - 16 + (b8(104) & 15) as u32;
            let up = b1(106);
            let x = a.next_clk_trg(up, ts);
            let y = c.next(up, ts);
            let fit = if c.up != up { c.last + c.h } else { c.last + 2 * c.h };
            same(x, y, ts, fit);
            let ts = ts + (b8(107) & 3) as u32;
            if ts < c.last + 2 * c.h {
                let h = a.purge_clk_trg(ts);
                c.purge(ts);
                eq!("hint after purging", h, c.last + c.h);
            }
            core::mem::forget(a);
        }
        /// (recorded finding: only the first of them)
        pub fn purge_drops_every_edge() {
            let mut a = CtcActive::<4>::new(8);
            eq!("two edges dropped at once", a.purge_clk_trg(9), 12);
            core::mem::forget(a);
        }
        /// pulses of ZC/TO arrive at the next channel: up at the time of the
        /// pulse, down two T-states later
        fn pulses<const K: usize>() {
            let mut a = CtcActive::<3>::new(8);
            let mut p = a.new_passive();
            let mut t = [0u32; 3];
            let mut now = 10;
            for k in 0..K {
                now += 2 + (b8(10 + k as u32) & 15) as u32;
                t[k] = now;
                a.zc_to_pulse(now);
            }
            if b1(20) {
                p.next_second(5);
                for k in 0..3 {
                    t[k] = t[k].saturating_sub(5)
                }
            }
            core::mem::forget(a);
            let up = b1(30);
            let lag = if up { 0 } else { 2 };
            let mut ts = b8(31) as u32 & 63;
            let mut k = 0;
            for s in 0..2u32 {
                ts += b8(32 + 2 * s) as u32 & 15;
                if b1(33 + 2 * s) {
                    let h = p.purge_clk_trg(ts);
                    // what is gone entirely
                    while k < K && t[k] + 2 <= ts {
                        k += 1
                    }
                    if k == K {
                        eq!("nothing to come", h, u32::MAX);
                    } else {
                        eq!("hint in the future", h > ts, true);
                        // never after the next edge of either kind
                        eq!("hint not late", h <= t[k] + 2, true);
                        eq!("hint not after the pulse", h <= t[k] || t[k] <= ts, true);
                    }
                } else {
                    let x = p.next_clk_trg(up, ts);
                    if k < K && t[k] + lag <= ts {
                        eq!("edge", x.is_ok(), true);
                        eq!("time of the edge", x.unwrap_or(0), t[k] + lag);
                        k += 1
                    } else {
                        eq!("edge", x.is_ok(), false);
                        let h = x.err().unwrap_or(0);
                        eq!("hint in the future", h > ts, true);
                        if k < K {
                            eq!("hint not late", h <= t[k] + lag, true);
                        } else {
                            eq!("nothing to come", h, u32::MAX);
                        }
                    }
                }
            }
            core::mem::forget(p);
        }
        pub fn pulses_0() { pulses::<0>() }
        pub fn pulses_1() { pulses::<1>() }
        pub fn pulses_2() { pulses::<2>() }
        pub fn pulses_3() { pulses::<3>() }
    }
}
