//! C36: the daisy chain and the port decoder.
use crate::mock::*;
use crate::*;
use core::num::NonZeroU16;
use ral1243::bus::*;
use z80emu::{Io, Memory};

fn w(o: Option<NonZeroU16>) -> u32 {
    o.map(|n| n.get() as u32).unwrap_or(0)
}
/// a bus answering any port pattern, with and without configuring it
fn bus() -> (Bus<Next, Mem>, u16, u16) {
    let (mask, bits) = (b16(100), b16(100) & b16(101));
    let b = Bus::new(Next::new(), Mem::new());
    if b1(102) {
        (b.with_port_bits(mask, bits), mask, bits)
    } else {
        // everything
        (b, 0, 0)
    }
}
const TS: u32 = 110;
const PORT: u32 = 111;
const DATA: u32 = 112;

pub mod zu_c36 {
    pub mod bus {
        use super::super::*;
        pub fn write_io() {
            let (mut u, mask, bits) = bus();
            let (p, d, t) = (b16(PORT), b8(DATA), b32(TS));
            let (br, ws) = u.write_io(p, d, t);
            let mine = p & mask == bits;
            let (n, m) = u.into_inner();
            let (mut n2, mut m2) = (Next::new(), Mem::new());
            let (br2, ws2) = if mine {
                m2.write_ctrl(d);
                (None, None)
            } else {
                n2.write_io(p, d, t)
            };
            eq!("break", br.is_some(), br2.is_some());
            eq!("wait states", w(ws), w(ws2));
            n.same(&n2);
            m.log.same(&m2.log);
        }
        pub fn read_io() {
            let (mut u, mask, bits) = bus();
            let (p, t) = (b16(PORT), b32(TS));
            let (v, ws) = u.read_io(p, t);
            let mine = p & mask == bits;
            let (n, m) = u.into_inner();
            let (mut n2, m2) = (Next::new(), Mem::new());
            let (v2, ws2) = if mine { (m2.read_ctrl(), None) } else { n2.read_io(p, t) };
            eq!("data", v, v2);
            eq!("wait states", w(ws), w(ws2));
            n.same(&n2);
            m.log.none();
        }
        pub fn interrupt() {
            let (mut u, ..) = bus();
            let (pc, t) = (b16(PORT), b32(TS));
            let mut n2 = Next::new();
            eq!("is_irq", u.is_irq(t), n2.is_irq(t));
            let ((v, ws), (v2, ws2)) = (u.irq_data(pc, t), n2.irq_data(pc, t));
            eq!("irq_data", v, v2);
            eq!("wait states", w(ws), w(ws2));
            eq!("reti", u.reti(pc, t).is_some(), n2.reti(pc, t).is_some());
            let (n, m) = u.into_inner();
            n.same(&n2);
            m.log.none();
        }
        pub fn chain() {
            let (mut u, ..) = bus();
            let t = b32(TS);
            u.reset(t);
            u.next_device().log.only(RESET, 0, t);
            let (mut u, ..) = bus();
            u.frame_end(t);
            u.next_device().log.only(FRAME, 0, t);
            let (mut u, ..) = bus();
            u.m1(t);
            u.next_device().log.only(M1, 0, t);
            let (mut u, ..) = bus();
            u.next_second(t);
            let (n, m) = u.into_inner();
            n.log.only(SECOND, 0, t);
            n.log2.none();
            m.log.none();
        }
        pub fn memory() {
            let (mut u, ..) = bus();
            let (a, d, t) = (b16(PORT), b8(DATA), b32(TS));
            let m2 = Mem::new();
            eq!("read_mem", u.read_mem(a, t), m2.read_mem(a, t));
            eq!("read_mem16", u.read_mem16(a, t), m2.read_mem16(a, t));
            eq!("read_debug", u.read_debug(a), m2.read_debug(a));
            u.memory_ref().log.none();
            u.write_mem(a, d, t);
            u.memory_mut().log.only(WRMEM, a as u32 | (d as u32) << 16, t);
            u.next_device().log.none();
            let (mut u, ..) = bus();
            let ir = b16(113);
            eq!("opcode", u.read_opcode(a, ir, t), b8(900));
            let (n, m) = u.into_inner();
            n.log.only(M1, 0, t);
            m.log.only(OPCODE, a as u32 | (ir as u32) << 16, t);
        }
    }
    pub mod terminator {
        use super::super::*;
        pub fn all() {
            let mut z = Terminator::<u32>::new();
            let (p, d, t) = (b16(PORT), b8(DATA), b32(TS));
            z.reset(t);
            z.frame_end(t);
            z.m1(t);
            z.next_second(t);
            z.next_device().m1(t);
            let (v, ws) = z.read_io(p, t);
            eq!("floating bus", v, 0xFF);
            eq!("wait states", w(ws), 0);
            let (b, ws) = z.write_io(p, d, t);
            eq!("break", b.is_some(), false);
            eq!("wait states", w(ws), 0);
            eq!("is_irq", z.is_irq(t), false);
            let (v, ws) = z.irq_data(p, t);
            eq!("irq_data", v, 0xFF);
            eq!("wait states", w(ws), 0);
            eq!("reti", z.reti(p, t).is_some(), false);
            eq!("bit8", bit8(b8(114) as u32 & 7), 1u32 << (b8(114) & 7));
        }
    }
    pub mod pio {
        use super::super::*;
        use crate::pio::*;
        use ral1243::pio::Pio;
        /// any configuration `with_port_bits` accepts
        pub fn decode() {
            let p0 = Pio::new(Dev::new(0), Dev::new(1), Next::new());
            let (s1, s0) = (b8(103) as u32 & 15, b8(104) as u32 & 15);
            let mask = b16(100) & !(1 << s1) & !(1 << s0);
            let bits = mask & b16(101);
            if s0 == s1 {
                eq!("nothing", 0, 0);
                return;
            }
            let mut p = p0.with_port_bits(mask, bits, s1, s0);
            let (port, t) = (b16(PORT), b32(TS) >> 1);
            if port & mask == bits {
                // the channel's input latch, whatever the other select bit
                let (v, ws) = p.read_io(port, t);
                eq!("data", v, 0);
                eq!("wait states", w(ws), 0);
                let b = port >> s1 & 1 == 1;
                eq!("channel A read", p.pio_device_a().log.n[READY], !b);
                eq!("channel B read", p.pio_device_b().log.n[READY], b);
                // select output
                let (br, ws) = p.write_io(port, 0x0F, t);
                eq!("break", br.is_some(), false);
                eq!("wait states", w(ws), 0);
                let c = port >> s0 & 1 == 1;
                eq!("channel A control", p.pio_device_a().log.n[BUSDATA], !b & c);
                eq!("channel B control", p.pio_device_b().log.n[BUSDATA], b & c);
                p.into_inner().2.same(&Next::new());
            } else {
                let mut n2 = Next::new();
                let ((v, ws), (v2, ws2)) = (p.read_io(port, t), n2.read_io(port, t));
                eq!("data", v, v2);
                eq!("wait states", w(ws), w(ws2));
                let ((v, ws), (v2, ws2)) = (p.write_io(port, b8(DATA), t), n2.write_io(port, b8(DATA), t));
                eq!("break", v.is_some(), v2.is_some());
                eq!("wait states", w(ws), w(ws2));
                let (x, y, n) = p.into_inner();
                x.log.none();
                y.log.none();
                n.same(&n2);
            }
        }
    }
}
