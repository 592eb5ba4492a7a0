//! C28: the text of a debug record, in every style, against a reference
//! rendering written from the documentation of `CpuDebug`.
use crate::{b16, b8};
use core::fmt::Write;
use z80emu::disasm::disasm_memory_write_text;
use z80emu::z80::NMOS;
use z80emu::*;

const I_MEM: u32 = 200; // 8 bytes
const I_LEN: u32 = 210;
const I_ORG: u32 = 211;
const I_STOP: u32 = 213;

const CAP: usize = 96;
/// takes any text, or refuses at the `room`-th character
struct Sink {
    n: usize,
    b: [u8; CAP],
    room: usize,
}
impl Sink {
    fn new(room: usize) -> Sink {
        Sink { n: 0, b: [0; CAP], room }
    }
    fn put(&mut self, c: u8) {
        if self.n < CAP {
            self.b[self.n] = c;
        }
        self.n += 1;
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let s = s.as_bytes();
        let mut i = 0;
        while i < s.len() {
            if self.n >= self.room {
                return Err(core::fmt::Error);
            }
            self.put(s[i]);
            i += 1;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- reference
#[derive(Clone, Copy)]
struct Style {
    hex: bool,
    upper: bool,
    alt: bool,
}
const DEC: Style = Style { hex: false, upper: false, alt: false };
const LOW: Style = Style { hex: true, upper: false, alt: false };
const UPP: Style = Style { hex: true, upper: true, alt: false };
const ALOW: Style = Style { hex: true, upper: false, alt: true };
const AUPP: Style = Style { hex: true, upper: true, alt: true };

impl Sink {
    fn s(&mut self, t: &[u8]) {
        let mut i = 0;
        while i < t.len() {
            self.put(t[i]);
            i += 1;
        }
    }
    fn pad(&mut self, upto: usize) {
        while self.n < upto {
            self.put(b' ');
        }
    }
    fn dig(&mut self, v: u8, upper: bool) {
        self.put(if v < 10 { b'0' + v } else if upper { b'A' + (v - 10) } else { b'a' + (v - 10) });
    }
    fn dec(&mut self, v: u16) {
        if v >= 10000 {
            self.put(b'0' + (v / 10000) as u8);
        }
        if v >= 1000 {
            self.put(b'0' + (v / 1000 % 10) as u8);
        }
        if v >= 100 {
            self.put(b'0' + (v / 100 % 10) as u8);
        }
        if v >= 10 {
            self.put(b'0' + (v / 10 % 10) as u8);
        }
        self.put(b'0' + (v % 10) as u8);
    }
    fn n8(&mut self, v: u8, st: Style) {
        if !st.hex {
            return self.dec(v as u16);
        }
        if st.alt {
            self.s(b"0x");
        }
        self.dig(v >> 4, st.upper);
        self.dig(v & 15, st.upper);
        if !st.alt {
            self.put(b'h');
        }
    }
    fn n16(&mut self, v: u16, st: Style) {
        if !st.hex {
            return self.dec(v);
        }
        if st.alt {
            self.s(b"0x");
        }
        self.dig((v >> 12) as u8, st.upper);
        self.dig((v >> 8) as u8 & 15, st.upper);
        self.dig((v >> 4) as u8 & 15, st.upper);
        self.dig(v as u8 & 15, st.upper);
        if !st.alt {
            self.put(b'h');
        }
    }
    fn arg(&mut self, a: CpuDebugArg, st: Style) {
        match a {
            CpuDebugArg::Imm8(v) => self.n8(v, st),
            CpuDebugArg::Imm16(v) => self.n16(v, st),
            CpuDebugArg::Bit(n) => self.put(b'0' + n as u8),
            CpuDebugArg::IntMode(m) => self.put(match m {
                InterruptMode::Mode0 => b'0',
                InterruptMode::Mode1 => b'1',
                InterruptMode::Mode2 => b'2',
            }),
            CpuDebugArg::Reg8(px, r) => {
                match (r, px) {
                    (Reg8::H | Reg8::L, Some(p)) => self.s(ix(p)),
                    _ => {}
                }
                self.put(r8(r));
            }
            CpuDebugArg::Reg16(px, r) => match (r, px) {
                (Reg16::HL, Some(p)) => self.s(ix(p)),
                _ => self.s(r16(r)),
            },
            CpuDebugArg::Stk16(r) => self.s(match r {
                StkReg16::BC => b"BC",
                StkReg16::DE => b"DE",
                StkReg16::HL => b"HL",
                StkReg16::AF => b"AF",
            }),
            CpuDebugArg::Addr(a) => {
                self.put(b'(');
                match a {
                    CpuDebugAddr::ImmAddr(v) => self.n16(v, st),
                    CpuDebugAddr::RegAddr(r) => self.s(r16(r)),
                    CpuDebugAddr::IndexAddr(p, d) => {
                        self.s(ix(p));
                        if let Some(d) = d {
                            self.put(if d < 0 { b'-' } else { b'+' });
                            self.n8(if d < 0 { 0u8.wrapping_sub(d as u8) } else { d as u8 }, st);
                        }
                    }
                }
                self.put(b')');
            }
            CpuDebugArg::Port(p) => {
                self.put(b'(');
                match p {
                    CpuDebugPort::ImmPort(n) => self.n8(n, st),
                    CpuDebugPort::RegPort => self.put(b'C'),
                }
                self.put(b')');
            }
            CpuDebugArg::Cond(c) => self.s(match c {
                Condition::NZ => b"NZ",
                Condition::Z => b"Z",
                Condition::NC => b"NC",
                Condition::C => b"C",
                Condition::PO => b"PO",
                Condition::PE => b"PE",
                Condition::P => b"P",
                Condition::M => b"M",
            }),
            CpuDebugArg::I => self.put(b'I'),
            CpuDebugArg::R => self.put(b'R'),
        }
    }
    fn args(&mut self, a: CpuDebugArgs, st: Style) {
        match a {
            CpuDebugArgs::None => {}
            CpuDebugArgs::Single(a) => self.arg(a, st),
            CpuDebugArgs::Double(a, b) => {
                self.arg(a, st);
                self.s(b", ");
                self.arg(b, st);
                if let (CpuDebugArg::Stk16(StkReg16::AF), CpuDebugArg::Stk16(StkReg16::AF)) = (a, b) {
                    self.put(b'\'');
                }
            }
            CpuDebugArgs::BitOpExt(n, a, r) => {
                self.put(b'0' + n as u8);
                self.s(b", ");
                self.arg(a, st);
                self.s(b", ");
                self.put(r8(r));
            }
        }
    }
    /// the arguments in a field of `w`
    fn field(&mut self, a: CpuDebugArgs, st: Style, w: usize) {
        let n = self.n;
        self.args(a, st);
        self.pad(n + w);
    }
    fn record(&mut self, d: &CpuDebug, st: Style) {
        let n = self.n;
        if st.hex {
            self.n16(d.pc, st);
        } else {
            let digits = 1 + (d.pc >= 10) as usize + (d.pc >= 100) as usize + (d.pc >= 1000) as usize + (d.pc >= 10000) as usize;
            self.pad(n + 5 - digits);
            self.dec(d.pc);
        }
        self.put(b' ');
        let n = self.n;
        self.s(d.mnemonic.as_bytes());
        self.pad(n + 4);
        self.put(b' ');
        self.field(d.args, st, if st.alt { 15 } else { 14 });
        self.put(b' ');
        self.put(b'[');
        let mut i = 0;
        while i < d.code.len() {
            if i > 0 {
                self.s(b", ");
            }
            if st.hex {
                self.dig(d.code[i] >> 4, st.upper);
                self.dig(d.code[i] & 15, st.upper);
            } else {
                self.dec(d.code[i] as u16);
            }
            i += 1;
        }
        self.put(b']');
    }
}
fn ix(p: Prefix) -> &'static [u8] {
    match p {
        Prefix::Xdd => b"IX",
        Prefix::Yfd => b"IY",
    }
}
fn r8(r: Reg8) -> u8 {
    match r {
        Reg8::B => b'B',
        Reg8::C => b'C',
        Reg8::D => b'D',
        Reg8::E => b'E',
        Reg8::H => b'H',
        Reg8::L => b'L',
        Reg8::A => b'A',
    }
}
fn r16(r: Reg16) -> &'static [u8] {
    match r {
        Reg16::BC => b"BC",
        Reg16::DE => b"DE",
        Reg16::HL => b"HL",
        Reg16::SP => b"SP",
    }
}

fn same(r: core::fmt::Result, got: &Sink, want: &Sink) {
    eq!("formatting succeeds", r.is_ok(), true);
    eq!("length of the text", got.n, want.n);
    let mut i = 0;
    while i < CAP {
        eq!("characters of the text", got.b[i], want.b[i]);
        i += 1;
    }
}

// ---------------------------------------------------------------- records
struct Mem([u8; 8], u16);
impl Io for Mem {
    type Timestamp = i32;
    type WrIoBreak = ();
    type RetiBreak = ();
}
impl Memory for Mem {
    type Timestamp = i32;
    fn read_debug(&self, addr: u16) -> u8 {
        let i = addr.wrapping_sub(self.1) as usize;
        if i < 8 {
            self.0[i]
        } else {
            0
        }
    }
}
fn mem() -> [u8; 8] {
    let mut m = [0; 8];
    let mut i = 0;
    while i < 8 {
        m[i] = b8(I_MEM + i as u32);
        i += 1;
    }
    m
}
/// what the CPU reports for the instruction in memory
fn record() -> CpuDebug {
    let org = b16(I_ORG);
    let mut m = Mem(mem(), org);
    let mut c = Z80::<NMOS>::default();
    c.set_pc(org);
    let mut t = host::TsCounter::<i32>::default();
    let mut r = None;
    let _ = c.execute_next(&mut m, &mut t, Some(|d: CpuDebug| r = Some(d)));
    if r.is_none() {
        let _ = c.execute_next(&mut m, &mut t, Some(|d: CpuDebug| r = Some(d)));
    }
    r.unwrap_or_default()
}

macro_rules! styles {
    ($($n:ident = $st:ident $a:literal $w:literal $e:literal $f:literal;)*) => { $( pub mod $n {
        use super::super::*;
        /// the record
        pub fn record() {
            let d = super::super::record();
            let (mut g, mut w) = (Sink::new(CAP), Sink::new(CAP));
            let r = write!(g, $a, d);
            w.record(&d, $st);
            same(r, &g, &w);
        }
        /// its arguments without and with a width
        pub fn plain() {
            let d = super::super::record();
            let (mut g, mut w) = (Sink::new(CAP), Sink::new(CAP));
            let r = write!(g, $a, d.args);
            w.args(d.args, $st);
            same(r, &g, &w);
        }
        pub fn width() {
            let d = super::super::record();
            let (mut g, mut w) = (Sink::new(CAP), Sink::new(CAP));
            let r = write!(g, $w, d.args);
            w.field(d.args, $st, 20);
            same(r, &g, &w);
        }
        pub fn narrow() {
            let d = super::super::record();
            let (mut g, mut w) = (Sink::new(CAP), Sink::new(CAP));
            let r = write!(g, $e, d.args);
            w.field(d.args, $st, 1);
            same(r, &g, &w);
        }
        pub fn right() {
            let d = super::super::record();
            let (mut g, mut w, mut t) = (Sink::new(CAP), Sink::new(CAP), Sink::new(CAP));
            let r = write!(g, $f, d.args);
            t.args(d.args, $st);
            let mut i = t.n;
            while i < 17 {
                w.put(b'*');
                i += 1;
            }
            w.args(d.args, $st);
            same(r, &g, &w);
        }
    } )* };
}

pub mod zu_c28 {
    styles! {
        display = DEC "{}" "{:20}" "{:1}" "{:*>17}";
        lower = LOW "{:x}" "{:20x}" "{:1x}" "{:*>17x}";
        upper = UPP "{:X}" "{:20X}" "{:1X}" "{:*>17X}";
        alt_lower = ALOW "{:#x}" "{:#20x}" "{:#1x}" "{:*>#17x}";
        alt_upper = AUPP "{:#X}" "{:#20X}" "{:#1X}" "{:*>#17X}";
    }
    pub mod memory {
        use super::super::*;
        /// the text of a chunk: one line per instruction
        pub fn lines() {
            let d = record();
            let m = mem();
            let len = b8(I_LEN) as usize;
            let (mut g, mut w) = (Sink::new(CAP), Sink::new(CAP));
            let r = disasm_memory_write_text::<Z80<NMOS>, _>(b16(I_ORG), &m[..len], &mut g);
            w.record(&d, LOW);
            w.put(b'\n');
            same(r, &g, &w);
        }
        /// the sink refuses: its error is passed on, nothing after it is written
        pub fn refused() {
            let d = record();
            let m = mem();
            let len = b8(I_LEN) as usize;
            let room = b8(I_STOP) as usize;
            let (mut g, mut w) = (Sink::new(room), Sink::new(CAP));
            let r = disasm_memory_write_text::<Z80<NMOS>, _>(b16(I_ORG), &m[..len], &mut g);
            w.record(&d, LOW);
            w.put(b'\n');
            eq!("the sink's error is returned", r.is_err(), w.n > room);
            eq!("written until refused", g.n, if w.n > room { room } else { w.n });
        }
    }
}
