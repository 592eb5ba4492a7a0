//! C34: what the CPU, its flavour and a break cause say about themselves.
use crate::units::*;
use core::fmt::{self, Write};
use z80emu::z80::{Flavour, BM1, CMOS, NMOS};
use z80emu::*;

/// Reads `NAME: VALUE` pairs while they are being written. Spaces and line
/// breaks are skipped; a value is remembered as a number: its decimal digits,
/// or its letters folded the same way.
struct Reader {
    /// names, opening and closing text
    b: [u8; 160],
    n: usize,
    v: [Value; 24],
    k: usize,
    in_value: bool,
    depth: u8,
}
#[derive(Clone, Copy, PartialEq)]
struct Value {
    sum: u32,
    len: u8,
    digits: bool,
}
const NONE: Value = Value { sum: 0, len: 0, digits: true };
impl Value {
    fn put(&mut self, c: u8) {
        self.sum = self.sum.wrapping_mul(10).wrapping_add(c as u32).wrapping_sub(b'0' as u32);
        self.len += 1;
        self.digits &= c >= b'0' && c <= b'9';
    }
    fn word(s: &[u8]) -> Value {
        let mut v = NONE;
        let mut i = 0;
        while i < s.len() {
            v.put(s[i]);
            i += 1;
        }
        v
    }
}
impl Reader {
    fn new() -> Reader {
        Reader { b: [0; 160], n: 0, v: [NONE; 24], k: 0, in_value: false, depth: 0 }
    }
    fn put(&mut self, c: u8) {
        if c == b' ' || c == b'\n' {
            return;
        }
        if self.in_value {
            let end = (c == b',' || c == b'}' || c == b')') && self.depth == 0;
            if !end {
                if c == b'(' {
                    self.depth += 1;
                }
                if c == b')' {
                    self.depth -= 1;
                }
                // a trailing comma inside brackets belongs to the pretty form only
                if c != b',' {
                    self.v[self.k].put(c);
                }
                return;
            }
            self.in_value = false;
            self.k += 1;
        }
        if c == b':' {
            self.in_value = true;
        }
        self.b[self.n] = c;
        self.n += 1;
    }
}
impl Write for Reader {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let s = s.as_bytes();
        let mut i = 0;
        while i < s.len() {
            self.put(s[i]);
            i += 1;
        }
        Ok(())
    }
}
fn text(r: &Reader, want: &[u8]) {
    eq!("length of names", r.n, want.len());
    let mut i = 0;
    while i < want.len() {
        eq!("names", r.b[i], want[i]);
        i += 1;
    }
}
fn number(name: &'static str, v: Value, want: u16) {
    eq!(name, v.sum, want);
    eq!("only digits", v.digits, true);
    let len = 1 + (want >= 10) as u8 + (want >= 100) as u8 + (want >= 1000) as u8 + (want >= 10000) as u8;
    eq!("no other digits", v.len, len);
}
fn truth(name: &'static str, v: Value, want: u16) {
    let (t, f) = (Value::word(b"true"), Value::word(b"false"));
    eq!(name, v == if want != 0 { t } else { f }, true);
}
fn values(v: &[Value; 24], w: &Snap) {
    let order = [PC, SP, AF, BC, DE, HL, AF2, BC2, DE2, HL2, IX, IY];
    let mut i = 0;
    while i < 12 {
        number(NAMES[order[i]], v[i], w.0[order[i]]);
        i += 1;
    }
    // the counter may be kept in either register
    eq!("IR", v[12].sum & 0xFF80, w.0[IR] & 0xFF80);
    eq!("only digits", v[12].digits, true);
    eq!("R", v[13].sum & 0x7F, w.0[R] & 0x7F);
    eq!("only digits", v[13].digits, true);
    let m = match w.0[IM] {
        0 => Value::word(b"Mode0"),
        1 => Value::word(b"Mode1"),
        _ => Value::word(b"Mode2"),
    };
    eq!("IM", v[14] == m, true);
    truth("IFF1", v[15], w.0[IFF1]);
    truth("IFF2", v[16], w.0[IFF2]);
    truth("HALT", v[17], w.0[HALT]);
    truth("after-EI", v[18], w.0[EI]);
    number("MEMPTR", v[19], w.0[MP]);
    let p = match w.0[PX] {
        0 => Value::word(b"None"),
        1 => Value::word(b"Some(Xdd)"),
        _ => Value::word(b"Some(Yfd)"),
    };
    eq!("prefix", v[20] == p, true);
}
const NAMED: &[u8] = b"pc:,sp:,af:,bc:,de:,hl:,af':,bc':,de':,hl':,ix:,iy:,ir:,r:,im:,iff1:,iff2:,halt:,ei:,mp:,prefix:";
fn named(r: &Reader, pre: &[u8], post: &[u8]) {
    let mut b = [0u8; 160];
    let mut n = 0;
    let mut k = 0;
    let parts = [pre, NAMED, post];
    while k < 3 {
        let mut i = 0;
        while i < parts[k].len() {
            b[n] = parts[k][i];
            n += 1;
            i += 1;
        }
        k += 1;
    }
    text(r, &b[..n]);
}
fn cpu<Q: Flavour>() {
    let c = crate::obs::mk::<Q>();
    let w = want::<Q>();
    let mut r = Reader::new();
    eq!("written", write!(r, "{:?}", c).is_ok(), true);
    named(&r, b"Z80{", b"}");
    values(&r.v, &w);
}
fn pretty<Q: Flavour>() {
    let c = crate::obs::mk::<Q>();
    let w = want::<Q>();
    let mut r = Reader::new();
    eq!("written", write!(r, "{:#?}", c).is_ok(), true);
    named(&r, b"Z80{", b",}");
    values(&r.v, &w);
}
fn any<Q: Flavour>(pre: &[u8]) {
    let c = mk_any::<Q>();
    let w = want::<Q>();
    let mut r = Reader::new();
    eq!("written", write!(r, "{:?}", c).is_ok(), true);
    named(&r, pre, b"})");
    values(&r.v, &w);
}

/// takes `room` characters
struct Sink {
    b: [u8; 96],
    n: usize,
    room: usize,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let s = s.as_bytes();
        let mut i = 0;
        while i < s.len() {
            if self.n >= self.room {
                return Err(fmt::Error);
            }
            self.b[self.n] = s[i];
            self.n += 1;
            i += 1;
        }
        Ok(())
    }
}
fn sink() -> Sink {
    Sink { b: [0; 96], n: 0, room: 96 }
}
fn same_text(s: &Sink, want: &str) {
    let want = want.as_bytes();
    eq!("length of the text", s.n, want.len());
    let mut i = 0;
    while i < want.len() {
        eq!("text", s.b[i], want[i]);
        i += 1;
    }
}
fn has(s: &str, w: &[u8]) -> bool {
    let s = s.as_bytes();
    let mut i = 0;
    while i + w.len() <= s.len() {
        let mut k = 0;
        while k < w.len() && s[i + k] == w[k] {
            k += 1;
        }
        if k == w.len() {
            return true;
        }
        i += 1;
    }
    false
}
fn tag<Q: Flavour>(want: &str) {
    let a = mk_any::<Q>();
    eq!("tag of the flavour", Q::tag() == want, true);
    eq!("tag of the CPU", a.tag() == want, true);
    let mut s = sink();
    eq!("written", write!(s, "{}", a).is_ok(), true);
    same_text(&s, want);
    let mut s = sink();
    s.room = 2;
    eq!("refusal is passed on", write!(s, "{}", a).is_err(), true);
}
fn cause(c: BreakCause<u8, u16>, word: &[u8], others: [&[u8]; 2]) {
    let by_ref: &str = (&c).into();
    let mut s = sink();
    eq!("written", write!(s, "{}", c).is_ok(), true);
    same_text(&s, by_ref);
    eq!("names its cause", has(by_ref, word), true);
    eq!("names no other cause", has(by_ref, others[0]) || has(by_ref, others[1]), false);
    let mut s = sink();
    s.room = 3;
    eq!("refusal is passed on", write!(s, "{}", c).is_err(), true);
    let mut s = sink();
    eq!("written in a field", write!(s, "{:>80}", c).is_ok(), true);
    eq!("width of the field", s.n, 80);
    let by_value: &str = c.into();
    eq!("same text by value", by_value == by_ref, true);
}
pub mod zu_c34 {
    use super::*;
    pub fn debug_nmos() {
        cpu::<NMOS>()
    }
    pub fn debug_cmos() {
        cpu::<CMOS>()
    }
    pub fn debug_bm1() {
        cpu::<BM1>()
    }
    pub fn debug_pretty() {
        pretty::<NMOS>()
    }
    pub fn debug_any_nmos() {
        any::<NMOS>(b"NMOS(Z80{")
    }
    pub fn debug_any_cmos() {
        any::<CMOS>(b"CMOS(Z80{")
    }
    pub fn debug_any_bm1() {
        any::<BM1>(b"BM1(Z80{")
    }
    pub fn tags() {
        tag::<NMOS>("NMOS");
        tag::<CMOS>("CMOS");
        tag::<BM1>("BM1");
    }
    pub fn causes() {
        const W: [&[u8]; 3] = [b"HALT", b"I/O", b"interrupt service"];
        cause(BreakCause::Halt, W[0], [W[1], W[2]]);
        cause(BreakCause::WriteIo(b8(100)), W[1], [W[0], W[2]]);
        cause(BreakCause::Reti(b16(100)), W[2], [W[0], W[1]]);
    }
}
