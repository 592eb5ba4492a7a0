//! C26: the disassembler, against an independent length table.
use crate::units::*;
use z80emu::disasm::*;
use z80emu::*;

// input ids
const I_MEM: u32 = 200; // 8 bytes
const I_LEN: u32 = 210;
const I_ORG: u32 = 211;
const I_STOP: u32 = 213;
const I_TOKEN: u32 = 214;
const MAX: usize = 8;

fn uses_hl(op: u8) -> bool {
    match op {
        0x09 | 0x19 | 0x29 | 0x39 | 0x21 | 0x22 | 0x23 | 0x24 | 0x25 | 0x26 | 0x2A | 0x2B | 0x2C | 0x2D | 0x2E | 0x34 | 0x35 | 0x36 => true,
        0xE1 | 0xE3 | 0xE5 | 0xE9 | 0xF9 | 0xCB => true,
        0x76 => false,
        0x40..=0x7F => op & 7 >= 4 && op & 7 <= 6 || op & 0x38 >= 0x20 && op & 0x38 <= 0x30,
        0x80..=0xBF => op & 7 >= 4 && op & 7 <= 6,
        _ => false,
    }
}
fn by_mem(op: u8) -> bool {
    match op {
        0x34 | 0x35 | 0x36 => true,
        0x76 => false,
        0x40..=0x7F => op & 7 == 6 || op & 0x38 == 0x30,
        0x80..=0xBF => op & 7 == 6,
        _ => false,
    }
}
/// bytes of an unprefixed instruction
fn plain(op: u8, next: u8) -> usize {
    match op {
        0xCB => 2,
        0xED => match next {
            0x43 | 0x4B | 0x53 | 0x5B | 0x63 | 0x6B | 0x73 | 0x7B => 4,
            _ => 2,
        },
        0x01 | 0x11 | 0x21 | 0x31 | 0x22 | 0x2A | 0x32 | 0x3A => 3,
        0x06 | 0x0E | 0x16 | 0x1E | 0x26 | 0x2E | 0x36 | 0x3E => 2,
        0x10 | 0x18 | 0x20 | 0x28 | 0x30 | 0x38 => 2,
        0xC2 | 0xC3 | 0xC4 | 0xCA | 0xCC | 0xCD | 0xD2 | 0xD4 | 0xDA | 0xDC | 0xE2 | 0xE4 | 0xEA | 0xEC | 0xF2 | 0xF4 | 0xFA | 0xFC => 3,
        0xC6 | 0xCE | 0xD6 | 0xDE | 0xE6 | 0xEE | 0xF6 | 0xFE | 0xD3 | 0xDB => 2,
        _ => 1,
    }
}
fn at(m: &[u8], i: usize) -> u8 {
    if i < m.len() {
        m[i]
    } else {
        0xFF
    }
}
/// the instruction at or after `i`: (first byte, length), prefixes without effect skipped
fn next(m: &[u8], mut i: usize) -> Option<(usize, usize)> {
    let mut prefixed = false;
    while i < m.len() {
        let op = m[i];
        if op == 0xDD || op == 0xFD {
            prefixed = true;
            i += 1;
            continue;
        }
        if prefixed && uses_hl(op) {
            let n = if op == 0xCB { 3 } else { plain(op, 0) + by_mem(op) as usize };
            return Some((i - 1, n + 1));
        }
        return Some((i, plain(op, at(m, i + 1))));
    }
    None
}

struct Mem<'a>(u16, &'a [u8]);
impl Io for Mem<'_> {
    type Timestamp = i32;
    type WrIoBreak = ();
    type RetiBreak = ();
}
impl Memory for Mem<'_> {
    type Timestamp = i32;
    fn read_debug(&self, addr: u16) -> u8 {
        at(self.1, addr.wrapping_sub(self.0) as usize)
    }
}
/// the debugger's record of the instruction at index `i`
fn record<C: Cpu>(m: &[u8], org: u16, i: usize) -> Option<CpuDebug> {
    let mut c = C::default();
    c.set_pc(org.wrapping_add(i as u16));
    let mut tsc = host::TsCounter::<i32>::default();
    let mut r = None;
    let mut mem = Mem(org, m);
    let _ = c.execute_next(&mut mem, &mut tsc, Some(|d: CpuDebug| r = Some(d)));
    if r.is_none() {
        let _ = c.execute_next(&mut mem, &mut tsc, Some(|d: CpuDebug| r = Some(d)));
    }
    r
}

fn mem() -> [u8; MAX] {
    let mut m = [0; MAX];
    let mut i = 0;
    while i < MAX {
        m[i] = b8(I_MEM + i as u32);
        i += 1;
    }
    m
}

fn check(d: &CpuDebug, m: &[u8], org: u16, start: usize, n: usize, r: &Option<CpuDebug>) {
    eq!("address of the reported instruction", d.pc, org.wrapping_add(start as u16));
    eq!("length of the reported instruction", d.code.len(), n);
    let mut k = 0;
    while k < n && k < d.code.len() {
        eq!("bytes of the reported instruction", d.code[k], at(m, start + k));
        k += 1;
    }
    match r {
        Some(r) => {
            eq!("prefix of the reported instruction", d.prefix == r.prefix, true);
            eq!("operands of the reported instruction", d.args == r.args, true);
            eq!("mnemonic of the reported instruction", d.mnemonic == r.mnemonic, true);
        }
        None => eq!("the debugger sees the instruction", false, true),
    }
}

fn chunk<C: Cpu>() {
    let m = mem();
    let (len, org, stop, token) = (b8(I_LEN) as usize, b16(I_ORG), b8(I_STOP), b8(I_TOKEN));
    let m = &m[..len];
    let mut pos = 0;
    let mut n = 0u8;
    let mut failed = false;
    let r: Result<(), u8> = disasm_memory::<C, _, u8>(org, m, |d| {
        eq!("called again after it failed", failed, false);
        match next(m, pos) {
            Some((i, k)) if i + k <= len => {
                check(&d, m, org, i, k, &record::<C>(m, org, i));
                pos = i + k;
            }
            _ => eq!("reports no more instructions than the memory holds", false, true),
        }
        n += 1;
        if n > stop {
            failed = true;
            Err(token)
        } else {
            Ok(())
        }
    });
    if failed {
        eq!("returns the callback's error", r == Err(token), true);
    } else {
        eq!("returns normally", r.is_ok(), true);
        let done = match next(m, pos) {
            Some((i, k)) => i + k > len,
            None => true,
        };
        eq!("reports every complete instruction", done, true);
    }
}

fn once<C: Cpu>() {
    let m = mem();
    let (len, org) = (b8(I_LEN) as usize, b16(I_ORG));
    let m = &m[..len];
    let r = disasm_memory_once::<C>(org, m);
    match next(m, 0) {
        Some((i, k)) if i + k <= len => match r {
            Some(d) => check(&d, m, org, i, k, &record::<C>(m, org, i)),
            None => eq!("finds the first instruction", false, true),
        },
        _ => eq!("finds nothing where nothing is complete", r.is_none(), true),
    }
}

/// many instructions: LD (IX+1), 0; HALT; NOP and a prefix which the next instruction
/// overrides, over and over. The period of 7 puts each of them at every distance
/// from a boundary of 256 (and, with the seven phases, of 64k) octets.
const PATTERN: [u8; 7] = [0xDD, 0x36, 0x01, 0x00, 0x76, 0x00, 0xFD];
const LONG: usize = 0x1_0000 + 16;
static LONG_MEM: [u8; LONG + 7] = {
    let mut m = [0; LONG + 7];
    let mut i = 0;
    while i < LONG + 7 {
        m[i] = PATTERN[i % 7];
        i += 1;
    }
    m
};
fn long<C: Cpu>(phase: usize, len: usize) {
    let org = b16(I_ORG);
    let m = &LONG_MEM[phase..phase + len];
    // phase 1 begins with LD (HL), 1
    let mut pos = 0usize;
    let r: Result<(), u8> = disasm_memory::<C, _, u8>(org, m, |d| {
        if m[pos] == 0xFD {
            pos += 1;
        }
        let k = match m[pos] {
            0xDD => 4,
            0x36 => 2,
            0x01 => 3,
            _ => 1,
        };
        eq!("address of the reported instruction", d.pc, org.wrapping_add(pos as u16));
        eq!("length of the reported instruction", d.code.len(), k);
        eq!("reports no more instructions than the memory holds", pos + k <= len, true);
        pos += k;
        Ok(())
    });
    eq!("returns normally", r.is_ok(), true);
    if pos < len && m[pos] == 0xFD {
        pos += 1;
    }
    eq!("reports every complete instruction", pos == len || m[pos] == 0xDD && pos + 4 > len, true);
}

pub mod zu_c26 {
    use super::*;
    use z80emu::z80::{BM1, CMOS, NMOS};
    pub fn chunk_nmos() { chunk::<Z80<NMOS>>() }
    pub fn chunk_cmos() { chunk::<Z80<CMOS>>() }
    pub fn chunk_bm1() { chunk::<Z80<BM1>>() }
    pub fn chunk_any() { chunk::<Z80Any>() }
    pub fn once_nmos() { once::<Z80<NMOS>>() }
    pub fn once_cmos() { once::<Z80<CMOS>>() }
    pub fn once_bm1() { once::<Z80<BM1>>() }
    pub fn once_any() { once::<Z80Any>() }
    pub fn long_2k() { long::<Z80<NMOS>>(0, 0x800) }
    pub fn long_2k_cmos() { long::<Z80<CMOS>>(0, 0x800) }
    pub fn long_64k_0() { long::<Z80<NMOS>>(0, LONG) }
    pub fn long_64k_1() { long::<Z80<NMOS>>(1, LONG) }
    pub fn long_64k_4() { long::<Z80<NMOS>>(4, LONG) }
    pub fn long_64k_5() { long::<Z80<NMOS>>(5, LONG) }
    pub fn long_64k_6() { long::<Z80<NMOS>>(6, LONG) }
}
