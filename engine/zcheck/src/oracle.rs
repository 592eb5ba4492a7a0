//! Specification of the Z80: the documented behaviour of every opcode, written
//! from the processor documentation independently of the analysed crate, over
//! the same abstract domain the analyser uses.
use crate::bdd::*;
use crate::interp::*;
use std::rc::Rc;

pub type W = Vec<B>;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Fl {
    Nmos,
    Cmos,
    Bm1,
    /// a flavour defined elsewhere (accepting interrupts resets IFF2 early)
    Own(bool),
}
pub const FLAVOURS: [(Fl, &str); 3] = [(Fl::Nmos, "nmos"), (Fl::Cmos, "cmos"), (Fl::Bm1, "bm1")];
pub const OWN: [(Fl, &str); 2] = [(Fl::Own(true), "own1"), (Fl::Own(false), "own0")];
/// inputs the hooks of such a flavour depend on
const KX: [u32; 4] = [25, 26, 27, 28];

pub const RF: usize = 6;
pub const RA: usize = 7;
const SF: usize = 7;
const ZF: usize = 6;
const HF: usize = 4;
const PF: usize = 2;
const NF: usize = 1;
const CF: usize = 0;

/// a machine state
#[derive(Clone)]
pub struct Cpu {
    /// B C D E H L F A
    pub r8: [W; 8],
    /// AF' BC' DE' HL'
    pub alt: [W; 4],
    /// IX, IY
    pub ii: [W; 2],
    pub pc: W,
    pub sp: W,
    pub mp: W,
    pub i: W,
    pub r: W,
    pub im: W,
    pub iff1: B,
    pub iff2: B,
    pub halt: B,
    pub ei: B,
    pub q0: B,
    pub q1: B,
    pub px: u8,
}

#[derive(Clone, Debug)]
pub struct Arg(pub u8, pub W, pub W, pub W);

#[derive(Clone)]
pub struct Out {
    pub g: B,
    pub tr: [Vec<Rc<Ev>>; 3],
    pub obs: Vec<(u32, W)>,
}

pub struct O<'a, 'p> {
    pub m: &'a mut M<'p>,
    pub fl: Fl,
    pub dbg: bool,
    pub g: B,
    script: Vec<bool>,
    pos: usize,
    pub tr: [Vec<Rc<Ev>>; 3],
    pub s: Cpu,
    res: (u16, u16),
    /// bytes of the instruction being executed
    bytes: Vec<W>,
    rec: Option<(&'static str, Vec<Arg>, u8, u8)>,
    pub mnemonic: String,
}

pub enum Task {
    Step,
    Exec,
    Irq,
    Nmi,
    Limit,
}

/// All behaviours the specification allows, partitioned by the kinds of host
/// calls made.
pub fn spec(m: &mut M, fl: Fl, dbg: bool, task: Task) -> (Vec<Out>, String) {
    let mut script: Vec<bool> = vec![];
    let mut outs = vec![];
    let mut mn = String::new();
    loop {
        let s = start(m);
        let mut o = O { m: &mut *m, fl, dbg, g: T, script: std::mem::take(&mut script), pos: 0, tr: Default::default(), s, res: (0, 0), bytes: vec![], rec: None, mnemonic: String::new() };
        match task {
            Task::Step => o.step(),
            Task::Exec => {
                let c = o.m.cfg.inputs[&24];
                o.exec(c as u8)
            }
            Task::Irq => o.irq(),
            Task::Nmi => o.nmi(),
            Task::Limit => o.limit(),
        }
        let obs = o.observe();
        outs.push(Out { g: o.g, tr: o.tr.clone(), obs });
        if mn.is_empty() {
            mn = o.mnemonic.clone();
        }
        script = std::mem::take(&mut o.script);
        let pos = o.pos;
        script.truncate(pos);
        loop {
            match script.pop() {
                Some(true) => {
                    script.push(false);
                    break;
                }
                Some(false) => continue,
                None => return (outs, mn),
            }
        }
        assert!(outs.len() < 4096, "specification partitions");
    }
}

fn inp(m: &mut M, id: u32, bytes: u32) -> W {
    if let Some(c) = m.cfg.inputs.get(&id) {
        return m.m.konst(*c as u128, bytes as usize * 8);
    }
    let mut r = m.m.slot8(id * 2);
    if bytes == 2 {
        r.extend(m.m.slot8(id * 2 + 1));
    }
    r
}
fn rol(a: &W, n: usize) -> W {
    (0..a.len()).map(|i| a[(i + a.len() - n) % a.len()]).collect()
}
fn inb(m: &mut M, id: u32) -> B {
    match m.cfg.inputs.get(&id) {
        Some(0) => F,
        Some(_) => T,
        None => m.m.var(id * 2, 0),
    }
}

/// the arbitrary start state the harness builds
pub fn start(m: &mut M) -> Cpu {
    let p = |m: &mut M, id| {
        let w = inp(m, id, 2);
        (w[8..].to_vec(), w[..8].to_vec())
    };
    let (a, f) = p(m, 0);
    let (b, c) = p(m, 1);
    let (d, e) = p(m, 2);
    let (h, l) = p(m, 3);
    let alt = [inp(m, 4, 2), inp(m, 5, 2), inp(m, 6, 2), inp(m, 7, 2)];
    let ii = [inp(m, 8, 2), inp(m, 9, 2)];
    let r7 = inp(m, 14, 1);
    let r = inp(m, 15, 1);
    let mut rr = r[..7].to_vec();
    rr.push(r7[7]);
    let imv = inp(m, 16, 1);
    let mut im = vec![F; 8];
    im[0] = m.m.and(imv[0], imv[1] ^ 1);
    im[1] = imv[1];
    Cpu {
        r8: [b, c, d, e, h, l, f, a],
        alt,
        ii,
        pc: inp(m, 10, 2),
        sp: inp(m, 11, 2),
        mp: inp(m, 12, 2),
        i: inp(m, 13, 1),
        r: rr,
        im,
        iff1: inb(m, 17),
        iff2: inb(m, 18),
        halt: inb(m, 19),
        ei: inb(m, 20),
        q0: inb(m, 21),
        q1: inb(m, 22),
        px: m.cfg.inputs.get(&23).copied().unwrap_or(0) as u8,
    }
}

/// opcodes an index prefix applies to
pub fn indexed(c: u8) -> bool {
    match c {
        0x09 | 0x19 | 0x29 | 0x39 | 0x21..=0x26 | 0x2A..=0x2E | 0x34..=0x36 => true,
        0x76 => false,
        0x40..=0x7F => (c & 7 == 4 || c & 7 == 5 || c & 7 == 6) || matches!(c >> 3 & 7, 4..=6),
        0x80..=0xBF => matches!(c & 7, 4..=6),
        0xCB | 0xE1 | 0xE3 | 0xE5 | 0xE9 | 0xF9 => true,
        _ => false,
    }
}

impl<'a, 'p> O<'a, 'p> {
    // ------------------------------------------------------------ plumbing
    fn fork(&mut self, c: B) -> bool {
        let g1 = self.m.m.and(self.g, c);
        if g1 == F {
            return false;
        }
        let g0 = self.m.m.and(self.g, c ^ 1);
        if g0 == F {
            return true;
        }
        if self.pos == self.script.len() {
            self.script.push(true);
        }
        let d = self.script[self.pos];
        self.pos += 1;
        self.g = if d { g1 } else { g0 };
        d
    }
    fn k8(&self, v: u32) -> W {
        self.m.m.konst(v as u128, 8)
    }
    fn k16(&self, v: u32) -> W {
        self.m.m.konst(v as u128, 16)
    }
    fn and(&mut self, a: B, b: B) -> B {
        self.m.m.and(a, b)
    }
    fn or(&mut self, a: B, b: B) -> B {
        self.m.m.or(a, b)
    }
    fn mux(&mut self, c: B, t: &W, e: &W) -> W {
        self.m.m.mux(c, t, e)
    }
    fn addk(&mut self, a: &W, k: i32) -> W {
        let n = a.len();
        let kk = self.m.m.konst((k as u32 as u128) & ((1u128 << n) - 1), n);
        self.m.m.add(a, &kk)
    }
    fn cat(hi: &W, lo: &W) -> W {
        let mut r = lo.clone();
        r.extend(hi.iter());
        r
    }

    // ------------------------------------------------------------ bus
    fn now(&self) -> W {
        self.k8(self.tr[CLK].len() as u32)
    }
    fn clk(&mut self, k: K, args: Vec<W>) -> W {
        self.tr[CLK].push(Rc::new(Ev { k, args, ret: vec![], loc: u32::MAX }));
        self.now()
    }
    fn ctl(&mut self, k: K, args: Vec<W>) -> W {
        let idx = self.tr[CTL].len();
        let ret = {
            let prev = self.tr[CTL].clone();
            self.m.host_ret(k, idx, &prev)
        };
        self.tr[CTL].push(Rc::new(Ev { k, args, ret: ret.clone(), loc: u32::MAX }));
        ret
    }
    fn idle(&mut self, addr: &W, n: u32) {
        let n = self.k8(n);
        self.clk(K::NoMreq, vec![addr.clone(), n]);
    }
    fn read(&mut self, addr: &W) -> W {
        let ts = self.clk(K::Mreq, vec![addr.clone()]);
        self.ctl(K::RdMem, vec![addr.clone(), ts])
    }
    fn write(&mut self, addr: &W, v: &W) {
        let ts = self.clk(K::Mreq, vec![addr.clone()]);
        self.ctl(K::WrMem, vec![addr.clone(), v.clone(), ts]);
    }
    fn read16(&mut self, addr: &W) -> W {
        let ts = self.clk(K::Mreq, vec![addr.clone()]);
        let v = self.ctl(K::RdMem16, vec![addr.clone(), ts]);
        let a1 = self.addk(addr, 1);
        self.clk(K::Mreq, vec![a1]);
        v
    }
    fn wait(&mut self, addr: &W, ret: &W) {
        let ws = ret[8..24].to_vec();
        let nz = self.m.m.nonzero(&ws);
        if self.fork(nz) {
            self.clk(K::Wait, vec![addr.clone(), ws]);
        }
    }
    fn io_in(&mut self, port: &W) -> W {
        let ts = self.clk(K::Io, vec![port.clone()]);
        let r = self.ctl(K::RdIo, vec![port.clone(), ts]);
        self.wait(port, &r);
        r[..8].to_vec()
    }
    /// returns whether the host asked for a break, and the naming token
    fn io_out(&mut self, port: &W, v: &W) -> (B, u16) {
        let ts = self.clk(K::Io, vec![port.clone()]);
        let r = self.ctl(K::WrIo, vec![port.clone(), v.clone(), ts]);
        let tok = self.tr[CTL].len() as u16;
        self.wait(port, &r);
        (r[0], tok)
    }
    fn brk_out(&mut self, b: (B, u16)) {
        if self.fork(b.0) {
            self.res = (2, b.1);
        }
    }
    fn imm8(&mut self) -> W {
        let a = self.s.pc.clone();
        let v = self.read(&a);
        self.s.pc = self.addk(&a, 1);
        self.bytes.push(v.clone());
        v
    }
    fn imm16(&mut self) -> W {
        let a = self.s.pc.clone();
        let v = self.read16(&a);
        self.s.pc = self.addk(&a, 2);
        self.bytes.push(v[..8].to_vec());
        self.bytes.push(v[8..].to_vec());
        v
    }
    fn inc_r(&mut self) {
        let lo = self.s.r[..7].to_vec();
        let mut n = self.addk(&lo, 1);
        n.push(self.s.r[7]);
        self.s.r = n;
    }
    fn ir(&self) -> W {
        Self::cat(&self.s.i, &self.s.r)
    }
    fn fetch(&mut self) -> W {
        let pc = self.s.pc.clone();
        self.inc_r();
        let ts = self.clk(K::M1, vec![pc.clone()]);
        let ir = self.ir();
        let c = self.ctl(K::Opcode, vec![pc.clone(), ir, ts]);
        self.s.pc = self.addk(&pc, 1);
        c
    }
    fn push(&mut self, v: &W) {
        let sp1 = self.addk(&self.s.sp.clone(), -1);
        self.write(&sp1, &v[8..].to_vec());
        let sp2 = self.addk(&sp1, -1);
        self.write(&sp2, &v[..8].to_vec());
        self.s.sp = sp2;
    }
    fn pop(&mut self) -> W {
        let sp = self.s.sp.clone();
        let v = self.read16(&sp);
        self.s.sp = self.addk(&sp, 2);
        v
    }

    // ------------------------------------------------------------ registers
    fn pair(&self, n: usize) -> W {
        Self::cat(&self.s.r8[n * 2], &self.s.r8[n * 2 + 1])
    }
    fn set_pair(&mut self, n: usize, v: &W) {
        self.s.r8[n * 2] = v[8..].to_vec();
        self.s.r8[n * 2 + 1] = v[..8].to_vec();
    }
    fn bc(&self) -> W {
        self.pair(0)
    }
    fn de(&self) -> W {
        self.pair(1)
    }
    fn hl(&self) -> W {
        self.pair(2)
    }
    fn af(&self) -> W {
        Self::cat(&self.s.r8[RA], &self.s.r8[RF])
    }
    fn a(&self) -> W {
        self.s.r8[RA].clone()
    }
    /// HL, or the index register in use
    fn hlx(&self, px: u8) -> W {
        if px == 0 {
            self.hl()
        } else {
            self.s.ii[px as usize - 1].clone()
        }
    }
    fn set_hlx(&mut self, px: u8, v: &W) {
        if px == 0 {
            self.set_pair(2, v)
        } else {
            self.s.ii[px as usize - 1] = v.clone()
        }
    }
    /// dd: BC DE HL/ii SP
    fn dd(&self, n: u8, px: u8) -> W {
        match n {
            3 => self.s.sp.clone(),
            2 => self.hlx(px),
            n => self.pair(n as usize),
        }
    }
    fn set_dd(&mut self, n: u8, px: u8, v: &W) {
        match n {
            3 => self.s.sp = v.clone(),
            2 => self.set_hlx(px, v),
            n => self.set_pair(n as usize, v),
        }
    }
    /// r: B C D E H L - A (never 6)
    fn r(&self, n: u8, px: u8) -> W {
        match (n, px) {
            (7, _) => self.a(),
            (4, 1..) => self.s.ii[px as usize - 1][8..].to_vec(),
            (5, 1..) => self.s.ii[px as usize - 1][..8].to_vec(),
            _ => self.s.r8[n as usize].clone(),
        }
    }
    fn set_r(&mut self, n: u8, px: u8, v: &W) {
        match (n, px) {
            (7, _) => self.s.r8[RA] = v.clone(),
            (4, 1..) => {
                self.s.ii[px as usize - 1].splice(8.., v.iter().copied());
            }
            (5, 1..) => {
                self.s.ii[px as usize - 1].splice(..8, v.iter().copied());
            }
            _ => self.s.r8[n as usize] = v.clone(),
        }
    }
    fn f(&self, n: usize) -> B {
        self.s.r8[RF][n]
    }
    fn sf(&mut self, n: usize, v: B) {
        self.s.r8[RF][n] = v;
    }
    fn cc(&self, y: u8) -> B {
        let b = self.f([ZF, CF, PF, SF][(y >> 1) as usize]);
        if y & 1 == 1 {
            b
        } else {
            b ^ 1
        }
    }
    /// S, Z and bits 5, 3 from an eight-bit result
    fn szxy(&mut self, v: &W) {
        let z = self.m.m.nonzero(v) ^ 1;
        self.sf(ZF, z);
        self.sf(SF, v[7]);
        self.xy(v);
    }
    fn xy(&mut self, v: &W) {
        self.sf(5, v[5]);
        self.sf(3, v[3]);
    }
    fn par(&mut self, v: &W) -> B {
        let mut p = T;
        for b in v {
            p = self.m.m.xor(p, *b);
        }
        p
    }

    // ------------------------------------------------------------ arithmetic
    fn add8(&mut self, a: &W, b: &W, c: B) -> W {
        let (r, co) = self.m.m.addc(a, b, c);
        let h = self.m.m.addc(&a[..4], &b[..4], c).1;
        let c7 = self.m.m.addc(&a[..7], &b[..7], c).1;
        let v = self.m.m.xor(c7, co);
        self.szxy(&r);
        self.sf(HF, h);
        self.sf(PF, v);
        self.sf(NF, F);
        self.sf(CF, co);
        r
    }
    fn sub8(&mut self, a: &W, b: &W, c: B) -> W {
        let nb = self.m.m.inv(b);
        let (r, co) = self.m.m.addc(a, &nb, c ^ 1);
        let h = self.m.m.addc(&a[..4], &nb[..4], c ^ 1).1 ^ 1;
        let c7 = self.m.m.addc(&a[..7], &nb[..7], c ^ 1).1;
        let v = self.m.m.xor(c7, co);
        self.szxy(&r);
        self.sf(HF, h);
        self.sf(PF, v);
        self.sf(NF, T);
        self.sf(CF, co ^ 1);
        r
    }
    fn alu(&mut self, op: u8, b: &W) {
        let a = self.a();
        let c = self.f(CF);
        let r = match op {
            0 => self.add8(&a, b, F),
            1 => self.add8(&a, b, c),
            2 => self.sub8(&a, b, F),
            3 => self.sub8(&a, b, c),
            7 => {
                self.sub8(&a, b, F);
                self.xy(b);
                a.clone()
            }
            _ => {
                let mut r = vec![];
                for i in 0..8 {
                    r.push(match op {
                        4 => self.m.m.and(a[i], b[i]),
                        5 => self.m.m.xor(a[i], b[i]),
                        _ => self.m.m.or(a[i], b[i]),
                    });
                }
                self.szxy(&r);
                let p = self.par(&r);
                self.sf(PF, p);
                self.sf(HF, if op == 4 { T } else { F });
                self.sf(NF, F);
                self.sf(CF, F);
                r
            }
        };
        self.s.r8[RA] = r;
        self.q();
    }
    fn incdec(&mut self, v: &W, dec: bool) -> W {
        let c = self.f(CF);
        let one = self.k8(1);
        let r = if dec { self.sub8(v, &one, F) } else { self.add8(v, &one, F) };
        self.sf(CF, c);
        self.q();
        r
    }
    fn rot(&mut self, op: u8, v: &W) -> W {
        let c = self.f(CF);
        let mut r = vec![F; 8];
        let left = op & 1 == 0;
        let out;
        if left {
            for i in 1..8 {
                r[i] = v[i - 1];
            }
            out = v[7];
            r[0] = [v[7], c, F, T][(op >> 1) as usize];
        } else {
            for i in 0..7 {
                r[i] = v[i + 1];
            }
            out = v[0];
            r[7] = [v[0], c, v[7], F][(op >> 1) as usize];
        }
        self.szxy(&r);
        let p = self.par(&r);
        self.sf(PF, p);
        self.sf(HF, F);
        self.sf(NF, F);
        self.sf(CF, out);
        self.q();
        r
    }
    fn bit(&mut self, n: u8, v: &W, xy: &W) {
        let b = v[n as usize];
        self.sf(ZF, b ^ 1);
        self.sf(PF, b ^ 1);
        self.sf(SF, if n == 7 { b } else { F });
        self.sf(HF, T);
        self.sf(NF, F);
        self.xy(xy);
        self.q();
    }
    fn q(&mut self) {
        self.s.q1 = T;
    }

    // ------------------------------------------------------------ debug record
    fn d(&mut self, mn: &'static str, args: Vec<Arg>, px: u8) {
        let n = 4.min(mn.len());
        let _ = n;
        self.rec = Some((mn, args, px, 0));
    }
    fn x8(&self, v: u32) -> W {
        self.k8(v)
    }
    fn ar8(&self, n: u8, px: u8) -> Arg {
        Arg(4, self.x8(if n == 4 || n == 5 { px as u32 } else { 0 }), self.x8(n as u32), self.k16(0))
    }
    fn ar16(&self, n: u8, px: u8) -> Arg {
        Arg(6, self.x8(if n == 2 { px as u32 } else { 0 }), self.x8(n as u32), self.k16(0))
    }
    fn astk(&self, n: u8) -> Arg {
        Arg(7, self.x8(n as u32), self.x8(0), self.k16(0))
    }
    fn ai8(&self, v: &W) -> Arg {
        Arg(1, v.clone(), self.x8(0), self.k16(0))
    }
    fn ai16(&self, v: &W) -> Arg {
        Arg(5, self.x8(0), self.x8(0), v.clone())
    }
    fn aaddr(&self, v: &W) -> Arg {
        Arg(8, self.x8(0), self.x8(0), v.clone())
    }
    fn areg(&self, n: u8) -> Arg {
        Arg(9, self.x8(n as u32), self.x8(0), self.k16(0))
    }
    fn aidx(&self, px: u8, d: Option<&W>) -> Arg {
        match d {
            None => Arg(10, self.x8(px as u32), self.x8(0), self.k16(0)),
            Some(d) => Arg(10, self.x8(px as u32), self.x8(1), Self::cat(&self.x8(0), d)),
        }
    }
    fn abit(&self, n: u8) -> Arg {
        Arg(2, self.x8(n as u32), self.x8(0), self.k16(0))
    }
    fn acc(&self, n: u8) -> Arg {
        Arg(13, self.x8(n as u32), self.x8(0), self.k16(0))
    }
    fn a0(&self, k: u8) -> Arg {
        Arg(k, self.x8(0), self.x8(0), self.k16(0))
    }
    fn flush_rec(&mut self, pc0: &W) {
        if let Some((mn, args, px, _)) = self.rec.take() {
            if self.mnemonic.is_empty() {
                self.mnemonic = mn.to_string();
            }
            if !self.dbg {
                return;
            }
            let mut w = vec![pc0.clone(), self.k8(px as u32), self.k8(self.bytes.len() as u32)];
            for i in 0..4 {
                w.push(self.bytes.get(i).cloned().unwrap_or(vec![F; 8]));
            }
            let b = mn.as_bytes();
            for i in 0..4 {
                w.push(self.k8(b.get(i).copied().unwrap_or(0) as u32));
            }
            w.push(self.k8(b.len() as u32));
            self.tr[DBG].push(Rc::new(Ev { k: K::Rec, args: w, ret: vec![], loc: u32::MAX }));
            for (i, a) in args.into_iter().enumerate() {
                let w = vec![self.k8(i as u32), self.k8(a.0 as u32), a.1, a.2, a.3];
                self.tr[DBG].push(Rc::new(Ev { k: K::Arg, args: w, ret: vec![], loc: u32::MAX }));
            }
        }
    }

    // ------------------------------------------------------------ steps
    pub fn step(&mut self) {
        if self.s.px == 0 {
            let may = self.and(self.s.iff1, self.s.ei ^ 1);
            if self.fork(may) {
                let now = self.now();
                let r = self.ctl(K::IsIrq, vec![now]);
                if self.fork(r[0]) {
                    self.irq_ack();
                    return;
                }
            }
        }
        if self.fork(self.s.halt) {
            self.inc_r();
            let pc = self.s.pc.clone();
            self.clk(K::M1, vec![pc]);
            return;
        }
        let c = self.fetch();
        let c = self.m.m.as_const(&c).expect("constant opcode") as u8;
        self.exec(c);
    }
    pub fn irq(&mut self) {
        let mut may = self.and(self.s.iff1, self.s.ei ^ 1);
        if self.s.px != 0 {
            may = F;
        }
        if !self.fork(may) {
            self.res = (0x80, 0);
            return;
        }
        self.irq_ack();
    }
    fn resume_pc(&mut self) -> W {
        let pc1 = self.addk(&self.s.pc.clone(), 1);
        let h = self.s.halt;
        let pc = self.s.pc.clone();
        let pc = self.mux(h, &pc1, &pc);
        self.s.halt = F;
        pc
    }
    fn irq_ack(&mut self) {
        self.s.iff1 = F;
        self.s.iff2 = F;
        self.inc_r();
        let pc = self.resume_pc();
        self.s.pc = pc.clone();
        let ts = self.clk(K::Irq, vec![pc.clone()]);
        let v = self.ctl(K::IrqData, vec![pc.clone(), ts]);
        self.wait(&pc, &v);
        let im = self.m.m.as_const(&self.s.im.clone()).expect("constant interrupt mode");
        match im {
            0 => {
                let c = self.m.m.as_const(&v[..8]).expect("constant vector") as u8;
                self.exec(c)
            }
            1 => self.exec(0xFF),
            _ => {
                let ir = self.ir();
                self.idle(&ir, 1);
                self.push(&pc);
                self.s.pc = Self::cat(&self.s.i, &v[..8].to_vec());
                self.exec(0xC3);
            }
        }
    }
    pub fn nmi(&mut self) {
        let mut no = self.s.ei;
        if self.s.px != 0 {
            no = T;
        }
        if self.fork(no) {
            self.res = (0, 0);
            return;
        }
        self.res = (1, 0);
        self.s.ei = F;
        self.s.iff1 = F;
        self.inc_r();
        let pc = self.resume_pc();
        self.clk(K::M1, vec![pc.clone()]);
        let ir = self.ir();
        self.idle(&ir, 1);
        self.push(&pc);
        self.s.q0 = self.s.q1;
        self.s.q1 = F;
        self.s.pc = self.k16(0x66);
    }
    fn past(&mut self) -> bool {
        let n = self.tr[CLK].len();
        match (self.m.cfg.past)(n) {
            Some(b) => b,
            None => {
                let v = self.m.m.var(PAST0 + n as u32, 0);
                self.fork(v)
            }
        }
    }
    /// run until the limit: single steps, stopping when the limit has passed,
    /// on a break, or on HALT
    pub fn limit(&mut self) {
        while !self.past() {
            self.step();
            if self.res.0 != 0 {
                return;
            }
        }
    }

    pub fn observe(&mut self) -> Vec<(u32, W)> {
        let h = |b: B| vec![b];
        let s = self.s.clone();
        let mut v: Vec<(u32, W)> = vec![
            (0, self.k16(self.res.0 as u32)),
            (1, self.k16(self.res.1 as u32)),
            (2, self.af()),
            (3, self.bc()),
            (4, self.de()),
            (5, self.hl()),
        ];
        for i in 0..4 {
            v.push((6 + i as u32, s.alt[i].clone()));
        }
        v.push((10, s.ii[0].clone()));
        v.push((11, s.ii[1].clone()));
        v.push((12, s.pc.clone()));
        v.push((13, s.sp.clone()));
        v.push((14, s.mp.clone()));
        v.push((15, self.ir()));
        v.push((16, s.r.clone()));
        v.push((17, s.im.clone()));
        v.push((18, h(s.iff1)));
        v.push((19, h(s.iff2)));
        v.push((20, h(s.halt)));
        v.push((21, h(s.ei)));
        v.push((22, self.k8(s.px as u32)));
        let (q0, q1) = if self.fl == Fl::Cmos { (T, T) } else { (s.q0, s.q1) };
        v.push((23, vec![q0 ^ 1; 8]));
        v.push((24, vec![q1 ^ 1; 8]));
        for x in v.iter_mut() {
            x.1.resize(16, F);
        }
        v
    }

    // ------------------------------------------------------------ execution
    pub fn exec(&mut self, code: u8) {
        self.s.q0 = self.s.q1;
        self.s.q1 = F;
        self.s.ei = F;
        self.s.halt = F;
        if code == 0xDD || code == 0xFD {
            self.s.px = if code == 0xDD { 1 } else { 2 };
            return;
        }
        let px = if indexed(code) { self.s.px } else { 0 };
        self.s.px = 0;
        // the record of an indexed instruction starts at its prefix byte
        let pc0 = self.addk(&self.s.pc.clone(), if px == 0 { -1 } else { -2 });
        let c = self.k8(code as u32);
        self.bytes = vec![c];
        if px != 0 {
            let b = self.k8(if px == 1 { 0xDD } else { 0xFD });
            self.bytes.insert(0, b);
        }
        match code {
            0xCB => self.page_cb(px),
            0xED => self.page_ed(),
            _ => self.page_main(code, px),
        }
        self.flush_rec(&pc0);
    }

    /// address of the (HL) / (ii+d) operand of a one-byte opcode, with the
    /// displacement fetched when there is one
    fn ea(&mut self, px: u8) -> (W, Arg) {
        if px == 0 {
            (self.hl(), self.areg(2))
        } else {
            let pa = self.s.pc.clone();
            let d = self.imm8();
            self.idle(&pa, 5);
            let a = self.index_addr(px, &d);
            self.s.mp = a.clone();
            (a, self.aidx(px, Some(&d)))
        }
    }
    fn index_addr(&mut self, px: u8, d: &W) -> W {
        let mut e = d.clone();
        e.resize(16, d[7]);
        let b = self.hlx(px);
        self.m.m.add(&b, &e)
    }
    fn jr_target(&mut self, e: &W) -> W {
        let mut x = e.clone();
        x.resize(16, e[7]);
        let pc = self.s.pc.clone();
        self.m.m.add(&pc, &x)
    }
    fn jr(&mut self, mn: &'static str, taken: bool, cc: Option<u8>) {
        let a = self.s.pc.clone();
        let e;
        if taken {
            e = self.imm8();
            self.idle(&a, 5);
        } else {
            self.clk(K::Mreq, vec![a.clone()]);
            e = self.ctl(K::RdDebug, vec![a.clone()]);
            self.s.pc = self.addk(&a, 1);
            self.bytes.push(e.clone());
        }
        let t = self.jr_target(&e);
        let mut args = vec![];
        if let Some(c) = cc {
            args.push(self.acc(c));
        }
        args.push(self.ai16(&t));
        self.d(mn, args, 0);
        if taken {
            self.s.mp = t.clone();
            self.s.pc = t;
        }
    }
    fn mix(&mut self, lo: &W) -> W {
        let l1 = self.addk(lo, 1);
        let a = self.a();
        let (hi, l1) = match self.fl {
            Fl::Bm1 => (self.k8(0), l1),
            // what the hook makes of A and the low half of the address
            Fl::Own(_) => {
                let (k, l) = (inp(self.m, KX[0], 1), inp(self.m, KX[1], 1));
                (self.m.m.xor_w(&rol(&a, 3), &k), self.m.m.xor_w(&rol(lo, 2), &l))
            }
            _ => (a, l1),
        };
        Self::cat(&hi, &l1)
    }

    fn page_main(&mut self, c: u8, px: u8) {
        let (x, y, z) = (c >> 6, c >> 3 & 7, c & 7);
        let (p, q) = (y >> 1, y & 1);
        match (x, z) {
            (0, 0) => match y {
                0 => self.d("NOP", vec![], px),
                1 => {
                    let af = self.af();
                    let al = std::mem::replace(&mut self.s.alt[0], af);
                    self.s.r8[RA] = al[8..].to_vec();
                    self.s.r8[RF] = al[..8].to_vec();
                    let a = vec![self.astk(3), self.astk(3)];
                    self.d("EX", a, px);
                }
                2 => {
                    let ir = self.ir();
                    self.idle(&ir, 1);
                    let b = self.s.r8[0].clone();
                    let b = self.addk(&b, -1);
                    self.s.r8[0] = b.clone();
                    let nz = self.m.m.nonzero(&b);
                    let t = self.fork(nz);
                    self.jr("DJNZ", t, None);
                }
                3 => self.jr("JR", true, None),
                _ => {
                    let t = self.fork(self.cc(y - 4));
                    self.jr("JR", t, Some(y - 4));
                }
            },
            (0, 1) => {
                if q == 0 {
                    let v = self.imm16();
                    self.set_dd(p, px, &v);
                    let a = vec![self.ar16(p, px), self.ai16(&v)];
                    self.d("LD", a, px);
                } else {
                    let a = self.hlx(px);
                    let b = self.dd(p, px);
                    self.idle_ir(7);
                    self.s.mp = self.addk(&a, 1);
                    let r = self.add16(&a, &b);
                    self.set_hlx(px, &r);
                    let a = vec![self.ar16(2, px), self.ar16(p, px)];
                    self.d("ADD", a, px);
                }
            }
            (0, 2) => match y {
                0 | 2 => {
                    let a = self.pair(p as usize);
                    let v = self.a();
                    self.write(&a, &v);
                    self.s.mp = self.mix(&a[..8].to_vec());
                    let r = vec![self.areg(p), self.ar8(7, 0)];
                    self.d("LD", r, px);
                }
                1 | 3 => {
                    let a = self.pair(p as usize);
                    let v = self.read(&a);
                    self.s.r8[RA] = v;
                    self.s.mp = self.addk(&a, 1);
                    let r = vec![self.ar8(7, 0), self.areg(p)];
                    self.d("LD", r, px);
                }
                4 => {
                    let nn = self.imm16();
                    let v = self.hlx(px);
                    self.store16(&nn, &v);
                    let r = vec![self.aaddr(&nn), self.ar16(2, px)];
                    self.d("LD", r, px);
                }
                5 => {
                    let nn = self.imm16();
                    let v = self.load16(&nn);
                    self.set_hlx(px, &v);
                    let r = vec![self.ar16(2, px), self.aaddr(&nn)];
                    self.d("LD", r, px);
                }
                6 => {
                    let nn = self.imm16();
                    let v = self.a();
                    self.write(&nn, &v);
                    self.s.mp = self.mix(&nn[..8].to_vec());
                    let r = vec![self.aaddr(&nn), self.ar8(7, 0)];
                    self.d("LD", r, px);
                }
                _ => {
                    let nn = self.imm16();
                    let v = self.read(&nn);
                    self.s.r8[RA] = v;
                    self.s.mp = self.addk(&nn, 1);
                    let r = vec![self.ar8(7, 0), self.aaddr(&nn)];
                    self.d("LD", r, px);
                }
            },
            (0, 3) => {
                self.idle_ir(2);
                let v = self.dd(p, px);
                let v = self.addk(&v, if q == 0 { 1 } else { -1 });
                self.set_dd(p, px, &v);
                let r = vec![self.ar16(p, px)];
                self.d(if q == 0 { "INC" } else { "DEC" }, r, px);
            }
            (0, 4) | (0, 5) => {
                let mn = if z == 4 { "INC" } else { "DEC" };
                if y == 6 {
                    let (a, arg) = self.ea(px);
                    let v = self.read(&a);
                    self.idle(&a, 1);
                    let v = self.incdec(&v, z == 5);
                    self.write(&a, &v);
                    self.d(mn, vec![arg], px);
                } else {
                    let v = self.r(y, px);
                    let v = self.incdec(&v, z == 5);
                    self.set_r(y, px, &v);
                    let r = vec![self.ar8(y, px)];
                    self.d(mn, r, px);
                }
            }
            (0, 6) => {
                if y == 6 {
                    if px == 0 {
                        let n = self.imm8();
                        let a = self.hl();
                        self.write(&a, &n);
                        let r = vec![self.areg(2), self.ai8(&n)];
                        self.d("LD", r, px);
                    } else {
                        let d = self.imm8();
                        let na = self.s.pc.clone();
                        let n = self.imm8();
                        self.idle(&na, 2);
                        let a = self.index_addr(px, &d);
                        self.s.mp = a.clone();
                        self.write(&a, &n);
                        let r = vec![self.aidx(px, Some(&d)), self.ai8(&n)];
                        self.d("LD", r, px);
                    }
                } else {
                    let n = self.imm8();
                    self.set_r(y, px, &n);
                    let r = vec![self.ar8(y, px), self.ai8(&n)];
                    self.d("LD", r, px);
                }
            }
            (0, 7) => self.acc_ops(y, px),
            (1, 6) if y == 6 => {
                self.s.pc = self.addk(&self.s.pc.clone(), -1);
                self.s.halt = T;
                self.res = (1, 0);
                self.d("HALT", vec![], px);
            }
            (1, 6) => {
                let (a, arg) = self.ea(px);
                let v = self.read(&a);
                self.set_r(y, 0, &v);
                let r = vec![self.ar8(y, 0), arg];
                self.d("LD", r, px);
            }
            (1, _) if y == 6 => {
                let (a, arg) = self.ea(px);
                let v = self.r(z, 0);
                self.write(&a, &v);
                let r = vec![arg, self.ar8(z, 0)];
                self.d("LD", r, px);
            }
            (1, _) => {
                let v = self.r(z, px);
                self.set_r(y, px, &v);
                let r = vec![self.ar8(y, px), self.ar8(z, px)];
                self.d("LD", r, px);
            }
            (2, _) => {
                let (v, arg) = if z == 6 {
                    let (a, arg) = self.ea(px);
                    (self.read(&a), arg)
                } else {
                    (self.r(z, px), self.ar8(z, px))
                };
                self.alu(y, &v);
                self.alu_rec(y, arg, px);
            }
            (3, 0) => {
                self.idle_ir(1);
                let r = vec![self.acc(y)];
                self.d("RET", r, px);
                if self.fork(self.cc(y)) {
                    self.ret();
                }
            }
            (3, 1) if q == 0 => {
                let v = self.pop();
                if p == 3 {
                    self.s.r8[RA] = v[8..].to_vec();
                    self.s.r8[RF] = v[..8].to_vec();
                } else {
                    self.set_dd(p, px, &v);
                }
                let r = vec![if px > 0 { self.ar16(2, px) } else { self.astk(p) }];
                self.d("POP", r, px);
            }
            (3, 1) => match p {
                0 => {
                    self.d("RET", vec![], px);
                    self.ret();
                }
                1 => {
                    for i in 0..3 {
                        let v = self.pair(i);
                        let w = std::mem::replace(&mut self.s.alt[i + 1], v);
                        self.set_pair(i, &w);
                    }
                    self.d("EXX", vec![], px);
                }
                2 => {
                    self.s.pc = self.hlx(px);
                    let r = vec![if px > 0 { self.aidx(px, None) } else { self.areg(2) }];
                    self.d("JP", r, px);
                }
                _ => {
                    self.idle_ir(2);
                    self.s.sp = self.hlx(px);
                    let r = vec![self.ar16(3, 0), self.ar16(2, px)];
                    self.d("LD", r, px);
                }
            },
            (3, 2) => {
                let nn = self.imm16();
                self.s.mp = nn.clone();
                let r = vec![self.acc(y), self.ai16(&nn)];
                self.d("JP", r, px);
                let c = self.cc(y);
                let pc = self.s.pc.clone();
                self.s.pc = self.mux(c, &nn, &pc);
            }
            (3, 3) => match y {
                0 => {
                    let nn = self.imm16();
                    self.s.mp = nn.clone();
                    self.s.pc = nn.clone();
                    let r = vec![self.ai16(&nn)];
                    self.d("JP", r, px);
                }
                2 => {
                    let n = self.imm8();
                    let a = self.a();
                    self.s.mp = self.mix(&n);
                    let r = vec![self.a11(&n), self.ar8(7, 0)];
                    self.d("OUT", r, px);
                    let port = Self::cat(&a, &n);
                    let b = self.io_out(&port, &a);
                    self.brk_out(b);
                }
                3 => {
                    let n = self.imm8();
                    let port = Self::cat(&self.a(), &n);
                    self.s.mp = self.addk(&port, 1);
                    let r = vec![self.ar8(7, 0), self.a11(&n)];
                    self.d("IN", r, px);
                    let v = self.io_in(&port);
                    self.s.r8[RA] = v;
                }
                4 => {
                    let sp = self.s.sp.clone();
                    let v = self.read16(&sp);
                    let sp1 = self.addk(&sp, 1);
                    self.idle(&sp1, 1);
                    let h = self.hlx(px);
                    self.write(&sp1, &h[8..].to_vec());
                    self.write(&sp, &h[..8].to_vec());
                    self.idle(&sp, 2);
                    self.set_hlx(px, &v);
                    self.s.mp = v;
                    let r = vec![self.areg(3), self.ar16(2, px)];
                    self.d("EX", r, px);
                }
                5 => {
                    let (d, h) = (self.de(), self.hl());
                    self.set_pair(1, &h);
                    self.set_pair(2, &d);
                    let r = vec![self.ar16(1, 0), self.ar16(2, 0)];
                    self.d("EX", r, px);
                }
                6 => {
                    self.s.iff1 = F;
                    self.s.iff2 = F;
                    self.d("DI", vec![], px);
                }
                7 => {
                    self.s.iff1 = T;
                    self.s.iff2 = T;
                    self.s.ei = T;
                    self.d("EI", vec![], px);
                }
                _ => unreachable!(),
            },
            (3, 4) => {
                let hi = self.addk(&self.s.pc.clone(), 1);
                let nn = self.imm16();
                self.s.mp = nn.clone();
                let r = vec![self.acc(y), self.ai16(&nn)];
                self.d("CALL", r, px);
                if self.fork(self.cc(y)) {
                    self.idle(&hi, 1);
                    let pc = self.s.pc.clone();
                    self.push(&pc);
                    self.s.pc = nn;
                }
            }
            (3, 5) if q == 0 => {
                self.idle_ir(1);
                let v = if p == 3 { self.af() } else { self.dd(p, px) };
                self.push(&v);
                let r = vec![if px > 0 { self.ar16(2, px) } else { self.astk(p) }];
                self.d("PUSH", r, px);
            }
            (3, 5) => {
                let hi = self.addk(&self.s.pc.clone(), 1);
                let nn = self.imm16();
                self.s.mp = nn.clone();
                let r = vec![self.ai16(&nn)];
                self.d("CALL", r, px);
                self.idle(&hi, 1);
                let pc = self.s.pc.clone();
                self.push(&pc);
                self.s.pc = nn;
            }
            (3, 6) => {
                let n = self.imm8();
                self.alu(y, &n);
                let a = self.ai8(&n);
                self.alu_rec(y, a, px);
            }
            (3, 7) => {
                self.idle_ir(1);
                let pc = self.s.pc.clone();
                self.push(&pc);
                let t = self.k16(c as u32 & 0x38);
                self.s.mp = t.clone();
                self.s.pc = t;
                let n = self.k8(c as u32 & 0x38);
                let r = vec![self.ai8(&n)];
                self.d("RST", r, px);
            }
            _ => unreachable!(),
        }
    }
    fn a11(&self, n: &W) -> Arg {
        Arg(11, n.clone(), self.x8(0), self.k16(0))
    }
    fn idle_ir(&mut self, n: u32) {
        let ir = self.ir();
        self.idle(&ir, n);
    }
    fn ret(&mut self) {
        let a = self.pop();
        self.s.mp = a.clone();
        self.s.pc = a;
    }
    fn alu_rec(&mut self, y: u8, arg: Arg, px: u8) {
        let mn = ["ADD", "ADC", "SUB", "SBC", "AND", "XOR", "OR", "CP"][y as usize];
        let mut r = vec![];
        if matches!(y, 0 | 1 | 3) {
            r.push(self.ar8(7, 0));
        }
        r.push(arg);
        self.d(mn, r, px);
    }
    fn store16(&mut self, nn: &W, v: &W) {
        self.write(nn, &v[..8].to_vec());
        let n1 = self.addk(nn, 1);
        self.write(&n1, &v[8..].to_vec());
        self.s.mp = n1;
    }
    fn load16(&mut self, nn: &W) -> W {
        let v = self.read16(nn);
        self.s.mp = self.addk(nn, 1);
        v
    }
    fn add16(&mut self, a: &W, b: &W) -> W {
        let (r, c) = self.m.m.addc(a, b, F);
        let h = self.m.m.addc(&a[..12], &b[..12], F).1;
        self.sf(HF, h);
        self.sf(NF, F);
        self.sf(CF, c);
        self.xy(&r[8..].to_vec());
        self.q();
        r
    }
    fn acc_ops(&mut self, y: u8, px: u8) {
        let a = self.a();
        let c = self.f(CF);
        match y {
            0..=3 => {
                let keep = (self.f(SF), self.f(ZF), self.f(PF));
                let r = self.rot(y, &a);
                self.s.r8[RA] = r;
                self.sf(SF, keep.0);
                self.sf(ZF, keep.1);
                self.sf(PF, keep.2);
                self.d(["RLCA", "RRCA", "RLA", "RRA"][y as usize], vec![], px);
            }
            4 => {
                // decimal adjust: correction from the flags and the digits
                let nine = self.k8(9)[..4].to_vec();
                let lo_gt9 = self.m.m.ult(&nine, &a[..4]);
                let k99 = self.k8(0x99);
                let gt99 = self.m.m.ult(&k99, &a);
                let h = self.f(HF);
                let n = self.f(NF);
                let lo = self.or(h, lo_gt9);
                let hi = self.or(c, gt99);
                let corr = vec![F, lo, lo, F, F, hi, hi, F];
                let plus = self.m.m.add(&a, &corr);
                let minus = self.m.m.sub(&a, &corr);
                let r = self.mux(n, &minus, &plus);
                // half carry: carry or borrow actually produced by the low digit
                let hp = self.and(lo_gt9, T);
                let five = self.k8(6)[..4].to_vec();
                let lt6 = self.m.m.ult(&a[..4], &five);
                let hm = self.and(h, lt6);
                let nh = self.m.m.ite(n, hm, hp);
                self.szxy(&r);
                let p = self.par(&r);
                self.sf(PF, p);
                self.sf(HF, nh);
                self.sf(CF, hi);
                self.s.r8[RA] = r;
                self.q();
                self.d("DAA", vec![], px);
            }
            5 => {
                let r = self.m.m.inv(&a);
                self.sf(HF, T);
                self.sf(NF, T);
                self.xy(&r);
                self.s.r8[RA] = r;
                self.q();
                self.d("CPL", vec![], px);
            }
            _ => {
                let f = self.s.r8[RF].clone();
                for i in [3, 5] {
                    let af = self.or(a[i], f[i]);
                    let v = match self.fl {
                        Fl::Cmos => a[i],
                        Fl::Own(_) => {
                            let k = inp(self.m, KX[2], 1)[i];
                            let l = inp(self.m, KX[3], 1)[i];
                            let k = self.m.m.ite(self.s.q0, k, l);
                            let x = self.m.m.xor(a[i - 1], f[8 - i]);
                            self.m.m.xor(x, k)
                        }
                        _ => self.m.m.ite(self.s.q0, a[i], af),
                    };
                    self.sf(i, v);
                }
                self.sf(NF, F);
                if y == 6 {
                    self.sf(HF, F);
                    self.sf(CF, T);
                } else {
                    self.sf(HF, c);
                    self.sf(CF, c ^ 1);
                }
                self.q();
                self.d(if y == 6 { "SCF" } else { "CCF" }, vec![], px);
            }
        }
    }

    fn page_cb(&mut self, px: u8) {
        const RN: [&str; 8] = ["RLC", "RRC", "RL", "RR", "SLA", "SRA", "SLL", "SRL"];
        if px == 0 {
            let op = self.fetch();
            self.bytes.push(op.clone());
            let op = self.m.m.as_const(&op).expect("constant opcode") as u8;
            let (x, y, z) = (op >> 6, op >> 3 & 7, op & 7);
            let hl = self.hl();
            let arg = if z == 6 { self.areg(2) } else { self.ar8(z, 0) };
            let v = if z == 6 {
                let v = self.read(&hl);
                self.idle(&hl, 1);
                v
            } else {
                self.r(z, 0)
            };
            let res = match x {
                0 => Some(self.rot(y, &v)),
                1 => {
                    let xy = if z == 6 { self.s.mp[8..].to_vec() } else { v.clone() };
                    self.bit(y, &v, &xy);
                    None
                }
                _ => {
                    let mut r = v.clone();
                    r[y as usize] = if x == 3 { T } else { F };
                    Some(r)
                }
            };
            if let Some(r) = res {
                if z == 6 {
                    self.write(&hl, &r);
                } else {
                    self.set_r(z, 0, &r);
                }
            }
            let mut args = vec![];
            if x > 0 {
                args.push(self.abit(y));
            }
            args.push(arg);
            self.d(if x == 0 { RN[y as usize] } else { ["", "BIT", "RES", "SET"][x as usize] }, args, px);
        } else {
            let d = self.imm8();
            let oa = self.s.pc.clone();
            let op = self.imm8();
            self.idle(&oa, 2);
            let op = self.m.m.as_const(&op).expect("constant opcode") as u8;
            let (x, y, z) = (op >> 6, op >> 3 & 7, op & 7);
            let a = self.index_addr(px, &d);
            self.s.mp = a.clone();
            let v = self.read(&a);
            self.idle(&a, 1);
            let res = match x {
                0 => Some(self.rot(y, &v)),
                1 => {
                    let xy = a[8..].to_vec();
                    self.bit(y, &v, &xy);
                    None
                }
                _ => {
                    let mut r = v.clone();
                    r[y as usize] = if x == 3 { T } else { F };
                    Some(r)
                }
            };
            let mut args = vec![];
            if x > 0 {
                args.push(self.abit(y));
            }
            args.push(self.aidx(px, Some(&d)));
            if let Some(r) = res {
                self.write(&a, &r);
                if z != 6 {
                    self.set_r(z, 0, &r);
                    args.push(self.ar8(z, 0));
                }
            }
            self.d(if x == 0 { RN[y as usize] } else { ["", "BIT", "RES", "SET"][x as usize] }, args, px);
        }
    }

    fn page_ed(&mut self) {
        let op = self.fetch();
        self.bytes.push(op.clone());
        let op = self.m.m.as_const(&op).expect("constant opcode") as u8;
        let (x, y, z) = (op >> 6, op >> 3 & 7, op & 7);
        let (p, q) = (y >> 1, y & 1);
        match (x, z) {
            (1, 0) => {
                let bc = self.bc();
                self.s.mp = self.addk(&bc, 1);
                let mut args = vec![];
                if y != 6 {
                    args.push(self.ar8(y, 0));
                }
                args.push(self.a0(12));
                self.d("IN", args, 0);
                let v = self.io_in(&bc);
                self.szxy(&v);
                let pp = self.par(&v);
                self.sf(PF, pp);
                self.sf(HF, F);
                self.sf(NF, F);
                self.q();
                if y != 6 {
                    self.set_r(y, 0, &v);
                }
            }
            (1, 1) => {
                let bc = self.bc();
                self.s.mp = self.addk(&bc, 1);
                let mut args = vec![self.a0(12)];
                let v = if y != 6 {
                    args.push(self.ar8(y, 0));
                    self.r(y, 0)
                } else {
                    self.k8(match self.fl {
                        Fl::Cmos => 0xFF,
                        Fl::Own(true) => 0xA7,
                        Fl::Own(false) => 0x58,
                        _ => 0,
                    })
                };
                self.d("OUT", args, 0);
                let b = self.io_out(&bc, &v);
                self.brk_out(b);
            }
            (1, 2) => {
                self.idle_ir(7);
                let a = self.hl();
                let b = self.dd(p, 0);
                self.s.mp = self.addk(&a, 1);
                let c = self.f(CF);
                let sub = q == 0;
                let bb = if sub { self.m.m.inv(&b) } else { b };
                let ci = if sub { c ^ 1 } else { c };
                let (r, co) = self.m.m.addc(&a, &bb, ci);
                let h = self.m.m.addc(&a[..12], &bb[..12], ci).1;
                let c15 = self.m.m.addc(&a[..15], &bb[..15], ci).1;
                let v = self.m.m.xor(c15, co);
                let z = self.m.m.nonzero(&r) ^ 1;
                let inv = sub as u32;
                self.sf(SF, r[15]);
                self.sf(ZF, z);
                self.xy(&r[8..].to_vec());
                self.sf(HF, h ^ inv);
                self.sf(PF, v);
                self.sf(NF, if sub { T } else { F });
                self.sf(CF, co ^ inv);
                self.q();
                self.set_pair(2, &r);
                let args = vec![self.ar16(2, 0), self.ar16(p, 0)];
                self.d(if sub { "SBC" } else { "ADC" }, args, 0);
            }
            (1, 3) => {
                let nn = self.imm16();
                let (ad, rr) = (self.aaddr(&nn), self.ar16(p, 0));
                if q == 0 {
                    let v = self.dd(p, 0);
                    self.store16(&nn, &v);
                    self.d("LD", vec![ad, rr], 0);
                } else {
                    let v = self.load16(&nn);
                    self.set_dd(p, 0, &v);
                    self.d("LD", vec![rr, ad], 0);
                }
            }
            (1, 4) => {
                let z = self.k8(0);
                let a = self.a();
                let r = self.sub8(&z, &a, F);
                self.s.r8[RA] = r;
                self.q();
                self.d("NEG", vec![], 0);
            }
            (1, 5) => {
                self.s.iff1 = self.s.iff2;
                if y == 1 {
                    self.d("RETI", vec![], 0);
                    let now = self.now();
                    let pc = self.s.pc.clone();
                    let b = self.ctl(K::Reti, vec![pc, now]);
                    let tok = self.tr[CTL].len() as u16;
                    self.ret();
                    if self.fork(b[0]) {
                        self.res = (3, tok);
                    }
                } else {
                    self.d("RETN", vec![], 0);
                    self.ret();
                }
            }
            (1, 6) => {
                let im = [0, 0, 1, 2, 0, 0, 1, 2][y as usize];
                self.s.im = self.k8(im);
                let a = vec![Arg(3, self.k8(im), self.x8(0), self.k16(0))];
                self.d("IM", a, 0);
            }
            (1, 7) => match y {
                0 | 1 => {
                    self.idle_ir(1);
                    let a = self.a();
                    if y == 0 {
                        self.s.i = a;
                    } else {
                        self.s.r = a;
                    }
                    let args = vec![self.a0(14 + y), self.ar8(7, 0)];
                    self.d("LD", args, 0);
                }
                2 | 3 => {
                    self.idle_ir(1);
                    let v = if y == 2 { self.s.i.clone() } else { self.s.r.clone() };
                    let mut pv = self.s.iff2;
                    if matches!(self.fl, Fl::Nmos | Fl::Own(true)) {
                        let both = self.and(self.s.iff1, self.s.iff2);
                        if self.fork(both) {
                            let now = self.now();
                            let i = self.ctl(K::IsIrq, vec![now]);
                            pv = self.and(pv, i[0] ^ 1);
                        }
                    }
                    self.szxy(&v);
                    self.sf(PF, pv);
                    self.sf(HF, F);
                    self.sf(NF, F);
                    self.q();
                    self.s.r8[RA] = v;
                    let args = vec![self.ar8(7, 0), self.a0(14 + (y & 1))];
                    self.d("LD", args, 0);
                }
                4 | 5 => {
                    let hl = self.hl();
                    self.s.mp = self.addk(&hl, 1);
                    let v = self.read(&hl);
                    self.idle(&hl, 4);
                    let a = self.a();
                    let (lo, hi, al) = (v[..4].to_vec(), v[4..].to_vec(), a[..4].to_vec());
                    let mut w;
                    let mut na;
                    if y == 4 {
                        // RRD
                        w = hi;
                        w.extend(al);
                        na = lo;
                    } else {
                        w = al;
                        w.extend(lo);
                        na = hi;
                    }
                    na.extend_from_slice(&a[4..]);
                    self.write(&hl, &w);
                    self.szxy(&na);
                    let pp = self.par(&na);
                    self.sf(PF, pp);
                    self.sf(HF, F);
                    self.sf(NF, F);
                    self.q();
                    self.s.r8[RA] = na;
                    self.d(if y == 4 { "RRD" } else { "RLD" }, vec![], 0);
                }
                _ => self.d("NOP*", vec![], 0),
            },
            (2, 0..=3) if y >= 4 => self.block(y, z),
            _ => self.d("NOP*", vec![], 0),
        }
    }

    fn block(&mut self, y: u8, z: u8) {
        let dn = y & 1 == 1;
        let rep = y >= 6;
        let dl = if dn { -1 } else { 1 };
        let hl = self.hl();
        let hl1 = self.addk(&hl, dl);
        match z {
            0 => {
                let v = self.read(&hl);
                let de = self.de();
                self.write(&de, &v);
                self.idle(&de, 2);
                let bc = self.addk(&self.bc(), -1);
                self.set_pair(0, &bc);
                self.set_pair(2, &hl1);
                let de1 = self.addk(&de, dl);
                self.set_pair(1, &de1);
                let a = self.a();
                let n = self.m.m.add(&a, &v);
                self.sf(5, n[1]);
                self.sf(3, n[3]);
                self.sf(HF, F);
                self.sf(NF, F);
                let nz = self.m.m.nonzero(&bc);
                self.sf(PF, nz);
                self.q();
                self.d(["LDI", "LDD", "LDIR", "LDDR"][(y - 4) as usize], vec![], 0);
                if rep && self.fork(nz) {
                    self.idle(&de, 5);
                    self.again(true);
                }
            }
            1 => {
                let v = self.read(&hl);
                self.idle(&hl, 5);
                let a = self.a();
                let c = self.f(CF);
                let r = self.sub8(&a, &v, F);
                self.sf(CF, c);
                let mut h = vec![F; 8];
                h[0] = self.f(HF);
                let n = self.m.m.sub(&r, &h);
                self.sf(5, n[1]);
                self.sf(3, n[3]);
                let bc = self.addk(&self.bc(), -1);
                self.set_pair(0, &bc);
                self.set_pair(2, &hl1);
                let nz = self.m.m.nonzero(&bc);
                self.sf(PF, nz);
                self.q();
                self.d(["CPI", "CPD", "CPIR", "CPDR"][(y - 4) as usize], vec![], 0);
                let ne = self.m.m.nonzero(&r);
                let more = self.and(nz, ne);
                if rep && self.fork(more) {
                    self.idle(&hl, 5);
                    self.again(true);
                } else {
                    self.s.mp = self.addk(&self.s.mp.clone(), dl);
                }
            }
            2 => {
                self.idle_ir(1);
                let bc = self.bc();
                let v = self.io_in(&bc);
                self.write(&hl, &v);
                self.s.mp = self.addk(&bc, dl);
                let c1 = self.addk(&self.s.r8[1].clone(), dl);
                self.iox(&v, &c1);
                self.set_pair(2, &hl1);
                self.d(["INI", "IND", "INIR", "INDR"][(y - 4) as usize], vec![], 0);
                let nz = self.f(ZF) ^ 1;
                if rep && self.fork(nz) {
                    self.idle(&hl, 5);
                    self.again(false);
                }
            }
            _ => {
                self.idle_ir(1);
                let v = self.read(&hl);
                self.set_pair(2, &hl1);
                let l = self.s.r8[5].clone();
                self.iox(&v, &l);
                let bc = self.bc();
                self.s.mp = self.addk(&bc, dl);
                let b = self.io_out(&bc, &v);
                self.d(["OUTI", "OUTD", "OTIR", "OTDR"][(y - 4) as usize], vec![], 0);
                let nz = self.f(ZF) ^ 1;
                if rep && self.fork(nz) {
                    self.idle(&bc, 5);
                    self.again(false);
                }
                self.brk_out(b);
            }
        }
    }
    /// flags (and the new B) of block input and output
    fn iox(&mut self, v: &W, x: &W) {
        let b = self.addk(&self.s.r8[0].clone(), -1);
        self.s.r8[0] = b.clone();
        let (k, c) = self.m.m.addc(v, x, F);
        self.szxy(&b);
        let mut t = b.clone();
        for i in 0..3 {
            t[i] = self.m.m.xor(t[i], k[i]);
        }
        let p = self.par(&t);
        self.sf(PF, p);
        self.sf(HF, c);
        self.sf(CF, c);
        self.sf(NF, v[7]);
        self.q();
    }
    fn again(&mut self, mp: bool) {
        let pc = self.s.pc.clone();
        if mp {
            self.s.mp = self.addk(&pc, -1);
        }
        self.s.pc = self.addk(&pc, -2);
    }
}
