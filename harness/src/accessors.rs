//! C23 (concrete CPUs) and C19 (the runtime-selectable CPU): accessors.
use crate::obs::*;
use crate::units::*;
use z80emu::z80::{Flavour, BM1, CMOS, NMOS};
use z80emu::*;

/// index into the snapshot of the pair holding `r` under `px`, and whether it is the high byte
fn cell(r: Reg8, px: Option<Prefix>) -> (usize, bool) {
    match (r, px) {
        (Reg8::B, _) => (BC, true),
        (Reg8::C, _) => (BC, false),
        (Reg8::D, _) => (DE, true),
        (Reg8::E, _) => (DE, false),
        (Reg8::A, _) => (AF, true),
        (Reg8::H, None) => (HL, true),
        (Reg8::L, None) => (HL, false),
        (Reg8::H, Some(Prefix::Xdd)) => (IX, true),
        (Reg8::L, Some(Prefix::Xdd)) => (IX, false),
        (Reg8::H, Some(Prefix::Yfd)) => (IY, true),
        (Reg8::L, Some(Prefix::Yfd)) => (IY, false),
    }
}
fn pair(r: StkReg16) -> usize {
    match r {
        StkReg16::AF => AF,
        StkReg16::BC => BC,
        StkReg16::DE => DE,
        StkReg16::HL => HL,
    }
}
fn index(p: Prefix) -> usize {
    match p {
        Prefix::Xdd => IX,
        Prefix::Yfd => IY,
    }
}
fn put(s: &mut Snap, c: (usize, bool), v: u8) {
    let w = s.0[c.0];
    s.0[c.0] = if c.1 { w & 0xFF | (v as u16) << 8 } else { w & 0xFF00 | v as u16 };
}
fn set_r_in(s: &mut Snap, r: u8) {
    s.0[R] = r as u16;
    s.0[IR] = s.0[IR] & 0xFF00 | r as u16;
}

pub trait Any: Cpu + MemPtr + Hist {
    fn norm(&mut self);
}
impl<Q: Flavour> Any for Z80<Q> {
    fn norm(&mut self) {
        self.normalize_r()
    }
}
impl Any for Z80Any {
    fn norm(&mut self) {
        self.normalize_r()
    }
}

pub fn initial<C: Any>(c: C, w: Snap) {
    same(&snap(&c), &w);
}
pub fn pc<C: Any>(mut c: C, mut w: Snap) {
    let v = b16(100);
    c.set_pc(v);
    w.0[PC] = v;
    same(&snap(&c), &w);
}
pub fn sp<C: Any>(mut c: C, mut w: Snap) {
    let v = b16(100);
    c.set_sp(v);
    w.0[SP] = v;
    same(&snap(&c), &w);
}
pub fn memptr<C: Any>(mut c: C, mut w: Snap) {
    let v = b16(100);
    c.set_mp(v);
    w.0[MP] = v;
    same(&snap(&c), &w);
}
pub fn acc<C: Any>(mut c: C, mut w: Snap) {
    let v = b8(100);
    eq!("get_acc", c.get_acc(), w.0[AF] >> 8);
    c.set_acc(v);
    put(&mut w, (AF, true), v);
    same(&snap(&c), &w);
    eq!("get_acc", c.get_acc(), v);
}
pub fn flags<C: Any>(mut c: C, mut w: Snap) {
    let v = b8(100);
    eq!("get_flags", c.get_flags().bits(), w.0[AF] & 0xFF);
    c.set_flags(CpuFlags::from_bits_retain(v));
    put(&mut w, (AF, false), v);
    same(&snap(&c), &w);
    eq!("get_flags", c.get_flags().bits(), v);
}
pub fn inc_r<C: Any>(mut c: C, mut w: Snap) {
    c.inc_r();
    let r = w.0[R] as u8;
    set_r_in(&mut w, r & 0x80 | r.wrapping_add(1) & 0x7F);
    same(&snap(&c), &w);
}
pub fn add_r<C: Any>(mut c: C, mut w: Snap) {
    let d = unsafe { crate::ev::zi_u32(100) };
    c.add_r(d as i32);
    let r = w.0[R] as u8;
    set_r_in(&mut w, r & 0x80 | r.wrapping_add(d as u8) & 0x7F);
    same(&snap(&c), &w);
}
pub fn r<C: Any>(mut c: C, mut w: Snap) {
    let v = b8(100);
    c.set_r(v);
    set_r_in(&mut w, v);
    same(&snap(&c), &w);
    c.norm();
    same(&snap(&c), &w);
}
pub fn i<C: Any>(mut c: C, mut w: Snap) {
    let v = b8(100);
    eq!("get_i", c.get_i(), w.0[IR] >> 8);
    c.set_i(v);
    w.0[IR] = w.0[IR] & 0xFF | (v as u16) << 8;
    same(&snap(&c), &w);
    eq!("get_i", c.get_i(), v);
}
pub fn iffs<C: Any>(mut c: C, mut w: Snap) {
    let (a, b) = (b1(100), b1(101));
    c.set_iffs(a, b);
    w.0[IFF1] = a as u16;
    w.0[IFF2] = b as u16;
    same(&snap(&c), &w);
}
pub fn halt<C: Any>(mut c: C, mut w: Snap) {
    c.halt();
    w.0[HALT] = 1;
    same(&snap(&c), &w);
}
pub fn im<C: Any>(mut c: C, mut w: Snap) {
    let v = mode(b8(100));
    c.set_im(v);
    w.0[IM] = im_code(v) as u16;
    same(&snap(&c), &w);
}
pub fn ex_af_af<C: Any>(mut c: C, mut w: Snap) {
    c.ex_af_af();
    w.0.swap(AF, AF2);
    same(&snap(&c), &w);
}
pub fn exx<C: Any>(mut c: C, mut w: Snap) {
    c.exx();
    w.0.swap(BC, BC2);
    w.0.swap(DE, DE2);
    w.0.swap(HL, HL2);
    same(&snap(&c), &w);
}
pub fn get_reg<C: Any>(c: C, w: Snap) {
    let (r, p) = (any_r8(100), any_opx(101));
    let (i, hi) = cell(r, p);
    let e = w.0[i];
    eq!("get_reg", c.get_reg(r, p), if hi { e >> 8 } else { e & 0xFF });
    same(&snap(&c), &w);
}
pub fn set_reg<C: Any>(mut c: C, mut w: Snap) {
    let (r, p, v) = (any_r8(100), any_opx(101), b8(102));
    c.set_reg(r, p, v);
    put(&mut w, cell(r, p), v);
    same(&snap(&c), &w);
    eq!("get_reg", c.get_reg(r, p), v);
}
pub fn get_reg16<C: Any>(c: C, w: Snap) {
    let r = any_stk(100);
    let e = w.0[pair(r)];
    let (h, l) = c.get_reg2(r);
    eq!("get_reg2 high", h, e >> 8);
    eq!("get_reg2 low", l, e & 0xFF);
    eq!("get_reg16", c.get_reg16(r), e);
    let e = w.0[pair(r) + AF2];
    let (h, l) = c.get_alt_reg2(r);
    eq!("get_alt_reg2 high", h, e >> 8);
    eq!("get_alt_reg2 low", l, e & 0xFF);
    eq!("get_alt_reg16", c.get_alt_reg16(r), e);
    let p = any_px(101);
    let e = w.0[index(p)];
    let (h, l) = c.get_index2(p);
    eq!("get_index2 high", h, e >> 8);
    eq!("get_index2 low", l, e & 0xFF);
    eq!("get_index16", c.get_index16(p), e);
}
pub fn set_reg2<C: Any>(mut c: C, mut w: Snap) {
    let (r, h, l) = (any_stk(100), b8(101), b8(102));
    c.set_reg2(r, h, l);
    w.0[pair(r)] = (h as u16) << 8 | l as u16;
    same(&snap(&c), &w);
}
pub fn set_reg16<C: Any>(mut c: C, mut w: Snap) {
    let (r, v) = (any_stk(100), b16(101));
    c.set_reg16(r, v);
    w.0[pair(r)] = v;
    same(&snap(&c), &w);
}
pub fn set_index2<C: Any>(mut c: C, mut w: Snap) {
    let (p, h, l) = (any_px(100), b8(101), b8(102));
    c.set_index2(p, h, l);
    w.0[index(p)] = (h as u16) << 8 | l as u16;
    same(&snap(&c), &w);
}
pub fn set_index16<C: Any>(mut c: C, mut w: Snap) {
    let (p, v) = (any_px(100), b16(101));
    c.set_index16(p, v);
    w.0[index(p)] = v;
    same(&snap(&c), &w);
}
pub fn predicates<C: Any>(c: C, w: Snap) {
    let free = w.0[PX] == 0 && w.0[EI] == 0;
    eq!("is_irq_allowed", c.is_irq_allowed(), free && w.0[IFF1] == 1);
    eq!("is_nmi_allowed", c.is_nmi_allowed(), free);
    eq!("is_after_prefix", c.is_after_prefix(), w.0[PX] != 0);
    same(&snap(&c), &w);
}
pub fn restore_iff1<C: Any>(mut c: C, mut w: Snap) {
    c.restore_iff1();
    w.0[IFF1] = w.0[IFF2];
    same(&snap(&c), &w);
}
pub fn disable<C: Any>(mut c: C, mut w: Snap) {
    c.disable_interrupts();
    w.0[IFF1] = 0;
    w.0[IFF2] = 0;
    same(&snap(&c), &w);
}
pub fn enable<C: Any>(mut c: C, mut w: Snap) {
    c.enable_interrupts();
    w.0[IFF1] = 1;
    w.0[IFF2] = 1;
    w.0[EI] = 1;
    same(&snap(&c), &w);
}
fn reset_state(w: &mut Snap) {
    for i in 0..HIST {
        w.0[i] = 0;
    }
    w.0[AF] = 0xFFFF;
    w.0[AF2] = 0xFFFF;
    w.0[SP] = 0xFFFF;
    w.0[HIST] = if w.0[FLAV] == 1 { 0 } else { 0xFFFF };
}
pub fn reset<C: Any>(mut c: C, mut w: Snap) {
    c.reset();
    reset_state(&mut w);
    same(&snap(&c), &w);
    // nothing of the former state survives
    let mut d = C::default();
    if d.kind() == c.kind() {
        d.reset();
        eq!("reset equals a reset default", c == d, true);
    }
}
pub fn default<C: Any>(_c: C, w: Snap) {
    let mut c = C::default();
    let mut z = w;
    for i in 0..HIST {
        z.0[i] = 0;
    }
    z.0[FLAV] = c.kind() as u16;
    z.0[HIST] = if z.0[FLAV] == 1 { 0 } else { 0xFFFF };
    same(&snap(&c), &z);
    c.reset();
    reset_state(&mut z);
    same(&snap(&c), &z);
}
pub fn normalize<C: Any>(mut c: C, w: Snap) {
    c.norm();
    same(&snap(&c), &w);
    let mut d = c.clone();
    // a CPU representing the same R differently
    d.set_r(0);
    d.add_r(w.0[R] as i32 & 0x7F);
    let i = d.get_i();
    eq!("I survives R", i, w.0[IR] >> 8);
    if w.0[R] < 0x80 {
        d.norm();
        eq!("normalised equal", c == d, true);
    }
}
/// a clone equals its original and stays independent of it
pub fn clone<C: Any>(mut c: C, w: Snap) {
    let d = c.clone();
    same(&snap(&d), &w);
    eq!("clone ==", c == d, true);
    eq!("clone !=", c != d, false);
    eq!("==self", c == c, true);
    c.reset();
    same(&snap(&d), &w);
}
/// changing one element makes a CPU unequal exactly when the element changes
pub fn eq_pairs<C: Any>(c: C, w: Snap) {
    let v = b16(100);
    let r = any_stk(101);
    let mut d = c.clone();
    d.set_reg16(r, v);
    eq!("== over main registers", c == d, w.0[pair(r)] == v);
    let mut d = c.clone();
    d.ex_af_af();
    d.exx();
    let mut e = d.clone();
    e.set_reg16(r, v);
    eq!("== over alternate registers", d == e, w.0[pair(r) + AF2] == v);
}
pub fn eq_alt<C: Any>(c: C, w: Snap) {
    let v = b16(100);
    let r = any_stk(101);
    let mut d = c.clone();
    d.ex_af_af();
    d.exx();
    d.set_reg16(r, v);
    d.ex_af_af();
    d.exx();
    eq!("== over alternate registers", c == d, w.0[pair(r) + AF2] == v);
    let p = any_px(102);
    let mut d = c.clone();
    d.set_index16(p, v);
    eq!("== over index registers", c == d, w.0[index(p)] == v);
}
pub fn eq_words<C: Any>(c: C, w: Snap) {
    let v = b16(100);
    let mut d = c.clone();
    d.set_pc(v);
    eq!("== over PC", c == d, w.0[PC] == v);
    let mut d = c.clone();
    d.set_sp(v);
    eq!("== over SP", c == d, w.0[SP] == v);
    let mut d = c.clone();
    d.set_mp(v);
    eq!("== over MEMPTR", c == d, w.0[MP] == v);
    let mut c = c;
    c.norm();
    let mut d = c.clone();
    d.set_i(v as u8);
    eq!("== over I", c == d, w.0[IR] >> 8 == v & 0xFF);
    let mut d = c.clone();
    d.set_r(v as u8);
    eq!("== over R", c == d, w.0[R] == v & 0xFF);
    let mut d = c.clone();
    d.inc_r();
    eq!("== over R counter", c == d, false);
}
pub fn eq_bits<C: Any>(c: C, w: Snap) {
    let (a, b) = (b1(100), b1(101));
    let mut d = c.clone();
    d.set_iffs(a, b);
    eq!("== over IFF", c == d, w.0[IFF1] == a as u16 && w.0[IFF2] == b as u16);
    let mut d = c.clone();
    d.halt();
    eq!("== over HALT", c == d, w.0[HALT] == 1);
    let mut d = c.clone();
    let m = mode(b8(102));
    d.set_im(m);
    eq!("== over IM", c == d, w.0[IM] == im_code(m) as u16);
    let mut d = c.clone();
    d.enable_interrupts();
    d.set_iffs(w.0[IFF1] == 1, w.0[IFF2] == 1);
    eq!("== over after-EI", c == d, w.0[EI] == 1);
}
/// the pending prefix and the flag history take part in the comparison
pub fn eq_hidden<Q: Flavour>(_c: Z80<Q>, _w: Snap) {
    let mut c = Z80::<Q>::new();
    let mut d = Z80::<Q>::new();
    pend(&mut c, b8(100));
    pend(&mut d, b8(101));
    // pending a prefix counts a fetch in R: make that equal
    c.set_r(0);
    d.set_r(0);
    c.set_pc(0);
    d.set_pc(0);
    eq!("== over prefix", c == d, px_code(c.get_prefix()) == px_code(d.get_prefix()));
    let mut c = Z80::<Q>::new();
    let mut d = Z80::<Q>::new();
    let (a, b) = (b1(102), b1(103));
    if a {
        c.flavour.flags_modified();
    }
    if b {
        d.flavour.flags_modified();
    }
    let hist = kind_of::<Q>() != 1;
    eq!("== over this history", c == d, a == b || !hist);
    c.flavour.begin_instruction();
    d.flavour.begin_instruction();
    eq!("== over last history", c == d, a == b || !hist);
}
fn pend<C: Cpu>(c: &mut C, k: u8) {
    use crate::host::Nul;
    match k & 3 {
        1 => {
            let _ = c.execute_instruction(&mut Nul, &mut Nul, None::<CpuDebugFn>, 0xDD);
        }
        2 => {
            let _ = c.execute_instruction(&mut Nul, &mut Nul, None::<CpuDebugFn>, 0xFD);
        }
        _ => {}
    }
}
pub fn new<Q: Flavour>(_c: Z80<Q>, mut w: Snap) {
    let c = Z80::<Q>::new();
    reset_state(&mut w);
    same(&snap(&c), &w);
}

macro_rules! entries {
    ($mk:ident $q:ident: $($n:ident)*) => { $( pub fn $n() { crate::accessors::$n(crate::$mk::<z80emu::z80::$q>(), crate::units::want::<z80emu::z80::$q>()) } )* };
}
macro_rules! common {
    ($mk:ident $q:ident) => { entries!{$mk $q: initial pc sp memptr acc flags inc_r add_r r i iffs halt im ex_af_af exx get_reg set_reg get_reg16 set_reg2 set_reg16 set_index2 set_index16
        predicates restore_iff1 disable enable reset default normalize clone eq_pairs eq_alt eq_words eq_bits} };
}
pub mod zu_c23 {
    pub mod nmos {
        common! {mk_c NMOS}
        entries! {mk_c NMOS: eq_hidden new}
    }
    pub mod cmos {
        common! {mk_c CMOS}
        entries! {mk_c CMOS: eq_hidden new}
    }
    pub mod bm1 {
        common! {mk_c BM1}
        entries! {mk_c BM1: eq_hidden new}
    }
}
pub mod zu_c19 {
    pub mod nmos {
        common! {mk_a NMOS}
    }
    pub mod cmos {
        common! {mk_a CMOS}
    }
    pub mod bm1 {
        common! {mk_a BM1}
    }
    pub mod any {
        pub fn variants() {
            crate::accessors::variants()
        }
        pub fn tags() {
            crate::accessors::tags()
        }
        pub fn equality() {
            crate::accessors::any_eq()
        }
    }
}

/// tags, constructors and tests of the variant agree
pub fn variants() {
    for k in 0..3u8 {
        let c = match k {
            0 => Z80Any::new_nmos(),
            1 => Z80Any::new_cmos(),
            _ => Z80Any::new_bm1(),
        };
        eq!("variant", c.kind(), k);
        eq!("is_nmos", c.is_nmos(), k == 0);
        eq!("is_cmos", c.is_cmos(), k == 1);
        eq!("is_bm1", c.is_bm1(), k == 2);
        let mut w = snap(&c);
        reset_state(&mut w);
        same(&snap(&c), &w);
    }
}
pub fn tags() {
    let t = [Z80Any::new_nmos().tag(), Z80Any::new_cmos().tag(), Z80Any::new_bm1().tag()];
    let n = ["NMOS", "CMOS", "BM1"];
    for i in 0..3 {
        eq!("tag", t[i] == n[i], true);
        let c = Z80Any::with_tag(t[i]);
        eq!("with_tag known", c.is_some(), true);
        if let Some(c) = c {
            eq!("with_tag variant", c.kind(), i);
            let mut w = snap(&c);
            reset_state(&mut w);
            same(&snap(&c), &w);
        }
    }
    for l in ["nmos", "cMoS", "bm1", "Bm1"] {
        eq!("with_tag case", Z80Any::with_tag(l).is_some(), true);
    }
    for l in ["", "NMO", "NMOSS", "BM2", "Z80"] {
        eq!("with_tag unknown", Z80Any::with_tag(l).is_none(), true);
    }
    eq!("flavour tag", NMOS::tag() == "NMOS" && CMOS::tag() == "CMOS" && BM1::tag() == "BM1", true);
}
/// values of different variants are never equal
pub fn any_eq() {
    let a = crate::mk_a::<NMOS>();
    let b = crate::mk_a::<CMOS>();
    let c = crate::mk_a::<BM1>();
    eq!("nmos!=cmos", a == b, false);
    eq!("nmos!=bm1", a == c, false);
    eq!("cmos!=bm1", b == c, false);
}
