//! C21: saved state against restored state.
use crate::obs::*;
use crate::tape::*;
use crate::units::*;
use serde::{de::DeserializeOwned, Serialize};
use z80emu::host::TsCounter;
use z80emu::z80::{Flavour, BM1, CMOS, NMOS};
use z80emu::*;

pub fn save<T: Serialize>(v: &T, named: bool) -> Tape {
    let mut t = Tape::new(named);
    let r = v.serialize(&mut t);
    eq!("serialization succeeds", r.is_ok(), true);
    t
}
pub fn load<T: DeserializeOwned>(t: &Tape) -> Result<T, Er> {
    let mut r = Reader::new(t);
    let v = T::deserialize(&mut r)?;
    eq!("everything written is read", r.pos, t.n);
    Ok(v)
}
fn load_by<T: DeserializeOwned>(t: &Tape, by_index: bool, typed: bool, unsized_seq: bool) -> Result<T, Er> {
    let mut r = Reader::new(t);
    r.by_index = by_index;
    r.typed = typed;
    r.unsized_seq = unsized_seq;
    let v = T::deserialize(&mut r)?;
    eq!("everything written is read", r.pos, t.n);
    Ok(v)
}

fn load_bytes<T: DeserializeOwned>(t: &Tape) -> Result<T, Er> {
    let mut r = Reader::new(t);
    r.bytes = true;
    let v = T::deserialize(&mut r)?;
    eq!("everything written is read", r.pos, t.n);
    Ok(v)
}

/// a saved structure's fields, rearranged
pub struct Fields {
    at: [usize; 24],
    n: usize,
}
pub fn fields(t: &Tape) -> Fields {
    let mut f = Fields { at: [0; 24], n: 0 };
    let (mut i, mut d) = (0, 0);
    while i < t.n {
        match t.t[i] {
            Tok::Map(_) | Tok::Seq(_) => d += 1,
            Tok::MapEnd | Tok::SeqEnd => d -= 1,
            Tok::Key(_) if d == 1 => {
                f.at[f.n] = i;
                f.n += 1;
            }
            _ => {}
        }
        i += 1;
    }
    f.at[f.n] = t.n - 1;
    f
}
impl Fields {
    fn copy(&self, t: &Tape, k: usize, to: &mut Tape) {
        let mut i = self.at[k];
        while i < self.at[k + 1] {
            to.put(t.t[i]);
            i += 1;
        }
    }
    fn name(&self, t: &Tape, k: usize) -> &'static str {
        match t.t[self.at[k]] {
            Tok::Key(k) => k,
            _ => "",
        }
    }
    /// in another order: multiply by an odd step, start anywhere
    pub fn reorder(&self, t: &Tape, start: usize, step: usize) -> Tape {
        let mut o = Tape::new(t.named);
        o.put(Tok::Map(self.n));
        let mut i = 0;
        while i < self.n {
            self.copy(t, (start + i * step) % self.n, &mut o);
            i += 1;
        }
        o.put(Tok::MapEnd);
        o
    }
    pub fn without(&self, t: &Tape, drop: &[usize]) -> Tape {
        let mut o = Tape::new(t.named);
        o.put(Tok::Map(self.n - drop.len()));
        let mut i = 0;
        while i < self.n {
            let (mut k, mut keep) = (0, true);
            while k < drop.len() {
                keep = keep && drop[k] != i;
                k += 1;
            }
            if keep {
                self.copy(t, i, &mut o);
            }
            i += 1;
        }
        o.put(Tok::MapEnd);
        o
    }
    pub fn twice(&self, t: &Tape, k: usize) -> Tape {
        let mut o = self.without(t, &[]);
        o.n -= 1;
        self.copy(t, k, &mut o);
        o.put(Tok::MapEnd);
        o
    }
}
fn rename(t: &Tape, from: &str, to: &'static str) -> Tape {
    let mut o = *t;
    let mut i = 0;
    while i < t.n {
        if let Tok::Key(k) = t.t[i] {
            if k == from {
                o.t[i] = Tok::Key(to);
            }
        }
        i += 1;
    }
    o
}

/// a CPU that can be made up and looked at
pub trait Sub: Cpu + MemPtr + Hist + Serialize + DeserializeOwned {
    fn arbitrary() -> Self;
    fn default_history() -> u16;
}
impl<Q: Flavour + Serialize + DeserializeOwned> Sub for Z80<Q> {
    fn arbitrary() -> Self {
        mk::<Q>()
    }
    fn default_history() -> u16 {
        hist_of(&Q::default())
    }
}

fn back<C: Sub>(c: &C, r: Result<C, Er>) {
    match r {
        Ok(d) => {
            eq!("restored equals saved", d == *c, true);
            same(&snap(&d), &snap(c));
        }
        Err(_) => eq!("restoring succeeds", false, true),
    }
}
/// both formats, in several guises
fn trip<C: Sub>(c: C) {
    let t = save(&c, true);
    back(&c, load::<C>(&t));
    back(&c, load_by::<C>(&t, true, false, false));
    back(&c, load_by::<C>(&t, false, true, false));
    back(&c, load_bytes::<C>(&t));
    let b = save(&c, false);
    back(&c, load::<C>(&b));
    back(&c, load_by::<C>(&b, false, true, true));
}
const FIELD: [&str; 18] = ["type", "af", "afAlt", "regs", "regsAlt", "index", "pc", "sp", "memptr", "lastEi", "ir", "im", "iff1", "iff2", "halt", "prefix", "r", "flavour"];
const TYPE: usize = 0;
const MEMPTR: usize = 8;
const R_: usize = 16;
const FLAVOUR: usize = 17;

fn names<C: Sub>(c: C) {
    let t = save(&c, true);
    let f = fields(&t);
    eq!("number of fields", f.n, 18);
    match t.t[0] {
        Tok::Map(n) => eq!("announced number of fields", n, 18),
        _ => eq!("a structure", false, true),
    }
    let mut i = 0;
    while i < 18 {
        eq!("field names in order", f.name(&t, i) == FIELD[i], true);
        i += 1;
    }
    match t.t[f.at[0] + 1] {
        Tok::Str(s) => eq!("type", s == ["NMOS", "CMOS", "BM1"][c.kind() as usize], true),
        _ => eq!("type is text", false, true),
    }
}
fn order<C: Sub>(c: C) {
    let t = save(&c, true);
    let f = fields(&t);
    let mut k = 0;
    while k < 18 {
        back(&c, load::<C>(&f.reorder(&t, k, 1)));
        back(&c, load::<C>(&f.reorder(&t, k, 17)));
        k += 1;
    }
    back(&c, load::<C>(&f.reorder(&t, 3, 5)));
}
fn aliases<C: Sub>(c: C) {
    let t = save(&c, true);
    for (a, b) in [("afAlt", "af_alt"), ("regsAlt", "regs_alt"), ("lastEi", "last_ei"), ("flagsModified", "flags_modified"), ("lastFlagsModified", "last_flags_modified")] {
        back(&c, load::<C>(&rename(&t, a, b)));
    }
}
fn optional<C: Sub>(c: C, any: bool) {
    let t = save(&c, true);
    let f = fields(&t);
    let want = |e: &dyn Fn(&mut Snap), drop: &[usize]| {
        let mut s = snap(&c);
        e(&mut s);
        match load::<C>(&f.without(&t, drop)) {
            Ok(d) => same(&snap(&d), &s),
            Err(_) => eq!("restoring succeeds", false, true),
        }
    };
    // without a type the runtime-selectable CPU is the NMOS one
    if !any {
        want(&|_| {}, &[TYPE]);
        want(&|s| s.0[MP] = 0, &[TYPE, MEMPTR]);
    }
    want(&|s| s.0[MP] = 0, &[MEMPTR]);
    want(&|s| s.0[HIST] = C::default_history(), &[FLAVOUR]);
    let ir = snap(&c).0[IR];
    // R's low bits are kept apart; without them those of IR are used
    let _ = ir;
    let lo = match t.t[f.at[10] + 1] {
        Tok::U(_, v) => v as u16,
        _ => 0,
    };
    let r = lo & 0xFF;
    want(
        &|s| {
            s.0[R] = r;
            s.0[IR] = s.0[IR] & 0xFF00 | r;
        },
        &[R_],
    );
    // which is all of it when the refresh register is normalized
    let mut n = c.clone();
    n.set_r(n.get_r());
    let t = save(&n, true);
    match load::<C>(&fields(&t).without(&t, &[R_])) {
        Ok(d) => eq!("restored without R equals saved when normalized", d == n, true),
        Err(_) => eq!("restoring succeeds", false, true),
    }
}
fn missing<C: Sub>(c: C) {
    let t = save(&c, true);
    let f = fields(&t);
    let mut k = 0;
    while k < 18 {
        if k != TYPE && k != MEMPTR && k != R_ && k != FLAVOUR {
            let r = load::<C>(&f.without(&t, &[k]));
            eq!("a mandatory field is missing", matches!(r, Err(Er::Missing(n)) if n == FIELD[k]), true);
        }
        k += 1;
    }
}
fn duplicate<C: Sub>(c: C) {
    let t = save(&c, true);
    let f = fields(&t);
    let mut k = 0;
    while k < 18 {
        let r = load::<C>(&f.twice(&t, k));
        eq!("a field occurs twice", matches!(r, Err(Er::Duplicate(n)) if n == FIELD[k]), true);
        k += 1;
    }
}
fn short<C: Sub>(c: C) {
    // compact form cut short
    let b = save(&c, false);
    let f = fields(&b);
    let mut k = 1;
    while k < 18 {
        let mut o = Tape::new(false);
        o.put(Tok::Map(18));
        let mut i = 0;
        while i < k {
            f.copy(&b, i, &mut o);
            i += 1;
        }
        o.put(Tok::MapEnd);
        let r = load::<C>(&o);
        eq!("a compact form cut short is refused", r.is_err(), true);
        k += 1;
    }
}
/// lists without names, with the type in front and as once written without
fn list<C: Sub>(c: &C, skip: usize) -> Tape {
    let t = save(c, true);
    let f = fields(&t);
    let mut o = Tape::new(true);
    o.put(Tok::Seq(18 - skip));
    let mut k = skip;
    while k < 18 {
        let mut i = f.at[k] + 1;
        while i < f.at[k + 1] {
            o.put(t.t[i]);
            i += 1;
        }
        k += 1;
    }
    o.put(Tok::SeqEnd);
    o
}
fn lists<C: Sub>(c: C) {
    back(&c, load::<C>(&list(&c, 0)));
    back(&c, load::<C>(&list(&c, 1)));
}

macro_rules! cpus {
    ($($m:ident: $c:ty, $q:ty;)*) => { $( pub mod $m {
        use super::super::*;
        pub fn round_trip() { trip(<$c>::arbitrary()) }
        pub fn field_names() { names(<$c>::arbitrary()) }
        pub fn any_order() { order(<$c>::arbitrary()) }
        pub fn other_names() { aliases(<$c>::arbitrary()) }
        pub fn defaults() { optional(<$c>::arbitrary(), false) }
        pub fn missing_fields() { missing(<$c>::arbitrary()) }
        pub fn duplicate_fields() { duplicate(<$c>::arbitrary()) }
        pub fn cut_short() { short(<$c>::arbitrary()) }
        pub fn unnamed() { lists(<$c>::arbitrary()) }
        pub fn any_unnamed() {
            let c = <$c>::arbitrary();
            for skip in [0, 1] {
                match load::<Z80Any>(&list(&c, skip)) {
                    Ok(d) => {
                        let (mut s, n) = (snap(&c), snap(&d));
                        if skip == 1 {
                            s.0[FLAV] = 0;
                            s.0[HIST] = n.0[HIST];
                        }
                        same(&n, &s);
                    }
                    Err(_) => eq!("restoring succeeds", false, true),
                }
            }
        }
        // the runtime-selectable CPU
        pub fn any_round_trip() {
            let c = mk_any::<$q>();
            for named in [true, false] {
                let t = save(&c, named);
                match load::<Z80Any>(&t) {
                    Ok(d) => {
                        eq!("restored equals saved", d == c, true);
                        same(&snap(&d), &snap(&c));
                    }
                    Err(_) => eq!("restoring succeeds", false, true),
                }
                // the same text as the concrete one's
                let u = save(&<$c>::arbitrary(), named);
                eq!("length of the saved form", t.n, u.n);
                let mut i = 0;
                while i < u.n {
                    eq!("saved form", t.t[i] == u.t[i], true);
                    i += 1;
                }
                // and restored as concrete
                match load::<$c>(&t) {
                    Ok(d) => same(&snap(&d), &snap(&c)),
                    Err(_) => eq!("restoring succeeds", false, true),
                }
            }
        }
        pub fn any_order_of_fields() {
            let c = mk_any::<$q>();
            let t = save(&c, true);
            let f = fields(&t);
            let mut k = 0;
            while k < 18 {
                for step in [1, 17] {
                    match load::<Z80Any>(&f.reorder(&t, k, step)) {
                        Ok(d) => same(&snap(&d), &snap(&c)),
                        Err(_) => eq!("restoring succeeds", false, true),
                    }
                }
                if k != TYPE && k != MEMPTR && k != R_ && k != FLAVOUR {
                    let r = load::<Z80Any>(&f.without(&t, &[k]));
                    eq!("a mandatory field is missing", matches!(r, Err(Er::Missing(n)) if n == FIELD[k]), true);
                }
                let r = load::<Z80Any>(&f.twice(&t, k));
                eq!("a field occurs twice", matches!(r, Err(Er::Duplicate(n)) if n == FIELD[k]), true);
                k += 1;
            }
            // no type: NMOS
            match load::<Z80Any>(&f.without(&t, &[TYPE])) {
                Ok(d) => {
                    let mut s = snap(&c);
                    s.0[FLAV] = 0;
                    let n: Snap = snap(&d);
                    eq!("without a type, NMOS", n.0[FLAV], 0);
                    s.0[HIST] = n.0[HIST];
                    same(&n, &s);
                }
                Err(_) => eq!("restoring succeeds", false, true),
            }
            // an unknown type
            let mut u = t;
            u.t[f.at[0] + 1] = Tok::Str("Z80");
            eq!("an unknown type", load::<Z80Any>(&u).is_err(), true);
        }
        /// saved from any flavour, restored as this one
        pub fn from_other_flavours() {
            fn via<A: Flavour + Serialize, C: Sub>() where Z80<A>: Sub {
                let a = <Z80<A>>::arbitrary();
                for named in [true, false] {
                    match load::<C>(&save(&a, named)) {
                        Ok(d) => {
                            let (mut s, n) = (snap(&a), snap(&d));
                            s.0[FLAV] = n.0[FLAV];
                            // the history goes along when both model it
                            if snap(&a).0[FLAV] == 1 || n.0[FLAV] == 1 {
                                s.0[HIST] = n.0[HIST];
                            }
                            same(&n, &s);
                        }
                        Err(_) => eq!("restoring succeeds", false, true),
                    }
                }
            }
            via::<NMOS, $c>();
            via::<CMOS, $c>();
            via::<BM1, $c>();
        }
    } )* };
}

macro_rules! counters {
    ($($m:ident $i:ident;)*) => { $( pub fn $m() {
        let v = unsafe { crate::ev::$i(100) } as $m;
        let c = TsCounter::<$m>::from(v);
        for named in [true, false] {
            let t = save(&c, named);
            match load::<TsCounter<$m>>(&t) {
                Ok(d) => eq!("restored counter", (*d).0, v),
                Err(_) => eq!("restoring succeeds", false, true),
            }
            match load_by::<TsCounter<$m>>(&t, false, true, false) {
                Ok(d) => eq!("restored counter", (*d).0, v),
                Err(_) => eq!("restoring succeeds", false, true),
            }
        }
    } )* };
}

fn pair(t: Tape) -> Result<RegisterPair, Er> {
    load::<RegisterPair>(&t)
}
fn one(t: Tok) -> Tape {
    let mut o = Tape::new(true);
    o.put(t);
    o
}

pub mod zu_c21 {
    cpus! { nmos: Z80<NMOS>, NMOS; cmos: Z80<CMOS>, CMOS; bm1: Z80<BM1>, BM1; }
    pub mod counter {
        use super::super::*;
        counters! { i16 zi_u16; u16 zi_u16; i32 zi_u32; u32 zi_u32; i64 zi_u64; u64 zi_u64; }
    }
    pub mod pairs {
        use super::super::*;
        pub fn round_trip() {
            let p = RegisterPair::from(b16(100));
            for named in [true, false] {
                let t = save(&p, named);
                for typed in [true, false] {
                    if named || typed {
                        match load_by::<RegisterPair>(&t, false, typed, false) {
                            Ok(d) => eq!("restored pair", d.get16(), b16(100)),
                            Err(_) => eq!("restoring succeeds", false, true),
                        }
                    }
                }
            }
        }
        fn number(t: Tok) -> Result<RegisterPair, Er> {
            let t = one(t);
            let a = load_by::<RegisterPair>(&t, false, false, false);
            let b = load_by::<RegisterPair>(&t, false, true, false);
            eq!("width of the number does not matter", a == b, true);
            a
        }
        pub fn from_unsigned() {
            let w = unsafe { crate::ev::zi_u64(100) };
            for (n, v) in [(1, w as u8 as u64), (2, w as u16 as u64), (4, w as u32 as u64), (8, w)] {
                match number(Tok::U(n, v)) {
                    Ok(d) => eq!("value of an unsigned number", d.get16(), v),
                    Err(_) => eq!("only numbers out of range are refused", v > 0xFFFF, true),
                }
            }
        }
        pub fn from_signed() {
            let w = unsafe { crate::ev::zi_u64(100) } as i64;
            for (n, v) in [(1, w as i8 as i64), (2, w as i16 as i64), (4, w as i32 as i64), (8, w)] {
                match number(Tok::I(n, v)) {
                    Ok(d) => eq!("value of a signed number", d.get16() as i16 as i64, v),
                    Err(_) => eq!("only numbers out of range are refused", v > 0x7FFF || v < -0x8000, true),
                }
            }
        }
        pub fn from_bytes() {
            for n in [0usize, 1, 2, 3] {
                let mut t = Tape::new(true);
                t.put(Tok::Seq(n));
                let mut i = 0;
                while i < n {
                    t.put(Tok::U(1, b8(100 + i as u32) as u64));
                    i += 1;
                }
                t.put(Tok::SeqEnd);
                match pair(t) {
                    Ok(d) => {
                        eq!("two bytes, low first", d.get16(), b8(100) as u16 | (b8(101) as u16) << 8);
                        eq!("exactly two bytes", n, 2);
                    }
                    Err(_) => eq!("two bytes are accepted", n == 2, false),
                }
            }
        }
        /// texts of `n` hexadecimal digits
        fn digits(pre: &'static [u8], n: usize) {
            let mut b = [0u8; 8];
            let mut want = 0u32;
            let mut i = 0;
            while i < pre.len() {
                b[i] = pre[i];
                i += 1;
            }
            let mut k = 0;
            while k < n {
                let d = b8(100 + k as u32) & 15;
                let up = b1(110 + k as u32);
                b[i + k] = if d < 10 { b'0' + d } else if up { b'A' + d - 10 } else { b'a' + d - 10 };
                want = want << 4 | d as u32;
                k += 1;
            }
            let s: &'static str = unsafe { core::mem::transmute(core::str::from_utf8_unchecked(&b[..i + n])) };
            match pair(one(Tok::Str(s))) {
                Ok(d) => eq!("value of a hexadecimal text", d.get16() as u32, want),
                Err(_) => eq!("hexadecimal text in range is accepted", n == 0 || want > 0xFFFF, true),
            }
        }
        pub fn from_text() {
            digits(b"", 0);
            digits(b"", 1);
            digits(b"", 2);
            digits(b"", 3);
            digits(b"", 4);
            digits(b"", 5);
        }
        pub fn from_dollar_text() {
            digits(b"$", 0);
            digits(b"$", 1);
            digits(b"$", 4);
            digits(b"$", 5);
        }
        pub fn from_0x_text() {
            digits(b"0x", 0);
            digits(b"0x", 2);
            digits(b"0x", 4);
            digits(b"0x", 5);
        }
        pub fn from_one_letter() {
            let c = b8(100) & 0x7F;
            let mut b = [0u8; 1];
            b[0] = c;
            let s: &'static str = unsafe { core::mem::transmute(core::str::from_utf8_unchecked(&b)) };
            eq!("one letter is accepted if it is a digit", pair(one(Tok::Str(s))).is_ok(), c.is_ascii_hexdigit());
        }
        pub fn from_others() {
            eq!("truth values are refused", pair(one(Tok::Bool(b1(100)))).is_err(), true);
            eq!("nothing is refused", pair(one(Tok::Nil)).is_err(), true);
        }
    }
    pub mod modes {
        use super::super::*;
        pub fn interrupt_mode() {
            let m = mode(b8(100));
            for named in [true, false] {
                eq!("restored mode", load::<InterruptMode>(&save(&m, named)) == Ok(m), true);
            }
        }
        pub fn prefix() {
            let p = any_px(100);
            for named in [true, false] {
                eq!("restored prefix", load::<Prefix>(&save(&p, named)) == Ok(p), true);
            }
        }
        fn flavour<Q: Flavour + Serialize + DeserializeOwned>(keeps: bool) {
            let mut q = Q::default();
            flav(&mut q);
            for named in [true, false] {
                let t = save(&q, named);
                for (a, b, c, d) in [("", "", "", ""), ("flagsModified", "flags_modified", "lastFlagsModified", "last_flags_modified")] {
                    let u = if named { rename(&rename(&t, a, b), c, d) } else { t };
                    match load::<Q>(&u) {
                        Ok(r) => {
                            eq!("restored history", hist_of(&r), hist_of(&q));
                            eq!("restored flavour", r == q, true);
                        }
                        Err(_) => eq!("restoring succeeds", false, true),
                    }
                }
            }
            let mut t = Tape::new(true);
            t.put(Tok::Map(0));
            t.put(Tok::MapEnd);
            match load::<Q>(&t) {
                Ok(r) => eq!("omitted history is clear", hist_of(&r), hist_of(&Q::default())),
                Err(_) => eq!("restoring succeeds", false, true),
            }
            let _ = keeps;
        }
        pub fn nmos() { flavour::<NMOS>(true) }
        pub fn cmos() { flavour::<CMOS>(false) }
        pub fn bm1() { flavour::<BM1>(true) }
    }
}
