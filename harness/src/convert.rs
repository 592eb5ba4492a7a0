//! C20: conversions between flavours.
use crate::accessors::Any;
use crate::obs::*;
use crate::units::*;
use z80emu::z80::{Flavour, BM1, CMOS, NMOS};
use z80emu::*;

fn expect<A: Flavour, B: Flavour>() -> Snap {
    let mut w = want::<A>();
    let (a, b) = (kind_of::<A>(), kind_of::<B>());
    if b == 1 {
        w.0[HIST] = 0;
    } else if a == 1 {
        w.0[HIST] = 0xFFFF;
    }
    w.0[FLAV] = b as u16;
    w
}

pub fn into<A: Flavour, B: Flavour + From<A>>() {
    let c: Z80<B> = mk::<A>().into_flavour::<B>();
    same(&snap(&c), &expect::<A, B>());
}
pub fn from<A: Flavour, B: Flavour + From<A>>() {
    let c = Z80::<B>::from_flavour(mk::<A>());
    same(&snap(&c), &expect::<A, B>());
}
/// through the runtime-selectable type
pub fn through<A: Flavour, B: Flavour + From<NMOS> + From<CMOS> + From<BM1>>() {
    let a: Z80Any = Z80Any::from(mk::<A>());
    same(&snap(&a), &expect::<A, A>());
    let c: Z80<B> = Z80::<B>::from(a);
    same(&snap(&c), &expect::<A, B>());
}
pub fn any_into<A: Flavour, B: Flavour>() {
    let a: Z80Any = A::cpu_into_any(mk::<A>());
    let b = match kind_of::<B>() {
        0 => a.into_nmos(),
        1 => a.into_cmos(),
        _ => a.into_bm1(),
    };
    same(&snap(&b), &expect::<A, B>());
    let c = B::unwrap_cpu_any(b.clone());
    same(&snap(&c), &expect::<A, B>());
    // the concrete unwrapping
    match kind_of::<B>() {
        0 => same(&snap(&b.unwrap_nmos()), &expect::<A, B>()),
        1 => same(&snap(&b.unwrap_cmos()), &expect::<A, B>()),
        _ => same(&snap(&b.unwrap_bm1()), &expect::<A, B>()),
    }
}
/// no hidden component changes: there and back is the identity (except for
/// a history which one of the two does not keep)
pub fn back<A: Flavour + From<B>, B: Flavour + From<A>>() {
    let c = mk::<A>();
    let mut d: Z80<A> = c.clone().into_flavour::<B>().into_flavour::<A>();
    if kind_of::<A>() == 1 || kind_of::<B>() == 1 {
        d.flavour = c.flavour;
    }
    eq!("there and back", c == d, true);
}

macro_rules! pair {
    ($($n:ident: $a:ident $b:ident;)*) => { $( pub mod $n {
        use z80emu::z80::*;
        pub fn into() { crate::convert::into::<$a, $b>() }
        pub fn from() { crate::convert::from::<$a, $b>() }
        pub fn through() { crate::convert::through::<$a, $b>() }
        pub fn any_into() { crate::convert::any_into::<$a, $b>() }
        pub fn back() { crate::convert::back::<$a, $b>() }
    } )* };
}
pub mod zu_c20 {
    pair! {
        nmos_cmos: NMOS CMOS; nmos_bm1: NMOS BM1; cmos_nmos: CMOS NMOS;
        cmos_bm1: CMOS BM1; bm1_nmos: BM1 NMOS; bm1_cmos: BM1 CMOS;
        nmos_nmos: NMOS NMOS; cmos_cmos: CMOS CMOS; bm1_bm1: BM1 BM1;
    }
}
