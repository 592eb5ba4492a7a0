use crate::ev::*;
use crate::host::*;
use crate::obs::*;
use crate::units::*;
use z80emu::z80::{Flavour, BM1, CMOS, NMOS};
use z80emu::*;

/// what the entries run on: a concrete CPU, or the runtime-selectable one holding it
pub trait Rig {
    type C: Cpu + MemPtr;
    fn mk() -> Self::C;
    fn end(c: &Self::C);
}
pub struct Direct<Q>(core::marker::PhantomData<Q>);
pub struct Sel<Q>(core::marker::PhantomData<Q>);

impl<Q: Flavour> Rig for Direct<Q> {
    type C = Z80<Q>;
    fn mk() -> Z80<Q> {
        mk::<Q>()
    }
    fn end(c: &Z80<Q>) {
        watch(c);
        watch_flav(&c.flavour);
    }
}
impl<Q: Flavour> Rig for Sel<Q> {
    type C = Z80Any;
    fn mk() -> Z80Any {
        mk_any::<Q>()
    }
    fn end(c: &Z80Any) {
        watch(c);
        crate::eq!("the flavour held", c.kind(), kind_of::<Q>());
        match c {
            Z80Any::NMOS(c) => watch_flav(&c.flavour),
            Z80Any::CMOS(c) => watch_flav(&c.flavour),
            Z80Any::BM1(c) => watch_flav(&c.flavour),
        }
    }
}

pub fn step<G: Rig>(with_dbg: bool) {
    let mut c = G::mk();
    let (mut k, mut t) = (Ctl::new(), Clk::new());
    let r = if with_dbg { c.execute_next(&mut k, &mut t, Some(dbg)) } else { c.execute_next(&mut k, &mut t, None::<CpuDebugFn>) };
    watch_res(r);
    G::end(&c);
}

pub fn exec<G: Rig>(with_dbg: bool) {
    let mut c = G::mk();
    let (mut k, mut t) = (Ctl::new(), Clk::new());
    let code = unsafe { zi_u8(I_CODE) };
    let r = if with_dbg {
        c.execute_instruction(&mut k, &mut t, Some(dbg), code)
    } else {
        c.execute_instruction(&mut k, &mut t, None::<CpuDebugFn>, code)
    };
    watch_res(r);
    G::end(&c);
}

pub fn irq<G: Rig>(with_dbg: bool) {
    let mut c = G::mk();
    let (mut k, mut t) = (Ctl::new(), Clk::new());
    let r = if with_dbg { c.irq(&mut k, &mut t, Some(dbg)) } else { c.irq(&mut k, &mut t, None::<CpuDebugFn>) };
    match r {
        None => {
            o(O_RES, 0x80);
            o(O_TOK, 0);
        }
        Some(r) => watch_res(r),
    }
    G::end(&c);
}

pub fn nmi<G: Rig>() {
    let mut c = G::mk();
    let (mut k, mut t) = (Ctl::new(), Clk::new());
    let r = c.nmi(&mut k, &mut t);
    o(O_RES, r as u16);
    o(O_TOK, 0);
    G::end(&c);
}

pub fn limit<G: Rig>() {
    let mut c = G::mk();
    let (mut k, mut t) = (Ctl::new(), Clk::new());
    let r = c.execute_with_limit(&mut k, &mut t, Lim(0x5A));
    watch_res(r);
    G::end(&c);
}

macro_rules! entries {
    ($q:ty: $($n:ident = $f:ident($($a:expr)?);)*) => { $( pub fn $n() { $f::<$q>($($a)?) } )* };
}
entries! { Direct<NMOS>:
    zh_step_nmos = step(false); zh_stepd_nmos = step(true);
    zh_exec_nmos = exec(false); zh_execd_nmos = exec(true);
    zh_irq_nmos = irq(false); zh_irqd_nmos = irq(true);
    zh_nmi_nmos = nmi(); zh_limit_nmos = limit();
}
entries! { Direct<CMOS>:
    zh_step_cmos = step(false); zh_stepd_cmos = step(true);
    zh_exec_cmos = exec(false); zh_execd_cmos = exec(true);
    zh_irq_cmos = irq(false); zh_irqd_cmos = irq(true);
    zh_nmi_cmos = nmi(); zh_limit_cmos = limit();
}
entries! { Direct<BM1>:
    zh_step_bm1 = step(false); zh_stepd_bm1 = step(true);
    zh_exec_bm1 = exec(false); zh_execd_bm1 = exec(true);
    zh_irq_bm1 = irq(false); zh_irqd_bm1 = irq(true);
    zh_nmi_bm1 = nmi(); zh_limit_bm1 = limit();
}
entries! { Sel<NMOS>:
    zh_any_step_nmos = step(false); zh_any_stepd_nmos = step(true);
    zh_any_exec_nmos = exec(false); zh_any_execd_nmos = exec(true);
    zh_any_irq_nmos = irq(false); zh_any_irqd_nmos = irq(true);
    zh_any_nmi_nmos = nmi(); zh_any_limit_nmos = limit();
}
entries! { Sel<CMOS>:
    zh_any_step_cmos = step(false); zh_any_stepd_cmos = step(true);
    zh_any_exec_cmos = exec(false); zh_any_execd_cmos = exec(true);
    zh_any_irq_cmos = irq(false); zh_any_irqd_cmos = irq(true);
    zh_any_nmi_cmos = nmi(); zh_any_limit_cmos = limit();
}
entries! { Sel<BM1>:
    zh_any_step_bm1 = step(false); zh_any_stepd_bm1 = step(true);
    zh_any_exec_bm1 = exec(false); zh_any_execd_bm1 = exec(true);
    zh_any_irq_bm1 = irq(false); zh_any_irqd_bm1 = irq(true);
    zh_any_nmi_bm1 = nmi(); zh_any_limit_bm1 = limit();
}
