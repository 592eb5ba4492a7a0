//! C35: a flavour defined outside the crate, every hook of which is an
//! arbitrary function of what it is given (as far as the trait lets it be).
use crate::core_entries::*;
use crate::ev::*;
use crate::obs::*;
use crate::units::*;
use z80emu::z80::{Flavour, BM1, CMOS, NMOS};
use z80emu::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Own<const EARLY: bool> {
    pub modified: bool,
    pub last: bool,
    pub mark: u8,
}
/// what a new CPU holds
const FRESH: u8 = 0x11;
/// what a reset one holds
const AGAIN: u8 = 0x22;

impl<const EARLY: bool> Default for Own<EARLY> {
    fn default() -> Self {
        Own { modified: false, last: false, mark: FRESH }
    }
}
impl<const EARLY: bool> Flavour for Own<EARLY> {
    const CONSTANT_OUT_DATA: u8 = if EARLY { 0xA7 } else { 0x58 };
    const ACCEPTING_INT_RESETS_IFF2_EARLY: bool = EARLY;
    fn tag() -> &'static str {
        "OWN"
    }
    fn memptr_mix(msb: u8, lsb: u8) -> (u8, u8) {
        unsafe { (msb.rotate_left(3) ^ zi_u8(I_X0), lsb.rotate_left(2) ^ zi_u8(I_X1)) }
    }
    fn begin_instruction(&mut self) {
        self.last = self.modified;
        self.modified = false;
    }
    fn flags_modified(&mut self) {
        self.modified = true;
    }
    fn get_q(&self, acc: u8, flags: CpuFlags) -> u8 {
        let f = flags.bits() & 0x28;
        acc.rotate_left(1) ^ (f << 2) ^ (f >> 2) ^ if self.last { unsafe { zi_u8(I_X2) } } else { unsafe { zi_u8(I_X3) } }
    }
    fn cpu_into_any(cpu: Z80<Self>) -> Z80Any {
        let mut c = cpu.into_flavour::<BM1>();
        c.set_i(0xC3);
        Z80Any::BM1(c)
    }
    fn unwrap_cpu_any(cpu_any: Z80Any) -> Z80<Self> {
        cpu_any.unwrap_bm1().into_flavour()
    }
    fn reset(&mut self) {
        *self = Own { modified: true, last: true, mark: AGAIN };
    }
}
impl<const EARLY: bool> From<NMOS> for Own<EARLY> {
    fn from(_: NMOS) -> Self {
        Own { modified: true, last: false, mark: 0x31 }
    }
}
impl<const EARLY: bool> From<CMOS> for Own<EARLY> {
    fn from(_: CMOS) -> Self {
        Own { modified: true, last: false, mark: 0x32 }
    }
}
impl<const EARLY: bool> From<BM1> for Own<EARLY> {
    fn from(_: BM1) -> Self {
        Own { modified: true, last: false, mark: 0x33 }
    }
}
impl<const EARLY: bool> From<Own<EARLY>> for BM1 {
    fn from(o: Own<EARLY>) -> Self {
        let mut q = BM1::default();
        if o.mark & 1 != 0 {
            q.flags_modified();
        }
        q
    }
}
impl<const EARLY: bool> From<Own<EARLY>> for CMOS {
    fn from(_: Own<EARLY>) -> Self {
        CMOS
    }
}

fn own<const E: bool>() -> Own<E> {
    unsafe { Own { modified: zi_bool(I_Q1), last: zi_bool(I_Q0), mark: zi_u8(I_CODE) } }
}
fn mk_own<const E: bool>() -> Z80<Own<E>> {
    let mut c = Z80::<Own<E>>::new();
    fill(&mut c);
    c.flavour = own();
    c
}

pub struct Ext<const E: bool>;
impl<const E: bool> Rig for Ext<E> {
    type C = Z80<Own<E>>;
    fn mk() -> Self::C {
        mk_own()
    }
    fn end(c: &Self::C) {
        watch(c);
        o(O_QL, if c.flavour.last { 0 } else { 0xFF });
        o(O_QN, if c.flavour.modified { 0 } else { 0xFF });
    }
}
entries! { Ext<true>:
    zh_step_own1 = step(false); zh_stepd_own1 = step(true);
    zh_exec_own1 = exec(false); zh_execd_own1 = exec(true);
    zh_irq_own1 = irq(false); zh_irqd_own1 = irq(true);
    zh_nmi_own1 = nmi(); zh_limit_own1 = limit();
}
entries! { Ext<false>:
    zh_step_own0 = step(false); zh_stepd_own0 = step(true);
    zh_exec_own0 = exec(false); zh_execd_own0 = exec(true);
    zh_irq_own0 = irq(false); zh_irqd_own0 = irq(true);
    zh_nmi_own0 = nmi(); zh_limit_own0 = limit();
}

/// everything but the flavour
fn rest<C: Cpu + MemPtr>(c: &C) -> [u16; 21] {
    let (iff1, iff2) = c.get_iffs();
    [
        c.get_reg16(StkReg16::AF),
        c.get_reg16(StkReg16::BC),
        c.get_reg16(StkReg16::DE),
        c.get_reg16(StkReg16::HL),
        c.get_alt_reg16(StkReg16::AF),
        c.get_alt_reg16(StkReg16::BC),
        c.get_alt_reg16(StkReg16::DE),
        c.get_alt_reg16(StkReg16::HL),
        c.get_index16(Prefix::Xdd),
        c.get_index16(Prefix::Yfd),
        c.get_pc(),
        c.get_sp(),
        c.memptr(),
        c.get_ir(),
        c.get_r() as u16,
        im_code(c.get_im()) as u16,
        iff1 as u16,
        iff2 as u16,
        c.is_halt() as u16,
        c.is_after_ei() as u16,
        px_code(c.get_prefix()) as u16,
    ]
}
fn same_rest(a: &[u16; 21], b: &[u16; 21], but: usize) {
    let mut i = 0;
    while i < 21 {
        if i != but {
            crate::eq!(NAMES[i], a[i], b[i]);
        }
        i += 1;
    }
}
fn is<const E: bool>(n: &'static str, q: &Own<E>, w: Own<E>) {
    crate::eq!(n, q.modified, w.modified);
    crate::eq!(n, q.last, w.last);
    crate::eq!(n, q.mark, w.mark);
}
type Q = Own<true>;

pub mod zu_c35 {
    use super::*;
    pub fn fresh() {
        is("the flavour of a new CPU", &Z80::<Q>::new().flavour, Own { modified: true, last: true, mark: AGAIN });
        is("the flavour of a default CPU", &Z80::<Q>::default().flavour, Q::default());
    }
    pub fn reset() {
        let mut c = mk_own::<true>();
        c.reset();
        is("the flavour of a CPU reset", &c.flavour, Own { modified: true, last: true, mark: AGAIN });
        let mut d = Z80::<Q>::default();
        d.reset();
        crate::eq!("all CPUs reset are equal", c == d, true);
    }
    pub fn equal() {
        let c = mk_own::<true>();
        let mut d = c.clone();
        is("the flavour of a clone", &d.flavour, own());
        crate::eq!("a clone is equal", c == d, true);
        d.flavour.mark = b8(100);
        d.flavour.last = b1(101);
        d.flavour.modified = b1(102);
        crate::eq!("equality of the flavours decides", c == d, c.flavour == d.flavour);
        crate::eq!("inequality of the flavours decides", c != d, c.flavour != d.flavour);
    }
    pub fn to_bm1() {
        let c = mk_own::<true>();
        let w = rest(&c);
        let mut h = BM1::default();
        if b8(I_CODE) & 1 != 0 {
            h.flags_modified();
        }
        let d = c.clone().into_flavour::<BM1>();
        same_rest(&rest(&d), &w, 99);
        crate::eq!("the flavour converted", d.flavour == h, true);
        let d = Z80::<BM1>::from_flavour(c);
        same_rest(&rest(&d), &w, 99);
        crate::eq!("the flavour converted", d.flavour == h, true);
    }
    fn from<A: Flavour>(mark: u8)
    where
        Q: From<A>,
    {
        let a = mk::<A>();
        let w = rest(&a);
        let c: Z80<Q> = a.clone().into_flavour();
        same_rest(&rest(&c), &w, 99);
        is("the flavour converted", &c.flavour, Own { modified: true, last: false, mark });
        let c = Z80::<Q>::from_flavour(a.clone());
        same_rest(&rest(&c), &w, 99);
        is("the flavour converted", &c.flavour, Own { modified: true, last: false, mark });
        let c: Z80<Q> = A::cpu_into_any(a).into();
        same_rest(&rest(&c), &w, 99);
        is("the flavour converted", &c.flavour, Own { modified: true, last: false, mark });
    }
    pub fn from_nmos() {
        from::<NMOS>(0x31)
    }
    pub fn from_cmos() {
        from::<CMOS>(0x32)
    }
    pub fn from_bm1() {
        from::<BM1>(0x33)
    }
    /// into the runtime-selectable CPU the way the flavour says
    pub fn to_any() {
        let c = mk_own::<true>();
        let w = rest(&c);
        let a: Z80Any = c.into();
        crate::eq!("the variant chosen", a.kind(), 2);
        let g = rest(&a);
        same_rest(&g, &w, 13);
        crate::eq!("as the flavour left it", g[13], 0xC300 | w[13] & 0xFF);
        is("the flavour, there and back", &Q::unwrap_cpu_any(a).flavour, Own { modified: true, last: false, mark: 0x33 });
    }
    /// nothing but instructions and interrupts touches it
    pub fn untouched() {
        let mut c = mk_own::<true>();
        let k = b16(100);
        c.set_pc(k);
        c.set_sp(k);
        c.set_memptr(k);
        c.set_acc(b8(101));
        c.set_flags(CpuFlags::from_bits_retain(b8(102)));
        c.inc_r();
        c.add_r(3);
        c.set_r(b8(103));
        c.normalize_r();
        c.set_i(b8(104));
        c.set_iffs(b1(105), b1(106));
        c.set_im(InterruptMode::Mode1);
        c.halt();
        c.ex_af_af();
        c.exx();
        c.set_reg(any_r8(107), any_opx(108), b8(109));
        c.set_reg16(any_stk(110), k);
        c.set_reg2(any_stk(110), 1, 2);
        c.set_index16(any_px(111), k);
        c.set_index2(any_px(111), 3, 4);
        c.restore_iff1();
        c.disable_interrupts();
        c.enable_interrupts();
        is("the flavour", &c.flavour, own());
    }
}
