//! Declarations (only) of the event functions interpreted by the analyser.
extern "Rust" {
    // ---- inputs
    pub fn zi_bool(id: u32) -> bool;
    pub fn zi_u8(id: u32) -> u8;
    pub fn zi_u16(id: u32) -> u16;
    pub fn zi_u32(id: u32) -> u32;
    pub fn zi_u64(id: u32) -> u64;
    // ---- claims: `a` equals `b` for all inputs
    pub fn cl_eq(name: &'static str, a: u64, b: u64);
    // ---- clock
    pub fn ck_m1(addr: u16) -> u8;
    pub fn ck_mreq(addr: u16) -> u8;
    pub fn ck_io(addr: u16) -> u8;
    pub fn ck_irq(addr: u16) -> u8;
    pub fn ck_nomreq(addr: u16, n: u8);
    pub fn ck_wait(addr: u16, n: u16);
    pub fn ck_now() -> u8;
    pub fn ck_past(limit: u8) -> bool;
    // ---- memory and i/o
    pub fn ct_rdmem(addr: u16, ts: u8) -> u8;
    pub fn ct_rdmem16(addr: u16, ts: u8) -> u16;
    pub fn ct_opcode(pc: u16, ir: u16, ts: u8) -> u8;
    pub fn ct_wrmem(addr: u16, val: u8, ts: u8);
    pub fn ct_rddebug(addr: u16) -> u8;
    /// data | wait_states << 8
    pub fn ct_rdio(port: u16, ts: u8) -> u32;
    /// break | wait_states << 8
    pub fn ct_wrio(port: u16, val: u8, ts: u8) -> u32;
    pub fn ct_isirq(ts: u8) -> bool;
    /// data | wait_states << 8
    pub fn ct_irqdata(pc: u16, ts: u8) -> u32;
    pub fn ct_reti(addr: u16, ts: u8) -> bool;
    /// token naming the latest write_io / reti call
    pub fn ct_token() -> u8;
    // ---- debugger record
    pub fn dg_rec(pc: u16, prefix: u8, len: u8, c0: u8, c1: u8, c2: u8, c3: u8, m0: u8, m1: u8, m2: u8, m3: u8, mlen: u8);
    pub fn dg_arg(i: u8, kind: u8, a: u8, b: u8, w: u16);
    // ---- observations
    pub fn ob(slot: u32, val: u16);
}
