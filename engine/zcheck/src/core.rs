//! Obligations about the CPU core: every opcode position, interrupt, NMI,
//! HALT and run-until-limit, compared against the specification.
use crate::bdd::*;
use crate::interp::*;
use crate::oracle::*;
use rustc_hash::{FxHashMap, FxHashSet};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Class {
    /// execute one instruction (entry: execute_instruction or execute_next)
    Ins,
    /// gating of the interrupt inputs
    Gate,
    Irq,
    Nmi,
    Halt,
    Limit,
}

#[derive(Clone)]
pub struct Job {
    pub name: String,
    pub entry: String,
    pub fl: Fl,
    pub dbg: bool,
    pub class: Class,
    pub px: u8,
    /// 0 main, 1 CB, 2 ED
    pub page: u8,
    pub code: u8,
    pub inputs: Vec<(u32, u16)>,
    /// constants: (kind, occurrence, value)
    pub fix: Vec<(K, usize, u32)>,
    /// opcode bytes fetched after the pinned ones
    pub rest: Option<u8>,
    pub past: Option<Arc<dyn Fn(usize) -> Option<bool> + Send + Sync>>,
}

impl Job {
    pub fn cfg(&self) -> Cfg {
        let mut c = Cfg::default();
        for (i, v) in &self.inputs {
            c.inputs.insert(*i, *v);
        }
        let fix = self.fix.clone();
        let rest = self.rest;
        c.ret = Box::new(move |k, _idx, nth| fix.iter().find(|f| f.0 == k && f.1 == nth).map(|f| f.2).or(if k == K::Opcode { rest.map(|x| x as u32) } else { None }));
        if let Some(p) = self.past.clone() {
            c.past = Box::new(move |n| p(n));
        }
        c
    }
    pub fn block(&self) -> bool {
        self.page == 2 && self.code & 0xE4 == 0xA0
    }
    pub fn repeat(&self) -> bool {
        self.page == 2 && self.code & 0xF4 == 0xB0
    }
    /// jump, call, return, restart, push, pop
    pub fn flow(&self) -> bool {
        match self.page {
            0 => {
                let c = self.code;
                matches!(c, 0x10 | 0x18 | 0x20 | 0x28 | 0x30 | 0x38 | 0xC3 | 0xC9 | 0xCD | 0xE9 | 0xE3 | 0xF9) || (c >= 0xC0 && matches!(c & 7, 0 | 2 | 4 | 7)) || (c >= 0xC0 && matches!(c & 15, 1 | 5))
            }
            2 => self.code >= 0x40 && self.code < 0x80 && self.code & 7 == 5 || self.repeat(),
            _ => false,
        }
    }
    pub fn task(&self) -> Task {
        match self.class {
            Class::Nmi => Task::Nmi,
            Class::Limit => Task::Limit,
            _ if self.entry.contains("_exec") => Task::Exec,
            _ if self.entry.contains("_irq") => Task::Irq,
            _ => Task::Step,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Diff {
    pub props: Vec<&'static str>,
    pub what: String,
    pub loc: String,
    pub witness: String,
}

pub const OBS: [&str; 25] = ["result", "break token", "AF", "BC", "DE", "HL", "AF'", "BC'", "DE'", "HL'", "IX", "IY", "PC", "SP", "MEMPTR", "IR", "R", "IM", "IFF1", "IFF2", "HALT", "after-EI", "prefix", "Q(last)", "Q(this)"];
const INN: [&str; 29] = ["AF", "BC", "DE", "HL", "AF'", "BC'", "DE'", "HL'", "IX", "IY", "PC", "SP", "MEMPTR", "I", "R7", "R", "IM", "IFF1", "IFF2", "HALT", "EI", "Q0", "Q1", "PX", "CODE", "X0", "X1", "X2", "X3"];

pub fn slot_name(s: u32) -> String {
    if s < 64 {
        let n = INN.get(s as usize / 2).copied().unwrap_or("in");
        if s & 1 == 1 {
            format!("{}.hi", n)
        } else {
            n.to_string()
        }
    } else if s >= HID0 {
        format!("(value kept outside of the state, {})", HIDDEN.with(|h| h.borrow().get((s - HID0) as usize).cloned().unwrap_or_default()))
    } else if s >= UNIT0 {
        format!("input[{}].{}", 100 + (s - UNIT0) / 8, (s - UNIT0) % 8)
    } else if s >= PAST0 {
        format!("past[{}]", s - PAST0)
    } else {
        format!("host[{}].{}", (s - RET0) / 4, (s - RET0) % 4)
    }
}

pub fn witness(m: &Bdd, g: B) -> String {
    let mut by: std::collections::BTreeMap<u32, (u32, u32)> = Default::default();
    for (s, b, v) in m.witness(g).unwrap_or_default() {
        let e = by.entry(s).or_default();
        if v {
            e.0 |= 1 << b;
        }
        e.1 |= 1 << b;
    }
    by.iter().map(|(s, (v, _))| format!("{}={:02x}", slot_name(*s), v)).collect::<Vec<_>>().join(" ")
}

fn clkname(e: &Ev) -> String {
    format!("{:?}", e.k)
}

fn flow_has(j: &Job) -> bool {
    j.flow() || matches!(j.class, Class::Irq | Class::Nmi)
}

pub struct Outcome {
    pub diffs: Vec<Diff>,
    pub stuck: Option<String>,
    pub mnemonic: String,
    pub states: usize,
    pub pairs: usize,
    pub blocks: u64,
    pub joins: u64,
    pub asserts: u64,
    pub events: u64,
    pub fns: FxHashSet<u32>,
    pub facts: u64,
    pub secs: f64,
    /// summary of implementation partitions used by the relational checks
    pub nodes: usize,
}

pub struct Cmp<'a, 'p> {
    pub m: &'a mut M<'p>,
    pub j: &'a Job,
    pub out: Vec<Diff>,
    seen: FxHashSet<(Vec<&'static str>, String)>,
    /// the documented behaviour accepts an interrupt
    irq: bool,
    /// the documented behaviour reports a break the host asked for
    brk: B,
    /// per property and finding: seen only where the property is about it
    only: FxHashMap<(&'static str, String), bool>,
    pub facts: u64,
}

impl<'a, 'p> Cmp<'a, 'p> {
    fn push(&mut self, props: Vec<&'static str>, what: String, loc: String, g: B) {
        let mut p = props;
        // everything about a prefixed, repeating, ... instruction
        let j = self.j;
        if j.px != 0 && j.class == Class::Ins {
            p.push("C14");
        }
        if j.block() && matches!(j.class, Class::Ins | Class::Limit) && !p.contains(&"C07") && !p.contains(&"C06") {
            p.push("C30");
        }
        match j.class {
            Class::Irq => p.push("C09"),
            Class::Nmi => p.push("C10"),
            Class::Halt => p.push("C12"),
            Class::Gate => {
                p.push("C08");
                if j.inputs.contains(&(20, 1)) {
                    p.push("C11");
                }
            }
            Class::Limit => {
                p.push("C22");
                if j.name.contains("halted px") || j.name.contains("halted=1") {
                    p.push("C12");
                }
                // the deferral after EI
                if what.contains("Irq") && j.fix.iter().any(|f| matches!(f.0, K::Opcode | K::IrqData) && f.2 == 0xFB) {
                    p.push("C11");
                }
            }
            _ => {}
        }
        if self.irq {
            p.push("C09");
        }
        // the prefixes themselves
        if j.class == Class::Ins && j.page == 0 && matches!(j.code, 0xDD | 0xFD) {
            p.push("C14");
        }
        // wrong only when halted at first, right after EI, when the host asks for a break
        if g != F && j.class != Class::Ins {
            let halted = self.m.m.var(2 * 19, 0);
            self.only(g, halted, "C12", &what);
        }
        if g != F && j.class == Class::Gate {
            let ei = self.m.m.var(2 * 20, 0);
            self.only(g, ei, "C11", &what);
        }
        if g != F && j.class == Class::Ins && !(j.page == 0 && j.code == 0x76) {
            self.only(g, self.brk, "C05", &what);
        }
        p.sort();
        p.dedup();
        if !self.seen.insert((p.clone(), what.clone())) {
            return;
        }
        let w = witness(&self.m.m, g);
        self.out.push(Diff { props: p, what, loc, witness: w });
    }
    fn only(&mut self, g: B, when: B, prop: &'static str, what: &str) {
        let so = self.m.m.and(g, when ^ 1) == F;
        let e = self.only.entry((prop, what.to_string())).or_insert(true);
        *e &= so;
    }
    /// the findings, with those attributed that occur in such states only
    pub fn settle(&mut self) -> Vec<Diff> {
        let mut out = std::mem::take(&mut self.out);
        for ((p, what), so) in self.only.drain() {
            if so {
                for d in out.iter_mut().filter(|d| d.what == what && !d.props.contains(&p)) {
                    d.props.push(p);
                    d.props.sort();
                }
            }
        }
        out
    }
    fn loc(&self, e: Option<&Rc<Ev>>) -> String {
        match e {
            Some(e) if e.loc != u32::MAX => self.m.locs[e.loc as usize].clone(),
            _ => String::new(),
        }
    }
    fn differ(&mut self, g: B, a: &[B], b: &[B]) -> B {
        let n = a.len().max(b.len());
        let mut d = F;
        for i in 0..n {
            let x = self.m.m.xor(*a.get(i).unwrap_or(&F), *b.get(i).unwrap_or(&F));
            if x != F {
                d = self.m.m.or(d, x);
                if d == T {
                    break;
                }
            }
        }
        self.facts += 1;
        self.m.m.and(g, d)
    }

    pub fn pair(&mut self, g: B, st: &State, o: &Out) {
        let brk = o.obs[0].1[..7].to_vec();
        self.brk = self.m.m.nonzero(&brk);
        self.irq = o.tr[CLK].iter().any(|e| e.k == K::Irq);
        self.clk(g, &st.tr[CLK].ev, &o.tr[CLK]);
        self.ctl(g, &st.tr[CTL].ev, &o.tr[CTL]);
        if self.j.dbg {
            self.dbg(g, &st.tr[DBG].ev, &o.tr[DBG]);
        }
        self.obs(g, st, o);
    }

    fn clk(&mut self, g: B, a: &[Rc<Ev>], b: &[Rc<Ev>]) {
        let fa: Vec<_> = a.iter().filter(|e| e.k != K::Wait).cloned().collect();
        let fb: Vec<_> = b.iter().filter(|e| e.k != K::Wait).cloned().collect();
        let mut ok = true;
        for i in 0..fa.len().max(fb.len()) {
            match (fa.get(i), fb.get(i)) {
                (Some(x), Some(y)) if x.k == y.k => {
                    if x.k == K::NoMreq {
                        let d = self.differ(g, &x.args[1], &y.args[1]);
                        if d != F {
                            let l = self.loc(Some(x));
                            self.push(vec!["C02"], format!("internal cycle {} has the wrong length", i), l, d);
                        }
                    }
                    let d = self.differ(g, &x.args[0], &y.args[0]);
                    if d != F {
                        let l = self.loc(Some(x));
                        let mut p = vec!["C02", "C03"];
                        // IR on the bus
                        if x.k == K::NoMreq && (0..8).all(|b| y.args[0].get(8 + b).copied().unwrap_or(F) == self.m.m.var(26, b as u32)) {
                            p.push("C13");
                        }
                        if matches!(x.k, K::M1) || x.k == K::Mreq && flow_has(self.j) {
                            p.push("C29");
                        }
                        self.push(p, format!("clock cycle {} ({}) at a wrong address", i, clkname(x)), l, d);
                    }
                }
                (x, y) => {
                    let irq = x.map(|e| e.k) == Some(K::Irq) || y.map(|e| e.k) == Some(K::Irq);
                    let what = format!("clock cycle {}: {} instead of {}", i, x.map(|e| clkname(e)).unwrap_or("nothing".into()), y.map(|e| clkname(e)).unwrap_or("nothing".into()));
                    let l = self.loc(x.or(fa.last()));
                    self.push(if irq { vec!["C02", "C08", "C09"] } else { vec!["C02"] }, what, l, g);
                    ok = false;
                    break;
                }
            }
        }
        // wait states, by position
        if !ok {
            return;
        }
        let ws = |t: &[Rc<Ev>]| -> Vec<(usize, Rc<Ev>)> {
            let mut n = 0;
            let mut v = vec![];
            for e in t {
                if e.k == K::Wait {
                    v.push((n, e.clone()))
                } else {
                    n += 1
                }
            }
            v
        };
        let (wa, wb) = (ws(a), ws(b));
        for i in 0..wa.len().max(wb.len()) {
            match (wa.get(i), wb.get(i)) {
                (Some(x), Some(y)) if x.0 == y.0 => {
                    let d = self.differ(g, &x.1.args[1], &y.1.args[1]);
                    if d != F {
                        let l = self.loc(Some(&x.1));
                        self.push(vec!["C04"], "wrong number of wait states".into(), l, d);
                    }
                    let d = self.differ(g, &x.1.args[0], &y.1.args[0]);
                    if d != F {
                        let l = self.loc(Some(&x.1));
                        self.push(vec!["C04"], "wait states at a wrong bus address".into(), l, d);
                    }
                }
                (Some(x), _) => {
                    let l = self.loc(Some(&x.1));
                    self.push(vec!["C04"], "wait states inserted at the wrong point or not requested".into(), l, g);
                    break;
                }
                (None, Some(y)) => {
                    let l = self.loc(fa.get(y.0.wrapping_sub(1)));
                    self.push(vec!["C04"], "requested wait states are not inserted".into(), l, g);
                    break;
                }
                _ => {}
            }
        }
    }

    fn ctl(&mut self, g: B, a: &[Rc<Ev>], b: &[Rc<Ev>]) {
        let kp = |k: K| -> Vec<&'static str> {
            match k {
                // polled early by some flavours
                K::IsIrq if self.j.page == 2 && matches!(self.j.code, 0x57 | 0x5F) => vec!["C08", "C18"],
                K::IsIrq => vec!["C08"],
                K::Reti => vec!["C11"],
                K::IrqData => vec!["C03", "C09"],
                K::RdDebug => vec![],
                K::RdIo | K::WrIo | K::WrMem => vec!["C03", "C15"],
                _ => vec!["C03"],
            }
        };
        for i in 0..a.len().max(b.len()) {
            match (a.get(i), b.get(i)) {
                (Some(x), Some(y)) if x.k == y.k => {
                    let n = x.args.len();
                    for k in 0..n {
                        let d = self.differ(g, &x.args[k], &y.args[k]);
                        if d == F {
                            continue;
                        }
                        let l = self.loc(Some(x));
                        let ts = k == n - 1 && x.k != K::RdDebug;
                        let (mut p, what): (Vec<&'static str>, &str) = if ts {
                            (if x.k == K::IsIrq { vec!["C08", "C03"] } else { vec!["C03"] }, "timestamp")
                        } else if x.k == K::Opcode && k == 1 {
                            (vec!["C03", "C13"], "refresh address")
                        } else if k == 1 {
                            let mut p = vec!["C15"];
                            if flow_has(self.j) && x.k == K::WrMem {
                                p.push("C29");
                            }
                            if x.k == K::WrIo && self.j.page == 2 && self.j.code == 0x71 {
                                p.push("C18");
                            }
                            (p, "data")
                        } else {
                            let mut p = vec!["C03"];
                            if matches!(x.k, K::WrMem | K::WrIo | K::RdIo | K::RdMem | K::RdMem16) {
                                p.push("C15");
                            }
                            if flow_has(self.j) || x.k == K::Opcode {
                                p.push("C29");
                            }
                            (p, "address")
                        };
                        if x.k == K::Reti {
                            p.push("C11");
                        }
                        self.push(p, format!("host call {} ({:?}): wrong {}", i, x.k, what), l, d);
                    }
                }
                (x, y) => {
                    let mut p = vec![];
                    if let Some(x) = x {
                        p.extend(kp(x.k));
                    }
                    if let Some(y) = y {
                        p.extend(kp(y.k));
                    }
                    if flow_has(self.j) && (x.map(|e| e.k) == Some(K::WrMem) || y.map(|e| e.k) == Some(K::WrMem)) {
                        p.push("C29");
                    }
                    if p.is_empty() {
                        p.push("C03");
                    }
                    let what = format!("host call {}: {} instead of {}", i, x.map(|e| format!("{:?}", e.k)).unwrap_or("nothing".into()), y.map(|e| format!("{:?}", e.k)).unwrap_or("nothing".into()));
                    let l = self.loc(x.or(a.last()));
                    self.push(p, what, l, g);
                    break;
                }
            }
        }
    }

    fn dbg(&mut self, g: B, a: &[Rc<Ev>], b: &[Rc<Ev>]) {
        let recs = |t: &[Rc<Ev>]| -> Vec<Vec<Rc<Ev>>> {
            let mut v: Vec<Vec<Rc<Ev>>> = vec![];
            for e in t {
                if e.k == K::Rec {
                    v.push(vec![e.clone()])
                } else if let Some(l) = v.last_mut() {
                    l.push(e.clone())
                }
            }
            v
        };
        // an acknowledge reports the instruction it runs
        let c07 = if self.j.class == Class::Irq { vec!["C06", "C07"] } else { vec!["C07"] };
        let (ra, rb) = (recs(a), recs(b));
        if ra.len() != rb.len() {
            let l = self.loc(a.last());
            self.push(vec!["C06", "C07"], format!("debugger called {} times instead of {}", ra.len(), rb.len()), l, g);
        }
        const FN: [&str; 12] = ["pc", "prefix", "code length", "code[0]", "code[1]", "code[2]", "code[3]", "mnemonic", "mnemonic", "mnemonic", "mnemonic", "mnemonic"];
        for (x, y) in ra.iter().zip(&rb) {
            let l = self.loc(x.first());
            if x.len() != y.len() {
                self.push(c07.clone(), format!("debug record has {} operands instead of {}", x.len() - 1, y.len() - 1), l, g);
                continue;
            }
            for k in 0..12 {
                let d = self.differ(g, &x[0].args[k], &y[0].args[k]);
                if d != F {
                    self.push(c07.clone(), format!("debug record: wrong {}", FN[k]), l.clone(), d);
                }
            }
            for i in 1..x.len() {
                let mut xa = x[i].args.clone();
                // the prefix of an operand that no prefix affects is immaterial
                let k = self.m.m.as_const(&xa[1]);
                let b = self.m.m.as_const(&xa[3]);
                if k == Some(4) && !matches!(b, Some(4) | Some(5) | None) || k == Some(6) && !matches!(b, Some(2) | None) {
                    xa[2] = vec![F; 8];
                }
                for k in 0..5 {
                    let d = self.differ(g, &xa[k], &y[i].args[k]);
                    if d != F {
                        self.push(c07.clone(), format!("debug record: wrong operand {}", i), l.clone(), d);
                        break;
                    }
                }
            }
        }
    }

    fn obs(&mut self, g: B, st: &State, o: &Out) {
        for (slot, want) in &o.obs {
            let got = match st.obs.get(slot) {
                Some(v) => v.clone(),
                None => {
                    self.push(vec!["C15"], format!("{} not observed", OBS[*slot as usize]), String::new(), g);
                    continue;
                }
            };
            let d = self.differ(g, &got, want);
            if d == F {
                continue;
            }
            let j = self.j;
            let hi = self.differ(g, &got[8..], &want[8..]) != F;
            let lo = self.differ(g, &got[..8], &want[..8]) != F;
            let mut p: Vec<&'static str> = vec![];
            let s = *slot;
            match s {
                0 | 1 => p.push("C05"),
                2 => {
                    if hi {
                        p.push("C15");
                        if j.page == 2 && matches!(j.code, 0x57 | 0x5F) {
                            p.push("C13");
                        }
                    }
                    if lo {
                        p.push("C16");
                        // bits 3 and 5 of BIT n,(HL) and BIT n,(IX+d)
                        if j.page == 1 && j.code & 0xC0 == 0x40 && (j.px > 0 || j.code & 7 == 6) && (got[3] != want[3] || got[5] != want[5]) {
                            p.push("C17");
                        }
                        if j.page == 0 && matches!(j.code, 0x37 | 0x3F) || j.page == 2 && matches!(j.code, 0x57 | 0x5F) {
                            p.push("C18");
                        }
                    }
                }
                6 => {
                    if hi {
                        p.push("C15");
                    }
                    if lo {
                        p.extend(["C16", "C15"]);
                    }
                }
                3..=5 | 7..=11 => p.push("C15"),
                12 => p.push("C29"),
                13 => p.extend(["C29", "C15"]),
                14 => {
                    p.push("C17");
                    if j.page == 0 && matches!(j.code, 0x02 | 0x12 | 0x32 | 0xD3) {
                        p.push("C18");
                    }
                }
                15 => {
                    if hi {
                        p.push("C15");
                    }
                    if lo {
                        p.push("C13");
                    }
                }
                16 => p.push("C13"),
                17..=19 | 21 => p.push("C11"),
                20 => p.push("C12"),
                22 => p.push("C14"),
                _ => p.push("C18"),
            }
            if j.page == 0 && j.code == 0x76 && matches!(s, 0 | 12 | 20) {
                p.push("C12");
            }
            let w: String = {
                let asg: FxHashMap<(u32, u32), bool> = self.m.m.witness(d).unwrap_or_default().into_iter().map(|(s, b, v)| ((s, b), v)).collect();
                format!(" (e.g. {:04x}, documented {:04x})", self.m.m.eval_bits(&got, &asg), self.m.m.eval_bits(want, &asg))
            };
            let l = self.loc(st.tr[CLK].ev.first());
            self.push(p, format!("wrong {} afterwards", OBS[s as usize]), l, d);
            if let Some(x) = self.out.last_mut() {
                if !x.witness.contains("documented") {
                    x.witness += &w;
                }
            }
        }
    }

    /// C03 on its own: every access uses the timestamp of a cycle at its own
    /// address, and no timestamp serves twice
    pub fn bus(&mut self, st: &State) {
        let clk = &st.tr[CLK].ev;
        let mut used = vec![false; clk.len() + 2];
        for (i, e) in st.tr[CTL].ev.iter().enumerate() {
            let (addr, need): (usize, &[K]) = match e.k {
                K::RdMem | K::RdMem16 | K::WrMem => (0, &[K::Mreq]),
                K::Opcode => (0, &[K::M1]),
                K::RdIo | K::WrIo => (0, &[K::Io]),
                K::IrqData => (0, &[K::Irq]),
                _ => continue,
            };
            let l = self.loc(Some(e));
            self.facts += 1;
            let ts = match self.m.m.as_const(e.args.last().unwrap()) {
                Some(t) => t as usize,
                None => {
                    self.push(vec!["C03"], format!("host call {} ({:?}): timestamp depends on data", i, e.k), l, st.g);
                    continue;
                }
            };
            if ts == 0 || ts > clk.len() || !need.contains(&clk[ts - 1].k) {
                self.push(vec!["C03"], format!("host call {} ({:?}): timestamp is not that of its own cycle", i, e.k), l, st.g);
                continue;
            }
            let d = self.differ(st.g, &e.args[addr], &clk[ts - 1].args[0]);
            if d != F {
                self.push(vec!["C03"], format!("host call {} ({:?}): address differs from the one given to the clock", i, e.k), l.clone(), d);
            }
            if used[ts] {
                self.push(vec!["C03"], format!("host call {} ({:?}): timestamp used twice", i, e.k), l, st.g);
            }
            used[ts] = true;
        }
    }
}

pub fn run(pr: &Prog, j: &Job) -> Outcome {
    let t0 = std::time::Instant::now();
    let mut m = M::new(pr, j.cfg());
    let mut out = Outcome { diffs: vec![], stuck: None, mnemonic: String::new(), states: 0, pairs: 0, blocks: 0, joins: 0, asserts: 0, events: 0, fns: Default::default(), facts: 0, secs: 0., nodes: 0 };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), Stuck> {
        let sts = m.run(&j.entry)?;
        let (outs, mn) = spec(&mut m, j.fl, j.dbg, j.task());
        out.mnemonic = mn;
        out.states = sts.len();
        let mut c = Cmp { m: &mut m, j, out: vec![], seen: Default::default(), irq: false, brk: F, only: Default::default(), facts: 0 };
        // nothing returns: every start state must be covered
        let mut cover = F;
        for s in &sts {
            cover = c.m.m.or(cover, s.g);
            c.bus(s);
            for o in &outs {
                let g = c.m.m.and(s.g, o.g);
                if g != F {
                    out.pairs += 1;
                    c.pair(g, s, o);
                }
            }
        }
        let faults = c.m.faults.clone();
        for f in &faults {
            c.push(vec!["C01"], format!("does not return normally: {}", f.msg), f.loc.clone(), f.g);
        }
        let claims = std::mem::take(&mut c.m.claims);
        for k in &claims {
            c.facts += 1;
            if k.fail != F {
                c.push(vec!["C19"], k.name.clone(), k.loc.clone(), k.fail);
            }
        }
        if cover != T && faults.is_empty() {
            c.push(vec!["C01"], "no normal return from some state".into(), String::new(), cover ^ 1);
        }
        out.facts = c.facts;
        out.diffs = c.settle();
        Ok(())
    }));
    if !matches!(r, Ok(Ok(()))) {
        // what was established before the analysis gave up
        for f in std::mem::take(&mut m.faults) {
            if f.g != F {
                let w = witness(&m.m, f.g);
                out.diffs.push(Diff { props: if j.class == Class::Limit { vec!["C01", "C22"] } else { vec!["C01"] }, what: format!("does not return normally: {}", f.msg), loc: f.loc, witness: w });
            }
        }
    }
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => out.stuck = Some(e.0),
        Err(p) => {
            out.stuck = Some(if p.is::<Blowup>() { "abstract domain too large".into() } else { format!("internal: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()) })
        }
    }
    out.blocks = m.stats.blocks;
    out.joins = m.stats.joins;
    out.asserts = m.stats.asserts;
    out.events = m.stats.events;
    out.fns = m.stats.fns.clone();
    out.nodes = m.m.size();
    out.secs = t0.elapsed().as_secs_f64();
    out
}

/// the constants that pin opcode position (px, page, code); `step` when the
/// opcode is fetched rather than supplied
pub fn pin(px: u8, page: u8, code: u8, step: bool) -> (Vec<(u32, u16)>, Vec<(K, usize, u32)>) {
    let c0 = [code, 0xCB, 0xED][page as usize];
    let mut inputs = vec![(23, px as u16)];
    let mut fix = vec![];
    let mut nth = 0;
    if step {
        fix.push((K::Opcode, 0, c0 as u32));
        nth = 1;
    } else {
        inputs.push((24, c0 as u16));
    }
    if page > 0 {
        if page == 1 && px > 0 {
            fix.push((K::RdMem, 1, code as u32));
        } else {
            fix.push((K::Opcode, nth, code as u32));
        }
    }
    (inputs, fix)
}

pub fn position(px: u8, page: u8, code: u8) -> String {
    let p = ["", "DD ", "FD "][px as usize];
    match page {
        0 => format!("{}{:02X}", p, code),
        1 if px > 0 => format!("{}CB d {:02X}", p, code),
        1 => format!("{}CB {:02X}", p, code),
        _ => format!("{}ED {:02X}", p, code),
    }
}

pub fn jobs() -> Vec<Job> {
    jobs_of(&FLAVOURS)
}

/// the same for flavours defined elsewhere
pub fn jobs_own() -> Vec<Job> {
    jobs_of(&OWN)
}

fn jobs_of(fls: &[(Fl, &str)]) -> Vec<Job> {
    let mut v = vec![];
    let mk = |name: String, entry: String, fl: Fl, dbg: bool, class: Class| Job { name, entry, fl, dbg, class, px: 0, page: 0, code: 0, inputs: vec![], fix: vec![], rest: None, past: None };
    for &(fl, fs) in fls {
        for dbg in [false, true] {
            let d = if dbg { "d" } else { "" };
            for px in 0..3u8 {
                for page in 0..3u8 {
                    for code in 0..=255u8 {
                        if page == 0 && (code == 0xCB || code == 0xED) {
                            continue;
                        }
                        for step in [false, true] {
                            let (inputs, fix) = pin(px, page, code, step);
                            let e = format!("zh_{}{}_{}", if step { "step" } else { "exec" }, d, fs);
                            let mut j = mk(format!("{} [{}]", position(px, page, code), e), e, fl, dbg, Class::Ins);
                            j.px = px;
                            j.page = page;
                            j.code = code;
                            j.inputs = inputs;
                            j.fix = fix;
                            if step {
                                // no interrupt is requested, not halted
                                j.inputs.push((19, 0));
                                j.fix.push((K::IsIrq, 0, 0));
                            }
                            v.push(j);
                        }
                    }
                }
            }
            // interrupt gating: interrupt line inactive or not allowed
            for px in 0..3u8 {
                for code in [0x00u8, 0x86, 0xFB, 0xF3, 0xDD, 0x76] {
                    let e = format!("zh_step{}_{}", d, fs);
                    let (inputs, mut fix) = pin(px, 0, code, true);
                    fix.push((K::IsIrq, 0, 0));
                    let mut j = mk(format!("step gate px={} {:02X} [{}]", px, code, e), e, fl, dbg, Class::Gate);
                    j.inputs = inputs;
                    j.fix = fix;
                    j.px = px;
                    j.code = code;
                    v.push(j);
                }
                // the interrupt request entry, refused
                for (a, b) in [(17, 0), (20, 1)] {
                    let e = format!("zh_irq{}_{}", d, fs);
                    let mut j = mk(format!("irq gate px={} {}={} [{}]", px, a, b, e), e, fl, dbg, Class::Gate);
                    j.inputs = vec![(23, px as u16), (a, b)];
                    j.px = px;
                    v.push(j);
                }
            }
            // acceptance
            for ent in ["irq", "step"] {
                let e = format!("zh_{}{}_{}", ent, d, fs);
                let base = |name: String, im: u16| {
                    let mut j = mk(format!("{} [{}]", name, e), e.clone(), fl, dbg, Class::Irq);
                    j.inputs = vec![(23, 0), (17, 1), (20, 0), (16, im)];
                    j.fix = vec![(K::IsIrq, 0, 1)];
                    j
                };
                v.push(base("irq IM1".into(), 1));
                v.push(base("irq IM2".into(), 2));
                for page in 0..3u8 {
                    for code in 0..=255u8 {
                        let c0 = [code, 0xCB, 0xED][page as usize];
                        if page == 0 && (code == 0xCB || code == 0xED) {
                            continue;
                        }
                        let mut j = base(format!("irq IM0 {}", position(0, page, code)), 0);
                        j.fix.push((K::IrqData, 0, c0 as u32));
                        if page > 0 {
                            j.fix.push((K::Opcode, 0, code as u32));
                        }
                        j.page = page;
                        j.code = code;
                        v.push(j);
                    }
                }
            }
            // idling
            for px in 0..3u8 {
                let e = format!("zh_step{}_{}", d, fs);
                let mut j = mk(format!("halted step px={} [{}]", px, e), e, fl, dbg, Class::Halt);
                j.inputs = vec![(23, px as u16), (19, 1)];
                j.fix.push((K::IsIrq, 0, 0));
                j.px = px;
                v.push(j);
            }
        }
        for px in 0..3u8 {
            let e = format!("zh_nmi_{}", fs);
            let mut j = mk(format!("nmi px={} [{}]", px, e), e, fl, false, Class::Nmi);
            j.inputs = vec![(23, px as u16)];
            j.px = px;
            v.push(j);
        }
        limit_jobs(fl, fs, &mut v);
    }
    v
}

/// Run-until-limit against single steps. Start states are arbitrary, so one
/// iteration of every opcode covers the head of every later iteration up to
/// the values the loop keeps in locals; the two-instruction chains cover those.
fn limit_jobs(fl: Fl, fs: &str, v: &mut Vec<Job>) {
    let e = format!("zh_limit_{}", fs);
    let upto = |n: usize| -> Option<Arc<dyn Fn(usize) -> Option<bool> + Send + Sync>> { Some(Arc::new(move |k| Some(k >= n))) };
    let mk = |name: String| Job { name: format!("limit {} [{}]", name, e), entry: e.clone(), fl, dbg: false, class: Class::Limit, px: 0, page: 0, code: 0, inputs: vec![], fix: vec![], rest: Some(0), past: None };
    let all = |f: &mut dyn FnMut(u8, u8)| {
        for page in 0..3u8 {
            for code in 0..=255u8 {
                if page != 0 || code != 0xCB && code != 0xED {
                    f(page, code)
                }
            }
        }
    };
    // the limit may already have passed: nothing happens
    for px in 0..3u16 {
        let mut j = mk(format!("already past px={}", px));
        j.inputs = vec![(23, px)];
        j.past = Some(Arc::new(|_| Some(true)));
        v.push(j);
        // halted
        let mut j = mk(format!("halted px={}", px));
        j.inputs = vec![(23, px), (19, 1), (16, 1)];
        j.past = Some(Arc::new(|k| if k >= 3 { Some(true) } else { None }));
        v.push(j);
        // one instruction
        all(&mut |page, code| {
            let (mut inputs, fix) = pin(px as u8, page, code, true);
            inputs.extend([(19, 0), (16, 1)]);
            let mut j = mk(format!("one {}", position(px as u8, page, code)));
            (j.inputs, j.fix, j.past) = (inputs, fix, upto(1));
            (j.px, j.page, j.code) = (px as u8, page, code);
            v.push(j);
        });
    }
    // a first instruction, then any
    for first in [0xA8u8, 0xDD, 0xFD, 0xFB] {
        all(&mut |page, code| {
            let c0 = [code, 0xCB, 0xED][page as usize];
            let px = matches!(first, 0xDD | 0xFD) as u8;
            let mut j = mk(format!("{:02X}; {}", first, position(0, page, code)));
            j.inputs = vec![(23, 0), (19, 0), (17, 0), (16, 1)];
            j.fix = vec![(K::Opcode, 0, first as u32), (K::Opcode, 1, c0 as u32)];
            if page == 1 && px > 0 {
                j.fix.push((K::RdMem, 1, code as u32));
            } else if page > 0 {
                j.fix.push((K::Opcode, 2, code as u32));
            }
            j.past = upto(2);
            (j.page, j.code) = (page, code);
            v.push(j);
        });
    }
    // any instruction, then polling before the next
    all(&mut |page, code| {
        let (mut inputs, fix) = pin(0, page, code, true);
        inputs.extend([(19, 0), (16, 1), (20, 1)]);
        let mut fix = fix;
        fix.push((K::IrqData, 0, 0));
        let n = (1..=8usize).filter(|n| *n >= 2);
        for k in n {
            if k > 3 && page == 0 && code < 0x40 && code & 7 != 1 && code & 7 != 2 {
                continue;
            }
            let mut j = mk(format!("{}; NOP to {}", position(0, page, code), k));
            (j.inputs, j.fix, j.past) = (inputs.clone(), fix.clone(), upto(k));
            (j.page, j.code) = (page, code);
            v.push(j);
        }
    });
    // an interrupt in mode 0 with any instruction, accepted at the start or
    // between two instructions
    all(&mut |page, code| {
        let c0 = [code, 0xCB, 0xED][page as usize];
        for (site, halted) in [(0, 0u16), (0, 1), (1, 0)] {
            for k in [1usize, 2] {
                let mut j = mk(format!("irq IM0 {} {} to {} halted={}", position(0, page, code), if site > 0 { "after XOR B" } else { "first" }, k + site, halted));
                j.inputs = vec![(23, 0), (19, halted), (17, 1), (20, 0), (16, 0)];
                j.fix = vec![(K::IsIrq, site, 1), (K::IsIrq, site + 1, 0), (K::IrqData, 0, c0 as u32)];
                let mut n = 0;
                if site > 0 {
                    j.fix.extend([(K::IsIrq, 0, 0), (K::Opcode, 0, 0xA8)]);
                    n = 1;
                }
                if page > 0 {
                    j.fix.push((K::Opcode, n, code as u32));
                    n += 1;
                }
                // and then a NOP
                j.fix.push((K::Opcode, n, 0));
                j.past = upto(k + site);
                (j.page, j.code) = (page, code);
                v.push(j);
            }
        }
    });
    // an interrupt, then more
    for im in [0u16, 2] {
        for vec in [0xFBu8, 0x00, 0xDD, 0x76, 0xD3, 0xC7] {
            if im == 2 && vec != 0 {
                continue;
            }
            for next in [0x00u8, 0xFB, 0x76, 0x37, 0xDD] {
                for k in 1..=8 {
                    for halted in [0u16, 1] {
                        let mut j = mk(format!("irq IM{} {:02X}; {:02X} to {} halted={}", im, vec, next, k, halted));
                        j.inputs = vec![(23, 0), (19, halted), (17, 1), (20, 0), (16, im)];
                        j.fix = vec![(K::IsIrq, 0, 1), (K::IrqData, 1, 0), (K::Opcode, 0, next as u32)];
                        j.fix.push((K::IsIrq, 1, 0));
                        if im == 0 {
                            j.fix.push((K::IrqData, 0, vec as u32));
                        }
                        j.past = upto(k);
                        v.push(j);
                    }
                }
            }
        }
    }
}

/// thorough tier: run-until-limit over every two instructions in a row (with
/// every page of the second one on NMOS)
pub fn pairs() -> Vec<Job> {
    let mut v = vec![];
    let pos: Vec<(u8, u8)> = (0..3u8).flat_map(|p| (0..=255u8).map(move |c| (p, c))).filter(|(p, c)| *p != 0 || *c != 0xCB && *c != 0xED).collect();
    for (fl, fs) in FLAVOURS {
        let e = format!("zh_limit_{}", fs);
        for &(fp, fc) in &pos {
            for &(page, code) in &pos {
                if page != 0 && fs != "nmos" {
                    continue;
                }
                let px = (fp == 0 && matches!(fc, 0xDD | 0xFD)) as u8;
                let mut fix = vec![];
                let mut n = 0;
                for (p, c, px) in [(fp, fc, 0), (page, code, px)] {
                    fix.push((K::Opcode, n, [c, 0xCB, 0xED][p as usize] as u32));
                    n += 1;
                    if p == 1 && px > 0 {
                        fix.push((K::RdMem, 1, c as u32));
                    } else if p > 0 {
                        fix.push((K::Opcode, n, c as u32));
                        n += 1;
                    }
                }
                v.push(Job {
                    name: format!("limit {}; {} [{}]", position(0, fp, fc), position(0, page, code), e),
                    entry: e.clone(),
                    fl,
                    dbg: false,
                    class: Class::Limit,
                    px: 0,
                    page,
                    code,
                    inputs: vec![(23, 0), (19, 0), (17, 0), (16, 1)],
                    fix,
                    rest: Some(0),
                    past: Some(Arc::new(|k| Some(k >= 2))),
                });
            }
        }
    }
    v
}
