//! Abstract interpreter for the exported MIR.
//!
//! A forward data-flow analysis over the control-flow graph of each function,
//! descending into callees. The abstract value of every byte of every local is
//! a vector of eight boolean functions (BDDs) of the unknown inputs; the
//! abstract state additionally carries the boolean function under which the
//! program point is reached. States meeting at a program point are joined
//! unless they disagree on the *kinds* of host calls made so far (trace
//! partitioning), so the analysis never enumerates paths.
use crate::bdd::*;
use rustc_hash::{FxHashMap, FxHashSet};
use std::collections::BTreeMap;
use std::rc::Rc;
use zir::*;

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Base {
    Local(u32, u32),
    Alloc(u32),
    Fn(u32),
    Int,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub enum Cell {
    U,
    Top,
    C(u8),
    B(u32),
    P(u32, u8),
}

pub type PSet = Vec<(B, Base, i64)>;
pub type Val = Vec<Cell>;

#[derive(Clone)]
pub struct Frame {
    pub f: FnId,
    pub locals: Vec<Option<Rc<Val>>>,
}

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum K {
    M1,
    Mreq,
    Io,
    Irq,
    NoMreq,
    Wait,
    RdMem,
    RdMem16,
    Opcode,
    WrMem,
    RdIo,
    WrIo,
    IsIrq,
    IrqData,
    Reti,
    RdDebug,
    Rec,
    Arg,
    Note(u8),
}

pub const CLK: usize = 0;
pub const CTL: usize = 1;
pub const DBG: usize = 2;
pub const NTR: usize = 3;

#[derive(Clone, PartialEq, Eq)]
pub struct Ev {
    pub k: K,
    pub args: Vec<Vec<B>>,
    /// value(s) returned by the host
    pub ret: Vec<B>,
    pub loc: u32,
}

#[derive(Clone)]
pub struct Trace {
    pub key: u64,
    pub ev: Rc<Vec<Rc<Ev>>>,
}

impl Trace {
    fn new() -> Self {
        Trace { key: 0xcbf29ce484222325, ev: Rc::new(vec![]) }
    }
    fn push(&mut self, e: Ev, extra: u64) {
        let kk = match e.k {
            K::Note(n) => 1000 + n as u64,
            k => unsafe { *(&k as *const K as *const u8) as u64 },
        };
        self.key = (self.key ^ (kk + 1 + extra)).wrapping_mul(0x100000001b3).rotate_left(17);
        Rc::make_mut(&mut self.ev).push(Rc::new(e));
    }
    pub fn len(&self) -> usize {
        self.ev.len()
    }
}

#[derive(Clone)]
pub struct State {
    pub g: B,
    pub frames: Vec<Rc<Frame>>,
    pub tr: [Trace; NTR],
    pub obs: Rc<BTreeMap<u32, Vec<B>>>,
}

impl State {
    fn key(&self) -> (u64, u64, u64) {
        (self.tr[0].key, self.tr[1].key, self.tr[2].key)
    }
}

#[derive(Clone, Debug)]
pub struct Loc {
    base: Base,
    off: i64,
    /// fat pointer metadata
    meta: Option<[Cell; 8]>,
}

/// A way in which the interpreted code may fail to return normally.
#[derive(Clone, Debug)]
pub struct Fault {
    pub g: B,
    pub msg: String,
    pub loc: String,
}

/// runs that did not end, so far: once there are many, the budget of the
/// following ones is cut, so that a check of a tree with an endless loop in it
/// still ends within its time
static ENDLESS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// the analysis cannot decide: never reported as a pass
#[derive(Debug, Clone)]
pub struct Stuck(pub String);

pub struct Cfg {
    pub inputs: FxHashMap<u32, u16>,
    /// constant to return for (kind, ctl index, occurrence of that kind)
    pub ret: Box<dyn Fn(K, usize, usize) -> Option<u32>>,
    /// constant result of the k-th state limit test
    pub past: Box<dyn Fn(usize) -> Option<bool>>,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { inputs: Default::default(), ret: Box::new(|_, _, _| None), past: Box::new(|_| None) }
    }
}

pub struct FnInfo {
    rpo: Vec<u32>,
}

pub struct Prog {
    pub p: Program,
    pub info: Vec<Option<FnInfo>>,
    pub entries: FxHashMap<String, FnId>,
    short: Vec<String>,
    own: Vec<bool>,
}

impl Prog {
    pub fn load(path: &str) -> Prog {
        let p: Program = bincode::deserialize(&std::fs::read(path).unwrap()).unwrap();
        let info = p.fns.iter().map(|f| f.body.as_ref().map(|b| FnInfo { rpo: rpo(b) })).collect();
        let entries = p.entries.iter().map(|(n, f)| (n.clone(), *f)).collect();
        let short = p.fns.iter().map(|f| short_name(&f.name)).collect();
        let own = p.fns.iter().map(|f| f.span.contains("/repo/")).collect();
        Prog { p, info, entries, short, own }
    }
}

/// the path of a function without its generic arguments
fn short_name(n: &str) -> String {
    let n = n.replace("z80emu::", "");
    let b: Vec<char> = n.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == ':' && i + 2 < b.len() && b[i + 1] == ':' && b[i + 2] == '<' {
            let mut d = 0;
            i += 2;
            while i < b.len() {
                if b[i] == '<' {
                    d += 1;
                }
                if b[i] == '>' && b[i - 1] != '-' {
                    d -= 1;
                    if d == 0 {
                        break;
                    }
                }
                i += 1;
            }
            i += 1;
            continue;
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

fn succs(t: &Term) -> Vec<u32> {
    match t {
        Term::Goto(a) => vec![*a],
        Term::Switch { targets, otherwise, .. } => targets.iter().map(|x| x.1).chain([*otherwise]).collect(),
        Term::Drop { target, .. } | Term::Assert { target, .. } => vec![*target],
        Term::Call { target, .. } => target.iter().copied().collect(),
        _ => vec![],
    }
}

fn rpo(b: &Body) -> Vec<u32> {
    let n = b.blocks.len();
    let mut seen = vec![false; n];
    let mut post = vec![];
    let mut st: Vec<(u32, Vec<u32>, usize)> = vec![(0, succs(&b.blocks[0].term), 0)];
    seen[0] = true;
    while let Some(top) = st.last_mut() {
        if top.2 < top.1.len() {
            let s = top.1[top.2];
            top.2 += 1;
            if !seen[s as usize] {
                seen[s as usize] = true;
                st.push((s, succs(&b.blocks[s as usize].term), 0));
            }
        } else {
            post.push(top.0);
            st.pop();
        }
    }
    let mut idx = vec![u32::MAX; n];
    for (i, x) in post.iter().rev().enumerate() {
        idx[*x as usize] = i as u32;
    }
    idx
}

#[derive(Default, Clone)]
pub struct Stats {
    pub blocks: u64,
    pub stmts: u64,
    pub joins: u64,
    pub fns: FxHashSet<FnId>,
    pub asserts: u64,
    pub events: u64,
}

pub struct M<'p> {
    pub pr: &'p Prog,
    pub m: Bdd,
    bytes: Vec<[B; 8]>,
    bytes_map: FxHashMap<[B; 8], u32>,
    psets: Vec<Rc<PSet>>,
    psets_map: FxHashMap<PSet, u32>,
    pub cfg: Cfg,
    pub faults: Vec<Fault>,

    pub locs: Vec<String>,
    locs_map: FxHashMap<String, u32>,
    pub stats: Stats,
    stack: Vec<(FnId, u32)>,
    pub budget: u64,
    pub claims: Vec<Claim>,
    /// the next heap object
    heap: usize,
    /// the latest functions of the code under analysis, called from outside it
    trail: Vec<FnId>,
}

/// An equation stated by the harness: `fail` is where it does not hold.
#[derive(Clone, Debug)]
pub struct Claim {
    pub name: String,
    pub reach: B,
    pub fail: B,
    pub loc: String,
}

type R<X> = Result<X, Stuck>;

fn stuck<X>(s: impl Into<String>) -> R<X> {
    Err(Stuck(s.into()))
}

pub const RET0: u32 = 64;
pub const PAST0: u32 = 1536;
/// reads of mutable statics: a byte each
pub const HID0: u32 = 7168;
thread_local! {
    /// where each of them is
    pub static HIDDEN: std::cell::RefCell<Vec<String>> = Default::default();
}
/// inputs with identifiers from 100 on: eight byte slots each
pub const UNIT0: u32 = 2048;

impl<'p> M<'p> {
    pub fn new(pr: &'p Prog, cfg: Cfg) -> Self {
        HIDDEN.with(|h| h.borrow_mut().clear());
        M {
            pr,
            m: Bdd::new(),
            bytes: vec![],
            bytes_map: Default::default(),
            psets: vec![],
            psets_map: Default::default(),
            cfg,
            faults: vec![],

            locs: vec![],
            locs_map: Default::default(),
            stats: Default::default(),
            stack: vec![],
            // (once that is a pattern, less patience is enough)
            budget: if ENDLESS.load(std::sync::atomic::Ordering::Relaxed) < 24 { 10_000_000 } else { 300_000 },
            claims: vec![],
            heap: 0,
            trail: vec![],
        }
    }

    // ------------------------------------------------------------ cells
    fn bcell(&mut self, b: &[B]) -> Cell {
        let mut v = 0u8;
        let mut k = true;
        for i in 0..8 {
            match b[i] {
                T => v |= 1 << i,
                F => {}
                _ => {
                    k = false;
                    break;
                }
            }
        }
        if k {
            return Cell::C(v);
        }
        let a: [B; 8] = b[..8].try_into().unwrap();
        if let Some(&i) = self.bytes_map.get(&a) {
            return Cell::B(i);
        }
        let i = self.bytes.len() as u32;
        self.bytes.push(a);
        self.bytes_map.insert(a, i);
        Cell::B(i)
    }
    fn cbits(&self, c: Cell) -> Option<[B; 8]> {
        match c {
            Cell::C(v) => {
                let mut a = [F; 8];
                for i in 0..8 {
                    if v >> i & 1 == 1 {
                        a[i] = T;
                    }
                }
                Some(a)
            }
            Cell::B(i) => Some(self.bytes[i as usize]),
            _ => None,
        }
    }
    fn pset(&mut self, mut s: PSet) -> u32 {
        s.sort_by_key(|x| (x.1, x.2));
        let mut out: PSet = vec![];
        for (g, b, o) in s {
            if g == F {
                continue;
            }
            match out.last_mut() {
                Some(l) if l.1 == b && l.2 == o => l.0 = self.m.or(l.0, g),
                _ => out.push((g, b, o)),
            }
        }
        if out.len() == 1 {
            out[0].0 = T;
        }
        if let Some(&i) = self.psets_map.get(&out) {
            return i;
        }
        let i = self.psets.len() as u32;
        self.psets.push(Rc::new(out.clone()));
        self.psets_map.insert(out, i);
        i
    }
    fn ptr_val(&mut self, s: PSet) -> Val {
        let p = self.pset(s);
        (0..8).map(|i| Cell::P(p, i)).collect()
    }
    fn one_ptr(&mut self, b: Base, off: i64) -> Val {
        self.ptr_val(vec![(T, b, off)])
    }
    /// read a pointer out of 8 cells
    fn as_ptr(&mut self, c: &[Cell]) -> R<Rc<PSet>> {
        if let Cell::P(p, 0) = c[0] {
            for i in 1..8 {
                if c[i] != Cell::P(p, i as u8) {
                    return stuck("torn pointer");
                }
            }
            return Ok(self.psets[p as usize].clone());
        }
        let mut v = 0u64;
        for i in 0..8 {
            match c[i] {
                Cell::C(x) => v |= (x as u64) << (8 * i),
                _ => return stuck(format!("not a pointer: {:?}", c)),
            }
        }
        Ok(Rc::new(vec![(T, Base::Int, v as i64)]))
    }
    pub fn bits(&self, c: &[Cell]) -> R<Vec<B>> {
        let mut out = Vec::with_capacity(c.len() * 8);
        for x in c {
            match self.cbits(*x) {
                Some(b) => out.extend_from_slice(&b),
                None => match x {
                    Cell::P(..) => return stuck("integer operation on a pointer"),
                    Cell::U => return stuck("use of uninitialised value"),
                    _ => return stuck("use of opaque value"),
                },
            }
        }
        Ok(out)
    }
    pub fn val(&mut self, bits: &[B]) -> Val {
        debug_assert!(bits.len() % 8 == 0);
        bits.chunks(8).map(|b| self.bcell(b)).collect()
    }
    fn cval(&self, v: u128, n: usize) -> Val {
        (0..n).map(|i| Cell::C((v >> (8 * i)) as u8)).collect()
    }
    fn bval(&mut self, b: B) -> Val {
        let mut a = [F; 8];
        a[0] = b;
        vec![self.bcell(&a)]
    }
    fn cmux(&mut self, g: B, a: &[Cell], b: &[Cell]) -> R<Val> {
        if g == T || a == b {
            return Ok(a.to_vec());
        }
        if g == F {
            return Ok(b.to_vec());
        }
        let mut out: Val = Vec::with_capacity(a.len());
        let mut i = 0;
        while i < a.len() {
            let (x, y) = (a[i], b[i]);
            if x == y || y == Cell::U {
                out.push(x);
                i += 1;
                continue;
            }
            if x == Cell::U {
                out.push(y);
                i += 1;
                continue;
            }
            if x == Cell::Top || y == Cell::Top {
                out.push(Cell::Top);
                i += 1;
                continue;
            }
            if let (Some(p), Some(q)) = (self.cbits(x), self.cbits(y)) {
                let mut r = [F; 8];
                for k in 0..8 {
                    r[k] = self.m.ite(g, p[k], q[k]);
                }
                let c = self.bcell(&r);
                out.push(c);
                i += 1;
                continue;
            }
            // at least one pointer
            if i + 8 <= a.len() {
                let pa = self.as_ptr(&a[i..i + 8]);
                let pb = self.as_ptr(&b[i..i + 8]);
                if let (Ok(pa), Ok(pb)) = (pa, pb) {
                    let mut s: PSet = vec![];
                    for t in pa.iter() {
                        let h = self.m.and(g, t.0);
                        s.push((h, t.1, t.2));
                    }
                    for t in pb.iter() {
                        let h = self.m.and(g ^ 1, t.0);
                        s.push((h, t.1, t.2));
                    }
                    let v = self.ptr_val(s);
                    out.extend(v);
                    i += 8;
                    continue;
                }
            }
            // incompatible: whatever is stored here differs in kind
            out.push(Cell::Top);
            i += 1;
        }
        Ok(out)
    }

    // ------------------------------------------------------------ types
    fn ty(&self, t: TyId) -> &'p Ty {
        &self.pr.p.tys[t as usize]
    }
    fn size(&self, t: TyId) -> R<usize> {
        match self.ty(t).size {
            Some(s) => Ok(s as usize),
            None => stuck(format!("size of {}", self.ty(t).name)),
        }
    }
    fn int_info(&self, t: TyId) -> Option<(usize, bool)> {
        match &self.ty(t).kind {
            TyKind::Int(n) => Some((*n as usize, true)),
            TyKind::Uint(n) => Some((*n as usize, false)),
            TyKind::Bool => Some((8, false)),
            TyKind::Char => Some((32, false)),
            _ => None,
        }
    }
    fn pointee(&self, t: TyId) -> R<TyId> {
        match &self.ty(t).kind {
            TyKind::RawPtr(t) | TyKind::Ref(t) => Ok(*t),
            TyKind::Struct(f) if !f.is_empty() => {
                // Box / NonNull / Unique like wrappers
                for (_, ft) in f {
                    if let Ok(p) = self.pointee(*ft) {
                        return Ok(p);
                    }
                }
                stuck(format!("pointee of {}", self.ty(t).name))
            }
            _ => stuck(format!("pointee of {}", self.ty(t).name)),
        }
    }
    fn is_fat(&self, t: TyId) -> bool {
        match &self.ty(t).kind {
            TyKind::Slice(_) | TyKind::Str | TyKind::Dyn => true,
            TyKind::Struct(f) if self.ty(t).size.is_none() => f.last().map(|x| self.is_fat(x.1)).unwrap_or(false),
            _ => false,
        }
    }
    fn field_off(&self, t: TyId, var: Option<u32>, i: u32) -> R<i64> {
        let ty = self.ty(t);
        let o = match (&ty.variants, var) {
            (Variants::Multiple { offsets, .. }, Some(v)) => offsets[v as usize].get(i as usize).copied(),
            _ => match &ty.kind {
                TyKind::Union(_) => Some(0),
                _ => ty.offsets.get(i as usize).copied(),
            },
        };
        match o {
            Some(o) => Ok(o as i64),
            None => {
                if ty.size == Some(0) {
                    return Ok(0);
                }
                stuck(format!("field {} of {}", i, ty.name))
            }
        }
    }

    // ------------------------------------------------------------ memory
    fn konst(&mut self, c: &Const) -> R<Val> {
        self.alloc_cells(&c.bytes, &c.relocs, 0, c.bytes.len())
    }
    fn alloc_cells(&mut self, bytes: &[Option<u8>], relocs: &[(u64, AllocId)], off: usize, n: usize) -> R<Val> {
        let mut v: Val = Vec::with_capacity(n);
        for i in off..off + n {
            v.push(match bytes[i] {
                Some(b) => Cell::C(b),
                None => Cell::U,
            });
        }
        for (o, a) in relocs {
            let o = *o as usize;
            if o >= off && o + 8 <= off + n {
                let mut add = 0u64;
                for k in 0..8 {
                    add |= (bytes[o + k].unwrap_or(0) as u64) << (8 * k);
                }
                let base = match &self.pr.p.allocs[*a as usize] {
                    Alloc::Fn(f) => Base::Fn(*f),
                    _ => Base::Alloc(*a),
                };
                let p = self.one_ptr(base, add as i64);
                v[o - off..o - off + 8].copy_from_slice(&p);
            } else if o + 8 > off && o < off + n {
                return stuck("partial relocation");
            }
        }
        Ok(v)
    }
    fn load1(&mut self, st: &State, l: &Loc, n: usize) -> R<Val> {
        if n == 0 {
            return Ok(vec![]);
        }
        match l.base {
            Base::Local(fr, lo) => {
                let f = match st.frames.get(fr as usize) {
                    Some(f) => f,
                    None => return stuck("dangling frame"),
                };
                match f.locals.get(lo as usize).unwrap_or(&None) {
                    None => Ok(vec![Cell::U; n]),
                    Some(v) => {
                        let o = l.off;
                        if o < 0 || o as usize + n > v.len() {
                            return stuck(format!("out of bounds read {}+{} of {}", o, n, v.len()));
                        }
                        Ok(v[o as usize..o as usize + n].to_vec())
                    }
                }
            }
            Base::Alloc(a) => {
                let pr = self.pr;
                match &pr.p.allocs[a as usize] {
                    Alloc::Mem { bytes, relocs, mutable } => {
                        let o = l.off;
                        if o < 0 || o as usize + n > bytes.len() {
                            return stuck("out of bounds read of constant");
                        }
                        if *mutable {
                            // state outside of the processor and of its host:
                            // any value, every time
                            return Ok(self.hidden(n));
                        }
                        self.alloc_cells(bytes, relocs, o as usize, n)
                    }
                    _ => stuck("read of opaque constant"),
                }
            }
            Base::Int => stuck("read through dangling pointer"),
            Base::Fn(_) => stuck("read of function"),
        }
    }
    fn load(&mut self, st: &State, ls: &[(B, Loc)], n: usize) -> R<Val> {
        if ls.is_empty() {
            return stuck("no location");
        }
        let mut r: Option<Val> = None;
        for (g, l) in ls.iter().rev() {
            let v = if self.inside(st, l, n) {
                self.load1(st, l, n)?
            } else {
                let bad = if ls.len() == 1 { st.g } else { self.m.and(st.g, *g) };
                if bad != F {
                    self.fault(bad, "read out of bounds");
                }
                continue;
            };
            r = Some(match r {
                None => v,
                Some(o) => self.cmux(*g, &v, &o)?,
            });
        }
        match r {
            Some(v) => Ok(v),
            None => stuck("read out of bounds"),
        }
    }
    /// is the access inside the object (true where that is decided elsewhere)
    fn inside(&self, st: &State, l: &Loc, n: usize) -> bool {
        let len = match l.base {
            Base::Local(fr, lo) => match st.frames.get(fr as usize).and_then(|f| f.locals.get(lo as usize)?.as_ref().map(|v| v.len())) {
                Some(k) => k,
                None => match st.frames.get(fr as usize).and_then(|f| self.pr.p.fns[f.f as usize].body.as_ref()).and_then(|b| Some(self.size(*b.locals.get(lo as usize)?))) {
                    Some(Ok(k)) => k,
                    _ => return true,
                },
            },
            Base::Alloc(a) => match &self.pr.p.allocs[a as usize] {
                Alloc::Mem { bytes, .. } => bytes.len(),
                _ => return true,
            },
            _ => return true,
        };
        n == 0 || l.off >= 0 && l.off as usize + n <= len
    }
    fn store(&mut self, st: &mut State, ls: &[(B, Loc)], v: &[Cell]) -> R<()> {
        if v.is_empty() {
            return Ok(());
        }
        let one = ls.len() == 1;
        for (g, l) in ls {
            if !self.inside(st, l, v.len()) {
                let bad = if one { st.g } else { self.m.and(st.g, *g) };
                if bad != F {
                    self.fault(bad, "write out of bounds");
                }
                continue;
            }
            match l.base {
                Base::Local(fr, lo) => {
                    let strong = one || *g == T || self.m.implies(st.g, *g);
                    let fid = st.frames[fr as usize].f;
                    let tsize = {
                        let b = self.pr.p.fns[fid as usize].body.as_ref().unwrap();
                        match b.locals.get(lo as usize) {
                            Some(t) => self.size(*t)?,
                            None => st.frames[fr as usize].locals.get(lo as usize).and_then(|v| v.as_ref()).map(|v| v.len()).unwrap_or(0),
                        }
                    };
                    if st.frames[fr as usize].locals.len() <= lo as usize {
                        return stuck("write to an unknown object");
                    }
                    let old: Val = match &st.frames[fr as usize].locals[lo as usize] {
                        Some(o) if !strong => {
                            if l.off < 0 || l.off as usize + v.len() > o.len() {
                                return stuck("out of bounds write");
                            }
                            o[l.off as usize..l.off as usize + v.len()].to_vec()
                        }
                        _ => vec![],
                    };
                    let nv = if strong || old.is_empty() { v.to_vec() } else { self.cmux(*g, v, &old)? };
                    let f = Rc::make_mut(&mut st.frames[fr as usize]);
                    let e = &mut f.locals[lo as usize];
                    if l.off == 0 && nv.len() == tsize {
                        *e = Some(Rc::new(nv));
                    } else {
                        let c = e.get_or_insert_with(|| Rc::new(vec![Cell::U; tsize]));
                        let c = Rc::make_mut(c);
                        if l.off < 0 || l.off as usize + nv.len() > c.len() {
                            return stuck("out of bounds write");
                        }
                        c[l.off as usize..l.off as usize + nv.len()].copy_from_slice(&nv);
                    }
                }
                // read back as any value (see `load1`)
                Base::Alloc(a) if matches!(self.pr.p.allocs[a as usize], Alloc::Mem { mutable: true, .. }) => {}
                _ => return stuck(format!("write to {:?}", l.base)),
            }
        }
        Ok(())
    }
    /// unknown bytes of state that is neither the processor's nor the host's
    fn hidden(&mut self, n: usize) -> Val {
        let loc = self.here();
        let mut v = vec![];
        for _ in 0..n {
            let k = HIDDEN.with(|h| {
                let mut h = h.borrow_mut();
                h.push(loc.clone());
                (h.len() as u32 - 1) % (SLOTS - HID0)
            });
            let b = self.m.slot8(HID0 + k);
            v.extend(self.val(&b));
        }
        v
    }

    // ------------------------------------------------------------ places
    fn place(&mut self, st: &State, d: u32, p: &Place) -> R<(Vec<(B, Loc)>, TyId)> {
        let pr = self.pr;
        let body = pr.p.fns[st.frames[d as usize].f as usize].body.as_ref().unwrap();
        let mut ty = body.locals[p.local as usize];
        let mut ls = vec![(T, Loc { base: Base::Local(d, p.local), off: 0, meta: None })];
        let mut var: Option<u32> = None;
        for e in &p.proj {
            match e {
                Proj::Deref => {
                    let to = self.pointee(ty)?;
                    let fat = self.is_fat(to);
                    let v = self.load(st, &ls, if fat { 16 } else { 8 })?;
                    let ps = self.as_ptr(&v[..8])?;
                    let meta: Option<[Cell; 8]> = if fat { Some(v[8..16].try_into().unwrap()) } else { None };
                    let mut out = vec![];
                    for (g, b, o) in ps.iter() {
                        if ps.len() > 1 && self.m.and(st.g, *g) == F {
                            continue;
                        }
                        out.push((*g, Loc { base: *b, off: *o, meta }));
                    }
                    ls = out;
                    ty = to;
                    var = None;
                }
                Proj::Field(i, t) => {
                    let o = self.field_off(ty, var, *i)?;
                    let fat = self.is_fat(*t);
                    for l in &mut ls {
                        l.1.off += o;
                        if !fat {
                            l.1.meta = None;
                        }
                    }
                    ty = *t;
                    var = None;
                }
                Proj::Index(l) => {
                    let et = self.elem(ty)?;
                    let es = self.size(et)? as i64;
                    let iv = self.load1(st, &Loc { base: Base::Local(d, *l), off: 0, meta: None }, 8)?;
                    let bits = self.bits(&iv)?;
                    let vals = match self.m.as_const(&bits) {
                        Some(c) => vec![(c, T)],
                        None => match self.m.values(st.g, &bits, 65536) {
                            Some(v) => v,
                            None => return stuck("index takes too many values"),
                        },
                    };
                    let mut out = vec![];
                    for (c, _) in &vals {
                        for (g, l) in &ls {
                            let h = if vals.len() == 1 {
                                *g
                            } else {
                                let e = self.m.eqc(&bits, *c);
                                self.m.and(*g, e)
                            };
                            if h != F {
                                out.push((h, Loc { base: l.base, off: l.off + es * *c as i64, meta: None }));
                            }
                        }
                    }
                    ls = out;
                    ty = et;
                    var = None;
                }
                Proj::ConstIndex { offset, from_end, .. } => {
                    let et = self.elem(ty)?;
                    let es = self.size(et)? as i64;
                    if *from_end {
                        ls = self.by_len(st, ls)?;
                    }
                    for k in 0..ls.len() {
                        let idx = if *from_end { self.len_of(ty, &ls[k].1)? as i64 - *offset as i64 } else { *offset as i64 };
                        ls[k].1.off += es * idx;
                        ls[k].1.meta = None;
                    }
                    ty = et;
                    var = None;
                }
                Proj::Subslice { from, to, from_end } => {
                    let et = self.elem(ty)?;
                    let es = self.size(et)? as i64;
                    if *from_end {
                        ls = self.by_len(st, ls)?;
                    }
                    for k in 0..ls.len() {
                        let n = if *from_end { self.len_of(ty, &ls[k].1)? } else { 0 };
                        let m = if *from_end { n - *to as u128 - *from as u128 } else { (*to - *from) as u128 };
                        ls[k].1.off += es * *from as i64;
                        if ls[k].1.meta.is_some() {
                            ls[k].1.meta = Some(self.cval(m, 8).try_into().unwrap());
                        }
                    }
                    // arrays: the resulting type is only used for its length
                    if ls.iter().any(|l| l.1.meta.is_none()) && p.proj.last().map(|x| x as *const _) != Some(e as *const _) {
                        // element type is preserved, length may differ: keep `ty`
                    }
                    var = None;
                }
                Proj::Downcast(v) => var = Some(*v),
                Proj::Cast(t) => ty = *t,
            }
        }
        Ok((ls, ty))
    }
    fn elem(&self, t: TyId) -> R<TyId> {
        match &self.ty(t).kind {
            TyKind::Array(e, _) | TyKind::Slice(e) => Ok(*e),
            _ => stuck(format!("element of {}", self.ty(t).name)),
        }
    }
    /// slices of unknown length apart by their lengths
    fn by_len(&mut self, st: &State, ls: Vec<(B, Loc)>) -> R<Vec<(B, Loc)>> {
        let mut out = vec![];
        for (g, l) in ls {
            let b = match &l.meta {
                Some(m) => self.bits(m)?,
                None => vec![],
            };
            if l.meta.is_none() || self.m.as_const(&b).is_some() {
                out.push((g, l));
                continue;
            }
            let h = self.m.and(st.g, g);
            for (n, _) in match self.m.values(h, &b, 64) {
                Some(v) => v,
                None => return stuck("symbolic slice length"),
            } {
                let e = self.m.eqc(&b, n);
                let e = self.m.and(g, e);
                let meta = Some(self.cval(n, 8).try_into().unwrap());
                out.push((e, Loc { meta, ..l.clone() }));
            }
        }
        Ok(out)
    }
    fn len_of(&mut self, t: TyId, l: &Loc) -> R<u128> {
        match (&self.ty(t).kind, &l.meta) {
            (TyKind::Array(_, n), _) => Ok(*n as u128),
            (_, Some(m)) => {
                let b = self.bits(m)?;
                match self.m.as_const(&b) {
                    Some(c) => Ok(c),
                    None => stuck("symbolic slice length"),
                }
            }
            _ => stuck("length"),
        }
    }
    fn operand_ty(&mut self, st: &State, d: u32, o: &Operand) -> R<TyId> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let pr = self.pr;
                let body = pr.p.fns[st.frames[d as usize].f as usize].body.as_ref().unwrap();
                let mut ty = body.locals[p.local as usize];
                for e in &p.proj {
                    match e {
                        Proj::Deref => ty = self.pointee(ty)?,
                        Proj::Field(_, t) | Proj::Cast(t) => ty = *t,
                        Proj::Index(_) | Proj::ConstIndex { .. } => ty = self.elem(ty)?,
                        _ => {}
                    }
                }
                Ok(ty)
            }
            Operand::Const(c) => Ok(c.ty),
            Operand::RtCheck(_) => stuck("type of runtime check"),
        }
    }
    fn operand(&mut self, st: &State, d: u32, o: &Operand) -> R<Val> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                if p.proj.is_empty() {
                    let body = self.pr.p.fns[st.frames[d as usize].f as usize].body.as_ref().unwrap();
                    let n = self.size(body.locals[p.local as usize])?;
                    return match &st.frames[d as usize].locals[p.local as usize] {
                        Some(v) => Ok((**v).clone()),
                        None => Ok(vec![Cell::U; n]),
                    };
                }
                let (ls, ty) = self.place(st, d, p)?;
                let n = self.size(ty)?;
                self.load(st, &ls, n)
            }
            Operand::Const(c) => self.konst(c),
            Operand::RtCheck(s) => {
                let v = s.contains("Overflow") as u8;
                Ok(vec![Cell::C(v)])
            }
        }
    }
    fn ref_val(&mut self, ls: &[(B, Loc)]) -> R<Val> {
        let s: PSet = ls.iter().map(|(g, l)| (*g, l.base, l.off)).collect();
        let mut v = self.ptr_val(s);
        if ls.iter().any(|l| l.1.meta.is_some()) {
            let mut m: Option<Val> = None;
            for (g, l) in ls.iter().rev() {
                let x = match l.meta {
                    Some(x) => x.to_vec(),
                    None => return stuck("mixed metadata"),
                };
                m = Some(match m {
                    None => x,
                    Some(o) => self.cmux(*g, &x, &o)?,
                });
            }
            v.extend(m.unwrap());
        }
        Ok(v)
    }

    // ------------------------------------------------------------ integer ops
    fn ptr_cmp(&mut self, op: &str, a: &[Cell], b: &[Cell]) -> R<B> {
        let (pa, pb) = (self.as_ptr(&a[..8])?, self.as_ptr(&b[..8])?);
        let mut r = F;
        for x in pa.iter() {
            for y in pb.iter() {
                let g = self.m.and(x.0, y.0);
                if g == F {
                    continue;
                }
                let t = if x.1 == y.1 {
                    match op {
                        "Eq" => x.2 == y.2,
                        "Ne" => x.2 != y.2,
                        "Lt" => x.2 < y.2,
                        "Le" => x.2 <= y.2,
                        "Gt" => x.2 > y.2,
                        "Ge" => x.2 >= y.2,
                        _ => return stuck("pointer op"),
                    }
                } else {
                    match op {
                        // distinct objects have distinct addresses; only null and
                        // dangling integers are compared with real objects
                        "Eq" if x.1 == Base::Int || y.1 == Base::Int => false,
                        "Ne" if x.1 == Base::Int || y.1 == Base::Int => true,
                        _ => return stuck("comparison of unrelated pointers"),
                    }
                };
                if t {
                    r = self.m.or(r, g);
                }
            }
        }
        if op != "Eq" && op != "Ne" || a.len() == 8 {
            return Ok(r);
        }
        let (ma, mb) = (self.bits(&a[8..])?, self.bits(&b[8..])?);
        let e = self.m.eq(&ma, &mb);
        Ok(if op == "Eq" { self.m.and(r, e) } else { self.m.or(r, e ^ 1) })
    }

    fn has_ptr(v: &[Cell]) -> bool {
        v.iter().any(|c| matches!(c, Cell::P(..)))
    }

    /// binary operation on words; returns result bits and the overflow flag
    fn arith(&mut self, op: &str, a: &[B], b: &[B], signed: bool) -> R<(Vec<B>, B)> {
        let w = a.len();
        let m = &mut self.m;
        Ok(match op {
            "Add" | "AddUnchecked" => {
                let (s, c) = m.addc(a, b, F);
                let ov = if signed {
                    let x = m.xor(a[w - 1], s[w - 1]);
                    let y = m.xor(b[w - 1], s[w - 1]);
                    m.and(x, y)
                } else {
                    c
                };
                (s, ov)
            }
            "Sub" | "SubUnchecked" => {
                let nb = m.inv(b);
                let (s, c) = m.addc(a, &nb, T);
                let ov = if signed {
                    let x = m.xor(a[w - 1], b[w - 1]);
                    let y = m.xor(a[w - 1], s[w - 1]);
                    m.and(x, y)
                } else {
                    c ^ 1
                };
                (s, ov)
            }
            "Mul" | "MulUnchecked" => {
                let open = |v: &[B]| v.iter().filter(|x| **x != F && **x != T).count();
                let (a, b) = if open(a) < open(b) { (b, a) } else { (a, b) };
                if open(b) > 3 && w > 16 {
                    let ha = a.iter().rposition(|x| *x != F).map_or(0, |x| x + 1);
                    let hb = b.iter().rposition(|x| *x != F).map_or(0, |x| x + 1);
                    if ha > 12 || hb > 12 {
                        return stuck("wide multiplication");
                    }
                }
                let xa = m.resize(a, 2 * w, signed);
                let xb = m.resize(b, 2 * w, signed);
                let p = m.mul(&xa, &xb);
                let lo = p[..w].to_vec();
                let ext = m.resize(&lo, 2 * w, signed);
                let e = m.eq(&ext, &p);
                (lo, e ^ 1)
            }
            "BitAnd" => (m.bitop(b'&', a, b), F),
            "BitOr" => (m.bitop(b'|', a, b), F),
            "BitXor" => (m.bitop(b'^', a, b), F),
            "Shl" | "ShlUnchecked" | "Shr" | "ShrUnchecked" => {
                let k = if op.starts_with("Shl") {
                    b'l'
                } else if signed {
                    b'a'
                } else {
                    b'r'
                };
                let r = m.shift(k, a, b);
                let wc = m.konst(w as u128, b.len().max(16));
                let bx = m.resize(b, wc.len(), false);
                let lt = m.ult(&bx, &wc);
                (r, lt ^ 1)
            }
            "Div" | "Rem" => {
                if signed {
                    let (na, nb) = (a[w - 1], b[w - 1]);
                    let ma = m.neg(a);
                    let aa = m.mux(na, &ma, a);
                    let mb = m.neg(b);
                    let bb = m.mux(nb, &mb, b);
                    let (q, r) = m.udivrem(&aa, &bb);
                    let s = m.xor(na, nb);
                    let nq = m.neg(&q);
                    let nr = m.neg(&r);
                    if op == "Div" {
                        (m.mux(s, &nq, &q), F)
                    } else {
                        (m.mux(na, &nr, &r), F)
                    }
                } else {
                    let (q, r) = m.udivrem(a, b);
                    (if op == "Div" { q } else { r }, F)
                }
            }
            _ => return stuck(format!("operation {}", op)),
        })
    }

    fn binop(&mut self, st: &State, op: &str, av: &[Cell], bv: &[Cell], at: TyId) -> R<Val> {
        if op == "Offset" {
            let es = self.pointee(at).and_then(|t| self.size(t))?;
            return self.ptr_offset(st, av, bv, es as i64);
        }
        if Self::has_ptr(av) || Self::has_ptr(bv) {
            let is_cmp = matches!(op, "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge");
            if is_cmp {
                let r = self.ptr_cmp(op, av, bv)?;
                return Ok(self.bval(r));
            }
            if op == "Sub" || op == "SubUnchecked" {
                let (pa, pb) = (self.as_ptr(av)?, self.as_ptr(bv)?);
                if pa.len() == 1 && pb.len() == 1 && pa[0].1 == pb[0].1 {
                    return Ok(self.cval((pa[0].2 - pb[0].2) as u64 as u128, 8));
                }
            }
            if op == "BitAnd" && !Self::has_ptr(bv) {
                // the tag bit of core::fmt::Arguments: objects whose address
                // is tested this way are at least two-aligned
                let m = self.bits(bv)?;
                if self.m.as_const(&m) == Some(1) {
                    let pa = self.as_ptr(av)?;
                    let mut r = F;
                    for x in pa.iter() {
                        if x.2 & 1 == 1 {
                            r = self.m.or(r, x.0);
                        }
                    }
                    let mut v = vec![F; 64];
                    v[0] = r;
                    return Ok(self.val(&v));
                }
            }
            return stuck(format!("{} on pointers", op));
        }
        let signed = matches!(self.ty(at).kind, TyKind::Int(_));
        let (a, b) = (self.bits(av)?, self.bits(bv)?);
        let r = match op {
            "Eq" => self.m.eq(&a, &b),
            "Ne" => self.m.eq(&a, &b) ^ 1,
            "Lt" | "Ge" => {
                let r = if signed { self.m.slt(&a, &b) } else { self.m.ult(&a, &b) };
                if op == "Lt" {
                    r
                } else {
                    r ^ 1
                }
            }
            "Gt" | "Le" => {
                let r = if signed { self.m.slt(&b, &a) } else { self.m.ult(&b, &a) };
                if op == "Gt" {
                    r
                } else {
                    r ^ 1
                }
            }
            "Cmp" => {
                let lt = if signed { self.m.slt(&a, &b) } else { self.m.ult(&a, &b) };
                let eq = self.m.eq(&a, &b);
                // -1, 0, 1
                let mut v = vec![lt; 8];
                v[0] = eq ^ 1;
                return Ok(self.val(&v));
            }
            _ => {
                let (r, _) = self.arith(op, &a, &b, signed)?;
                return Ok(self.val(&r));
            }
        };
        Ok(self.bval(r))
    }

    fn ptr_offset(&mut self, st: &State, p: &[Cell], off: &[Cell], es: i64) -> R<Val> {
        let ps = self.as_ptr(&p[..8])?;
        let ob = self.bits(off)?;
        let vals = match self.m.as_const(&ob) {
            Some(c) => vec![(c, T)],
            None => match self.m.values(st.g, &ob, 4096) {
                Some(v) => v,
                None => return stuck("pointer offset takes too many values"),
            },
        };
        let mut s: PSet = vec![];
        for (c, _) in &vals {
            let e = if vals.len() == 1 { T } else { self.m.eqc(&ob, *c) };
            for (g, b, o) in ps.iter() {
                let h = self.m.and(*g, e);
                if h != F {
                    s.push((h, *b, o.wrapping_add((*c as u64 as i64).wrapping_mul(es))));
                }
            }
        }
        Ok(self.ptr_val(s))
    }

    fn cast(&mut self, st: &State, k: &CastKind, v: Val, from: TyId, to: TyId) -> R<Val> {
        let ts = self.size(to)?;
        match k {
            CastKind::IntToInt => {
                if v.len() == ts {
                    return Ok(v);
                }
                let signed = matches!(self.ty(from).kind, TyKind::Int(_));
                if let TyKind::Enum(_) = self.ty(from).kind {
                    let s = self.enum_signed(from);
                    let b = self.bits(&v)?;
                    let r = self.m.resize(&b, ts * 8, s);
                    return Ok(self.val(&r));
                }
                let b = self.bits(&v)?;
                let r = self.m.resize(&b, ts * 8, signed);
                Ok(self.val(&r))
            }
            CastKind::PtrToPtr => {
                if v.len() >= ts {
                    Ok(v[..ts].to_vec())
                } else {
                    stuck("pointer cast")
                }
            }
            CastKind::Transmute => {
                if v.len() != ts {
                    return stuck("transmute size");
                }
                Ok(v)
            }
            CastKind::ReifyFn(f) | CastKind::ClosureFn(f) => Ok(self.one_ptr(Base::Fn(*f), 0)),
            CastKind::UnsizeArray(n) => {
                let mut r = v[..8].to_vec();
                r.extend(self.cval(*n as u128, 8));
                Ok(r)
            }
            CastKind::UnsizeDyn(a) => {
                let mut r = v[..8].to_vec();
                let p = self.one_ptr(Base::Alloc(*a), 0);
                r.extend(p);
                Ok(r)
            }
            CastKind::Other(s) => {
                if (s.contains("Provenance") || s.contains("BoxDeref")) && v.len() == ts {
                    return Ok(v);
                }
                let _ = st;
                stuck(format!("cast {}", s))
            }
        }
    }
    fn enum_signed(&self, t: TyId) -> bool {
        match &self.ty(t).kind {
            TyKind::Enum(vs) => {
                let n = self.ty(t).size.unwrap_or(1) * 8;
                n < 128 && vs.iter().any(|v| v.discr >> n != 0)
            }
            _ => false,
        }
    }

    // ------------------------------------------------------------ enums
    fn discriminant(&mut self, v: &[Cell], t: TyId, w: usize) -> R<Vec<B>> {
        let ty = self.ty(t);
        let discr_of = |i: u32| -> u128 {
            match &ty.kind {
                TyKind::Enum(vs) => vs[i as usize].discr,
                _ => i as u128,
            }
        };
        match &ty.variants {
            Variants::Empty => stuck("uninhabited"),
            Variants::Single(i) => Ok(self.m.konst(discr_of(*i), w)),
            Variants::Multiple { tag_off, tag_size, enc, .. } => {
                let (o, n) = (*tag_off as usize, *tag_size as usize);
                let tagc = &v[o..o + n];
                match enc {
                    TagEnc::Direct => {
                        let tag = self.bits(tagc)?;
                        let s = self.enum_signed_tag(t, n);
                        Ok(self.m.resize(&tag, w, s))
                    }
                    TagEnc::Niche { untagged, start, end, niche_start } => {
                        if Self::has_ptr(tagc) {
                            // a pointer niche: null versus anything else
                            let ps = self.as_ptr(tagc)?;
                            let mut r = self.m.konst(discr_of(*untagged), w);
                            for k in *start..=*end {
                                let nv = niche_start.wrapping_add((k - start) as u128) as u64 as i64;
                                let mut c = F;
                                for p in ps.iter() {
                                    if p.1 == Base::Int && p.2 == nv {
                                        c = self.m.or(c, p.0);
                                    }
                                }
                                let kc = self.m.konst(discr_of(k), w);
                                r = self.m.mux(c, &kc, &r);
                            }
                            return Ok(r);
                        }
                        let tag = self.bits(tagc)?;
                        let mut r = self.m.konst(discr_of(*untagged), w);
                        for k in *start..=*end {
                            let nv = niche_start.wrapping_add((k - start) as u128) & mask(n * 8);
                            let c = self.m.eqc(&tag, nv);
                            let kc = self.m.konst(discr_of(k), w);
                            r = self.m.mux(c, &kc, &r);
                        }
                        Ok(r)
                    }
                }
            }
        }
    }
    fn enum_signed_tag(&self, t: TyId, n: usize) -> bool {
        match &self.ty(t).kind {
            TyKind::Enum(vs) => vs.iter().any(|v| n < 16 && v.discr >> (n * 8) != 0),
            _ => false,
        }
    }
    fn set_variant(&mut self, v: &mut Val, t: TyId, var: u32) -> R<()> {
        let ty = self.ty(t);
        if let Variants::Multiple { tag_off, tag_size, enc, .. } = &ty.variants {
            let (o, n) = (*tag_off as usize, *tag_size as usize);
            let tag = match enc {
                TagEnc::Direct => match &ty.kind {
                    TyKind::Enum(vs) => vs[var as usize].discr,
                    _ => var as u128,
                },
                TagEnc::Niche { untagged, start, niche_start, .. } => {
                    if var == *untagged {
                        return Ok(());
                    }
                    niche_start.wrapping_add((var - start) as u128)
                }
            };
            let c = self.cval(tag, n);
            v[o..o + n].copy_from_slice(&c);
        }
        Ok(())
    }

    // ------------------------------------------------------------ rvalues
    fn rvalue(&mut self, st: &State, d: u32, r: &Rvalue, dst_ty: TyId) -> R<Val> {
        match r {
            Rvalue::Use(o) => self.operand(st, d, o),
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, d, o)?;
                let mut out = Vec::with_capacity(v.len() * *n as usize);
                for _ in 0..*n {
                    out.extend_from_slice(&v);
                }
                Ok(out)
            }
            Rvalue::Ref(p) | Rvalue::AddrOf(p) => {
                let (ls, _) = self.place(st, d, p)?;
                self.ref_val(&ls)
            }
            Rvalue::Bin(op, a, b) => {
                let at = match a {
                    Operand::RtCheck(_) => dst_ty,
                    _ => self.operand_ty(st, d, a)?,
                };
                let (x, y) = (self.operand(st, d, a)?, self.operand(st, d, b)?);
                self.binop(st, op, &x, &y, at)
            }
            Rvalue::Checked(op, a, b) => {
                let at = self.operand_ty(st, d, a)?;
                let (x, y) = (self.operand(st, d, a)?, self.operand(st, d, b)?);
                let signed = matches!(self.ty(at).kind, TyKind::Int(_));
                let (x, y) = (self.bits(&x)?, self.bits(&y)?);
                let (s, ov) = self.arith(op, &x, &y, signed)?;
                let size = self.size(dst_ty)?;
                let mut out = vec![Cell::U; size];
                let o1 = self.field_off(dst_ty, None, 1)? as usize;
                let o0 = self.field_off(dst_ty, None, 0)? as usize;
                let sv = self.val(&s);
                out[o0..o0 + sv.len()].copy_from_slice(&sv);
                out[o1] = self.bval(ov)[0];
                Ok(out)
            }
            Rvalue::Un(op, a) => {
                let v = self.operand(st, d, a)?;
                match op.as_str() {
                    "PtrMetadata" => Ok(v[8..].to_vec()),
                    "Not" => {
                        let at = self.operand_ty(st, d, a)?;
                        let b = self.bits(&v)?;
                        if matches!(self.ty(at).kind, TyKind::Bool) {
                            Ok(self.bval(b[0] ^ 1))
                        } else {
                            let r = self.m.inv(&b);
                            Ok(self.val(&r))
                        }
                    }
                    "Neg" => {
                        let b = self.bits(&v)?;
                        let r = self.m.neg(&b);
                        Ok(self.val(&r))
                    }
                    _ => stuck(format!("unary {}", op)),
                }
            }
            Rvalue::Cast(k, o, to) => {
                let from = match o {
                    Operand::RtCheck(_) => *to,
                    _ => self.operand_ty(st, d, o)?,
                };
                let v = self.operand(st, d, o)?;
                self.cast(st, k, v, from, *to)
            }
            Rvalue::Aggregate(k, ops, t) => {
                match k {
                    AggKind::RawPtr => {
                        let mut v = self.operand(st, d, &ops[0])?;
                        v.truncate(8);
                        let m = self.operand(st, d, &ops[1])?;
                        v.extend(m);
                        return Ok(v);
                    }
                    _ => {}
                }
                let size = self.size(*t)?;
                let mut out = vec![Cell::U; size];
                let var = match k {
                    AggKind::Variant(v) => Some(*v),
                    _ => None,
                };
                let arr = match &self.ty(*t).kind {
                    TyKind::Array(e, _) => Some(self.size(*e)?),
                    _ => None,
                };
                for (i, o) in ops.iter().enumerate() {
                    let v = self.operand(st, d, o)?;
                    if v.is_empty() {
                        continue;
                    }
                    let off = match (arr, k) {
                        (Some(e), _) => e * i,
                        (_, AggKind::UnionField(_)) => 0,
                        _ => self.field_off(*t, var, i as u32)? as usize,
                    };
                    out[off..off + v.len()].copy_from_slice(&v);
                }
                if let Some(v) = var {
                    self.set_variant(&mut out, *t, v)?;
                }
                Ok(out)
            }
            Rvalue::Discriminant(p) => {
                let (ls, t) = self.place(st, d, p)?;
                let n = self.size(t)?;
                let v = self.load(st, &ls, n)?;
                let w = self.size(dst_ty)? * 8;
                let b = self.discriminant(&v, t, w)?;
                Ok(self.val(&b))
            }
            Rvalue::Len(p) => {
                let (ls, t) = self.place(st, d, p)?;
                if let TyKind::Array(_, n) = self.ty(t).kind {
                    return Ok(self.cval(n as u128, 8));
                }
                let mut r: Option<Val> = None;
                for (g, l) in ls.iter().rev() {
                    let x = match l.meta {
                        Some(x) => x.to_vec(),
                        None => return stuck("len"),
                    };
                    r = Some(match r {
                        None => x,
                        Some(o) => self.cmux(*g, &x, &o)?,
                    });
                }
                Ok(r.unwrap())
            }
        }
    }

    // ------------------------------------------------------------ joins
    fn join(&mut self, a: State, b: State) -> R<State> {
        self.stats.joins += 1;
        let g = self.m.or(a.g, b.g);
        let c = b.g; // value = if b.g then b else a
        let mut frames = Vec::with_capacity(a.frames.len());
        for (x, y) in a.frames.iter().zip(&b.frames) {
            if Rc::ptr_eq(x, y) {
                frames.push(x.clone());
                continue;
            }
            let n = x.locals.len().max(y.locals.len());
            let mut locals = Vec::with_capacity(n);
            for i in 0..n {
                let (p, q) = (x.locals.get(i).unwrap_or(&None), y.locals.get(i).unwrap_or(&None));
                locals.push(match (p, q) {
                    (None, q) => q.clone(),
                    (p, None) => p.clone(),
                    (Some(p), Some(q)) => {
                        if Rc::ptr_eq(p, q) || p == q || q.is_empty() {
                            Some(p.clone())
                        } else if p.is_empty() {
                            Some(q.clone())
                        } else {
                            Some(Rc::new(self.cmux(c, q, p)?))
                        }
                    }
                });
            }
            frames.push(Rc::new(Frame { f: x.f, locals }));
        }
        let mut tr = a.tr.clone();
        for i in 0..NTR {
            if Rc::ptr_eq(&a.tr[i].ev, &b.tr[i].ev) {
                continue;
            }
            let mut v = Vec::with_capacity(a.tr[i].ev.len());
            for (x, y) in a.tr[i].ev.iter().zip(b.tr[i].ev.iter()) {
                if Rc::ptr_eq(x, y) || x == y {
                    v.push(x.clone());
                } else {
                    let args = x.args.iter().zip(&y.args).map(|(p, q)| self.m.mux(c, q, p)).collect();
                    let ret = self.m.mux(c, &y.ret, &x.ret);
                    v.push(Rc::new(Ev { k: x.k, args, ret, loc: x.loc }));
                }
            }
            tr[i].ev = Rc::new(v);
        }
        let obs = if Rc::ptr_eq(&a.obs, &b.obs) {
            a.obs.clone()
        } else {
            let mut o = (*a.obs).clone();
            for (k, v) in b.obs.iter() {
                let nv = match o.get(k) {
                    Some(p) => self.m.mux(c, v, p),
                    None => return stuck("observation on one side only"),
                };
                o.insert(*k, nv);
            }
            if o.len() != b.obs.len() {
                return stuck("observation on one side only");
            }
            Rc::new(o)
        };
        Ok(State { g, frames, tr, obs })
    }

    fn here(&mut self) -> String {
        let pr = self.pr;
        let mut out = String::new();
        let mut n = 0;
        for (f, b) in self.stack.iter().rev() {
            let fun = &pr.p.fns[*f as usize];
            if !fun.span.contains("/repo/") {
                continue;
            }
            let span = &fun.body.as_ref().unwrap().blocks[*b as usize].term_span;
            let sp = span.rsplit("/repo/").next().unwrap_or(span);
            if n > 0 {
                out.push_str(" < ");
            }
            out.push_str(&format!("{} at {}", pr.short[*f as usize].replace("z80emu::", ""), sp));
            n += 1;
            if n == 3 {
                break;
            }
        }
        if out.is_empty() {
            if let Some((f, b)) = self.stack.last() {
                let fun = &pr.p.fns[*f as usize];
                out = format!("{} at {}", fun.name, fun.body.as_ref().map(|x| x.blocks[*b as usize].term_span.clone()).unwrap_or_default());
            }
        }
        out
    }
    /// a constant string argument
    fn str_arg(&mut self, st: &State, v: &[Cell]) -> R<String> {
        let n = match self.bits(&v[8..16]).ok().and_then(|b| self.m.as_const(&b)) {
            Some(n) => n as usize,
            None => return stuck("claim name of unknown length"),
        };
        let ps = self.as_ptr(&v[0..8])?;
        if ps.len() != 1 {
            return stuck("unknown claim name");
        }
        let c = self.load1(st, &Loc { base: ps[0].1, off: ps[0].2, meta: None }, n)?;
        let mut s = String::new();
        for x in c {
            match x {
                Cell::C(b) => s.push(b as char),
                _ => return stuck("unknown claim name"),
            }
        }
        Ok(s)
    }
    /// the functions of the code under analysis called so far, latest first
    fn recent(&self) -> String {
        let v: Vec<String> = self.trail.iter().rev().map(|f| {
            let fun = &self.pr.p.fns[*f as usize];
            format!("{} at {}", self.pr.short[*f as usize].replace("z80emu::", ""), fun.span.rsplit("/repo/").next().unwrap_or(""))
        }).collect();
        v.join(", after ")
    }
    fn loc_id(&mut self) -> u32 {
        let s = self.here();
        if let Some(&i) = self.locs_map.get(&s) {
            return i;
        }
        let i = self.locs.len() as u32;
        self.locs.push(s.clone());
        self.locs_map.insert(s, i);
        i
    }
    /// a path that goes on far beyond everything the specification allows
    fn endless(&mut self, g: B, msg: &str) {
        ENDLESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        self.fault(g, msg)
    }
    fn fault(&mut self, g: B, msg: impl Into<String>) {
        let loc = self.here();
        self.faults.push(Fault { g, msg: msg.into(), loc });
    }

    // ------------------------------------------------------------ execution
    pub fn init_state(&self) -> State {
        State { g: T, frames: vec![], tr: [Trace::new(), Trace::new(), Trace::new()], obs: Default::default() }
    }

    pub fn run(&mut self, entry: &str) -> R<Vec<State>> {
        let f = match self.pr.entries.get(entry) {
            Some(f) => *f,
            None => return stuck(format!("no entry {}", entry)),
        };
        let st = self.init_state();
        let r = self.call(f, vec![], st)?;
        Ok(r.into_iter().map(|x| x.0).collect())
    }

    pub fn call(&mut self, f: FnId, args: Vec<Val>, mut st: State) -> R<Vec<(State, Val)>> {
        let pr = self.pr;
        let func = &pr.p.fns[f as usize];
        let body = match &func.body {
            Some(b) => b,
            None => {
                if func.foreign {
                    return self.event(&func.name, &args, st);
                }
                return stuck(format!("no body for {}", func.name));
            }
        };
        if self.stack.len() > 120 {
            return stuck("call depth");
        }
        self.stats.fns.insert(f);
        if pr.own[f as usize] && !self.stack.last().map(|x| pr.own[x.0 as usize]).unwrap_or(false) {
            self.trail.retain(|x| *x != f);
            if self.trail.len() == 3 {
                self.trail.remove(0);
            }
            self.trail.push(f);
        }
        // alignment is never decided: the contract permits "cannot be aligned"
        if func.name.starts_with("core::ptr::align_offset") {
            let v = self.val(&vec![T; 64]);
            return Ok(vec![(st, v)]);
        }
        let d = st.frames.len() as u32;
        let mut locals: Vec<Option<Rc<Val>>> = vec![None; body.locals.len()];
        if args.len() != body.arg_count {
            return stuck(format!("argument count of {}: {} vs {}", func.name, args.len(), body.arg_count));
        }
        for (i, a) in args.into_iter().enumerate() {
            locals[i + 1] = Some(Rc::new(a));
        }
        st.frames.push(Rc::new(Frame { f, locals }));
        self.stack.push((f, 0));
        let info = pr.info[f as usize].as_ref().unwrap();
        let mut work: BTreeMap<u32, Vec<(u32, State)>> = BTreeMap::new();
        let mut done: Vec<State> = vec![];
        work.entry(info.rpo[0]).or_default().push((0, st));
        while let Some((_, list)) = work.pop_first() {
            for (b, s) in list {
                if self.budget == 0 {
                    self.endless(s.g, "no end in sight");
                    return stuck("work limit reached (unbounded loop?)");
                }
                self.budget -= 1;
                self.stats.blocks += 1;
                self.stack.last_mut().unwrap().1 = b;
                for (nb, ns) in self.block(d, body, b, s, &mut done)? {
                    if ns.g == F {
                        continue;
                    }
                    let l = work.entry(info.rpo[nb as usize]).or_default();
                    let k = ns.key();
                    if let Some(i) = l.iter().position(|(_, o)| o.key() == k) {
                        let o = l.swap_remove(i).1;
                        let j = self.join(o, ns)?;
                        l.push((nb, j));
                    } else {
                        l.push((nb, ns));
                    }
                }
            }
        }
        self.stack.pop();
        // merge the returned states
        let mut out: Vec<State> = vec![];
        for s in done {
            let k = s.key();
            if let Some(i) = out.iter().position(|o| o.key() == k) {
                let o = out.swap_remove(i);
                let mut s = s;
                // only the result survives of the callee's frame
                s = self.join(o, s)?;
                out.push(s);
            } else {
                out.push(s);
            }
        }
        let rsize = self.size(body.locals[0]).unwrap_or(0);
        Ok(out
            .into_iter()
            .map(|mut s| {
                let fr = s.frames.pop().unwrap();
                let v = match &fr.locals[0] {
                    Some(v) => (**v).clone(),
                    None => vec![Cell::U; rsize],
                };
                (s, v)
            })
            .collect())
    }

    fn block(&mut self, d: u32, body: &'p Body, b: u32, mut st: State, done: &mut Vec<State>) -> R<Vec<(u32, State)>> {
        let blk = &body.blocks[b as usize];
        for s in &blk.stmts {
            self.stats.stmts += 1;
            match s {
                Stmt::Assign(p, r) => {
                    if p.proj.is_empty() {
                        let t = body.locals[p.local as usize];
                        let v = self.rvalue(&st, d, r, t)?;
                        let f = Rc::make_mut(&mut st.frames[d as usize]);
                        f.locals[p.local as usize] = Some(Rc::new(v));
                    } else {
                        let (ls, t) = self.place(&st, d, p)?;
                        let v = self.rvalue(&st, d, r, t)?;
                        self.store(&mut st, &ls, &v)?;
                    }
                }
                Stmt::SetDiscr(p, v) => {
                    let (ls, t) = self.place(&st, d, p)?;
                    let n = self.size(t)?;
                    let mut c = self.load(&st, &ls, n)?;
                    self.set_variant(&mut c, t, *v)?;
                    self.store(&mut st, &ls, &c)?;
                }
                Stmt::StorageLive(l) | Stmt::StorageDead(l) => {
                    if st.frames[d as usize].locals[*l as usize].is_some() {
                        let f = Rc::make_mut(&mut st.frames[d as usize]);
                        f.locals[*l as usize] = None;
                    }
                }
                Stmt::Assume(o) => {
                    let v = self.operand(&st, d, o)?;
                    let c = self.bits(&v)?[0];
                    let bad = self.m.and(st.g, c ^ 1);
                    if bad != F {
                        self.fault(bad, "assumption may be false");
                    }
                    st.g = self.m.and(st.g, c);
                }
                Stmt::CopyNonOverlapping { src, dst, count, ty } => {
                    let (s, t, n) = (self.operand(&st, d, src)?, self.operand(&st, d, dst)?, self.operand(&st, d, count)?);
                    self.memcpy(&mut st, &s, &t, &n, *ty)?;
                }
            }
        }
        match &blk.term {
            Term::Goto(t) => Ok(vec![(*t, st)]),
            Term::Return => {
                done.push(st);
                Ok(vec![])
            }
            Term::Switch { discr, targets, otherwise } => {
                let v = self.operand(&st, d, discr)?;
                let w = self.bits(&v)?;
                if let Some(c) = self.m.as_const(&w) {
                    let t = targets.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*otherwise);
                    return Ok(vec![(t, st)]);
                }
                let mut out = vec![];
                let mut rest = st.g;
                // several values may share a target
                let mut per: Vec<(u32, B)> = vec![];
                for (c, t) in targets {
                    let e = self.m.eqc(&w, *c);
                    let g = self.m.and(rest, e);
                    if g == F {
                        continue;
                    }
                    rest = self.m.and(rest, e ^ 1);
                    match per.iter_mut().find(|x| x.0 == *t) {
                        Some(x) => x.1 = self.m.or(x.1, g),
                        None => per.push((*t, g)),
                    }
                }
                if rest != F {
                    match per.iter_mut().find(|x| x.0 == *otherwise) {
                        Some(x) => x.1 = self.m.or(x.1, rest),
                        None => per.push((*otherwise, rest)),
                    }
                }
                for (t, g) in per {
                    let mut s = st.clone();
                    s.g = g;
                    out.push((t, s));
                }
                Ok(out)
            }
            Term::Unreachable => {
                self.fault(st.g, "code declared unreachable is reachable");
                Ok(vec![])
            }
            Term::Abort => {
                self.fault(st.g, "abort");
                Ok(vec![])
            }
            Term::Resume => Ok(vec![]),
            Term::Asm => stuck("inline assembly"),
            Term::Drop { place, glue, target } => match glue {
                None => Ok(vec![(*target, st)]),
                Some(g) => {
                    let (ls, _) = self.place(&st, d, place)?;
                    let p = self.ref_val(&ls)?;
                    let r = self.call(*g, vec![p], st)?;
                    Ok(r.into_iter().map(|(s, _)| (*target, s)).collect())
                }
            },
            Term::Assert { cond, expected, target, msg } => {
                self.stats.asserts += 1;
                let v = self.operand(&st, d, cond)?;
                let mut c = self.bits(&v)?[0];
                if !*expected {
                    c ^= 1;
                }
                let bad = self.m.and(st.g, c ^ 1);
                if bad != F {
                    self.fault(bad, format!("assertion may fail: {}", msg));
                }
                st.g = self.m.and(st.g, c);
                Ok(vec![(*target, st)])
            }
            Term::Call { callee, args, untuple, dest, target, .. } => {
                let mut av = Vec::with_capacity(args.len());
                for a in args {
                    av.push(self.operand(&st, d, a)?);
                }
                let mut ret: Vec<(State, Val)> = vec![];
                match callee {
                    Callee::Fn(f) => {
                        let fun = &self.pr.p.fns[*f as usize];
                        if fun.ret_never || target.is_none() {
                            if fun.body.is_some() && fun.ret_never == false {
                                return stuck("diverging call");
                            }
                            self.fault(st.g, format!("call of {}", fun.name));
                            return Ok(vec![]);
                        }
                        let av = self.fix_args(*f, av, args, *untuple, &st, d)?;
                        ret = self.call(*f, av, st)?;
                    }
                    Callee::Intrinsic { name, tys, fallback } => {
                        if target.is_none() {
                            self.fault(st.g, format!("intrinsic {}", name));
                            return Ok(vec![]);
                        }
                        let (_, dt) = self.place(&st, d, dest)?;
                        match self.intrinsic(&mut st, name, tys, &av, dt)? {
                            Some(v) => ret.push((st, v)),
                            None => match fallback {
                                Some(f) => ret = self.call(*f, av, st)?,
                                None => return stuck(format!("intrinsic {}", name)),
                            },
                        }
                    }
                    Callee::Virtual(idx) => {
                        let vt = self.as_ptr(&av[0][8..16])?;
                        let thin = av[0][..8].to_vec();
                        av[0] = thin;
                        for (g, base, off) in vt.iter() {
                            let mut s = st.clone();
                            s.g = self.m.and(st.g, *g);
                            if s.g == F {
                                continue;
                            }
                            let fp = self.load1(&s, &Loc { base: *base, off: off + 8 * *idx as i64, meta: None }, 8)?;
                            let fp = self.as_ptr(&fp)?;
                            match fp[0].1 {
                                Base::Fn(f) => {
                                    let a = self.fix_args(f, av.clone(), args, *untuple, &s, d)?;
                                    ret.extend(self.call(f, a, s)?);
                                }
                                _ => return stuck("vtable entry"),
                            }
                        }
                    }
                    Callee::Ptr(o) => {
                        let v = self.operand(&st, d, o)?;
                        let ps = self.as_ptr(&v)?;
                        for (g, base, _) in ps.iter() {
                            let mut s = st.clone();
                            s.g = self.m.and(st.g, *g);
                            if s.g == F {
                                continue;
                            }
                            match base {
                                Base::Fn(f) => {
                                    let mut a = av.clone();
                                    // a closure that captures nothing, as a function
                                    if let Some(b) = self.pr.p.fns[*f as usize].body.as_ref() {
                                        if b.arg_count == a.len() + 1 && self.size(b.locals[1])? == 0 {
                                            a.insert(0, vec![]);
                                        }
                                    }
                                    ret.extend(self.call(*f, a, s)?)
                                }
                                _ => return stuck("call through a non-function pointer"),
                            }
                        }
                    }
                }
                let t = match target {
                    Some(t) => *t,
                    None => return Ok(vec![]),
                };
                let mut out = vec![];
                for (mut s, v) in ret {
                    let (ls, _) = self.place(&s, d, dest)?;
                    self.store(&mut s, &ls, &v)?;
                    out.push((t, s));
                }
                Ok(out)
            }
        }
    }

    fn fix_args(&mut self, f: FnId, mut av: Vec<Val>, args: &[Operand], untuple: bool, st: &State, d: u32) -> R<Vec<Val>> {
        let body = match &self.pr.p.fns[f as usize].body {
            Some(b) => b,
            None => return Ok(av),
        };
        if !untuple || body.spread.is_some() {
            return Ok(av);
        }
        // closure call: the last argument is a tuple
        let t = self.operand_ty(st, d, args.last().unwrap())?;
        let tv = av.pop().unwrap();
        if let TyKind::Tuple(ts) = &self.ty(t).kind {
            for (i, ft) in ts.iter().enumerate() {
                let o = if tv.is_empty() { 0 } else { self.field_off(t, None, i as u32)? as usize };
                let n = self.size(*ft)?;
                av.push(tv[o..o + n].to_vec());
            }
            Ok(av)
        } else {
            stuck("untuple")
        }
    }

    fn memcpy(&mut self, st: &mut State, s: &[Cell], t: &[Cell], n: &[Cell], ty: TyId) -> R<()> {
        let nb = self.bits(n)?;
        let vals = match self.m.as_const(&nb) {
            Some(n) => vec![(n, T)],
            None => match self.m.values(st.g, &nb, 64) {
                Some(v) => v,
                None => return stuck("symbolic copy length"),
            },
        };
        let sp = self.as_ptr(&s[..8])?;
        let tp = self.as_ptr(&t[..8])?;
        let one = vals.len() == 1;
        let mut todo = vec![];
        for (n, _) in vals {
            let e = if one { T } else { self.m.eqc(&nb, n) };
            let sz = self.size(ty)? * n as usize;
            if sz == 0 {
                continue;
            }
            let mut pick = |m: &mut Self, p: &PSet| -> Vec<(B, Loc)> {
                let mut v = vec![];
                for x in p.iter() {
                    let l = Loc { base: x.1, off: x.2, meta: None };
                    if p.len() == 1 {
                        v.push((e, l));
                        continue;
                    }
                    let g = m.m.and(x.0, e);
                    if m.m.and(g, st.g) != F {
                        v.push((g, l));
                    }
                }
                v
            };
            let (sl, tl) = (pick(self, &sp), pick(self, &tp));
            let v = self.load(st, &sl, sz)?;
            todo.push((tl, v));
        }
        for (mut tl, v) in todo {
            if !one && tl.len() == 1 {
                // not for every length: keep what is there otherwise
                let l = tl[0].clone();
                tl.push((F, l.1));
            }
            self.store(st, &tl, &v)?;
        }
        Ok(())
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, tys: &[TyId], av: &[Val], dt: TyId) -> R<Option<Val>> {
        let t0 = tys.first().copied();
        let signed = t0.map(|t| matches!(self.ty(t).kind, TyKind::Int(_))).unwrap_or(false);
        Ok(Some(match name {
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "forget" => vec![],
            "black_box" | "likely" | "unlikely" => av[0].clone(),
            "size_of" => {
                let s = self.size(t0.unwrap())?;
                self.cval(s as u128, 8)
            }
            "align_of" | "min_align_of" => {
                let s = self.ty(t0.unwrap()).align;
                self.cval(s as u128, 8)
            }
            "align_of_val" if !matches!(self.ty(t0.unwrap()).kind, TyKind::Dyn) => {
                let s = self.ty(t0.unwrap()).align;
                self.cval(s as u128, 8)
            }
            "size_of_val" => {
                let t = t0.unwrap();
                match &self.ty(t).kind {
                    TyKind::Slice(e) => {
                        let es = self.size(*e)?;
                        let n = self.bits(&av[0][8..16])?;
                        let c = self.m.konst(es as u128, 64);
                        let (r, _) = self.arith("Mul", &n, &c, false)?;
                        self.val(&r)
                    }
                    TyKind::Str => av[0][8..16].to_vec(),
                    _ => {
                        let s = self.size(t)?;
                        self.cval(s as u128, 8)
                    }
                }
            }
            "transmute" | "transmute_unchecked" => av[0].clone(),
            "offset" | "arith_offset" | "ptr_offset" => {
                let t = t0.unwrap();
                // `offset` is generic over the pointer type, `arith_offset` over the pointee
                let es = if name == "offset" { self.size(self.pointee(t)?)? } else { self.size(t)? };
                self.ptr_offset(st, &av[0], &av[1], es as i64)?
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let es = self.size(t0.unwrap())? as i64;
                let (pa, pb) = (self.as_ptr(&av[0][..8])?, self.as_ptr(&av[1][..8])?);
                let mut r: Option<Vec<B>> = None;
                for x in pa.iter() {
                    for y in pb.iter() {
                        let g = self.m.and(x.0, y.0);
                        if self.m.and(g, st.g) == F {
                            continue;
                        }
                        if x.1 != y.1 {
                            return stuck("distance of unrelated pointers");
                        }
                        let c = self.m.konst(((x.2 - y.2) / es) as u64 as u128, 64);
                        r = Some(match r {
                            None => c,
                            Some(o) => self.m.mux(g, &c, &o),
                        });
                    }
                }
                let r = r.unwrap();
                self.val(&r)
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_shl"
            | "unchecked_shr" | "unchecked_div" | "unchecked_rem" | "exact_div" | "disjoint_bitor" => {
                let op = match name {
                    "wrapping_add" | "unchecked_add" => "Add",
                    "wrapping_sub" | "unchecked_sub" => "Sub",
                    "wrapping_mul" | "unchecked_mul" => "Mul",
                    "unchecked_shl" => "Shl",
                    "unchecked_shr" => "Shr",
                    "unchecked_rem" => "Rem",
                    "disjoint_bitor" => "BitOr",
                    _ => "Div",
                };
                let (a, b) = (self.bits(&av[0])?, self.bits(&av[1])?);
                let (r, ov) = self.arith(op, &a, &b, signed)?;
                if name.starts_with("unchecked") {
                    let bad = self.m.and(st.g, ov);
                    if bad != F {
                        self.fault(bad, format!("{} overflows", name));
                    }
                }
                self.val(&r)
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let op = match &name[..3] {
                    "add" => "Add",
                    "sub" => "Sub",
                    _ => "Mul",
                };
                let (a, b) = (self.bits(&av[0])?, self.bits(&av[1])?);
                let (r, ov) = self.arith(op, &a, &b, signed)?;
                let mut out = vec![Cell::U; self.size(dt)?];
                let o0 = self.field_off(dt, None, 0)? as usize;
                let o1 = self.field_off(dt, None, 1)? as usize;
                let v = self.val(&r);
                out[o0..o0 + v.len()].copy_from_slice(&v);
                out[o1] = self.bval(ov)[0];
                out
            }
            "saturating_add" | "saturating_sub" => {
                let op = if name == "saturating_add" { "Add" } else { "Sub" };
                let (a, b) = (self.bits(&av[0])?, self.bits(&av[1])?);
                let (r, ov) = self.arith(op, &a, &b, signed)?;
                let w = a.len();
                let sat = if signed {
                    // negative operand a -> MIN, else MAX
                    let mut s = vec![a[w - 1] ^ 1; w];
                    s[w - 1] = a[w - 1];
                    s
                } else {
                    vec![if op == "Add" { T } else { F }; w]
                };
                let r = self.m.mux(ov, &sat, &r);
                self.val(&r)
            }
            "rotate_left" | "rotate_right" => {
                let (a, b) = (self.bits(&av[0])?, self.bits(&av[1])?);
                let r = self.m.shift(if name == "rotate_left" { b'L' } else { b'R' }, &a, &b);
                self.val(&r)
            }
            "ctpop" => {
                let a = self.bits(&av[0])?;
                let mut acc = self.m.konst(0, 32);
                for x in a {
                    let mut one = self.m.konst(0, 32);
                    one[0] = x;
                    acc = self.m.add(&acc, &one);
                }
                self.val(&acc)
            }
            "cttz" | "ctlz" | "cttz_nonzero" | "ctlz_nonzero" => {
                let a = self.bits(&av[0])?;
                let w = a.len();
                let mut r = self.m.konst(w as u128, 32);
                let order: Vec<usize> = if name.starts_with("cttz") { (0..w).rev().collect() } else { (0..w).collect() };
                for i in order {
                    let n = if name.starts_with("cttz") { i } else { w - 1 - i };
                    let c = self.m.konst(n as u128, 32);
                    r = self.m.mux(a[i], &c, &r);
                }
                self.val(&r)
            }
            "bswap" => {
                let mut v = av[0].clone();
                v.reverse();
                v
            }
            "bitreverse" => {
                let mut b = self.bits(&av[0])?;
                b.reverse();
                self.val(&b)
            }
            "discriminant_value" => {
                let ps = self.as_ptr(&av[0][..8])?;
                let t = t0.unwrap();
                let n = self.size(t)?;
                let sl: Vec<_> = ps.iter().map(|x| (x.0, Loc { base: x.1, off: x.2, meta: None })).collect();
                let v = self.load(st, &sl, n)?;
                let w = self.size(dt)? * 8;
                let b = self.discriminant(&v, t, w)?;
                self.val(&b)
            }
            "three_way_compare" => self.binop(st, "Cmp", &av[0], &av[1], t0.unwrap())?,
            "select_unpredictable" => {
                let c = self.bits(&av[0])?[0];
                self.cmux(c, &av[1], &av[2])?
            }
            "raw_eq" => {
                let n = self.size(t0.unwrap())?;
                let mut v = vec![];
                for k in 0..2 {
                    let ps = self.as_ptr(&av[k][..8])?;
                    let sl: Vec<_> = ps.iter().map(|x| (x.0, Loc { base: x.1, off: x.2, meta: None })).collect();
                    let c = self.load(st, &sl, n)?;
                    v.push(self.bits(&c)?);
                }
                let e = self.m.eq(&v[0], &v[1]);
                self.bval(e)
            }
            "compare_bytes" => {
                let nb = self.bits(&av[2])?;
                let vals = match self.m.as_const(&nb) {
                    Some(n) => vec![(n, T)],
                    None => match self.m.values(st.g, &nb, 64) {
                        Some(v) => v,
                        None => return stuck("symbolic compare length"),
                    },
                };
                let only = vals.len() == 1;
                let mut all = self.m.konst(0, 32);
                for (n, _) in vals {
                    let e = if only { T } else { self.m.eqc(&nb, n) };
                    let n = n as usize;
                    let mut r = self.m.konst(0, 32);
                    let mut v = vec![];
                    for k in 0..2 {
                        let ps = self.as_ptr(&av[k][..8])?;
                        let mut sl = vec![];
                        for x in ps.iter() {
                            let g = if only { x.0 } else { self.m.and(x.0, e) };
                            let live = self.m.and(g, st.g);
                            if only || live != F {
                                sl.push((g, Loc { base: x.1, off: x.2, meta: None }));
                            }
                        }
                        v.push(if n == 0 { vec![] } else { self.load(st, &sl, n)? });
                    }
                    for i in (0..n).rev() {
                        let a = self.bits(&v[0][i..i + 1])?;
                        let b = self.bits(&v[1][i..i + 1])?;
                        let lt = self.m.ult(&a, &b);
                        let eq = self.m.eq(&a, &b);
                        let one = self.m.konst(1, 32);
                        let neg = self.m.konst(0xffff_ffff, 32);
                        let d = self.m.mux(lt, &neg, &one);
                        r = self.m.mux(eq, &r, &d);
                    }
                    all = self.m.mux(e, &r, &all);
                }
                self.val(&all)
            }
            "copy_nonoverlapping" | "copy" => {
                self.memcpy(st, &av[0], &av[1], &av[2], t0.unwrap())?;
                vec![]
            }
            "write_bytes" => {
                let nb = self.bits(&av[2])?;
                let vals = match self.m.as_const(&nb) {
                    Some(n) => vec![(n, T)],
                    None => match self.m.values(st.g, &nb, 64) {
                        Some(v) => v,
                        None => return stuck("symbolic fill length"),
                    },
                };
                let only = vals.len() == 1;
                let ps = self.as_ptr(&av[0][..8])?;
                for (n, _) in vals {
                    let e = if only { T } else { self.m.eqc(&nb, n) };
                    let sz = self.size(t0.unwrap())? * n as usize;
                    if sz == 0 {
                        continue;
                    }
                    let v = vec![av[1][0]; sz];
                    let mut tl = vec![];
                    for x in ps.iter() {
                        let g = if only { x.0 } else { self.m.and(x.0, e) };
                        let live = self.m.and(g, st.g);
                        if only || live != F {
                            tl.push((g, Loc { base: x.1, off: x.2, meta: None }));
                        }
                    }
                    if !only && tl.len() == 1 {
                        let l = tl[0].1.clone();
                        tl.push((F, l));
                    }
                    self.store(st, &tl, &v)?;
                }
                vec![]
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
                let n = self.size(t0.unwrap())?;
                let ps = self.as_ptr(&av[0][..8])?;
                let sl: Vec<_> = ps.iter().map(|x| (x.0, Loc { base: x.1, off: x.2, meta: None })).collect();
                self.load(st, &sl, n)?
            }
            "write_via_move" | "volatile_store" | "unaligned_volatile_store" => {
                let ps = self.as_ptr(&av[0][..8])?;
                let tl: Vec<_> = ps.iter().map(|x| (x.0, Loc { base: x.1, off: x.2, meta: None })).collect();
                self.store(st, &tl, &av[1])?;
                vec![]
            }
            "typed_swap_nonoverlapping" => {
                let n = self.size(t0.unwrap())?;
                let mk = |p: Rc<PSet>| p.iter().map(|x| (x.0, Loc { base: x.1, off: x.2, meta: None })).collect::<Vec<_>>();
                let a = mk(self.as_ptr(&av[0][..8])?);
                let b = mk(self.as_ptr(&av[1][..8])?);
                if n > 0 {
                    let x = self.load(st, &a, n)?;
                    let y = self.load(st, &b, n)?;
                    self.store(st, &a, &y)?;
                    self.store(st, &b, &x)?;
                }
                vec![]
            }
            "ptr_metadata" => av[0][8..].to_vec(),
            "needs_drop" => vec![Cell::C(0)],
            "atomic_fence" | "atomic_singlethreadfence" => vec![],
            n if n.starts_with("atomic_") => return self.atomic(st, n, tys, av, dt),
            "caller_location" => vec![Cell::Top; 8],
            _ => return Ok(None),
        }))
    }

    /// atomic operations, by a single thread
    fn atomic(&mut self, st: &mut State, name: &str, tys: &[TyId], av: &[Val], dt: TyId) -> R<Option<Val>> {
        let mut ls = vec![];
        for (g, b, o) in self.as_ptr(&av[0][..8])?.iter() {
            ls.push((*g, Loc { base: *b, off: *o, meta: None }));
        }
        let t = tys[0];
        let n = self.size(t)?;
        if name == "atomic_store" {
            self.store(st, &ls, &av[1])?;
            return Ok(Some(vec![]));
        }
        let old = self.load(st, &ls, n)?;
        if name == "atomic_load" {
            return Ok(Some(old));
        }
        if name.starts_with("atomic_cxchg") {
            let (x, y) = (self.bits(&old)?, self.bits(&av[1])?);
            let mut same = T;
            for i in 0..x.len() {
                let d = self.m.xor(x[i], y[i]);
                same = self.m.and(same, d ^ 1);
            }
            let new = self.cmux(same, &av[2], &old)?;
            self.store(st, &ls, &new)?;
            let mut r = vec![Cell::U; self.size(dt)?];
            r[..n].copy_from_slice(&old);
            r[n] = self.bval(same)[0];
            return Ok(Some(r));
        }
        let new = if name == "atomic_xchg" {
            av[1].clone()
        } else {
            let (x, y) = (self.bits(&old)?, self.bits(&av[1])?);
            let lt = |s: &mut Self, signed: bool| -> B {
                let (mut a, mut b) = (x.clone(), y.clone());
                if signed {
                    let k = a.len() - 1;
                    a[k] ^= 1;
                    b[k] ^= 1;
                }
                let mut r = F;
                for i in 0..a.len() {
                    let d = s.m.xor(a[i], b[i]);
                    r = s.m.ite(d, b[i], r);
                }
                r
            };
            let r = match name {
                "atomic_xadd" => self.arith("Add", &x, &y, false)?.0,
                "atomic_xsub" => self.arith("Sub", &x, &y, false)?.0,
                "atomic_and" => x.iter().zip(&y).map(|(a, b)| self.m.and(*a, *b)).collect(),
                "atomic_nand" => x.iter().zip(&y).map(|(a, b)| self.m.and(*a, *b) ^ 1).collect(),
                "atomic_or" => x.iter().zip(&y).map(|(a, b)| self.m.or(*a, *b)).collect(),
                "atomic_xor" => x.iter().zip(&y).map(|(a, b)| self.m.xor(*a, *b)).collect(),
                "atomic_max" | "atomic_umax" => {
                    let l = lt(self, name == "atomic_max");
                    self.m.mux(l, &y, &x)
                }
                "atomic_min" | "atomic_umin" => {
                    let l = lt(self, name == "atomic_min");
                    self.m.mux(l, &x, &y)
                }
                _ => return Ok(None),
            };
            self.val(&r)
        };
        self.store(st, &ls, &new)?;
        Ok(Some(old))
    }

    // ------------------------------------------------------------ host events
    fn ts_const(&self, n: usize) -> Val {
        vec![Cell::C((n & 0xff) as u8)]
    }

    fn event(&mut self, name: &str, args: &[Val], mut st: State) -> R<Vec<(State, Val)>> {
        let short = name.rsplit("::").next().unwrap();
        self.stats.events += 1;
        if short == "cl_eq" {
            let name = self.str_arg(&st, &args[0])?;
            let (a, b) = (self.bits(&args[1])?, self.bits(&args[2])?);
            let mut fail = F;
            for i in 0..a.len() {
                let x = self.m.xor(a[i], b[i]);
                let x = self.m.and(st.g, x);
                fail = self.m.or(fail, x);
            }
            let loc = self.recent();
            self.claims.push(Claim { name, reach: st.g, fail, loc });
            return Ok(vec![(st, vec![])]);
        }
        let mut words: Vec<Vec<B>> = Vec::with_capacity(args.len());
        for a in args {
            words.push(if Self::has_ptr(a) { vec![] } else { self.bits(a)? });
        }
        let id = |w: &Bdd, a: &[B]| -> R<u32> {
            match w.as_const(a) {
                Some(v) => Ok(v as u32),
                None => stuck(format!("symbolic input id {:?} of {}", a.iter().map(|b| (*b == T, *b == F)).collect::<Vec<_>>(), short)),
            }
        };
        match short {
            "zi_bool" | "zi_u8" | "zi_u16" | "zi_u32" | "zi_u64" => {
                let i = id(&self.m, &words[0])?;
                let n = match short {
                    "zi_u16" => 2,
                    "zi_u32" => 4,
                    "zi_u64" => 8,
                    _ => 1,
                };
                let s0 = if i < 100 { i * 2 } else { UNIT0 + (i - 100) * 8 };
                let v = match self.cfg.inputs.get(&i) {
                    Some(c) => self.cval(*c as u128, n),
                    None => {
                        if short == "zi_bool" {
                            let b = self.m.var(s0, 0);
                            self.bval(b)
                        } else {
                            let mut b = vec![];
                            for k in 0..n as u32 {
                                b.extend(self.m.slot8(s0 + k));
                            }
                            self.val(&b)
                        }
                    }
                };
                return Ok(vec![(st, v)]);
            }
            "ob" => {
                let i = id(&self.m, &words[0])?;
                let mut o = (*st.obs).clone();
                o.insert(i, words[1].clone());
                st.obs = Rc::new(o);
                return Ok(vec![(st, vec![])]);
            }
            "ck_now" => {
                let v = self.ts_const(st.tr[CLK].len());
                return Ok(vec![(st, v)]);
            }
            "ck_past" => {
                let n = st.tr[CLK].len();
                let is_l = self.m.eqc(&words[0], 0x5A);
                let v = match (self.cfg.past)(n) {
                    Some(b) => {
                        if b {
                            T
                        } else {
                            F
                        }
                    }
                    None => self.m.var(PAST0 + n as u32, 0),
                };
                // another limit than the caller's: an unrelated unknown
                let other = self.m.var(PAST0 + 128 + n as u32, 0);
                let v = self.m.ite(is_l, v, other);
                let r = self.bval(v);
                return Ok(vec![(st, r)]);
            }
            "ct_token" => {
                let n = st.tr[CTL].len();
                let v = self.ts_const(n);
                return Ok(vec![(st, v)]);
            }
            _ => {}
        }
        let (tr, k) = match short {
            "ck_m1" => (CLK, K::M1),
            "ck_mreq" => (CLK, K::Mreq),
            "ck_io" => (CLK, K::Io),
            "ck_irq" => (CLK, K::Irq),
            "ck_nomreq" => (CLK, K::NoMreq),
            "ck_wait" => (CLK, K::Wait),
            "ct_rdmem" => (CTL, K::RdMem),
            "ct_rdmem16" => (CTL, K::RdMem16),
            "ct_opcode" => (CTL, K::Opcode),
            "ct_wrmem" => (CTL, K::WrMem),
            "ct_rddebug" => (CTL, K::RdDebug),
            "ct_rdio" => (CTL, K::RdIo),
            "ct_wrio" => (CTL, K::WrIo),
            "ct_isirq" => (CTL, K::IsIrq),
            "ct_irqdata" => (CTL, K::IrqData),
            "ct_reti" => (CTL, K::Reti),
            "dg_rec" => (DBG, K::Rec),
            "dg_arg" => (DBG, K::Arg),
            s if s.starts_with("nt_") => match s[3..].parse::<u8>() {
                Ok(n) => (CTL, K::Note(n)),
                _ => return stuck(format!("event {}", s)),
            },
            // a heap object lives in the outermost frame until it is freed
            "__rust_alloc" | "__rust_alloc_zeroed" => {
                let n = match self.m.as_const(&words[0]) {
                    Some(n) if n < 1 << 20 => n as usize,
                    _ => return stuck("allocation of unknown size"),
                };
                let c = if short == "__rust_alloc" { Cell::U } else { Cell::C(0) };
                let f = Rc::make_mut(&mut st.frames[0]);
                let i = self.heap.max(f.locals.len());
                self.heap = i + 1;
                f.locals.resize(i + 1, None);
                f.locals[i] = Some(Rc::new(vec![c; n]));
                let p = self.ptr_val(vec![(T, Base::Local(0, i as u32), 0)]);
                return Ok(vec![(st, p)]);
            }
            "__rust_dealloc" => {
                let ps = self.as_ptr(&args[0])?;
                for (g, b, o) in ps.iter() {
                    match b {
                        Base::Local(0, i) if *o == 0 && ps.len() == 1 => {
                            let f = Rc::make_mut(&mut st.frames[0]);
                            match f.locals.get_mut(*i as usize) {
                                Some(l) if l.as_ref().map(|v| v.is_empty()) != Some(true) => *l = Some(Rc::new(vec![])),
                                _ => self.fault(st.g, "freed twice"),
                            }
                        }
                        _ if self.m.and(st.g, *g) == F => {}
                        _ => return stuck("release of an unknown object"),
                    }
                }
                return Ok(vec![(st, vec![])]);
            }
            "__rust_no_alloc_shim_is_unstable_v2" => return Ok(vec![(st, vec![])]),
            s => return stuck(format!("unknown external function {}", s)),
        };
        if st.tr[tr].len() > 120 {
            self.endless(st.g, "more host calls than any instruction makes");
            return stuck("too many host calls (unbounded loop?)");
        }
        let loc = self.loc_id();
        let idx = st.tr[tr].len();
        let mut ret: Vec<B> = vec![];
        if tr == CTL {
            ret = self.host_ret(k, idx, &st.tr[CTL].ev);
        }
        let v: Val = match (tr, k) {
            (CLK, K::NoMreq) | (CLK, K::Wait) => vec![],
            (CLK, _) => self.ts_const(idx + 1),
            (CTL, _) => {
                let n = match k {
                    K::RdMem | K::Opcode | K::RdDebug | K::IsIrq | K::Reti => 1,
                    K::RdMem16 => 2,
                    K::RdIo | K::WrIo | K::IrqData | K::Note(_) => 4,
                    _ => 0,
                };
                let mut b = ret.clone();
                b.resize(n * 8, F);
                self.val(&b)
            }
            _ => vec![],
        };
        // the partition key of argument records includes the (constant) kind
        st.tr[tr].push(Ev { k, args: words, ret, loc }, 0);
        Ok(vec![(st, v)])
    }

    /// The unknown (or configured) value the host returns from its
    /// `idx`-th call.
    pub fn host_ret(&mut self, k: K, idx: usize, prev: &[Rc<Ev>]) -> Vec<B> {
        let nth = prev.iter().filter(|e| e.k == k).count();
        let w = match k {
            K::RdMem | K::Opcode | K::RdDebug => 8,
            K::RdMem16 => 16,
            K::RdIo | K::IrqData | K::WrIo => 24,
            K::IsIrq | K::Reti => 1,
            K::Note(_) => 32,
            _ => 0,
        };
        if w == 0 {
            return vec![];
        }
        let fixed = (self.cfg.ret)(k, idx, nth);
        let s0 = RET0 + idx as u32 * 4;
        let mut r: Vec<B> = vec![];
        for i in 0..w {
            r.push(self.m.var(s0 + i / 8, i % 8));
        }
        if k == K::WrIo {
            // only one break bit
            for i in 1..8 {
                r[i] = F;
            }
        }
        if let Some(c) = fixed {
            // a configured value fixes the data part only
            let n = match k {
                K::RdMem16 => 16,
                K::IsIrq | K::Reti => 1,
                _ => 8,
            };
            for i in 0..n {
                r[i] = if c >> i & 1 == 1 { T } else { F };
            }
        }
        r
    }
}

fn mask(n: usize) -> u128 {
    if n >= 128 {
        u128::MAX
    } else {
        (1 << n) - 1
    }
}
