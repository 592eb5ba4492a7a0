//! zdriver: compiler driver that exports the type-checked, monomorphic MIR
//! reachable from the `zh_*` entry points of the crate being compiled.
//! It is injected with RUSTC_WORKSPACE_WRAPPER; for every crate other than the
//! harness it simply behaves as rustc.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::{AllocId as SAllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::{self, *};
use rustc_public::ty::{
    Abi, AdtKind, Allocation, ClosureKind, ConstantKind, FloatTy, IntTy, MirConst, RigidTy,
    Span, Ty as STy, TyKind as STyKind, UintTy,
};
use std::collections::HashMap;
use std::ops::ControlFlow;
use zir as z;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc path as the first argument
    let mut real = String::from("rustc");
    if args.len() > 1 && args[1].ends_with("rustc") {
        real = args.remove(1);
    }
    let crate_name = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone());
    let wanted = std::env::var("ZDRIVER_CRATE").unwrap_or_else(|_| "zharness".into());
    if crate_name.as_deref() == Some(wanted.as_str()) {
        let r = if std::env::var_os("ZDRIVER_LIST").is_some() { run!(&args, listing) } else { run!(&args, export) };
        match r {
            Ok(_) => {}
            Err(e) => {
                eprintln!("zdriver: {:?}", e);
                std::process::exit(101);
            }
        }
    } else {
        let st = std::process::Command::new(real).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
}

/// what the type-checked crate consists of and which crates it links
fn listing() -> ControlFlow<(), ()> {
    let out = std::env::var("ZDRIVER_LIST").unwrap();
    let mut n = 0;
    let mut names: Vec<String> = vec![];
    let mut spans: Vec<String> = vec![];
    for it in rustc_public::all_local_items() {
        n += 1;
        if it.kind() == rustc_public::ItemKind::Fn {
            names.push(it.name());
            spans.push(format!("{:?}\t{}", it.span(), it.name()));
        }
    }
    names.sort();
    let ext: Vec<String> = rustc_public::external_crates().into_iter().map(|c| c.name.to_string()).collect();
    std::fs::write(&out, format!("items {}\ncrates {}\nfns {}\n", n, ext.join(" "), names.join("|"))).unwrap();
    if let Ok(f) = std::env::var("ZDRIVER_SPANS") {
        std::fs::write(f, spans.join("\n")).unwrap();
    }
    ControlFlow::Continue(())
}

fn export() -> ControlFlow<(), ()> {
    let out = std::env::var("ZDRIVER_OUT").expect("ZDRIVER_OUT");
    let mut cx = Cx::default();
    let mut entries = vec![];
    for it in rustc_public::all_local_items() {
        let name = it.name();
        let mut short = name.rsplit("::").next().unwrap().to_string();
        if let Some(i) = name.find("::zu_") {
            short = name[i + 2..].to_string();
        }
        let own = short.starts_with("zh_") || (short.starts_with("zu_") && it.kind() == rustc_public::ItemKind::Fn && !short.contains('{') && !short.contains(" as "));
        let nullary = own && it.body().map(|b| b.arg_locals().is_empty()).unwrap_or(false);
        if own && (nullary || short.starts_with("zh_")) {
            if let Ok(inst) = Instance::try_from(it) {
                let id = cx.func(inst);
                entries.push((short, id));
            }
        }
    }
    // statics naming function families are reached through the entries
    while let Some((inst, id)) = cx.work.pop() {
        cx.do_fn(inst, id);
    }
    entries.sort();
    let p = z::Program {
        tys: cx.tys,
        fns: cx.fns,
        allocs: cx.allocs.into_iter().map(|a| a.unwrap()).collect(),
        entries,
        meta: vec![],
    };
    let data = bincode::serialize(&p).unwrap();
    std::fs::write(&out, data).unwrap();
    eprintln!("zdriver: exported {} fns, {} types, {} allocs, {} entries", p.fns.len(), p.tys.len(), p.allocs.len(), p.entries.len());
    ControlFlow::Continue(())
}

#[derive(Default)]
struct Cx {
    tys: Vec<z::Ty>,
    ty_map: HashMap<STy, z::TyId>,
    fns: Vec<z::Func>,
    fn_map: HashMap<Instance, z::FnId>,
    allocs: Vec<Option<z::Alloc>>,
    alloc_map: HashMap<SAllocId, z::AllocId>,
    work: Vec<(Instance, z::FnId)>,
    spans: HashMap<usize, String>,
}

fn int_bits(t: IntTy) -> u32 {
    (t.num_bytes() * 8) as u32
}
fn uint_bits(t: UintTy) -> u32 {
    (t.num_bytes() * 8) as u32
}

impl Cx {
    fn span(&mut self, s: Span) -> String {
        let k = s.to_index();
        if let Some(r) = self.spans.get(&k) {
            return r.clone();
        }
        let l = s.get_lines();
        let f = s.get_filename();
        let r = format!("{}:{}:{}", f, l.start_line, l.start_col);
        self.spans.insert(k, r.clone());
        r
    }

    fn ty(&mut self, t: STy) -> z::TyId {
        if let Some(&i) = self.ty_map.get(&t) {
            return i;
        }
        let id = self.tys.len() as z::TyId;
        self.ty_map.insert(t, id);
        self.tys.push(z::Ty {
            name: format!("{}", t),
            kind: z::TyKind::Other,
            size: None,
            align: 1,
            offsets: vec![],
            variants: z::Variants::Single(0),
        });
        let kind = self.ty_kind(t);
        let mut size = None;
        let mut align = 1;
        let mut offsets = vec![];
        let mut variants = z::Variants::Single(0);
        if let Ok(l) = t.layout() {
            let s = l.shape();
            if s.is_sized() {
                size = Some(s.size.bytes() as u64);
            }
            align = s.abi_align as u64;
            if let FieldsShape::Arbitrary { offsets: o } = &s.fields {
                offsets = o.iter().map(|x| x.bytes() as u64).collect();
            }
            variants = match &s.variants {
                VariantsShape::Empty => z::Variants::Empty,
                VariantsShape::Single { index } => z::Variants::Single(index.to_index() as u32),
                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                    let tag_size = tag_size(tag);
                    z::Variants::Multiple {
                        tag_off: offsets.get(*tag_field).copied().unwrap_or(0),
                        tag_size,
                        enc: match tag_encoding {
                            TagEncoding::Direct => z::TagEnc::Direct,
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => z::TagEnc::Niche {
                                untagged: untagged_variant.to_index() as u32,
                                start: niche_variants.start().to_index() as u32,
                                end: niche_variants.end().to_index() as u32,
                                niche_start: *niche_start,
                            },
                        },
                        offsets: variants.iter().map(|v| v.offsets.iter().map(|x| x.bytes() as u64).collect()).collect(),
                    }
                }
            };
        }
        let e = &mut self.tys[id as usize];
        e.kind = kind;
        e.size = size;
        e.align = align;
        e.offsets = offsets;
        e.variants = variants;
        id
    }

    fn ty_kind(&mut self, t: STy) -> z::TyKind {
        let k = match t.kind() {
            STyKind::RigidTy(r) => r,
            _ => return z::TyKind::Other,
        };
        match k {
            RigidTy::Bool => z::TyKind::Bool,
            RigidTy::Char => z::TyKind::Char,
            RigidTy::Int(i) => z::TyKind::Int(int_bits(i)),
            RigidTy::Uint(i) => z::TyKind::Uint(uint_bits(i)),
            RigidTy::Float(f) => z::TyKind::Float(match f {
                FloatTy::F16 => 16,
                FloatTy::F32 => 32,
                FloatTy::F64 => 64,
                FloatTy::F128 => 128,
            }),
            RigidTy::Adt(def, args) => match def.kind() {
                AdtKind::Struct | AdtKind::Union => {
                    let v = def.variants_iter().next().unwrap();
                    let fs: Vec<_> = v.fields().iter().map(|f| (f.name.clone(), f.ty_with_args(&args))).collect();
                    let fs = fs.into_iter().map(|(n, t)| (n, self.ty(t))).collect();
                    if def.kind() == AdtKind::Struct { z::TyKind::Struct(fs) } else { z::TyKind::Union(fs) }
                }
                AdtKind::Enum => {
                    let mut vs = vec![];
                    for v in def.variants() {
                        let fs: Vec<_> = v.fields().iter().map(|f| (f.name.clone(), f.ty_with_args(&args))).collect();
                        let fs = fs.into_iter().map(|(n, t)| (n, self.ty(t))).collect();
                        vs.push(z::Variant { name: v.name(), discr: def.discriminant_for_variant(v.idx()).val, fields: fs });
                    }
                    z::TyKind::Enum(vs)
                }
            },
            RigidTy::Str => z::TyKind::Str,
            RigidTy::Array(t, n) => z::TyKind::Array(self.ty(t), n.eval_target_usize().unwrap_or(u64::MAX)),
            RigidTy::Slice(t) => z::TyKind::Slice(self.ty(t)),
            RigidTy::Pat(t, _) => self.ty_kind(t),
            RigidTy::RawPtr(t, _) => z::TyKind::RawPtr(self.ty(t)),
            RigidTy::Ref(_, t, _) => z::TyKind::Ref(self.ty(t)),
            RigidTy::FnDef(..) => z::TyKind::FnDef(None),
            RigidTy::FnPtr(_) => z::TyKind::FnPtr,
            RigidTy::Closure(_, args) => {
                let last = args.0.last().and_then(|a| a.ty().copied());
                let mut v = vec![];
                if let Some(l) = last {
                    if let STyKind::RigidTy(RigidTy::Tuple(ts)) = l.kind() {
                        for t in ts {
                            v.push(self.ty(t));
                        }
                    }
                }
                z::TyKind::Closure(v)
            }
            RigidTy::Tuple(ts) => z::TyKind::Tuple(ts.into_iter().map(|t| self.ty(t)).collect()),
            RigidTy::Never => z::TyKind::Never,
            RigidTy::Dynamic(..) => z::TyKind::Dyn,
            _ => z::TyKind::Other,
        }
    }

    fn func(&mut self, inst: Instance) -> z::FnId {
        if let Some(&i) = self.fn_map.get(&inst) {
            return i;
        }
        let id = self.fns.len() as z::FnId;
        self.fn_map.insert(inst, id);
        let ret_never = match inst.ty().kind().fn_sig() {
            Some(s) => matches!(s.skip_binder().output().kind(), STyKind::RigidTy(RigidTy::Never)),
            None => false,
        };
        let span = self.span(inst.def.span());
        let foreign = inst.is_foreign_item();
        self.fns.push(z::Func { name: inst.name(), span, body: None, foreign, ret_never });
        if !foreign && !ret_never {
            self.work.push((inst, id));
        }
        id
    }

    fn alloc(&mut self, a: SAllocId) -> z::AllocId {
        if let Some(&i) = self.alloc_map.get(&a) {
            return i;
        }
        let id = self.allocs.len() as z::AllocId;
        self.alloc_map.insert(a, id);
        self.allocs.push(None);
        let g = GlobalAlloc::from(a);
        let r = match &g {
            GlobalAlloc::Function(inst) => z::Alloc::Fn(self.func(*inst)),
            GlobalAlloc::VTable(..) => {
                let v = g.vtable_allocation().unwrap();
                match GlobalAlloc::from(v) {
                    GlobalAlloc::Memory(m) => self.mem(&m),
                    o => z::Alloc::Opaque(format!("{:?}", o)),
                }
            }
            GlobalAlloc::Static(s) => match s.eval_initializer() {
                Ok(m) => self.mem(&m),
                Err(_) => z::Alloc::Opaque(s.name()),
            },
            GlobalAlloc::Memory(m) => self.mem(m),
            o => z::Alloc::Opaque(format!("{:?}", o)),
        };
        self.allocs[id as usize] = Some(r);
        id
    }

    fn mem(&mut self, m: &Allocation) -> z::Alloc {
        let relocs = m.provenance.ptrs.iter().map(|(o, p)| (*o as u64, self.alloc(p.0))).collect();
        z::Alloc::Mem { bytes: m.bytes.clone(), relocs, mutable: m.mutability == Mutability::Mut }
    }

    fn konst(&mut self, c: &MirConst) -> z::Const {
        let ty = self.ty(c.ty());
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let relocs = a.provenance.ptrs.iter().map(|(o, p)| (*o as u64, self.alloc(p.0))).collect();
                z::Const { ty, bytes: a.bytes.clone(), relocs }
            }
            ConstantKind::ZeroSized => z::Const { ty, bytes: vec![], relocs: vec![] },
            ConstantKind::Ty(t) => {
                let v = t.eval_target_usize().expect("const ty");
                let n = self.tys[ty as usize].size.unwrap_or(8) as usize;
                z::Const { ty, bytes: v.to_le_bytes()[..n].iter().map(|b| Some(*b)).collect(), relocs: vec![] }
            }
            k => panic!("unsupported const {:?}", k),
        }
    }

    fn place(&mut self, p: &mir::Place) -> z::Place {
        let proj = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => z::Proj::Deref,
                ProjectionElem::Field(i, t) => z::Proj::Field(*i as u32, self.ty(*t)),
                ProjectionElem::Index(l) => z::Proj::Index(*l as u32),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    z::Proj::ConstIndex { offset: *offset, min_len: *min_length, from_end: *from_end }
                }
                ProjectionElem::Subslice { from, to, from_end } => z::Proj::Subslice { from: *from, to: *to, from_end: *from_end },
                ProjectionElem::Downcast(v) => z::Proj::Downcast(v.to_index() as u32),
                ProjectionElem::OpaqueCast(t) => z::Proj::Cast(self.ty(*t)),
            })
            .collect();
        z::Place { local: p.local as u32, proj }
    }

    fn op(&mut self, o: &mir::Operand) -> z::Operand {
        match o {
            mir::Operand::Copy(p) => z::Operand::Copy(self.place(p)),
            mir::Operand::Move(p) => z::Operand::Move(self.place(p)),
            mir::Operand::Constant(c) => z::Operand::Const(self.konst(&c.const_)),
            mir::Operand::RuntimeChecks(r) => z::Operand::RtCheck(format!("{:?}", r)),
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue, locals: &[LocalDecl]) -> z::Rvalue {
        match r {
            Rvalue::Use(o, _) => z::Rvalue::Use(self.op(o)),
            Rvalue::CopyForDeref(p) | Rvalue::Reborrow(_, _, p) => z::Rvalue::Use(z::Operand::Copy(self.place(p))),
            Rvalue::Repeat(o, n) => z::Rvalue::Repeat(self.op(o), n.eval_target_usize().unwrap()),
            Rvalue::Ref(_, _, p) => z::Rvalue::Ref(self.place(p)),
            Rvalue::AddressOf(_, p) => z::Rvalue::AddrOf(self.place(p)),
            Rvalue::BinaryOp(b, x, y) => z::Rvalue::Bin(format!("{:?}", b), self.op(x), self.op(y)),
            Rvalue::CheckedBinaryOp(b, x, y) => z::Rvalue::Checked(format!("{:?}", b), self.op(x), self.op(y)),
            Rvalue::UnaryOp(u, x) => z::Rvalue::Un(format!("{:?}", u), self.op(x)),
            Rvalue::Discriminant(p) => z::Rvalue::Discriminant(self.place(p)),
            Rvalue::Len(p) => z::Rvalue::Len(self.place(p)),
            Rvalue::ThreadLocalRef(i) => {
                let s = rustc_public::mir::mono::StaticDef::try_from(*i).expect("thread local");
                let id = self.allocs.len() as z::AllocId;
                self.allocs.push(None);
                let a = match s.eval_initializer() {
                    Ok(m) => match self.mem(&m) {
                        z::Alloc::Mem { bytes, relocs, .. } => z::Alloc::Mem { bytes, relocs, mutable: true },
                        o => o,
                    },
                    Err(_) => z::Alloc::Opaque(s.name()),
                };
                self.allocs[id as usize] = Some(a);
                let ty = self.ty(r.ty(locals).unwrap());
                z::Rvalue::Use(z::Operand::Const(z::Const { ty, bytes: vec![Some(0); 8], relocs: vec![(0, id)] }))
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(locals).unwrap();
                let k = self.cast(k, from, *t);
                z::Rvalue::Cast(k, self.op(o), self.ty(*t))
            }
            Rvalue::Aggregate(k, ops) => {
                let ty = r.ty(locals).unwrap();
                let ak = match k {
                    AggregateKind::Adt(def, v, _, _, f) => match (def.kind(), f) {
                        (AdtKind::Union, Some(f)) => z::AggKind::UnionField(*f as u32),
                        (AdtKind::Enum, _) => z::AggKind::Variant(v.to_index() as u32),
                        _ => z::AggKind::Plain,
                    },
                    AggregateKind::RawPtr(..) => z::AggKind::RawPtr,
                    _ => z::AggKind::Plain,
                };
                z::Rvalue::Aggregate(ak, ops.iter().map(|o| self.op(o)).collect(), self.ty(ty))
            }
        }
    }

    fn cast(&mut self, k: &mir::CastKind, from: STy, to: STy) -> z::CastKind {
        match k {
            CastKind::IntToInt => z::CastKind::IntToInt,
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => z::CastKind::PtrToPtr,
            CastKind::Transmute | CastKind::Subtype => z::CastKind::Transmute,
            CastKind::PointerCoercion(pc) => match pc {
                PointerCoercion::ReifyFnPointer(_) => match from.kind() {
                    STyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                        let i = Instance::resolve_for_fn_ptr(d, &a).unwrap();
                        z::CastKind::ReifyFn(self.func(i))
                    }
                    _ => z::CastKind::Other("reify".into()),
                },
                PointerCoercion::ClosureFnPointer(_) => match from.kind() {
                    STyKind::RigidTy(RigidTy::Closure(d, a)) => {
                        let i = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).unwrap();
                        z::CastKind::ClosureFn(self.func(i))
                    }
                    _ => z::CastKind::Other("closurefn".into()),
                },
                PointerCoercion::UnsafeFnPointer | PointerCoercion::MutToConstPointer | PointerCoercion::ArrayToPointer => z::CastKind::PtrToPtr,
                PointerCoercion::Unsize => {
                    let (f, t) = (pointee(from), pointee(to));
                    match (f, t) {
                        (Some(f), Some(t)) => match (f.kind(), t.kind()) {
                            (STyKind::RigidTy(RigidTy::Array(_, n)), STyKind::RigidTy(RigidTy::Slice(_))) => {
                                z::CastKind::UnsizeArray(n.eval_target_usize().unwrap())
                            }
                            (fk, STyKind::RigidTy(RigidTy::Dynamic(..))) => {
                                if let STyKind::RigidTy(RigidTy::Dynamic(..)) = fk {
                                    return z::CastKind::PtrToPtr;
                                }
                                let tr = t.kind().trait_principal();
                                let g = GlobalAlloc::VTable(f, tr);
                                match g.vtable_allocation() {
                                    Some(a) => z::CastKind::UnsizeDyn(self.alloc(a)),
                                    None => z::CastKind::Other("vtable".into()),
                                }
                            }
                            // a structure whose last field is unsized
                            (STyKind::RigidTy(RigidTy::Adt(..)), STyKind::RigidTy(RigidTy::Adt(..))) => match array_tail(f) {
                                Some(n) => z::CastKind::UnsizeArray(n),
                                None => z::CastKind::Other("unsize".into()),
                            },
                            _ => z::CastKind::Other("unsize".into()),
                        },
                        _ => z::CastKind::Other("unsize-adt".into()),
                    }
                }
            },
            o => z::CastKind::Other(format!("{:?}", o)),
        }
    }

    fn do_fn(&mut self, inst: Instance, id: z::FnId) {
        let Some(body) = inst.body() else {
            self.fns[id as usize].body = self.constructor(inst);
            return;
        };
        let locals: Vec<_> = body.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = vec![];
        for b in &body.blocks {
            let mut stmts = vec![];
            for s in &b.statements {
                let z = match &s.kind {
                    StatementKind::Assign(p, r) => z::Stmt::Assign(self.place(p), self.rvalue(r, body.locals())),
                    StatementKind::SetDiscriminant { place, variant_index } => z::Stmt::SetDiscr(self.place(place), variant_index.to_index() as u32),
                    StatementKind::StorageLive(l) => z::Stmt::StorageLive(*l as u32),
                    StatementKind::StorageDead(l) => z::Stmt::StorageDead(*l as u32),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => z::Stmt::Assume(self.op(o)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let ty = pointee(c.src.ty(body.locals()).unwrap()).unwrap();
                        z::Stmt::CopyNonOverlapping { src: self.op(&c.src), dst: self.op(&c.dst), count: self.op(&c.count), ty: self.ty(ty) }
                    }
                    _ => continue,
                };
                stmts.push(z);
            }
            let term = self.term(&b.terminator, &body);
            let term_span = self.span(b.terminator.source_info.span);
            blocks.push(z::Block { stmts, term, term_span });
        }
        self.fns[id as usize].body = Some(z::Body { arg_count: body.arg_locals().len(), spread: body.spread_arg(), locals, blocks });
    }

    /// constructors of tuple-like structures and variants used as functions;
    /// their MIR is not recorded in crate metadata
    fn constructor(&mut self, inst: Instance) -> Option<z::Body> {
        let sig = inst.ty().kind().fn_sig()?.skip_binder();
        let STyKind::RigidTy(RigidTy::Adt(def, args)) = sig.output().kind() else { return None };
        let name = inst.name();
        // Type::<args>::Variant or Type::<args>
        let short = match name.rfind("::<") {
            Some(i) if name.ends_with('>') => name[..i].to_string(),
            _ => name,
        };
        let short = short.rsplit("::").next()?.to_string();
        let kind = match def.kind() {
            AdtKind::Enum => z::AggKind::Variant(def.variants_iter().position(|v| v.name() == short)? as u32),
            AdtKind::Struct if def.trimmed_name().rsplit("::").next() == Some(short.as_str()) => z::AggKind::Plain,
            _ => return None,
        };
        let want: Vec<STy> = match &kind {
            z::AggKind::Variant(i) => def.variants_iter().nth(*i as usize)?.fields().iter().map(|f| f.ty_with_args(&args)).collect(),
            _ => def.variants_iter().next()?.fields().iter().map(|f| f.ty_with_args(&args)).collect(),
        };
        if want != sig.inputs() {
            return None;
        }
        let out = self.ty(sig.output());
        let mut locals = vec![out];
        locals.extend(sig.inputs().iter().map(|t| self.ty(*t)).collect::<Vec<_>>());
        let n = sig.inputs().len();
        let ops = (0..n).map(|i| z::Operand::Move(z::Place { local: i as u32 + 1, proj: vec![] })).collect();
        let stmts = vec![z::Stmt::Assign(z::Place { local: 0, proj: vec![] }, z::Rvalue::Aggregate(kind, ops, out))];
        Some(z::Body { arg_count: n, spread: None, locals, blocks: vec![z::Block { stmts, term: z::Term::Return, term_span: String::new() }] })
    }

    fn term(&mut self, t: &Terminator, body: &mir::Body) -> z::Term {
        match &t.kind {
            TerminatorKind::Goto { target } => z::Term::Goto(*target as u32),
            TerminatorKind::SwitchInt { discr, targets } => z::Term::Switch {
                discr: self.op(discr),
                targets: targets.branches().map(|(v, t)| (v, t as u32)).collect(),
                otherwise: targets.otherwise() as u32,
            },
            TerminatorKind::Resume => z::Term::Resume,
            TerminatorKind::Abort => z::Term::Abort,
            TerminatorKind::Return => z::Term::Return,
            TerminatorKind::Unreachable => z::Term::Unreachable,
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(body.locals()).unwrap();
                let inst = Instance::resolve_drop_in_place(ty);
                let glue = if inst.is_empty_shim() { None } else { Some(self.func(inst)) };
                z::Term::Drop { place: self.place(place), glue, target: *target as u32 }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(body.locals()).unwrap();
                let mut untuple = false;
                let callee = match fty.kind() {
                    STyKind::RigidTy(RigidTy::FnDef(def, gargs)) => {
                        let inst = Instance::resolve(def, &gargs).unwrap();
                        let sig = fty.kind().fn_sig().unwrap().skip_binder();
                        if sig.abi == Abi::RustCall {
                            untuple = true;
                        }
                        match inst.kind {
                            InstanceKind::Intrinsic => {
                                let name = inst.intrinsic_name().unwrap();
                                let tys = gargs.0.iter().filter_map(|a| a.ty().copied()).collect::<Vec<_>>();
                                let tys = tys.into_iter().map(|t| self.ty(t)).collect();
                                let fallback = if inst.has_body() { Some(self.func(inst)) } else { None };
                                z::Callee::Intrinsic { name, tys, fallback }
                            }
                            InstanceKind::Virtual { idx } => z::Callee::Virtual(idx as u32),
                            _ => z::Callee::Fn(self.func(inst)),
                        }
                    }
                    _ => z::Callee::Ptr(self.op(func)),
                };
                z::Term::Call {
                    callee,
                    args: args.iter().map(|a| self.op(a)).collect(),
                    untuple,
                    dest: self.place(destination),
                    target: target.map(|t| t as u32),
                    track: String::new(),
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => z::Term::Assert {
                cond: self.op(cond),
                expected: *expected,
                target: *target as u32,
                msg: msg.description().map(|s| s.to_string()).unwrap_or_else(|_| "assert".into()),
            },
            TerminatorKind::InlineAsm { .. } => z::Term::Asm,
        }
    }
}

fn tag_size(s: &rustc_public::abi::Scalar) -> u64 {
    use rustc_public::abi::{Primitive, Scalar};
    let p = match s {
        Scalar::Initialized { value, .. } => value,
        Scalar::Union { value } => value,
    };
    match p {
        Primitive::Int { length, .. } => match format!("{:?}", length).as_str() {
            "I8" => 1,
            "I16" => 2,
            "I32" => 4,
            "I64" => 8,
            _ => 16,
        },
        Primitive::Float { .. } => 8,
        Primitive::Pointer(_) => 8,
    }
}

/// length of the array a structure ends with
fn array_tail(t: STy) -> Option<u64> {
    match t.kind() {
        STyKind::RigidTy(RigidTy::Array(_, n)) => n.eval_target_usize().ok(),
        STyKind::RigidTy(RigidTy::Adt(def, args)) if def.kind() == AdtKind::Struct => {
            let v = def.variants_iter().next()?;
            let fs = v.fields();
            array_tail(fs.last()?.ty_with_args(&args))
        }
        _ => None,
    }
}

fn pointee(t: STy) -> Option<STy> {
    match t.kind() {
        STyKind::RigidTy(RigidTy::RawPtr(t, _)) | STyKind::RigidTy(RigidTy::Ref(_, t, _)) => Some(t),
        _ => None,
    }
}
