//! The monomorphic program representation exported by the compiler driver
//! (`zdriver`) and consumed by the analyser (`zcheck`).
use serde::{Deserialize, Serialize};

pub type TyId = u32;
pub type FnId = u32;
pub type AllocId = u32;

#[derive(Serialize, Deserialize, Debug, Default)]
pub struct Program {
    pub tys: Vec<Ty>,
    pub fns: Vec<Func>,
    pub allocs: Vec<Alloc>,
    pub entries: Vec<(String, FnId)>,
    pub meta: Vec<(String, String)>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Ty {
    pub name: String,
    pub kind: TyKind,
    /// size in bytes; `None` when unsized
    pub size: Option<u64>,
    pub align: u64,
    /// field offsets for struct like layouts (single variant)
    pub offsets: Vec<u64>,
    pub variants: Variants,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum TyKind {
    Bool,
    Char,
    Int(u32),
    Uint(u32),
    Float(u32),
    RawPtr(TyId),
    Ref(TyId),
    FnPtr,
    FnDef(Option<FnId>),
    Struct(Vec<(String, TyId)>),
    Union(Vec<(String, TyId)>),
    Enum(Vec<Variant>),
    Tuple(Vec<TyId>),
    Array(TyId, u64),
    Slice(TyId),
    Str,
    Dyn,
    Closure(Vec<TyId>),
    Never,
    Other,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Variant {
    pub name: String,
    pub discr: u128,
    pub fields: Vec<(String, TyId)>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Variants {
    Empty,
    Single(u32),
    Multiple { tag_off: u64, tag_size: u64, enc: TagEnc, offsets: Vec<Vec<u64>> },
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum TagEnc {
    Direct,
    Niche { untagged: u32, start: u32, end: u32, niche_start: u128 },
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Alloc {
    Mem { bytes: Vec<Option<u8>>, relocs: Vec<(u64, AllocId)>, mutable: bool },
    Fn(FnId),
    /// vtable contents: (offset, alloc)
    Opaque(String),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Func {
    pub name: String,
    pub span: String,
    pub body: Option<Body>,
    pub foreign: bool,
    pub ret_never: bool,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Body {
    pub arg_count: usize,
    pub spread: Option<usize>,
    pub locals: Vec<TyId>,
    pub blocks: Vec<Block>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Block {
    pub stmts: Vec<Stmt>,
    pub term: Term,
    pub term_span: String,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Place {
    pub local: u32,
    pub proj: Vec<Proj>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Proj {
    Deref,
    Field(u32, TyId),
    Index(u32),
    ConstIndex { offset: u64, min_len: u64, from_end: bool },
    Subslice { from: u64, to: u64, from_end: bool },
    Downcast(u32),
    Cast(TyId),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Operand {
    Copy(Place),
    Move(Place),
    Const(Const),
    /// ub_checks / overflow_checks / contract_checks
    RtCheck(String),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Const {
    pub ty: TyId,
    pub bytes: Vec<Option<u8>>,
    pub relocs: Vec<(u64, AllocId)>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Stmt {
    Assign(Place, Rvalue),
    SetDiscr(Place, u32),
    StorageLive(u32),
    StorageDead(u32),
    Assume(Operand),
    CopyNonOverlapping { src: Operand, dst: Operand, count: Operand, ty: TyId },
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Rvalue {
    Use(Operand),
    Repeat(Operand, u64),
    Ref(Place),
    AddrOf(Place),
    Bin(String, Operand, Operand),
    Checked(String, Operand, Operand),
    Un(String, Operand),
    Cast(CastKind, Operand, TyId),
    Aggregate(AggKind, Vec<Operand>, TyId),
    Discriminant(Place),
    Len(Place),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum CastKind {
    IntToInt,
    PtrToPtr,
    Transmute,
    ReifyFn(FnId),
    ClosureFn(FnId),
    UnsizeArray(u64),
    UnsizeDyn(AllocId),
    Other(String),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum AggKind {
    Plain,
    Variant(u32),
    UnionField(u32),
    RawPtr,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Callee {
    Fn(FnId),
    Intrinsic { name: String, tys: Vec<TyId>, fallback: Option<FnId> },
    Virtual(u32),
    Ptr(Operand),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Term {
    Goto(u32),
    Switch { discr: Operand, targets: Vec<(u128, u32)>, otherwise: u32 },
    Return,
    Unreachable,
    Resume,
    Abort,
    Drop { place: Place, glue: Option<FnId>, target: u32 },
    Call { callee: Callee, args: Vec<Operand>, untuple: bool, dest: Place, target: Option<u32>, track: String },
    Assert { cond: Operand, expected: bool, target: u32, msg: String },
    Asm,
}
