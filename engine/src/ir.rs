//! Pre-resolved executable form of monomorphic MIR.
use crate::mem::V;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum LK {
    Z,
    S(u8),
    P(u8, u8, u8), // size a, offset b, size b
    M,
    Un(u32), // unsized, descriptor index
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Lay {
    pub size: u64,
    pub align: u64,
    pub k: LK,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ud {
    Slice { stride: u64, align: u64 },
    Dyn,
    Struct { off: u64, align: u64, tail: u32 },
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Part { Whole, A, B, Z }

#[derive(Clone, Debug)]
pub enum Pj {
    Deref { fat: bool },
    Off(u64),
    OffDyn { off: u64, tail: u32 },
    Idx { local: u32, stride: u64 },
    CEnd { off: u64, stride: u64 },
    Sub { from: u64, to: u64, from_end: bool, stride: u64, arr: Option<u64> },
}
#[derive(Clone, Debug)]
pub struct PlaceIR {
    pub local: u32,
    pub reg: bool,
    pub part: Part,
    pub projs: Box<[Pj]>,
    pub lay: Lay,
}
#[derive(Clone, Debug)]
pub enum Opd {
    Z,
    C(V),
    CP(V, V),
    CM(u32, u64, u64), // global, offset, size
    Pl(PlaceIR),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum NT { Int(u8, bool), Float(u8), Fat }

#[derive(Clone, Debug)]
pub struct TagW { pub off: u64, pub size: u8, pub val: u128 }

#[derive(Clone, Debug)]
pub enum Disc {
    Const(u128),
    Direct { off: u64, size: u8, signed: bool, out: u8 },
    Niche { off: u64, size: u8, start: u128, vals: Vec<u128>, untagged: u128, out: u8 },
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BOp { Add, Sub, Mul, Div, Rem, Xor, And, Or, Shl, Shr, Eq, Lt, Le, Ne, Ge, Gt, Cmp, Offset(u64), AddO, SubO, MulO }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum UOp { Not, NotBool, Neg }

#[derive(Clone, Debug)]
pub enum Uns { Len(u64), Vtable(u32), DynDyn { dst_dyn: u32 }, Same }

#[derive(Clone, Debug)]
pub enum Cast {
    Int { from: u8, signed: bool, to: u8 },
    Thin,   // drop metadata if fat
    Keep,   // representation unchanged (fat->fat, thin->thin, transmute)
    IntFloat { from: u8, signed: bool, to: u8 },
    FloatInt { from: u8, to: u8, signed: bool },
    FloatFloat { from: u8, to: u8 },
    Unsize(Uns),
}
#[derive(Clone, Debug)]
pub enum Rv {
    Use(Opd),
    Repeat(Opd, u64, u64), // operand, count, elem size
    Addr(PlaceIR),
    Cast(Cast, Opd),
    Bin(BOp, NT, Opd, Opd),
    Un(UOp, NT, Opd),
    PtrMeta(Opd),
    Discr(PlaceIR, Disc),
    Agg(Vec<(u64, Opd, Lay)>, Option<TagW>),
    AggPtr(Opd, Opd),
    Tls(u32),
}
#[derive(Clone, Debug)]
pub enum St {
    Assign(PlaceIR, Rv, Lay), // Lay = layout of the source value (differs from place on transmute)
    SetTag(PlaceIR, TagW),
    CopyNon(Opd, Opd, Opd, u64),
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ptr(Opd),
    Virtual(u32), // vtable slot
}
#[derive(Clone, Debug)]
pub struct ArgIR { pub op: Opd, pub lay: Lay }
#[derive(Clone, Debug)]
pub enum Tm {
    Goto(u32),
    Switch(Opd, u8, Vec<(u128, u32)>, u32),
    Ret,
    Unreachable,
    DropFn(PlaceIR, u32, u32),  // place, glue fn, target
    DropDyn(PlaceIR, u32),
    Call { callee: Callee, args: Vec<ArgIR>, dest: PlaceIR, next: Option<u32> },
    Assert { cond: Opd, expected: bool, msg: String, target: u32 },
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub struct Block { pub st: Vec<St>, pub tm: Tm }
#[derive(Clone, Debug)]
pub struct LocalI { pub lay: Lay, pub reg: bool }
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub krate: bool, // belongs to the crate under test
    pub locals: Vec<LocalI>,
    pub blocks: Vec<Block>,
    pub spans: Vec<String>, // terminator spans (crate-local functions only)
    pub argc: usize,
    pub spread: Option<(u32, Vec<(u64, Lay)>)>,
}
