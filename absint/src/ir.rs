//! Compact IR lowered from monomorphic MIR.
use rustc_middle::ty::{self, Ty};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sc {
    /// integer: bits, signed, control (never merged symbolically)
    Int { bits: u32, signed: bool, ctl: bool },
    Ptr,
}
impl Sc {
    pub fn size(&self) -> u64 {
        match self {
            Sc::Int { bits, .. } => (*bits as u64) / 8,
            Sc::Ptr => 8,
        }
    }
}

#[derive(Debug)]
pub struct TyInfo<'tcx> {
    pub ty: Ty<'tcx>,
    pub size: u64,
    pub sized: bool,
    pub align: u64,
    pub sc: Option<Sc>,
    /// pointer with metadata
    pub fat: bool,
}
pub type T<'tcx> = Rc<TyInfo<'tcx>>;

#[derive(Clone, Debug)]
pub enum Proj {
    /// deref of a pointer stored in the place; fat: metadata at +8
    Deref { fat: bool },
    Off(u64),
    Idx { local: u32, stride: u64 },
    /// from the end of a slice (uses metadata)
    EndIdx { off: u64, stride: u64 },
    Sub { from: u64, to: u64, from_end: bool, stride: u64 },
}
#[derive(Clone, Debug)]
pub struct Place<'tcx> {
    pub local: u32,
    pub proj: Vec<Proj>,
    pub ty: T<'tcx>,
}
#[derive(Clone, Debug)]
pub enum CVal {
    Zst,
    Int(i128),
    /// pointer into allocation table entry
    Ptr(u32, i64),
    Fn(u32),
    Slice(u32, i64, u64),
    /// memory constant
    Mem(u32, i64),
}
#[derive(Clone, Debug)]
pub enum Op<'tcx> {
    Copy(Place<'tcx>),
    Const(CVal, T<'tcx>),
}
impl<'tcx> Op<'tcx> {
    pub fn ty(&self) -> &T<'tcx> {
        match self {
            Op::Copy(p) => &p.ty,
            Op::Const(_, t) => t,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Xor,
    And,
    Or,
    Shl,
    Shr,
    Eq,
    Lt,
    Le,
    Ne,
    Ge,
    Gt,
    Cmp,
    Offset,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Wrap,
    Overflow,
    Unchecked,
}
#[derive(Clone, Debug)]
pub enum VariantTag {
    /// single variant, no tag
    None { discr: i128 },
    Direct { off: u64, sc: Sc, discrs: Vec<(i128, i128)> /* (tag value, discr) */ },
    Niche { off: u64, sc: Sc, start: u128, lo: u32, hi: u32, untagged: u32, discrs: Vec<i128> },
}
#[derive(Clone, Debug)]
pub enum Rv<'tcx> {
    Use(Op<'tcx>),
    Repeat(Op<'tcx>, u64),
    Ref(Place<'tcx>),
    Bin(Bin, Mode, Op<'tcx>, Op<'tcx>),
    Not(Op<'tcx>),
    Neg(Op<'tcx>),
    PtrMeta(Op<'tcx>),
    IntCast(Op<'tcx>),
    /// plain copy of bits
    Bits(Op<'tcx>),
    /// fat -> thin
    Thin(Op<'tcx>),
    /// add metadata
    Unsize(Op<'tcx>, u64),
    FnPtr(u32),
    Discr(Place<'tcx>, Rc<VariantTag>),
    /// fields at offsets, optional tag write (offset, sc, value)
    Agg(Vec<(u64, Op<'tcx>)>, Option<(u64, Sc, i128)>),
    Unsup(String),
}
#[derive(Clone, Debug)]
pub enum Stmt<'tcx> {
    Assign(Place<'tcx>, Rv<'tcx>),
    SetTag(Place<'tcx>, Option<(u64, Sc, i128)>),
    Dead(u32),
    CopyNonOverlapping { src: Op<'tcx>, dst: Op<'tcx>, n: Op<'tcx>, elem: T<'tcx> },
    Assume(Op<'tcx>),
    Unsup(String),
}
#[derive(Clone, Debug)]
pub enum Callee<'tcx> {
    Inst(u32),
    Intrinsic(Rc<Intr<'tcx>>),
    Ptr(Op<'tcx>),
    Nop,
    Unsup(String),
}
#[derive(Debug)]
pub struct Intr<'tcx> {
    pub name: String,
    pub tys: Vec<T<'tcx>>,
    pub args: ty::GenericArgsRef<'tcx>,
    pub inst: ty::Instance<'tcx>,
}
#[derive(Clone, Debug)]
pub enum Term<'tcx> {
    Goto(u32),
    Switch { d: Op<'tcx>, vals: Vec<(i128, u32)>, other: u32 },
    Return,
    Unreachable,
    Call { f: Callee<'tcx>, args: Vec<Op<'tcx>>, rust_call: bool, dest: Place<'tcx>, target: Option<u32>, never: bool, name: String },
    Assert { cond: Op<'tcx>, expected: bool, target: u32, msg: String },
    Unwind,
    Unsup(String),
}
pub struct Block<'tcx> {
    pub stmts: Vec<(Stmt<'tcx>, u32)>,
    pub term: Term<'tcx>,
    pub term_span: u32,
}
pub struct Func<'tcx> {
    pub id: u32,
    pub name: String,
    pub inst: ty::Instance<'tcx>,
    pub nargs: usize,
    pub spread: Option<u32>,
    pub locals: Vec<T<'tcx>>,
    pub blocks: Vec<Block<'tcx>>,
    pub spans: Vec<String>,
    pub pos: Vec<u32>,
    pub head: Vec<bool>,
    pub merge: Vec<bool>,
    /// enclosing loop heads, outermost first (a head belongs to its own loop)
    pub chain: Vec<Vec<u32>>,
    pub live_in: Vec<Vec<bool>>,
    pub in_target: bool,
}
