//! Lowered instruction form executed by the engine.
use crate::expr::{Op, E};
use crate::ty::Ty;
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    W(Box<u128>),
    A(Rc<Vec<Val>>),
}

pub type R = u32;
/// operand: register index, or constant pool index with the high bit set
pub type O = u32;
pub const KBIT: u32 = 1 << 31;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Copy,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Debug)]
pub struct Edge {
    pub target: u32, // instruction index
    pub block: u32,
    pub moves: Box<[(R, O)]>,
}

#[derive(Clone, Copy, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(O),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Umax,
    Umin,
    Max,
    Min,
    Nand,
}

#[derive(Debug)]
pub enum I {
    Bin { op: Op, w: u32, d: R, a: O, b: O },
    VBin { op: Op, w: u32, d: R, a: O, b: O },
    Icmp { p: Pred, w: u32, d: R, a: O, b: O },
    VIcmp { p: Pred, w: u32, d: R, a: O, b: O },
    Cast { k: Cast, from: u32, to: u32, d: R, a: O },
    VCast { k: Cast, from: u32, to: u32, d: R, a: O },
    Bitcast { d: R, a: O, from: Ty, to: Ty },
    Select { d: R, c: O, a: O, b: O, ty: Ty, vcond: bool },
    Load { d: R, p: O, n: u8, w: u32 },
    LoadTy { d: R, p: O, ty: Ty },
    Store { v: O, p: O, n: u8, w: u32 },
    StoreTy { v: O, p: O, ty: Ty },
    Gep { d: R, base: O, off: u64, terms: Box<[(O, u32, u64)]> },
    Alloca { d: R, size: u64, align: u64 },
    Call { d: Option<R>, callee: Callee, args: Box<[O]>, ret: Ty, after: Option<Box<Edge>>, argw: Box<[u32]> },
    ExtractVal { d: R, a: O, idx: Box<[u32]> },
    InsertVal { d: R, a: O, v: O, idx: Box<[u32]> },
    ExtractElt { d: R, a: O, i: O },
    InsertElt { d: R, a: O, v: O, i: O },
    Shuffle { d: R, a: O, b: O, mask: Box<[Option<u32>]>, n: u32 },
    AtomicRmw { d: R, op: Rmw, p: O, v: O, w: u32 },
    CmpXchg { d: R, p: O, c: O, n: O, w: u32 },
    Br(Edge),
    CondBr { c: O, t: Edge, f: Edge },
    Switch { v: O, w: u32, cases: Box<[(u64, u32)]>, edges: Box<[Edge]> }, // edge 0 = default
    Ret(Option<O>),
    Unreachable,
    Nop,
    Unsupported(String),
}

pub struct Func {
    pub name: String,
    pub code: Vec<I>,
    pub consts: Vec<Val>,
    pub nregs: u32,
    pub nparams: u32,
    pub cov: Vec<Cell<bool>>,
    pub dbg: Vec<u32>,
    pub block_start: Vec<u32>,
    pub execs: Cell<u64>,
}
