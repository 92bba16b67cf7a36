//! The engine's own flat program representation (one register slot per scalar of at most 64 bits).

pub type Opnd = u32;
pub const CBIT: u32 = 1 << 31;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ext { Trunc, Zext, Sext }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FConv { FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Intr {
    Nop, UMax, UMin, SMax, SMin, USubSat, UAddSat, SAddSat, SSubSat,
    UAddOv, USubOv, UMulOv, SAddOv, SSubOv, SMulOv,
    Fshl, Fshr, Ctpop, Cttz, Ctlz, Bswap, Bitrev, Abs, Ucmp, Scmp,
    MemCpy, MemSet, Const0, Ident, LoadRel, Trap, Neg1,
    FUn, FBin2, Fma, FpToUiSat, FpToSiSat, RedAdd, RedMul, RedAnd, RedOr, RedXor, RedUMax, RedUMin, RedSMax, RedSMin, IsFpClass, PtrMask,
}

#[derive(Clone, Copy, Debug)]
pub struct Edge { pub pc: u32, pub cs: u32, pub cn: u32, pub hazard: bool }

#[derive(Debug)]
pub enum Callee { Direct(u32), Indirect(Opnd) }

#[derive(Debug)]
pub enum I {
    Copy { d: u32, a: Opnd },
    Bin { op: Bin, w: u8, d: u32, a: Opnd, b: Opnd },
    WBin { op: Bin, w: u16, d: u32, a: Opnd, b: Opnd },
    ICmp { p: Pred, w: u8, d: u32, a: Opnd, b: Opnd },
    WICmp { p: Pred, w: u16, d: u32, a: Opnd, b: Opnd },
    Sel { d: u32, c: Opnd, a: Opnd, b: Opnd, w: u8 },
    Ext { k: Ext, wf: u8, wt: u8, d: u32, a: Opnd },
    WExt { k: Ext, wf: u16, wt: u16, d: u32, a: Opnd },
    FBin { op: u8, dbl: bool, d: u32, a: Opnd, b: Opnd },
    FNeg { dbl: bool, d: u32, a: Opnd },
    FCmp { p: u8, dbl: bool, d: u32, a: Opnd, b: Opnd },
    FConv { k: FConv, wf: u8, wt: u8, d: u32, a: Opnd },
    Load { d: u32, p: Opnd, off: u32, bytes: u8, w: u8 },
    Store { v: Opnd, p: Opnd, off: u32, bytes: u8, w: u8 },
    AddC { d: u32, a: Opnd, k: i64 },
    MulAdd { d: u32, a: Opnd, idx: Opnd, iw: u8, scale: u64, k: i64 },
    Alloca { d: u32, size: u64, n: Opnd, align: u32 },
    Bitcast { d: u32, dw: Box<[u8]>, a: Opnd, sw: Box<[u8]> },
    ExtElt { d: u32, a: Opnd, n: u32, stride: u32, idx: Opnd, iw: u8 },
    InsElt { d: u32, a: Opnd, n: u32, stride: u32, v: Opnd, idx: Opnd, iw: u8 },
    Br { e: Edge },
    CBr { c: Opnd, t: Edge, f: Edge },
    Switch { v: Opnd, w: u8, cases: Box<[(u64, Edge)]>, def: Edge },
    Call { d: u32, nd: u32, f: Callee, args: Box<[Opnd]>, e: Option<Edge> },
    Intr { id: Intr, sub: u8, w: u8, d: u32, args: Box<[Opnd]> },
    Rmw { op: u8, w: u8, bytes: u8, d: u32, p: Opnd, v: Opnd },
    CmpX { w: u8, bytes: u8, d: u32, p: Opnd, c: Opnd, v: Opnd },
    Ret { a: Opnd, n: u32 },
    Unreach,
    Unsup(Box<str>),
}

#[derive(Default)]
pub struct Func {
    pub name: String,
    pub defined: bool,
    pub nregs: u32,
    pub nparams: u32,
    pub code: Vec<I>,
    pub copies: Vec<(u32, Opnd)>,
    pub consts: Vec<u64>,
    pub ninstr: u32,
}

pub struct Program {
    pub funcs: Vec<Func>,
    pub by_name: std::collections::HashMap<String, u32>,
    /// initial image of all global variables; [mut_start..] is writable and restored per path
    pub globals: Vec<u8>,
    pub mut_start: usize,
}

/// Addresses are `object << 32 | offset`.
pub const OBJ_STACK: u64 = 1;
pub const OBJ_GLOBALS: u64 = 2;
pub const OBJ_FUNCS: u64 = 3;
pub const OBJ_HEAP0: u64 = 4;
pub fn func_addr(i: u32) -> u64 { OBJ_FUNCS << 32 | (i as u64 + 1) << 4 }
