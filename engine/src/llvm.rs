//! Reads LLVM bitcode through the C API of the Rust toolchain's own libLLVM and flattens it.

use crate::ir::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
type Ty = P;
type V = P;
#[allow(non_snake_case)]
unsafe extern "C" {
    fn LLVMContextCreate() -> P;
    fn LLVMCreateMemoryBufferWithContentsOfFile(path: *const c_char, out: *mut P, msg: *mut *mut c_char) -> c_int;
    fn LLVMParseIRInContext2(ctx: P, buf: P, out: *mut P, msg: *mut *mut c_char) -> c_int;
    fn LLVMGetModuleDataLayout(m: P) -> P;
    fn LLVMGetFirstFunction(m: P) -> V;
    fn LLVMGetNextFunction(f: V) -> V;
    fn LLVMGetFirstGlobal(m: P) -> V;
    fn LLVMGetNextGlobal(f: V) -> V;
    fn LLVMGetValueName2(v: V, n: *mut usize) -> *const c_char;
    fn LLVMIsDeclaration(v: V) -> c_int;
    fn LLVMGetInitializer(v: V) -> V;
    fn LLVMIsGlobalConstant(v: V) -> c_int;
    fn LLVMGlobalGetValueType(v: V) -> Ty;
    fn LLVMGetAlignment(v: V) -> c_uint;
    fn LLVMTypeOf(v: V) -> Ty;
    fn LLVMGetTypeKind(t: Ty) -> c_int;
    fn LLVMGetIntTypeWidth(t: Ty) -> c_uint;
    fn LLVMGetElementType(t: Ty) -> Ty;
    fn LLVMGetArrayLength2(t: Ty) -> u64;
    fn LLVMGetVectorSize(t: Ty) -> c_uint;
    fn LLVMCountStructElementTypes(t: Ty) -> c_uint;
    fn LLVMStructGetTypeAtIndex(t: Ty, i: c_uint) -> Ty;
    fn LLVMABISizeOfType(d: P, t: Ty) -> u64;
    fn LLVMStoreSizeOfType(d: P, t: Ty) -> u64;
    fn LLVMABIAlignmentOfType(d: P, t: Ty) -> c_uint;
    fn LLVMOffsetOfElement(d: P, t: Ty, i: c_uint) -> u64;
    fn LLVMGetFirstBasicBlock(f: V) -> P;
    fn LLVMGetNextBasicBlock(b: P) -> P;
    fn LLVMGetFirstInstruction(b: P) -> V;
    fn LLVMGetNextInstruction(i: V) -> V;
    fn LLVMGetInstructionOpcode(i: V) -> c_int;
    fn LLVMGetNumOperands(v: V) -> c_int;
    fn LLVMGetOperand(v: V, i: c_uint) -> V;
    fn LLVMGetBasicBlockTerminator(b: P) -> V;
    fn LLVMGetNumSuccessors(v: V) -> c_uint;
    fn LLVMGetSuccessor(v: V, i: c_uint) -> P;
    fn LLVMGetCondition(v: V) -> V;
    fn LLVMCountIncoming(v: V) -> c_uint;
    fn LLVMGetIncomingValue(v: V, i: c_uint) -> V;
    fn LLVMGetIncomingBlock(v: V, i: c_uint) -> P;
    fn LLVMCountParams(f: V) -> c_uint;
    fn LLVMGetParam(f: V, i: c_uint) -> V;
    fn LLVMGetICmpPredicate(v: V) -> c_int;
    fn LLVMGetFCmpPredicate(v: V) -> c_int;
    fn LLVMGetAllocatedType(v: V) -> Ty;
    fn LLVMGetGEPSourceElementType(v: V) -> Ty;
    fn LLVMGetCalledValue(v: V) -> V;
    fn LLVMGetNumArgOperands(v: V) -> c_uint;
    fn LLVMGetNormalDest(v: V) -> P;
    fn LLVMGetNumIndices(v: V) -> c_uint;
    fn LLVMGetIndices(v: V) -> *const c_uint;
    fn LLVMGetNumMaskElements(v: V) -> c_uint;
    fn LLVMGetMaskValue(v: V, i: c_uint) -> c_int;
    fn LLVMGetAtomicRMWBinOp(v: V) -> c_int;
    fn LLVMIsAConstant(v: V) -> V;
    fn LLVMIsAConstantInt(v: V) -> V;
    fn LLVMIsAConstantFP(v: V) -> V;
    fn LLVMIsAConstantPointerNull(v: V) -> V;
    fn LLVMIsAConstantExpr(v: V) -> V;
    fn LLVMIsAUndefValue(v: V) -> V;
    fn LLVMIsAFunction(v: V) -> V;
    fn LLVMIsAGlobalVariable(v: V) -> V;
    fn LLVMIsAGlobalAlias(v: V) -> V;
    fn LLVMIsAInlineAsm(v: V) -> V;
    fn LLVMIsAConstantAggregateZero(v: V) -> V;
    fn LLVMAliasGetAliasee(v: V) -> V;
    fn LLVMConstIntGetZExtValue(v: V) -> u64;
    fn LLVMConstRealGetDouble(v: V, l: *mut c_int) -> f64;
    fn LLVMGetAggregateElement(v: V, i: c_uint) -> V;
    fn LLVMGetConstOpcode(v: V) -> c_int;
    fn LLVMPrintValueToString(v: V) -> *mut c_char;
    fn LLVMGetInlineAsmAsmString(v: V, n: *mut usize) -> *const c_char;
}

#[derive(Clone, Copy, Debug)]
struct Slot { w: u32, off: u64, bytes: u32 }

struct Cx {
    td: P,
    flat: HashMap<Ty, std::rc::Rc<Vec<Slot>>>,
    gaddr: HashMap<V, u64>,
    fidx: HashMap<V, u32>,
}

fn name(v: V) -> String {
    unsafe { let mut n = 0; let p = LLVMGetValueName2(v, &mut n); String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned() }
}
fn show(v: V) -> String { unsafe { CStr::from_ptr(LLVMPrintValueToString(v)).to_string_lossy().trim().to_string() } }
fn kind(t: Ty) -> i32 { unsafe { LLVMGetTypeKind(t) } }

const K_FLOAT: i32 = 2; const K_DOUBLE: i32 = 3; const K_INT: i32 = 8; const K_STRUCT: i32 = 10; const K_ARRAY: i32 = 11; const K_PTR: i32 = 12; const K_VEC: i32 = 13; const K_VOID: i32 = 0;

impl Cx {
    fn flat(&mut self, t: Ty) -> Result<std::rc::Rc<Vec<Slot>>, String> {
        if let Some(f) = self.flat.get(&t) { return Ok(f.clone()); }
        let mut out = vec![];
        unsafe {
            match kind(t) {
                K_VOID => {}
                K_INT => {
                    let w = LLVMGetIntTypeWidth(t);
                    let mut o = 0;
                    while o < w { let p = (w - o).min(64); out.push(Slot { w: p, off: (o / 8) as u64, bytes: p.div_ceil(8) }); o += 64; }
                }
                K_PTR => out.push(Slot { w: 64, off: 0, bytes: 8 }),
                K_FLOAT => out.push(Slot { w: 32, off: 0, bytes: 4 }),
                K_DOUBLE => out.push(Slot { w: 64, off: 0, bytes: 8 }),
                K_STRUCT => for i in 0..LLVMCountStructElementTypes(t) {
                    let e = LLVMStructGetTypeAtIndex(t, i);
                    let o = LLVMOffsetOfElement(self.td, t, i);
                    for s in self.flat(e)?.iter() { out.push(Slot { off: s.off + o, ..*s }); }
                },
                K_ARRAY | K_VEC => {
                    let e = LLVMGetElementType(t);
                    let n = if kind(t) == K_ARRAY { LLVMGetArrayLength2(t) } else { LLVMGetVectorSize(t) as u64 };
                    if n > 4096 { return Err(format!("array of {n} as a value")); }
                    let sz = if kind(t) == K_VEC { LLVMStoreSizeOfType(self.td, e) } else { LLVMABISizeOfType(self.td, e) };
                    let f = self.flat(e)?;
                    for i in 0..n { for s in f.iter() { out.push(Slot { off: s.off + i * sz, ..*s }); } }
                }
                k => return Err(format!("type kind {k}")),
            }
        }
        let r = std::rc::Rc::new(out);
        self.flat.insert(t, r.clone());
        Ok(r)
    }
    fn nslots(&mut self, t: Ty) -> Result<u32, String> { Ok(self.flat(t)?.len() as u32) }

    fn const_slots(&mut self, v: V, out: &mut Vec<u64>) -> Result<(), String> {
        unsafe {
            let t = LLVMTypeOf(v);
            let n = self.nslots(t)?;
            if !LLVMIsAUndefValue(v).is_null() || !LLVMIsAConstantAggregateZero(v).is_null() || !LLVMIsAConstantPointerNull(v).is_null() {
                out.extend(std::iter::repeat(0).take(n as usize));
                return Ok(());
            }
            match kind(t) {
                K_STRUCT | K_ARRAY | K_VEC => {
                    let n = match kind(t) { K_STRUCT => LLVMCountStructElementTypes(t) as u64, K_ARRAY => LLVMGetArrayLength2(t), _ => LLVMGetVectorSize(t) as u64 };
                    for i in 0..n {
                        let e = LLVMGetAggregateElement(v, i as c_uint);
                        if e.is_null() { return Err(format!("aggregate constant {}", show(v))); }
                        self.const_slots(e, out)?;
                    }
                    Ok(())
                }
                K_INT if !LLVMIsAConstantInt(v).is_null() && LLVMGetIntTypeWidth(t) > 64 => {
                    let s = show(v);
                    let d = s.rsplit(' ').next().unwrap().to_string();
                    let w = LLVMGetIntTypeWidth(t);
                    if w > 128 { return Err("integer constant wider than 128 bits".into()); }
                    let x: i128 = d.parse().or_else(|_| d.parse::<u128>().map(|x| x as i128)).map_err(|_| format!("wide constant {s}"))?;
                    out.push(x as u64);
                    out.push((x >> 64) as u64 & if w >= 128 { !0 } else { (1 << (w - 64)) - 1 });
                    Ok(())
                }
                K_FLOAT => { let mut l = 0; if LLVMIsAConstantFP(v).is_null() { return Err(show(v)); } out.push((LLVMConstRealGetDouble(v, &mut l) as f32).to_bits() as u64); Ok(()) }
                K_DOUBLE => { let mut l = 0; if LLVMIsAConstantFP(v).is_null() { return Err(show(v)); } out.push(LLVMConstRealGetDouble(v, &mut l).to_bits()); Ok(()) }
                K_INT | K_PTR => { let x = self.const_scalar(v)?; out.push(x); Ok(()) }
                k => Err(format!("constant of type kind {k}")),
            }
        }
    }
    fn const_scalar(&mut self, v: V) -> Result<u64, String> {
        unsafe {
            if !LLVMIsAConstantInt(v).is_null() { return Ok(LLVMConstIntGetZExtValue(v)); }
            if !LLVMIsAConstantPointerNull(v).is_null() || !LLVMIsAUndefValue(v).is_null() { return Ok(0); }
            if !LLVMIsAFunction(v).is_null() {
                // extern_weak functions that we do not model resolve to null
                return Ok(func_addr(*self.fidx.get(&v).ok_or("function")?));
            }
            if !LLVMIsAGlobalAlias(v).is_null() { return self.const_scalar(LLVMAliasGetAliasee(v)); }
            if !LLVMIsAGlobalVariable(v).is_null() { return self.gaddr.get(&v).copied().ok_or_else(|| format!("external global {}", name(v))); }
            if !LLVMIsAConstantExpr(v).is_null() {
                let op = LLVMGetConstOpcode(v);
                let t = LLVMTypeOf(v);
                let w = if kind(t) == K_INT { LLVMGetIntTypeWidth(t) } else { 64 };
                let m = if w >= 64 { !0 } else { (1u64 << w) - 1 };
                let a = self.const_scalar(LLVMGetOperand(v, 0))?;
                return Ok(match op {
                    30 | 39 | 40 | 41 | 60 | 69 => a & m,
                    8 => a.wrapping_add(self.const_scalar(LLVMGetOperand(v, 1))?) & m,
                    10 => a.wrapping_sub(self.const_scalar(LLVMGetOperand(v, 1))?) & m,
                    25 => a ^ self.const_scalar(LLVMGetOperand(v, 1))?,
                    29 => {
                        let mut ty = LLVMGetGEPSourceElementType(v);
                        let mut addr = a;
                        for i in 1..LLVMGetNumOperands(v) as c_uint {
                            let ix = LLVMGetOperand(v, i);
                            let iw = LLVMGetIntTypeWidth(LLVMTypeOf(ix));
                            let x = crate::expr::sext64(self.const_scalar(ix)?, iw);
                            if i == 1 { addr = addr.wrapping_add((x as u64).wrapping_mul(LLVMABISizeOfType(self.td, ty))); }
                            else if kind(ty) == K_STRUCT { addr = addr.wrapping_add(LLVMOffsetOfElement(self.td, ty, x as c_uint)); ty = LLVMStructGetTypeAtIndex(ty, x as c_uint); }
                            else { ty = LLVMGetElementType(ty); addr = addr.wrapping_add((x as u64).wrapping_mul(LLVMABISizeOfType(self.td, ty))); }
                        }
                        addr
                    }
                    _ => return Err(format!("constant expression {}", show(v))),
                });
            }
            Err(format!("constant {}", show(v)))
        }
    }
    fn emit_init(&mut self, v: V, at: usize, img: &mut [u8]) -> Result<(), String> {
        unsafe {
            let t = LLVMTypeOf(v);
            if !LLVMIsAConstantAggregateZero(v).is_null() || !LLVMIsAUndefValue(v).is_null() { return Ok(()); }
            match kind(t) {
                K_STRUCT => for i in 0..LLVMCountStructElementTypes(t) {
                    let o = LLVMOffsetOfElement(self.td, t, i);
                    self.emit_init(LLVMGetAggregateElement(v, i), at + o as usize, img)?;
                },
                K_ARRAY => {
                    let sz = LLVMABISizeOfType(self.td, LLVMGetElementType(t)) as usize;
                    for i in 0..LLVMGetArrayLength2(t) { self.emit_init(LLVMGetAggregateElement(v, i as c_uint), at + i as usize * sz, img)?; }
                }
                _ => {
                    let f = self.flat(t)?;
                    let mut s = vec![];
                    self.const_slots(v, &mut s)?;
                    for (sl, x) in f.iter().zip(s) {
                        let o = at + sl.off as usize;
                        img[o..o + sl.bytes as usize].copy_from_slice(&x.to_le_bytes()[..sl.bytes as usize]);
                    }
                }
            }
            Ok(())
        }
    }
}

struct Fx<'a> {
    cx: &'a mut Cx,
    regs: HashMap<V, u32>,
    f: Func,
    cmap: HashMap<Vec<u64>, u32>,
    bb: HashMap<P, u32>,
    /// (instruction index, which edge) fixups
    fix: Vec<(usize, usize, P, P)>,
    cur: P,
}

type R<T> = Result<T, String>;

impl<'a> Fx<'a> {
    fn opnd(&mut self, v: V) -> R<Opnd> {
        unsafe {
            if !LLVMIsAConstant(v).is_null() {
                let mut s = vec![];
                self.cx.const_slots(v, &mut s)?;
                if let Some(&o) = self.cmap.get(&s) { return Ok(o); }
                let o = self.f.consts.len() as u32 | CBIT;
                self.f.consts.extend(&s);
                self.cmap.insert(s, o);
                return Ok(o);
            }
        }
        self.regs.get(&v).copied().ok_or_else(|| format!("operand {}", show(v)))
    }
    fn konst(&mut self, k: u64) -> Opnd {
        let s = vec![k];
        if let Some(&o) = self.cmap.get(&s) { return o; }
        let o = self.f.consts.len() as u32 | CBIT;
        self.f.consts.push(k);
        self.cmap.insert(s, o);
        o
    }
    fn fresh(&mut self, n: u32) -> u32 { let r = self.f.nregs; self.f.nregs += n; r }
    fn edge(&mut self, slot: usize, to: P) -> Edge {
        let at = self.f.code.len();
        self.fix.push((at, slot, self.cur, to));
        Edge { pc: 0, cs: 0, cn: 0, hazard: false }
    }
    fn lanes(&mut self, t: Ty) -> R<(u32, Ty)> {
        unsafe { if kind(t) == K_VEC { Ok((LLVMGetVectorSize(t), LLVMGetElementType(t))) } else { Ok((1, t)) } }
    }
    fn width(&self, t: Ty) -> R<u32> {
        unsafe { match kind(t) { K_INT => Ok(LLVMGetIntTypeWidth(t)), K_PTR | K_DOUBLE => Ok(64), K_FLOAT => Ok(32), k => Err(format!("scalar type kind {k}")) } }
    }

    fn instr(&mut self, i: V) -> R<()> {
        unsafe {
            let op = LLVMGetInstructionOpcode(i);
            let d = self.regs.get(&i).copied().unwrap_or(0);
            let t = LLVMTypeOf(i);
            macro_rules! o { ($n:expr) => {{ let x = LLVMGetOperand(i, $n); self.opnd(x)? }} }
            match op {
                1 => { // ret
                    if LLVMGetNumOperands(i) == 0 { self.f.code.push(I::Ret { a: 0, n: 0 }); }
                    else { let v = LLVMGetOperand(i, 0); let n = self.cx.nslots(LLVMTypeOf(v))?; let a = self.opnd(v)?; self.f.code.push(I::Ret { a, n }); }
                }
                7 => self.f.code.push(I::Unreach),
                8 | 10 | 12 | 14 | 15 | 17 | 18 | 20..=25 => {
                    let b = match op { 8 => Bin::Add, 10 => Bin::Sub, 12 => Bin::Mul, 14 => Bin::UDiv, 15 => Bin::SDiv, 17 => Bin::URem, 18 => Bin::SRem, 20 => Bin::Shl, 21 => Bin::LShr, 22 => Bin::AShr, 23 => Bin::And, 24 => Bin::Or, _ => Bin::Xor };
                    let (n, et) = self.lanes(t)?;
                    let w = self.width(et)?;
                    let st = w.div_ceil(64);
                    let (x, y) = (o!(0), o!(1));
                    for l in 0..n {
                        let (d, a, c) = (d + l * st, x + l * st, y + l * st);
                        self.f.code.push(if w <= 64 { I::Bin { op: b, w: w as u8, d, a, b: c } } else { I::WBin { op: b, w: w as u16, d, a, b: c } });
                    }
                }
                9 | 11 | 13 | 16 | 19 => {
                    let (n, et) = self.lanes(t)?;
                    let (x, y) = (o!(0), o!(1));
                    for l in 0..n { self.f.code.push(I::FBin { op: op as u8, dbl: kind(et) == K_DOUBLE, d: d + l, a: x + l, b: y + l }); }
                }
                66 => {
                    let (n, et) = self.lanes(t)?;
                    let x = o!(0);
                    for l in 0..n { self.f.code.push(I::FNeg { dbl: kind(et) == K_DOUBLE, d: d + l, a: x + l }); }
                }
                26 => {
                    let at = LLVMGetAllocatedType(i);
                    let n = o!(0);
                    self.f.code.push(I::Alloca { d, size: LLVMABISizeOfType(self.cx.td, at), n, align: LLVMGetAlignment(i).max(16) });
                }
                27 => {
                    let p = o!(0);
                    self.load(d, p, t)?;
                }
                28 => {
                    let v = LLVMGetOperand(i, 0);
                    let vt = LLVMTypeOf(v);
                    if kind(vt) == K_VEC && self.width(LLVMGetElementType(vt))? % 8 != 0 { return Err("store of bit vector".into()); }
                    let (a, p) = (o!(0), o!(1));
                    let f = self.cx.flat(vt)?;
                    for (k, s) in f.iter().enumerate() {
                        self.f.code.push(I::Store { v: a + k as u32, p, off: s.off as u32, bytes: s.bytes as u8, w: s.w as u8 });
                    }
                }
                29 => self.gep(i, d)?,
                30 | 31 | 32 => {
                    let k = match op { 30 => Ext::Trunc, 31 => Ext::Zext, _ => Ext::Sext };
                    let st = LLVMTypeOf(LLVMGetOperand(i, 0));
                    let (n, et) = self.lanes(t)?;
                    let (_, es) = self.lanes(st)?;
                    let (wf, wt) = (self.width(es)?, self.width(et)?);
                    let x = o!(0);
                    for l in 0..n {
                        let (d, a) = (d + l * wt.div_ceil(64), x + l * wf.div_ceil(64));
                        self.f.code.push(if wf <= 64 && wt <= 64 { I::Ext { k, wf: wf as u8, wt: wt as u8, d, a } } else { I::WExt { k, wf: wf as u16, wt: wt as u16, d, a } });
                    }
                }
                33..=38 => {
                    let k = match op { 33 => FConv::FpToUi, 34 => FConv::FpToSi, 35 => FConv::UiToFp, 36 => FConv::SiToFp, 37 => FConv::FpTrunc, _ => FConv::FpExt };
                    let st = LLVMTypeOf(LLVMGetOperand(i, 0));
                    let (n, et) = self.lanes(t)?;
                    let (_, es) = self.lanes(st)?;
                    let (wf, wt) = (self.width(es)?, self.width(et)?);
                    if wf > 64 || wt > 64 { return Err("wide float conversion".into()); }
                    let x = o!(0);
                    for l in 0..n { self.f.code.push(I::FConv { k, wf: wf as u8, wt: wt as u8, d: d + l, a: x + l }); }
                }
                39 | 40 | 60 | 69 => {
                    // ptrtoint / inttoptr / addrspacecast / ptrtoaddr
                    let st = LLVMTypeOf(LLVMGetOperand(i, 0));
                    let (n, et) = self.lanes(t)?;
                    let (_, es) = self.lanes(st)?;
                    let (wf, wt) = (self.width(es)?, self.width(et)?);
                    let x = o!(0);
                    let k = if wt < wf { Ext::Trunc } else { Ext::Zext };
                    for l in 0..n {
                        let (d, a) = (d + l * wt.div_ceil(64), x + l * wf.div_ceil(64));
                        self.f.code.push(if wf == wt && wf <= 64 { I::Copy { d, a } } else if wf <= 64 && wt <= 64 { I::Ext { k, wf: wf as u8, wt: wt as u8, d, a } } else { I::WExt { k, wf: wf as u16, wt: wt as u16, d, a } });
                    }
                }
                41 => {
                    let st = LLVMTypeOf(LLVMGetOperand(i, 0));
                    let dw: Box<[u8]> = self.cx.flat(t)?.iter().map(|s| s.w as u8).collect();
                    let sw: Box<[u8]> = self.cx.flat(st)?.iter().map(|s| s.w as u8).collect();
                    let a = o!(0);
                    self.f.code.push(I::Bitcast { d, dw, a, sw });
                }
                42 => {
                    let st = LLVMTypeOf(LLVMGetOperand(i, 0));
                    let (n, es) = self.lanes(st)?;
                    let w = self.width(es)?;
                    let p = [Pred::Eq, Pred::Ne, Pred::Ugt, Pred::Uge, Pred::Ult, Pred::Ule, Pred::Sgt, Pred::Sge, Pred::Slt, Pred::Sle][LLVMGetICmpPredicate(i) as usize - 32];
                    let (x, y) = (o!(0), o!(1));
                    let s = w.div_ceil(64);
                    for l in 0..n {
                        let (d, a, b) = (d + l, x + l * s, y + l * s);
                        self.f.code.push(if w <= 64 { I::ICmp { p, w: w as u8, d, a, b } } else { I::WICmp { p, w: w as u16, d, a, b } });
                    }
                }
                43 => {
                    let st = LLVMTypeOf(LLVMGetOperand(i, 0));
                    let (n, es) = self.lanes(st)?;
                    let p = LLVMGetFCmpPredicate(i) as u8;
                    let (x, y) = (o!(0), o!(1));
                    for l in 0..n { self.f.code.push(I::FCmp { p, dbl: kind(es) == K_DOUBLE, d: d + l, a: x + l, b: y + l }); }
                }
                44 => {} // phi
                45 | 5 => self.call(i, d, op == 5)?,
                46 => {
                    let ct = LLVMTypeOf(LLVMGetOperand(i, 0));
                    let (c, x, y) = (o!(0), o!(1), o!(2));
                    let f = self.cx.flat(t)?;
                    let vc = kind(ct) == K_VEC;
                    let per = if vc { f.len() as u32 / LLVMGetVectorSize(ct) } else { 1 };
                    for (k, s) in f.iter().enumerate() {
                        let k = k as u32;
                        self.f.code.push(I::Sel { d: d + k, c: if vc { c + k / per } else { c }, a: x + k, b: y + k, w: s.w as u8 });
                    }
                }
                50 => {
                    let vt = LLVMTypeOf(LLVMGetOperand(i, 0));
                    let st = self.cx.nslots(t)?;
                    let (a, idx) = (o!(0), o!(1));
                    let iw = self.width(LLVMTypeOf(LLVMGetOperand(i, 1)))? as u8;
                    self.f.code.push(I::ExtElt { d, a, n: LLVMGetVectorSize(vt), stride: st, idx, iw });
                }
                51 => {
                    let vt = t;
                    let st = self.cx.nslots(LLVMGetElementType(vt))?;
                    let (a, v, idx) = (o!(0), o!(1), o!(2));
                    let iw = self.width(LLVMTypeOf(LLVMGetOperand(i, 2)))? as u8;
                    self.f.code.push(I::InsElt { d, a, n: LLVMGetVectorSize(vt), stride: st, v, idx, iw });
                }
                52 => {
                    let vt = LLVMTypeOf(LLVMGetOperand(i, 0));
                    let n = LLVMGetVectorSize(vt) as i32;
                    let st = self.cx.nslots(LLVMGetElementType(vt))?;
                    let (a, b) = (o!(0), o!(1));
                    let z = self.konst(0);
                    let m = LLVMGetNumMaskElements(i);
                    let tmp = self.fresh(m * st);
                    for l in 0..m {
                        let x = LLVMGetMaskValue(i, l);
                        for s in 0..st {
                            let src = if x < 0 { z } else if x < n { a + x as u32 * st + s } else { b + (x - n) as u32 * st + s };
                            self.f.code.push(I::Copy { d: tmp + l * st + s, a: src });
                        }
                    }
                    for k in 0..m * st { self.f.code.push(I::Copy { d: d + k, a: tmp + k }); }
                }
                53 => {
                    let agg = LLVMGetOperand(i, 0);
                    let (off, n) = self.agg_index(i, LLVMTypeOf(agg))?;
                    let a = o!(0);
                    for k in 0..n { self.f.code.push(I::Copy { d: d + k, a: a + off + k }); }
                }
                54 => {
                    let (off, n) = self.agg_index(i, t)?;
                    let (a, v) = (o!(0), o!(1));
                    let tot = self.cx.nslots(t)?;
                    for k in 0..tot {
                        let src = if k >= off && k < off + n { v + k - off } else { a + k };
                        self.f.code.push(I::Copy { d: d + k, a: src });
                    }
                }
                68 => {
                    let a = o!(0);
                    for k in 0..self.cx.nslots(t)? { self.f.code.push(I::Copy { d: d + k, a: a + k }); }
                }
                55 => {} // fence
                56 => {
                    let w = self.width(LLVMTypeOf(LLVMGetOperand(i, 1)))?;
                    if w > 64 { return Err("wide cmpxchg".into()); }
                    let (p, c, v) = (o!(0), o!(1), o!(2));
                    self.f.code.push(I::CmpX { w: w as u8, bytes: w.div_ceil(8) as u8, d, p, c, v });
                }
                57 => {
                    let w = self.width(t)?;
                    let (p, v) = (o!(0), o!(1));
                    self.f.code.push(I::Rmw { op: LLVMGetAtomicRMWBinOp(i) as u8, w: w as u8, bytes: w.div_ceil(8) as u8, d, p, v });
                }
                58 | 59 => self.f.code.push(I::Unsup("landing pad".into())),
                3 => {
                    let v = LLVMGetOperand(i, 0);
                    let w = self.width(LLVMTypeOf(v))?;
                    if w > 64 { return Err("wide switch".into()); }
                    let v = self.opnd(v)?;
                    let ns = LLVMGetNumSuccessors(i);
                    let def = self.edge(0, LLVMGetSuccessor(i, 0));
                    // operands: cond, default, (value, block)* -- case values read from the printed operands
                    let mut cases = vec![];
                    for s in 1..ns {
                        let cv = switch_case_value(i, s);
                        let e = self.edge(s as usize, LLVMGetSuccessor(i, s));
                        let mut k = vec![];
                        self.cx.const_slots(cv, &mut k)?;
                        cases.push((k[0], e));
                    }
                    self.f.code.push(I::Switch { v, w: w as u8, cases: cases.into(), def });
                }
                _ if LLVMGetNumSuccessors_safe(i) == 1 => {
                    let e = self.edge(0, LLVMGetSuccessor(i, 0));
                    self.f.code.push(I::Br { e });
                }
                _ if LLVMGetNumSuccessors_safe(i) == 2 => {
                    let c = LLVMGetCondition(i);
                    let c = self.opnd(c)?;
                    let t = self.edge(0, LLVMGetSuccessor(i, 0));
                    let f = self.edge(1, LLVMGetSuccessor(i, 1));
                    self.f.code.push(I::CBr { c, t, f });
                }
                _ => return Err(format!("opcode {op}: {}", show(i))),
            }
        }
        Ok(())
    }

    fn load(&mut self, d: u32, p: Opnd, t: Ty) -> R<()> {
        unsafe { if kind(t) == K_VEC && self.width(LLVMGetElementType(t))? % 8 != 0 { return Err("load of bit vector".into()); } }
        let f = self.cx.flat(t)?;
        // several slots and d may alias p's register only if the pointer is not needed later: SSA keeps them apart
        for (k, s) in f.iter().enumerate() {
            self.f.code.push(I::Load { d: d + k as u32, p, off: s.off as u32, bytes: s.bytes as u8, w: s.w as u8 });
        }
        Ok(())
    }

    fn agg_index(&mut self, i: V, t: Ty) -> R<(u32, u32)> {
        unsafe {
            let n = LLVMGetNumIndices(i);
            let ix = std::slice::from_raw_parts(LLVMGetIndices(i), n as usize);
            let mut off = 0;
            let mut ty = t;
            for &k in ix {
                if kind(ty) == K_STRUCT {
                    for j in 0..k { off += self.cx.nslots(LLVMStructGetTypeAtIndex(ty, j))?; }
                    ty = LLVMStructGetTypeAtIndex(ty, k);
                } else {
                    ty = LLVMGetElementType(ty);
                    off += k * self.cx.nslots(ty)?;
                }
            }
            Ok((off, self.cx.nslots(ty)?))
        }
    }

    fn gep(&mut self, i: V, d: u32) -> R<()> {
        unsafe {
            if kind(LLVMTypeOf(i)) == K_VEC { return Err("vector gep".into()); }
            let base = LLVMGetOperand(i, 0);
            let mut cur = self.opnd(base)?;
            let mut ty = LLVMGetGEPSourceElementType(i);
            let mut k: i64 = 0;
            let n = LLVMGetNumOperands(i) as c_uint;
            let mut emitted = false;
            for j in 1..n {
                let ix = LLVMGetOperand(i, j);
                let iw = self.width(LLVMTypeOf(ix))?;
                let scale;
                if j == 1 { scale = LLVMABISizeOfType(self.cx.td, ty); }
                else if kind(ty) == K_STRUCT {
                    let x = LLVMConstIntGetZExtValue(ix) as c_uint;
                    k = k.wrapping_add(LLVMOffsetOfElement(self.cx.td, ty, x) as i64);
                    ty = LLVMStructGetTypeAtIndex(ty, x);
                    continue;
                } else { ty = LLVMGetElementType(ty); scale = LLVMABISizeOfType(self.cx.td, ty); }
                if !LLVMIsAConstant(ix).is_null() {
                    let x = self.cx.const_scalar(ix)?;
                    k = k.wrapping_add(crate::expr::sext64(x, iw).wrapping_mul(scale as i64));
                } else {
                    let idx = self.opnd(ix)?;
                    self.f.code.push(I::MulAdd { d, a: cur, idx, iw: iw as u8, scale, k });
                    k = 0;
                    cur = d;
                    emitted = true;
                }
            }
            if k != 0 || !emitted { self.f.code.push(I::AddC { d, a: cur, k }); }
            Ok(())
        }
    }

    fn call(&mut self, i: V, d: u32, invoke: bool) -> R<()> {
        unsafe {
            let callee = LLVMGetCalledValue(i);
            let n = LLVMGetNumArgOperands(i);
            let t = LLVMTypeOf(i);
            if !LLVMIsAInlineAsm(callee).is_null() {
                let mut l = 0;
                let p = LLVMGetInlineAsmAsmString(callee, &mut l);
                let s = String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l)).into_owned();
                if s.trim().is_empty() { return Ok(()); }
                self.f.code.push(I::Unsup(format!("inline asm {s}").into()));
                return Ok(());
            }
            let callee = if !LLVMIsAGlobalAlias(callee).is_null() { LLVMAliasGetAliasee(callee) } else { callee };
            let direct = !LLVMIsAFunction(callee).is_null();
            let nm = if direct { name(callee) } else { String::new() };
            if let Some(r) = nm.strip_prefix("llvm.") {
                self.intrinsic(i, d, r)?;
            } else {
                let mut args = vec![];
                for k in 0..n {
                    let a = LLVMGetOperand(i, k);
                    let o = self.opnd(a)?;
                    for s in 0..self.cx.nslots(LLVMTypeOf(a))? { args.push(o + s); }
                }
                let f = if direct { Callee::Direct(self.cx.fidx[&callee]) } else { Callee::Indirect(self.opnd(callee)?) };
                let nd = self.cx.nslots(t)?;
                let e = if invoke { Some(self.edge(0, LLVMGetNormalDest(i))) } else { None };
                self.f.code.push(I::Call { d, nd, f, args: args.into(), e });
                return Ok(());
            }
            if invoke { let e = self.edge(0, LLVMGetNormalDest(i)); self.f.code.push(I::Br { e }); }
            Ok(())
        }
    }

    fn intrinsic(&mut self, i: V, d: u32, nm: &str) -> R<()> {
        unsafe {
            let t = LLVMTypeOf(i);
            let base = |p: &str| nm == p || nm.starts_with(&format!("{p}."));
            for p in ["experimental.noalias.scope.decl", "lifetime.start", "lifetime.end", "assume", "dbg", "donothing", "prefetch", "invariant.start", "invariant.end", "sideeffect", "x86.sse2.pause", "pseudoprobe", "fake.use"] {
                if base(p) {
                    if kind(t) != K_VOID { let z = self.konst(0); self.f.code.push(I::Copy { d, a: z }); }
                    return Ok(());
                }
            }
            use Intr::*;
            // lane-wise integer intrinsics
            let lanewise: &[(&str, Intr, u32)] = &[("umax", UMax, 2), ("umin", UMin, 2), ("smax", SMax, 2), ("smin", SMin, 2), ("usub.sat", USubSat, 2), ("uadd.sat", UAddSat, 2), ("sadd.sat", SAddSat, 2), ("ssub.sat", SSubSat, 2),
                ("fshl", Fshl, 3), ("fshr", Fshr, 3), ("ctpop", Ctpop, 1), ("cttz", Cttz, 1), ("ctlz", Ctlz, 1), ("bswap", Bswap, 1), ("bitreverse", Bitrev, 1), ("abs", Abs, 1), ("ptrmask", PtrMask, 2)];
            for &(p, id, na) in lanewise {
                if base(p) {
                    let (n, et) = self.lanes(t)?;
                    let w = self.width(et)?;
                    let mut a = vec![];
                    for k in 0..na { let x = LLVMGetOperand(i, k); a.push(self.opnd(x)?); }
                    if w > 64 {
                        if w == 128 && matches!(id, Bswap | Ctpop | Cttz | Ctlz | UMax | UMin | Fshl | Fshr) {
                            let args = a.iter().flat_map(|&x| [x, x + 1]).collect();
                            self.f.code.push(I::Intr { id, sub: 0, w: 128, d, args });
                            return Ok(());
                        }
                        return Err(format!("wide intrinsic {nm}"));
                    }
                    for l in 0..n { self.f.code.push(I::Intr { id, sub: 0, w: w as u8, d: d + l, args: a.iter().map(|x| x + l).collect() }); }
                    return Ok(());
                }
            }
            for (p, id) in [("uadd.with.overflow", UAddOv), ("usub.with.overflow", USubOv), ("umul.with.overflow", UMulOv), ("sadd.with.overflow", SAddOv), ("ssub.with.overflow", SSubOv), ("smul.with.overflow", SMulOv)] {
                if base(p) {
                    let at = LLVMTypeOf(LLVMGetOperand(i, 0));
                    let w = self.width(at)?;
                    let (x, y) = (LLVMGetOperand(i, 0), LLVMGetOperand(i, 1));
                    let (x, y) = (self.opnd(x)?, self.opnd(y)?);
                    if w > 64 {
                        if w != 128 { return Err(format!("wide intrinsic {nm}")); }
                        self.f.code.push(I::Intr { id, sub: 0, w: 128, d, args: Box::new([x, x + 1, y, y + 1]) });
                        return Ok(());
                    }
                    self.f.code.push(I::Intr { id, sub: 0, w: w as u8, d, args: Box::new([x, y]) });
                    return Ok(());
                }
            }
            for (p, id) in [("ucmp", Ucmp), ("scmp", Scmp)] {
                if base(p) {
                    let at = LLVMTypeOf(LLVMGetOperand(i, 0));
                    let (n, ea) = self.lanes(at)?;
                    let w = self.width(ea)?;
                    let (_, er) = self.lanes(t)?;
                    let rw = self.width(er)?;
                    if w > 64 { return Err(format!("wide intrinsic {nm}")); }
                    let (x, y) = (LLVMGetOperand(i, 0), LLVMGetOperand(i, 1));
                    let (x, y) = (self.opnd(x)?, self.opnd(y)?);
                    for l in 0..n { self.f.code.push(I::Intr { id, sub: rw as u8, w: w as u8, d: d + l, args: Box::new([x + l, y + l]) }); }
                    return Ok(());
                }
            }
            macro_rules! args { ($n:expr) => {{ let mut a = vec![]; for k in 0..$n { let x = LLVMGetOperand(i, k); a.push(self.opnd(x)?); } a.into_boxed_slice() }} }
            if base("memcpy") || base("memmove") || base("memcpy.inline") { let args = args!(3); self.f.code.push(I::Intr { id: MemCpy, sub: 0, w: 64, d, args }); return Ok(()); }
            if base("memset") || base("memset.inline") { let args = args!(3); self.f.code.push(I::Intr { id: MemSet, sub: 0, w: 64, d, args }); return Ok(()); }
            if base("is.constant") { let z = self.konst(0); self.f.code.push(I::Copy { d, a: z }); return Ok(()); }
            if base("objectsize") { let z = self.konst(!0); self.f.code.push(I::Copy { d, a: z }); return Ok(()); }
            if base("stacksave") { let z = self.konst(0); self.f.code.push(I::Copy { d, a: z }); return Ok(()); }
            if base("stackrestore") { return Ok(()); }
            if base("threadlocal.address") || base("expect") || base("expect.with.probability") || base("launder.invariant.group") || base("strip.invariant.group") || base("ssa.copy") {
                let a = args!(1)[0];
                for k in 0..self.cx.nslots(t)? { self.f.code.push(I::Copy { d: d + k, a: a + k }); }
                return Ok(());
            }
            if base("load.relative") { let args = args!(2); self.f.code.push(I::Intr { id: LoadRel, sub: 0, w: 64, d, args }); return Ok(()); }
            if base("trap") || base("debugtrap") || base("ubsantrap") { self.f.code.push(I::Intr { id: Trap, sub: 0, w: 0, d, args: Box::new([]) }); return Ok(()); }
            for (p, s) in [("fabs", 0u8), ("floor", 1), ("ceil", 2), ("trunc", 3), ("round", 4), ("sqrt", 5), ("rint", 6), ("nearbyint", 6), ("roundeven", 6), ("canonicalize", 7), ("exp", 8), ("log", 9), ("exp2", 10), ("log2", 11), ("log10", 12), ("sin", 13), ("cos", 14)] {
                if base(p) {
                    let (n, et) = self.lanes(t)?;
                    let w = self.width(et)?;
                    let a = args!(1)[0];
                    for l in 0..n { self.f.code.push(I::Intr { id: FUn, sub: s, w: w as u8, d: d + l, args: Box::new([a + l]) }); }
                    return Ok(());
                }
            }
            for (p, s) in [("copysign", 0u8), ("minnum", 1), ("maxnum", 2), ("minimum", 3), ("maximum", 4), ("pow", 5), ("minimumnum", 1), ("maximumnum", 2)] {
                if base(p) {
                    let (n, et) = self.lanes(t)?;
                    let w = self.width(et)?;
                    let a = args!(2);
                    for l in 0..n { self.f.code.push(I::Intr { id: FBin2, sub: s, w: w as u8, d: d + l, args: Box::new([a[0] + l, a[1] + l]) }); }
                    return Ok(());
                }
            }
            if base("fma") || base("fmuladd") {
                let (n, et) = self.lanes(t)?;
                let w = self.width(et)?;
                let a = args!(3);
                for l in 0..n { self.f.code.push(I::Intr { id: Fma, sub: base("fma") as u8, w: w as u8, d: d + l, args: a.iter().map(|x| x + l).collect() }); }
                return Ok(());
            }
            if base("fptoui.sat") || base("fptosi.sat") {
                let at = LLVMTypeOf(LLVMGetOperand(i, 0));
                let (n, et) = self.lanes(t)?;
                let (_, ea) = self.lanes(at)?;
                let (w, wf) = (self.width(et)?, self.width(ea)?);
                if w > 64 { return Err(format!("wide intrinsic {nm}")); }
                let a = args!(1)[0];
                let id = if base("fptoui.sat") { FpToUiSat } else { FpToSiSat };
                for l in 0..n { self.f.code.push(I::Intr { id, sub: wf as u8, w: w as u8, d: d + l, args: Box::new([a + l]) }); }
                return Ok(());
            }
            if base("is.fpclass") {
                let at = LLVMTypeOf(LLVMGetOperand(i, 0));
                let w = self.width(at)?;
                let args = args!(2);
                self.f.code.push(I::Intr { id: IsFpClass, sub: 0, w: w as u8, d, args });
                return Ok(());
            }
            if let Some(r) = nm.strip_prefix("vector.reduce.") {
                let id = match r.split('.').next().unwrap() { "add" => RedAdd, "mul" => RedMul, "and" => RedAnd, "or" => RedOr, "xor" => RedXor, "umax" => RedUMax, "umin" => RedUMin, "smax" => RedSMax, "smin" => RedSMin, _ => return Err(format!("intrinsic llvm.{nm}")) };
                let vt = LLVMTypeOf(LLVMGetOperand(i, 0));
                let (n, et) = self.lanes(vt)?;
                let w = self.width(et)?;
                if w > 64 { return Err(format!("wide intrinsic {nm}")); }
                let a = args!(1)[0];
                self.f.code.push(I::Intr { id, sub: 0, w: w as u8, d, args: (0..n).map(|l| a + l).collect() });
                return Ok(());
            }
            Err(format!("intrinsic llvm.{nm}"))
        }
    }
}

#[allow(non_snake_case)]
unsafe fn LLVMGetNumSuccessors_safe(i: V) -> u32 {
    unsafe {
        // only terminators have successors
        let b = LLVMGetInstructionParent(i);
        if LLVMGetBasicBlockTerminator(b) == i { LLVMGetNumSuccessors(i) } else { 0 }
    }
}
#[allow(non_snake_case)]
unsafe extern "C" {
    fn LLVMGetInstructionParent(i: V) -> P;
    fn LLVMGetSwitchCaseValue(i: V, k: c_uint) -> V;
}
unsafe fn switch_case_value(i: V, s: c_uint) -> V { unsafe { LLVMGetSwitchCaseValue(i, s) } }

pub fn load(path: &str) -> Result<Program, String> {
    unsafe {
        let ctx = LLVMContextCreate();
        let cp = CString::new(path).unwrap();
        let mut buf = std::ptr::null_mut();
        let mut msg = std::ptr::null_mut();
        if LLVMCreateMemoryBufferWithContentsOfFile(cp.as_ptr(), &mut buf, &mut msg) != 0 { return Err(CStr::from_ptr(msg).to_string_lossy().into_owned()); }
        let mut m = std::ptr::null_mut();
        if LLVMParseIRInContext2(ctx, buf, &mut m, &mut msg) != 0 { return Err(CStr::from_ptr(msg).to_string_lossy().into_owned()); }
        let mut cx = Cx { td: LLVMGetModuleDataLayout(m), flat: HashMap::new(), gaddr: HashMap::new(), fidx: HashMap::new() };
        let mut prog = Program { funcs: vec![], by_name: HashMap::new(), globals: vec![], mut_start: 0 };
        let mut fs = vec![];
        let mut f = LLVMGetFirstFunction(m);
        while !f.is_null() {
            let i = prog.funcs.len() as u32;
            cx.fidx.insert(f, i);
            let n = name(f);
            prog.by_name.insert(n.clone(), i);
            prog.funcs.push(Func { name: n, defined: LLVMIsDeclaration(f) == 0, ..Default::default() });
            fs.push(f);
            f = LLVMGetNextFunction(f);
        }
        // globals: constants first, then writable ones
        let mut gs = vec![];
        let mut g = LLVMGetFirstGlobal(m);
        while !g.is_null() { gs.push(g); g = LLVMGetNextGlobal(g); }
        let mut off = 64u64;
        for pass in 0..2 {
            if pass == 1 { off = (off + 63) & !63; prog.mut_start = off as usize; }
            for &g in &gs {
                let c = LLVMIsGlobalConstant(g) != 0;
                if c != (pass == 0) { continue; }
                if name(g).starts_with("llvm.") { continue; }
                let t = LLVMGlobalGetValueType(g);
                let al = (LLVMGetAlignment(g).max(LLVMABIAlignmentOfType(cx.td, t)) as u64).max(1);
                off = (off + al - 1) / al * al;
                cx.gaddr.insert(g, OBJ_GLOBALS << 32 | off);
                off += LLVMABISizeOfType(cx.td, t).max(1) + 16;
            }
        }
        prog.globals = vec![0; off as usize + 64];
        for &g in &gs {
            if let Some(&a) = cx.gaddr.get(&g) {
                if LLVMIsDeclaration(g) != 0 { continue; }
                let init = LLVMGetInitializer(g);
                let mut img = std::mem::take(&mut prog.globals);
                let r = cx.emit_init(init, (a & 0xffff_ffff) as usize, &mut img);
                prog.globals = img;
                if let Err(e) = r { if std::env::var_os("SYMIR_VERBOSE").is_some() { eprintln!("warning: global {}: {e}", name(g)); } }
            }
        }
        let mut unsup = HashSet::new();
        for &f in &fs {
            let ix = cx.fidx[&f] as usize;
            if !prog.funcs[ix].defined { continue; }
            let mut fx = Fx { cx: &mut cx, regs: HashMap::new(), f: Func { name: prog.funcs[ix].name.clone(), defined: true, ..Default::default() }, cmap: HashMap::new(), bb: HashMap::new(), fix: vec![], cur: std::ptr::null_mut() };
            let r = (|| -> R<()> {
                for p in 0..LLVMCountParams(f) {
                    let v = LLVMGetParam(f, p);
                    let n = fx.cx.nslots(LLVMTypeOf(v))?;
                    let r = fx.fresh(n);
                    fx.regs.insert(v, r);
                    fx.f.nparams += n;
                }
                let mut b = LLVMGetFirstBasicBlock(f);
                while !b.is_null() {
                    let mut i = LLVMGetFirstInstruction(b);
                    while !i.is_null() {
                        let t = LLVMTypeOf(i);
                        if kind(t) != K_VOID {
                            let n = match fx.cx.nslots(t) { Ok(n) => n, Err(_) => 1 };
                            let r = fx.fresh(n.max(1));
                            fx.regs.insert(i, r);
                        }
                        i = LLVMGetNextInstruction(i);
                    }
                    b = LLVMGetNextBasicBlock(b);
                }
                let mut b = LLVMGetFirstBasicBlock(f);
                while !b.is_null() {
                    fx.bb.insert(b, fx.f.code.len() as u32);
                    fx.cur = b;
                    let mut i = LLVMGetFirstInstruction(b);
                    while !i.is_null() {
                        fx.f.ninstr += 1;
                        let (nfix, ncode) = (fx.fix.len(), fx.f.code.len());
                        if let Err(e) = fx.instr(i) {
                            fx.fix.truncate(nfix); fx.f.code.truncate(ncode);
                            if std::env::var_os("SYMIR_VERBOSE").is_some() { unsup.insert(e.clone()); }
                            fx.f.code.push(I::Unsup(e.into()));
                        }
                        i = LLVMGetNextInstruction(i);
                    }
                    b = LLVMGetNextBasicBlock(b);
                }
                // resolve edges
                let fix = std::mem::take(&mut fx.fix);
                for (at, slot, from, to) in fix {
                    let cs = fx.f.copies.len() as u32;
                    let mut i = LLVMGetFirstInstruction(to);
                    while !i.is_null() && LLVMGetInstructionOpcode(i) == 44 {
                        let mut found = None;
                        for k in 0..LLVMCountIncoming(i) { if LLVMGetIncomingBlock(i, k) == from { found = Some(LLVMGetIncomingValue(i, k)); break; } }
                        let v = found.ok_or("phi without incoming edge")?;
                        let n = fx.cx.nslots(LLVMTypeOf(i))?;
                        let d = fx.regs[&i];
                        if LLVMIsAUndefValue(v).is_null() {
                            let o = fx.opnd(v)?;
                            for k in 0..n { if d + k != o + k { fx.f.copies.push((d + k, o + k)); } }
                        } else {
                            let z = fx.konst(0);
                            for k in 0..n { fx.f.copies.push((d + k, z)); }
                        }
                        i = LLVMGetNextInstruction(i);
                    }
                    let cn = fx.f.copies.len() as u32 - cs;
                    let sl = &fx.f.copies[cs as usize..];
                    let hazard = sl.iter().enumerate().any(|(j, &(_, s))| s & CBIT == 0 && sl[..j].iter().any(|&(d, _)| d == s));
                    let e = Edge { pc: fx.bb[&to], cs, cn, hazard };
                    match &mut fx.f.code[at] {
                        I::Br { e: x } => *x = e,
                        I::CBr { t, f, .. } => if slot == 0 { *t = e } else { *f = e },
                        I::Switch { def, cases, .. } => if slot == 0 { *def = e } else { cases[slot - 1].1 = e },
                        I::Call { e: x, .. } => *x = Some(e),
                        x => return Err(format!("edge fixup on {x:?}")),
                    }
                }
                Ok(())
            })();
            let mut done = fx.f;
            if let Err(e) = r { done.code = vec![I::Unsup(e.into())]; }
            prog.funcs[ix] = done;
        }
        for u in unsup { eprintln!("unsupported: {u}"); }
        Ok(prog)
    }
}
