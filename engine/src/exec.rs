//! Dynamic symbolic execution of the flattened IR.
//!
//! Every value carries a concrete shadow (from the path's model) and, when it depends on symbolic
//! input, an expression. The path's model decides the direction of a symbolic branch; the solver
//! decides whether the other direction is feasible, and each feasible one becomes a work item.
//! Symbolic pointers, sizes and float operands are enumerated completely, value by value, with the
//! solver deciding when no further value exists.

use crate::expr::{mask, sext64, Arena, Op as X, E};
use crate::ir::*;
use crate::solver::{eval, Ans, Solver};

#[derive(Clone, Copy, Default, Debug)]
pub struct V { pub c: u64, pub e: E }
#[inline] fn k(c: u64) -> V { V { c, e: 0 } }

#[derive(Clone, Debug)]
pub struct Item { pub model: Vec<u64>, pub depth: u32, pub excl: Vec<u64> }

#[derive(Clone, Debug)]
pub enum Stop {
    Done,
    Dead,             // assumption cannot hold on this path
    Restart,          // assumption repaired by another model
    Fail(String),     // property violated (message)
    Unsup(String),    // the engine cannot go on
}

pub struct Obj { data: Vec<u8>, sym: Vec<u64>, state: u8 }  // state 0 live heap, 1 freed, 2 static
const STACK_SIZE: usize = 16 << 20;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FK { Normal, Panic, Ext(Ext_), Undef }
#[allow(non_camel_case_types)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext_ {
    Malloc, Calloc, Realloc, Free, PosixMemalign, AlignedAlloc, Memcmp, Bcmp, Memcpy, Memset, Strlen, Memchr, Syscall, Getrandom, Zero, Neg1, Errno, Abort, Write, ClockGettime, AtExit,
    VSym, VAssume, VAssert, VReach, VParam, VObs, VConc, VKnown, VNote, VForget, VSetRand,
}

pub fn classify(p: &Program) -> Vec<FK> {
    p.funcs.iter().map(|f| {
        let n = f.name.as_str();
        if n.contains("4core9panicking") && !n.ends_with("3fmt") || n.contains("rust_begin_unwind") || n.contains("18handle_alloc_error") || n.contains("_8rust_oom") || n.contains("9panicking11begin_panic") || n.contains("9panicking15rust_panic") { return FK::Panic; }
        use Ext_::*;
        let e = match n {
            "malloc" => Malloc, "calloc" => Calloc, "realloc" => Realloc, "free" => Free, "posix_memalign" => PosixMemalign, "aligned_alloc" => AlignedAlloc,
            "memcmp" => Memcmp, "bcmp" => Bcmp, "memcpy" | "memmove" => Memcpy, "memset" => Memset, "strlen" => Strlen, "memchr" => Memchr,
            "syscall" => Syscall, "getrandom" => Getrandom, "__errno_location" => Errno, "abort" | "_exit" | "exit" => Abort, "write" | "writev" => Write,
            "clock_gettime" => ClockGettime, "__cxa_thread_atexit_impl" | "__cxa_atexit" | "atexit" => AtExit,
            "pthread_self" | "getenv" | "sched_yield" | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" | "gettid" | "sysconf" | "getpid" => Zero,
            "close" | "open64" | "open" | "read" => Neg1,
            "vp_sym" => VSym, "vp_assume" => VAssume, "vp_assert" => VAssert, "vp_reach" => VReach, "vp_param" => VParam, "vp_obs" => VObs, "vp_conc" => VConc, "vp_known" => VKnown, "vp_note" => VNote, "vp_forget" => VForget, "vp_set_rand" => VSetRand,
            _ => return if f.defined { FK::Normal } else { FK::Undef },
        };
        FK::Ext(e)
    }).collect()
}

struct Frame { f: u32, pc: u32, base: u32, sp: u32, d: u32, nd: u32, e: Option<Edge> }

#[derive(Default, Clone)]
pub struct Counters { pub paths: u64, pub instrs: u64, pub events: u64, pub asserts: u64, pub asserts_sym: u64, pub assumes: u64, pub dead: u64, pub restarts: u64, pub unknowns: u64, pub max_pc: u64, pub max_path_instrs: u64 }

pub struct Exec {
    pub prog: &'static Program,
    pub kinds: std::sync::Arc<Vec<FK>>,
    pub ar: Arena,
    pub solver: Solver,
    regs: Vec<V>,
    frames: Vec<Frame>,
    objs: Vec<Obj>,
    sp: usize,
    sp_high: usize,
    heap_free: Vec<Vec<u8>>,
    pub pc: Vec<E>,
    pcset: crate::expr::FxMap<E, ()>,
    pub model: Vec<u64>,
    pub nvars: u32,
    pub var_names: Vec<String>,
    item_depth: u32,
    item_excl: Vec<u64>,
    pub ev: u32,
    pub new_items: Vec<Item>,
    pub fails: Vec<(String, Vec<u64>, u32, Option<String>)>,
    pub cnt: Counters,
    pub params: Vec<u64>,
    pub reached: std::collections::BTreeMap<String, u64>,
    pub called: Vec<bool>,
    pub obs: Vec<u64>,
    pub notes: Vec<String>,
    pub known: Option<String>,
    rand: u64,
    clock: u64,
    budget: u64,
    pub check_models: bool,
    dirty_globals: bool,
    pub profile: Option<std::collections::HashMap<(u32, u32), u64>>,
}

type R<T> = Result<T, Stop>;

macro_rules! opn { ($s:expr, $f:expr, $base:expr, $o:expr) => {{
    let o: Opnd = $o;
    if o & CBIT != 0 { k($f.consts[(o & !CBIT) as usize]) } else { $s.regs[$base + o as usize] }
}} }

impl Exec {
    pub fn new(prog: &'static Program, kinds: std::sync::Arc<Vec<FK>>, params: Vec<u64>, timeout_ms: u32, budget: u64) -> Self {
        let mut objs = vec![];
        objs.push(Obj { data: vec![], sym: vec![], state: 2 });
        objs.push(Obj { data: vec![0; STACK_SIZE], sym: vec![], state: 2 });
        objs.push(Obj { data: prog.globals.clone(), sym: vec![], state: 2 });
        objs.push(Obj { data: vec![], sym: vec![], state: 2 });
        let nf = prog.funcs.len();
        Exec {
            prog, kinds, ar: Arena::new(), solver: Solver::new(timeout_ms), regs: vec![V::default(); 1 << 16], frames: vec![], objs, sp: 64, sp_high: 64, heap_free: vec![],
            pc: vec![], pcset: Default::default(), model: vec![], nvars: 0, var_names: vec![], item_depth: 0, item_excl: vec![], ev: 0, new_items: vec![], fails: vec![], cnt: Default::default(),
            params, reached: Default::default(), called: vec![false; nf], obs: vec![], notes: vec![], known: None, rand: 0, clock: 0, budget, check_models: false, dirty_globals: true, profile: None,
        }
    }

    fn reset(&mut self) {
        self.objs.truncate(OBJ_HEAP0 as usize);
        let g = &mut self.objs[OBJ_GLOBALS as usize];
        g.sym.clear();
        if self.dirty_globals { g.data[self.prog.mut_start..].copy_from_slice(&self.prog.globals[self.prog.mut_start..]); }
        let s = &mut self.objs[OBJ_STACK as usize];
        s.sym.clear();
        // stale stack bytes must not depend on the previous path
        let hi = self.sp_high.min(s.data.len());
        s.data[..hi].fill(0);
        self.sp = 64; self.sp_high = 64;
        self.frames.clear();
        self.pc.clear(); self.pcset.clear();
        self.nvars = 0; self.var_names.clear(); self.ev = 0;
        self.obs.clear(); self.notes.clear(); self.known = None;
        self.rand = 0; self.clock = 0;
        if self.ar.nodes.len() > 3_000_000 || self.solver.cache_len() > 1_500_000 { self.ar = Arena::new(); self.solver.reset(); }
    }

    /// Runs one path. `self.new_items` receives the feasible siblings.
    pub fn run(&mut self, entry: u32, item: Item) -> Stop {
        self.reset();
        self.model = item.model; self.item_depth = item.depth; self.item_excl = item.excl;
        self.cnt.paths += 1;
        let f = &self.prog.funcs[entry as usize];
        self.frames.push(Frame { f: entry, pc: 0, base: 0, sp: 64, d: 0, nd: 0, e: None });
        if self.regs.len() < f.nregs as usize + 16 { self.regs.resize(f.nregs as usize + 1024, V::default()); }
        for r in &mut self.regs[..f.nregs as usize] { *r = V::default(); }
        self.called[entry as usize] = true;
        let start = self.cnt.instrs;
        let r = self.go();
        let s = match r { Ok(()) => Stop::Done, Err(s) => s };
        self.cnt.max_path_instrs = self.cnt.max_path_instrs.max(self.cnt.instrs - start);
        self.cnt.max_pc = self.cnt.max_pc.max(self.pc.len() as u64);
        self.cnt.events += self.ev as u64;
        match &s { Stop::Dead => self.cnt.dead += 1, Stop::Restart => self.cnt.restarts += 1,
            Stop::Fail(m) => { let m = m.clone(); let md = self.model.clone(); self.fails.push((m, md, self.nvars, self.known.clone())); } _ => {} }
        s
    }

    pub fn backtrace(&self) -> Vec<String> { self.frames.iter().rev().map(|f| self.prog.funcs[f.f as usize].name.clone()).collect() }

    // ---------------------------------------------------------------- symbolic helpers
    fn ex(&mut self, v: V, w: u32) -> E { if v.e != 0 { v.e } else { self.ar.cst(w, v.c) } }
    fn sv(&mut self, e: E, c: u64) -> V {
        if let Some(x) = self.ar.as_const(e) {
            if self.check_models && x != c { panic!("simplifier mismatch: {x:#x} vs {c:#x}"); }
            return k(c);
        }
        if self.check_models && self.ar.w(e) <= 64 {
            let m = self.model.clone();
            let mut memo = Default::default();
            let x = eval(&self.ar, e, &|i| m.get(i as usize).copied().unwrap_or(0), &mut memo);
            if x as u64 != c { panic!("model mismatch: {:?} {x:#x} vs {c:#x}", self.ar.n(e)); }
        }
        V { c, e }
    }
    fn merged(&self, m: Vec<(u32, u64)>) -> Vec<u64> {
        let mut r = self.model.clone();
        for (i, v) in m { if r.len() <= i as usize { r.resize(i as usize + 1, 0); } r[i as usize] = v; }
        r
    }
    fn add_pc(&mut self, e: E) {
        if self.ar.as_const(e).is_some() { return; }
        if self.pcset.insert(e, ()).is_none() {
            self.pc.push(e);
            // conjunctions also contribute their parts, so repeated tests are recognised
            let mut st = vec![e];
            while let Some(x) = st.pop() {
                let n = self.ar.n(x);
                if n.op == X::And && n.w == 1 { for y in [n.a, n.b] { self.pcset.insert(y, ()); st.push(y); } }
            }
        }
    }
    fn branch(&mut self, v: V) -> R<bool> {
        if v.e == 0 { return Ok(v.c & 1 != 0); }
        let taken = v.c & 1 != 0;
        let neg = self.ar.not(v.e);
        let (lit, other) = if taken { (v.e, neg) } else { (neg, v.e) };
        if self.pcset.contains_key(&lit) { return Ok(taken); }
        let idx = self.ev; self.ev += 1;
        if idx >= self.item_depth {
            match self.solver.check(&self.ar, &self.pc, other) {
                Ans::Sat(m) => { let model = self.merged(m); self.new_items.push(Item { model, depth: idx + 1, excl: vec![] }); }
                Ans::Unsat => {}
                Ans::Unknown => self.cnt.unknowns += 1,
            }
        }
        if let Some(p) = &mut self.profile { let f = self.frames.last().unwrap(); *p.entry((f.f, f.pc)).or_default() += 1; }
        self.add_pc(lit);
        Ok(taken)
    }
    fn conc(&mut self, v: V, w: u32) -> R<u64> {
        if v.e == 0 { return Ok(v.c); }
        if w == 1 { return Ok(self.branch(v)? as u64); }
        let kc = self.ar.cst(w, v.c);
        let cond = self.ar.eq(v.e, kc);
        if self.ar.as_const(cond).is_some() || self.pcset.contains_key(&cond) { return Ok(v.c); }
        let idx = self.ev; self.ev += 1;
        let mut excl = None;
        if idx >= self.item_depth { excl = Some(vec![v.c]); }
        else if idx + 1 == self.item_depth && !self.item_excl.is_empty() { let mut x = self.item_excl.clone(); x.push(v.c); excl = Some(x); }
        if let Some(excl) = excl {
            let mut q = self.ar.bool(true);
            for &x in &excl { let kx = self.ar.cst(w, x); let e = self.ar.eq(v.e, kx); let n = self.ar.not(e); q = self.ar.bitop(X::And, q, n); }
            match self.solver.check(&self.ar, &self.pc, q) {
                Ans::Sat(m) => { let model = self.merged(m); self.new_items.push(Item { model, depth: idx + 1, excl }); }
                Ans::Unsat => {}
                Ans::Unknown => self.cnt.unknowns += 1,
            }
        }
        if let Some(p) = &mut self.profile { let f = self.frames.last().unwrap(); *p.entry((f.f, f.pc)).or_default() += 1; }
        self.add_pc(cond);
        Ok(v.c)
    }
    fn assume(&mut self, v: V) -> R<()> {
        self.cnt.assumes += 1;
        if v.e == 0 { return if v.c & 1 != 0 { Ok(()) } else { Err(Stop::Dead) }; }
        if v.c & 1 != 0 { self.add_pc(v.e); return Ok(()); }
        match self.solver.check(&self.ar, &self.pc, v.e) {
            Ans::Sat(m) => { let model = self.merged(m); self.new_items.push(Item { model, depth: self.ev.max(self.item_depth), excl: if self.ev < self.item_depth { self.item_excl.clone() } else { vec![] } }); Err(Stop::Restart) }
            Ans::Unsat => Err(Stop::Dead),
            Ans::Unknown => { self.cnt.unknowns += 1; Err(Stop::Dead) }
        }
    }
    fn assert(&mut self, v: V, msg: &str) -> R<()> {
        self.cnt.asserts += 1;
        if v.c & 1 == 0 { return Err(Stop::Fail(format!("assert: {msg}"))); }
        if v.e == 0 { return Ok(()); }
        self.cnt.asserts_sym += 1;
        if self.ev >= self.item_depth && !self.pcset.contains_key(&v.e) {
            let neg = self.ar.not(v.e);
            match self.solver.check(&self.ar, &self.pc, neg) {
                Ans::Sat(m) => { let model = self.merged(m); self.fails.push((format!("assert: {msg}"), model, self.nvars, self.known.clone())); }
                Ans::Unsat => {}
                Ans::Unknown => self.cnt.unknowns += 1,
            }
        }
        self.add_pc(v.e);
        Ok(())
    }

    // ---------------------------------------------------------------- memory
    #[inline]
    fn locate(&self, addr: u64, len: u64) -> R<(usize, usize)> {
        let o = (addr >> 32) as usize;
        let off = addr & 0xffff_ffff;
        if let Some(ob) = self.objs.get(o) {
            if off + len <= ob.data.len() as u64 && o != 0 {
                if ob.state == 1 { return Err(Stop::Fail("memory: use after free".into())); }
                return Ok((o, off as usize));
            }
        }
        if len == 0 { return Ok((OBJ_STACK as usize, 0)); }
        Err(Stop::Fail(format!("memory: access of {len} bytes out of bounds at {addr:#x}")))
    }
    #[inline]
    fn load(&mut self, addr: u64, bytes: u32, w: u32) -> R<V> {
        let (o, off) = self.locate(addr, bytes as u64)?;
        let ob = &self.objs[o];
        let mut buf = [0u8; 8];
        buf[..bytes as usize].copy_from_slice(&ob.data[off..off + bytes as usize]);
        let c = u64::from_le_bytes(buf) & mask(w);
        if ob.sym.is_empty() { return Ok(k(c)); }
        let end = (off + bytes as usize).min(ob.sym.len());
        if off >= end || ob.sym[off..end].iter().all(|&x| x == 0) { return Ok(k(c)); }
        let s: Vec<u64> = (off..off + bytes as usize).map(|i| ob.sym.get(i).copied().unwrap_or(0)).collect();
        // whole value stored in one piece
        let e0 = (s[0] >> 8) as E;
        let e = if e0 != 0 && s.iter().enumerate().all(|(i, &x)| x == (e0 as u64) << 8 | i as u64) && self.ar.w(e0).div_ceil(8) == bytes {
            let ew = self.ar.w(e0);
            if ew == bytes * 8 { e0 } else { self.ar.zext(e0, bytes * 8) }
        } else {
            let mut segs = vec![];
            for i in (0..bytes as usize).rev() {
                let x = if s[i] == 0 { self.ar.cst(8, buf[i] as u64) } else {
                    let e = (s[i] >> 8) as E; let j = (s[i] & 255) as u32;
                    let ew = self.ar.w(e);
                    let hi = (j * 8 + 8).min(ew);
                    let p = self.ar.extract(e, j * 8, hi - j * 8);
                    self.ar.zext(p, 8)
                };
                segs.push(x);
            }
            self.ar.from_segs(&segs)
        };
        let e = if w < bytes * 8 { self.ar.extract(e, 0, w) } else { e };
        Ok(self.sv(e, c))
    }
    #[inline]
    fn store(&mut self, addr: u64, v: V, bytes: u32, w: u32) -> R<()> {
        let (o, off) = self.locate(addr, bytes as u64)?;
        if o == OBJ_GLOBALS as usize { if off < self.prog.mut_start { return Err(Stop::Fail("memory: write to constant".into())); } self.dirty_globals = true; }
        let ob = &mut self.objs[o];
        let c = v.c & mask(w);
        ob.data[off..off + bytes as usize].copy_from_slice(&c.to_le_bytes()[..bytes as usize]);
        if v.e != 0 {
            let need = off + bytes as usize;
            if ob.sym.len() < need { let l = if o == OBJ_STACK as usize { need } else { ob.data.len() }; ob.sym.resize(l.max(need), 0); }
            for i in 0..bytes as usize { ob.sym[off + i] = (v.e as u64) << 8 | i as u64; }
        } else if off < ob.sym.len() {
            let end = (off + bytes as usize).min(ob.sym.len());
            ob.sym[off..end].fill(0);
        }
        Ok(())
    }
    fn copy(&mut self, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (so, soff) = self.locate(src, n)?;
        let (d, doff) = self.locate(dst, n)?;
        let n = n as usize;
        if d == OBJ_GLOBALS as usize { if doff < self.prog.mut_start { return Err(Stop::Fail("memory: write to constant".into())); } self.dirty_globals = true; }
        if so == d {
            let ob = &mut self.objs[d];
            ob.data.copy_within(soff..soff + n, doff);
            if !ob.sym.is_empty() {
                let need = doff.max(soff) + n;
                if ob.sym.len() < need { ob.sym.resize(need, 0); }
                ob.sym.copy_within(soff..soff + n, doff);
            }
        } else {
            let (a, b) = if so < d { let (l, r) = self.objs.split_at_mut(d); (&l[so], &mut r[0]) } else { let (l, r) = self.objs.split_at_mut(so); (&r[0], &mut l[d]) };
            b.data[doff..doff + n].copy_from_slice(&a.data[soff..soff + n]);
            let send = (soff + n).min(a.sym.len());
            let any = soff < send && a.sym[soff..send].iter().any(|&x| x != 0);
            if any {
                let need = doff + n;
                if b.sym.len() < need { let l = if d == OBJ_STACK as usize { need } else { b.data.len() }; b.sym.resize(l.max(need), 0); }
                for i in 0..n { b.sym[doff + i] = a.sym.get(soff + i).copied().unwrap_or(0); }
            } else if doff < b.sym.len() {
                let end = (doff + n).min(b.sym.len());
                b.sym[doff..end].fill(0);
            }
        }
        Ok(())
    }
    fn fill(&mut self, dst: u64, v: V, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        if v.e != 0 { for i in 0..n { self.store(dst + i, v, 1, 8)?; } return Ok(()); }
        let (d, off) = self.locate(dst, n)?;
        if d == OBJ_GLOBALS as usize { self.dirty_globals = true; }
        let ob = &mut self.objs[d];
        let n = n as usize;
        ob.data[off..off + n].fill(v.c as u8);
        if off < ob.sym.len() { let end = (off + n).min(ob.sym.len()); ob.sym[off..end].fill(0); }
        Ok(())
    }
    fn malloc(&mut self, n: u64) -> R<u64> {
        if n > 1 << 30 { return Err(Stop::Fail(format!("memory: allocation of {n} bytes"))); }
        let id = self.objs.len() as u64;
        let mut data = self.heap_free.pop().unwrap_or_default();
        data.clear(); data.resize(n as usize, 0);
        self.objs.push(Obj { data, sym: vec![], state: 0 });
        Ok(id << 32)
    }
    fn free(&mut self, p: u64) -> R<()> {
        if p == 0 { return Ok(()); }
        let o = (p >> 32) as usize;
        if p & 0xffff_ffff != 0 || o < OBJ_HEAP0 as usize || o >= self.objs.len() || self.objs[o].state != 0 { return Err(Stop::Fail(format!("memory: bad free of {p:#x}"))); }
        let d = std::mem::take(&mut self.objs[o].data);
        if d.capacity() <= 4096 && self.heap_free.len() < 256 { self.heap_free.push(d); }
        self.objs[o].sym = vec![];
        self.objs[o].state = 1;
        Ok(())
    }
    fn cstr(&self, p: u64, n: u64) -> String {
        match self.locate(p, n) { Ok((o, off)) => String::from_utf8_lossy(&self.objs[o].data[off..off + n as usize]).into_owned(), _ => "?".into() }
    }

    // ---------------------------------------------------------------- operators
    fn bin(&mut self, op: Bin, w: u32, a: V, b: V) -> R<V> {
        let m = mask(w);
        let (x, y) = (a.c, b.c);
        let c = match op {
            Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), Bin::Mul => x.wrapping_mul(y),
            Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
            Bin::Shl => if y >= w as u64 { 0 } else { x << y },
            Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
            Bin::AShr => (sext64(x, w) >> y.min(63).min(w as u64 - 1)) as u64,
            Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                let b = if b.e != 0 { k(self.conc(b, w)?) } else { b };
                if b.c == 0 { return Err(Stop::Fail("memory: division by zero".into())); }
                let (sx, sy) = (sext64(x, w), sext64(b.c, w));
                let c = match op { Bin::UDiv => x / b.c, Bin::URem => x % b.c, Bin::SDiv => sx.wrapping_div(sy) as u64, _ => sx.wrapping_rem(sy) as u64 } & m;
                if a.e == 0 { return Ok(k(c)); }
                let eb = self.ex(b, w);
                let e = self.ar.divrem(match op { Bin::UDiv => X::UDiv, Bin::URem => X::URem, Bin::SDiv => X::SDiv, _ => X::SRem }, a.e, eb);
                return Ok(self.sv(e, c));
            }
        } & m;
        if a.e | b.e == 0 { return Ok(k(c)); }
        if op == Bin::Mul && a.e != 0 && b.e != 0 && w > 8 {
            let y = self.conc(b, w)?;
            return self.bin(op, w, a, k(y));
        }
        let (ea, eb) = (self.ex(a, w), self.ex(b, w));
        let e = match op {
            Bin::Add => self.ar.add(ea, eb), Bin::Sub => self.ar.sub(ea, eb), Bin::Mul => self.ar.mul(ea, eb),
            Bin::And => self.ar.bitop(X::And, ea, eb), Bin::Or => self.ar.bitop(X::Or, ea, eb), Bin::Xor => self.ar.bitop(X::Xor, ea, eb),
            Bin::Shl => self.ar.shift(X::Shl, ea, eb), Bin::LShr => self.ar.shift(X::LShr, ea, eb), _ => self.ar.shift(X::AShr, ea, eb),
        };
        Ok(self.sv(e, c))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: V, b: V) -> V {
        let (x, y) = (a.c, b.c);
        let (sx, sy) = (sext64(x, w), sext64(y, w));
        let c = match p {
            Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
            Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy,
        } as u64;
        if a.e | b.e == 0 { return k(c); }
        let (ea, eb) = (self.ex(a, w), self.ex(b, w));
        let e = self.icmp_e(p, ea, eb);
        self.sv(e, c)
    }
    fn icmp_e(&mut self, p: Pred, a: E, b: E) -> E {
        let r = &mut self.ar;
        match p {
            Pred::Eq => r.eq(a, b), Pred::Ne => { let x = r.eq(a, b); r.not(x) }
            Pred::Ugt => r.ult(b, a), Pred::Uge => r.ule(b, a), Pred::Ult => r.ult(a, b), Pred::Ule => r.ule(a, b),
            Pred::Sgt => r.slt(b, a), Pred::Sge => r.sle(b, a), Pred::Slt => r.slt(a, b), Pred::Sle => r.sle(a, b),
        }
    }
    fn select(&mut self, c: V, a: V, b: V, w: u32) -> V {
        if c.e == 0 { return if c.c & 1 != 0 { a } else { b }; }
        let v = if c.c & 1 != 0 { a.c } else { b.c };
        if a.e | b.e == 0 && a.c == b.c { return a; }
        let (ea, eb) = (self.ex(a, w), self.ex(b, w));
        let e = self.ar.ite(c.e, ea, eb);
        self.sv(e, v)
    }
    fn ext(&mut self, kd: Ext, wf: u32, wt: u32, a: V) -> V {
        let c = match kd { Ext::Trunc => a.c & mask(wt), Ext::Zext => a.c, Ext::Sext => sext64(a.c, wf) as u64 & mask(wt) };
        if a.e == 0 { return k(c); }
        let e = match kd { Ext::Trunc => self.ar.extract(a.e, 0, wt), Ext::Zext => self.ar.zext(a.e, wt), Ext::Sext => self.ar.sext(a.e, wt) };
        self.sv(e, c)
    }
    // wide (65..) integers as limbs
    fn wgather(&mut self, v: &[V], w: u32) -> (u128, E) {
        let mut c = 0u128;
        for (i, x) in v.iter().enumerate().take(2) { c |= (x.c as u128) << (64 * i); }
        if v.iter().all(|x| x.e == 0) { return (c, 0); }
        let mut segs = vec![];
        for (i, x) in v.iter().enumerate().rev() { let lw = (w - 64 * i as u32).min(64); segs.push(self.ex(*x, lw)); }
        (c, self.ar.from_segs(&segs))
    }
    fn wscatter(&mut self, c: u128, e: E, w: u32, out: &mut Vec<V>) {
        for i in 0..w.div_ceil(64) {
            let lw = (w - 64 * i).min(64);
            let lc = (c >> (64 * i)) as u64 & mask(lw);
            if e == 0 { out.push(k(lc)); } else { let x = self.ar.extract(e, 64 * i, lw); let v = self.sv(x, lc); out.push(v); }
        }
    }
    fn wcst(&mut self, w: u32, c: u128) -> E {
        let lo = self.ar.cst(64, c as u64); let hi = self.ar.cst(w - 64, (c >> 64) as u64);
        self.ar.concat(hi, lo)
    }
    fn wbin(&mut self, op: Bin, w: u32, a: &[V], b: &[V], out: &mut Vec<V>) -> R<()> {
        if w > 128 {
            // only bitwise operations
            match op { Bin::And | Bin::Or | Bin::Xor => {}, _ => return Err(Stop::Unsup(format!("{op:?} on i{w}"))) }
            for i in 0..a.len() { let lw = (w - 64 * i as u32).min(64); let r = self.bin(op, lw, a[i], b[i])?; out.push(r); }
            return Ok(());
        }
        let sym = a.iter().chain(b).any(|x| x.e != 0);
        if sym && matches!(op, Bin::Mul | Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) {
            let mut a2 = vec![]; let mut b2 = vec![];
            for (i, x) in a.iter().enumerate() { a2.push(k(self.conc(*x, (w - 64 * i as u32).min(64))?)); }
            for (i, x) in b.iter().enumerate() { b2.push(k(self.conc(*x, (w - 64 * i as u32).min(64))?)); }
            return self.wbin(op, w, &a2, &b2, out);
        }
        let (x, ea) = self.wgather(a, w);
        let (y, eb) = self.wgather(b, w);
        let sx = ((x << (128 - w)) as i128) >> (128 - w);
        let sy = ((y << (128 - w)) as i128) >> (128 - w);
        if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) && y == 0 { return Err(Stop::Fail("memory: division by zero".into())); }
        let c = match op {
            Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), Bin::Mul => x.wrapping_mul(y), Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
            Bin::Shl => if y >= w as u128 { 0 } else { x << y }, Bin::LShr => if y >= w as u128 { 0 } else { x >> y }, Bin::AShr => (sx >> y.min(w as u128 - 1)) as u128,
            Bin::UDiv => x / y, Bin::URem => x % y, Bin::SDiv => sx.wrapping_div(sy) as u128, Bin::SRem => sx.wrapping_rem(sy) as u128,
        };
        if ea | eb == 0 { self.wscatter(c, 0, w, out); return Ok(()); }
        let ea = if ea == 0 { self.wcst(w, x) } else { ea };
        let e = if matches!(op, Bin::Shl | Bin::LShr | Bin::AShr) {
            if eb != 0 {
                let mut b2 = vec![];
                for (i, x) in b.iter().enumerate() { b2.push(k(self.conc(*x, (w - 64 * i as u32).min(64))?)); }
            }
            let s = y.min(w as u128) as u32;
            match op { Bin::Shl => self.ar.shl_k(ea, s), Bin::LShr => self.ar.lshr_k(ea, s), _ => self.ar.ashr_k(ea, s) }
        } else {
            let eb = if eb == 0 { self.wcst(w, y) } else { eb };
            match op {
                Bin::Add => self.ar.add(ea, eb), Bin::Sub => self.ar.sub(ea, eb),
                Bin::And => self.ar.bitop(X::And, ea, eb), Bin::Or => self.ar.bitop(X::Or, ea, eb), _ => self.ar.bitop(X::Xor, ea, eb),
            }
        };
        self.wscatter(c, e, w, out);
        Ok(())
    }

    fn fbits(dbl: bool, v: u64) -> f64 { if dbl { f64::from_bits(v) } else { f32::from_bits(v as u32) as f64 } }

    fn intrinsic(&mut self, id: Intr, sub: u8, w: u32, d: usize, a: &[V]) -> R<()> {
        use Intr::*;
        if w == 128 { return self.intrinsic128(id, d, a); }
        let m = mask(w);
        let r: V = match id {
            UMax | UMin | SMax | SMin => {
                let p = match id { UMax => Pred::Ugt, UMin => Pred::Ult, SMax => Pred::Sgt, _ => Pred::Slt };
                let c = self.icmp(p, w, a[0], a[1]);
                self.select(c, a[0], a[1], w)
            }
            USubSat => { let c = self.icmp(Pred::Ult, w, a[0], a[1]); let s = self.bin(Bin::Sub, w, a[0], a[1])?; self.select(c, k(0), s, w) }
            UAddSat => { let s = self.bin(Bin::Add, w, a[0], a[1])?; let c = self.icmp(Pred::Ult, w, s, a[0]); self.select(c, k(m), s, w) }
            SAddSat | SSubSat => {
                let (x, y) = (self.conc(a[0], w)?, self.conc(a[1], w)?);
                let (x, y) = (sext64(x, w) as i128, sext64(y, w) as i128);
                let s = if id == SAddSat { x + y } else { x - y };
                let hi = (1i128 << (w - 1)) - 1;
                k(s.clamp(-hi - 1, hi) as u64 & m)
            }
            UAddOv => { let s = self.bin(Bin::Add, w, a[0], a[1])?; let c = self.icmp(Pred::Ult, w, s, a[0]); self.regs[d] = s; self.regs[d + 1] = c; return Ok(()); }
            USubOv => { let s = self.bin(Bin::Sub, w, a[0], a[1])?; let c = self.icmp(Pred::Ult, w, a[0], a[1]); self.regs[d] = s; self.regs[d + 1] = c; return Ok(()); }
            UMulOv => {
                let (mut x, mut y) = (a[0], a[1]);
                if x.e != 0 && y.e != 0 { y = k(self.conc(y, w)?); }
                if x.e == 0 { std::mem::swap(&mut x, &mut y); }
                let s = self.bin(Bin::Mul, w, x, y)?;
                let c = if y.c == 0 { k(0) } else { self.icmp(Pred::Ugt, w, x, k(m / y.c)) };
                self.regs[d] = s; self.regs[d + 1] = c; return Ok(());
            }
            SAddOv | SSubOv => {
                let op = if id == SAddOv { Bin::Add } else { Bin::Sub };
                let s = self.bin(op, w, a[0], a[1])?;
                // overflow iff operands (resp. a and !b) agree in sign and the result does not
                let x = self.bin(Bin::Xor, w, a[0], s)?;
                let y0 = if id == SAddOv { a[1] } else { self.bin(Bin::Xor, w, a[1], k(m))? };
                let y = self.bin(Bin::Xor, w, y0, s)?;
                let z = self.bin(Bin::And, w, x, y)?;
                let c = self.icmp(Pred::Slt, w, z, k(0));
                self.regs[d] = s; self.regs[d + 1] = c; return Ok(());
            }
            SMulOv => {
                let (x, y) = (self.conc(a[0], w)?, self.conc(a[1], w)?);
                let p = sext64(x, w) as i128 * sext64(y, w) as i128;
                self.regs[d] = k(p as u64 & m);
                self.regs[d + 1] = k((p != sext64(p as u64 & m, w) as i128) as u64);
                return Ok(());
            }
            Fshl | Fshr => {
                let s = (self.conc(a[2], w)? % w as u64) as u32;
                let s = if id == Fshl { s } else { (w - s) % w };
                // result = high part of (a0:a1) << s; for fshr with shift 0 the result is a1
                if s == 0 { if id == Fshr && a[2].c % w as u64 == 0 { a[1] } else { a[0] } }
                else {
                    let x = self.bin(Bin::Shl, w, a[0], k(s as u64))?;
                    let y = self.bin(Bin::LShr, w, a[1], k((w - s) as u64))?;
                    self.bin(Bin::Or, w, x, y)?
                }
            }
            Ctpop => k(self.conc(a[0], w)?.count_ones() as u64),
            Cttz => { let x = self.conc(a[0], w)?; k(if x == 0 { w as u64 } else { x.trailing_zeros() as u64 }) }
            Ctlz => { let x = self.conc(a[0], w)?; k((x.leading_zeros() - (64 - w)) as u64) }
            Bswap => {
                if a[0].e == 0 { k(a[0].c.swap_bytes() >> (64 - w)) } else {
                    let segs: Vec<E> = (0..w / 8).map(|i| self.ar.extract(a[0].e, 8 * i, 8)).collect();
                    let e = self.ar.from_segs(&segs);
                    let c = a[0].c.swap_bytes() >> (64 - w);
                    self.sv(e, c)
                }
            }
            Bitrev => k(self.conc(a[0], w)?.reverse_bits() >> (64 - w)),
            Abs => { let c = self.icmp(Pred::Slt, w, a[0], k(0)); let n = self.bin(Bin::Sub, w, k(0), a[0])?; self.select(c, n, a[0], w) }
            Ucmp | Scmp => {
                let rw = sub as u32;
                let lt = self.icmp(if id == Ucmp { Pred::Ult } else { Pred::Slt }, w, a[0], a[1]);
                let eq = self.icmp(Pred::Eq, w, a[0], a[1]);
                let x = self.select(eq, k(0), k(1), rw);
                self.select(lt, k(mask(rw)), x, rw)
            }
            PtrMask => self.bin(Bin::And, w, a[0], a[1])?,
            MemCpy => { let (x, y, n) = (self.conc(a[0], 64)?, self.conc(a[1], 64)?, self.conc(a[2], 64)?); return self.copy(x, y, n); }
            MemSet => { let (x, n) = (self.conc(a[0], 64)?, self.conc(a[2], 64)?); return self.fill(x, a[1], n); }
            LoadRel => {
                let (x, y) = (self.conc(a[0], 64)?, self.conc(a[1], 64)?);
                let v = self.load(x.wrapping_add(y), 4, 32)?;
                k(x.wrapping_add(sext64(v.c, 32) as u64))
            }
            Trap => return Err(Stop::Fail("panic: trap".into())),
            FUn => {
                let x = self.conc(a[0], w)?;
                let v = Self::fbits(w == 64, x);
                let r = match sub { 0 => v.abs(), 1 => v.floor(), 2 => v.ceil(), 3 => v.trunc(), 4 => v.round(), 5 => v.sqrt(), 6 => v.round_ties_even(), 7 => v, 8 => v.exp(), 9 => v.ln(), 10 => v.exp2(), 11 => v.log2(), 12 => v.log10(), 13 => v.sin(), _ => v.cos() };
                k(if w == 64 { r.to_bits() } else { (r as f32).to_bits() as u64 })
            }
            FBin2 => {
                let (x, y) = (self.conc(a[0], w)?, self.conc(a[1], w)?);
                let (x, y) = (Self::fbits(w == 64, x), Self::fbits(w == 64, y));
                let r = match sub { 0 => x.copysign(y), 1 => x.min(y), 2 => x.max(y), 3 => if x.is_nan() || y.is_nan() { f64::NAN } else { x.min(y) }, 4 => if x.is_nan() || y.is_nan() { f64::NAN } else { x.max(y) }, _ => x.powf(y) };
                k(if w == 64 { r.to_bits() } else { (r as f32).to_bits() as u64 })
            }
            Fma => {
                let v: Vec<f64> = { let mut v = vec![]; for x in a { let x = self.conc(*x, w)?; v.push(Self::fbits(w == 64, x)); } v };
                k(if w == 64 { (if sub == 1 { v[0].mul_add(v[1], v[2]) } else { v[0] * v[1] + v[2] }).to_bits() } else { ((v[0] as f32).mul_add(v[1] as f32, v[2] as f32)).to_bits() as u64 })
            }
            FpToUiSat | FpToSiSat => {
                let x = self.conc(a[0], sub as u32)?;
                let v = Self::fbits(sub == 64, x);
                if id == FpToUiSat { k(if v.is_nan() { 0 } else { (v as u64).min(m) }) }
                else { let hi = (1i128 << (w - 1)) - 1; k((if v.is_nan() { 0 } else { (v as i64 as i128).clamp(-hi - 1, hi) }) as u64 & m) }
            }
            IsFpClass => {
                let x = self.conc(a[0], w)?;
                let (neg, exp_max, exp_zero, man, quiet) = if w == 64 { (x >> 63 != 0, x >> 52 & 0x7ff == 0x7ff, x >> 52 & 0x7ff == 0, x & ((1 << 52) - 1), x >> 51 & 1 != 0) } else { (x >> 31 & 1 != 0, x >> 23 & 0xff == 0xff, x >> 23 & 0xff == 0, x & ((1 << 23) - 1), x >> 22 & 1 != 0) };
                let bit = if exp_max && man != 0 { if quiet { 1 } else { 0 } } else if exp_max { if neg { 2 } else { 9 } } else if exp_zero && man == 0 { if neg { 5 } else { 6 } } else if exp_zero { if neg { 4 } else { 7 } } else if neg { 3 } else { 8 };
                k(a[1].c >> bit & 1)
            }
            RedAdd | RedMul | RedAnd | RedOr | RedXor | RedUMax | RedUMin | RedSMax | RedSMin => {
                let mut acc = a[0];
                for &x in &a[1..] {
                    acc = match id {
                        RedAdd => self.bin(Bin::Add, w, acc, x)?, RedMul => self.bin(Bin::Mul, w, acc, x)?, RedAnd => self.bin(Bin::And, w, acc, x)?, RedOr => self.bin(Bin::Or, w, acc, x)?, RedXor => self.bin(Bin::Xor, w, acc, x)?,
                        _ => { let p = match id { RedUMax => Pred::Ugt, RedUMin => Pred::Ult, RedSMax => Pred::Sgt, _ => Pred::Slt }; let c = self.icmp(p, w, acc, x); self.select(c, acc, x, w) }
                    };
                }
                acc
            }
            Nop | Const0 | Ident | Neg1 => unreachable!(),
        };
        self.regs[d] = r;
        Ok(())
    }
    fn intrinsic128(&mut self, id: Intr, d: usize, a: &[V]) -> R<()> {
        let mut v = vec![];
        for x in a { v.push(self.conc(*x, 64)?); }
        let g = |i: usize| v[2 * i] as u128 | (v[2 * i + 1] as u128) << 64;
        let mut ov = None;
        let r = match id {
            Intr::Bswap => g(0).swap_bytes(), Intr::Ctpop => g(0).count_ones() as u128, Intr::Cttz => g(0).trailing_zeros() as u128, Intr::Ctlz => g(0).leading_zeros() as u128,
            Intr::UMax => g(0).max(g(1)), Intr::UMin => g(0).min(g(1)),
            Intr::Fshl => { let s = (g(2) % 128) as u32; if s == 0 { g(0) } else { g(0) << s | g(1) >> (128 - s) } }
            Intr::Fshr => { let s = (g(2) % 128) as u32; if s == 0 { g(1) } else { g(0) << (128 - s) | g(1) >> s } }
            Intr::UAddOv => { let (r, o) = g(0).overflowing_add(g(1)); ov = Some(o); r }
            Intr::USubOv => { let (r, o) = g(0).overflowing_sub(g(1)); ov = Some(o); r }
            Intr::UMulOv => { let (r, o) = g(0).overflowing_mul(g(1)); ov = Some(o); r }
            Intr::SAddOv => { let (r, o) = (g(0) as i128).overflowing_add(g(1) as i128); ov = Some(o); r as u128 }
            Intr::SSubOv => { let (r, o) = (g(0) as i128).overflowing_sub(g(1) as i128); ov = Some(o); r as u128 }
            Intr::SMulOv => { let (r, o) = (g(0) as i128).overflowing_mul(g(1) as i128); ov = Some(o); r as u128 }
            _ => return Err(Stop::Unsup(format!("{id:?} on i128"))),
        };
        self.regs[d] = k(r as u64); self.regs[d + 1] = k((r >> 64) as u64);
        if let Some(o) = ov { self.regs[d + 2] = k(o as u64); }
        Ok(())
    }

    // ---------------------------------------------------------------- main loop
    #[inline]
    fn jump(&mut self, f: &'static Func, base: usize, e: Edge) -> usize {
        if e.cn > 0 {
            let cp = &f.copies[e.cs as usize..(e.cs + e.cn) as usize];
            if !e.hazard { for &(d, s) in cp { self.regs[base + d as usize] = opn!(self, f, base, s); } }
            else {
                let t: Vec<V> = cp.iter().map(|&(_, s)| opn!(self, f, base, s)).collect();
                for (&(d, _), v) in cp.iter().zip(t) { self.regs[base + d as usize] = v; }
            }
        }
        e.pc as usize
    }

    fn go(&mut self) -> R<()> {
        let prog = self.prog;
        let mut fi = self.frames.last().unwrap().f;
        let mut f: &'static Func = &prog.funcs[fi as usize];
        let mut base = 0usize;
        let mut pc = 0usize;
        let limit = self.cnt.instrs + self.budget;
        let mut n = 0u64;
        let kinds = self.kinds.clone();
        macro_rules! rd { ($o:expr) => { opn!(self, f, base, $o) } }
        macro_rules! wr { ($d:expr, $v:expr) => {{ let v = $v; self.regs[base + $d as usize] = v; }} }
        loop {
            n += 1;
            if n & 0xfff == 0 {
                self.cnt.instrs += n; n = 0;
                if self.cnt.instrs > limit { self.frames.last_mut().unwrap().pc = pc as u32; return Err(Stop::Fail("hang: instruction budget exceeded".into())); }
            }
            let ins = &f.code[pc];
            if self.profile.is_some() { self.frames.last_mut().unwrap().pc = pc as u32; }
            pc += 1;
            match ins {
                I::Copy { d, a } => wr!(*d, rd!(*a)),
                I::Bin { op, w, d, a, b } => {
                    let (x, y) = (rd!(*a), rd!(*b));
                    if x.e | y.e == 0 {
                        let m = mask(*w as u32);
                        let c = match op {
                            Bin::Add => x.c.wrapping_add(y.c) & m, Bin::Sub => x.c.wrapping_sub(y.c) & m, Bin::And => x.c & y.c, Bin::Or => x.c | y.c, Bin::Xor => x.c ^ y.c,
                            _ => match self.bin(*op, *w as u32, x, y) { Ok(v) => v.c, Err(s) => { self.cnt.instrs += n; return Err(s); } },
                        };
                        wr!(*d, k(c));
                    } else { let v = self.bin(*op, *w as u32, x, y)?; wr!(*d, v); }
                }
                I::ICmp { p, w, d, a, b } => {
                    let (x, y) = (rd!(*a), rd!(*b));
                    if x.e | y.e == 0 {
                        let c = match p {
                            Pred::Eq => x.c == y.c, Pred::Ne => x.c != y.c, Pred::Ugt => x.c > y.c, Pred::Uge => x.c >= y.c, Pred::Ult => x.c < y.c, Pred::Ule => x.c <= y.c,
                            _ => { let (s, t) = (sext64(x.c, *w as u32), sext64(y.c, *w as u32)); match p { Pred::Sgt => s > t, Pred::Sge => s >= t, Pred::Slt => s < t, _ => s <= t } }
                        };
                        wr!(*d, k(c as u64));
                    } else { let v = self.icmp(*p, *w as u32, x, y); wr!(*d, v); }
                }
                I::Load { d, p, off, bytes, w } => {
                    let a = rd!(*p);
                    let a = if a.e != 0 { self.conc(a, 64)? } else { a.c };
                    match self.load(a.wrapping_add(*off as u64), *bytes as u32, *w as u32) { Ok(v) => wr!(*d, v), Err(s) => { self.cnt.instrs += n; return Err(s); } }
                }
                I::Store { v, p, off, bytes, w } => {
                    let a = rd!(*p);
                    let a = if a.e != 0 { self.conc(a, 64)? } else { a.c };
                    let x = rd!(*v);
                    self.store(a.wrapping_add(*off as u64), x, *bytes as u32, *w as u32)?;
                }
                I::AddC { d, a, k: kk } => {
                    let x = rd!(*a);
                    if x.e == 0 { wr!(*d, k(x.c.wrapping_add(*kk as u64))); } else { let v = self.bin(Bin::Add, 64, x, k(*kk as u64))?; wr!(*d, v); }
                }
                I::MulAdd { d, a, idx, iw, scale, k: kk } => {
                    let (x, i) = (rd!(*a), rd!(*idx));
                    if x.e | i.e == 0 {
                        let s = sext64(i.c, *iw as u32) as u64;
                        wr!(*d, k(x.c.wrapping_add(s.wrapping_mul(*scale)).wrapping_add(*kk as u64)));
                    } else {
                        let s = self.ext(Ext::Sext, *iw as u32, 64, i);
                        let s = self.bin(Bin::Mul, 64, s, k(*scale))?;
                        let s = self.bin(Bin::Add, 64, s, k(*kk as u64))?;
                        let v = self.bin(Bin::Add, 64, x, s)?;
                        wr!(*d, v);
                    }
                }
                I::Sel { d, c, a, b, w } => {
                    let (c, x, y) = (rd!(*c), rd!(*a), rd!(*b));
                    let v = if c.e == 0 { if c.c & 1 != 0 { x } else { y } } else { self.select(c, x, y, *w as u32) };
                    wr!(*d, v);
                }
                I::Ext { k: kd, wf, wt, d, a } => { let x = rd!(*a); let v = self.ext(*kd, *wf as u32, *wt as u32, x); wr!(*d, v); }
                I::Br { e } => pc = self.jump(f, base, *e),
                I::CBr { c, t, f: g } => {
                    let c = rd!(*c);
                    let b = if c.e == 0 { c.c & 1 != 0 } else { self.frames.last_mut().unwrap().pc = pc as u32; self.branch(c)? };
                    pc = self.jump(f, base, if b { *t } else { *g });
                }
                I::Switch { v, w, cases, def } => {
                    let x = rd!(*v);
                    let mut e = *def;
                    if x.e == 0 {
                        for (kk, ce) in cases.iter() { if *kk == x.c { e = *ce; break; } }
                    } else {
                        self.frames.last_mut().unwrap().pc = pc as u32;
                        // group the cases by target, then decide target by target
                        let mut groups: Vec<(Edge, Vec<u64>)> = vec![];
                        for (kk, ce) in cases.iter() {
                            match groups.iter_mut().find(|g| g.0.pc == ce.pc && g.0.cs == ce.cs) { Some(g) => g.1.push(*kk), None => groups.push((*ce, vec![*kk])) }
                        }
                        for (ce, ks) in groups {
                            let mut q = self.ar.bool(false);
                            for kk in &ks { let kx = self.ar.cst(*w as u32, *kk); let t = self.ar.eq(x.e, kx); q = self.ar.bitop(X::Or, q, t); }
                            let c = self.sv(q, ks.contains(&x.c) as u64);
                            if self.branch(c)? { e = ce; break; }
                        }
                    }
                    pc = self.jump(f, base, e);
                }
                I::Ret { a, n: rn } => {
                    let fr = self.frames.pop().unwrap();
                    if self.frames.is_empty() { self.cnt.instrs += n; return Ok(()); }
                    let cb = self.frames.last().unwrap().base as usize;
                    for i in 0..(*rn).min(fr.nd) { let v = rd!(*a + i); self.regs[cb + (fr.d + i) as usize] = v; }
                    self.sp = fr.sp as usize;
                    let top = self.frames.last().unwrap();
                    fi = top.f; base = cb; pc = top.pc as usize;
                    f = &prog.funcs[fi as usize];
                    if let Some(e) = fr.e { pc = self.jump(f, base, e); }
                }
                I::Call { d, nd, f: cal, args, e } => {
                    let target = match cal {
                        Callee::Direct(t) => *t,
                        Callee::Indirect(o) => {
                            let v = rd!(*o);
                            let a = self.conc(v, 64)?;
                            if a >> 32 != OBJ_FUNCS || a & 15 != 0 { self.cnt.instrs += n; return Err(Stop::Fail(format!("memory: call through bad pointer {a:#x}"))); }
                            ((a & 0xffff_ffff) >> 4) as u32 - 1
                        }
                    };
                    match kinds[target as usize] {
                        FK::Normal => {
                            let tf = &prog.funcs[target as usize];
                            self.called[target as usize] = true;
                            let nb = base + f.nregs as usize;
                            let need = nb + tf.nregs as usize + 8;
                            if self.regs.len() < need { self.regs.resize(need * 2, V::default()); }
                            let np = tf.nparams as usize;
                            for (i, a) in args.iter().enumerate().take(np) { let v = rd!(*a); self.regs[nb + i] = v; }
                            for r in &mut self.regs[nb + np.min(args.len())..nb + tf.nregs as usize] { *r = V::default(); }
                            self.frames.last_mut().unwrap().pc = pc as u32;
                            if self.frames.len() > 3000 { self.cnt.instrs += n; return Err(Stop::Fail("hang: call depth exceeded".into())); }
                            self.frames.push(Frame { f: target, pc: 0, base: nb as u32, sp: self.sp as u32, d: *d, nd: *nd, e: *e });
                            fi = target; f = tf; base = nb; pc = 0;
                        }
                        FK::Panic => {
                            self.frames.last_mut().unwrap().pc = pc as u32;
                            self.cnt.instrs += n;
                            let bt: Vec<String> = self.backtrace().into_iter().take(3).map(|s| demangle(&s)).collect();
                            return Err(Stop::Fail(format!("panic: {} in {}", demangle(&prog.funcs[target as usize].name), bt.join(" < "))));
                        }
                        FK::Undef => { self.cnt.instrs += n; return Err(Stop::Unsup(format!("external function {}", prog.funcs[target as usize].name))); }
                        FK::Ext(x) => {
                            let av: Vec<V> = args.iter().map(|a| rd!(*a)).collect();
                            self.frames.last_mut().unwrap().pc = pc as u32;
                            let r = match self.external(x, &av) { Ok(r) => r, Err(s) => { self.cnt.instrs += n; return Err(s); } };
                            if *nd > 0 { wr!(*d, r); }
                            if let Some(e) = e { pc = self.jump(f, base, *e); }
                        }
                    }
                }
                I::Alloca { d, size, n: cnt, align } => {
                    let c = rd!(*cnt);
                    let c = self.conc(c, 64)?;
                    let sz = (*size * c) as usize;
                    let al = *align as usize;
                    let p = (self.sp + al - 1) / al * al;
                    self.sp = p + sz + 8;
                    self.sp_high = self.sp_high.max(self.sp);
                    if self.sp >= STACK_SIZE { self.cnt.instrs += n; return Err(Stop::Fail("hang: stack overflow".into())); }
                    wr!(*d, k(OBJ_STACK << 32 | p as u64));
                }
                I::Intr { id, sub, w, d, args } => {
                    let av: smallarr::Arr = args.iter().map(|a| rd!(*a)).collect();
                    if let Err(s) = self.intrinsic(*id, *sub, *w as u32, base + *d as usize, av.get()) { self.cnt.instrs += n; return Err(s); }
                }
                I::WBin { op, w, d, a, b } => {
                    let l = (*w as u32).div_ceil(64);
                    let x: Vec<V> = (0..l).map(|i| rd!(*a + i)).collect();
                    let y: Vec<V> = (0..l).map(|i| rd!(*b + i)).collect();
                    let mut out = vec![];
                    self.wbin(*op, *w as u32, &x, &y, &mut out)?;
                    for (i, v) in out.into_iter().enumerate() { wr!(*d + i as u32, v); }
                }
                I::WICmp { p, w, d, a, b } => {
                    let w = *w as u32;
                    let l = w.div_ceil(64);
                    let x: Vec<V> = (0..l).map(|i| rd!(*a + i)).collect();
                    let y: Vec<V> = (0..l).map(|i| rd!(*b + i)).collect();
                    // compare limb-wise on concrete values, as one expression on symbolic ones
                    let mut ord = std::cmp::Ordering::Equal;
                    for i in (0..l as usize).rev() { ord = x[i].c.cmp(&y[i].c); if ord.is_ne() { break; } }
                    let tw = w - 64 * (l - 1);
                    let (sx, sy) = (sext64(x[l as usize - 1].c, tw) < 0, sext64(y[l as usize - 1].c, tw) < 0);
                    let sord = if sx != sy { if sx { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater } } else { ord };
                    let c = match p { Pred::Eq => ord.is_eq(), Pred::Ne => ord.is_ne(), Pred::Ugt => ord.is_gt(), Pred::Uge => ord.is_ge(), Pred::Ult => ord.is_lt(), Pred::Ule => ord.is_le(), Pred::Sgt => sord.is_gt(), Pred::Sge => sord.is_ge(), Pred::Slt => sord.is_lt(), Pred::Sle => sord.is_le() } as u64;
                    if x.iter().chain(&y).all(|v| v.e == 0) { wr!(*d, k(c)); }
                    else {
                        let mut g = |s: &mut Self, v: &[V]| { let mut segs = vec![]; for (i, x) in v.iter().enumerate().rev() { let lw = (w - 64 * i as u32).min(64); segs.push(s.ex(*x, lw)); } s.ar.from_segs(&segs) };
                        let ea = g(self, &x); let eb = g(self, &y);
                        let e = self.icmp_e(*p, ea, eb);
                        let v = self.sv(e, c);
                        wr!(*d, v);
                    }
                }
                I::WExt { k: kd, wf, wt, d, a } => {
                    let (wf, wt) = (*wf as u32, *wt as u32);
                    let lf = wf.div_ceil(64);
                    let lt = wt.div_ceil(64);
                    let x: Vec<V> = (0..lf).map(|i| rd!(*a + i)).collect();
                    for i in 0..lt {
                        let lw = (wt - 64 * i).min(64);
                        let v = if *kd == Ext::Trunc || (i + 1) * 64 <= wf {
                            let fw = (wf - 64 * i).min(64);
                            if lw < fw { self.ext(Ext::Trunc, fw, lw, x[i as usize]) } else { x[i as usize] }
                        } else if i < lf {
                            // partially filled source limb
                            let fw = wf - 64 * i;
                            if lw > fw { self.ext(*kd, fw, lw, x[i as usize]) } else { x[i as usize] }
                        } else if *kd == Ext::Zext { k(0) }
                        else {
                            let top = x[lf as usize - 1];
                            let fw = wf - 64 * (lf - 1);
                            let s = self.bin(Bin::LShr, fw, top, k(fw as u64 - 1))?;
                            let s1 = if fw == 1 { s } else { self.ext(Ext::Trunc, fw, 1, s) };
                            if lw == 1 { s1 } else { self.ext(Ext::Sext, 1, lw, s1) }
                        };
                        wr!(*d + i, v);
                    }
                }
                I::FBin { op, dbl, d, a, b } => {
                    let w = if *dbl { 64 } else { 32 };
                    let (x, y) = (rd!(*a), rd!(*b));
                    let (x, y) = (self.conc(x, w)?, self.conc(y, w)?);
                    let c = if *dbl {
                        let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                        (match op { 9 => x + y, 11 => x - y, 13 => x * y, 16 => x / y, _ => x % y }).to_bits()
                    } else {
                        let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                        (match op { 9 => x + y, 11 => x - y, 13 => x * y, 16 => x / y, _ => x % y }).to_bits() as u64
                    };
                    wr!(*d, k(c));
                }
                I::FNeg { dbl, d, a } => { let x = rd!(*a); let w = if *dbl { 64 } else { 32 }; let v = self.bin(Bin::Xor, w, x, k(1 << (w - 1)))?; wr!(*d, v); }
                I::FCmp { p, dbl, d, a, b } => {
                    let w = if *dbl { 64 } else { 32 };
                    let (x, y) = (rd!(*a), rd!(*b));
                    let (x, y) = (self.conc(x, w)?, self.conc(y, w)?);
                    let (x, y) = (Self::fbits(*dbl, x), Self::fbits(*dbl, y));
                    let un = x.is_nan() || y.is_nan();
                    let c = match p { 0 => false, 1 => x == y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y, 6 => !un && x != y, 7 => !un, 8 => un, 9 => un || x == y, 10 => un || x > y, 11 => un || x >= y, 12 => un || x < y, 13 => un || x <= y, 14 => un || x != y, _ => true };
                    wr!(*d, k(c as u64));
                }
                I::FConv { k: kd, wf, wt, d, a } => {
                    let (wf, wt) = (*wf as u32, *wt as u32);
                    let x = rd!(*a);
                    let x = self.conc(x, wf)?;
                    let c = match kd {
                        FConv::FpTrunc => (f64::from_bits(x) as f32).to_bits() as u64,
                        FConv::FpExt => (f32::from_bits(x as u32) as f64).to_bits(),
                        FConv::UiToFp => if wt == 64 { (x as f64).to_bits() } else { (x as f32).to_bits() as u64 },
                        FConv::SiToFp => { let s = sext64(x, wf); if wt == 64 { (s as f64).to_bits() } else { (s as f32).to_bits() as u64 } }
                        FConv::FpToUi => Self::fbits(wf == 64, x) as u64 & mask(wt),
                        FConv::FpToSi => Self::fbits(wf == 64, x) as i64 as u64 & mask(wt),
                    };
                    wr!(*d, k(c));
                }
                I::Bitcast { d, dw, a, sw } => {
                    let src: Vec<V> = (0..sw.len() as u32).map(|i| rd!(*a + i)).collect();
                    if dw.len() == sw.len() { for (i, v) in src.into_iter().enumerate() { wr!(*d + i as u32, v); } }
                    else { let out = self.bitcast(&src, sw, dw); for (i, v) in out.into_iter().enumerate() { wr!(*d + i as u32, v); } }
                }
                I::ExtElt { d, a, n: cnt, stride, idx, iw } => {
                    let i = rd!(*idx);
                    let i = self.conc(i, *iw as u32)?;
                    for s in 0..*stride { let v = if i < *cnt as u64 { rd!(*a + i as u32 * *stride + s) } else { k(0) }; wr!(*d + s, v); }
                }
                I::InsElt { d, a, n: cnt, stride, v, idx, iw } => {
                    let i = rd!(*idx);
                    let i = self.conc(i, *iw as u32)? as u32;
                    for j in 0..*cnt * *stride { let x = if j / *stride == i { rd!(*v + j % *stride) } else { rd!(*a + j) }; wr!(*d + j, x); }
                }
                I::Rmw { op, w, bytes, d, p, v } => {
                    let (w, by) = (*w as u32, *bytes as u32);
                    let (a, x) = (rd!(*p), rd!(*v));
                    let a = self.conc(a, 64)?;
                    let old = self.load(a, by, w)?;
                    let new = match op {
                        0 => x, 1 => self.bin(Bin::Add, w, old, x)?, 2 => self.bin(Bin::Sub, w, old, x)?, 3 => self.bin(Bin::And, w, old, x)?,
                        4 => { let t = self.bin(Bin::And, w, old, x)?; self.bin(Bin::Xor, w, t, k(mask(w)))? }
                        5 => self.bin(Bin::Or, w, old, x)?, 6 => self.bin(Bin::Xor, w, old, x)?,
                        7..=10 => { let pr = match op { 7 => Pred::Sgt, 8 => Pred::Slt, 9 => Pred::Ugt, _ => Pred::Ult }; let c = self.icmp(pr, w, old, x); self.select(c, old, x, w) }
                        _ => return Err(Stop::Unsup(format!("atomicrmw {op}"))),
                    };
                    self.store(a, new, by, w)?;
                    wr!(*d, old);
                }
                I::CmpX { w, bytes, d, p, c, v } => {
                    let (w, by) = (*w as u32, *bytes as u32);
                    let (a, cv, x) = (rd!(*p), rd!(*c), rd!(*v));
                    let a = self.conc(a, 64)?;
                    let old = self.load(a, by, w)?;
                    let eq = self.icmp(Pred::Eq, w, old, cv);
                    let b = self.branch(eq)?;
                    if b { self.store(a, x, by, w)?; }
                    wr!(*d, old); wr!(*d + 1, k(b as u64));
                }
                I::Unreach => { self.cnt.instrs += n; return Err(Stop::Fail(format!("memory: unreachable code executed in {}", demangle(&f.name)))); }
                I::Unsup(m) => { self.cnt.instrs += n; return Err(Stop::Unsup(format!("{m} in {}", demangle(&f.name)))); }
            }
        }
    }

    fn bitcast(&mut self, src: &[V], sw: &[u8], dw: &[u8]) -> Vec<V> {
        // little-endian: slot 0 holds the least significant bits
        let mut out = Vec::with_capacity(dw.len());
        let tot: u32 = sw.iter().map(|&x| x as u32).sum();
        let mut starts = vec![]; let mut p = 0u32;
        for &w in sw { starts.push(p); p += w as u32; }
        let mut lo = 0u32;
        for &w in dw {
            let w = w as u32;
            let hi = (lo + w).min(tot);
            let mut c = 0u64;
            let mut sym = false;
            for (i, &s) in starts.iter().enumerate() {
                let (l, h) = (lo.max(s), hi.min(s + sw[i] as u32));
                if l < h { c |= (src[i].c >> (l - s) & mask(h - l)) << (l - lo); sym |= src[i].e != 0; }
            }
            if !sym { out.push(k(c)); } else {
                let mut segs = vec![];
                for (i, &s) in starts.iter().enumerate().rev() {
                    let (l, h) = (lo.max(s), hi.min(s + sw[i] as u32));
                    if l < h { let e = self.ex(src[i], sw[i] as u32); segs.push(self.ar.extract(e, l - s, h - l)); }
                }
                let e = self.ar.from_segs(&segs);
                let v = self.sv(e, c);
                out.push(v);
            }
            lo += w;
        }
        out
    }

    fn external(&mut self, x: Ext_, a: &[V]) -> R<V> {
        use Ext_::*;
        macro_rules! c { ($i:expr) => {{ let v = a[$i]; self.conc(v, 64)? }} }
        Ok(match x {
            Malloc => k({ let n = c!(0); self.malloc(n)? }),
            Calloc => { let (m, n) = (c!(0), c!(1)); k(self.malloc(m.checked_mul(n).unwrap_or(!0))?) }
            AlignedAlloc => { let n = c!(1); k(self.malloc(n)?) }
            PosixMemalign => { let (p, n) = (c!(0), c!(2)); let q = self.malloc(n)?; self.store(p, k(q), 8, 64)?; k(0) }
            Realloc => {
                let (p, n) = (c!(0), c!(1));
                let q = self.malloc(n)?;
                if p != 0 {
                    let o = (p >> 32) as usize;
                    if o >= self.objs.len() || self.objs[o].state != 0 || o < OBJ_HEAP0 as usize { return Err(Stop::Fail("memory: bad realloc".into())); }
                    let old = self.objs[o].data.len() as u64;
                    self.copy(q, p, old.min(n))?;
                    self.free(p)?;
                }
                k(q)
            }
            Free => { let p = c!(0); self.free(p)?; k(0) }
            Memcpy => { let (d, s, n) = (c!(0), c!(1), c!(2)); self.copy(d, s, n)?; k(d) }
            Memset => { let (d, n) = (c!(0), c!(2)); let v = self.ext(Ext::Trunc, 32, 8, a[1]); self.fill(d, v, n)?; k(d) }
            Memcmp | Bcmp => {
                let (p, q, n) = (c!(0), c!(1), c!(2));
                let is_bcmp = x == Bcmp;
                let mut r = k(0);
                for i in (0..n).rev() {
                    let (x, y) = (self.load(p + i, 1, 8)?, self.load(q + i, 1, 8)?);
                    if x.e | y.e == 0 && x.c == y.c { continue; }
                    let eq = self.icmp(Pred::Eq, 8, x, y);
                    let d = if is_bcmp { k(1) } else { let zx = self.ext(Ext::Zext, 8, 32, x); let zy = self.ext(Ext::Zext, 8, 32, y); self.bin(Bin::Sub, 32, zx, zy)? };
                    r = self.select(eq, r, d, 32);
                }
                r
            }
            Strlen => { let p = c!(0); let mut n = 0; loop { let v = self.load(p + n, 1, 8)?; let z = self.icmp(Pred::Eq, 8, v, k(0)); if self.branch(z)? { break; } n += 1; } k(n) }
            Memchr => {
                let (p, n) = (c!(0), c!(2));
                let ch = self.ext(Ext::Trunc, 32, 8, a[1]);
                for i in 0..n { let v = self.load(p + i, 1, 8)?; let z = self.icmp(Pred::Eq, 8, v, ch); if self.branch(z)? { return Ok(k(p + i)); } }
                k(0)
            }
            Syscall => {
                match c!(0) {
                    318 => { let (p, n) = (c!(1), c!(2)); self.fill_random(p, n)?; k(n) } // getrandom
                    202 => k(0), // futex
                    186 => k(1), // gettid
                    n => return Err(Stop::Unsup(format!("system call {n}"))),
                }
            }
            Getrandom => { let (p, n) = (c!(0), c!(1)); self.fill_random(p, n)?; k(n) }
            VSetRand => { self.rand = c!(0); k(0) }
            ClockGettime => {
                let p = c!(1);
                self.clock += 1;
                self.store(p, k(1000 + self.clock), 8, 64)?; self.store(p + 8, k(0), 8, 64)?;
                k(0)
            }
            Zero | AtExit => k(0),
            Neg1 => k(!0),
            Errno => k({ // a scratch word at the bottom of the stack object
                OBJ_STACK << 32 | 16 }),
            Write => { let n = if a.len() > 2 { c!(2) } else { 0 }; k(n) }
            Abort => return Err(Stop::Fail("panic: abort".into())),
            VSym => {
                let (np, nl, w, lo, hi) = (c!(0), c!(1), c!(2) as u32, c!(3), c!(4));
                let i = self.nvars; self.nvars += 1;
                let nm = self.cstr(np, nl);
                self.var_names.push(nm);
                if self.model.len() <= i as usize { self.model.resize(i as usize + 1, 0); }
                let m = &mut self.model[i as usize];
                if *m < lo || *m > hi { *m = lo; }
                let c = *m;
                if lo == hi { return Ok(k(lo)); }
                if i as usize >= 64 * crate::expr::VW { return Err(Stop::Unsup("too many symbolic variables".into())); }
                let e = self.ar.var(i, w, lo, hi);
                let e = self.ar.zext(e, 64);
                self.sv(e, c)
            }
            VAssume => { self.assume(a[0])?; k(0) }
            VAssert => { let (p, n) = (c!(1), c!(2)); let m = self.cstr(p, n); self.assert(a[0], &m)?; k(0) }
            VReach => { let (p, n) = (c!(0), c!(1)); let m = self.cstr(p, n); if self.ev >= self.item_depth || true { *self.reached.entry(m).or_default() += 1; } k(0) }
            VParam => { let i = c!(0) as usize; k(self.params.get(i).copied().unwrap_or(0)) }
            VObs => { self.obs.push(a[0].c); k(0) }
            VConc => k(self.conc(a[0], 64)?),
            VKnown => { let (p, n) = (c!(0), c!(1)); let m = self.cstr(p, n); self.known = if m.is_empty() { None } else { Some(m) }; k(0) }
            VNote => { let (p, n) = (c!(0), c!(1)); let m = self.cstr(p, n); self.notes.push(m); k(0) }
            VForget => k(0),
        })
    }
    fn fill_random(&mut self, p: u64, n: u64) -> R<()> {
        for i in 0..n {
            self.rand = self.rand.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            self.store(p + i, k(self.rand >> 56), 1, 8)?;
        }
        Ok(())
    }
}

mod smallarr {
    use super::V;
    pub struct Arr { a: [V; 4], n: usize, v: Vec<V> }
    impl Arr { #[inline] pub fn get(&self) -> &[V] { if self.v.is_empty() { &self.a[..self.n] } else { &self.v } } }
    impl FromIterator<V> for Arr {
        #[inline]
        fn from_iter<T: IntoIterator<Item = V>>(it: T) -> Self {
            let mut r = Arr { a: [V::default(); 4], n: 0, v: vec![] };
            for x in it {
                if r.v.is_empty() && r.n < 4 { r.a[r.n] = x; r.n += 1; }
                else { if r.v.is_empty() { r.v.extend_from_slice(&r.a); } r.v.push(x); }
            }
            r
        }
    }
}

/// A rough demangler for v0 symbols: the identifiers in order.
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") && !s.starts_with("_ZN") { return s.to_string(); }
    let b = s.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' || b[i] == b'B' { // disambiguator / back reference
            let mut j = i + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric()) && b[j] != b'_' { j += 1; }
            if j < b.len() && b[j] == b'_' { i = j + 1; continue; }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut n = 0usize; let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { n = n * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if n > 0 && j + n <= b.len() { out.push(String::from_utf8_lossy(&b[j..j + n]).into_owned()); i = j + n; continue; }
        }
        i += 1;
    }
    out.join("::")
}
