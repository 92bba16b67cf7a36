//! Z3 back end: constraint slicing, query cache, models.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
unsafe extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, v: P) -> c_int;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_c: P, _e: c_int) {}

pub fn z3_version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub cache_hits: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub nanos: u64, pub trivial: u64 }

pub enum Ans { Sat(Vec<(u32, u64)>), Unsat, Unknown }

pub struct Solver {
    ctx: P,
    s: P,
    bv: FxMap<E, P>,
    bl: FxMap<E, P>,
    cache: HashMap<Box<[u32]>, Option<Box<[(u32, u64)]>>>,
    pub stats: Stats,
    timeout_ms: u32,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let (k, v) = (CString::new("auto_config").unwrap(), CString::new("false").unwrap());
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let s = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let n = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, n.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            Solver { ctx, s, bv: Default::default(), bl: Default::default(), cache: Default::default(), stats: Default::default(), timeout_ms }
        }
    }
    /// Forget everything tied to expression ids.
    pub fn reset(&mut self) {
        let st = self.stats.clone();
        unsafe { Z3_del_context(self.ctx) };
        *self = Solver::new(self.timeout_ms);
        self.stats = st;
    }
    pub fn cache_len(&self) -> usize { self.cache.len() }

    unsafe fn to_bool(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.bl.get(&e) { return p; }
        let n = ar.n(e);
        let c = self.ctx;
        debug_assert_eq!(n.w, 1);
        let r = unsafe {
            match n.op {
                Op::Const => if n.k != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Var => { let s = self.name(&n); Z3_mk_const(c, s, Z3_mk_bool_sort(c)) }
                Op::Not => { let a = self.to_bool(ar, n.a); Z3_mk_not(c, a) }
                Op::And | Op::Or | Op::Xor => {
                    let a = self.to_bool(ar, n.a); let b = self.to_bool(ar, n.b);
                    match n.op { Op::And => Z3_mk_and(c, 2, [a, b].as_ptr()), Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()), _ => Z3_mk_xor(c, a, b) }
                }
                Op::Ite => { let a = self.to_bool(ar, n.a); let b = self.to_bool(ar, n.b); let d = self.to_bool(ar, n.c); Z3_mk_ite(c, a, b, d) }
                Op::Eq => {
                    let a = self.to_bv(ar, n.a); let b = self.to_bv(ar, n.b); Z3_mk_eq(c, a, b)
                }
                Op::Ult => { let a = self.to_bv(ar, n.a); let b = self.to_bv(ar, n.b); Z3_mk_bvult(c, a, b) }
                Op::Slt => { let a = self.to_bv(ar, n.a); let b = self.to_bv(ar, n.b); Z3_mk_bvslt(c, a, b) }
                _ => {
                    let v = self.to_bv(ar, e);
                    Z3_mk_eq(c, v, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
                }
            }
        };
        self.bl.insert(e, r);
        r
    }
    unsafe fn name(&mut self, n: &Node) -> P {
        let s = CString::new(format!("v{}_{}_{}", n.k & 0xffff_ffff, n.w, n.c)).unwrap();
        unsafe { Z3_mk_string_symbol(self.ctx, s.as_ptr()) }
    }
    unsafe fn to_bv(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) { return p; }
        let n = ar.n(e);
        let c = self.ctx;
        let w = n.w as u32;
        let r = unsafe {
            if w == 1 && !matches!(n.op, Op::Extract | Op::Add | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Shl | Op::LShr | Op::AShr) {
                let b = self.to_bool(ar, e);
                let so = Z3_mk_bv_sort(c, 1);
                Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, so), Z3_mk_unsigned_int64(c, 0, so))
            } else {
                macro_rules! b2 { ($f:ident) => {{ let a = self.to_bv(ar, n.a); let b = self.to_bv(ar, n.b); $f(c, a, b) }} }
                match n.op {
                    Op::Const => Z3_mk_unsigned_int64(c, n.k, Z3_mk_bv_sort(c, w)),
                    Op::Var => { let s = self.name(&n); Z3_mk_const(c, s, Z3_mk_bv_sort(c, w)) }
                    Op::Add => b2!(Z3_mk_bvadd), Op::Mul => b2!(Z3_mk_bvmul),
                    Op::UDiv => b2!(Z3_mk_bvudiv), Op::SDiv => b2!(Z3_mk_bvsdiv), Op::URem => b2!(Z3_mk_bvurem), Op::SRem => b2!(Z3_mk_bvsrem),
                    Op::And => b2!(Z3_mk_bvand), Op::Or => b2!(Z3_mk_bvor), Op::Xor => b2!(Z3_mk_bvxor),
                    Op::Shl => b2!(Z3_mk_bvshl), Op::LShr => b2!(Z3_mk_bvlshr), Op::AShr => b2!(Z3_mk_bvashr),
                    Op::Concat => b2!(Z3_mk_concat),
                    Op::Ite => { let a = self.to_bool(ar, n.a); let b = self.to_bv(ar, n.b); let d = self.to_bv(ar, n.c); Z3_mk_ite(c, a, b, d) }
                    Op::SExt => { let a = self.to_bv(ar, n.a); Z3_mk_sign_ext(c, w - ar.w(n.a), a) }
                    Op::Extract => { let a = self.to_bv(ar, n.a); Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a) }
                    Op::Not | Op::Eq | Op::Ult | Op::Slt => unreachable!(),
                }
            }
        };
        self.bv.insert(e, r);
        r
    }

    /// Is `pc ∧ q` satisfiable? `pc` is the path condition, assumed satisfiable itself; the model
    /// returned covers the variables of the relevant slice only.
    pub fn check(&mut self, ar: &Arena, pc: &[E], q: E) -> Ans {
        if let Some(k) = ar.as_const(q) {
            self.stats.trivial += 1;
            return if k == 0 { Ans::Unsat } else { Ans::Sat(vec![]) };
        }
        // slice
        let mut vs = ar.vars[q as usize];
        let mut sel: Vec<E> = vec![];
        let mut used = vec![false; pc.len()];
        loop {
            let mut changed = false;
            for (i, &p) in pc.iter().enumerate() {
                if !used[i] && vs_intersects(&ar.vars[p as usize], &vs) {
                    used[i] = true; changed = true;
                    let o = ar.vars[p as usize]; vs_or(&mut vs, &o);
                    sel.push(p);
                }
            }
            if !changed { break; }
        }
        sel.sort_unstable(); sel.dedup();
        sel.push(q);
        let key: Box<[u32]> = sel.clone().into();
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return match r { Some(m) => Ans::Sat(m.to_vec()), None => Ans::Unsat };
        }
        let t = Instant::now();
        self.stats.queries += 1;
        let r = unsafe {
            let c = self.ctx;
            Z3_solver_push(c, self.s);
            for &e in &sel { let b = self.to_bool(ar, e); Z3_solver_assert(c, self.s, b); }
            // variable domains
            let mut vlist = vec![];
            let mut seen: FxMap<E, ()> = Default::default();
            for &e in &sel { collect_vars(ar, e, &mut seen, &mut vlist); }
            for &v in &vlist {
                let (lo, hi) = ar.range[v as usize];
                let w = ar.w(v);
                if w == 1 { continue; }
                let so = Z3_mk_bv_sort(c, w);
                let x = self.to_bv(ar, v);
                if lo > 0 { let b = Z3_mk_bvult(c, x, Z3_mk_unsigned_int64(c, lo, so)); Z3_solver_assert(c, self.s, Z3_mk_not(c, b)); }
                if hi < mask(w) { let b = Z3_mk_bvult(c, Z3_mk_unsigned_int64(c, hi, so), x); Z3_solver_assert(c, self.s, Z3_mk_not(c, b)); }
            }
            let res = Z3_solver_check(c, self.s);
            let err = Z3_get_error_code(c);
            let r = if err != 0 { Ans::Unknown } else {
                match res {
                    1 => {
                        let m = Z3_solver_get_model(c, self.s);
                        Z3_model_inc_ref(c, m);
                        let mut out = vec![];
                        for &v in &vlist {
                            let idx = ar.n(v).k as u32;
                            let mut o: P = std::ptr::null_mut();
                            if ar.w(v) == 1 {
                                let x = self.to_bool(ar, v);
                                Z3_model_eval(c, m, x, true, &mut o);
                                out.push((idx, (Z3_get_bool_value(c, o) == 1) as u64));
                            } else {
                                let x = self.to_bv(ar, v);
                                let mut u = 0u64;
                                Z3_model_eval(c, m, x, true, &mut o);
                                Z3_get_numeral_uint64(c, o, &mut u);
                                out.push((idx, u));
                            }
                        }
                        Z3_model_dec_ref(c, m);
                        Ans::Sat(out)
                    }
                    -1 => Ans::Unsat,
                    _ => Ans::Unknown,
                }
            };
            Z3_solver_pop(c, self.s, 1);
            r
        };
        self.stats.nanos += t.elapsed().as_nanos() as u64;
        match &r {
            Ans::Sat(m) => { self.stats.sat += 1; self.cache.insert(key, Some(m.clone().into())); }
            Ans::Unsat => { self.stats.unsat += 1; self.cache.insert(key, None); }
            Ans::Unknown => self.stats.unknown += 1,
        }
        r
    }
}

fn collect_vars(ar: &Arena, e: E, seen: &mut FxMap<E, ()>, out: &mut Vec<E>) {
    if e == 0 || ar.vars[e as usize] == [0; VW] || seen.insert(e, ()).is_some() { return; }
    let n = ar.n(e);
    if n.op == Op::Var { out.push(e); return; }
    collect_vars(ar, n.a, seen, out);
    collect_vars(ar, n.b, seen, out);
    collect_vars(ar, n.c, seen, out);
}

/// Evaluates an expression under an assignment (width ≤ 64 only); used to double-check models.
pub fn eval(ar: &Arena, e: E, m: &dyn Fn(u32) -> u64, memo: &mut FxMap<E, u128>) -> u128 {
    if let Some(&v) = memo.get(&e) { return v; }
    let n = ar.n(e);
    let w = n.w as u32;
    let mk = |v: u128| if w >= 128 { v } else { v & ((1u128 << w) - 1) };
    let mut f = |x: E| eval(ar, x, m, memo);
    let sx = |v: u128, w: u32| if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) };
    let r = match n.op {
        Op::Const => n.k as u128,
        Op::Var => m(n.k as u32) as u128,
        Op::Add => f(n.a).wrapping_add(f(n.b)),
        Op::Mul => f(n.a).wrapping_mul(f(n.b)),
        Op::UDiv => { let (a, b) = (f(n.a), f(n.b)); if b == 0 { !0 } else { a / b } }
        Op::URem => { let (a, b) = (f(n.a), f(n.b)); if b == 0 { a } else { a % b } }
        Op::SDiv => { let (a, b) = (sx(f(n.a), w), sx(f(n.b), w)); if b == 0 { if a < 0 { 1 } else { !0 } } else { a.wrapping_div(b) as u128 } }
        Op::SRem => { let (a, b) = (sx(f(n.a), w), sx(f(n.b), w)); if b == 0 { a as u128 } else { a.wrapping_rem(b) as u128 } }
        Op::And => f(n.a) & f(n.b),
        Op::Or => f(n.a) | f(n.b),
        Op::Xor => f(n.a) ^ f(n.b),
        Op::Shl => { let (a, b) = (f(n.a), f(n.b)); if b >= w as u128 { 0 } else { a << b } }
        Op::LShr => { let (a, b) = (f(n.a), f(n.b)); if b >= w as u128 { 0 } else { a >> b } }
        Op::AShr => { let (a, b) = (sx(f(n.a), w), f(n.b)); (if b >= w as u128 { a >> 127 } else { a >> b }) as u128 }
        Op::Not => !f(n.a),
        Op::Eq => (f(n.a) == f(n.b)) as u128,
        Op::Ult => (f(n.a) < f(n.b)) as u128,
        Op::Slt => { let aw = ar.w(n.a); (sx(f(n.a), aw) < sx(f(n.b), aw)) as u128 }
        Op::Ite => if f(n.a) != 0 { f(n.b) } else { f(n.c) },
        Op::SExt => { let aw = ar.w(n.a); sx(f(n.a), aw) as u128 }
        Op::Extract => f(n.a) >> n.k,
        Op::Concat => { let bw = ar.w(n.b); (f(n.a) << bw) | f(n.b) }
    };
    let r = mk(r);
    memo.insert(e, r);
    r
}
