//! Hash-consed bit-vector expressions with a light simplifier.
//!
//! Width 1 is boolean. `Concat` is kept flat (first operand is never a `Concat`), zero extension
//! is a `Concat` with a zero constant, constant shifts are `Concat`/`Extract`.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Not, Eq, Ult, Slt, Ite, SExt, Extract, Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E, pub k: u64 }

#[derive(Default)]
pub struct FxH(u64);
impl Hasher for FxH {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_u16(&mut self, v: u16) { self.write_u64(v as u64) }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
    fn write_u64(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95); }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<FxH>>;

pub const VW: usize = 4;
pub type VarSet = [u64; VW];
pub fn vs_intersects(a: &VarSet, b: &VarSet) -> bool { (0..VW).any(|i| a[i] & b[i] != 0) }
pub fn vs_or(a: &mut VarSet, b: &VarSet) { for i in 0..VW { a[i] |= b[i] } }

pub struct Arena {
    pub nodes: Vec<Node>,
    pub vars: Vec<VarSet>,
    pub range: Vec<(u64, u64)>,
    map: FxMap<Node, E>,
}

pub fn mask(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
pub fn sext64(v: u64, w: u32) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { nodes: vec![], vars: vec![], range: vec![], map: Default::default() };
        // id 0 is reserved ("concrete")
        a.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        a.vars.push([0; VW]);
        a.range.push((0, 0));
        a
    }
    #[inline] pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w as u32 }
    #[inline] pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    pub fn as_const(&self, e: E) -> Option<u64> { let n = &self.nodes[e as usize]; if n.op == Op::Const { Some(n.k) } else { None } }
    pub fn lo(&self, e: E) -> u64 { self.range[e as usize].0 }
    pub fn hi(&self, e: E) -> u64 { self.range[e as usize].1 }

    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.nodes.len() as E;
        let mut vs = [0; VW];
        if n.op != Op::Var {
            for x in [n.a, n.b, n.c] { if x != 0 { let o = self.vars[x as usize]; vs_or(&mut vs, &o); } }
        }
        let w = n.w as u32;
        let full = (0, mask(w.min(64)));
        let r = |s: &Self, x: E| s.range[x as usize];
        let range = match n.op {
            Op::Const => (n.k, n.k),
            _ if w > 64 => (0, !0),
            Op::Ite => { let (x, y) = (r(self, n.b), r(self, n.c)); (x.0.min(y.0), x.1.max(y.1)) }
            Op::Add => {
                let (x, y) = (r(self, n.a), r(self, n.b));
                match x.1.checked_add(y.1) { Some(h) if h <= mask(w) => (x.0 + y.0, h), _ => full }
            }
            Op::Mul => {
                let (x, y) = (r(self, n.a), r(self, n.b));
                match x.1.checked_mul(y.1) { Some(h) if h <= mask(w) => (x.0 * y.0, h), _ => full }
            }
            Op::And => { let (x, y) = (r(self, n.a), r(self, n.b)); (0, x.1.min(y.1)) }
            Op::URem => { let y = r(self, n.b); if y.0 > 0 { (0, y.1 - 1) } else { full } }
            Op::UDiv => { let (x, y) = (r(self, n.a), r(self, n.b)); if y.0 > 0 { (x.0 / y.1, x.1 / y.0) } else { full } }
            Op::Extract => { let x = r(self, n.a); if self.w(n.a) <= 64 && n.k == 0 && x.1 <= mask(w) { x } else { full } }
            Op::Concat => {
                let lw = self.w(n.b);
                let (x, y) = (r(self, n.a), r(self, n.b));
                if lw >= 64 { full } else { ((x.0 << lw) | y.0, (x.1 << lw) | y.1) }
            }
            _ => full,
        };
        self.nodes.push(n);
        self.vars.push(vs);
        self.range.push(range);
        self.map.insert(n, e);
        e
    }
    fn nd(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u64) -> E { self.intern(Node { op, w: w as u16, a, b, c, k }) }

    pub fn cst(&mut self, w: u32, v: u64) -> E {
        debug_assert!(w >= 1);
        if w > 64 {
            // wide constants: zero-extended
            let lo = self.cst(64, v);
            let mut rest = w - 64;
            let mut acc = lo;
            while rest > 0 { let p = rest.min(64); let z = self.nd(Op::Const, p, 0, 0, 0, 0); acc = self.raw_concat(z, acc); rest -= p; }
            return acc;
        }
        self.nd(Op::Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn bool(&mut self, b: bool) -> E { self.cst(1, b as u64) }
    pub fn var(&mut self, idx: u32, w: u32, lo: u64, hi: u64) -> E {
        let n = Node { op: Op::Var, w: w as u16, a: 0, b: 0, c: 0, k: idx as u64 | (w as u64) << 32 };
        // the range is part of the identity: two paths may create different variables at one index
        let key = Node { c: self.range_tag(lo, hi), ..n };
        if let Some(&e) = self.map.get(&key) { return e; }
        let e = self.nodes.len() as E;
        let mut vs = [0; VW];
        assert!((idx as usize) < 64 * VW, "too many symbolic variables");
        vs[idx as usize / 64] |= 1 << (idx % 64);
        self.nodes.push(key);
        self.vars.push(vs);
        self.range.push((lo, hi));
        self.map.insert(key, e);
        e
    }
    fn range_tag(&mut self, lo: u64, hi: u64) -> u32 {
        // interned pair of constants, used only to distinguish variables
        let a = self.cst(64, lo); let b = self.cst(64, hi);
        self.nd(Op::Const, 0, a, b, 1, 0)
    }

    fn raw_concat(&mut self, hi: E, lo: E) -> E { let w = self.w(hi) + self.w(lo); self.nd(Op::Concat, w, hi, lo, 0, 0) }

    /// Segments from most to least significant.
    pub fn segs(&self, e: E, out: &mut Vec<E>) {
        let mut e = e;
        loop {
            let n = &self.nodes[e as usize];
            if n.op == Op::Concat { out.push(n.a); e = n.b; } else { out.push(e); return; }
        }
    }
    pub fn from_segs(&mut self, segs: &[E]) -> E {
        // merge neighbours, then nest to the right
        let mut m: Vec<E> = Vec::with_capacity(segs.len());
        let mut flat = Vec::with_capacity(segs.len());
        for &s in segs { self.segs(s, &mut flat); }
        for &s in &flat {
            if let Some(&p) = m.last() {
                let (pn, sn) = (self.n(p), self.n(s));
                let tw = pn.w as u32 + sn.w as u32;
                if pn.op == Op::Const && sn.op == Op::Const && tw <= 64 {
                    let k = pn.k << sn.w | sn.k;
                    *m.last_mut().unwrap() = self.cst(tw, k);
                    continue;
                }
                let (pb, plo) = if pn.op == Op::Extract { (pn.a, pn.k as u32) } else { (p, 0) };
                let (sb, slo) = if sn.op == Op::Extract { (sn.a, sn.k as u32) } else { (s, 0) };
                if pb == sb && plo == slo + sn.w as u32 && pn.op == Op::Extract && (sn.op == Op::Extract) {
                    *m.last_mut().unwrap() = self.extract(pb, slo, tw);
                    continue;
                }
            }
            m.push(s);
        }
        let mut acc = *m.last().unwrap();
        for &s in m[..m.len() - 1].iter().rev() { acc = self.raw_concat(s, acc); }
        acc
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E { self.from_segs(&[hi, lo]) }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        let mut rest = w - aw;
        let mut v = vec![];
        while rest > 0 { let p = rest.min(64); v.push(self.nd(Op::Const, p, 0, 0, 0, 0)); rest -= p; }
        v.push(a);
        self.from_segs(&v)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if w <= 64 { if let Some(k) = self.as_const(a) { return self.cst(w, sext64(k, aw) as u64); } }
        if aw <= 64 && self.hi(a) < 1u64 << (aw - 1) { return self.zext(a, w); }
        self.nd(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n(a);
        if lo == 0 && w == n.w as u32 { return a; }
        match n.op {
            Op::Const => self.cst(w, n.k >> lo),
            Op::Extract => self.extract(n.a, n.k as u32 + lo, w),
            Op::Concat => {
                let mut s = vec![]; self.segs(a, &mut s);
                let mut out = vec![];
                let mut top = n.w as u32;
                for x in s {
                    let xw = self.w(x);
                    let bot = top - xw;
                    let l = lo.max(bot); let h = (lo + w).min(top);
                    if l < h { out.push(self.extract(x, l - bot, h - l)); }
                    top = bot;
                }
                self.from_segs(&out)
            }
            Op::Ite if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() => {
                let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w);
                self.ite(n.a, x, y)
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w);
                self.bitop(n.op, x, y)
            }
            Op::Add | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w);
                if n.op == Op::Add { self.add(x, y) } else { self.mul(x, y) }
            }
            Op::SExt if lo + w <= self.w(n.a) => self.extract(n.a, lo, w),
            _ => {
                if n.w <= 64 && lo < 64 && self.hi(a) >> lo == 0 { return self.cst(w, 0); }
                self.nd(Op::Extract, w, a, 0, 0, lo as u64)
            }
        }
    }

    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        if n.w != 1 { let ones = self.ones(n.w as u32); return self.bitop(Op::Xor, a, ones); }
        match n.op {
            Op::Const => self.cst(1, n.k ^ 1),
            Op::Not => n.a,
            _ => self.nd(Op::Not, 1, a, 0, 0, 0),
        }
    }
    fn ones(&mut self, w: u32) -> E {
        if w <= 64 { self.cst(w, !0) } else { let lo = self.cst(64, !0); let hi = self.ones(w - 64); self.concat(hi, lo) }
    }

    pub fn bitop(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        if a == b { return if op == Op::Xor { self.cst(w, 0) } else { a }; }
        let (na, nb) = (self.n(a), self.n(b));
        if w <= 64 {
            if na.op == Op::Const && nb.op == Op::Const {
                let v = match op { Op::And => na.k & nb.k, Op::Or => na.k | nb.k, _ => na.k ^ nb.k };
                return self.cst(w, v);
            }
            let (k, x) = if na.op == Op::Const { (Some(na.k), b) } else if nb.op == Op::Const { (Some(nb.k), a) } else { (None, 0) };
            if let Some(k) = k {
                match (op, k) {
                    (Op::And, 0) => return self.cst(w, 0),
                    (Op::And, _) if k == mask(w) => return x,
                    (Op::Or, 0) | (Op::Xor, 0) => return x,
                    (Op::Or, _) if k == mask(w) => return self.cst(w, k),
                    _ => {}
                }
                if w == 1 { return self.not(x); } // xor 1
                if op == Op::Xor && k == mask(w) && false { return x; }
                // split by runs of the mask so that zero/one runs disappear
                if op != Op::Xor || true {
                    let runs = runs(k, w);
                    if runs.len() > 1 && runs.len() <= 4 && op != Op::Xor {
                        let mut out = vec![];
                        for (lo, rw, bit) in runs {
                            let p = match (op, bit) {
                                (Op::And, true) | (Op::Or, false) => self.extract(x, lo, rw),
                                (Op::And, false) => self.cst(rw, 0),
                                _ => self.cst(rw, !0),
                            };
                            out.push(p);
                        }
                        return self.from_segs(&out);
                    }
                }
            }
        }
        if w == 1 {
            if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a {
                return match op { Op::And => self.cst(1, 0), _ => self.cst(1, 1) };
            }
            if op == Op::Xor {
                if na.op == Op::Not { let x = self.bitop(Op::Xor, na.a, b); return self.not(x); }
                if nb.op == Op::Not { let x = self.bitop(Op::Xor, a, nb.a); return self.not(x); }
            }
            return self.nd(op, 1, a, b, 0, 0);
        }
        if na.op == Op::Concat || nb.op == Op::Concat {
            if let Some(parts) = self.align(a, b) {
                // only worth it when something folds
                let useful = parts.iter().any(|&(x, y)| self.as_const(x).is_some() || self.as_const(y).is_some());
                if useful {
                    let out: Vec<E> = parts.into_iter().map(|(x, y)| self.bitop(op, x, y)).collect();
                    return self.from_segs(&out);
                }
            }
        }
        self.nd(op, w, a, b, 0, 0)
    }

    /// Splits two equally wide expressions at the union of their segment borders.
    fn align(&mut self, a: E, b: E) -> Option<Vec<(E, E)>> {
        let (mut sa, mut sb) = (vec![], vec![]);
        self.segs(a, &mut sa); self.segs(b, &mut sb);
        if sa.len() + sb.len() <= 2 { return None; }
        let cuts = |s: &Self, v: &[E]| { let mut c = vec![]; let mut t = s.w(a); for &x in v { t -= s.w(x); c.push(t); } c };
        let mut c = cuts(self, &sa); c.extend(cuts(self, &sb));
        c.sort_unstable_by(|x, y| y.cmp(x)); c.dedup();
        let mut top = self.w(a);
        let mut out = vec![];
        for lo in c {
            let w = top - lo;
            if w == 0 { continue; }
            out.push((self.extract(a, lo, w), self.extract(b, lo, w)));
            top = lo;
        }
        Some(out)
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return self.bool(true); }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 { let x = self.bitop(Op::Xor, a, b); return self.not(x); }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Const && nb.op == Op::Const { return self.bool(na.k == nb.k); }
        if w <= 64 && (self.hi(a) < self.lo(b) || self.hi(b) < self.lo(a)) { return self.bool(false); }
        if na.op == Op::Concat || nb.op == Op::Concat {
            if let Some(parts) = self.align(a, b) {
                if parts.iter().any(|&(x, y)| { let (x, y) = (self.n(x), self.n(y)); x.op == Op::Const && y.op == Op::Const && x.k != y.k }) {
                    return self.bool(false);
                }
                if parts.len() > 1 {
                    let mut acc = self.bool(true);
                    for (x, y) in parts { let q = self.eq(x, y); acc = self.bitop(Op::And, acc, q); }
                    return acc;
                }
            }
        }
        let (k, x) = if na.op == Op::Const { (Some(na.k), b) } else if nb.op == Op::Const { (Some(nb.k), a) } else { (None, 0) };
        if let Some(k) = k {
            let n = self.n(x);
            match n.op {
                Op::Ite => {
                    let (p, q) = (self.as_const(n.b), self.as_const(n.c));
                    if p.is_some() || q.is_some() || self.n(n.b).op == Op::Ite || self.n(n.c).op == Op::Ite {
                        let kk = self.cst(w, k);
                        let y = self.eq(n.b, kk); let z = self.eq(n.c, kk);
                        return self.ite(n.a, y, z);
                    }
                }
                Op::Add => if let Some(c) = self.as_const(n.b) { let kk = self.cst(w, k.wrapping_sub(c)); return self.eq(n.a, kk); }
                           else if let Some(c) = self.as_const(n.a) { let kk = self.cst(w, k.wrapping_sub(c)); return self.eq(n.b, kk); },
                Op::Xor => if let Some(c) = self.as_const(n.b) { let kk = self.cst(w, k ^ c); return self.eq(n.a, kk); }
                           else if let Some(c) = self.as_const(n.a) { let kk = self.cst(w, k ^ c); return self.eq(n.b, kk); },
                Op::SExt => {
                    let iw = self.w(n.a);
                    if sext64(k, iw) as u64 & mask(w) != k { return self.bool(false); }
                    let kk = self.cst(iw, k); return self.eq(n.a, kk);
                }
                _ => {}
            }
        }
        self.nd(Op::Eq, 1, a, b, 0, 0)
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.bool(false); }
        if w == 1 { let na = self.not(a); return self.bitop(Op::And, na, b); }
        if w <= 64 {
            if self.hi(a) < self.lo(b) { return self.bool(true); }
            if self.lo(a) >= self.hi(b) { return self.bool(false); }
            if self.as_const(b) == Some(1) { let z = self.cst(w, 0); return self.eq(a, z); }
            if self.as_const(a) == Some(0) { let z = self.cst(w, 0); let q = self.eq(b, z); return self.not(q); }
            // drop leading zeros
            let h = self.hi(a).max(self.hi(b));
            let need = (64 - h.leading_zeros()).max(1);
            if need < w {
                let (na, nb) = (self.n(a), self.n(b));
                if na.op == Op::Concat || nb.op == Op::Concat {
                    let x = self.extract(a, 0, need); let y = self.extract(b, 0, need);
                    if self.w(x) < w { return self.ult(x, y); }
                }
            }
            for (x, k, left) in [(a, b, true), (b, a, false)] {
                if let Some(kk) = self.as_const(k) {
                    let n = self.n(x);
                    if n.op == Op::Ite && (self.as_const(n.b).is_some() || self.as_const(n.c).is_some()) {
                        let kc = self.cst(w, kk);
                        let (p, q) = if left { (self.ult(n.b, kc), self.ult(n.c, kc)) } else { (self.ult(kc, n.b), self.ult(kc, n.c)) };
                        return self.ite(n.a, p, q);
                    }
                }
            }
        }
        self.nd(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E { let x = self.ult(b, a); self.not(x) }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.bool(false); }
        if w <= 64 && w > 1 {
            if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) { return self.bool(sext64(x, w) < sext64(y, w)); }
            let top = 1u64 << (w - 1);
            let (an, bn) = (self.hi(a) < top, self.hi(b) < top);
            let (am, bm) = (self.lo(a) >= top, self.lo(b) >= top);
            if an && bn || am && bm { return self.ult(a, b); }
            if am && bn { return self.bool(true); }
            if an && bm { return self.bool(false); }
            if self.as_const(b) == Some(0) { return self.extract(a, w - 1, 1); }
            if self.as_const(a) == Some(mask(w)) { let s = self.extract(b, w - 1, 1); return self.not(s); }
        }
        self.nd(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E { let x = self.slt(b, a); self.not(x) }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a; }
        let nc = self.n(c);
        if nc.op == Op::Const { return if nc.k != 0 { a } else { b }; }
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(_)) => return c,
                (Some(_), Some(_)) => return self.not(c),
                (Some(1), None) => return self.bitop(Op::Or, c, b),
                (Some(_), None) => { let n = self.not(c); return self.bitop(Op::And, n, b); }
                (None, Some(0)) => return self.bitop(Op::And, c, a),
                (None, Some(_)) => { let n = self.not(c); return self.bitop(Op::Or, n, a); }
                _ => {}
            }
        }
        // nested ite on the same condition
        let na = self.n(a);
        let a = if na.op == Op::Ite && na.a == c { na.b } else { a };
        let nb = self.n(b);
        let b = if nb.op == Op::Ite && nb.a == c { nb.c } else { b };
        if a == b { return a; }
        // common leading zeros
        if w > 1 && w <= 64 {
            let h = self.hi(a).max(self.hi(b));
            let need = (64 - h.leading_zeros()).max(1);
            if need < w && (self.n(a).op == Op::Concat || self.n(b).op == Op::Concat || need == 1) {
                let x = self.extract(a, 0, need); let y = self.extract(b, 0, need);
                if self.w(x) == need { let r = self.ite(c, x, y); return self.zext(r, w); }
            }
        }
        self.nd(Op::Ite, w, c, a, b, 0)
    }

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 { return self.bitop(Op::Xor, a, b); }
        if w <= 64 {
            let (ka, kb) = (self.as_const(a), self.as_const(b));
            match (ka, kb) {
                (Some(x), Some(y)) => return self.cst(w, x.wrapping_add(y)),
                (Some(_), None) => return self.add(b, a),
                (None, Some(0)) => return a,
                (None, Some(k)) => {
                    let n = self.n(a);
                    if n.op == Op::Add { if let Some(k2) = self.as_const(n.b) { let kk = self.cst(w, k.wrapping_add(k2)); return self.add(n.a, kk); } }
                    if n.op == Op::Ite && self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
                        let x = self.add(n.b, b); let y = self.add(n.c, b); return self.ite(n.a, x, y);
                    }
                    return self.nd(Op::Add, w, a, b, 0, 0);
                }
                _ => {}
            }
            // disjoint bits: an or in disguise
            let (x, y) = if a > b { (b, a) } else { (a, b) };
            return self.nd(Op::Add, w, x, y, 0, 0);
        }
        self.nd(Op::Add, w, a, b, 0, 0)
    }
    pub fn neg(&mut self, a: E) -> E { let w = self.w(a); let n = self.not(a); let one = self.cst(w, 1); self.add(n, one) }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.cst(w, 0); }
        if w <= 64 { if let Some(k) = self.as_const(b) { let kk = self.cst(w, k.wrapping_neg()); return self.add(a, kk); } }
        let n = self.neg(b); self.add(a, n)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 { return self.bitop(Op::And, a, b); }
        if w <= 64 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(x), Some(y)) => return self.cst(w, x.wrapping_mul(y)),
                (Some(_), None) => return self.mul(b, a),
                (None, Some(0)) => return self.cst(w, 0),
                (None, Some(1)) => return a,
                (None, Some(k)) if k.is_power_of_two() => return self.shl_k(a, k.trailing_zeros()),
                _ => {}
            }
        }
        self.nd(Op::Mul, w, a, b, 0, 0)
    }
    pub fn shl_k(&mut self, a: E, k: u32) -> E {
        let w = self.w(a);
        if k == 0 { return a; }
        if k >= w { return self.cst(w, 0); }
        let x = self.extract(a, 0, w - k); let z = self.cst(k, 0); self.concat(x, z)
    }
    pub fn lshr_k(&mut self, a: E, k: u32) -> E {
        let w = self.w(a);
        if k == 0 { return a; }
        if k >= w { return self.cst(w, 0); }
        let x = self.extract(a, k, w - k); self.zext(x, w)
    }
    pub fn ashr_k(&mut self, a: E, k: u32) -> E {
        let w = self.w(a);
        let k = k.min(w - 1);
        if k == 0 { return a; }
        let x = self.extract(a, k, w - k); self.sext(x, w)
    }
    pub fn shift(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            let k = k.min(w as u64) as u32;
            return match op { Op::Shl => self.shl_k(a, k), Op::LShr => self.lshr_k(a, k), _ => self.ashr_k(a, k) };
        }
        self.nd(op, w, a, b, 0, 0)
    }
    pub fn divrem(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if w <= 64 {
            if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
                if y != 0 {
                    let (sx, sy) = (sext64(x, w), sext64(y, w));
                    let v = match op { Op::UDiv => x / y, Op::URem => x % y, Op::SDiv => sx.wrapping_div(sy) as u64, _ => sx.wrapping_rem(sy) as u64 };
                    return self.cst(w, v);
                }
            }
            if let Some(k) = self.as_const(b) {
                if k.is_power_of_two() {
                    let s = k.trailing_zeros();
                    if op == Op::UDiv { return self.lshr_k(a, s); }
                    if op == Op::URem { if s == 0 { return self.cst(w, 0); } let x = self.extract(a, 0, s); return self.zext(x, w); }
                }
            }
        }
        self.nd(op, w, a, b, 0, 0)
    }
}

/// Runs of equal bits of a mask, most significant first: (lowest bit, width, value).
fn runs(k: u64, w: u32) -> Vec<(u32, u32, bool)> {
    let mut out = vec![];
    let mut i = w;
    while i > 0 {
        let bit = k >> (i - 1) & 1 == 1;
        let mut j = i - 1;
        while j > 0 && (k >> (j - 1) & 1 == 1) == bit { j -= 1; }
        out.push((j, i - j, bit));
        i = j;
    }
    out
}
