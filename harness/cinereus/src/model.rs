//! Symbolic trees: a plain model of each input tree next to the real `cinereus::Tree`.

use crate::vp::*;
use cinereus::indextree::NodeId;
use cinereus::*;
use core::fmt;
use core::hash::{Hash, Hasher};

/// Node kind. All kinds hash alike, so hash maps keyed by kind need no concrete kind.
#[derive(Clone, Copy, PartialEq, Eq, Default)]
pub struct K(pub u8);
impl Hash for K { fn hash<H: Hasher>(&self, h: &mut H) { h.write_u8(7) } }
impl fmt::Display for K { fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }

#[derive(Clone, Copy, PartialEq, Eq, Default)]
pub struct Txt(pub u8);
impl fmt::Display for Txt { fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }

/// Key type of the property set.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct Key(pub u8);
impl fmt::Display for Key { fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }

pub const NPROP: usize = 3;

/// Up to three properties (value 0: absent), listed in key order, or in reverse if `rev`;
/// `tag` identifies the owner for similarity tables.
#[derive(Clone, Copy, PartialEq, Eq, Default)]
pub struct P { pub v: [u8; NPROP], pub rev: bool, pub side: u8, pub tag: u8 }

#[derive(Clone, Copy, PartialEq)]
pub enum SimMode { One, Table, Attr }

/// Similarity answers for (tag a, tag b), chosen lazily.
pub struct Sim { pub mode: SimMode, pub dom: &'static [f64], pub table: [[u8; 16]; 16] }
static mut SIM: Sim = Sim { mode: SimMode::One, dom: &[], table: [[0; 16]; 16] };
pub fn sim_reset(mode: SimMode, dom: &'static [f64]) { unsafe { SIM = Sim { mode, dom, table: [[0; 16]; 16] } } }
#[allow(static_mut_refs)]
pub fn sim_of(a: &P, b: &P) -> f64 {
    let s = unsafe { &mut SIM };
    match s.mode {
        SimMode::One => 1.0,
        SimMode::Attr => {
            let (mut same, mut tot) = (0u32, 0u32);
            for i in 0..NPROP { if (a.v[i] != 0) | (b.v[i] != 0) { tot += 1; if a.v[i] == b.v[i] { same += 1; } } }
            if tot == 0 { 1.0 } else { same as f64 / tot as f64 }
        }
        SimMode::Table => {
            // symmetric in the sides: the query may come from either direction
            let (x, y) = if a.side == 0 { (a.tag, b.tag) } else { (b.tag, a.tag) };
            let c = &mut s.table[x as usize][y as usize];
            if *c == 0 { *c = 1 + pick("sim", 0, s.dom.len() as u64 - 1) as u8; }
            s.dom[*c as usize - 1]
        }
    }
}

impl Properties for P {
    type Key = Key;
    type Value = Txt;
    fn similarity(&self, other: &Self) -> f64 { sim_of(self, other) }
    fn diff(&self, other: &Self) -> Vec<PropertyInFinalState<Key, Txt>> {
        let mut out = vec![];
        for j in 0..NPROP {
            let i = if other.rev { NPROP - 1 - j } else { j };
            if other.v[i] != 0 {
                let value = if self.v[i] == other.v[i] { PropValue::Same } else { PropValue::Different(Txt(other.v[i])) };
                out.push(PropertyInFinalState { key: Key(i as u8), value });
            }
        }
        out
    }
    fn is_empty(&self) -> bool { self.len() == 0 }
    fn len(&self) -> usize { let mut n = 0; for i in 0..NPROP { n += (self.v[i] != 0) as usize; } n }
}

pub type Ty = SimpleTypes<K, P, Txt>;

#[derive(Clone, Copy, Default)]
pub struct Nd {
    pub par: usize, pub pos: usize, pub kids: usize, pub depth: usize,
    /// one past the last descendant in preorder
    pub end: usize,
    pub kind: u8, pub has_text: bool, pub text: u8, pub props: P, pub opaque: bool, pub hash: u64,
}

/// A tree in preorder.
#[derive(Clone)]
pub struct Model { pub nd: Vec<Nd>, pub ids: Vec<NodeId> }

#[derive(Clone, Copy)]
pub struct Gen {
    pub lo: u64, pub hi: u64,
    /// 0 any shape, 1 flat, 2 chain, 3 at most two levels below the root, 4 caterpillar
    pub style: u64,
    /// number of element kinds; a further kind carries text if `texts` > 0
    pub kinds: u64,
    pub texts: u64,
    /// number of properties and of values per property
    pub props: u64, pub pvals: u64,
    pub opaque: u64,
    /// 0: structural hash; n: arbitrary hash among n values
    pub hashes: u64,
    /// 1: text presence is free instead of being determined by the kind
    pub freetext: u64,
    /// 1: the root has a symbolic kind too
    pub rootkind: u64,
}

impl Gen {
    /// Reads the generator settings from the harness parameters `base..base+11`.
    pub fn from_params(base: u64) -> Gen {
        let p = |i| param(base + i);
        Gen { lo: p(0), hi: p(1), style: p(2), kinds: p(3), texts: p(4), props: p(5), pvals: p(6), opaque: p(7), hashes: p(8), freetext: p(9), rootkind: p(10) }
    }
}

pub fn gen_shape(g: &Gen, nm: &str) -> Vec<usize> {
    let n = if g.lo == g.hi { g.lo } else { pick(nm, g.lo, g.hi) } as usize;
    let mut par = vec![usize::MAX];
    let mut depth = vec![0usize];
    for i in 1..n {
        let last = depth[i - 1];
        let d = match g.style {
            1 => 1,
            2 => i,
            3 => { let m = (last + 1).min(2); if m == 1 { 1 } else { pick("depth", 1, m as u64) as usize } }
            4 => if i % 2 == 1 { last.max(1) + (i > 1) as usize } else { last },
            _ => if last == 0 { 1 } else { pick("depth", 1, last as u64 + 1) as usize },
        };
        // the parent is the last node at depth d-1
        let p = (0..i).rev().find(|&j| depth[j] == d - 1).unwrap();
        par.push(p);
        depth.push(d);
    }
    par
}

pub fn layout(par: &[usize]) -> Vec<Nd> {
    let n = par.len();
    let mut nd = vec![Nd::default(); n];
    nd[0].par = usize::MAX;
    for i in 1..n {
        let p = par[i];
        nd[i].par = p;
        nd[i].pos = nd[p].kids;
        nd[p].kids += 1;
        nd[i].depth = nd[p].depth + 1;
    }
    for i in (0..n).rev() { if nd[i].end == 0 { nd[i].end = i + 1; } if i > 0 { let p = nd[i].par; nd[p].end = nd[p].end.max(nd[i].end); } }
    nd
}

pub fn bits(max: u64) -> u32 { 64 - max.leading_zeros() }

pub fn gen_model(g: &Gen, side: u8, nm: &str) -> Model {
    let par = gen_shape(g, nm);
    let mut nd = layout(&par);
    let n = nd.len();
    for i in 0..n {
        let leaf = nd[i].kids == 0;
        let top = if g.texts > 0 && g.freetext == 0 && leaf && i > 0 { g.kinds } else { g.kinds - 1 };
        let x = &mut nd[i];
        x.kind = if top == 0 || (i == 0 && g.rootkind == 0) { 0 } else { sym8("kind", top) };
        if g.texts > 0 {
            x.has_text = if g.freetext != 0 { symb("has_text") } else { leaf && i > 0 && x.kind as u64 == g.kinds };
            x.text = if g.freetext != 0 || (leaf && i > 0) { sym8("text", g.texts - 1) } else { 0 };
            // an absent text has no content
            x.text &= (x.has_text as u8).wrapping_neg();
        }
        for p in 0..g.props as usize { x.props.v[p] = sym8("prop", g.pvals); }
        if g.props > 1 && side == 1 && param(26) != 0 { x.props.rev = pick("rev", 0, 1) == 1; }
        x.props.side = side;
        x.props.tag = i as u8;
        if g.opaque != 0 && (g.opaque == 1 || i > 0) { x.opaque = symb("opaque"); }
        if g.hashes > 0 { x.hash = spread(sym("hash", 0, g.hashes - 1)); }
    }
    let mut m = Model { nd, ids: vec![] };
    if g.hashes == 0 { merkle(g, &mut m); }
    m
}

/// Distinct hash values that differ only at one end of the word.
fn spread(v: u64) -> u64 { (v & 1) | (v >> 1) << 60 }

/// Injective structural hash: the subtree in preorder, a few bits per node, in the same format for
/// both trees. Placed at the top of the word for odd sizes, so that code looking at a part of the
/// hash only is noticed.
pub fn merkle(g: &Gen, m: &mut Model) {
    let n = m.nd.len();
    let o = if param(2) == 0 { *g } else { Gen::from_params(14) };
    let f = if param(2) == 0 { *g } else { Gen::from_params(3) };
    let kinds = |g: &Gen| g.kinds - (g.texts == 0 || g.freetext != 0) as u64;
    let kb = bits(kinds(&o).max(kinds(&f)));
    let texts = o.texts.max(f.texts);
    let props = o.props.max(f.props);
    let vb = bits(o.pvals.max(f.pvals));
    let free = (o.freetext | f.freetext) != 0;
    let cb = bits(o.hi.max(f.hi) - 1).max(1);
    let tb = if texts > 0 { bits(texts - 1) + free as u32 } else { 0 };
    let per = kb + tb + vb * props as u32 + cb;
    assert!(per * n as u32 <= 63, "tree too large for the structural hash");
    let enc = |x: &Nd| -> u64 {
        let mut e = x.kids as u64;
        e = e << kb | x.kind as u64;
        if texts > 0 {
            if free { e = e << 1 | x.has_text as u64; }
            e = e << bits(texts - 1) | x.text as u64;
        }
        for p in 0..props as usize { e = e << vb | x.props.v[p] as u64; }
        e
    };
    for i in 0..n {
        let size = m.nd[i].end - i;
        let mut h = 1u64;
        for j in i..m.nd[i].end { h = h << per | enc(&m.nd[j]); }
        if size % 2 == 1 { h <<= 63 - per * size as u32; }
        m.nd[i].hash = h;
    }
}

impl Model {
    pub fn data(&self, i: usize) -> NodeData<Ty> {
        let x = &self.nd[i];
        NodeData::new(NodeHash(x.hash), K(x.kind), x.props, if x.has_text { Some(Txt(x.text)) } else { None })
    }
    pub fn build(&mut self) -> Tree<Ty> {
        let mut t = Tree::new(self.data(0));
        self.ids = vec![t.root];
        for i in 1..self.nd.len() { let d = self.data(i); let id = t.add_child(self.ids[self.nd[i].par], d); self.ids.push(id); }
        t
    }
    /// The same tree with another allocation order of nodes (so other node ids).
    pub fn build_permuted(&mut self, order: u64) -> Tree<Ty> {
        let n = self.nd.len();
        let mut arena = indextree::Arena::new();
        // order 1: reverse; 2: odd then even; both leave a hole in the arena
        let hole = arena.new_node(self.data(0));
        // 4 and more: besides, the slots have been used for other nodes before
        if order >= 4 {
            let junk: Vec<_> = (0..n + 1).map(|_| arena.new_node(self.data(0))).collect();
            for x in junk { x.remove(&mut arena); }
        }
        let order = order % 4;
        let mut seq: Vec<usize> = match order { 1 => (0..n).rev().collect(), _ => (0..n).filter(|i| i % 2 == 1).chain((0..n).filter(|i| i % 2 == 0)).collect() };
        if order == 3 { seq.reverse(); }
        self.ids = vec![hole; n];
        for &i in &seq { let d = self.data(i); self.ids[i] = arena.new_node(d); }
        for i in 1..n { let p = self.ids[self.nd[i].par]; p.append(self.ids[i], &mut arena); }
        Tree { arena, root: self.ids[0] }
    }
    pub fn n(&self) -> usize { self.nd.len() }
    pub fn idx(&self, id: NodeId) -> Option<usize> { self.ids.iter().position(|&x| x == id) }
    /// Strictly inside an opaque node.
    pub fn inside(&self, i: usize) -> bool {
        let mut p = self.nd[i].par;
        let mut r = false;
        while p != usize::MAX { r |= self.nd[p].opaque; p = self.nd[p].par; }
        r
    }
    pub fn kids(&self, i: usize) -> Vec<usize> { (i + 1..self.nd[i].end).filter(|&j| self.nd[j].par == i).collect() }
    pub fn height(&self, i: usize) -> usize { (i..self.nd[i].end).map(|j| self.nd[j].depth - self.nd[i].depth).max().unwrap() }
}

/// The real tree plus opacity flags; everything else is delegated to `Tree`.
pub struct OTree { pub t: Tree<Ty>, pub ids: Vec<NodeId>, pub opaque: Vec<bool> }
impl OTree {
    pub fn new(m: &mut Model) -> Self { let t = m.build(); OTree { t, ids: m.ids.clone(), opaque: m.nd.iter().map(|x| x.opaque).collect() } }
    pub fn permuted(m: &mut Model, order: u64) -> Self { let t = m.build_permuted(order); OTree { t, ids: m.ids.clone(), opaque: m.nd.iter().map(|x| x.opaque).collect() } }
}
impl DiffTree for OTree {
    type Types = Ty;
    fn root(&self) -> NodeId { DiffTree::root(&self.t) }
    fn node_count(&self) -> usize { DiffTree::node_count(&self.t) }
    fn hash(&self, id: NodeId) -> NodeHash { DiffTree::hash(&self.t, id) }
    fn kind(&self, id: NodeId) -> &K { DiffTree::kind(&self.t, id) }
    fn properties(&self, id: NodeId) -> &P { DiffTree::properties(&self.t, id) }
    fn text(&self, id: NodeId) -> Option<&Txt> { DiffTree::text(&self.t, id) }
    fn parent(&self, id: NodeId) -> Option<NodeId> { DiffTree::parent(&self.t, id) }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { DiffTree::children(&self.t, id) }
    fn child_count(&self, id: NodeId) -> usize { DiffTree::child_count(&self.t, id) }
    fn position(&self, id: NodeId) -> usize { DiffTree::position(&self.t, id) }
    fn height(&self, id: NodeId) -> usize { DiffTree::height(&self.t, id) }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ { DiffTree::iter(&self.t) }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ { DiffTree::post_order(&self.t) }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { DiffTree::descendants(&self.t, id) }
    fn is_opaque(&self, id: NodeId) -> bool { let i = self.ids.iter().position(|&x| x == id).unwrap(); self.opaque[i] }
}

/// Implements only what the trait requires, so the trait's default methods are exercised.
pub struct MinTree<'a>(pub &'a Tree<Ty>);
impl DiffTree for MinTree<'_> {
    type Types = Ty;
    fn root(&self) -> NodeId { self.0.root }
    fn node_count(&self) -> usize { self.0.arena.count() }
    fn hash(&self, id: NodeId) -> NodeHash { self.0.get(id).hash }
    fn kind(&self, id: NodeId) -> &K { &self.0.get(id).kind }
    fn properties(&self, id: NodeId) -> &P { &self.0.get(id).properties }
    fn text(&self, id: NodeId) -> Option<&Txt> { self.0.get(id).text.as_ref() }
    fn parent(&self, id: NodeId) -> Option<NodeId> { Tree::parent(self.0, id) }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { Tree::children(self.0, id) }
    fn height(&self, id: NodeId) -> usize { Tree::height(self.0, id) }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ { Tree::iter(self.0) }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ { Tree::post_order(self.0) }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { Tree::descendants(self.0, id) }
}

/// Matching configurations: 0 default; 1 symbolic choice of moderate values; 2 anything.
pub fn config(mode: u64) -> MatchingConfig {
    match mode {
        0 => MatchingConfig::default(),
        1 => {
            const T: [f64; 4] = [0.5, 0.0, 0.8, 1.0];
            MatchingConfig { similarity_threshold: T[pick("threshold", 0, 3) as usize], min_height: pick("min_height", 0, 2) as usize }
        }
        3 => MatchingConfig { min_height: pick("min_height", 0, 2) as usize, ..Default::default() },
        5 => {
            const T: [f64; 3] = [0.0, 0.8, 0.5];
            MatchingConfig { similarity_threshold: T[pick("threshold", 0, 2) as usize], min_height: 1 }
        }
        4 => MatchingConfig { min_height: 0, ..Default::default() },
        _ => {
            const T: [f64; 7] = [0.5, 0.0, 1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0];
            const H: [usize; 4] = [1, 0, 2, usize::MAX];
            MatchingConfig { similarity_threshold: T[pick("threshold", 0, 6) as usize], min_height: H[pick("min_height", 0, 3) as usize] }
        }
    }
}

/// Kind of the nodes with text.
pub const TEXT: u8 = 90;

/// A tree that can be edited, for larger trees that differ in a few places.
#[derive(Clone, Default)]
pub struct Tn { pub kind: u8, pub has_text: bool, pub text: u8, pub prop: u8, pub opaque: bool, pub kids: Vec<Tn> }

impl Tn {
    pub fn count(&self) -> usize { 1 + self.kids.iter().map(Tn::count).sum::<usize>() }
    /// The node at a position of the preorder.
    pub fn at(&mut self, i: usize) -> &mut Tn {
        if i == 0 { return self; }
        let mut i = i - 1;
        for k in &mut self.kids { let c = k.count(); if i < c { return k.at(i); } i -= c; }
        unreachable!()
    }
    /// Takes the subtree at a position of the preorder (not the root) out of the tree.
    pub fn take(&mut self, i: usize) -> Tn {
        let mut i = i - 1;
        for k in 0..self.kids.len() {
            if i == 0 { return self.kids.remove(k); }
            let c = self.kids[k].count();
            if i < c { return self.kids[k].take(i); }
            i -= c;
        }
        unreachable!()
    }
    fn flatten(&self, par: usize, side: u8, props: bool, nd: &mut Vec<Nd>, parents: &mut Vec<usize>) {
        let me = nd.len();
        let mut x = Nd { kind: self.kind, has_text: self.has_text, text: self.text, opaque: self.opaque, ..Nd::default() };
        if props { x.props.v[0] = self.prop; }
        x.props.side = side;
        x.props.tag = me as u8;
        nd.push(x);
        parents.push(par);
        for k in &self.kids { k.flatten(me, side, props, nd, parents); }
    }
    /// The model; subtrees are told apart by a polynomial over what is in them.
    pub fn model(&self, side: u8, props: bool) -> Model {
        let (mut raw, mut par) = (vec![], vec![]);
        self.flatten(usize::MAX, side, props, &mut raw, &mut par);
        let mut nd = layout(&par);
        for (x, r) in nd.iter_mut().zip(&raw) { x.kind = r.kind; x.has_text = r.has_text; x.text = r.text; x.opaque = r.opaque; x.props = r.props; }
        for i in 0..nd.len() {
            let (mut h, mut p) = (0u64, 1u64);
            for j in i..nd[i].end {
                let x = &nd[j];
                let e = 1 | (x.kids as u64) << 1 | (x.kind as u64) << 8 | (x.has_text as u64) << 16 | (x.text as u64) << 17 | (x.props.v[0] as u64) << 25;
                h = h.wrapping_add(e.wrapping_mul(p));
                p = p.wrapping_mul(0xd6e8_feb8_6659_fd93);
            }
            nd[i].hash = h;
        }
        Model { nd, ids: vec![] }
    }
}

/// Parents of the nodes of a larger tree of a style.
pub fn parents(style: u64, n: usize, w: usize) -> Vec<usize> {
    (0..n).map(|i| if i == 0 { usize::MAX } else { match style {
        10 => 0,
        11 => i - 1,
        12 => if i % 2 == 1 { i.saturating_sub(2) } else { i - 2 },
        13 => (i - 1) / 2,
        // records of four nodes: an element with a leaf and an element with a leaf
        14 => match i % 4 { 1 => 0, 2 => i - 1, 3 => i - 2, _ => i - 1 },
        _ => if i <= w { 0 } else { 1 + (i - w - 1) / w },
    } }).collect()
}

/// Larger trees (style 10 and up): flat, chain, caterpillar, binary, records, any shape, lists of
/// lists; `kinds` patterns of kinds, `texts` patterns of texts (all different, all alike).
pub fn base_tree(g: &Gen, nm: &str) -> Tn {
    let par = match g.style {
        15 => gen_shape(&Gen { style: 0, ..*g }, nm),
        s => {
            let n = if g.lo == g.hi { g.lo } else { pick(nm, g.lo, g.hi) } as usize;
            parents(s, n, (1..).find(|w| w * w >= n).unwrap())
        }
    };
    let n = par.len();
    let pattern = if g.kinds > 1 { pick("kind_pattern", 0, g.kinds - 1) } else { 0 };
    let alike = g.texts == 2 && pick("texts_alike", 0, 1) == 1;
    let bare = g.texts == 3 && pick("bare_leaves", 0, 1) == 1;
    let leaf = |i: usize| !par.contains(&i);
    fn build(i: usize, pos: usize, depth: usize, par: &[usize], f: &dyn Fn(usize, usize, usize) -> Tn) -> Tn {
        let mut t = f(i, pos, depth);
        for (p, c) in (0..par.len()).filter(|&c| par[c] == i).enumerate() { let k = build(c, p, depth + 1, par, f); t.kids.push(k); }
        t
    }
    let mut t = build(0, 0, 0, &par, &|i, pos, depth| {
        let kind = if i == 0 { 0 } else { match pattern { 0 => 0, 1 => leaf(i) as u8, 2 => (pos % 2) as u8, 3 => i as u8, _ => (depth % 2) as u8 } };
        let empty = bare && leaf(i) && i % 2 == 1;
        let kind = if empty { 100u8.wrapping_add(i as u8) } else { kind };
        let text = g.texts > 0 && leaf(i) && i > 0 && !empty;
        Tn { kind: if text { TEXT } else { kind }, has_text: text, text: if text && !alike { i as u8 } else { 0 }, prop: 1, ..Tn::default() }
    });
    if g.opaque > 0 { let o = place("opaque", 0, n as u64 - 1); if o > 0 { t.at(o).opaque = true; } }
    t
}

/// A place; in large trees one of the first, the middle and the last.
pub fn place(nm: &str, lo: u64, hi: u64) -> usize {
    if hi - lo < 60 { return pick(nm, lo, hi) as usize; }
    [lo, lo + 1, (lo + hi) / 2, hi - 1, hi][pick(nm, 0, 4) as usize] as usize
}

fn new_text(top: u64) -> u8 { if top < 60 { sym8("text", top) } else { place("text", 0, top) as u8 } }

/// `g.freetext` edits of the kinds in the mask `g.rootkind`: 1 new leaf, 2 delete, 4 move, 8 text,
/// 16 property, 32 kind, 64 copy, 128 opacity.
pub fn edited(g: &Gen, base: &Tn) -> Tn {
    let mut t = base.clone();
    let kinds: Vec<u64> = (0..8).filter(|k| g.rootkind >> k & 1 == 1).collect();
    let top = base.count() as u64 + 1;
    for _ in 0..g.freetext {
        let n = t.count() as u64;
        let k = if kinds.len() == 1 { kinds[0] } else { kinds[pick("edit", 0, kinds.len() as u64 - 1) as usize] };
        if n < 2 && matches!(k, 1 | 2 | 6) { continue; }
        let new = match k {
            0 if g.texts > 0 && pick("new_text", 0, 1) == 1 => Tn { kind: TEXT, has_text: true, text: new_text(top), prop: 1, ..Tn::default() },
            0 => Tn { kind: sym8("kind", 3), prop: 1, ..Tn::default() },
            1 | 2 => t.take(place("node", 1, n - 1)),
            6 => t.at(place("node", 1, n - 1)).clone(),
            _ => Tn::default(),
        };
        match k {
            0 | 2 | 6 => {
                let n = t.count() as u64;
                let p = t.at(if n == 1 { 0 } else { place("under", 0, n - 1) });
                let c = p.kids.len() as u64;
                let at = if c == 0 { 0 } else { place("place", 0, c) };
                p.kids.insert(at, new);
            }
            1 => {}
            _ => {
                let x = t.at(place("node", 0, n - 1));
                match k {
                    3 => if x.has_text { x.text = new_text(top); },
                    4 => x.prop = sym8("prop", g.pvals),
                    5 => if !x.has_text { x.kind = if top < 60 { sym8("kind", top) } else { pick("kind", 0, 3) as u8 } },
                    _ => x.opaque = !x.opaque,
                }
            }
        }
    }
    t
}
