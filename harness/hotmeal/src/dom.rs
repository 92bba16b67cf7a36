//! Symbolic pages: a plain model of each body next to the real `hotmeal::Document`.
use crate::vp::*;
use hotmeal::{Document, LocalName, Namespace, NodeId, NodeKind, QualName, Stem};
use html5ever::{NAMES, Namespace as Ns, Prefix};

#[derive(Clone, Copy)]
pub struct Gen {
    pub lo: u64, pub hi: u64,
    /// 0 any shape, 1 flat, 2 chain, 3 at most two levels below the body, 4 caterpillar
    pub style: u64,
    /// element names; from 20 on scripts among them, which hold text only
    pub tags: u64,
    /// leaves: 0 elements only, 1 or text, 2 or text or comment, 3 always text, 4 or text, also after text,
    /// 5 or text or comment, also empty
    pub leaves: u64,
    /// different one-character texts; from 10 on characters that markup writes as references
    pub chars: u64,
    /// attribute names and values per attribute
    pub attrs: u64, pub vals: u64,
    /// 1: elements may be opaque
    pub opaque: u64,
    /// 1: SVG elements among the others, 2: MathML too, in the places where the parser puts them
    pub ns: u64,
    /// 1: the body has attributes like any other element
    pub bodyattrs: u64,
}
pub const GEN: u64 = 11;
impl Gen {
    pub fn from_params(base: u64) -> Gen {
        let p = |i| param(base + i);
        Gen { lo: p(0), hi: p(1), style: p(2), tags: p(3), leaves: p(4), chars: p(5), attrs: p(6), vals: p(7), opaque: p(8), ns: p(9), bodyattrs: p(10) }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty { Element, Text, Comment }

#[derive(Clone)]
pub struct Nd {
    pub par: usize, pub kids: usize,
    pub ty: Ty, pub tag: u32, pub ns: u8, pub text: &'static str,
    /// (attribute, value) in order
    pub attrs: Vec<(u32, &'static str)>,
    pub opaque: bool,
}
/// A body in preorder; node 0 is the body element.
#[derive(Clone)]
pub struct Page { pub nd: Vec<Nd>, pub ids: Vec<NodeId> }

/// A string of one symbolic character out of `n`, starting at `first`.
pub fn one_char(nm: &str, first: u8, n: u64) -> &'static str {
    let c = if n <= 1 { first } else { first + sym8(nm, n - 1) };
    leak(vec![c])
}
pub fn leak(v: Vec<u8>) -> &'static str { unsafe { std::str::from_utf8_unchecked(Box::leak(v.into_boxed_slice())) } }

thread_local! { static ODD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// The first attribute name is one that markup can have but scripts cannot set.
pub fn set_odd(b: bool) { ODD.with(|x| x.set(b)) }
/// Attribute names: id, class, xlink:href (with a namespace), href, title, xmlns, viewBox (outside of HTML).
pub fn attr_name(k: u32) -> QualName {
    match k {
        0 if ODD.with(|x| x.get()) => QualName::new(None, Ns::from(""), LocalName::from("@click")),
        0 => QualName::new(None, Ns::from(""), LocalName::from("id")),
        1 => QualName::new(None, Ns::from(""), LocalName::from("class")),
        2 => QualName::new(Some(Prefix::from("xlink")), Ns::from("http://www.w3.org/1999/xlink"), LocalName::from("href")),
        3 => QualName::new(None, Ns::from(""), LocalName::from("href")),
        4 => QualName::new(None, Ns::from(""), LocalName::from("title")),
        5 => QualName::new(None, Ns::from("http://www.w3.org/2000/xmlns/"), LocalName::from("xmlns")),
        6 => QualName::new(None, Ns::from(""), LocalName::from("viewBox")),
        _ => QualName::new(None, Ns::from(""), LocalName::from("data-hotmeal-opaque")),
    }
}
pub const OPAQUE: u32 = 9;

/// Any list of distinct attributes out of `n` names, in any order; the tens of `n` say which name is
/// the first. With `vals` in the tens, values may also be empty.
pub fn gen_attrs(n: u64, vals: u64) -> Vec<(u32, &'static str)> {
    let (first, n) = ((n / 10) as u32, (n % 10) as u32);
    let mut left: Vec<u32> = (first..first + n).collect();
    let mut out = vec![];
    while !left.is_empty() {
        let c = pick("attr", 0, left.len() as u64) as usize;
        if c == 0 { break; }
        let v = if vals >= 10 && pick("empty", 0, 1) == 1 { "" } else { one_char("value", b'A', vals % 10) };
        out.push((left.remove(c - 1), v));
    }
    out
}

pub fn nm(s: &str) -> u32 { NAMES.iter().position(|x| *x == s).unwrap() as u32 }
/// An element name that can stand inside `par`, and its namespace there.
fn foreign(par: &Nd, ns: u64) -> (u32, u8) {
    let p = NAMES[par.tag as usize];
    let html = par.ns == 0 || (par.ns == 1 && p == "title") || (par.ns == 2 && p == "mi");
    let opts: &[(&str, u8)] = match (html, par.ns) {
        (true, 2) => &[("div", 0), ("svg", 1), ("mglyph", 2)],
        (true, _) if ns > 1 => &[("div", 0), ("svg", 1), ("math", 2)],
        (true, _) => &[("div", 0), ("svg", 1)],
        (_, 1) => &[("clipPath", 1), ("title", 1)],
        _ => &[("mi", 2), ("mrow", 2)],
    };
    let (t, s) = opts[pick("name", 0, opts.len() as u64 - 1) as usize];
    (nm(t), s)
}

pub fn gen_shape(g: &Gen, nm: &str) -> Vec<usize> {
    let n = if g.lo == g.hi { g.lo } else { pick(nm, g.lo, g.hi) } as usize;
    let mut par = vec![usize::MAX];
    let mut depth = vec![0usize];
    for i in 1..n {
        let last = depth[i - 1];
        let d = match g.style {
            1 => 1,
            2 => i,
            3 => { let m = (last + 1).min(2); if m == 1 { 1 } else { pick("depth", 1, m as u64) as usize } }
            4 => if i % 2 == 1 { last.max(1) + (i > 1) as usize } else { last },
            _ => if last == 0 { 1 } else { pick("depth", 1, last as u64 + 1) as usize },
        };
        par.push((0..i).rev().find(|&j| depth[j] == d - 1).unwrap());
        depth.push(d);
    }
    par
}

pub fn gen_page(g: &Gen, nodes: &str) -> Page {
    let par = gen_shape(g, nodes);
    let n = par.len();
    let mut nd: Vec<Nd> = vec![];
    for i in 0..n {
        let kids = par.iter().filter(|&&p| p == i).count();
        let mut x = Nd { par: par[i], kids, ty: Ty::Element, tag: 0, ns: 0, text: "", attrs: vec![], opaque: false };
        if i > 0 {
            if kids == 0 && g.leaves > 0 {
                // the parser never leaves two text nodes next to each other
                let prev = (1..i).rev().find(|&j| par[j] == par[i]);
                let after_text = matches!(prev, Some(j) if nd[j].ty == Ty::Text);
                x.ty = match g.leaves {
                    1 => if after_text { Ty::Element } else { [Ty::Element, Ty::Text][pick("leaf", 0, 1) as usize] },
                    3 => if after_text { Ty::Element } else { Ty::Text },
                    4 => [Ty::Element, Ty::Text][pick("leaf", 0, 1) as usize],
                    _ => if after_text { [Ty::Element, Ty::Comment][pick("leaf", 0, 1) as usize] } else { [Ty::Element, Ty::Comment, Ty::Text][pick("leaf", 0, 2) as usize] },
                };
            }
            if x.ty == Ty::Element {
                let script = nm("script");
                if g.tags >= 20 { assume(nd[par[i]].tag != script) }
                x.tag = if g.tags >= 20 { if pick("script", 0, 1) == 1 { script } else { 1 } } else { 1 + if g.tags > 1 { sym("tag", 0, g.tags - 1) as u32 } else { 0 } };
                if g.ns > 0 {
                    let (t, s) = foreign(&nd[x.par], g.ns);
                    x.tag = t;
                    x.ns = s;
                }
            } else {
                x.text = if g.leaves == 5 && x.ty == Ty::Comment && pick("empty", 0, 1) == 1 { "" } else { one_char("text", if g.chars >= 10 { b'&' } else { b'a' }, g.chars % 10) };
                if g.tags >= 20 { assume(x.ty == Ty::Text || nd[par[i]].tag != nm("script")) }
            }
        }
        if x.ty == Ty::Element && (i > 0 || g.bodyattrs > 0) {
            if g.attrs > 0 && (g.attrs / 10 != 6 || x.ns > 0) { x.attrs = gen_attrs(g.attrs, g.vals); }
            if g.opaque > 0 && i > 0 && pick("opaque", 0, 1) == 1 { x.opaque = true; x.attrs.push((OPAQUE, "")); }
        }
        nd.push(x);
    }
    Page { nd, ids: vec![] }
}

impl Page {
    pub fn n(&self) -> usize { self.nd.len() }
    pub fn kids(&self, i: usize) -> Vec<usize> { (0..self.n()).filter(|&j| self.nd[j].par == i).collect() }
    pub fn under_opaque(&self, i: usize) -> bool { let mut p = self.nd[i].par; while p != usize::MAX { if self.nd[p].opaque { return true; } p = self.nd[p].par; } false }
    /// The page as a document; `order` 1 allocates the nodes in reverse.
    pub fn build(&mut self, order: u64) -> Document<'static> {
        let mut d = Document::new();
        let body = d.body().unwrap();
        let n = self.n();
        self.ids = vec![body; n];
        let seq: Vec<usize> = if order == 1 { (1..n).rev().collect() } else { (1..n).collect() };
        for i in seq {
            let x = &self.nd[i];
            self.ids[i] = match x.ty {
                Ty::Element => d.create_element(LocalName::nth(x.tag)),
                Ty::Text => d.create_text(x.text),
                Ty::Comment => d.create_comment(x.text),
            };
            match x.ns { 1 => d.get_mut(self.ids[i]).ns = Namespace::Svg, 2 => d.get_mut(self.ids[i]).ns = Namespace::MathMl, _ => {} }
        }
        for i in 0..n {
            if i > 0 { d.append_child(self.ids[self.nd[i].par], self.ids[i]); }
            for &(k, v) in &self.nd[i].attrs { d.set_attr(self.ids[i], attr_name(k), v); }
        }
        d
    }
}

/// What a comparison of two documents looks at.
#[derive(Clone, Copy)]
pub struct Cmp { pub attrs: bool, pub opaque_inside: bool, pub ns: bool }

fn is_empty_text(d: &Document, id: NodeId) -> bool { matches!(&d.get(id).kind, NodeKind::Text(t) if t.len() == 0) }
/// Children without empty text nodes, which do not exist in markup.
pub fn kids(d: &Document, id: NodeId) -> Vec<NodeId> { d.children(id).filter(|&c| !is_empty_text(d, c)).collect() }

/// A string of `n` bytes, each a symbolic ASCII character.
pub fn ascii(nm: &str, n: usize) -> &'static str {
    leak((0..n).map(|_| { let c = sym8(nm, 0x7f); assume(c != 0 && c != b'\r'); c }).collect())
}
/// A string of `n` characters, each a symbolic ASCII character or, if `wide`, one of two to four bytes.
pub fn chars(nm: &str, n: usize, wide: bool) -> &'static str {
    if !wide { return ascii(nm, n) }
    let mut v = vec![];
    for _ in 0..n {
        match pick("wide", 0, 3) {
            0 => { let c = sym8(nm, 0x7f); assume(c != 0 && c != b'\r'); v.push(c) }
            // U+0080..U+07FF, U+1000.., U+10000..
            1 => { v.push(0xc2 + sym8(nm, 0x1d)); v.push(0x80 + sym8(nm, 0x3f)) }
            2 => { v.push(0xe1); v.push(0x80 + sym8(nm, 0x3f)); v.push(0x80 + sym8(nm, 0x3f)) }
            _ => { v.push(0xf1); for _ in 0..3 { v.push(0x80 + sym8(nm, 0x3f)) } }
        }
    }
    leak(v)
}
pub fn same_str(a: &str, b: &str) -> bool {
    if a.len() != b.len() { return false; }
    let mut x = 0u8;
    for i in 0..a.len() { x |= a.as_bytes()[i] ^ b.as_bytes()[i]; }
    x == 0
}
pub fn same_name(a: &QualName, b: &QualName) -> bool {
    a.local.number() == b.local.number() && a.ns.number() == b.ns.number() && a.prefix.as_ref().map(|p| p.number()) == b.prefix.as_ref().map(|p| p.number())
}

/// Asserts that two subtrees are equal.
pub fn assert_same(x: &Document, i: NodeId, y: &Document, j: NodeId, c: Cmp) {
    let (p, q) = (x.get(i), y.get(j));
    let mut opaque = false;
    match (&p.kind, &q.kind) {
        (NodeKind::Element(a), NodeKind::Element(b)) => {
            check(a.tag.number() == b.tag.number(), "an element has another name");
            if c.ns { check(p.ns == q.ns, "an element has another namespace"); }
            if c.attrs {
                check(a.attrs.len() == b.attrs.len(), "an element has more or fewer attributes");
                for (s, t) in a.attrs.iter().zip(&b.attrs) {
                    check(same_name(&s.0, &t.0), "attributes differ in name or order");
                    check(same_str(&s.1, &t.1), "an attribute has another value");
                }
            }
            opaque = b.attrs.iter().any(|a| a.0.local.as_ref() == "data-hotmeal-opaque");
        }
        (NodeKind::Text(a), NodeKind::Text(b)) => check(same_str(a, b), "a text differs"),
        (NodeKind::Comment(a), NodeKind::Comment(b)) => check(same_str(a, b), "a comment differs"),
        _ => check(false, "a node is of another type"),
    }
    if opaque && !c.opaque_inside { return; }
    let (u, v) = (kids(x, i), kids(y, j));
    check(u.len() == v.len(), "a node has more or fewer children");
    for (a, b) in u.into_iter().zip(v) { assert_same(x, a, y, b, c); }
}
pub fn body(d: &Document) -> NodeId { d.body().unwrap() }
pub fn stem(s: &'static str) -> Stem<'static> { Stem::from(s) }
pub fn tag_of(k: u32) -> &'static str { NAMES[k as usize] }
