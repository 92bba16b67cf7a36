//! Larger pages and edited copies of them.
use crate::dom::*;
use crate::vp::*;
use hotmeal::*;

/// An editable page.
#[derive(Clone)]
pub struct Pn { pub ty: Ty, pub tag: u32, pub text: &'static str, pub attrs: Vec<(u32, &'static str)>, pub opaque: bool, pub kids: Vec<Pn> }

fn element(tag: u32) -> Pn { Pn { ty: Ty::Element, tag, text: "", attrs: vec![], opaque: false, kids: vec![] } }
fn node(ty: Ty, text: &'static str) -> Pn { Pn { ty, tag: 0, text, attrs: vec![], opaque: false, kids: vec![] } }

impl Pn {
    pub fn count(&self) -> usize { 1 + self.kids.iter().map(Pn::count).sum::<usize>() }
    /// The node at a position of the preorder.
    pub fn at(&mut self, i: usize) -> &mut Pn {
        if i == 0 { return self; }
        let mut i = i - 1;
        for k in &mut self.kids { let c = k.count(); if i < c { return k.at(i); } i -= c; }
        unreachable!()
    }
    /// The place of the node among its siblings, and the siblings.
    fn among(&mut self, i: usize) -> (&mut Vec<Pn>, usize) {
        let mut i = i - 1;
        for k in 0..self.kids.len() {
            if i == 0 { return (&mut self.kids, k); }
            let c = self.kids[k].count();
            if i < c { return self.kids[k].among(i); }
            i -= c;
        }
        unreachable!()
    }
    fn flatten(&self, par: usize, nd: &mut Vec<Nd>) {
        let me = nd.len();
        let mut attrs = self.attrs.clone();
        if self.opaque { attrs.push((OPAQUE, "")); }
        nd.push(Nd { par, kids: self.kids.len(), ty: self.ty, tag: self.tag, ns: 0, text: self.text, attrs, opaque: self.opaque });
        for k in &self.kids { k.flatten(me, nd); }
    }
    pub fn page(&self) -> Page { let mut nd = vec![]; self.flatten(usize::MAX, &mut nd); Page { nd, ids: vec![] } }
}

/// Parents of the nodes: 10 flat, 11 chain, 12 caterpillar, 13 binary, 14 records of four nodes, 16 list of lists.
fn parents(style: u64, n: usize, w: usize) -> Vec<usize> {
    (0..n).map(|i| if i == 0 { usize::MAX } else { match style {
        10 => 0,
        11 => i - 1,
        12 => if i % 2 == 1 { i.saturating_sub(2) } else { i - 2 },
        13 => (i - 1) / 2,
        14 => match i % 4 { 1 => 0, 2 => i - 1, 3 => i - 2, _ => i - 1 },
        _ => if i <= w { 0 } else { 1 + (i - w - 1) / w },
    } }).collect()
}
/// A place; in large pages one of the first, the middle and the last.
pub fn place(nm: &str, lo: u64, hi: u64) -> usize {
    if hi - lo < 40 { return pick(nm, lo, hi) as usize; }
    [lo, lo + 1, (lo + hi) / 2, hi - 1, hi][pick(nm, 0, 4) as usize] as usize
}
/// Two letters, different for every number.
fn letters(first: u8, i: usize) -> &'static str { leak(vec![first + (i / 26) as u8, b'a' + (i % 26) as u8]) }

fn tag(k: usize) -> u32 { nm(["div", "p", "span", "b", "a", "ul", "li", "pre"][k % 8]) }

/// `tags` patterns of names, `leaves` 0 elements, 1 texts, 2 texts and comments, 3 texts and elements
/// in turn; `attrs` 1 every element has its own id, 2 and a class; `opaque` 1 any one element is opaque.
pub fn base_page(g: &Gen, shape: &str) -> Pn {
    let par = match g.style {
        15 => gen_shape(&Gen { style: 0, ..*g }, shape),
        s => {
            let n = if g.lo == g.hi { g.lo } else { pick(shape, g.lo, g.hi) } as usize;
            parents(s, n, (1..).find(|w| w * w >= n).unwrap())
        }
    };
    let pattern = if g.tags > 1 { pick("names", 0, g.tags - 1) } else { 0 };
    fn build(i: usize, pos: usize, depth: usize, par: &[usize], f: &dyn Fn(usize, usize, usize) -> Pn) -> Pn {
        let mut t = f(i, pos, depth);
        for (p, c) in (0..par.len()).filter(|&c| par[c] == i).enumerate() { let k = build(c, p, depth + 1, par, f); t.kids.push(k); }
        t
    }
    let mut t = build(0, 0, 0, &par, &|i, pos, depth| {
        let leaf = !par.contains(&i);
        if i > 0 && leaf && g.leaves > 0 && (g.leaves < 3 || i % 2 == 0) {
            return node(if g.leaves == 2 && i % 2 == 1 { Ty::Comment } else { Ty::Text }, letters(b'a', i));
        }
        let mut e = element(if i == 0 { 0 } else { tag(match pattern { 0 => 0, 1 => leaf as usize, 2 => pos % 2, 3 => i, _ => depth % 2 }) });
        if i > 0 && g.attrs > 0 { e.attrs.push((0, letters(b'A', i))); }
        if i > 0 && g.attrs > 1 { e.attrs.push((1, "c")); }
        e
    });
    if g.opaque > 0 { let n = t.count() as u64; let x = place("opaque", 0, n - 1); let x = t.at(x); if x.ty == Ty::Element && x.tag != 0 { x.opaque = true; } }
    t
}

/// Another list of attributes for an element.
fn other_attrs(x: &mut Pn) {
    match pick("attributes", 0, 4) {
        0 => match x.attrs.first_mut() { Some(a) => a.1 = one_char("value", b'A', 3), None => x.attrs.push((0, "A")) },
        1 => x.attrs.insert(0, (4, one_char("value", b'A', 2))),
        2 => x.attrs.push((4, "")),
        3 => { x.attrs.pop(); }
        _ => x.attrs.reverse(),
    }
}

/// `chars` edits of the sorts in the mask `bodyattrs`: 1 new leaf, 2 delete, 4 move, 8 text, 16 attributes,
/// 32 name, 64 copy, 128 opacity, 256 wrap, 512 unwrap.
pub fn edited(g: &Gen, base: &Pn) -> Pn {
    let mut t = base.clone();
    let sorts: Vec<u64> = (0..10).filter(|k| g.bodyattrs >> k & 1 == 1).collect();
    for _ in 0..g.chars {
        let n = t.count() as u64;
        let k = if sorts.len() == 1 { sorts[0] } else { sorts[pick("edit", 0, sorts.len() as u64 - 1) as usize] };
        if n < 2 && k != 0 { continue; }
        match k {
            0 | 2 | 6 => {
                let new = match k {
                    0 if g.leaves > 0 && pick("new_text", 0, 1) == 1 => node(Ty::Text, leak(vec![b'a', b'a' + sym8("text", 3)])),
                    0 => element(nm("p")),
                    2 => { let x = place("node", 1, n - 1); let (v, k) = t.among(x); v.remove(k) }
                    _ => { let x = place("node", 1, n - 1); t.at(x).clone() }
                };
                let n = t.count() as u64;
                let p = t.at(if n == 1 { 0 } else { place("under", 0, n - 1) });
                if p.ty != Ty::Element { continue; }
                let c = p.kids.len() as u64;
                let at = if c == 0 { 0 } else { place("place", 0, c) };
                p.kids.insert(at, new);
            }
            1 => { let x = place("node", 1, n - 1); let (v, k) = t.among(x); v.remove(k); }
            8 => { let x = place("node", 1, n - 1); let (v, k) = t.among(x); let old = std::mem::replace(&mut v[k], element(nm("span"))); v[k].kids.push(old); }
            9 => {
                let x = place("node", 1, n - 1);
                let (v, k) = t.among(x);
                if v[k].ty == Ty::Element { let old = v.remove(k); for (i, c) in old.kids.into_iter().enumerate() { v.insert(k + i, c); } }
            }
            _ => {
                let x = place("node", 1, n - 1);
                let x = t.at(x);
                match k {
                    3 => if x.ty != Ty::Element { x.text = leak(vec![b'a', b'a' + sym8("text", 3)]); },
                    _ if x.ty != Ty::Element => {}
                    4 => other_attrs(x),
                    5 => x.tag = nm(["div", "p", "b"][pick("name", 0, 2) as usize]),
                    _ => x.opaque = !x.opaque,
                }
            }
        }
    }
    t
}

/// Equal but for the attributes.
fn alike(a: &Pn, b: &Pn) -> bool {
    a.ty == b.ty && a.tag == b.tag && same_str(a.text, b.text) && a.kids.len() == b.kids.len() && a.kids.iter().zip(&b.kids).all(|(x, y)| alike(x, y))
}
fn same_attrs(a: &Pn, b: &Pn) -> bool { a.attrs.len() == b.attrs.len() && a.attrs.iter().zip(&b.attrs).all(|(x, y)| x.0 == y.0 && same_str(x.1, y.1)) }
fn all<'a>(t: &'a Pn, v: &mut Vec<&'a Pn>) { v.push(t); for k in &t.kids { all(k, v); } }
/// No two subtrees of the page are equal but for attributes.
fn unique(t: &Pn) -> bool {
    let mut v = vec![];
    all(t, &mut v);
    (0..v.len()).all(|i| (0..i).all(|j| !alike(v[i], v[j])))
}
/// Where the node at a position of the preorder is.
fn path(t: &Pn, i: usize) -> Vec<u32> {
    if i == 0 { return vec![0]; }
    let mut out = vec![0];
    let (mut t, mut i) = (t, i);
    while i > 0 {
        i -= 1;
        for (k, c) in t.kids.iter().enumerate() {
            let n = c.count();
            if i < n { out.push(k as u32); t = c; break; }
            i -= n;
        }
    }
    out
}
fn inserted(c: &InsertContent, p: &Pn) -> bool {
    match c {
        InsertContent::Element { tag, attrs, children } => p.ty == Ty::Element && tag.number() == p.tag && attrs.len() == p.attrs.len() && attrs.iter().zip(&p.attrs).all(|(a, b)| same_name(&a.name, &attr_name(b.0)) && same_str(&a.value, b.1))
            && children.len() == p.kids.len() && children.iter().zip(&p.kids).all(|(a, b)| inserted(a, b)),
        InsertContent::Text(s) => p.ty == Ty::Text && same_str(s, p.text),
        InsertContent::Comment(s) => p.ty == Ty::Comment && same_str(s, p.text),
    }
}

/// One small change of a page is one patch.
pub fn h13() {
    let g = Gen::from_params(2);
    let base = base_page(&g, "nodes");
    if !unique(&base) { return; }
    let n = base.count() as u64;
    let mut t = base.clone();
    let x = place("node", 0, n - 1);
    let what = pick("edit", 0, 3);
    let e = t.at(x);
    let mut new = None;
    match what {
        0 => { if e.ty == Ty::Element { return; } e.text = "zz"; }
        1 => {
            if e.ty != Ty::Element || x == 0 { return; }
            let old = e.attrs.clone();
            other_attrs(e);
            let kept = e.attrs.iter().filter(|a| old.iter().any(|b| a.0 == b.0)).count();
            if 4 * kept < old.len() + e.attrs.len() { return; }
        }
        2 => {
            if e.ty != Ty::Element { return; }
            let mut c = match pick("new", 0, 2) { 0 => node(Ty::Text, "zz"), 1 => node(Ty::Comment, "zz"), _ => element(nm("pre")) };
            if c.ty == Ty::Element {
                c.attrs.push((0, "zz"));
                if pick("inside", 0, 1) == 1 { c.kids = vec![element(nm("b")), node(Ty::Text, "zy")]; c.kids[0].kids.push(node(Ty::Text, "zx")); }
            }
            new = Some(c.clone());
            e.kids.push(c);
        }
        _ => { if x == 0 { return; } let (v, k) = t.among(x); if k + 1 != v.len() { return; } v.remove(k); }
    }
    if !unique(&t) { return; }
    let (mut a, mut b) = (base.page(), t.page());
    let (old, page) = (a.build(0), b.build(1));
    let Ok(ps) = diff(&old, &page) else { check(false, "the diff failed"); return };
    super::h::marks(&ps);
    super::h::dump(&old, &page, &ps);
    if what == 1 && ps.is_empty() { check(same_attrs(base.clone().at(x), t.at(x)), "a changed attribute gives no patch"); return; }
    // content comes and goes node by node
    let many = match what { 2 => new.as_ref().map_or(1, Pn::count), 3 => base.clone().at(x).count(), _ => 1 };
    check(ps.len() == many, "a small change is more than one patch");
    for p in &ps[1..] { check(match p { Patch::InsertElement { detach_to_slot, .. } | Patch::InsertText { detach_to_slot, .. } => what == 2 && detach_to_slot.is_none(), Patch::Remove { .. } => what == 3, _ => false }, "a small change is more than one patch"); }
    let at = path(&base, x);
    let one = if what == 3 { ps.last() } else { ps.first() };
    let ok = match (one.unwrap(), what) {
        (Patch::SetText { path, text }, 0) => path.0[..] == at[..] && same_str(text, "zz"),
        (Patch::UpdateProps { path, .. }, 1) => path.0[..] == at[..],
        (Patch::Remove { node }, 3) => node.0.0[..] == at[..],
        (p, 2) => {
            let mut new = new.unwrap();
            new.kids.clear();
            let mut to = at;
            to.push(base.clone().at(x).kids.len() as u32);
            match p {
                Patch::InsertElement { at, tag, attrs, children, detach_to_slot: None } => at.0.0[..] == to[..] && inserted(&InsertContent::Element { tag: tag.clone(), attrs: attrs.clone(), children: children.clone() }, &new),
                Patch::InsertText { at, text, detach_to_slot: None } => at.0.0[..] == to[..] && inserted(&InsertContent::Text(text.clone()), &new),
                Patch::InsertComment { at, text, detach_to_slot: None } => at.0.0[..] == to[..] && inserted(&InsertContent::Comment(text.clone()), &new),
                _ => false,
            }
        }
        _ => false,
    };
    check(ok, "a small change is another patch, or a patch of another place");
}

/// Equal but for the attributes.
fn twins(a: &Page, i: usize, b: &Page, j: usize) -> bool {
    let (x, y) = (&a.nd[i], &b.nd[j]);
    if x.ty != y.ty || x.kids != y.kids || x.ns != y.ns || x.tag != y.tag || !same_str(x.text, y.text) { return false; }
    a.kids(i).into_iter().zip(b.kids(j)).all(|(k, l)| twins(a, k, b, l))
}
/// Content found once in each page, below elements of the same names at the same depth, stays the same nodes.
pub fn h14(mut a: Page, mut b: Page) {
    let (mut old, new) = (a.build(0), b.build(1));
    let Ok(ps) = diff(&old, &new) else { check(false, "the diff failed"); return };
    super::h::marks(&ps);
    super::h::dump(&old, &new, &ps);
    check(old.apply_patches(ps).is_ok(), "the old page does not accept the patches");
    let up = |p: &Page, i: usize| -> Vec<usize> { std::iter::successors(Some(i), |&k| if k == 0 { None } else { Some(p.nd[k].par) }).collect() };
    let places = |p: &Page, i: usize| -> Vec<usize> { let mut v: Vec<usize> = up(p, i).windows(2).map(|w| p.kids(w[1]).iter().position(|&k| k == w[0]).unwrap()).collect(); v.reverse(); v };
    for x in 1..a.n() {
        let ua = up(&a, x);
        for y in 1..b.n() {
            let ub = up(&b, y);
            if ua.len() != ub.len() || !ua.iter().zip(&ub).all(|(&p, &q)| a.nd[p].ty == b.nd[q].ty && a.nd[p].ns == b.nd[q].ns && a.nd[p].tag == b.nd[q].tag) { continue; }
            if !twins(&a, x, &b, y) { continue; }
            let once = (1..a.n()).all(|k| k == x || !twins(&a, k, &a, x)) && (1..b.n()).all(|k| k == y || !twins(&b, k, &b, y));
            if !once { continue; }
            reach("kept");
            let mut at = Some(body(&old));
            for k in places(&b, y) { at = at.and_then(|n| kids(&old, n).get(k).copied()); }
            check(at == Some(a.ids[x]), "unchanged content is replaced");
        }
    }
}
