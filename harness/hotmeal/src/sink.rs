//! Tree construction: a script of callbacks, as the parser makes them, against a plain model.
use crate::dom::*;
use crate::vp::*;
use hotmeal::{Document, LocalName, NodeId, NodeKind, QualName, StrTendril, parse};
use html5ever::script::{self, Op, Txt};
use html5ever::Namespace as Ns;

enum Ty { Doc, Element(Vec<(u32, Vec<u8>)>), Text(Vec<u8>), Comment(Vec<u8>) }
struct Nd { ty: Ty, par: Option<usize>, kids: Vec<usize> }
/// Text nodes have no handles; `h` maps handles to nodes.
struct Model { nd: Vec<Nd>, h: Vec<usize> }
impl Model {
    fn new_node(&mut self, ty: Ty) -> usize { self.nd.push(Nd { ty, par: None, kids: vec![] }); self.nd.len() - 1 }
    fn detach(&mut self, n: usize) { if let Some(p) = self.nd[n].par.take() { self.nd[p].kids.retain(|&k| k != n) } }
    fn append(&mut self, p: usize, n: usize) { self.detach(n); self.nd[p].kids.push(n); self.nd[n].par = Some(p) }
    fn text(&mut self, p: usize, at: usize, t: &[u8]) {
        if at > 0 {
            let k = self.nd[p].kids[at - 1];
            if let Ty::Text(s) = &mut self.nd[k].ty { s.extend_from_slice(t); return }
        }
        let n = self.new_node(Ty::Text(t.to_vec()));
        self.nd[p].kids.insert(at, n);
        self.nd[n].par = Some(p);
    }
    fn at(&self, n: usize) -> (usize, usize) { let p = self.nd[n].par.unwrap(); (p, self.nd[p].kids.iter().position(|&k| k == n).unwrap()) }
    fn under(&self, mut n: usize, a: usize) -> bool { loop { if n == a { return true } match self.nd[n].par { Some(p) => n = p, None => return false } } }
}
fn bytes(input: &str, t: &Txt) -> Vec<u8> { match t { Txt::Lit(s) => s.as_bytes().to_vec(), Txt::Sub(o, n) => input.as_bytes()[*o as usize..(*o + *n) as usize].to_vec() } }

fn compare(d: &Document, i: NodeId, m: &Model, n: usize) {
    match (&d.get(i).kind, &m.nd[n].ty) {
        (NodeKind::Element(e), Ty::Element(attrs)) => {
            let h = m.h.iter().position(|&x| x == n).unwrap();
            check(e.tag.number() == name_of(h), "an element is in the place of another");
            check(e.attrs.len() == attrs.len(), "an element has more or fewer attributes than the parser gave it");
            for (a, b) in e.attrs.iter().zip(attrs) {
                check(same_name(&a.0, &attr_name(b.0)), "attributes differ in name or order");
                check(same(a.1.as_bytes(), &b.1), "an attribute has another value");
            }
        }
        (NodeKind::Text(t), Ty::Text(s)) => check(same(t.as_bytes(), s), "a text differs"),
        (NodeKind::Comment(t), Ty::Comment(s)) => check(same(t.as_bytes(), s), "a comment differs"),
        (NodeKind::Document, Ty::Doc) => {}
        _ => check(false, "a node is of another type"),
    }
    let k: Vec<NodeId> = d.children(i).collect();
    check(k.len() == m.nd[n].kids.len(), "a node has more or fewer children");
    for (a, &b) in k.into_iter().zip(&m.nd[n].kids) { compare(d, a, m, b) }
}
fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && { let mut x = 0; for i in 0..a.len() { x |= a[i] ^ b[i] } x == 0 } }
/// A different name for each handle.
fn name_of(h: usize) -> u32 { [0, nm("html"), nm("body"), nm("div"), nm("table"), nm("p"), nm("span")][h] }

/// Parameters: 2 elements, 3 comments, 4 callbacks, 5: 1 with attributes, 6: 1 with foster parenting,
/// 7: 1 with a doctype, 8: 1 if the second element starts out in the page, with a text and the third
/// element inside.
pub fn run() {
    let (els, coms, steps) = (param(2) as usize, param(3) as usize, param(4) as usize);
    let input = leak((0..4).map(|_| b'a' + sym8("input", 15)).collect());
    let mut m = Model { nd: vec![], h: vec![] };
    let mut ops = vec![];
    let doc = m.new_node(Ty::Doc);
    m.h.push(doc);
    // the page is borrowed from the input where the parser passes pieces of it on
    let txt = |nm: &str| match pick(nm, 0, 1) { 0 => Txt::Sub(0, 1), _ => Txt::Lit("x".into()) };
    for i in 0..els {
        let attrs: Vec<(u32, Txt)> = if param(5) > 0 && i < 2 { vec![(2, Txt::Sub(1, 1))] } else { vec![] };
        ops.push(Op::Element(QualName::new(None, Ns::from("http://www.w3.org/1999/xhtml"), LocalName::nth(name_of(i + 1))), attrs.iter().map(|(k, t)| (attr_name(*k), t.clone())).collect()));
        let n = m.new_node(Ty::Element(attrs.iter().map(|(k, t)| (*k, bytes(input, t))).collect()));
        m.h.push(n);
    }
    for _ in 0..coms {
        ops.push(Op::Comment(Txt::Sub(2, 2)));
        let n = m.new_node(Ty::Comment(input.as_bytes()[2..4].to_vec()));
        m.h.push(n);
    }
    let first = if coms > 0 && pick("comment first", 0, 1) == 1 { ops.push(Op::Append(0, els + 1)); let c = m.h[els + 1]; m.append(doc, c); true } else { false };
    ops.push(Op::Append(0, 1));
    let html = m.h[1];
    m.append(doc, html);
    if first { reach("comment_first") }
    if param(8) > 0 {
        let (b, e) = (m.h[2], m.h[3]);
        ops.extend([Op::Append(1, 2), Op::AppendText(2, Txt::Sub(0, 1)), Op::Append(2, 3)]);
        m.append(html, b);
        m.text(b, 0, &input.as_bytes()[..1]);
        m.append(b, e);
    }
    for _ in 0..steps {
        // handles of elements, and of anything but the document and the root
        let el = || pick("element", 1, els as u64) as usize;
        let any = || pick("node", 2, (els + coms) as u64) as usize;
        match pick("callback", 0, if param(6) > 0 { 8 } else if param(5) > 0 { 7 } else { 6 }) {
            0 => {
                let (p, c) = (el(), any());
                assume(m.nd[m.h[c]].par.is_none() && !m.under(m.h[p], m.h[c]));
                ops.push(Op::Append(p, c));
                let (p, c) = (m.h[p], m.h[c]);
                m.append(p, c);
            }
            1 => {
                let (p, t) = (el(), txt("text"));
                let (n, b) = (m.h[p], bytes(input, &t));
                ops.push(Op::AppendText(p, t));
                let at = m.nd[n].kids.len();
                m.text(n, at, &b);
            }
            2 => {
                let (s, c) = (any(), any());
                let (x, y) = (m.h[s], m.h[c]);
                assume(x != y && m.nd[x].par.is_some() && !m.under(x, y));
                ops.push(Op::Before(s, c));
                m.detach(y);
                let (p, at) = m.at(x);
                m.nd[p].kids.insert(at, y);
                m.nd[y].par = Some(p);
                reach("before_sibling");
            }
            3 => {
                let (s, t) = (any(), txt("text"));
                let x = m.h[s];
                assume(m.nd[x].par.is_some());
                let b = bytes(input, &t);
                ops.push(Op::BeforeText(s, t));
                let (p, at) = m.at(x);
                m.text(p, at, &b);
                reach("text_before_sibling");
            }
            4 => { let n = any(); ops.push(Op::Remove(n)); let x = m.h[n]; m.detach(x) }
            5 => {
                let (f, t) = (el(), el());
                assume(f != t && !m.under(m.h[t], m.h[f]));
                ops.push(Op::Reparent(f, t));
                let (x, y) = (m.h[f], m.h[t]);
                for k in m.nd[x].kids.clone() { m.append(y, k) }
                reach("reparent");
            }
            6 => { ops.push(Op::Error); }
            7 => {
                let e = el();
                let k = pick("name", 2, 3) as u32;
                ops.push(Op::AddAttrs(e, vec![(attr_name(k), Txt::Sub(3, 1))]));
                let n = m.h[e];
                if let Ty::Element(a) = &mut m.nd[n].ty { if !a.iter().any(|x| x.0 == k) { a.push((k, vec![input.as_bytes()[3]])) } }
            }
            _ => {
                // foster parenting: before the table if that is in the page, else into the element before it
                let (t, p) = (el(), el());
                let (x, y) = (m.h[t], m.h[p]);
                assume(x != html);
                if pick("foster", 0, 1) == 0 {
                    let w = txt("text");
                    let b = bytes(input, &w);
                    ops.push(Op::FosterText(t, p, w));
                    if m.nd[x].par.is_some() { let (q, at) = m.at(x); m.text(q, at, &b) } else { let at = m.nd[y].kids.len(); m.text(y, at, &b) }
                } else {
                    let c = any();
                    let z = m.h[c];
                    assume(z != x && m.nd[z].par.is_none() && !m.under(x, z) && !m.under(y, z));
                    ops.push(Op::Foster(t, p, c));
                    if m.nd[x].par.is_some() { let (q, at) = m.at(x); m.nd[q].kids.insert(at, z); m.nd[z].par = Some(q) } else { m.append(y, z) }
                }
                reach("foster");
            }
        }
    }
    let dt = param(7) > 0;
    ops.push(Op::Doctype(Txt::Lit("html".into())));
    let errors = ops.iter().filter(|o| matches!(o, Op::Error)).count();
    script::set(ops);
    let t = StrTendril::from([if dt { "<!doctype html>@@@" } else { "@@@" }, input].concat());
    let d = parse(&t);
    check(d.doctype.is_some() == dt, "the doctype is lost or made up");
    check(d.errors.len() == errors, "parse errors are lost");
    let top = m.nd[doc].kids.iter().find(|&&k| matches!(m.nd[k].ty, Ty::Element(_))).copied();
    let top = name_of(m.h.iter().position(|&x| Some(x) == top).unwrap());
    check(d.root != doc_of(&d) && matches!(&d.get(d.root).kind, NodeKind::Element(e) if e.tag.number() == top), "the root is not the first element of the page");
    compare(&d, doc_of(&d), &m, doc);
    for (i, (_, local, unique)) in script::names_seen().into_iter().enumerate() {
        check(unique, "different nodes are taken for the same, or the same for different ones");
        if i >= 1 && i <= els { check(local == name_of(i), "an element is given another name") }
    }
}
fn doc_of(d: &Document) -> NodeId { let mut n = d.root; while let Some(p) = d.parent(n) { n = p } n }
