//! Plays a list of tree-construction callbacks chosen by a harness.
use crate::tree_builder::*;
use crate::*;

#[derive(Clone, Debug)]
pub enum Txt { Lit(String), Sub(u32, u32) }
/// Handles are numbers: 0 is the document, then created nodes in order.
#[derive(Clone, Debug)]
pub enum Op {
    Element(QualName, Vec<(QualName, Txt)>),
    Comment(Txt),
    Pi,
    Append(usize, usize),
    AppendText(usize, Txt),
    Before(usize, usize),
    BeforeText(usize, Txt),
    Foster(usize, usize, usize),
    FosterText(usize, usize, Txt),
    AddAttrs(usize, Vec<(QualName, Txt)>),
    Remove(usize),
    Reparent(usize, usize),
    Doctype(Txt),
    Error,
}
thread_local! { static SCRIPT: RefCell<Option<Vec<Op>>> = const { RefCell::new(None) }; static NAMES_SEEN: RefCell<Vec<(u32, u32, bool)>> = const { RefCell::new(Vec::new()) }; }

/// The next parse plays these callbacks.
pub fn set(ops: Vec<Op>) { SCRIPT.with(|s| *s.borrow_mut() = Some(ops)) }
pub fn take() -> Option<Vec<Op>> { SCRIPT.with(|s| s.borrow_mut().take()) }
/// What the sink said about each handle after the last script: namespace, local name, and whether
/// it is the same node as itself only.
pub fn names_seen() -> Vec<(u32, u32, bool)> { NAMES_SEEN.with(|s| std::mem::take(&mut *s.borrow_mut())) }

pub fn play<S: TreeSink>(sink: &S, text: &StrTendril, ops: &[Op]) {
    let mut h: Vec<S::Handle> = vec![sink.get_document()];
    // pieces are counted from behind the marker, so that it does not matter what the text is wrapped in
    let base = text.find("@@@").map(|k| k as u32 + 3).unwrap_or(0);
    let txt = |t: &Txt| match t { Txt::Lit(s) => StrTendril::from(s.as_str()), Txt::Sub(o, n) => text.subtendril(base + *o, *n) };
    let attrs = |v: &Vec<(QualName, Txt)>| v.iter().map(|(n, t)| Attribute { name: n.clone(), value: txt(t) }).collect::<Vec<_>>();
    for op in ops {
        match op {
            Op::Element(n, a) => h.push(sink.create_element(n.clone(), attrs(a), ElementFlags::default())),
            Op::Comment(t) => h.push(sink.create_comment(txt(t))),
            Op::Pi => h.push(sink.create_pi(StrTendril::from("t"), StrTendril::from("d"))),
            Op::Append(p, c) => sink.append(&h[*p], NodeOrText::AppendNode(h[*c].clone())),
            Op::AppendText(p, t) => sink.append(&h[*p], NodeOrText::AppendText(txt(t))),
            Op::Before(s, c) => sink.append_before_sibling(&h[*s], NodeOrText::AppendNode(h[*c].clone())),
            Op::BeforeText(s, t) => sink.append_before_sibling(&h[*s], NodeOrText::AppendText(txt(t))),
            Op::Foster(e, p, c) => sink.append_based_on_parent_node(&h[*e], &h[*p], NodeOrText::AppendNode(h[*c].clone())),
            Op::FosterText(e, p, t) => sink.append_based_on_parent_node(&h[*e], &h[*p], NodeOrText::AppendText(txt(t))),
            Op::AddAttrs(n, a) => sink.add_attrs_if_missing(&h[*n], attrs(a)),
            Op::Remove(n) => sink.remove_from_parent(&h[*n]),
            Op::Reparent(n, p) => sink.reparent_children(&h[*n], &h[*p]),
            Op::Doctype(t) => sink.append_doctype_to_document(txt(t), StrTendril::new(), StrTendril::new()),
            Op::Error => sink.parse_error(Cow::Borrowed("error")),
        }
    }
    let seen = (0..h.len()).map(|i| {
        let (ns, local) = { let n = sink.elem_name(&h[i]); (n.ns().number(), n.local_name().number()) };
        (ns, local, (0..h.len()).all(|j| sink.same_node(&h[i], &h[j]) == (i == j)))
    }).collect();
    NAMES_SEEN.with(|s| *s.borrow_mut() = seen);
}
