//! The browser side: patches of a diff applied to a page by hotmeal-wasm.
use crate::dom::*;
use crate::large;
use crate::vp::*;
use hotmeal::{Document, NodeId, NodeKind, Namespace, Patch, QualName, diff};
use web_sys as w;
use web_sys::{JsCast, JsValue};

const URL: [&str; 3] = ["http://www.w3.org/1999/xhtml", "http://www.w3.org/2000/svg", "http://www.w3.org/1998/Math/MathML"];
fn url(ns: Namespace) -> &'static str { match ns { Namespace::Svg => URL[1], Namespace::MathMl => URL[2], _ => URL[0] } }
fn qualified(n: &QualName) -> String { match &n.prefix { Some(p) => format!("{}:{}", &**p, &*n.local), None => n.local.to_string() } }

/// The browser's node for a node of a page, as its parser builds it.
fn mirror(d: &Document, id: NodeId, seen: &mut Vec<(NodeId, w::Node)>) -> w::Node {
    let x = d.get(id);
    let n = match &x.kind {
        NodeKind::Text(t) => w::make(w::Ty::Text, "", "", t),
        NodeKind::Comment(t) => w::make(w::Ty::Comment, "", "", t),
        NodeKind::Element(e) => {
            let n = w::make(w::Ty::Element, &e.tag, url(x.ns), "");
            for a in &e.attrs { w::parsed_attr(&n, &a.0.ns, &qualified(&a.0), &a.1) }
            for c in d.children(id) { let _ = n.append_child(&mirror(d, c, seen)); }
            n
        }
        NodeKind::Document => unreachable!(),
    };
    seen.push((id, n.clone()));
    n
}
fn same(a: &JsValue, b: &JsValue) -> bool { a.same(b) }
fn opaque(d: &Document, id: NodeId) -> bool { matches!(&d.get(id).kind, NodeKind::Element(e) if e.attrs.iter().any(|a| a.0.local.number() == nm("data-hotmeal-opaque"))) }
fn inside_opaque(d: &Document, id: NodeId) -> bool { let mut p = d.parent(id); while let Some(x) = p { if opaque(d, x) { return true } p = d.parent(x) } false }
fn dom_kids(n: &w::Node) -> Vec<w::Node> { let l = n.child_nodes(); (0..l.length()).filter_map(|i| l.item(i)).collect() }
fn empty(n: &w::Node) -> bool { n.node_type() == 3 && n.text_content().unwrap_or_default().is_empty() }

struct Was<'a> { old: &'a Document<'static>, seen: &'a [(NodeId, w::Node)], root: w::Node, events: Vec<(JsValue, w::Event)>, islands: bool }
impl Was<'_> {
    /// The node of the old page that a browser node comes from.
    fn origin(&self, n: &w::Node) -> Option<NodeId> { self.seen.iter().find(|s| same(&s.1, n)).map(|s| s.0) }
    /// Content of an opaque element: exactly the nodes it had.
    fn untouched(&self, n: &w::Node, id: NodeId) {
        let (u, v) = (dom_kids(n), self.old.children(id).collect::<Vec<_>>());
        check(u.len() == v.len(), "content of an opaque element was touched");
        for (a, b) in u.iter().zip(v) {
            check(self.origin(a) == Some(b), "content of an opaque element was touched");
            self.own(a, self.old, b, false);
            self.untouched(a, b);
        }
    }
    /// Name, namespace, attributes or text of one node.
    fn own(&self, n: &w::Node, y: &Document, j: NodeId, root: bool) {
        let q = y.get(j);
        match &q.kind {
            NodeKind::Text(t) => { check(n.node_type() == 3, "a node is of another type"); check(same_str(&n.text_content().unwrap_or_default(), t), "a text differs") }
            NodeKind::Comment(t) => { check(n.node_type() == 8, "a node is of another type"); check(same_str(&n.text_content().unwrap_or_default(), t), "a comment differs") }
            NodeKind::Element(e) => {
                let Some(el) = n.dyn_ref::<w::Element>() else { check(false, "a node is of another type"); return };
                if root { return }
                check(el.local_name() == *e.tag, "an element has another name");
                check(el.namespace_uri().as_deref() == Some(url(q.ns)), "an element has another namespace");
                let at = el.attributes();
                check(at.length() as usize == e.attrs.len(), "an element has more or fewer attributes");
                for (i, a) in e.attrs.iter().enumerate() {
                    let Some(b) = at.item(i as u32) else { return };
                    check(b.name() == qualified(&a.0), "attributes differ in name or order");
                    check(b.namespace_uri().unwrap_or_default() == *a.0.ns, "an attribute has another namespace");
                    check(same_str(&b.value(), &a.1), "an attribute has another value");
                }
            }
            NodeKind::Document => {}
        }
    }
    fn equal(&self, n: &w::Node, y: &Document, j: NodeId, mount: bool) {
        self.own(n, y, j, mount);
        if self.islands && opaque(y, j) && !inside_opaque(y, j) {
            let told: Vec<&w::Event> = self.events.iter().filter(|e| same(&e.0, n)).map(|e| &e.1).collect();
            if let Some(i) = self.origin(n) {
                let is = y.serialize_inner_html(j);
                if inside_opaque(self.old, i) { return }
                let other = !same_str(&self.old.serialize_inner_html(i), &is);
                if opaque(self.old, i) { reach("island_stays"); self.untouched(n, i) }
                check(told.len() == other as usize || !opaque(self.old, i), "an opaque element is told of changed content too often, never, or though it has not changed");
                check(!other || told.len() == 1, "an element that became opaque is not told its content once");
                for e in told {
                    reach("island_told");
                    check(w::event_type(e) == "hotmeal:opaque-changed" && w::event_bubbles(e), "changed content is told by another event");
                    check(w::event_detail(e, "content").as_string().is_some_and(|c| same_str(&c, &is)), "the content told is not the new content");
                    check(w::event_detail(e, "element").same(n), "the event names another element");
                    check(w::event_detail(e, "key").as_string().is_some_and(|c| c.is_empty()), "the event names another key");
                }
                return;
            }
            check(told.is_empty(), "a new opaque element is told of changed content");
        }
        let (u, v) = (dom_kids(n).into_iter().filter(|k| !empty(k)).collect::<Vec<_>>(), kids(y, j));
        check(u.len() == v.len(), "a node has more or fewer children");
        for (a, b) in u.iter().zip(v) { self.equal(a, y, b, false) }
    }
}

/// Parameters as for two pages; 24: bit 0 patch by patch with slots kept outside, bit 1 below a
/// mount point, bit 2 two updates one after the other, bit 3 an attribute name scripts cannot set,
/// bit 4 sent as bytes, bit 5 sent as text.
pub fn w01() {
    let ga = Gen::from_params(2);
    let gb = if param(1) == 0 { ga } else { Gen::from_params(13) };
    let mode = param(24);
    let (mut a, mut b, c) = if ga.style >= 10 {
        let t = large::base_page(&ga, "nodes");
        let u = large::edited(&ga, &t);
        let c = if mode & 4 == 4 { Some(large::edited(&ga, &u).page()) } else { None };
        (t.page(), u.page(), c)
    } else {
        let (a, b) = (gen_page(&ga, "nodes_a"), gen_page(&gb, "nodes_b"));
        (a, b, if mode & 4 == 4 { Some(gen_page(&ga, "nodes_c")) } else { None })
    };
    set_odd(mode & 8 == 8);
    let (old, new) = (a.build(0), b.build(0));
    let doc = w::open_page();
    let mount = mode & 2 == 2;
    let Some(page) = doc.body() else { return };
    let mut seen = vec![];
    let html = mirror(&old, body(&old), &mut seen);
    let root: w::Node;
    let mut around = vec![];
    if mount {
        let text = |s| w::make(w::Ty::Text, "", "", s);
        let el = w::make(w::Ty::Element, "main", URL[0], "");
        w::parsed_attr(&el, "", "id", "mount");
        for k in dom_kids(&html) { let _ = el.append_child(&k); }
        around = vec![text("before"), el.clone(), text(""), text("after")];
        for n in &around { let _ = page.append_child(n); }
        root = el;
    } else {
        let Some(top) = page.parent_node() else { return };
        let _ = top.replace_child(&html, &page);
        root = html;
    }
    if let Some(i) = seen.iter().position(|s| s.0 == body(&old)) { seen[i].1 = root.clone() }
    update(&old, &new, mode, &root, &seen);
    if mode & 64 == 64 {
        // the same page patched natively
        let mut twin = a.build(0);
        let Ok(ps) = diff(&old, &new) else { return };
        check(twin.apply_patches(ps).is_ok(), "the old page does not accept the patches");
        kept(&root, &twin, body(&twin), &old, &seen);
    }
    if let Some(mut c) = c {
        let third = c.build(0);
        update(&new, &third, mode, &root, &[]);
    }
    if mount {
        let Some(page) = doc.body() else { return };
        let left = dom_kids(&page);
        check(left.len() == 4 && left.iter().zip(&around).all(|(x, y)| same(x, y)), "nodes beside the mount point were touched");
        check(empty(&around[2]) && around[0].text_content().as_deref() == Some("before") && around[3].text_content().as_deref() == Some("after"), "text beside the mount point was touched");
        check(root.dyn_ref::<w::Element>().is_some_and(|e| e.attributes().length() == 1 && e.id() == "mount"), "the mount point itself was changed");
    } else {
        check(doc.body().is_some_and(|x| same(&x, &root)), "the body was replaced");
    }
    check(doc.head().is_some_and(|h| !h.has_child_nodes()), "the head was touched");
    set_odd(false);
}
fn update(old: &Document<'static>, new: &Document<'static>, mode: u64, root: &w::Node, seen: &[(NodeId, w::Node)]) {
    let Ok(ps) = diff(old, new) else { check(false, "the diff failed"); return };
    super::h::marks(&ps);
    super::h::dump(old, new, &ps);
    let mount = mode & 2 == 2;
    let n = if mode & 1 == 1 {
        let mut slots = hotmeal_wasm::Slots::new();
        let mut n = Ok(0);
        for p in &ps {
            let one: &[Patch] = std::slice::from_ref(p);
            let r = if mount { hotmeal_wasm::apply_patches_with_slots_on(one, &mut slots, "#mount") } else { hotmeal_wasm::apply_patches_with_slots(one, &mut slots) };
            n = n.and_then(|k| r.map(|x| k + x));
        }
        n
    } else if mode & 16 == 16 {
        let Ok(blob) = facet_postcard::to_vec(&ps) else { check(false, "the patches cannot be sent"); return };
        if mount { hotmeal_wasm::apply_patches_postcard_on(&blob, "#mount") } else { hotmeal_wasm::apply_patches_postcard(&blob) }
    } else if mode & 32 == 32 {
        let Ok(json) = facet_json::to_string(&ps) else { check(false, "the patches cannot be sent"); return };
        hotmeal_wasm::apply_patches_json(&json)
    } else if mount { hotmeal_wasm::apply_patches_on(&ps, "#mount") } else { hotmeal_wasm::apply_patches(&ps) };
    #[cfg(feature = "dump")] println!("page {} {n:?}", root.unchecked_ref::<w::Element>().outer_html());
    check(n.is_ok(), "the page does not accept the patches");
    check(n == Ok(ps.len()), "not as many patches are reported as applied");
    let was = Was { old, seen, root: root.clone(), events: w::take_events(), islands: !seen.is_empty() };
    for e in &was.events {
        let Some(t) = e.0.dyn_ref::<w::Node>() else { continue };
        check(was.root.contains(Some(t)), "an event goes to an element that is not in the page");
        if let Some(i) = was.origin(t) { check(i != body(old), "an event goes to the page itself") }
    }
    was.equal(root, new, body(new), mount);
    if mode & 1 == 0 { normal(root) }
}
/// A node is one of the old page's nodes in the browser exactly if it is natively.
fn kept(n: &w::Node, d: &Document, id: NodeId, old: &Document, seen: &[(NodeId, w::Node)]) {
    let from = seen.iter().find(|s| same(&s.1, n)).map(|s| s.0);
    let is = seen.iter().any(|s| s.0 == id);
    if is { reach("kept") } else { reach("new") }
    check(from == if is { Some(id) } else { None }, "a node that native patching keeps is replaced in the browser, or the other way round");
    if opaque(d, id) || (is && opaque(old, id)) { return }
    let (u, v) = (dom_kids(n).into_iter().filter(|k| !empty(k)).collect::<Vec<_>>(), kids(d, id));
    check(u.len() == v.len(), "a node has more or fewer children");
    for (a, b) in u.iter().zip(v) { kept(a, d, b, old, seen) }
}
/// No placeholders are left outside of opaque elements.
fn normal(n: &w::Node) {
    check(!empty(n), "a placeholder is left in the page");
    if n.dyn_ref::<w::Element>().is_some_and(|e| e.has_attribute("data-hotmeal-opaque")) { return }
    for k in dom_kids(n) { normal(&k) }
}
