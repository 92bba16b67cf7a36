//! Harnesses for hotmeal and hotmeal-server: each entry builds symbolic inputs, runs the real code
//! and asserts one property of it.
mod browser;
pub mod dom;
mod edit;
mod input;
mod large;
mod server;
mod sink;
mod text;
pub mod vp;

use dom::*;
use hotmeal::*;
use vp::*;

macro_rules! entries {
    ($($n:ident)*) => {
        $(#[unsafe(no_mangle)] pub extern "C" fn $n() { rapidhash::reset(); h::$n() })*
        pub fn call(name: &str) -> bool { match name { $(stringify!($n) => { rapidhash::reset(); h::$n(); true })* _ => false } }
    };
}
entries! { h01 h02 h03 h03e h04 h05 h05p h06 h07 h08 h09 h09a h11 h12 h13 h14 s01 s02 s02a s03 w01 }

mod h {
    use super::*;

    /// Parameters 0: what to compare; 1: two generators; 2..13 first generator; 13..24 second.
    fn two_pages() -> (Page, Page) {
        let ga = dom::Gen::from_params(2);
        let gb = if param(1) == 0 { ga } else { dom::Gen::from_params(13) };
        if ga.style >= 10 { let t = large::base_page(&ga, "nodes"); return (t.page(), large::edited(&ga, &t).page()); }
        (gen_page(&ga, "nodes_a"), gen_page(&gb, "nodes_b"))
    }
    pub fn marks(ps: &[Patch]) {
        for p in ps {
            let d = match p {
                Patch::InsertElement { detach_to_slot, .. } => { reach("insert_element"); detach_to_slot }
                Patch::InsertText { detach_to_slot, .. } => { reach("insert_text"); detach_to_slot }
                Patch::InsertComment { detach_to_slot, .. } => { reach("insert_comment"); detach_to_slot }
                Patch::Remove { .. } => { reach("remove"); &None }
                Patch::SetText { .. } => { reach("set_text"); &None }
                Patch::Move { detach_to_slot, .. } => { reach("move"); detach_to_slot }
                Patch::UpdateProps { .. } => { reach("update_props"); &None }
                Patch::OpaqueChanged { .. } => { reach("opaque_changed"); &None }
                _ => &None,
            };
            if d.is_some() { reach("displaced"); }
        }
    }
    fn obs_path(p: &NodePath) { for x in &p.0 { obs(*x as u64) } }
    fn obs_patches(ps: &[Patch]) {
        obs(ps.len() as u64);
        for p in ps {
            match p {
                Patch::InsertElement { at, attrs, children, .. } => { obs(1); obs_path(&at.0); obs(attrs.len() as u64); obs(children.len() as u64) }
                Patch::InsertText { at, .. } => { obs(2); obs_path(&at.0) }
                Patch::InsertComment { at, .. } => { obs(3); obs_path(&at.0) }
                Patch::Remove { node } => { obs(4); obs_path(&node.0) }
                Patch::SetText { path, .. } => { obs(5); obs_path(path) }
                Patch::Move { from, to, .. } => { obs(6); obs_path(&from.0); obs_path(&to.0) }
                Patch::UpdateProps { path, changes } => { obs(7); obs_path(path); obs(changes.len() as u64) }
                Patch::OpaqueChanged { path, .. } => { obs(8); obs_path(path) }
                _ => obs(9),
            }
        }
    }

    /// Old and new page; parameter 0 bits 2 and 3 take away the old or the new body.
    fn build_two(a: &mut Page, b: &mut Page) -> (Document<'static>, Document<'static>) {
        let mut old = a.build(0);
        let mut new = b.build(0);
        if param(0) & 4 == 4 { let x = body(&old); old.remove(x); }
        if param(0) & 8 == 8 { let x = body(&new); new.remove(x); }
        (old, new)
    }
    #[allow(unused_variables)]
    pub fn dump(old: &Document, new: &Document, ps: &[Patch]) {
        #[cfg(feature = "dump")] { println!("old {}\nnew {}", old.to_html(), new.to_html()); for p in ps { println!("  {p:?}") } }
    }
    /// The patches as they arrive on the other side of a connection.
    fn wire(ps: Vec<Patch<'static>>) -> Vec<Patch<'static>> {
        let Ok(blob) = facet_postcard::to_vec(&ps) else { check(false, "the patches cannot be sent"); return ps };
        let back: Result<Vec<Patch<'static>>, _> = facet_postcard::from_slice(&blob);
        let Ok(back) = back else { check(false, "the patches sent cannot be read"); return ps };
        check(back == ps, "sending patches changes them");
        back
    }
    fn cmp() -> Cmp { Cmp { attrs: true, opaque_inside: param(0) & 1 == 1, ns: param(0) & 2 == 2 } }

    pub fn h01() {
        let (mut a, mut b) = two_pages();
        let (mut old, new) = build_two(&mut a, &mut b);
        let ps = match diff(&old, &new) { Ok(p) => p, Err(_) => { check(false, "the diff failed"); return } };
        marks(&ps);
        obs_patches(&ps);
        dump(&old, &new, &ps);
        let ps = if param(0) & 16 == 16 { wire(ps) } else { ps };
        let ok = if param(0) & 32 == 32 {
            // one by one, with the slots kept in between
            let mut slots = old.init_patch_slots();
            ps.into_iter().all(|p| old.apply_patch_with_slots(p, &mut slots).is_ok())
        } else { old.apply_patches(ps).is_ok() };
        check(ok, "the old page does not accept the patches");
        match new.body() {
            Some(nb) => match old.body() {
                Some(ob) => assert_same(&old, ob, &new, nb, cmp()),
                None => check(b.n() == 1 && b.nd[0].attrs.is_empty(), "the patched page has no body"),
            },
            None => if let Some(ob) = old.body() { check(kids(&old, ob).is_empty(), "content is left though the new page has no body") },
        }
    }
    pub fn h02() {
        let g = dom::Gen::from_params(2);
        let mut a = if g.style >= 10 { large::base_page(&g, "nodes").page() } else { gen_page(&g, "nodes") };
        let mut b = a.clone();
        let (x, y) = build_two(&mut a, &mut b);
        let y = if param(0) & 12 == 0 { b.build(1) } else { y };
        let ps = diff(&x, &y);
        check(matches!(&ps, Ok(p) if p.is_empty()), "the diff of equal pages has patches");
    }
    /// Attribute lists of a single element through diff and apply; like h01 with one element whose
    /// names are all symbolic.
    pub fn h03() {
        // parameters: 2 elements per page, 3 names, 4 at most this many attributes each, 5 values
        let build = |tag: &str| {
            let mut d = Document::new();
            let b = body(&d);
            for e in 0..param(2) {
                let el = if e == 0 { b } else { let x = d.create_element(LocalName::nth(1)); d.append_child(b, x); x };
                let k = pick("attributes", 0, param(4));
                let mut seen: Vec<u64> = vec![];
                let mut attrs = vec![];
                for _ in 0..k {
                    let n = sym(tag, 0, param(3) - 1);
                    for &s in &seen { assume(s != n) }
                    seen.push(n);
                    attrs.push((QualName::new(None, html5ever::Namespace::nth(0), LocalName::nth(16 + n as u32)), Stem::from(one_char("value", b'A', param(5)))));
                }
                if let NodeKind::Element(x) = &mut d.get_mut(el).kind { x.attrs = attrs }
            }
            d
        };
        let (mut old, new) = (build("old name"), build("new name"));
        let ps = match diff(&old, &new) { Ok(p) => p, Err(_) => { check(false, "the diff failed"); return } };
        marks(&ps);
        dump(&old, &new, &ps);
        check(old.apply_patches(ps).is_ok(), "the old page does not accept the patches");
        assert_same(&old, body(&old), &new, body(&new), cmp());
    }
    /// Histories of attribute edits through the document and through patches, against a list.
    pub fn h03e() {
        let mut d = Document::new();
        let b = body(&d);
        let e = d.create_element(LocalName::nth(1));
        d.append_child(b, e);
        let mut model: Vec<(u32, &'static str)> = vec![];
        for _ in 0..param(2) {
            let op = pick("operation", 0, 4);
            let k = pick("name", 0, param(3) - 1) as u32;
            let v = one_char("value", b'A', param(4));
            let path = NodePath([0u32, 0].into_iter().collect());
            match op {
                0 => d.set_attr(e, attr_name(k), v),
                1 => d.remove_attr(e, &attr_name(k)),
                2 => check(d.apply_patches(vec![Patch::SetAttribute { path, name: attr_name(k), value: stem(v) }]).is_ok(), "setting an attribute fails"),
                3 => check(d.apply_patches(vec![Patch::RemoveAttribute { path, name: attr_name(k) }]).is_ok(), "removing an attribute fails"),
                _ => {
                    // the whole list reversed, one value kept by reference, the others given
                    let changes = model.iter().rev().map(|&(n, w)| PropChange { name: PropKey::Attr(attr_name(n)), value: if n == k { None } else { Some(stem(w)) } }).collect();
                    check(d.apply_patches(vec![Patch::UpdateProps { path, changes }]).is_ok(), "updating attributes fails");
                }
            }
            match op {
                0 | 2 => match model.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 = v, None => model.push((k, v)) },
                1 | 3 => model.retain(|x| x.0 != k),
                _ => model.reverse(),
            }
            let NodeKind::Element(el) = &d.get(e).kind else { check(false, "no element"); return };
            check(el.attrs.len() == model.len(), "the element has more or fewer attributes than were set");
            for (x, m) in el.attrs.iter().zip(&model) {
                check(same_name(&x.0, &attr_name(m.0)), "attributes are in another order");
                check(same_str(&x.1, m.1), "an attribute has another value than the last one set");
            }
        }
    }

    /// Elements and what may stand inside them when markup is read back: 0 text with character
    /// references, 1 raw text, 2 nothing. Second: namespace.
    const ELEMENTS: &[(&str, u8, u8)] = &[
        ("div", 0, 0), ("script", 1, 0), ("style", 1, 0), ("textarea", 0, 0), ("title", 0, 0), ("br", 2, 0), ("xmp", 1, 0), ("iframe", 1, 0),
        ("noembed", 1, 0), ("noframes", 1, 0), ("noscript", 1, 0), ("input", 2, 0), ("img", 2, 0), ("a", 0, 0),
        ("style", 0, 1), ("script", 0, 1), ("title", 0, 1), ("link", 0, 1), ("mi", 0, 2), ("iframe", 0, 1),
        // the other elements of HTML that may stand in a body, then more in SVG and MathML
        ("area", 2, 0), ("base", 2, 0), ("col", 3, 0), ("embed", 2, 0), ("hr", 2, 0), ("link", 2, 0), ("meta", 2, 0), ("param", 2, 0), ("source", 2, 0), ("track", 2, 0), ("wbr", 2, 0),
        ("keygen", 2, 0), ("basefont", 2, 0), ("bgsound", 2, 0),
        ("abbr", 0, 0), ("address", 0, 0), ("applet", 0, 0), ("article", 0, 0), ("aside", 0, 0), ("audio", 0, 0), ("b", 0, 0), ("bdi", 0, 0), ("bdo", 0, 0), ("big", 0, 0), ("blockquote", 0, 0),
        ("button", 0, 0), ("canvas", 0, 0), ("center", 0, 0), ("cite", 0, 0), ("code", 0, 0), ("data", 0, 0), ("datalist", 0, 0), ("dd", 0, 0), ("del", 0, 0), ("details", 0, 0), ("dfn", 0, 0),
        ("dialog", 0, 0), ("dir", 0, 0), ("dl", 0, 0), ("dt", 0, 0), ("em", 0, 0), ("fieldset", 0, 0), ("figcaption", 0, 0), ("figure", 0, 0), ("font", 0, 0), ("footer", 0, 0), ("form", 0, 0),
        ("h1", 0, 0), ("h2", 0, 0), ("h3", 0, 0), ("h4", 0, 0), ("h5", 0, 0), ("h6", 0, 0), ("header", 0, 0), ("hgroup", 0, 0), ("i", 0, 0), ("ins", 0, 0), ("kbd", 0, 0), ("label", 0, 0),
        ("legend", 0, 0), ("li", 0, 0), ("listing", 0, 0), ("main", 0, 0), ("map", 0, 0), ("mark", 0, 0), ("marquee", 0, 0), ("menu", 0, 0), ("meter", 0, 0), ("nav", 0, 0), ("nobr", 0, 0),
        ("object", 0, 0), ("ol", 0, 0), ("optgroup", 0, 0), ("option", 0, 0), ("output", 0, 0), ("p", 0, 0), ("picture", 0, 0), ("pre", 0, 0), ("progress", 0, 0), ("q", 0, 0), ("rb", 0, 0),
        ("rp", 0, 0), ("rt", 0, 0), ("rtc", 0, 0), ("ruby", 0, 0), ("s", 0, 0), ("samp", 0, 0), ("search", 0, 0), ("section", 0, 0), ("select", 0, 0), ("slot", 0, 0), ("small", 0, 0),
        ("span", 0, 0), ("strike", 0, 0), ("strong", 0, 0), ("sub", 0, 0), ("summary", 0, 0), ("sup", 0, 0), ("time", 0, 0), ("tt", 0, 0), ("u", 0, 0), ("ul", 0, 0), ("var", 0, 0), ("video", 0, 0),
        ("my-element", 0, 0), ("command", 0, 0), ("menuitem", 0, 0), ("portal", 0, 0),
        ("g", 0, 1), ("a", 0, 1), ("desc", 0, 1), ("source", 0, 1), ("input", 0, 1), ("textarea", 0, 1), ("noscript", 0, 1), ("xmp", 0, 1), ("mtext", 0, 2), ("style", 0, 2), ("link", 0, 2),
    ];
    /// Parameters: 2 first and 3 last element of the list, 4 length of the attribute value, 5 of the
    /// text inside, 6 of the text behind, 7 of a comment, 8 doctype, 9: 1 with
    /// characters of several bytes.
    pub fn h04() {
        let (name, content, ns) = ELEMENTS[pick("element", param(2), param(3)) as usize];
        let mut d = Document::new();
        let b = body(&d);
        let mut at = b;
        if ns > 0 {
            let root = d.create_element(LocalName::from(if ns == 1 { "svg" } else { "math" }));
            d.get_mut(root).ns = if ns == 1 { Namespace::Svg } else { Namespace::MathMl };
            d.append_child(b, root);
            at = root;
        }
        let e = d.create_element(LocalName::from(name));
        d.get_mut(e).ns = [Namespace::Html, Namespace::Svg, Namespace::MathMl][ns as usize];
        if param(4) > 0 {
            let k = if ns == 1 { pick("attribute", 0, 1) as u32 * 2 } else { 0 };
            d.set_attr(e, attr_name(k), chars("value", param(4) as usize, param(9) > 0));
        }
        d.append_child(at, e);
        assume(content < 3);
        if content < 2 && param(5) > 0 {
            let t = chars("inside", param(5) as usize, param(9) > 0);
            let y = t.as_bytes();
            if content == 1 { for i in 1..y.len() { assume(!(y[i - 1] == b'<' && (y[i] == b'/' || y[i] == b'!'))) } assume(y[y.len() - 1] != b'<') }
            if ns == 0 && matches!(name, "textarea" | "pre" | "listing") { assume(y[0] != b'\n') }
            let x = d.create_text(t);
            d.append_child(e, x);
        }
        if param(6) > 0 { let x = d.create_text(chars("behind", param(6) as usize, param(9) > 0)); d.append_child(at, x); }
        if param(7) > 0 {
            let t = chars("comment", param(7) as usize, param(9) > 0);
            let y = t.as_bytes();
            for i in 0..y.len() { assume(y[i] != b'>' && y[i] != b'!') }
            let x = d.create_comment(t);
            d.append_child(at, x);
        }
        if param(8) > 0 { d.doctype = Some(stem("html")); }
        let html = d.to_html();
        for c in html.bytes() { obs(c as u64) }
        let input = StrTendril::from(html);
        let back = parse(&input);
        check(back.doctype.is_some() == (param(8) > 0), "the doctype is lost or made up");
        check(back.root.children(&back.arena).count() == 2, "the page is not head and body");
        assert_same(&back, body(&back), &d, b, Cmp { attrs: true, opaque_inside: true, ns: true });
    }

    #[derive(Default)]
    struct Bytes(Vec<u8>);
    impl std::hash::Hasher for Bytes {
        fn finish(&self) -> u64 { 0 }
        fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
    }
    fn same_bytes(a: &[u8], b: &[u8]) -> bool {
        if a.len() != b.len() { return false }
        let mut x = 0;
        for i in 0..a.len() { x |= a[i] ^ b[i] }
        x == 0
    }
    /// Two texts of up to parameter 2 characters (parameter 3: also of several bytes), each borrowed or owned.
    pub fn h05() {
        use std::hash::Hash;
        let mk = |nm: &str| {
            let s = chars(nm, pick("length", 0, param(2)) as usize, param(3) > 0);
            let x = match pick("made", 0, 4) {
                0 => Stem::Borrowed(s),
                1 => Stem::from(s.to_owned()),
                2 => Stem::Owned(s.into()),
                3 => Stem::from(StrTendril::from(s)),
                _ => Stem::Borrowed(s).into_owned(),
            };
            (s, x)
        };
        let ((s, x), (t, y)) = (mk("first"), mk("second"));
        let eq = same_str(s, t);
        check((x == y) == eq, "equality of texts is not equality of their characters");
        check((x == *t) == eq && (y == s) == eq, "equality with plain strings is not equality of characters");
        check(x.len() == s.len() && x.is_empty() == s.is_empty() && same_str(&x, s), "a text is not the string it was made of");
        let (mut h, mut k) = (Bytes::default(), Bytes::default());
        x.hash(&mut h);
        s.hash(&mut k);
        check(same_bytes(&h.0, &k.0), "a text does not hash like its characters");
        check(same_str(&x.clone().into_owned(), s), "making a text owned changes it");
        let mut z = x.clone();
        z.push_str(t);
        let both: String = [s, t].concat();
        check(same_str(&z, &both), "appending to a text gives something else");
        check(same_str(&x, s), "appending to a copy changes the original");
    }
    fn owned_is_same(ps: &[Patch<'static>]) {
        let own: Vec<Patch<'static>> = ps.iter().map(|p| p.clone().into_owned()).collect();
        check(own.len() == ps.len() && own.iter().zip(ps).all(|(a, b)| a == b), "making patches owned changes them");
    }
    pub fn h05p() {
        let (mut a, mut b) = two_pages();
        let (old, new) = build_two(&mut a, &mut b);
        if let Ok(ps) = diff(&old, &new) { marks(&ps); owned_is_same(&ps) }
    }

    /// Opaque islands: applied patch by patch, none but the report of changed content reaches into
    /// an element that is opaque before and after, and the report comes only with other content.
    pub fn h07() {
        let (mut a, mut b) = two_pages();
        let mut old = a.build(0);
        let new = b.build(0);
        let opaque = |d: &Document, n: NodeId| matches!(&d.get(n).kind, NodeKind::Element(e) if e.attrs.iter().any(|x| x.0.local.number() == nm("data-hotmeal-opaque")));
        let ps = match diff(&old, &new) { Ok(p) => p, Err(_) => { check(false, "the diff failed"); return } };
        marks(&ps);
        dump(&old, &new, &ps);
        let islands: Vec<NodeId> = a.ids.iter().enumerate().filter(|&(i, _)| a.nd[i].opaque && !a.under_opaque(i)).map(|(_, &x)| x).collect();
        let mut touched: Vec<NodeId> = vec![];
        let mut slots = old.init_patch_slots();
        let find = |d: &Document, slots: &std::collections::HashMap<u32, NodeId>, p: &[u32]| -> Option<NodeId> {
            let mut n = *slots.get(p.first()?)?;
            for &i in &p[1..] { n = d.children(n).nth(i as usize)? }
            Some(n)
        };
        for p in ps {
            let holder = match &p {
                Patch::InsertElement { at, .. } | Patch::InsertText { at, .. } | Patch::InsertComment { at, .. } => find(&old, &slots, &at.0.0[..at.0.0.len() - 1]),
                Patch::Remove { node } => find(&old, &slots, &node.0.0).and_then(|n| old.parent(n)),
                Patch::SetText { path, .. } | Patch::UpdateProps { path, .. } | Patch::SetAttribute { path, .. } | Patch::RemoveAttribute { path, .. } => find(&old, &slots, &path.0).and_then(|n| old.parent(n)),
                Patch::Move { from, to, .. } => {
                    let mut m = find(&old, &slots, &from.0.0).and_then(|n| old.parent(n));
                    while let Some(x) = m { touched.push(x); m = old.parent(x) }
                    find(&old, &slots, &to.0.0[..to.0.0.len() - 1])
                }
                Patch::OpaqueChanged { path, content } => {
                    let n = find(&old, &slots, &path.0);
                    check(n.is_some(), "changed opaque content is reported for a place that is not there");
                    if let Some(n) = n { if islands.contains(&n) { check(!same_str(&old.serialize_inner_html(n), content), "unchanged opaque content is reported as changed") } }
                    None
                }
            };
            let mut m = holder;
            while let Some(x) = m { touched.push(x); m = old.parent(x) }
            check(old.apply_patch_with_slots(p, &mut slots).is_ok(), "the old page does not accept the patches");
        }
        for n in islands {
            let mut m = old.parent(n);
            let mut under = false;
            while let Some(x) = m { under |= opaque(&old, x); m = old.parent(x) }
            let attached = body(&old) == n || { let mut m = Some(n); let mut r = false; while let Some(x) = m { r |= x == body(&old); m = old.parent(x) } r };
            if attached && opaque(&old, n) && !under { reach("island_stays"); check(!touched.contains(&n), "a patch reaches into an opaque element") }
        }
    }
    /// Two updates, one after the other: the page as it is after the first patches takes the second.
    pub fn h08() {
        let ga = dom::Gen::from_params(2);
        let gb = if param(1) == 0 { ga } else { dom::Gen::from_params(13) };
        let (mut a, mut b, mut c) = if ga.style >= 10 {
            let t = large::base_page(&ga, "nodes");
            let u = large::edited(&ga, &t);
            (t.page(), u.page(), large::edited(&ga, &u).page())
        } else { (gen_page(&ga, "nodes_a"), gen_page(&gb, "nodes_b"), gen_page(&ga, "nodes_c")) };
        let (mut page, v2, v3) = (a.build(0), b.build(0), c.build(0));
        let (Ok(p), Ok(q)) = (diff(&page, &v2), diff(&v2, &v3)) else { check(false, "the diff failed"); return };
        dump(&page, &v2, &p);
        dump(&v2, &v3, &q);
        check(page.apply_patches(p).is_ok(), "the old page does not accept the patches");
        marks(&q);
        check(page.apply_patches(q).is_ok(), "the updated page does not accept the next patches");
        assert_same(&page, body(&page), &v3, body(&v3), cmp());
    }
    pub fn h14() { let (a, b) = two_pages(); super::large::h14(a, b) }
    pub fn h13() { super::large::h13() }
    pub fn h06() { super::sink::run() }
    pub fn h09() { super::input::pieces() }
    pub fn h09a() { super::input::any() }
    pub use super::edit::h11;
    pub use super::text::h12;
    pub use super::server::{s01, s02, s02a, s03};
    pub use super::browser::w01;
}
