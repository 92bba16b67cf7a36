//! Helpers for demonstrations with whole pages.
#![allow(dead_code)]
use hotmeal::*;

pub fn fail(msg: &str) -> ! { println!("VIOLATED: {msg}"); std::process::exit(1) }
#[macro_export]
macro_rules! must { ($c:expr, $($m:tt)*) => { if !$c { $crate::hcommon::fail(&format!($($m)*)) } } }

pub fn t(s: &str) -> &'static StrTendril { Box::leak(Box::new(StrTendril::from(s))) }
pub fn page(s: &str) -> Document<'static> { parse(t(&format!("<html><head></head><body>{s}</body></html>"))) }
pub fn raw(s: &str) -> Document<'static> { parse(t(s)) }
/// The document after tree construction callbacks.
pub fn played(ops: Vec<html5ever::script::Op>) -> Document<'static> { html5ever::script::set(ops); parse(t("<!doctype html>")) }
/// The patches from one body to another.
pub fn patches(old: &str, new: &str) -> Vec<Patch<'static>> {
    match diff(&page(old), &page(new)) { Ok(p) => p, Err(_) => fail("the diff fails") }
}
/// The page after applying the patches from `old` to `new`, markup of the whole body element.
pub fn patched(old: &Document<'static>, new: &Document<'static>) -> Document<'static> {
    let mut d = old.clone();
    let ps = match diff(old, new) { Ok(p) => p, Err(_) => fail("the diff fails") };
    if d.apply_patches(ps.clone()).is_err() { fail(&format!("patches do not apply: {ps:?}")) }
    d
}
/// Tree of the body with namespaces.
pub fn shape(d: &Document<'_>) -> String {
    fn go(d: &Document<'_>, id: NodeId, o: &mut String) {
        let n = d.get(id);
        match &n.kind {
            NodeKind::Element(e) => {
                o.push_str(&format!("({:?} {}", n.ns, &*e.tag));
                for (k, v) in &e.attrs { o.push_str(&format!(" {}|{}={:?}", &*k.ns, &*k.local, v.as_ref())) }
                for c in d.children(id) { go(d, c, o) }
                o.push(')');
            }
            NodeKind::Text(t) => o.push_str(&format!(" {:?}", t.as_ref())),
            NodeKind::Comment(t) => o.push_str(&format!(" !{:?}", t.as_ref())),
            NodeKind::Document => {}
        }
    }
    let mut o = String::new();
    if let Some(b) = d.body() { go(d, b, &mut o) }
    o
}
/// Patching `old` must give `new`.
pub fn exact_docs(old: &Document<'static>, new: &Document<'static>) {
    let d = patched(old, new);
    must!(shape(&d) == shape(new), "the patched page is\n  {}\nbut should be\n  {}", shape(&d), shape(new));
}
pub fn exact(old: &str, new: &str) { exact_docs(&page(old), &page(new)) }

// The browser.
use web_sys as w;
const URL: [&str; 3] = ["http://www.w3.org/1999/xhtml", "http://www.w3.org/2000/svg", "http://www.w3.org/1998/Math/MathML"];
fn mirror(d: &Document, id: NodeId) -> w::Node {
    let x = d.get(id);
    match &x.kind {
        NodeKind::Text(t) => w::make(w::Ty::Text, "", "", t),
        NodeKind::Comment(t) => w::make(w::Ty::Comment, "", "", t),
        NodeKind::Element(e) => {
            let ns = match x.ns { Namespace::Svg => URL[1], Namespace::MathMl => URL[2], _ => URL[0] };
            let n = w::make(w::Ty::Element, &e.tag, ns, "");
            for a in &e.attrs {
                let name = match &a.0.prefix { Some(p) => format!("{}:{}", &**p, &*a.0.local), None => a.0.local.to_string() };
                w::parsed_attr(&n, &a.0.ns, &name, &a.1)
            }
            for c in d.children(id) { let _ = n.append_child(&mirror(d, c)); }
            n
        }
        NodeKind::Document => unreachable!(),
    }
}
/// Shows a page in the browser and returns its body.
pub fn open(d: &Document) -> w::Element {
    let doc = w::open_page();
    let old = doc.body().unwrap();
    let b = mirror(d, d.body().unwrap());
    let _ = old.parent_node().unwrap().replace_child(&b, &old);
    w::JsCast::unchecked_into(b)
}
/// The browser's page after the patches from `old` to `new`.
pub fn shown(old: &Document<'static>, new: &Document<'static>) -> String {
    let b = open(old);
    let ps = match diff(old, new) { Ok(p) => p, Err(_) => fail("the diff fails") };
    if hotmeal_wasm::apply_patches(&ps).is_err() { fail(&format!("patches do not apply in the browser: {ps:?}")) }
    b.outer_html()
}
pub fn exact_shown(old: &str, new: &str) {
    let (o, n) = (page(old), page(new));
    let is = shown(&o, &n);
    let want = open(&n).outer_html();
    must!(is == want, "the browser shows\n  {is}\nbut should show\n  {want}");
}
/// The patches between two bodies must arrive as they were sent.
pub fn sent(old: &str, new: &str) {
    let ps = patches(old, new);
    let Ok(blob) = facet_postcard::to_vec(&ps) else { fail("the patches cannot be sent") };
    let back: Vec<Patch<'static>> = match facet_postcard::from_slice(&blob) { Ok(p) => p, Err(_) => fail("the patches cannot be read") };
    must!(back == ps, "{ps:?}\narrive as\n{back:?}");
}
