//! Stand-in for `web-sys`: the part of the document object model that patching a page uses, with its
//! rules about where nodes are, what moving them does, namespaces of names and invalid names.
use js_sys::{Object, Reflect};
use std::cell::RefCell;
use std::rc::Rc;
pub use wasm_bindgen::{AttrData, Dom, JsCast, JsValue, Ty, Val};
use wasm_bindgen::{base, view};

pub const HTML: &str = "http://www.w3.org/1999/xhtml";
fn is_node(v: &JsValue) -> bool { matches!(&*v.0, Val::Node(_)) }
fn ty(v: &JsValue) -> Option<Ty> { match &*v.0 { Val::Node(d) => Some(d.ty), _ => None } }
fn err<T>(s: &str) -> Result<T, JsValue> { Err(JsValue::from_str(s)) }

view! {
    EventTarget: Object, JsValue; v => is_node(v)
    Node: EventTarget, Object, JsValue; v => is_node(v)
    Element: Node, EventTarget, Object, JsValue; v => ty(v) == Some(Ty::Element)
    HtmlElement: Element, Node, EventTarget, Object, JsValue; v => ty(v) == Some(Ty::Element) && v.node().ns == HTML
    HtmlTemplateElement: HtmlElement, Element, Node, EventTarget, Object, JsValue; v => ty(v) == Some(Ty::Element) && v.node().ns == HTML && v.node().name == "template"
    CharacterData: Node, EventTarget, Object, JsValue; v => matches!(ty(v), Some(Ty::Text | Ty::Comment))
    Text: CharacterData, Node, EventTarget, Object, JsValue; v => ty(v) == Some(Ty::Text)
    Comment: CharacterData, Node, EventTarget, Object, JsValue; v => ty(v) == Some(Ty::Comment)
    Document: Node, EventTarget, Object, JsValue; v => ty(v) == Some(Ty::Document)
    DocumentFragment: Node, EventTarget, Object, JsValue; v => ty(v) == Some(Ty::Fragment)
    Attr: JsValue, ; v => matches!(&*v.0, Val::Attr(_))
    NodeList: JsValue, ; v => matches!(&*v.0, Val::List(_))
    HtmlCollection: JsValue, ; v => matches!(&*v.0, Val::List(_))
    NamedNodeMap: JsValue, ; v => matches!(&*v.0, Val::Node(_))
    Event: Object, JsValue; v => matches!(&*v.0, Val::Obj(_))
    CustomEvent: Event, Object, JsValue; v => matches!(&*v.0, Val::Obj(_))
    CustomEventInit: Object, JsValue; v => matches!(&*v.0, Val::Obj(_))
}

// ---- making nodes
pub fn make(ty: Ty, name: &str, ns: &str, data: &str) -> Node {
    JsValue::make(Val::Node(Dom { ty, name: name.to_owned(), ns: ns.to_owned(), data: RefCell::new(data.to_owned()), attrs: Default::default(), parent: RefCell::new(None), kids: Default::default(), content: RefCell::new(None) })).unchecked_into()
}
fn dom<T>(n: &T) -> &Dom { base(n).node() }
fn up(n: &JsValue) -> Option<JsValue> { n.node().parent.borrow().as_ref().and_then(|w| w.upgrade()).map(JsValue) }
fn place(p: &JsValue, n: &JsValue) -> Option<usize> { p.node().kids.borrow().iter().position(|k| k.same(n)) }
fn detach(n: &JsValue) {
    if let Some(p) = up(n) { let i = place(&p, n).expect("child of its parent"); p.node().kids.borrow_mut().remove(i); }
    *n.node().parent.borrow_mut() = None;
}
fn put(p: &JsValue, at: usize, n: &JsValue) {
    p.node().kids.borrow_mut().insert(at, n.clone());
    *n.node().parent.borrow_mut() = Some(Rc::downgrade(&p.0));
}
fn holds(a: &JsValue, n: &JsValue) -> bool { let mut m = Some(n.clone()); while let Some(x) = m { if x.same(a) { return true } m = up(&x) } false }
fn accepts(p: &JsValue, n: &JsValue) -> Result<(), JsValue> {
    if matches!(ty(p), Some(Ty::Text | Ty::Comment)) || holds(n, p) { return err("HierarchyRequestError") }
    Ok(())
}
/// Names the document refuses.
fn valid(name: &str) -> bool { !name.is_empty() && !name.starts_with('@') && !name.contains(['<', '"', '\'', ' ', '>', '/', '=']) }

impl EventTarget {
    pub fn dispatch_event(&self, e: &Event) -> Result<bool, JsValue> {
        EVENTS.with(|v| v.borrow_mut().push((base(self).clone(), e.clone())));
        Ok(true)
    }
}
thread_local! {
    /// Dispatched events with their targets.
    pub static EVENTS: RefCell<Vec<(JsValue, Event)>> = const { RefCell::new(Vec::new()) };
    static DOCUMENT: RefCell<Option<Document>> = const { RefCell::new(None) };
}
pub fn take_events() -> Vec<(JsValue, Event)> { EVENTS.with(|v| std::mem::take(&mut *v.borrow_mut())) }
/// What the harness asks of an event: its type, and a field of its detail.
pub fn event_type(e: &Event) -> String { Reflect::get(e, &"type".into()).ok().and_then(|x| x.as_string()).unwrap_or_default() }
pub fn event_detail(e: &Event, k: &str) -> JsValue { Reflect::get(e, &"detail".into()).and_then(|d| Reflect::get(&d, &k.into())).unwrap_or_default() }
pub fn event_bubbles(e: &Event) -> bool { Reflect::get(e, &"bubbles".into()).ok().and_then(|x| x.as_bool()).unwrap_or(false) }

impl Node {
    pub const ELEMENT_NODE: u16 = 1;
    pub const TEXT_NODE: u16 = 3;
    pub const COMMENT_NODE: u16 = 8;
    pub const DOCUMENT_NODE: u16 = 9;
    pub const DOCUMENT_FRAGMENT_NODE: u16 = 11;
    pub fn node_type(&self) -> u16 { match dom(self).ty { Ty::Element => 1, Ty::Text => 3, Ty::Comment => 8, Ty::Document => 9, Ty::Fragment => 11 } }
    pub fn node_name(&self) -> String { let d = dom(self); match d.ty { Ty::Element if d.ns == HTML => d.name.to_ascii_uppercase(), Ty::Element => d.name.clone(), Ty::Text => "#text".into(), Ty::Comment => "#comment".into(), Ty::Document => "#document".into(), Ty::Fragment => "#document-fragment".into() } }
    pub fn node_value(&self) -> Option<String> { let d = dom(self); if matches!(d.ty, Ty::Text | Ty::Comment) { Some(d.data.borrow().clone()) } else { None } }
    pub fn set_node_value(&self, v: Option<&str>) { let d = dom(self); if matches!(d.ty, Ty::Text | Ty::Comment) { *d.data.borrow_mut() = v.unwrap_or("").to_owned() } }
    pub fn text_content(&self) -> Option<String> {
        let d = dom(self);
        match d.ty {
            Ty::Text | Ty::Comment => Some(d.data.borrow().clone()),
            Ty::Document => None,
            _ => { let mut s = String::new(); for k in d.kids.borrow().iter() { if ty(k) != Some(Ty::Comment) { s.push_str(&k.unchecked_ref::<Node>().text_content().unwrap_or_default()) } } Some(s) }
        }
    }
    pub fn set_text_content(&self, v: Option<&str>) {
        let d = dom(self);
        let v = v.unwrap_or("");
        match d.ty {
            Ty::Text | Ty::Comment => *d.data.borrow_mut() = v.to_owned(),
            Ty::Document => {}
            _ => {
                let kids: Vec<JsValue> = d.kids.borrow().clone();
                for k in &kids { detach(k) }
                if !v.is_empty() { put(base(self), 0, base(&make(Ty::Text, "", "", v))) }
            }
        }
    }
    pub fn child_nodes(&self) -> NodeList { NodeList(JsValue::make(Val::List(dom(self).kids.borrow().clone()))) }
    pub fn has_child_nodes(&self) -> bool { !dom(self).kids.borrow().is_empty() }
    pub fn parent_node(&self) -> Option<Node> { up(base(self)).map(|p| p.unchecked_into()) }
    pub fn parent_element(&self) -> Option<Element> { up(base(self)).and_then(|p| p.dyn_into().ok()) }
    pub fn first_child(&self) -> Option<Node> { dom(self).kids.borrow().first().map(|k| k.clone().unchecked_into()) }
    pub fn last_child(&self) -> Option<Node> { dom(self).kids.borrow().last().map(|k| k.clone().unchecked_into()) }
    fn beside(&self, d: isize) -> Option<Node> { let p = up(base(self))?; let i = place(&p, base(self))? as isize + d; if i < 0 { return None } p.node().kids.borrow().get(i as usize).map(|k| k.clone().unchecked_into()) }
    pub fn next_sibling(&self) -> Option<Node> { self.beside(1) }
    pub fn previous_sibling(&self) -> Option<Node> { self.beside(-1) }
    pub fn owner_document(&self) -> Option<Document> { window().and_then(|w| w.document()) }
    pub fn contains(&self, o: Option<&Node>) -> bool { o.is_some_and(|o| holds(base(self), base(o))) }
    pub fn is_same_node(&self, o: Option<&Node>) -> bool { o.is_some_and(|o| base(self).same(base(o))) }
    pub fn append_child(&self, n: &Node) -> Result<Node, JsValue> { self.insert_before(n, None) }
    pub fn insert_before(&self, n: &Node, before: Option<&Node>) -> Result<Node, JsValue> {
        accepts(base(self), base(n))?;
        let mut before = before.cloned();
        if let Some(b) = &before { if place(base(self), base(b)).is_none() { return err("NotFoundError") } if base(b).same(base(n)) { before = n.next_sibling() } }
        if dom(n).ty == Ty::Fragment {
            let kids: Vec<JsValue> = dom(n).kids.borrow().clone();
            for k in kids { self.insert_before(k.unchecked_ref(), before.as_ref())?; }
            return Ok(n.clone());
        }
        detach(base(n));
        let at = match &before { Some(b) => place(base(self), base(b)).unwrap(), None => dom(self).kids.borrow().len() };
        put(base(self), at, base(n));
        Ok(n.clone())
    }
    pub fn replace_child(&self, n: &Node, old: &Node) -> Result<Node, JsValue> {
        accepts(base(self), base(n))?;
        if place(base(self), base(old)).is_none() { return err("NotFoundError") }
        let mut next = old.next_sibling();
        if let Some(x) = &next && base(x).same(base(n)) { next = n.next_sibling() }
        detach(base(old));
        self.insert_before(n, next.as_ref())?;
        Ok(old.clone())
    }
    pub fn remove_child(&self, n: &Node) -> Result<Node, JsValue> {
        if place(base(self), base(n)).is_none() { return err("NotFoundError") }
        detach(base(n));
        Ok(n.clone())
    }
    pub fn clone_node(&self) -> Result<Node, JsValue> { self.clone_node_with_deep(false) }
    pub fn clone_node_with_deep(&self, deep: bool) -> Result<Node, JsValue> {
        let d = dom(self);
        let c = make(d.ty, &d.name, &d.ns, &d.data.borrow());
        for a in d.attrs.borrow().iter() { dom(&c).attrs.borrow_mut().push(copy_attr(a)) }
        if deep { for k in d.kids.borrow().iter() { c.append_child(&k.unchecked_ref::<Node>().clone_node_with_deep(true)?)?; } }
        Ok(c)
    }
    pub fn normalize(&self) {
        let mut prev: Option<JsValue> = None;
        let kids: Vec<JsValue> = dom(self).kids.borrow().clone();
        for k in kids {
            if ty(&k) != Some(Ty::Text) { k.unchecked_ref::<Node>().normalize(); prev = None; continue }
            if k.node().data.borrow().is_empty() { detach(&k); continue }
            match &prev { Some(p) => { let t = k.node().data.borrow().clone(); p.node().data.borrow_mut().push_str(&t); detach(&k) } None => prev = Some(k) }
        }
    }
}
fn attr_of(a: &JsValue) -> &AttrData { match &*a.0 { Val::Attr(d) => d, _ => panic!("not an attribute") } }
fn new_attr(ns: &str, name: &str, value: &str) -> JsValue { JsValue::make(Val::Attr(AttrData { ns: ns.to_owned(), name: name.to_owned(), value: RefCell::new(value.to_owned()) })) }
/// An attribute as the parser makes it, under any name.
pub fn parsed_attr(n: &Node, ns: &str, name: &str, value: &str) { dom(n).attrs.borrow_mut().push(new_attr(ns, name, value)) }
fn copy_attr(a: &JsValue) -> JsValue { let a = attr_of(a); new_attr(&a.ns, &a.name, &a.value.borrow()) }
fn local(n: &str) -> &str { n.split_once(':').map(|x| x.1).unwrap_or(n) }

impl Element {
    pub fn tag_name(&self) -> String { self.node_name() }
    pub fn local_name(&self) -> String { dom(self).name.clone() }
    pub fn namespace_uri(&self) -> Option<String> { Some(dom(self).ns.clone()) }
    pub fn prefix(&self) -> Option<String> { None }
    fn find(&self, name: &str) -> Option<usize> { dom(self).attrs.borrow().iter().position(|a| attr_of(a).name == name) }
    pub fn get_attribute(&self, name: &str) -> Option<String> { self.find(name).map(|i| attr_of(&dom(self).attrs.borrow()[i]).value.borrow().clone()) }
    pub fn has_attribute(&self, name: &str) -> bool { self.find(name).is_some() }
    pub fn has_attributes(&self) -> bool { !dom(self).attrs.borrow().is_empty() }
    /// The first attribute with that qualified name, or a new one without namespace.
    pub fn set_attribute(&self, name: &str, value: &str) -> Result<(), JsValue> {
        if !valid(name) { return err("InvalidCharacterError") }
        let name = if dom(self).ns == HTML { name.to_ascii_lowercase() } else { name.to_owned() };
        match self.find(&name) {
            Some(i) => *attr_of(&dom(self).attrs.borrow()[i]).value.borrow_mut() = value.to_owned(),
            None => dom(self).attrs.borrow_mut().push(new_attr("", &name, value)),
        }
        Ok(())
    }
    pub fn set_attribute_ns(&self, ns: Option<&str>, name: &str, value: &str) -> Result<(), JsValue> {
        if !valid(name) { return err("InvalidCharacterError") }
        let ns = ns.unwrap_or("");
        if name.contains(':') && ns.is_empty() { return err("NamespaceError") }
        let at = dom(self).attrs.borrow().iter().position(|a| attr_of(a).ns == ns && local(&attr_of(a).name) == local(name));
        match at {
            Some(i) => *attr_of(&dom(self).attrs.borrow()[i]).value.borrow_mut() = value.to_owned(),
            None => dom(self).attrs.borrow_mut().push(new_attr(ns, name, value)),
        }
        Ok(())
    }
    pub fn remove_attribute(&self, name: &str) -> Result<(), JsValue> { if let Some(i) = self.find(name) { dom(self).attrs.borrow_mut().remove(i); } Ok(()) }
    pub fn remove_attribute_ns(&self, ns: Option<&str>, l: &str) -> Result<(), JsValue> { let ns = ns.unwrap_or(""); dom(self).attrs.borrow_mut().retain(|a| !(attr_of(a).ns == ns && local(&attr_of(a).name) == l)); Ok(()) }
    pub fn get_attribute_node(&self, name: &str) -> Option<Attr> { self.find(name).map(|i| Attr(dom(self).attrs.borrow()[i].clone())) }
    pub fn set_attribute_node(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        let d = attr_of(base(a));
        let at = dom(self).attrs.borrow().iter().position(|x| attr_of(x).ns == d.ns && local(&attr_of(x).name) == local(&d.name));
        Ok(match at { Some(i) => Some(Attr(std::mem::replace(&mut dom(self).attrs.borrow_mut()[i], base(a).clone()))), None => { dom(self).attrs.borrow_mut().push(base(a).clone()); None } })
    }
    pub fn remove_attribute_node(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        let at = dom(self).attrs.borrow().iter().position(|x| x.same(base(a)));
        match at { Some(i) => Ok(Some(Attr(dom(self).attrs.borrow_mut().remove(i)))), None => err("NotFoundError") }
    }
    pub fn attributes(&self) -> NamedNodeMap { NamedNodeMap(base(self).clone()) }
    pub fn id(&self) -> String { self.get_attribute("id").unwrap_or_default() }
    pub fn inner_html(&self) -> String { let mut s = String::new(); for k in dom(self).kids.borrow().iter() { markup(k, &mut s) } s }
    pub fn outer_html(&self) -> String { let mut s = String::new(); markup(base(self), &mut s); s }
    pub fn set_inner_html(&self, html: &str) {
        let into = match HtmlTemplateElement::instanceof(base(self)) { true => self.unchecked_ref::<HtmlTemplateElement>().content().unchecked_into::<Node>(), false => self.0.clone() };
        let old: Vec<JsValue> = dom(&into).kids.borrow().clone();
        for k in &old { detach(k) }
        parsing::parse_into(&into, html, &dom(self).ns, &dom(self).name);
    }
    pub fn remove(&self) { detach(base(self)) }
    pub fn children(&self) -> HtmlCollection { HtmlCollection(JsValue::make(Val::List(dom(self).kids.borrow().iter().filter(|k| ty(k) == Some(Ty::Element)).cloned().collect()))) }
    pub fn child_element_count(&self) -> u32 { self.children().length() }
    pub fn first_element_child(&self) -> Option<Element> { self.children().item(0) }
    pub fn closest(&self, _s: &str) -> Result<Option<Element>, JsValue> { err("not modelled") }
}
fn escape(s: &str, attr: bool, out: &mut String) {
    for c in s.chars() { match c { '&' => out.push_str("&amp;"), '"' if attr => out.push_str("&quot;"), '<' => out.push_str("&lt;"), '>' => out.push_str("&gt;"), c => out.push(c) } }
}
fn markup(n: &JsValue, out: &mut String) {
    let d = n.node();
    match d.ty {
        Ty::Text => escape(&d.data.borrow(), false, out),
        Ty::Comment => { out.push_str("<!--"); out.push_str(&d.data.borrow()); out.push_str("-->") }
        _ => {
            out.push('<');
            out.push_str(&d.name);
            for a in d.attrs.borrow().iter() { let a = attr_of(a); out.push(' '); out.push_str(&a.name); out.push_str("=\""); escape(&a.value.borrow(), true, out); out.push('"') }
            out.push('>');
            for k in d.kids.borrow().iter() { markup(k, out) }
            out.push_str("</");
            out.push_str(&d.name);
            out.push('>');
        }
    }
}
impl CharacterData { pub fn data(&self) -> String { dom(self).data.borrow().clone() } pub fn set_data(&self, s: &str) { *dom(self).data.borrow_mut() = s.to_owned() } pub fn length(&self) -> u32 { dom(self).data.borrow().len() as u32 } pub fn remove(&self) { detach(base(self)) } }
impl HtmlTemplateElement { pub fn content(&self) -> DocumentFragment { dom(self).content.borrow_mut().get_or_insert_with(|| base(&make(Ty::Fragment, "", "", "")).clone()).clone().unchecked_into() } }
impl DocumentFragment { pub fn first_element_child(&self) -> Option<Element> { dom(self).kids.borrow().iter().find(|k| ty(k) == Some(Ty::Element)).map(|k| k.clone().unchecked_into()) } }
fn at(v: &JsValue, i: u32) -> Option<JsValue> { match &*v.0 { Val::List(l) => l.get(i as usize).cloned(), _ => None } }
fn count(v: &JsValue) -> u32 { match &*v.0 { Val::List(l) => l.len() as u32, _ => 0 } }
impl NodeList { pub fn length(&self) -> u32 { count(&self.0) } pub fn item(&self, i: u32) -> Option<Node> { at(&self.0, i).map(|k| k.unchecked_into()) } pub fn get(&self, i: u32) -> Option<Node> { self.item(i) } }
impl HtmlCollection { pub fn length(&self) -> u32 { count(&self.0) } pub fn item(&self, i: u32) -> Option<Element> { at(&self.0, i).map(|k| k.unchecked_into()) } }
impl NamedNodeMap {
    pub fn length(&self) -> u32 { self.0.node().attrs.borrow().len() as u32 }
    pub fn item(&self, i: u32) -> Option<Attr> { self.0.node().attrs.borrow().get(i as usize).map(|a| Attr(a.clone())) }
    pub fn get_named_item(&self, n: &str) -> Option<Attr> { self.0.node().attrs.borrow().iter().find(|a| attr_of(a).name == n).map(|a| Attr(a.clone())) }
}
impl Attr {
    pub fn name(&self) -> String { attr_of(&self.0).name.clone() }
    pub fn local_name(&self) -> String { local(&attr_of(&self.0).name).to_owned() }
    pub fn namespace_uri(&self) -> Option<String> { let n = &attr_of(&self.0).ns; if n.is_empty() { None } else { Some(n.clone()) } }
    pub fn value(&self) -> String { attr_of(&self.0).value.borrow().clone() }
    pub fn set_value(&self, v: &str) { *attr_of(&self.0).value.borrow_mut() = v.to_owned() }
}
impl Document {
    fn root(&self) -> Option<JsValue> { dom(self).kids.borrow().first().cloned() }
    pub fn document_element(&self) -> Option<Element> { self.root().map(|r| r.unchecked_into()) }
    fn under_root(&self, n: &str) -> Option<JsValue> { self.root().and_then(|r| r.node().kids.borrow().iter().find(|k| k.node().name == n).cloned()) }
    pub fn body(&self) -> Option<HtmlElement> { self.under_root("body").map(|b| b.unchecked_into()) }
    pub fn head(&self) -> Option<HtmlElement> { self.under_root("head").map(|b| b.unchecked_into()) }
    pub fn create_element(&self, n: &str) -> Result<Element, JsValue> { if !valid(n) { return err("InvalidCharacterError") } Ok(make(Ty::Element, &n.to_ascii_lowercase(), HTML, "").unchecked_into()) }
    pub fn create_element_ns(&self, ns: Option<&str>, n: &str) -> Result<Element, JsValue> { if !valid(n) { return err("InvalidCharacterError") } Ok(make(Ty::Element, n, ns.unwrap_or(""), "").unchecked_into()) }
    pub fn create_text_node(&self, s: &str) -> Text { make(Ty::Text, "", "", s).unchecked_into() }
    pub fn create_comment(&self, s: &str) -> Comment { make(Ty::Comment, "", "", s).unchecked_into() }
    pub fn create_document_fragment(&self) -> DocumentFragment { make(Ty::Fragment, "", "", "").unchecked_into() }
    pub fn create_attribute(&self, n: &str) -> Result<Attr, JsValue> { if !valid(n) { return err("InvalidCharacterError") } Ok(Attr(new_attr("", n, ""))) }
    /// Only selectors of the form `#id`.
    pub fn query_selector(&self, s: &str) -> Result<Option<Element>, JsValue> {
        let Some(id) = s.strip_prefix('#') else { return err("SyntaxError") };
        Ok(self.get_element_by_id(id))
    }
    pub fn get_element_by_id(&self, id: &str) -> Option<Element> {
        fn go(n: &JsValue, id: &str) -> Option<Element> {
            if let Some(e) = n.dyn_ref::<Element>() && e.get_attribute("id").as_deref() == Some(id) { return Some(e.clone()) }
            n.node().kids.borrow().iter().find_map(|k| go(k, id))
        }
        go(base(self), id)
    }
}
#[derive(Clone, Debug)]
pub struct Window;
impl Window { pub fn document(&self) -> Option<Document> { DOCUMENT.with(|d| d.borrow().clone()) } }
pub fn window() -> Option<Window> { Some(Window) }
/// A fresh page with head and body.
pub fn open_page() -> Document {
    let d: Document = make(Ty::Document, "", "", "").unchecked_into();
    let e = |n| make(Ty::Element, n, HTML, "");
    let html = e("html");
    let _ = (html.append_child(&e("head")), html.append_child(&e("body")), d.append_child(&html));
    DOCUMENT.with(|x| *x.borrow_mut() = Some(d.clone()));
    EVENTS.with(|v| v.borrow_mut().clear());
    d
}
pub mod console { pub fn log_1(_v: &super::JsValue) {} pub fn warn_1(_v: &super::JsValue) {} pub fn error_1(_v: &super::JsValue) {} }

impl CustomEventInit {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self { Object::new().unchecked_into() }
    pub fn set_bubbles(&self, b: bool) { let _ = Reflect::set(self, &"bubbles".into(), &JsValue::from_bool(b)); }
    pub fn set_cancelable(&self, b: bool) { let _ = Reflect::set(self, &"cancelable".into(), &JsValue::from_bool(b)); }
    pub fn set_composed(&self, b: bool) { let _ = Reflect::set(self, &"composed".into(), &JsValue::from_bool(b)); }
    pub fn set_detail(&self, d: &JsValue) { let _ = Reflect::set(self, &"detail".into(), d); }
}
impl CustomEvent {
    pub fn new(t: &str) -> Result<CustomEvent, JsValue> { Self::new_with_event_init_dict(t, &CustomEventInit::new()) }
    pub fn new_with_event_init_dict(t: &str, i: &CustomEventInit) -> Result<CustomEvent, JsValue> {
        let e = Object::new();
        for k in ["bubbles", "detail"] { Reflect::set(&e, &k.into(), &Reflect::get(i, &k.into())?)?; }
        Reflect::set(&e, &"type".into(), &t.into())?;
        Ok(e.unchecked_into())
    }
    pub fn detail(&self) -> JsValue { Reflect::get(self, &"detail".into()).unwrap_or_default() }
}

mod parsing {
    use super::*;
    use html5ever::tree_builder::*;
    use html5ever::{Attribute, QualName, parse_fragment};
    use std::borrow::Cow;
    use tendril::{StrTendril, TendrilSink};
    struct Sink { root: Node }
    #[derive(Debug)]
    pub struct Name(html5ever::Namespace, html5ever::LocalName);
    impl ElemName for Name { fn ns(&self) -> &html5ever::Namespace { &self.0 } fn local_name(&self) -> &html5ever::LocalName { &self.1 } }
    impl TreeSink for Sink {
        type Handle = Node;
        type Output = ();
        type ElemName<'a> = Name;
        fn finish(self) {}
        fn parse_error(&self, _m: Cow<'static, str>) {}
        fn get_document(&self) -> Node { self.root.clone() }
        fn elem_name<'a>(&'a self, n: &'a Node) -> Name { Name(dom(n).ns.as_str().into(), dom(n).name.as_str().into()) }
        fn create_element(&self, name: QualName, attrs: Vec<Attribute>, _f: ElementFlags) -> Node {
            let n = make(Ty::Element, &name.local, &name.ns, "");
            for a in attrs { let q = match &a.name.prefix { Some(p) => format!("{}:{}", &**p, &*a.name.local), None => a.name.local.to_string() }; dom(&n).attrs.borrow_mut().push(new_attr(&a.name.ns, &q, &a.value)) }
            n
        }
        fn create_comment(&self, t: StrTendril) -> Node { make(Ty::Comment, "", "", &t) }
        fn create_pi(&self, _a: StrTendril, _b: StrTendril) -> Node { make(Ty::Comment, "", "", "") }
        fn append(&self, p: &Node, c: NodeOrText<Node>) {
            match c {
                NodeOrText::AppendNode(n) => { let _ = p.append_child(&n); }
                NodeOrText::AppendText(t) => match p.last_child() {
                    Some(l) if dom(&l).ty == Ty::Text => dom(&l).data.borrow_mut().push_str(&t),
                    _ => { let _ = p.append_child(&make(Ty::Text, "", "", &t)); }
                },
            }
        }
        fn append_based_on_parent_node(&self, _e: &Node, p: &Node, c: NodeOrText<Node>) { self.append(p, c) }
        fn append_doctype_to_document(&self, _n: StrTendril, _p: StrTendril, _s: StrTendril) {}
        fn get_template_contents(&self, t: &Node) -> Node { t.clone() }
        fn same_node(&self, x: &Node, y: &Node) -> bool { base(x).same(base(y)) }
        fn set_quirks_mode(&self, _m: QuirksMode) {}
        fn append_before_sibling(&self, _s: &Node, _n: NodeOrText<Node>) {}
        fn add_attrs_if_missing(&self, _t: &Node, _a: Vec<Attribute>) {}
        fn remove_from_parent(&self, t: &Node) { detach(base(t)) }
        fn reparent_children(&self, _n: &Node, _p: &Node) {}
    }
    pub fn parse_into(p: &Node, html: &str, ns: &str, name: &str) {
        let root = make(Ty::Fragment, "", "", "");
        let name = QualName::new(None, ns.into(), name.into());
        parse_fragment(Sink { root: root.clone() }, Default::default(), name, vec![], true).one(StrTendril::from(html));
        // the parser builds below an html element
        if let Some(h) = root.first_child() { while let Some(k) = h.first_child() { let _ = p.append_child(&k); } }
    }
}
