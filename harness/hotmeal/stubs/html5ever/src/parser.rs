//! A parser for well-formed markup: tags, quoted attributes, comments, a doctype, raw text and the
//! four character references the serializer writes. The html, head and body elements are supplied
//! where the markup leaves them out. No error recovery, implied end tags or foster parenting.
use crate::tree_builder::*;
use crate::*;

const VOID: &[&str] = &["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr", "keygen", "basefont", "bgsound"];
/// Elements whose content the tokenizer does not look at, scripting being enabled.
const RAW: &[&str] = &["script", "style", "noscript", "xmp", "iframe", "noembed", "noframes"];
/// Elements whose content is text with character references.
const RCDATA: &[&str] = &["title", "textarea"];

fn lower(s: &str) -> String { s.to_ascii_lowercase() }

struct P<'s, S: TreeSink> { sink: &'s S, t: StrTendril, i: usize, open: Vec<(String, S::Handle, u8)>, html: Option<S::Handle>, head: Option<S::Handle>, body: Option<S::Handle>, context: (String, u8) }

fn html_name(s: &str) -> QualName { QualName::new(None, ns!(html), LocalName::from(s)) }

impl<S: TreeSink> P<'_, S> {
    fn html(&mut self) -> S::Handle {
        if self.html.is_none() {
            let h = self.sink.create_element(html_name("html"), vec![], ElementFlags::default());
            self.sink.append(&self.sink.get_document(), NodeOrText::AppendNode(h.clone()));
            self.html = Some(h);
        }
        self.html.clone().unwrap()
    }
    fn head(&mut self) -> S::Handle {
        let html = self.html();
        if self.head.is_none() {
            let h = self.sink.create_element(html_name("head"), vec![], ElementFlags::default());
            self.sink.append(&html, NodeOrText::AppendNode(h.clone()));
            self.head = Some(h);
        }
        self.head.clone().unwrap()
    }
    fn body(&mut self) -> S::Handle {
        let _ = self.head();
        let html = self.html();
        if self.body.is_none() {
            let h = self.sink.create_element(html_name("body"), vec![], ElementFlags::default());
            self.sink.append(&html, NodeOrText::AppendNode(h.clone()));
            self.body = Some(h);
        }
        self.body.clone().unwrap()
    }
    fn place(&mut self) -> S::Handle { match self.open.last() { Some(x) => x.1.clone(), None => self.body() } }
    /// Text with character references decoded; substrings of the input stay substrings.
    fn decode(&self, a: usize, b: usize) -> StrTendril {
        let s = &self.t[a..b];
        if !s.as_bytes().contains(&b'&') { return self.t.subtendril(a as u32, (b - a) as u32); }
        let mut o = String::new();
        let mut r = s;
        while !r.is_empty() {
            let refs = [("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("&quot;", "\""), ("&#39;", "'"), ("&nbsp;", "\u{a0}")];
            if let Some((k, v)) = refs.iter().find(|(k, _)| r.starts_with(k)) { o.push_str(v); r = &r[k.len()..]; continue; }
            let c = r.chars().next().unwrap();
            o.push(c);
            r = &r[c.len_utf8()..];
        }
        StrTendril::from(o)
    }
    fn text(&mut self, a: usize, b: usize) {
        if a == b { return; }
        if self.open.is_empty() && self.body.is_none() && self.t[a..b].bytes().all(|c| c.is_ascii_whitespace()) { return; }
        let t = self.decode(a, b);
        let p = self.place();
        self.sink.append(&p, NodeOrText::AppendText(t));
    }
    fn run(&mut self) {
        let t = self.t.clone();
        let b = t.as_bytes();
        while self.i < b.len() {
            let a = self.i;
            if b[a] != b'<' || a + 1 >= b.len() || !(b[a + 1].is_ascii_alphabetic() || b[a + 1] == b'/' || b[a + 1] == b'!') {
                self.i += 1;
                while self.i < b.len() && b[self.i] != b'<' { self.i += 1 }
                self.text(a, self.i);
                continue;
            }
            if t[a..].starts_with("<!--") {
                let e = t[a + 4..].find("-->").map(|k| a + 4 + k).unwrap_or(b.len());
                let c = self.sink.create_comment(t.subtendril((a + 4) as u32, (e - a - 4) as u32));
                let p = self.place();
                self.sink.append(&p, NodeOrText::AppendNode(c));
                self.i = (e + 3).min(b.len());
                continue;
            }
            let Some(e) = self.tag_end(a) else { self.i = b.len(); self.text(a, b.len()); continue };
            self.i = e + 1;
            if b[a + 1] == b'!' {
                let name = t[a + 2..e].split_ascii_whitespace().nth(1).unwrap_or("").to_owned();
                self.sink.append_doctype_to_document(StrTendril::from(name), StrTendril::new(), StrTendril::new());
            } else if b[a + 1] == b'/' {
                let n = lower(t[a + 2..e].trim());
                if n == "body" || n == "html" { self.open.clear(); continue; }
                if let Some(k) = self.open.iter().rposition(|x| x.0.eq_ignore_ascii_case(&n)) { self.open.truncate(k) }
            } else {
                self.start(a + 1, e);
            }
        }
        if self.html.is_none() || self.body.is_none() { let _ = self.body(); }
    }
    fn tag_end(&self, a: usize) -> Option<usize> {
        let b = self.t.as_bytes();
        let mut q = 0u8;
        for i in a + 1..b.len() {
            if q != 0 { if b[i] == q { q = 0 } } else if b[i] == b'"' || b[i] == b'\'' { q = b[i] } else if b[i] == b'>' { return Some(i) }
        }
        None
    }
    fn start(&mut self, a: usize, e: usize) {
        let t = self.t.clone();
        let b = t.as_bytes();
        let mut i = a;
        while i < e && !b[i].is_ascii_whitespace() && b[i] != b'/' { i += 1 }
        let tag = lower(&t[a..i]);
        let mut attrs: Vec<Attribute> = Vec::new();
        loop {
            while i < e && (b[i].is_ascii_whitespace() || b[i] == b'/') { i += 1 }
            if i >= e { break }
            let n = i;
            while i < e && b[i] != b'=' && !b[i].is_ascii_whitespace() && b[i] != b'/' { i += 1 }
            let full = lower(&t[n..i]);
            let full = full.as_str();
            let foreign = self.open.last().map(|x| x.2).unwrap_or(self.context.1) > 0 || tag == "svg" || tag == "math";
            // the list of the standard
            let name = match full {
                "xlink:actuate" | "xlink:arcrole" | "xlink:href" | "xlink:role" | "xlink:show" | "xlink:title" | "xlink:type" if foreign => QualName::new(Some(Prefix::from("xlink")), ns!(xlink), LocalName::from(&full[6..])),
                "xml:lang" | "xml:space" if foreign => QualName::new(Some(Prefix::from("xml")), ns!(xml), LocalName::from(&full[4..])),
                "xmlns" if foreign => QualName::new(Some(Prefix::from("")), ns!(xmlns), LocalName::from("xmlns")),
                "xmlns:xlink" if foreign => QualName::new(Some(Prefix::from("xmlns")), ns!(xmlns), LocalName::from("xlink")),
                "viewbox" if foreign => QualName::new(None, ns!(), LocalName::from("viewBox")),
                _ => QualName::new(None, ns!(), LocalName::from(full)),
            };
            let mut value = StrTendril::new();
            if i < e && b[i] == b'=' {
                i += 1;
                if i < e && (b[i] == b'"' || b[i] == b'\'') {
                    let q = b[i];
                    let v = i + 1;
                    i += 1;
                    while i < e && b[i] != q { i += 1 }
                    value = self.decode(v, i);
                    i += 1;
                } else {
                    let v = i;
                    while i < e && !b[i].is_ascii_whitespace() { i += 1 }
                    value = self.decode(v, i);
                }
            }
            if !attrs.iter().any(|x| x.name == name) { attrs.push(Attribute { name, value }) }
        }
        match tag.as_str() {
            "html" if self.html.is_none() => { let h = self.sink.create_element(html_name("html"), attrs, ElementFlags::default()); self.sink.append(&self.sink.get_document(), NodeOrText::AppendNode(h.clone())); self.html = Some(h); return }
            "html" => { let h = self.html(); self.sink.add_attrs_if_missing(&h, attrs); return }
            "head" if self.head.is_none() => { let p = self.html(); let h = self.sink.create_element(html_name("head"), attrs, ElementFlags::default()); self.sink.append(&p, NodeOrText::AppendNode(h.clone())); self.head = Some(h.clone()); self.open.push(("head".into(), h, 0)); return }
            "head" => return,
            "body" if self.body.is_none() => { let _ = self.head(); self.open.clear(); let p = self.html(); let h = self.sink.create_element(html_name("body"), attrs, ElementFlags::default()); self.sink.append(&p, NodeOrText::AppendNode(h.clone())); self.body = Some(h); return }
            "body" => { let h = self.body(); self.sink.add_attrs_if_missing(&h, attrs); return }
            _ => {}
        }
        let outer = match self.open.last() { Some(x) if x.2 == 1 && matches!(x.0.as_str(), "title" | "desc" | "foreignObject") => 0, Some(x) => x.2, None if matches!((self.context.1, self.context.0.as_str()), (1, "title" | "desc" | "foreignObject")) => 0, None => self.context.1 };
        let space = match tag.as_str() { "svg" => 1, "math" => 2, _ => outer };
        // the two names with capitals that the pages use
        let tag = if space == 1 { match tag.as_str() { "clippath" => "clipPath".to_owned(), "foreignobject" => "foreignObject".to_owned(), _ => tag } } else { tag };
        let ns = match space { 1 => ns!(svg), 2 => ns!(mathml), _ => ns!(html) };
        let p = self.place();
        let el = self.sink.create_element(QualName::new(None, ns, LocalName::from(tag.as_str())), attrs, ElementFlags::default());
        self.sink.append(&p, NodeOrText::AppendNode(el.clone()));
        if (space == 0 && VOID.contains(&tag.as_str())) || (space > 0 && b[e - 1] == b'/') { return }
        let raw = RAW.contains(&tag.as_str());
        if space == 0 && (raw || RCDATA.contains(&tag.as_str())) {
            let from = e + 1;
            let close = format!("</{tag}");
            let to = t[from..].to_ascii_lowercase().find(&close).map(|k| from + k).unwrap_or(b.len());
            if to > from { self.sink.append(&el, NodeOrText::AppendText(if raw { t.subtendril(from as u32, (to - from) as u32) } else { self.decode(from, to) })) }
            self.i = self.tag_end(to).map(|k| k + 1).unwrap_or(b.len());
            return;
        }
        self.open.push((tag, el, space));
    }
}

pub fn parse<S: TreeSink>(sink: &S, text: &StrTendril, context: Option<&QualName>) {
    let inside = match context {
        Some(c) => (c.local.to_string(), if c.ns == ns!(svg) { 1 } else if c.ns == ns!(mathml) { 2 } else { 0 }),
        None => (String::new(), 0),
    };
    let mut p = P { sink, t: text.clone(), i: 0, open: vec![], html: None, head: None, body: None, context: inside };
    if context.is_some() {
        let h = p.html();
        p.head = Some(h.clone());
        p.body = Some(h.clone());
        let raw = RAW.contains(&p.context.0.as_str());
        if p.context.1 == 0 && (raw || RCDATA.contains(&p.context.0.as_str())) {
            let n = text.len();
            if n > 0 { let t = if raw { text.clone() } else { p.decode(0, n) }; sink.append(&h, NodeOrText::AppendText(t)); }
            return;
        }
    }
    p.run();
}
