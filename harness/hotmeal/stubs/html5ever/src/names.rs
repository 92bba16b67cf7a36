//! Interned names: equality by number, like string_cache atoms.
use std::borrow::{Borrow, Cow};
use std::cell::RefCell;
use std::fmt;
use std::ops::Deref;

/// Names known in advance; number = index.
pub const NAMES: &[&str] = &[
    "", "div", "p", "span", "b", "html", "head", "body", "id", "class", "href", "data-hotmeal-opaque",
    "http://www.w3.org/1999/xhtml", "http://www.w3.org/2000/svg", "http://www.w3.org/1998/Math/MathML",
    "http://www.w3.org/1999/xlink", "http://www.w3.org/XML/1998/namespace", "http://www.w3.org/2000/xmlns/",
    "svg", "math", "circle", "xlink", "script", "style", "noscript", "br", "title", "table", "template",
    "mi", "mglyph", "mrow", "annotation-xml", "encoding", "textarea", "xmp", "iframe", "noembed", "noframes", "plaintext", "pre", "input", "img", "link",
    "data-hotmeal", "a", "ul", "li", "src",
    "clipPath", "viewBox",
];
thread_local! { static MORE: RefCell<Vec<&'static str>> = const { RefCell::new(Vec::new()) }; }

fn number(s: &str) -> u32 {
    if let Some(i) = NAMES.iter().position(|x| *x == s) { return i as u32; }
    MORE.with(|m| {
        let mut m = m.borrow_mut();
        let i = match m.iter().position(|x| *x == s) { Some(i) => i, None => { m.push(Box::leak(s.to_owned().into_boxed_str())); m.len() - 1 } };
        (NAMES.len() + i) as u32
    })
}
#[inline(never)]
fn name(i: u32) -> &'static str {
    for (k, s) in NAMES.iter().enumerate() { if i == k as u32 { return s; } }
    MORE.with(|m| m.borrow()[i as usize - NAMES.len()])
}

macro_rules! atom { ($($t:ident)*) => { $(
    #[derive(Clone, PartialEq, Eq)]
    pub struct $t(u32);
    // All names hash alike in ordinary hash maps (a legal hash), so that maps keyed by names need no
    // concrete name; the ideal hasher of the checks picks the number up from the side channel.
    impl std::hash::Hash for $t { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { names_channel::put(self.0); h.write_u32(names_channel::MARK) } }
    impl $t {
        /// Name by number, for harnesses.
        pub fn nth(i: u32) -> Self { $t(i) }
        pub fn number(&self) -> u32 { self.0 }
        pub fn is_empty(&self) -> bool { self.0 == 0 }
    }
    impl Deref for $t { type Target = str; fn deref(&self) -> &str { name(self.0) } }
    impl AsRef<str> for $t { fn as_ref(&self) -> &str { name(self.0) } }
    impl Borrow<str> for $t { fn borrow(&self) -> &str { name(self.0) } }
    impl Default for $t { fn default() -> Self { $t(0) } }
    impl From<&str> for $t { fn from(s: &str) -> Self { $t(number(s)) } }
    impl From<String> for $t { fn from(s: String) -> Self { $t(number(&s)) } }
    impl From<Cow<'_, str>> for $t { fn from(s: Cow<'_, str>) -> Self { $t(number(&s)) } }
    impl PartialEq<str> for $t { fn eq(&self, o: &str) -> bool { &**self == o } }
    impl PartialEq<&str> for $t { fn eq(&self, o: &&str) -> bool { &**self == *o } }
    impl PartialEq<String> for $t { fn eq(&self, o: &String) -> bool { &**self == o.as_str() } }
    impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
    impl Ord for $t { fn cmp(&self, o: &Self) -> std::cmp::Ordering { (**self).cmp(&**o) } }
    impl fmt::Display for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&**self, f) } }
    impl fmt::Debug for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Atom({:?})", &**self) } }
)* } }
atom! { LocalName Namespace Prefix }

#[macro_export]
macro_rules! local_name { ($s:tt) => { $crate::LocalName::from($s) }; }
#[macro_export]
macro_rules! namespace_prefix { ($s:tt) => { $crate::Prefix::from($s) }; }
#[macro_export]
macro_rules! namespace_url { ($s:tt) => { $crate::Namespace::from($s) }; }
#[macro_export]
macro_rules! ns {
    () => { $crate::Namespace::from("") };
    (html) => { $crate::Namespace::from("http://www.w3.org/1999/xhtml") };
    (svg) => { $crate::Namespace::from("http://www.w3.org/2000/svg") };
    (mathml) => { $crate::Namespace::from("http://www.w3.org/1998/Math/MathML") };
    (xlink) => { $crate::Namespace::from("http://www.w3.org/1999/xlink") };
    (xml) => { $crate::Namespace::from("http://www.w3.org/XML/1998/namespace") };
    (xmlns) => { $crate::Namespace::from("http://www.w3.org/2000/xmlns/") };
    (*) => { $crate::Namespace::from("*") };
}
