//! Stand-in for `tendril`: shared immutable buffers with cheap substrings; mutation copies.
use std::fmt;
use std::ops::Deref;
use std::rc::Rc;

#[derive(Clone)]
pub struct StrTendril { buf: Rc<str>, off: usize, len: usize }

impl StrTendril {
    pub fn new() -> Self { Self::from("") }
    pub fn from_slice(s: &str) -> Self { Self::from(s) }
    pub fn push_slice(&mut self, s: &str) {
        let mut n = String::with_capacity(self.len + s.len());
        n.push_str(self);
        n.push_str(s);
        *self = Self::from(n);
    }
    pub fn push_tendril(&mut self, t: &StrTendril) { self.push_slice(t) }
    pub fn push_char(&mut self, c: char) { self.push_slice(c.encode_utf8(&mut [0; 4])) }
    pub fn subtendril(&self, off: u32, len: u32) -> Self {
        let _ = &self[off as usize..(off + len) as usize];
        StrTendril { buf: self.buf.clone(), off: self.off + off as usize, len: len as usize }
    }
    pub fn len32(&self) -> u32 { self.len as u32 }
    pub fn clear(&mut self) { *self = Self::new() }
}
impl Deref for StrTendril { type Target = str; fn deref(&self) -> &str { &self.buf[self.off..self.off + self.len] } }
impl AsRef<str> for StrTendril { fn as_ref(&self) -> &str { self } }
impl std::borrow::Borrow<str> for StrTendril { fn borrow(&self) -> &str { self } }
impl From<&str> for StrTendril { fn from(s: &str) -> Self { StrTendril { len: s.len(), buf: Rc::from(s), off: 0 } } }
impl From<String> for StrTendril { fn from(s: String) -> Self { StrTendril { len: s.len(), buf: Rc::from(s), off: 0 } } }
impl From<&String> for StrTendril { fn from(s: &String) -> Self { Self::from(s.as_str()) } }
impl From<StrTendril> for String { fn from(s: StrTendril) -> String { (*s).to_owned() } }
impl std::str::FromStr for StrTendril { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { Ok(Self::from(s)) } }
impl Default for StrTendril { fn default() -> Self { Self::new() } }
impl PartialEq for StrTendril { fn eq(&self, o: &Self) -> bool { **self == **o } }
impl Eq for StrTendril {}
impl PartialOrd for StrTendril { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for StrTendril { fn cmp(&self, o: &Self) -> std::cmp::Ordering { (**self).cmp(&**o) } }
impl std::hash::Hash for StrTendril { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (**self).hash(h) } }
impl PartialEq<str> for StrTendril { fn eq(&self, o: &str) -> bool { **self == *o } }
impl PartialEq<&str> for StrTendril { fn eq(&self, o: &&str) -> bool { **self == **o } }
impl fmt::Debug for StrTendril { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&**self, f) } }
impl fmt::Display for StrTendril { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&**self, f) } }
impl fmt::Write for StrTendril { fn write_str(&mut self, s: &str) -> fmt::Result { self.push_slice(s); Ok(()) } }
impl Extend<char> for StrTendril { fn extend<I: IntoIterator<Item = char>>(&mut self, i: I) { for c in i { self.push_char(c) } } }

/// Consumers of text.
pub trait TendrilSink {
    type Output;
    fn process(&mut self, t: StrTendril);
    fn finish(self) -> Self::Output;
    fn one<T: Into<StrTendril>>(mut self, t: T) -> Self::Output where Self: Sized {
        self.process(t.into());
        self.finish()
    }
    fn from_iter<I: IntoIterator>(mut self, i: I) -> Self::Output where Self: Sized, I::Item: Into<StrTendril> {
        for t in i { self.process(t.into()) }
        self.finish()
    }
}
pub mod stream { pub use super::TendrilSink; }
