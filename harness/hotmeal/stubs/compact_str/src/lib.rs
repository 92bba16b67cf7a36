//! Stand-in for `compact_str`: an ordinary growable string.
use std::borrow::{Borrow, Cow};
use std::fmt;
use std::ops::{Deref, DerefMut};

#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct CompactString(String);

impl CompactString {
    pub fn new(s: impl AsRef<str>) -> Self { CompactString(s.as_ref().to_owned()) }
    pub const fn const_new(_: &'static str) -> Self { CompactString(String::new()) }
    pub fn with_capacity(n: usize) -> Self { CompactString(String::with_capacity(n)) }
    pub fn as_str(&self) -> &str { &self.0 }
    pub fn push_str(&mut self, s: &str) { self.0.push_str(s) }
    pub fn push(&mut self, c: char) { self.0.push(c) }
    pub fn pop(&mut self) -> Option<char> { self.0.pop() }
    pub fn insert_str(&mut self, i: usize, s: &str) { self.0.insert_str(i, s) }
    pub fn truncate(&mut self, n: usize) { self.0.truncate(n) }
    pub fn clear(&mut self) { self.0.clear() }
    pub fn reserve(&mut self, n: usize) { self.0.reserve(n) }
    pub fn capacity(&self) -> usize { self.0.capacity() }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn into_string(self) -> String { self.0 }
    pub fn from_utf8(b: impl AsRef<[u8]>) -> Result<Self, std::str::Utf8Error> { std::str::from_utf8(b.as_ref()).map(Self::new) }
}
impl Deref for CompactString { type Target = str; fn deref(&self) -> &str { &self.0 } }
impl DerefMut for CompactString { fn deref_mut(&mut self) -> &mut str { &mut self.0 } }
impl AsRef<str> for CompactString { fn as_ref(&self) -> &str { &self.0 } }
impl AsRef<[u8]> for CompactString { fn as_ref(&self) -> &[u8] { self.0.as_bytes() } }
impl Borrow<str> for CompactString { fn borrow(&self) -> &str { &self.0 } }
impl From<&str> for CompactString { fn from(s: &str) -> Self { CompactString(s.to_owned()) } }
impl From<String> for CompactString { fn from(s: String) -> Self { CompactString(s) } }
impl From<&String> for CompactString { fn from(s: &String) -> Self { CompactString(s.clone()) } }
impl From<Box<str>> for CompactString { fn from(s: Box<str>) -> Self { CompactString(s.into()) } }
impl From<Cow<'_, str>> for CompactString { fn from(s: Cow<'_, str>) -> Self { CompactString(s.into_owned()) } }
impl From<char> for CompactString { fn from(c: char) -> Self { CompactString(c.to_string()) } }
impl From<CompactString> for String { fn from(s: CompactString) -> String { s.0 } }
impl PartialEq<str> for CompactString { fn eq(&self, o: &str) -> bool { self.0 == o } }
impl PartialEq<&str> for CompactString { fn eq(&self, o: &&str) -> bool { self.0 == *o } }
impl PartialEq<String> for CompactString { fn eq(&self, o: &String) -> bool { self.0 == *o } }
impl fmt::Debug for CompactString { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.0, f) } }
impl fmt::Display for CompactString { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
impl fmt::Write for CompactString { fn write_str(&mut self, s: &str) -> fmt::Result { self.0.push_str(s); Ok(()) } }
impl Extend<char> for CompactString { fn extend<I: IntoIterator<Item = char>>(&mut self, i: I) { self.0.extend(i) } }
impl FromIterator<char> for CompactString { fn from_iter<I: IntoIterator<Item = char>>(i: I) -> Self { CompactString(i.into_iter().collect()) } }
impl std::str::FromStr for CompactString { type Err = std::convert::Infallible; fn from_str(s: &str) -> Result<Self, Self::Err> { Ok(Self::from(s)) } }
impl std::ops::Add<&str> for CompactString { type Output = Self; fn add(mut self, o: &str) -> Self { self.0.push_str(o); self } }
impl std::ops::AddAssign<&str> for CompactString { fn add_assign(&mut self, o: &str) { self.0.push_str(o) } }

pub trait ToCompactString { fn to_compact_string(&self) -> CompactString; }
impl<T: fmt::Display + ?Sized> ToCompactString for T { fn to_compact_string(&self) -> CompactString { CompactString(self.to_string()) } }

#[macro_export]
macro_rules! format_compact { ($($t:tt)*) => { $crate::CompactString::from(::std::format!($($t)*)) }; }
