//! Stand-in for `facet-json`: text instead of bytes, but over the wire format of the stand-in for
//! `facet`, one character per byte.
use facet::Wire;

#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("json") } }
pub fn to_string<T: Wire>(v: &T) -> Result<String, Error> {
    let mut o = vec![];
    v.put(&mut o);
    if o.iter().any(|b| *b >= 0x80) { return Err(Error) }
    Ok(unsafe { String::from_utf8_unchecked(o) })
}
pub fn from_str<T: Wire>(s: &str) -> Result<T, Error> {
    let mut b = s.as_bytes();
    let x = T::get(&mut b).ok_or(Error)?;
    if b.is_empty() { Ok(x) } else { Err(Error) }
}
