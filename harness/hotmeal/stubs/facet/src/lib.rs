//! Stand-in for `facet`: values to bytes and back, in place of reflection.
pub use facet_macros::Facet;

pub trait Wire: Sized {
    fn put(&self, out: &mut Vec<u8>);
    fn get(from: &mut &[u8]) -> Option<Self>;
}
impl Wire for u8 {
    fn put(&self, out: &mut Vec<u8>) { out.push(*self) }
    fn get(from: &mut &[u8]) -> Option<u8> { let (x, rest) = from.split_first()?; *from = rest; Some(*x) }
}
impl Wire for u32 {
    fn put(&self, out: &mut Vec<u8>) { out.extend_from_slice(&self.to_le_bytes()) }
    fn get(from: &mut &[u8]) -> Option<u32> { let (x, rest) = from.split_at_checked(4)?; *from = rest; Some(u32::from_le_bytes(x.try_into().ok()?)) }
}
impl Wire for bool {
    fn put(&self, out: &mut Vec<u8>) { out.push(*self as u8) }
    fn get(from: &mut &[u8]) -> Option<bool> { Some(u8::get(from)? != 0) }
}
impl Wire for String {
    fn put(&self, out: &mut Vec<u8>) { (self.len() as u32).put(out); out.extend_from_slice(self.as_bytes()) }
    fn get(from: &mut &[u8]) -> Option<String> {
        let n = u32::get(from)? as usize;
        let (x, rest) = from.split_at_checked(n)?;
        *from = rest;
        // only ever reads what it wrote
        Some(unsafe { String::from_utf8_unchecked(x.to_vec()) })
    }
}
impl<T: Wire> Wire for Option<T> {
    fn put(&self, out: &mut Vec<u8>) { match self { None => out.push(0), Some(x) => { out.push(1); x.put(out) } } }
    fn get(from: &mut &[u8]) -> Option<Option<T>> { Some(match u8::get(from)? { 0 => None, _ => Some(T::get(from)?) }) }
}
impl<T: Wire> Wire for Vec<T> {
    fn put(&self, out: &mut Vec<u8>) { (self.len() as u32).put(out); for x in self { x.put(out) } }
    fn get(from: &mut &[u8]) -> Option<Vec<T>> { let n = u32::get(from)?; (0..n).map(|_| T::get(from)).collect() }
}
impl<A: smallvec::Array> Wire for smallvec::SmallVec<A> where A::Item: Wire {
    fn put(&self, out: &mut Vec<u8>) { (self.len() as u32).put(out); for x in self { x.put(out) } }
    fn get(from: &mut &[u8]) -> Option<Self> { let n = u32::get(from)?; (0..n).map(|_| A::Item::get(from)).collect() }
}
