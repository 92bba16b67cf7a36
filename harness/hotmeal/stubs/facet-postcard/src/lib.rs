//! Stand-in for `facet-postcard`, over the wire format of the stand-in for `facet`.
use facet::Wire;

#[derive(Debug)]
pub struct SerializeError;
#[derive(Debug)]
pub struct DeserializeError;
impl std::fmt::Display for SerializeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("serialize") } }
impl std::fmt::Display for DeserializeError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("deserialize") } }

pub fn to_vec<T: Wire>(v: &T) -> Result<Vec<u8>, SerializeError> { let mut o = vec![]; v.put(&mut o); Ok(o) }
pub fn from_slice<T: Wire>(mut b: &[u8]) -> Result<T, DeserializeError> {
    let x = T::get(&mut b).ok_or(DeserializeError)?;
    if b.is_empty() { Ok(x) } else { Err(DeserializeError) }
}
