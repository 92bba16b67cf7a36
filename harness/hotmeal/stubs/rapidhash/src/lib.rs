//! Stand-in for `rapidhash` inside hotmeal (cinereus keeps the real one): an ideal hash, equal
//! exactly for equal streams of written values.
use std::cell::RefCell;
use std::hash::Hasher;

thread_local! { static SEEN: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) }; }

/// Forgets all streams (a new run).
pub fn reset() { SEEN.with(|s| s.borrow_mut().clear()) }

#[derive(Clone, Default, Debug)]
pub struct RapidHasher { stream: Vec<u8> }

impl RapidHasher { pub fn new(_seed: u64) -> Self { Self::default() } pub fn default_const() -> Self { Self::default() } }

#[inline(never)]
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}

impl Hasher for RapidHasher {
    fn write(&mut self, b: &[u8]) { self.stream.extend_from_slice(b) }
    fn write_u32(&mut self, v: u32) { self.write(&(if v == names_channel::MARK { names_channel::get() } else { v }).to_ne_bytes()) }
    fn finish(&self) -> u64 {
        SEEN.with(|s| {
            let mut s = s.borrow_mut();
            for (i, x) in s.iter().enumerate() { if same(x, &self.stream) { return i as u64 + 1; } }
            s.push(self.stream.clone());
            s.len() as u64
        })
    }
}
#[derive(Clone, Default, Debug)]
pub struct RapidBuildHasher;
impl std::hash::BuildHasher for RapidBuildHasher { type Hasher = RapidHasher; fn build_hasher(&self) -> RapidHasher { RapidHasher::default() } }
pub type RapidHashMap<K, V> = std::collections::HashMap<K, V>;
pub type RapidHashSet<K> = std::collections::HashSet<K>;
pub mod fast { pub use super::*; }
pub mod quality { pub use super::*; }
