//! Carries the number of a name from its `Hash` implementation to the ideal hasher.
use std::cell::Cell;
pub const MARK: u32 = 0x6e616d65;
thread_local! { static LAST: Cell<u32> = const { Cell::new(0) }; }
pub fn put(v: u32) { LAST.with(|c| c.set(v)) }
pub fn get() -> u32 { LAST.with(|c| c.get()) }
