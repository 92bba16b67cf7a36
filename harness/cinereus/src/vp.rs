//! Interface between harnesses and the symbolic engine (or the native replayer).
//!
//! Under the engine these functions are modelled; in a native build `bin/replay.rs` defines them
//! and answers `vp_sym` from a recorded assignment.

unsafe extern "C" {
    fn vp_sym(name: *const u8, len: usize, width: u32, lo: u64, hi: u64) -> u64;
    fn vp_assume(c: bool);
    fn vp_assert(c: bool, msg: *const u8, len: usize);
    fn vp_reach(name: *const u8, len: usize);
    fn vp_param(i: u64) -> u64;
    fn vp_obs(v: u64);
    fn vp_conc(v: u64) -> u64;
    fn vp_known(name: *const u8, len: usize);
    fn vp_set_rand(v: u64);
}

/// A symbolic value in `lo..=hi`.
#[inline]
pub fn sym(name: &str, lo: u64, hi: u64) -> u64 {
    let w = if hi < 2 { 1 } else { 64 - hi.leading_zeros() };
    unsafe { vp_sym(name.as_ptr(), name.len(), w, lo, hi) }
}
#[inline] pub fn sym8(name: &str, hi: u64) -> u8 { sym(name, 0, hi) as u8 }
#[inline] pub fn symb(name: &str) -> bool { sym(name, 0, 1) == 1 }
/// A symbolic value whose alternatives are explored one by one.
#[inline] pub fn pick(name: &str, lo: u64, hi: u64) -> u64 { conc(sym(name, lo, hi)) }
#[inline] pub fn conc(v: u64) -> u64 { unsafe { vp_conc(v) } }
#[inline] pub fn assume(c: bool) { unsafe { vp_assume(c) } }
#[inline] pub fn check(c: bool, msg: &str) { unsafe { vp_assert(c, msg.as_ptr(), msg.len()) } }
#[inline] pub fn reach(name: &str) { unsafe { vp_reach(name.as_ptr(), name.len()) } }
#[inline] pub fn param(i: u64) -> u64 { unsafe { vp_param(i) } }
#[inline] pub fn obs(v: u64) { unsafe { vp_obs(v) } }
#[inline] pub fn known(name: &str) { unsafe { vp_known(name.as_ptr(), name.len()) } }
#[inline] pub fn set_rand(v: u64) { unsafe { vp_set_rand(v) } }
