//! Thin wrappers over the symbolic-execution interface. In the symbolic executor the extern functions are
//! built-ins; in the native replay binary they read the inputs of a recorded path.
pub mod raw {
    extern "C" {
        pub fn sym_bits(n: *const u8, l: usize, w: u64, lo: u64, hi: u64) -> u64;
        pub fn sym_f64(n: *const u8, l: usize, lo: f64, hi: f64) -> f64;
        pub fn sym_choice(n: *const u8, l: usize, k: u64) -> u64;
        pub fn sym_assume(b: bool);
        pub fn sym_assert(b: bool, m: *const u8, l: usize);
        pub fn sym_cover(m: *const u8, l: usize);
        pub fn sym_observe(v: u64);
        pub fn sym_observe_f(v: f64);
        pub fn sym_quiesce();
        pub fn sym_and(a: bool, b: bool) -> bool;
        pub fn sym_or(a: bool, b: bool) -> bool;
        pub fn sym_is_engine() -> bool;
        pub fn sym_out_of_bound(m: *const u8, l: usize);
    }
}
use raw::*;
/// integer in lo..=hi, symbolic
#[inline(always)] pub fn int(n: &str, lo: u64, hi: u64) -> u64 { let w = 64 - hi.leading_zeros().min(63); unsafe { sym_bits(n.as_ptr(), n.len(), w as u64, lo, hi) } }
/// any byte
#[inline(always)] pub fn byte(n: &str) -> u8 { unsafe { sym_bits(n.as_ptr(), n.len(), 8, 0, 255) as u8 } }
/// any 64-bit word
#[inline(always)] pub fn word(n: &str) -> u64 { unsafe { sym_bits(n.as_ptr(), n.len(), 64, 0, u64::MAX) } }
/// float in lo..=hi, symbolic
#[inline(always)] pub fn f(n: &str, lo: f64, hi: f64) -> f64 { unsafe { sym_f64(n.as_ptr(), n.len(), lo, hi) } }
/// case split 0..k (each value is a separate family of paths)
#[inline(always)] pub fn pick(n: &str, k: usize) -> usize { unsafe { sym_choice(n.as_ptr(), n.len(), k as u64) as usize } }
#[inline(always)] pub fn assume(b: bool) { unsafe { sym_assume(b) } }
#[inline(always)] pub fn check(b: bool, m: &str) { unsafe { sym_assert(b, m.as_ptr(), m.len()) } }
#[inline(always)] pub fn cover(m: &str) { unsafe { sym_cover(m.as_ptr(), m.len()) } }
#[inline(always)] pub fn obs(v: u64) { unsafe { sym_observe(v) } }
#[inline(always)] pub fn obsf(v: f64) { unsafe { sym_observe_f(v) } }
#[inline(always)] pub fn obss(s: &str) { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } obs(h) }
#[inline(always)] pub fn quiesce() { unsafe { sym_quiesce() } }
#[inline(always)] pub fn and(a: bool, b: bool) -> bool { unsafe { sym_and(a, b) } }
#[inline(always)] pub fn or(a: bool, b: bool) -> bool { unsafe { sym_or(a, b) } }
#[inline(always)] pub fn imp(a: bool, b: bool) -> bool { or(!a, b) }
/// |a-b| <= tol (no forking)
#[inline(always)] pub fn near(a: f64, b: f64, tol: f64) -> bool { and(a - b <= tol, b - a <= tol) }
#[inline(always)] pub fn out_of_bound(m: &str) { unsafe { sym_out_of_bound(m.as_ptr(), m.len()) } }
/// case split over the value of an index (so that what it selects is a definite object)
#[inline(always)] pub fn fix(i: usize, n: usize) -> usize { let w = pick("which", n); assume(i == w); w }
/// repetitions: 1 in the symbolic executor (which explores the schedules itself), n in a native replay
#[inline(always)] pub fn reps(n: usize) -> usize { if unsafe { sym_is_engine() } { 1 } else { n } }
