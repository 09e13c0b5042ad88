//! Verification stand-in for the OS-seeded generator: every random draw is an input chosen by the
//! symbolic executor (or read from a replay file when a counterexample is replayed natively).
extern "C" { fn sym_rng() -> u64; fn sym_rng_range(n: u64) -> u64; fn sym_rng_unit() -> f64; }
#[inline(never)] pub fn word() -> u64 { unsafe { sym_rng() } }
/// any integer 0 <= v < n
#[inline(never)] pub fn range(n: u64) -> u64 { unsafe { if SKIP > 0 { SKIP -= 1; return 0; } if LEFT == 0 { return 0; } if LEFT > 0 { LEFT -= 1; } sym_rng_range(n) } }
/// integer draws returning 0 before the window of arbitrary draws
pub static mut SKIP: i64 = 0;
/// arbitrary integer draws left (negative: no limit), 0 is returned afterwards
pub static mut LEFT: i64 = -1;
/// restrict arbitrary integer draws to `n` draws after the next `skip` ones
pub fn window(skip: i64, n: i64) { unsafe { SKIP = skip; LEFT = n; } }
/// any float 0 <= v < 1
#[inline(never)] pub fn unit() -> f64 { unsafe { let v = sym_rng_unit(); if NU < 16 { UNITS[NU] = v; NU += 1; } v } }
/// the first unit floats drawn, for oracles
pub static mut UNITS: [f64; 16] = [0.0; 16];
/// how many of them
pub static mut NU: usize = 0;
/// the i-th unit float drawn
pub fn drawn(i: usize) -> f64 { unsafe { UNITS[i] } }
