//! Native replay of a recorded path: `replay ENTRY FILE`. Inputs are consumed in order.
//! exit 0: ran through; 10: assertion failed; 11: panic; 12: assumption false / inputs exhausted / mismatch
use std::sync::Mutex;
struct S { ins: Vec<(String, u128)>, pos: usize }
static ST: Mutex<S> = Mutex::new(S { ins: Vec::new(), pos: 0 });
/// a harness that repeats itself natively: random numbers beyond the recorded ones are 0
static LOOPING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// inputs of a path which the symbolic executor left undecided: what is read beyond the recorded ones is chosen here
fn more() -> Option<bool> { match std::env::var("REPLAY_MORE") { Ok(v) if v == "lo" => Some(false), Ok(_) => Some(true), _ => None } }
fn next(name: &str) -> u64 { next_or(name, 0, 0) }
fn next_or(name: &str, lo: u64, hi: u64) -> u64 {
    let mut s = ST.lock().unwrap();
    let p = s.pos;
    if p >= s.ins.len() && name.starts_with("rng") && LOOPING.load(std::sync::atomic::Ordering::SeqCst) { return 0; }
    if p >= s.ins.len() { if let Some(m) = more() { return if m { hi } else { lo }; } }
    if p >= s.ins.len() { drop(s); println!("EXHAUSTED at {}", name); std::process::exit(12); }
    if s.ins[p].0 != name { println!("MISMATCH expected {} got {}", s.ins[p].0, name); std::process::exit(12); }
    s.pos += 1; s.ins[p].1 as u64
}
unsafe fn st<'a>(n: *const u8, l: usize) -> &'a str { std::str::from_utf8_unchecked(std::slice::from_raw_parts(n, l)) }
#[no_mangle] unsafe extern "C" fn sym_bits(n: *const u8, l: usize, _w: u64, lo: u64, hi: u64) -> u64 { let v = next_or(st(n, l), lo, hi); if v < lo || v > hi { println!("INPUT RANGE"); std::process::exit(12); } v }
#[no_mangle] unsafe extern "C" fn sym_f64(n: *const u8, l: usize, lo: f64, hi: f64) -> f64 { f64::from_bits(next_or(st(n, l), ((lo + hi) / 2.0).to_bits(), ((lo + 3.0 * hi) / 4.0).to_bits())) }
#[no_mangle] unsafe extern "C" fn sym_choice(n: *const u8, l: usize, k: u64) -> u64 { next_or(st(n, l), 0, k - 1) }
#[no_mangle] extern "C" fn sym_assume(b: bool) { if !b { println!("ASSUME-FALSE"); std::process::exit(12); } }
#[no_mangle] unsafe extern "C" fn sym_assert(b: bool, m: *const u8, l: usize) { if !b { println!("ASSERT-FAIL {}", st(m, l)); std::process::exit(10); } }
#[no_mangle] unsafe extern "C" fn sym_cover(m: *const u8, l: usize) { println!("COVER {}", st(m, l)); }
#[no_mangle] extern "C" fn sym_observe(v: u64) { println!("OBS {:x}", v); }
#[no_mangle] extern "C" fn sym_observe_f(v: f64) { println!("OBSF {:x}", v.to_bits()); }
#[no_mangle] extern "C" fn sym_is_engine() -> bool { LOOPING.store(true, std::sync::atomic::Ordering::SeqCst); false }
#[no_mangle] extern "C" fn sym_quiesce() { std::thread::sleep(std::time::Duration::from_millis(if more().is_some() { 1200 } else { 400 })); }
#[no_mangle] extern "C" fn sym_and(a: bool, b: bool) -> bool { a & b }
#[no_mangle] extern "C" fn sym_or(a: bool, b: bool) -> bool { a | b }
#[no_mangle] unsafe extern "C" fn sym_out_of_bound(m: *const u8, l: usize) { println!("OUT-OF-BOUND {}", st(m, l)); std::process::exit(12); }
#[no_mangle] extern "C" fn sym_rng() -> u64 { next("rng") }
#[no_mangle] extern "C" fn sym_rng_range(n: u64) -> u64 { next_or("rng_range", 0, n.max(1) - 1) }
#[no_mangle] extern "C" fn sym_rng_unit() -> f64 { f64::from_bits(next_or("rng_unit", 0, 0.75f64.to_bits())) }
/// deterministic hash-map keys, as in the symbolic executor
#[no_mangle] unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize { for i in 0..n { *p.add(i) = 0; } n as isize }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let e = harness::ENTRIES.iter().find(|x| x.0 == a[1]).expect("unknown entry").1;
    let mut v = vec![];
    for l in std::fs::read_to_string(&a[2]).unwrap().lines() {
        if let Some(r) = l.strip_prefix("IN ") { let mut p = r.split(' '); let n = p.next().unwrap().to_string(); let x = u128::from_str_radix(p.next().unwrap(), 16).unwrap(); v.push((n, x)); }
    }
    ST.lock().unwrap().ins = v;
    std::panic::set_hook(Box::new(|i| { println!("PANIC {}", i.to_string().replace('\n', " | ")); std::process::exit(11); }));
    e();
    println!("END");
    std::process::exit(0);
}
