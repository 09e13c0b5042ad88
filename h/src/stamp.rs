//! Evidence stamps
use crate::api::*;
use crate::g::*;
use nar20_1::NarStamp as N;
fn ids(n: &str, len: usize) -> Vec<i64> { (0..len).map(|_| word(n) as i64).collect() }
fn anyin(x: i64, v: &[i64]) -> bool { let mut r = false; for y in v { r = or(r, x == *y); } r }
/// overlap is reported exactly when an id is shared
#[no_mangle]
pub extern "C" fn h_stamp_overlap() {
    let a = ids("a", pick("la", 5)); let b = ids("b", pick("lb", 5));
    let mut share = false;
    for x in &a { share = or(share, anyin(*x, &b)); }
    let r = N::checkOverlap(&Stamp { ids: a.clone() }, &Stamp { ids: b.clone() });
    check(r == share, "overlap exactly when the stamps share an id");
    let r2 = N::checkOverlap(&Stamp { ids: b }, &Stamp { ids: a });
    check(r2 == share, "overlap is symmetric");
    obs(r as u64);
    cover(if r { "overlapping" } else { "disjoint" });
}
/// merging keeps every piece of evidence of both stamps (up to the size limit) and nothing else
#[no_mangle]
pub extern "C" fn h_stamp_merge() {
    let a = ids("a", pick("la", 5)); let b = ids("b", pick("lb", 5));
    let m = N::merge(&N::newStamp(&a), &N::newStamp(&b));
    for x in a.iter().chain(b.iter()) { check(anyin(*x, &m.ids), "merged stamp keeps all evidence of both"); }
    for x in &m.ids { check(or(anyin(*x, &a), anyin(*x, &b)), "merged stamp has no foreign evidence"); }
    check(m.ids.len() <= a.len() + b.len(), "merged stamp is not larger than both together");
    for x in &m.ids { obs(*x as u64); }
    cover("end");
}
/// whatever the sizes: at most 120 ids, and the most recent (front) half of both parents survives truncation
#[no_mangle]
pub extern "C" fn h_stamp_bound() {
    const L: [usize; 12] = [0, 1, 10, 33, 59, 60, 61, 70, 90, 119, 120, 121];
    let (la, lb) = (L[pick("la", 12)], L[pick("lb", 12)]);
    // distinct ids throughout, a symbolic one at a symbolic position of each
    let mut a: Vec<i64> = (0..la as i64).map(|i| 2 * i).collect();
    let mut b: Vec<i64> = (0..lb as i64).map(|i| 2 * i + 1).collect();
    if la > 0 { a[pick("posa", 2) * (la - 1)] = 1000 + int("ida", 0, 1 << 40) as i64; }
    if lb > 0 { b[pick("posb", 2) * (lb - 1)] = -1 - int("idb", 0, 1 << 40) as i64; }
    let m = N::merge(&Stamp { ids: a.clone() }, &Stamp { ids: b.clone() });
    check(m.ids.len() <= 120, "stamp length is bounded");
    check(m.ids.len() == (la + lb).min(120), "evidence is dropped only at the bound");
    let (ka, kb) = if la + lb <= 120 { (la, lb) } else { (la.min(60), lb.min(60)) };
    let mut okk = true;
    for x in &a[..ka] { okk = and(okk, anyin(*x, &m.ids)); }
    for x in &b[..kb] { okk = and(okk, anyin(*x, &m.ids)); }
    check(okk, "both parents stay represented in the merged stamp");
    cover(if la + lb > 120 { "truncated" } else { "whole" });
}
/// sameness of stamps: same ids in the same order
#[no_mangle]
pub extern "C" fn h_stamp_same() {
    let a = ids("a", pick("la", 4)); let b = ids("b", pick("lb", 4));
    let mut eq = a.len() == b.len();
    for i in 0..a.len().min(b.len()) { eq = and(eq, a[i] == b[i]); }
    let r = N::checkSame(&Stamp { ids: a.clone() }, &Stamp { ids: b });
    check(r == eq, "stamps are the same exactly when their ids are");
    let c = N::newStamp(&a);
    check(N::checkSame(&c, &Stamp { ids: a.clone() }), "a new stamp holds the given ids");
    obs(r as u64);
    cover(if r { "same" } else { "different" });
}

/// long stamps: one arbitrary id at the start, middle or end of each, everything else different
#[no_mangle]
pub extern "C" fn h_stamp_long() {
    const L: [(usize, usize); 4] = [(121, 2), (2, 121), (70, 66), (17, 34)];
    let (la, lb) = L[pick("sizes", 4)];
    let mut a: Vec<i64> = (0..la as i64).map(|i| 2 * i).collect();
    let mut b: Vec<i64> = (0..lb as i64).map(|i| 2 * i + 1).collect();
    let (pa, pb) = (pick("posa", 3) * (la - 1) / 2, pick("posb", 3) * (lb - 1) / 2);
    let (x, y) = (1000 + int("ida", 0, 1 << 40) as i64, 1000 + int("idb", 0, 1 << 40) as i64);
    a[pa] = x; b[pb] = y;
    let r = N::checkOverlap(&Stamp { ids: a.clone() }, &Stamp { ids: b });
    check(r == (x == y), "long stamps overlap exactly when they share an id");
    let mut c = a.clone(); c[pa] = y;
    let q = N::checkSame(&Stamp { ids: a }, &Stamp { ids: c });
    check(q == (x == y), "long stamps are the same exactly when their ids are");
    obs(r as u64);
    cover(if r { "overlapping" } else { "disjoint" });
}
