use crate::api::*;
use nar20_1 as n;
#[no_mangle]
pub extern "C" fn h_smoke_parse() {
    let r = n::NarseseParser::parseNarsese(&"<a --> b>. {0.5 0.9}".to_string());
    match r { Some((t, tv, p, e)) => { obss(&n::Term::convTermToStr(&t)); obsf(tv.f); obsf(tv.c); obs(p as u64); obs(e as u64); cover("parsed"); } None => check(false, "parse failed") }
}
#[no_mangle]
pub extern "C" fn h_smoke_ded() {
    let a = n::Tv::Tv { f: f("f1", 0.0, 1.0), c: f("c1", 0.0, 0.99) };
    let b = n::Tv::Tv { f: f("f2", 0.0, 1.0), c: f("c2", 0.0, 0.99) };
    let r = n::Tv::ded(&a, &b);
    check(and(r.f >= 0.0, r.f <= 1.0), "f range");
    check(and(r.c >= 0.0, r.c < 1.0), "c range");
    check(r.c <= a.c, "c decreasing");
    obsf(r.f); obsf(r.c);
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_smoke_bytes() {
    let mut v = vec![];
    for _ in 0..6 { let b = byte("b"); assume(and(b >= 32, b < 127)); v.push(b); }
    let s = unsafe { String::from_utf8_unchecked(v) };
    let r = n::NarseseParser::parseNarsese(&s);
    match r { Some((t, tv, p, e)) => { obss(&n::Term::convTermToStr(&t)); obsf(tv.f); obsf(tv.c); obs(p as u64); obs(e as u64); cover("parsed"); } None => cover("rejected") }
}
