//! Narsese text: exact meaning of well-formed lines, totality on arbitrary lines
use crate::api::*;
use crate::g::*;
use nar20_1::NarseseParser as N;
/// names: one symbolic character of the alphabet of names
fn ch(n: &str, class: usize) -> u8 { match class { 0 => b'a' + int(n, 0, 25) as u8, 1 => b'A' + int(n, 0, 25) as u8, 2 => b'0' + int(n, 0, 9) as u8, 3 => b'_', 4 => b'^', _ => b'-' } }
fn lt() -> Vec<u8> { vec![ch("letter", 0)] }
fn us(b: &[u8]) -> String { unsafe { String::from_utf8_unchecked(b.to_vec()) } }
fn leafs(kind: usize, name: Vec<u8>, o: &mut Vec<u8>) -> Term {
    let s = us(&name);
    match kind { 0 => { o.extend_from_slice(&name); Term::Name(s) } 1 => { o.push(b'?'); o.extend_from_slice(&name); Term::QVar(s) } 2 => { o.push(b'#'); o.extend_from_slice(&name); Term::DepVar(s) } _ => { o.push(b'$'); o.extend_from_slice(&name); Term::IndepVar(s) } }
}
const COPT: [&str; 5] = [" --> ", " <-> ", " ==> ", " <=> ", " =/> "];
/// forms of the grammar: text is appended to o, the term it denotes is returned
fn form(k: usize, sub: &mut dyn FnMut(&mut Vec<u8>) -> Term, o: &mut Vec<u8>) -> Term {
    fn list(n: usize, sep: &[u8], sub: &mut dyn FnMut(&mut Vec<u8>) -> Term, o: &mut Vec<u8>) -> Vec<Term> { let mut v = vec![]; o.push(b'('); for i in 0..n { if i > 0 { o.extend_from_slice(sep); } v.push(sub(o)); } o.push(b')'); v }
    match k {
        0..=4 => { o.push(b'<'); let a = sub(o); o.extend_from_slice(COPT[k].as_bytes()); let b = sub(o); o.push(b'>'); st(COPS[k], a, b) }
        5 => { o.push(b'{'); let a = sub(o); o.push(b'}'); compound(2, vec![a]) }
        6 => { o.push(b'['); let a = sub(o); o.push(b']'); compound(1, vec![a]) }
        7 => { o.extend_from_slice(b"(!"); let a = sub(o); o.push(b')'); Term::Neg(bx(a)) }
        8 => compound(5, list(2, b"|", sub, o)),
        9 => compound(6, list(2, b"&", sub, o)),
        10 | 11 => { o.push(b'('); let a = sub(o); o.extend_from_slice(if k == 10 { b" /1 " } else { b" /2 " }); let b = sub(o); o.push(b')'); Term::Img(bx(a), k - 10, vecb(vec![b])) }
        12..=14 => compound(0, list(k - 10, b",", sub, o)),
        15..=17 => compound(4, list(k - 13, b"*", sub, o)),
        18..=20 => compound(3, list(k - 16, b"&&", sub, o)),
        21 => compound(4, list(2, b" * ", sub, o)),
        22 => compound(4, list(3, b"  *  ", sub, o)),
        _ => { o.push(b'('); let a = sub(o); o.extend_from_slice(b"* "); let b = sub(o); o.extend_from_slice(b" *"); let c = sub(o); o.push(b')'); compound(4, vec![a, b, c]) }
    }
}
const NFORM: usize = 24;
fn expect(txt: Vec<u8>, want: &Term, tv: (f64, f64), p: P, ev: bool) {
    let r = N::parseNarsese(&us(&txt));
    match r {
        None => check(false, "well-formed Narsese is accepted"),
        Some((t, v, pp, e)) => {
            check(same(&t, want), "the text denotes exactly this term");
            check(and(near(v.f, tv.0, 1e-9), near(v.c, tv.1, 1e-9)), "the truth value is the one written, or the default");
            check(pn(pp) == pn(p) && e == ev, "punctuation and tense are the ones written");
            obst(&t); obsf(v.f); obsf(v.c);
        }
    }
}
/// every form over leaves; name kinds and name characters symbolic
#[no_mangle]
pub extern "C" fn h_parse_forms1() {
    let mut o = vec![]; let k = pick("form", NFORM);
    let mut n = 0;
    let t = form(k, &mut |o: &mut Vec<u8>| { let kd = if n < 2 { pick("leaf", 4) } else { 0 }; n += 1; leafs(kd, lt(), o) }, &mut o);
    o.push(b'.');
    expect(o, &t, (1.0, 0.9), P::JUGEMENT, false); cover("end");
}
/// names of one to three characters of every class, alone and inside a statement
#[no_mangle]
pub extern "C" fn h_parse_names() {
    let mut name = vec![]; for _ in 0..1 + pick("len", 3) { let c = pick("class", 6); name.push(ch("char", c)); }
    let inside = pick("inside", 2); let kd = pick("leaf", 4);
    let mut o = vec![];
    let t = if inside == 0 { leafs(kd, name, &mut o) } else { form(pick("form", 5), &mut |o: &mut Vec<u8>| leafs(kd, name.clone(), o), &mut o) };
    o.push(b'.');
    expect(o, &t, (1.0, 0.9), P::JUGEMENT, false); cover("end");
}
fn forms2(ka: usize, reduce: bool) {
    let mut o = vec![]; let mut n = 0; let pos = pick("pos", 2);
    let t = form(ka, &mut |o: &mut Vec<u8>| { n += 1; if n == pos + 1 { let k = pick("inner", NFORM); let mut m = 0; form(k, &mut |o: &mut Vec<u8>| { m += 1; leafs(if m == 1 && !reduce { 2 } else { 0 }, lt(), o) }, o) } else { leafs(0, lt(), o) } }, &mut o);
    o.push(b'.');
    expect(o, &t, (1.0, 0.9), P::JUGEMENT, false); cover("end");
}
/// every form inside every form
#[no_mangle]
pub extern "C" fn h_parse_forms2() { let k = pick("form", NFORM); forms2(k, true); }
/// a goal-like and an operation-like line as used by the examples: <(a,<{(x*y)} --> ^op>) =/> g>
#[no_mangle]
pub extern "C" fn h_parse_op() {
    let (a, x, y, p, g) = (lt(), lt(), lt(), lt(), lt());
    let mut o = vec![]; o.extend_from_slice(b"<("); o.extend(&a); o.extend_from_slice(b",<{("); o.extend(&x); o.extend_from_slice(b"*"); o.extend(&y); o.extend_from_slice(b")} --> ^"); o.extend(&p); o.extend_from_slice(b">) =/> "); o.extend(&g); o.extend_from_slice(b">.");
    let opn = { let mut v = vec![b'^']; v.extend(&p); v };
    let n = |b: &[u8]| Term::Name(us(b));
    let t = st(Copula::PREDIMPL, compound(0, vec![n(&a), st(Copula::INH, compound(2, vec![compound(4, vec![n(&x), n(&y)])]), n(&opn))]), n(&g));
    expect(o, &t, (1.0, 0.9), P::JUGEMENT, false); cover("end");
}
/// punctuation, tense, truth value, trailing space; digits of the truth value symbolic
#[no_mangle]
pub extern "C" fn h_parse_sentence() {
    let mut o = vec![]; let t = form(pick("form", 8), &mut |o: &mut Vec<u8>| leafs(0, lt(), o), &mut o);
    let p = match pick("punct", 3) { 0 => { o.push(b'.'); P::JUGEMENT } 1 => { o.push(b'!'); P::GOAL } _ => { o.push(b'?'); P::QUESTION } };
    let mut tv = (1.0, 0.9);
    match pick("tv", 4) {
        0 => {}
        1 => { let (d, e) = (int("fdig", 0, 9), int("cdig", 0, 9)); o.extend_from_slice(b" {0."); o.push(b'0' + d as u8); o.extend_from_slice(b" 0."); o.push(b'0' + e as u8); o.push(b'}'); tv = (d as f64 / 10.0, e as f64 / 10.0); }
        2 => { let e = int("cdig", 0, 99); o.extend_from_slice(b" {1.0 0."); o.push(b'0' + (e / 10) as u8); o.push(b'0' + (e % 10) as u8); o.push(b'}'); tv = (1.0, e as f64 / 100.0); }
        _ => { let e = int("cdig", 0, 9); o.extend_from_slice(b"{1 ."); o.push(b'0' + e as u8); o.push(b'}'); tv = (1.0, e as f64 / 10.0); }
    }
    let ev = pick("event", 2) == 1; if ev { o.extend_from_slice(b" :|:"); }
    expect(o, &t, tv, p, ev); cover("end");
}
/// long names, names of other alphabets, many components, deep nesting, with and without a truth value
#[no_mangle]
pub extern "C" fn h_parse_wide() {
    let mut o = vec![]; let name = |n: usize, c: u8| -> Vec<u8> { let mut v: Vec<u8> = (0..n).map(|i| b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"[(i * 7) % 63]).collect(); if n > 0 { v[n - 1] = c; } v };
    let t = match pick("what", 4) {
        0 => { let n = [9, 17, 33, 65, 200, 500][pick("length", 6)]; let kd = pick("leaf", 4); let nme = name(n, ch("last", 0)); if pick("inside", 2) == 0 { leafs(kd, nme, &mut o) } else { form(pick("form", 12), &mut |o: &mut Vec<u8>| leafs(kd, nme.clone(), o), &mut o) } }
        1 => { let mut nme = vec![]; match pick("alphabet", 3) { 0 => { nme.push(0xc3); nme.push(0x80 + int("two", 0, 22) as u8); } 1 => { nme.extend_from_slice(&[0xe4, 0xb8]); nme.push(0x80 + int("three", 0, 63) as u8); } _ => { nme.extend_from_slice("na\u{ef}ve_\u{3b1}2".as_bytes()); } } if pick("more", 2) == 1 { nme.push(b'x'); } let kd = pick("leaf", 4); form(pick("form", 12), &mut |o: &mut Vec<u8>| leafs(kd, nme.clone(), o), &mut o) }
        2 => { let n = [5, 6, 8, 12, 20][pick("components", 5)]; let (c, sep): (usize, &[u8]) = [(0, &b","[..]), (4, b"*"), (4, b" * ")][pick("kind", 3)]; let inn = pick("nested", 2); o.push(b'('); let mut v = vec![]; for i in 0..n { if i > 0 { o.extend_from_slice(sep); } v.push(if i == n - 1 && inn == 1 { form(0, &mut |o: &mut Vec<u8>| leafs(0, lt(), o), &mut o) } else { leafs(if i == n - 1 { 3 } else { 0 }, if i == 0 { lt() } else { name(1 + i, b'q') }, &mut o) }); } o.push(b')'); compound(c, v) }
        _ => { fn deep(d: usize, fs: &[usize], o: &mut Vec<u8>) -> Term { if d == 0 { leafs(0, vec![b'a' + int("letter", 0, 25) as u8], o) } else { let mut i = 0; form(fs[d % fs.len()], &mut |o: &mut Vec<u8>| { i += 1; if i == 1 { deep(d - 1, fs, o) } else { leafs(0, vec![b'k'], o) } }, o) } } match pick("tower", 3) { 0 => deep([5, 9, 30][pick("depth", 3)], &[5, 6], &mut o), 1 => deep([3, 5, 9][pick("depth", 3)], &[0, 2, 5, 3, 6, 4], &mut o), _ => deep(3, &[7, 12, 15, 18, 0], &mut o) } }
    };
    o.push(b'.'); let tv = match pick("tv", 3) { 0 => (1.0, 0.9), 1 => { o.extend_from_slice(b" {0.25 0.99"); let d = int("digit", 0, 9); o.push(b'0' + d as u8); o.push(b'}'); (0.25, 0.99 + d as f64 / 1000.0) } _ => { o.extend_from_slice(b" {0.00"); let d = int("digit", 0, 9); o.push(b'0' + d as u8); o.extend_from_slice(b" 0.0}"); (d as f64 / 1000.0, 0.0) } };
    expect(o, &t, tv, P::JUGEMENT, false); cover("end");
}
/// malformed or out of range truth values and punctuation are rejected, never a crash
#[no_mangle]
pub extern "C" fn h_parse_badtv() {
    let mut o = b"<a --> b>. {".to_vec();
    let txt: &[&str] = &["1.5 0.9", "-0.1 0.9", "0.5 1.0", "0.5 -0.2", "NaN 0.5", "0.5 NaN", "inf 0.5", "0.5 inf", "x 0.5", "0.5 y", " ", "0.5 ", " 0.5", "0.5", "", "0.5 0.5 0.5", "0.5,0.5", "1e9 0.5", "0.5 1e9", "1.01 0.9", "1.0001 0.9", "1.000000001 0.5", "-0.001 0.5", "-1e-9 0.5", "2 0.5", "1 1", "0 1", "0.5 1.0000", "0.5 1.0001", "0.5 -0.0001", "0.5 0.5 ", " 0.5 0.5", "0.5  0.5", "0.5 0.5x", "0x1 0.5", "1e-400 1", "1e400 0.5", "0.5 -1", "-1 -1"];
    let k = pick("tv", txt.len() + 3); if k < txt.len() { o.extend_from_slice(txt[k].as_bytes()); } else { let d = b'0' + int("digit", 1, 9) as u8; match k - txt.len() { 0 => { o.extend_from_slice(b"1.0"); o.push(d); o.extend_from_slice(b" 0.5"); } 1 => { o.extend_from_slice(b"0.5 1.00"); o.push(d); } _ => { o.extend_from_slice(b"0.5 -0.0"); o.push(d); } } } o.push(b'}');
    check(N::parseNarsese(&us(&o)).is_none(), "a line with a malformed or invalid truth value is rejected"); cover("end");
}
/// one symbolic character as valid UTF-8: any ASCII, or (wide) one of a block of 64 two-byte or three-byte characters
fn uch(o: &mut Vec<u8>, wide: bool) {
    match if wide { pick("utf8", 3) } else { 0 } {
        0 => { let b = int("ascii", 0, 127) as u8; o.push(b); }
        1 => { o.push(0xc3); o.push(0x80 + int("two", 0, 63) as u8); }
        _ => { o.push(0xe4); o.push(0xb8); o.push(0x80 + int("three", 0, 63) as u8); }
    }
}
fn total(o: Vec<u8>) { let s = us(&o); let r = N::parseNarsese(&s); match r { None => cover("rejected"), Some((t, v, p, e)) => { check(v.f >= 0.0 && v.f <= 1.0 && v.c >= 0.0 && v.c < 1.0, "an accepted line has a valid truth value"); obst(&t); obs(pn(p) as u64); obs(e as u64); cover("accepted"); } } }
/// any text of up to n characters: a result, never a crash
#[no_mangle]
pub extern "C" fn h_parse_total3() { let mut o = vec![]; for _ in 0..pick("len", 4) { uch(&mut o, false); } total(o); }
#[no_mangle]
pub extern "C" fn h_parse_total3w() { let mut o = vec![]; for _ in 0..1 + pick("len", 4) { uch(&mut o, true); } total(o); }
#[no_mangle]
pub extern "C" fn h_parse_total4() { let mut o = vec![]; for _ in 0..4 { uch(&mut o, false); } total(o); }
#[no_mangle]
pub extern "C" fn h_parse_total5() { let mut o = vec![]; for _ in 0..5 { uch(&mut o, false); } total(o); }
#[no_mangle]
pub extern "C" fn h_parse_total6() { let mut o = vec![]; for _ in 0..6 { uch(&mut o, false); } total(o); }
/// any character inserted into or replacing part of a well-formed line
#[no_mangle]
pub extern "C" fn h_parse_mutate() {
    let base: &[u8] = match pick("base", 4) { 0 => b"<a --> b>. {0.5 0.5} :|:", 1 => b"(a,{b}).", 2 => b"<(a * b) =/> [c]>!", _ => b"(!<?a <-> (#b /1 $c)>)?" };
    let at = pick("at", 24); if at > base.len() { return; }
    let skip = pick("replace", 2); if at + skip > base.len() { return; }
    let mut o = base[..at].to_vec(); uch(&mut o, true); o.extend_from_slice(&base[at + skip..]); total(o);
}
/// two arbitrary characters as the truth value, at its start, middle and end
#[no_mangle]
pub extern "C" fn h_parse_tvchars() {
    let mut o = b"a.".to_vec();
    match pick("at", 4) { 0 => { o.push(b'{'); uch(&mut o, true); o.extend_from_slice(b" 0.5}"); } 1 => { o.extend_from_slice(b"{0.5 "); uch(&mut o, true); uch(&mut o, false); o.push(b'}'); } 2 => { o.extend_from_slice(b"{0"); uch(&mut o, false); uch(&mut o, true); o.extend_from_slice(b"0}"); } _ => { o.extend_from_slice(b"{0.5 0"); uch(&mut o, false); uch(&mut o, true); o.push(b'}'); } }
    total(o);
}
