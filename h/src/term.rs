//! Terms: identity, copying, size, subterms
use crate::api::*;
use crate::g::*;
use nar20_1::Term as T;
use std::hash::{Hash, Hasher};
/// cheap hasher so that the derived hashing can be followed symbolically
struct H(u64);
impl Hasher for H { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.rotate_left(7) ^ *x as u64; } } }
fn hash(t: &Term) -> u64 { let mut h = H(1); t.hash(&mut h); h.0 }
fn two(depth: usize, ar: usize, kinds: usize) {
    let a = any("a", depth, ar, kinds, 3);
    let b = any("b", depth, ar, kinds, 3);
    let e = same(&a, &b);
    let r = T::checkEqTerm(&a, &b);
    check(r == e, "terms are equal exactly when they have the same structure");
    check((a == b) == e, "key equality agrees with term equality");
    if e { check(hash(&a) == hash(&b), "equal terms hash alike"); }
    obs(r as u64);
    cover(if r { "equal" } else { "different" });
}
/// all pairs of flat terms
#[no_mangle]
pub extern "C" fn h_term_eq_flat() { two(1, 2, 2); }
const NCTX: usize = 5 + 2 * NCOMP + 3;
/// a term placed at one position of a context
fn wrap(k: usize, o: &Term, t: Term) -> Term {
    if k < 5 { st(COPS[k], o.clone(), t) }
    else if k < 5 + NCOMP { compound(k - 5, vec![o.clone(), t]) }
    else if k < 5 + 2 * NCOMP { compound(k - 5 - NCOMP, vec![t, o.clone()]) }
    else { match k - 5 - 2 * NCOMP { 0 => Term::Neg(bx(t)), 1 => Term::Img(bx(t), 0, vec![bx(o.clone())]), _ => Term::Img(bx(o.clone()), 0, vec![bx(o.clone()), bx(t)]) } }
}
fn deep(x: Term, y: Term) {
    let o = Term::Name(letter("o", 3));
    let k = pick("context", NCTX);
    let (a, b) = (wrap(k, &o, x), wrap(k, &o, y));
    let e = same(&a, &b);
    let r = T::checkEqTerm(&a, &b);
    check(r == e, "terms are equal exactly when they have the same structure (nested)");
    check((a == b) == e, "key equality agrees with term equality (nested)");
    obs(r as u64);
    cover(if r { "equal" } else { "different" });
}
/// nested: an arbitrary pair of flat terms at the same position of the same context
#[no_mangle]
pub extern "C" fn h_term_eq_deep() { deep(any("a", 1, 1, 1, 3), any("b", 1, 1, 1, 3)); }
#[no_mangle]
pub extern "C" fn h_term_eq_deep_t() { deep(any("a", 1, 1, 2, 3), any("b", 1, 1, 2, 3)); }
fn size(t: &Term) -> u64 { let own = match t { Term::Stmt(..) | Term::Neg(_) => 1, Term::Name(_) | Term::QVar(_) | Term::DepVar(_) | Term::IndepVar(_) => 1, _ => 0 }; own + kids(t).iter().map(|k| size(k)).sum::<u64>() }
fn one(t: Term) {
    let c = t.clone();
    check(same(&t, &c), "a copy is the same term");
    check(T::calcComplexity(&t) == size(&t), "complexity counts every name, variable, statement and negation");
    let mut want = vec![]; occs(&t, &mut want);
    let got = T::retSubterms(&t);
    check(got.len() == want.len(), "as many subterms as occurrences");
    for w in &want { let mut f = false; for g in &got { f = or(f, same(w, g)); } check(f, "every occurring subterm is reported"); }
    for g in &got { let mut f = false; for w in &want { f = or(f, same(w, g)); } check(f, "every reported subterm occurs"); }
    let uq = T::retUniqueSubterms(&t);
    for w in &want { let mut n = false; for g in &uq { n = or(n, same(w, g)); } check(n, "every occurring subterm is among the unique ones"); }
    for i in 0..uq.len() { for j in 0..i { check(!same(&uq[i], &uq[j]), "unique subterms are pairwise different"); } }
    for g in &uq { let mut f = false; for w in &want { f = or(f, same(w, g)); } check(f, "every unique subterm occurs"); }
    obs(uq.len() as u64);
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_term_flat() { one(any("t", 1, 3, 4, 3)); }
#[no_mangle]
pub extern "C" fn h_term_deep() { one(any("t", 2, 1, 1, 2)); }
#[no_mangle]
pub extern "C" fn h_term_deep2() { let t = any("t", 1, 2, 1, 2); let o = Term::Name(letter("o", 2)); one(wrap(pick("context", NCTX), &o, t)); }
#[no_mangle]
pub extern "C" fn h_term_deep3() { let t = any("t", 1, 2, 2, 2); let o = leaf("o", pick("okind", 2), 2); let t = wrap(pick("context", NCTX), &o, t); one(wrap(pick("context", NCTX), &o, t)); }
/// names of any length up to 3, any letters, in every leaf kind
#[no_mangle]
pub extern "C" fn h_term_names() {
    let s = |n: &str| -> String { let k = pick("len", 5); let mut v: Vec<u8> = (0..k.min(3)).map(|_| int(n, 32, 126) as u8).collect(); if k == 4 { v.splice(1..1, b"averylongnameofaterm0123456789_averylongnameofaterm".iter().cloned()); } unsafe { String::from_utf8_unchecked(v) } };
    let mk = |k: usize, s: String| match k { 0 => Term::Name(s), 1 => Term::IndepVar(s), 2 => Term::DepVar(s), _ => Term::QVar(s) };
    let (a, b) = (mk(pick("ka", 4), s("a")), mk(pick("kb", 4), s("b")));
    let e = same(&a, &b);
    check(T::checkEqTerm(&a, &b) == e && (a == b) == e, "names and variables are equal exactly when kind and spelling agree");
    check(same(&a.clone(), &a), "a copy is the same term");
    cover(if e { "equal" } else { "different" });
}

/// compounds with many components which differ in one place only, or in their length
#[no_mangle]
pub extern "C" fn h_term_wide() {
    let (k, n) = (pick("kind", NCOMP + 1), width());
    let p = pick("position", 3) * (n - 1) / 2;
    let (mut x, mut y) = (names(n), names(n));
    x[p] = Term::Name(letter("a", 3)); y[p] = Term::Name(letter("b", 3));
    if pick("shorter", 2) == 1 { y.pop(); }
    let (a, b) = (wide(k, x), wide(k, y));
    let e = same(&a, &b);
    check(T::checkEqTerm(&a, &b) == e && T::checkEqTerm(&b, &a) == e && (a == b) == e, "wide terms are equal exactly when they have the same structure");
    if e { check(hash(&a) == hash(&b), "equal wide terms hash alike"); }
    one(a);
    cover(if e { "equal" } else { "different" });
}
/// deeply nested terms which differ at the bottom only
#[no_mangle]
pub extern "C" fn h_term_tower() {
    let n = 3 + pick("levels", 9);
    let (a, b) = (deepen(leaf("a", pick("ka", 4), 2), n), deepen(leaf("b", pick("kb", 2), 2), n));
    let e = same(&a, &b);
    check(T::checkEqTerm(&a, &b) == e && (a == b) == e, "deep terms are equal exactly when they have the same structure");
    if e { check(hash(&a) == hash(&b), "equal deep terms hash alike"); }
    one(a);
    cover(if e { "equal" } else { "different" });
}
