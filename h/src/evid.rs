//! Evidence is never counted twice: stamps through inference
use crate::api::*;
use crate::g::*;
use nar20_1::{NarSentence as S, NarWorkingCycle as W};
fn anyin(x: i64, v: &[i64]) -> bool { let mut r = false; for y in v { r = or(r, x == *y); } r }
fn premises(k: usize) -> (Term, P, Term, P) {
    let n = |s: &str| nm(s);
    let inh = |a: &str, b: &str| st(Copula::INH, nm(a), nm(b));
    let j = P::JUGEMENT;
    match k {
        0 => (inh("a", "b"), j, inh("b", "c"), j),
        1 => (inh("a", "b"), j, inh("a", "c"), j),
        2 => (inh("a", "c"), j, inh("b", "c"), j),
        3 => (st(Copula::SIM, n("a"), n("b")), j, inh("a", "c"), j),
        4 => (st(Copula::IMPL, n("a"), n("b")), j, n("a"), j),
        5 => (st(Copula::IMPL, n("a"), n("b")), j, st(Copula::IMPL, n("b"), n("c")), j),
        6 => (st(Copula::PREDIMPL, n("a"), n("b")), j, st(Copula::PREDIMPL, n("b"), n("c")), j),
        7 => (st(Copula::IMPL, Term::Conj(vec![bx(n("a")), bx(n("b"))]), n("c")), j, n("b"), j),
        8 => (st(Copula::INH, n("a"), Term::SetInt(vec![bx(n("x"))])), j, st(Copula::INH, n("a"), Term::SetInt(vec![bx(n("y"))])), j),
        9 => (st(Copula::IMPL, n("a"), st(Copula::INH, Term::QVar("q".into()), n("c"))), P::QUESTION, inh("b", "c"), j),
        10 => (st(Copula::IMPL, st(Copula::INH, Term::IndepVar("v".into()), n("b")), st(Copula::INH, Term::IndepVar("v".into()), n("c"))), j, inh("a", "b"), j),
        _ => (st(Copula::SIM, n("a"), n("b")), j, st(Copula::SIM, n("a"), n("c")), j),
    }
}
fn ids(n: &str, len: usize) -> Vec<i64> { (0..len).map(|_| word(n) as i64).collect() }
/// every kind of two-premise inference, arbitrary stamps
fn run(la: usize, lb: usize) { let (ia, ib) = (ids("a", la), ids("b", lb)); run2(ia, ib) }
fn run2(ia: Vec<i64>, ib: Vec<i64>) {
    let (a, pa, b, pb) = premises(pick("premises", 12));
    let mk = |t: Term, p: P, i: &[i64]| { let mut s = sent(t, p, if p == P::QUESTION { None } else { Some(Tv { f: 0.8, c: 0.7 }) }, i); if pick("event", 2) == 1 { s.t = Some(5); } s };
    let (sa, sb) = (mk(a, pa, &ia), mk(b, pb, &ib));
    let sw = pick("order", 2) == 1;
    let mut share = false; for x in &ia { share = or(share, anyin(*x, &ib)); }
    let mut fl = false;
    let r = if sw { W::inference(&sb, &sa, &mut fl) } else { W::inference(&sa, &sb, &mut fl) };
    if !r.is_empty() { check(!share, "premises with common evidence yield no conclusion"); }
    if r.is_empty() { check(share, "premises without common evidence yield conclusions"); }
    for (c, k) in &r {
        for x in ia.iter().chain(ib.iter()) { check(anyin(*x, &c.stamp.ids), "the conclusion rests on all evidence of its premises"); }
        for x in &c.stamp.ids { check(or(anyin(*x, &ia), anyin(*x, &ib)), "the conclusion rests on no other evidence"); }
        check(c.punct != P::QUESTION && c.evi.is_some(), "conclusions carry a truth value");
        check(*k > 0.0 && *k <= 1.0, "attention factor in (0,1]");
    }
    obs(r.len() as u64);
    cover(if r.is_empty() { "overlap" } else { "disjoint" });
}
#[no_mangle]
pub extern "C" fn h_evid_inference() { let la = 1 + pick("la", 2); let lb = 1 + pick("lb", 2); run(la, lb); }
#[no_mangle]
pub extern "C" fn h_evid_inference3() { let la = 1 + pick("la", 3); let lb = 3; run(la, lb); }
/// long histories: an arbitrary id at the end of each
#[no_mangle]
pub extern "C" fn h_evid_long() {
    let (la, lb) = [(6, 6), (30, 11), (59, 60)][pick("lengths", 3)];
    let mut ia: Vec<i64> = (0..la as i64).map(|i| 2 * i).collect(); let mut ib: Vec<i64> = (0..lb as i64).map(|i| 2 * i + 1).collect();
    ia[la - 1] = 1000 + int("a", 0, 1 << 40) as i64; ib[lb - 1] = 1000 + int("b", 0, 1 << 40) as i64;
    run2(ia, ib)
}
/// premises without rules: no conclusion whatever the stamps
#[no_mangle]
pub extern "C" fn h_evid_none() {
    let a = judg(st(Copula::INH, nm("a"), nm("b")), tv("a"), &ids("a", 2));
    let b = judg(st(Copula::INH, nm("c"), nm("d")), tv("b"), &ids("b", 2));
    let mut fl = true;
    check(W::inference(&a, &b, &mut fl).is_empty(), "no rule, no conclusion");
    check(!fl, "no rule reported");
    cover("end");
}
/// structural rules keep the evidence of their premise
#[no_mangle]
pub extern "C" fn h_evid_single() {
    let l = [1, 2, 3, 8, 70, 120][pick("len", 6)];
    let mut i = ids("a", l.min(3));
    for k in 3..l { i.push(-(k as i64)); }
    let n = |s: &str| nm(s);
    let t = match pick("premise", 8) {
        0 => Term::Neg(bx(n("a"))),
        1 => st(Copula::INH, Term::IntInt(vecb(vec![n("a"), n("b"), n("c")])), n("d")),
        2 => st(Copula::INH, n("d"), Term::IntInt(vecb(vec![n("a"), n("b")]))),
        3 => st(Copula::INH, Term::Prod(vecb(vec![n("a"), n("b")])), n("d")),
        4 => st(Copula::INH, n("a"), Term::Img(bx(n("r")), pick("img", 2), vecb(vec![n("b")]))),
        5 => st(Copula::SIM, Term::SetInt(vecb(vec![n("a")])), Term::SetInt(vecb(vec![n("b")]))),
        6 => st(Copula::SIM, Term::SetExt(vecb(vec![n("a")])), Term::SetExt(vecb(vec![n("b")]))),
        _ => st(Copula::PREDIMPL, n("x"), Term::Par(vecb(vec![n("a"), n("b")]))),
    };
    let s = judg(t, tv("t"), &i);
    let r = W::infSinglePremise2(&s);
    check(!r.is_empty(), "the structural rule applies");
    for (c, _) in &r {
        for x in &i { check(anyin(*x, &c.stamp.ids), "structural conclusion rests on the evidence of its premise"); }
        for x in &c.stamp.ids { check(anyin(*x, &i), "structural conclusion rests on no other evidence"); }
    }
    cover("end");
}
