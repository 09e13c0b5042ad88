//! Belief memory
use crate::api::*;
use crate::g::*;
use nar20_1::{NarMem as M, NarSentence as S, NarStamp, NarWorkingCycle as W, Tv as V};
type Tab = Vec<Arc<RwLock<Sentence>>>;
fn exp(t: &Tv) -> f64 { t.c * (t.f - 0.5) + 0.5 }
fn tvs(s: &Sentence) -> Tv { match s.evi.as_ref().unwrap() { Evidence::TV(t) => *t, Evidence::CNT { pos, cnt } => Tv { f: *pos as f64 / *cnt as f64, c: *cnt as f64 / (*cnt as f64 + 1.0) } } }
fn overlap(a: &[i64], b: &[i64]) -> bool { let mut r = false; for x in a { for y in b { r = or(r, x == y); } } r }
fn ideq(a: &[i64], b: &[i64]) -> bool { if a.len() != b.len() { return false; } let mut r = true; for i in 0..a.len() { r = and(r, a[i] == b[i]); } r }
/// what identifies a belief for the oracle: the term, the evidence and the truth value
#[derive(Clone)]
struct B { t: Vec<u8>, ids: Vec<i64>, tv: Tv, use_: f64 }
fn bel(s: &Sentence, now: i64) -> B { let u = s.usage.read(); B { t: enc(&s.term), ids: s.stamp.ids.clone(), tv: tvs(s), use_: S::calcUsageUsefulness(&u, now) } }
fn snap(m: &M::Mem, t: &Term, now: i64) -> Option<(Vec<B>, Vec<B>)> { m.concepts.get(t).map(|c| (c.payload.beliefsByExp.iter().map(|b| bel(&b.read(), now)).collect(), c.payload.beliefsByUsage.iter().map(|b| bel(&b.read(), now)).collect())) }
fn beq_(a: &B, b: &B) -> bool { if a.t.len() != b.t.len() { return false; } and(beq(&a.t, &b.t), and(ideq(&a.ids, &b.ids), and(a.tv.f == b.tv.f, a.tv.c == b.tv.c))) }
fn inn(x: &B, v: &[B]) -> bool { let mut r = false; for y in v { r = or(r, beq_(x, y)); } r }
fn vsame(a: &[B], b: &[B]) -> bool { if a.len() != b.len() { return false; } let mut r = true; for i in 0..a.len() { r = and(r, beq_(&a[i], &b[i])); } r }
/// one table after storing s into `old`
fn table(old: &[B], new: &[B], s: &B, n: usize, key: &dyn Fn(&B) -> f64) {
    let mut dup = false;
    for b in old { dup = or(dup, and(beq(&b.t, &s.t), overlap(&b.ids, &s.ids))); }
    if dup { check(vsame(old, new), "a belief with evidence already present changes nothing"); cover("duplicate"); return; }
    check(new.len() == (old.len() + 1).min(n), "the table grows by one up to its limit");
    for x in new { check(or(inn(x, old), beq_(x, s)), "only known beliefs are kept"); }
    for i in 1..new.len() { check(key(&new[i - 1]) >= key(&new[i]), "beliefs are ordered by merit"); }
    // what was dropped is not better than anything kept
    for x in old.iter().chain(std::iter::once(s)) { let mut ok = true; for y in new { ok = and(ok, key(x) <= key(y)); } check(or(inn(x, new), ok), "the least valuable belief is dropped"); }
    cover(if old.len() == n { "full" } else { "added" });
}
const TERMS: usize = 4;
fn term(k: usize) -> Term { match k { 0 => st(Copula::INH, nm("a"), nm("b")), 1 => st(Copula::INH, nm("a"), nm("c")), 2 => st(Copula::SIM, nm("a"), nm("b")), _ => st(Copula::IMPL, st(Copula::INH, nm("a"), nm("b")), nm("c")) } }
fn store(k: usize, n: usize, symusage: bool) {
    let mut m = M::make();
    let mut ts = vec![];
    let now = 50;
    for i in 0..k {
        let t = if i == 0 { 0 } else { pick("term", TERMS) };
        let s = judg(term(t), Tv { f: f("f", 0.0, 1.0), c: f("c", 0.0, 0.99) }, &if i == 0 { vec![0, 4] } else if pick("ids", 2) == 0 { vec![int("id", 0, 3) as i64] } else { vec![int("id", 0, 3) as i64, int("id", 2, 4) as i64] });
        { let mut u = s.usage.write(); if symusage { u.useCount = int("used", 0, 3) as i64; u.lastUsed = [10, 49][pick("last", 2)]; } }
        let sub: Vec<Term> = { let mut o = vec![]; occs(&s.term, &mut o); o.into_iter().cloned().collect() };
        ts.extend(sub.iter().cloned());
        let before: Vec<_> = ts.iter().map(|x| snap(&m, x, now)).collect();
        M::storeInConcepts(&mut m, &s, n, now);
        let sb = bel(&s, now);
        for (j, x) in ts.iter().enumerate() {
            let mine = sub.iter().any(|y| same(y, x));
            let after = snap(&m, x, now);
            match (&before[j], &after) {
                (None, None) => check(!mine, "every subterm gets a concept"),
                (None, Some((e, u))) => { check(mine, "no other concept appears"); check(and(vsame(e, &[sb.clone()]), vsame(u, &[sb.clone()])), "a new concept holds the belief"); cover("new"); }
                (Some(_), None) => check(false, "no concept disappears"),
                (Some((e0, u0)), Some((e1, u1))) => if mine { table(e0, e1, &sb, n, &|b| exp(&b.tv)); table(u0, u1, &sb, n, &|b| b.use_); } else { check(and(vsame(e0, e1), vsame(u0, u1)), "other concepts are untouched"); }
            }
            if let Some(c) = m.concepts.get(x) { check(same(&c.name, x), "a concept is filed under its name"); }
        }
    }
    obs(m.concepts.len() as u64);
}
/// any two beliefs, table limit 1..3
#[no_mangle]
pub extern "C" fn h_mem_store2() { let n = 1 + pick("limit", 3); store(2, n, true); }
/// three beliefs
#[no_mangle]
pub extern "C" fn h_mem_store3() { store(3, 2, false); }
#[no_mangle]
pub extern "C" fn h_mem_store3u() { store(3, 2, true); }
/// questions and goals are never stored
#[no_mangle]
pub extern "C" fn h_mem_punct() {
    let mut m = M::make();
    if pick("pre", 2) == 1 { M::storeInConcepts(&mut m, &judg(term(0), tv("x"), &[7]), 3, 0); }
    let before: Vec<_> = [term(0), nm("a"), nm("b")].iter().map(|x| snap(&m, x, 0)).collect();
    let n = m.concepts.len();
    let q = pick("punct", 2) == 0;
    let s = sent(term(pick("term", TERMS)), if q { P::QUESTION } else { P::GOAL }, if q { None } else { Some(tv("s")) }, &[1]);
    M::storeInConcepts(&mut m, &s, 3, 0);
    check(m.concepts.len() == n, "questions and goals add no concept");
    for (i, x) in [term(0), nm("a"), nm("b")].iter().enumerate() { match (&before[i], snap(&m, x, 0)) { (None, None) => {} (Some((a, b)), Some((c, d))) => check(and(vsame(a, &c), vsame(b, &d)), "questions and goals are not stored as beliefs"), _ => check(false, "questions and goals are not stored") } }
    cover("end");
}
/// lookup by term finds what was stored for it, and only that
#[no_mangle]
pub extern "C" fn h_mem_lookup() {
    let mut m = M::make();
    let (ta, tb) = (term(pick("t", TERMS)), st(Copula::INH, nm("b"), nm("d")));
    let (sa, sb) = (judg(ta.clone(), tv("a"), &[1]), judg(tb.clone(), tv("b"), &[2]));
    M::storeInConcepts(&mut m, &sa, 5, 0); M::storeInConcepts(&mut m, &sb, 5, 0);
    let cand = [nm("a"), nm("b"), nm("c"), nm("d"), nm("e"), ta.clone(), tb.clone(), st(Copula::INH, nm("b"), nm("a"))];
    let q = &cand[pick("query", 8)];
    let has = |t: &Term| { let mut o = vec![]; occs(t, &mut o); let e = enc(q); o.iter().any(|x| enc(x) == e) };
    let (ha, hb) = (has(&ta), has(&tb));
    match M::ret_beliefs_of_concept(&m, q) {
        None => check(!ha && !hb, "a term with beliefs has a concept"),
        Some(it) => { check(ha || hb, "no concept without beliefs"); let v: Vec<B> = it.map(|b| bel(&b.read(), 0)).collect();
            check(inn(&bel(&sa, 0), &v) == ha && inn(&bel(&sb, 0), &v) == hb, "lookup returns exactly the beliefs about the term");
            cover("found"); }
    }
    let all = M::ret_beliefs_by_terms_nonunique(&m, &[q.clone()]);
    let v: Vec<B> = all.iter().map(|b| bel(&b.read(), 0)).collect();
    let mut o = vec![]; occs(q, &mut o);
    let rel = |t: &Term| { let mut p = vec![]; occs(t, &mut p); p.iter().any(|x| o.iter().any(|y| enc(x) == enc(y))) };
    check(inn(&bel(&sa, 0), &v) == rel(&ta) && inn(&bel(&sb, 0), &v) == rel(&tb), "lookup by subterms returns exactly the related beliefs");
    cover("end");
}
/// forgetting keeps the best rated concepts, unchanged
#[no_mangle]
pub extern "C" fn h_mem_limit() {
    let mut m = M::make();
    let names = ["a", "b", "c", "d"];
    let k = 1 + pick("count", 4);
    let mut rate = vec![];
    for i in 0..k { let t = tv("t"); rate.push(exp(&t)); M::storeInConcepts(&mut m, &judg(nm(names[i]), t, &[i as i64]), 3, 0); }
    if pick("second", 2) == 1 { let t = tv("u"); let e = exp(&t); M::storeInConcepts(&mut m, &judg(nm("a"), t, &[9]), 3, 0); if e > rate[0] { rate[0] = e; } }
    let n = pick("limit", 5);
    let before: Vec<_> = (0..k).map(|i| snap(&m, &nm(names[i]), 0).unwrap()).collect();
    M::limitMemory(&mut m, n);
    check(m.concepts.len() == k.min(n), "memory is cut to its limit and not below");
    let mut kept = vec![];
    for i in 0..k { match snap(&m, &nm(names[i]), 0) { Some((a, b)) => { kept.push(i); check(and(vsame(&a, &before[i].0), vsame(&b, &before[i].1)), "kept concepts keep their beliefs"); } None => {} } }
    check(kept.len() == m.concepts.len(), "only known concepts remain");
    for i in 0..k { if !kept.contains(&i) { for j in &kept { check(rate[i] <= rate[*j], "forgotten concepts are not rated above kept ones"); } } }
    cover(if k > n { "forgot" } else { "kept" });
}
/// big terms: filed under every subterm, variables included
#[no_mangle]
pub extern "C" fn h_mem_big() {
    let mut m = M::make();
    let mut v = names(12);
    v[3] = Term::IndepVar("v".into()); v[7] = Term::DepVar("d".into()); v[9] = st(Copula::SIM, Term::QVar("q".into()), nm("x1"));
    let t = match pick("term", 4) { 0 => wide(pick("kind", NCOMP + 1), v), 1 => deepen(nm("x"), 12), 2 => st(Copula::IMPL, wide(3, v), deepen(Term::IndepVar("v".into()), 8)), _ => st(Copula::INH, Term::IndepVar("v".into()), Term::DepVar("d".into())) };
    let s = judg(t.clone(), tv("t"), &[1]);
    M::storeInConcepts(&mut m, &s, 3, 0);
    let mut o = vec![]; occs(&t, &mut o);
    let mut keys: Vec<Vec<u8>> = o.iter().map(|x| enc(x)).collect(); keys.sort(); keys.dedup();
    check(m.concepts.len() == keys.len(), "one concept for each subterm");
    let sb = bel(&s, 0);
    for x in &o { match snap(&m, x, 0) { None => check(false, "every subterm of a big term gets a concept"), Some((e, u)) => check(and(vsame(&e, &[sb.clone()]), vsame(&u, &[sb.clone()])), "the concept holds the belief once") } }
    let v: Vec<B> = M::ret_beliefs_by_terms_nonunique(&m, &[nm("zz"), t.clone()]).iter().map(|b| bel(&b.read(), 0)).collect();
    check(inn(&sb, &v), "the belief is found again");
    cover("end");
}
/// a filled table: n beliefs of known merit, then one of any merit
#[no_mangle]
pub extern "C" fn h_mem_full() {
    let n = [6, 14][pick("filled", 2)];
    let lim = n + pick("room", 2);
    let mut m = M::make();
    for i in 0..n { let s = judg(st(Copula::INH, nm("a"), nm(&format!("b{}", i))), Tv { f: ((i * 7) % n) as f64 / n as f64, c: 0.9 }, &[i as i64]); { let mut u = s.usage.write(); u.useCount = ((i * 5) % n) as i64; } M::storeInConcepts(&mut m, &s, lim, 10); }
    let (e0, u0) = snap(&m, &nm("a"), 10).unwrap();
    check(e0.len() == n && u0.len() == n, "all beliefs are held");
    let same_ = pick("known", 3); // a new term, a known term with new evidence, a known one with known evidence
    let k = n - 1;
    let s = judg(st(Copula::INH, nm("a"), if same_ == 0 { nm("z") } else { nm(&format!("b{}", k)) }), Tv { f: f("f", 0.0, 1.0), c: 0.9 }, &if same_ == 2 { vec![100, k as i64] } else { vec![100] });
    { let mut u = s.usage.write(); u.useCount = [0, n as i64][pick("used", 2)]; }
    M::storeInConcepts(&mut m, &s, lim, 10);
    let (e1, u1) = snap(&m, &nm("a"), 10).unwrap();
    let sb = bel(&s, 10);
    table(&e0, &e1, &sb, lim, &|b| exp(&b.tv)); table(&u0, &u1, &sb, lim, &|b| b.use_);
    // lookup gives the beliefs of either table
    let v: Vec<B> = M::ret_beliefs_of_concept(&m, &nm("a")).unwrap().map(|b| bel(&b.read(), 10)).collect();
    for x in e1.iter().chain(u1.iter()) { check(inn(x, &v), "lookup returns everything believed about the term"); }
    for x in &v { check(or(inn(x, &e1), inn(x, &u1)), "lookup returns only what is believed"); }
}
/// forgetting many concepts
#[no_mangle]
pub extern "C" fn h_mem_limit_many() {
    let mut m = M::make();
    let k = [8, 30][pick("count", 2)];
    let mut rate = vec![];
    for i in 0..k { let t = if i == 3 { tv("t") } else { Tv { f: ((i * 11) % k) as f64 / k as f64, c: 0.9 } }; rate.push(exp(&t)); M::storeInConcepts(&mut m, &judg(nm(&format!("n{}", i)), t, &[i as i64]), 3, 0); }
    let n = [1, 5, k - 1, k, k + 1][pick("limit", 5)];
    M::limitMemory(&mut m, n);
    check(m.concepts.len() == k.min(n), "memory is cut to its limit and not below");
    let kept: Vec<usize> = (0..k).filter(|i| m.concepts.contains_key(&nm(&format!("n{}", i)))).collect();
    check(kept.len() == m.concepts.len(), "only known concepts remain");
    for i in 0..k { if !kept.contains(&i) { for j in &kept { check(rate[i] <= rate[*j], "forgotten concepts are not rated above kept ones"); } } }
    for i in &kept { check(snap(&m, &nm(&format!("n{}", i)), 0).unwrap().0.len() == 1, "kept concepts keep their beliefs"); }
    cover(if k > n { "forgot" } else { "kept" });
}
// ---------------------------------------------------------------- revision
/// evidence for a known belief is pooled exactly once, in every concept
#[no_mangle]
pub extern "C" fn h_mem_revise() {
    let m = Arc::new(RwLock::new(M::make()));
    let kt = pick("term", TERMS + 1);
    let t = if kt == TERMS { st(Copula::INH, nm("a"), nm("a")) } else { term(kt) };
    let a = judg(t.clone(), tv("a"), &[word("ia") as i64, word("ia") as i64]);
    M::storeInConcepts(&mut m.write(), &a, 5, 0);
    let other = judg(st(Copula::INH, nm("a"), nm("z")), tv("o"), &[-5]);
    M::storeInConcepts(&mut m.write(), &other, 5, 0);
    let eqt = pick("same", 2) == 0;
    let pu = pick("punct", 2);
    let t2 = if eqt { t.clone() } else { st(Copula::INH, nm("b"), nm("a")) };
    let b = sent(t2.clone(), if pu == 0 { P::JUGEMENT } else { P::GOAL }, Some(tv("b")), &[word("ib") as i64]);
    let mut o = vec![]; occs(&t, &mut o);
    let subs: Vec<Term> = o.into_iter().cloned().collect();
    let before: Vec<_> = subs.iter().map(|x| snap(&m.read(), x, 0).unwrap()).collect();
    let r = W::memReviseBelief(Arc::clone(&m), &b);
    let disjoint = !overlap(&a.stamp.ids, &b.stamp.ids);
    let should = eqt && pu == 0 && disjoint;
    check(r.is_some() == should, "a belief is revised exactly when the terms agree and the evidence is disjoint");
    if should {
        let want = V::rev(&tvs(&a), &tvs(&b));
        let c = r.unwrap();
        check(and(near(tvs(&c).f, want.f, 1e-9), near(tvs(&c).c, want.c, 1e-9)), "the revised truth value pools both");
        check(same(&c.term, &t) && c.punct == P::JUGEMENT, "revision keeps the term");
        for i in a.stamp.ids.iter().chain(b.stamp.ids.iter()) { check(overlap(&[*i], &c.stamp.ids), "the revised belief rests on both bodies of evidence"); }
        let (ab, ob) = (bel(&a, 0), bel(&other, 0));
        for (i, x) in subs.iter().enumerate() {
            let (e, u) = snap(&m.read(), x, 0).unwrap();
            for (new, old) in [(&e, &before[i].0), (&u, &before[i].1)] {
                check(new.len() == old.len(), "revision replaces the belief");
                check(!inn(&ab, new), "the superseded belief is gone");
                let mut f = false; for y in new { f = or(f, and(and(beq(&y.t, &enc(&t)), ideq(&y.ids, &c.stamp.ids)), and(near(y.tv.f, want.f, 1e-9), near(y.tv.c, want.c, 1e-9)))); }
                check(f, "every concept of the term holds the revised belief");
                check(inn(&ob, new) == inn(&ob, old), "other beliefs are untouched");
            }
        }
        cover("revised");
    } else {
        for (i, x) in subs.iter().enumerate() { let (e, u) = snap(&m.read(), x, 0).unwrap(); check(and(vsame(&e, &before[i].0), vsame(&u, &before[i].1)), "without revision the beliefs are untouched"); }
        cover("kept");
    }
}
