//! Task buffer and questions of the declarative reasoner
use crate::api::*;
use crate::g::*;
use nar20_1::{NarMem as M, NarSentence as S, NarWorkingCycle as W, Term as T, Tv as V};
use std::collections::HashMap;
use std::sync::atomic::{AtomicI64, Ordering};
pub fn exp(t: &Tv) -> f64 { t.c * (t.f - 0.5) + 0.5 }
pub fn shared(cycle: i64) -> Arc<RwLock<W::DeclarativeShared>> {
    Arc::new(RwLock::new(W::DeclarativeShared {
        judgementTasks: vec![], judgementTasksByTerm: Arc::new(RwLock::new(HashMap::new())), questionTasks: Arc::new(RwLock::new(vec![])),
        mem: Arc::new(RwLock::new(M::make())), stampIdCounter: AtomicI64::new(0), taskIdCounter: Arc::new(AtomicI64::new(1000)), cycleCounter: AtomicI64::new(cycle),
        procMem: Arc::new(RwLock::new(M::make())),
    }))
}
fn ideq(a: &[i64], b: &[i64]) -> bool { if a.len() != b.len() { return false; } let mut r = true; for i in 0..a.len() { r = and(r, a[i] == b[i]); } r }
fn overlap(a: &[i64], b: &[i64]) -> bool { let mut r = false; for x in a { for y in b { r = or(r, x == y); } } r }
fn term(k: usize) -> Term { match k { 0 => st(Copula::INH, nm("a"), nm("b")), 1 => st(Copula::SIM, nm("a"), nm("b")), 2 => st(Copula::IMPL, st(Copula::INH, nm("a"), nm("b")), nm("c")), _ => nm("a") } }
fn cplx(t: &Term) -> i64 { let own = match t { Term::Stmt(..) | Term::Neg(_) | Term::Name(_) | Term::QVar(_) | Term::DepVar(_) | Term::IndepVar(_) => 1, _ => 0 }; own + kids(t).iter().map(|k| cplx(k)).sum::<i64>() }
/// every lookup entry: (subterm, id of task)
fn lookup(s: &W::DeclarativeShared) -> Vec<(Vec<u8>, i64)> { let m = s.judgementTasksByTerm.read(); let mut o = vec![]; for (k, v) in m.iter() { for t in v { o.push((enc(k), t.read().id)); } } o }
fn beliefs(s: &W::DeclarativeShared) -> usize { s.mem.read().concepts.values().map(|c| c.payload.beliefsByExp.len() + c.payload.beliefsByUsage.len()).sum() }
/// a history of additions
fn adds(n: usize) {
    let cycle = int("cycle", 0, 1000) as i64;
    let sh = shared(cycle);
    let mut ids: Vec<i64> = vec![];
    for step in 0..n {
        let t = term(if step == 0 { 0 } else { pick("term", 4) });
        let last = step > 0 && step + 1 == n; // the last addition is fully general, those before are judgements
        let pu = if last { pick("punct", 3) } else { 0 };
        let p = [P::JUGEMENT, P::QUESTION, P::GOAL][pu];
        let limit = if !last { 20 } else { [1, 2, 3, 5, 20][pick("limit", 5)] };
        let cc = last && pick("calc", 2) == 1;
        let mul = f("mul", 0.1, 1.0);
        let s = sent(t.clone(), p, if pu == 1 { None } else { Some(tv("t")) }, &if step == 0 { vec![0] } else { vec![int("id", 0, 2) as i64] });
        let g = sh.read();
        let (nt, nq, nl, nb, nc) = (g.judgementTasks.len(), g.questionTasks.read().len(), lookup(&g), beliefs(&g), g.mem.read().concepts.len());
        let old: Vec<(Vec<u8>, Vec<i64>)> = g.judgementTasks.iter().map(|t| { let t = t.read(); (enc(&t.sentence.term), t.sentence.stamp.ids.clone()) }).collect();
        // what the belief memory knows about this term
        let mut known = false; let mut rev = false;
        if let Some(c) = g.mem.read().concepts.get(&t) { for b in &c.payload.beliefsByExp { let b = b.read(); if enc(&b.term) == enc(&t) { let o = overlap(&b.stamp.ids, &s.stamp.ids); known = or(known, o); rev = or(rev, !o); } } }
        drop(g);
        W::memAddTask(Arc::clone(&sh), &s, cc, limit, 5, mul, cycle);
        let g = sh.read();
        let (t2, q2, l2, b2, c2) = (g.judgementTasks.len(), g.questionTasks.read().len(), lookup(&g), beliefs(&g), g.mem.read().concepts.len());
        if cplx(&t) > limit {
            check(t2 == nt && q2 == nq && l2.len() == nl.len() && b2 == nb && c2 == nc, "a too complex sentence leaves no trace");
            cover("complex"); continue;
        }
        match p {
            P::QUESTION => {
                check(t2 == nt && l2.len() == nl.len() && b2 == nb && c2 == nc, "a question adds no belief and no judgement task");
                check(q2 == nq + 1, "a question adds one question task");
                let q = g.questionTasks.read(); let x = &q[nq];
                check(same(&x.sentence.term, &t) && x.bestAnswerExp == 0.0 && x.prio > 0.0 && x.handler.is_none(), "a new question has no answer yet");
                cover("question");
            }
            P::GOAL => { check(t2 == nt && q2 == nq && l2.len() == nl.len() && b2 == nb && c2 == nc, "a goal does not enter the declarative reasoner"); cover("goal"); }
            P::JUGEMENT => {
                check(q2 == nq, "a judgement adds no question");
                let mut dup = false; for (e, i) in &old { if *e == enc(&t) { dup = or(dup, ideq(i, &s.stamp.ids)); } }
                if dup { check(t2 == nt && l2.len() == nl.len(), "a task for the same judgement and evidence is not added twice"); cover("duplicate"); }
                else {
                    check(t2 >= nt + 1 && t2 <= nt + 2, "a judgement adds its task and at most the revised one");
                    for k in nt..t2 {
                        let x = g.judgementTasks[k].read();
                        check(same(&x.sentence.term, &t) && x.sentence.punct == P::JUGEMENT, "the task is about the judgement");
                        if k == nt { check(ideq(&x.sentence.stamp.ids, &s.stamp.ids), "the task has the evidence of the judgement");
                            let (a, b) = (S::retTv(&x.sentence).unwrap(), S::retTv(&s).unwrap()); check(and(a.f == b.f, a.c == b.c), "the task has the truth value of the judgement"); }
                        else { check(x.sentence.stamp.ids.len() > s.stamp.ids.len() && overlap(&s.stamp.ids, &x.sentence.stamp.ids), "the second task is the revised judgement"); cover("revised"); }
                        check(near(x.credit, if cc { 1.0 / cplx(&t) as f64 } else { 1.0 }, 1e-9) && x.qaCredit == 0.0 && x.mulCredit == mul && x.derivTime == cycle, "initial credit is given, shared out over the complexity if asked for");
                        let id = x.id; for i in &ids { check(*i != id, "task ids are unique"); }
                        ids.push(id);
                        let mut o = vec![]; occs(&x.sentence.term, &mut o);
                        for y in &o { let e = enc(y); check(l2.iter().any(|(a, b)| *a == e && *b == id), "the task is found under every subterm"); }
                        for (a, b) in &l2 { if *b == id { check(o.iter().any(|y| enc(y) == *a), "the task is found under its subterms only"); } }
                    }
                    for x in &nl { check(l2.contains(x), "tasks found before are still found"); }
                    if t2 == nt + 1 { cover("added"); }
                    check((t2 == nt + 2) == rev, "a revised belief gets a task of its own");
                }
                check((b2 == nb) == or(known, rev), "a belief is stored exactly when it is neither known nor revised");
            }
        }
    }
    obs(ids.len() as u64);
}
#[no_mangle]
pub extern "C" fn h_task_add2() { adds(2); }
#[no_mangle]
pub extern "C" fn h_task_add3() { adds(3); }
#[no_mangle]
pub extern "C" fn h_task_add4() { adds(4); }
/// big terms: the task is found under every subterm; the complexity limit counts all of it
#[no_mangle]
pub extern "C" fn h_task_big() {
    let sh = shared(5);
    let mut v = names(10); v[3] = Term::IndepVar("v".into()); v[6] = st(Copula::SIM, Term::DepVar("d".into()), nm("x1"));
    let t = match pick("term", 3) { 0 => st(Copula::INH, wide(pick("kind", NCOMP + 1), v), nm("p")), 1 => deepen(nm("x"), 11), _ => st(Copula::IMPL, wide(3, v), deepen(Term::IndepVar("v".into()), 8)) };
    let c = cplx(&t);
    let limit = c - 1 + pick("limit", 2) as i64;
    let many: Vec<i64> = (0..40).collect();
    let first = judg(t.clone(), tv("t"), &many);
    W::memAddTask(Arc::clone(&sh), &first, false, limit, 5, 1.0, 5);
    // the same judgement with the same evidence but for the last piece, which is arbitrary
    let mut ids = many.clone(); ids[39] = int("id", 39, 80) as i64;
    let eq = ids[39] == 39;
    W::memAddTask(Arc::clone(&sh), &judg(t.clone(), tv("u"), &ids), false, limit, 5, 1.0, 5);
    let g = sh.read();
    if c > limit { check(g.judgementTasks.is_empty() && lookup(&g).is_empty() && beliefs(&g) == 0, "a too complex sentence leaves no trace"); cover("complex"); return; }
    check(g.judgementTasks.len() == if eq { 1 } else { 2 }, "a task is added unless one with the same evidence exists");
    let mut o = vec![]; occs(&t, &mut o);
    let mut keys: Vec<Vec<u8>> = o.iter().map(|x| enc(x)).collect(); keys.sort(); keys.dedup();
    let l = lookup(&g);
    for x in &g.judgementTasks { let id = x.read().id; for k in &keys { check(l.iter().any(|(a, b)| a == k && *b == id), "the task is found under every subterm"); } }
    for (a, _) in &l { check(keys.contains(a), "the task is found under its subterms only"); }
    check(g.mem.read().concepts.len() == keys.len(), "the belief is filed under every subterm");
    cover(if eq { "same" } else { "other" });
}
/// many tasks: each new one is added, a known one is not
#[no_mangle]
pub extern "C" fn h_task_many() {
    let sh = shared(5);
    let n = [5, 20, 40][pick("count", 3)];
    for i in 0..n { W::memAddTask(Arc::clone(&sh), &judg(st(Copula::INH, nm("a"), nm(&format!("b{}", i))), Tv { f: 0.5, c: 0.5 }, &[i as i64]), true, 20, 50, 1.0, 5); }
    check(sh.read().judgementTasks.len() == n, "every judgement becomes a task");
    let k = [0, n / 2, n - 1][pick("which", 3)];
    let id = int("id", 0, 100) as i64;
    W::memAddTask(Arc::clone(&sh), &judg(st(Copula::INH, nm("a"), nm(&format!("b{}", k))), tv("t"), &[id]), true, 20, 50, 1.0, 5);
    let g = sh.read();
    check(g.judgementTasks.len() == if id == k as i64 { n } else { n + 2 }, "new evidence gives a task and a revised one, known evidence none");
    let mut seen: Vec<i64> = g.judgementTasks.iter().map(|t| t.read().id).collect(); seen.sort(); seen.dedup();
    check(seen.len() == g.judgementTasks.len(), "task ids are unique");
    let e = enc(&nm("a"));
    check(lookup(&g).iter().filter(|(a, _)| *a == e).count() == g.judgementTasks.len(), "all tasks are found under the shared subterm");
    cover("end");
}
fn task(n: &str, id: i64, cm: f64) -> W::Task { W::Task { sentence: judg(nm("a"), Tv { f: 1.0, c: 0.9 }, &[id]), credit: f(n, 0.0, cm), qaCredit: f(n, 0.0, cm), mulCredit: f(n, 0.0, 1.0), id, derivTime: 0 } }
/// the effective credit: question credit counts a fifth, decays with age, scaled by the multiplier
#[no_mangle]
pub extern "C" fn h_task_credit() {
    let mut t = task("t", 1, 100.0);
    let ages = [0, 1, 10, 1000, 100000];
    let k = pick("age", 5); let base = [0, 7, 5000][pick("deriv", 3)];
    t.derivTime = base;
    let c = W::taskCalcCredit(&t, base + ages[k]);
    let decay = [1.0, 0.999000499833375, 0.990049833749168, 0.367879441171442, 3.720075976020836e-44][k];
    check(near(c, (t.qaCredit * 0.2 + t.credit) * decay * t.mulCredit, 1e-9), "credit is (0.2 qa + base) decayed by exp(-0.001 age), times the multiplier");
    check(and(c >= 0.0, c <= 120.0 + 1e-6), "credit is finite and not negative");
    if k > 0 { check(c <= W::taskCalcCredit(&t, base + ages[k - 1]) + 1e-9, "credit never grows with age"); }
    cover("end");
}
/// the task with the highest credit is chosen
#[no_mangle]
pub extern "C" fn h_task_top() {
    let n = 1 + pick("n", 4);
    let v: Vec<_> = (0..n).map(|i| { let mut t = task("t", i as i64, 10.0); t.derivTime = [0, 500][pick("deriv", 2)]; Arc::new(RwLock::new(t)) }).collect();
    let i = W::taskSelByCreditTop(&v, 500);
    check(i < n, "a task is chosen");
    let i = fix(i, n);
    let c = W::taskCalcCredit(&v[i].read(), 500);
    for x in &v { check(W::taskCalcCredit(&x.read(), 500) <= c, "no other task has a higher credit"); }
    obs(i as u64);
    cover("end");
}
/// roulette selection: the chosen entry is the one whose share of the total covers the drawn value
fn roulette(i: usize, w: &[f64], sel: f64) {
    check(i < w.len(), "an existing entry is chosen");
    let mut sum = 0.0; for x in w { sum = sum + *x; }
    let i = fix(i, w.len());
    let mut before = 0.0; for k in 0..i { before = before + w[k]; }
    check(before <= sel * sum + 1e-9, "entries before the chosen one do not cover the drawn value");
    check(before + w[i] >= sel * sum - 1e-9, "the chosen entry covers the drawn value");
    obs(i as u64);
    cover(if i == 0 { "first" } else { "later" });
}
#[no_mangle]
pub extern "C" fn h_task_roulette() {
    let n = 1 + pick("n", 3); let sel = f("sel", 0.0, 1.0);
    match pick("kind", 3) {
        0 => { let v: Vec<_> = (0..n).map(|i| { let mut t = task("t", i as i64, 10.0); t.mulCredit = 1.0; Arc::new(RwLock::new(t)) }).collect(); let w: Vec<f64> = v.iter().map(|t| { let t = t.read(); t.qaCredit * 0.2 + t.credit }).collect(); roulette(W::taskSelByCreditRandom(sel, &v, 0), &w, sel) }
        1 => { let v: Vec<_> = (0..n).map(|i| Box::new(W::Task2 { sentence: sent(nm("q"), P::QUESTION, None, &[i as i64]), handler: None, bestAnswerExp: 0.0, prio: f("prio", 0.0, 5.0) })).collect(); let w: Vec<f64> = v.iter().map(|t| t.prio).collect(); roulette(W::task2SelByCreditRandom(sel, &v), &w, sel) }
        _ => { let v: Vec<_> = (0..n).map(|i| Arc::new(RwLock::new(judg(nm("a"), tv("t"), &[i as i64])))).collect(); let w: Vec<f64> = v.iter().map(|t| S::retTv(&t.read()).unwrap().c).collect(); roulette(W::conceptSelByAvRandom(sel, &v), &w, sel) }
    }
}
// ---------------------------------------------------------------- questions and answers
pub struct Rec { pub got: Vec<(Vec<u8>, Vec<i64>)> }
impl W::QHandler for Rec { fn answer(&mut self, q: &Term, a: &Sentence) { let mut e = enc(q); e.push(255); enc_into(&a.term, &mut e); self.got.push((e, a.stamp.ids.clone())); } }
fn question(k: usize) -> Term { let v = |s: &str| Term::QVar(s.into()); match k { 0 => st(Copula::INH, v("x"), nm("b")), 1 => st(Copula::INH, nm("a"), nm("b")), 2 => st(Copula::INH, v("x"), v("x")), _ => st(Copula::INH, v("x"), v("y")) } }
fn cand(k: usize) -> Term { match k { 0 => st(Copula::INH, nm("a"), nm("b")), 1 => st(Copula::INH, nm("c"), nm("b")), 2 => st(Copula::INH, nm("b"), nm("b")), 3 => st(Copula::SIM, nm("a"), nm("b")), _ => st(Copula::INH, nm("b"), nm("c")) } }
/// does candidate c answer question q? (by hand)
fn answers(q: usize, c: usize) -> bool { match q { 0 => c <= 2, 1 => c == 0, 2 => c == 2, _ => c != 3 } }
/// a sequence of candidate answers: exactly the strictly better ones are reported, to every handler
fn qa(n: usize) {
    let k = pick("question", 4);
    let own = Arc::new(RwLock::new(Rec { got: vec![] })); let g1 = Arc::new(RwLock::new(Rec { got: vec![] })); let g2 = Arc::new(RwLock::new(Rec { got: vec![] }));
    let has = pick("handler", 2) == 1;
    let o2: Arc<RwLock<dyn W::QHandler>> = own.clone();
    let start = f("best", 0.0, 1.0);
    let mut q = W::Task2 { sentence: sent(question(k), P::QUESTION, None, &[99]), handler: if has { Some(o2) } else { None }, bestAnswerExp: start, prio: 1.0 };
    let gl: Vec<Arc<RwLock<dyn W::QHandler>>> = vec![g1.clone(), g2.clone()];
    let mut best = start; let mut want = 0;
    for i in 0..n {
        let c = pick("cand", 5); let p = if i == 0 { [P::JUGEMENT, P::GOAL, P::QUESTION][pick("punct", 3)] } else { P::JUGEMENT };
        let t = tv("t");
        let s = sent(cand(c), p, if p == P::QUESTION { None } else { Some(t) }, &[i as i64]);
        W::qaTryAnswer(&mut q, &s, &gl);
        let e = V::calcExp(&t);
        let better = p == P::JUGEMENT && answers(k, c) && e > best;
        if better { best = e; want += 1; }
        check(g1.read().got.len() == want && g2.read().got.len() == want, "every global handler hears exactly the better answers");
        check(own.read().got.len() == if has { want } else { 0 }, "the question's own handler hears exactly the better answers");
        if better {
            let mut e = enc(&question(k)); e.push(255); enc_into(&cand(c), &mut e);
            check(g1.read().got[want - 1] == (e.clone(), vec![i as i64]) && g2.read().got[want - 1] == (e, vec![i as i64]), "the reported answer is the better judgement");
            cover("better");
        } else { cover("kept"); }
        check(near(q.bestAnswerExp, best, 1e-12), "the best expectation so far is kept");
    }
    obs(want as u64);
}
#[no_mangle]
pub extern "C" fn h_qa_one() { qa(1); }
#[no_mangle]
pub extern "C" fn h_qa_two() { qa(2); }
#[no_mangle]
pub extern "C" fn h_qa_three() { qa(3); }
/// any number of handlers, questions with many variables, a long history of earlier answers
#[no_mangle]
pub extern "C" fn h_qa_many() {
    let nh = [0, 1, 3, 5, 12, 33][pick("handlers", 6)];
    let recs: Vec<_> = (0..nh).map(|_| Arc::new(RwLock::new(Rec { got: vec![] }))).collect();
    let gl: Vec<Arc<RwLock<dyn W::QHandler>>> = recs.iter().map(|r| { let x: Arc<RwLock<dyn W::QHandler>> = r.clone(); x }).collect();
    let own = Arc::new(RwLock::new(Rec { got: vec![] })); let o2: Arc<RwLock<dyn W::QHandler>> = own.clone();
    let m = [1, 4, 9][pick("vars", 3)];
    let qv: Vec<Term> = (0..m).map(|i| Term::QVar(format!("x{}", i))).collect(); let av: Vec<Term> = names(m + 1)[..m].to_vec();
    let w = 1 + pick("wrap", 2);
    let mk = |v: Vec<Term>, p: &str| st(Copula::INH, if w == 1 { Term::Prod(vecb(v)) } else { wide(3, v) }, deepen(nm(p), 5));
    let qt = mk(qv, "p");
    let mut q = W::Task2 { sentence: sent(qt.clone(), P::QUESTION, None, &[99]), handler: Some(o2), bestAnswerExp: 0.0, prio: 1.0 };
    let hist = [0, 3, 20][pick("history", 3)];
    let mut best = 0.0; let mut want = 0;
    for i in 0..=hist {
        let last = i == hist;
        let t = if last { tv("t") } else { Tv { f: 0.5 + 0.02 * ((i * 7) % 25) as f64, c: 0.4 } };
        let fits = !last || pick("fits", 2) == 1;
        W::qaTryAnswer(&mut q, &judg(mk(av.clone(), if fits { "p" } else { "r" }), t, &[i as i64]), &gl);
        let e = V::calcExp(&t);
        let better = and(fits, e > best);
        if better { best = e; want += 1; }
        check(near(q.bestAnswerExp, best, 1e-12), "the best expectation so far is kept");
        if last { cover(if better { "better" } else { "kept" }); }
    }
    for r in recs.iter().chain([&own]) { check(r.read().got.len() == want, "every handler hears exactly the better answers"); }
    let mut e = enc(&qt); e.push(255); enc_into(&mk(av, "p"), &mut e);
    for r in recs.iter().chain([&own]) { for x in &r.read().got { check(x.0 == e, "the reported answer is the better judgement"); } }
    obs(want as u64);
}
