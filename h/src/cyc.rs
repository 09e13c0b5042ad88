//! The cycle of the declarative reasoner: attention, answering from memory, forgetting, derivation by the worker
use crate::api::*;
use crate::g::*;
use nar20_1::{NarMem as M, NarSentence as S, NarWorkingCycle as W};
use std::collections::HashMap;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::mpsc::{sync_channel, Receiver};
type Tk = Arc<RwLock<W::Task>>;
fn mem2(cycle: i64) -> (Arc<RwLock<W::Mem2>>, Receiver<W::DeriverWorkMessage>) {
    let (tx, rx) = sync_channel(4);
    let shared = Arc::new(RwLock::new(W::DeclarativeShared {
        judgementTasks: vec![], judgementTasksByTerm: Arc::new(RwLock::new(HashMap::new())), questionTasks: Arc::new(RwLock::new(vec![])),
        mem: Arc::new(RwLock::new(M::make())), stampIdCounter: AtomicI64::new(0), taskIdCounter: Arc::new(AtomicI64::new(1000)), cycleCounter: AtomicI64::new(cycle),
        procMem: Arc::new(RwLock::new(M::make())),
    }));
    (Arc::new(RwLock::new(W::Mem2 { shared, globalQaHandlers: Arc::new(RwLock::new(vec![])), rng: RwLock::new(rand::thread_rng()), deriverWorkers: vec![], deriverWorkersTx: vec![tx] })), rx)
}
fn term(k: usize) -> Term { match k { 0 => st(Copula::INH, nm("a"), nm("b")), 1 => st(Copula::INH, nm("c"), nm("d")), 2 => st(Copula::IMPL, st(Copula::INH, nm("a"), nm("b")), nm("c")), 3 => nm("a"), _ => st(Copula::INH, nm("b"), nm("c")) } }
fn cplx(t: &Term) -> u64 { let own = match t { Term::Stmt(..) | Term::Neg(_) | Term::Name(_) | Term::QVar(_) | Term::DepVar(_) | Term::IndepVar(_) => 1, _ => 0 }; own + kids(t).iter().map(|k| cplx(k)).sum::<u64>() }
fn shares(a: &Term, b: &Term) -> bool { let (mut x, mut y) = (vec![], vec![]); occs(a, &mut x); occs(b, &mut y); x.iter().any(|p| y.iter().any(|q| enc(p) == enc(q))) }
fn put(m: &Arc<RwLock<W::Mem2>>, t: Term, credit: f64, qa: f64, id: i64, deriv: i64) -> Tk {
    let t = Arc::new(RwLock::new(W::Task { sentence: judg(t, Tv { f: 1.0, c: 0.9 }, &[id]), credit, qaCredit: qa, mulCredit: 1.0, id, derivTime: deriv }));
    let g = m.read(); let mut s = g.shared.write();
    s.judgementTasks.push(Arc::clone(&t));
    let mut o = vec![]; { let g = t.read(); occs(&g.sentence.term, &mut o); let mut l = s.judgementTasksByTerm.write(); let mut seen: Vec<Vec<u8>> = vec![];
        for x in o { if seen.contains(&enc(x)) { continue; } seen.push(enc(x)); l.entry(x.clone()).or_insert_with(Vec::new).push(Arc::clone(&t)); } }
    drop(s); drop(g);
    t
}
fn ask(m: &Arc<RwLock<W::Mem2>>, t: Term, prio: f64, h: Option<Arc<RwLock<dyn W::QHandler>>>) { m.read().shared.read().questionTasks.write().push(Box::new(W::Task2 { sentence: sent(t, P::QUESTION, None, &[99]), handler: h, bestAnswerExp: 0.0, prio })); }
/// one cycle of the attention mechanism
fn cycle(n: usize, cyc: i64) {
    let (m, rx) = mem2(cyc);
    let time = AtomicI64::new(50);
    let mut ts: Vec<(Tk, usize, f64, f64)> = vec![];
    for i in 0..n { let k = pick("term", 5); let (c, q) = (f("credit", 0.0, 10.0), f("qa", 0.0, 10.0)); ts.push((put(&m, term(k), c, q, i as i64, 0), k, c, q)); }
    let qk = pick("question", 3); // none, shares something with some terms, shares nothing
    let prio = f("prio", 0.1, 5.0);
    if qk > 0 { ask(&m, if qk == 1 { st(Copula::INH, Term::QVar("x".into()), nm("b")) } else { nm("zz") }, prio, None); }
    W::reasonCycle(Arc::clone(&m), &time);
    let g = m.read(); let s = g.shared.read();
    check(s.cycleCounter.load(Ordering::SeqCst) == cyc + 1 && time.load(Ordering::SeqCst) == 51, "one cycle passes");
    for (t, k, c, q) in &ts {
        let x = t.read(); let cp = cplx(&term(*k)) as f64;
        check(near(x.credit, (*c + 0.5) / cp, 1e-9), "every task gets base credit and pays for its complexity");
        let relevant = qk == 1 && shares(&term(*k), &st(Copula::INH, Term::QVar("x".into()), nm("b")));
        if relevant { check(x.qaCredit >= (*q + prio) / cp - 1e-9, "a question lends credit to the tasks it shares a subterm with"); } else { check(near(x.qaCredit, *q / cp, 1e-9), "a question lends no credit to unrelated tasks"); }
    }
    let msg = rx.try_recv();
    if n == 0 { check(msg.is_err(), "nothing is derived without tasks"); cover("empty"); return; }
    check(msg.is_ok(), "one task is processed per cycle");
    let msg = msg.ok().unwrap();
    check(rx.try_recv().is_err(), "only one task is processed per cycle");
    check(msg.cycleCounter == cyc + 1, "the derivation is dated with the cycle");
    let mut pi = n; for (i, (t, ..)) in ts.iter().enumerate() { if Arc::ptr_eq(t, &msg.primary) { pi = i; } }
    check(pi < n, "the processed task is one of the tasks");
    let pc = W::taskCalcCredit(&msg.primary.read(), cyc + 1);
    for (t, ..) in &ts { check(W::taskCalcCredit(&t.read(), cyc + 1) <= pc, "the task with the highest credit is processed"); }
    if cyc + 1 != 111 {
        check(s.judgementTasks.len() == n - 1 && !s.judgementTasks.iter().any(|t| Arc::ptr_eq(t, &msg.primary)), "the processed task leaves the buffer, the others stay");
        for (i, (t, ..)) in ts.iter().enumerate() { if i != pi { check(s.judgementTasks.iter().filter(|x| Arc::ptr_eq(x, t)).count() == 1, "the other tasks stay in the buffer"); } }
    }
    let mut last = 0;
    for (i, (t, k, ..)) in ts.iter().enumerate() {
        let here = msg.secondary.iter().filter(|x| Arc::ptr_eq(x, t)).count();
        let want = shares(&term(*k), &term(ts[pi].1));
        check(here == if want { 1 } else { 0 }, "exactly the tasks which share a subterm are partners, each once");
        let u = t.read(); let u = u.sentence.usage.read();
        check(if want || i == pi { u.lastUsed == 51 && u.useCount >= 1 } else { u.lastUsed == 0 && u.useCount == 0 }, "usage is recorded for what is used and for nothing else");
        if want && i != pi { cover("partner"); }
    }
    for x in &msg.secondary { let c = cplx(&x.read().sentence.term); check(c >= last, "simpler partners come first"); last = c; }
    obs(pi as u64); obs(msg.secondary.len() as u64);
    cover("processed");
}
#[no_mangle]
pub extern "C" fn h_cyc_attend() { cycle(pick("n", 3), 5); }
#[no_mangle]
pub extern "C" fn h_cyc_attend3() { cycle(3, 5); }
/// every 111 cycles the buffer is cut to the 30 best tasks and the index is rebuilt to match
fn cut(more: bool) {
    let n = if more { [31, 45, 60][pick("n", 3)] } else { [1, 3, 31, 32, 34][pick("n", 5)] };
    let at = if more { [110, 221, 11099][pick("cycle", 3)] } else { 110 };
    let (m, _rx) = mem2(at);
    let time = AtomicI64::new(0);
    let mut ts: Vec<Tk> = vec![];
    // one or two tasks with arbitrary credit among tasks of known, distinct credit
    for i in 0..n { let c = if i == 0 || (i == 2 && !more) { f("credit", 0.0, 40.0) } else if more { (i * 7 % 61) as f64 + 0.25 } else { i as f64 }; ts.push(put(&m, nm("a"), c, 0.0, i as i64, if i == 0 && pick("old", 2) == 1 { at - 9110 } else { at + 1 })); }
    ts.push(put(&m, st(Copula::INH, nm("p"), nm("q")), 1000.0, 0.0, 77, at + 1)); // will be processed (and so leaves)
    W::reasonCycle(Arc::clone(&m), &time);
    let g = m.read(); let s = g.shared.read();
    check(s.judgementTasks.len() <= 30, "the task buffer is bounded");
    let cr = |t: &Tk| W::taskCalcCredit(&t.read(), at + 1);
    let kept: Vec<bool> = ts.iter().map(|t| s.judgementTasks.iter().any(|x| Arc::ptr_eq(x, t))).collect();
    check(kept.iter().filter(|x| **x).count() == s.judgementTasks.len(), "only existing tasks are kept, each once");
    check(!kept[n], "the processed task has left");
    let mut nk = 0;
    for i in 0..n {
        if kept[i] { nk += 1; check(cr(&ts[i]) > 0.001, "worthless tasks are dropped"); for j in 0..n { if !kept[j] { check(cr(&ts[j]) <= cr(&ts[i]), "the best tasks are kept"); } } }
        else if cr(&ts[i]) > 0.001 { check(s.judgementTasks.len() == 30, "a task is dropped only when worthless or when the buffer is full"); cover("dropped"); } else { cover("worthless"); }
    }
    let l = s.judgementTasksByTerm.read();
    let e = l.get(&nm("a"));
    check(e.map_or(0, |v| v.len()) == nk && l.len() == if nk > 0 { 1 } else { 0 }, "the index holds exactly the kept tasks");
    if let Some(v) = e { for i in 0..n { check(v.iter().any(|x| Arc::ptr_eq(x, &ts[i])) == kept[i], "the index holds exactly the kept tasks"); } }
    obs(nk as u64);
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_cyc_cut() { cut(false); }
#[no_mangle]
pub extern "C" fn h_cyc_cut_more() { cut(true); }
/// a large buffer: the best task is processed with all its partners, simple ones first
#[no_mangle]
pub extern "C" fn h_cyc_many() {
    let cyc = [0, 5, 109, 111, 222, 100000][pick("cycle", 6)];
    let (m, rx) = mem2(cyc);
    let time = AtomicI64::new(50);
    let n = [6, 20, 45][pick("n", 3)]; let sym = if n == 6 { pick("which", 2) * 5 } else { n - 1 };
    let q = 1 + pick("questions", 2) * 7;
    let pt = st(Copula::INH, wide([2, 4, 6][pick("kind", 3)], names(8)), nm("p"));
    let mut ts: Vec<Tk> = vec![];
    for i in 0..n {
        // i % 5 == 4: unrelated; others share a component with the primary task, with different complexity
        let t = if i % 5 == 4 { nm(&format!("u{}", i)) } else { let c = names(8)[(i % 2) * 7].clone(); match i % 3 { 0 => st(Copula::INH, deepen(c, 4), nm("y")), 1 => c, _ => st(Copula::SIM, nm("z"), c) } };
        let c = if i == sym { f("credit", 0.0, 1000.0) } else { (i % 7) as f64 };
        ts.push(put(&m, t, c, 0.0, i as i64, cyc));
    }
    let p = put(&m, pt.clone(), 600.0 * cplx(&pt) as f64, 0.0, 999, cyc);
    for i in 0..q { ask(&m, st(Copula::INH, Term::QVar("x".into()), if i == 0 { nm("p") } else { nm(&format!("u{}", 4 + 5 * (i % 2))) }), 2.0, None); }
    let cs: Vec<f64> = ts.iter().map(|t| t.read().credit).collect();
    W::reasonCycle(Arc::clone(&m), &time);
    let g = m.read(); let s = g.shared.read();
    for (i, t) in ts.iter().enumerate() { let x = t.read(); check(near(x.credit, (cs[i] + 0.5) / cplx(&x.sentence.term) as f64, 1e-9), "every task gets base credit and pays for its complexity"); }
    check(near(p.read().qaCredit, 2.0 / cplx(&pt) as f64, 1e-9), "a question lends its priority once per shared subterm");
    if q > 1 && n > 9 { check(near(ts[4].read().qaCredit, 6.0, 1e-9) && near(ts[9].read().qaCredit, 8.0, 1e-9), "every question lends credit"); }
    let msg = rx.try_recv(); check(msg.is_ok(), "one task is processed per cycle");
    let msg = msg.ok().unwrap();
    check(s.judgementTasks.len() == n, "the processed task leaves the buffer, the others stay");
    let pc = W::taskCalcCredit(&msg.primary.read(), cyc + 1);
    for t in &s.judgementTasks { check(W::taskCalcCredit(&t.read(), cyc + 1) <= pc, "the task with the highest credit is processed"); }
    if Arc::ptr_eq(&msg.primary, &p) {
        for (i, t) in ts.iter().enumerate() { let here = msg.secondary.iter().filter(|x| Arc::ptr_eq(x, t)).count(); check(here == if i % 5 == 4 { 0 } else { 1 }, "exactly the tasks which share a subterm are partners, each once");
            check(t.read().sentence.usage.read().useCount == if i % 5 == 4 { 0 } else { 1 }, "usage is recorded for what is used and for nothing else"); }
        cover("primary");
    } else { check(Arc::ptr_eq(&msg.primary, &ts[sym]), "the processed task is one of the tasks"); cover("other"); }
    let mut last = 0; for x in &msg.secondary { let c = cplx(&x.read().sentence.term); check(c >= last, "simpler partners come first"); last = c; }
    obs(msg.secondary.len() as u64);
}
/// flushing forgets all tasks but neither beliefs nor questions
#[no_mangle]
pub extern "C" fn h_cyc_flush() {
    let (m, _rx) = mem2(int("c", 0, 200) as i64);
    let n = pick("n", 4);
    for i in 0..n { put(&m, term(pick("term", 5)), 1.0, 0.0, i as i64, 0); }
    ask(&m, nm("q"), 1.0, None);
    M::storeInConcepts(&mut m.read().shared.read().mem.write(), &judg(term(0), tv("t"), &[5]), 5, 0);
    W::flushTasks(&m.read());
    let g = m.read(); let s = g.shared.read();
    check(s.judgementTasks.is_empty() && s.judgementTasksByTerm.read().is_empty(), "no task is left");
    check(s.questionTasks.read().len() == 1 && s.mem.read().concepts.len() == 3, "beliefs and questions stay");
    cover("end");
}
// ---------------------------------------------------------------- answering from memory
struct Rec { got: Vec<(Vec<u8>, f64)> }
impl W::QHandler for Rec { fn answer(&mut self, _q: &Term, a: &Sentence) { self.got.push((enc(&a.term), nar20_1::Tv::calcExp(&S::retTv(a).unwrap()))); } }
/// a question is answered by the best belief in memory, temporal questions by procedural knowledge
#[no_mangle]
pub extern "C" fn h_cyc_answer() {
    let temporal = pick("temporal", 2) == 1;
    let (m, _rx) = mem2(7);
    let time = AtomicI64::new(0);
    let c = if temporal { Copula::PREDIMPL } else { Copula::INH };
    let h = Arc::new(RwLock::new(Rec { got: vec![] }));
    let gl = Arc::new(RwLock::new(Rec { got: vec![] }));
    let g2: Arc<RwLock<dyn W::QHandler>> = gl.clone(); m.read().globalQaHandlers.write().push(g2);
    let own: Arc<RwLock<dyn W::QHandler>> = h.clone();
    ask(&m, st(c, Term::QVar("x".into()), nm("b")), 1.0, Some(own));
    let (t1, t2, t3) = (tv("t1"), tv("t2"), tv("t3"));
    let wrong = pick("wrong", 3); // 0: beliefs where they belong; 1: in the other memory; 2: about something else
    {
        let g = m.read(); let s = g.shared.read();
        let (right, other) = if temporal { (Arc::clone(&s.procMem), Arc::clone(&s.mem)) } else { (Arc::clone(&s.mem), Arc::clone(&s.procMem)) };
        let w = if wrong == 1 { other } else { right };
        let b = if wrong == 2 { nm("z") } else { nm("b") };
        let mut w = w.write();
        M::storeInConcepts(&mut w, &judg(st(c, nm("a"), b.clone()), t1, &[1]), 5, 0);
        M::storeInConcepts(&mut w, &judg(st(c, nm("d"), b.clone()), t2, &[2]), 5, 0);
        M::storeInConcepts(&mut w, &judg(st(c, nm("b"), nm("e")), t3, &[3]), 5, 0); // mentions b, but is no answer
    }
    W::reasonCycle(Arc::clone(&m), &time);
    let (e1, e2) = (nar20_1::Tv::calcExp(&t1), nar20_1::Tv::calcExp(&t2));
    let got = &h.read().got; let gg = &gl.read().got;
    check(got.len() == gg.len(), "the handler of the question and the global handlers hear the same");
    if wrong > 0 { check(got.is_empty(), "a question is answered from the memory it is about"); cover("none"); return; }
    check(got.len() >= 1, "a question with a matching belief is answered");
    let last = got[got.len() - 1].1;
    check(near(last, if e1 > e2 { e1 } else { e2 }, 1e-9), "the last answer is the best one");
    for (t, _) in got { check(*t == enc(&st(c, nm("a"), nm("b"))) || *t == enc(&st(c, nm("d"), nm("b"))), "answers match the question"); }
    cover("answered");
    let n = got.len();
    // asking again later brings nothing new
    W::reasonCycle(Arc::clone(&m), &time);
    check(h.read().got.len() == n, "an answer which is not better is not repeated");
}
// ---------------------------------------------------------------- derivation by the worker thread
fn premises(k: usize) -> (Term, Term) {
    let i = |a: &str, b: &str| st(Copula::INH, nm(a), nm(b));
    let big = || st(Copula::INH, Term::Prod(vecb(names(7))), nm("e")); // attended to last
    match k {
        0 => (i("a", "b"), i("b", "c")),
        1 => (st(Copula::IMPL, i("a", "b"), i("c", "d")), i("a", "b")),
        2 => (i("a", "b"), st(Copula::SIM, nm("b"), nm("c"))),
        3 => (i("c", "a"), i("c", "b")),
        4 => (st(Copula::IMPL, st(Copula::INH, Term::IndepVar("x".into()), nm("b")), st(Copula::INH, Term::IndepVar("x".into()), nm("c"))), i("a", "b")),
        5 => (Term::Neg(bx(i("a", "b"))), big()),
        6 => (st(Copula::SIM, nm("a"), nm("b")), big()),
        7 => (st(Copula::INH, nm("a"), Term::Img(bx(nm("r")), 0, vecb(vec![nm("b")]))), big()),
        8 => (st(Copula::INH, nm("a"), nm("b")), st(Copula::IMPL, Term::Conj(vecb(vec![i("a", "b"), i("c", "d")])), i("e", "f"))),
        9 => (st(Copula::INH, nm("a"), Term::SetInt(vecb(vec![nm("b")]))), st(Copula::INH, nm("a"), Term::SetInt(vecb(vec![nm("c")])))),
        _ => (st(Copula::INH, Term::Prod(vecb(vec![nm("a"), nm("b")])), nm("r")), big()),
    }
}
fn has_belief(m: &M::Mem, s: &Sentence) -> bool {
    match m.concepts.get(&s.term) { None => false, Some(c) => c.payload.beliefsByExp.iter().any(|b| { let b = b.read(); enc(&b.term) == enc(&s.term) && b.stamp.ids.len() == s.stamp.ids.len() && s.stamp.ids.iter().all(|i| b.stamp.ids.contains(i)) && { let (x, y) = (S::retTv(&b).unwrap(), S::retTv(s).unwrap()); and(near(x.f, y.f, 1e-9), near(x.c, y.c, 1e-9)) } }) }
}
/// everything one step of inference licenses is believed and turned into a task, within the complexity limit
fn derive(k: usize, lim: i64) {
    let m = W::createMem2(lim, 20);
    let sh = Arc::clone(&m.read().shared);
    let (p0, p1) = premises(k);
    let (t0, t1) = (Tv { f: f("f0", 0.0, 1.0), c: 0.9 }, Tv { f: 1.0, c: if k == 3 || k == 9 { 0.8 } else { f("c1", 0.0, 0.99) } });
    let (s0, s1) = (judg(p0, t0, &[0]), judg(p1, t1, &[1]));
    W::memAddTask(Arc::clone(&sh), &s0, true, 100, 20, 1.0, 0);
    W::memAddTask(Arc::clone(&sh), &s1, true, 100, 20, 1.0, 0);
    let time = AtomicI64::new(0);
    W::reasonCycle(Arc::clone(&m), &time); quiesce();
    let first = sh.read().judgementTasks.iter().any(|t| enc(&t.read().sentence.term) == enc(&s1.term)); // was the first premise processed?
    let mut want: Vec<(Sentence, f64)> = vec![];
    let mut b = false;
    want.extend(W::inference(&s0, &s1, &mut b));
    want.extend(W::infSinglePremise2(if first { &s0 } else { &s1 })); if matches!(k, 5 | 7 | 10) { check(first && !want.is_empty(), "the simple task is processed first"); cover("single premise"); }
    let g = sh.read(); let nm_ = g.mem.read();
    for (s, _) in &want {
        if s.punct != P::JUGEMENT { continue; }
        let fits = cplx(&s.term) as i64 <= lim;
        if fits {
            check(has_belief(&nm_, s), "what the rules license is believed"); cover("derived");
            let bias: Vec<f64> = want.iter().filter(|(x, _)| enc(&x.term) == enc(&s.term)).map(|(_, b)| *b).collect();
            check(has_task(&g, s, &bias), "what the rules license becomes a task, with the inherited multiplier");
        }
        else { check(!nm_.concepts.contains_key(&s.term), "conclusions above the complexity limit are dropped"); cover("too complex"); }
    }
    obs(want.len() as u64);
    cover("end");
}
/// is there a task for the conclusion, with the credit multiplier of its parent times its bias?
fn has_task(g: &W::DeclarativeShared, s: &Sentence, bias: &[f64]) -> bool { g.judgementTasks.iter().any(|t| { let t = t.read(); enc(&t.sentence.term) == enc(&s.term) && t.sentence.stamp.ids.len() == s.stamp.ids.len() && s.stamp.ids.iter().all(|i| t.sentence.stamp.ids.contains(i)) && bias.iter().any(|b| near(t.mulCredit, *b, 1e-9)) }) }
/// many partners, several questions, and a belief about the task itself
#[no_mangle]
pub extern "C" fn h_work_many() {
    let m = W::createMem2(20, 200);
    let sh = Arc::clone(&m.read().shared);
    let n = [1, 2, 3, 7, 20][pick("partners", 5)];
    let i = |a: &str, b: &str| st(Copula::INH, nm(a), nm(b));
    let mul = [1.0, 0.5][pick("multiplier", 2)];
    let s0 = judg(i("a", "b"), Tv { f: f("f0", 0.1, 1.0), c: 0.9 }, &[0]);
    let imp = judg(st(Copula::IMPL, i("a", "b"), i("g", "h")), Tv { f: 1.0, c: 0.8 }, &[77]);
    let how = pick("belief", 4); let known = how > 0; // no such belief, one in both tables, in the one by usage, in the one by expectation
    if known {
        let g = sh.read(); let mut mm = g.mem.write();
        M::storeInConcepts(&mut mm, &imp, 200, 0);
        let c = Arc::get_mut(mm.concepts.get_mut(&i("a", "b")).unwrap()).unwrap();
        if how == 2 { c.payload.beliefsByExp.clear(); } else if how == 3 { c.payload.beliefsByUsage.clear(); }
    }
    W::memAddTask(Arc::clone(&sh), &s0, false, 20, 200, mul, 0);
    sh.read().judgementTasks[0].write().credit = 100.0;
    let mut parts: Vec<Sentence> = vec![];
    for k in 0..n { let (x, y) = (nm("b"), nm(&format!("c{}", k))); let t = if k % 3 == 2 { st(Copula::SIM, x, y) } else { st(Copula::INH, x, y) }; let s = judg(t, Tv { f: 0.9, c: 0.8 }, &[k as i64 + 1]); W::memAddTask(Arc::clone(&sh), &s, true, 20, 200, 1.0, 0); parts.push(s); }
    let hs: Vec<_> = (0..n.min(8)).map(|k| { let h = Arc::new(RwLock::new(Rec { got: vec![] })); let own: Arc<RwLock<dyn W::QHandler>> = h.clone(); ask(&m, i("a", &format!("c{}", n - 1 - k)), 1.0, Some(own)); h }).collect();
    let time = AtomicI64::new(0);
    W::reasonCycle(Arc::clone(&m), &time); quiesce();
    if known { parts.push(imp); }
    let mut want: Vec<(Sentence, f64)> = W::infSinglePremise2(&s0);
    let mut b = false;
    for s in &parts { want.extend(W::inference(&s0, s, &mut b)); }
    let g = sh.read(); let mm = g.mem.read();
    for (s, _) in &want {
        if s.punct != P::JUGEMENT { continue; }
        check(has_belief(&mm, s), "what the rules license is believed");
        let bias: Vec<f64> = want.iter().filter(|(x, _)| enc(&x.term) == enc(&s.term)).map(|(_, b)| *b * mul).collect();
        check(has_task(&g, s, &bias), "what the rules license becomes a task, with the inherited multiplier");
    }
    if known { check(want.iter().any(|(s, _)| enc(&s.term) == enc(&i("g", "h"))), "a belief about the task takes part"); cover("belief"); }
    for (k, h) in hs.iter().enumerate() { let e = enc(&i("a", &format!("c{}", n - 1 - k))); if want.iter().any(|(s, _)| enc(&s.term) == e) { check(h.read().got.len() >= 1, "the derived answer is reported"); cover("answer"); } }
    obs(want.len() as u64);
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_work_derive() { derive(pick("premises", 11), 20); }
#[no_mangle]
pub extern "C" fn h_work_limit() { derive([0, 3][pick("premises", 2)], [2, 3, 4, 5, 6][pick("limit", 5)]); }
/// a question is answered by a conclusion as soon as it is derived
#[no_mangle]
pub extern "C" fn h_work_answer() {
    let m = W::createMem2(20, 20);
    let sh = Arc::clone(&m.read().shared);
    let h = Arc::new(RwLock::new(Rec { got: vec![] }));
    let own: Arc<RwLock<dyn W::QHandler>> = h.clone();
    ask(&m, st(Copula::INH, nm("a"), nm("c")), 1.0, Some(own));
    let (t0, t1) = (Tv { f: f("f0", 0.1, 1.0), c: f("c0", 0.1, 0.99) }, Tv { f: f("f1", 0.1, 1.0), c: f("c1", 0.1, 0.99) });
    let sw = pick("order", 2) == 1;
    let (a, b) = (judg(st(Copula::INH, nm("a"), nm("b")), t0, &[0]), judg(st(Copula::INH, nm("b"), nm("c")), t1, &[1]));
    for s in if sw { [&b, &a] } else { [&a, &b] } { W::memAddTask(Arc::clone(&sh), s, true, 20, 20, 1.0, 0); }
    let time = AtomicI64::new(0);
    W::reasonCycle(Arc::clone(&m), &time); quiesce();
    let d = nar20_1::Tv::ded(&t0, &t1);
    let got = &h.read().got;
    check(got.len() >= 1, "the derived answer is reported");
    check(got.iter().any(|(t, e)| *t == enc(&st(Copula::INH, nm("a"), nm("c"))) && near(*e, nar20_1::Tv::calcExp(&d), 1e-9)), "the answer is the derived judgement");
    cover("end");
}
// ---------------------------------------------------------------- schedules
/// listing the tasks while another thread adds some: no schedule blocks for ever
#[no_mangle]
pub extern "C" fn h_conc_list() {
    let (m, _rx) = mem2(5);
    let sh = Arc::clone(&m.read().shared);
    let n = reps(200000);
    put(&m, nm("a"), 1.0, 0.0, 0, 0);
    let sh2 = Arc::clone(&sh);
    let h = std::thread::spawn(move || { for i in 0..n {
        add(&sh2, nm("b"), i as i64);
        if n > 1 && i % 8 == 7 { let mut g = sh2.write(); g.judgementTasks.truncate(2); g.judgementTasksByTerm = Arc::new(RwLock::new(HashMap::new())); g.mem = Arc::new(RwLock::new(M::make())); }
    } });
    let mut k = 0;
    for _ in 0..n { k = W::debugCreditsOfTasks(&m.read()).len(); }
    check(k >= 1, "the tasks are listed");
    h.join().unwrap();
    check(W::debugCreditsOfTasks(&m.read()).len() >= 2, "the added task is listed");
    cover("end");
}
fn add(sh: &Arc<RwLock<W::DeclarativeShared>>, t: Term, id: i64) { W::memAddTask(Arc::clone(sh), &judg(t, Tv { f: 1.0, c: 0.9 }, &[id]), true, 20, 5, 1.0, 5); }
fn listed(s: &W::DeclarativeShared, t: &Term, id: i64) -> bool { let l = s.judgementTasksByTerm.read(); let mut o = vec![]; occs(t, &mut o); o.iter().all(|x| l.get(x).map_or(0, |v| v.iter().filter(|y| { let y = y.read(); enc(&y.sentence.term) == enc(t) && y.sentence.stamp.ids == [id] }).count()) == 1) }
/// run both at the same time; natively (n > 1) with a common start and a delay that varies with k
fn together(n: usize, k: usize, a: impl FnOnce() + Send + 'static, b: impl FnOnce()) {
    if n == 1 { let h = std::thread::spawn(a); b(); h.join().unwrap(); return; }
    let go = Arc::new(std::sync::atomic::AtomicBool::new(false)); let go2 = Arc::clone(&go); let rdy = Arc::new(std::sync::atomic::AtomicBool::new(false)); let rdy2 = Arc::clone(&rdy);
    let spin = |c: usize| for _ in 0..c { std::hint::spin_loop(); };
    let h = std::thread::spawn(move || { rdy2.store(true, Ordering::SeqCst); while !go2.load(Ordering::SeqCst) {} spin((k % 211) * 5); a() });
    while !rdy.load(Ordering::SeqCst) {} go.store(true, Ordering::SeqCst); spin((k % 59) * 7); b(); h.join().unwrap();
}
/// two threads add tasks: both tasks end up in the buffer and in the index, with different ids
#[no_mangle]
pub extern "C" fn h_conc_add() {
    let n = reps(30000);
    let (t1, t2) = (st(Copula::INH, nm("a"), nm("b")), st(Copula::INH, nm("a"), nm("c")));
    for k in 0..n {
        let (m, _rx) = mem2(5);
        let sh = Arc::clone(&m.read().shared);
        let (sh2, t3) = (Arc::clone(&sh), t2.clone());
        together(n, k, move || add(&sh2, t3, 2), || add(&sh, t1.clone(), 1));
        let g = sh.read();
        check(g.judgementTasks.len() == 2 && g.judgementTasks[0].read().id != g.judgementTasks[1].read().id, "both tasks are in the buffer");
        check(listed(&g, &t1, 1) && listed(&g, &t2, 2), "both tasks are found under every subterm");
        let b = g.mem.read(); check(has_belief(&b, &judg(t1.clone(), Tv { f: 1.0, c: 0.9 }, &[1])) && has_belief(&b, &judg(t2.clone(), Tv { f: 1.0, c: 0.9 }, &[2])), "both are believed");
    }
    cover("end");
}
/// a thread adds a task while a cycle runs: no task is lost, none is processed twice
#[no_mangle]
pub extern "C" fn h_conc_attend() {
    let n = reps(150000);
    let (t1, t2, t3) = (st(Copula::INH, nm("a"), nm("b")), st(Copula::INH, nm("a"), nm("c")), st(Copula::INH, nm("d"), nm("e")));
    for k in 0..n {
        let (m, rx) = mem2(5);
        let sh = Arc::clone(&m.read().shared);
        add(&sh, t1.clone(), 1); add(&sh, t3.clone(), 3);
        let (sh2, t4) = (Arc::clone(&sh), t2.clone());
        let time = AtomicI64::new(0);
        together(n, k, move || add(&sh2, t4, 2), || W::reasonCycle(Arc::clone(&m), &time));
        let msg = rx.try_recv(); check(msg.is_ok() && rx.try_recv().is_err(), "one task is processed");
        let g = sh.read();
        let mut all: Vec<Vec<u8>> = g.judgementTasks.iter().map(|t| enc(&t.read().sentence.term)).collect(); all.push(enc(&msg.ok().unwrap().primary.read().sentence.term));
        all.sort(); let mut want = vec![enc(&t1), enc(&t2), enc(&t3)]; want.sort();
        check(all == want, "the processed task left the buffer, all others are in it");
        check(listed(&g, &t2, 2) && listed(&g, &t1, 1) && listed(&g, &t3, 3), "the tasks are found under every subterm");
    }
    cover("end");
}
/// the cycle of the reasoner and its worker: no schedule blocks for ever, loses a task or the answer
fn conc(quiet: bool) {
    let n = reps(40);
    let (x, y) = (f("f", 0.2, 1.0), f("c", 0.2, 0.99));
    for _ in 0..n {
        let m = W::createMem2(20, 20);
        let sh = Arc::clone(&m.read().shared);
        let h = Arc::new(RwLock::new(Rec { got: vec![] }));
        let own: Arc<RwLock<dyn W::QHandler>> = h.clone();
        ask(&m, st(Copula::INH, nm("a"), nm("c")), 1.0, Some(own));
        W::memAddTask(Arc::clone(&sh), &judg(st(Copula::INH, nm("a"), nm("b")), Tv { f: x, c: 0.9 }, &[0]), true, 20, 20, 1.0, 0);
        W::memAddTask(Arc::clone(&sh), &judg(st(Copula::INH, nm("b"), nm("c")), Tv { f: 1.0, c: y }, &[1]), true, 20, 20, 1.0, 0);
        let time = AtomicI64::new(0);
        W::reasonCycle(Arc::clone(&m), &time);
        if quiet { settle(n); } // else the next cycle runs while the worker derives
        W::reasonCycle(Arc::clone(&m), &time);
        settle(n);
        check(h.read().got.len() >= 1, "the derived answer is reported");
        let g = sh.read(); let mm = g.mem.read();
        let d = nar20_1::Tv::ded(&Tv { f: x, c: 0.9 }, &Tv { f: 1.0, c: y });
        check(has_belief(&mm, &judg(st(Copula::INH, nm("a"), nm("c")), d, &[0, 1])), "the conclusion is believed");
        check(has_belief(&mm, &judg(st(Copula::INH, nm("a"), nm("b")), Tv { f: x, c: 0.9 }, &[0])) && has_belief(&mm, &judg(st(Copula::INH, nm("b"), nm("c")), Tv { f: 1.0, c: y }, &[1])), "the premises are still believed");
        check(g.cycleCounter.load(Ordering::SeqCst) == 2 && time.load(Ordering::SeqCst) == 2, "two cycles passed");
    }
    cover("end");
}
fn settle(n: usize) { if n == 1 { quiesce(); } else { std::thread::sleep(std::time::Duration::from_millis(60)); } }
#[no_mangle]
pub extern "C" fn h_conc_cycle() { conc(false); }
#[no_mangle]
pub extern "C" fn h_conc_cycle2() { conc(false); }
#[no_mangle]
pub extern "C" fn h_conc_list3() { h_conc_list(); }
#[no_mangle]
pub extern "C" fn h_conc_attend2() { h_conc_attend(); }
