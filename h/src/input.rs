//! The reasoner as a unit: input of sentences, commands, standard operations
use crate::api::*;
use crate::g::*;
use nar20_1::{Nar as N, NarGoalSystem as G, NarInputFacade as F, NarProc as R, NarSentence as S, NarWorkingCycle as W, OpLib as O, TermUtils as U};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::Ordering;
/// everything observable from outside, for comparisons
#[derive(PartialEq, Clone, Debug)]
struct Snap { tasks: usize, questions: usize, concepts: usize, goals: usize, trace: usize, evidence: usize, ant: usize, ops: usize, t: i64, cycles: i64, time: i64, stamp: i64, babble: bool }
fn snap(n: &N::Nar) -> Snap {
    let m = n.mem.read(); let s = m.shared.read(); let p = &n.procNar;
    let r = Snap { tasks: s.judgementTasks.len(), questions: s.questionTasks.read().len(), concepts: s.mem.read().concepts.len(), goals: G::retEntries(&p.goalSystem.read()).len(), trace: p.trace.ret_view().len(), evidence: R::mem_ret_evidence_all_nonunique(p).len(), ant: p.anticipatedEvents.len(), ops: p.ops.len(), t: p.t, cycles: s.cycleCounter.load(Ordering::SeqCst), time: n.currentTime.load(Ordering::SeqCst), stamp: s.stampIdCounter.load(Ordering::SeqCst), babble: p.cfgEnBabbling };
    r
}
fn term(k: usize) -> Term { match k { 0 => st(Copula::INH, nm("a"), nm("b")), 1 => nm("a"), 2 => st(Copula::PREDIMPL, seqt(vec![nm("a"), op("^x", nm("p"))]), nm("g")), 3 => st(Copula::PREDIMPL, nm("a"), nm("b")), 4 => op("^x", nm("p")), _ => st(Copula::IMPL, st(Copula::INH, nm("c"), nm("d")), st(Copula::INH, nm("a"), nm("b"))) } }
/// large terms: the same forms with many components and long names
fn big(k: usize) -> Term { match k { 0 => st(Copula::INH, Term::Prod(vecb(names(6))), nm("a_relation_with_a_long_name")), 1 => st(Copula::IMPL, Term::Conj(vecb(names(4).into_iter().map(|x| st(Copula::INH, x, nm("b"))).collect())), st(Copula::INH, nm("c"), Term::SetInt(vecb(names(3))))), 2 => st(Copula::PREDIMPL, seqt(vec![st(Copula::INH, Term::Prod(vecb(names(4))), nm("r")), op("^x", nm("p"))]), st(Copula::INH, nm("c"), Term::ExtInt(vecb(names(3))))), _ => seqt(names(9)) } }
/// one sentence given to the reasoner in state b: where it goes, and that nothing else changes
fn give(n: &mut N::Nar, k: usize, pk: usize, event: bool, tv: Tv) { give_t(n, term(k), pk, event, tv) }
fn give_t(n: &mut N::Nar, t: Term, pk: usize, event: bool, tv: Tv) {
    let k = match &t { Term::Stmt(Copula::PREDIMPL, s, _) => if matches!(&**s, Term::Seq(_)) { 2 } else { 3 }, _ => 0 };
    let b = snap(n); let p = [P::JUGEMENT, P::QUESTION, P::GOAL][pk]; let id = b.stamp;
    N::inputT2(n, &t, p, &tv, event); quiesce();
    let a = snap(n);
    check(a.stamp == b.stamp + 1, "every input gets an evidence id of its own");
    let mut e = b.clone(); e.stamp += 1;
    let told = |s: &Sentence| s.stamp.ids == vec![id] && enc(&s.term) == enc(&t) && s.punct == p;
    match (p, event) {
        (P::GOAL, true) => {
            e.goals += 1; e.questions = a.questions; check(a == e, "an event goal becomes a goal and nothing else");
            let gs = G::retEntries(&n.procNar.goalSystem.read()); let g: Vec<_> = gs.iter().filter(|g| told(&g.read().sentence)).collect(); check(g.len() == 1, "an event goal is kept once");
            let g = g[0].read(); let v = S::retTv(&g.sentence).unwrap(); check(and(v.f == tv.f, v.c == tv.c) && g.depth == 0 && g.evidence.is_none() && g.createTime == b.t, "with the desire given"); cover("goal");
        }
        (P::QUESTION, true) => { e.questions += 1; check(a == e, "an event question becomes an open question and nothing else"); let m = n.mem.read(); let s = m.shared.read(); let q = s.questionTasks.read(); check(q.iter().filter(|q| told(&q.sentence)).count() == 1, "the question asked is open"); cover("question"); }
        (_, true) => { e.trace += 1; check(a == e, "an event becomes part of the trace and nothing else"); let v = n.procNar.trace.ret_view(); let l = &v[v.len() - 1]; check(enc(&l.name) == enc(&t) && l.evi == b.t && l.occT == b.t, "as the newest event, at the current time"); cover("event"); }
        (P::JUGEMENT, false) if k != 2 && k != 3 => {
            check(a.tasks > b.tasks, "an eternal judgement becomes a task"); e.tasks = a.tasks; e.concepts = a.concepts; check(a == e, "an eternal judgement becomes a task and nothing else"); let m = n.mem.read(); let s = m.shared.read();
            let ts: Vec<_> = s.judgementTasks.iter().filter(|x| told(&x.read().sentence)).collect(); check(ts.len() == 1, "the judgement is a task once"); let v = S::retTv(&ts[0].read().sentence).unwrap(); check(and(v.f == tv.f, v.c == tv.c), "with the truth value given");
            let mut o = vec![]; occs(&t, &mut o); let mm = s.mem.read(); for x in o { check(mm.concepts.get(x).map_or(false, |c| c.payload.beliefsByExp.iter().any(|b| { let b = b.read(); enc(&b.term) == enc(&t) && b.stamp.ids.contains(&id) })), "and believed under each of its subterms"); } cover("judgement");
        }
        (P::JUGEMENT, false) if k == 2 => {
            e.evidence = a.evidence; check(a == e, "a told prediction becomes procedural evidence and nothing else");
            let ev = R::mem_ret_evidence_all_nonunique(&n.procNar); let h: Vec<_> = ev.iter().filter(|x| told(&x.read())).collect(); check(!h.is_empty(), "the prediction is stored");
            if let Term::Stmt(_, c, o) = &t { if let Term::Seq(c) = &**c { let mut x = vec![]; occs(&c[0], &mut x); occs(o, &mut x); let mm = n.procNar.evidenceMem.read(); for x in x { check(mm.concepts.get(x).map_or(false, |c| c.payload.beliefsByExp.iter().any(|b| told(&b.read()))), "the prediction is stored under condition and outcome"); } } }
            for x in h { check(matches!(x.read().evi, Some(Evidence::CNT { pos: 10, cnt: 10 })), "as ten out of ten"); } cover("prediction");
        }
        _ => { check(a == e, "a form which is not supported changes nothing"); cover("unsupported"); }
    }
}
#[no_mangle]
pub extern "C" fn h_input_one() { let mut n = N::createNar(); let k = pick("term", 6); let p = pick("punct", 3); let e = pick("event", 2) == 1; n.procNar.t = int("t", 0, 1000) as i64; give(&mut n, k, p, e, tv("tv")); }
#[no_mangle]
pub extern "C" fn h_input_big() { let mut n = N::createNar(); let k = pick("term", 4); let p = pick("punct", 3); let e = pick("event", 2) == 1; n.procNar.t = int("t", 0, 1000) as i64; give_t(&mut n, big(k), p, e, tv("tv")); }
/// several sentences of one kind in a row: each of them arrives
#[no_mangle]
pub extern "C" fn h_input_many() {
    let mut n = N::createNar(); let p = pick("punct", 3); let e = pick("event", 2) == 1; let kind = pick("kind", 3);
    for i in 0..7 { let x = nm(&format!("x{}", i)); let t = match kind { 0 => st(Copula::INH, x, nm("b")), 1 => x, _ => st(Copula::PREDIMPL, seqt(vec![x, op("^x", nm("p"))]), nm(&format!("g{}", i))) }; give_t(&mut n, t, p, e, Tv { f: 1.0, c: 0.9 }); if pick("step", 2) == 1 { n.procNar.t += 1; } }
}
#[no_mangle]
pub extern "C" fn h_input_two() { let mut n = N::createNar(); for _ in 0..2 { let k = [0, 2, 4][pick("term", 3)]; let p = pick("punct", 3); let e = pick("event", 2) == 1; give(&mut n, k, p, e, Tv { f: 1.0, c: 0.9 }); } }
/// text: accepted lines act as their sentence, rejected ones have no effect
#[no_mangle]
pub extern "C" fn h_input_text() {
    let mut n = N::createNar(); let b = snap(&n);
    let nl = ["", "\n", "\r\n", "\n\n"][pick("newline", 4)];
    let facade = pick("facade", 2) == 1;
    let (l, d): (&str, usize) = [("<a --> b>.", 1), ("<a --> b>! :|:", 2), ("<a --> ?0>? :|:", 3), ("<a --> b>. :|:", 4), ("<(a,<{({SELF}*p)} --> ^x>) =/> g>.", 5), ("<a --> b>. {0.4 0.5}", 1), ("<a --> b>!", 6), ("<a =/> b>.", 6), ("<a --> b", 0), ("<a --> b>. {2.0 0.5}", 0), ("a b c", 0), (">", 0), ("\u{e9}", 0), ("<a --> b>.x", 0)][pick("line", 14)];
    let s = format!("{}{}", l, if facade { nl } else { "" }); let mut q = false;
    let r = if facade { let i = F::input(&mut n, &s, &mut q); check(i.is_empty() && !q, "input returns no information and does not quit"); d != 0 } else { N::inputN(&mut n, &s) };
    quiesce();
    let a = snap(&n); let mut e = b.clone(); if d != 0 { e.stamp += 1; }
    check(r == (d != 0), "input reports whether the text was understood");
    match d { 1 => { e.tasks += 1; e.concepts = 3; } 2 => e.goals += 1, 3 => e.questions += 1, 4 => e.trace += 1, 5 => e.evidence += 4, _ => {} }
    check(a == e, "a line has exactly the effect of its sentence, or none"); cover("end");
}
fn setup() -> N::Nar {
    let mut n = N::createNar();
    N::inputN(&mut n, &"<a --> b>.".to_string()); N::inputN(&mut n, &"<c --> d>.".to_string()); N::inputN(&mut n, &"<x --> ?0>? :|:".to_string()); N::inputN(&mut n, &"e. :|:".to_string()); N::inputN(&mut n, &"g! :|:".to_string());
    n.procNar.cfgEnBabbling = false; n.procNar.cfg__resourceGoalDeriverPrio = 0.5; n
}
/// commands: exactly their effect
#[no_mangle]
pub extern "C" fn h_facade_commands() {
    let mut n = setup(); quiesce(); let b = snap(&n); let mut e = b.clone(); let mut q = pick("quit", 2) == 1;
    let k = pick("command", 23);
    let l = ["", "// <a --> b>.", "//", "!QQ", "!peb 1", "!peb 0", "!por NOP ^n", "!por execinj", "!por nlpRel0", "!por", "!por NOP", "!por NOP a b", "!por zzz ^n", "!dtf", "!dmd", "!dt", "!s", "!s3", "!s0", "!sx", "!sp", "!spA", "!spB"][k];
    let r = F::input(&mut n, &l.to_string(), &mut q); quiesce();
    let a = snap(&n);
    check(q == (k == 3), "only the quit command quits");
    match k { 4 => e.babble = true, 6 | 7 | 8 => e.ops += 1, 13 => e.tasks = 0, 16 => { e.cycles += 1; e.time += 1; } 17 => { e.cycles += 3; e.time += 3; } 20 | 22 => e.t += 1, _ => {} }
    if k == 16 || k == 17 { e.tasks = a.tasks; e.concepts = a.concepts; }
    check(a == e, "a command has exactly its effect");
    match k { 6 => { let o = &n.procNar.ops[0]; check(o.retName() == "^n" && o.isBabbleable(), "the operation has the name given"); } 7 => check(n.procNar.ops[0].retName() == "^nal9_exeAndInject", "the named operation is registered"), 8 => check(n.procNar.ops[0].retName() == "^nlpRel0", "the named operation is registered"), 14 => check(r.len() == 1 && r[0] == format!("concept count = {}", b.concepts), "the number of concepts is reported"), 15 => { check(r.len() == b.tasks, "one line per task is reported"); for x in ["<a --> b>", "<c --> d>"] { check(r.iter().filter(|s| s.contains(x)).count() == 1, "each task is listed"); } } _ => check(r.is_empty(), "no other command reports anything") }
    if k == 13 { let (m, c) = (n.mem.read(), 6); check(m.shared.read().mem.read().concepts.len() == c, "flushing tasks keeps beliefs"); }
    cover("end");
}
/// commands in a busier reasoner, with what follows a line in files and pipes
#[no_mangle]
pub extern "C" fn h_facade_more() {
    let mut n = setup(); let nops = pick("ops", 3) * 3; let mut q0 = false;
    for i in 0..nops { F::input(&mut n, &format!("!por NOP ^o{}", i), &mut q0); }
    N::inputN(&mut n, &"<(a,<{({SELF}*p)} --> ^x>) =/> g>.".to_string());
    n.procNar.t = int("t", 0, 100000) as i64; n.procNar.cfgEnBabbling = pick("babbling", 2) == 1;
    quiesce(); let b = snap(&n); let mut e = b.clone(); let mut q = pick("quit", 2) == 1;
    let cmds: [(&str, usize); 46] = [("", 0), ("//", 0), ("// !QQ", 0), ("//!s3", 0), ("///", 0), ("!QQ", 1), ("!QQQ", 0), ("!QQ ", 0), ("!Q", 0), ("!qq", 0), ("QQ", 0), (" !QQ", 0), ("!peb 0", 2), ("!peb 1", 3), ("!peb 2", 0), ("!peb", 0), ("!peb x", 0), ("!peb 10", 0), ("!pse", 0), ("!por NOP ^name", 4), ("!por  NOP   ^name ", 4), ("!por NOP ^name_which_is_rather_long_0123456789", 4), ("!por execinj", 5), ("!por nlpRel0", 6), ("!por execinj ^x", 0), ("!por nlpRel0 ^x", 0), ("!por NOP", 0), ("!por nop ^name", 0), ("!por ", 0), ("!por", 0), ("!por NOP ^a ^b", 0), ("!dtf", 7), ("!dtfx", 0), ("!dtf 1", 0), ("!dmd", 8), ("!dmd2", 0), ("!dt", 9), ("!dt2", 0), ("!sx", 0), ("!s 2", 0), ("!s2x", 0), ("!s-3", 0), ("!s99999999999999999999", 0), ("!s0", 0), ("!.nlp", 0), ("!.nlp ", 0)];
    let (l, d) = cmds[pick("command", cmds.len())]; let l = format!("{}{}", l, ["", "\n", "\r\n", "\n\n"][pick("newline", 4)]);
    let r = F::input(&mut n, &l, &mut q); quiesce();
    let a = snap(&n); check(q == (d == 1), "only the quit command quits");
    match d { 2 => e.babble = false, 3 => e.babble = true, 4 | 5 | 6 => e.ops += 1, 7 => e.tasks = 0, _ => {} }
    check(a == e, "a command has exactly its effect, and an unknown one none");
    for i in 0..nops { check(n.procNar.ops[i].retName() == format!("^o{}", i), "registered operations stay"); }
    match d { 4 => { let nme = l.split_whitespace().nth(2).unwrap(); let o = &n.procNar.ops[nops]; check(o.retName() == nme && o.isBabbleable(), "the operation has the name given"); } 5 => check(n.procNar.ops[nops].retName() == "^nal9_exeAndInject" && !n.procNar.ops[nops].isBabbleable(), "the named operation is registered"), 6 => check(n.procNar.ops[nops].retName() == "^nlpRel0" && !n.procNar.ops[nops].isBabbleable(), "the named operation is registered"), _ => {} }
    match d { 8 => check(r.len() == 1 && r[0] == format!("concept count = {}", b.concepts), "the number of concepts is reported"), 9 => { check(r.len() == b.tasks, "one line per task is reported"); for x in ["<a --> b>", "<c --> d>"] { check(r.iter().filter(|s| s.contains(x)).count() == 1, "each task is listed"); } } _ => check(r.is_empty(), "no other command reports anything") }
    cover("end");
}
/// cycle counts are taken as given
#[no_mangle]
pub extern "C" fn h_facade_count() {
    let mut n = N::createNar(); let b = snap(&n); let mut q = false; let (l, k) = [("!s1", 1), ("!s9", 9), ("!s10", 10), ("!s12", 12), ("!s007", 7), ("!s130", 130), ("!s260", 260)][pick("count", 7)];
    let r = F::input(&mut n, &format!("{}{}", l, ["", "\r\n"][pick("newline", 2)]), &mut q); quiesce();
    let mut e = b.clone(); e.cycles += k; e.time += k; check(snap(&n) == e && r.is_empty() && !q, "as many cycles as asked for"); cover("end");
}
/// lines with letters outside ASCII at every place
#[no_mangle]
pub extern "C" fn h_facade_alien() {
    let mut n = N::createNar(); n.procNar.cfgEnBabbling = false; n.procNar.cfg__resourceGoalDeriverPrio = 0.5; let b = snap(&n); let mut q = false; let k = pick("place", 9); let c = ["\u{e9}", "\u{4e2d}", "\u{1f600}"][pick("letter", 3)];
    let pre = &["aaaaaaaa", "!.nlp___", "!por ___", "!s______", "!peb ___", "// _____"][pick("prefix", 6)][..k.min(8)];
    let l = format!("{}{}{}. :|:", pre, c, c); F::input(&mut n, &l, &mut q); quiesce(); let a = snap(&n);
    check(!q && a.cycles == b.cycles && a.goals == 0 && a.ops == 0 && a.babble == b.babble, "no line quits or has the effect of another"); cover("end");
}
/// goal satisfaction by the procedural half step
#[no_mangle]
pub extern "C" fn h_facade_steps() {
    let mut n = N::createNar(); n.procNar.cfgEnBabbling = false; n.procNar.cfg__resourceGoalDeriverPrio = 0.5; let mut q = false;
    let hit = pick("hit", 2) == 1;
    F::input(&mut n, &"e! :|:".to_string(), &mut q); F::input(&mut n, &(if hit { "e. :|:" } else { "f. :|:" }).to_string(), &mut q);
    let c = pick("command", 3); F::input(&mut n, &["!spA", "!spB", "!sp"][c].to_string(), &mut q);
    let d = G::is_desired(&G::retEntries(&n.procNar.goalSystem.read())[0].read());
    check(d == !(hit && c != 1), "the first half step perceives, the second decides"); check(n.procNar.t == (c != 0) as i64, "the second half step advances time"); cover("end");
}
/// any line: no crash, time never goes back, quits only on command
fn anyline(pre: &str, k: usize) {
    let mut n = N::createNar(); n.procNar.cfgEnBabbling = false; n.procNar.cfg__resourceGoalDeriverPrio = 0.5;
    let b = snap(&n); let mut l = pre.as_bytes().to_vec(); for _ in 0..k { l.push(int("char", 0, 127) as u8); }
    let s = unsafe { String::from_utf8_unchecked(l.clone()) }; let mut q = false;
    F::input(&mut n, &s, &mut q); quiesce();
    let a = snap(&n);
    check(a.cycles >= b.cycles && a.t >= b.t && a.stamp <= b.stamp + 1, "no line turns back time");
    if l[0] == b'/' && l.len() > 1 && l[1] == b'/' { check(a == b && !q, "comments do nothing"); cover("comment"); }
    if q { cover("quit"); check(l[0] == b'!' && l[1] == b'Q', "only the quit command quits"); }
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_facade_any3() { let k = 1 + pick("len", 3); anyline("", k); }
#[no_mangle]
pub extern "C" fn h_facade_cmd3() { let k = pick("len", 3); anyline(["!", "!s", "!p", "!por ", "!peb ", "!sp", "!d"][pick("prefix", 7)], k); }
type Log = Rc<RefCell<Vec<(String, Vec<Term>)>>>;
struct Rec { name: &'static str, log: Log }
impl R::Op for Rec {
    fn retName(&self) -> String { self.name.to_string() }
    fn call(&self, _n: &mut R::ProcNar, _m: &Option<Arc<RwLock<W::Mem2>>>, a: &Vec<Term>) { self.log.borrow_mut().push((self.name.to_string(), a.clone())); }
    fn isBabbleable(&self) -> bool { true }
    fn ret_evi_cnt(&self) -> i64 { 1 }
}
/// execute-and-inject operation
#[no_mangle]
pub extern "C" fn h_op_exec() {
    let mut n = R::narInit(); let log: Log = Rc::new(RefCell::new(vec![])); n.t = int("t", 0, 1000) as i64; let t = n.t;
    n.ops.push(Rc::new(Box::new(Rec { name: "^x", log: Rc::clone(&log) }))); n.ops.push(Rc::new(Box::new(Rec { name: "^y", log: Rc::clone(&log) })));
    let ks: Vec<usize> = match pick("steps", 6) { 4 => vec![0, 1, 1, 0, 2, 1, 3, 0], 5 => vec![4, 2, 0, 5, 4, 1], m => (0..m).map(|_| pick("step", 6)).collect() };
    let opn = |name: &str, v: Vec<Term>| { let mut w = vec![Term::SetExt(vecb(vec![nm("SELF")]))]; w.extend(v); st(Copula::INH, Term::SetExt(vecb(vec![Term::Prod(vecb(w))])), nm(name)) };
    let stp = |k: usize| match k { 0 => op("^x", nm("p")), 1 => op("^y", nm("q")), 2 => op("^z", nm("r")), 4 => opn("^x", vec![nm("p"), st(Copula::INH, nm("q"), nm("r")), nm("s")]), 5 => opn("^y", vec![seqt(names(5)), nm("p"), nm("p"), nm("q"), nm("r")]), _ => nm("w") };
    let sq = seqt(ks.iter().map(|k| stp(*k)).collect()); let inj = Term::Name(letter("event", 26));
    let (args, ok) = match pick("args", 4) { 0 => (vec![nm("SELF"), sq, inj.clone()], true), 1 => (vec![nm("SELF"), inj.clone(), sq], false), 2 => (vec![nm("SELF"), sq], false), _ => (vec![nm("SELF"), sq, inj.clone(), inj.clone()], false) };
    R::Op::call(&O::Op_nal9__exec_and_inject {}, &mut n, &None, &args);
    let l = log.borrow(); let v = n.trace.ret_view();
    if !ok { check(l.is_empty() && v.is_empty(), "a malformed call does nothing"); cover("malformed"); return; }
    let want: Vec<usize> = ks.iter().cloned().filter(|k| *k != 2 && *k != 3).collect();
    check(l.len() == want.len(), "every registered step is executed once");
    for (i, k) in want.iter().enumerate() { let w = stp(*k); let (a, nme) = U::decodeOp(&w).unwrap(); check(l[i].0 == nme && l[i].1.len() == a.len() && (0..a.len()).all(|j| enc(&l[i].1[j]) == enc(&a[j])) && a.len() == [2, 2, 0, 0, 4, 6][*k], "in order, with its arguments"); }
    check(v.len() == 1 && same(&v[0].name, &inj) && v[0].evi == t && v[0].occT == t, "then the event happens"); cover("done");
}
/// relation operation of the natural language channel
#[no_mangle]
pub extern "C" fn h_op_rel() {
    let m = Arc::new(RwLock::new(mem2())); let mut n = R::narInit();
    let and_ = |w: &str| seqt(vec![nm("b"), nm(w), nm("c")]);
    let k = pick("relation", 16); n.t = int("t", 0, 100000) as i64;
    let pr = |v: Vec<Term>| st(Copula::INH, Term::Prod(vecb(v)), nm("r"));
    let (rel, want) = match k { 0 => (pr(vec![nm("a"), nm("b")]), pr(vec![nm("a"), nm("b")])), 1 => (pr(vec![nm("a"), and_("and")]), pr(vec![nm("a"), Term::ExtInt(vecb(vec![nm("b"), nm("c")]))])), 2 => (pr(vec![nm("a"), and_("or")]), pr(vec![nm("a"), and_("or")])), 3 => (pr(vec![nm("a")]), pr(vec![nm("a")])), 4 => (pr(vec![nm("a"), nm("b"), nm("c")]), pr(vec![nm("a"), nm("b"), nm("c")])), 5 => (nm("a"), nm("a")), 6 => (st(Copula::SIM, nm("a"), nm("b")), st(Copula::SIM, nm("a"), nm("b"))),
        8 => { let x = pr(vec![nm("a"), seqt(vec![nm("b"), nm("and"), nm("c"), nm("and"), nm("d")])]); (x.clone(), x) } 9 => { let x = pr(vec![nm("a"), seqt(vec![nm("b"), nm("and"), nm("c"), nm("d")])]); (x.clone(), x) } 10 => { let x = pr(vec![and_("and"), nm("a")]); (x.clone(), x) } 11 => { let x = pr(vec![nm("a"), seqt(vec![nm("and"), nm("b"), nm("and")])]); (x.clone(), x) } 12 => { let x = pr(names(7)); (x.clone(), x) }
        13 => { let f = |r| st(Copula::INH, Term::Prod(vecb(vec![st(Copula::INH, nm("a"), nm("d")), r])), Term::Prod(vecb(names(3)))); let (y, z) = (Term::Prod(vecb(names(3))), st(Copula::SIM, nm("b"), nm("c"))); (f(seqt(vec![y.clone(), nm("and"), z.clone()])), f(Term::ExtInt(vecb(vec![y, z])))) }
        14 => { let x = st(Copula::IMPL, Term::Prod(vecb(vec![nm("a"), and_("and")])), nm("r")); (x.clone(), x) } 15 => { let x = pr(vec![nm("a"), Term::Prod(vecb(vec![nm("b"), nm("and"), nm("c")]))]); (x.clone(), x) }
        _ => (st(Copula::INH, and_("and"), nm("r")), st(Copula::INH, and_("and"), nm("r"))) };
    let na = pick("args", 3); let args = match na { 0 => vec![nm("SELF"), rel], 1 => vec![rel], _ => vec![nm("SELF"), rel.clone(), rel] };
    if pick("memory", 2) == 1 { R::Op::call(&O::Op__nlp_rel_0 {}, &mut n, &None, &args); check(m.read().shared.read().judgementTasks.is_empty() && n.trace.ret_view().is_empty(), "without a memory nothing is added"); cover("alone"); return; }
    R::Op::call(&O::Op__nlp_rel_0 {}, &mut n, &Some(Arc::clone(&m)), &args);
    let g = m.read(); let s = g.shared.read();
    if na != 0 { check(s.judgementTasks.is_empty() && s.stampIdCounter.load(Ordering::SeqCst) == 0, "a malformed call does nothing"); cover("malformed"); return; }
    check(s.judgementTasks.len() == 1, "the relation becomes a task"); let t = s.judgementTasks[0].read();
    check(enc(&t.sentence.term) == enc(&want), "nothing of the relation is lost, enumerations become intersections"); let v = S::retTv(&t.sentence).unwrap(); check(v.f == 1.0 && v.c == 0.9 && t.sentence.punct == P::JUGEMENT && t.sentence.stamp.ids == vec![0], "as a fully true judgement of its own"); cover("added");
}
