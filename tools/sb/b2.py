import sys; sys.path.insert(0,'/verif/tools')
from seedlib import seed
W='src/NarWorkingCycle.rs'; G='src/NarGoalSystem.rs'; P='src/NarProc.rs'; I='src/NarInfProcedural.rs'
H='''use nar20_1::{Term::*, Tv::Tv, NarStamp::Stamp, NarSentence::*, NarWorkingCycle as W, NarMem as M, NarGoalSystem as G, NarProc as R, NarInfProcedural as I, NarInputFacade as F, Nar as N}; use std::sync::Arc; use parking_lot::RwLock;
fn n(s: &str) -> Term { Term::Name(s.to_string()) }
fn st(c: Copula, a: Term, b: Term) -> Term { Term::Stmt(c, Box::new(a), Box::new(b)) }
fn se(t: Term, p: EnumPunctation, tv: Tv, ids: &[i64]) -> Sentence { Sentence { term: Arc::new(t), t: None, punct: p, stamp: Stamp { ids: ids.to_vec() }, expDt: None, evi: Some(Evidence::TV(tv)), usage: Arc::new(RwLock::new(Usage { lastUsed: 0, useCount: 0 })) } }
fn j(t: Term, ids: &[i64]) -> Sentence { se(t, EnumPunctation::JUGEMENT, Tv { f: 1.0, c: 0.9 }, ids) }
fn op(o: &str, a: Term) -> Term { st(Copula::INH, Term::SetExt(vec![Box::new(Term::Prod(vec![Box::new(Term::SetExt(vec![Box::new(n("SELF"))])), Box::new(a)]))]), n(o)) }
fn pred(c: Term, o: Term, g: Term) -> Term { st(Copula::PREDIMPL, Term::Seq(vec![Box::new(c), Box::new(o)]), g) }
'''
def s(*a): a=list(a); a[3]=H+a[3]; seed(*a)
s('s05','V11',[(W,"checkEqTerm(&iToAddToTasks.term, &ijt2.sentence.term) && checkSame(","checkEqTerm(&iToAddToTasks.term, &ijt2.sentence.term) && NarStamp::checkOverlap(")],
'''fn main() { let m = W::createMem2(64, 20); let sh = Arc::clone(&m.read().shared); let t = st(Copula::INH, n("a"), n("b"));
 W::memAddTask(Arc::clone(&sh), &j(t.clone(), &[1]), true, 64, 20, 1.0, 0); W::memAddTask(Arc::clone(&sh), &j(t.clone(), &[1, 2]), true, 64, 20, 1.0, 0);
 assert_eq!(sh.read().judgementTasks.len(), 2, "a judgement with other evidence becomes a task"); }
''','two judgements of the same term whose evidence overlaps without being the same','the second judgement does not become a task')
s('s06','V10',[(W,"            for iTerm in retSubterms(&*sentence.term) { // enumerate","            for iTerm in retUniqueSubterms(&*sentence.term).into_iter().filter(|t| !matches!(t, Term::QVar(_) | Term::DepVar(_) | Term::IndepVar(_))) { // enumerate")],
'''fn main() { let t = st(Copula::IMPL, st(Copula::INH, Term::IndepVar("x".into()), n("b")), st(Copula::INH, Term::IndepVar("x".into()), n("c")));
 let m = Arc::new(RwLock::new(M::make())); M::storeInConcepts(&mut m.write(), &j(t.clone(), &[1]), 20, 0);
 W::memReviseBelief(Arc::clone(&m), &j(t.clone(), &[2]));
 let g = m.read(); for (_, c) in &g.concepts { for b in &c.payload.beliefsByExp { assert_eq!(b.read().stamp.ids.len(), 2, "a stale copy of the belief is left"); } } }
''','a belief with variables is revised','the concept of the variable keeps the unrevised belief')
s('s07','V08',[(W,"    if concl.len() > 0 && checkOverlap(","    if concl.len() > 1 && checkOverlap(")],
'''fn main() { let mut f = false; let r = W::inference(&j(n("a"), &[1]), &j(st(Copula::IMPL, n("a"), n("b")), &[1, 2]), &mut f); assert!(r.is_empty(), "evidence counted twice");
 let r = W::inference(&j(n("a"), &[3]), &j(st(Copula::IMPL, n("a"), n("b")), &[1, 2]), &mut f); assert!(!r.is_empty()); }
''','premises with common evidence which have exactly one conclusion','the overlap of evidence is not checked when there is a single conclusion')
s('s08','V12',[(W,"let dt:i64 = cycleCounter - task.derivTime;","let dt:i64 = (cycleCounter - task.derivTime).min(10000);")],
'''fn main() { let t = W::Task { sentence: j(n("a"), &[1]), credit: 1.0, qaCredit: 0.0, mulCredit: 1.0, id: 1, derivTime: 0 };
 let (a, b) = (W::taskCalcCredit(&t, 10000), W::taskCalcCredit(&t, 20000)); assert!(b < a, "credit keeps decaying"); }
''','tasks older than ten thousand cycles','the credit of old tasks stops decaying')
s('s09','V13',[(W,"            qTask.bestAnswerExp = calcExp(&retTv(&concl).unwrap());","            qTask.bestAnswerExp = qTask.bestAnswerExp.max(retTv(&concl).unwrap().c);")],
'''fn main() { let mut q = W::Task2 { sentence: se(st(Copula::INH, Term::QVar("x".into()), n("b")), EnumPunctation::QUESTION, Tv { f: 1.0, c: 0.9 }, &[9]), handler: None, bestAnswerExp: 0.0, prio: 1.0 };
 W::qaTryAnswer(&mut q, &se(st(Copula::INH, n("a"), n("b")), EnumPunctation::JUGEMENT, Tv { f: 0.6, c: 0.9 }, &[1]), &vec![]); assert!((q.bestAnswerExp - (0.9 * 0.1 + 0.5)).abs() < 1e-9, "{}", q.bestAnswerExp); }
''','an answer that is confident but far from true, followed by a better one','the expectation of the best answer is overestimated, so that better answers are not reported')
s('s10','V19',[(G,"    goalSystem.write().entriesByTerm = HashMap::new(); // flush","    // flush")],
'''fn main() { let m = W::createMem2(64, 20); let g = Arc::new(RwLock::new(G::makeGoalSystem(1, 5)));
 let mk = |t: &str, c: f64, id: i64| Arc::new(se(n(t), EnumPunctation::GOAL, Tv { f: 1.0, c }, &[id]));
 G::addEntry(&g, &m.read(), 0, mk("a", 0.1, 1), None, 0); G::addEntry(&g, &m.read(), 0, mk("b", 0.9, 2), None, 0); G::limitMemory(&g, &m.read(), 0);
 assert_eq!(G::retEntries(&g.read()).len(), 1); g.write().nMaxEntries = 5;
 G::addEntry(&g, &m.read(), 0, mk("a", 0.1, 1), None, 0); assert_eq!(G::retEntries(&g.read()).len(), 2, "a dropped goal told again is kept"); }
''','a goal which was dropped by the limit is told again','the dropped goal is still indexed, so that it is taken for known and never kept again')
s('s11','V20',[(I,"    if NarStamp::checkOverlap(&goal.stamp, &belief.stamp) {","    if NarStamp::checkSame(&goal.stamp, &belief.stamp) {")],
'''fn main() { let g = se(n("g"), EnumPunctation::GOAL, Tv { f: 1.0, c: 0.9 }, &[1, 2]); let b = j(pred(n("a"), op("^x", n("p")), n("g")), &[2, 3]);
 assert!(I::infGoalBelief(&g, &b).is_none(), "evidence counted twice"); }
''','a goal and a prediction that share part of their evidence','a subgoal is derived from overlapping evidence')
s('s12','V24',[(P,"filter(|v| v.deadline <= nar.t)","filter(|v| v.deadline < nar.t)")],
'''fn main() { let mut x = R::narInit(); x.t = 10; let mut s = j(pred(n("a"), op("^x", n("p")), n("g")), &[1]); s.evi = Some(Evidence::CNT { pos: 3, cnt: 4 }); let s = Arc::new(RwLock::new(s));
 x.anticipatedEvents.push(R::AnticipationEvent { evi: Arc::clone(&s), deadline: 10 }); R::narStep0(&mut x);
 match s.read().evi.as_ref().unwrap() { Evidence::CNT { pos, cnt } => assert_eq!((*pos, *cnt), (3, 5)), _ => assert!(false) }; assert!(x.anticipatedEvents.is_empty()); }
''','an anticipation whose deadline is exactly now','the anticipation is dropped without negative evidence')
s('s13','V23',[(I,"            Term::ExtInt(elements) => {\n                let mut arr = vec![];\n                for i in elements {\n                    arr.push(Box::new(helper(i, repl, with)));","            Term::ExtInt(elements) => {\n                let mut arr = vec![];\n                for i in elements {\n                    arr.push(i.clone());")],
'''use nar20_1::NarProc; fn main() { let x = n("x"); let img = Term::ExtInt(vec![Box::new(x.clone()), Box::new(n("k"))]);
 let t = pred(st(Copula::INH, x.clone(), Term::SetInt(vec![Box::new(n("red"))])), op("^o", x.clone()), st(Copula::INH, n("w"), img));
 let m = Arc::new(RwLock::new(M::make())); let nar = NarProc::narInit(); let mut s = j(t, &[1]); s.evi = Some(Evidence::CNT { pos: 1, cnt: 1 }); s.expDt = Some(1);
 NarProc::mem_add_evidence(Arc::clone(&nar.evidenceMem), &s, 20, 0, &mut nar.rng.clone()); let _ = m; std::thread::sleep(std::time::Duration::from_millis(500));
 let all = NarProc::mem_ret_evidence_all_nonunique(&nar); let mut seen = false;
 for b in all { let t = convTermToStr(&b.read().term); if t.contains('$') || t.contains('#') { seen = true; assert!(!t.contains('x') || t.matches("x").count() == t.matches("$x").count() + t.matches("#x").count(), "{}", t); } } assert!(seen); }
''','the thing with a property occurs inside an intersection','the variable is not introduced inside intersections')
s('s14','V27',[('src/NarInputFacade.rs',"        for _i in 0..nCycles {","        for _i in 0..nCycles.min(100) {")],
'''fn main() { let mut nar = N::createNar(); let mut q = false; F::input(&mut nar, &"!s150".to_string(), &mut q);
 let c = nar.mem.read().shared.read().cycleCounter.load(std::sync::atomic::Ordering::SeqCst); assert_eq!(c, 150); }
''','a cycle command with a large count','at most one hundred cycles are done')
s('s15','V30',[('src/Map2d.rs',"    if y<0||x<0||x>=m.w||y>=m.h {\n        return;","    if y<0||x<0||y*m.w+x>=m.w*m.h {\n        return;")],
'''fn main() { let mut m = nar20_1::Map2d::makeMap2d(3, 4); nar20_1::Map2d::writeAt(&mut m, 0, 4, 1.0); for y in 0..3 { for x in 0..4 { assert_eq!(nar20_1::Map2d::readAt(&m, y, x), 0.0); } } }
''','a write right of the image in a row other than the last','the write wraps around to the next row')
s('s16','V35',[('src/ModVisionD.rs',"                    cls.prototypes[idx].last_use_time = current_time; // update time\n                }","                }\n                cls.prototypes[idx].last_use_time = current_time;")],
'''use nar20_1::{ModVisionD::*, Map2d::*}; fn main() { let mut m = makeMap2d(1, 1); writeAt(&mut m, 0, 0, 1.0); let s = vec![Channel { v: clone(&m) }];
 let mut c = RealPrototypeClassifier { prototypes: vec![] }; classify(&mut c, &s, 1, true); classify(&mut c, &s, 7, false); assert_eq!(c.prototypes[0].last_use_time, 1); }
''','classification without learning','classifying without learning changes the time of use')
s('s17','V06',[(W,"                    for iTerm in &*arr {","                    for iTerm in arr.iter().take(3) {")],
'''fn main() { let v: Vec<Box<Term>> = "abcde".chars().map(|c| Box::new(n(&c.to_string()))).collect();
 let r = W::infSinglePremise2(&j(st(Copula::PREDIMPL, n("s"), Term::Par(v.clone())), &[1])); let l = r.len(); let r3 = W::infSinglePremise2(&j(st(Copula::PREDIMPL, n("s"), Term::Par(v[..3].to_vec())), &[1])); assert_eq!((r3.len(), l), (3, 5)); }
''','a predicted parallel conjunction of more than three components','the further components are not derived')
s('s18','V28',[('src/OpLib.rs',"opOpt.unwrap().call(nar, narMem, &opArgs);","opOpt.unwrap().call(nar, narMem, args);")],
'''use std::rc::Rc; use std::cell::RefCell; use nar20_1::{OpLib::*, NarProc::Op};
struct O { log: Rc<RefCell<Vec<Vec<Term>>>> } impl Op for O { fn retName(&self) -> String { "^x".to_string() } fn call(&self, _: &mut R::ProcNar, _: &Option<Arc<RwLock<W::Mem2>>>, a: &Vec<Term>) { self.log.borrow_mut().push(a.clone()); } fn isBabbleable(&self) -> bool { false } fn ret_evi_cnt(&self) -> i64 { 1 } }
fn main() { let mut x = R::narInit(); let log = Rc::new(RefCell::new(vec![])); x.ops.push(Rc::new(Box::new(O { log: Rc::clone(&log) })));
 Op_nal9__exec_and_inject {}.call(&mut x, &None, &vec![n("SELF"), Term::Seq(vec![Box::new(op("^x", n("p"))), Box::new(op("^x", n("q")))]), n("e")]);
 let l = log.borrow(); assert_eq!(l.len(), 2); assert!(l[0].len() == 2 && checkEqTerm(&l[0][1], &n("p")) && checkEqTerm(&l[1][1], &n("q"))); }
''','a step with arguments of its own','the steps are called with the arguments of the sequence')
s('s19','V15',[(W,"                        mulCredit *= iConclAttBias;","                        if *iConclAttBias < 0.6 {continue;}\n                        mulCredit *= iConclAttBias;")],
'''fn main() { let m = W::createMem2(64, 20); let sh = Arc::clone(&m.read().shared); let t = st(Copula::INH, n("a"), n("b"));
 W::memAddTask(Arc::clone(&sh), &j(Term::Neg(Box::new(t.clone())), &[1]), true, 64, 20, 1.0, 0); let time = std::sync::atomic::AtomicI64::new(0);
 W::reasonCycle(Arc::clone(&m), &time); std::thread::sleep(std::time::Duration::from_millis(700));
 assert!(sh.read().judgementTasks.iter().any(|x| checkEqTerm(&x.read().sentence.term, &t)) , "conclusion lost"); }
''','a conclusion of a rule with a low attention bias (negation)','the conclusion is never added as a task')
