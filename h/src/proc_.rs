//! Procedural reasoner: operations, intervals, trace, perception, evidence, anticipation, decisions
use crate::api::*;
use crate::g::*;
use nar20_1::{NarGoalSystem as G, NarInfProcedural as I, NarProc as R, NarSentence as S, NarWorkingCycle as W, TermUtils as U};
use std::cell::RefCell;
use std::rc::Rc;
type Log = Rc<RefCell<Vec<(String, Vec<Term>)>>>;
struct Rec { name: &'static str, log: Log, babble: bool, evi: i64 }
impl R::Op for Rec {
    fn retName(&self) -> String { self.name.to_string() }
    fn call(&self, _n: &mut R::ProcNar, _m: &Option<Arc<RwLock<W::Mem2>>>, a: &Vec<Term>) { self.log.borrow_mut().push((self.name.to_string(), a.clone())); }
    fn isBabbleable(&self) -> bool { self.babble }
    fn ret_evi_cnt(&self) -> i64 { self.evi }
}
/// reasoner with operations ^x (3 pieces of evidence, babbleable) and ^y (5, not babbleable)
fn nar() -> (R::ProcNar, Log) {
    let mut n = R::narInit(); let log: Log = Rc::new(RefCell::new(vec![]));
    n.ops.push(Rc::new(Box::new(Rec { name: "^x", log: Rc::clone(&log), babble: true, evi: 3 })));
    n.ops.push(Rc::new(Box::new(Rec { name: "^y", log: Rc::clone(&log), babble: false, evi: 5 })));
    n.cfg__resourceGoalDeriverPrio = 0.5; // no time for goal derivation, which has properties of its own
    (n, log)
}
fn event(n: &R::ProcNar, t: Term, evi: i64, occ: i64) { n.trace.event_happened(Rc::new(R::SimpleSentence { name: t, evi, occT: occ })); }
const TABLE: [i64; 9] = [1, 2, 3, 4, 6, 8, 10, 13, 17];
/// interval table: the distinct integer parts of the powers of 1.3 up to 20, and lookup in it
#[no_mangle]
pub extern "C" fn h_proc_table() {
    let (n, _) = nar(); let t = &n.expIntervalsTable;
    check(t.len() == 9 && (0..9).all(|i| t[i] == TABLE[i]), "intervals grow exponentially up to the maximum");
    let dt = word("dt") as i64; let i = R::findMinTableIdx(dt, t);
    check(and(i >= 0, i < 9), "the interval found is one of the table");
    for k in 0..9 { check(imp(i == k as i64, and(or(k == 0, TABLE[k] <= dt), or(k == 8, TABLE[(k + 1).min(8)] > dt))), "it is the longest interval not above the time"); }
}
/// operations: recognised exactly, decoded and encoded without loss
#[no_mangle]
pub extern "C" fn h_proc_op() {
    let args: Vec<Term> = (0..pick("args", 4)).map(|i| if i == 0 { any("arg", 1, 2, 4, 26) } else { leaf("arg", 0, 26) }).collect();
    let name = { let mut s = "^".to_string(); s.push_str(&letter("name", 26)); s };
    let t = U::encodeOp(&args, &name);
    check(same(&t, &st(Copula::INH, Term::SetExt(vecb(vec![Term::Prod(vecb(args.clone()))])), Term::Name(name.clone()))), "an operation is the statement <{(args)} --> name>");
    match U::decodeOp(&t) { None => { check(args.is_empty(), "every operation with arguments is recognised"); cover("noargs"); } Some((a, n)) => { cover("op"); check(!args.is_empty() && a.len() == args.len(), "all arguments are decoded"); for (x, y) in a.iter().zip(args.iter()) { check(same(x, y), "arguments are decoded in order"); } check(beq(n.as_bytes(), name.as_bytes()), "the name is decoded"); } }
}
#[no_mangle]
pub extern "C" fn h_proc_notop() {
    // anything else is not an operation
    let inner = match pick("inner", 3) { 0 => compound(pick("comp", NCOMP), vec![nm("p"), nm("q")]), 1 => nm("p"), _ => Term::Prod(vec![]) };
    let subj = match pick("subj", 3) { 0 => Term::SetExt(vecb(vec![inner])), 1 => compound(pick("comp", NCOMP), vec![inner]), _ => Term::SetExt(vecb(vec![inner, nm("r")])) };
    let pred = match pick("pred", 3) { 0 => Term::Name(letter("n", 26)), 1 => { let k = pick("comp", NCOMP); compound(k, vec![nm("n")]) }, _ => Term::IndepVar(letter("n", 26)) };
    let t = match pick("shape", 2) { 0 => st(COPS[pick("cop", 5)], subj, pred), _ => compound(pick("comp", NCOMP), vec![subj, pred]) };
    let want = is_op(&t);
    check(U::decodeOp(&t).is_some() == want, "only statements <{(args)} --> name> are operations"); if want { cover("op"); } else { cover("not"); }
}
/// events used in traces: states, registered operations, an operation that is not registered
fn ev(k: usize) -> Term { match k { 0 => nm("a"), 1 => nm("b"), 2 => op("^x", nm("p")), 3 => op("^y", nm("q")), 4 => op("^z", nm("p")), _ => st(Copula::INH, nm("s"), Term::SetInt(vecb(vec![nm("c")]))) } }
fn callable(k: usize) -> bool { k == 2 || k == 3 }
/// predictive implication from chosen events
#[no_mangle]
pub extern "C" fn h_proc_implseq() {
    let (n, _) = nar(); let len = 3 + pick("len", 2); let ks: Vec<usize> = (0..len).map(|_| pick("event", 6)).collect();
    let es: Vec<Term> = ks.iter().map(|k| ev(*k)).collect();
    let r = R::try_build_implSeq(&n, &es);
    let ok = ks[1..len - 1].iter().all(|k| callable(*k)) && !callable(ks[0]) && !callable(ks[len - 1]) && ks[0] != ks[len - 1];
    check(r.is_some() == ok, "a prediction is built exactly from a state, operations and another state");
    if let Some(t) = r { cover("built"); check(same(&t, &st(Copula::PREDIMPL, seqt(es[..len - 1].to_vec()), es[len - 1].clone())), "it says that the operations in the first state lead to the last"); } else { cover("none"); }
    let tr: Vec<Rc<R::SimpleSentence>> = es.iter().map(|t| Rc::new(R::SimpleSentence { name: t.clone(), evi: 0, occT: 0 })).collect();
    let want: Vec<i64> = (0..len).filter(|i| callable(ks[*i])).map(|i| i as i64).collect();
    check(R::calcIdxsOfOps(&n, &tr) == want, "the operations in the trace are found");
}
/// the trace keeps the last 20 events in order
#[no_mangle]
pub extern "C" fn h_proc_trace() {
    let (n, _) = nar(); let k = [0, 1, 2, 3, 19, 20, 21, 22, 30][pick("events", 9)];
    let ids: Vec<i64> = (0..k).map(|_| word("id") as i64).collect();
    check(n.trace.ret_last_events().is_none() && n.trace.ret_view().is_empty(), "a new trace is empty");
    let lim = pick("limit", 3);
    for (i, x) in ids.iter().enumerate() { event(&n, Term::Name(letter("event", 26)), *x, i as i64); if lim == 1 { n.trace.limit(); } }
    if lim == 2 { n.trace.limit(); }
    let v = n.trace.ret_view(); let keep = if lim == 0 { k } else { k.min(20) };
    check(v.len() == keep, "the trace keeps the last 20 events");
    for i in 0..keep { check(and(v[i].evi == ids[k - keep + i], v[i].occT == (k - keep + i) as i64), "events stay in order and unchanged"); }
    match n.trace.ret_last_events() { None => check(k == 0, "there is a last event"), Some(l) => check(l.len() == 1 && l[0].evi == ids[k - 1], "the last event is the newest") }
    n.trace.force_flush(); check(n.trace.ret_view().is_empty() && n.trace.ret_last_events().is_none(), "flushing empties the trace");
}
fn cnt(s: &Sentence) -> (i64, i64) { match s.evi.as_ref().unwrap() { Evidence::CNT { pos, cnt } => (*pos, *cnt), _ => { check(false, "procedural evidence is counted"); (0, 0) } } }
fn pred(cond: Term, o: Term, g: Term) -> Term { st(Copula::PREDIMPL, seqt(vec![cond, o]), g) }
fn evid(t: Term, pos: i64, c: i64, dt: Option<i64>, ids: &[i64]) -> Sentence { let mut s = sent(t, P::JUGEMENT, None, ids); s.evi = Some(Evidence::CNT { pos, cnt: c }); s.expDt = dt; s }
/// anticipation: confirmed, disappointed or still open
fn anticipate(nev: usize, na: usize) {
    let (mut n, log) = nar(); n.cfg__perceptionSamplesPerStep = 0;
    let t = int("t", 0, 1000) as i64; n.t = t;
    let evs: Vec<Term> = (0..pick("events", nev + 1)).map(|_| Term::Name(letter("event", 3))).collect();
    for (i, e) in evs.iter().enumerate() { event(&n, e.clone(), i as i64, 0); }
    let mut m = vec![];
    for i in 0..na {
        let p = Term::Name(letter("predicted", 3)); let (pos, c) = (int("pos", 0, 50) as i64, int("cnt", 50, 99) as i64);
        let e = if i > 0 && pick("shared", 2) == 1 { let (e, ..): &(Arc<RwLock<Sentence>>, i64, i64, i64, Term) = &m[0]; Arc::clone(e) } else { Arc::new(RwLock::new(evid(pred(nm("c"), ev(2), p.clone()), pos, c, Some(1), &[i as i64]))) };
        let sh = i > 0 && Arc::ptr_eq(&e, &m[0].0);
        let d = t - 3 + int("deadline", 0, 6) as i64;
        n.anticipatedEvents.push(R::AnticipationEvent { evi: Arc::clone(&e), deadline: d });
        if sh { let (_, pos, c, _, p) = m[0].clone(); m.push((e, pos, c, d, p)); } else { m.push((e, pos, c, d, p)); }
    }
    R::narStep0(&mut n);
    let open: Vec<(i64, Arc<RwLock<Sentence>>)> = n.anticipatedEvents.iter().map(|a| (a.deadline, Arc::clone(&a.evi))).collect();
    for (i, (e, pos, c, d, p)) in m.iter().enumerate() {
        let mut seen = false; for x in evs.iter().rev().take(2) { seen = or(seen, same(x, p)); }
        // how often this piece of evidence is disappointed
        let mut dis = 0; for (e2, _, _, d2, p2) in &m { if Arc::ptr_eq(e, e2) { let mut s2 = false; for x in evs.iter().rev().take(2) { s2 = or(s2, same(x, p2)); } if !s2 && *d2 <= t { dis += 1; } } }
        let (a, b) = cnt(&e.read());
        check(and(a == *pos, b == *c + dis), "exactly the disappointed predictions get one piece of negative evidence");
        let live = open.iter().filter(|(x, y)| *x == *d && Arc::ptr_eq(y, e)).count(); let want = m.iter().filter(|(e2, _, _, d2, p2)| Arc::ptr_eq(e, e2) && *d2 == *d && { let mut s2 = false; for x in evs.iter().rev().take(2) { s2 = or(s2, same(x, p2)); } !s2 && *d2 > t }).count();
        check(live == want, "an anticipation stays open until confirmed or due"); let _ = i;
        if seen { cover("confirmed"); } else if *d <= t { cover("disappointed"); } else { cover("open"); }
    }
    check(open.len() <= m.len() && log.borrow().is_empty(), "nothing is anticipated or executed anew");
}
#[no_mangle]
pub extern "C" fn h_proc_anticipate1() { anticipate(3, 1); }
#[no_mangle]
pub extern "C" fn h_proc_anticipate2() { anticipate(2, 2); }
/// many open anticipations
#[no_mangle]
pub extern "C" fn h_proc_anticipate_many() {
    let (mut n, _) = nar(); n.cfg__perceptionSamplesPerStep = 0; n.t = [0, 1000, 1000000][pick("t", 3)]; let t = n.t;
    let k = [3, 10, 30][pick("n", 3)]; let evs = pick("events", 4) * 5;
    let outcome = |i: usize| match i % 3 { 0 => nm(&format!("o{}", i)), 1 => deepen(nm("o"), 1 + i % 6), _ => nm("o_with_a_rather_long_name_that_goes_on") };
    let seen = if evs == 0 { vec![] } else { vec![outcome(pick("newest", 5)), outcome(pick("before", 3))] };
    for i in 0..evs { event(&n, if i + 1 == evs { seen[0].clone() } else if i + 2 == evs { seen[1].clone() } else { outcome(i % k) }, i as i64, 0); }
    let sy = int("deadline", 0, 8) as i64;
    let due: Vec<i64> = (0..k).map(|i| if i == 2 { t - 4 + sy } else { t - 5 + (i * 5 % 11) as i64 }).collect();
    let es: Vec<Arc<RwLock<Sentence>>> = (0..k).map(|i| Arc::new(RwLock::new(evid(pred(nm("c"), ev(2), outcome(i)), 10 + i as i64, 100 + i as i64, Some(1), &[i as i64])))).collect();
    for i in 0..k { n.anticipatedEvents.push(R::AnticipationEvent { evi: Arc::clone(&es[i]), deadline: due[i] }); }
    R::narStep0(&mut n);
    for i in 0..k {
        let hit = seen.iter().any(|x| enc(x) == enc(&outcome(i))); let late = due[i] <= t;
        let (a, b) = cnt(&es[i].read()); check(and(a == 10 + i as i64, b == 100 + i as i64 + if !hit && late { 1 } else { 0 }), "exactly the disappointed predictions get one piece of negative evidence");
        check(n.anticipatedEvents.iter().filter(|x| Arc::ptr_eq(&x.evi, &es[i]) && x.deadline == due[i]).count() == if hit || late { 0 } else { 1 }, "an anticipation stays open until confirmed or due");
        cover(if hit { "confirmed" } else if late { "disappointed" } else { "open" });
    }
    check(n.anticipatedEvents.len() <= k, "nothing is anticipated anew");
}
/// the newest event satisfies goals
#[no_mangle]
pub extern "C" fn h_proc_satisfy() {
    let (mut n, _) = nar(); n.cfg__perceptionSamplesPerStep = 0; let m = mem2();
    for (i, g) in ["a", "b"].iter().enumerate() { G::addEntry(&n.goalSystem, &m, 0, Arc::new(sent(nm(g), P::GOAL, Some(Tv { f: 1.0, c: 0.9 }), &[i as i64])), None, 0); }
    let k = pick("events", 4); let evs: Vec<Term> = (0..k).map(|_| Term::Name(letter("event", 3))).collect();
    for e in &evs { event(&n, e.clone(), 5, 0); }
    let en = pick("satisfaction", 2) == 1; n.goalSystem.write().cfg__enGoalSatisfaction = en;
    R::narStep0(&mut n);
    for e in G::retEntries(&n.goalSystem.read()) { let e = e.read(); let hit = en && k > 0 && same(&evs[k - 1], &e.sentence.term); check(G::is_desired(&e) == !hit, "exactly the goal that just happened is satisfied"); if hit { cover("satisfied"); } else { cover("open"); } }
}
/// everything stored, as (belief, concepts it is stored under, number of copies)
fn stored(n: &R::ProcNar) -> Vec<(Vec<u8>, Sentence)> { let m = n.evidenceMem.read(); let mut o = vec![]; for (k, c) in &m.concepts { for b in c.payload.beliefsByExp.iter().chain(c.payload.beliefsByUsage.iter()) { o.push((enc(k), S::shallowCopySentence(&b.read()))); } } o }
fn table_idx(dt: i64) -> i64 { let mut r = 0; for k in 1..9 { if TABLE[k] <= dt { r = k as i64; } } r }
/// perception: what is learned is what happened
fn perceive(pat: &[usize], samples: i64, tag: &str) {
    let (mut n, _) = nar(); n.cfg__perceptionSamplesPerStep = samples; n.t = 77; rand::rngs::sym::window(0, 4 * samples);
    let mut occ = 0; let mut tr = vec![];
    for (i, k) in pat.iter().enumerate() { occ += [1, 4, 30][if i == pat.len() - 1 { pick("dt", 3) } else { 0 }]; event(&n, ev(*k), 10 + i as i64, occ); tr.push((*k, 10 + i as i64, occ)); }
    R::narStep0(&mut n); quiesce();
    check(n.trace.ret_view().len() == pat.len() && n.t == 77, "perceiving alters neither the trace nor time");
    let st_ = stored(&n); let mut seen: Vec<(usize, usize, usize)> = vec![];
    for (key, b) in &st_ {
        let mut ok = 0;
        for i in 0..tr.len() { for j in i + 1..tr.len() { for k in j + 1..tr.len() {
            if callable(tr[i].0) || !callable(tr[j].0) || callable(tr[k].0) || tr[i].0 == tr[k].0 || k + 2 < tr.len() { continue; }
            let t = pred(ev(tr[i].0), ev(tr[j].0), ev(tr[k].0));
            if enc(&t) != enc(&b.term) { continue; }
            let mut ids = b.stamp.ids.clone(); ids.sort();
            if ids != vec![tr[i].1, tr[j].1, tr[k].1] { continue; }
            let e = if tr[j].0 == 2 { 3 } else { 5 };
            check(b.expDt == Some(table_idx(tr[k].2 - tr[j].2)), "the interval from operation to outcome is remembered");
            check(cnt(b) == (e, e), "with the evidence of the operation");
            check(b.punct == P::JUGEMENT && b.t.is_none(), "as an eternal belief");
            let (mut oc, mut keys) = (vec![], vec![]); let (tc, tp) = (ev(tr[i].0), ev(tr[k].0)); occs(&tc, &mut oc); occs(&tp, &mut oc); for o in oc { keys.push(enc(o)); }
            check(keys.contains(key), "under its condition and its outcome");
            for w in &keys { check(st_.iter().filter(|(k2, b2)| k2 == w && enc(&b2.term) == enc(&b.term) && b2.stamp.ids == b.stamp.ids).count() == 2, "and under all their subterms"); }
            ok += 1; if !seen.contains(&(i, j, k)) { seen.push((i, j, k)); cover(&format!("{}{}{}{}", tag, i, j, k)); }
        } } }
        check(ok == 1, "only what happened in that order is learned");
    }
    check(seen.len() <= samples as usize, "one observation per sample"); if seen.is_empty() { cover("nothing"); }
}
#[no_mangle]
pub extern "C" fn h_proc_perceive1() { match pick("trace", 5) { 0 => perceive(&[0, 2, 1], 1, "a"), 1 => perceive(&[0, 2, 1, 3, 5], 1, "b"), 2 => perceive(&[0, 2, 1, 5], 1, "c"), 3 => perceive(&[0, 1, 3, 4, 5], 1, "d"), _ => perceive(&[2, 0, 4, 1], 1, "e") } }
#[no_mangle]
pub extern "C" fn h_proc_perceive2() { match pick("trace", 3) { 0 => perceive(&[0, 2, 1], 2, "a"), 1 => perceive(&[0, 2, 3, 1], 2, "b"), _ => perceive(&[0, 5, 2, 1], 2, "c") } }
/// long traces: the condition may be any earlier event, the operation any operation
#[no_mangle]
pub extern "C" fn h_proc_perceive_long() { match pick("trace", 2) { 0 => perceive(&[0, 5, 0, 5, 0, 5, 0, 5, 0, 5, 0, 5, 0, 5, 0, 5, 0, 5, 2, 1], 1, "l"), _ => perceive(&[0, 2, 2, 2, 5, 2, 2, 3, 2, 2, 2, 1], 1, "m") } }
/// traces of any three or four events
#[no_mangle]
pub extern "C" fn h_proc_perceive_any() { let l = 2 + pick("len", 3); let p: Vec<usize> = (0..l).map(|_| [0, 1, 2, 4][pick("event", 4)]).collect(); perceive(&p, 1, "x"); }
/// storing evidence: revision adds counts, overlapping evidence is not counted twice
fn store(k: usize, nt: usize, vars: bool) {
    let (n, _) = nar(); rand::rngs::sym::window(0, 0);
    struct B { t: Term, ids: Vec<i64>, dt: i64, pos: i64, cnt: i64 }
    let mut model: Vec<B> = vec![];
    for i in 0..k {
        let t = if vars { pred(st(Copula::INH, nm("s"), Term::SetInt(vecb(vec![nm("c")]))), op("^x", nm("s")), [nm("g"), nm("s")][pick("term", 2)].clone()) } else { match pick("term", nt) { 0 => pred(nm("a"), ev(2), nm("g")), 1 => pred(nm("a"), ev(3), nm("g")), 2 => pred(nm("a"), ev(2), nm("h")), _ => pred(st(Copula::INH, nm("a"), nm("g")), ev(2), st(Copula::INH, nm("a"), nm("h"))) } };
        let ids = vec![pick("id", 2) as i64, 10 + i as i64]; let dt = if i == 0 && pick("told", 2) == 1 { None } else { Some(int("dt", 0, 3) as i64) };
        let c = 20; let p = int("pos", 7 * i as u64, 7 * i as u64 + 5) as i64;
        n.storeWorkersTx[0].send((evid(t.clone(), p, c, dt, &ids), 5)).unwrap(); quiesce();
        let d = dt.unwrap_or(0); let mut rev = false; let mut dup = false;
        for b in model.iter_mut() { if enc(&b.t) == enc(&t) { let ov = b.ids.iter().any(|x| ids.contains(x)); if ov { dup = true; } else if b.dt >= d { b.pos += p; b.cnt += c; b.ids.extend(&ids); rev = true; } } }
        if rev { cover("revised"); } else if dup { cover("known"); } else { cover("new"); }
        if !rev {
            if !dup { model.push(B { t: t.clone(), ids: ids.clone(), dt: d, pos: p, cnt: c }); }
            if vars { let (v, o) = (Term::IndepVar("Q000000000000000000000000".into()), nm("s")); let tv = repl(&t, &o, &v); let known = model.iter().any(|b| enc(&b.t) == enc(&tv) && b.ids.iter().any(|x| ids.contains(x))); if !known { model.push(B { t: tv, ids, dt: d, pos: p, cnt: c }); cover("general"); } }
        }
    }
    let all = stored(&n); let mut total = 0;
    for b in &model {
        let (c, g) = match &b.t { Term::Stmt(_, s, p) => (match &**s { Term::Seq(v) => (*v[0]).clone(), _ => nm("?") }, (**p).clone()), _ => (nm("?"), nm("?")) };
        let mut o = vec![]; occs(&c, &mut o); occs(&g, &mut o); let mut keys: Vec<Vec<u8>> = vec![]; for x in o { if !keys.contains(&enc(x)) { keys.push(enc(x)); } }
        let mut ids = b.ids.clone(); ids.sort();
        for key in &keys {
            let hits: Vec<&(Vec<u8>, Sentence)> = all.iter().filter(|(k2, s)| { let mut i2 = s.stamp.ids.clone(); i2.sort(); k2 == key && enc(&s.term) == enc(&b.t) && i2 == ids }).collect();
            check(hits.len() == 2, "every distinct observation is stored under condition and outcome, once by expectation and once by usage");
            for (_, s) in hits { let (p, c) = cnt(s); check(and(p == b.pos, c == b.cnt), "independent evidence adds up, in every copy"); check(s.expDt.unwrap_or(0) == b.dt, "the interval is kept"); }
        }
        total += 2 * keys.len();
    }
    check(all.len() == total, "nothing else is stored");
}
fn repl(t: &Term, from: &Term, to: &Term) -> Term {
    if enc(t) == enc(from) { return to.clone(); }
    let m = |v: &Vec<Box<Term>>| v.iter().map(|x| Box::new(repl(x, from, to))).collect::<Vec<_>>();
    match t { Term::Stmt(c, a, b) => st(*c, repl(a, from, to), repl(b, from, to)), Term::Seq(v) => Term::Seq(m(v)), Term::SetInt(v) => Term::SetInt(m(v)), Term::SetExt(v) => Term::SetExt(m(v)), Term::Conj(v) => Term::Conj(m(v)), Term::Prod(v) => Term::Prod(m(v)), Term::IntInt(v) => Term::IntInt(m(v)), Term::ExtInt(v) => Term::ExtInt(m(v)), Term::Par(v) => Term::Par(m(v)), Term::Img(r, i, v) => Term::Img(bx(repl(r, from, to)), *i, m(v)), Term::Neg(x) => Term::Neg(bx(repl(x, from, to))), _ => t.clone() }
}
/// one prediction observed many times among many others
#[no_mangle]
pub extern "C" fn h_proc_store_many() {
    let (n, _) = nar(); rand::rngs::sym::window(0, 0);
    let other = [0, 5, 25][pick("others", 3)]; let times = [2, 6, 12][pick("times", 3)];
    let t = match pick("term", 2) { 0 => pred(nm("a"), ev(2), nm("g")), _ => pred(deepen(nm("a"), 6), U::encodeOp(&names(5), &"^x".to_string()), deepen(nm("g"), 5)) };
    let (c, g) = match &t { Term::Stmt(_, s, p) => (match &**s { Term::Seq(v) => (*v[0]).clone(), _ => nm("?") }, (**p).clone()), _ => (nm("?"), nm("?")) };
    let tell = |t: &Term, p: i64, c: i64, dt: Option<i64>, ids: &[i64]| { n.storeWorkersTx[0].send((evid(t.clone(), p, c, dt, ids), 5)).unwrap(); };
    for i in 0..other { let x = if i % 2 == 0 { pred(c.clone(), op("^y", nm(&format!("n{}", i))), g.clone()) } else { pred(c.clone(), ev(2), nm(&format!("n{}", i))) }; tell(&x, 1, 2, Some(8), &[1000 + i as i64]); }
    let mut pos = 0; let mut ids: Vec<i64> = vec![];
    for i in 0..times { let w: Vec<i64> = (0..1 + i as i64 % 4).map(|k| 10 * i as i64 + k).collect(); tell(&t, i as i64, 20, Some(if i == 0 { 7 } else { i as i64 % 8 }), &w); pos += i as i64; ids.extend(w); }
    // one more, whose evidence and interval are arbitrary
    let (id, dt) = (int("id", 0, 200) as i64, int("dt", 0, 9) as i64); let known = ids.contains(&id);
    tell(&t, 3, 4, Some(dt), &[id, 555]); quiesce();
    let all = stored(&n); let mut here = 0;
    for (_, s) in all.iter().filter(|(_, s)| enc(&s.term) == enc(&t)) {
        let (p, q) = cnt(s);
        if s.expDt == Some(7) && s.stamp.ids.len() > 2 || s.stamp.ids.contains(&0) {
            here += 1; let rev = !known && dt <= 7;
            check(and(p == pos + if rev { 3 } else { 0 }, q == 20 * times as i64 + if rev { 4 } else { 0 }), "independent evidence adds up, in every copy");
            check(s.stamp.ids.len() == ids.len() + if rev { 2 } else { 0 }, "with the evidence of all");
            cover(if rev { "revised" } else { "kept" });
        } else { check(!known && dt > 7 && p == 3 && q == 4, "an observation with a longer interval is stored on its own"); cover("new"); }
    }
    check(here >= 2, "the prediction is there");
    for (_, s) in all.iter().filter(|(_, s)| enc(&s.term) != enc(&t)) { check(cnt(s) == (1, 2) && s.stamp.ids.len() == 1 && s.stamp.ids[0] >= 1000, "other predictions are untouched"); }
}
/// variables for things that occur often and deep inside
#[no_mangle]
pub extern "C" fn h_proc_intro_wide() {
    rand::rngs::sym::window(0, 1);
    let x = [nm("x"), nm("a_rather_long_name_for_a_thing"), Term::Prod(vecb(names(6)))][pick("x", 3)].clone();
    let w = [2, 5, 9][pick("width", 3)]; let at = [0, w / 2, w - 1][pick("at", 3)];
    let mut v = names(w + 20)[20..].to_vec(); v[at] = x.clone();
    let o = match pick("op", 3) { 0 => op("^x", nm("p")), 1 => { let mut a = names(w + 20)[20..].to_vec(); a[at] = x.clone(); U::encodeOp(&a, &"^x".to_string()) } _ => op("^x", deepen(x.clone(), 9)) };
    let g = match pick("outcome", 4) { 0 => nm("g"), 1 => st(Copula::INH, wide(pick("kind", NCOMP + 1), v), nm("w")), 2 => deepen(x.clone(), 10), _ => st(Copula::IMPL, deepen(x.clone(), 4), deepen(x.clone(), 7)) };
    let t = pred(st(Copula::INH, x.clone(), Term::SetInt(vecb(vec![nm("c")]))), o, g);
    let mut rng = rand::thread_rng(); let r = I::matchandintro_var1_sentence(&evid(t.clone(), 7, 9, Some(2), &[4, 6]), &mut rng);
    let e = enc(&x); let mut o2 = vec![]; occs(&t, &mut o2); let n = o2.iter().filter(|y| enc(y) == e).count();
    check(r.len() == (n >= 2) as usize, "a variable is introduced exactly for something with a property which occurs again");
    if n >= 2 {
        let name = match &*r[0].term { Term::Stmt(_, su, _) => match &**su { Term::Seq(v) => match &*v[0] { Term::Stmt(_, a, _) => match &**a { Term::IndepVar(n) => n.clone(), _ => String::new() }, _ => String::new() }, _ => String::new() }, _ => String::new() };
        check(enc(&r[0].term) == enc(&repl(&t, &x, &Term::IndepVar(name))), "every occurrence becomes the same variable and nothing else changes"); cover("introduced");
    } else { cover("none"); }
}
#[no_mangle]
pub extern "C" fn h_proc_store2() { store(2, 4, false); }
#[no_mangle]
pub extern "C" fn h_proc_store3() { store(3, 2, false); }
#[no_mangle]
pub extern "C" fn h_proc_store_var() { store(2, 2, true); }
/// variable introduction
#[no_mangle]
pub extern "C" fn h_proc_intro() {
    rand::rngs::sym::window(0, 1);
    let x = match pick("x", 3) { 0 => Term::Name(letter("x", 3)), 1 => Term::SetExt(vecb(vec![Term::Name(letter("x", 3))])), _ => Term::Prod(vecb(vec![nm("u"), Term::Name(letter("x", 3))])) };
    let ctx = |n: &str, y: Term| -> Term { match pick(n, 3 + NCOMP) { 0 => y, 1 => Term::Neg(bx(y)), 2 => Term::Img(bx(y), 1, vecb(vec![nm("r")])), k => compound(k - 3, vec![nm("k"), y]) } };
    let form = pick("form", 7);
    let cond = match form { 1 => nm("w"), 2 => st(Copula::INH, x.clone(), nm("w")), 3 => st(Copula::SIM, x.clone(), Term::SetInt(vecb(vec![nm("w")]))), _ => st(Copula::INH, x.clone(), Term::SetInt(vecb(vec![nm("w")]))) };
    let o = op("^x", match pick("arg", 2) { 0 => nm("p"), _ => ctx("argctx", Term::Name(letter("y", 3))) });
    let g = match pick("outcome", 3) { 0 => nm("g"), 1 => st(Copula::INH, x.clone(), Term::SetInt(vecb(vec![nm("v")]))), _ => ctx("outctx", Term::Name(letter("z", 3))) };
    let seq = match form { 4 => vec![cond.clone()], 5 => vec![cond.clone(), o.clone(), o.clone()], _ => vec![cond.clone(), o.clone()] };
    let t = if form == 6 { st(Copula::IMPL, seqt(seq), g) } else { st(Copula::PREDIMPL, seqt(seq), g) };
    let s = evid(t.clone(), 7, 9, Some(2), &[4, 6]);
    let mut rng = rand::thread_rng(); let r = I::matchandintro_var1_sentence(&s, &mut rng);
    let mut n = 0; { let mut o2 = vec![]; occs(&t, &mut o2); for y in o2 { if same(y, &x) { n += 1; } } }
    let want = form == 0 && n >= 2;
    check(r.len() == want as usize, "a variable is introduced exactly for something with a property which occurs again");
    if want {
        cover("introduced"); let r = &r[0];
        let name = match &*r.term { Term::Stmt(_, su, _) => match &**su { Term::Seq(v) => match &*v[0] { Term::Stmt(_, a, _) => match &**a { Term::IndepVar(n) => n.clone(), _ => { check(false, "the thing becomes an independent variable"); String::new() } }, _ => String::new() }, _ => String::new() }, _ => String::new() };
        check(name.len() == 25 && name.as_bytes()[0] == b'Q', "the variable has a fresh random name");
        for b in name.as_bytes() { check(or(and(*b >= b'0', *b <= b'9'), or(and(*b >= b'A', *b <= b'F'), *b == b'Q')), "the name is made of hexadecimal digits"); }
        check(same(&r.term, &repls(&t, &x, &Term::IndepVar(name))), "every occurrence becomes the same variable and nothing else changes");
        check(cnt(r) == (7, 9) && r.stamp.ids == vec![4, 6] && r.expDt == Some(2) && r.punct == P::JUGEMENT, "evidence and interval are kept");
    } else { cover("none"); }
}
/// replacement where equality of names is symbolic (case split)
fn repls(t: &Term, from: &Term, to: &Term) -> Term {
    if same(t, from) { return to.clone(); }
    let m = |v: &Vec<Box<Term>>| v.iter().map(|x| Box::new(repls(x, from, to))).collect::<Vec<_>>();
    match t { Term::Stmt(c, a, b) => st(*c, repls(a, from, to), repls(b, from, to)), Term::Seq(v) => Term::Seq(m(v)), Term::SetInt(v) => Term::SetInt(m(v)), Term::SetExt(v) => Term::SetExt(m(v)), Term::Conj(v) => Term::Conj(m(v)), Term::Prod(v) => Term::Prod(m(v)), Term::IntInt(v) => Term::IntInt(m(v)), Term::ExtInt(v) => Term::ExtInt(m(v)), Term::Par(v) => Term::Par(m(v)), Term::Img(r, i, v) => Term::Img(bx(repls(r, from, to)), *i, m(v)), Term::Neg(x) => Term::Neg(bx(repls(x, from, to))), _ => t.clone() }
}

fn goal(t: Term, v: Tv, ids: &[i64]) -> Arc<Sentence> { Arc::new(sent(t, P::GOAL, Some(v), ids)) }
fn dm() -> Option<Arc<RwLock<W::Mem2>>> { Some(Arc::new(RwLock::new(mem2()))) }
/// what one decision step did: the calls, the events added, the anticipations added
fn called(log: &Log, name: &str, args: &[Term]) -> bool { let l = log.borrow(); l.len() == 1 && l[0].0 == name && l[0].1.len() == args.len() && l[0].1.iter().zip(args).all(|(a, b)| enc(a) == enc(b)) }
fn selfp(a: &str) -> Vec<Term> { vec![Term::SetExt(vecb(vec![nm("SELF")])), nm(a)] }
/// decisions between waiting operation goals
fn decide(ng: usize) {
    let (mut n, log) = nar(); let d = dm(); n.t = [0, 1, 14, 102][pick("t", 4)]; let t = n.t;
    n.cfgEnBabbling = pick("babbling", 2) == 1; n.cfg__enAnticipation = pick("anticipation", 2) == 1;
    let mut m = vec![];
    for i in 0..ng {
        let k = 2 + pick("op", 3); let v = Tv { f: f("f", 0.0, 1.0), c: 0.9 }; let des = if i == 0 { f("desirability", -1.0, 1.0) as f32 } else { 1.0 };
        let dt = [None, Some(0), Some(4), Some(8)][pick("dt", if i == 0 { 4 } else { 1 })];
        let e = Arc::new(RwLock::new(evid(pred(nm("a"), ev(k), nm("g")), 9, 10, dt, &[50 + i as i64])));
        let s = goal(ev(k), v, &[i as i64]); G::addEntry(&n.goalSystem, &d.as_ref().unwrap().read(), 0, Arc::clone(&s), Some(Arc::clone(&e)), 1);
        for x in G::retEntries(&n.goalSystem.read()) { if Arc::ptr_eq(&x.read().sentence, &s) { x.write().desirability = des; } }
        m.push((s, k, v, des, dt, e));
    }
    R::narStep1(&mut n, &d);
    check(n.t == t + 1, "time advances by one");
    let left: Vec<Arc<Sentence>> = n.goalSystem.read().activeSet.set.iter().map(|e| Arc::clone(&e.read().sentence)).collect();
    let gone: Vec<usize> = (0..ng).filter(|i| !left.iter().any(|s| Arc::ptr_eq(s, &m[*i].0))).collect();
    let can = |i: usize| and(m[i].3 > 0.0001, exp(&m[i].2) > 0.58);
    let view = n.trace.ret_view();
    check(left.len() + gone.len() == ng && gone.len() <= 1 && log.borrow().len() <= 1 && view.len() == log.borrow().len(), "at most one operation per step, recorded as it happens");
    if gone.len() == 1 {
        let w = &m[gone[0]]; cover("decided");
        check(can(gone[0]), "only desired goals above the decision threshold are executed");
        for i in 0..ng { check(imp(can(i), exp(&m[i].2) <= exp(&w.2) + 1e-9), "the most expected goal is executed"); }
        check(n.anticipatedEvents.len() == n.cfg__enAnticipation as usize, "the outcome is anticipated if anticipation is on");
        for a in &n.anticipatedEvents { check(Arc::ptr_eq(&a.evi, &w.5) && a.deadline == t + TABLE[w.4.unwrap_or(0) as usize], "by the prediction of the goal and its interval"); }
        if w.1 == 4 { check(log.borrow().is_empty(), "an operation which is not registered is not called"); cover("unregistered"); }
        else { check(called(&log, if w.1 == 2 { "^x" } else { "^y" }, &selfp(if w.1 == 2 { "p" } else { "q" })), "exactly that operation is called once with its arguments"); check(view.len() == 1 && enc(&view[0].name) == enc(&ev(w.1)) && view[0].evi == t && view[0].occT == t, "and recorded as an event of this moment"); cover("called"); }
    } else {
        for i in 0..ng { check(!can(i), "a desired goal above the threshold is executed"); }
        check(n.anticipatedEvents.is_empty(), "nothing is anticipated without a decision");
        if log.borrow().len() > 0 { check(n.cfgEnBabbling, "babbling only if enabled"); check(called(&log, "^x", &[Term::SetExt(vecb(vec![nm("SELF")]))]), "only operations which may babble, without arguments"); check(enc(&view[0].name) == enc(&U::encodeOp(&vec![Term::SetExt(vecb(vec![nm("SELF")]))], &"^x".to_string())) && view[0].evi == t && view[0].occT == t, "babbling is recorded as an event"); cover("babble"); } else { cover("idle"); }
    }
}
/// many waiting operations, many arguments
#[no_mangle]
pub extern "C" fn h_proc_decide_many() {
    let (mut n, log) = nar(); let d = dm(); n.t = [3, 5000][pick("t", 2)]; let t = n.t; n.cfgEnBabbling = true;
    for i in 0..pick("more", 2) * 8 { n.ops.push(Rc::new(Box::new(Rec { name: ["^o0", "^o1", "^o2", "^o3", "^o4", "^o5", "^o6", "^o7"][i], log: Rc::clone(&log), babble: false, evi: 1 }))); }
    for i in 0..pick("anticipated", 2) * 25 { n.anticipatedEvents.push(R::AnticipationEvent { evi: Arc::new(RwLock::new(evid(pred(nm("k"), ev(2), nm("l")), 1, 1, Some(1), &[900 + i as i64]))), deadline: t + 100 }); }
    let open = n.anticipatedEvents.len();
    let k = [2, 6, 25][pick("n", 3)]; let na = [1, 2, 3, 6][pick("args", 4)]; let sy = [0, k - 1][pick("which", 2)]; let dt = [0, 5, 8][pick("dt", 3)];
    let args = |i: usize| -> Vec<Term> { let mut v = vec![Term::SetExt(vecb(vec![nm("SELF")]))]; v.extend(names(na + 1)[1..na].to_vec()); if na > 1 { v[na - 1] = nm(&format!("p{}", i)); } v };
    let o = |i: usize| U::encodeOp(&args(i), &["^x", "^y"][i % 2].to_string());
    let mut m = vec![];
    for i in 0..k {
        let v = Tv { f: if i == sy { f("f", 0.0, 1.0) } else { 0.45 + 0.01 * ((i * 7) % 26) as f64 }, c: 0.9 };
        let e = Arc::new(RwLock::new(evid(pred(nm("a"), o(i), nm("g")), 9, 10, Some(dt), &[50 + i as i64])));
        let s = goal(o(i), v, &[i as i64]); G::addEntry(&n.goalSystem, &d.as_ref().unwrap().read(), 0, Arc::clone(&s), Some(Arc::clone(&e)), i as i64 % 12);
        m.push((s, v, e));
    }
    check(n.goalSystem.read().activeSet.set.len() == k, "all goals wait");
    R::narStep1(&mut n, &d);
    let left: Vec<Arc<Sentence>> = n.goalSystem.read().activeSet.set.iter().map(|e| Arc::clone(&e.read().sentence)).collect();
    let gone: Vec<usize> = (0..k).filter(|i| !left.iter().any(|s| Arc::ptr_eq(s, &m[*i].0))).collect();
    check(n.t == t + 1 && gone.len() <= 1 && left.len() + gone.len() == k, "at most one operation per step");
    if gone.len() == 1 {
        let w = gone[0]; let x = exp(&m[w].1);
        check(x > 0.58 - 1e-9, "only desired goals above the decision threshold are executed");
        for i in 0..k { check(exp(&m[i].1) <= x + 1e-9, "the most expected goal is executed"); }
        check(called(&log, ["^x", "^y"][w % 2], &args(w)), "exactly that operation is called once with its arguments");
        check(n.anticipatedEvents.len() == open + 1 && n.anticipatedEvents.iter().any(|a| Arc::ptr_eq(&a.evi, &m[w].2) && a.deadline == t + TABLE[dt as usize]), "by the prediction of the goal and its interval");
        let view = n.trace.ret_view(); check(view.len() == 1 && enc(&view[0].name) == enc(&o(w)), "and recorded as an event of this moment");
        cover("decided");
    } else { for i in 0..k { check(exp(&m[i].1) <= 0.58 + 1e-9, "a desired goal above the threshold is executed"); } check(n.anticipatedEvents.len() == open, "nothing is anticipated without a decision"); cover("idle"); }
}
#[no_mangle]
pub extern "C" fn h_proc_decide2() { let k = pick("goals", 3); decide(k); }
#[no_mangle]
pub extern "C" fn h_proc_decide3() { decide(3); }
/// reaction: a wanted sequence whose condition just happened leads to its operation
fn react(nev: usize) {
    let (mut n, log) = nar(); let d = dm(); n.cfgEnBabbling = false; n.t = 5;
    let evs: Vec<usize> = (0..pick("events", nev + 1)).map(|_| [0, 1, 4, 5][pick("event", 4)]).collect();
    for (i, k) in evs.iter().enumerate() { event(&n, ev(*k), i as i64, i as i64); }
    let v = Term::IndepVar("v".into());
    // goals: (a,^x), (b,^y), (<$v --> [c]>, ^y with $v)
    let pats = [seqt(vec![ev(0), ev(2)]), seqt(vec![ev(1), ev(3)]), seqt(vec![st(Copula::INH, v.clone(), Term::SetInt(vecb(vec![nm("c")]))), op("^y", v.clone())])];
    let mut m = vec![];
    for g in 0..3 { if pick("has", 2) == 0 { continue; }
        let w = Tv { f: f("f", 0.0, 1.0), c: 0.9 }; let pos = int("pos", 0, 20) as i64;
        let term = st(Copula::PREDIMPL, pats[g].clone(), nm("g")); let e = Arc::new(RwLock::new(evid(term, pos, 20, Some(2), &[50 + g as i64])));
        G::addEntry(&n.goalSystem, &d.as_ref().unwrap().read(), 0, goal(pats[g].clone(), w, &[g as i64]), Some(Arc::clone(&e)), 1); m.push((g, w, pos, e)); }
    R::narStep1(&mut n, &d);
    let recent: Vec<usize> = evs.iter().rev().take(2).cloned().collect();
    let app = |g: usize| match g { 0 => recent.contains(&0), 1 => recent.contains(&1), _ => recent.contains(&5) };
    let etv = |pos: i64| (pos as f64 / 20.0 - 0.5) * (20.0 / 21.0) + 0.5;
    check(n.t == 6 && log.borrow().len() <= 1, "at most one operation per step");
    let cands: Vec<&(usize, Tv, i64, Arc<RwLock<Sentence>>)> = m.iter().filter(|x| app(x.0)).collect();
    let mut strong = false; for c in &cands { strong = or(strong, and(exp(&c.1) > 0.58 + 1e-9, etv(c.2) > 0.58 + 1e-9)); }
    if log.borrow().len() == 1 {
        cover("reacted");
        check(n.anticipatedEvents.len() == 1, "the reaction anticipates its outcome");
        let a = &n.anticipatedEvents[0]; let w = cands.iter().find(|c| Arc::ptr_eq(&c.3, &a.evi)); check(w.is_some(), "the reaction belongs to a goal whose condition just happened"); let w = w.unwrap();
        check(a.deadline == 5 + TABLE[2], "within the interval of the prediction");
        check(and(exp(&w.1) > 0.58 - 1e-9, etv(w.2) > 0.58 - 1e-9), "only above the decision threshold");
        for c in &cands { check(exp(&c.1) <= exp(&w.1) + 1e-9, "the most expected applicable goal is followed"); }
        let (name, arg) = [("^x", "p"), ("^y", "q"), ("^y", "s")][w.0]; check(called(&log, name, &selfp(arg)), "its operation is executed with the arguments of the situation");
        let view = n.trace.ret_view(); check(view.len() == evs.len() + 1 && enc(&view[evs.len()].name) == enc(&op(name, nm(arg))), "and recorded");
    } else {
        check(n.anticipatedEvents.is_empty() && n.trace.ret_view().len() == evs.len(), "nothing else happens");
        // when the best applicable goal has good evidence, there must be a reaction
        let mut quiet = true; for c in &cands { let mut best = true; for o in &cands { best = and(best, exp(&o.1) < exp(&c.1) - 1e-9 || o.0 == c.0); } quiet = and(quiet, !and(best, and(exp(&c.1) > 0.58 + 1e-9, etv(c.2) > 0.58 + 1e-9))); }
        check(quiet, "the best applicable goal is followed when it is expected and its prediction holds"); cover("nothing");
    }
    let _ = strong;
}
#[no_mangle]
pub extern "C" fn h_proc_react2() { react(2); }
#[no_mangle]
pub extern "C" fn h_proc_react3() { react(3); }
/// planning ahead: predictions chained from the newest event to a goal
fn ded_goal(g: (f64, f64), b: (f64, f64)) -> (f64, f64) { let (c1, c2) = (g.1 * b.1 * (g.0 * b.0), g.1 * b.1 * ((1.0 - g.0) * b.0)); if c1 >= c2 { (g.0 * b.0, c1) } else { (1.0 - (1.0 - g.0) * b.0, c2) } }
#[no_mangle]
pub extern "C" fn h_proc_plan() {
    let (mut n, log) = nar(); let d = dm(); n.cfgEnBabbling = false; n.t = 5;
    let kind = pick("chain", 5); // none, one step, two steps, sequence without operation, cycle
    let (p1, p2) = ([0, 30, 70, 85, 100][pick("pos1", 5)], if kind == 2 { [0, 30, 70, 85, 100][pick("pos2", 5)] } else { 0 });
    let mut add = |t: Term, p: i64, id: i64| { let s = evid(t, p, 100, Some(3), &[id]); let k = match &*s.term { Term::Stmt(_, a, b) => vec![match &**a { Term::Seq(v) => (*v[0]).clone(), _ => nm("?") }, (**b).clone()], _ => vec![] }; nar20_1::NarMem::storeInConcepts2(&mut n.evidenceMem.write(), &s, &k, 20, 0); };
    match kind { 0 => add(pred(nm("k"), ev(2), nm("g")), p1, 50), 1 => add(pred(nm("a"), ev(2), nm("g")), p1, 50), 2 => { add(pred(nm("a"), ev(2), nm("h")), p1, 50); add(pred(nm("h"), ev(3), nm("g")), p2, 51); } 3 => add(st(Copula::PREDIMPL, seqt(vec![nm("a"), nm("b")]), nm("g")), p1, 50), _ => add(pred(nm("a"), ev(2), nm("a")), p1, 50) }
    let gv = Tv { f: 1.0, c: f("desire", 0.0, 0.99) };
    G::addEntry(&n.goalSystem, &d.as_ref().unwrap().read(), 0, goal(nm("g"), gv, &[1]), None, 0);
    let last = pick("event", 2) == 1; event(&n, nm("z"), 1, 1); if last { event(&n, nm("a"), 2, 2); } else { event(&n, nm("a"), 2, 2); event(&n, nm("w"), 3, 3); }
    R::narStep1(&mut n, &d);
    let c = 100.0 / 101.0; let e = |p: i64| (p as f64 / 100.0, c);
    let tv = match kind { 1 => Some(ded_goal((1.0, gv.c), e(p1))), 2 => Some(ded_goal(ded_goal((1.0, gv.c), e(p2)), e(p1))), _ => None };
    let x = |v: (f64, f64)| v.1 * (v.0 - 0.5) + 0.5;
    let hit = last && tv.is_some();
    let l = log.borrow().len();
    if !hit { check(l == 0 && n.anticipatedEvents.is_empty(), "without a chain from the newest event to a goal nothing is done"); cover("nochain"); return; }
    let (a, b) = (x(tv.unwrap()), x(e(p1)));
    if l == 0 { check(or(a <= 0.58 + 1e-9, b <= 0.58 + 1e-9), "a chain to a goal above the decision threshold is followed"); cover("weak"); }
    else { check(and(a > 0.58 - 1e-9, b > 0.58 - 1e-9), "only above the decision threshold"); check(called(&log, "^x", &selfp("p")), "the first operation of the chain is executed"); check(n.anticipatedEvents.len() == 1 && n.anticipatedEvents[0].deadline == 5 + TABLE[3] && enc(&n.anticipatedEvents[0].evi.read().term) == enc(&pred(nm("a"), ev(2), if kind == 1 { nm("g") } else { nm("h") })), "and its outcome anticipated"); if kind == 1 { cover("one"); } else { cover("two"); } }
}
/// planning among many predictions, with chains of one or two steps; which prediction is tried is random
#[no_mangle]
pub extern "C" fn h_proc_plan_many() {
    let (mut n, log) = nar(); let d = dm(); n.cfgEnBabbling = false; n.t = 5;
    let steps = 1 + pick("steps", 2); let noise = [0, 4, 15][pick("noise", 3)]; let first = pick("first", 2) == 1; // is the chain stored before the others?
    let put = |t: Term, p: i64, id: i64| { let s = evid(t, p, 100, Some(3), &[id]); let k = match &*s.term { Term::Stmt(_, a, b) => vec![match &**a { Term::Seq(v) => (*v[0]).clone(), _ => nm("?") }, (**b).clone()], _ => vec![] }; nar20_1::NarMem::storeInConcepts2(&mut n.evidenceMem.write(), &s, &k, 100, 0); };
    let st_ = |i: usize| if i == 0 { nm("a") } else if i == steps { nm("g") } else { nm(&format!("m{}", i)) };
    let chain = || for i in 0..steps { put(pred(st_(i), op(if i == 0 { "^x" } else { "^y" }, nm(&format!("p{}", i))), st_(i + 1)), 98, 50 + i as i64); };
    if first { chain(); }
    for i in 0..noise { put(pred(nm("a"), op("^y", nm("n")), nm(&format!("n{}", i))), 100, 200 + i as i64); }
    if !first { chain(); }
    let gv = Tv { f: 1.0, c: f("desire", 0.0, 0.99) };
    G::addEntry(&n.goalSystem, &d.as_ref().unwrap().read(), 0, goal(nm("g"), gv, &[1]), None, 0);
    for i in 0..pick("extra", 2) * 12 { G::addEntry(&n.goalSystem, &d.as_ref().unwrap().read(), 0, goal(nm(&format!("q{}", i)), Tv { f: 1.0, c: 0.9 }, &[300 + i as i64]), None, 0); }
    event(&n, nm("z"), 1, 1); event(&n, nm("a"), 2, 2);
    R::narStep1(&mut n, &d);
    let b = (0.98, 100.0 / 101.0); let mut v = (1.0, gv.c); for _ in 0..steps { v = ded_goal(v, b); }
    let x = v.1 * (v.0 - 0.5) + 0.5;
    if log.borrow().is_empty() { check(or(noise > 0, x <= 0.58 + 1e-9), "a chain to a goal above the decision threshold is followed"); cover("weak"); }
    else { check(x > 0.58 - 1e-9, "only above the decision threshold"); check(called(&log, "^x", &selfp("p0")), "the first operation of the chain is executed");
        check(n.anticipatedEvents.len() == 1 && enc(&n.anticipatedEvents[0].evi.read().term) == enc(&pred(nm("a"), op("^x", nm("p0")), st_(1))), "and its outcome anticipated"); cover(&format!("{}of{}", steps, noise)); }
}
/// what is in the trace and in memory never makes a step crash: any events, any goals
#[no_mangle]
pub extern "C" fn h_proc_step_total() {
    let (mut n, log) = nar(); let d = dm(); n.t = [0, 1][pick("t", 2)]; rand::rngs::sym::window(0, 6); n.cfg__perceptionSamplesPerStep = 1;
    let e: Vec<Term> = (0..3).map(|_| match pick("event", 4) { 0 => nm("a"), 1 => ev(2), 2 => seqt(vec![nm("a"), ev(2)]), _ => Term::IndepVar("v".into()) }).collect();
    for (i, x) in e.iter().enumerate() { event(&n, x.clone(), i as i64, i as i64); }
    let g = match pick("goal", 6) { 0 => seqt(vec![nm("a"), nm("b")]), 1 => seqt(vec![nm("a")]), 2 => seqt(vec![Term::IndepVar("v".into()), ev(2)]), 3 => seqt(vec![ev(2), ev(3)]), 4 => Term::IndepVar("v".into()), _ => st(Copula::PREDIMPL, nm("a"), nm("b")) };
    G::addEntry(&n.goalSystem, &d.as_ref().unwrap().read(), 0, goal(g, Tv { f: 1.0, c: 0.9 }, &[1]), Some(Arc::new(RwLock::new(evid(pred(nm("a"), ev(2), nm("g")), 9, 10, None, &[50])))), 0);
    R::narStep0(&mut n); quiesce(); R::narStep1(&mut n, &d);
    check(log.borrow().len() <= 1 && n.trace.ret_view().len() == 3 + log.borrow().len(), "a step does at most one thing");
    for (_, b) in stored(&n) { let (p, c) = cnt(&b); check(p >= 0 && p <= c && c > 0, "counted evidence stays valid"); } cover("end");
}
