//! Goal system: storing, limiting, satisfying, selecting, sampling and deriving goals
use crate::api::*;
use crate::g::*;
use nar20_1::{NarGoalSystem as G, NarInfProcedural as I, NarMem as M, NarSentence as S};
fn goal(t: Term, v: Tv, ids: &[i64]) -> Arc<Sentence> { Arc::new(sent(t, P::GOAL, Some(v), ids)) }
type E = Arc<RwLock<G::Entry>>;
fn gterm(k: usize) -> Term { match k { 0 => nm("g"), 1 => seqt(vec![nm("a"), op("^x", nm("p"))]), 2 => op("^x", nm("p")), 3 => op("^y", nm("p")), 4 => nm("h"), _ => st(Copula::INH, nm("a"), nm("b")) } }
/// structure: every entry is where it belongs
fn wellformed(gs: &G::GoalSystem, nd: i64) {
    check(gs.batchesByDepth.len() as i64 == nd, "one batch per depth");
    for (d, b) in gs.batchesByDepth.iter().enumerate() { for g in &b.read().groups {
        check(!g.entries.is_empty(), "no empty group");
        for e in &g.entries { let e = e.read(); check(same(&g.term, &e.sentence.term), "goals are grouped by term"); check(!is_op(&e.sentence.term), "operations wait in the active set"); check(e.depth.min(nd - 1) == d as i64, "goals are filed by depth"); }
    } for g in &b.read().groups { let mut n = 0; for h in &b.read().groups { if enc(&g.term) == enc(&h.term) { n += 1; } } check(n == 1, "one group per term and depth"); } }
    for e in &gs.activeSet.set { check(is_op(&e.read().sentence.term), "only operations are in the active set"); }
}
fn adds(n: usize, terms: usize) {
    let gs = Arc::new(RwLock::new(G::makeGoalSystem(20, 3))); let m = mem2();
    let mut model: Vec<(Arc<Sentence>, Option<Arc<RwLock<Sentence>>>, i64, i64)> = vec![];
    for i in 0..n {
        let k = if i == 0 { pick("term", terms) } else { [pick("again", terms)][0] };
        let id: &[i64] = [&[1][..], &[2, 1]][pick("id", 2)]; let depth = [0, 2, 7][pick("depth", 3)];
        let s = goal(gterm(k), tv("desire"), id);
        let evi = if i == 0 { Some(Arc::new(RwLock::new(judg(st(Copula::PREDIMPL, seqt(vec![nm("a"), nm("b")]), nm("g")), tv("e"), &[9])))) } else { None };
        G::addEntry(&gs, &m, 10 + i as i64, Arc::clone(&s), evi.clone(), depth);
        if !model.iter().any(|(o, ..)| enc(&o.term) == enc(&s.term) && o.stamp.ids == s.stamp.ids) { model.push((s, evi, depth, 10 + i as i64)); } else { cover("again"); }
    }
    let g = gs.read(); let es = G::retEntries(&g);
    check(es.len() == model.len(), "each goal is kept exactly once, told again or not");
    for (s, evi, d, t) in &model {
        let mut hit = 0;
        for e in &es { let e = e.read(); if Arc::ptr_eq(&e.sentence, s) { hit += 1;
            check(e.depth == *d && e.createTime == *t && e.desirability == 1.0, "a new goal has its depth and time and is fully desired");
            check(match (&e.evidence, evi) { (Some(a), Some(b)) => Arc::ptr_eq(a, b), (None, None) => true, _ => false }, "a goal remembers the evidence it comes from"); } }
        check(hit == 1, "every distinct goal is kept");
        check(G::is_desired(&es[0].read()), "a new goal is desired");
    }
    wellformed(&g, 3);
    for k in 0..6 { let t = gterm(k); let r = G::query(&g, &t); let has = model.iter().any(|(s, ..)| enc(&s.term) == enc(&t)); check(r.is_some() == has, "a goal is found by its term"); if let Some(r) = r { check(enc(&r.read().sentence.term) == enc(&t), "the goal found has the term"); } }
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_goal_add3() { adds(3, 5); }
#[no_mangle]
pub extern "C" fn h_goal_add4() { adds(4, 3); }
/// limiting: the best goals by utility stay, unchanged
fn limit(n: usize, max: usize, mode: usize) {
    let gs = Arc::new(RwLock::new(G::makeGoalSystem(max as i64, 3))); let m = mem2();
    let now = 100;
    let mut es: Vec<(Arc<Sentence>, f64, f64, i64)> = vec![];
    for i in 0..n {
        let k = pick("term", 3);
        let v = Tv { f: 1.0, c: if mode == 0 { f("conf", 0.0, 0.99) } else { 0.9 } };
        let made = if mode == 1 { [0, 50, 100][pick("made", 3)] } else { 90 };
        G::addEntry(&gs, &m, made, goal(gterm(k), v, &[i as i64]), None, i as i64);
        es.push((goal(gterm(k), v, &[i as i64]), exp(&v), 1.0, made));
    }
    if mode == 2 { for e in G::retEntries(&gs.read()) { let d = f("desirability", -1.0, 1.0); e.write().desirability = d as f32; } }
    let before: Vec<(E, Arc<Sentence>, i64, f32, i64)> = G::retEntries(&gs.read()).iter().map(|e| { let x = e.read(); (Arc::clone(e), Arc::clone(&x.sentence), x.depth, x.desirability, x.createTime) }).collect();
    check(before.len() == n, "all goals are there");
    G::limitMemory(&gs, &m, now);
    let g = gs.read(); let after = G::retEntries(&g);
    check(after.len() == n.min(max), "exactly as many goals are kept as fit");
    let util = |i: usize| { let (_, s, _, d, t) = &before[i]; let v = S::retTv(s).unwrap(); exp(&v) * (*d as f64).abs() * (-0.01 * (now - *t) as f64).exp() };
    let mut kept = vec![];
    for (i, (e, s, d, des, t)) in before.iter().enumerate() {
        let c = after.iter().filter(|x| Arc::ptr_eq(x, e)).count(); check(c <= 1, "a goal is kept once"); if c == 1 { kept.push(i); }
        let x = e.read(); check(Arc::ptr_eq(&x.sentence, s) && x.depth == *d && x.createTime == *t, "limiting does not alter goals"); check(x.desirability == *des, "limiting does not alter desirability");
    }
    check(kept.len() == after.len(), "no goal is invented");
    for i in 0..n { if !kept.contains(&i) { for k in &kept { check(util(*k) >= util(i) - 1e-9, "the least useful goals are dropped"); } cover("dropped"); } }
    wellformed(&g, 3);
    for i in &kept { let t = &before[*i].1.term; check(G::query(&g, t).is_some(), "kept goals are still found"); }
    drop(g);
    // a dropped goal told again is kept again, a kept one is still known
    if kept.len() < n && mode != 0 { let d = (0..n).find(|i| !kept.contains(i)).unwrap(); let s = &before[d].1; G::addEntry(&gs, &m, now, goal((*s.term).clone(), Tv { f: 1.0, c: 0.9 }, &s.stamp.ids), None, 0); check(G::retEntries(&gs.read()).len() == after.len() + 1, "a dropped goal told again is kept again"); return; }
    if let Some(k) = kept.first() { let s = &before[*k].1; G::addEntry(&gs, &m, now, goal((*s.term).clone(), Tv { f: 1.0, c: 0.9 }, &s.stamp.ids), None, 0); check(G::retEntries(&gs.read()).len() == after.len(), "a kept goal told again is not added twice"); }
}
#[no_mangle]
pub extern "C" fn h_goal_limit_conf() { let n = 1 + pick("n", 3); limit(n, 1 + pick("max", 3), 0); }
#[no_mangle]
pub extern "C" fn h_goal_limit_age() { let n = 1 + pick("n", 3); limit(n, 1 + pick("max", 3), 1); }
#[no_mangle]
pub extern "C" fn h_goal_limit_des() { let n = 1 + pick("n", 3); limit(n, 1 + pick("max", 3), 2); }
/// an event satisfies exactly the goals with its term
#[no_mangle]
pub extern "C" fn h_goal_event() {
    let gs = Arc::new(RwLock::new(G::makeGoalSystem(20, 3))); let m = mem2();
    let n = 3; for i in 0..n { let k = pick("term", 3); let t = if k == 0 { Term::Name(letter("goal", 3)) } else { gterm(k) }; let gt = if k == 0 { // concrete names as hash keys
            let c = fix_letter(&t); nm(c) } else { t }; G::addEntry(&gs, &m, 0, goal(gt, Tv { f: 1.0, c: 0.9 }, &[i as i64]), None, [0, 1, 5][i]); }
    let en = pick("satisfaction", 2) == 1; gs.write().cfg__enGoalSatisfaction = en;
    let before: Vec<f32> = G::retEntries(&gs.read()).iter().map(|e| { let d = f("desirability", -1.0, 1.0) as f32; e.write().desirability = d; d }).collect();
    let ev = match pick("event", 3) { 0 => Term::Name(letter("event", 3)), k => gterm(k) };
    G::event_occurred(&mut gs.write(), &ev);
    for (i, e) in G::retEntries(&gs.read()).iter().enumerate() { let e = e.read(); let hit = en && same(&e.sentence.term, &ev);
        if hit { check(e.desirability == 0.0 && !G::is_desired(&e), "a goal that happened is no longer desired"); cover("satisfied"); } else { check(e.desirability == before[i], "other goals stay as desired as they were"); cover("other"); } }
}
fn fix_letter(t: &Term) -> &'static str { let b = enc(t)[2]; match fix((b - b'a') as usize, 3) { 0 => "a", 1 => "b", _ => "c" } }
fn many_term(i: usize) -> Term { match i % 4 { 0 => nm("g"), 1 => op(&format!("^o{}", i % 8), nm("p")), 2 => seqt(vec![nm(&format!("a{}", i)), nm("b"), op("^x", nm("p"))]), _ => nm(&format!("h{}", i)) } }
/// many goals, told twice, then an event, then the limit
#[no_mangle]
pub extern "C" fn h_goal_many() {
    let n = [6, 20, 40][pick("n", 3)]; let nd = [1, 5][pick("depths", 2)]; let max = [n / 2, n - 1, n, n + 5][pick("max", 4)];
    let gs = Arc::new(RwLock::new(G::makeGoalSystem(max as i64, nd))); let m = mem2();
    let sy = [0, 1, n - 1][pick("which", 3)];
    let ids = |i: usize| -> Vec<i64> { (0..1 + i as i64 % 12).map(|k| if k == 0 { i as i64 } else { 100 + k }).collect() };
    let v: Vec<Tv> = (0..n).map(|i| Tv { f: 1.0, c: if i == sy { if n > 6 { [0.0, 0.4, 0.99][pick("conf", 3)] } else { f("conf", 0.0, 0.99) } } else { 0.015 + 0.02 * ((i * 11) % 41) as f64 } }).collect();
    for r in 0..2 { for i in 0..n { G::addEntry(&gs, &m, 50, goal(many_term(i), v[i], &ids(i)), None, if r == 0 { i as i64 * 3 % 11 } else { 0 }); } }
    check(G::retEntries(&gs.read()).len() == n, "each goal is kept exactly once, told again or not");
    wellformed(&gs.read(), nd);
    for i in 0..n { check(G::query(&gs.read(), &many_term(i)).is_some(), "a goal is found by its term"); }
    let ev = many_term(pick("event", 5)); G::event_occurred(&mut gs.write(), &ev);
    let es = G::retEntries(&gs.read());
    let hit = es.iter().filter(|e| e.read().desirability == 0.0).count(); let want = (0..n).filter(|i| enc(&many_term(*i)) == enc(&ev)).count();
    check(hit == want, "an event satisfies exactly the goals with its term");
    for e in &es { let e = e.read(); check(e.desirability == if enc(&e.sentence.term) == enc(&ev) { 0.0 } else { 1.0 }, "an event satisfies exactly the goals with its term"); }
    G::limitMemory(&gs, &m, 60);
    let g = gs.read(); let after = G::retEntries(&g);
    check(after.len() == n.min(max), "exactly as many goals are kept as fit");
    wellformed(&g, nd);
    let util = |e: &E| { let e = e.read(); exp(&S::retTv(&e.sentence).unwrap()) * (e.desirability as f64).abs() };
    let mut low = 9.0; for e in &after { let u = util(e); if u < low { low = u; } }
    for e in &es { if !after.iter().any(|a| Arc::ptr_eq(a, e)) { check(util(e) <= low + 1e-9, "the least useful goals are dropped"); cover("dropped"); } }
    cover("end");
}
/// derivation of a goal from a goal and a belief
#[no_mangle]
pub extern "C" fn h_goal_inf() {
    let gt = match pick("goal", 2) { 0 => Term::Name(letter("g", 2)), _ => st(Copula::INH, Term::Name(letter("g", 2)), nm("b")) };
    let pr = match pick("pred", 2) { 0 => Term::Name(letter("p", 2)), _ => st(Copula::INH, Term::Name(letter("p", 2)), nm("b")) };
    let su = match pick("subj", 2) { 0 => seqt(vec![nm("a"), op("^x", nm("q"))]), _ => nm("a") };
    let cop = COPS[pick("cop", 5)];
    let (gv, bv) = (tv("goal"), if pick("cnt", 2) == 1 { Evidence::CNT { pos: int("pos", 0, 10) as i64, cnt: 10 } } else { Evidence::TV(tv("belief")) });
    let gi: Vec<i64> = (0..1 + pick("gids", 2)).map(|_| int("gid", 0, 3) as i64).collect(); let bi: Vec<i64> = (0..1 + pick("bids", 2)).map(|_| int("bid", 0, 3) as i64).collect();
    let g = sent(gt.clone(), P::GOAL, Some(gv), &gi); let mut b = sent(st(cop, su.clone(), pr.clone()), P::JUGEMENT, None, &bi); b.evi = Some(bv.clone());
    let r = I::infGoalBelief(&g, &b);
    let mut ov = false; for x in &gi { for y in &bi { ov = or(ov, x == y); } }
    let lic = cop == Copula::PREDIMPL && same(&gt, &pr) && !ov;
    check(r.is_some() == lic, "a goal is derived exactly when the belief predicts it and evidence is disjoint");
    if let Some(r) = r {
        cover("derived");
        check(same(&r.term, &su) && r.punct == P::GOAL && r.t.is_none(), "the derived goal is the condition of the prediction");
        let (bf, bc) = match bv { Evidence::CNT { pos, .. } => (pos as f64 / 10.0, 10.0 / 11.0), Evidence::TV(v) => (v.f, v.c) };
        let v = S::retTv(&r).unwrap();
        let (c1, c2) = (gv.c * bc * (gv.f * bf), gv.c * bc * ((1.0 - gv.f) * bf));
        check(or(and(and(near(v.f, gv.f * bf, 1e-9), near(v.c, c1, 1e-9)), c1 >= c2 - 1e-9), and(and(near(v.f, 1.0 - (1.0 - gv.f) * bf, 1e-9), near(v.c, c2, 1e-9)), c2 >= c1 - 1e-9)), "its desire is the goal deduction of both");
        for x in gi.iter().chain(bi.iter()) { let mut h = false; for y in &r.stamp.ids { h = or(h, x == y); } check(h, "it rests on the evidence of both"); }
        check(r.stamp.ids.len() == gi.len() + bi.len(), "and on nothing else");
    } else { cover("none"); }
}
/// goal detachment
#[no_mangle]
pub extern "C" fn h_goal_detach() {
    let k = pick("kind", 3); let v = tv("goal"); let id = int("id", 0, 9) as i64; let first = Term::Name(letter("f", 26));
    let t = match k { 0 => { let mut w = vec![first.clone()]; for _ in 0..pick("more", 3) { w.push(Term::Name(letter("m", 26))); } seqt(w) } 1 => first.clone(), _ => compound(1 + pick("comp", NCOMP - 1), vec![first.clone(), nm("b")]) };
    let r = I::infGoalDetach(&sent(t, P::GOAL, Some(v), &[id]));
    check(r.is_some() == (k == 0), "the first step is detached from sequences only");
    if let Some(r) = r { let x = S::retTv(&r).unwrap(); check(same(&r.term, &first) && r.punct == P::GOAL, "the detached goal is the first step"); check(and(x.f == v.f, x.c == v.c), "with the desire of the sequence"); check(r.stamp.ids.len() == 1 && r.stamp.ids[0] == id, "and its evidence"); cover("detached"); } else { cover("none"); }
}
/// the best goal for a state
fn pattern(k: usize) -> Term { match k { 0 => seqt(vec![nm("a"), op("^x", nm("p"))]), 1 => seqt(vec![nm("b"), op("^y", nm("p"))]), 2 => seqt(vec![st(Copula::INH, Term::IndepVar("v".into()), Term::SetInt(vecb(vec![nm("c")]))), op("^z", Term::IndepVar("v".into()))]), 3 => seqt(vec![nm("a"), nm("b"), op("^x", nm("p"))]), 4 => nm("a"), _ => op("^x", nm("p")) } }
fn state(k: usize) -> Term { match k { 0 => nm("a"), 1 => nm("b"), 2 => st(Copula::INH, nm("s"), Term::SetInt(vecb(vec![nm("c")]))), 3 => seqt(vec![nm("a"), nm("b")]), _ => nm("z") } }
/// reference: does the goal apply in the state, and as what
fn applies(p: usize, s: usize) -> Option<Term> { match (p, s) { (0, 0) | (1, 1) | (3, 3) => Some(pattern(p)), (2, 2) => Some(seqt(vec![state(2), op("^z", nm("s"))])), _ => None } }
fn select(n: usize, npat: usize) {
    let gs = Arc::new(RwLock::new(G::makeGoalSystem(20, 3))); let m = mem2();
    let mut model = vec![];
    for i in 0..n { let p = pick("goal", npat); let v = Tv { f: f("f", 0.0, 1.0), c: 0.9 }; G::addEntry(&gs, &m, 0, goal(pattern(p), v, &[i as i64]), None, pick("depth", 2) as i64); model.push((p, v, i as i64)); }
    let s = pick("state", 5);
    let (e, r) = G::selHighestExpGoalByState(&gs.read(), &state(s));
    let cands: Vec<&(usize, Tv, i64)> = model.iter().filter(|(p, ..)| applies(*p, s).is_some()).collect();
    match r {
        None => { for c in &cands { check(exp(&c.1) <= 1e-9, "an applicable goal is found"); } cover("none"); }
        Some((en, t)) => {
            let en = en.read(); let w = model.iter().find(|x| x.2 == en.sentence.stamp.ids[0]).unwrap();
            let a = applies(w.0, s); check(a.is_some(), "the goal selected applies in the state");
            check(same(&t, &a.unwrap()), "it is made concrete by the state");
            check(near(e, exp(&w.1), 1e-9), "its expectation is reported");
            for c in &cands { check(exp(&c.1) <= e + 1e-9, "no applicable goal is more expected"); }
            cover("some");
        }
    }
}
/// many goals for a state, long sequences, satisfied goals among them
#[no_mangle]
pub extern "C" fn h_goal_select_many() {
    let gs = Arc::new(RwLock::new(G::makeGoalSystem(200, 6))); let m = mem2();
    let n = [1, 5, 18][pick("n", 3)]; let len = 1 + pick("length", 5); let sy = [0, n / 2, n - 1][pick("which", 3)];
    let mk = |i: usize, last: &str| -> Vec<Term> { (0..len).map(|k| if k == 0 && i % 2 == 1 { Term::IndepVar("v".into()) } else if k + 1 == len { nm(last) } else { nm(&format!("s{}", k)) }).collect() };
    let one = |v: Vec<Term>| if v.len() == 1 { v[0].clone() } else { seqt(v) };
    let des = [1.0f32, 0.0, -1.0][pick("desirability", 3)];
    let mut v: Vec<Tv> = vec![];
    for i in 0..n {
        let t = Tv { f: if i == sy { f("f", 0.0, 1.0) } else { 0.05 * ((i * 7) % 19) as f64 + 0.02 }, c: 0.9 };
        let mut w = mk(i, if i % 5 == 4 { "other" } else { "z" }); let o = if i % 2 == 1 { Term::IndepVar("v".into()) } else { nm("p") }; w.push(op(&format!("^o{}", i), o));
        G::addEntry(&gs, &m, 0, goal(seqt(w), t, &[i as i64]), None, i as i64 % 9); v.push(t);
    }
    for e in G::retEntries(&gs.read()) { e.write().desirability = des; }
    let (e, r) = G::selHighestExpGoalByState(&gs.read(), &one(mk(0, "z")));
    let ok: Vec<usize> = (0..n).filter(|i| i % 5 != 4 || (len == 1 && i % 2 == 1)).collect();
    check(r.is_some(), "an applicable goal is found");
    let (en, t) = r.unwrap(); let id = en.read().sentence.stamp.ids[0] as usize;
    check(ok.contains(&id), "the goal selected applies in the state");
    check(near(e, exp(&v[id]), 1e-9), "its expectation is reported");
    for i in &ok { check(exp(&v[*i]) <= e + 1e-9, "no applicable goal is more expected"); }
    let mut w = mk(0, "z"); w.push(op(&format!("^o{}", id), if id % 2 == 1 { w[0].clone() } else { nm("p") }));
    check(same(&t, &seqt(w)), "it is made concrete by the state");
    cover("end");
}
/// one round of goal derivation over many predictions
#[no_mangle]
pub extern "C" fn h_goal_derive_many() {
    let gs = Arc::new(RwLock::new(G::makeGoalSystem(200, 8))); let m = mem2(); 
    let mut mem = M::make(); let n = [2, 5, 9, 25][pick("n", 4)]; let rounds = if n == 5 { pick("rounds", 2) as i64 } else { 0 }; gs.write().cfg__subworkingCycle_rounds = rounds; let d = [0, 3, 9][pick("depth", 3)];
    let gt = [nm("g"), deepen(nm("g"), 6)][pick("goal", 2)].clone();
    let c = f("desire", 0.1, 0.99);
    let cond = |k: usize| seqt((0..1 + k % 4).map(|i| nm(&format!("a{}", i))).chain([op(&format!("^x{}", k), nm("p"))]).collect());
    for k in 0..n { let mut s = sent(st(Copula::PREDIMPL, cond(k), gt.clone()), P::JUGEMENT, None, &[k as i64, 500 + k as i64]); s.evi = Some(Evidence::CNT { pos: 9, cnt: 10 }); M::storeInConcepts2(&mut mem, &s, &vec![nm("a0"), gt.clone()], 200, 0); }
    G::addEntry(&gs, &m, 0, goal(gt.clone(), Tv { f: 1.0, c }, &[100, 3]), None, d);
    let mut rng = rand::thread_rng();
    G::sampleAndInference(&gs, &m, 5, &mem, &mut rng);
    if !(rand::rngs::sym::drawn(0) > 1e-9) { return; }
    let g = gs.read(); let es = G::retEntries(&g);
    for k in 0..n {
        let e: Vec<&E> = es.iter().filter(|e| enc(&e.read().sentence.term) == enc(&cond(k))).collect();
        if k == 3 { check(e.is_empty(), "no subgoal from shared evidence"); cover("shared"); continue; }
        check(e.len() == 1, "every prediction of the sampled goal yields a subgoal");
        let e = e[0].read();
        check(e.depth == d + 1 && e.createTime == 5 && e.sentence.punct == P::GOAL, "one level deeper");
        let mut ids = e.sentence.stamp.ids.clone(); ids.sort(); let mut w = vec![100, 3, k as i64, 500 + k as i64]; w.sort(); check(ids == w, "it rests on the evidence of both");
        check(ded_goal_ok(&S::retTv(&e.sentence).unwrap(), &Tv { f: 1.0, c }, 0.9, 10.0 / 11.0), "a derived goal has the desire of goal deduction");
        check(e.evidence.as_ref().map_or(false, |x| enc(&x.read().term) == enc(&st(Copula::PREDIMPL, cond(k), gt.clone()))), "a derived goal remembers the prediction it rests on");
    }
    check(es.len() <= n + 1 + 2, "nothing unlicensed"); wellformed(&g, 8);
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_goal_select2() { select(2, 6); }
#[no_mangle]
pub extern "C" fn h_goal_select3() { select(3, 4); }
/// sampling: one of the stored goals, each depth with goals gets an equal share of the drawn values
#[no_mangle]
pub extern "C" fn h_goal_sample() {
    let gs = Arc::new(RwLock::new(G::makeGoalSystem(20, 4))); let m = mem2();
    let n = pick("n", 4); let mut depths: Vec<i64> = vec![]; let mut all = vec![];
    for i in 0..n { let d = pick("depth", 4) as i64; let s = goal([nm("g"), nm("h"), gterm(1)][pick("term", 3)].clone(), Tv { f: 1.0, c: 0.9 }, &[i as i64]); all.push((Arc::clone(&s), d)); G::addEntry(&gs, &m, 0, s, None, d); if !depths.contains(&d) { depths.push(d); } }
    depths.sort();
    let mut rng = rand::thread_rng();
    let r = G::sample(&gs.read(), &mut rng);
    let x = rand::rngs::sym::drawn(0);
    match r {
        None => { check(or(n == 0, x <= 1e-9), "a goal is sampled when there is one"); cover("none"); }
        Some((s, d)) => {
            check(all.iter().any(|(x, e)| Arc::ptr_eq(x, &s) && *e == d), "the sampled goal is a stored one, with its depth");
            let j = depths.iter().position(|y| *y == d).unwrap() as f64; let k = depths.len() as f64;
            check(or(and(x * k > j - 1e-9, x * k <= j + 1.0 + 1e-9), x <= 1e-9), "every depth with goals gets an equal share of the draws"); cover("some");
        }
    }
}
fn belief(k: usize) -> (Term, Term) { match k { 0 => (seqt(vec![nm("a"), op("^x", nm("p"))]), nm("g")), 1 => (seqt(vec![nm("b"), op("^y", nm("p"))]), nm("g")), 2 => (seqt(vec![nm("c"), op("^z", nm("p"))]), nm("a")), _ => (seqt(vec![nm("a"), op("^x", nm("p"))]), nm("h")) } }
fn ded_goal_ok(v: &Tv, g: &Tv, bf: f64, bc: f64) -> bool {
    let (c1, c2) = (g.c * bc * (g.f * bf), g.c * bc * ((1.0 - g.f) * bf));
    or(and(and(near(v.f, g.f * bf, 1e-9), near(v.c, c1, 1e-9)), c1 >= c2 - 1e-9), and(and(near(v.f, 1.0 - (1.0 - g.f) * bf, 1e-9), near(v.c, c2, 1e-9)), c2 >= c1 - 1e-9))
}
/// one round of goal derivation over a memory of predictions, for every random choice
fn derive(rounds: i64, goals: usize, nb: usize) {
    let gs = Arc::new(RwLock::new(G::makeGoalSystem(20, 8))); let m = mem2(); gs.write().cfg__subworkingCycle_rounds = rounds;
    let mut mem = M::make(); let mut bs: Vec<(usize, Vec<i64>, f64)> = vec![];
    for k in 0..nb { if pick("has", 2) == 1 {
        let (su, pr) = belief(k); let ids = if k == 0 && pick("overlap", 2) == 1 { vec![100] } else { vec![k as i64] };
        let pos = 10 - k as i64; let mut s = sent(st(Copula::PREDIMPL, su.clone(), pr.clone()), P::JUGEMENT, None, &ids); s.evi = Some(Evidence::CNT { pos, cnt: 10 });
        M::storeInConcepts2(&mut mem, &s, &vec![match &su { Term::Seq(v) => (*v[0]).clone(), _ => su.clone() }, pr], 20, 0);
        bs.push((k, ids, pos as f64 / 10.0));
    } }
    let gt = match pick("goal", goals) { 0 => nm("g"), 1 => nm("h"), _ => belief(0).0 };
    let gv = Tv { f: 1.0, c: f("desire", 0.1, 0.99) };
    G::addEntry(&gs, &m, 0, goal(gt.clone(), gv, &[100]), None, 1);
    let mut rng = rand::thread_rng();
    G::sampleAndInference(&gs, &m, 5, &mem, &mut rng);
    let g = gs.read(); let es = G::retEntries(&g);
    // everything present is told or licensed
    let view: Vec<(Vec<u8>, Arc<Sentence>, i64, Option<Arc<RwLock<Sentence>>>)> = es.iter().map(|e| { let e = e.read(); (enc(&e.sentence.term), Arc::clone(&e.sentence), e.depth, e.evidence.clone()) }).collect();
    check(view.iter().filter(|v| v.1.stamp.ids == vec![100] && v.0 == enc(&gt)).count() == 1, "the goal stays");
    let licensed = |p: &(Vec<u8>, Arc<Sentence>, i64, Option<Arc<RwLock<Sentence>>>)| -> Vec<(Vec<u8>, Vec<i64>, Option<usize>, f64)> {
        if let Term::Seq(v) = &*p.1.term { return vec![(enc(&v[0]), p.1.stamp.ids.clone(), None, 0.0)]; }
        bs.iter().filter(|(k, ids, _)| enc(&belief(*k).1) == p.0 && !ids.iter().any(|i| p.1.stamp.ids.contains(i))).map(|(k, ids, fr)| { let mut all = p.1.stamp.ids.clone(); all.extend(ids); all.sort(); (enc(&belief(*k).0), all, Some(*k), *fr) }).collect()
    };
    for v in &view {
        if v.0 == enc(&gt) && v.1.stamp.ids == vec![100] { continue; }
        let mut sorted = v.1.stamp.ids.clone(); sorted.sort();
        let mut ok = false;
        for p in &view { for (t, ids, k, fr) in licensed(p) { let mut ids2 = ids.clone(); ids2.sort(); if t == v.0 && ids2 == sorted && v.2 == p.2 + 1 {
            ok = true;
            let (x, pv) = (S::retTv(&v.1).unwrap(), S::retTv(&p.1).unwrap());
            if k.is_some() { check(ded_goal_ok(&x, &pv, fr, 10.0 / 11.0), "a derived goal has the desire of goal deduction"); check(match &v.3 { Some(e) => enc(&e.read().term) == enc(&st(Copula::PREDIMPL, belief(k.unwrap()).0, belief(k.unwrap()).1)), None => false }, "a derived goal remembers the prediction it rests on"); cover("deduced"); }
            else { check(and(x.f == pv.f, x.c == pv.c), "a detached goal has the desire of the sequence"); cover("detached"); }
        } } }
        check(ok, "every derived goal is licensed, one level deeper");
        check(v.1.punct == P::GOAL, "derived goals are goals");
    }
    // every prediction of the sampled goal is used (a draw of exactly 0 may sample nothing)
    if rand::rngs::sym::drawn(0) > 1e-9 { let p = view.iter().find(|v| v.0 == enc(&gt) && v.1.stamp.ids == vec![100]).unwrap().clone();
        for (t, ids, _, _) in licensed(&p) { let mut ids2 = ids; ids2.sort(); check(view.iter().any(|v| { let mut s = v.1.stamp.ids.clone(); s.sort(); v.0 == t && s == ids2 }), "every prediction of the sampled goal yields a subgoal"); } }
    wellformed(&g, 8); cover("end");
}
#[no_mangle]
pub extern "C" fn h_goal_derive0() { derive(0, 3, 4); }
#[no_mangle]
pub extern "C" fn h_goal_derive2() { derive(2, 3, 4); }
#[no_mangle]
pub extern "C" fn h_goal_derive3() { derive(3, 1, 3); }
