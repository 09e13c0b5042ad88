//! Inference rules of the declarative reasoner
use crate::api::*;
use crate::g::*;
use nar20_1::{NarSentence as S, NarUnify as U, NarWorkingCycle as W, Tv as V};
/// conclusion expected by the reference rules; `set`: the predicate is an intensional set compared as a set
struct C { t: Term, tv: Tv, set: bool }
fn setpred(t: &Term) -> Option<(&Term, &Vec<Box<Term>>)> { if let Term::Stmt(Copula::INH, s, p) = t { if let Term::SetInt(v) = &**p { return Some((s, v)); } } None }
fn subset(a: &[Box<Term>], b: &[Box<Term>]) -> bool { let mut r = true; for x in a { let mut f = false; for y in b { f = or(f, same(x, y)); } r = and(r, f); } r }
fn matches(e: &C, t: &Term, tv: &Tv) -> bool {
    let te = if e.set { match (setpred(&e.t), setpred(t)) { (Some((s, v)), Some((s2, v2))) => and(same(s, s2), and(subset(v, v2), subset(v2, v))), _ => false } } else { same(&e.t, t) };
    and(te, and(near(e.tv.f, tv.f, 1.0e-9), near(e.tv.c, tv.c, 1.0e-9)))
}
fn same_conclusions(want: &[C], got: &[(Term, Tv, P)]) {
    for g in got { check(g.2 == P::JUGEMENT, "conclusions are judgements"); let mut f = false; for w in want { f = or(f, matches(w, &g.0, &g.1)); } check(f, "every conclusion is licensed by a rule, with its truth value"); }
    for w in want { let mut f = false; for g in got { f = or(f, matches(w, &g.0, &g.1)); } check(f, "every applicable rule yields its conclusion"); }
    obs(got.len() as u64);
}
// ---------------------------------------------------------------- two premises
/// reference: rules with a as the first and b as the second premise
fn dir(a: &Term, pa: P, ta: Option<Tv>, b: &Term, pb: P, tb: Option<Tv>, o: &mut Vec<C>) {
    let mut add = |t: Term, tv: Tv| o.push(C { t, tv, set: false });
    if pa == P::QUESTION && pb == P::JUGEMENT {
        if let Term::Stmt(Copula::IMPL, _, x) = a { if let Some(u) = U::unify(x, b) { add(U::unifySubst(a, &u), tb.unwrap()); } }
        return;
    }
    if pa != P::JUGEMENT || pb != P::JUGEMENT { return; }
    let (ta, tb) = (ta.unwrap(), tb.unwrap());
    let (ca, sa, qa) = match a { Term::Stmt(c, s, p) => (*c, &**s, &**p), _ => return };
    // detachment
    if ca == Copula::IMPL {
        if let Some(u) = U::unify(sa, b) { add(U::unifySubst(qa, &u), V::ded(&ta, &tb)); }
        if let Term::Conj(v) = sa {
            for i in 0..v.len().min(4) { if let Some(u) = U::unify(&v[i], b) {
                let rest: Vec<Term> = (0..v.len()).filter(|j| *j != i).map(|j| U::unifySubst(&v[j], &u)).collect();
                let q = U::unifySubst(qa, &u);
                let s = if rest.len() == 1 { rest.into_iter().next().unwrap() } else { Term::Conj(vecb(rest)) };
                add(st(Copula::IMPL, s, q), V::ded(&ta, &tb));
            } }
        }
    }
    let (cb, sb, qb) = match b { Term::Stmt(c, s, p) => (*c, &**s, &**p), _ => return };
    let attr = |c: Copula| c == Copula::INH || c == Copula::SIM;
    // transitivity
    if ca == cb && (ca == Copula::INH || ca == Copula::IMPL || ca == Copula::PREDIMPL) && same(qa, sb) && !same(sa, qb) { add(st(ca, sa.clone(), qb.clone()), V::ded(&ta, &tb)); }
    if attr(ca) && attr(cb) && same(sa, sb) && !same(qa, qb) {
        add(st(Copula::SIM, qa.clone(), qb.clone()), V::comp(&ta, &tb));
        if ca == Copula::INH && cb == Copula::INH {
            add(st(Copula::INH, qa.clone(), qb.clone()), V::ind(&ta, &tb));
            add(st(Copula::INH, sa.clone(), Term::ExtInt(vecb(vec![qa.clone(), qb.clone()]))), V::int(&ta, &tb));
        }
    }
    if attr(ca) && attr(cb) && same(qa, qb) && !same(sa, sb) {
        add(st(Copula::SIM, sa.clone(), sb.clone()), V::comp(&ta, &tb));
        if ca == Copula::INH && cb == Copula::INH { add(st(Copula::INH, sa.clone(), sb.clone()), V::abd(&ta, &tb)); }
    }
    if let (Some((x, v)), Some((y, w))) = (setpred(a), setpred(b)) { if same(x, y) {
        let mut u = v.clone(); u.extend(w.iter().cloned());
        o.push(C { t: st(Copula::INH, x.clone(), Term::SetInt(u)), tv: V::int(&ta, &tb), set: true });
    } }
}
fn pair(a: Term, pa: P, b: Term, pb: P) {
    let ta = if pa == P::QUESTION { None } else { Some(tv("a")) };
    let tb = if pb == P::QUESTION { None } else { Some(tv("b")) };
    let (sa, sb) = (sent(a, pa, ta, &[1, 2]), sent(b, pb, tb, &[3]));
    let mut want = vec![];
    dir(&sa.term, pa, ta, &sb.term, pb, tb, &mut want);
    dir(&sb.term, pb, tb, &sa.term, pa, ta, &mut want);
    let mut fl = pick("flag", 2) == 1;
    let got: Vec<(Term, Tv, P)> = W::inference(&sa, &sb, &mut fl).into_iter().map(|(s, _)| ((*s.term).clone(), S::retTv(&s).unwrap(), s.punct)).collect();
    same_conclusions(&want, &got);
    check(fl == !want.is_empty(), "it is reported whether a rule applied");
    cover(if want.is_empty() { "none" } else { "some" });
}
/// two statements over names, every pair of copulas, every coincidence of names
#[no_mangle]
pub extern "C" fn h_rules_stmt() {
    let l = |n: &str| Term::Name(letter(n, 4));
    let a = st(COPS[pick("ca", 5)], l("as"), l("ap")); let b = st(COPS[pick("cb", 5)], l("bs"), l("bp"));
    pair(a, P::JUGEMENT, b, P::JUGEMENT);
}
/// the shared term is compound
#[no_mangle]
pub extern "C" fn h_rules_compound() {
    let x = any("x", 1, 1, 1, 2); let y = any("y", 1, 1, 1, 2);
    let l = |n: &str| Term::Name(letter(n, 2));
    let c = [Copula::INH, Copula::IMPL][pick("c", 2)];
    match pick("figure", 3) { 0 => pair(st(c, l("s"), x), P::JUGEMENT, st(c, y, l("p")), P::JUGEMENT), 1 => pair(st(c, l("s"), x), P::JUGEMENT, st(c, l("p"), y), P::JUGEMENT), _ => pair(st(c, x, l("s")), P::JUGEMENT, st(c, y, l("p")), P::JUGEMENT) }
}
/// intensional sets
#[no_mangle]
pub extern "C" fn h_rules_sets() {
    let l = |n: &str| Term::Name(letter(n, 3));
    let mk = |n: &str| { let v: Vec<Term> = (0..1 + pick("len", 2)).map(|_| l(n)).collect(); st(COPS[pick("c", 2)], l("s"), if pick("set", 2) == 0 { Term::SetInt(vecb(v)) } else { Term::SetExt(vecb(v)) }) };
    let (a, b) = (mk("a"), mk("b"));
    pair(a, P::JUGEMENT, b, P::JUGEMENT);
}
/// detachment from implications with conditions, variables and conjunctions
fn cond(n: &str, k: u64) -> Term { let s = leaf(n, pick("lk", 2), k); if pick("stmt", 2) == 0 { st(Copula::INH, s, leaf(n, 0, k)) } else { s } }
#[no_mangle]
pub extern "C" fn h_rules_detach() {
    let a = st(COPS[2 + pick("cop", 3)], cond("c", 2), cond("x", 2));
    let b = match pick("b", 3) { 0 => Term::Name(letter("b", 2)), 1 => st(Copula::INH, leaf("b", 0, 2), leaf("b", 0, 2)), _ => st(Copula::SIM, leaf("b", 0, 2), leaf("b", 1, 2)) };
    if pick("order", 2) == 0 { pair(a, P::JUGEMENT, b, P::JUGEMENT) } else { pair(b, P::JUGEMENT, a, P::JUGEMENT) }
}
#[no_mangle]
pub extern "C" fn h_rules_conj() {
    let n = 2 + pick("n", 4);
    let c: Vec<Term> = (0..n).map(|_| st(Copula::INH, leaf("c", 1, 2), leaf("c", 0, 2))).collect();
    let a = st(Copula::IMPL, Term::Conj(vecb(c)), leaf("x", 1, 2));
    let b = st(Copula::INH, leaf("b", 0, 1), leaf("b", 0, 2));
    if pick("order", 2) == 0 { pair(a, P::JUGEMENT, b, P::JUGEMENT) } else { pair(b, P::JUGEMENT, a, P::JUGEMENT) }
}
/// punctuation: questions and goals
#[no_mangle]
pub extern "C" fn h_rules_punct() {
    const PS: [P; 3] = [P::JUGEMENT, P::QUESTION, P::GOAL];
    let l = |n: &str| Term::Name(letter(n, 2));
    let (pa, pb) = (PS[pick("pa", 3)], PS[pick("pb", 3)]);
    let a = match pick("a", 4) { 0 => st(COPS[pick("c", 5)], l("a"), l("a")), 1 => st(Copula::IMPL, l("a"), st(Copula::INH, leaf("a", 1 + pick("k", 3), 1), l("a"))), 2 => st(Copula::INH, l("a"), Term::SetInt(vec![bx(l("a"))])), _ => st(Copula::IMPL, Term::Conj(vec![bx(l("a")), bx(l("a"))]), l("a")) };
    let b = match pick("b", 2) { 0 => st(Copula::INH, l("b"), l("b")), _ => l("b") };
    pair(a, pa, b, pb);
}
/// large sets, long conjunctions and deep shared terms
#[no_mangle]
pub extern "C" fn h_rules_wide() {
    let l = |n: &str| Term::Name(letter(n, 2));
    let j = P::JUGEMENT;
    match pick("rule", 4) {
        0 => { let (mut v, mut w) = (names(6), names(9)); v[5] = l("a"); w[8] = l("b"); w.drain(..pick("disjoint", 3)); pair(st(Copula::INH, nm("s"), Term::SetInt(vecb(v))), j, st(Copula::INH, l("t"), Term::SetInt(vecb(w))), j) }
        1 => { let mut v = names(9); let k = pick("condition", 9); v[k] = l("a"); pair(st(Copula::IMPL, Term::Conj(vecb(v)), nm("z")), j, if pick("b", 2) == 0 { l("b") } else { nm("x1") }, j) }
        2 => { let n = 3 + pick("levels", 6); let c = [Copula::INH, Copula::IMPL, Copula::PREDIMPL][pick("c", 3)]; let (x, y) = (deepen(l("a"), n), deepen(l("b"), n)); match pick("figure", 3) { 0 => pair(st(c, nm("s"), x), j, st(c, y, nm("p")), j), 1 => pair(st(c, nm("s"), x), j, st(c, nm("p"), y), j), _ => pair(st(c, x, nm("s")), j, st(c, y, nm("p")), j) } }
        _ => { let v = || Term::IndepVar("v".into()); let k = pick("levels", 5); pair(st(Copula::IMPL, st(Copula::INH, v(), l("a")), deepen(st(Copula::INH, v(), nm("c")), k)), j, st(Copula::INH, deepen(nm("d"), k), l("b")), j) }
    }
}
/// structural rules for wide and deep terms
#[no_mangle]
pub extern "C" fn h_rules_unary_wide() {
    let (k, n) = (pick("kind", NCOMP + 1), [3, 5, 9][pick("width", 3)]);
    let mut v = names(n); v[n - 1] = deepen(Term::Name(letter("a", 2)), pick("levels", 4));
    let t = wide(k, v);
    unary(if pick("side", 2) == 0 { st(COPS[pick("c", 5)], t, nm("p")) } else { st(COPS[pick("c", 5)], nm("s"), t) }, P::JUGEMENT);
}
// ---------------------------------------------------------------- one premise
fn single(t: &Term, v: Tv, o: &mut Vec<C>, opt: &mut Vec<C>) {
    let mut add = |t: Term, tv: Tv| o.push(C { t, tv, set: false });
    match t {
        Term::Neg(x) => add((**x).clone(), Tv { f: 1.0 - v.f, c: v.c }),
        Term::Stmt(Copula::INH, s, p) => {
            if let Term::IntInt(a) = &**s { for (i, x) in a.iter().enumerate() { let c = st(Copula::INH, (**x).clone(), (**p).clone()); if i < 3 { add(c, v) } else { opt.push(C { t: c, tv: v, set: false }) } } }
            if let Term::IntInt(a) = &**p { for (i, x) in a.iter().enumerate() { let c = st(Copula::INH, (**s).clone(), (**x).clone()); if i < 3 { add(c, v) } else { opt.push(C { t: c, tv: v, set: false }) } } }
            if let Term::Prod(a) = &**s { if a.len() == 2 {
                add(st(Copula::INH, (*a[0]).clone(), Term::Img(p.clone(), 0, vec![a[1].clone()])), v);
                add(st(Copula::INH, (*a[1]).clone(), Term::Img(p.clone(), 1, vec![a[0].clone()])), v);
            } }
            if let Term::Img(r, i, a) = &**p { if a.len() == 1 {
                if *i == 0 { add(st(Copula::INH, Term::Prod(vec![s.clone(), a[0].clone()]), (**r).clone()), v) }
                else if *i == 1 { add(st(Copula::INH, Term::Prod(vec![a[0].clone(), s.clone()]), (**r).clone()), v) }
            } }
        }
        Term::Stmt(Copula::SIM, s, p) => match (&**s, &**p) {
            (Term::SetInt(a), Term::SetInt(b)) | (Term::SetExt(a), Term::SetExt(b)) if a.len() == 1 && b.len() == 1 => add(st(Copula::SIM, (*a[0]).clone(), (*b[0]).clone()), v),
            _ => {}
        },
        Term::Stmt(Copula::PREDIMPL, s, p) => if let Term::Par(a) = &**p { for x in a { add(st(Copula::PREDIMPL, (**s).clone(), (**x).clone()), v) } },
        _ => {}
    }
}
fn unary(t: Term, p: P) {
    let v = if p == P::QUESTION { None } else { Some(tv("t")) };
    let s = sent(t, p, v, &[7, 9]);
    let (mut want, mut opt) = (vec![], vec![]);
    if p == P::JUGEMENT { single(&s.term, v.unwrap(), &mut want, &mut opt); }
    let r = W::infSinglePremise2(&s);
    for (c, k) in &r {
        check(c.punct == P::JUGEMENT, "conclusions are judgements");
        let ctv = S::retTv(c).unwrap();
        let mut f = false; for w in want.iter().chain(opt.iter()) { f = or(f, matches(w, &c.term, &ctv)); }
        check(f, "every conclusion is licensed by a structural rule, with its truth value");
        check(and(*k > 0.0, *k <= 1.0), "attention factor lies in (0,1]");
        check(c.stamp.ids == s.stamp.ids, "the conclusion rests on the evidence of its premise");
    }
    for w in &want { let mut f = false; for (c, _) in &r { let ctv = S::retTv(c).unwrap(); f = or(f, matches(w, &c.term, &ctv)); } check(f, "every applicable structural rule yields its conclusion"); }
    obs(r.len() as u64);
    cover(if want.is_empty() { "none" } else { "some" });
}
/// subject and predicate are arbitrary flat terms, every copula
#[no_mangle]
pub extern "C" fn h_rules_unary() {
    let c = COPS[pick("c", 5)];
    let (s, p) = if pick("side", 2) == 0 { (any("s", 1, 4, 1, 2), any("p", 0, 1, 1, 2)) } else { (any("s", 0, 1, 1, 2), any("p", 1, 4, 1, 2)) };
    unary(st(c, s, p), P::JUGEMENT);
}
#[no_mangle]
pub extern "C" fn h_rules_unary2() { let c = COPS[pick("c", 2)]; let (s, p) = (any("s", 1, 2, 1, 2), any("p", 1, 2, 1, 2)); unary(st(c, s, p), P::JUGEMENT); }
#[no_mangle]
pub extern "C" fn h_rules_unary_other() { unary(any("t", 1, 2, 2, 2), P::JUGEMENT); }
#[no_mangle]
pub extern "C" fn h_rules_unary_neg() { unary(Term::Neg(bx(any("t", 1, 2, 1, 2))), P::JUGEMENT); }
/// goals are not subject to the structural rules; neither are questions
#[no_mangle]
pub extern "C" fn h_rules_unary_punct() {
    let q = pick("punct", 2) == 1;
    let t = if pick("neg", 2) == 1 { Term::Neg(bx(any("t", 1, 1, 1, 2))) } else { let c = COPS[pick("c", 5)]; let (s, p) = if pick("side", 2) == 0 { (any("s", 1, 2, 1, 2), any("p", 0, 1, 1, 2)) } else { (any("s", 0, 1, 1, 2), any("p", 1, 2, 1, 2)) }; st(c, s, p) };
    unary(t, if q { P::QUESTION } else { P::GOAL });
}
