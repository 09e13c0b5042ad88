//! Generators and reference models shared by the harnesses
use crate::api::*;
pub use nar20_1::Term::{Copula, Term};
pub use nar20_1::NarStamp::Stamp;
pub use nar20_1::NarSentence::{EnumPunctation as P, Evidence, Sentence, Usage};
pub use nar20_1::Tv::Tv;
pub use parking_lot::RwLock;
pub use std::sync::Arc;
pub const COPS: [Copula; 5] = [Copula::INH, Copula::SIM, Copula::IMPL, Copula::EQUIV, Copula::PREDIMPL];
pub fn bx(t: Term) -> Box<Term> { Box::new(t) }
/// one symbolic letter out of the first k
pub fn letter(n: &str, k: u64) -> String { let c = b'a' + int(n, 0, k - 1) as u8; unsafe { String::from_utf8_unchecked(vec![c]) } }
pub fn nm(s: &str) -> Term { Term::Name(s.to_string()) }
pub fn st(c: Copula, a: Term, b: Term) -> Term { Term::Stmt(c, bx(a), bx(b)) }
pub fn vecb(v: Vec<Term>) -> Vec<Box<Term>> { v.into_iter().map(Box::new).collect() }
/// leaf: name or variable with a symbolic one-letter name
pub fn leaf(n: &str, kind: usize, k: u64) -> Term {
    match kind { 0 => Term::Name(letter(n, k)), 1 => Term::IndepVar(letter(n, k)), 2 => Term::DepVar(letter(n, k)), _ => Term::QVar(letter(n, k)) }
}
/// compound number 0..9 over the given components
pub fn compound(k: usize, v: Vec<Term>) -> Term {
    let v = vecb(v);
    match k { 0 => Term::Seq(v), 1 => Term::SetInt(v), 2 => Term::SetExt(v), 3 => Term::Conj(v), 4 => Term::Prod(v), 5 => Term::IntInt(v), 6 => Term::ExtInt(v), _ => Term::Par(v) }
}
pub const NCOMP: usize = 8;
/// any term of bounded depth: leaves have symbolic letters; `kinds` leaf kinds; compounds of 1..=ar components
pub fn any(n: &str, depth: usize, ar: usize, kinds: usize, k: u64) -> Term {
    let tops = if depth == 0 { 1 } else { 1 + 5 + NCOMP + 2 };
    let t = pick("kind", tops);
    if t == 0 { let lk = if kinds > 1 { pick("leafkind", kinds) } else { 0 }; return leaf(n, lk, k); }
    let t = t - 1;
    if t < 5 { return st(COPS[t], any(n, depth - 1, ar, kinds, k), any(n, depth - 1, ar, kinds, k)); }
    let t = t - 5;
    if t < NCOMP { let a = 1 + pick("arity", ar); return compound(t, (0..a).map(|_| any(n, depth - 1, ar, kinds, k)).collect()); }
    if t == NCOMP { return Term::Neg(bx(any(n, depth - 1, ar, kinds, k))); }
    let a = 1 + pick("arity", ar);
    Term::Img(bx(any(n, depth - 1, ar, kinds, k)), int("imgidx", 0, 2) as usize, vecb((0..a).map(|_| any(n, depth - 1, ar, kinds, k)).collect()))
}
/// injective flat encoding of a term (independent of the code under test)
pub fn enc_into(t: &Term, o: &mut Vec<u8>) {
    fn seq(tag: u8, v: &[Box<Term>], o: &mut Vec<u8>) { o.push(tag); o.push(v.len() as u8); for x in v { enc_into(x, o); } }
    fn s(tag: u8, x: &str, o: &mut Vec<u8>) { o.push(tag); o.push(x.len() as u8); o.extend_from_slice(x.as_bytes()); }
    match t {
        Term::Stmt(c, a, b) => { o.push(1); o.push(match c { Copula::SIM => 1, Copula::INH => 2, Copula::PREDIMPL => 3, Copula::IMPL => 4, Copula::EQUIV => 5 }); enc_into(a, o); enc_into(b, o); }
        Term::Name(x) => s(2, x, o), Term::QVar(x) => s(3, x, o), Term::DepVar(x) => s(4, x, o), Term::IndepVar(x) => s(5, x, o),
        Term::Seq(v) => seq(6, v, o), Term::SetInt(v) => seq(7, v, o), Term::SetExt(v) => seq(8, v, o), Term::Conj(v) => seq(9, v, o), Term::Prod(v) => seq(10, v, o),
        Term::IntInt(v) => seq(11, v, o), Term::ExtInt(v) => seq(12, v, o), Term::Par(v) => seq(13, v, o),
        Term::Img(r, i, v) => { o.push(14); o.push(*i as u8); enc_into(r, o); seq(15, v, o); }
        Term::Neg(x) => { o.push(16); enc_into(x, o); }
    }
}
pub fn enc(t: &Term) -> Vec<u8> { let mut o = Vec::with_capacity(32); enc_into(t, &mut o); o }
/// symbolic equality of byte strings, without forking
pub fn beq(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut r = true; let mut i = 0; while i < a.len() { r = and(r, a[i] == b[i]); i += 1; } r }
/// reference equality, without forking
pub fn same(a: &Term, b: &Term) -> bool { beq(&enc(a), &enc(b)) }
/// components of a term, in order
pub fn kids(t: &Term) -> Vec<&Term> {
    match t {
        Term::Stmt(_, a, b) => vec![a, b],
        Term::Seq(v) | Term::SetInt(v) | Term::SetExt(v) | Term::Conj(v) | Term::Prod(v) | Term::IntInt(v) | Term::ExtInt(v) | Term::Par(v) => v.iter().map(|x| &**x).collect(),
        Term::Img(r, _, v) => { let mut o: Vec<&Term> = vec![r]; o.extend(v.iter().map(|x| &**x)); o }
        Term::Neg(x) => vec![x],
        _ => vec![],
    }
}
/// every subterm occurrence, the term itself included
pub fn occs<'a>(t: &'a Term, o: &mut Vec<&'a Term>) { o.push(t); for k in kids(t) { occs(k, o); } }
pub fn is_var(t: &Term) -> bool { matches!(t, Term::QVar(_) | Term::DepVar(_) | Term::IndepVar(_)) }
/// a truth value as a strategy: symbolic frequency and confidence
pub fn tv(n: &str) -> Tv { Tv { f: f(n, 0.0, 1.0), c: f(n, 0.0, 0.99) } }
pub fn usage() -> Arc<RwLock<Usage>> { Arc::new(RwLock::new(Usage { lastUsed: 0, useCount: 0 })) }
pub fn sent(t: Term, p: P, tv: Option<Tv>, ids: &[i64]) -> Sentence {
    Sentence { term: Arc::new(t), t: None, punct: p, stamp: Stamp { ids: ids.to_vec() }, expDt: None, evi: tv.map(Evidence::TV), usage: usage() }
}
pub fn judg(t: Term, tv: Tv, ids: &[i64]) -> Sentence { sent(t, P::JUGEMENT, Some(tv), ids) }
pub fn obst(t: &Term) { for b in enc(t) { obs(b as u64); } }
/// parse a known-good piece of Narsese by hand: tiny constructor notation used by oracles
pub fn pn(p: P) -> u8 { match p { P::JUGEMENT => 0, P::QUESTION => 1, P::GOAL => 2 } }
/// declarative memory without deriver threads
pub fn mem2() -> nar20_1::NarWorkingCycle::Mem2 {
    let shared = Arc::new(RwLock::new(nar20_1::NarWorkingCycle::DeclarativeShared {
        judgementTasks: vec![], judgementTasksByTerm: Arc::new(RwLock::new(std::collections::HashMap::new())), questionTasks: Arc::new(RwLock::new(vec![])),
        mem: Arc::new(RwLock::new(nar20_1::NarMem::make())), stampIdCounter: std::sync::atomic::AtomicI64::new(0), taskIdCounter: Arc::new(std::sync::atomic::AtomicI64::new(1000)), cycleCounter: std::sync::atomic::AtomicI64::new(0),
        procMem: Arc::new(RwLock::new(nar20_1::NarMem::make())),
    }));
    nar20_1::NarWorkingCycle::Mem2 { shared, globalQaHandlers: Arc::new(RwLock::new(vec![])), rng: RwLock::new(rand::thread_rng()), deriverWorkers: vec![], deriverWorkersTx: vec![] }
}
/// expectation
pub fn exp(t: &Tv) -> f64 { t.c * (t.f - 0.5) + 0.5 }
pub fn seqt(v: Vec<Term>) -> Term { Term::Seq(vecb(v)) }
pub fn op(name: &str, arg: Term) -> Term { st(Copula::INH, Term::SetExt(vecb(vec![Term::Prod(vecb(vec![Term::SetExt(vecb(vec![nm("SELF")])), arg]))])), nm(name)) }
pub fn is_op(t: &Term) -> bool { if let Term::Stmt(Copula::INH, s, p) = t { if let (Term::SetExt(v), Term::Name(_)) = (&**s, &**p) { return v.len() == 1 && matches!(&*v[0], Term::Prod(a) if !a.is_empty()); } } false }

/// compound 0..NCOMP or, for NCOMP, an image, over many components
pub fn wide(k: usize, v: Vec<Term>) -> Term { if k < NCOMP { compound(k, v) } else { Term::Img(bx(nm("r")), 1, vecb(v)) } }
/// number of components tried for wide terms
pub fn width() -> usize { [4, 5, 9, 17][pick("width", 4)] }
/// t at the bottom of n levels of different terms
pub fn deepen(t: Term, n: usize) -> Term {
    let mut t = t;
    for i in 0..n { t = match i % 7 { 0 => Term::Prod(vecb(vec![nm("k"), t])), 1 => st(Copula::INH, t, nm("l")), 2 => Term::Neg(bx(t)), 3 => Term::Conj(vecb(vec![t, nm("m")])), 4 => st(Copula::IMPL, nm("n"), t), 5 => Term::SetExt(vecb(vec![t])), _ => Term::Img(bx(nm("o")), 0, vecb(vec![t, nm("p")])) }; }
    t
}
/// distinct names x0, x1, ...
pub fn names(n: usize) -> Vec<Term> { (0..n).map(|i| nm(&if i % 3 == 2 { format!("x{}_with_a_rather_long_name", i) } else { format!("x{}", i) })).collect() }
