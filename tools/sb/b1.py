import sys; sys.path.insert(0,'/verif/tools')
from seedlib import seed
seed('s01','V03',[('src/NarStamp.rs','res.ids = res.ids[0..(res.ids.len()).min(120)].to_vec(); // AIKR','let start = res.ids.len().saturating_sub(120);\n    res.ids = res.ids[start..].to_vec(); // AIKR')],
'''use nar20_1::NarStamp::*;
fn main() { let a = Stamp { ids: (0..100).collect() }; let b = Stamp { ids: (1000..1100).collect() };
 let m = merge(&a, &b); assert!(m.ids.len() == 120); assert!(m.ids.contains(&0) && m.ids.contains(&1000), "most recent evidence lost"); }
''','stamps with together more than 120 ids','the truncation keeps the tail of the interleaved ids, so the leading ids of both parents are lost and derived evidence is no longer recognised as overlapping')
seed('s02','V05',[('src/NarUnify.rs','            let rel2 = unifySubst(rel, subst);\n\n            let mut arr = vec![];\n            for i in subterms {\n                arr.push(Box::new(unifySubst(i, subst)));\n            }\n            Term::Img(Box::new(rel2),*idx,arr)','            let mut arr = vec![];\n            for i in subterms {\n                arr.push(Box::new(unifySubst(i, subst)));\n            }\n            Term::Img(Box::clone(rel),*idx,arr)')],
'''use nar20_1::{Term::*, NarUnify::*};
fn main() { let n = |s: &str| Box::new(Term::Name(s.to_string()));
 let a = Term::Img(Box::new(Term::IndepVar("r".to_string())), 0, vec![n("x")]); let b = Term::Img(n("likes"), 0, vec![n("x")]);
 let u = unify(&a, &b).unwrap(); assert!(checkEqTerm(&unifySubst(&a, &u), &b)); }
''','a variable as the relation of an image','substitution leaves a variable in the relation of an image unreplaced')
seed('s03','V07',[('src/NarWorkingCycle.rs','Term::Stmt(Copula::IMPL, Box::clone(&conclConj[0]), Box::new(substPred)) // build implication with single term','Term::Stmt(Copula::IMPL, Box::clone(&conclConj[0]), Box::clone(apred)) // build implication with single term')],
'''use nar20_1::{Term::*, NarUnify::*, Tv::Tv, NarSentence::EnumPunctation, NarWorkingCycle::infBinary};
fn main() { let n = |s: &str| Box::new(Term::Name(s.to_string())); let v = || Box::new(Term::IndepVar("v".to_string()));
 let inh = |a: Box<Term>, b: Box<Term>| Box::new(Term::Stmt(Copula::INH, a, b));
 let a = Term::Stmt(Copula::IMPL, Box::new(Term::Conj(vec![inh(v(), n("b")), inh(v(), n("c"))])), inh(v(), n("d")));
 let b = *inh(n("x"), n("b")); let t = Some(Tv { f: 1.0, c: 0.9 }); let mut f = false;
 let r = infBinary(&a, EnumPunctation::JUGEMENT, &t, &b, EnumPunctation::JUGEMENT, &t, &mut f);
 let want = Term::Stmt(Copula::IMPL, inh(n("x"), n("c")), inh(n("x"), n("d")));
 assert!(r.iter().any(|x| checkEqTerm(&x.0, &want))); for x in &r { assert!(!convTermToStr(&x.0).contains('$') || false, "{}", convTermToStr(&x.0)); } }
''','an implication with exactly two conditions sharing a variable with its consequence','conditional detachment forgets to substitute the variables of the consequence')
seed('s04','V09',[('src/NarMem.rs','for iBelief in &concept.payload.beliefsByUsage {\n                                let iBeliefGuard = iBelief.read();\n                                if checkEqTerm(&iBeliefGuard.term, &s.term) && NarStamp::checkOverlap(','for iBelief in &concept.payload.beliefsByUsage {\n                                let iBeliefGuard = iBelief.read();\n                                if checkEqTerm(&iBeliefGuard.term, &s.term) && NarStamp::checkSame(')],
'''use nar20_1::{Term::*, Tv::Tv, NarMem::*, NarStamp::Stamp, NarSentence::*}; use std::sync::Arc; use parking_lot::RwLock;
fn main() { let t = Term::Stmt(Copula::INH, Box::new(Term::Name("a".into())), Box::new(Term::Name("b".into())));
 let s = |ids: Vec<i64>| Sentence { term: Arc::new(t.clone()), t: None, punct: EnumPunctation::JUGEMENT, stamp: Stamp { ids }, expDt: None, evi: Some(Evidence::TV(Tv { f: 1.0, c: 0.9 })), usage: Arc::new(RwLock::new(Usage { lastUsed: 0, useCount: 0 })) };
 let mut m = make(); storeInConcepts(&mut m, &s(vec![1]), 10, 0); storeInConcepts(&mut m, &s(vec![1, 2]), 10, 0);
 let c = m.concepts.get(&t).unwrap(); assert_eq!(c.payload.beliefsByUsage.len(), c.payload.beliefsByExp.len()); assert_eq!(c.payload.beliefsByUsage.len(), 1); }
''','two judgements of the same term whose stamps share some but not all evidence','the table by usage accepts a belief whose evidence is already present')
