//! What the reasoner shows: terms, sentences, stamps and answers as text
use crate::api::*;
use crate::g::*;
use nar20_1::Term::convTermToStr;
use nar20_1::NarSentence as S;
use nar20_1::NarWorkingCycle::QHandler;
use nar20_1::{NarServer, Eval, NarStamp};
use std::sync::Mutex;
/// reference printer
fn show(t: &Term, o: &mut Vec<u8>) {
    fn list(open: &str, v: &[Box<Term>], sep: &str, close: &str, o: &mut Vec<u8>) { o.extend_from_slice(open.as_bytes()); for (i, x) in v.iter().enumerate() { if i > 0 { o.extend_from_slice(sep.as_bytes()); } show(x, o); } o.extend_from_slice(close.as_bytes()); }
    match t {
        Term::Stmt(c, a, b) => { o.push(b'<'); show(a, o); o.extend_from_slice(match c { Copula::SIM => b" <-> ", Copula::INH => b" --> ", Copula::PREDIMPL => b" =/> ", Copula::IMPL => b" ==> ", Copula::EQUIV => b" <=> " }); show(b, o); o.push(b'>'); }
        Term::Name(x) => o.extend_from_slice(x.as_bytes()),
        Term::QVar(x) => { o.push(b'?'); o.extend_from_slice(x.as_bytes()) }
        Term::DepVar(x) => { o.push(b'#'); o.extend_from_slice(x.as_bytes()) }
        Term::IndepVar(x) => { o.push(b'$'); o.extend_from_slice(x.as_bytes()) }
        Term::Seq(v) => list("( ", v, " , ", " )", o),
        Term::Conj(v) => list("( ", v, " && ", " )", o),
        Term::Prod(v) => list("( ", v, " * ", " )", o),
        Term::IntInt(v) => list("( ", v, " | ", " )", o),
        Term::ExtInt(v) => list("( ", v, " & ", " )", o),
        Term::Par(v) => list("( ", v, " ; ", " )", o),
        Term::SetInt(v) => list("[", v, " ", "]", o),
        Term::SetExt(v) => list("{", v, " ", "}", o),
        Term::Img(r, i, v) => { o.extend_from_slice(b"( "); show(r, o); o.extend_from_slice(b" /"); o.extend_from_slice(match *i { 0 => b"1", 1 => b"2", _ => b"3" }); o.push(b' '); list("", v, " ", " )", o); }
        Term::Neg(x) => { o.extend_from_slice(b"(! "); show(x, o); o.extend_from_slice(b" )"); }
    }
}
fn txt(t: &Term) -> Vec<u8> { let mut o = Vec::with_capacity(64); show(t, &mut o); o }
/// term k over sub terms (2..=3 components)
fn node(k: usize, sub: &mut dyn FnMut() -> Term) -> Term {
    match k {
        0..=4 => { let a = sub(); let b = sub(); st(COPS[k], a, b) }
        5..=12 => { let n = 2 + pick("more", 2); compound(k - 5, (0..n).map(|_| sub()).collect()) }
        13 => Term::Neg(bx(sub())),
        14 | 15 => { let a = sub(); compound(k - 13, vec![a]) }
        _ => { let r = sub(); let n = 1 + pick("more", 2); Term::Img(bx(r), k - 16, vecb((0..n).map(|_| sub()).collect())) }
    }
}
const NK: usize = 19;
fn lf(n: &str) -> Term { leaf(n, pick("leaf", 4), 26) }
#[no_mangle]
pub extern "C" fn h_text_term1() {
    let t = node(pick("kind", NK), &mut || leaf("x", 0, 26));
    let s = convTermToStr(&t);
    check(beq(s.as_bytes(), &txt(&t)), "text of a term");
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_text_leaf() {
    let t = lf("x");
    let s = convTermToStr(&t);
    check(beq(s.as_bytes(), &txt(&t)), "text of a name or variable");
    let t = st(COPS[pick("copula", 5)], t, lf("y"));
    check(beq(convTermToStr(&t).as_bytes(), &txt(&t)), "text of a statement");
    cover("end");
}
/// nested: every kind inside every kind
#[no_mangle]
pub extern "C" fn h_text_term2() {
    let mut first = true;
    let k2 = pick("inner", NK);
    let at = pick("where", 2);
    let mut n = 0;
    let t = node(pick("kind", NK), &mut || { n += 1; if n == at + 1 && first { first = false; node(k2, &mut || leaf("x", 0, 26)) } else { leaf("x", 0, 26) } });
    check(beq(convTermToStr(&t).as_bytes(), &txt(&t)), "text of a nested term");
    cover("end");
}
/// different terms look different
#[no_mangle]
pub extern "C" fn h_text_inj() {
    let a = node(pick("kind", NK), &mut || leaf("x", 0, 3));
    let b = node(pick("kind", NK), &mut || leaf("y", 0, 3));
    let (x, y) = (convTermToStr(&a), convTermToStr(&b));
    check(imp(beq(x.as_bytes(), y.as_bytes()), same(&a, &b)), "different terms have different texts");
    cover("end");
}
const TVS: [(f64, f64, &str); 4] = [(1.0, 0.9, "{1 0.9}"), (0.0, 0.5, "{0 0.5}"), (0.25, 0.998, "{0.25 0.998}"), (0.5, 0.0, "{0.5 0}")];
#[no_mangle]
pub extern "C" fn h_text_sent() {
    let t = [st(Copula::INH, leaf("x", 0, 26), leaf("y", 0, 26)), leaf("z", 0, 26)][pick("term", 2)].clone();
    let p = pick("punctuation", 3);
    let (f, c, w) = TVS[pick("truth", 4)];
    let s = if p == 1 { sent(t.clone(), P::QUESTION, None, &[7]) } else { sent(t.clone(), if p == 0 { P::JUGEMENT } else { P::GOAL }, Some(Tv { f, c }), &[7]) };
    let en = pick("with_truth", 2) == 1;
    let mut e = txt(&t);
    e.push([b'.', b'?', b'!'][p]);
    if en && p != 1 { e.push(b' '); e.extend_from_slice(w.as_bytes()); }
    check(beq(S::convSentenceTermPunctToStr(&s, en).as_bytes(), &e), "text of a sentence");
    // judgements, goals and questions over names are read back by the parser
    match nar20_1::NarseseParser::parseNarsese(&S::convSentenceTermPunctToStr(&s, en)) {
        None => check(false, "the text of a sentence is valid input"),
        Some((t2, tv, p2, ev)) => {
            check(and(same(&t2, &t), pn(p2) == pn(s.punct)), "the text of a sentence is read back as that sentence");
            check(!ev, "without a tense");
            if en && p != 1 { check(near(tv.f, f, 1e-9) && near(tv.c, c, 1e-9), "with its truth value"); }
        }
    }
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_text_stamp() {
    let n = 1 + pick("ids", 4);
    let ids: Vec<i64> = (0..n).map(|_| [0, 5, 120, -3][pick("id", 4)]).collect();
    let s = NarStamp::convToStr(&NarStamp::newStamp(&ids));
    let e = ids.iter().map(|i| match i { 0 => "0", 5 => "5", 120 => "120", _ => "-3" }).collect::<Vec<_>>().join(",");
    check(s == e, "a stamp is shown as its ids in order");
    cover("end");
}
/// an answer is published to the clients once, after everything published before, with question and answer
#[no_mangle]
pub extern "C" fn h_text_server() {
    let old = pick("older", 3);
    let first = int("first", 0, 1000000) as i64;
    let g = Arc::new(Mutex::new(NarServer::Global { arr: (0..old).map(|i| (first + i as i64, format!("m{}", i))).collect(), idCounter: first + old as i64 }));
    let mut h = NarServer::QHandlerImpl { global: Arc::clone(&g) };
    let q = st(Copula::INH, Term::QVar("x".to_string()), leaf("y", 0, 26));
    let n = 1 + pick("answers", 2);
    let mut want = vec![];
    for _ in 0..n {
        let a = st(Copula::INH, leaf("a", 0, 26), leaf("y", 0, 26));
        let (f, c, w) = TVS[pick("truth", 4)];
        let mut e = b"TRACE answer: ".to_vec(); e.extend_from_slice(&txt(&q)); e.extend_from_slice(b"? "); e.extend_from_slice(&txt(&a)); e.extend_from_slice(b". "); e.extend_from_slice(w.as_bytes());
        want.push(e);
        h.answer(&q, &sent(a, P::JUGEMENT, Some(Tv { f, c }), &[3]));
    }
    let d = g.lock().unwrap();
    check(d.arr.len() == old + n, "each answer is published once");
    for i in 0..old { check(d.arr[i].0 == first + i as i64 && d.arr[i].1 == format!("m{}", i), "older messages are kept"); }
    for i in 0..n { check(d.arr[old + i].0 == first + (old + i) as i64, "messages are numbered in order"); check(beq(d.arr[old + i].1.as_bytes(), &want[i]), "the message shows question and answer"); }
    check(d.idCounter == first + (old + n) as i64, "the counter is the next free number");
    drop(d);
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_text_eval() {
    let g = Arc::new(Mutex::new(Eval::Global { foundAnswer: pick("before", 2) == 1 }));
    let before = g.lock().unwrap().foundAnswer;
    let mut h = Eval::QHandlerImpl { global: Arc::clone(&g) };
    let tell = pick("answered", 2) == 1;
    if tell { h.answer(&Term::QVar("x".to_string()), &sent(leaf("a", 0, 26), P::JUGEMENT, Some(Tv { f: 1.0, c: 0.9 }), &[3])); }
    check(g.lock().unwrap().foundAnswer == (before || tell), "an evaluation notices exactly the answers given");
    cover("end");
}
/// the task report lists every task once with text, evidence and credit
#[no_mangle]
pub extern "C" fn h_text_tasks() {
    use nar20_1::NarWorkingCycle as W;
    let m = W::createMem2(20, 20);
    let n = pick("tasks", 3);
    let mut want = vec![];
    for i in 0..n {
        let t = st(Copula::INH, leaf("a", 0, 26), nm("b"));
        let (f, c, w) = TVS[pick("truth", 4)];
        let s = sent(t.clone(), P::JUGEMENT, Some(Tv { f, c }), &[i as i64 + 4, 9]);
        m.read().shared.write().judgementTasks.push(Arc::new(RwLock::new(W::Task { sentence: s, credit: 0.5, qaCredit: 0.0, mulCredit: 1.0, id: i as i64, derivTime: 0 })));
        let mut e = b"task  ".to_vec(); e.extend_from_slice(&txt(&t)); e.extend_from_slice(b". "); e.extend_from_slice(w.as_bytes()); e.extend_from_slice(if i == 0 { b" 4,9  credit=" } else { b" 5,9  credit=" });
        want.push(e);
    }
    let r = W::debugCreditsOfTasks(&m.read());
    check(r.len() == n, "one line per task");
    for i in 0..n { check(r[i].len() > want[i].len() && beq(&r[i].as_bytes()[..want[i].len()], &want[i]), "a line shows the sentence and its evidence"); }
    cover("end");
}
