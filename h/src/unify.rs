//! Unification and substitution
use crate::api::*;
use crate::g::*;
use nar20_1::NarUnify as U;
/// structural part of matching: false if the shapes clash; otherwise the bindings and the leaf equalities that must hold
fn shape<'a>(a: &'a Term, b: &'a Term, bind: &mut Vec<(&'a Term, &'a Term)>, eq: &mut bool) -> bool {
    if is_var(a) { if is_var(b) { return false; } bind.push((a, b)); return true; }
    let (ka, kb) = (kids(a), kids(b));
    if ka.is_empty() && kb.is_empty() { *eq = and(*eq, same(a, b)); return true; }
    let head = match (a, b) {
        (Term::Stmt(x, _, _), Term::Stmt(y, _, _)) => x == y,
        (Term::Img(_, i, _), Term::Img(_, j, _)) => { *eq = and(*eq, i == j); true }
        _ => std::mem::discriminant(a) == std::mem::discriminant(b),
    };
    if !head || ka.len() != kb.len() { return false; }
    for i in 0..ka.len() { if !shape(ka[i], kb[i], bind, eq) { return false; } }
    true
}
/// is there an assignment of values (not variables) to the variables of a which makes it b?
fn matches(a: &Term, b: &Term) -> bool {
    let mut bind = vec![]; let mut eq = true;
    if !shape(a, b, &mut bind, &mut eq) { return false; }
    for i in 0..bind.len() { for j in 0..i { eq = and(eq, imp(same(bind[i].0, bind[j].0), same(bind[i].1, bind[j].1))); } }
    eq
}
/// reference substitution
fn subst(t: &Term, s: &[(Term, Term)]) -> Term {
    if is_var(t) { for (v, x) in s { if same(v, t) { return x.clone(); } } return t.clone(); }
    let r = |x: &Box<Term>| bx(subst(x, s));
    let rs = |v: &Vec<Box<Term>>| -> Vec<Box<Term>> { v.iter().map(|x| bx(subst(x, s))).collect() };
    match t {
        Term::Stmt(c, a, b) => Term::Stmt(*c, r(a), r(b)),
        Term::Seq(v) => Term::Seq(rs(v)), Term::SetInt(v) => Term::SetInt(rs(v)), Term::SetExt(v) => Term::SetExt(rs(v)), Term::Conj(v) => Term::Conj(rs(v)), Term::Prod(v) => Term::Prod(rs(v)),
        Term::IntInt(v) => Term::IntInt(rs(v)), Term::ExtInt(v) => Term::ExtInt(rs(v)), Term::Par(v) => Term::Par(rs(v)),
        Term::Img(a, i, v) => Term::Img(r(a), *i, rs(v)),
        Term::Neg(x) => Term::Neg(r(x)),
        x => x.clone(),
    }
}
fn run(a: &Term, b: &Term) {
    let m = matches(a, b);
    match U::unify(a, b) {
        None => { check(!m, "unification fails only if no assignment makes the terms equal"); obs(0); cover("no"); }
        Some(u) => {
            check(m, "unification succeeds only if a consistent assignment exists");
            check(same(&U::unifySubst(a, &u), b), "substituting the assignment makes the terms equal");
            let mut oc = vec![]; occs(a, &mut oc);
            for x in &u {
                check(is_var(&x.var), "only variables are assigned");
                let mut f = false; for o in &oc { if is_var(o) { f = or(f, same(o, &x.var)); } }
                check(f, "only variables of the pattern are assigned");
            }
            for i in 0..u.len() { for j in 0..i { check(imp(same(&u[i].var, &u[j].var), same(&u[i].val, &u[j].val)), "a variable has one value"); } }
            obs(1 + u.len() as u64);
            cover(if u.is_empty() { "ground" } else { "bound" });
        }
    }
}
#[no_mangle]
pub extern "C" fn h_unify_flat() { let a = any("a", 1, 2, 2, 3); let b = any("b", 1, 2, 2, 3); run(&a, &b); }
/// all variable kinds against everything
#[no_mangle]
pub extern "C" fn h_unify_var() { let a = any("a", 0, 1, 4, 3); let b = any("b", 1, 2, 4, 3); if pick("swap", 2) == 0 { run(&a, &b) } else { run(&b, &a) } }
/// nested terms; the same variable can occur at two depths
fn nested(ka: usize, kb: usize) {
    let (x, y) = (any("a", 1, 2, ka, 2), any("b", 1, 2, kb, 2));
    let (p, q) = (leaf("p", pick("pk", 2), 2), any("q", 0, 1, 1, 2));
    match pick("context", 4) {
        0 => run(&st(Copula::INH, x, p), &st(Copula::INH, y, q)),
        1 => run(&Term::Conj(vec![bx(p), bx(x)]), &Term::Conj(vec![bx(q), bx(y)])),
        2 => run(&Term::Img(bx(p), 1, vec![bx(x)]), &Term::Img(bx(q), 1, vec![bx(y)])),
        _ => run(&Term::Neg(bx(st(Copula::IMPL, p, x))), &Term::Neg(bx(st(Copula::IMPL, q, y)))),
    }
}
#[no_mangle]
pub extern "C" fn h_unify_nested() {
    let (x, y) = (any("a", 1, 1, 2, 2), any("b", 1, 1, 1, 2));
    let (p, q) = (leaf("p", 1, 2), any("q", 0, 1, 1, 2));
    match pick("context", 4) {
        0 => run(&st(Copula::INH, x, p), &st(Copula::INH, y, q)),
        1 => run(&Term::Conj(vec![bx(p), bx(x)]), &Term::Conj(vec![bx(q), bx(y)])),
        2 => run(&Term::Img(bx(p), 1, vec![bx(x)]), &Term::Img(bx(q), 1, vec![bx(y)])),
        _ => run(&Term::Neg(bx(st(Copula::IMPL, p, x))), &Term::Neg(bx(st(Copula::IMPL, q, y)))),
    }
}
#[no_mangle]
pub extern "C" fn h_unify_nested_t() { nested(2, 1); }
/// values can be compound: the same variable twice against compound values
#[no_mangle]
pub extern "C" fn h_unify_twice() {
    let v = leaf("v", 1 + pick("vk", 3), 2); let w = leaf("w", 1 + pick("wk", 3), 2);
    let (x, y) = (any("x", 1, 1, 1, 2), any("y", 1, 1, 1, 2));
    let c = pick("context", 3);
    let mk = |a: Term, b: Term| match c { 0 => st(Copula::INH, a, b), 1 => Term::Prod(vec![bx(a), bx(b)]), _ => Term::Img(bx(a), 0, vec![bx(b)]) };
    run(&mk(v, w), &mk(x, y));
}
/// substitution replaces exactly the assigned variables, everywhere
fn sub(t: Term) {
    let (v, w) = (leaf("v", 1 + pick("vk", 3), 3), leaf("w", 1 + pick("wk", 3), 3));
    assume(!same(&v, &w));
    let (x, y) = (Term::Name(letter("x", 3)), st(Copula::INH, Term::Name(letter("y", 3)), leaf("y", 1, 3)));
    let u = vec![U::Asgnment { var: v.clone(), val: x.clone() }, U::Asgnment { var: w.clone(), val: y.clone() }];
    let want = subst(&t, &[(v, x), (w, y)]);
    let got = U::unifySubst(&t, &u);
    check(same(&got, &want), "substitution replaces exactly the assigned variables");
    obst(&got);
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_subst_flat() { sub(any("t", 1, 2, 2, 2)); }
#[no_mangle]
pub extern "C" fn h_subst_deep() { let k = 1 + pick("k", 3); let x = leaf("t", k, 2); let t = any("t", 1, 1, 1, 2); let i = pick("w", 4); sub(match i { 0 => st(Copula::PREDIMPL, t, x), 1 => Term::Seq(vec![bx(t), bx(x)]), 2 => Term::Img(bx(t), 1, vec![bx(x)]), _ => Term::Neg(bx(Term::Par(vec![bx(x), bx(t)]))) }); }

/// many variables in one pattern: the first or the last of them is repeated, its second value may differ
#[no_mangle]
pub extern "C" fn h_unify_many() {
    let (k, n) = (pick("kind", NCOMP + 1), [3, 4, 6, 10][pick("width", 4)]);
    let vk = pick("vk", 4); // three variable kinds, or mixed
    let var = |i: usize| { let s = format!("v{}", i); match if vk == 3 { i % 3 } else { vk } { 0 => Term::IndepVar(s), 1 => Term::DepVar(s), _ => Term::QVar(s) } };
    let r = pick("repeated", 2) * (n - 1);
    let mut x: Vec<Term> = (0..n).map(|i| var(i)).collect(); x.push(var(r));
    let mut y = names(n); y[r] = Term::Name(letter("p", 2)); y.push(Term::Name(letter("q", 2)));
    run(&wide(k, x), &wide(k, y));
}
/// substitution with many assignments, the assigned variable deep inside
#[no_mangle]
pub extern "C" fn h_subst_many() {
    let n = 7;
    let vk = pick("vk", 3);
    let var = |i: usize| { let s = format!("v{}", i); match vk { 0 => Term::IndepVar(s), 1 => Term::DepVar(s), _ => Term::QVar(s) } };
    let u: Vec<U::Asgnment> = (0..n).map(|i| U::Asgnment { var: var(i), val: st(Copula::INH, nm(&format!("y{}", i)), Term::Name(letter("y", 2))) }).collect();
    let asg: Vec<(Term, Term)> = u.iter().map(|a| (a.var.clone(), a.val.clone())).collect();
    let i = pick("variable", n + 1);
    let t = deepen(var(i), pick("levels", 9));
    let t = if pick("wide", 2) == 1 { let mut v = names(5); v[0] = var(0); v[4] = t; wide(pick("kind", NCOMP + 1), v) } else { t };
    let got = U::unifySubst(&t, &u);
    check(same(&got, &subst(&t, &asg)), "substitution replaces exactly the assigned variables (many)");
    obst(&got);
    cover("end");
}
/// deep terms against deep patterns
#[no_mangle]
pub extern "C" fn h_unify_tower() {
    let n = 2 + pick("levels", 9);
    let v = leaf("v", pick("vk", 4), 2);
    let a = Term::Prod(vecb(vec![deepen(v.clone(), n), v]));
    let b = Term::Prod(vecb(vec![deepen(Term::Name(letter("x", 2)), n), Term::Name(letter("y", 2))]));
    run(&a, &b);
}
