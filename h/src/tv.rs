//! Truth values
use crate::api::*;
use nar20_1::Tv::{self, Tv as T};
use nar20_1::NarSentence as S;
/// largest confidence considered (weights stay below 1e6)
pub const CMAX: f64 = 0.999999;
pub fn any(n: &str) -> T { T { f: f(n, 0.0, 1.0), c: f(n, 0.0, CMAX) } }
pub fn valid(t: &T) -> bool { and(and(t.f >= -1.0e-9, t.f <= 1.0 + 1.0e-9), and(t.c >= 0.0, t.c < 1.0)) }
fn seen(t: &T) { obsf(t.f); obsf(t.c); }

// ---- every truth function maps valid truth values to valid truth values
#[no_mangle]
pub extern "C" fn h_tv_valid() {
    let (a, b) = (any("a"), any("b"));
    let k = pick("function", 7);
    let r = match k { 0 => Tv::ded(&a, &b), 1 => Tv::abd(&a, &b), 2 => Tv::ind(&a, &b), 3 => Tv::comp(&a, &b), 4 => Tv::int(&a, &b), 5 => Tv::neg(&a), _ => Tv::dedGoal(&a, &b) };
    check(valid(&r), "result of a truth function is a valid truth value");
    seen(&r);
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_tv_valid_rev() {
    let (a, b) = (any("a"), any("b"));
    let r = Tv::rev(&a, &b);
    check(valid(&r), "revision gives a valid truth value");
    seen(&r);
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_tv_valid_misc() {
    let a = any("a");
    let e = Tv::calcExp(&a);
    check(and(e >= 0.0, e <= 1.0), "expectation lies in [0,1]");
    let o = Tv::or(a.f, f("g", 0.0, 1.0));
    check(and(o >= -1.0e-9, o <= 1.0 + 1.0e-9), "disjunction lies in [0,1]");
    let w = f("w", 0.0, 1.0e6);
    let c = Tv::w2c(w);
    check(and(c >= 0.0, c < 1.0), "weight to confidence lies in [0,1)");
    let v = Tv::c2w(a.c);
    check(and(v >= 0.0, v <= 1.1e6), "confidence to weight is a finite non-negative weight");
    obsf(e); obsf(o); obsf(c); obsf(v);
    cover("end");
}
/// counted evidence gives a valid truth value too
#[no_mangle]
pub extern "C" fn h_tv_valid_cnt() {
    let cnt = int("cnt", 1, 1000) as i64;
    let pos = int("pos", 0, 1000) as i64;
    assume(pos <= cnt);
    let e = S::Evidence::CNT { pos, cnt };
    let (fr, co) = (S::retFreq(&e), S::retConf(&e));
    check(and(fr >= 0.0, fr <= 1.0), "frequency of counted evidence lies in [0,1]");
    check(and(co > 0.0, co < 1.0), "confidence of counted evidence lies in (0,1)");
    obsf(fr); obsf(co);
    cover("end");
}

// ---- the functions are the NAL functions
const EPS: f64 = 1.0e-9;
#[no_mangle]
pub extern "C" fn h_tv_fn_ded() {
    let (a, b) = (any("a"), any("b"));
    let r = Tv::ded(&a, &b);
    check(near(r.f, a.f * b.f, EPS), "deduction: f = f1*f2");
    check(near(r.c, a.f * b.f * a.c * b.c, EPS), "deduction: c = f1*f2*c1*c2");
    let r = Tv::int(&a, &b);
    check(near(r.f, a.f * b.f, EPS), "intersection: f = f1*f2");
    check(near(r.c, a.c * b.c, EPS), "intersection: c = c1*c2");
    let r = Tv::neg(&a);
    check(near(r.f + a.f, 1.0, EPS), "negation: f = 1-f1");
    check(r.c == a.c, "negation: c = c1");
    check(near(Tv::or(a.f, b.f), a.f + b.f - a.f * b.f, EPS), "or: a+b-ab");
    check(near(Tv::calcExp(&a), a.c * (a.f - 0.5) + 0.5, EPS), "expectation: c*(f-1/2)+1/2");
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_tv_fn_abd() {
    let (a, b) = (any("a"), any("b"));
    let r = Tv::abd(&a, &b);
    let w = b.f * a.c * b.c;
    check(near(r.f, a.f, EPS), "abduction: f = f1");
    check(near(r.c * (w + 1.0), w, EPS), "abduction: c = w/(w+1), w = f2*c1*c2");
    cover("abd");
}
#[no_mangle]
pub extern "C" fn h_tv_fn_ind() {
    let (a, b) = (any("a"), any("b"));
    let r = Tv::ind(&a, &b);
    let w = a.f * a.c * b.c;
    check(near(r.f, b.f, EPS), "induction: f = f2");
    check(near(r.c * (w + 1.0), w, EPS), "induction: c = w/(w+1), w = f1*c1*c2");
    cover("ind");
}
#[no_mangle]
pub extern "C" fn h_tv_fn_comp() {
    // frequency ranges: one of them well above zero, both small, or no positive evidence at all (below 1e-8 the
    // implementation may treat the disjunction as zero)
    let (fa, fb) = match pick("range", 4) { 0 => (f("a", 0.05, 1.0), f("b", 0.0, 1.0)), 1 => (f("a", 0.0, 0.05), f("b", 0.05, 1.0)), 2 => (f("a", 0.001, 0.05), f("b", 0.0, 0.05)), _ => (f("a", 0.0, 4.0e-10), f("b", 0.0, 4.0e-10)) };
    let (a, b) = (T { f: fa, c: f("a", 0.0, CMAX) }, T { f: fb, c: f("b", 0.0, CMAX) });
    let o = a.f + b.f - a.f * b.f;
    let r = Tv::comp(&a, &b);
    check(imp(o >= 0.0009, near(r.f * o, a.f * b.f, EPS)), "comparison: f = f1*f2/(f1 or f2)");
    let w = o * a.c * b.c;
    check(near(r.c * (w + 1.0), w, EPS), "comparison: c = w/(w+1), w = (f1 or f2)*c1*c2");
    check(imp(o <= 1.0e-9, near(r.f, 0.0, EPS)), "comparison: without positive evidence f = 0");
    cover("comp");
}
#[no_mangle]
pub extern "C" fn h_tv_fn_conv() {
    let w = f("w", 0.0, 1000.0);
    let c = Tv::w2c(w);
    check(near(c * (w + 1.0), w, EPS), "w2c: c = w/(w+1)");
    let c = f("c", 0.0, 0.999);
    let w = Tv::c2w(c);
    check(near(w * (1.0 - c), c, EPS), "c2w: w = c/(1-c)");
    cover("conv");
}
#[no_mangle]
pub extern "C" fn h_tv_fn_rev_c() {
    const R: [(f64, f64); 3] = [(0.0, 0.99), (0.99, 0.999), (0.999, 0.9999)];
    let (x, y) = (R[pick("ca", 3)], R[pick("cb", 3)]);
    let (a, b) = (T { f: f("a", 0.0, 1.0), c: f("a", x.0, x.1) }, T { f: f("b", 0.0, 1.0), c: f("b", y.0, y.1) });
    let r = Tv::rev(&a, &b);
    // w1+w2 = w/(..): c = (c1+c2-2c1c2)/(1-c1c2)
    check(near(r.c * (1.0 - a.c * b.c), a.c + b.c - 2.0 * a.c * b.c, 1.0e-7), "revision: weights add up");
    check(r.c >= a.c - 1.0e-9, "revision never loses confidence");
    check(r.c >= b.c - 1.0e-9, "revision never loses confidence (2)");
    cover("rev");
}
fn rev_f(la: (f64, f64), lb: (f64, f64), eps: f64) {
    let (a, b) = (T { f: f("a", 0.0, 1.0), c: f("a", la.0, la.1) }, T { f: f("b", 0.0, 1.0), c: f("b", lb.0, lb.1) });
    let r = Tv::rev(&a, &b);
    let (w1, w2) = (a.c * (1.0 - b.c), b.c * (1.0 - a.c));
    check(near(r.f * (w1 + w2), w1 * a.f + w2 * b.f, eps), "revision: f is the weighted average");
    check(and(or(r.f <= a.f + 1.0e-6, r.f <= b.f + 1.0e-6), or(r.f >= a.f - 1.0e-6, r.f >= b.f - 1.0e-6)), "revised frequency lies between the frequencies");
    cover("rev");
}
#[no_mangle]
pub extern "C" fn h_tv_fn_rev_f() { rev_f((0.03, 0.97), (0.03, 0.97), 1.0e-6) }
/// little or much evidence
#[no_mangle]
pub extern "C" fn h_tv_fn_rev_ends() {
    const R: [(f64, f64); 4] = [(0.001, 0.03), (0.03, 0.97), (0.97, 0.999), (0.999, 0.9999)];
    let k = pick("a", 4); let l = pick("b", 4);
    rev_f(R[k], R[l], if k == 0 && l == 0 { 1.0e-8 } else { 1.0e-7 })
}
#[no_mangle]
pub extern "C" fn h_tv_fn_goal() {
    let (a, b) = (any("a"), any("b"));
    let r = Tv::dedGoal(&a, &b);
    let (f1, c1) = (a.f * b.f, a.f * b.f * a.c * b.c);
    let g = 1.0 - a.f;
    let (f2, c2) = (1.0 - g * b.f, g * b.f * a.c * b.c);
    let is1 = and(near(r.f, f1, EPS), near(r.c, c1, EPS));
    let is2 = and(near(r.f, f2, EPS), near(r.c, c2, EPS));
    check(or(is1, is2), "goal deduction is one of the two deductions");
    check(and(r.c >= c1 - EPS, r.c >= c2 - EPS), "goal deduction keeps the more confident one");
    cover("goal");
}
#[no_mangle]
pub extern "C" fn h_tv_fn_cnt() {
    const N: [i64; 12] = [0, 201, 256, 500, 501, 999, 1000, 1001, 1024, 5000, 65536, 1000000];
    let k = pick("large", 12);
    let cnt = if k == 0 { int("cnt", 1, 200) as i64 } else { N[k] };
    let pos = int("pos", 0, if k == 0 { 200 } else { N[k] as _ }) as i64;
    assume(pos <= cnt);
    let e = S::Evidence::CNT { pos, cnt };
    let (fr, co) = (S::retFreq(&e), S::retConf(&e));
    check(near(fr * cnt as f64, pos as f64, 1.0e-6), "frequency is positive over total evidence");
    check(near(co * (cnt as f64 + 1.0), cnt as f64, 1.0e-6), "confidence is n/(n+1)");
    cover("cnt");
}
