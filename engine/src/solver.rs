//! SMT back end (libz3 through its C API).
//! Bit-vectors are encoded exactly. Floats are encoded over the reals together with their rounding
//! error: r = fl(e) becomes |r-e| <= u*|e| + eta plus monotonicity facts, so "unsat" is sound for
//! IEEE arithmetic; "sat" is only accepted when the rounded model satisfies every constraint under
//! exact IEEE evaluation (Model::eval).
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;

type Z = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> Z; fn Z3_set_param_value(c: Z, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: Z) -> Z; fn Z3_set_error_handler(c: Z, h: *const c_void);
    fn Z3_get_error_code(c: Z) -> c_uint;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_solver(c: Z) -> Z; fn Z3_mk_simple_solver(c: Z) -> Z; fn Z3_solver_push(c: Z, s: Z); fn Z3_solver_pop(c: Z, s: Z, n: c_uint); fn Z3_mk_solver_for_logic(c: Z, l: Z) -> Z; fn Z3_solver_inc_ref(c: Z, s: Z); fn Z3_solver_dec_ref(c: Z, s: Z);
    fn Z3_mk_tactic(c: Z, n: *const c_char) -> Z; fn Z3_tactic_inc_ref(c: Z, t: Z); fn Z3_mk_solver_from_tactic(c: Z, t: Z) -> Z;
    fn Z3_solver_assert(c: Z, s: Z, a: Z); fn Z3_solver_check(c: Z, s: Z) -> c_int; fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_solver_reset(c: Z, s: Z);
    fn Z3_solver_set_params(c: Z, s: Z, p: Z); fn Z3_mk_params(c: Z) -> Z; fn Z3_params_inc_ref(c: Z, p: Z); fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint);
    fn Z3_model_inc_ref(c: Z, m: Z); fn Z3_model_dec_ref(c: Z, m: Z); fn Z3_model_eval(c: Z, m: Z, t: Z, comp: bool, v: *mut Z) -> bool;
    fn Z3_get_numeral_string(c: Z, a: Z) -> *const c_char; fn Z3_get_numeral_decimal_string(c: Z, a: Z, p: c_uint) -> *const c_char;
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z; fn Z3_mk_const(c: Z, s: Z, so: Z) -> Z;
    fn Z3_mk_bool_sort(c: Z) -> Z; fn Z3_simplify_ex(c: Z, a: Z, p: Z) -> Z; fn Z3_params_set_bool(c: Z, p: Z, k: Z, v: bool); fn Z3_interrupt(c: Z); fn Z3_mk_bv_sort(c: Z, n: c_uint) -> Z; fn Z3_mk_real_sort(c: Z) -> Z; fn Z3_mk_numeral(c: Z, s: *const c_char, so: Z) -> Z;
    fn Z3_mk_bvnot(c: Z, a: Z) -> Z; fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z; fn Z3_mk_zero_ext(c: Z, n: c_uint, a: Z) -> Z; fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_not(c: Z, a: Z) -> Z; fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z; fn Z3_mk_implies(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z; fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z; fn Z3_mk_true(c: Z) -> Z; fn Z3_mk_false(c: Z) -> Z; fn Z3_mk_xor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_add(c: Z, n: c_uint, a: *const Z) -> Z; fn Z3_mk_sub(c: Z, n: c_uint, a: *const Z) -> Z; fn Z3_mk_mul(c: Z, n: c_uint, a: *const Z) -> Z; fn Z3_mk_unary_minus(c: Z, a: Z) -> Z;
    fn Z3_mk_le(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_lt(c: Z, a: Z, b: Z) -> Z; fn Z3_mk_ge(c: Z, a: Z, b: Z) -> Z;
    fn Z3_solver_to_string(c: Z, s: Z) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

pub enum Res { Sat(Rc<Model>), Maybe, Unsat, Unknown }
impl Clone for Res { fn clone(&self) -> Res { match self { Res::Sat(m) => Res::Sat(m.clone()), Res::Maybe => Res::Maybe, Res::Unsat => Res::Unsat, Res::Unknown => Res::Unknown } } }

pub struct Solver {
    c: Z, real: Z,
    ast: HashMap<E, Z>,          // bool-sorted for w==1, bv for w>1, real for fp
    side: HashMap<E, Vec<Z>>,    // side constraints introduced by a node
    bvsolver: Z, fpsolver: Z,
    cache: HashMap<Vec<E>, Res>,
    tt: HashMap<E, [u64; 4]>, pub domq: u64, pub nodom: bool,
    pub queries: u64, pub unsat: u64, pub sat: u64, pub unknown: u64, pub maybe: u64, pub cached: u64, pub time: f64, pub fpqueries: u64,
    pub timeout_ms: u32,
    pub slow: f64,
    pub dump: bool,
    errs: HashMap<E, f64>, rxs: HashMap<E, ((Z, Option<Z>), Vec<Z>)>, lbs: HashMap<E, f64>, som: Z, cuts: HashSet<E>, ints: HashMap<E, Z>, nlt: Z,
}
static mut ARMED: Z = std::ptr::null_mut();
#[repr(C)] struct Itv { is: i64, iu: i64, vs: i64, vu: i64 }
extern "C" { fn signal(n: c_int, h: *const c_void) -> *const c_void; fn setitimer(w: c_int, n: *const Itv, o: *mut Itv) -> c_int; }
extern "C" fn on_alarm(_: c_int) { unsafe { if !ARMED.is_null() { Z3_interrupt(ARMED); } } }
/// wall-clock limit for one solver call (0 disarms); re-fires every 100 ms until disarmed
unsafe fn arm(c: Z, ms: u32) {
    if ms > 0 { ARMED = c; signal(14, on_alarm as *const c_void); let t = Itv { is: 0, iu: 100_000, vs: (ms / 1000) as i64, vu: ((ms % 1000) * 1000) as i64 }; setitimer(0, &t, std::ptr::null_mut()); }
    else { let t = Itv { is: 0, iu: 0, vs: 0, vu: 0 }; setitimer(0, &t, std::ptr::null_mut()); ARMED = std::ptr::null_mut(); }
}
fn cs(s: &str) -> CString { CString::new(s).unwrap() }
extern "C" fn on_err(_c: Z, _e: c_uint) { if _e == 12 { return; } eprintln!("Z3 ERROR code {}", _e); std::process::exit(3); }

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_err as *const c_void);
            let real = Z3_mk_real_sort(c);
            let bvsolver = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, cs("QF_BV").as_ptr()));
            Z3_solver_inc_ref(c, bvsolver);
            let fpsolver = Z3_mk_solver(c);
            Z3_solver_inc_ref(c, fpsolver);
            let p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, cs("rlimit").as_ptr()), timeout_ms.saturating_mul(3000));
            let som = Z3_mk_params(c); Z3_params_inc_ref(c, som);
            Z3_params_set_bool(c, som, Z3_mk_string_symbol(c, cs("som").as_ptr()), true);
            let nlt = Z3_mk_tactic(c, cs("qfnra-nlsat").as_ptr()); Z3_tactic_inc_ref(c, nlt);
            Z3_solver_set_params(c, bvsolver, p);
            Z3_solver_set_params(c, fpsolver, p);
            Solver { c, real, ast: HashMap::new(), side: HashMap::new(), bvsolver, fpsolver, cache: HashMap::new(), tt: HashMap::new(), domq: 0, nodom: false, queries: 0, unsat: 0, sat: 0, unknown: 0, maybe: 0, cached: 0, time: 0.0, fpqueries: 0, timeout_ms, slow: 0.0, dump: std::env::var("SYMX_DUMP").is_ok(), errs: HashMap::new(), rxs: HashMap::new(), lbs: HashMap::new(), som, cuts: HashSet::new(), ints: HashMap::new(), nlt }
        }
    }
    pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() } }
    fn rnum(&self, v: f64) -> Z { unsafe { Z3_mk_numeral(self.c, cs(&rational(v)).as_ptr(), self.real) } }
    fn bvnum(&self, w: u16, v: u128) -> Z { unsafe { Z3_mk_numeral(self.c, cs(&v.to_string()).as_ptr(), Z3_mk_bv_sort(self.c, w as u32)) } }
    fn b2bv(&self, b: Z) -> Z { unsafe { Z3_mk_ite(self.c, b, self.bvnum(1, 1), self.bvnum(1, 0)) } }
    /// bit-vector view (even for width 1)
    fn bv(&mut self, e: E) -> Z { let z = self.tr(e); if width(e) == 1 { self.b2bv(z) } else { z } }
    fn le(&self, a: Z, b: Z) -> Z { unsafe { Z3_mk_le(self.c, a, b) } }
    fn imp(&self, a: Z, b: Z) -> Z { unsafe { Z3_mk_implies(self.c, a, b) } }
    fn add(&self, a: Z, b: Z) -> Z { unsafe { let v = [a, b]; Z3_mk_add(self.c, 2, v.as_ptr()) } }
    fn sub(&self, a: Z, b: Z) -> Z { unsafe { let v = [a, b]; Z3_mk_sub(self.c, 2, v.as_ptr()) } }
    fn mul(&self, a: Z, b: Z) -> Z { unsafe { let v = [a, b]; Z3_mk_mul(self.c, 2, v.as_ptr()) } }
    fn fresh(&self, n: String) -> Z { unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, cs(&n).as_ptr()), self.real) } }
    /// r = fl(ex)
    fn round(&mut self, e: E, ex: Z, absolute: bool) -> Z {
        let w = width(e);
        let r = self.fresh(format!("r{}", e));
        let u = if w == F64 { 2f64.powi(-53) } else { 2f64.powi(-24) };
        let (lo, hi) = interval(e);
        let mut s = vec![];
        let zero = self.rnum(0.0);
        let eta = self.rnum(if absolute { 2f64.powi(-100) } else { 0.0 });
        let (m1, p1) = (self.rnum(1.0 - u), self.rnum(1.0 + u));
        let up = |me: &Solver| { let a = me.mul(ex, m1); let a = if absolute { me.sub(a, eta) } else { a }; let b = me.mul(ex, p1); let b = if absolute { me.add(b, eta) } else { b }; unsafe { let v = [me.le(a, r), me.le(r, b)]; Z3_mk_and(me.c, 2, v.as_ptr()) } };
        let dn = |me: &Solver| { let a = me.mul(ex, p1); let a = if absolute { me.sub(a, eta) } else { a }; let b = me.mul(ex, m1); let b = if absolute { me.add(b, eta) } else { b }; unsafe { let v = [me.le(a, r), me.le(r, b)]; Z3_mk_and(me.c, 2, v.as_ptr()) } };
        if lo >= 0.0 { s.push(up(self)); } else if hi <= 0.0 { s.push(dn(self)); } else {
            s.push(self.imp(self.le(zero, ex), up(self))); s.push(self.imp(self.le(ex, zero), dn(self)));
        }
        if lo.is_finite() { s.push(self.le(self.rnum(lo), r)); }
        if hi.is_finite() { s.push(self.le(r, self.rnum(hi))); }
        for k in [-1.0, 0.0, 0.5, 1.0] {
            if k > lo && k < hi || (k == lo && false) {
                let kz = self.rnum(k);
                s.push(self.imp(self.le(ex, kz), self.le(r, kz)));
                s.push(self.imp(self.le(kz, ex), self.le(kz, r)));
            }
        }
        self.side.insert(e, s);
        r
    }
    /// fl(a+b) >= a when b >= 0 (rounding is monotone, operands are representable), and so on
    fn mono_add(&mut self, e: E, r: Z, ea: E, a: Z, eb: E, b: Z, sub: bool) {
        let z = self.rnum(0.0);
        let mut s = vec![];
        let (ia, ib) = (interval(ea), interval(eb));
        let (bp, bn) = if sub { (ib.1 <= 0.0, ib.0 >= 0.0) } else { (ib.0 >= 0.0, ib.1 <= 0.0) };
        if as_const(ea).is_none() { if bp { s.push(self.le(a, r)); } else if bn { s.push(self.le(r, a)); } else { let (x, y) = if sub { (self.le(b, z), self.le(z, b)) } else { (self.le(z, b), self.le(b, z)) }; s.push(self.imp(x, self.le(a, r))); s.push(self.imp(y, self.le(r, a))); } }
        if !sub && as_const(eb).is_none() { if ia.0 >= 0.0 { s.push(self.le(b, r)); } else if ia.1 <= 0.0 { s.push(self.le(r, b)); } else { s.push(self.imp(self.le(z, a), self.le(b, r))); s.push(self.imp(self.le(a, z), self.le(r, b))); } }
        self.side.get_mut(&e).unwrap().extend(s);
    }
    fn bitsum(&mut self, b: E, signed: bool) -> Z {
        let w = width(b);
        let n = nd(b);
        // strip zext
        if n.op == Op::ZExt { return self.bitsum(n.a, false); }
        let zb = self.bv(b);
        let mut terms = vec![];
        for i in 0..w {
            unsafe {
                let bit = Z3_mk_eq(self.c, Z3_mk_extract(self.c, i as u32, i as u32, zb), self.bvnum(1, 1));
                let v = 2f64.powi(i as i32) * if signed && i == w - 1 { -1.0 } else { 1.0 };
                terms.push(Z3_mk_ite(self.c, bit, self.rnum(v), self.rnum(0.0)));
            }
        }
        unsafe { Z3_mk_add(self.c, terms.len() as u32, terms.as_ptr()) }
    }
    fn tr(&mut self, e: E) -> Z {
        if let Some(&z) = self.ast.get(&e) { return z; }
        let n = nd(e);
        let c = self.c;
        let z = unsafe {
            match n.op {
                Op::Const => if is_fp(n.w) { let v = fval(n.w, n.k); assert!(v.is_finite(), "non-finite float constant in a symbolic term"); self.rnum(v) } else if n.w == 1 { if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.bvnum(n.w, n.k) },
                Op::Var => {
                    let nm = cs(&format!("v{}", n.a));
                    if is_fp(n.w) {
                        let r = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), self.real);
                        let (lo, hi) = { let v = &cx().vars[n.a as usize]; (v.lo, v.hi) };
                        let s = vec![self.le(self.rnum(lo), r), self.le(r, self.rnum(hi))];
                        self.side.insert(e, s);
                        r
                    } else {
                        let k = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bv_sort(c, n.w as u32));
                        if n.w == 1 { Z3_mk_eq(c, k, self.bvnum(1, 1)) } else { k }
                    }
                }
                Op::Not => { let a = self.tr(n.a); if n.w == 1 { Z3_mk_not(c, a) } else { Z3_mk_bvnot(c, a) } }
                Op::And | Op::Or | Op::Xor if n.w == 1 => {
                    let v = [self.tr(n.a), self.tr(n.b)];
                    match n.op { Op::And => Z3_mk_and(c, 2, v.as_ptr()), Op::Or => Z3_mk_or(c, 2, v.as_ptr()), _ => Z3_mk_xor(c, v[0], v[1]) }
                }
                Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Shl | Op::LShr | Op::AShr => {
                    let (a, b) = (self.bv(n.a), self.bv(n.b));
                    let r = match n.op { Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b), Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b), Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b), Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), _ => Z3_mk_bvashr(c, a, b) };
                    if n.w == 1 { Z3_mk_eq(c, r, self.bvnum(1, 1)) } else { r }
                }
                Op::Eq => { let (a, b) = (self.tr(n.a), self.tr(n.b)); Z3_mk_eq(c, a, b) }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => { let (a, b) = (self.bv(n.a), self.bv(n.b)); match n.op { Op::Ult => Z3_mk_bvult(c, a, b), Op::Ule => Z3_mk_bvule(c, a, b), Op::Slt => Z3_mk_bvslt(c, a, b), _ => Z3_mk_bvsle(c, a, b) } }
                Op::Ite => { let (a, b, d) = (self.tr(n.a), self.tr(n.b), self.tr(n.c)); Z3_mk_ite(c, a, b, d) }
                Op::Concat => { let (a, b) = (self.bv(n.a), self.bv(n.b)); Z3_mk_concat(c, a, b) }
                Op::Extract => { let a = self.bv(n.a); let r = Z3_mk_extract(c, (n.k >> 16) as u32, (n.k & 0xffff) as u32, a); if n.w == 1 { Z3_mk_eq(c, r, self.bvnum(1, 1)) } else { r } }
                Op::ZExt => { let a = self.bv(n.a); Z3_mk_zero_ext(c, (n.w - width(n.a)) as u32, a) }
                Op::SExt => { let a = self.bv(n.a); Z3_mk_sign_ext(c, (n.w - width(n.a)) as u32, a) }
                Op::FEq => { let (a, b) = (self.tr(n.a), self.tr(n.b)); Z3_mk_eq(c, a, b) }
                Op::FLt => { let (a, b) = (self.tr(n.a), self.tr(n.b)); Z3_mk_lt(c, a, b) }
                Op::FLe => { let (a, b) = (self.tr(n.a), self.tr(n.b)); Z3_mk_le(c, a, b) }
                Op::FAdd => { let (a, b) = (self.tr(n.a), self.tr(n.b)); let ex = self.add(a, b); let r = self.round(e, ex, false); self.mono_add(e, r, n.a, a, n.b, b, false); r }
                Op::FSub => { let (a, b) = (self.tr(n.a), self.tr(n.b)); let ex = self.sub(a, b); let r = self.round(e, ex, false); self.mono_add(e, r, n.a, a, n.b, b, true); r }
                Op::FMul => { let (a, b) = (self.tr(n.a), self.tr(n.b)); let ex = self.mul(a, b);
                    // multiplication by a power of two is exact
                    if let Some(k) = as_const(n.b) { let v = fval(n.w, k); if v != 0.0 && v.abs().log2().fract() == 0.0 { self.ast.insert(e, ex); return ex; } }
                    let r = self.round(e, ex, true);
                    // rounding is monotone and the operands are representable: 0<=b<=1, a>=0 => fl(a*b) <= a
                    let (ia, ib) = (interval(n.a), interval(n.b));
                    let mut s = vec![];
                    if ib.0 >= 0.0 && ib.1 <= 1.0 && ia.0 >= 0.0 { s.push(self.le(r, a)); }
                    if ia.0 >= 0.0 && ia.1 <= 1.0 && ib.0 >= 0.0 { s.push(self.le(r, b)); }
                    self.side.get_mut(&e).unwrap().extend(s);
                    r }
                Op::FDiv => {
                    let (a, b) = (self.tr(n.a), self.tr(n.b));
                    let q = self.fresh(format!("q{}", e));
                    let def = Z3_mk_eq(c, self.mul(q, b), a);
                    let nz = Z3_mk_not(c, Z3_mk_eq(c, b, self.rnum(0.0)));
                    let r = self.round(e, q, true);
                    let s = self.side.get_mut(&e).unwrap(); s.push(def); s.push(nz);
                    let (la, lb) = (interval(n.a), interval(n.b));
                    if la.0 >= 0.0 && lb.0 >= 0.0 { let z0 = self.rnum(0.0); let x = self.le(z0, q); self.side.get_mut(&e).unwrap().push(x); }
                    r
                }
                Op::FNeg => { let a = self.tr(n.a); Z3_mk_unary_minus(c, a) }
                Op::FAbs => { let a = self.tr(n.a); Z3_mk_ite(c, Z3_mk_ge(c, a, self.rnum(0.0)), a, Z3_mk_unary_minus(c, a)) }
                Op::FMin => { let (a, b) = (self.tr(n.a), self.tr(n.b)); Z3_mk_ite(c, Z3_mk_le(c, a, b), a, b) }
                Op::FMax => { let (a, b) = (self.tr(n.a), self.tr(n.b)); Z3_mk_ite(c, Z3_mk_le(c, a, b), b, a) }
                Op::FSqrt => {
                    let a = self.tr(n.a);
                    let q = self.fresh(format!("q{}", e));
                    let z0 = self.rnum(0.0);
                    let v = vec![Z3_mk_eq(c, self.mul(q, q), a), self.le(z0, q)];
                    let r = self.round(e, q, false);
                    self.side.get_mut(&e).unwrap().extend(v);
                    r
                }
                Op::FCvt => { let a = self.tr(n.a); if n.w == F64 { a } else { self.round(e, a, true) } }
                Op::UI2F => { let s = self.bitsum(n.a, false); if width(n.a) <= 53 { s } else { self.round(e, s, false) } }
                Op::SI2F => { let s = self.bitsum(n.a, true); if width(n.a) <= 53 { s } else { self.round(e, s, false) } }
                Op::FFromBits => { let k = nd(n.a); let h = nd(k.a).k; let ex = (h & 0x7ff) as i32 - 1023; let m = self.bitsum(k.b, false);
                    let t = self.add(self.rnum(1.0), self.mul(m, self.rnum(2f64.powi(-52))));
                    let sg = if (h >> 11) & 1 == 1 { -1.0 } else { 1.0 };
                    self.mul(t, self.rnum(sg * 2f64.powi(ex))) }
                Op::FFn => {
                    let a = self.tr(n.a);
                    let r = self.fresh(format!("r{}", e));
                    let (lo, hi) = interval(e);
                    let mut s = vec![];
                    if lo.is_finite() { s.push(self.le(self.rnum(lo), r)); }
                    if hi.is_finite() { s.push(self.le(r, self.rnum(hi))); }
                    if n.k == 0 { // exp
                        let (z0, z1) = (self.rnum(0.0), self.rnum(1.0));
                        s.push(self.imp(self.le(a, z0), self.le(r, z1)));
                        s.push(self.imp(self.le(z0, a), self.le(z1, r)));
                        // monotone w.r.t. every exp translated so far
                        let others: Vec<E> = self.ast.keys().cloned().filter(|x| { let m = nd(*x); m.op == Op::FFn && m.k == 0 && m.w == n.w }).collect();
                        for o in others { let oa = self.tr(nd(o).a); let or = self.ast[&o]; s.push(self.imp(self.le(a, oa), self.le(r, or))); s.push(self.imp(self.le(oa, a), self.le(or, r))); }
                    }
                    self.side.insert(e, s);
                    r
                }
                Op::FFloor => { let a = self.tr(n.a); let (r, _, sd) = self.intpart(e, a, interval(n.a), n.k as u32, 64); self.side.insert(e, sd); r }
                Op::F2UI | Op::F2SI => {
                    let a = self.tr(n.a);
                    let (lo, hi) = interval(n.a);
                    assert!(n.op == Op::F2SI || lo > -1.0, "float->int conversion outside the encodable range");
                    let (_, b, sd) = self.intpart(e, a, (lo, hi), 2, n.w);
                    self.side.insert(e, sd);
                    b
                }
                Op::FBits => panic!("bit pattern of a symbolic float used in an integer operation: {}", show(e)),
            }
        };
        self.ast.insert(e, z);
        z
    }
    /// integer part of a real: mode 0 floor, 1 ceil, 2 truncate, 3 round half away from zero; as a real and as a bit vector
    fn intpart(&mut self, e: E, a: Z, (lo, hi): (f64, f64), mode: u32, w: u16) -> (Z, Z, Vec<Z>) {
        assert!(lo > -1048576.0 && hi < 1048576.0, "rounding outside the encodable range");
        assert!(mode <= 3, "rounding mode");
        let c = self.c;
        let base = if lo >= 0.0 { 0i64 } else { lo.floor() as i64 - 1 };
        let span = (hi.ceil().max(0.0) as i64 + 1 - base).max(1) as u64;
        let bits = ((64 - span.leading_zeros()) as u16).min(w.saturating_sub(1)).max(1);
        unsafe {
            let nm = cs(&format!("i{}", e));
            let b = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), Z3_mk_bv_sort(c, bits as u32));
            let mut terms = vec![self.rnum(base as f64)];
            for i in 0..bits { let bit = Z3_mk_eq(c, Z3_mk_extract(c, i as u32, i as u32, b), self.bvnum(1, 1)); terms.push(Z3_mk_ite(c, bit, self.rnum(2f64.powi(i as i32)), self.rnum(0.0))); }
            let s = Z3_mk_add(c, terms.len() as u32, terms.as_ptr());
            let fl = |x: Z| { let v = [self.le(s, x), Z3_mk_lt(c, x, self.add(s, self.rnum(1.0)))]; Z3_mk_and(c, 2, v.as_ptr()) };
            let ce = |x: Z| { let v = [self.le(x, s), Z3_mk_lt(c, s, self.add(x, self.rnum(1.0)))]; Z3_mk_and(c, 2, v.as_ptr()) };
            let z0 = self.rnum(0.0);
            let side = match mode {
                0 => vec![fl(a)],
                1 => vec![ce(a)],
                _ => { let (p, m) = if mode == 2 { (a, a) } else { (self.add(a, self.rnum(0.5)), self.add(a, self.rnum(-0.5))) };
                    let mut v = vec![];
                    if hi >= 0.0 { v.push(self.imp(self.le(z0, a), fl(p))); }
                    if lo < 0.0 { v.push(self.imp(Z3_mk_lt(c, a, z0), ce(m))); }
                    v }
            };
            let z = Z3_mk_zero_ext(c, (w - bits) as u32, b);
            let z = if base == 0 { z } else { Z3_mk_bvadd(c, z, self.bvnum(w, (base as i128 as u128) & (if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }))) };
            (s, z, side)
        }
    }
    /// bound on |float value - exact real value of the same expression tree| (infinite: no bound)
    fn err(&mut self, e: E) -> f64 {
        if let Some(&x) = self.errs.get(&e) { return x; }
        let n = nd(e);
        let u = if n.w == F64 { 2f64.powi(-53) } else { 2f64.powi(-24) };
        let eta = if n.w == F64 { 1e-300 } else { 1e-38 };
        let mx = |i: (f64, f64)| i.0.abs().max(i.1.abs());
        let m = mx(interval(e));
        let r = match n.op {
            Op::Const | Op::Var => 0.0,
            Op::FAdd | Op::FSub => self.err(n.a) + self.err(n.b) + u * m,
            Op::FMul => { let (ea, eb) = (self.err(n.a), self.err(n.b)); let (ma, mb) = (mx(interval(n.a)), mx(interval(n.b)));
                let p = |x: f64, y: f64| if x == 0.0 || y == 0.0 { 0.0 } else { x * y };
                p(ma, eb) + p(mb, ea) + p(ea, eb) + u * m + eta }
            Op::FDiv => {
                let (ea, eb) = (self.err(n.a), self.err(n.b)); let ib = interval(n.b);
                let lb = if ib.0 > 0.0 { ib.0 } else if ib.1 < 0.0 { -ib.1 } else { 0.0 };
                let lb = lb.max(self.lbs.get(&n.b).map_or(0.0, |x| x.abs()));
                let m = if m.is_finite() { m } else { mx(interval(n.a)) / lb };
                if lb <= 2.0 * eb || lb == 0.0 { f64::INFINITY } else { let ma = mx(interval(n.a)); ((ea + (ma / lb) * eb) / (lb - eb)) + u * m + eta }
            }
            Op::FNeg | Op::FAbs => self.err(n.a),
            Op::Ite | Op::FMin | Op::FMax => { let (x, y) = if n.op == Op::Ite { (n.b, n.c) } else { (n.a, n.b) }; self.err(x).max(self.err(y)) }
            Op::FCvt => if n.w == F64 { self.err(n.a) } else { self.err(n.a) + u * m + eta },
            Op::UI2F | Op::SI2F => if width(n.a) <= 53 && n.w == F64 { 0.0 } else { u * m },
            _ => 0.0,
        };
        let r = if r.is_nan() { f64::INFINITY } else { r * 1.0001 };
        self.errs.insert(e, r);
        r
    }
    fn fr_mul(&self, a: Option<Z>, b: Option<Z>) -> Option<Z> { match (a, b) { (None, x) | (x, None) => x, (Some(x), Some(y)) => Some(self.mul(x, y)) } }
    fn tm(&self, a: Z, d: Option<Z>) -> Z { match d { None => a, Some(y) => self.mul(a, y) } }
    /// exact real value of a float expression as a fraction (denominator positive); side facts are collected in `d`
    fn rx(&mut self, e: E, d: &mut Vec<Z>) -> Option<(Z, Option<Z>)> {
        if let Some((z, ds)) = self.rxs.get(&e) { d.extend(ds.iter()); return Some(*z); }
        let n = nd(e); let c = self.c;
        let mut ds: Vec<Z> = vec![];
        if self.err(e) > 1e-3 { self.errs.insert(e, 0.0); self.cuts.insert(e); }
        let z: (Z, Option<Z>) = if self.cuts.contains(&e) { let z = self.tr(e); let mut seen = HashSet::new(); self.sides(e, &mut seen, &mut ds); (z, None) } else { unsafe { match n.op {
            Op::Const => (self.tr(e), None),
            Op::Var => { let z = self.tr(e); ds.extend(self.side.get(&e).cloned().unwrap_or_default()); (z, None) }
            Op::FAdd | Op::FSub => { let ((a, p), (b, q)) = (self.rx(n.a, &mut ds)?, self.rx(n.b, &mut ds)?);
                if p == q { (if n.op == Op::FAdd { self.add(a, b) } else { self.sub(a, b) }, p) }
                else { let (x, y) = (self.tm(a, q), self.tm(b, p)); (if n.op == Op::FAdd { self.add(x, y) } else { self.sub(x, y) }, self.fr_mul(p, q)) } }
            Op::FMul => { let ((a, p), (b, q)) = (self.rx(n.a, &mut ds)?, self.rx(n.b, &mut ds)?); (self.mul(a, b), self.fr_mul(p, q)) }
            Op::FDiv => { let ((a, p), (b, q)) = (self.rx(n.a, &mut ds)?, self.rx(n.b, &mut ds)?);
                let ib = interval(n.b);
                let neg = ib.1 < 0.0 || *self.lbs.get(&n.b).unwrap_or(&0.0) < 0.0;
                let (num, den) = (self.tm(a, q), self.tm(b, p));
                let (num, den) = if neg { (Z3_mk_unary_minus(c, num), Z3_mk_unary_minus(c, den)) } else { (num, den) };
                ds.push(Z3_mk_lt(c, self.rnum(0.0), den));
                (num, Some(den)) }
            Op::FNeg => { let (a, p) = self.rx(n.a, &mut ds)?; (Z3_mk_unary_minus(c, a), p) }
            Op::FAbs => { let (a, p) = self.rx(n.a, &mut ds)?; (Z3_mk_ite(c, Z3_mk_ge(c, a, self.rnum(0.0)), a, Z3_mk_unary_minus(c, a)), p) }
            Op::FMin | Op::FMax => { let ((a, p), (b, q)) = (self.rx(n.a, &mut ds)?, self.rx(n.b, &mut ds)?); let (x, y) = (self.tm(a, q), self.tm(b, p)); let le = Z3_mk_le(c, x, y); (if n.op == Op::FMin { Z3_mk_ite(c, le, x, y) } else { Z3_mk_ite(c, le, y, x) }, self.fr_mul(p, q)) }
            Op::FCvt => self.rx(n.a, &mut ds)?,
            Op::Ite => { let ((a, p), (b, q)) = (self.rx(n.b, &mut ds)?, self.rx(n.c, &mut ds)?);
                let pv = Z3_mk_const(c, Z3_mk_string_symbol(c, cs(&format!("p{}", e)).as_ptr()), Z3_mk_bool_sort(c));
                let (t, f) = (self.rel(n.a, true, &mut ds)?, self.rel(n.a, false, &mut ds)?);
                ds.push(self.imp(pv, t)); ds.push(self.imp(Z3_mk_not(c, pv), f));
                if p == q { (Z3_mk_ite(c, pv, a, b), p) } else { let (x, y) = (self.tm(a, q), self.tm(b, p)); (Z3_mk_ite(c, pv, x, y), self.fr_mul(p, q)) } }
            Op::UI2F | Op::SI2F => {
                let z = self.fresh(format!("n{}", e));
                let (lo, hi) = interval(e);
                if lo.is_finite() { ds.push(self.le(self.rnum(lo), z)); } if hi.is_finite() { ds.push(self.le(z, self.rnum(hi))); }
                self.ints.insert(n.a, z);
                (z, None) }
            _ => { let z = self.tr(e); let mut seen = HashSet::new(); self.sides(e, &mut seen, &mut ds); (z, None) }
        } } };
        d.extend(ds.iter());
        self.rxs.insert(e, (z, ds));
        Some(z)
    }
    /// relaxed truth of a boolean expression: implied by `e == pol` under IEEE semantics
    fn rel(&mut self, e: E, pol: bool, d: &mut Vec<Z>) -> Option<Z> {
        let n = nd(e); let c = self.c;
        if !has_fp(e) { let z = self.tr(e); return Some(if pol { z } else { unsafe { Z3_mk_not(c, z) } }); }
        unsafe { Some(match n.op {
            Op::Not => self.rel(n.a, !pol, d)?,
            Op::And | Op::Or if n.w == 1 => { let v = [self.rel(n.a, pol, d)?, self.rel(n.b, pol, d)?]; if (n.op == Op::And) == pol { Z3_mk_and(c, 2, v.as_ptr()) } else { Z3_mk_or(c, 2, v.as_ptr()) } }
            Op::Xor | Op::Eq if n.w == 1 && width(n.a) == 1 => {
                let same = (n.op == Op::Eq) == pol;
                let (a1, a0, b1, b0) = (self.rel(n.a, true, d)?, self.rel(n.a, false, d)?, self.rel(n.b, true, d)?, self.rel(n.b, false, d)?);
                let x = if same { [a1, b1] } else { [a1, b0] }; let y = if same { [a0, b0] } else { [a0, b1] };
                let v = [Z3_mk_and(c, 2, x.as_ptr()), Z3_mk_and(c, 2, y.as_ptr())]; Z3_mk_or(c, 2, v.as_ptr()) }
            Op::Ite if n.w == 1 => { let x = [self.rel(n.a, true, d)?, self.rel(n.b, pol, d)?]; let y = [self.rel(n.a, false, d)?, self.rel(n.c, pol, d)?]; let v = [Z3_mk_and(c, 2, x.as_ptr()), Z3_mk_and(c, 2, y.as_ptr())]; Z3_mk_or(c, 2, v.as_ptr()) }
            Op::FLt | Op::FLe | Op::FEq => {
                let ((a, p), (b, q)) = (self.rx(n.a, d)?, self.rx(n.b, d)?);
                let s = (self.err(n.a) + self.err(n.b)) * 1.0001;
                if !s.is_finite() { return Some(Z3_mk_true(c)); }
                let sz = self.rnum(s);
                let (a, b, sz) = if p == q { (a, b, self.tm(sz, p)) } else { (self.tm(a, q), self.tm(b, p), match self.fr_mul(p, q) { None => sz, Some(m) => self.mul(sz, m) }) };
                match (n.op, pol) {
                    (Op::FLt, true) => if s == 0.0 { Z3_mk_lt(c, a, b) } else { self.le(a, self.add(b, sz)) },
                    (Op::FLe, true) => if s == 0.0 { self.le(a, b) } else { self.le(a, self.add(b, sz)) },
                    (Op::FLt, false) => if s == 0.0 { self.le(b, a) } else { self.le(b, self.add(a, sz)) },
                    (Op::FLe, false) => if s == 0.0 { Z3_mk_lt(c, b, a) } else { self.le(b, self.add(a, sz)) },
                    (_, true) => { let v = [self.le(a, self.add(b, sz)), self.le(b, self.add(a, sz))]; Z3_mk_and(c, 2, v.as_ptr()) }
                    (_, false) => if s == 0.0 { Z3_mk_not(c, Z3_mk_eq(c, a, b)) } else { Z3_mk_true(c) },
                }
            }
            _ => return None,
        }) }
    }
    /// order facts between integers whose real values appear in the query
    fn int_facts(&mut self, key: &[E], out: &mut Vec<Z>) {
        let find = |me: &Solver, x: E| -> Option<Z> {
            if let Some(k) = as_const(x) { if width(x) <= 53 { return Some(me.rnum(k as f64)); } }
            if let Some(z) = me.ints.get(&x) { return Some(*z); }
            let n = nd(x); if n.op == Op::ZExt { if let Some(z) = me.ints.get(&n.a) { return Some(*z); } }
            for (k, z) in &me.ints { let n = nd(*k); if n.op == Op::ZExt && n.a == x { return Some(*z); } }
            None };
        for e in key {
            let n = nd(*e);
            let (p, m) = if n.op == Op::Not { (false, nd(n.a)) } else { (true, n) };
            if !matches!(m.op, Op::Ult | Op::Ule | Op::Eq) || is_fp(width(m.a)) || width(m.a) == 1 { continue; }
            if let (Some(a), Some(b)) = (find(self, m.a), find(self, m.b)) {
                let one = self.rnum(1.0);
                out.push(unsafe { match (m.op, p) { (Op::Ult, true) => self.le(self.add(a, one), b), (Op::Ule, true) => self.le(a, b), (Op::Ult, false) => self.le(b, a), (Op::Ule, false) => self.le(self.add(b, one), a), (_, true) => Z3_mk_eq(self.c, a, b), (_, false) => Z3_mk_not(self.c, Z3_mk_eq(self.c, a, b)) } });
            }
        }
    }
    unsafe fn solve(&mut self, sol: Z, asserts: &[Z], ms: u32) -> c_int {
        for z in asserts { Z3_solver_assert(self.c, sol, *z); }
        arm(self.c, ms);
        let r = Z3_solver_check(self.c, sol);
        arm(self.c, 0);
        r
    }
    fn sides(&mut self, e: E, seen: &mut HashSet<E>, out: &mut Vec<Z>) {
        if !seen.insert(e) { return; }
        if let Some(s) = self.side.get(&e) { out.extend(s.iter()); }
        for k in children(&nd(e)) { self.sides(k, seen, out); }
    }
    /// is constraints /\ cond satisfiable? Only the constraints sharing variables with cond are sent.
    pub fn check(&mut self, constraints: &[E], cond: E, base: Option<&Rc<Model>>) -> Res {
        if let Some(k) = as_const(cond) { if k == 0 { return Res::Unsat; } }
        // slice
        let mut vars: HashSet<u32> = varset(cond).iter().cloned().collect();
        let mut used = vec![false; constraints.len()];
        loop {
            let mut ch = false;
            for (i, c) in constraints.iter().enumerate() {
                if used[i] { continue; }
                let vs = varset(*c);
                if vs.iter().any(|v| vars.contains(v)) { used[i] = true; ch = true; vars.extend(vs.iter()); }
            }
            if !ch { break; }
        }
        let mut key: Vec<E> = constraints.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, c)| *c).collect();
        key.push(cond);
        key.sort_unstable(); key.dedup();
        if let Some(r) = if self.nodom { None } else { self.cache.get(&key) } { self.cached += 1; return self.extend(r.clone(), &vars, base); }
        // one byte against a path condition over several: the byte's own constraints first
        if !self.nodom && vars.len() > 1 {
            let vs = varset(cond);
            if vs.len() == 1 && cx().vars[vs[0] as usize].w <= 8 {
                let v = vs[0]; let w = cx().vars[v as usize].w;
                let mut acc = full_table(w);
                for e in &key { if varset(*e).len() == 1 && varset(*e)[0] == v { let t = self.table(*e, v, w); for i in 0..4 { acc[i] &= t[i]; } } }
                if acc == [0; 4] { self.domq += 1; self.cache.insert(key, Res::Unsat); return Res::Unsat; }
                if let Some(b) = base {
                    let mut tried = 0;
                    'o: for k in 0..(1u32 << w) {
                        if acc[(k / 64) as usize] >> (k % 64) & 1 == 0 { continue; }
                        tried += 1; if tried > 6 { break; }
                        let mut vals = b.vals.clone(); vals.insert(v, k as u128);
                        let m = Model::new(vals);
                        for e in &key { if m.eval(*e) != 1 { continue 'o; } }
                        self.domq += 1;
                        return Res::Sat(Rc::new(m));
                    }
                }
            }
        }
        // constraint-solving fast path for feasibility questions about a single byte: exact truth tables
        if !self.nodom && vars.len() == 1 {
            let v = *vars.iter().next().unwrap();
            let w = cx().vars[v as usize].w;
            if w <= 8 {
                let mut acc = full_table(w);
                for e in &key { let t = self.table(*e, v, w); for i in 0..4 { acc[i] &= t[i]; } }
                self.domq += 1;
                let r = match (0..4).find(|i| acc[*i] != 0) {
                    None => Res::Unsat,
                    Some(i) => { let k = i as u128 * 64 + acc[i].trailing_zeros() as u128; let mut vals = HashMap::new(); vals.insert(v, k); Res::Sat(Rc::new(Model::new(vals))) }
                };
                self.cache.insert(key, r.clone());
                return self.extend(r, &vars, base);
            }
        }
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let fp = key.iter().any(|e| has_fp(*e));
        let r = self.run(&key, fp, &vars);
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.slow { self.slow = dt; }
        if fp { self.fpqueries += 1; }
        match &r { Res::Sat(_) => self.sat += 1, Res::Maybe => self.maybe += 1, Res::Unsat => self.unsat += 1, Res::Unknown => self.unknown += 1 }
        self.cache.insert(key, r.clone());
        self.extend(r, &vars, base)
    }
    fn table(&mut self, e: E, v: u32, w: u16) -> [u64; 4] {
        if let Some(t) = self.tt.get(&e) { return *t; }
        let mut t = [0u64; 4];
        for k in 0..(1u32 << w) { let mut m = HashMap::new(); m.insert(v, k as u128); if Model::new(m).eval(e) == 1 { t[(k / 64) as usize] |= 1 << (k % 64); } }
        self.tt.insert(e, t);
        t
    }
    /// complete a slice model with the values of `base` for the other variables
    fn extend(&self, r: Res, vars: &HashSet<u32>, base: Option<&Rc<Model>>) -> Res {
        match r {
            Res::Sat(m) => match base {
                Some(b) => { let mut vals = b.vals.clone(); for v in vars { vals.insert(*v, m.var(*v)); } Res::Sat(Rc::new(Model::new(vals))) }
                None => Res::Maybe,
            },
            x => x,
        }
    }
    fn run(&mut self, key: &[E], fp: bool, vars: &HashSet<u32>) -> Res {
        unsafe {
            let c = self.c;
            let s = if fp { self.fpsolver } else { self.bvsolver };
            Z3_solver_reset(c, s);
            let t0 = std::time::Instant::now();
            let mut res = 0; let mut sol = s;
            if fp {
                // 0. order only: every float operation is an unknown real in its interval, comparisons are exact
                if key.iter().map(|e| natoms(*e)).sum::<usize>() > 1 {
                    let mut d = vec![]; let mut memo = HashMap::new();
                    let mut v: Vec<Z> = key.iter().map(|e| self.ord(*e, &mut memo, &mut d)).collect();
                    v.extend(d.iter());
                    res = self.solve(s, &v, self.timeout_ms / 4);
                    if res == -1 { return Res::Unsat; }
                    Z3_solver_reset(c, s);
                }
                // 1. exact real arithmetic with per-comparison slack (rounding-error analysis)
                let lbs = lower_bounds(key);
                if lbs != self.lbs { self.lbs = lbs; self.errs.clear(); self.rxs.clear(); self.cuts.clear(); }
                let mut d = vec![]; let mut ra: Option<Vec<Z>> = Some(vec![]);
                for e in key { match self.rel(*e, true, &mut d) { Some(z) => { if let Some(v) = &mut ra { v.push(z) } } None => { ra = None; break; } } }
                if let Some(mut v) = ra {
                    v.extend(d.iter());
                    self.int_facts(key, &mut v);
                    v.sort(); v.dedup();
                    for z in v.iter_mut() { *z = Z3_simplify_ex(c, *z, self.som); }
                    res = self.solve(s, &v, self.timeout_ms / 4);
                    if res == 0 { let n = Z3_mk_solver_from_tactic(c, self.nlt); Z3_solver_inc_ref(c, n); res = self.solve(n, &v, self.timeout_ms / 4); sol = n; }
                    if self.dump && t0.elapsed().as_secs_f64() > 2.0 { eprintln!("; slow relaxed query {:.1}s res {}\n{}", t0.elapsed().as_secs_f64(), res, CStr::from_ptr(Z3_solver_to_string(c, sol)).to_string_lossy()); }
                    if res == -1 { return Res::Unsat; }
                    if res == 1 { let md = self.get_model(sol, vars); if key.iter().all(|e| md.eval(*e) == 1) { return Res::Sat(Rc::new(md)); } if let Res::Sat(m) = self.repair(key, vars, md) { return Res::Sat(m); } }
                }
                // 2. explicit rounding errors
                Z3_solver_reset(c, s); sol = s;
                let mut seen = HashSet::new(); let mut sd = vec![];
                for e in key { let z = self.tr(*e); sd.push(z); self.sides(*e, &mut seen, &mut sd); }
                res = self.solve(s, &sd, self.timeout_ms);
                if res == 0 { let n = Z3_mk_solver_from_tactic(c, self.nlt); Z3_solver_inc_ref(c, n); res = self.solve(n, &sd, self.timeout_ms); sol = n; }
            } else {
                let sd: Vec<Z> = key.iter().map(|e| self.tr(*e)).collect();
                res = self.solve(s, &sd, self.timeout_ms);
            }
            if self.dump && t0.elapsed().as_secs_f64() > 2.0 { eprintln!("; slow query {:.1}s res {}\n{}", t0.elapsed().as_secs_f64(), res, CStr::from_ptr(Z3_solver_to_string(c, sol)).to_string_lossy()); }
            if res == -1 { return Res::Unsat; }
            if res == 0 { if self.dump { eprintln!("; unknown: {}", key.iter().map(|e| show(*e)).collect::<Vec<_>>().join("\n")); } return Res::Unknown; }
            let md = self.get_model(sol, vars);
            for e in key { if md.eval(*e) != 1 { if self.dump { eprintln!("; maybe: {}", key.iter().map(|e| show(*e)).collect::<Vec<_>>().join("\n")); } return self.repair(key, vars, md); } }
            Res::Sat(Rc::new(md))
        }
    }
    /// translation which keeps the boolean structure, integers and comparisons but forgets what float operations compute
    fn ord(&mut self, e: E, memo: &mut HashMap<E, Z>, d: &mut Vec<Z>) -> Z {
        if let Some(z) = memo.get(&e) { return *z; }
        let n = nd(e); let c = self.c;
        let z = unsafe {
            if is_fp(n.w) {
                match n.op {
                    Op::Const => self.tr(e),
                    Op::Var => { let z = self.tr(e); d.extend(self.side.get(&e).cloned().unwrap_or_default()); z }
                    Op::Ite => { let (a, x, y) = (self.ord(n.a, memo, d), self.ord(n.b, memo, d), self.ord(n.c, memo, d)); Z3_mk_ite(c, a, x, y) }
                    _ => { let z = self.fresh(format!("o{}", e)); let (lo, hi) = interval(e); if lo.is_finite() { d.push(self.le(self.rnum(lo), z)); } if hi.is_finite() { d.push(self.le(z, self.rnum(hi))); } z }
                }
            } else if !has_fp(e) { self.tr(e) } else {
                match n.op {
                    Op::Not if n.w == 1 => { let a = self.ord(n.a, memo, d); Z3_mk_not(c, a) }
                    Op::And | Op::Or | Op::Xor if n.w == 1 => { let v = [self.ord(n.a, memo, d), self.ord(n.b, memo, d)]; match n.op { Op::And => Z3_mk_and(c, 2, v.as_ptr()), Op::Or => Z3_mk_or(c, 2, v.as_ptr()), _ => Z3_mk_xor(c, v[0], v[1]) } }
                    Op::Eq => { let (a, b) = (self.ord(n.a, memo, d), self.ord(n.b, memo, d)); Z3_mk_eq(c, a, b) }
                    Op::Ult | Op::Ule if width(n.a) > 1 => { let (a, b) = (self.ord(n.a, memo, d), self.ord(n.b, memo, d)); if n.op == Op::Ult { Z3_mk_bvult(c, a, b) } else { Z3_mk_bvule(c, a, b) } }
                    Op::Ite => { let (a, x, y) = (self.ord(n.a, memo, d), self.ord(n.b, memo, d), self.ord(n.c, memo, d)); Z3_mk_ite(c, a, x, y) }
                    Op::FLt | Op::FLe | Op::FEq => { let (a, b) = (self.ord(n.a, memo, d), self.ord(n.b, memo, d)); match n.op { Op::FLt => Z3_mk_lt(c, a, b), Op::FLe => self.le(a, b), _ => Z3_mk_eq(c, a, b) } }
                    _ => { let so = if n.w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, n.w as u32) }; Z3_mk_const(c, Z3_mk_string_symbol(c, cs(&format!("o{}", e)).as_ptr()), so) }
                }
            }
        };
        memo.insert(e, z);
        z
    }
    unsafe fn get_model(&mut self, sol: Z, vars: &HashSet<u32>) -> Model {
            let c = self.c;
            let m = Z3_solver_get_model(c, sol);
            Z3_model_inc_ref(c, m);
            let mut vals = HashMap::new();
            for &v in vars {
                let w = cx().vars[v as usize].w;
                let nm = cs(&format!("v{}", v));
                let so = if is_fp(w) { self.real } else { Z3_mk_bv_sort(c, w as u32) };
                let k = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), so);
                let mut out: Z = std::ptr::null_mut();
                Z3_model_eval(c, m, k, true, &mut out);
                if is_fp(w) {
                    let st = CStr::from_ptr(Z3_get_numeral_decimal_string(c, out, 40)).to_string_lossy().to_string();
                    let mut x: f64 = st.trim_end_matches('?').parse().unwrap_or(0.0);
                    let (lo, hi) = { let i = &cx().vars[v as usize]; (i.lo, i.hi) };
                    if x < lo { x = lo } if x > hi { x = hi }
                    vals.insert(v, if w == F64 { x.to_bits() as u128 } else { (x as f32).to_bits() as u128 });
                } else {
                    let st = CStr::from_ptr(Z3_get_numeral_string(c, out)).to_string_lossy().to_string();
                    vals.insert(v, st.parse::<u128>().unwrap());
                }
            }
            Z3_model_dec_ref(c, m);
            Model::new(vals)
    }
    /// the real-valued model does not survive rounding: look for nearby IEEE values that do
    fn repair(&mut self, key: &[E], vars: &HashSet<u32>, md: Model) -> Res {
        let fv: Vec<u32> = vars.iter().cloned().filter(|v| is_fp(cx().vars[*v as usize].w)).collect();
        if fv.is_empty() && key.iter().any(|e| has_fp(*e)) { return Res::Maybe; }
        if fv.is_empty() { panic!("bit-vector model rejected by evaluator: {}", key.iter().filter(|e| md.eval(**e) != 1).map(|e| show(*e)).collect::<Vec<_>>().join(" ; ")); }
        let mut seed: u64 = 0x9E3779B97F4A7C15;
        let mut rnd = move || { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; seed };
        for round in 0..200u32 {
            let mut vals = md.vals.clone();
            for v in &fv {
                let i = &cx().vars[*v as usize];
                let x = fval(i.w, md.var(*v));
                let y = match round { 0 => (x * 64.0).round() / 64.0, 1 => (x * 1024.0).round() / 1024.0, 2 => (x * 1e4).round() / 1e4, _ => { let d = 10f64.powi(-((rnd() % 14) as i32) - 2) * ((rnd() % 2001) as f64 / 1000.0 - 1.0); if rnd() % 3 == 0 { x } else { x + d } } };
                let y = y.max(i.lo).min(i.hi);
                vals.insert(*v, if i.w == F64 { y.to_bits() as u128 } else { (y as f32).to_bits() as u128 });
            }
            let m = Model::new(vals);
            if key.iter().all(|e| m.eval(*e) == 1) { return Res::Sat(Rc::new(m)); }
        }
        Res::Maybe
    }
}
fn natoms(e: E) -> usize { let mut st = vec![e]; let mut k = 0; let mut seen = HashSet::new(); while let Some(x) = st.pop() { if !seen.insert(x) { continue; } let n = nd(x); if matches!(n.op, Op::FLt | Op::FLe | Op::FEq) { k += 1; } if !is_fp(n.w) || n.op == Op::Ite { st.extend(children(&n)); } } k }
/// lower bounds on |x| stated by the path condition for float terms (negative: x itself is negative)
fn lower_bounds(key: &[E]) -> HashMap<E, f64> {
    let mut m: HashMap<E, f64> = HashMap::new();
    for e in key {
        let n = nd(*e);
        let (pos, n) = if n.op == Op::Not { (false, nd(n.a)) } else { (true, n) };
        if !matches!(n.op, Op::FLt | Op::FLe) { continue; }
        // normalise to small <= big
        let (small, big) = if pos { (n.a, n.b) } else { (n.b, n.a) };
        if let Some(k) = as_const(small) { let v = fval(width(small), k); if v > 0.0 { let b = nd(big); if b.op == Op::FAbs { let ia = interval(b.a); if ia.0 > -v { let x = m.entry(b.a).or_insert(0.0); *x = x.max(v); } } else { let x = m.entry(big).or_insert(0.0); *x = x.max(v); } } }
        if let Some(k) = as_const(big) { let v = fval(width(big), k); if v < 0.0 { let x = m.entry(small).or_insert(0.0); if *x <= 0.0 { *x = x.min(v); } } }
    }
    m
}
fn full_table(w: u16) -> [u64; 4] { let n = 1u32 << w; let mut a = [0; 4]; for i in 0..4u32 { a[i as usize] = if n >= 64 * (i + 1) { u64::MAX } else if n <= 64 * i { 0 } else { (1u64 << (n - 64 * i)) - 1 }; } a }
fn rational(v: f64) -> String {
    // exact rational text of a finite f64
    if v == 0.0 { return "0".into(); }
    let bits = v.to_bits();
    let s = if bits >> 63 == 1 { "-" } else { "" };
    let ex = ((bits >> 52) & 0x7ff) as i32;
    let mant = if ex == 0 { (bits & ((1 << 52) - 1)) << 1 } else { (bits & ((1 << 52) - 1)) | (1 << 52) };
    let mut e = ex - 1075;
    let mut m = mant;
    while m & 1 == 0 { m >>= 1; e += 1; }
    if e >= 0 { format!("{}{}", s, big_pow2_mul(m, e as u32)) } else { format!("{}{}/{}", s, m, big_pow2_mul(1, (-e) as u32)) }
}
fn big_pow2_mul(m: u64, e: u32) -> String {
    let mut d: Vec<u8> = m.to_string().bytes().rev().map(|b| b - b'0').collect();
    for _ in 0..e { let mut c = 0; for x in d.iter_mut() { let t = *x * 2 + c; *x = t % 10; c = t / 10; } if c > 0 { d.push(c); } }
    d.iter().rev().map(|b| (b + b'0') as char).collect()
}
