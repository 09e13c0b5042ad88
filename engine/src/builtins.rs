//! Intrinsics, libc and runtime entry points.
use crate::exec::*;
use crate::expr::{self, Op, F64};
use crate::ll::*;
use std::rc::Rc;

type R<T> = Result<T, Stop>;
type RV = R<Option<Val>>;
type B = fn(&mut Engine, &mut State, &[Val], &CallIns) -> RV;

fn conc(en: &mut Engine, st: &mut State, v: &Val) -> R<u64> {
    match v { Val::I(x) => Ok(*x), Val::S(e) => Ok(en.concretize(st, *e)? as u64), Val::W(a, _) => Ok(*a), _ => Err(Stop::Unsup("conc".into())) }
}
fn nop(_: &mut Engine, _: &mut State, _: &[Val], ci: &CallIns) -> RV { Ok(if ci.ret == Ty::Void { None } else { Some(zero_of(&ci.ret)) }) }
fn ret_zero(a: &mut Engine, b: &mut State, c: &[Val], d: &CallIns) -> RV { nop(a, b, c, d) }
fn ret_neg1(_: &mut Engine, _: &mut State, _: &[Val], ci: &CallIns) -> RV { Ok(Some(mkint(ci.ret.bits(), -1))) }

fn b_memcpy(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let (d, s, n) = (conc(en, st, &a[0])?, conc(en, st, &a[1])?, conc(en, st, &a[2])?); en.memcpy(st, d, s, n as usize)?; Ok(Some(a[0].clone())) }
fn b_memset(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV {
    let (d, n) = (conc(en, st, &a[0])?, conc(en, st, &a[2])? as usize);
    if n > 0 {
        let off = (d & 0xffff_ffff) as usize;
        let o = en.obj_mut(st, d)?;
        if off + n > o.data.len() { return Err(Stop::Mem("memset out of bounds".into())); }
        match &a[1] {
            Val::I(x) => { for i in 0..n { o.data[off + i] = *x as u8; } clear_sym(o, off, n); }
            Val::S(e) => { let b = if expr::width(*e) > 8 { expr::extract(*e, 7, 0) } else { *e }; for i in 0..n { write_obj(o, off + i, 1, &Val::S(b)); } }
            _ => return Err(Stop::Unsup("memset".into())),
        }
    }
    Ok(Some(a[0].clone()))
}
fn b_memcmp(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV {
    let (p, q, n) = (conc(en, st, &a[0])?, conc(en, st, &a[1])?, conc(en, st, &a[2])?);
    // symbolic result: built back to front; 32-bit three-way result
    let mut acc = expr::konst(32, 0);
    if n == 0 { return Ok(Some(Val::I(0))); }
    let (po, qo) = (en.obj(st, p)?, en.obj(st, q)?);
    let (pf, qf) = ((p & 0xffff_ffff) as usize, (q & 0xffff_ffff) as usize);
    let n = n as usize;
    if pf + n > po.data.len() || qf + n > qo.data.len() { return Err(Stop::Mem("memcmp out of bounds".into())); }
    if po.sym.is_none() && qo.sym.is_none() {
        let r = po.data[pf..pf + n].cmp(&qo.data[qf..qf + n]);
        return Ok(Some(Val::I(match r { std::cmp::Ordering::Less => 0xffff_ffff, std::cmp::Ordering::Equal => 0, _ => 1 })));
    }
    for i in (0..n).rev() {
        let x = to_e(&read_obj(&po, pf + i, 1), 8); let y = to_e(&read_obj(&qo, qf + i, 1), 8);
        let lt = expr::cmp(Op::Ult, x, y);
        let d = expr::ite(lt, expr::konst(32, 0xffff_ffff), expr::konst(32, 1));
        acc = expr::ite(expr::cmp(Op::Eq, x, y), acc, d);
    }
    Ok(Some(from_e(acc)))
}
/// equality only
fn b_bcmp(en: &mut Engine, st: &mut State, a: &[Val], ci: &CallIns) -> RV {
    let (p, q, n) = (conc(en, st, &a[0])?, conc(en, st, &a[1])?, conc(en, st, &a[2])? as usize);
    if n == 0 { return Ok(Some(Val::I(0))); }
    let (po, qo) = (en.obj(st, p)?, en.obj(st, q)?);
    if po.sym.is_none() && qo.sym.is_none() { return b_memcmp(en, st, a, ci); }
    let (pf, qf) = ((p & 0xffff_ffff) as usize, (q & 0xffff_ffff) as usize);
    if pf + n > po.data.len() || qf + n > qo.data.len() { return Err(Stop::Mem("memcmp out of bounds".into())); }
    let mut eq = expr::tru();
    for i in 0..n { let x = to_e(&read_obj(&po, pf + i, 1), 8); let y = to_e(&read_obj(&qo, qf + i, 1), 8); eq = expr::bin(Op::And, eq, expr::cmp(Op::Eq, x, y)); }
    Ok(Some(from_e(expr::ite(eq, expr::konst(32, 0), expr::konst(32, 1)))))
}
fn b_strlen(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV {
    let p = conc(en, st, &a[0])?; let o = en.obj(st, p)?; let off = (p & 0xffff_ffff) as usize;
    let n = o.data[off..].iter().position(|b| *b == 0).ok_or(Stop::Mem("strlen".into()))?; Ok(Some(Val::I(n as u64)))
}
fn b_malloc(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let n = conc(en, st, &a[0])?; Ok(Some(Val::I(en.alloc(st, n)?))) }
fn b_calloc(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let n = conc(en, st, &a[0])? * conc(en, st, &a[1])?; Ok(Some(Val::I(en.alloc(st, n)?))) }
fn b_free(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let p = conc(en, st, &a[0])?; if p != 0 { en.free(st, p)?; } Ok(None) }
fn do_realloc(en: &mut Engine, st: &mut State, p: u64, n: u64) -> RV {
    if p == 0 { return Ok(Some(Val::I(en.alloc(st, n)?))); }
    let o = en.obj(st, p)?;
    let q = en.alloc(st, n)?;
    let k = (o.data.len() as u64).min(n) as usize;
    en.memcpy(st, q, p, k)?;
    en.free(st, p)?;
    Ok(Some(Val::I(q)))
}
fn b_realloc(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let p = conc(en, st, &a[0])?; let n = conc(en, st, &a[1])?; do_realloc(en, st, p, n) }
fn b_posix_memalign(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let d = conc(en, st, &a[0])?; let n = conc(en, st, &a[2])?; let p = en.alloc(st, n)?; en.store(st, &Ty::Ptr, d, &Val::I(p))?; Ok(Some(Val::I(0))) }
fn b_rust_alloc(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let n = conc(en, st, &a[0])?; Ok(Some(Val::I(en.alloc(st, n)?))) }
fn b_rust_dealloc(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let p = conc(en, st, &a[0])?; en.free(st, p)?; Ok(None) }
fn b_rust_realloc(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let p = conc(en, st, &a[0])?; let n = conc(en, st, &a[3])?; do_realloc(en, st, p, n) }

fn loc_str(en: &mut Engine, st: &mut State, v: &Val) -> String {
    let mut go = || -> R<String> {
        let a = conc(en, st, v)?;
        let p = match en.load(st, &Ty::Ptr, a)? { Val::I(p) => p, _ => 0 };
        let n = match en.load(st, &Ty::Int(64), a + 8)? { Val::I(p) => p, _ => 0 };
        let l = match en.load(st, &Ty::Int(32), a + 16)? { Val::I(p) => p, _ => 0 };
        if n > 300 { return Ok("?".into()); }
        let s = en.cstr_bytes(st, p, n as usize)?;
        Ok(format!("{}:{}", String::from_utf8_lossy(&s), l))
    };
    go().unwrap_or("?".into())
}
fn b_panic(en: &mut Engine, st: &mut State, a: &[Val], ci: &CallIns) -> RV {
    // the last pointer argument of the panic entry points is the caller location
    let l = a.iter().rev().next().cloned();
    let s = match l { Some(v) => loc_str(en, st, &v), None => "?".into() };
    let n = match &ci.callee { Callee::Direct(n) => crate::report::demangle(n), _ => "?".into() };
    let first = st.th[st.cur].frames.iter().rev().map(|f| crate::report::demangle(&f.f.name)).find(|n| n.contains("nar20_1")).unwrap_or_default();
    let _ = n;
    Err(Stop::Panic(format!("at {} in {}", s, first)))
}
fn b_abort(en: &mut Engine, st: &mut State, _: &[Val], ci: &CallIns) -> RV { let n = match &ci.callee { Callee::Direct(n) => crate::report::demangle(n), _ => "?".into() }; let w = en.backtrace(st); Err(Stop::Panic(format!("{} in {}", n, w))) }

fn scalar2(en: &mut Engine, st: &mut State, t: &Ty, a: &Val, b: &Val, f: &dyn Fn(&mut Engine, &mut State, &Ty, &Val, &Val) -> R<Val>) -> R<Val> {
    if let (Ty::Vec(_, et), Val::A(x), Val::A(y)) = (t, a, b) { let mut o = vec![]; for i in 0..x.len() { o.push(f(en, st, et, &x[i], &y[i])?); } return Ok(Val::A(Rc::new(o))); }
    f(en, st, t, a, b)
}
fn minmax(en: &mut Engine, st: &mut State, a: &[Val], ci: &CallIns, op: Op, mx: bool) -> RV {
    let r = scalar2(en, st, &ci.ret, &a[0], &a[1], &|_, _, t, x, y| { let w = sort_of(t); let (x, y) = (to_e(x, w), to_e(y, w)); let lt = expr::cmp(op, x, y); Ok(from_e(if mx { expr::ite(lt, y, x) } else { expr::ite(lt, x, y) })) })?;
    Ok(Some(r))
}
fn b_umax(e: &mut Engine, s: &mut State, a: &[Val], c: &CallIns) -> RV { minmax(e, s, a, c, Op::Ult, true) }
fn b_umin(e: &mut Engine, s: &mut State, a: &[Val], c: &CallIns) -> RV { minmax(e, s, a, c, Op::Ult, false) }
fn b_smax(e: &mut Engine, s: &mut State, a: &[Val], c: &CallIns) -> RV { minmax(e, s, a, c, Op::Slt, true) }
fn b_smin(e: &mut Engine, s: &mut State, a: &[Val], c: &CallIns) -> RV { minmax(e, s, a, c, Op::Slt, false) }
fn ovf(a: &[Val], ci: &CallIns, op: Op, signed: bool) -> RV {
    let w = ci.args[0].0.bits() as u16;
    let (x, y) = (to_e(&a[0], w), to_e(&a[1], w));
    let r = expr::bin(op, x, y);
    let o = match (op, signed) {
        (Op::Add, false) => expr::cmp(Op::Ult, r, x),
        (Op::Sub, false) => expr::cmp(Op::Ult, x, y),
        (Op::Mul, false) => { if expr::as_const(x).is_some() && expr::as_const(y).is_some() && w <= 64 { let p = expr::as_const(x).unwrap() * expr::as_const(y).unwrap(); expr::konst(1, (p > expr::mask(w)) as u128) } else { let (xx, yy) = (expr::zext(x, 2 * w), expr::zext(y, 2 * w)); let p = expr::bin(Op::Mul, xx, yy); expr::not(expr::cmp(Op::Eq, expr::extract(p, 2 * w - 1, w), expr::konst(w, 0))) } }
        _ => { let (xx, yy) = (expr::sext(x, if op == Op::Mul { 2 * w } else { w + 1 }), expr::sext(y, if op == Op::Mul { 2 * w } else { w + 1 })); let p = expr::bin(op, xx, yy); expr::not(expr::cmp(Op::Eq, p, expr::sext(r, expr::width(p)))) }
    };
    Ok(Some(Val::A(Rc::new(vec![from_e(r), from_e(o)]))))
}
fn b_uaddo(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { ovf(a, c, Op::Add, false) }
fn b_usubo(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { ovf(a, c, Op::Sub, false) }
fn b_umulo(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { ovf(a, c, Op::Mul, false) }
fn b_saddo(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { ovf(a, c, Op::Add, true) }
fn b_ssubo(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { ovf(a, c, Op::Sub, true) }
fn b_smulo(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { ovf(a, c, Op::Mul, true) }
fn b_uaddsat(en: &mut Engine, st: &mut State, a: &[Val], c: &CallIns) -> RV { Ok(Some(scalar2(en, st, &c.ret, &a[0], &a[1], &|_, _, t, x, y| { let w = sort_of(t); let (x, y) = (to_e(x, w), to_e(y, w)); let r = expr::bin(Op::Add, x, y); Ok(from_e(expr::ite(expr::cmp(Op::Ult, r, x), expr::konst(w, expr::mask(w)), r))) })?)) }
fn b_usubsat(en: &mut Engine, st: &mut State, a: &[Val], c: &CallIns) -> RV { Ok(Some(scalar2(en, st, &c.ret, &a[0], &a[1], &|_, _, t, x, y| { let w = sort_of(t); let (x, y) = (to_e(x, w), to_e(y, w)); let r = expr::bin(Op::Sub, x, y); Ok(from_e(expr::ite(expr::cmp(Op::Ult, x, y), expr::konst(w, 0), r))) })?)) }
fn b_ssat(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns, op: Op) -> RV {
    let w = c.ret.bits() as u16; let (x, y) = (to_e(&a[0], w), to_e(&a[1], w));
    let p = expr::bin(op, expr::sext(x, w + 1), expr::sext(y, w + 1)); let r = expr::extract(p, w - 1, 0);
    let neg = expr::extract(p, w, w); let o = expr::not(expr::cmp(Op::Eq, p, expr::sext(r, w + 1)));
    Ok(Some(from_e(expr::ite(o, expr::ite(neg, expr::konst(w, 1u128 << (w - 1)), expr::konst(w, (1u128 << (w - 1)) - 1)), r))))
}
fn b_saddsat(e: &mut Engine, s: &mut State, a: &[Val], c: &CallIns) -> RV { b_ssat(e, s, a, c, Op::Add) }
fn b_ssubsat(e: &mut Engine, s: &mut State, a: &[Val], c: &CallIns) -> RV { b_ssat(e, s, a, c, Op::Sub) }
fn b_ctpop(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV {
    let w = c.ret.bits() as u16;
    match &a[0] { Val::I(x) => Ok(Some(Val::I(x.count_ones() as u64))), v => { let e = to_e(v, w); let mut s = expr::konst(w, 0); for i in 0..w { s = expr::bin(Op::Add, s, expr::zext(expr::extract(e, i, i), w)); } Ok(Some(from_e(s))) } }
}
fn b_cttz(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV {
    let w = c.ret.bits() as u16; let e = to_e(&a[0], w);
    if let Some(k) = expr::as_const(e) { return Ok(Some(mkint(w as u32, if k == 0 { w as i128 } else { k.trailing_zeros() as i128 }))); }
    let mut r = expr::konst(w, w as u128);
    for i in (0..w).rev() { r = expr::ite(expr::extract(e, i, i), expr::konst(w, i as u128), r); }
    Ok(Some(from_e(r)))
}
fn b_ctlz(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV {
    let w = c.ret.bits() as u16; let e = to_e(&a[0], w);
    let mut r = expr::konst(w, w as u128);
    for i in 0..w { r = expr::ite(expr::extract(e, i, i), expr::konst(w, (w - 1 - i) as u128), r); }
    Ok(Some(from_e(r)))
}
fn b_bswap(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { let w = c.ret.bits() as u16; let e = to_e(&a[0], w); let mut r = expr::extract(e, 7, 0); for i in 1..w / 8 { r = expr::concat(r, expr::extract(e, 8 * i + 7, 8 * i)); } Ok(Some(from_e(r))) }
fn b_bitrev(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { let w = c.ret.bits() as u16; let e = to_e(&a[0], w); let mut r = expr::extract(e, 0, 0); for i in 1..w { r = expr::concat(r, expr::extract(e, i, i)); } Ok(Some(from_e(r))) }
fn fsh(a: &[Val], c: &CallIns, left: bool) -> RV {
    let w = c.ret.bits() as u16; let (x, y, s) = (to_e(&a[0], w), to_e(&a[1], w), to_e(&a[2], w));
    let cc = expr::concat(x, y);
    let sh = expr::zext(expr::bin(Op::URem, s, expr::konst(w, w as u128)), 2 * w);
    Ok(Some(from_e(if left { expr::extract(expr::bin(Op::Shl, cc, sh), 2 * w - 1, w) } else { expr::extract(expr::bin(Op::LShr, cc, sh), w - 1, 0) })))
}
fn b_fshl(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV {
    if let (Val::I(x), Val::I(y), Val::I(s)) = (&a[0], &a[1], &a[2]) { let w = c.ret.bits(); let s = (*s % w as u64) as u32; let r = if s == 0 { *x } else { (x << s) | (y >> (w - s)) }; return Ok(Some(mkint(w, r as i128))); }
    fsh(a, c, true) }
fn b_fshr(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { fsh(a, c, false) }
fn b_abs(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { let w = c.ret.bits() as u16; let e = to_e(&a[0], w); let n = expr::bin(Op::Sub, expr::konst(w, 0), e); Ok(Some(from_e(expr::ite(expr::cmp(Op::Slt, e, expr::konst(w, 0)), n, e)))) }
fn cmp3(a: &[Val], c: &CallIns, op: Op) -> RV { let w = c.args[0].0.bits() as u16; let rw = c.ret.bits() as u16; let (x, y) = (to_e(&a[0], w), to_e(&a[1], w)); Ok(Some(from_e(expr::ite(expr::cmp(op, x, y), expr::konst(rw, u128::MAX), expr::ite(expr::cmp(Op::Eq, x, y), expr::konst(rw, 0), expr::konst(rw, 1)))))) }
fn b_ucmp(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { cmp3(a, c, Op::Ult) }
fn b_scmp(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { cmp3(a, c, Op::Slt) }
fn b_first(_: &mut Engine, _: &mut State, a: &[Val], _: &CallIns) -> RV { Ok(Some(a[0].clone())) }
fn b_false(_: &mut Engine, _: &mut State, _: &[Val], _: &CallIns) -> RV { Ok(Some(Val::I(0))) }
fn f1(a: &[Val], c: &CallIns, op: Op, k: u128) -> RV { let w = sort_of(&c.ret); Ok(Some(from_e(expr::fun1(op, to_e(&a[0], w), k)))) }
fn b_fabs(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { f1(a, c, Op::FAbs, 0) }
fn b_sqrt(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { f1(a, c, Op::FSqrt, 0) }
fn b_floor(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { f1(a, c, Op::FFloor, 0) }
fn b_ceil(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { f1(a, c, Op::FFloor, 1) }
fn b_trunc(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { f1(a, c, Op::FFloor, 2) }
fn b_round(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { f1(a, c, Op::FFloor, 3) }
fn b_rint(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { f1(a, c, Op::FFloor, 4) }
fn b_exp(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { f1(a, c, Op::FFn, 0) }
fn b_log(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { f1(a, c, Op::FFn, 1) }
fn b_tanh(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { f1(a, c, Op::FFn, 2) }
fn b_sin(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { f1(a, c, Op::FFn, 3) }
fn b_cos(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { f1(a, c, Op::FFn, 4) }
fn b_log2(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { f1(a, c, Op::FFn, 5) }
fn fmm(a: &[Val], c: &CallIns, mx: bool) -> RV {
    let w = sort_of(&c.ret);
    let nan = |v: &Val| if let Val::I(x) = v { expr::fval(w, *x as u128).is_nan() } else { false };
    if nan(&a[0]) { return Ok(Some(a[1].clone())); } if nan(&a[1]) { return Ok(Some(a[0].clone())); }
    let (x, y) = (to_e(&a[0], w), to_e(&a[1], w));
    Ok(Some(from_e(if let (Some(p), Some(q)) = (expr::as_const(x), expr::as_const(y)) { expr::konst(w, expr::ffold2(if mx { Op::FMax } else { Op::FMin }, w, p, q)) } else { let c = expr::fcmp(Op::FLe, x, y); if mx { expr::ite(c, y, x) } else { expr::ite(c, x, y) } })))
}
fn b_fmax(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { fmm(a, c, true) }
fn b_fmin(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { fmm(a, c, false) }
fn b_pow(en: &mut Engine, st: &mut State, a: &[Val], c: &CallIns) -> RV {
    match (&a[0], &a[1], &c.ret) { (Val::I(x), Val::I(y), Ty::F64) => { let e = if c.args[1].0 == Ty::F64 { f64::from_bits(*x).powf(f64::from_bits(*y)) } else { f64::from_bits(*x).powi(*y as i32) }; return Ok(Some(Val::I(e.to_bits()))) }
        // a small constant exponent: repeated multiplication
        (Val::S(_), Val::I(y), Ty::F64) => { let n = if c.args[1].0 == Ty::F64 { let f = f64::from_bits(*y); if f == f.trunc() && f.abs() <= 8.0 { f as i32 } else { 99 } } else { *y as i32 };
            if n.abs() <= 8 { let one = Val::I(1.0f64.to_bits()); let mut r = one.clone(); for _ in 0..n.abs() { r = en.bin(st, BinOp::FMul, &Ty::F64, &r, &a[0])?; } if n < 0 { r = en.bin(st, BinOp::FDiv, &Ty::F64, &one, &r)?; } return Ok(Some(r)); } }
        _ => {} }
    Err(Stop::Unsup("symbolic pow".into()))
}
fn b_fptoui_sat(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { let w = sort_of(&c.args[0].0); Ok(Some(from_e(expr::f2int(false, to_e(&a[0], w), c.ret.bits() as u16)))) }
fn b_fptosi_sat(_: &mut Engine, _: &mut State, a: &[Val], c: &CallIns) -> RV { let w = sort_of(&c.args[0].0); Ok(Some(from_e(expr::f2int(true, to_e(&a[0], w), c.ret.bits() as u16)))) }
fn b_reduce(en: &mut Engine, st: &mut State, a: &[Val], c: &CallIns) -> RV {
    let n = match &c.callee { Callee::Direct(n) => n.clone(), _ => unreachable!() };
    let k = n.trim_start_matches("llvm.vector.reduce.").split('.').next().unwrap().to_string();
    let (et, v) = match (&c.args[0].0, &a[0]) { (Ty::Vec(_, et), Val::A(v)) => ((**et).clone(), v.clone()), _ => return Err(Stop::Unsup("reduce".into())) };
    let w = sort_of(&et);
    let mut r = to_e(&v[0], w);
    for x in v[1..].iter() { let y = to_e(x, w); r = match k.as_str() { "add" => expr::bin(Op::Add, r, y), "or" => expr::bin(Op::Or, r, y), "and" => expr::bin(Op::And, r, y), "xor" => expr::bin(Op::Xor, r, y), "umax" => expr::ite(expr::cmp(Op::Ult, r, y), y, r), "umin" => expr::ite(expr::cmp(Op::Ult, r, y), r, y), _ => return Err(Stop::Unsup(n)) }; }
    let _ = (en, st);
    Ok(Some(from_e(r)))
}
fn b_isfpclass(_: &mut Engine, _: &mut State, a: &[Val], _: &CallIns) -> RV {
    match (&a[0], &a[1]) { (Val::I(x), Val::I(m)) => { let v = f64::from_bits(*x); let mut r = false; let neg = v.is_sign_negative();
        if m & 3 != 0 && v.is_nan() { r = true; } if m & 4 != 0 && v == f64::NEG_INFINITY { r = true; } if m & 512 != 0 && v == f64::INFINITY { r = true; }
        use std::num::FpCategory::*; match v.classify() { Normal => { if m & (if neg { 8 } else { 256 }) != 0 { r = true; } } Subnormal => { if m & (if neg { 16 } else { 128 }) != 0 { r = true; } } Zero => { if m & (if neg { 32 } else { 64 }) != 0 { r = true; } } _ => {} }
        Ok(Some(Val::I(r as u64))) } (Val::S(_), Val::I(m)) if *m & 0x1f8 == 0 => Ok(Some(Val::I(0))), (Val::S(_), Val::I(m)) if *m & 0x1f8 == 0x1f8 => Ok(Some(Val::I(1))), // zero class (symbolic values carry no sign of zero)
        (Val::S(x), Val::I(m)) if *m & 0x1f8 == 0x40 || *m & 0x1f8 == 0x60 => { let e = *x; let w = expr::width(e); Ok(Some(from_e(expr::fcmp(Op::FEq, e, expr::konst(w, 0))))) }
        _ => Err(Stop::Unsup("is.fpclass".into())) }
}
fn b_tls(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV {
    let g = (conc(en, st, &a[0])? >> 32) as u32;
    let c = st.cur;
    if let Some(&o) = st.th[c].tls.get(&g) { return Ok(Some(Val::I((o as u64) << 32))); }
    let src = (g as u64) << 32;
    let init = en.obj(st, src)?;
    let n = init.data.len() as u64;
    let p = en.alloc(st, n)?;
    en.memcpy(st, p, src, n as usize)?;
    st.th[c].tls.insert(g, (p >> 32) as u32);
    Ok(Some(Val::I(p)))
}
fn b_errno(en: &mut Engine, st: &mut State, _: &[Val], _: &CallIns) -> RV {
    let c = st.cur; let g = u32::MAX;
    if let Some(&o) = st.th[c].tls.get(&g) { return Ok(Some(Val::I((o as u64) << 32))); }
    let p = en.alloc(st, 8)?; st.th[c].tls.insert(g, (p >> 32) as u32); Ok(Some(Val::I(p)))
}
fn set_errno(en: &mut Engine, st: &mut State, v: u64, ci: &CallIns) -> R<()> { if let Some(Val::I(p)) = b_errno(en, st, &[], ci)? { en.store(st, &Ty::Int(32), p, &Val::I(v))?; } Ok(()) }
fn b_syscall(en: &mut Engine, st: &mut State, a: &[Val], ci: &CallIns) -> RV {
    let n = conc(en, st, &a[0])?;
    match n {
        202 => {
            let (ad, op, val) = (conc(en, st, &a[1])?, conc(en, st, &a[2])? & 0x7f, conc(en, st, &a[3])?);
            match op {
                0 | 9 => { // wait
                    let cur = match en.load(st, &Ty::Int(32), ad)? { Val::I(x) => x, v => conc(en, st, &v)? };
                    if cur != val & 0xffff_ffff { set_errno(en, st, 11, ci)?; return Ok(Some(Val::I(u64::MAX))); }
                    let timed = a.len() > 4 && conc(en, st, &a[4])? != 0;
                    let c = st.cur;
                    st.th[c].st = TS::Futex(ad, timed);
                    en.schedule(st)?;
                    Ok(Some(Val::I(0)))
                }
                1 | 10 => { let mut k = 0; for i in 0..st.th.len() { if k >= val { break; } if let TS::Futex(x, _) = st.th[i].st { if x == ad { st.th[i].st = TS::Run; k += 1; } } } Ok(Some(Val::I(k))) }
                o => Err(Stop::Unsup(format!("futex op {}", o))),
            }
        }
        318 => { let (p, l) = (conc(en, st, &a[1])?, conc(en, st, &a[2])?); for i in 0..l { en.store(st, &Ty::Int(8), p + i, &Val::I(0))?; } Ok(Some(Val::I(l))) }
        x => Err(Stop::Unsup(format!("syscall {}", x))),
    }
}
fn b_getrandom(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let (p, l) = (conc(en, st, &a[0])?, conc(en, st, &a[1])?); for i in 0..l { en.store(st, &Ty::Int(8), p + i, &Val::I(0))?; } Ok(Some(Val::I(l))) }
fn b_clock(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { st.time += 1000; let p = conc(en, st, &a[1])?; let (s, n) = (st.time / 1_000_000_000, st.time % 1_000_000_000); en.store(st, &Ty::Int(64), p, &Val::I(s))?; en.store(st, &Ty::Int(64), p + 8, &Val::I(n))?; Ok(Some(Val::I(0))) }
fn b_yield(en: &mut Engine, st: &mut State, _: &[Val], ci: &CallIns) -> RV { let _ = en.schedule(st); Ok(if ci.ret == Ty::Void { None } else { Some(Val::I(0)) }) }
fn b_sleep(en: &mut Engine, st: &mut State, _: &[Val], _: &CallIns) -> RV { st.time += 1_000_000; if st.th.len() > 1 { let c = st.cur; st.th[c].st = TS::Sleep; en.schedule(st)?; } Ok(Some(Val::I(0))) }
fn b_pthread_create(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV {
    let (out, f) = (conc(en, st, &a[0])?, conc(en, st, &a[2])?);
    let id = (f >> 32) as u32;
    let nf = en.m.func(id);
    let mut regs = vec![a[3].clone()]; regs.resize(nf.nregs, Val::I(0));
    let t = st.th.len();
    st.th.push(Thread { frames: vec![Frame { f: nf, blk: 0, ip: 0, regs, allocas: vec![], dst: None, normal: None }], tls: Default::default(), st: TS::Run });
    en.store(st, &Ty::Int(64), out, &Val::I(t as u64 + 1))?;
    Ok(Some(Val::I(0)))
}
fn b_pthread_join(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let t = conc(en, st, &a[0])? as usize - 1; if st.th[t].st != TS::Done { let c = st.cur; st.th[c].st = TS::Join(t); en.schedule(st)?; } Ok(Some(Val::I(0))) }
fn b_self(_: &mut Engine, st: &mut State, _: &[Val], _: &CallIns) -> RV { Ok(Some(Val::I(st.cur as u64 + 1))) }
fn b_write(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let n = conc(en, st, &a[2])?; Ok(Some(Val::I(n))) }
fn b_sysconf(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let k = conc(en, st, &a[0])?; Ok(Some(Val::I(match k { 30 => 4096, 84 | 83 => 2, _ => 1024 }))) }
fn b_pkey(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let p = conc(en, st, &a[0])?; st.trace += 1; let k = st.trace; en.store(st, &Ty::Int(32), p, &Val::I(k))?; Ok(Some(Val::I(0))) }
// ---- harness API ----
fn name(en: &mut Engine, st: &mut State, p: &Val, n: &Val) -> R<String> { let (p, n) = (conc(en, st, p)?, conc(en, st, n)?); Ok(String::from_utf8_lossy(&en.cstr_bytes(st, p, n as usize)?).to_string()) }
/// u64 sym_bits(name, len, width, lo, hi): unsigned integer of `width` bits in lo..=hi, zero-extended
fn s_bits(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV {
    let nm = name(en, st, &a[0], &a[1])?; let w = conc(en, st, &a[2])? as u16; let (lo, hi) = (conc(en, st, &a[3])?, conc(en, st, &a[4])?);
    if lo > hi { return Err(Stop::Infeasible); }
    if lo == hi { let e = expr::konst(64, lo as u128); st.inputs.push((Rc::from(nm.as_str()), e)); return Ok(Some(Val::I(lo))); }
    let e = en.new_input(st, &nm, w, lo as f64, if hi < (1 << 53) { hi as f64 } else { 0.0 });
    let m = expr::mask(w) as u64;
    if lo > 0 { en.do_assume(st, &from_e(expr::cmp(Op::Ule, expr::konst(w, lo as u128), e)))?; }
    if hi < m { en.do_assume(st, &from_e(expr::cmp(Op::Ule, e, expr::konst(w, hi as u128))))?; }
    Ok(Some(from_e(expr::zext(e, 64))))
}
fn s_f64(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV {
    let nm = name(en, st, &a[0], &a[1])?; let (lo, hi) = match (&a[2], &a[3]) { (Val::I(x), Val::I(y)) => (f64::from_bits(*x), f64::from_bits(*y)), _ => return Err(Stop::Unsup("sym_f64 bounds".into())) };
    let e = en.new_input(st, &nm, F64, lo, hi);
    Ok(Some(Val::S(e)))
}
/// eager case split: returns a concrete value 0..n, one path per feasible value
fn s_choice(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV {
    let n = conc(en, st, &a[2])?;
    // re-execution after a fork must find the same variable: keyed by (thread ip position) through `inputs`
    let nm = name(en, st, &a[0], &a[1])?;
    let key: Rc<str> = Rc::from(format!("{}", nm).as_str());
    let e = match st.inputs.last() { Some((k, e)) if *k == key && st.exited => *e, _ => { let w = 16; let e = en.new_input(st, &nm, w, 0.0, 0.0); en.do_assume(st, &from_e(expr::cmp(Op::Ult, e, expr::konst(w, n as u128))))?; e } };
    st.exited = true; // marks "choice in progress" for forked siblings
    let v = en.concretize(st, e)?;
    st.exited = false;
    Ok(Some(Val::I(v as u64)))
}
fn s_assume(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let v = bool1(&a[0]); en.do_assume(st, &v)?; Ok(None) }
fn bool1(v: &Val) -> Val { match v { Val::S(e) if expr::width(*e) > 1 => from_e(expr::not(expr::cmp(Op::Eq, *e, expr::konst(expr::width(*e), 0)))), Val::I(x) => Val::I((*x != 0) as u64), x => x.clone() } }
fn s_assert(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let m = name(en, st, &a[1], &a[2])?; let v = bool1(&a[0]); en.do_assert(st, &v, &m)?; Ok(None) }
fn s_cover(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let m = name(en, st, &a[0], &a[1])?; en.cover(st, &m); Ok(None) }
fn s_observe(_: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let e = to_e(&a[0], 64); st.obs.push(e); Ok(None) }
fn s_observe_f(_: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let e = to_e(&a[0], F64); st.obs.push(e); Ok(None) }
fn s_quiesce(en: &mut Engine, st: &mut State, _: &[Val], _: &CallIns) -> RV { if st.th.len() > 1 { let c = st.cur; st.th[c].st = TS::Quiesce; en.schedule(st)?; } Ok(None) }
fn s_concrete(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let v = conc(en, st, &a[0])?; Ok(Some(Val::I(v))) }
/// boolean connectives that never fork
fn s_and(_: &mut Engine, _: &mut State, a: &[Val], _: &CallIns) -> RV { let (x, y) = (to_e(&bool1(&a[0]), 1), to_e(&bool1(&a[1]), 1)); Ok(Some(from_e(expr::bin(Op::And, x, y)))) }
fn s_or(_: &mut Engine, _: &mut State, a: &[Val], _: &CallIns) -> RV { let (x, y) = (to_e(&bool1(&a[0]), 1), to_e(&bool1(&a[1]), 1)); Ok(Some(from_e(expr::bin(Op::Or, x, y)))) }
fn s_is_engine(_: &mut Engine, _: &mut State, _: &[Val], _: &CallIns) -> RV { Ok(Some(Val::I(1))) }
fn s_rng(en: &mut Engine, st: &mut State, _: &[Val], _: &CallIns) -> RV { let e = en.new_input(st, "rng", 64, 0.0, 0.0); Ok(Some(Val::S(e))) }
fn s_rng_range(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV {
    let n = conc(en, st, &a[0])?;
    if n <= 1 { st.inputs.push((Rc::from("rng_range"), expr::konst(64, 0))); return Ok(Some(Val::I(0))); }
    let w = (64 - (n - 1).leading_zeros()) as u16;
    let e = en.new_input(st, "rng_range", w, 0.0, 0.0);
    if (n - 1) < expr::mask(w) as u64 { en.do_assume(st, &from_e(expr::cmp(Op::Ult, e, expr::konst(w, n as u128))))?; }
    Ok(Some(from_e(expr::zext(e, 64))))
}
fn s_rng_unit(en: &mut Engine, st: &mut State, _: &[Val], _: &CallIns) -> RV { let e = en.new_input(st, "rng_unit", F64, 0.0, 1.0 - f64::EPSILON / 2.0); Ok(Some(Val::S(e))) }
fn s_fail(en: &mut Engine, st: &mut State, a: &[Val], _: &CallIns) -> RV { let m = name(en, st, &a[0], &a[1])?; Err(Stop::Limit(m)) }

/// printing a symbolic float: the text is left out (nothing under test reads it back); concrete floats run the real code
pub fn b_fmtfloat(_: &mut Engine, _: &mut State, a: &[Val], _: &CallIns) -> RV { if matches!(a[1], Val::S(_)) { Ok(Some(Val::I(0))) } else { Err(Stop::Unsup("fmt".into())) } }
pub fn lookup(n: &str, defined: bool) -> Option<B> {
    if let Some(x) = n.strip_prefix("llvm.") {
        let p = |s: &str| x.starts_with(s);
        return Some(if p("lifetime") || p("assume") || p("experimental.noalias") || p("dbg") || p("x86.sse2.pause") || p("prefetch") || p("invariant") { nop }
            else if p("memcpy") || p("memmove") { b_memcpy } else if p("memset") { b_memset }
            else if p("umax") { b_umax } else if p("umin") { b_umin } else if p("smax") { b_smax } else if p("smin") { b_smin }
            else if p("uadd.with") { b_uaddo } else if p("usub.with") { b_usubo } else if p("umul.with") { b_umulo } else if p("sadd.with") { b_saddo } else if p("ssub.with") { b_ssubo } else if p("smul.with") { b_smulo }
            else if p("uadd.sat") { b_uaddsat } else if p("usub.sat") { b_usubsat } else if p("sadd.sat") { b_saddsat } else if p("ssub.sat") { b_ssubsat }
            else if p("ctpop") { b_ctpop } else if p("cttz") { b_cttz } else if p("ctlz") { b_ctlz } else if p("bswap") { b_bswap } else if p("bitreverse") { b_bitrev }
            else if p("fshl") { b_fshl } else if p("fshr") { b_fshr } else if p("abs") { b_abs } else if p("ucmp") { b_ucmp } else if p("scmp") { b_scmp }
            else if p("expect") || p("ssa.copy") || p("launder") || p("strip.inv") { b_first } else if p("is.constant") { b_false }
            else if p("fabs") { b_fabs } else if p("sqrt") { b_sqrt } else if p("floor") { b_floor } else if p("ceil") { b_ceil } else if p("trunc") { b_trunc } else if p("rint") || p("nearbyint") || p("roundeven") { b_rint } else if p("round") { b_round }
            else if p("exp.") { b_exp } else if p("log.") { b_log } else if p("log2.") { b_log2 } else if p("sin.") { b_sin } else if p("cos.") { b_cos } else if p("pow") { b_pow }
            else if p("maxnum") || p("maximumnum") || p("maximum") { b_fmax } else if p("minnum") || p("minimumnum") || p("minimum") { b_fmin }
            else if p("fptoui.sat") { b_fptoui_sat } else if p("fptosi.sat") { b_fptosi_sat } else if p("vector.reduce") { b_reduce } else if p("is.fpclass") { b_isfpclass }
            else if p("threadlocal") { b_tls } else if p("trap") { b_abort } else { return None });
    }
    Some(match n {
        "memcpy" | "memmove" => b_memcpy, "memset" => b_memset, "memcmp" => b_memcmp, "bcmp" => b_bcmp, "strlen" => b_strlen,
        "malloc" => b_malloc, "calloc" => b_calloc, "free" => b_free, "realloc" => b_realloc, "posix_memalign" => b_posix_memalign,
        "abort" => b_abort, "__errno_location" => b_errno, "syscall" => b_syscall, "getrandom" => b_getrandom, "clock_gettime" => b_clock,
        "sched_yield" => b_yield, "nanosleep" | "clock_nanosleep" | "usleep" => b_sleep,
        "pthread_create" => b_pthread_create, "pthread_join" => b_pthread_join, "pthread_self" | "gettid" => b_self,
        "pthread_attr_init" | "pthread_attr_setstacksize" | "pthread_attr_destroy" | "pthread_detach" | "pthread_setname_np" | "prctl" | "pthread_setspecific" | "sigaltstack" | "munmap" | "mprotect" | "__cxa_thread_atexit_impl" | "pthread_getattr_np" | "dlsym" | "pthread_attr_getstack" | "pthread_attr_getguardsize" | "getenv" | "pthread_key_delete" | "sched_getaffinity" | "pthread_attr_setguardsize" | "signal" | "sigaction" | "poll" | "pthread_setaffinity_np" => ret_zero,
        "pthread_key_create" => b_pkey, "pthread_getspecific" => ret_zero, "mmap64" | "mmap" => ret_neg1,
        "write" => b_write, "writev" => b_write, "sysconf" => b_sysconf, "getauxval" => ret_zero,
        "exp" | "expf" => b_exp, "log" | "logf" => b_log, "tanh" | "tanhf" => b_tanh, "pow" => b_pow, "sin" => b_sin, "cos" => b_cos,
        "sym_bits" => s_bits, "sym_f64" => s_f64, "sym_choice" => s_choice, "sym_assume" => s_assume, "sym_assert" => s_assert, "sym_cover" => s_cover, "sym_observe" => s_observe, "sym_observe_f" => s_observe_f, "sym_quiesce" => s_quiesce, "sym_concrete" => s_concrete, "sym_and" => s_and, "sym_or" => s_or, "sym_is_engine" => s_is_engine, "sym_rng" => s_rng, "sym_rng_range" => s_rng_range, "sym_rng_unit" => s_rng_unit, "sym_out_of_bound" => s_fail,
        _ => {
            if !n.starts_with("_R") { return None; }
            let _ = defined;
            if n.contains("4core9panicking") { if n.contains("9panic_fmt") || n.ends_with("9panicking5panic") || n.contains("panic_nounwind") || n.contains("panic_cannot_unwind") || n.contains("panic_in_cleanup") || n.contains("panic_bounds_check") || n.contains("panic_const") || n.contains("panic_str") { return Some(b_panic); } return None; }
            if n.contains("9panicking11begin_panic") && !n.contains("Payload") { return Some(b_panic); }
            if n.contains("17rust_begin_unwind") || n.contains("18handle_alloc_error") || n.contains("24___rust_alloc_error_handler") || n.contains("14abort_internal") { return Some(b_abort); }
            if n.ends_with("12___rust_alloc") { return Some(b_rust_alloc); }
            if n.ends_with("19___rust_alloc_zeroed") { return Some(b_rust_alloc); }
            if n.ends_with("14___rust_dealloc") { return Some(b_rust_dealloc); }
            if n.ends_with("14___rust_realloc") { return Some(b_rust_realloc); }
            if n.ends_with("5stdio6__print") || n.ends_with("5stdio7__eprint") { return Some(nop); }
            if n.contains("3fmt5float") && n.contains("float_to_") { return Some(b_fmtfloat); }
            if n.contains("19hashmap_random_keys") { return Some(nop); }
            if n.contains("14stack_overflow") { return Some(nop); }
            return None;
        }
    })
}
