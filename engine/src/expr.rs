//! Hash-consed expression DAG: bit-vectors (1..=1024 bits, constants up to 128) and IEEE floats.
use std::collections::HashMap;
use std::cell::RefCell;

pub type E = u32;
pub const F64: u16 = 2000;
pub const F32: u16 = 2001;
pub fn is_fp(w: u16) -> bool { w >= 2000 }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, Not, And, Or, Xor, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt,
    // float results: FConst (bits in k), Var with w=F64; ops
    FAdd, FSub, FMul, FDiv, FNeg, FAbs, FSqrt, FMin, FMax, UI2F, SI2F, FFn, FCvt, FFloor,
    FFromBits,
    // bv results
    FEq, FLt, FLe, F2UI, F2SI, FBits,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E, pub k: u128 }

pub struct VarInfo { pub name: String, pub w: u16, pub lo: f64, pub hi: f64 }

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub map: HashMap<Node, E>,
    pub vars: Vec<VarInfo>,
    pub varset: HashMap<E, std::rc::Rc<Vec<u32>>>,
    pub ival: HashMap<E, (f64, f64)>,
}
static mut CTX: Option<Ctx> = None;
#[allow(static_mut_refs)]
pub fn cx() -> &'static mut Ctx { unsafe { CTX.get_or_insert_with(|| Ctx { nodes: vec![Node{op:Op::Const,w:1,a:0,b:0,c:0,k:0}], map: HashMap::new(), vars: vec![], varset: HashMap::new(), ival: HashMap::new() }) } }

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext128(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s } }

fn mk(n: Node) -> E {
    let c = cx();
    if let Some(&e) = c.map.get(&n) { return e; }
    let e = c.nodes.len() as E;
    c.nodes.push(n);
    c.map.insert(n, e);
    e
}
pub fn nd(e: E) -> Node { cx().nodes[e as usize] }
pub fn width(e: E) -> u16 { nd(e).w }
pub fn konst(w: u16, v: u128) -> E { mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: if is_fp(w) || w > 128 { v } else { v & mask(w) } }) }
/// does the expression read the bit pattern of a symbolic float?
pub fn has_bits(e: E) -> bool {
    let mut st = vec![e]; let mut seen = std::collections::HashSet::new();
    while let Some(x) = st.pop() { if !seen.insert(x) { continue; } let n = nd(x); if n.op == Op::FBits { return true; } st.extend(children(&n)); }
    false
}
pub fn as_const(e: E) -> Option<u128> { let n = nd(e); if n.op == Op::Const { Some(n.k) } else { None } }
pub fn tru() -> E { konst(1, 1) }
pub fn fls() -> E { konst(1, 0) }
pub fn new_var(name: &str, w: u16, lo: f64, hi: f64) -> E {
    let c = cx();
    let id = c.vars.len();
    c.vars.push(VarInfo { name: name.to_string(), w, lo, hi });
    mk(Node { op: Op::Var, w, a: id as u32, b: 0, c: 0, k: 0 })
}
fn n1(op: Op, w: u16, a: E) -> E { mk(Node { op, w, a, b: 0, c: 0, k: 0 }) }
fn n2(op: Op, w: u16, a: E, b: E) -> E { mk(Node { op, w, a, b, c: 0, k: 0 }) }

pub fn fold2(op: Op, w: u16, x: u128, y: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
        Op::Add => x.wrapping_add(y) & m, Op::Sub => x.wrapping_sub(y) & m, Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => if y == 0 { m } else { x / y },
        Op::URem => if y == 0 { x } else { x % y },
        Op::SDiv => if y == 0 { return None } else { (sext128(x, w).wrapping_div(sext128(y, w)) as u128) & m },
        Op::SRem => if y == 0 { x } else { (sext128(x, w).wrapping_rem(sext128(y, w)) as u128) & m },
        Op::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        Op::LShr => if y >= w as u128 { 0 } else { x >> y },
        Op::AShr => { let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 }; ((sext128(x, w) >> s) as u128) & m }
        Op::Eq => (x == y) as u128, Op::Ult => (x < y) as u128, Op::Ule => (x <= y) as u128,
        Op::Slt => (sext128(x, w) < sext128(y, w)) as u128, Op::Sle => (sext128(x, w) <= sext128(y, w)) as u128,
        _ => return None,
    })
}

pub fn not(a: E) -> E {
    let n = nd(a);
    if n.op == Op::Const { return konst(n.w, !n.k); }
    if n.op == Op::Not { return n.a; }
    n1(Op::Not, n.w, a)
}
pub fn bin(op: Op, mut a: E, mut b: E) -> E {
    let (na, nb) = (nd(a), nd(b));
    let w = na.w;
    if na.w != nb.w { panic!("width mismatch {:?} {} {}: {} | {}", op, na.w, nb.w, show(a), show(b)); }
    if na.op == Op::Const && nb.op == Op::Const && w <= 128 { if let Some(v) = fold2(op, w, na.k, nb.k) { return konst(w, v); } }
    // canonical: const on the right for commutative
    if matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul) && (na.op == Op::Const || (nb.op != Op::Const && a > b)) { std::mem::swap(&mut a, &mut b); }
    let (na, nb) = (nd(a), nd(b));
    let kb = if nb.op == Op::Const && w <= 128 { Some(nb.k) } else { None };
    let m = mask(w);
    match op {
        Op::And => {
            if a == b { return a; }
            if kb == Some(0) { return b; }
            if kb == Some(m) { return a; }
            if w == 1 && (n_is_not(a, b)) { return konst(1, 0); }
            if let Some(k) = kb {
                // low mask => zext(extract)
                if k != 0 && (k & (k + 1)) == 0 { let bits = (128 - k.leading_zeros()) as u16; if bits < w { return zext(extract(a, bits - 1, 0), w); } }
                if na.op == Op::ZExt { let iw = nd(na.a).w; return zext(bin(Op::And, na.a, konst(iw, k & mask(iw))), w); }
                if na.op == Op::And { if let Some(k2) = as_const(na.b) { return bin(Op::And, na.a, konst(w, k & k2)); } }
            }
        }
        Op::Or => {
            if a == b { return a; }
            if kb == Some(0) { return a; }
            if kb == Some(m) { return b; }
            if w == 1 && n_is_not(a, b) { return konst(1, 1); }
        }
        Op::Xor => {
            if a == b { return konst(w, 0); }
            if kb == Some(0) { return a; }
            if kb == Some(m) { return not(a); }
        }
        Op::Add => {
            if kb == Some(0) { return a; }
            if let Some(k) = kb { if na.op == Op::Add { if let Some(k2) = as_const(na.b) { return bin(Op::Add, na.a, konst(w, k.wrapping_add(k2))); } }
                if na.op == Op::Ite && as_const(na.b).is_some() && as_const(na.c).is_some() { return ite(na.a, bin(Op::Add, na.b, b), bin(Op::Add, na.c, b)); } }
        }
        Op::Sub => {
            if a == b { return konst(w, 0); }
            if let Some(k) = kb { return bin(Op::Add, a, konst(w, k.wrapping_neg())); }
        }
        Op::Mul => { if kb == Some(0) { return b; } if kb == Some(1) { return a; }
            if let Some(k) = kb { if k.is_power_of_two() { return bin(Op::Shl, a, konst(w, k.trailing_zeros() as u128)); } } }
        Op::UDiv => { if kb == Some(1) { return a; } if let Some(k) = kb { if k.is_power_of_two() { return bin(Op::LShr, a, konst(w, k.trailing_zeros() as u128)); } } }
        Op::URem => { if kb == Some(1) { return konst(w, 0); } if let Some(k) = kb { if k.is_power_of_two() { return bin(Op::And, a, konst(w, k - 1)); } } }
        Op::Shl | Op::LShr => {
            if kb == Some(0) { return a; }
            if as_const(a) == Some(0) { return a; }
            if let Some(k) = kb {
                if k >= w as u128 { return konst(w, 0); }
                let k = k as u16;
                if op == Op::LShr { return zext(extract(a, w - 1, k), w); }
                return concat(extract(a, w - 1 - k, 0), konst(k, 0));
            }
        }
        Op::AShr => { if kb == Some(0) { return a; } if let Some(k) = kb { let k = (k.min(w as u128 - 1)) as u16; return sext(extract(a, w - 1, k), w); } }
        _ => {}
    }
    n2(op, w, a, b)
}
fn n_is_not(a: E, b: E) -> bool { let (x, y) = (nd(a), nd(b)); (x.op == Op::Not && x.a == b) || (y.op == Op::Not && y.a == a) }

pub fn cmp(op: Op, a: E, b: E) -> E {
    let (na, nb) = (nd(a), nd(b));
    let w = na.w;
    if na.w != nb.w { panic!("cmp width mismatch {:?} {} {}", op, na.w, nb.w); }
    if a == b { return konst(1, matches!(op, Op::Eq | Op::Ule | Op::Sle) as u128); }
    if na.op == Op::Const && nb.op == Op::Const && w <= 128 { return konst(1, fold2(op, w, na.k, nb.k).unwrap()); }
    if op == Op::Eq {
        let (a, b, na, nb) = if na.op == Op::Const || (nb.op != Op::Const && a > b) { (b, a, nb, na) } else { (a, b, na, nb) };
        if nb.op == Op::Const && w <= 128 {
            let k = nb.k;
            if w == 1 { return if k == 1 { a } else { not(a) }; }
            match na.op {
                Op::ZExt => { let iw = nd(na.a).w; return if k > mask(iw) { fls() } else { cmp(Op::Eq, na.a, konst(iw, k)) }; }
                Op::SExt => { let iw = nd(na.a).w; let low = k & mask(iw); return if (sext128(low, iw) as u128) & mask(w) != k { fls() } else { cmp(Op::Eq, na.a, konst(iw, low)) }; }
                Op::Ite => {
                    if as_const(na.b).is_some() || as_const(na.c).is_some() {
                        let x = cmp(Op::Eq, na.b, b); let y = cmp(Op::Eq, na.c, b);
                        return ite(na.a, x, y);
                    }
                }
                Op::Add => if let Some(k2) = as_const(na.b) { return cmp(Op::Eq, na.a, konst(w, k.wrapping_sub(k2))); },
                Op::Xor => if let Some(k2) = as_const(na.b) { return cmp(Op::Eq, na.a, konst(w, k ^ k2)); },
                Op::Not => return cmp(Op::Eq, na.a, konst(w, !k)),
                Op::Concat => {
                    let lw = nd(na.b).w; let hw = nd(na.a).w;
                    let l = cmp(Op::Eq, na.b, konst(lw, k & mask(lw)));
                    let h = cmp(Op::Eq, na.a, konst(hw, k >> lw));
                    return bin(Op::And, h, l);
                }
                _ => {}
            }
        }
        return n2(Op::Eq, 1, a, b);
    }
    if w <= 128 {
        if op == Op::Ult && nb.op == Op::Const {
            if nb.k == 0 { return fls(); }
            if nb.k == 1 { return cmp(Op::Eq, a, konst(w, 0)); }
            if na.op == Op::ZExt { let iw = nd(na.a).w; return if nb.k > mask(iw) { tru() } else { cmp(Op::Ult, na.a, konst(iw, nb.k)) }; }
        }
        if op == Op::Ule && nb.op == Op::Const { if nb.k == mask(w) { return tru(); } return cmp(Op::Ult, a, konst(w, nb.k + 1)); }
        if op == Op::Ult && na.op == Op::Const {
            if na.k == mask(w) { return fls(); }
            if na.k == 0 { return not(cmp(Op::Eq, b, konst(w, 0))); }
            return not(cmp(Op::Ult, b, konst(w, na.k + 1)));
        }
        if op == Op::Ule && na.op == Op::Const { return not(cmp(Op::Ult, b, a)); }
        if (op == Op::Slt || op == Op::Sle) && na.op == Op::ZExt && nb.op == Op::Const {
            // zext value is non-negative
            if (nb.k >> (w - 1)) & 1 == 1 { return fls(); }
            return cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
        }
        if (op == Op::Slt || op == Op::Sle) && nb.op == Op::ZExt && na.op == Op::Const {
            if (na.k >> (w - 1)) & 1 == 1 { return tru(); }
            return cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
        }
        if op == Op::Sle { return not(n2m(Op::Slt, b, a)); }
        if op == Op::Ule { return not(cmp(Op::Ult, b, a)); }
    }
    n2(op, 1, a, b)
}
fn n2m(op: Op, a: E, b: E) -> E { cmp(op, a, b) }

pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(k) = as_const(c) { return if k == 1 { a } else { b }; }
    if a == b { return a; }
    let nc = nd(c);
    if nc.op == Op::Not { return ite(nc.a, b, a); }
    let w = width(a);
    assert_eq!(w, width(b), "ite width");
    if w == 1 {
        if let Some(k) = as_const(a) { return if k == 1 { bin(Op::Or, c, b) } else { bin(Op::And, not(c), b) }; }
        if let Some(k) = as_const(b) { return if k == 1 { bin(Op::Or, not(c), a) } else { bin(Op::And, c, a) }; }
    }
    mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
}
pub fn concat(h: E, l: E) -> E {
    let (nh, nl) = (nd(h), nd(l));
    let w = nh.w + nl.w;
    if nh.op == Op::Const && nl.op == Op::Const && w <= 128 { return konst(w, (nh.k << nl.w) | nl.k); }
    if nh.op == Op::Const && nh.k == 0 { return zext(l, w); }
    if nh.op == Op::ZExt { return zext(concat(nh.a, l), w); }
    if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a {
        let (hh, hl) = ((nh.k >> 16) as u16, (nh.k & 0xffff) as u16);
        let (lh, ll) = ((nl.k >> 16) as u16, (nl.k & 0xffff) as u16);
        if hl == lh + 1 { return extract(nh.a, hh, ll); }
    }
    // concat(concat(x, e1), e2) with adjacent extracts
    if nh.op == Op::Concat && nl.op == Op::Extract { let nhl = nd(nh.b); if nhl.op == Op::Extract && nhl.a == nl.a && (nhl.k & 0xffff) as u16 == (nl.k >> 16) as u16 + 1 { return concat(nh.a, concat(nh.b, l)); } }
    n2(Op::Concat, w, h, l)
}
pub fn extract(a: E, hi: u16, lo: u16) -> E {
    let n = nd(a);
    let w = hi - lo + 1;
    if lo == 0 && w == n.w { return a; }
    if n.op == Op::Const && n.w <= 128 { return konst(w, n.k >> lo); }
    match n.op {
        Op::Extract => { let l0 = (n.k & 0xffff) as u16; return extract(n.a, hi + l0, lo + l0); }
        Op::Concat => {
            let lw = width(n.b);
            if hi < lw { return extract(n.b, hi, lo); }
            if lo >= lw { return extract(n.a, hi - lw, lo - lw); }
            return concat(extract(n.a, hi - lw, 0), extract(n.b, lw - 1, lo));
        }
        Op::ZExt => {
            let iw = width(n.a);
            if lo >= iw { return konst(w, 0); }
            if hi < iw { return extract(n.a, hi, lo); }
            return zext(extract(n.a, iw - 1, lo), w);
        }
        Op::SExt => { let iw = width(n.a); if hi < iw { return extract(n.a, hi, lo); } if lo == 0 { return sext(n.a, w); } }
        Op::Ite => if as_const(n.b).is_some() || as_const(n.c).is_some() { return ite(n.a, extract(n.b, hi, lo), extract(n.c, hi, lo)); },
        Op::And | Op::Or | Op::Xor => if as_const(n.b).is_some() { return bin(n.op, extract(n.a, hi, lo), extract(n.b, hi, lo)); },
        Op::Add | Op::Sub | Op::Mul if lo == 0 => { return bin(n.op, extract(n.a, hi, 0), extract(n.b, hi, 0)); }
        _ => {}
    }
    mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: ((hi as u128) << 16) | lo as u128 })
}
pub fn zext(a: E, w: u16) -> E {
    let n = nd(a);
    if n.w == w { return a; }
    if n.op == Op::Const { return konst(w, n.k); }
    if n.op == Op::ZExt { return zext(n.a, w); }
    if n.op == Op::Ite && as_const(n.b).is_some() && as_const(n.c).is_some() { return ite(n.a, zext(n.b, w), zext(n.c, w)); }
    n1(Op::ZExt, w, a)
}
pub fn sext(a: E, w: u16) -> E {
    let n = nd(a);
    if n.w == w { return a; }
    if n.op == Op::Const { return konst(w, sext128(n.k, n.w) as u128); }
    if n.op == Op::ZExt { return zext(n.a, w); }
    if n.op == Op::Ite && as_const(n.b).is_some() && as_const(n.c).is_some() { return ite(n.a, sext(n.b, w), sext(n.c, w)); }
    n1(Op::SExt, w, a)
}
// ---------- floats ----------
pub fn ffold1(op: Op, w: u16, x: u128, k: u128) -> u128 {
    if w == F64 {
        let a = f64::from_bits(x as u64);
        let r = match op { Op::FNeg => -a, Op::FAbs => a.abs(), Op::FSqrt => a.sqrt(), Op::FFloor => match k { 0 => a.floor(), 1 => a.ceil(), 2 => a.trunc(), 3 => a.round(), _ => a.round_ties_even() }, Op::FFn => fnapply(k, a), _ => unreachable!() };
        r.to_bits() as u128
    } else {
        let a = f32::from_bits(x as u32);
        let r = match op { Op::FNeg => -a, Op::FAbs => a.abs(), Op::FSqrt => a.sqrt(), Op::FFloor => match k { 0 => a.floor(), 1 => a.ceil(), 2 => a.trunc(), 3 => a.round(), _ => a.round_ties_even() }, Op::FFn => fnapply32(k, a), _ => unreachable!() };
        r.to_bits() as u128
    }
}
pub fn fnapply(k: u128, a: f64) -> f64 { match k { 0 => a.exp(), 1 => a.ln(), 2 => a.tanh(), 3 => a.sin(), 4 => a.cos(), 5 => a.log2(), 6 => a.log10(), _ => unreachable!() } }
pub fn fnapply32(k: u128, a: f32) -> f32 { match k { 0 => a.exp(), 1 => a.ln(), 2 => a.tanh(), 3 => a.sin(), 4 => a.cos(), 5 => a.log2(), 6 => a.log10(), _ => unreachable!() } }
pub fn ffold2(op: Op, w: u16, x: u128, y: u128) -> u128 {
    if w == F64 {
        let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        match op {
            Op::FAdd => (a + b).to_bits() as u128, Op::FSub => (a - b).to_bits() as u128, Op::FMul => (a * b).to_bits() as u128, Op::FDiv => (a / b).to_bits() as u128,
            Op::FMin => a.min(b).to_bits() as u128, Op::FMax => a.max(b).to_bits() as u128,
            Op::FEq => (a == b) as u128, Op::FLt => (a < b) as u128, Op::FLe => (a <= b) as u128, _ => unreachable!(),
        }
    } else {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        match op {
            Op::FAdd => (a + b).to_bits() as u128, Op::FSub => (a - b).to_bits() as u128, Op::FMul => (a * b).to_bits() as u128, Op::FDiv => (a / b).to_bits() as u128,
            Op::FMin => a.min(b).to_bits() as u128, Op::FMax => a.max(b).to_bits() as u128,
            Op::FEq => (a == b) as u128, Op::FLt => (a < b) as u128, Op::FLe => (a <= b) as u128, _ => unreachable!(),
        }
    }
}
pub fn fval(w: u16, k: u128) -> f64 { if w == F64 { f64::from_bits(k as u64) } else { f32::from_bits(k as u32) as f64 } }
pub fn fk(w: u16, v: f64) -> E { konst(w, if w == F64 { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 }) }

pub fn fbin(op: Op, a: E, b: E) -> E {
    let (na, nb) = (nd(a), nd(b));
    assert!(is_fp(na.w) && na.w == nb.w, "fbin sorts {:?} {} {}", op, show(a), show(b));
    if na.op == Op::Const && nb.op == Op::Const { return konst(na.w, ffold2(op, na.w, na.k, nb.k)); }
    let (mut a, mut b) = (a, b);
    if matches!(op, Op::FAdd | Op::FMul) && (na.op == Op::Const || (nb.op != Op::Const && a > b)) { std::mem::swap(&mut a, &mut b); }
    if op == Op::FSub && a == b { return fk(na.w, 0.0); } // non-finite values never reach here (division is guarded)
    let nb = nd(b);
    if nb.op == Op::Const {
        let v = fval(nb.w, nb.k);
        if op == Op::FMul && v == 1.0 { return a; }
        if op == Op::FDiv && v == 1.0 { return a; }
        if (op == Op::FAdd || op == Op::FSub) && v == 0.0 { return a; } // sign of zero not tracked
    }
    n2(op, na.w, a, b)
}
pub fn fun1(op: Op, a: E, k: u128) -> E {
    let n = nd(a);
    if n.op == Op::Const { return konst(n.w, ffold1(op, n.w, n.k, k)); }
    if op == Op::FNeg && n.op == Op::FNeg { return n.a; }
    if op == Op::FAbs && interval(a).0 >= 0.0 { return a; }
    mk(Node { op, w: n.w, a, b: 0, c: 0, k })
}
pub fn fcmp(op: Op, a: E, b: E) -> E {
    let (na, nb) = (nd(a), nd(b));
    if na.op == Op::Const && nb.op == Op::Const { return konst(1, ffold2(op, na.w, na.k, nb.k)); }
    // NaN constants: every ordered comparison is false
    if na.op == Op::Const && fval(na.w, na.k).is_nan() { return fls(); }
    if nb.op == Op::Const && fval(nb.w, nb.k).is_nan() { return fls(); }
    if a == b { return konst(1, (op != Op::FLt) as u128); }
    // infinities
    if nb.op == Op::Const && fval(nb.w, nb.k).is_infinite() { let p = fval(nb.w, nb.k) > 0.0; return konst(1, (op != Op::FEq && p) as u128); }
    if na.op == Op::Const && fval(na.w, na.k).is_infinite() { let p = fval(na.w, na.k) > 0.0; return konst(1, (op != Op::FEq && !p) as u128); }
    // decided by the ranges (finite ranges exclude NaN)
    let (x, y) = (interval(a), interval(b));
    if x.0.is_finite() && x.1.is_finite() && y.0.is_finite() && y.1.is_finite() {
        if x.1 < y.0 { return konst(1, (op != Op::FEq) as u128); }
        if y.1 < x.0 { return konst(1, 0); }
        if op == Op::FLe && x.1 <= y.0 { return tru(); }
        if op == Op::FLt && y.1 <= x.0 { return fls(); }
    }
    let (a, b) = if op == Op::FEq && a > b { (b, a) } else { (a, b) };
    n2(op, 1, a, b)
}
pub fn fbits(a: E) -> E {
    let n = nd(a);
    let w = if n.w == F64 { 64 } else { 32 };
    if n.op == Op::Const { return konst(w, n.k); }
    if n.op == Op::FFromBits { return n.a; }
    if n.op == Op::Ite && ite_depth(a, 8) { return ite(n.a, fbits(n.b), fbits(n.c)); } // integers which the compiler moves as floats
    n1(Op::FBits, w, a)
}
fn ite_depth(a: E, d: u32) -> bool { let n = nd(a); if n.op != Op::Ite { return n.op == Op::Const && (if n.w == F64 { (n.k >> 52) & 0x7ff } else { (n.k >> 23) & 0xff }) == 0; } d > 0 && ite_depth(n.b, d - 1) && ite_depth(n.c, d - 1) }
/// None when the bit pattern is symbolic in a way we cannot read as a finite float
pub fn ffrombits(a: E, w: u16) -> Option<E> {
    let n = nd(a);
    if n.op == Op::Const { return Some(konst(w, n.k)); }
    if n.op == Op::FBits { return Some(n.a); }
    if n.op == Op::Ite { if let (Some(x), Some(y)) = (ffrombits(n.b, w), ffrombits(n.c, w)) { return Some(ite(n.a, x, y)); } }
    if n.op == Op::Concat && w == F64 {
        // sign/exponent known constant: 1.m * 2^e
        let hi = nd(n.a);
        if hi.op == Op::Const && hi.w == 12 { let e = hi.k & 0x7ff; if e > 0 && e < 0x7ff { return Some(n1(Op::FFromBits, w, a)); } }
    }
    // or(zext(m52), const exponent)
    if n.op == Op::Or && w == F64 {
        if let Some(k) = as_const(n.b) {
            let x = nd(n.a);
            if x.op == Op::ZExt && width(x.a) <= 52 && (k & mask(52)) == 0 {
                let e = (k >> 52) & 0x7ff;
                if e > 0 && e < 0x7ff {
                    let m = zext(x.a, 52);
                    let c = concat(konst(12, k >> 52), m);
                    return Some(n1(Op::FFromBits, w, c));
                }
            }
        }
    }
    None
}
pub fn int2f(signed: bool, a: E, w: u16) -> E {
    let n = nd(a);
    if n.op == Op::Const {
        let v = if signed { sext128(n.k, n.w) as f64 } else { n.k as f64 };
        let v32 = if signed { sext128(n.k, n.w) as f32 } else { n.k as f32 };
        return konst(w, if w == F64 { v.to_bits() as u128 } else { v32.to_bits() as u128 });
    }
    if n.op == Op::ZExt { return int2f(false, n.a, w); }
    if n.op == Op::Ite && as_const(n.b).is_some() && as_const(n.c).is_some() { return ite(n.a, int2f(signed, n.b, w), int2f(signed, n.c, w)); }
    n1(if signed { Op::SI2F } else { Op::UI2F }, w, a)
}
pub fn f2int(signed: bool, a: E, w: u16) -> E {
    let n = nd(a);
    if n.op == Op::Const { return konst(w, f2i_fold(signed, fval(n.w, n.k), w)); }
    if n.op == Op::UI2F && width(n.a) <= 32 && width(n.a) < w { return zext(n.a, w); }
    n1(if signed { Op::F2SI } else { Op::F2UI }, w, a)
}
pub fn f2i_fold(signed: bool, v: f64, w: u16) -> u128 {
    // saturating semantics (Rust `as`)
    if signed { let (lo, hi) = (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)); if v.is_nan() { 0 } else if v <= lo { (1u128 << (w - 1)) & mask(w) } else if v >= hi { (1u128 << (w - 1)) - 1 } else { (v as i128 as u128) & mask(w) } }
    else { let hi = 2f64.powi(w as i32); if v.is_nan() || v <= 0.0 { 0 } else if v >= hi { mask(w) } else { v as u128 } }
}
pub fn fcvt(a: E, w: u16) -> E {
    let n = nd(a);
    if n.w == w { return a; }
    if n.op == Op::Const { return fk(w, fval(n.w, n.k)); }
    n1(Op::FCvt, w, a)
}

/// sound interval of a finite float expression (IEEE ops are monotone, so endpoint evaluation is exact)
pub fn interval(e: E) -> (f64, f64) {
    if let Some(&r) = cx().ival.get(&e) { return r; }
    let n = nd(e);
    let inf = (f64::NEG_INFINITY, f64::INFINITY);
    let r32 = |v: f64| if n.w == F32 { v as f32 as f64 } else { v };
    let r = match n.op {
        Op::Const => { let v = fval(n.w, n.k); if v.is_nan() { inf } else { (v, v) } }
        Op::Var => { let v = &cx().vars[n.a as usize]; (v.lo, v.hi) }
        Op::FAdd => { let (a, b) = (interval(n.a), interval(n.b)); (r32(a.0 + b.0), r32(a.1 + b.1)) }
        Op::FSub => { let (a, b) = (interval(n.a), interval(n.b)); (r32(a.0 - b.1), r32(a.1 - b.0)) }
        Op::FMul => { let (a, b) = (interval(n.a), interval(n.b)); let v = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1]; mm(&v, &r32) }
        Op::FDiv => { let (a, b) = (interval(n.a), interval(n.b)); if b.0 > 0.0 || b.1 < 0.0 { mm(&[a.0 / b.0, a.0 / b.1, a.1 / b.0, a.1 / b.1], &r32) } else { inf } }
        Op::FNeg => { let a = interval(n.a); (-a.1, -a.0) }
        Op::FAbs => { let a = interval(n.a); if a.0 >= 0.0 { a } else if a.1 <= 0.0 { (-a.1, -a.0) } else { (0.0, a.1.max(-a.0)) } }
        Op::FSqrt => { let a = interval(n.a); (r32(a.0.max(0.0).sqrt()), r32(a.1.max(0.0).sqrt())) }
        Op::FMin => { let (a, b) = (interval(n.a), interval(n.b)); (a.0.min(b.0), a.1.min(b.1)) }
        Op::FMax => { let (a, b) = (interval(n.a), interval(n.b)); (a.0.max(b.0), a.1.max(b.1)) }
        Op::Ite => { let (a, b) = (interval(n.b), interval(n.c)); (a.0.min(b.0), a.1.max(b.1)) }
        Op::UI2F => { let v = nd(n.a); if v.op == Op::Var && cx().vars[v.a as usize].hi > 0.0 { let i = &cx().vars[v.a as usize]; (i.lo, i.hi) } else { (0.0, mask(width(n.a)) as f64) } }
        Op::SI2F => { let w = width(n.a) as i32; (-(2f64.powi(w - 1)), 2f64.powi(w - 1)) }
        Op::FCvt => { let a = interval(n.a); (r32(a.0), r32(a.1)) }
        Op::FFloor => { let a = interval(n.a); (a.0.floor(), a.1.ceil()) }
        Op::FFn => { let a = interval(n.a); match n.k { 0 => ((a.0.exp() * (1.0 - 1e-12)).max(0.0), if a.1 <= 0.0 { 1.0 } else { a.1.exp() * (1.0 + 1e-12) }), 2 | 3 | 4 => (-1.0, 1.0), _ => inf } }
        Op::FFromBits => { let h = nd(nd(n.a).a).k; let e = (h & 0x7ff) as i32 - 1023; let s = 2f64.powi(e); if (h >> 11) & 1 == 0 { (s, 2.0 * s) } else { (-2.0 * s, -s) } }
        _ => inf,
    };
    let r = if r.0.is_nan() || r.1.is_nan() { inf } else { r };
    cx().ival.insert(e, r);
    r
}
fn mm(v: &[f64; 4], r: &dyn Fn(f64) -> f64) -> (f64, f64) {
    if v.iter().any(|x| x.is_nan()) { return (f64::NEG_INFINITY, f64::INFINITY); }
    (r(v.iter().cloned().fold(f64::INFINITY, f64::min)), r(v.iter().cloned().fold(f64::NEG_INFINITY, f64::max)))
}

pub fn varset(e: E) -> std::rc::Rc<Vec<u32>> {
    if let Some(v) = cx().varset.get(&e) { return v.clone(); }
    let n = nd(e);
    let r: std::rc::Rc<Vec<u32>> = match n.op {
        Op::Const => std::rc::Rc::new(vec![]),
        Op::Var => std::rc::Rc::new(vec![n.a]),
        _ => {
            let kids = children(&n);
            if kids.len() == 1 { varset(kids[0]) } else {
                let mut s: Vec<u32> = vec![];
                for k in kids { s.extend(varset(k).iter()); }
                s.sort_unstable(); s.dedup();
                std::rc::Rc::new(s)
            }
        }
    };
    cx().varset.insert(e, r.clone());
    r
}
pub fn children(n: &Node) -> Vec<E> {
    match n.op {
        Op::Const | Op::Var => vec![],
        Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::FNeg | Op::FAbs | Op::FSqrt | Op::UI2F | Op::SI2F | Op::FFn | Op::FCvt | Op::FFloor | Op::FFromBits | Op::F2UI | Op::F2SI | Op::FBits => vec![n.a],
        Op::Ite => vec![n.a, n.b, n.c],
        _ => vec![n.a, n.b],
    }
}

pub struct Model { pub vals: HashMap<u32, u128>, pub cache: RefCell<HashMap<E, u128>> }
impl Model {
    pub fn new(vals: HashMap<u32, u128>) -> Model { Model { vals, cache: RefCell::new(HashMap::new()) } }
    pub fn default_val(v: u32) -> u128 { let i = &cx().vars[v as usize]; if is_fp(i.w) { let x = if i.lo <= 0.0 && i.hi >= 0.0 { 0.0 } else { i.lo }; if i.w == F64 { x.to_bits() as u128 } else { (x as f32).to_bits() as u128 } } else { 0 } }
    pub fn var(&self, v: u32) -> u128 { match self.vals.get(&v) { Some(x) => *x, None => Self::default_val(v) } }
    pub fn eval(&self, e: E) -> u128 {
        let n = nd(e);
        match n.op { Op::Const => return n.k, Op::Var => return self.var(n.a), _ => {} }
        if let Some(&v) = self.cache.borrow().get(&e) { return v; }
        let r = match n.op {
            Op::Not => !self.eval(n.a) & mask(n.w),
            Op::Ite => if self.eval(n.a) == 1 { self.eval(n.b) } else { self.eval(n.c) },
            Op::Concat => (self.eval(n.a) << width(n.b)) | self.eval(n.b),
            Op::Extract => (self.eval(n.a) >> ((n.k & 0xffff) as u32)) & mask(n.w),
            Op::ZExt => self.eval(n.a),
            Op::SExt => (sext128(self.eval(n.a), width(n.a)) as u128) & mask(n.w),
            Op::FEq | Op::FLt | Op::FLe => ffold2(n.op, width(n.a), self.eval(n.a), self.eval(n.b)),
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FMin | Op::FMax => ffold2(n.op, n.w, self.eval(n.a), self.eval(n.b)),
            Op::FNeg | Op::FAbs | Op::FSqrt | Op::FFn | Op::FFloor => ffold1(n.op, n.w, self.eval(n.a), n.k),
            Op::UI2F | Op::SI2F => { let s = n.op == Op::SI2F; let v = self.eval(n.a); let iw = width(n.a);
                if n.w == F64 { (if s { sext128(v, iw) as f64 } else { v as f64 }).to_bits() as u128 } else { (if s { sext128(v, iw) as f32 } else { v as f32 }).to_bits() as u128 } }
            Op::F2UI | Op::F2SI => f2i_fold(n.op == Op::F2SI, fval(width(n.a), self.eval(n.a)), n.w),
            Op::FCvt => { let v = fval(width(n.a), self.eval(n.a)); if n.w == F64 { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 } }
            Op::FBits | Op::FFromBits => self.eval(n.a),
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => fold2(n.op, width(n.a), self.eval(n.a), self.eval(n.b)).unwrap(),
            Op::SDiv => { let (x, y) = (self.eval(n.a), self.eval(n.b)); if y == 0 { if (x >> (n.w - 1)) & 1 == 1 { 1 } else { mask(n.w) } } else { fold2(n.op, n.w, x, y).unwrap() } }
            _ => fold2(n.op, n.w, self.eval(n.a), self.eval(n.b)).unwrap(),
        };
        self.cache.borrow_mut().insert(e, r);
        r
    }
}
pub fn has_fp(e: E) -> bool { // memo via varset not enough: walk
    let mut st = vec![e]; let mut seen = std::collections::HashSet::new();
    while let Some(x) = st.pop() { if !seen.insert(x) { continue; } let n = nd(x); if is_fp(n.w) || matches!(n.op, Op::FEq|Op::FLt|Op::FLe|Op::F2UI|Op::F2SI|Op::FBits) { return true; } st.extend(children(&n)); }
    false
}
pub fn show(e: E) -> String { show_d(e, 6) }
fn show_d(e: E, d: u32) -> String {
    let n = nd(e);
    match n.op {
        Op::Const => if is_fp(n.w) { format!("{}", fval(n.w, n.k)) } else { format!("{}:{}", n.k, n.w) },
        Op::Var => cx().vars[n.a as usize].name.clone(),
        _ if d == 0 => "..".into(),
        Op::Extract => format!("{}[{}:{}]", show_d(n.a, d - 1), n.k >> 16, n.k & 0xffff),
        _ => format!("({:?}{} {})", n.op, if n.op == Op::FFn { n.k.to_string() } else { String::new() }, children(&n).iter().map(|x| show_d(*x, d - 1)).collect::<Vec<_>>().join(" ")),
    }
}
