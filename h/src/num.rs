//! Numeric helpers: automatic differentiation, networks, image maps, prototype classifiers, pong, NLP encoding
use crate::api::*;
use nar20_1::ad::{self, Ad};
use nar20_1::Nn;
use nar20_1::mlutils as ml;
use nar20_1::ModNlpA as nlp;
const E: f64 = 1.0e-6;
fn any(n: &str, m: f64) -> Ad { Ad { r: f(n, -m, m), d: f(n, -m, m) } }
fn is(v: &Ad, r: f64, d: f64, m: &str) { check(and(near(v.r, r, E), near(v.d, d, E)), m); obsf(v.r); obsf(v.d); }

// ---- values and derivatives
#[no_mangle]
pub extern "C" fn h_ad_arith() {
    let (a, b) = (any("a", 10.0), any("b", 10.0));
    match pick("op", 5) {
        0 => is(&ad::add(&a, &b), a.r + b.r, a.d + b.d, "sum rule"),
        1 => is(&ad::sub(&a, &b), a.r - b.r, a.d - b.d, "difference rule"),
        2 => is(&ad::mul(&a, &b), a.r * b.r, a.r * b.d + a.d * b.r, "product rule"),
        3 => { let v = nlp::add((a.r, a.d), (b.r, b.d)); is(&Ad { r: v.0, d: v.1 }, a.r + b.r, a.d + b.d, "sum rule of dual pairs"); }
        _ => { let v = nlp::mul((a.r, a.d), (b.r, b.d)); is(&Ad { r: v.0, d: v.1 }, a.r * b.r, a.r * b.d + a.d * b.r, "product rule of dual pairs"); }
    }
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_ad_div() {
    let a = any("a", 10.0);
    let neg = pick("negative", 2) == 1;
    let q = f("b", 0.5, 10.0);
    let b = Ad { r: if neg { -q } else { q }, d: f("b", -10.0, 10.0) };
    let v = ad::div(&a, &b);
    // multiplied out so that the solver sees polynomials
    check(near(v.r * b.r, a.r, E), "value of a quotient");
    check(near(v.d * (b.r * b.r), a.d * b.r - a.r * b.d, E * 100.0), "quotient rule");
    obsf(v.r); obsf(v.d);
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_ad_act() {
    let v = any("v", 4.0);
    match pick("function", 3) {
        0 => { let e = v.r.exp(); is(&ad::exp(&v), e, v.d * e, "exponential and its derivative"); }
        1 => {
            let r = ad::reluAct(&v);
            if v.r > 0.0 { is(&r, v.r, v.d, "linear unit: positive part") } else { is(&r, 0.0, 0.0, "linear unit: negative part") }
        }
        _ => {
            let s = ad::sigmoidAct(&v);
            let e = v.r.exp();
            check(and(s.r > 0.0, s.r < 1.0), "the sigmoid lies in (0,1)");
            check(near(s.r * (e + 1.0), e, E), "value of the sigmoid");
            check(near(s.d * ((e + 1.0) * (e + 1.0)), v.d * e, E * 1.0e4), "derivative of the sigmoid");
            obsf(s.r); obsf(s.d);
        }
    }
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_ad_dot() {
    let n = [1, 2, 3, 4, 9, 20][pick("length", 6)];
    let a: Vec<Ad> = (0..n).map(|_| any("a", 4.0)).collect();
    let b: Vec<Ad> = (0..n).map(|i| if n <= 4 { any("b", 4.0) } else { Ad { r: (i as f64) * 0.5 - 3.0, d: 2.0 - (i as f64) * 0.25 } }).collect();
    let (mut r, mut d) = (0.0, 0.0);
    for i in 0..n { r += a[i].r * b[i].r; d += a[i].r * b[i].d + a[i].d * b[i].r; }
    is(&ad::dot(&a, &b), r, d, "dot product and its derivative");
    let (p, q): (Vec<_>, Vec<_>) = (a.iter().map(|x| (x.r, x.d)).collect(), b.iter().map(|x| (x.r, x.d)).collect());
    let v = nlp::dot(&p, &q);
    is(&Ad { r: v.0, d: v.1 }, r, d, "dot product of dual pairs");
    cover("end");
}
/// a neuron is its activation function of weighted inputs plus bias
#[no_mangle]
pub extern "C" fn h_ad_neuron() {
    let n = 1 + pick("inputs", 3);
    let x: Vec<Ad> = (0..n).map(|_| any("in", 1.0)).collect();
    let w: Vec<Ad> = (0..n).map(|_| any("weight", 1.0)).collect();
    let bias = any("bias", 1.0);
    let act = pick("activation", 2) as u32;
    let (mut r, mut d) = (bias.r, bias.d);
    for i in 0..n { r += x[i].r * w[i].r; d += x[i].r * w[i].d + x[i].d * w[i].r; }
    let v = ad::calc(&x, &ad::Neuron { weights: w.clone(), bias: bias.clone(), act });
    if act == 0 {
        let m = 0.001;
        if r > m { is(&v, r, d, "active rectified neuron") } else if r < -m { is(&v, 0.0, 0.0, "inactive rectified neuron") }
    } else {
        let s = ad::sigmoidAct(&ad::add(&ad::dot(&x, &w), &bias));
        is(&v, s.r, s.d, "sigmoid neuron");
    }
    cover("end");
}
/// activation far from zero
#[no_mangle]
pub extern "C" fn h_ad_act_far() {
    let v = Ad { r: [-18.0, -9.0, 9.0, 18.0][pick("value", 4)], d: f("v", -10.0, 10.0) };
    let e = v.r.exp();
    let s = ad::sigmoidAct(&v);
    check(near(s.r, 1.0 / (1.0 + 1.0 / e), 1.0e-9), "value of the sigmoid far from zero");
    check(near(s.d * (e + 2.0 + 1.0 / e), v.d, 1.0e-3), "derivative of the sigmoid far from zero");
    let r = ad::exp(&v);
    check(near(r.r / e, 1.0, E) && near(r.d / e, v.d, 1.0e-4), "exponential far from zero");
    obsf(s.r); obsf(s.d);
    cover("end");
}
/// networks are built from the parameter vector in order
#[no_mangle]
pub extern "C" fn h_nn_build() {
    let big = pick("big", 2) == 1;
    let (ni, n0, n1) = if big { [(1, 1, 5), (9, 2, 1), (2, 12, 4), (17, 5, 3)][pick("shape", 4)] } else { (1 + pick("inputs", 3), 1 + pick("hidden", 3), 1 + pick("outputs", 2)) };
    let start = pick("first_parameter", 3);
    let total = n0 * (ni + 1) + n1 * (n0 + 1);
    let all = start + total + 1;
    let ps: Vec<f64> = (0..all).map(|_| f("p", -10.0, 10.0)).collect();
    let k = if big { pick("differentiated_parameter", 5) * all / 4 } else { pick("differentiated_parameter", all + 1) };
    let diff = if k == 0 { None } else { Some(k - 1) };
    let act0 = pick("activation", 2) as u32;
    let mut idx = start as i64;
    let net = Nn::buildNnFromParameters(&mut idx, &ps, ni as i64, act0, n0 as i64, n1 as i64, diff);
    check(idx == (start + total) as i64, "every parameter is consumed exactly once");
    check(net.neuronsLayer0.len() == n0 && net.neuronsLayer1.len() == n1, "layer sizes");
    let mut at = start;
    let mut one = |v: &Ad, scale: f64, at: &mut usize, m: &str| { is(v, ps[*at] * scale, if diff == Some(*at) { 1.0 } else { 0.0 }, m); *at += 1; };
    for n in &net.neuronsLayer0 {
        check(n.weights.len() == ni && n.act == act0, "shape and activation of a hidden neuron");
        for w in &n.weights { one(w, 1.0, &mut at, "hidden weight"); }
        one(&n.bias, 15.0, &mut at, "hidden bias");
    }
    for n in &net.neuronsLayer1 {
        check(n.weights.len() == n0 && n.act == 1, "shape and activation of an output neuron");
        for w in &n.weights { one(w, 1.0, &mut at, "output weight"); }
        one(&n.bias, 8.0, &mut at, "output bias");
    }
    check(at == start + total, "number of parameters of the network");
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_nn_forward() {
    let (ni, n0, n1) = (1 + pick("inputs", 2), 1 + pick("hidden", 2), 1 + pick("outputs", 2));
    let p = |n: &str| (f(n, -2.0, 2.0), f(n, -2.0, 2.0));
    let lay = |n: usize, w: usize| nlp::Layer { neurons: (0..n).map(|_| nlp::WeightBias { weights: (0..w).map(|_| p("w")).collect(), bias: p("b") }).collect() };
    let nn = nlp::NeuralNetwork { layers: vec![lay(n0, ni), lay(n1, n0)] };
    let x: Vec<(f64, f64)> = (0..ni).map(|_| p("x")).collect();
    let out = nlp::forward(&nn, &x);
    check(out.len() == n1, "one output per output neuron");
    let mut h = vec![];
    for n in &nn.layers[0].neurons { let (mut r, mut d) = n.bias; for i in 0..ni { r += x[i].0 * n.weights[i].0; d += x[i].0 * n.weights[i].1 + x[i].1 * n.weights[i].0; } h.push((r, d)); }
    for (k, n) in nn.layers[1].neurons.iter().enumerate() {
        let (mut r, mut d) = n.bias;
        for i in 0..n0 { r += h[i].0 * n.weights[i].0; d += h[i].0 * n.weights[i].1 + h[i].1 * n.weights[i].0; }
        is(&Ad { r: out[k].0, d: out[k].1 }, r, d, "output of the two layer network");
    }
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_ml_vec() {
    let n = [0, 1, 2, 3, 9, 18][pick("length", 6)];
    let a: Vec<f64> = (0..n).map(|_| f("a", -10.0, 10.0)).collect();
    let b: Vec<f64> = (0..n).map(|_| f("b", -10.0, 10.0)).collect();
    let w = f("w", -10.0, 10.0);
    let same = |v: &[f64], e: &dyn Fn(usize) -> f64, m: &str| { check(v.len() == n, "length of a vector"); for i in 0..n { check(near(v[i], e(i), E), m); obsf(v[i]); } };
    same(&ml::vecAdd(&a, &b), &|i| a[i] + b[i], "vector sum");
    same(&ml::vecAddScale(&a, &b, w), &|i| a[i] + b[i] * w, "scaled vector sum");
    same(&ml::vecScale(&a, w), &|i| a[i] * w, "scaled vector");
    let mut s = 0.0; let mut l = 0.0;
    for i in 0..n { s += a[i] * b[i]; l += a[i] * a[i]; }
    check(near(ml::vecDot(&a, &b), s, E), "scalar product");
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_ml_len() {
    let n = pick("length", 3);
    let hi = [10.0, 5000.0][pick("scale", 2)];
    let a: Vec<f64> = (0..n).map(|_| f("a", -hi, hi)).collect();
    let mut l = 0.0;
    for i in 0..n { l += a[i] * a[i]; }
    let v = ml::vecLen(&a);
    check(v >= 0.0, "a length is not negative");
    check(near(v * v, l, if hi > 10.0 { 0.01 } else { E }), "length of a vector");
    obsf(v);
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_ml_cos() {
    let a = [f("a", 0.5, 2.0), f("a", -2.0, 2.0)];
    let b = [f("b", 0.5, 2.0), f("b", -2.0, 2.0)];
    let c = ml::calcCosineSim(&a, &b);
    let (la, lb) = (ml::vecLen(&a), ml::vecLen(&b));
    check(near(c * (la * lb), a[0] * b[0] + a[1] * b[1], E), "cosine similarity is the scalar product of the directions");
    check(near(ml::calcCosineSim(&b, &a), c, E), "cosine similarity is symmetric");
    obsf(c);
    cover("end");
}

// ---- image maps
use nar20_1::Map2d::{self as m2, Map2d};
use nar20_1::Tv::{self as tvm, Tv};
use nar20_1::TvVec as tvv;
use nar20_1::{ModVisionB as vb, ModVisionC as vc, ModVisionD as vd};
fn img(n: &str, h: i32, w: i32, lo: f64, hi: f64) -> Map2d<f64> { Map2d { arr: (0..h * w).map(|_| f(n, lo, hi)).collect(), w, h } }
fn px(m: &Map2d<f64>, y: i32, x: i32) -> f64 { if y < 0 || x < 0 || y >= m.h || x >= m.w { 0.0 } else { m.arr[(y * m.w + x) as usize] } }
fn shape(m: &Map2d<f64>, h: i32, w: i32) { check(m.h == h && m.w == w && m.arr.len() == (h * w) as usize, "shape of the image"); }
/// reading outside gives the default, writing outside changes nothing, writing inside changes that cell only
#[no_mangle]
pub extern "C" fn h_map_cell() {
    let (h, w) = (1 + pick("height", 3) as i32, 1 + pick("width", 3) as i32);
    let z = m2::makeMap2d(h, w);
    shape(&z, h, w);
    for v in &z.arr { check(*v == 0.0, "a fresh image is zero"); }
    let mut m = img("px", h, w, -10.0, 10.0);
    let old = m.clone();
    let (y, x) = (pick("y", 6) as i32 - 1, pick("x", 6) as i32 - 1);
    check(m2::readAt(&m, y, x) == px(&old, y, x), "reading a cell");
    let v = f("v", -10.0, 10.0);
    m2::writeAt(&mut m, y, x, v);
    shape(&m, h, w);
    for iy in 0..h { for ix in 0..w { check(px(&m, iy, ix) == if iy == y && ix == x { v } else { px(&old, iy, ix) }, "writing a cell"); } }
    let c = m2::clone(&m);
    shape(&c, h, w);
    for i in 0..m.arr.len() { check(c.arr[i] == m.arr[i], "copy of an image"); }
    cover("end");
}
/// coordinates anywhere in the integers within +-1000
#[no_mangle]
pub extern "C" fn h_map_far() {
    let mut m = Map2d { arr: (0..6).map(|i| i as f64 + 1.0).collect(), w: 3, h: 2 };
    let (y, x) = (int("y", 0, 2000) as i32 - 1000, int("x", 0, 2000) as i32 - 1000);
    let r = m2::readAt(&m, y, x);
    if y >= 0 && y < 2 && x >= 0 && x < 3 { check(r == (y * 3 + x + 1) as f64, "reading a cell"); } else { check(r == 0.0, "reading outside"); }
    m2::writeAt(&mut m, y, x, 50.0);
    let mut n = 0;
    for i in 0..6 { if m.arr[i] == 50.0 { check(y * 3 + x == i as i32, "writing a cell"); n += 1; } else { check(m.arr[i] == i as f64 + 1.0, "other cells are kept"); } }
    check(n == if y >= 0 && y < 2 && x >= 0 && x < 3 { 1 } else { 0 }, "exactly the addressed cell is written");
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_map_rect() {
    let (h, w) = (1 + pick("height", 3) as i32, 1 + pick("width", 3) as i32);
    let mut m = img("px", h, w, -10.0, 10.0);
    let old = m.clone();
    let (y, x, sy, sx) = (pick("y", 4) as i32 - 1, pick("x", 4) as i32 - 1, pick("sy", 4) as i32, pick("sx", 4) as i32);
    let c = m2::crop(&m, x, y, sx, sy);
    shape(&c, sy, sx);
    for iy in 0..sy { for ix in 0..sx { check(px(&c, iy, ix) == px(&old, y + iy, x + ix), "a crop copies its rectangle, zero outside"); } }
    m2::map2dDrawBox(&mut m, x, y, sx, sy, 99.0);
    shape(&m, h, w);
    for iy in 0..h { for ix in 0..w { let inside = iy >= y && iy < y + sy && ix >= x && ix < x + sx; check(px(&m, iy, ix) == if inside { 99.0 } else { px(&old, iy, ix) }, "a box fills its rectangle only"); } }
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_map_circle() {
    let (h, w) = (7, 6);
    let mut m = img("px", h, w, -10.0, 10.0);
    let old = m.clone();
    let (cy, cx, r) = (pick("cy", 6) as i32, pick("cx", 5) as i32, pick("r", 4) as i32);
    m2::map2dDrawCircle(&mut m, cx, cy, r, 99.0);
    shape(&m, h, w);
    for iy in 0..h { for ix in 0..w { let d = (iy - cy) * (iy - cy) + (ix - cx) * (ix - cx); check(px(&m, iy, ix) == if d <= r * r { 99.0 } else { px(&old, iy, ix) }, "a circle fills the cells within its radius only"); } }
    cover("end");
}
/// a line covers exactly the cells within 1.5 of the segment (cells near that limit are not judged)
#[no_mangle]
pub extern "C" fn h_map_line() {
    let (h, w) = (6, 6);
    let mut m = img("px", h, w, -10.0, 10.0);
    let old = m.clone();
    let (ay, ax, by, bx) = (pick("ay", 6) as i32, pick("ax", 6) as i32, pick("by", 6) as i32, pick("bx", 6) as i32);
    assume(ay != by || ax != bx);
    m2::drawLine(&mut m, ax, ay, bx, by, 99.0);
    shape(&m, h, w);
    let (dy, dx) = (by - ay, bx - ax);
    let l2 = dy * dy + dx * dx;
    for iy in 0..h { for ix in 0..w {
        let (oy, ox) = (iy - ay, ix - ax);
        let dot = oy * dy + ox * dx;
        let cross = ox * dy - oy * dx;
        // distance from the line squared = cross^2/l2; along the segment: 0 <= dot <= l2
        let edge = dot == 0 || dot == l2 || 4 * cross * cross == 9 * l2;
        let on = dot > 0 && dot < l2 && 4 * cross * cross < 9 * l2;
        if !edge { check(px(&m, iy, ix) == if on { 99.0 } else { px(&old, iy, ix) }, "a line covers the cells at most 1.5 from the segment"); }
        else { check(or(px(&m, iy, ix) == 99.0, px(&m, iy, ix) == px(&old, iy, ix)), "cells are drawn or kept"); }
    } }
    check(px(&m, ay + dy / 2, ax + dx / 2) == 99.0 || l2 <= 2, "the middle of a line is drawn");
    cover("end");
}
/// larger images: crops, boxes and circles
#[no_mangle]
pub extern "C" fn h_map_big() {
    let (h, w) = [(12, 9), (3, 20)][pick("size", 2)];
    let mut m = img("px", h, w, -10.0, 10.0);
    let old = m.clone();
    let (y, x) = ([-7, 0, 2, 11][pick("y", 4)], [-7, 0, 3, 12][pick("x", 4)]);
    let (sy, sx) = ([1, 8, 15][pick("sy", 3)], [1, 10, 30][pick("sx", 3)]);
    if pick("shape", 2) == 0 {
        let c = m2::crop(&m, x, y, sx, sy);
        shape(&c, sy, sx);
        for iy in 0..sy { for ix in 0..sx { check(px(&c, iy, ix) == px(&old, y + iy, x + ix), "a crop copies its rectangle, zero outside"); } }
        m2::map2dDrawBox(&mut m, x, y, sx, sy, 99.0);
        for iy in 0..h { for ix in 0..w { let inside = iy >= y && iy < y + sy && ix >= x && ix < x + sx; check(px(&m, iy, ix) == if inside { 99.0 } else { px(&old, iy, ix) }, "a box fills its rectangle only"); } }
    } else {
        let r = sy;
        m2::map2dDrawCircle(&mut m, x, y, r, 99.0);
        for iy in 0..h { for ix in 0..w { let d = (iy - y) * (iy - y) + (ix - x) * (ix - x); check(px(&m, iy, ix) == if d <= r * r { 99.0 } else { px(&old, iy, ix) }, "a circle fills the cells within its radius only"); } }
    }
    shape(&m, h, w);
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_map_arith() {
    let (h, w) = if pick("big", 2) == 1 { (7, 11) } else { (1 + pick("height", 2) as i32, 1 + pick("width", 3) as i32) };
    let hi = if h == 7 { 10.0 } else { [10.0, 1000.0][pick("scale", 2)] };
    let (a, b) = (img("a", h, w, -hi, hi), img("b", h, w, -hi, hi));
    let q = f("q", 0.5, 10.0);
    let (s, d, v) = (m2::add(&a, &b), m2::sub(&a, &b), m2::divScalar(&a, q));
    shape(&s, h, w); shape(&d, h, w); shape(&v, h, w);
    let mut sum = 0.0;
    for i in 0..a.arr.len() {
        check(near(s.arr[i], a.arr[i] + b.arr[i], E), "sum of images");
        check(near(d.arr[i], a.arr[i] - b.arr[i], E), "difference of images");
        check(near(v.arr[i] * q, a.arr[i], E), "image divided by a number");
        sum += a.arr[i] * a.arr[i];
    }
    check(near(m2::distPow2(&a), sum, E), "squared norm of an image");
    cover("end");
}
/// convolution with a kernel of even size: a weighted sum of the cells around each cell
#[no_mangle]
pub extern "C" fn h_conv() {
    let (h, w) = ([2, 5, 8][pick("height", 3)], [3, 6][pick("width", 2)]);
    let (kh, kw) = [(2, 2), (4, 2), (2, 4), (6, 2)][pick("kernel", 4)];
    let (v, k) = (img("v", h, w, -2.0, 2.0), img("k", kh, kw, -2.0, 2.0));
    let at = |y: i32, x: i32| { let mut s = 0.0; for i in 0..kh { for j in 0..kw { s += px(&k, i, j) * px(&v, y + i - kh / 2, x + j - kw / 2); } } s };
    let r = vc::convo(&v, &k);
    shape(&r, h, w);
    for y in 0..h { for x in 0..w { check(near(px(&r, y, x), at(y, x), E), "convolution"); } }
    let r = vc::convWithoutBorder(&v, &k);
    shape(&r, h, w);
    let (by, bx) = (kh / 2 + 1, kw / 2 + 1);
    for y in 0..h { for x in 0..w { let inner = y >= by && y < h - by && x >= bx && x < w - bx; check(near(px(&r, y, x), if inner { at(y, x) } else { 0.0 }, E), "convolution away from the border, zero at the border"); } }
    cover("end");
}
/// a gabor kernel is a gaussian envelope times a wave
#[no_mangle]
pub extern "C" fn h_gabor() {
    let width = 1 + pick("width", 4) as i32;
    let (phi, lambda, off, asp) = ([0.0, 0.5, 2.0][pick("phi", 3)], [0.5, 1.5][pick("lambda", 2)], [0.0, 0.7][pick("offset", 2)], f("aspect", 0.1, 2.0));
    let m = vc::generateGaborKernel(width, phi, lambda, off, asp);
    shape(&m, width, width);
    let sigma = 0.56 * lambda;
    for iy in 0..width { for ix in 0..width {
        let x = ((ix - width / 2) as f64 / width as f64) * 2.0;
        let y = ((iy - width / 2) as f64 / width as f64) * 2.0;
        let xt = x * phi.cos() + y * phi.sin();
        let yt = -x * phi.sin() + y * phi.cos();
        let wave = (2.0 * std::f64::consts::PI * (xt / lambda) + off).cos();
        let v = px(&m, iy, ix);
        check(and(v <= 1.0, v >= -1.0), "a gabor kernel is bounded");
        if iy == width / 2 && ix == width / 2 { check(near(v, off.cos(), E), "centre of a gabor kernel"); }
        // sign and size follow the wave, damped by an envelope in (0,1]
        check(if wave >= 0.0 { and(v >= -E, v <= wave + E) } else { and(v <= E, v >= wave - E) }, "the wave is damped");
        let _ = (yt, sigma);
        obsf(v);
    } }
    cover("end");
}

// ---- evidence vectors and prototype classifiers
fn tv(n: &str) -> Tv { Tv { f: f(n, 0.0, 1.0), c: f(n, 0.1, 0.9) } }
fn tvs(n: &str, k: usize) -> Vec<Tv> { (0..k).map(|_| tv(n)).collect() }
fn same(a: &Tv, b: &Tv) -> bool { and(near(a.f, b.f, E), near(a.c, b.c, E)) }
#[no_mangle]
pub extern "C" fn h_tvvec() {
    let n = pick("length", 4);
    let (a, b) = (tvs("a", n), tvs("b", n));
    let (r, c) = (tvv::revVec(&a, &b), tvv::compVec(&a, &b));
    check(r.len() == n && c.len() == n, "length of evidence vectors");
    for i in 0..n {
        check(same(&r[i], &tvm::rev(&a[i], &b[i])), "revision is elementwise");
        check(same(&c[i], &tvm::comp(&a[i], &b[i])), "comparison is elementwise");
    }
    cover("end");
}
/// folding pools the evidence: weights add up, the frequency is the weighted mean
#[no_mangle]
pub extern "C" fn h_tvfold() {
    let n = [0, 1, 2, 3, 8, 20][pick("length", 6)];
    let a: Vec<Tv> = (0..n).map(|i| Tv { f: if i < 3 || i + 1 == n { f("a", 0.0, 1.0) } else { 0.25 }, c: if n > 3 { 0.5 } else { [0.2, 0.5, 0.9][pick("confidence", 3)] } }).collect();
    let t = tvv::foldVec(&a);
    if n == 0 { check(t.c == 0.0, "nothing folds to no evidence"); }
    else {
        let (mut wsum, mut pos) = (0.0, 0.0);
        for x in &a { let w = x.c / (1.0 - x.c); wsum += w; pos += w * x.f; }
        check(near(t.c, wsum / (wsum + 1.0), E), "folding pools the evidence: confidence");
        check(near(t.f, pos / wsum, E), "folding pools the evidence: frequency");
    }
    obsf(t.f); obsf(t.c);
    cover("end");
}
/// quantisation: exactly one level is set, and it is the level of the value
#[no_mangle]
pub extern "C" fn h_quant() {
    let n = 2 + pick("levels", 5);
    let v = f("v", 0.0, 1.0);
    let conf = f("conf", 0.01, 0.99);
    let q = vb::quantisize(v, n as i64) as usize;
    let q = fix(q, n);
    check(and((q as f64) <= v * (n as f64 - 1.0) + E, v * (n as f64 - 1.0) < q as f64 + 1.0 + E), "the level of a value");
    let t = vb::conv_to_tv_vec(v, n as i64, conf);
    check(t.len() == n, "one entry per level");
    for i in 0..n { check(and(t[i].f == if i == q { 1.0 } else { 0.0 }, t[i].c == conf), "exactly the level of the value is set"); }
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_quant_img() {
    let (h, w, n) = (1 + pick("height", 2) as i32, 1 + pick("width", 2) as i32, 3usize);
    let m = img("px", h, w, 0.0, 1.0);
    let t = vb::conv_img_to_tv_vec(&m, n as i64, 0.3);
    check(t.len() == (h * w) as usize * n, "every pixel contributes its levels");
    for y in 0..h { for x in 0..w {
        let o = vb::conv_to_tv_vec(px(&m, y, x), n as i64, 0.3);
        for k in 0..n { check(and(t[(y * w + x) as usize * n + k].f == o[k].f, t[(y * w + x) as usize * n + k].c == o[k].c), "pixels in reading order"); }
    } }
    cover("end");
}
/// the winner is a prototype of greatest similarity, if that is at least one half
#[no_mangle]
pub extern "C" fn h_clsmax() {
    let n = [0, 1, 2, 3, 4, 9, 30][pick("prototypes", 7)];
    let s: Vec<f64> = (0..n).map(|i| if n < 5 || i + 1 == n { f("similarity", 0.0, 1.0) } else { 0.3 + 0.01 * (i % 29) as f64 }).collect();
    let r = if pick("classifier", 2) == 0 { vb::classify_max(&s) } else { vd::classify_max(&s) };
    match r {
        Some((i, v)) => {
            check(i < n, "the winner exists");
            let i = fix(i, n);
            check(and(v == s[i], v >= 0.5), "the winner and its similarity");
            for x in &s { check(*x <= v, "no prototype is more similar than the winner"); }
            for k in 0..i { check(s[k] < v, "ties go to the oldest prototype"); }
        }
        None => for x in &s { check(*x < 0.5, "without a winner nothing is similar"); },
    }
    cover("end");
}
/// evidence based classifier: match and revise, or learn a new prototype, or neither
#[no_mangle]
pub extern "C" fn h_clsb() {
    let np = pick("prototypes", 3);
    let nc = 1 + pick("channels", 2);
    let chan = |n: &str| vb::Channel { v: vec![[Tv { f: 0.0, c: 0.6 }, Tv { f: 1.0, c: 0.6 }, Tv { f: 0.9, c: 0.3 }][pick(n, 3)]] };
    let protos: Vec<Vec<vb::Channel>> = (0..np).map(|_| (0..nc).map(|_| chan("prototype")).collect()).collect();
    let stim: Vec<vb::Channel> = (0..nc).map(|_| chan("stimulus")).collect();
    let mut cls = vb::PrototypeClassifier { prototypes: protos.iter().map(|c| vb::Prototype { channels: c.clone(), last_use_time: 3 }).collect(), n_quantize: 3, stimulus_conf: 0.3 };
    let sims = vb::calc_sims(&stim, &cls);
    check(sims.len() == np, "one similarity per prototype");
    for p in 0..np {
        let mut t = Tv { f: 0.0, c: 0.0 };
        for k in 0..nc { t = tvm::rev(&t, &tvm::comp(&stim[k].v[0], &protos[p][k].v[0])); }
        check(near(sims[p], tvm::calcExp(&t), 1.0e-4), "similarity is the expectation of the pooled comparison");
    }
    let add = pick("learn", 2) == 1;
    let now = int("now", 0, 1000) as i64;
    let r = vb::classify(&mut cls, &stim, now, add);
    learned_b(&sims, &r, add, np, cls.prototypes.len());
    for p in 0..np {
        let hit = r == Some(p) && add && p < np;
        check(cls.prototypes[p].last_use_time == if hit { now } else { 3 }, "time of last use");
        for k in 0..nc {
            let w = if hit { tvm::rev(&protos[p][k].v[0], &stim[k].v[0]) } else { protos[p][k].v[0] };
            check(cls.prototypes[p].channels[k].v.len() == 1 && same(&cls.prototypes[p].channels[k].v[0], &w), "evidence of a prototype");
        }
    }
    if cls.prototypes.len() > np {
        check(cls.prototypes[np].last_use_time == now, "time of a new prototype");
        for k in 0..nc { check(cls.prototypes[np].channels.len() == nc && same(&cls.prototypes[np].channels[k].v[0], &stim[k].v[0]), "a new prototype is the stimulus"); }
    }
    cover("end");
}
fn learned_b(sims: &[f64], r: &Option<usize>, add: bool, np: usize, after: usize) {
    let mut best: Option<usize> = None;
    for i in 0..np { if sims[i] >= 0.5 && best.map_or(true, |b| sims[i] > sims[b]) { best = Some(i); } }
    match best {
        Some(b) => { check(*r == Some(b), "the most similar prototype is returned"); check(after == np, "no prototype is added on a match"); }
        None if add => { check(*r == Some(np), "the new prototype is returned"); check(after == np + 1, "exactly one prototype is added"); }
        None => { check(r.is_none(), "no match"); check(after == np, "nothing is learned when only classifying"); }
    }
}
/// distance based classifier
#[no_mangle]
pub extern "C" fn h_clsd() {
    let np = pick("prototypes", 3);
    let nc = 1 + pick("channels", 2);
    let (h, w) = (1, 2);
    let many = std::cell::Cell::new(1.0);
    let grid = |n: &str| { let scale: f64 = many.get(); vd::Channel { v: Map2d { arr: (0..h * w).map(|_| [0.0, 1.5][pick(n, 2)] * scale).collect(), w, h } } };
    let mut protos = vec![];
    for i in 0..np { let seen = if i == 0 { [1, 2, 7, 40][pick("seen", 4)] } else { 3 }; many.set(if seen > 3 { seen as f64 } else { 1.0 }); protos.push((vec![grid("prototype")], seen)); }
    many.set(1.0);
    if nc == 2 { for p in protos.iter_mut() { p.0.push(vd::Channel { v: Map2d { arr: vec![0.5, 0.5], w, h } }); } }
    let mut stim = vec![grid("stimulus")];
    if nc == 2 { stim.push(vd::Channel { v: Map2d { arr: vec![[0.0, 0.6][pick("second_channel", 2)], 1.0], w, h } }); }
    let mut cls = vd::RealPrototypeClassifier { prototypes: protos.iter().map(|c| vd::RealPrototype { channels: c.0.clone(), last_use_time: 3, evidence_count: c.1 }).collect() };
    let sims = vd::calc_sims(&stim, &cls);
    check(sims.len() == np, "one similarity per prototype");
    for p in 0..np {
        let mut d = 0.0;
        for k in 0..nc { for i in 0..(h * w) as usize { let x = stim[k].v.arr[i] - protos[p].0[k].v.arr[i] / protos[p].1 as f64; d += x * x; } }
        check(and(sims[p] > 0.0, sims[p] <= 1.0), "similarity lies in (0,1]");
        { check(near(sims[p], (-0.5 * d).exp(), E), "similarity decays with the squared distance from the mean of what was seen"); }
    }
    let add = pick("learn", 2) == 1;
    let now = int("now", 0, 1000) as i64;
    let r = vd::classify(&mut cls, &stim, now, add);
    learned_b(&sims, &r, add, np, cls.prototypes.len());
    for p in 0..np {
        let hit = r == Some(p) && add && p < np;
        check(cls.prototypes[p].last_use_time == if hit { now } else { 3 }, "time of last use");
        check(cls.prototypes[p].evidence_count == protos[p].1 + if hit { 1 } else { 0 }, "number of pieces of evidence");
        for k in 0..nc { for i in 0..(h * w) as usize {
            let e = protos[p].0[k].v.arr[i] + if hit { stim[k].v.arr[i] } else { 0.0 };
            check(near(cls.prototypes[p].channels[k].v.arr[i], e, E), "sum of the evidence of a prototype");
        } }
    }
    if cls.prototypes.len() > np {
        let q = &cls.prototypes[np];
        check(q.last_use_time == now && q.evidence_count == 1 && q.channels.len() == nc, "a new prototype is one piece of evidence");
        for k in 0..nc { for i in 0..(h * w) as usize { check(q.channels[k].v.arr[i] == stim[k].v.arr[i], "a new prototype is the stimulus"); } }
    }
    cover("end");
}

// ---- pong
use nar20_1::EnvPong3 as pong;
#[no_mangle]
pub extern "C" fn h_pong_init() {
    let e = pong::makeEnvState();
    check(e.szX > 0 && e.szY > 0 && e.ballX >= 0 && e.ballX < e.szX && e.ballY > 0 && e.ballY < e.szY, "the ball starts inside the field");
    check(e.hits == 0 && e.misses == 0 && e.t == 0 && !e.was_ball_spawned, "nothing has happened yet");
    check(e.vX.abs() == 1 && e.vY.abs() == 1 && e.batX >= 2 * e.batWidth && e.batX <= e.szX - 1 + e.batWidth, "the bat starts inside its range");
    cover("end");
}
/// one step from any state inside the field (inductive)
#[no_mangle]
pub extern "C" fn h_pong_step() {
    let mut e = pong::makeEnvState();
    e.verbosity = 0;
    let (sx, sy) = (e.szX, e.szY);
    let bw = [6, 3][pick("bat_width", 2)];
    e.batWidth = bw; e.virtualBatWidth = [bw, 1][pick("virtual_width", 2)];
    e.ballX = int("ballX", 0, 49) as i64; e.ballY = int("ballY", 1, 19) as i64;
    e.batX = int("batX", 6, 60) as i64;
    assume(e.batX >= 2 * bw && e.batX <= sx - 1 + bw);
    e.batVX = int("batVX", 0, 8) as i64 - 4;
    e.vX = [1, -1][pick("vX", 2)]; e.vY = [1, -1][pick("vY", 2)];
    e.t = int("t", 0, 1000) as i64; e.hits = int("hits", 0, 1000) as i64; e.misses = int("misses", 0, 1000) as i64;
    e.was_ball_spawned = pick("spawned", 2) == 1;
    let (bx, by, px, pv, vx, vy, t, hi, mi) = (e.ballX, e.ballY, e.batX, e.batVX, e.vX, e.vY, e.t, e.hits, e.misses);
    let mut rng = rand::thread_rng();
    pong::simStep(&mut e, &mut rng);
    let nvx = if bx <= 0 { 1 } else if bx >= sx - 1 { -1 } else { vx };
    let nvy = if by >= sy - 1 { -1 } else { vy };
    let nx = if (t + 1) % 2 == 1 { bx + nvx } else { bx };
    let ny = by + nvy;
    check(e.t == t + 1, "time advances by one");
    check(e.szX == sx && e.szY == sy && e.batWidth == bw && e.mulVX == 0 && e.batVX == pv, "the field, the bat and its velocity do not change");
    let d = nx - px;
    if ny == 0 {
        if d <= bw && -d <= bw { check(e.hits == hi + 1 && e.misses == mi, "a caught ball is a hit"); cover("hit"); }
        else { check(e.hits == hi && e.misses == mi + 1, "a missed ball is a miss"); cover("miss"); }
    } else { check(e.hits == hi && e.misses == mi, "nothing is counted away from the bat"); }
    if ny == 0 || nx == 0 || nx >= sx - 1 {
        check(e.was_ball_spawned, "the ball respawns when it leaves the field");
        check(e.ballX >= 0 && e.ballX < sx && e.ballY >= sy / 2 && e.ballY < sy, "the ball respawns in the half away from the bat");
        check(e.vX == 1 || e.vX == -1, "direction of a new ball");
        cover("respawn");
    } else {
        check(!e.was_ball_spawned && e.ballX == nx && e.ballY == ny && e.vX == nvx, "the ball moves one step and bounces off the walls");
        check(e.ballX >= 0 && e.ballX < sx && e.ballY > 0 && e.ballY < sy, "the ball stays inside the field");
        cover("move");
    }
    check(e.vY == nvy, "vertical direction");
    let moved = px + pv * bw / 2;
    let moved = if moved > sx - 1 + bw { sx - 1 + bw } else { moved };
    check(e.batX == if moved < 2 * bw { 2 * bw } else { moved }, "the bat moves by its velocity inside its range");
    obs(e.ballX as u64); obs(e.ballY as u64); obs(e.batX as u64);
    cover("end");
}

// ---- natural language front end (the parts before and after the network)
const WORDS: [(&str, &str); 24] = [("Tom", "NNP"), ("Tim", "NNP"), ("John", "NNP"), ("is", "VBZ"), ("can", "MD"), ("are", "VBP"), ("?", "?"), ("to", "PRT_TO"), ("of", "IN"), ("the", "DT"), ("what", "WP"), ("and", "CC"),
    ("fast", "JJ"), ("slow", "JJ"), ("fat", "JJ"), ("thin", "JJ"), ("good", "JJ"), ("bad", "JJ"), ("dance", "VB"), ("hunting", "NN"), ("purpose", "NN"), ("food", "NN"), ("Cat", "NN"), ("want", "VBT")];
const POS: [(&str, i64); 17] = [("VBZ", 0), ("JJ", 1), ("NNP", 2), ("CC", 3), (",", 4), ("NN", 5), ("VBP", 6), ("DT", 8), ("PRT_TO", 9), ("VB", 10), ("VBT", 11), ("WP", 12), ("?", 13), ("VBG", 14), ("IN", 15), ("PRP", 16), ("MD", 17)];
#[no_mangle]
pub extern "C" fn h_nlp_pos() {
    let n = [0, 1, 2, 11, 12, 13, 30][pick("words", 7)];
    let long = if n > 2 { [0, n / 2, n - 1][pick("varied", 3)] } else { 0 };
    let ws: Vec<usize> = (0..n).map(|i| if n <= 2 || i == long { pick("word", 24) } else { (i * 7) % 24 }).collect();
    let p = nlp::conv_tokens_to_poss(&ws.iter().map(|i| WORDS[*i].0.to_string()).collect::<Vec<_>>());
    check(p.len() == n, "one class per word");
    for i in 0..n { check(p[i] == WORDS[ws[i]].1, "class of a word"); }
    let c = nlp::prot_pos0(p.clone());
    check(c.len() == n + 1 && c[n] == 7, "the sentence ends with the stop code");
    for i in 0..n { check(POS.iter().any(|x| x.0 == p[i] && x.1 == c[i]), "code of a word class"); }
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_nlp_codes() {
    let n = pick("classes", 3);
    let ws: Vec<usize> = (0..n).map(|_| pick("class", 17)).collect();
    let c = nlp::prot_pos0(ws.iter().map(|i| POS[*i].0.to_string()).collect());
    check(c.len() == n + 1 && c[n] == 7, "the sentence ends with the stop code");
    for i in 0..n { check(c[i] == POS[ws[i]].1 && c[i] < nlp::pos_ret_codes() && c[i] != 7, "documented code of a word class"); }
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_nlp_onehot() {
    let n = 1 + pick("length", 8);
    let v = pick("value", n);
    let r = nlp::encode_onehot(v as i64, n as i64);
    check(r.len() == n, "length of the encoding");
    for i in 0..n { check(r[i] == if i == v { 1.0 } else { 0.0 }, "exactly the value is hot"); }
    cover("end");
}
/// decoding gives the first greatest activation (clamped to [0,1]); no activation decodes to 0
#[no_mangle]
pub extern "C" fn h_nlp_winner() {
    let n = [0, 1, 2, 3, 4, 5, 34][pick("outputs", 7)];
    let v: Vec<(f64, f64)> = (0..n).map(|i| (if n <= 5 || i == 33 { f("activation", -2.0, 2.0) } else { 0.01 * ((i * 13) % 34) as f64 }, f("derivative", -2.0, 2.0))).collect();
    let r = nlp::calc_max_onehot_idx(&v);
    let cl = |x: f64| if x < 0.0 { 0.0 } else if x > 1.0 { 1.0 } else { x };
    check(r >= 0 && (r as usize) < n.max(1), "the winner is an output");
    if n > 0 {
        let w = fix(r as usize, n);
        let best = cl(v[w].0);
        for k in 0..n { let c = cl(v[k].0); if k < w { check(c < best, "an earlier output is weaker"); } else { check(c <= best, "no output is stronger than the winner"); } }
    }
    cover("end");
}
/// network input: the last twelve codes, right aligned, padded in front, each as one hot of 34
#[no_mangle]
pub extern "C" fn h_nlp_input() {
    let n = [0, 1, 2, 3, 5, 8, 10, 11, 12, 13, 14, 15, 20, 24, 25, 40][pick("length", 16)];
    let mut seq: Vec<i64> = (0..n as i64).map(|i| (i * 5 + 3) % 33).collect();
    if n > 0 { let k = [0, n / 2, n - 1][pick("varied_position", 3)]; seq[k] = pick("code", 34) as i64; }
    let b = nlp::conv_seq_to_nninput(&nlp::Seq { seq: seq.clone(), outonehot: -1 });
    check(b.len() == 34 * 12, "size of the network input");
    for i in 0..12usize {
        let code = if i + n >= 12 { seq[i + n - 12] } else { 33 };
        for k in 0..34usize { check(b[i * 34 + k].0 == if k as i64 == code { 1.0 } else { 0.0 } && b[i * 34 + k].1 == 0.0, "one hot encoding of the aligned sequence"); }
    }
    cover("end");
}
/// extracted relations are read back by the parser exactly
#[no_mangle]
pub extern "C" fn h_nlp_rel() {
    use nar20_1::Term::Term;
    let w = |n: &str| ["Tom", "is", "fat", "want_to", "x1"][pick(n, 5)].to_string();
    let (h, a, b) = (w("head"), w("first"), w("second"));
    let conf = [0.998, 0.5, 0.9][pick("confidence", 3)];
    let s = nlp::conv_rel_to_narsese(&nlp::Relation { head: h.clone(), args: vec![a.clone(), b.clone()], isNegated: false, conf });
    match nar20_1::NarseseParser::parseNarsese(&s) {
        None => check(false, "a relation is valid input"),
        Some((t, tv, p, now)) => {
            let nm = |x: &String| Box::new(Term::Name(x.clone()));
            let want = Term::Stmt(nar20_1::Term::Copula::INH, Box::new(Term::Prod(vec![nm(&a), nm(&b)])), nm(&h));
            check(nar20_1::Term::checkEqTerm(&t, &want), "subject and object are related in order");
            check(near(tv.f, 1.0, E) && near(tv.c, conf, E), "truth of a relation");
            check(p == nar20_1::NarSentence::EnumPunctation::JUGEMENT && !now, "a relation is an eternal judgement");
        }
    }
    cover("end");
}

// ---- usefulness of knowledge
use nar20_1::NarSentence as S;
#[no_mangle]
pub extern "C" fn h_use_value() {
    // the same age at any time: only the age matters, and use in the future counts as use now
    let now = int("now", 0, 1000) as i64;
    let last = int("last", 0, 1000) as i64;
    let cnt = [0, 1, 2, 7, 1000][pick("uses", 5)];
    let v = S::calcUsageUsefulness(&S::Usage { lastUsed: last, useCount: cnt }, now);
    check(and(v >= 0.0, v < 1.0), "usefulness lies in [0,1)");
    let age = [0, 1, 2, 5, 50, 1000][pick("age", 6)];
    if now <= last { assume(age == 0); } else { assume(now - last == age); }
    let u = cnt as f64;
    check(near(v, u / (u + age as f64 + 1.0), 1.0e-6), "usefulness is uses over uses plus age plus one");
    obsf(v);
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_use_count() {
    let age = [0, 1, 3, 20, 1000, -5][pick("age", 6)];
    let cnt = int("uses", 0, 1000) as i64;
    let v = S::calcUsageUsefulness(&S::Usage { lastUsed: 5000 - age, useCount: cnt }, 5000);
    check(and(v >= 0.0, v < 1.0), "usefulness lies in [0,1)");
    let age = if age > 0 { age } else { 0 } as f64;
    let u = cnt as f64;
    check(near(v * (u + age + 1.0), u, 1.0e-4), "usefulness is uses over uses plus age plus one");
    obsf(v);
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_use_order() {
    let (l1, l2) = (int("last", 0, 100) as i64, 100 - [0, 4, 11, 50, 60][pick("later", 5)]);
    let (c1, c2) = [(1, 1), (1, 2), (0, 3), (5, 6), (30, 30)][pick("uses", 5)];
    assume(l1 <= l2);
    let a = S::calcUsageUsefulness(&S::Usage { lastUsed: l1, useCount: c1 }, 90);
    let b = S::calcUsageUsefulness(&S::Usage { lastUsed: l2, useCount: c2 }, 90);
    check(a <= b + 1.0e-9, "more recent and more frequent use is at least as useful");
    cover("end");
}
#[no_mangle]
pub extern "C" fn h_use_update() {
    let now = int("now", 0, 1000) as i64;
    let last = int("last", 0, 1000) as i64;
    let cnt = int("uses", 0, 1000) as i64;
    let mut u = S::Usage { lastUsed: last, useCount: cnt };
    S::usageUpdate(&mut u, now);
    check(u.lastUsed == now && u.useCount == cnt + 1, "a use is counted and dated");
    let c = u.clone();
    check(c.lastUsed == now && c.useCount == cnt + 1, "a copy is the same");
    cover("end");
}
/// limiting attention keeps the first items, in order, unchanged
#[no_mangle]
pub extern "C" fn h_use_limit() {
    use nar20_1::AeraishPerceptionComp as A;
    let n = pick("items", 5);
    let k = pick("limit", 7);
    let v: Vec<A::PerceptItem<u64>> = (0..n).map(|_| A::PerceptItem { dat: word("data"), salience: f("salience", 0.0, 1.0), novelity: f("novelty", 0.0, 1.0) }).collect();
    let r = A::limit(&v, k);
    check(r.len() == n.min(k), "at most the limit is kept");
    for i in 0..r.len() { check(and(r[i].dat == v[i].dat, and(r[i].salience == v[i].salience, r[i].novelity == v[i].novelity)), "the first items are kept unchanged"); }
    cover("end");
}
