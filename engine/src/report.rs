//! Partial results (one file per worker process) and merging.
use crate::exec::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn demangle(n: &str) -> String {
    // light-weight reading of a v0 mangled path: collect the identifiers
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes(); let mut i = 2; let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i; let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() { k = k * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if k > 0 && j + k <= b.len() && n[j..j + k].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && !n[j..j+1].bytes().all(|c| c.is_ascii_digit()) { out.push(n[j..j + k].to_string()); i = j + k; continue; }
            i = j; continue;
        }
        if b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' { // crate disambiguator
            if let Some(u) = n[i + 2..].find('_') { i = i + 2 + u + 1; continue; }
        }
        i += 1;
    }
    out.join("::")
}
pub fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o }
fn wit(w: &Witness) -> String { format!("{{\"msg\":\"{}\",\"inputs\":[{}],\"obs\":[{}]}}", esc(&w.msg), w.inputs.iter().map(|(n, w, v)| format!("[\"{}\",{},\"{:x}\"]", esc(n), w, v)).collect::<Vec<_>>().join(","), w.obs.iter().map(|v| format!("\"{:x}\"", v)).collect::<Vec<_>>().join(",")) }
fn map(m: &BTreeMap<String, u64>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(",")) }
fn set(m: &BTreeSet<String>) -> String { format!("[{}]", m.iter().map(|k| format!("\"{}\"", esc(k))).collect::<Vec<_>>().join(",")) }

pub fn write_part(e: &mut Engine) {
    let s = &e.st;
    let sv = &e.s;
    let txt = format!("{{\"paths\":{},\"infeasible\":{},\"steps\":{},\"forks\":{},\"asserts\":{},\"asserts_sym\":{},\"maxcons\":{},\"inputs_max\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"maybe\":{},\"cached\":{},\"bytetables\":{},\"fpqueries\":{},\"solver_s\":{:.3},\"slowest_s\":{:.3},\"violations\":[{}],\"open\":[{}],\"unsup\":{},\"limits\":{},\"unknown_asserts\":{},\"covers\":{{{}}},\"samples\":[{}],\"funcs\":{},\"stubs\":{}}}\n",
        s.paths, s.infeasible, s.steps, s.forks, s.asserts, s.asserts_sym, s.maxcons, s.inputs_max, sv.queries, sv.sat, sv.unsat, sv.unknown, sv.maybe, sv.cached, sv.domq, sv.fpqueries, sv.time, sv.slow,
        s.violations.iter().map(wit).collect::<Vec<_>>().join(","), s.open.iter().map(wit).collect::<Vec<_>>().join(","), map(&s.unsup), map(&s.limits), map(&s.unknown_asserts),
        s.covers.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), match v { Some(w) => wit(w), None => "null".into() })).collect::<Vec<_>>().join(","),
        s.samples.iter().map(wit).collect::<Vec<_>>().join(","), set(&s.funcs), set(&s.stubs));
    let p = format!("{}/{}.json", e.cfg.out, std::process::id());
    std::fs::write(&p, txt).expect("write part");
}
