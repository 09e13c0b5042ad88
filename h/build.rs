use std::io::Write;
fn main() {
    let mut v = vec![];
    println!("cargo:rerun-if-changed=src");
    let mut fs: Vec<_> = std::fs::read_dir("src").unwrap().filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |x| x == "rs")).collect();
    fs.sort();
    for p in fs {
        let m = p.file_stem().unwrap().to_string_lossy().to_string();
        if std::env::var(format!("CARGO_FEATURE_{}", m.to_uppercase())).is_err() { continue; }
        for l in std::fs::read_to_string(&p).unwrap().lines() {
            if let Some(r) = l.trim().strip_prefix("pub extern \"C\" fn h_") { let n = format!("h_{}", r.split('(').next().unwrap()); v.push(if m == "lib" { (n.clone(), n) } else { (n.clone(), format!("{}::{}", m, n)) }); }
        }
    }
    let mut f = std::fs::File::create(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("entries.rs")).unwrap();
    writeln!(f, "pub static ENTRIES: &[(&str, extern \"C\" fn())] = &[").unwrap();
    for (n, p) in v { writeln!(f, "(\"{}\", crate::{}),", n, p).unwrap(); }
    writeln!(f, "];").unwrap();
}
