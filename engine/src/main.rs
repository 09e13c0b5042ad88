mod builtins;
mod exec;
mod expr;
mod ll;
mod report;
mod solver;

extern "C" { fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }

fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 { eprintln!("usage: symx MODULE.ll ENTRY OUTDIR [--time S] [--workers N] [--steps N] [--paths N] [--rlimit-ms N] [--samples N] [--preempt N] [-v]"); std::process::exit(2); }
    let num = |k: &str, d: f64| arg(&a, k).map(|v| v.parse::<f64>().unwrap()).unwrap_or(d);
    let cfg = exec::Cfg { max_steps: num("--steps", 50e6) as u64, max_time: num("--time", 300.0), max_paths: num("--paths", 1e9) as u64, workers: num("--workers", 1.0) as i32, out: a[3].clone(), max_viol_per_site: 2, samples: num("--samples", 3.0) as usize, verbose: a.iter().any(|x| x == "-v"), preempt: num("--preempt", 0.0) as u32, grace: num("--grace", 8.0) };
    let tmo = num("--solver-ms", 20000.0) as u32;
    std::fs::create_dir_all(&cfg.out).unwrap();
    let (ll, entry) = (a[1].clone(), a[2].clone());
    if !cfg.verbose { std::panic::set_hook(Box::new(|_| {})); }
    let t = std::thread::Builder::new().stack_size(2 << 30).spawn(move || {
        let par = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut i32 };
        unsafe { *par = 1; }
        let m = ll::Module::load(&ll);
        let s = solver::Solver::new(tmo);
        let mut e = exec::Engine::new(m, s, cfg, par);
        let st = e.start(&entry);
        e.work.push(st);
        e.explore();
        unsafe { (*(par as *const std::sync::atomic::AtomicI32)).fetch_sub(1, std::sync::atomic::Ordering::SeqCst); }
        e.finish();
        println!("{}", solver::Solver::version());
    }).unwrap();
    if t.join().is_err() { std::process::exit(3); }
}
