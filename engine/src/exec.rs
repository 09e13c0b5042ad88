//! Symbolic executor: forks on symbolic branches, concrete heap layout, symbolic contents.
use crate::expr::{self, Model, Op, E, F32, F64};
use crate::ll::*;
use crate::solver::{Res, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Default, Debug)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Box<HashMap<u32, E>>>, pub ro: bool }

const CH: usize = 128;
#[derive(Clone)]
pub struct Chunk { v: Vec<Option<Rc<Obj>>> }

pub struct Frame { pub f: &'static Func, pub blk: u32, pub ip: u32, pub regs: Vec<Val>, pub allocas: Vec<u32>, pub dst: Option<u32>, pub normal: Option<u32> }
impl Clone for Frame { fn clone(&self) -> Frame { Frame { f: self.f, blk: self.blk, ip: self.ip, regs: self.regs.clone(), allocas: self.allocas.clone(), dst: self.dst, normal: self.normal } } }

#[derive(Clone, Debug, PartialEq)]
pub enum TS { Run, Futex(u64, bool), Join(usize), Quiesce, Sleep, Done }
#[derive(Clone)]
pub struct Thread { pub frames: Vec<Frame>, pub tls: HashMap<u32, u32>, pub st: TS }

#[derive(Clone)]
pub struct State {
    pub th: Vec<Thread>, pub cur: usize,
    pub heap: Vec<Rc<Chunk>>, pub next: u32,
    pub gov: Rc<HashMap<u32, Rc<Obj>>>,
    pub cons: Vec<E>, pub known: Rc<HashMap<E, u128>>,
    pub model: Option<Rc<Model>>,
    pub inputs: Vec<(Rc<str>, E)>,
    pub obs: Vec<E>,
    pub steps: u64, pub time: u64, pub preempts: u32, pub depth: u32,
    pub trace: u64,
    pub exited: bool,
}

#[derive(Debug)]
pub enum Stop { Done, Panic(String), Unsup(String), Infeasible, Switched, Mem(String), Limit(String), Deadlock(String) }
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub struct Witness { pub msg: String, pub inputs: Vec<(String, u16, u128)>, pub obs: Vec<u128> }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub infeasible: u64, pub steps: u64, pub forks: u64, pub asserts: u64, pub asserts_sym: u64,
    pub violations: Vec<Witness>, pub open: Vec<Witness>, pub unsup: BTreeMap<String, u64>, pub limits: BTreeMap<String, u64>,
    pub unknown_asserts: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, Option<Witness>>, pub samples: Vec<Witness>, pub funcs: BTreeSet<String>,
    pub maxcons: usize, pub inputs_max: usize, pub stubs: BTreeSet<String>, pub known_panics: u64,
}

pub struct Engine {
    pub m: Module, pub s: Solver, pub work: Vec<State>, pub st: Stats, pub cfg: Cfg,
    heap0: u32,
    bcache: HashMap<u32, Option<B>>,
    viol_sites: HashMap<String, u32>, viol_at: Option<f64>,
    pub t0: std::time::Instant,
    seenfn: HashSet<u32>,
    pub par: *mut i32,
    pub child: bool,
    pub kids: Vec<i32>,
    npaths_local: u64,
}
#[derive(Clone)]
pub struct Cfg { pub max_steps: u64, pub max_time: f64, pub max_paths: u64, pub workers: i32, pub out: String, pub max_viol_per_site: u32, pub samples: usize, pub verbose: bool, pub preempt: u32, pub grace: f64 }

type B = fn(&mut Engine, &mut State, &[Val], &CallIns) -> R<Option<Val>>;

extern "C" { fn fork() -> i32; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; }

fn low(b: u64, w: u32) -> u64 { if w >= 64 { b } else { b & ((1u64 << w) - 1) } }
fn sx(b: u64, w: u32) -> i64 { if w >= 64 { b as i64 } else { ((b << (64 - w)) as i64) >> (64 - w) } }

pub fn sort_of(t: &Ty) -> u16 { match t { Ty::F64 => F64, Ty::F32 => F32, Ty::Ptr => 64, Ty::Int(n) => *n as u16, _ => panic!("sort_of {:?}", t) } }
pub fn to_e(v: &Val, w: u16) -> E {
    match v { Val::I(x) => expr::konst(w, *x as u128), Val::W(a, b) => expr::konst(w, *a as u128 | (*b as u128) << 64), Val::S(e) => *e, Val::A(_) => panic!("to_e of aggregate") }
}
pub fn from_e(e: E) -> Val {
    let n = expr::nd(e);
    if n.op == Op::Const { if n.w <= 64 || expr::is_fp(n.w) { Val::I(n.k as u64) } else { Val::W(n.k as u64, (n.k >> 64) as u64) } } else { Val::S(e) }
}

impl Engine {
    pub fn new(m: Module, s: Solver, cfg: Cfg, par: *mut i32) -> Engine {
        let heap0 = ((m.globals.len() as u32) / 65536 + 1) * 65536;
        Engine { m, s, work: vec![], st: Stats::default(), cfg, heap0, bcache: HashMap::new(), viol_sites: HashMap::new(), viol_at: None, t0: std::time::Instant::now(), seenfn: HashSet::new(), par, child: false, kids: vec![], npaths_local: 0 }
    }
    // ---------- memory ----------
    fn galloc(&self, st: &mut State, o: Obj) -> u64 {
        let id = st.next; st.next += 1;
        let ix = (id - self.heap0) as usize;
        let c = ix / CH;
        while st.heap.len() <= c { st.heap.push(Rc::new(Chunk { v: vec![None; CH] })); }
        Rc::make_mut(&mut st.heap[c]).v[ix % CH] = Some(Rc::new(o));
        (id as u64) << 32
    }
    pub fn alloc(&self, st: &mut State, n: u64) -> R<u64> {
        if n > (1 << 30) { return Err(Stop::Limit(format!("allocation of {} bytes", n))); }
        Ok(self.galloc(st, Obj { data: vec![0; n as usize], sym: None, ro: false }))
    }
    pub fn free(&self, st: &mut State, a: u64) -> R<()> {
        let id = (a >> 32) as u32;
        if id < self.heap0 || a & 0xffff_ffff != 0 { return Err(Stop::Mem(format!("free of invalid pointer {:#x}", a))); }
        let ix = (id - self.heap0) as usize;
        let c = ix / CH;
        if c >= st.heap.len() || st.heap[c].v[ix % CH].is_none() { return Err(Stop::Mem(format!("double free {:#x}", a))); }
        Rc::make_mut(&mut st.heap[c]).v[ix % CH] = None;
        Ok(())
    }
    fn build_init(&mut self, id: u32) -> Rc<Obj> {
        if let Some(o) = self.m.inits.get(&id) { return o.clone(); }
        let kind = self.m.globals[id as usize - 1].kind.clone();
        let o = match kind {
            GInit::Data(t, s) => { let mut lx = Lex::new(s); let v = konst(&self.m, &mut lx, &t); let mut d = vec![0u8; t.size() as usize]; put_const(&mut d, 0, &t, &v); Obj { data: d, sym: None, ro: self.m.globals[id as usize - 1].constant } }
            GInit::Func | GInit::Decl | GInit::Alias(_) => Obj { data: vec![], sym: None, ro: true },
            GInit::Ext => Obj { data: vec![0; 64], sym: None, ro: false },
        };
        let o = Rc::new(o);
        self.m.inits.insert(id, o.clone());
        o
    }
    pub fn obj(&mut self, st: &State, addr: u64) -> R<Rc<Obj>> {
        let id = (addr >> 32) as u32;
        if id >= self.heap0 {
            let ix = (id - self.heap0) as usize;
            if ix / CH < st.heap.len() { if let Some(o) = &st.heap[ix / CH].v[ix % CH] { return Ok(o.clone()); } }
            return Err(Stop::Mem(format!("access to dead or unknown object at {:#x}", addr)));
        }
        if id == 0 || id as usize > self.m.globals.len() { return Err(Stop::Mem(format!("wild pointer {:#x}", addr))); }
        if let Some(o) = st.gov.get(&id) { return Ok(o.clone()); }
        Ok(self.build_init(id))
    }
    fn with_obj<'a>(&'a mut self, st: &'a State, addr: u64) -> R<&'a Obj> {
        let id = (addr >> 32) as u32;
        if id >= self.heap0 {
            let ix = (id - self.heap0) as usize;
            if ix / CH < st.heap.len() { if let Some(o) = &st.heap[ix / CH].v[ix % CH] { return Ok(o); } }
            return Err(Stop::Mem(format!("access to dead or unknown object at {:#x}", addr)));
        }
        if id == 0 || id as usize > self.m.globals.len() { return Err(Stop::Mem(format!("wild pointer {:#x}", addr))); }
        if let Some(o) = st.gov.get(&id) { return Ok(o); }
        self.build_init(id);
        Ok(self.m.inits.get(&id).unwrap())
    }
    pub fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64) -> R<&'a mut Obj> {
        let id = (addr >> 32) as u32;
        if id >= self.heap0 {
            let ix = (id - self.heap0) as usize;
            if ix / CH < st.heap.len() && st.heap[ix / CH].v[ix % CH].is_some() {
                let c = Rc::make_mut(&mut st.heap[ix / CH]);
                return Ok(Rc::make_mut(c.v[ix % CH].as_mut().unwrap()));
            }
            return Err(Stop::Mem(format!("write to dead or unknown object at {:#x}", addr)));
        }
        if id == 0 || id as usize > self.m.globals.len() { return Err(Stop::Mem(format!("wild pointer {:#x}", addr))); }
        if !st.gov.contains_key(&id) { let o = self.build_init(id); Rc::make_mut(&mut st.gov).insert(id, o); }
        let o = Rc::make_mut(Rc::make_mut(&mut st.gov).get_mut(&id).unwrap());
        if o.ro { return Err(Stop::Mem(format!("write to constant {}", self.m.globals[id as usize - 1].name))); }
        Ok(o)
    }
    pub fn load_bits(&mut self, st: &State, addr: u64, n: usize) -> R<Val> {
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.with_obj(st, addr)?;
        if off + n > o.data.len() { return Err(Stop::Mem(format!("read of {} bytes at offset {} of {}-byte object", n, off, o.data.len()))); }
        Ok(read_obj(o, off, n))
    }
    pub fn store_bits(&mut self, st: &mut State, addr: u64, n: usize, v: &Val) -> R<()> {
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.obj_mut(st, addr)?;
        if off + n > o.data.len() { return Err(Stop::Mem(format!("write of {} bytes at offset {} of {}-byte object", n, off, o.data.len()))); }
        write_obj(o, off, n, v);
        Ok(())
    }
    pub fn load(&mut self, st: &mut State, t: &Ty, addr: u64) -> R<Val> {
        match t {
            Ty::Int(w) => { let v = self.load_bits(st, addr, ((w + 7) / 8) as usize)?; Ok(match v { Val::S(e) => from_e(if expr::width(e) > *w as u16 { expr::extract(e, *w as u16 - 1, 0) } else { e }), Val::I(x) => Val::I(low(x, *w)), x => x }) }
            Ty::Ptr => self.load_bits(st, addr, 8),
            Ty::F64 | Ty::F32 => {
                let w = if *t == Ty::F64 { F64 } else { F32 };
                match self.load_bits(st, addr, if w == F64 { 8 } else { 4 })? {
                    Val::S(e) => match expr::ffrombits(e, w) { Some(f) => Ok(from_e(f)), None => { let v = self.concretize(st, e)?; Ok(Val::I(v as u64)) } },
                    x => Ok(x),
                }
            }
            Ty::Arr(n, et) => { let mut v = vec![]; for i in 0..*n { v.push(self.load(st, et, addr + i * et.size())?); } Ok(Val::A(Rc::new(v))) }
            Ty::Vec(n, et) if et.bits() % 8 != 0 => { let v = self.load(st, &Ty::Int(*n * et.bits()), addr)?; unflat(t, to_e(&v, *n as u16 * et.bits() as u16)) }
            Ty::Vec(n, et) => { let sz = (et.bits() as u64 + 7) / 8; let mut v = vec![]; for i in 0..*n as u64 { v.push(self.load(st, et, addr + i * sz)?); } Ok(Val::A(Rc::new(v))) }
            Ty::Struct(f, _) => { let mut v = vec![]; for i in 0..f.len() { let (o, ft) = t.field_off(i as u64); v.push(self.load(st, &ft, addr + o)?); } Ok(Val::A(Rc::new(v))) }
            _ => Err(Stop::Unsup(format!("load {:?}", t))),
        }
    }
    pub fn store(&mut self, st: &mut State, t: &Ty, addr: u64, v: &Val) -> R<()> {
        match t {
            Ty::Int(w) => {
                let n = ((w + 7) / 8) as usize;
                match v { Val::S(e) if (*w as usize) < n * 8 => { let z = from_e(expr::zext(*e, (n * 8) as u16)); self.store_bits(st, addr, n, &z) } _ => self.store_bits(st, addr, n, v) }
            }
            Ty::Ptr => self.store_bits(st, addr, 8, v),
            Ty::F64 | Ty::F32 => { let n = if *t == Ty::F64 { 8 } else { 4 }; match v { Val::S(e) => { let b = from_e(expr::fbits(*e)); self.store_bits(st, addr, n, &b) } _ => self.store_bits(st, addr, n, v) } }
            Ty::Arr(_, et) => { if let Val::A(a) = v { for (i, x) in a.iter().enumerate() { self.store(st, et, addr + i as u64 * et.size(), x)?; } } Ok(()) }
            Ty::Vec(n, et) if et.bits() % 8 != 0 => { let e = flat(t, v)?; let v = from_e(e); self.store(st, &Ty::Int(*n * et.bits()), addr, &v) }
            Ty::Vec(_, et) => { let sz = (et.bits() as u64 + 7) / 8; if let Val::A(a) = v { for (i, x) in a.iter().enumerate() { self.store(st, et, addr + i as u64 * sz, x)?; } } Ok(()) }
            Ty::Struct(f, _) => { if let Val::A(a) = v { for i in 0..f.len() { let (o, ft) = t.field_off(i as u64); self.store(st, &ft, addr + o, &a[i])?; } } Ok(()) }
            _ => Err(Stop::Unsup(format!("store {:?}", t))),
        }
    }
    pub fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 { return Ok(()); }
        let so = self.obj(st, s)?;
        let soff = (s & 0xffff_ffff) as usize; let doff = (d & 0xffff_ffff) as usize;
        if soff + n > so.data.len() { return Err(Stop::Mem(format!("memcpy source: {} bytes at offset {} of {}-byte object", n, soff, so.data.len()))); }
        let dobj = self.obj_mut(st, d)?;
        if doff + n > dobj.data.len() { return Err(Stop::Mem(format!("memcpy dest: {} bytes at offset {} of {}-byte object", n, doff, dobj.data.len()))); }
        dobj.data[doff..doff + n].copy_from_slice(&so.data[soff..soff + n]);
        clear_sym(dobj, doff, n);
        if let Some(m) = &so.sym {
            let mut add: Vec<(u32, E)> = vec![];
            if m.len() < n { for (k, e) in m.iter() { let k = *k as usize; if k >= soff && k < soff + n { add.push(((k - soff + doff) as u32, *e)); } } }
            else { for i in 0..n { if let Some(e) = m.get(&((soff + i) as u32)) { add.push(((doff + i) as u32, *e)); } } }
            if !add.is_empty() { let sm = dobj.sym.get_or_insert_with(Default::default); for (k, e) in add { sm.insert(k, e); } }
        }
        Ok(())
    }
    pub fn cstr_bytes(&mut self, st: &mut State, a: u64, n: usize) -> R<Vec<u8>> {
        if n == 0 { return Ok(vec![]); }
        let o = self.obj(st, a)?; let off = (a & 0xffff_ffff) as usize;
        if off + n > o.data.len() { return Err(Stop::Mem("string out of bounds".into())); }
        Ok(o.data[off..off + n].to_vec())
    }
    // ---------- solver-side helpers ----------
    fn add_con(&mut self, st: &mut State, c: E) {
        if expr::as_const(c).is_some() { return; }
        let n = expr::nd(c);
        if n.op == Op::And && n.w == 1 { self.add_con(st, n.a); self.add_con(st, n.b); return; }
        if n.op == Op::Not { let m = expr::nd(n.a); if m.op == Op::Or && m.w == 1 { self.add_con(st, expr::not(m.a)); self.add_con(st, expr::not(m.b)); return; } }
        let k = Rc::make_mut(&mut st.known);
        k.insert(c, 1); k.insert(expr::not(c), 0);
        if n.op == Op::Eq { if let Some(v) = expr::as_const(n.b) { k.insert(n.a, v); } }
        if !st.cons.contains(&c) { st.cons.push(c); }
        if st.cons.len() > self.st.maxcons { self.st.maxcons = st.cons.len(); }
    }
    fn unknown_note(&mut self, what: &str) { *self.st.limits.entry(format!("solver unknown at {}", what)).or_insert(0) += 1; }
    /// Decide a symbolic condition; forks the other feasible side (re-executing the current instruction).
    pub fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = expr::as_const(c) { return Ok(k == 1); }
        if let Some(&k) = st.known.get(&c) { return Ok(k == 1); }
        let nc = expr::not(c);
        let (mut t, mut f) = (Res::Unsat, Res::Unsat);
        let mut side = None;
        if let Some(m) = st.model.clone() {
            if m.eval(c) == 1 { t = Res::Sat(m.clone()); side = Some(true); f = self.s.check(&st.cons, nc, Some(&m)); }
            else { f = Res::Sat(m.clone()); side = Some(false); t = self.s.check(&st.cons, c, Some(&m)); }
        } else {
            t = self.s.check(&st.cons, c, None); 
            f = self.s.check(&st.cons, nc, None);
        }
        let _ = side;
        let tf = !matches!(t, Res::Unsat); let ff = !matches!(f, Res::Unsat);
        let md = |r: Res| if let Res::Sat(m) = r { Some(m) } else { None };
        match (tf, ff) {
            (true, true) => {
                self.st.forks += 1;
                let mut o = st.clone();
                o.depth += 1; st.depth += 1;
                self.add_con(&mut o, nc); o.model = md(f);
                self.add_con(st, c); st.model = md(t);
                self.push_work(o);
                Ok(true)
            }
            (true, false) => { self.note_known(st, c, 1); if st.model.is_none() { st.model = md(t); } Ok(true) }
            (false, true) => { self.note_known(st, c, 0); if st.model.is_none() { st.model = md(f); } Ok(false) }
            (false, false) => Err(Stop::Infeasible),
        }
    }
    fn note_known(&mut self, st: &mut State, c: E, v: u128) { let k = Rc::make_mut(&mut st.known); k.insert(c, v); k.insert(expr::not(c), 1 - v); }
    fn push_work(&mut self, o: State) {
        unsafe {
            if self.cfg.workers > 1 && std::ptr::read_volatile(self.par) < self.cfg.workers {
                let a = &*(self.par as *const std::sync::atomic::AtomicI32);
                if a.fetch_add(1, std::sync::atomic::Ordering::SeqCst) < self.cfg.workers {
                    let pid = fork();
                    if pid == 0 {
                        // child: explores only this state
                        self.child = true; self.kids.clear(); self.work.clear();
                        self.st = Stats::default(); self.seenfn.clear();
                        let (q, t) = (0, 0.0);
                        self.s.queries = q; self.s.unsat = 0; self.s.sat = 0; self.s.unknown = 0; self.s.maybe = 0; self.s.cached = 0; self.s.domq = 0; self.s.time = t; self.s.fpqueries = 0; self.s.slow = 0.0;
                        self.npaths_local = 0;
                        self.work.push(o);
                        self.explore();
                        a.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
                        self.finish();
                        std::process::exit(0);
                    } else if pid > 0 { self.kids.push(pid); return; }
                    else { a.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); }
                } else { a.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); }
            }
        }
        self.work.push(o);
    }
    pub fn finish(&mut self) {
        let kids = std::mem::take(&mut self.kids);
        for k in kids {
            let mut s = 0; unsafe { waitpid(k, &mut s, 0); }
            if s != 0 { *self.st.limits.entry(format!("worker ended abnormally (status {})", s)).or_insert(0) += 1; }
        }
        crate::report::write_part(self);
    }
    pub fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(k) = expr::as_const(e) { return Ok(k); }
        if let Some(&k) = st.known.get(&e) { return Ok(k); }
        if expr::is_fp(expr::width(e)) { return Err(Stop::Unsup(format!("concretisation of a symbolic float {}", expr::show(e)))); }
        loop {
            let m = match st.model.clone() { Some(m) => m, None => { match self.full_model(st) { Some(m) => m, None => return Err(Stop::Unsup("no model to concretise with".into())) } } };
            let v = m.eval(e);
            let c = expr::cmp(Op::Eq, e, expr::konst(expr::width(e), v));
            if self.branch(st, c)? { Rc::make_mut(&mut st.known).insert(e, v); return Ok(v); }
            // cannot happen: branch() follows the true side whenever it is feasible
        }
    }
    fn full_model(&mut self, st: &mut State) -> Option<Rc<Model>> {
        let all = st.cons.iter().fold(expr::tru(), |a, c| expr::bin(Op::And, a, *c));
        let b = Rc::new(Model::new(HashMap::new()));
        match self.s.check(&st.cons, all, Some(&b)) { Res::Sat(m) => { st.model = Some(m.clone()); Some(m) } _ => None }
    }
    fn addr_of(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v { Val::I(a) => Ok(*a), Val::S(e) => Ok(self.concretize(st, *e)? as u64), _ => Err(Stop::Unsup("address".into())) }
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> { self.addr_of(st, v) }
    /// load through a symbolic address: table lookup as an ITE when the object is small, else fork
    fn load_sym(&mut self, st: &mut State, t: &Ty, e: E) -> R<Val> {
        if let Some(&k) = st.known.get(&e) { return self.load(st, t, k as u64); }
        let n = match t { Ty::Int(w) => ((w + 7) / 8) as u64, Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, _ => { let a = self.concretize(st, e)? as u64; return self.load(st, t, a); } };
        let m = match st.model.clone() { Some(m) => m, None => match self.full_model(st) { Some(m) => m, None => return Err(Stop::Unsup("no model".into())) } };
        // a table of pointers: the paths split by entry, so that what it refers to is a definite object
        if *t == Ty::Ptr { let a = self.concretize(st, e)? as u64; return self.load(st, t, a); }
        // pointer selected among a few constants (ite tree)?
        if let Some(vals) = const_leaves(e, 64) {
            let mut acc: Option<E> = None;
            if matches!(t, Ty::Int(_) | Ty::Ptr) {
                let mut ok = true;
                for v in vals.iter().rev() {
                    match self.load(st, t, *v as u64) { Ok(x) => { let xe = to_e(&x, sort_of(t)); acc = Some(match acc { None => xe, Some(a) => expr::ite(expr::cmp(Op::Eq, e, expr::konst(64, *v)), xe, a) }); } Err(_) => { ok = false; break; } }
                }
                if ok { return Ok(from_e(acc.unwrap())); }
            }
            let a = self.concretize(st, e)? as u64; return self.load(st, t, a);
        }
        let v = m.eval(e) as u64;
        let o = self.obj(st, v)?;
        let base = v & !0xffff_ffff;
        let size = o.data.len() as u64;
        if n <= size && size <= 4096 && matches!(t, Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32) {
            let off = expr::bin(Op::Sub, e, expr::konst(64, base as u128));
            let inb = expr::cmp(Op::Ule, off, expr::konst(64, (size - n) as u128));
            if self.branch(st, inb)? {
                let al = if n.is_power_of_two() { n } else { 1 };
                let r = (v - base) % al;
                let alok = if al == 1 { expr::tru() } else { expr::cmp(Op::Eq, expr::bin(Op::And, off, expr::konst(64, (al - 1) as u128)), expr::konst(64, r as u128)) };
                let aligned = match expr::as_const(alok) { Some(k) => k == 1, None => matches!(self.s.check(&st.cons, expr::not(alok), None), Res::Unsat) };
                if aligned && (size - r) / al <= 300 {
                    // feasible range only
                    let mut acc: Option<E> = None;
                    let mut o2 = r + (size - n - r) / al * al;
                    loop {
                        let x = self.load(st, t, base + o2)?;
                        let xe = to_e(&x, sort_of(t));
                        acc = Some(match acc { None => xe, Some(a) => if a == xe { a } else { expr::ite(expr::cmp(Op::Eq, off, expr::konst(64, o2 as u128)), xe, a) } });
                        if o2 < al + r { break; }
                        o2 -= al;
                    }
                    return Ok(from_e(acc.unwrap()));
                }
            }
        }
        let a = self.concretize(st, e)? as u64;
        self.load(st, t, a)
    }
    // ---------- scalar ops ----------
    fn lanes(&mut self, t: &Ty, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Engine, &Ty, &Val, &Val) -> R<Val>) -> R<Val> {
        if let Ty::Vec(_, et) = t { if let (Val::A(x), Val::A(y)) = (a, b) { let mut o = Vec::with_capacity(x.len()); for i in 0..x.len() { o.push(f(self, et, &x[i], &y[i])?); } return Ok(Val::A(Rc::new(o))); } }
        f(self, t, a, b)
    }
    pub fn bin(&mut self, st: &mut State, op: BinOp, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Int(w) = t {
            let w = *w;
            if let (Val::I(x), Val::I(y)) = (a, b) { if w <= 64 {
                let (x, y) = (*x, *y);
                return Ok(Val::I(low(match op {
                    BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                    BinOp::Shl => if y >= w as u64 { 0 } else { x << y }, BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                    BinOp::AShr => (sx(x, w) >> y.min(63)) as u64,
                    BinOp::UDiv => { if y == 0 { return Err(Stop::Mem("udiv by zero".into())); } x / y }
                    BinOp::URem => { if y == 0 { return Err(Stop::Mem("urem by zero".into())); } x % y }
                    BinOp::SDiv => { if y == 0 { return Err(Stop::Mem("sdiv by zero".into())); } sx(x, w).wrapping_div(sx(y, w)) as u64 }
                    BinOp::SRem => { if y == 0 { return Err(Stop::Mem("srem by zero".into())); } sx(x, w).wrapping_rem(sx(y, w)) as u64 }
                    _ => unreachable!(),
                }, w))); } }
            if let Val::A(_) = a { return Err(Stop::Unsup("agg bin".into())); }
            let (x, y) = (to_e(a, w as u16), to_e(b, w as u16));
            let eop = match op { BinOp::Add => Op::Add, BinOp::Sub => Op::Sub, BinOp::Mul => Op::Mul, BinOp::And => Op::And, BinOp::Or => Op::Or, BinOp::Xor => Op::Xor, BinOp::Shl => Op::Shl, BinOp::LShr => Op::LShr, BinOp::AShr => Op::AShr, BinOp::UDiv => Op::UDiv, BinOp::URem => Op::URem, BinOp::SDiv => Op::SDiv, BinOp::SRem => Op::SRem, _ => unreachable!() };
            return Ok(from_e(expr::bin(eop, x, y)));
        }
        if let Ty::Vec(..) = t { let s: *mut State = st; return self.lanes(t, a, b, &mut |me, et, x, y| me.bin(unsafe { &mut *s }, op, et, x, y)); }
        self.fp(st, op, t, a, b)
    }
    fn fp(&mut self, st: &mut State, op: BinOp, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        let w = sort_of(t);
        let eop = match op { BinOp::FAdd => Op::FAdd, BinOp::FSub => Op::FSub, BinOp::FMul => Op::FMul, BinOp::FDiv => Op::FDiv, BinOp::FRem => {
            if let (Val::I(x), Val::I(y)) = (a, b) { return Ok(Val::I(if w == F64 { (f64::from_bits(*x) % f64::from_bits(*y)).to_bits() } else { (f32::from_bits(*x as u32) % f32::from_bits(*y as u32)).to_bits() as u64 })); }
            return Err(Stop::Unsup("symbolic frem".into())); } _ => unreachable!() };
        if let (Val::I(x), Val::I(y)) = (a, b) { return Ok(Val::I(expr::ffold2(eop, w, *x as u128, *y as u128) as u64)); }
        let cv = |v: &Val| if let Val::I(x) = v { Some(expr::fval(w, *x as u128)) } else { None };
        let (ca, cb) = (cv(a), cv(b));
        let nan = Val::I(if w == F64 { f64::NAN.to_bits() } else { f32::NAN.to_bits() as u64 });
        let inf = |neg: bool| Val::I(if w == F64 { (if neg { f64::NEG_INFINITY } else { f64::INFINITY }).to_bits() } else { (if neg { f32::NEG_INFINITY } else { f32::INFINITY }).to_bits() as u64 });
        if ca.map_or(false, |x| x.is_nan()) || cb.map_or(false, |x| x.is_nan()) { return Ok(nan); }
        let zero = expr::fk(w, 0.0);
        // infinite constants against a finite symbolic operand
        if let Some(x) = ca { if x.is_infinite() { let e = to_e(b, w); return match op {
            BinOp::FAdd | BinOp::FSub => Ok(inf(x < 0.0)),
            _ => { if self.branch(st, expr::fcmp(Op::FEq, e, zero))? { Ok(if op == BinOp::FMul { nan } else { inf(x < 0.0) }) } else { let ng = self.branch(st, expr::fcmp(Op::FLt, e, zero))?; Ok(inf((x < 0.0) ^ ng)) } }
        }; } }
        if let Some(y) = cb { if y.is_infinite() { let e = to_e(a, w); return match op {
            BinOp::FAdd => Ok(inf(y < 0.0)), BinOp::FSub => Ok(inf(y > 0.0)), BinOp::FDiv => Ok(Val::I(0)),
            _ => { if self.branch(st, expr::fcmp(Op::FEq, e, zero))? { Ok(nan) } else { let ng = self.branch(st, expr::fcmp(Op::FLt, e, zero))?; Ok(inf((y < 0.0) ^ ng)) } }
        }; } }
        let (x, y) = (to_e(a, w), to_e(b, w));
        if op == BinOp::FDiv {
            let iv = expr::interval(y);
            // a quotient of a float's bit pattern is a value the optimiser computes ahead of a tag test that discards it; using it stops the path in the solver
            if iv.0 <= 0.0 && iv.1 >= 0.0 && !expr::has_bits(y) && !expr::has_bits(x) {
                if self.branch(st, expr::fcmp(Op::FEq, y, zero))? {
                    if self.branch(st, expr::fcmp(Op::FEq, x, zero))? { return Ok(nan); }
                    let ng = self.branch(st, expr::fcmp(Op::FLt, x, zero))?;
                    return Ok(inf(ng));
                }
            }
        }
        Ok(from_e(expr::fbin(eop, x, y)))
    }
    fn icmp(&mut self, p: Pred, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        let w = match t { Ty::Int(n) => *n, Ty::Ptr => 64, Ty::Vec(..) => return self.lanes(t, a, b, &mut |me, et, x, y| me.icmp(p, et, x, y)), _ => return Err(Stop::Unsup("icmp type".into())) };
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y); let (i, j) = (sx(x, w), sx(y, w));
            return Ok(Val::I(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => i > j, Pred::Sge => i >= j, Pred::Slt => i < j, Pred::Sle => i <= j } as u64));
        }
        let (x, y) = (to_e(a, w as u16), to_e(b, w as u16));
        Ok(from_e(match p { Pred::Eq => expr::cmp(Op::Eq, x, y), Pred::Ne => expr::not(expr::cmp(Op::Eq, x, y)), Pred::Ugt => expr::cmp(Op::Ult, y, x), Pred::Uge => expr::cmp(Op::Ule, y, x), Pred::Ult => expr::cmp(Op::Ult, x, y), Pred::Ule => expr::cmp(Op::Ule, x, y), Pred::Sgt => expr::cmp(Op::Slt, y, x), Pred::Sge => expr::cmp(Op::Sle, y, x), Pred::Slt => expr::cmp(Op::Slt, x, y), Pred::Sle => expr::cmp(Op::Sle, x, y) }))
    }
    fn fcmp(&mut self, p: &str, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(..) = t { let p = p.to_string(); return self.lanes(t, a, b, &mut |me, et, x, y| me.fcmp(&p, et, x, y)); }
        let w = sort_of(t);
        let isn = |v: &Val| if let Val::I(x) = v { expr::fval(w, *x as u128).is_nan() } else { false };
        let un = isn(a) || isn(b);
        if p == "true" { return Ok(Val::I(1)); } if p == "false" { return Ok(Val::I(0)); }
        if un { return Ok(Val::I(p.starts_with('u') as u64)); }
        let (x, y) = (to_e(a, w), to_e(b, w));
        Ok(from_e(match &p[1..] { "eq" => expr::fcmp(Op::FEq, x, y), "ne" => expr::not(expr::fcmp(Op::FEq, x, y)), "gt" => expr::fcmp(Op::FLt, y, x), "ge" => expr::fcmp(Op::FLe, y, x), "lt" => expr::fcmp(Op::FLt, x, y), "le" => expr::fcmp(Op::FLe, x, y), "rd" => expr::tru(), "no" => expr::fls(), q => return Err(Stop::Unsup(format!("fcmp {}", q))) }))
    }
    fn cast(&mut self, op: CastOp, ft: &Ty, v: &Val, tt: &Ty) -> R<Val> {
        if op == CastOp::BitCast {
            if ft == tt { return Ok(v.clone()); }
            let e = flat(ft, v)?;
            return unflat(tt, e);
        }
        if let (Ty::Vec(_, e1), Ty::Vec(_, e2)) = (ft, tt) { if let Val::A(a) = v { let mut o = vec![]; for x in a.iter() { o.push(self.cast(op, e1, x, e2)?); } return Ok(Val::A(Rc::new(o))); } }
        if let Val::I(x) = v {
            let fw = match ft { Ty::Int(n) => *n, Ty::Ptr => 64, _ => 0 };
            match op {
                CastOp::Trunc => return Ok(Val::I(low(*x, tt.bits()))),
                CastOp::ZExt => return Ok(mkint(tt.bits(), *x as i128)),
                CastOp::SExt => return Ok(mkint(tt.bits(), sx(*x, fw) as i128)),
                CastOp::PtrToInt | CastOp::IntToPtr => return Ok(Val::I(low(*x, tt.bits()))),
                _ => {}
            }
        }
        let (fs, ts) = (sort_of(ft), sort_of(tt));
        let e = to_e(v, fs);
        Ok(from_e(match op {
            CastOp::Trunc => expr::extract(e, ts - 1, 0), CastOp::ZExt => expr::zext(e, ts), CastOp::SExt => expr::sext(e, ts),
            CastOp::PtrToInt | CastOp::IntToPtr => if ts < fs { expr::extract(e, ts - 1, 0) } else { expr::zext(e, ts) },
            CastOp::FPTrunc | CastOp::FPExt => expr::fcvt(e, ts),
            CastOp::UIToFP => expr::int2f(false, e, ts), CastOp::SIToFP => expr::int2f(true, e, ts),
            CastOp::FPToUI => expr::f2int(false, e, ts), CastOp::FPToSI => expr::f2int(true, e, ts),
            CastOp::BitCast => unreachable!(),
        }))
    }
    fn select(&mut self, st: &mut State, t: &Ty, c: &Val, x: &Val, y: &Val) -> R<Val> {
        let ce = match c { Val::I(k) => return Ok(if *k & 1 == 1 { x.clone() } else { y.clone() }), Val::S(e) => *e, _ => return Err(Stop::Unsup("select".into())) };
        if let Some(&k) = st.known.get(&ce) { return Ok(if k == 1 { x.clone() } else { y.clone() }); }
        match t {
            Ty::Int(_) | Ty::F64 | Ty::F32 => {
                let w = sort_of(t);
                if expr::is_fp(w) { for v in [x, y] { if let Val::I(b) = v { if !expr::fval(w, *b as u128).is_finite() { return Ok(if self.branch(st, ce)? { x.clone() } else { y.clone() }); } } } }
                Ok(from_e(expr::ite(ce, to_e(x, w), to_e(y, w))))
            }
            _ => Ok(if self.branch(st, ce)? { x.clone() } else { y.clone() }),
        }
    }
    // ---------- run ----------
    pub fn start(&mut self, entry: &str) -> State {
        let id = self.m.gid(entry).unwrap_or_else(|| { eprintln!("no entry {}", entry); std::process::exit(3) });
        let f = self.m.func(id);
        let fr = Frame { f, blk: 0, ip: 0, regs: vec![Val::I(0); f.nregs], allocas: vec![], dst: None, normal: None };
        State { th: vec![Thread { frames: vec![fr], tls: HashMap::new(), st: TS::Run }], cur: 0, heap: vec![], next: self.heap0, gov: Rc::new(HashMap::new()), cons: vec![], known: Rc::new(HashMap::new()), model: Some(Rc::new(Model::new(HashMap::new()))), inputs: vec![], obs: vec![], steps: 0, time: 1_000_000_000, preempts: 0, depth: 0, trace: 0, exited: false }
    }
    /// a counterexample has been found (by any worker): keep exploring for the grace period only
    fn expired(&mut self) -> bool {
        let el = self.t0.elapsed().as_secs_f64();
        if el > self.cfg.max_time { return true; }
        if unsafe { *self.par.add(1) } > 0 { let g = self.cfg.grace; let v = *self.viol_at.get_or_insert(el); if el - v > g { return true; } }
        false
    }
    pub fn explore(&mut self) {
        while let Some(st) = self.work.pop() {
            if self.expired() { *self.st.limits.entry("time limit: paths left unexplored".into()).or_insert(0) += 1 + self.work.len() as u64; self.work.clear(); break; }
            if self.npaths_local >= self.cfg.max_paths { *self.st.limits.entry("path limit: paths left unexplored".into()).or_insert(0) += 1 + self.work.len() as u64; self.work.clear(); break; }
            let mut st = st;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.run_path(&mut st)));
            let r = match r { Ok(r) => r, Err(e) => { let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or("?".into()); Err(Stop::Unsup(format!("engine: {}", s))) } };
            self.st.steps += st.steps;
            match r {
                Ok(()) | Err(Stop::Done) => { self.st.paths += 1; self.npaths_local += 1; self.sample(&mut st); }
                Err(Stop::Infeasible) => { self.st.infeasible += 1; }
                Err(Stop::Panic(m)) => { self.st.paths += 1; self.violation(&mut st, format!("panic: {}", m)); }
                Err(Stop::Mem(m)) => { self.st.paths += 1; let w = self.whereami(&st); self.violation(&mut st, format!("memory: {} in {}", m, w)); }
                Err(Stop::Deadlock(m)) => { self.st.paths += 1; self.violation(&mut st, format!("deadlock: {}", m)); }
                Err(Stop::Unsup(m)) => { self.open(&mut st, &m); let w = self.backtrace(&st); *self.st.unsup.entry(format!("{} @ {}", m, w)).or_insert(0) += 1; }
                Err(Stop::Limit(m)) => { if m == "step limit" { self.open(&mut st, &m); } let w = self.backtrace(&st); *self.st.limits.entry(format!("{} @ {}", m, w)).or_insert(0) += 1; }
                Err(Stop::Switched) => unreachable!(),
            }
        }
    }
    pub fn whereami(&self, st: &State) -> String { st.th[st.cur].frames.last().map(|f| crate::report::demangle(&f.f.name)).unwrap_or_default() }
    pub fn backtrace(&self, st: &State) -> String { st.th[st.cur].frames.iter().rev().take(7).map(|f| crate::report::demangle(&f.f.name)).collect::<Vec<_>>().join(" < ") }
    fn witness(&mut self, st: &mut State, msg: String) -> Option<Witness> {
        let m = match st.model.clone() { Some(m) => m, None => self.full_model(st)? };
        Some(Witness { msg, inputs: st.inputs.iter().map(|(n, e)| { let w = expr::width(*e); (n.to_string(), w, m.eval(*e)) }).collect(), obs: st.obs.iter().map(|e| m.eval(*e)).collect() })
    }
    /// inputs which lead to a place that could not be decided: the check runs them natively
    fn open(&mut self, st: &mut State, m: &str) { if self.st.open.len() < 24 && !self.expired() { if let Ok(Some(w)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.witness(st, format!("undecided: {}", m)))) { self.st.open.push(w); } } }
    fn sample(&mut self, st: &mut State) {
        self.st.inputs_max = self.st.inputs_max.max(st.inputs.len());
        if self.st.samples.len() < self.cfg.samples || (self.st.paths.is_power_of_two() && self.st.samples.len() < self.cfg.samples + 8) { if st.model.is_some() { if let Some(w) = self.witness(st, "path".into()) { self.st.samples.push(w); } } }
    }
    pub fn violation(&mut self, st: &mut State, msg: String) {
        let n = self.viol_sites.entry(msg.clone()).or_insert(0);
        *n += 1;
        if *n > self.cfg.max_viol_per_site { return; }
        match self.witness(st, msg.clone()) {
            Some(w) => { if self.cfg.verbose { eprintln!("VIOL {} {:?}\n   {}", msg, w.inputs, self.backtrace(st)); } unsafe { *self.par.add(1) = 1; } self.st.violations.push(w) }
            None => {
                let all = st.cons.iter().fold(expr::tru(), |a, c| expr::bin(Op::And, a, *c));
                if let Res::Unsat = self.s.check(&st.cons, all, None) { *self.viol_sites.get_mut(&msg).unwrap() -= 1; return; }
                *self.st.unknown_asserts.entry(format!("{} (no concrete model)", msg)).or_insert(0) += 1; }
        }
    }
    fn run_path(&mut self, st: &mut State) -> R<()> {
        loop {
            if st.steps > self.cfg.max_steps { return Err(Stop::Limit("step limit".into())); }
            if st.steps & 0xffff == 0 && self.expired() { return Err(Stop::Limit("time limit".into())); }
            match self.step(st) {
                Ok(()) => {}
                Err(Stop::Switched) => {}
                Err(Stop::Done) => return Ok(()),
                Err(e) => return Err(e),
            }
        }
    }
    /// block the current thread / give up the processor; picks the next runnable thread
    pub fn schedule(&mut self, st: &mut State) -> R<()> {
        let n = st.th.len();
        for k in 1..=n { let i = (st.cur + k) % n; if st.th[i].st == TS::Run { st.cur = i; return Ok(()); } }
        // sleepers
        for k in 1..=n { let i = (st.cur + k) % n; if st.th[i].st == TS::Sleep { st.th[i].st = TS::Run; st.cur = i; return Ok(()); } }
        for k in 1..=n { let i = (st.cur + k) % n; if st.th[i].st == TS::Quiesce { st.th[i].st = TS::Run; st.cur = i; return Ok(()); } }
        // timed futex waits time out
        for k in 1..=n { let i = (st.cur + k) % n; if let TS::Futex(_, true) = st.th[i].st { st.th[i].st = TS::Run; st.cur = i; return Ok(()); } }
        Err(Stop::Deadlock(format!("all threads blocked; main in {}", st.th[0].frames.iter().rev().take(6).map(|f| crate::report::demangle(&f.f.name)).collect::<Vec<_>>().join(" < "))))
    }
    fn get(&self, f: &Frame, o: &Opd) -> Val { match o { Opd::R(r) => f.regs[*r as usize].clone(), Opd::K(v) => v.clone() } }
    fn jump(&mut self, st: &mut State, to: u32) {
        let c = st.cur;
        let fr = st.th[c].frames.last_mut().unwrap();
        let from = fr.blk;
        let b = &fr.f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, srcs) = &b.phis[0];
                let o = &srcs.iter().find(|(l, _)| *l == from).expect("phi edge").1;
                let v = match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() };
                fr.regs[*d as usize] = v;
            } else {
                let vals: Vec<Val> = b.phis.iter().map(|(_, srcs)| { let o = &srcs.iter().find(|(l, _)| *l == from).expect("phi edge").1; match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() } }).collect();
                for ((d, _), v) in b.phis.iter().zip(vals) { fr.regs[*d as usize] = v; }
            }
        }
        fr.blk = to; fr.ip = 0;
    }
    #[inline]
    fn set(&mut self, st: &mut State, d: u32, v: Val) { let c = st.cur; let fr = st.th[c].frames.last_mut().unwrap(); fr.regs[d as usize] = v; fr.ip += 1; }
    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        let c = st.cur;
        let (f, blk, ip) = { let fr = st.th[c].frames.last().unwrap(); (fr.f, fr.blk, fr.ip) };
        let ins = &f.blocks[blk as usize].ins[ip as usize];
        macro_rules! g { ($o:expr) => { { let fr = st.th[c].frames.last().unwrap(); match $o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() } } } }
        match ins {
            Ins::Bin(op, t, a, b, d) => { let (x, y) = (g!(a), g!(b)); let v = self.bin(st, *op, t, &x, &y)?; self.set(st, *d, v); }
            Ins::FNeg(t, a, d) => { let x = g!(a); let w = sort_of(t); let v = from_e(expr::fun1(Op::FNeg, to_e(&x, w), 0)); self.set(st, *d, v); }
            Ins::Icmp(p, t, a, b, d) => { let (x, y) = (g!(a), g!(b)); let v = self.icmp(*p, t, &x, &y)?; self.set(st, *d, v); }
            Ins::Fcmp(p, t, a, b, d) => { let (x, y) = (g!(a), g!(b)); let v = self.fcmp(p, t, &x, &y)?; self.set(st, *d, v); }
            Ins::Cast(op, ft, a, tt, d) => { let x = g!(a);
                let v = if *op == CastOp::BitCast && matches!(tt, Ty::F64 | Ty::F32) && matches!(x, Val::S(_)) { let e = flat(ft, &x)?; match expr::ffrombits(e, sort_of(tt)) { Some(k) => from_e(k), None => Val::I(self.concretize(st, e)? as u64) } } else { self.cast(*op, ft, &x, tt)? };
                self.set(st, *d, v); }
            Ins::Load(t, a, d) => {
                let x = g!(a);
                let v = match x { Val::I(ad) => self.load(st, t, ad)?, Val::S(e) => self.load_sym(st, t, e)?, _ => return Err(Stop::Unsup("load addr".into())) };
                self.set(st, *d, v);
            }
            Ins::Store(t, v, a) => { let (x, y) = (g!(v), g!(a)); let ad = self.addr_of(st, &y)?; self.store(st, t, ad, &x)?; st.th[c].frames.last_mut().unwrap().ip += 1; }
            Ins::Gep(b, off, dynv, d) => {
                let mut base = g!(b);
                if dynv.is_empty() { if let Val::I(x) = base { let v = Val::I(x.wrapping_add(*off as u64)); self.set(st, *d, v); return Ok(()); } }
                let mut acc_k: u64 = *off as u64; let mut acc_e: Option<E> = None;
                if let Val::S(e) = base { acc_e = Some(e); base = Val::I(0); }
                if let Val::I(x) = base { acc_k = acc_k.wrapping_add(x); }
                for (o, w, sc) in dynv {
                    match g!(o) {
                        Val::I(i) => acc_k = acc_k.wrapping_add((sx(i, *w)).wrapping_mul(*sc) as u64),
                        Val::S(e) => { let e = if *w < 64 { expr::sext(e, 64) } else { e }; let m = expr::bin(Op::Mul, e, expr::konst(64, *sc as u64 as u128)); acc_e = Some(match acc_e { None => m, Some(a) => expr::bin(Op::Add, a, m) }); }
                        _ => return Err(Stop::Unsup("gep idx".into())),
                    }
                }
                let v = match acc_e { None => Val::I(acc_k), Some(e) => from_e(expr::bin(Op::Add, e, expr::konst(64, acc_k as u128))) };
                self.set(st, *d, v);
            }
            Ins::Alloca(sz, n, d) => { let k = g!(n); let k = self.conc(st, &k)?; let a = self.alloc(st, sz * k)?; let fr = st.th[c].frames.last_mut().unwrap(); fr.allocas.push((a >> 32) as u32); fr.regs[*d as usize] = Val::I(a); fr.ip += 1; }
            Ins::Select(t, cc, a, b, vc, d) => {
                let (k, x, y) = (g!(cc), g!(a), g!(b));
                let v = if *vc { match (&k, &x, &y, t) { (Val::A(ks), Val::A(xs), Val::A(ys), Ty::Vec(_, et)) => { let mut o = vec![]; for i in 0..ks.len() { o.push(self.select(st, et, &ks[i], &xs[i], &ys[i])?); } Val::A(Rc::new(o)) } _ => return Err(Stop::Unsup("vselect".into())) } } else { self.select(st, t, &k, &x, &y)? };
                self.set(st, *d, v);
            }
            Ins::Br(l) => self.jump(st, *l),
            Ins::CondBr(cc, x, y) => {
                let k = g!(cc);
                let t = match k { Val::I(b) => b & 1 == 1, Val::S(e) => self.branch(st, e)?, _ => return Err(Stop::Unsup("br".into())) };
                self.jump(st, if t { *x } else { *y });
            }
            Ins::Switch(t, v, def, cs) => {
                let k = g!(v);
                match k {
                    Val::I(b) => { let to = cs.iter().find(|(x, _)| *x == b).map(|x| x.1).unwrap_or(*def); self.jump(st, to); }
                    Val::S(e) => {
                        let w = sort_of(t);
                        // group by target
                        let mut targets: Vec<(u32, E)> = vec![];
                        for (kv, l) in cs { let c1 = expr::cmp(Op::Eq, e, expr::konst(w, *kv as u128)); match targets.iter_mut().find(|x| x.0 == *l) { Some(x) => x.1 = expr::bin(Op::Or, x.1, c1), None => targets.push((*l, c1)) } }
                        for (l, cnd) in targets { if self.branch(st, cnd)? { self.jump(st, l); return Ok(()); } }
                        self.jump(st, *def);
                    }
                    _ => return Err(Stop::Unsup("switch".into())),
                }
            }
            Ins::Ret(v) => {
                let rv = match v { Some((_, o)) => Some(g!(o)), None => None };
                let fr = st.th[c].frames.pop().unwrap();
                for a in fr.allocas { let _ = self.free(st, (a as u64) << 32); }
                self.ret_to(st, fr.dst, fr.normal, rv)?;
            }
            Ins::Unreachable => return Err(Stop::Mem("reached unreachable".into())),
            Ins::ExtractValue(a, ix, d) => { let mut v = g!(a); for i in ix { v = match v { Val::A(x) => x[*i as usize].clone(), _ => return Err(Stop::Unsup("extractvalue".into())) }; } self.set(st, *d, v); }
            Ins::InsertValue(a, t, v, ix, d) => { let x = g!(a); let y = g!(v); let r = insert_val(x, t, y, ix)?; self.set(st, *d, r); }
            Ins::Rmw(op, t, a, v, d) => {
                let (pa, x) = (g!(a), g!(v));
                let ad = self.addr_of(st, &pa)?;
                let old = self.load(st, t, ad)?;
                let w = match t { Ty::Ptr => 64, t => t.bits() as u32 };
                let nt = Ty::Int(w);
                let new = match op.as_str() { "xchg" => x, "add" => self.bin(st, BinOp::Add, &nt, &old, &x)?, "sub" => self.bin(st, BinOp::Sub, &nt, &old, &x)?, "and" => self.bin(st, BinOp::And, &nt, &old, &x)?, "or" => self.bin(st, BinOp::Or, &nt, &old, &x)?, "xor" => self.bin(st, BinOp::Xor, &nt, &old, &x)?,
                    "max" | "min" | "umax" | "umin" => { let p = match op.as_str() { "max" => Pred::Sgt, "min" => Pred::Slt, "umax" => Pred::Ugt, _ => Pred::Ult }; let cnd = self.icmp(p, &nt, &old, &x)?; self.select(st, &nt, &cnd, &old, &x)? }
                    o => return Err(Stop::Unsup(format!("rmw {}", o))) };
                self.store(st, t, ad, &new)?;
                self.set(st, *d, old);
            }
            Ins::CmpXchg(t, a, cm, nw, d) => {
                let (pa, x, y) = (g!(a), g!(cm), g!(nw));
                self.maybe_preempt(st)?;
                let ad = self.addr_of(st, &pa)?;
                let old = self.load(st, t, ad)?;
                let eq = self.icmp(Pred::Eq, &if *t == Ty::Ptr { Ty::Int(64) } else { t.clone() }, &old, &x)?;
                let ok = match eq { Val::I(k) => k == 1, Val::S(e) => self.branch(st, e)?, _ => unreachable!() };
                if ok { self.store(st, t, ad, &y)?; }
                self.set(st, *d, Val::A(Rc::new(vec![old, Val::I(ok as u64)])));
            }
            Ins::Fence => { st.th[c].frames.last_mut().unwrap().ip += 1; }
            Ins::Copy(a, d) => { let v = g!(a); self.set(st, *d, v); }
            Ins::ExtractElem(a, i, d) => { let v = g!(a); let k = g!(i); let k = self.conc(st, &k)? as usize; let r = match v { Val::A(x) => x.get(k).cloned().unwrap_or(Val::I(0)), _ => return Err(Stop::Unsup("extractelement".into())) }; self.set(st, *d, r); }
            Ins::InsertElem(a, v, i, d) => { let x = g!(a); let y = g!(v); let k = g!(i); let k = self.conc(st, &k)? as usize; let r = match x { Val::A(x) => { let mut n = (*x).clone(); n[k] = y; Val::A(Rc::new(n)) } _ => return Err(Stop::Unsup("insertelement".into())) }; self.set(st, *d, r); }
            Ins::Shuffle(a, b, mask, n, d) => { let (x, y) = (g!(a), g!(b)); let r = match (x, y) { (Val::A(x), Val::A(y)) => Val::A(Rc::new(mask.iter().map(|i| if *i < 0 { x[0].clone() } else if (*i as u32) < *n { x[*i as usize].clone() } else { y[*i as usize - *n as usize].clone() }).collect())), _ => return Err(Stop::Unsup("shuffle".into())) }; self.set(st, *d, r); }
            Ins::LandingPad(_) | Ins::Resume => return Err(Stop::Unsup("unwinding".into())),
            Ins::Bad(s) => return Err(Stop::Unsup(format!("instruction {}", s))),
            Ins::Call(ci) => {
                let mut args = Vec::with_capacity(ci.args.len());
                for (_, o) in &ci.args { args.push(g!(o)); }
                let id = match &ci.callee {
                    Callee::Direct(n) => { let r = ci.resolved.get(); if r != 0 { r } else { let a = match self.m.gid(n) { Some(_) => (self.m.addr(n) >> 32) as u32, None => return Err(Stop::Unsup(format!("call to unknown {}", n))) }; ci.resolved.set(a); a } }
                    Callee::Indirect(o) => { let v = g!(o); let a = self.addr_of(st, &v)?; if a & 0xffff_ffff != 0 || a == 0 { return Err(Stop::Mem(format!("call of non-function {:#x}", a))); } (a >> 32) as u32 }
                    Callee::Asm(s) => { if s == "[]" || s.is_empty() { let fr = st.th[c].frames.last_mut().unwrap(); if let Some(d) = ci.dst { fr.regs[d as usize] = args.get(0).cloned().unwrap_or(Val::I(0)); } fr.ip += 1; return Ok(()); } return Err(Stop::Unsup(format!("inline asm {}", s))); }
                };
                let b = match self.bcache.get(&id) { Some(b) => *b, None => { if id as usize > self.m.globals.len() { return Err(Stop::Mem("call of data".into())); } let nm = self.m.globals[id as usize - 1].name.clone(); let b = crate::builtins::lookup(&nm, matches!(self.m.globals[id as usize - 1].kind, GInit::Func)); if b.is_some() && matches!(self.m.globals[id as usize - 1].kind, GInit::Func) { self.st.stubs.insert(crate::report::demangle(&nm)); } self.bcache.insert(id, b); b } };
                if let Some(bf) = b.filter(|f| *f as usize != crate::builtins::b_fmtfloat as usize || matches!(args[1], Val::S(_))) {
                    let before = st.cur;
                    let r = bf(self, st, &args, ci);
                    match r {
                        Ok(v) => { let fr = st.th[before].frames.last_mut().unwrap(); if let (Some(d), Some(v)) = (ci.dst, v) { fr.regs[d as usize] = v; } if ci.normal.is_none() { fr.ip += 1; } else { let cur = st.cur; st.cur = before; self.jump(st, ci.normal.unwrap()); st.cur = cur; } }
                        Err(e) => return Err(e),
                    }
                    return Ok(());
                }
                if !matches!(self.m.globals[id as usize - 1].kind, GInit::Func) { return Err(Stop::Unsup(format!("external function {}", self.m.globals[id as usize - 1].name))); }
                let nf = self.m.func(id);
                if self.seenfn.insert(id) { let d = crate::report::demangle(&nf.name); self.st.funcs.insert(d); }
                let mut regs = args;
                regs.truncate(nf.nargs);
                regs.resize(nf.nregs, Val::I(0));
                if st.th[c].frames.len() > 4000 { return Err(Stop::Limit("stack depth".into())); }
                st.th[c].frames.push(Frame { f: nf, blk: 0, ip: 0, regs, allocas: vec![], dst: ci.dst, normal: ci.normal });
            }
        }
        Ok(())
    }
    pub fn ret_to(&mut self, st: &mut State, dst: Option<u32>, normal: Option<u32>, rv: Option<Val>) -> R<()> {
        let c = st.cur;
        if st.th[c].frames.is_empty() {
            st.th[c].st = TS::Done;
            if c == 0 { return Err(Stop::Done); }
            for i in 0..st.th.len() { if st.th[i].st == TS::Join(c) { st.th[i].st = TS::Run; } }
            return self.schedule(st);
        }
        let fr = st.th[c].frames.last_mut().unwrap();
        if let (Some(d), Some(v)) = (dst, rv) { fr.regs[d as usize] = v; }
        match normal { Some(l) => self.jump(st, l), None => fr.ip += 1 }
        Ok(())
    }
    /// bounded exploration of interleavings: at a synchronisation operation, also explore switching away
    fn maybe_preempt(&mut self, st: &mut State) -> R<()> {
        if st.preempts >= self.cfg.preempt { return Ok(()); }
        let n = st.th.len();
        if n < 2 { return Ok(()); }
        let mut other = None;
        for k in 1..n { let i = (st.cur + k) % n; if st.th[i].st == TS::Run { other = Some(i); break; } }
        if let Some(i) = other {
            // the schedule is part of the symbolic input: one variable per synchronisation point
            let v = expr::new_var(&format!("switch#{}", st.steps), 1, 0.0, 1.0);
            let mut o = st.clone(); o.cur = i; o.preempts += 1; o.cons.push(v); st.cons.push(expr::not(v)); self.st.forks += 1;
            o.model = None; self.push_work(o);
        }
        Ok(())
    }
    // ---------- API used by builtins ----------
    pub fn do_assume(&mut self, st: &mut State, v: &Val) -> R<()> {
        match v {
            Val::I(k) => if k & 1 == 1 { Ok(()) } else { Err(Stop::Infeasible) },
            Val::S(e) => {
                if let Some(&k) = st.known.get(e) { return if k == 1 { Ok(()) } else { Err(Stop::Infeasible) }; }
                let base = st.model.clone();
                if let Some(m) = &base { if m.eval(*e) == 1 { self.add_con(st, *e); return Ok(()); } }
                match self.s.check(&st.cons, *e, base.as_ref()) {
                    Res::Unsat => Err(Stop::Infeasible),
                    Res::Sat(m) => { self.add_con(st, *e); st.model = Some(m); Ok(()) }
                    Res::Maybe => { self.add_con(st, *e); st.model = None; Ok(()) }
                    Res::Unknown => { self.unknown_note("assume"); self.add_con(st, *e); st.model = None; Ok(()) }
                }
            }
            _ => Err(Stop::Unsup("assume".into())),
        }
    }
    pub fn do_assert(&mut self, st: &mut State, v: &Val, msg: &str) -> R<()> {
        self.st.asserts += 1;
        match v {
            Val::I(k) => { if k & 1 == 1 { Ok(()) } else { self.violation(st, format!("assert: {}", msg)); Err(Stop::Infeasible) } }
            Val::S(e) => {
                if let Some(&k) = st.known.get(e) { if k == 1 { return Ok(()); } self.violation(st, format!("assert: {}", msg)); return Err(Stop::Infeasible); }
                self.st.asserts_sym += 1;
                let ne = expr::not(*e);
                let base = st.model.clone();
                self.s.nodom = true;
                let r = match &base { Some(m) if m.eval(ne) == 1 => Res::Sat(m.clone()), _ => self.s.check(&st.cons, ne, base.as_ref()) };
                self.s.nodom = false;
                match r {
                    Res::Unsat => {}
                    Res::Sat(m) => { let mut o = st.clone(); o.model = Some(m); self.add_con(&mut o, ne); self.violation(&mut o, format!("assert: {}", msg)); }
                    Res::Maybe => { let mut o = st.clone(); o.model = None; self.add_con(&mut o, ne);
                        if self.full_model(&mut o).is_some() { self.violation(&mut o, format!("assert: {}", msg)); }
                        else {
                            let all = o.cons.iter().fold(expr::tru(), |a, c| expr::bin(Op::And, a, *c));
                            match self.s.check(&o.cons, all, None) { Res::Unsat => {} _ => { self.open(&mut st.clone(), msg.as_ref()); *self.st.unknown_asserts.entry(format!("{} (model does not survive rounding)", msg)).or_insert(0) += 1; } }
                        } }
                    Res::Unknown => { self.open(&mut st.clone(), msg.as_ref()); *self.st.unknown_asserts.entry(format!("{} (solver unknown)", msg)).or_insert(0) += 1; }
                }
                // continue where the assertion holds
                self.do_assume(st, v)
            }
            _ => Err(Stop::Unsup("assert".into())),
        }
    }
    pub fn cover(&mut self, st: &mut State, name: &str) {
        match self.st.covers.get(name) { Some(Some(_)) => return, _ => {} }
        let w = if st.model.is_some() { self.witness(st, name.into()) } else { None };
        self.st.covers.insert(name.to_string(), w);
    }
    pub fn new_input(&mut self, st: &mut State, name: &str, w: u16, lo: f64, hi: f64) -> E {
        // same position on every path prefix => same variable name; fresh variable object per call
        let e = expr::new_var(&format!("{}#{}", name, st.inputs.len()), w, lo, hi);
        st.inputs.push((Rc::from(name), e));
        e
    }
}

fn const_leaves(e: E, max: usize) -> Option<Vec<u128>> {
    fn go(e: E, out: &mut Vec<u128>, max: usize) -> bool {
        let n = expr::nd(e);
        match n.op { Op::Const => { if !out.contains(&n.k) { out.push(n.k); } out.len() <= max } Op::Ite => go(n.b, out, max) && go(n.c, out, max), _ => false }
    }
    let mut v = vec![];
    if go(e, &mut v, max) { Some(v) } else { None }
}
fn put_const(d: &mut [u8], off: usize, t: &Ty, v: &Val) {
    match (t, v) {
        (Ty::Int(w), Val::I(x)) => { let n = ((w + 7) / 8) as usize; d[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]); }
        (Ty::Int(_), Val::W(a, b)) => { d[off..off + 8].copy_from_slice(&a.to_le_bytes()); d[off + 8..off + 16].copy_from_slice(&b.to_le_bytes()); }
        (Ty::Ptr, Val::I(x)) | (Ty::F64, Val::I(x)) => d[off..off + 8].copy_from_slice(&x.to_le_bytes()),
        (Ty::F32, Val::I(x)) => d[off..off + 4].copy_from_slice(&x.to_le_bytes()[..4]),
        (Ty::Arr(..), Val::A(a)) | (Ty::Struct(..), Val::A(a)) | (Ty::Vec(..), Val::A(a)) => for (i, x) in a.iter().enumerate() { let (o, ft) = t.field_off(i as u64); put_const(d, off + o as usize, &ft, x); },
        _ => panic!("put_const {:?} {:?}", t, v),
    }
}
pub fn clear_sym(o: &mut Obj, off: usize, n: usize) {
    if let Some(m) = &mut o.sym { if m.len() < n { m.retain(|k, _| (*k as usize) < off || (*k as usize) >= off + n); } else { for i in off..off + n { m.remove(&(i as u32)); } } if m.is_empty() { o.sym = None; } }
}
pub fn read_obj(o: &Obj, off: usize, n: usize) -> Val {
    let symb = match &o.sym { None => false, Some(m) => (off..off + n).any(|i| m.contains_key(&(i as u32))) };
    if !symb {
        if n <= 8 { let mut b = [0u8; 8]; b[..n].copy_from_slice(&o.data[off..off + n]); return Val::I(u64::from_le_bytes(b)); }
        let mut b = [0u8; 16]; b[..n].copy_from_slice(&o.data[off..off + n]); let x = u128::from_le_bytes(b);
        return Val::W(x as u64, (x >> 64) as u64);
    }
    let m = o.sym.as_ref().unwrap();
    let byte = |i: usize| m.get(&((off + i) as u32)).cloned().unwrap_or_else(|| expr::konst(8, o.data[off + i] as u128));
    // whole-value fast path
    let b0 = byte(0); let n0 = expr::nd(b0);
    if n0.op == Op::Extract && n0.k == (7u128 << 16) && expr::width(n0.a) as usize == n * 8 {
        let src = n0.a;
        if (1..n).all(|i| { let x = expr::nd(byte(i)); x.op == Op::Extract && x.a == src && (x.k & 0xffff) as usize == 8 * i }) { return from_e(src); }
    }
    let mut e = byte(n - 1);
    for i in (0..n - 1).rev() { e = expr::concat(e, byte(i)); }
    from_e(e)
}
pub fn write_obj(o: &mut Obj, off: usize, n: usize, v: &Val) {
    match v {
        Val::I(x) => { let b = x.to_le_bytes(); if n <= 8 { o.data[off..off + n].copy_from_slice(&b[..n]); } else { o.data[off..off + 8].copy_from_slice(&b); for i in 8..n { o.data[off + i] = 0; } } if o.sym.is_some() { clear_sym(o, off, n); } }
        Val::W(a, b) => { let x = (*a as u128 | (*b as u128) << 64).to_le_bytes(); o.data[off..off + n].copy_from_slice(&x[..n]); if o.sym.is_some() { clear_sym(o, off, n); } }
        Val::S(e) => {
            let w = expr::width(*e) as usize;
            for i in 0..n {
                let b = if 8 * i >= w { expr::konst(8, 0) } else { let hi = (8 * i + 7).min(w - 1); expr::zext(expr::extract(*e, hi as u16, (8 * i) as u16), 8) };
                match expr::as_const(b) { Some(k) => { o.data[off + i] = k as u8; if let Some(m) = &mut o.sym { m.remove(&((off + i) as u32)); } } None => { o.sym.get_or_insert_with(Default::default).insert((off + i) as u32, b); } }
            }
        }
        Val::A(_) => panic!("write agg"),
    }
}
fn insert_val(x: Val, t: &Ty, y: Val, ix: &[u32]) -> R<Val> {
    if ix.is_empty() { return Ok(y); }
    match x { Val::A(a) => { let mut n = (*a).clone(); let i = ix[0] as usize; n[i] = insert_val(n[i].clone(), t, y, &ix[1..])?; Ok(Val::A(Rc::new(n))) } _ => Err(Stop::Unsup("insertvalue".into())) }
}
pub fn flat(t: &Ty, v: &Val) -> R<E> {
    match (t, v) {
        (Ty::Vec(_, et), Val::A(a)) => { let mut e = flat(et, &a[a.len() - 1])?; for x in a[..a.len() - 1].iter().rev() { e = expr::concat(e, flat(et, x)?); } Ok(e) }
        (Ty::F64, Val::S(e)) | (Ty::F32, Val::S(e)) => Ok(expr::fbits(*e)),
        (Ty::F64, Val::I(x)) => Ok(expr::konst(64, *x as u128)), (Ty::F32, Val::I(x)) => Ok(expr::konst(32, *x as u128)),
        _ => Ok(to_e(v, sort_of(t))),
    }
}
pub fn unflat(t: &Ty, e: E) -> R<Val> {
    match t {
        Ty::Vec(n, et) => { let b = et.bits() as u16; let mut o = vec![]; for i in 0..*n as u16 { o.push(unflat(et, expr::extract(e, (i + 1) * b - 1, i * b))?); } Ok(Val::A(Rc::new(o))) }
        Ty::F64 | Ty::F32 => match expr::ffrombits(e, sort_of(t)) { Some(f) => Ok(from_e(f)), None => Err(Stop::Unsup("symbolic bits as float".into())) },
        _ => Ok(from_e(e)),
    }
}
