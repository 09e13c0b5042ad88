//! Lazy parser for textual LLVM IR (as printed by rustc --emit=llvm-ir).
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), F32, F64, Ptr, Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Vec(u32, Rc<Ty>), Label, Meta }
impl Ty {
    pub fn size(&self) -> u64 { // alloc size
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Int(n) => { let b = ((*n as u64) + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => { let mut o = 0; let mut al = 1; for t in f.iter() { let a = if *p { 1 } else { t.align() }; al = al.max(a); o = (o + a - 1) / a * a; o += t.size(); } (o + al - 1) / al * al }
            Ty::Vec(n, t) => { let bits = *n as u64 * t.bits() as u64; ((bits + 7) / 8).next_power_of_two() }
        }
    }
    pub fn bits(&self) -> u32 { match self { Ty::Int(n) => *n, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, Ty::Vec(n, t) => n * t.bits(), _ => panic!("bits of {:?}", self) } }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => { let b = ((*n as u64) + 7) / 8; b.next_power_of_two().min(16) }
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(..) => self.size(),
            _ => 1,
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(f, p) => { let mut o = 0; for (j, t) in f.iter().enumerate() { let a = if *p { 1 } else { t.align() }; o = (o + a - 1) / a * a; if j as u64 == i { return (o, t.clone()); } o += t.size(); } panic!("field {}", i) }
            _ => panic!("field_off {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val { I(u64), W(u64, u64), S(crate::expr::E), A(Rc<Vec<Val>>) }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp { Trunc, ZExt, SExt, FPTrunc, FPExt, FPToUI, FPToSI, UIToFP, SIToFP, PtrToInt, IntToPtr, BitCast }

#[derive(Clone, Debug)]
pub enum Callee { Direct(String), Indirect(Opd), Asm(String) }
#[derive(Debug)]
pub struct CallIns { pub callee: Callee, pub ret: Ty, pub args: Vec<(Ty, Opd)>, pub dst: Option<u32>, pub normal: Option<u32>, pub resolved: std::cell::Cell<u32> }

#[derive(Debug)]
pub enum Ins {
    Bin(BinOp, Ty, Opd, Opd, u32),
    FNeg(Ty, Opd, u32),
    Icmp(Pred, Ty, Opd, Opd, u32),
    Fcmp(String, Ty, Opd, Opd, u32),
    Cast(CastOp, Ty, Opd, Ty, u32),
    Load(Ty, Opd, u32),
    Store(Ty, Opd, Opd),
    Gep(Opd, i64, Vec<(Opd, u32, i64)>, u32),
    Alloca(u64, Opd, u32),
    Select(Ty, Opd, Opd, Opd, bool, u32),
    Call(CallIns),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u64, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    ExtractValue(Opd, Vec<u32>, u32),
    InsertValue(Opd, Ty, Opd, Vec<u32>, u32),
    Rmw(String, Ty, Opd, Opd, u32),
    CmpXchg(Ty, Opd, Opd, Opd, u32),
    Fence,
    Copy(Opd, u32),
    ExtractElem(Opd, Opd, u32),
    InsertElem(Opd, Opd, Opd, u32),
    Shuffle(Opd, Opd, Vec<i32>, u32, u32),
    LandingPad(u32),
    Resume,
    Bad(String),
}
#[derive(Debug)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub ins: Vec<Ins> }
#[derive(Debug)]
pub struct Func { pub name: String, pub id: u32, pub nargs: usize, pub nregs: usize, pub blocks: Vec<Block>, pub loc: Vec<u32> }

#[derive(Clone, Debug)]
pub enum GInit { Ext, Data(Ty, &'static str), Func, Decl, Alias(&'static str) }
pub struct Global { pub name: String, pub kind: GInit, pub tls: bool, pub constant: bool }

pub struct Module {
    pub text: &'static str,
    pub globals: Vec<Global>,             // index+1 == object id
    pub gidx: HashMap<&'static str, u32>, // name -> id
    pub funcs: HashMap<u32, (usize, usize)>,
    pub parsed: HashMap<u32, &'static Func>,
    pub inits: HashMap<u32, Rc<crate::exec::Obj>>,
}

fn name_of(s: &'static str) -> (&'static str, usize) {
    // s starts after sigil
    let b = s.as_bytes();
    if b[0] == b'"' { let e = s[1..].find('"').unwrap() + 1; (&s[1..e], e + 1) }
    else { let mut i = 0; while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'.' | b'_' | b'$' | b'-')) { i += 1; } (&s[..i], i) }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read ll").into_boxed_str());
        let mut m = Module { text, globals: vec![], gidx: HashMap::new(), funcs: HashMap::new(), parsed: HashMap::new(), inits: HashMap::new() };
        let mut pos = 0;
        let b = text.as_bytes();
        while pos < b.len() {
            let e = text[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
            let line = &text[pos..e];
            if line.starts_with('@') {
                let (nm, l) = name_of(&line[1..]);
                let rest = &line[1 + l..];
                let rest = rest.trim_start_matches(' ').trim_start_matches('=').trim();
                m.add_global(nm, rest);
            } else if line.starts_with("define ") {
                let at = line.find('@').unwrap();
                let (nm, _) = name_of(&line[at + 1..]);
                let end = text[pos..].find("\n}\n").map(|x| pos + x + 2).unwrap();
                let id = m.add(nm, GInit::Func, false, true);
                m.funcs.insert(id, (pos, end));
                pos = end + 1; continue;
            } else if line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let (nm, _) = name_of(&line[at + 1..]);
                m.add(nm, GInit::Decl, false, true);
            }
            pos = e + 1;
        }
        m
    }
    fn add(&mut self, nm: &'static str, kind: GInit, tls: bool, constant: bool) -> u32 {
        if let Some(&i) = self.gidx.get(nm) { self.globals[i as usize - 1].kind = kind; return i; }
        self.globals.push(Global { name: nm.to_string(), kind, tls, constant });
        let id = self.globals.len() as u32;
        self.gidx.insert(nm, id);
        id
    }
    fn add_global(&mut self, nm: &'static str, rest: &'static str) {
        // skip to "global " or "constant " or "alias "
        let mut tls = false;
        let mut p = Lex::new(rest);
        let mut ext = false;
        loop {
            match p.next() {
                Tok::Word("global") | Tok::Word("constant") => { break; }
                Tok::Word("alias") => { self.add(nm, GInit::Alias(&rest[p.pos..]), false, true); return; }
                Tok::Word("thread_local") => tls = true,
                Tok::Word("external") | Tok::Word("extern_weak") => ext = true,
                Tok::End => panic!("global {}", rest),
                _ => {}
            }
        }
        let constant = rest[..p.pos].ends_with("constant");
        if ext { self.add(nm, GInit::Ext, tls, constant); return; }
        let ty = p.ty().unwrap();
        let start = p.pos;
        self.add(nm, GInit::Data(ty, &rest[start..]), tls, constant);
    }
    pub fn gid(&self, nm: &str) -> Option<u32> { self.gidx.get(nm).cloned() }
    pub fn addr(&self, nm: &str) -> u64 {
        match self.gidx.get(nm) { Some(&id) => { if let GInit::Alias(s) = &self.globals[id as usize - 1].kind { let at = s.find('@').unwrap(); let (n, _) = name_of(&s[at + 1..]); return self.addr(n); } (id as u64) << 32 } None => panic!("unknown global {}", nm) }
    }
    pub fn func(&mut self, id: u32) -> &'static Func {
        if let Some(f) = self.parsed.get(&id) { return f; }
        let (s, e) = self.funcs[&id];
        let f = parse_func(self, id, &self.text[s..e]);
        let f: &'static Func = Box::leak(Box::new(f));
        self.parsed.insert(id, f);
        f
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok { Word(&'static str), Local(&'static str), Global(&'static str), Meta, Num(&'static str), Str(&'static str), CStr(&'static str), P(u8), End }

pub struct Lex { pub s: &'static str, pub pos: usize }
impl Lex {
    pub fn new(s: &'static str) -> Lex { Lex { s, pos: 0 } }
    pub fn peek(&mut self) -> Tok { let p = self.pos; let t = self.next(); self.pos = p; t }
    pub fn next(&mut self) -> Tok {
        let b = self.s.as_bytes();
        loop {
            while self.pos < b.len() && (b[self.pos] == b' ' || b[self.pos] == b'\n' || b[self.pos] == b'\t') { self.pos += 1; }
            if self.s[self.pos..].starts_with("/*") { self.pos = self.s[self.pos..].find("*/").map_or(b.len(), |x| self.pos + x + 2); continue; }
            break;
        }
        if self.pos >= b.len() { return Tok::End; }
        let c = b[self.pos];
        let st = self.pos;
        match c {
            b'%' | b'@' => { let (n, l) = name_of(&self.s[st + 1..]); self.pos += 1 + l; if c == b'%' { Tok::Local(n) } else { Tok::Global(n) } }
            b'!' => { self.pos += 1; while self.pos < b.len() && (b[self.pos].is_ascii_alphanumeric() || b[self.pos] == b'.' || b[self.pos] == b'_') { self.pos += 1; } Tok::Meta }
            b'"' => { let e = self.s[st + 1..].find('"').unwrap() + st + 1; self.pos = e + 1; Tok::Str(&self.s[st + 1..e]) }
            b'c' if st + 1 < b.len() && b[st + 1] == b'"' => { let e = self.s[st + 2..].find('"').unwrap() + st + 2; self.pos = e + 1; Tok::CStr(&self.s[st + 2..e]) }
            b'0'..=b'9' | b'-' | b'+' => { self.pos += 1; while self.pos < b.len() && (b[self.pos].is_ascii_alphanumeric() || b[self.pos] == b'.' || ((b[self.pos] == b'+' || b[self.pos] == b'-') && b[self.pos - 1] == b'e')) { self.pos += 1; } Tok::Num(&self.s[st..self.pos]) }
            b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'.' | b'$' => { while self.pos < b.len() && (b[self.pos].is_ascii_alphanumeric() || matches!(b[self.pos], b'_' | b'.' | b'$')) { self.pos += 1; } Tok::Word(&self.s[st..self.pos]) }
            b'#' => { self.pos += 1; while self.pos < b.len() && b[self.pos].is_ascii_digit() { self.pos += 1; } Tok::Meta }
            _ => { self.pos += 1; Tok::P(c) }
        }
    }
    pub fn eat(&mut self, c: u8) -> bool { if self.peek() == Tok::P(c) { self.next(); true } else { false } }
    pub fn expect(&mut self, c: u8) { let t = self.next(); if t != Tok::P(c) { panic!("expected '{}' got {:?} in: {}", c as char, t, self.s); } }
    pub fn skip_parens(&mut self) { // at '('
        self.expect(b'(');
        let mut d = 1;
        while d > 0 { match self.next() { Tok::P(b'(') => d += 1, Tok::P(b')') => d -= 1, Tok::End => panic!("parens: {}", self.s), _ => {} } }
    }
    pub fn ty(&mut self) -> Option<Ty> {
        let save = self.pos;
        let t = match self.next() {
            Tok::Word("void") => Ty::Void, Tok::Word("ptr") => { if self.peek() == Tok::Word("addrspace") { self.next(); self.skip_parens(); } Ty::Ptr }
            Tok::Word("float") => Ty::F32, Tok::Word("double") => Ty::F64, Tok::Word("label") => Ty::Label, Tok::Word("metadata") => Ty::Meta,
            Tok::Word(w) if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
            Tok::P(b'[') => { let n = self.num() as u64; self.next(); let t = self.ty().unwrap(); self.expect(b']'); Ty::Arr(n, Rc::new(t)) }
            Tok::P(b'{') => self.struct_rest(false),
            Tok::P(b'<') => {
                if self.eat(b'{') { let t = self.struct_rest(true); self.expect(b'>'); t }
                else { let n = self.num() as u32; self.next(); let t = self.ty().unwrap(); self.expect(b'>'); Ty::Vec(n, Rc::new(t)) }
            }
            _ => { self.pos = save; return None; }
        };
        Some(t)
    }
    fn struct_rest(&mut self, packed: bool) -> Ty {
        let mut v = vec![];
        if !self.eat(b'}') { loop { v.push(self.ty().expect("struct field")); if self.eat(b',') { continue; } self.expect(b'}'); break; } }
        Ty::Struct(Rc::new(v), packed)
    }
    pub fn num(&mut self) -> i128 { match self.next() { Tok::Num(n) => n.parse::<i128>().unwrap_or_else(|_| n.parse::<u128>().map(|x| x as i128).unwrap_or_else(|_| panic!("num {}", n))), t => panic!("num expected {:?} in {}", t, self.s) } }
}

fn parse_float(s: &str, t: &Ty) -> u64 {
    let v: f64 = match s {
        "+inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, "+qnan" => f64::NAN, "-qnan" => -f64::NAN,
        _ => {
            if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).expect("hex float")) }
            else if let Some(h) = s.strip_prefix("f0x") { return u64::from_str_radix(h, 16).unwrap(); }
            else { s.parse().unwrap_or_else(|_| panic!("float {}", s)) }
        }
    };
    if *t == Ty::F32 { (v as f32).to_bits() as u64 } else { v.to_bits() }
}
pub fn mkint(w: u32, v: i128) -> Val {
    if w > 64 { let u = v as u128 & crate::expr::mask(w as u16); Val::W(u as u64, (u >> 64) as u64) } else { Val::I((v as u128 & crate::expr::mask(w as u16)) as u64) }
}
pub fn zero_of(t: &Ty) -> Val {
    match t {
        Ty::Int(n) => mkint(*n, 0),
        Ty::Arr(n, t) => Val::A(Rc::new(vec![zero_of(t); *n as usize])),
        Ty::Vec(n, t) => Val::A(Rc::new(vec![zero_of(t); *n as usize])),
        Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(zero_of).collect())),
        _ => Val::I(0),
    }
}
pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes(); let mut o = vec![]; let mut i = 0;
    while i < b.len() { if b[i] == b'\\' && b.get(i + 1) == Some(&b'\\') { o.push(b'\\'); i += 2; } else if b[i] == b'\\' { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3; } else { o.push(b[i]); i += 1; } }
    o
}
/// constant of type t
pub fn konst(m: &Module, p: &mut Lex, t: &Ty) -> Val {
    match p.next() {
        Tok::Num(n) => match t { Ty::Int(w) => mkint(*w, n.parse::<i128>().unwrap_or_else(|_| n.parse::<u128>().unwrap() as i128)), Ty::F32 | Ty::F64 => Val::I(parse_float(n, t)), _ => panic!("num const {:?}", t) },
        Tok::Word("true") => Val::I(1), Tok::Word("false") => Val::I(0),
        Tok::Word("null") => Val::I(0), Tok::Word("undef") | Tok::Word("poison") | Tok::Word("zeroinitializer") | Tok::Word("none") => zero_of(t),
        Tok::Word(w) if w.starts_with("f0x") => Val::I(parse_float(w, t)),
        Tok::Global(g) => Val::I(m.addr(g)),
        Tok::CStr(s) => Val::A(Rc::new(unescape(s).into_iter().map(|b| Val::I(b as u64)).collect())),
        Tok::Word("splat") => { p.expect(b'('); let et = p.ty().unwrap(); let v = konst(m, p, &et); p.expect(b')'); if let Ty::Vec(n, _) = t { Val::A(Rc::new(vec![v; *n as usize])) } else { panic!() } }
        Tok::P(b'[') => list(m, p, b']'),
        Tok::P(b'{') => list(m, p, b'}'),
        Tok::P(b'<') => { if p.eat(b'{') { let v = list(m, p, b'}'); p.expect(b'>'); v } else { list(m, p, b'>') } }
        Tok::Word("getelementptr") => {
            while let Tok::Word(_) = p.peek() { let sv = p.pos; if p.ty().is_some() { p.pos = sv; break; } p.next(); if p.peek() == Tok::P(b'(') { let sv2 = p.pos; // inrange(...) or args
                if let Tok::P(b'(') = p.next() { p.pos = sv2; } if p.s[..p.pos].ends_with("inrange") { p.skip_parens(); } else { break; } } }
            p.expect(b'(');
            let bt = p.ty().unwrap(); p.expect(b',');
            let _ = p.ty().unwrap(); let base = konst(m, p, &Ty::Ptr);
            let mut off: i64 = 0; let mut cur = bt; let mut first = true;
            while p.eat(b',') { let it = p.ty().unwrap(); let v = konst(m, p, &it); let i = if let Val::I(x) = v { crate::expr::sext128(x as u128, it.bits() as u16) as i64 } else { panic!() };
                if first { off += i * cur.size() as i64; first = false; } else { let (o, t2) = cur.field_off(i as u64); off += o as i64; cur = t2; } }
            p.expect(b')');
            if let Val::I(b) = base { Val::I(b.wrapping_add(off as u64)) } else { panic!() }
        }
        Tok::Word(w @ ("ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast")) => {
            p.expect(b'('); let ft = p.ty().unwrap(); let v = konst(m, p, &ft); assert_eq!(p.next(), Tok::Word("to")); let tt = p.ty().unwrap(); p.expect(b')');
            if w == "trunc" { if let Val::I(x) = v { mkint(tt.bits(), x as i128) } else { panic!() } } else { v }
        }
        Tok::Word(w @ ("sub" | "add" | "xor" | "and" | "mul")) => {
            while let Tok::Word(_) = p.peek() { p.next(); }
            p.expect(b'('); let t1 = p.ty().unwrap(); let a = konst(m, p, &t1); p.expect(b','); let t2 = p.ty().unwrap(); let b = konst(m, p, &t2); p.expect(b')');
            if let (Val::I(a), Val::I(b)) = (a, b) { mkint(t1.bits(), match w { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), "mul" => a.wrapping_mul(b), "and" => a & b, _ => a ^ b } as i128) } else { panic!() }
        }
        t2 => panic!("constant {:?} of {:?} in: {}", t2, t, &p.s[..p.s.len().min(300)]),
    }
}
fn list(m: &Module, p: &mut Lex, end: u8) -> Val {
    let mut v = vec![];
    if p.eat(end) { return Val::A(Rc::new(v)); }
    loop { let t = p.ty().expect("elt type"); v.push(konst(m, p, &t)); if p.eat(b',') { continue; } p.expect(end); break; }
    Val::A(Rc::new(v))
}

struct FP<'a> { m: &'a Module, regs: HashMap<&'static str, u32>, n: u32, labels: HashMap<String, u32> }
impl<'a> FP<'a> {
    fn reg(&mut self, s: &'static str) -> u32 { if let Some(r) = self.regs.get(s) { return *r; } let r = self.n; self.n += 1; self.regs.insert(s, r); r }
    fn opd(&mut self, p: &mut Lex, t: &Ty) -> Opd {
        if let Tok::Local(l) = p.peek() { p.next(); return Opd::R(self.reg(l)); }
        Opd::K(konst(self.m, p, t))
    }
    fn label(&mut self, p: &mut Lex) -> u32 { match p.next() { Tok::Local(l) => *self.labels.get(l).unwrap_or_else(|| panic!("label {}", l)), t => panic!("label {:?} in {}", t, p.s) } }
    fn lab(&mut self, p: &mut Lex) -> u32 { assert_eq!(p.next(), Tok::Word("label")); self.label(p) }
}

fn skip_attrs(p: &mut Lex) {
    // skip words (attributes) incl. parenthesised payloads and ints, stop at a type/operand start
    loop {
        let sv = p.pos;
        match p.next() {
            Tok::Word(w) => {
                p.pos = sv;
                if p.ty().is_some() { p.pos = sv; return; }
                p.next();
                if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "splat" | "asm" | "none" | "sub" | "add" | "trunc" | "bitcast") || w.starts_with("f0x") { p.pos = sv; return; }
                if w == "align" && p.peek() != Tok::P(b'(') { p.next(); continue; }
                if p.peek() == Tok::P(b'(') { p.skip_parens(); }
            }
            _ => { p.pos = sv; return; }
        }
    }
}

fn parse_func(m: &Module, id: u32, text: &'static str) -> Func {
    let hdr_end = text.find("{\n").unwrap();
    // header may contain "{ i64, i64 }" return types but those are never followed by newline
    let hdr = &text[..hdr_end];
    let body = &text[hdr_end + 2..];
    let mut fp = FP { m, regs: HashMap::new(), n: 0, labels: HashMap::new() };
    let mut p = Lex::new(hdr);
    p.next();
    // attrs until ret type
    loop { let sv = p.pos; if p.ty().is_some() { break; } p.pos = sv; match p.next() { Tok::Word(_) => { if p.peek() == Tok::P(b'(') { p.skip_parens(); } } Tok::End => panic!("hdr {}", hdr), _ => {} } }
    let name = match p.next() { Tok::Global(g) => g, t => panic!("fn name {:?} in {}", t, hdr) };
    p.expect(b'(');
    let mut nargs = 0; let mut nnum = 0;
    if !p.eat(b')') {
        loop {
            match p.ty() { Some(_) => {} None => { // varargs ...
                while p.peek() != Tok::P(b')') { p.next(); } p.next(); break; } }
            loop { match p.peek() { Tok::Local(l) => { if l.bytes().all(|c| c.is_ascii_digit()) { nnum += 1; } p.next(); fp.reg(l); nargs += 1; break; } Tok::P(b'(') => p.skip_parens(), Tok::P(b',') | Tok::P(b')') => { panic!("unnamed arg {}", hdr) } _ => { p.next(); } } }
            if p.eat(b',') { continue; }
            p.expect(b')'); break;
        }
    }
    // logical lines
    let mut lines: Vec<&'static str> = vec![];
    let mut start: Option<usize> = None; let mut pos = 0;
    let mut lends = vec![];
    for l in body.split('\n') { lends.push((pos, l)); pos += l.len() + 1; }
    let mut cur_end = 0;
    for (po, l) in &lends {
        if l.is_empty() || l.starts_with(';') || *l == "}" { continue; }
        let cont = l.starts_with("   ") || l.starts_with("  ]");
        if cont { cur_end = po + l.len(); continue; }
        if let Some(s) = start { lines.push(&body[s..cur_end]); }
        start = Some(*po); cur_end = po + l.len();
    }
    if let Some(s) = start { lines.push(&body[s..cur_end]); }
    // labels
    let islabel = |l: &str| !l.starts_with(' ');
    let lname = |l: &'static str| -> &'static str { if l.starts_with('"') { name_of(l).0 } else { &l[..l.find(':').unwrap()] } };
    let mut nb = 0;
    if lines.is_empty() || !islabel(lines[0]) { // entry block unnamed: its number is the next unnamed value
        fp.labels.insert(nnum.to_string(), 0); nb = 1;
    }
    for l in &lines { if islabel(l) { fp.labels.insert(lname(l).to_string(), nb); nb += 1; } }
    let mut blocks: Vec<Block> = vec![];
    if lines.is_empty() || !islabel(lines[0]) { blocks.push(Block { phis: vec![], ins: vec![] }); }
    for l in lines {
        if islabel(l) { blocks.push(Block { phis: vec![], ins: vec![] }); continue; }
        let b = blocks.last_mut().unwrap();
        parse_ins(&mut fp, l, b);
    }
    Func { name: name.to_string(), id, nargs, nregs: fp.n as usize, blocks, loc: vec![] }
}

fn parse_ins(fp: &mut FP, l: &'static str, b: &mut Block) {
    let mut p = Lex::new(l);
    let mut dst = u32::MAX;
    if let Tok::Local(n) = p.peek() { p.next(); dst = fp.reg(n); p.expect(b'='); }
    let op = match p.next() { Tok::Word(w) => w, t => panic!("op {:?} in {}", t, l) };
    let ins = match op {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            let bo = match op { "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv, "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr, "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "fadd" => BinOp::FAdd, "fsub" => BinOp::FSub, "fmul" => BinOp::FMul, "fdiv" => BinOp::FDiv, _ => BinOp::FRem };
            skip_attrs(&mut p);
            let t = p.ty().unwrap(); let a = fp.opd(&mut p, &t); p.expect(b','); let c = fp.opd(&mut p, &t);
            Ins::Bin(bo, t, a, c, dst)
        }
        "fneg" => { skip_attrs(&mut p); let t = p.ty().unwrap(); let a = fp.opd(&mut p, &t); Ins::FNeg(t, a, dst) }
        "icmp" => {
            let mut pr = match p.next() { Tok::Word(w) => w, _ => panic!() };
            if pr == "samesign" { pr = match p.next() { Tok::Word(w) => w, _ => panic!() }; }
            let pr = match pr { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("pred {}", x) };
            let t = p.ty().unwrap(); let a = fp.opd(&mut p, &t); p.expect(b','); let c = fp.opd(&mut p, &t);
            Ins::Icmp(pr, t, a, c, dst)
        }
        "fcmp" => {
            let mut pr = match p.next() { Tok::Word(w) => w, _ => panic!() };
            while matches!(pr, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { pr = match p.next() { Tok::Word(w) => w, _ => panic!() }; }
            let t = p.ty().unwrap(); let a = fp.opd(&mut p, &t); p.expect(b','); let c = fp.opd(&mut p, &t);
            Ins::Fcmp(pr.to_string(), t, a, c, dst)
        }
        "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
            let co = match op { "trunc" => CastOp::Trunc, "zext" => CastOp::ZExt, "sext" => CastOp::SExt, "fptrunc" => CastOp::FPTrunc, "fpext" => CastOp::FPExt, "fptoui" => CastOp::FPToUI, "fptosi" => CastOp::FPToSI, "uitofp" => CastOp::UIToFP, "sitofp" => CastOp::SIToFP, "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt, "inttoptr" => CastOp::IntToPtr, _ => CastOp::BitCast };
            skip_attrs(&mut p);
            let t = p.ty().unwrap(); let a = fp.opd(&mut p, &t); assert_eq!(p.next(), Tok::Word("to")); let t2 = p.ty().unwrap();
            Ins::Cast(co, t, a, t2, dst)
        }
        "load" => { skip_attrs(&mut p); let t = p.ty().unwrap(); p.expect(b','); let pt = p.ty().unwrap(); let a = fp.opd(&mut p, &pt); Ins::Load(t, a, dst) }
        "store" => { skip_attrs(&mut p); let t = p.ty().unwrap(); let v = fp.opd(&mut p, &t); p.expect(b','); let pt = p.ty().unwrap(); let a = fp.opd(&mut p, &pt); Ins::Store(t, v, a) }
        "getelementptr" => {
            skip_attrs(&mut p);
            let mut cur = p.ty().unwrap(); p.expect(b','); let pt = p.ty().unwrap(); let base = fp.opd(&mut p, &pt);
            if let Ty::Vec(..) = pt { b.ins.push(Ins::Bad("vector gep".into())); return; }
            let mut off: i64 = 0; let mut dynv = vec![]; let mut first = true;
            while p.eat(b',') {
                let sv = p.pos;
                let it = match p.ty() { Some(t) => t, None => { p.pos = sv; break; } };
                let i = fp.opd(&mut p, &it);
                let (scale, nt) = if first { first = false; (cur.size() as i64, cur.clone()) } else {
                    match &cur { Ty::Struct(..) => { if let Opd::K(Val::I(k)) = &i { let (o, t2) = cur.field_off(*k); off += o as i64; cur = t2; continue; } panic!() } Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() as i64, (**t).clone()), _ => panic!("gep {}", l) } };
                match i { Opd::K(Val::I(k)) => { off += crate::expr::sext128(k as u128, it.bits() as u16) as i64 * scale; } o => dynv.push((o, it.bits(), scale)) }
                cur = nt;
            }
            Ins::Gep(base, off, dynv, dst)
        }
        "alloca" => { skip_attrs(&mut p); let t = p.ty().unwrap(); let mut n = Opd::K(Val::I(1)); if p.eat(b',') { if let Some(it) = p.ty() { n = fp.opd(&mut p, &it); } } Ins::Alloca(t.size(), n, dst) }
        "select" => {
            skip_attrs(&mut p);
            let ct = p.ty().unwrap(); let c = fp.opd(&mut p, &ct); p.expect(b','); let t = p.ty().unwrap(); let x = fp.opd(&mut p, &t); p.expect(b','); let t2 = p.ty().unwrap(); let y = fp.opd(&mut p, &t2);
            let vc = matches!(ct, Ty::Vec(..));
            Ins::Select(t, c, x, y, vc, dst)
        }
        "phi" => {
            skip_attrs(&mut p);
            let t = p.ty().unwrap(); let mut v = vec![];
            loop { p.expect(b'['); let o = fp.opd(&mut p, &t); p.expect(b','); let lb = fp.label(&mut p); p.expect(b']'); v.push((lb, o)); if p.peek() == Tok::P(b',') { let sv = p.pos; p.next(); if p.peek() == Tok::P(b'[') { continue; } p.pos = sv; } break; }
            b.phis.push((dst, v)); return;
        }
        "br" => {
            if p.peek() == Tok::Word("label") { Ins::Br(fp.lab(&mut p)) } else {
                let t = p.ty().unwrap(); let c = fp.opd(&mut p, &t); p.expect(b','); let x = fp.lab(&mut p); p.expect(b','); let y = fp.lab(&mut p); Ins::CondBr(c, x, y) }
        }
        "switch" => {
            let t = p.ty().unwrap(); let v = fp.opd(&mut p, &t); p.expect(b','); let d = fp.lab(&mut p); p.expect(b'[');
            let mut cs = vec![];
            while !p.eat(b']') { let ct = p.ty().unwrap(); let k = match konst(fp.m, &mut p, &ct) { Val::I(k) => k, _ => panic!("switch on wide") }; p.expect(b','); let lb = fp.lab(&mut p); cs.push((k, lb)); }
            Ins::Switch(t, v, d, cs)
        }
        "ret" => { let t = p.ty().unwrap(); if t == Ty::Void { Ins::Ret(None) } else { let v = fp.opd(&mut p, &t); Ins::Ret(Some((t, v))) } }
        "unreachable" => Ins::Unreachable,
        "extractvalue" => { let t = p.ty().unwrap(); let a = fp.opd(&mut p, &t); let mut ix = vec![]; while p.eat(b',') { if let Tok::Num(_) = p.peek() { ix.push(p.num() as u32); } else { break; } } Ins::ExtractValue(a, ix, dst) }
        "insertvalue" => { let t = p.ty().unwrap(); let a = fp.opd(&mut p, &t); p.expect(b','); let t2 = p.ty().unwrap(); let v = fp.opd(&mut p, &t2); let mut ix = vec![]; while p.eat(b',') { if let Tok::Num(_) = p.peek() { ix.push(p.num() as u32); } else { break; } } Ins::InsertValue(a, t, v, ix, dst) }
        "atomicrmw" => { skip_attrs_rmw(&mut p); let o = match p.next() { Tok::Word(w) => w, _ => panic!() }; let pt = p.ty().unwrap(); let a = fp.opd(&mut p, &pt); p.expect(b','); let t = p.ty().unwrap(); let v = fp.opd(&mut p, &t); Ins::Rmw(o.to_string(), t, a, v, dst) }
        "cmpxchg" => { skip_attrs(&mut p); let pt = p.ty().unwrap(); let a = fp.opd(&mut p, &pt); p.expect(b','); let t = p.ty().unwrap(); let c = fp.opd(&mut p, &t); p.expect(b','); let t2 = p.ty().unwrap(); let n = fp.opd(&mut p, &t2); Ins::CmpXchg(t, a, c, n, dst) }
        "fence" => Ins::Fence,
        "freeze" => { let t = p.ty().unwrap(); let a = fp.opd(&mut p, &t); Ins::Copy(a, dst) }
        "extractelement" => { let t = p.ty().unwrap(); let a = fp.opd(&mut p, &t); p.expect(b','); let t2 = p.ty().unwrap(); let i = fp.opd(&mut p, &t2); Ins::ExtractElem(a, i, dst) }
        "insertelement" => { let t = p.ty().unwrap(); let a = fp.opd(&mut p, &t); p.expect(b','); let t2 = p.ty().unwrap(); let v = fp.opd(&mut p, &t2); p.expect(b','); let t3 = p.ty().unwrap(); let i = fp.opd(&mut p, &t3); Ins::InsertElem(a, v, i, dst) }
        "shufflevector" => {
            let t = p.ty().unwrap(); let a = fp.opd(&mut p, &t); p.expect(b','); let t2 = p.ty().unwrap(); let c = fp.opd(&mut p, &t2); p.expect(b','); let mt = p.ty().unwrap();
            let n = if let Ty::Vec(n, _) = t { n } else { panic!() };
            let mn = if let Ty::Vec(n, _) = mt { n } else { panic!() };
            let mask = match p.peek() { Tok::Word(_) => vec![0; mn as usize], _ => match konst(fp.m, &mut p, &mt) { Val::A(v) => v.iter().map(|x| if let Val::I(k) = x { *k as i32 } else { 0 }).collect(), _ => panic!() } };
            Ins::Shuffle(a, c, mask, n, dst)
        }
        "landingpad" => Ins::LandingPad(dst),
        "resume" => Ins::Resume,
        "tail" | "call" | "musttail" | "notail" | "invoke" => {
            if op != "call" && op != "invoke" { p.next(); }
            skip_attrs(&mut p);
            // cc / attributes already skipped; return type
            let mut ret = p.ty().unwrap_or_else(|| panic!("call ret: {}", l));
            if p.peek() == Tok::P(b'(') { p.skip_parens(); }
            if ret == Ty::Meta { ret = Ty::Void; }
            let callee = match p.next() {
                Tok::Global(g) => Callee::Direct(g.to_string()),
                Tok::Local(x) => Callee::Indirect(Opd::R(fp.reg(x))),
                Tok::Word("asm") => { let mut s = String::new(); loop { match p.peek() { Tok::P(b'(') => break, Tok::Str(x) => { if s.is_empty() { s = format!("[{}]", x); } p.next(); } _ => { p.next(); } } } Callee::Asm(s) }
                Tok::Word("null") | Tok::Word("undef") | Tok::Word("poison") => Callee::Indirect(Opd::K(Val::I(0))),
                t => panic!("callee {:?} in {}", t, l),
            };
            p.expect(b'(');
            let mut args = vec![];
            if !p.eat(b')') {
                loop {
                    let t = p.ty().unwrap_or_else(|| panic!("arg type at {} in {}", p.pos, l));
                    if t == Ty::Meta { // skip to , or ) at depth 0
                        let mut d = 0; loop { match p.peek() { Tok::P(b'(') => { d += 1; p.next(); } Tok::P(b')') => { if d == 0 { break; } d -= 1; p.next(); } Tok::P(b',') if d == 0 => break, _ => { p.next(); } } }
                        args.push((Ty::Meta, Opd::K(Val::I(0))));
                    } else { skip_attrs(&mut p); let o = fp.opd(&mut p, &t); args.push((t, o)); }
                    if p.eat(b',') { continue; }
                    p.expect(b')'); break;
                }
            }
            let mut normal = None;
            if op == "invoke" { loop { match p.next() { Tok::Word("to") => { if p.peek() == Tok::Word("label") { normal = Some(fp.lab(&mut p)); break; } } Tok::End => panic!("invoke {}", l), _ => {} } } }
            Ins::Call(CallIns { callee, ret, args, dst: if dst == u32::MAX { None } else { Some(dst) }, normal, resolved: std::cell::Cell::new(0) })
        }
        x => Ins::Bad(format!("opcode {}: {}", x, l)),
    };
    b.ins.push(ins);
}
fn skip_attrs_rmw(p: &mut Lex) { if p.peek() == Tok::Word("volatile") { p.next(); } }
