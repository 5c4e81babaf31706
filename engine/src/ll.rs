//! Parser for the textual LLVM IR rustc emits; lowers functions lazily to a compact form.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Arr(u64, Box<Ty>), Struct(Vec<Ty>, bool), Vec(u64, Box<Ty>), Label, Meta, Func }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tok<'a> { Word(&'a str), Loc(&'a str), Glob(&'a str), Num(&'a str), Str(&'a str), CStr(&'a str), P(char), Meta(&'a str), Attr(&'a str), Ell }

pub struct Lx<'a> { s: &'a str, p: usize, pp: usize, pub peeked: Option<Tok<'a>> }

fn isid(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Lx<'a> {
    pub fn new(s: &'a str) -> Self { Lx { s, p: 0, pp: 0, peeked: None } }
    pub fn peek(&mut self) -> Option<Tok<'a>> { if self.peeked.is_none() { self.pp = self.p; self.peeked = self.lex(); } self.peeked }
    pub fn next(&mut self) -> Option<Tok<'a>> { if let Some(t) = self.peeked.take() { return Some(t); } self.lex() }
    fn quoted(&mut self) -> &'a str {
        // at opening quote
        let b = self.s.as_bytes();
        let st = self.p + 1;
        let mut i = st;
        while b[i] != b'"' { i += 1; }
        self.p = i + 1;
        &self.s[st..i]
    }
    fn ident(&mut self) -> &'a str {
        let b = self.s.as_bytes();
        if self.p < b.len() && b[self.p] == b'"' { return self.quoted(); }
        let st = self.p;
        while self.p < b.len() && isid(b[self.p]) { self.p += 1; }
        &self.s[st..self.p]
    }
    fn lex(&mut self) -> Option<Tok<'a>> {
        let b = self.s.as_bytes();
        loop {
            if self.p >= b.len() { return None; }
            let c = b[self.p];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' { self.p += 1; continue; }
            if c == b';' { while self.p < b.len() && b[self.p] != b'\n' { self.p += 1; } continue; }
            break;
        }
        let c = b[self.p];
        Some(match c {
            b'%' => { self.p += 1; Tok::Loc(self.ident()) }
            b'@' => { self.p += 1; Tok::Glob(self.ident()) }
            b'!' => { self.p += 1; Tok::Meta(self.ident()) }
            b'#' => { self.p += 1; Tok::Attr(self.ident()) }
            b'"' => Tok::Str(self.quoted()),
            b'c' if self.p + 1 < b.len() && b[self.p + 1] == b'"' => { self.p += 1; Tok::CStr(self.quoted()) }
            b'.' if self.s[self.p..].starts_with("...") => { self.p += 3; Tok::Ell }
            b'-' | b'0'..=b'9' => {
                let st = self.p;
                self.p += 1;
                while self.p < b.len() && (b[self.p].is_ascii_alphanumeric() || b[self.p] == b'.' || b[self.p] == b'+' || (b[self.p] == b'-' && (b[self.p - 1] == b'e'))) { self.p += 1; }
                Tok::Num(&self.s[st..self.p])
            }
            c if isid(c) => Tok::Word(self.ident()),
            c => { self.p += 1; Tok::P(c as char) }
        })
    }
    pub fn expect(&mut self, c: char) { let t = self.next(); if t != Some(Tok::P(c)) { panic!("expected {:?} got {:?} in: {}", c, t, &self.s[..self.s.len().min(300)]); } }
    pub fn eat(&mut self, c: char) -> bool { if self.peek() == Some(Tok::P(c)) { self.next(); true } else { false } }
    pub fn eatw(&mut self, w: &str) -> bool { if self.peek() == Some(Tok::Word(w)) { self.next(); true } else { false } }
    pub fn skip_parens(&mut self) {
        // at '('
        self.expect('(');
        let mut d = 1;
        while d > 0 { match self.next() { Some(Tok::P('(')) => d += 1, Some(Tok::P(')')) => d -= 1, None => panic!("eof in parens"), _ => {} } }
    }
}

pub fn align_of(t: &Ty) -> u64 {
    match t {
        Ty::Int(n) => { let b = ((*n as u64 + 7) / 8).next_power_of_two(); b.min(16) }
        Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
        Ty::Arr(_, t) => align_of(t),
        Ty::Struct(v, packed) => if *packed { 1 } else { v.iter().map(align_of).max().unwrap_or(1) },
        Ty::Vec(n, t) => (size_of(t) * n).next_power_of_two(),
        _ => 1,
    }
}
pub fn store_size(t: &Ty) -> u64 { match t { Ty::Int(n) => (*n as u64 + 7) / 8, _ => size_of(t) } }
pub fn size_of(t: &Ty) -> u64 {
    match t {
        Ty::Int(_) => { let a = align_of(t); (store_size(t) + a - 1) / a * a }
        Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
        Ty::Arr(n, t) => n * size_of(t),
        Ty::Struct(..) => { let (_, s) = fields(t); s }
        Ty::Vec(n, t) => match **t { Ty::Int(1) => (n + 7) / 8, _ => n * size_of(t) },
        _ => 0,
    }
}
pub fn fields(t: &Ty) -> (Vec<u64>, u64) {
    if let Ty::Struct(v, packed) = t {
        let mut o = 0; let mut r = vec![]; let mut ma = 1;
        for f in v {
            let a = if *packed { 1 } else { align_of(f) };
            ma = ma.max(a);
            o = (o + a - 1) / a * a; r.push(o); o += size_of(f);
        }
        (r, (o + ma - 1) / ma * ma)
    } else { panic!("fields of {:?}", t) }
}
pub fn flatten(t: &Ty, off: u64, out: &mut Vec<(u64, u32)>) {
    match t {
        Ty::Void | Ty::Label | Ty::Meta | Ty::Func => {}
        Ty::Int(n) => out.push((off, *n)),
        Ty::Ptr | Ty::F64 => out.push((off, 64)),
        Ty::F32 => out.push((off, 32)),
        Ty::Arr(n, e) | Ty::Vec(n, e) => { let s = size_of(e); for i in 0..*n { flatten(e, off + i * s, out); } }
        Ty::Struct(v, _) => { let (f, _) = fields(t); for (x, o) in v.iter().zip(f) { flatten(x, off + o, out); } }
    }
}
pub fn flat(t: &Ty) -> Vec<(u64, u32)> { let mut v = vec![]; flatten(t, 0, &mut v); v }
pub fn nflat(t: &Ty) -> usize {
    match t { Ty::Void | Ty::Label | Ty::Meta | Ty::Func => 0, Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => 1,
        Ty::Arr(n, e) | Ty::Vec(n, e) => *n as usize * nflat(e), Ty::Struct(v, _) => v.iter().map(nflat).sum() }
}

#[derive(Clone, Copy, Debug)]
pub enum Opd { R(u32), C(u128) }

use crate::expr::Op as X;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastK { Zext, Sext, Trunc }

#[derive(Debug)]
pub enum Ins {
    Bin { op: X, w: u32, d: u32, a: Opd, b: Opd },
    Cmp { p: Pred, w: u32, d: u32, a: Opd, b: Opd },
    Sel { w: u32, d: u32, c: Opd, a: Opd, b: Opd },
    Cast { k: CastK, fw: u32, tw: u32, d: u32, a: Opd },
    Copy { d: u32, a: Opd },
    Load { w: u32, d: u32, p: Opd, off: u64 },
    Store { w: u32, v: Opd, p: Opd, off: u64 },
    Gep { d: u32, base: Opd, cst: u64, terms: Box<[(Opd, u32, u64)]> },
    Alloca { d: u32, size: u64, align: u64 },
    /// bits of parts, low part first
    Pack { d: u32, parts: Box<[(Opd, u32)]> },
    Unpack { d: u32, a: Opd, aw: u32, lo: u32, w: u32 },
    Call { f: Callee, args: Box<[(Opd, u32)]>, d: u32, ret: Box<[u32]> },
    Rmw { op: &'static str, w: u32, d: u32, p: Opd, v: Opd },
    CmpXchg { w: u32, d: u32, p: Opd, old: Opd, new: Opd },
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u32, v: Opd, def: u32, cases: Box<[(u128, u32)]> },
    Ret(Box<[Opd]>),
    Unreachable,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ext(u32), Ind(Opd) }

pub struct Block { pub ins: Vec<(Ins, u32)>, pub phis: Vec<(u32, Box<[(u32, Opd)]>)>, pub name: String }
pub struct Func { pub idx: u32, pub name: String, pub nslots: u32, pub params: Vec<(u32, u32)>, pub blocks: Vec<Block>, pub base: u32 }

pub struct FnInfo<'a> { pub name: &'a str, pub head: &'a str, pub body: Option<&'a str>, pub addr: u64 }
pub struct GlobInfo { pub name: String, pub addr: u64, pub size: u64, pub constant: bool, pub data: Vec<u8> }

pub struct Module<'a> {
    pub fns: Vec<FnInfo<'a>>,
    pub fn_by_name: HashMap<&'a str, u32>,
    pub globs: Vec<GlobInfo>,
    pub glob_by_name: HashMap<&'a str, usize>,
    pub aliases: HashMap<&'a str, &'a str>,
    pub types: HashMap<&'a str, Ty>,
    pub meta: HashMap<u32, &'a str>,
    pub exts: std::cell::RefCell<(Vec<String>, HashMap<String, u32>)>,
}

pub const FN_BASE: u64 = 0x10_0000;
pub const GLOB_BASE: u64 = 0x1000_0000;

impl<'a> Module<'a> {
    pub fn parse(src: &'a str) -> Module<'a> {
        let mut m = Module { fns: vec![], fn_by_name: HashMap::new(), globs: vec![], glob_by_name: HashMap::new(), aliases: HashMap::new(), types: HashMap::new(), meta: HashMap::new(), exts: Default::default() };
        let mut globs: Vec<(&str, &str)> = vec![];
        let mut types: Vec<(&str, &str)> = vec![];
        let b = src.as_bytes();
        let mut p = 0;
        while p < b.len() {
            let e = memchr(b, p, b'\n');
            let line = &src[p..e];
            let start = p;
            p = e + 1;
            if line.is_empty() { continue; }
            match b[start] {
                b'!' => {
                    if line.len() > 1 && b[start + 1].is_ascii_digit() {
                        if let Some(i) = line.find(" = ") { if let Ok(n) = line[1..i].parse() { m.meta.insert(n, &line[i + 3..]); } }
                    }
                }
                b'@' => {
                    let mut lx = Lx::new(line);
                    if let Some(Tok::Glob(n)) = lx.next() { let i = line.find(" = ").unwrap(); globs.push((n, &line[i + 3..])); }
                }
                b'%' => {
                    let mut lx = Lx::new(line);
                    if let Some(Tok::Loc(n)) = lx.next() { let i = line.find(" = type ").unwrap(); types.push((n, &line[i + 8..])); }
                }
                b'd' if line.starts_with("define") => {
                    // body until line "}"
                    let bs = p;
                    let mut q = p;
                    loop { let e2 = memchr(b, q, b'\n'); if &src[q..e2] == "}" { m.add_fn(line, Some(&src[bs..q])); p = e2 + 1; break; } q = e2 + 1; }
                }
                b'd' if line.starts_with("declare") => m.add_fn(line, None),
                _ => {}
            }
        }
        for (n, t) in types { let mut lx = Lx::new(t); let ty = m.ty(&mut lx); m.types.insert(n, ty); }
        // assign addresses first
        let mut addr = GLOB_BASE;
        let mut inits: Vec<(usize, &str, Ty)> = vec![];
        for (n, rest) in globs {
            let mut lx = Lx::new(rest);
            let mut constant = false; let mut external = false; let mut alias = false;
            loop {
                match lx.peek() {
                    Some(Tok::Word("constant")) => { constant = true; lx.next(); break; }
                    Some(Tok::Word("global")) => { lx.next(); break; }
                    Some(Tok::Word("alias")) => { alias = true; break; }
                    Some(Tok::Word("external")) | Some(Tok::Word("extern_weak")) => { external = true; lx.next(); }
                    Some(Tok::P('(')) => lx.skip_parens(),
                    Some(_) => { lx.next(); }
                    None => panic!("global {}", n),
                }
            }
            if alias {
                let mut last = "";
                while let Some(t) = lx.next() { if let Tok::Glob(g) = t { last = g; } if t == Tok::P(',') && last != "" { break; } }
                m.aliases.insert(n, last);
                continue;
            }
            let ty = m.ty(&mut lx);
            let size = size_of(&ty);
            let al = rest.rfind(", align ").and_then(|i| rest[i + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse::<u64>().ok()).unwrap_or(align_of(&ty)).max(1);
            addr = (addr + al - 1) / al * al;
            let gi = m.globs.len();
            m.globs.push(GlobInfo { name: n.to_string(), addr, size, constant, data: vec![0; size as usize] });
            m.glob_by_name.insert(n, gi);
            addr += size.max(1) + 16;
            if !external {
                // remember position of the initializer
                let pos = rest.len() - lx.rest().len();
                inits.push((gi, &rest[pos..], ty));
            }
        }
        for (gi, txt, ty) in inits {
            let mut data = std::mem::take(&mut m.globs[gi].data);
            let mut lx = Lx::new(txt);
            m.write_const(&ty, &mut lx, &mut data, 0);
            m.globs[gi].data = data;
        }
        m
    }
    fn add_fn(&mut self, head: &'a str, body: Option<&'a str>) {
        let at = head.find('@').unwrap();
        let mut lx = Lx::new(&head[at..]);
        let name = match lx.next() { Some(Tok::Glob(n)) => n, _ => panic!() };
        let idx = self.fns.len() as u32;
        self.fns.push(FnInfo { name, head, body, addr: FN_BASE + idx as u64 * 16 });
        self.fn_by_name.insert(name, idx);
    }
    pub fn sym_addr(&self, n: &str) -> u64 {
        let mut n = n;
        while let Some(a) = self.aliases.get(n) { n = a; }
        if let Some(&g) = self.glob_by_name.get(n) { return self.globs[g].addr; }
        if let Some(&f) = self.fn_by_name.get(n) { return self.fns[f as usize].addr; }
        panic!("unknown symbol @{}", n)
    }
    pub fn ty(&self, lx: &mut Lx<'a>) -> Ty {
        let base = match lx.next() {
            Some(Tok::Word(w)) => match w {
                "void" => Ty::Void, "ptr" => Ty::Ptr, "float" => Ty::F32, "double" => Ty::F64, "label" => Ty::Label, "metadata" => Ty::Meta,
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => panic!("type word {} in {}", w, &lx.s[..lx.s.len().min(200)]),
            },
            Some(Tok::Loc(n)) => self.types.get(n).cloned().unwrap_or_else(|| panic!("type %{}", n)),
            Some(Tok::P('{')) => {
                let mut v = vec![];
                if !lx.eat('}') { loop { v.push(self.ty(lx)); if lx.eat('}') { break; } lx.expect(','); } }
                Ty::Struct(v, false)
            }
            Some(Tok::P('[')) => {
                let n = match lx.next() { Some(Tok::Num(n)) => n.parse().unwrap(), t => panic!("arr {:?}", t) };
                assert!(lx.eatw("x")); let t = self.ty(lx); lx.expect(']');
                Ty::Arr(n, Box::new(t))
            }
            Some(Tok::P('<')) => {
                if lx.eat('{') {
                    let mut v = vec![];
                    if !lx.eat('}') { loop { v.push(self.ty(lx)); if lx.eat('}') { break; } lx.expect(','); } }
                    lx.expect('>');
                    Ty::Struct(v, true)
                } else {
                    let n = match lx.next() { Some(Tok::Num(n)) => n.parse().unwrap(), t => panic!("vec {:?}", t) };
                    assert!(lx.eatw("x")); let t = self.ty(lx); lx.expect('>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            t => panic!("type {:?} in {}", t, &lx.s[..lx.s.len().min(200)]),
        };
        // function type:  void (ptr, ...)
        if lx.peek() == Some(Tok::P('(')) && !matches!(base, Ty::Label) { lx.skip_parens(); }
        base
    }
    fn write_const(&self, ty: &Ty, lx: &mut Lx<'a>, data: &mut [u8], off: u64) {
        let o = off as usize;
        match lx.peek() {
            Some(Tok::Word("zeroinitializer")) | Some(Tok::Word("undef")) | Some(Tok::Word("poison")) => { lx.next(); return; }
            _ => {}
        }
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let v = self.cscalar(ty, lx);
                let n = store_size(ty) as usize;
                data[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            Ty::Arr(n, e) => {
                if let Some(Tok::CStr(s)) = lx.peek() {
                    lx.next();
                    let b = s.as_bytes(); let mut i = 0; let mut k = o;
                    while i < b.len() {
                        if b[i] == b'\\' {
                            if b[i + 1] == b'\\' { data[k] = b'\\'; i += 2; } else { data[k] = u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap(); i += 3; }
                        } else { data[k] = b[i]; i += 1; }
                        k += 1;
                    }
                    return;
                }
                lx.expect('[');
                let s = size_of(e);
                for i in 0..*n { if i > 0 { lx.expect(','); } let t = self.ty(lx); self.write_const(&t, lx, data, off + i * s); }
                lx.expect(']');
            }
            Ty::Vec(n, e) => {
                if lx.eatw("splat") { lx.expect('('); let t = self.ty(lx); let v = self.cscalar(&t, lx); lx.expect(')'); let s = size_of(e); for i in 0..*n { let oo = (off + i * s) as usize; data[oo..oo + s as usize].copy_from_slice(&v.to_le_bytes()[..s as usize]); } return; }
                lx.expect('<');
                let s = size_of(e);
                for i in 0..*n { if i > 0 { lx.expect(','); } let t = self.ty(lx); self.write_const(&t, lx, data, off + i * s); }
                lx.expect('>');
            }
            Ty::Struct(_, packed) => {
                if *packed { lx.expect('<'); }
                lx.expect('{');
                let (f, _) = fields(ty);
                for (i, fo) in f.iter().enumerate() { if i > 0 { lx.expect(','); } let t = self.ty(lx); self.write_const(&t, lx, data, off + fo); }
                lx.expect('}');
                if *packed { lx.expect('>'); }
            }
            t => panic!("const of {:?}", t),
        }
    }
    /// constant scalar
    fn cscalar(&self, ty: &Ty, lx: &mut Lx<'a>) -> u128 {
        let w = match ty { Ty::Int(n) => *n, Ty::F32 => 32, _ => 64 };
        let m = crate::expr::mask(w);
        match lx.next() {
            Some(Tok::Num(n)) => {
                match ty {
                    Ty::F64 => if let Some(h) = n.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() as u128 } else { n.parse::<f64>().unwrap().to_bits() as u128 },
                    Ty::F32 => if let Some(h) = n.strip_prefix("0x") { (f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32).to_bits() as u128 } else { n.parse::<f32>().unwrap().to_bits() as u128 },
                    _ => if n.starts_with('-') { n.parse::<i128>().unwrap() as u128 & m } else { n.parse::<u128>().unwrap() & m },
                }
            }
            Some(Tok::Word(wd)) => match wd {
                "true" => 1, "false" | "null" | "undef" | "poison" | "zeroinitializer" => 0,
                "getelementptr" => {
                    while let Some(Tok::Word(x)) = lx.peek() { if ["inbounds", "nuw", "nusw", "inrange"].contains(&x) { lx.next(); if lx.peek() == Some(Tok::P('(')) && x == "inrange" { lx.skip_parens(); } } else { break; } }
                    lx.expect('(');
                    let t = self.ty(lx); lx.expect(',');
                    let pt = self.ty(lx); let mut a = self.cscalar(&pt, lx) as u64;
                    let mut cur: Option<Ty> = None;
                    while lx.eat(',') {
                        let it = self.ty(lx); let iw = if let Ty::Int(n) = it { n } else { 64 };
                        let v = crate::expr::sx(self.cscalar(&it, lx), iw) as i64;
                        a = a.wrapping_add(gep_step(&t, &mut cur, Some(v)).0);
                    }
                    lx.expect(')');
                    a as u128
                }
                "inttoptr" | "ptrtoint" | "trunc" | "zext" | "bitcast" | "sext" | "addrspacecast" => {
                    lx.expect('('); let t = self.ty(lx); let v = self.cscalar(&t, lx); assert!(lx.eatw("to")); let _ = self.ty(lx); lx.expect(')');
                    v & m
                }
                "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" | "lshr" => {
                    while let Some(Tok::Word(_)) = lx.peek() { lx.next(); }
                    lx.expect('('); let t = self.ty(lx); let a = self.cscalar(&t, lx); lx.expect(','); let t2 = self.ty(lx); let b = self.cscalar(&t2, lx); lx.expect(')');
                    let op = match wd { "add" => X::Add, "sub" => X::Sub, "xor" => X::Xor, "and" => X::And, "or" => X::Or, "mul" => X::Mul, "shl" => X::Shl, _ => X::LShr };
                    crate::expr::fold(op, w, a, b)
                }
                _ => panic!("const word {}", wd),
            },
            Some(Tok::Glob(g)) => self.sym_addr(g) as u128,
            t => panic!("const {:?} in {}", t, &lx.s[..lx.s.len().min(200)]),
        }
    }
    pub fn ext_id(&self, n: &str) -> u32 {
        let mut e = self.exts.borrow_mut();
        if let Some(&i) = e.1.get(n) { return i; }
        let i = e.0.len() as u32;
        e.0.push(n.to_string());
        e.1.insert(n.to_string(), i);
        i
    }
    /// (function subprogram name, file, line) chain, innermost first
    pub fn loc_chain(&self, id: u32) -> Vec<(String, String, u32)> {
        let mut r = vec![];
        let mut cur = id;
        let mut guard = 0;
        while cur != 0 && guard < 60 {
            guard += 1;
            let t = match self.meta.get(&cur) { Some(t) => *t, None => break };
            let line = mfield(t, "line: ").and_then(|x| x.parse().ok()).unwrap_or(0);
            let scope: u32 = mfield(t, "scope: !").and_then(|x| x.parse().ok()).unwrap_or(0);
            let (f, file) = self.scope_info(scope);
            r.push((f, file, line));
            cur = mfield(t, "inlinedAt: !").and_then(|x| x.parse().ok()).unwrap_or(0);
        }
        r
    }
    fn scope_info(&self, mut s: u32) -> (String, String) {
        let mut file = String::new();
        for _ in 0..40 {
            let t = match self.meta.get(&s) { Some(t) => *t, None => break };
            if file.is_empty() { if let Some(f) = mfield(t, "file: !").and_then(|x| x.parse::<u32>().ok()) { if let Some(ft) = self.meta.get(&f) {
                let n = mstr(ft, "filename: \""); let d = mstr(ft, "directory: \"");
                file = if n.starts_with('/') || d.is_empty() { n } else { format!("{}/{}", d, n) };
            } } }
            if t.contains("DISubprogram(") {
                let l = mstr(t, "linkageName: \"");
                let n = mstr(t, "name: \"");
                return (if l.is_empty() { n } else { format!("{}|{}", n, l) }, file);
            }
            s = match mfield(t, "scope: !").and_then(|x| x.parse().ok()) { Some(x) => x, None => break };
        }
        ("?".into(), file)
    }

    pub fn lower(&self, fi: u32) -> Func {
        let info = &self.fns[fi as usize];
        let body = info.body.expect("lower of declaration");
        let mut lw = Lower { m: self, slots: HashMap::new(), n: 0, blocks: HashMap::new(), order: vec![] };
        // params
        let at = info.head.find('@').unwrap();
        let mut lx = Lx::new(&info.head[at..]);
        lx.next();
        lx.expect('(');
        let mut params = vec![];
        let mut unnamed = 0u32;
        if !lx.eat(')') {
            loop {
                if lx.peek() == Some(Tok::Ell) { lx.next(); lx.expect(')'); break; }
                let t = self.ty(&mut lx);
                lw.skip_attrs(&mut lx);
                let nm = match lx.peek() { Some(Tok::Loc(n)) => { lx.next(); n.to_string() } _ => { let s = unnamed.to_string(); s } };
                if nm == unnamed.to_string() { unnamed += 1; }
                let k = nflat(&t) as u32;
                let s = lw.slot(&nm, k);
                params.push((s, k));
                if lx.eat(')') { break; }
                lx.expect(',');
            }
        }
        // split body into blocks of logical lines
        let mut blocks: Vec<(String, Vec<&str>)> = vec![];
        let bb = body.as_bytes();
        let mut p = 0;
        while p < body.len() {
            let mut e = memchr(bb, p, b'\n');
            let mut line = &body[p..e];
            let st = p;
            p = e + 1;
            let tl = line.trim_start();
            if tl.is_empty() || tl.starts_with(';') { continue; }
            if !line.starts_with(' ') {
                // label
                let mut l2 = line;
                if let Some(i) = l2.find(" ; preds") { l2 = &l2[..i]; }
                if let Some(i) = l2.find("; preds") { l2 = &l2[..i]; }
                let l2 = l2.trim_end();
                let l2 = l2.strip_suffix(':').unwrap_or_else(|| panic!("label {}", line));
                let l2 = l2.trim_matches('"');
                blocks.push((l2.to_string(), vec![]));
                continue;
            }
            if tl.starts_with("switch ") && line.ends_with('[') {
                loop { let e2 = memchr(bb, p, b'\n'); let l = body[p..e2].trim_start(); e = e2; p = e2 + 1; if l.starts_with(']') { break; } }
                line = &body[st..e];
            }
            if tl.starts_with("#dbg_") { continue; }
            if blocks.is_empty() { blocks.push((unnamed.to_string(), vec![])); }
            blocks.last_mut().unwrap().1.push(line);
        }
        for (i, (n, _)) in blocks.iter().enumerate() { lw.blocks.insert(n.clone(), i as u32); }
        lw.order = blocks.iter().map(|b| b.0.clone()).collect();
        let mut out = vec![];
        for (n, lines) in &blocks {
            let mut ins = vec![];
            let mut phis: Vec<(u32, Vec<(u32, Opd)>)> = vec![];
            for l in lines {
                let dbg = l.rfind("!dbg !").map(|i| l[i + 6..].bytes().take_while(|c| c.is_ascii_digit()).fold(0u32, |a, c| a * 10 + (c - b'0') as u32)).unwrap_or(0);
                let k0 = ins.len();
                lw.ins(l, &mut ins, &mut phis);
                for x in &mut ins[k0..] { x.1 = dbg; }
            }
            phis.sort_by_key(|p| p.0);
            out.push(Block { ins, phis: phis.into_iter().map(|(p, v)| (p, v.into_boxed_slice())).collect(), name: n.clone() });
        }
        Func { idx: fi, name: info.name.to_string(), nslots: lw.n, params, blocks: out, base: 0 }
    }
}

pub fn mfield<'b>(t: &'b str, k: &str) -> Option<&'b str> {
    let i = t.find(k)?;
    let r = &t[i + k.len()..];
    let e = r.bytes().position(|c| !c.is_ascii_digit()).unwrap_or(r.len());
    if e == 0 { None } else { Some(&r[..e]) }
}
fn mstr(t: &str, k: &str) -> String {
    match t.find(k) { Some(i) => { let r = &t[i + k.len()..]; r[..r.find('"').unwrap_or(0)].to_string() } None => String::new() }
}
fn memchr(b: &[u8], mut p: usize, c: u8) -> usize { while p < b.len() && b[p] != c { p += 1; } p }

impl<'a> Lx<'a> { pub fn rest(&mut self) -> &'a str { if self.peeked.is_some() { &self.s[self.pp..] } else { &self.s[self.p..] } } }

/// Advance through a GEP index. Returns (constant offset, scale if index is dynamic).
fn gep_step(t: &Ty, cur: &mut Option<Ty>, idx: Option<i64>) -> (u64, u64) {
    match cur.clone() {
        None => { *cur = Some(t.clone()); let s = size_of(t); match idx { Some(i) => ((i as u64).wrapping_mul(s), 0), None => (0, s) } }
        Some(Ty::Arr(_, e)) | Some(Ty::Vec(_, e)) => { let s = size_of(&e); *cur = Some(*e); match idx { Some(i) => ((i as u64).wrapping_mul(s), 0), None => (0, s) } }
        Some(st @ Ty::Struct(..)) => { let (f, _) = fields(&st); let i = idx.expect("dyn struct idx") as usize; if let Ty::Struct(v, _) = &st { *cur = Some(v[i].clone()); } (f[i], 0) }
        Some(t) => panic!("gep into {:?}", t),
    }
}

struct Lower<'m, 'a> { m: &'m Module<'a>, slots: HashMap<String, u32>, n: u32, blocks: HashMap<String, u32>, order: Vec<String> }

const CEXPR: &[&str] = &["true", "false", "null", "undef", "poison", "zeroinitializer", "splat", "getelementptr", "inttoptr", "ptrtoint", "trunc", "zext", "sext", "bitcast", "add", "sub", "xor", "and", "or", "mul", "shl", "lshr"];

impl<'m, 'a> Lower<'m, 'a> {
    fn slot(&mut self, n: &str, k: u32) -> u32 {
        if let Some(&s) = self.slots.get(n) { return s; }
        let s = self.n;
        self.n += k.max(1);
        self.slots.insert(n.to_string(), s);
        s
    }
    fn skip_attrs(&self, lx: &mut Lx<'a>) {
        loop {
            match lx.peek() {
                Some(Tok::Word(w)) if !CEXPR.contains(&w) => {
                    lx.next();
                    if w == "align" { if lx.peek() == Some(Tok::P('(')) { lx.skip_parens(); } else { lx.next(); } }
                    else if w == "byval" { panic!("byval"); }
                    else if lx.peek() == Some(Tok::P('(')) { lx.skip_parens(); }
                }
                Some(Tok::Str(_)) => { lx.next(); if lx.peek() == Some(Tok::P('=')) { lx.next(); lx.next(); } }
                _ => break,
            }
        }
    }
    fn operand(&mut self, t: &Ty, lx: &mut Lx<'a>, out: &mut Vec<Opd>) {
        match lx.peek() {
            Some(Tok::Loc(n)) => { lx.next(); let k = nflat(t) as u32; let s = self.slot(n, k); for i in 0..k { out.push(Opd::R(s + i)); } return; }
            Some(Tok::Word("undef")) | Some(Tok::Word("poison")) | Some(Tok::Word("zeroinitializer")) => { lx.next(); for _ in 0..nflat(t) { out.push(Opd::C(0)); } return; }
            _ => {}
        }
        match t {
            Ty::Struct(v, packed) => {
                if *packed { lx.expect('<'); }
                lx.expect('{');
                for i in 0..v.len() { if i > 0 { lx.expect(','); } let et = self.m.ty(lx); self.operand(&et, lx, out); }
                lx.expect('}');
                if *packed { lx.expect('>'); }
            }
            Ty::Arr(n, _) => {
                if let Some(Tok::CStr(_)) = lx.peek() { let mut d = vec![0u8; *n as usize]; self.m.write_const(t, lx, &mut d, 0); for x in d { out.push(Opd::C(x as u128)); } return; }
                lx.expect('[');
                for i in 0..*n { if i > 0 { lx.expect(','); } let et = self.m.ty(lx); self.operand(&et, lx, out); }
                lx.expect(']');
            }
            Ty::Vec(n, _) => {
                if lx.eatw("splat") { lx.expect('('); let et = self.m.ty(lx); let v = self.m.cscalar(&et, lx); lx.expect(')'); for _ in 0..*n { out.push(Opd::C(v)); } return; }
                lx.expect('<');
                for i in 0..*n { if i > 0 { lx.expect(','); } let et = self.m.ty(lx); self.operand(&et, lx, out); }
                lx.expect('>');
            }
            _ => { let v = self.m.cscalar(t, lx); out.push(Opd::C(v)); }
        }
    }
    fn tyop(&mut self, lx: &mut Lx<'a>) -> (Ty, Vec<Opd>) {
        let t = self.m.ty(lx);
        self.skip_attrs(lx);
        let mut o = vec![];
        self.operand(&t, lx, &mut o);
        (t, o)
    }
    fn label(&mut self, lx: &mut Lx<'a>) -> u32 {
        assert!(lx.eatw("label"));
        match lx.next() { Some(Tok::Loc(n)) => *self.blocks.get(n).unwrap_or_else(|| panic!("no block {}", n)), t => panic!("label {:?}", t) }
    }
    fn agg_index(&self, t: &Ty, idx: &[u64]) -> (u32, Ty) {
        let mut o = 0; let mut t = t.clone();
        for &i in idx {
            let nt = match &t {
                Ty::Struct(v, _) => { for f in &v[..i as usize] { o += nflat(f) as u32; } v[i as usize].clone() }
                Ty::Arr(_, e) => { o += i as u32 * nflat(e) as u32; (**e).clone() }
                _ => panic!(),
            };
            t = nt;
        }
        (o, t)
    }
    fn ins(&mut self, l: &'a str, out: &mut Vec<(Ins, u32)>, phis: &mut Vec<(u32, Vec<(u32, Opd)>)>) {
        let mut lx = Lx::new(l);
        let mut dst: Option<&str> = None;
        if let Some(Tok::Loc(n)) = lx.peek() { lx.next(); lx.expect('='); dst = Some(n); }
        let mut op = match lx.next() { Some(Tok::Word(w)) => w, t => panic!("ins {:?}: {}", t, l) };
        if op == "tail" || op == "musttail" || op == "notail" { lx.next(); op = "call"; }
        macro_rules! emit { ($e:expr) => { out.push(($e, 0)) } }
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while let Some(Tok::Word(w)) = lx.peek() { if ["nuw", "nsw", "exact", "disjoint"].contains(&w) { lx.next(); } else { break; } }
                let (t, a) = self.tyop(&mut lx); lx.expect(',');
                let mut b = vec![]; self.operand(&t, &mut lx, &mut b);
                let w = flat(&t)[0].1;
                let d = self.slot(dst.unwrap(), a.len() as u32);
                let x = match op { "add" => X::Add, "sub" => X::Sub, "mul" => X::Mul, "udiv" => X::UDiv, "sdiv" => X::SDiv, "urem" => X::URem, "srem" => X::SRem, "and" => X::And, "or" => X::Or, "xor" => X::Xor, "shl" => X::Shl, "lshr" => X::LShr, _ => X::AShr };
                for i in 0..a.len() { emit!(Ins::Bin { op: x, w, d: d + i as u32, a: a[i], b: b[i] }); }
            }
            "icmp" => {
                while lx.eatw("samesign") {}
                let p = match lx.next() { Some(Tok::Word(p)) => match p { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, _ => panic!() }, _ => panic!() };
                let (t, a) = self.tyop(&mut lx); lx.expect(',');
                let mut b = vec![]; self.operand(&t, &mut lx, &mut b);
                let w = flat(&t)[0].1;
                let d = self.slot(dst.unwrap(), a.len() as u32);
                for i in 0..a.len() { emit!(Ins::Cmp { p, w, d: d + i as u32, a: a[i], b: b[i] }); }
            }
            "select" => {
                let (_, c) = self.tyop(&mut lx); lx.expect(',');
                let (t, a) = self.tyop(&mut lx); lx.expect(',');
                let (_, b) = self.tyop(&mut lx);
                let f = flat(&t);
                let d = self.slot(dst.unwrap(), a.len() as u32);
                for i in 0..a.len() { emit!(Ins::Sel { w: f[i].1, d: d + i as u32, c: if c.len() == 1 { c[0] } else { c[i] }, a: a[i], b: b[i] }); }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                while let Some(Tok::Word(w)) = lx.peek() { if ["nneg", "nuw", "nsw"].contains(&w) { lx.next(); } else { break; } }
                let (t, a) = self.tyop(&mut lx);
                assert!(lx.eatw("to"));
                let t2 = self.m.ty(&mut lx);
                let (fw, tw) = (flat(&t)[0].1, flat(&t2)[0].1);
                let d = self.slot(dst.unwrap(), a.len() as u32);
                for i in 0..a.len() {
                    let d = d + i as u32;
                    if fw == tw { emit!(Ins::Copy { d, a: a[i] }); }
                    else { emit!(Ins::Cast { k: if fw > tw { CastK::Trunc } else if op == "sext" { CastK::Sext } else { CastK::Zext }, fw, tw, d, a: a[i] }); }
                }
            }
            "freeze" => { let (_, a) = self.tyop(&mut lx); let d = self.slot(dst.unwrap(), a.len() as u32); for i in 0..a.len() { emit!(Ins::Copy { d: d + i as u32, a: a[i] }); } }
            "bitcast" => {
                let (t, a) = self.tyop(&mut lx);
                assert!(lx.eatw("to"));
                let t2 = self.m.ty(&mut lx);
                let (f1, f2) = (flat(&t), flat(&t2));
                let d = self.slot(dst.unwrap(), f2.len() as u32);
                if f1.len() == f2.len() { for i in 0..a.len() { emit!(Ins::Copy { d: d + i as u32, a: a[i] }); } }
                else if f2.len() == 1 { emit!(Ins::Pack { d, parts: a.iter().zip(&f1).map(|(o, f)| (*o, f.1)).collect() }); }
                else {
                    // pack to total then unpack
                    let tot: u32 = f1.iter().map(|x| x.1).sum();
                    let tmp = self.n; self.n += 1;
                    if tot <= 128 {
                        emit!(Ins::Pack { d: tmp, parts: a.iter().zip(&f1).map(|(o, f)| (*o, f.1)).collect() });
                        let mut lo = 0;
                        for (i, f) in f2.iter().enumerate() { emit!(Ins::Unpack { d: d + i as u32, a: Opd::R(tmp), aw: tot, lo, w: f.1 }); lo += f.1; }
                    } else { emit!(Ins::Unsupported(l.to_string())); }
                }
            }
            "getelementptr" => {
                while let Some(Tok::Word(w)) = lx.peek() { if ["inbounds", "nuw", "nusw"].contains(&w) { lx.next(); } else { break; } }
                let t = self.m.ty(&mut lx); lx.expect(',');
                let (_, base) = self.tyop(&mut lx);
                assert!(base.len() == 1);
                let mut cur = None; let mut cst = 0u64; let mut terms = vec![];
                while lx.peek() == Some(Tok::P(',')) {
                    lx.next();
                    if let Some(Tok::Meta(_)) = lx.peek() { break; }
                    let (it, o) = self.tyop(&mut lx);
                    let iw = flat(&it)[0].1;
                    match o[0] {
                        Opd::C(v) => cst = cst.wrapping_add(gep_step(&t, &mut cur, Some(crate::expr::sx(v, iw) as i64)).0),
                        r => { let (_, s) = gep_step(&t, &mut cur, None); terms.push((r, iw, s)); }
                    }
                }
                let d = self.slot(dst.unwrap(), 1);
                emit!(Ins::Gep { d, base: base[0], cst, terms: terms.into_boxed_slice() });
            }
            "load" => {
                while let Some(Tok::Word(w)) = lx.peek() { if ["volatile", "atomic"].contains(&w) { lx.next(); } else { break; } }
                let t = self.m.ty(&mut lx); lx.expect(',');
                let (_, p) = self.tyop(&mut lx);
                let f = flat(&t);
                let d = self.slot(dst.unwrap(), f.len() as u32);
                for (i, (o, w)) in f.iter().enumerate() { emit!(Ins::Load { w: *w, d: d + i as u32, p: p[0], off: *o }); }
            }
            "store" => {
                while let Some(Tok::Word(w)) = lx.peek() { if ["volatile", "atomic"].contains(&w) { lx.next(); } else { break; } }
                let (t, v) = self.tyop(&mut lx); lx.expect(',');
                let (_, p) = self.tyop(&mut lx);
                for (i, (o, w)) in flat(&t).iter().enumerate() { emit!(Ins::Store { w: *w, v: v[i], p: p[0], off: *o }); }
            }
            "alloca" => {
                let t = self.m.ty(&mut lx);
                let mut al = align_of(&t);
                if let Some(i) = l.find(", align ") { al = l[i + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap(); }
                let d = self.slot(dst.unwrap(), 1);
                emit!(Ins::Alloca { d, size: size_of(&t), align: al });
            }
            "extractvalue" => {
                let (t, a) = self.tyop(&mut lx);
                let mut idx = vec![];
                while lx.eat(',') { if let Some(Tok::Num(n)) = lx.peek() { lx.next(); idx.push(n.parse().unwrap()); } else { break; } }
                let (o, et) = self.agg_index(&t, &idx);
                let k = nflat(&et) as u32;
                let d = self.slot(dst.unwrap(), k);
                for i in 0..k { emit!(Ins::Copy { d: d + i, a: a[(o + i) as usize] }); }
            }
            "insertvalue" => {
                let (t, a) = self.tyop(&mut lx); lx.expect(',');
                let (_, v) = self.tyop(&mut lx);
                let mut idx = vec![];
                while lx.eat(',') { if let Some(Tok::Num(n)) = lx.peek() { lx.next(); idx.push(n.parse().unwrap()); } else { break; } }
                let (o, _) = self.agg_index(&t, &idx);
                let d = self.slot(dst.unwrap(), a.len() as u32);
                for i in 0..a.len() as u32 { let src = if i >= o && i < o + v.len() as u32 { v[(i - o) as usize] } else { a[i as usize] }; emit!(Ins::Copy { d: d + i, a: src }); }
            }
            "extractelement" => {
                let (_, a) = self.tyop(&mut lx); lx.expect(',');
                let (_, i) = self.tyop(&mut lx);
                let d = self.slot(dst.unwrap(), 1);
                match i[0] { Opd::C(k) => emit!(Ins::Copy { d, a: a[k as usize] }), _ => emit!(Ins::Unsupported(l.to_string())) }
            }
            "insertelement" => {
                let (_, a) = self.tyop(&mut lx); lx.expect(',');
                let (_, v) = self.tyop(&mut lx); lx.expect(',');
                let (_, i) = self.tyop(&mut lx);
                let d = self.slot(dst.unwrap(), a.len() as u32);
                match i[0] { Opd::C(k) => for j in 0..a.len() { emit!(Ins::Copy { d: d + j as u32, a: if j as u128 == k { v[0] } else { a[j] } }) }, _ => emit!(Ins::Unsupported(l.to_string())) }
            }
            "shufflevector" => {
                let (_, a) = self.tyop(&mut lx); lx.expect(',');
                let (_, b) = self.tyop(&mut lx); lx.expect(',');
                let (_, mk) = self.tyop(&mut lx);
                let d = self.slot(dst.unwrap(), mk.len() as u32);
                for (j, m) in mk.iter().enumerate() {
                    let k = match m { Opd::C(k) => *k as usize, _ => panic!() };
                    emit!(Ins::Copy { d: d + j as u32, a: if k < a.len() { a[k] } else { b[k - a.len()] } });
                }
            }
            "phi" => {
                let t = self.m.ty(&mut lx);
                let k = nflat(&t) as u32;
                let d = self.slot(dst.unwrap(), k);
                loop {
                    lx.expect('[');
                    let mut v = vec![]; self.operand(&t, &mut lx, &mut v);
                    lx.expect(',');
                    let b = match lx.next() { Some(Tok::Loc(n)) => self.blocks[n], t => panic!("{:?}", t) };
                    lx.expect(']');
                    let e = match phis.iter_mut().find(|p| p.0 == b) { Some(e) => e, None => { phis.push((b, vec![])); phis.last_mut().unwrap() } };
                    for i in 0..k { if !e.1.iter().any(|x| x.0 == d + i) { e.1.push((d + i, v[i as usize])); } }
                    if lx.peek() == Some(Tok::P(',')) { lx.next(); if lx.peek() != Some(Tok::P('[')) { break; } } else { break; }
                }
            }
            "br" => {
                if lx.peek() == Some(Tok::Word("label")) { let b = self.label(&mut lx); emit!(Ins::Br(b)); }
                else {
                    let (_, c) = self.tyop(&mut lx); lx.expect(',');
                    let t = self.label(&mut lx); lx.expect(',');
                    let f = self.label(&mut lx);
                    emit!(Ins::CondBr { c: c[0], t, f });
                }
            }
            "switch" => {
                let (t, v) = self.tyop(&mut lx); lx.expect(',');
                let def = self.label(&mut lx);
                lx.expect('[');
                let mut cases = vec![];
                while !lx.eat(']') {
                    let ct = self.m.ty(&mut lx); let k = self.m.cscalar(&ct, &mut lx); lx.expect(',');
                    let b = self.label(&mut lx);
                    cases.push((k, b));
                }
                emit!(Ins::Switch { w: flat(&t)[0].1, v: v[0], def, cases: cases.into_boxed_slice() });
            }
            "ret" => {
                if lx.peek() == Some(Tok::Word("void")) { emit!(Ins::Ret(Box::new([]))); }
                else { let (_, v) = self.tyop(&mut lx); emit!(Ins::Ret(v.into_boxed_slice())); }
            }
            "unreachable" => emit!(Ins::Unreachable),
            "fence" => {}
            "atomicrmw" => {
                lx.eatw("volatile");
                let o = match lx.next() { Some(Tok::Word(w)) => w, _ => panic!() };
                let (_, p) = self.tyop(&mut lx); lx.expect(',');
                let (t, v) = self.tyop(&mut lx);
                let d = self.slot(dst.unwrap(), 1);
                let o = match o { "add" => "add", "sub" => "sub", "xchg" => "xchg", "and" => "and", "or" => "or", "xor" => "xor", _ => { emit!(Ins::Unsupported(l.to_string())); return; } };
                emit!(Ins::Rmw { op: o, w: flat(&t)[0].1, d, p: p[0], v: v[0] });
            }
            "cmpxchg" => {
                while let Some(Tok::Word(w)) = lx.peek() { if ["weak", "volatile"].contains(&w) { lx.next(); } else { break; } }
                let (_, p) = self.tyop(&mut lx); lx.expect(',');
                let (t, o) = self.tyop(&mut lx); lx.expect(',');
                let (_, n) = self.tyop(&mut lx);
                let d = self.slot(dst.unwrap(), 2);
                emit!(Ins::CmpXchg { w: flat(&t)[0].1, d, p: p[0], old: o[0], new: n[0] });
            }
            "call" => self.call(dst, l, &mut lx, out),
            _ => emit!(Ins::Unsupported(l.trim().to_string())),
        }
    }
    fn call(&mut self, dst: Option<&str>, l: &'a str, lx: &mut Lx<'a>, out: &mut Vec<(Ins, u32)>) {
        // skip cc / attrs until type start
        loop {
            match lx.peek() {
                Some(Tok::Word(w)) if w == "void" || w == "ptr" || w == "float" || w == "double" || (w.starts_with('i') && w[1..].parse::<u32>().is_ok()) => break,
                Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) | Some(Tok::Loc(_)) => break,
                Some(Tok::P('(')) => lx.skip_parens(),
                Some(Tok::Word("asm")) => break,
                Some(_) => { lx.next(); }
                None => panic!("call {}", l),
            }
        }
        let rt = self.m.ty(lx);
        if let Some(Tok::Word("asm")) = lx.peek() {
            // empty asm = compiler barrier (black_box)
            out.push((Ins::Unsupported(format!("asm: {}", l.trim())), 0));
            return;
        }
        let mut callee: Result<&str, Opd> = Ok("");
        match lx.next() {
            Some(Tok::Glob(g)) => callee = Ok(g),
            Some(Tok::Loc(n)) => { let s = self.slot(n, 1); callee = Err(Opd::R(s)); }
            Some(Tok::Word("inttoptr")) => { out.push((Ins::Unsupported(l.to_string()), 0)); return; }
            t => panic!("callee {:?} in {}", t, l),
        }
        lx.expect('(');
        let mut args = vec![];
        if !lx.eat(')') {
            loop {
                let t = self.m.ty(lx);
                if t == Ty::Meta { // skip
                    let mut d = 0;
                    loop { match lx.peek() { Some(Tok::P('(')) => { d += 1; lx.next(); } Some(Tok::P(')')) => { if d == 0 { break; } d -= 1; lx.next(); } Some(Tok::P(',')) if d == 0 => break, None => panic!(), _ => { lx.next(); } } }
                } else {
                    self.skip_attrs(lx);
                    let mut o = vec![];
                    self.operand(&t, lx, &mut o);
                    for (x, f) in o.iter().zip(flat(&t)) { args.push((*x, f.1)); }
                }
                if lx.eat(')') { break; }
                lx.expect(',');
            }
        }
        let ret: Vec<u32> = flat(&rt).iter().map(|f| f.1).collect();
        let d = if let Some(n) = dst { self.slot(n, ret.len() as u32) } else { u32::MAX };
        let f = match callee {
            Ok(mut g) => {
                while let Some(a) = self.m.aliases.get(g) { g = a; }
                if g.starts_with("llvm.lifetime") || g.starts_with("llvm.dbg") || g.starts_with("llvm.assume") || g.starts_with("llvm.experimental.noalias") || g.starts_with("llvm.invariant") { return; }
                match self.m.fn_by_name.get(g) {
                    Some(&i) if self.m.fns[i as usize].body.is_some() => Callee::Fn(i),
                    _ => Callee::Ext(self.m.ext_id(g)),
                }
            }
            Err(o) => Callee::Ind(o),
        };
        out.push((Ins::Call { f, args: args.into_boxed_slice(), d, ret: ret.into_boxed_slice() }, 0));
    }
}
