//! Symbolic executor: states, memory, instructions, path forking.
use crate::expr::*;
use crate::ll::{self, Callee, CastK, Func, Ins, Module, Opd, Pred};
use crate::z3::{Sat, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, Debug)]
pub enum V { C(u128), S(E) }

#[derive(Clone)]
pub struct Obj { pub base: u64, pub size: u64, pub symsize: E, pub data: Vec<u8>, pub sym: Option<Vec<E>>, pub ro: bool, pub alive: bool,
    /// bytes from here on have never been written
    pub init: u64 }

#[derive(Clone, Copy, PartialEq)]
pub enum Reg { Glob, Heap, Stack }

pub const HEAP_BASE: u64 = 0x10_0000_0000;
pub const STACK_BASE: u64 = 0x7000_0000_0000;
const BACKING_CAP: u64 = 1 << 20;

#[derive(Clone)]
pub struct Frame { f: &'static Func, blk: u32, ip: u32, base: u32, smark: u32, sp: u64, ret_d: u32 }

#[derive(Clone)]
pub enum Inp { Bytes(u32, u32), Choice(u64) }

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>, regs: Vec<V>,
    globs: Rc<Vec<Rc<Obj>>>, heap: Vec<Rc<Obj>>, stack: Vec<Rc<Obj>>,
    heap_next: u64, sp: u64,
    pub cons: Vec<E>, pub model: Rc<Model>,
    pub inputs: Vec<Inp>, nvars: u32, pub logs: Vec<V>,
    steps: u64, alloc_limit: u64, pending: Option<u64>,
    pub depth: u32,
    allocated: u64, errno: u64,
}

pub enum Stop { Done, Kill, Violation(String), Inconclusive(String) }
type R<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Viol { pub msg: String, pub stack: Vec<String>, pub inputs: String, pub logs: String }
#[derive(Clone)]
pub struct Trace { pub inputs: String, pub logs: String }

#[derive(Default)]
pub struct Stats {
    pub done: u64, pub killed: u64, pub violated: u64, pub forks: u64, pub steps: u64, pub asserts: u64, pub asserts_sym: u64,
    pub cache_hits: u64, pub max_vars: u32, pub branches_sym: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum B {
    Malloc, Calloc, Realloc, Free, PosixMemalign, AlignedAlloc, Memcmp, Bcmp, Strlen, Memchr, Memcpy, Memset, Nop, RetZero, Abort, Errno,
    SymU8s, SymAssume, SymAssert, SymLog, SymChoose, SymConc, SymCover, SymParam, SymIsSym, SymAllocLimit, SymSame,
    UMin, UMax, SMin, SMax, USubSat, UAddSat, UAddO, USubO, UMulO, SAddO, SSubO, SMulO, Bswap, BitRev, Fshl, Fshr, Ctlz, Cttz, Ctpop, Abs, Ucmp, Scmp, IsConst, Tls, Expect,
    LoadRel, ReduceOr, ReduceAnd, ReduceAdd, Getrandom, Write, Pmovmskb, Unknown,
}

pub struct Exec<'m> {
    pub ar: Arena, pub z3: Z3, pub m: &'m Module<'m>,
    funcs: Vec<Option<&'static Func>>, panic_fn: Vec<u8>,
    builtins: Vec<B>,
    base_globs: Rc<Vec<Rc<Obj>>>,
    pub work: Vec<State>,
    pub stats: Stats,
    pub viols: Vec<Viol>, viol_keys: HashMap<String, u32>,
    pub traces: Vec<Trace>, pub inconclusive: BTreeMap<String, u64>, pub covers: BTreeMap<String, u64>,
    pub covered: HashSet<(u32, u32)>,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u8)>>>,
    pub params: Vec<u64>,
    pub deadline: Instant, pub first_viol: *const std::sync::atomic::AtomicU64, pub started: Instant, pub max_steps: u64, pub max_traces: usize, pub max_viols: usize,
    pub fork_sites: BTreeMap<(u32, u32, u32), u64>,
    pub query_sites: BTreeMap<String, (u64, u64)>,
    pub profile: bool, tick: u64,
}

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module<'m>, rlimit: u32, deadline: Instant) -> Self {
        let globs: Vec<Rc<Obj>> = m.globs.iter().map(|g| Rc::new(Obj { base: g.addr, size: g.size, symsize: 0, data: g.data.clone(), sym: None, ro: g.constant, alive: true, init: g.data.len() as u64 })).collect();
        let n = m.fns.len();
        let panic_fn = m.fns.iter().map(|f| {
            let n = f.name;
            let k = ["9panicking9panic_fmt", "panic_nounwind", "19panic_cannot_unwind", "rust_panic", "handle_alloc_error", "rust_begin_unwind", "begin_panic_handler", "18handle_alloc_error", "7process5abort", "14abort_internal", "rust_oom", "panic_impl", "panic_null_pointer_dereference", "panic_misaligned"];
            k.iter().any(|x| n.contains(x)) as u8
        }).collect();
        Exec {
            ar: Arena::new(), z3: Z3::new(rlimit), m, funcs: (0..n).map(|_| None).collect(), panic_fn, builtins: vec![],
            base_globs: Rc::new(globs), work: vec![], stats: Stats::default(), viols: vec![], viol_keys: HashMap::new(), traces: vec![], inconclusive: BTreeMap::new(), covers: BTreeMap::new(),
            covered: HashSet::new(), cache: HashMap::new(), params: vec![], deadline, first_viol: std::ptr::null(), started: Instant::now(), max_steps: 40_000_000, max_traces: 40, max_viols: 9, fork_sites: BTreeMap::new(), query_sites: BTreeMap::new(), profile: false, tick: 0,
        }
    }
    fn func(&mut self, i: u32) -> &'static Func {
        if let Some(f) = self.funcs[i as usize] { return f; }
        let f: &'static Func = Box::leak(Box::new(self.m.lower(i)));
        self.funcs[i as usize] = Some(f);
        f
    }
    pub fn start(&mut self, name: &str) -> Result<(), String> {
        let fi = *self.m.fn_by_name.get(name).ok_or_else(|| format!("no harness function {}", name))?;
        if self.m.fns[fi as usize].body.is_none() { return Err(format!("{} has no body", name)); }
        let f = self.func(fi);
        let mut st = State {
            frames: vec![], regs: vec![], globs: self.base_globs.clone(), heap: vec![], stack: vec![], heap_next: HEAP_BASE, sp: STACK_BASE,
            cons: vec![], model: Rc::new(Model::new(vec![])), inputs: vec![], nvars: 0, logs: vec![], steps: 0, alloc_limit: u64::MAX, pending: None, depth: 0, allocated: 0, errno: 0,
        };
        st.regs.resize(f.nslots as usize, V::C(0));
        st.frames.push(Frame { f, blk: 0, ip: 0, base: 0, smark: 0, sp: STACK_BASE, ret_d: u32::MAX });
        self.work.push(st);
        Ok(())
    }
    // ---------- values
    fn mk(&self, e: E) -> V { match self.ar.cval(e) { Some(c) => V::C(c), None => V::S(e) } }
    fn e(&mut self, v: V, w: u32) -> E { match v { V::C(c) => self.ar.konst(c, w), V::S(e) => e } }
    fn get(&self, st: &State, o: Opd) -> V { match o { Opd::C(c) => V::C(c), Opd::R(r) => unsafe { *st.regs.get_unchecked(st.frames.last().unwrap_unchecked().base as usize + r as usize) } } }
    fn set(&self, st: &mut State, d: u32, v: V) { let b = st.frames.last().unwrap().base; st.regs[(b + d) as usize] = v; }
    fn bin(&mut self, op: Op, w: u32, a: V, b: V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) { return V::C(fold(op, w, x, y)); }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.ar.bin(op, x, y);
        self.mk(r)
    }
    fn cmp(&mut self, p: Pred, w: u32, a: V, b: V) -> V {
        let (op, sw, neg) = match p {
            Pred::Eq => (Op::Eq, false, false), Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false), Pred::Ule => (Op::Ule, false, false), Pred::Ugt => (Op::Ult, true, false), Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false), Pred::Sle => (Op::Sle, false, false), Pred::Sgt => (Op::Slt, true, false), Pred::Sge => (Op::Sle, true, false),
        };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        if let (V::C(x), V::C(y)) = (a, b) { return V::C(fold(op, w, x, y) ^ neg as u128); }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let mut r = self.ar.cmp(op, x, y);
        if neg { r = self.ar.not1(r); }
        self.mk(r)
    }
    fn zext(&mut self, v: V, fw: u32, tw: u32) -> V { match v { V::C(c) => V::C(c), V::S(e) => { let _ = fw; let r = self.ar.zext(e, tw); self.mk(r) } } }
    fn ite(&mut self, c: E, w: u32, a: V, b: V) -> V { let (x, y) = (self.e(a, w), self.e(b, w)); let r = self.ar.ite(c, x, y); self.mk(r) }
    fn extr(&mut self, v: V, lo: u32, w: u32) -> V { match v { V::C(c) => V::C((c >> lo) & mask(w)), V::S(e) => { let r = self.ar.extract(e, lo, w); self.mk(r) } } }

    // ---------- solver
    fn slice(&self, st: &State, q: E) -> Vec<E> {
        let mut s = self.ar.sup[q as usize];
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, &c) in st.cons.iter().enumerate() {
                if used[i] { continue; }
                let cs = &self.ar.sup[c as usize];
                if (0..5).any(|k| cs[k] & s[k] != 0) { used[i] = true; for k in 0..5 { s[k] |= cs[k]; } ch = true; }
            }
            if !ch { break; }
        }
        // in the order of the path
        st.cons.iter().zip(used).filter(|x| x.1).map(|x| *x.0).collect()
    }
    /// Is `q` satisfiable together with the path condition?  Some(model) if so.
    pub fn feasible(&mut self, st: &State, q: E) -> R<Option<Rc<Model>>> {
        if let Some(v) = self.ar.cval(q) { return Ok(if v == 1 { Some(st.model.clone()) } else { None }); }
        if self.ar.eval(q, &st.model) == 1 { return Ok(Some(st.model.clone())); }
        let nq = self.ar.not1(q);
        if st.cons.contains(&nq) { return Ok(None); }
        let sl = self.slice(st, q);
        // constraints about nothing but what the question is about: what they rule out is ruled out
        let qs = self.ar.sup[q as usize];
        let few: Vec<E> = sl.iter().copied().filter(|&c| { let s = &self.ar.sup[c as usize]; (0..5).all(|k| s[k] & !qs[k] == 0) }).collect();
        if few.len() < sl.len() {
            match self.ask(st, few, q)? {
                None => return Ok(None),
                Some(m) => {
                    let nm = Self::patched(st, &m);
                    if sl.iter().all(|&c| self.ar.eval(c, &nm) == 1) && self.ar.eval(q, &nm) == 1 { return Ok(Some(nm)); }
                }
            }
        }
        let r = self.ask(st, sl, q)?;
        Ok(r.map(|m| {
            let nm = Self::patched(st, &m);
            if self.ar.eval(q, &nm) != 1 { eprintln!("engine error: model does not satisfy query {}", self.ar.show(q, 6)); std::process::exit(3); }
            nm
        }))
    }
    fn patched(st: &State, m: &[(u32, u8)]) -> Rc<Model> {
        let mut v = st.model.v.clone();
        for &(i, b) in m { if v.len() <= i as usize { v.resize(i as usize + 1, 0); } v[i as usize] = b; }
        Rc::new(Model::new(v))
    }
    /// Ask the solver (or the memory of what it said) whether `q` can hold together with `sl`.
    fn ask(&mut self, st: &State, mut sl: Vec<E>, q: E) -> R<Option<Vec<(u32, u8)>>> {
        sl.push(q);
        let mut key = sl.clone();
        key.sort(); key.dedup();
        Ok(if let Some(r) = self.cache.get(&key) { self.stats.cache_hits += 1; r.clone() } else {
            if self.over() { return Err(Stop::Inconclusive("time limit".into())); }
            let mut want = vec![];
            let mut s = [0u64; 5];
            for &c in &sl { for k in 0..5 { s[k] |= self.ar.sup[c as usize][k]; } }
            for i in 0..MAXVARS as u32 { if s[(i / 64) as usize] >> (i % 64) & 1 == 1 { want.push(i); } }
            let t0 = self.z3.ns;
            let (r, m) = self.z3.check(&self.ar, &sl, &want);
            if self.profile { let k = self.stack_trace(st).into_iter().take(14).collect::<Vec<_>>().join(" < "); let q = self.query_sites.entry(format!("{} | {}", k, self.ar.show(*sl.last().unwrap(), 7))).or_insert((0, 0)); q.0 += 1; q.1 += self.z3.ns - t0; }
            if self.profile && self.z3.ns - t0 > 50_000_000 { eprintln!("slow query: {} ms, {} constraints, {:?}, at {}", (self.z3.ns - t0) / 1_000_000, sl.len(), r, self.stack_trace(st).into_iter().take(8).collect::<Vec<_>>().join(" < ")); }
            let r = match r { Sat::Sat => Some(m), Sat::Unsat => None, Sat::Unknown => return Err(Stop::Inconclusive("solver resource limit".into())) };
            if self.cache.len() > 400_000 { self.cache.clear(); }
            self.cache.insert(key, r.clone());
            r
        })
    }
    /// Decide a condition on this path, forking the other way if both are possible.
    fn decide(&mut self, st: &mut State, c: V) -> R<bool> {
        let c = match c { V::C(v) => return Ok(v & 1 == 1), V::S(e) => e };
        if st.cons.contains(&c) { return Ok(true); }
        let nc = self.ar.not1(c);
        if st.cons.contains(&nc) { return Ok(false); }
        self.stats.branches_sym += 1;
        let v = self.ar.eval(c, &st.model) == 1;
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        if let Some(m) = self.feasible(st, other)? {
            let mut o = st.clone();
            o.cons.push(other);
            o.model = m;
            o.depth += 1;
            self.stats.forks += 1;
            if self.profile { let f = st.frames.last().unwrap(); *self.fork_sites.entry((f.f.idx, f.blk, f.ip)).or_insert(0) += 1; }
            self.work.push(o);
            st.cons.push(mine);
            st.depth += 1;
        }
        Ok(v)
    }
    fn concretize(&mut self, st: &mut State, v: V, w: u32) -> R<u128> {
        match v {
            V::C(c) => Ok(c),
            V::S(e) => {
                let x = self.ar.eval(e, &st.model);
                let k = self.ar.konst(x, w);
                let q = self.ar.cmp(Op::Eq, e, k);
                let q = self.mk(q);
                if self.decide(st, q)? { Ok(x) } else { unreachable!() }
            }
        }
    }
    // ---------- memory
    fn obj<'s>(&self, st: &'s State, r: Reg, i: usize) -> &'s Rc<Obj> { match r { Reg::Glob => &st.globs[i], Reg::Heap => &st.heap[i], Reg::Stack => &st.stack[i] } }
    fn obj_mut<'s>(&self, st: &'s mut State, r: Reg, i: usize) -> &'s mut Obj {
        match r { Reg::Glob => Rc::make_mut(&mut Rc::make_mut(&mut st.globs)[i]), Reg::Heap => Rc::make_mut(&mut st.heap[i]), Reg::Stack => Rc::make_mut(&mut st.stack[i]) }
    }
    fn find(&self, st: &State, a: u64) -> Option<(Reg, usize)> {
        let (r, v): (Reg, &[Rc<Obj>]) = if a >= STACK_BASE { (Reg::Stack, &st.stack) } else if a >= HEAP_BASE { (Reg::Heap, &st.heap) } else { (Reg::Glob, &st.globs) };
        let n = v.partition_point(|o| o.base <= a);
        if n == 0 { return None; }
        let o = &v[n - 1];
        if a - o.base <= o.size { Some((r, n - 1)) } else { None }
    }
    /// Resolve an access of n bytes; returns object and offset (concrete or symbolic with inclusive range).
    fn resolve(&mut self, st: &mut State, p: V, n: u64, write: bool) -> R<(Reg, usize, V, u64, u64)> {
        match p {
            V::C(a) => {
                let a = a as u64;
                if let Some((r, i)) = self.find(st, a) {
                    let o = self.obj(st, r, i).clone();
                    let off = a - o.base;
                    if !o.alive { return Err(Stop::Violation(format!("use of freed memory at {:#x}", a))); }
                    if write && o.ro { return Err(Stop::Violation("write to read-only memory".into())); }
                    if o.symsize != 0 {
                        let need = self.ar.konst((off + n) as u128, 64);
                        let c = self.ar.cmp(Op::Ule, need, o.symsize);
                        let c = self.mk(c);
                        if !self.decide(st, c)? { return Err(Stop::Violation(format!("out of bounds access: offset {} len {}", off, n))); }
                    } else if off + n > o.size { return Err(Stop::Violation(format!("out of bounds access: offset {} len {} of object of size {}", off, n, o.size))); }
                    if off + n > o.data.len() as u64 { return Err(Stop::Inconclusive("access beyond modelled part of a symbolically sized object".into())); }
                    return Ok((r, i, V::C(off as u128), off, off));
                }
                Err(Stop::Violation(format!("invalid pointer {:#x} (len {})", a, n)))
            }
            V::S(e) => {
                let a = self.ar.eval(e, &st.model) as u64;
                let (r, i) = match self.find(st, a) { Some(x) => x, None => return Err(Stop::Violation(format!("invalid pointer {:#x}", a))) };
                let o = self.obj(st, r, i).clone();
                if !o.alive { return Err(Stop::Violation("use of freed memory".into())); }
                if write && o.ro { return Err(Stop::Violation("write to read-only memory".into())); }
                if r != Reg::Glob && a - o.base + n <= (if o.symsize != 0 { 0 } else { o.size }) {
                    // an address that is the same on the whole path (a scan's outcome the path already decides)
                    let k = self.ar.konst(a as u128, 64);
                    let same = self.ar.cmp(Op::Eq, e, k);
                    let other = self.ar.not1(same);
                    if self.feasible(st, other)?.is_none() {
                        for v in st.regs.iter_mut() { if matches!(v, V::S(x) if *x == e) { *v = V::C(a as u128); } }
                        let off = a - o.base;
                        return Ok((r, i, V::C(off as u128), off, off));
                    }
                }
                if o.symsize != 0 {
                    let kb = self.ar.konst(o.base as u128, 64);
                    let off = self.ar.bin(Op::Sub, e, kb);
                    let kn = self.ar.konst(n as u128, 64);
                    let big = self.ar.cmp(Op::Ule, kn, o.symsize);
                    let big = self.mk(big);
                    if !self.decide(st, big)? { return Err(Stop::Violation("out of bounds access".into())); }
                    let room = self.ar.bin(Op::Sub, o.symsize, kn);
                    let c = self.ar.cmp(Op::Ule, off, room);
                    let c = self.mk(c);
                    if !self.decide(st, c)? { return Err(Stop::Violation("out of bounds access: symbolic offset, symbolic size".into())); }
                    let back = o.data.len() as u64;
                    let lim = self.ar.konst((back - n.min(back)) as u128, 64);
                    let c = self.ar.cmp(Op::Ule, off, lim);
                    let c = self.mk(c);
                    if back < n || !self.decide(st, c)? { return Err(Stop::Inconclusive("access beyond modelled part of a symbolically sized object".into())); }
                    let lo = self.ar.lo[off as usize].min((back - n) as u128) as u64;
                    let hi = self.ar.hi[off as usize].min((back - n) as u128) as u64;
                    let off = self.mk(off);
                    if let V::C(c) = off { return Ok((r, i, off, c as u64, c as u64)); }
                    return Ok((r, i, off, lo, hi));
                }
                if o.size < n { return Err(Stop::Violation("out of bounds access".into())); }
                let kb = self.ar.konst(o.base as u128, 64);
                let off = self.ar.bin(Op::Sub, e, kb);
                let lim = self.ar.konst((o.size - n) as u128, 64);
                let c = self.ar.cmp(Op::Ule, off, lim);
                let c = self.mk(c);
                if !self.decide(st, c)? { return Err(Stop::Violation(format!("out of bounds access: symbolic offset, object size {}", o.size))); }
                let lo = self.ar.lo[off as usize].min((o.size - n) as u128) as u64;
                let hi = self.ar.hi[off as usize].min((o.size - n) as u128) as u64;
                let off = self.mk(off);
                if let V::C(c) = off { return Ok((r, i, off, c as u64, c as u64)); }
                Ok((r, i, off, lo, hi))
            }
        }
    }
    fn obj_read(&mut self, o: &Obj, off: usize, n: usize) -> V {
        match &o.sym {
            Some(s) if s[off..off + n].iter().any(|&x| x != 0) => {
                let mut r: E = 0;
                for i in 0..n {
                    let b = if s[off + i] != 0 { s[off + i] } else { self.ar.konst(o.data[off + i] as u128, 8) };
                    r = if i == 0 { b } else { self.ar.concat(b, r) };
                }
                self.mk(r)
            }
            _ => {
                let mut b = [0u8; 16];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                V::C(u128::from_le_bytes(b))
            }
        }
    }
    fn obj_write(&mut self, o: &mut Obj, off: usize, n: usize, v: V) {
        o.init = o.init.max((off + n) as u64);
        match v {
            V::C(c) => {
                o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym { for x in &mut s[off..off + n] { *x = 0; } }
            }
            V::S(e) => {
                if o.sym.is_none() { o.sym = Some(vec![0; o.data.len()]); }
                for i in 0..n {
                    let b = self.ar.extract(e, i as u32 * 8, 8);
                    match self.ar.cval(b) {
                        Some(c) => { o.data[off + i] = c as u8; o.sym.as_mut().unwrap()[off + i] = 0; }
                        None => { o.sym.as_mut().unwrap()[off + i] = b; }
                    }
                }
            }
        }
    }
    fn load(&mut self, st: &mut State, p: V, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as u64;
        let (r, i, off, lo, hi) = self.resolve(st, p, n, false)?;
        let raw = match off {
            V::C(o) => { let ob = self.obj(st, r, i).clone(); self.obj_read(&ob, o as usize, n as usize) }
            V::S(oe) => {
                // alignment of the offset: count known-zero low bits
                let mut step = 1u64;
                while step < 16 { let k = self.ar.extract(oe, 0, step.trailing_zeros() + 1); if self.ar.cval(k) == Some(0) { step *= 2; } else { break; } }
                let lo = (lo + step - 1) / step * step;
                let (mut lo, mut hi) = (lo, hi);
                if (hi - lo) / step > 300 { let (l, h) = self.range(st, oe, lo, hi)?; lo = (l + step - 1) / step * step; hi = h; }
                if (hi - lo) / step > 2048 { let c = self.concretize(st, off, 64)?; let b = self.obj(st, r, i).base; return self.load(st, V::C(b as u128 + c), w); }
                let ob = self.obj(st, r, i).clone();
                let mut vals: Vec<(u64, V)> = vec![];
                let mut k = lo;
                while k <= hi { let v = self.obj_read(&ob, k as usize, n as usize); vals.push((k, v)); k += step; }
                self.mux(oe, &vals, (n * 8) as u32, step)
            }
        };
        Ok(if w % 8 != 0 { self.extr(raw, 0, w) } else { raw })
    }
    /// exact feasible range of an expression on this path, by solver bisection
    fn range(&mut self, st: &State, e: E, lo: u64, hi: u64) -> R<(u64, u64)> {
        let cur = self.ar.eval(e, &st.model) as u64;
        let w = self.ar.w(e);
        // gallop away from the value at hand, then bisect: few questions when the range is small
        let (mut a, mut b, mut step) = (lo, cur, 1u64); // smallest value in [a,b]
        let mut gallop = true;
        while a < b {
            let mid = if gallop && (b - a) / 2 > step { b - step } else { gallop = false; a + (b - a) / 2 };
            let k = self.ar.konst(mid as u128, w); let q = self.ar.cmp(Op::Ule, e, k);
            if self.feasible(st, q)?.is_some() { b = mid; step = step.saturating_mul(2); } else { a = mid + 1; gallop = false; }
        }
        let l = a;
        let (mut a, mut b, mut step) = (cur, hi, 1u64);
        let mut gallop = true;
        while a < b {
            let mid = if gallop && (b - a) / 2 > step { a + step } else { gallop = false; a + (b - a + 1) / 2 };
            let k = self.ar.konst(mid as u128, w); let q = self.ar.cmp(Op::Ule, k, e);
            if self.feasible(st, q)?.is_some() { a = mid; step = step.saturating_mul(2); } else { b = mid - 1; gallop = false; }
        }
        Ok((l, a))
    }
    fn mux(&mut self, oe: E, vals: &[(u64, V)], w: u32, step: u64) -> V {
        // runs of equal values or of values growing with the offset
        let ow = self.ar.w(oe);
        let mut runs: Vec<(u64, V, u8)> = vec![]; // start, value at start, kind 0 const 1 linear
        let mut i = 0;
        while i < vals.len() {
            let mut j = i + 1;
            let same = |a: V, b: V| match (a, b) { (V::C(x), V::C(y)) => x == y, (V::S(x), V::S(y)) => x == y, _ => false };
            while j < vals.len() && same(vals[j].1, vals[i].1) { j += 1; }
            if j - i == 1 && step == 1 {
                if let V::C(x) = vals[i].1 {
                    let mut k = i + 1;
                    while k < vals.len() { if let V::C(y) = vals[k].1 { if y == x.wrapping_add((k - i) as u128) & mask(w) { k += 1; continue; } } break; }
                    if k - i >= 3 { runs.push((vals[i].0, vals[i].1, 1)); i = k; continue; }
                }
            }
            runs.push((vals[i].0, vals[i].1, 0));
            i = j;
        }
        let mut acc: Option<V> = None;
        let mut next_start = 0u64;
        for (s, v, k) in runs.iter().rev() {
            let val = if *k == 0 { *v } else {
                // v + (off - s)
                let ks = self.ar.konst(*s as u128, ow);
                let d = self.ar.bin(Op::Sub, oe, ks);
                let d = if w <= ow { self.ar.extract(d, 0, w) } else { self.ar.zext(d, w) };
                let dv = self.mk(d);
                self.bin(Op::Add, w, dv, *v)
            };
            acc = Some(match acc { None => val, Some(a) => { let ks = self.ar.konst(next_start as u128, ow); let c = self.ar.cmp(Op::Ult, oe, ks); self.ite(c, w, val, a) } });
            next_start = *s;
        }
        acc.unwrap()
    }
    fn store(&mut self, st: &mut State, p: V, w: u32, v: V) -> R<()> {
        let n = ((w + 7) / 8) as u64;
        let v = if w % 8 != 0 { self.zext(v, w, n as u32 * 8) } else { v };
        let (r, i, off, lo, hi) = self.resolve(st, p, n, true)?;
        match off {
            V::C(o) => {
                // fast path
                let this: *const Self = self;
                let ob: *mut Obj = unsafe { (*this).obj_mut(st, r, i) };
                self.obj_write(unsafe { &mut *ob }, o as usize, n as usize, v);
            }
            V::S(oe) => {
                if hi - lo > 32 {
                    let (lo, hi) = self.range(st, oe, lo, hi)?;
                    let ob = self.obj(st, r, i).clone();
                    if n == 1 && hi > lo {
                        // the store leaves every byte it can hit as it is, or hits bytes never written before
                        if let V::C(c) = v {
                            let keeps = (lo..=hi).all(|k| k >= ob.init || ob.data[k as usize] == c as u8 && ob.sym.as_ref().map_or(true, |s| s[k as usize] == 0));
                            if keeps {
                                if hi >= ob.init {
                                    let from = lo.max(ob.init) as usize;
                                    let o = self.obj_mut(st, r, i);
                                    for x in &mut o.data[from..=hi as usize] { *x = c as u8; }
                                    o.init = hi + 1;
                                }
                                return Ok(());
                            }
                        }
                    }
                    let c = self.concretize(st, off, 64)?; let b = self.obj(st, r, i).base;
                    return self.store(st, V::C(b as u128 + c), w, v);
                }
                let mut ob = (**self.obj(st, r, i)).clone();
                // all candidates computed on the old contents, bytewise
                let ow = self.ar.w(oe);
                let old = ob.clone();
                let mut newv: HashMap<usize, V> = HashMap::new();
                for k in lo..=hi {
                    let kk = self.ar.konst(k as u128, ow);
                    let c = self.ar.cmp(Op::Eq, oe, kk);
                    if self.ar.cval(c) == Some(0) { continue; }
                    for j in 0..n {
                        let idx = (k + j) as usize;
                        let prev = match newv.get(&idx) { Some(x) => *x, None => self.obj_read(&old, idx, 1) };
                        let nb = self.extr(v, j as u32 * 8, 8);
                        let x = self.ite(c, 8, nb, prev);
                        newv.insert(idx, x);
                    }
                }
                for (idx, x) in newv { self.obj_write(&mut ob, idx, 1, x); }
                *self.obj_mut(st, r, i) = ob;
            }
        }
        Ok(())
    }
    fn copy(&mut self, st: &mut State, dst: V, src: V, len: V) -> R<()> {
        let n = self.concretize(st, len, 64)? as u64;
        if n == 0 { return Ok(()); }
        let s = self.concretize(st, src, 64)?;
        let d = self.concretize(st, dst, 64)?;
        let (sr, si, so, _, _) = self.resolve(st, V::C(s), n, false)?;
        let (dr, di, dof, _, _) = self.resolve(st, V::C(d), n, true)?;
        let (so, dof) = (match so { V::C(c) => c as usize, _ => unreachable!() }, match dof { V::C(c) => c as usize, _ => unreachable!() });
        let n = n as usize;
        let so_obj = self.obj(st, sr, si).clone();
        let o = self.obj_mut(st, dr, di);
        o.init = o.init.max((dof + n) as u64);
        let bytes = so_obj.data[so..so + n].to_vec();
        o.data[dof..dof + n].copy_from_slice(&bytes);
        match (&so_obj.sym, &mut o.sym) {
            (None, None) => {}
            (None, Some(t)) => for x in &mut t[dof..dof + n] { *x = 0; },
            (Some(s), t) => {
                if t.is_none() { if s[so..so + n].iter().all(|&x| x == 0) { return Ok(()); } *t = Some(vec![0; o.data.len()]); }
                let sb = s[so..so + n].to_vec();
                t.as_mut().unwrap()[dof..dof + n].copy_from_slice(&sb);
            }
        }
        Ok(())
    }
    fn fill(&mut self, st: &mut State, dst: V, byte: V, len: V) -> R<()> {
        if let (V::S(e), V::C(c)) = (len, byte) {
            // A length that is not known: the bytes up to the largest length it can have are written under
            // the condition that the length reaches them, without taking the lengths one by one.
            let hi = self.ar.hi[e as usize].min(u64::MAX as u128) as u64;
            let hi = if hi > 64 { self.range(st, e, 0, hi)?.1 } else { hi };
            if hi > 8 && hi <= BACKING_CAP {
                let a = self.concretize(st, dst, 64)? as u64;
                let (r, i, o) = match self.find(st, a) { Some((r, i)) => (r, i, self.obj(st, r, i).clone()), None => return Err(Stop::Violation(format!("invalid pointer {:#x}", a))) };
                if !o.alive { return Err(Stop::Violation("use of freed memory".into())); }
                if o.ro { return Err(Stop::Violation("write to read-only memory".into())); }
                let off = a - o.base;
                let size = if o.symsize != 0 { o.symsize } else { self.ar.konst(o.size as u128, 64) };
                let ko = self.ar.konst(off as u128, 64);
                let fits = self.ar.cmp(Op::Ule, ko, size);
                let fits = self.mk(fits);
                if !self.decide(st, fits)? { return Err(Stop::Violation("out of bounds access".into())); }
                let room = self.ar.bin(Op::Sub, size, ko);
                let fits = self.ar.cmp(Op::Ule, e, room);
                let fits = self.mk(fits);
                if !self.decide(st, fits)? { return Err(Stop::Violation("out of bounds access: write of a symbolic length".into())); }
                let end = off + hi;
                if end > o.data.len() as u64 { return Err(Stop::Inconclusive("access beyond modelled part of a symbolically sized object".into())); }
                let same = |k: u64| o.data[k as usize] == c as u8 && o.sym.as_ref().map_or(true, |s| s[k as usize] == 0);
                if (off..end.min(o.init)).filter(|&k| !same(k)).count() <= 4096 {
                    let mut ob = (*o).clone();
                    for k in off..end {
                        if k >= o.init { ob.data[k as usize] = c as u8; continue; }
                        if same(k) { continue; }
                        let kk = self.ar.konst((k - off) as u128, 64);
                        let reached = self.ar.cmp(Op::Ult, kk, e);
                        let old = self.obj_read(&o, k as usize, 1);
                        let v = self.ite(reached, 8, V::C(c), old);
                        self.obj_write(&mut ob, k as usize, 1, v);
                    }
                    ob.init = ob.init.max(end);
                    *self.obj_mut(st, r, i) = ob;
                    return Ok(());
                }
            }
        }
        let n = self.concretize(st, len, 64)? as u64;
        if n == 0 { return Ok(()); }
        let a = self.concretize(st, dst, 64)?;
        let (r, i, off, _, _) = self.resolve(st, V::C(a), n, true)?;
        let o = match off { V::C(c) => c as usize, _ => unreachable!() };
        let this: *const Self = self;
        let ob: *mut Obj = unsafe { (*this).obj_mut(st, r, i) };
        let ob = unsafe { &mut *ob };
        match byte {
            V::C(c) => {
                for x in &mut ob.data[o..o + n as usize] { *x = c as u8; }
                if let Some(s) = &mut ob.sym { for x in &mut s[o..o + n as usize] { *x = 0; } }
                ob.init = ob.init.max((o + n as usize) as u64);
            }
            v => for k in 0..n as usize { self.obj_write(ob, o + k, 1, v); },
        }
        Ok(())
    }
    pub fn read_bytes(&mut self, st: &mut State, p: V, n: u64) -> R<Vec<V>> {
        if n == 0 { return Ok(vec![]); }
        let a = self.concretize(st, p, 64)?;
        let (r, i, off, _, _) = self.resolve(st, V::C(a), n, false)?;
        let o = match off { V::C(c) => c as usize, _ => unreachable!() };
        let ob = self.obj(st, r, i).clone();
        Ok((0..n as usize).map(|k| self.obj_read(&ob, o + k, 1)).collect())
    }
    fn read_str(&mut self, st: &mut State, p: V, n: V) -> R<String> {
        let n = self.concretize(st, n, 64)? as u64;
        let v = self.read_bytes(st, p, n)?;
        let b: Vec<u8> = v.iter().map(|x| match x { V::C(c) => *c as u8, V::S(e) => self.ar.eval(*e, &st.model) as u8 }).collect();
        Ok(String::from_utf8_lossy(&b).into_owned())
    }
    fn alloc(&mut self, st: &mut State, size: V, align: u64, zero: bool) -> R<u64> {
        let al = align.max(16);
        // allocation limit set by the harness
        if st.alloc_limit != u64::MAX {
            let lim = V::C(st.alloc_limit as u128);
            let c = self.cmp(Pred::Ule, 64, size, lim);
            if !self.decide(st, c)? { return Err(Stop::Violation(format!("allocation request exceeds the limit of {} bytes", st.alloc_limit))); }
        }
        let base = (st.heap_next + al - 1) / al * al;
        let (cap, symsize) = match size {
            V::C(c) => (c as u64, 0),
            V::S(e) => {
                let hi = self.ar.hi[e as usize].min(u64::MAX as u128) as u64;
                let hi = if hi > BACKING_CAP { self.range(st, e, 0, hi)?.1 } else { hi };
                (hi, e)
            }
        };
        if cap > (1 << 40) && symsize == 0 { return Err(Stop::Violation(format!("allocation of {} bytes", cap))); }
        let back = cap.min(BACKING_CAP.max(if symsize == 0 { cap.min(1 << 28) } else { 0 }));
        st.allocated += back;
        let o = Obj { base, size: cap, symsize, data: vec![if zero { 0 } else { 0xA5 }; back as usize], sym: None, ro: false, alive: true, init: if zero { back } else { 0 } };
        st.heap.push(Rc::new(o));
        st.heap_next = base + cap.min(1 << 44) + 32;
        Ok(base)
    }
    fn free(&mut self, st: &mut State, p: V) -> R<()> {
        let a = self.concretize(st, p, 64)? as u64;
        if a == 0 { return Ok(()); }
        match self.find(st, a) {
            Some((Reg::Heap, i)) if st.heap[i].base == a => {
                if !st.heap[i].alive { return Err(Stop::Violation("double free".into())); }
                let o = &st.heap[i];
                st.heap[i] = Rc::new(Obj { base: o.base, size: o.size, symsize: 0, data: vec![], sym: None, ro: false, alive: false, init: 0 });
                Ok(())
            }
            _ => Err(Stop::Violation(format!("free of invalid pointer {:#x}", a))),
        }
    }

    // ---------- running
    pub fn stack_trace(&self, st: &State) -> Vec<String> {
        let mut out = vec![];
        for f in st.frames.iter().rev() {
            let b = &f.f.blocks[f.blk as usize];
            let ip = (f.ip as usize).min(b.ins.len() - 1);
            let dbg = b.ins[ip].1;
            let ch = self.m.loc_chain(dbg);
            if ch.is_empty() { out.push(f.f.name.clone()); }
            for (n, file, line) in ch { let nm = n.split('|').next().unwrap().to_string(); out.push(format!("{} at {}:{}", nm, short(&file), line)); }
            if out.len() > 40 { break; }
        }
        out
    }
    pub fn witness(&mut self, st: &State, model: &Rc<Model>) -> String {
        let mut s = String::new();
        for i in &st.inputs {
            match i {
                Inp::Bytes(f, n) => { let b: Vec<u8> = (*f..*f + *n).map(|k| *model.v.get(k as usize).unwrap_or(&0)).collect(); s.push_str(&format!("B{};", hex(&b))); }
                Inp::Choice(c) => s.push_str(&format!("C{};", c)),
            }
        }
        s
    }
    fn logs_under(&mut self, st: &State, model: &Rc<Model>) -> String {
        let mut s = String::new();
        for l in &st.logs { let v = match l { V::C(c) => *c, V::S(e) => self.ar.eval(*e, model) }; s.push_str(&format!("{:x};", v as u64)); }
        s
    }
    fn violation(&mut self, st: &State, model: &Rc<Model>, msg: String) {
        self.stats.violated += 1;
        let stack = self.stack_trace(st);
        let key = format!("{}|{}", msg, stack.iter().take(3).cloned().collect::<Vec<_>>().join("|"));
        if self.viols.len() >= self.max_viols { return; }
        let n = self.viol_keys.entry(key).or_insert(0);
        *n += 1;
        if *n > 3 { return; }
        let inputs = self.witness(st, model);
        let logs = self.logs_under(st, model);
        self.viols.push(Viol { msg, stack, inputs, logs });
    }
    pub fn run_state(&mut self, mut st: State) {
        let s0 = st.steps;
        let r = self.run(&mut st);
        self.stats.steps += st.steps - s0;
        self.stats.max_vars = self.stats.max_vars.max(st.nvars);
        match r {
            Stop::Done => {
                self.stats.done += 1;
                let d = self.stats.done;
                if self.traces.len() < self.max_traces && (d <= 8 || d.is_power_of_two() || d % 97 == 0) {
                    let m = st.model.clone();
                    let inputs = self.witness(&st, &m); let logs = self.logs_under(&st, &m);
                    self.traces.push(Trace { inputs, logs });
                }
            }
            Stop::Kill => self.stats.killed += 1,
            Stop::Violation(m) => { let mo = st.model.clone(); self.violation(&st, &mo, m) }
            Stop::Inconclusive(m) => {
                let t = self.stack_trace(&st);
                let m = format!("{} [{}]", m, t.iter().take(4).cloned().collect::<Vec<_>>().join(" < "));
                *self.inconclusive.entry(m).or_insert(0) += 1;
            }
        }
    }
    /// time is up; once any process has found a violation, little more is spent on looking for others
    pub fn over(&self) -> bool {
        let now = Instant::now();
        if now > self.deadline { return true; }
        if self.first_viol.is_null() { return false; }
        let c = unsafe { &*self.first_viol };
        let t = (now - self.started).as_millis() as u64 + 1;
        let f = c.load(std::sync::atomic::Ordering::Relaxed);
        if f == 0 { if !self.viols.is_empty() { c.store(t, std::sync::atomic::Ordering::Relaxed); } return false; }
        t > f + 15000
    }
    fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step_block(st) { Ok(()) => {} Err(s) => return s }
            if st.steps > self.max_steps { return Stop::Violation("no termination within the step limit".into()); }
            self.tick += 1;
            if self.tick & 63 == 0 && self.over() { return Stop::Inconclusive("time limit".into()); }
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let f = fr.f;
        let base = fr.base as usize;
        fr.blk = to; fr.ip = 0;
        let b = &f.blocks[to as usize];
        if b.phis.is_empty() { return; }
        let k = match b.phis.binary_search_by_key(&from, |p| p.0) { Ok(k) => k, Err(_) => panic!("phi edge {}", f.name) };
        let mv = &b.phis[k].1;
        if mv.len() == 1 {
            let v = match mv[0].1 { Opd::C(c) => V::C(c), Opd::R(r) => st.regs[base + r as usize] };
            st.regs[base + mv[0].0 as usize] = v;
        } else {
            let mut tmp: [V; 32] = [V::C(0); 32];
            if mv.len() <= 32 {
                for (i, m) in mv.iter().enumerate() { tmp[i] = match m.1 { Opd::C(c) => V::C(c), Opd::R(r) => st.regs[base + r as usize] }; }
                for (i, m) in mv.iter().enumerate() { st.regs[base + m.0 as usize] = tmp[i]; }
            } else {
                let t: Vec<V> = mv.iter().map(|m| match m.1 { Opd::C(c) => V::C(c), Opd::R(r) => st.regs[base + r as usize] }).collect();
                for (i, m) in mv.iter().enumerate() { st.regs[base + m.0 as usize] = t[i]; }
            }
        }
    }
    /// Run to the end of the current basic block (or a call/return).
    fn step_block(&mut self, st: &mut State) -> R<()> {
        let (f, blk) = { let fr = st.frames.last().unwrap(); (fr.f, fr.blk) };
        self.covered.insert((f.idx, blk));
        let b = &f.blocks[blk as usize];
        loop {
            let ip = st.frames.last().unwrap().ip as usize;
            st.steps += 1;
            match &b.ins[ip].0 {
                Ins::Bin { op, w, d, a, b } => {
                    let (x, y) = (self.get(st, *a), self.get(st, *b));
                    if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                        let z = self.cmp(Pred::Eq, *w, y, V::C(0));
                        if self.decide(st, z)? { return Err(Stop::Violation("division by zero".into())); }
                    }
                    let r = self.bin(*op, *w, x, y);
                    self.set(st, *d, r);
                }
                Ins::Cmp { p, w, d, a, b } => { let (x, y) = (self.get(st, *a), self.get(st, *b)); let r = self.cmp(*p, *w, x, y); self.set(st, *d, r); }
                Ins::Sel { w, d, c, a, b } => {
                    let r = match self.get(st, *c) {
                        V::C(c) => if c & 1 == 1 { self.get(st, *a) } else { self.get(st, *b) },
                        V::S(c) => { let (x, y) = (self.get(st, *a), self.get(st, *b)); self.ite(c, *w, x, y) }
                    };
                    self.set(st, *d, r);
                }
                Ins::Cast { k, fw, tw, d, a } => {
                    let v = self.get(st, *a);
                    let r = match (k, v) {
                        (CastK::Zext, V::C(c)) => V::C(c),
                        (CastK::Trunc, V::C(c)) => V::C(c & mask(*tw)),
                        (CastK::Sext, V::C(c)) => V::C(sx(c, *fw) as u128 & mask(*tw)),
                        (CastK::Zext, V::S(e)) => { let r = self.ar.zext(e, *tw); self.mk(r) }
                        (CastK::Trunc, V::S(e)) => { let r = self.ar.extract(e, 0, *tw); self.mk(r) }
                        (CastK::Sext, V::S(e)) => { let r = self.ar.sext(e, *tw); self.mk(r) }
                    };
                    self.set(st, *d, r);
                }
                Ins::Copy { d, a } => { let v = self.get(st, *a); self.set(st, *d, v); }
                Ins::Load { w, d, p, off } => {
                    let p = self.get(st, *p);
                    let p = if *off != 0 { self.bin(Op::Add, 64, p, V::C(*off as u128)) } else { p };
                    let v = self.load(st, p, *w)?;
                    self.set(st, *d, v);
                }
                Ins::Store { w, v, p, off } => {
                    let p = self.get(st, *p);
                    let v = self.get(st, *v);
                    let p = if *off != 0 { self.bin(Op::Add, 64, p, V::C(*off as u128)) } else { p };
                    self.store(st, p, *w, v)?;
                }
                Ins::Gep { d, base, cst, terms } => {
                    let mut v = self.get(st, *base);
                    for (o, w, s) in terms.iter() {
                        let i = self.get(st, *o);
                        let i = match i { V::C(c) => V::C(sx(c, *w) as u128 & mask(64)), V::S(e) => { let r = self.ar.sext(e, 64); self.mk(r) } };
                        let i = if *s != 1 { self.bin(Op::Mul, 64, i, V::C(*s as u128)) } else { i };
                        v = self.bin(Op::Add, 64, v, i);
                    }
                    if *cst != 0 { v = self.bin(Op::Add, 64, v, V::C(*cst as u128)); }
                    self.set(st, *d, v);
                }
                Ins::Alloca { d, size, align } => {
                    let al = (*align).max(16);
                    let base = (st.sp + al - 1) / al * al;
                    st.stack.push(Rc::new(Obj { base, size: *size, symsize: 0, data: vec![0xA5; *size as usize], sym: None, ro: false, alive: true, init: 0 }));
                    st.sp = base + size + 16;
                    self.set(st, *d, V::C(base as u128));
                }
                Ins::Pack { d, parts } => {
                    let mut acc: Option<(V, u32)> = None;
                    for (o, w) in parts.iter() {
                        let v = self.get(st, *o);
                        acc = Some(match acc { None => (v, *w), Some((l, lw)) => match (v, l) {
                            (V::C(h), V::C(lo)) => (V::C((h << lw) | lo), lw + w),
                            _ => { let (h, l) = (self.e(v, *w), self.e(l, lw)); let r = self.ar.concat(h, l); (self.mk(r), lw + w) }
                        } });
                    }
                    let v = acc.unwrap().0;
                    self.set(st, *d, v);
                }
                Ins::Unpack { d, a, lo, w, .. } => { let v = self.get(st, *a); let r = self.extr(v, *lo, *w); self.set(st, *d, r); }
                Ins::Rmw { op, w, d, p, v } => {
                    let p = self.get(st, *p); let v = self.get(st, *v);
                    let old = self.load(st, p, *w)?;
                    let n = match *op { "xchg" => v, "add" => self.bin(Op::Add, *w, old, v), "sub" => self.bin(Op::Sub, *w, old, v), "and" => self.bin(Op::And, *w, old, v), "or" => self.bin(Op::Or, *w, old, v), _ => self.bin(Op::Xor, *w, old, v) };
                    self.store(st, p, *w, n)?;
                    self.set(st, *d, old);
                }
                Ins::CmpXchg { w, d, p, old, new } => {
                    let p = self.get(st, *p); let o = self.get(st, *old); let n = self.get(st, *new);
                    let cur = self.load(st, p, *w)?;
                    let eq = self.cmp(Pred::Eq, *w, cur, o);
                    let ok = self.decide(st, eq)?;
                    if ok { self.store(st, p, *w, n)?; }
                    self.set(st, *d, cur); self.set(st, *d + 1, V::C(ok as u128));
                }
                Ins::Br(t) => { self.jump(st, *t); return Ok(()); }
                Ins::CondBr { c, t, f } => {
                    let c = self.get(st, *c);
                    let r = self.decide(st, c)?;
                    self.jump(st, if r { *t } else { *f });
                    return Ok(());
                }
                Ins::Switch { w, v, def, cases } => {
                    let v = self.get(st, *v);
                    let to = match v {
                        V::C(c) => cases.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*def),
                        V::S(e) => {
                            // group by target: decide "goes to the target the model takes"
                            let x = self.ar.eval(e, &st.model);
                            let tgt = cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*def);
                            let mut cond: E = self.ar.ff();
                            if tgt == *def {
                                // not equal to any case with another target
                                let mut acc = self.ar.tt();
                                for (k, t) in cases.iter() { if *t != tgt { let kk = self.ar.konst(*k, *w); let q = self.ar.cmp(Op::Eq, e, kk); let q = self.ar.not1(q); acc = self.ar.bin(Op::And, acc, q); } }
                                cond = acc;
                            } else {
                                for (k, t) in cases.iter() { if *t == tgt { let kk = self.ar.konst(*k, *w); let q = self.ar.cmp(Op::Eq, e, kk); cond = self.ar.bin(Op::Or, cond, q); } }
                            }
                            let c = self.mk(cond);
                            let r = self.decide(st, c)?;
                            debug_assert!(r);
                            tgt
                        }
                    };
                    self.jump(st, to);
                    return Ok(());
                }
                Ins::Ret(vals) => {
                    let mut tmp: [V; 24] = [V::C(0); 24];
                    if vals.len() > 24 { return Err(Stop::Inconclusive("ret too wide".into())); }
                    for (i, o) in vals.iter().enumerate() { tmp[i] = self.get(st, *o); }
                    let fr = st.frames.pop().unwrap();
                    st.stack.truncate(fr.smark as usize);
                    st.sp = fr.sp;
                    st.regs.truncate(fr.base as usize);
                    if st.frames.is_empty() { return Err(Stop::Done); }
                    if fr.ret_d != u32::MAX { for i in 0..vals.len() { self.set(st, fr.ret_d + i as u32, tmp[i]); } }
                    st.frames.last_mut().unwrap().ip += 1;
                    return Ok(());
                }
                Ins::Unreachable => return Err(Stop::Violation("unreachable code reached".into())),
                Ins::Unsupported(s) => return Err(Stop::Inconclusive(format!("unsupported instruction: {}", s))),
                Ins::Call { f, args, d, ret } => {
                    let target = match f {
                        Callee::Fn(i) => Ok(*i),
                        Callee::Ext(i) => Err(*i),
                        Callee::Ind(o) => {
                            let p = self.get(st, *o);
                            let a = self.concretize(st, p, 64)? as u64;
                            let i = a.wrapping_sub(ll::FN_BASE) / 16;
                            if a < ll::FN_BASE || i >= self.m.fns.len() as u64 || (a - ll::FN_BASE) % 16 != 0 { return Err(Stop::Violation(format!("call through invalid function pointer {:#x}", a))); }
                            if self.m.fns[i as usize].body.is_some() { Ok(i as u32) } else { Err(self.m.ext_id(self.m.fns[i as usize].name)) }
                        }
                    };
                    match target {
                        Ok(fi) => {
                            if self.panic_fn[fi as usize] != 0 {
                                let la: Vec<V> = args.iter().map(|a| self.get(st, a.0)).collect();
                                let loc = self.panic_loc(st, &la);
                                return Err(Stop::Violation(format!("panic{}", loc)));
                            }
                            let callee = self.func(fi);
                            if st.frames.len() > 400 { return Err(Stop::Inconclusive("call depth".into())); }
                            let base = st.regs.len() as u32;
                            let cb = st.frames.last().unwrap().base as usize;
                            st.regs.resize(base as usize + callee.nslots as usize, V::C(0));
                            let mut k = 0;
                            for (s, n) in &callee.params {
                                for j in 0..*n {
                                    if k < args.len() {
                                        let v = match args[k].0 { Opd::C(c) => V::C(c), Opd::R(r) => st.regs[cb + r as usize] };
                                        st.regs[(base + s + j) as usize] = v;
                                    }
                                    k += 1;
                                }
                            }
                            let fr = Frame { f: callee, blk: 0, ip: 0, base, smark: st.stack.len() as u32, sp: st.sp, ret_d: *d };
                            st.frames.push(fr);
                            return Ok(());
                        }
                        Err(x) => { self.builtin(st, x, args, *d, ret)?; }
                    }
                }
            }
            st.frames.last_mut().unwrap().ip += 1;
        }
    }
    fn panic_loc(&mut self, st: &mut State, args: &[V]) -> String {
        // last argument is usually &'static Location { file: (ptr,len), line: u32, col: u32 }
        for a in args.iter().rev() {
            if let V::C(p) = a {
                let p = *p as u64;
                if p < ll::GLOB_BASE || p >= HEAP_BASE { continue; }
                let rd = |s: &mut Self, st: &mut State, o: u64, w: u32| -> Option<u64> { match s.load(st, V::C((p + o) as u128), w) { Ok(V::C(c)) => Some(c as u64), _ => None } };
                if let (Some(fp), Some(n), Some(l)) = (rd(self, st, 0, 64), rd(self, st, 8, 64), rd(self, st, 16, 32)) {
                    if n < 400 && fp >= ll::GLOB_BASE { if let Ok(s) = self.read_str(st, V::C(fp as u128), V::C(n as u128)) { return format!(" at {}:{}", short(s.trim_end_matches('\0')), l); } }
                }
            }
        }
        String::new()
    }
    fn classify(&self, n: &str) -> B {
        let pre = |p: &str| n.starts_with(p);
        if pre("llvm.") {
            let r = &n[5..];
            let p = |x: &str| r.starts_with(x);
            if p("memcpy") || p("memmove") { return B::Memcpy; }
            if p("memset") { return B::Memset; }
            if p("umin") { return B::UMin; } if p("umax") { return B::UMax; } if p("smin") { return B::SMin; } if p("smax") { return B::SMax; }
            if p("usub.sat") { return B::USubSat; } if p("uadd.sat") { return B::UAddSat; }
            if p("uadd.with") { return B::UAddO; } if p("usub.with") { return B::USubO; } if p("umul.with") { return B::UMulO; }
            if p("sadd.with") { return B::SAddO; } if p("ssub.with") { return B::SSubO; } if p("smul.with") { return B::SMulO; }
            if p("bswap") { return B::Bswap; } if p("bitreverse") { return B::BitRev; } if p("fshl") { return B::Fshl; } if p("fshr") { return B::Fshr; }
            if p("ctlz") { return B::Ctlz; } if p("cttz") { return B::Cttz; } if p("ctpop") { return B::Ctpop; } if p("abs") { return B::Abs; }
            if p("ucmp") { return B::Ucmp; } if p("scmp") { return B::Scmp; } if p("is.constant") { return B::IsConst; } if p("threadlocal.address") { return B::Tls; }
            if p("expect") { return B::Expect; } if p("load.relative") { return B::LoadRel; } if p("trap") { return B::Abort; }
            if p("vector.reduce.or") { return B::ReduceOr; } if p("vector.reduce.and") { return B::ReduceAnd; } if p("vector.reduce.add") { return B::ReduceAdd; }
            if p("x86.sse2.pmovmskb") { return B::Pmovmskb; }
            if p("x86.sse2.pause") || p("prefetch") || p("donothing") || p("fake.use") { return B::Nop; }
            return B::Unknown;
        }
        match n {
            "malloc" => B::Malloc, "calloc" => B::Calloc, "realloc" => B::Realloc, "free" => B::Free, "posix_memalign" => B::PosixMemalign, "aligned_alloc" => B::AlignedAlloc,
            "memcmp" => B::Memcmp, "bcmp" => B::Bcmp, "strlen" => B::Strlen, "memchr" => B::Memchr, "memcpy" | "memmove" => B::Memcpy, "memset" => B::Memset,
            "abort" | "exit" | "_exit" => B::Abort, "__errno_location" => B::Errno, "getrandom" => B::Getrandom, "write" | "writev" => B::Write,
            "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_mutex_destroy" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" => B::RetZero,
            "sym_u8s" => B::SymU8s, "sym_assume" => B::SymAssume, "sym_assert" => B::SymAssert, "sym_log" => B::SymLog, "sym_choose" => B::SymChoose, "sym_conc" => B::SymConc,
            "sym_cover" => B::SymCover, "sym_param" => B::SymParam, "sym_is_sym" => B::SymIsSym, "sym_alloc_limit" => B::SymAllocLimit, "sym_same" => B::SymSame,
            _ => B::Unknown,
        }
    }
    fn builtin(&mut self, st: &mut State, x: u32, args: &[(Opd, u32)], d: u32, ret: &[u32]) -> R<()> {
        while self.builtins.len() <= x as usize { let n = self.m.exts.borrow().0[self.builtins.len()].clone(); let b = self.classify(&n); self.builtins.push(b); }
        let b = self.builtins[x as usize];
        let av: Vec<V> = args.iter().map(|a| self.get(st, a.0)).collect();
        let w = if ret.is_empty() { 0 } else { ret[0] };
        macro_rules! ret { ($v:expr) => {{ let v = $v; if d != u32::MAX { self.set(st, d, v); } }} }
        match b {
            B::Unknown => { let n = self.m.exts.borrow().0[x as usize].clone(); return Err(Stop::Inconclusive(format!("call of external {}", n))); }
            B::Nop => {}
            B::RetZero => ret!(V::C(0)),
            B::Abort => return Err(Stop::Violation("abort".into())),
            B::Malloc => { let a = self.alloc(st, av[0], 16, false)?; ret!(V::C(a as u128)) }
            B::Calloc => { let s = self.bin(Op::Mul, 64, av[0], av[1]); let a = self.alloc(st, s, 16, true)?; ret!(V::C(a as u128)) }
            B::AlignedAlloc => { let al = self.concretize(st, av[0], 64)? as u64; let a = self.alloc(st, av[1], al, false)?; ret!(V::C(a as u128)) }
            B::PosixMemalign => { let al = self.concretize(st, av[1], 64)? as u64; let a = self.alloc(st, av[2], al, false)?; self.store(st, av[0], 64, V::C(a as u128))?; ret!(V::C(0)) }
            B::Realloc => {
                let p = self.concretize(st, av[0], 64)? as u64;
                if p == 0 { let a = self.alloc(st, av[1], 16, false)?; ret!(V::C(a as u128)); }
                else {
                    let (r, i) = match self.find(st, p) { Some(x) => x, None => return Err(Stop::Violation("realloc of invalid pointer".into())) };
                    let old = self.obj(st, r, i).clone();
                    if !old.alive || old.base != p { return Err(Stop::Violation("realloc of invalid pointer".into())); }
                    let a = self.alloc(st, av[1], 16, false)?;
                    let k = st.heap.len() - 1;
                    let no = Rc::make_mut(&mut st.heap[k]);
                    let n = old.data.len().min(no.data.len());
                    no.init = old.init.min(n as u64);
                    no.data[..n].copy_from_slice(&old.data[..n]);
                    if let Some(s) = &old.sym { let mut t = vec![0; no.data.len()]; t[..n].copy_from_slice(&s[..n]); no.sym = Some(t); }
                    self.free(st, V::C(p as u128))?;
                    ret!(V::C(a as u128));
                }
            }
            B::Free => self.free(st, av[0])?,
            B::Memcpy => { self.copy(st, av[0], av[1], av[2])?; if !ret.is_empty() { ret!(av[0]); } }
            B::Memset => {
                let byte = self.extr(av[1], 0, 8);
                self.fill(st, av[0], byte, av[2])?;
                if !ret.is_empty() { ret!(av[0]); }
            }
            B::Memcmp => {
                let n = self.concretize(st, av[2], 64)? as u64;
                let x = self.read_bytes(st, av[0], n)?; let y = self.read_bytes(st, av[1], n)?;
                // lexicographic: from the last byte to the first
                let mut acc = V::C(0);
                for k in (0..n as usize).rev() {
                    let eq = self.cmp(Pred::Eq, 8, x[k], y[k]);
                    let lt = self.cmp(Pred::Ult, 8, x[k], y[k]);
                    let diff = match lt { V::C(1) => V::C(mask(32)), V::C(_) => V::C(1), V::S(e) => self.ite(e, 32, V::C(mask(32)), V::C(1)) };
                    acc = match eq { V::C(1) => acc, V::C(_) => diff, V::S(e) => self.ite(e, 32, acc, diff) };
                }
                ret!(acc)
            }
            B::Bcmp => {
                let n = self.concretize(st, av[2], 64)? as u64;
                let x = self.read_bytes(st, av[0], n)?; let y = self.read_bytes(st, av[1], n)?;
                let mut acc = V::C(1);
                for k in 0..n as usize { let q = self.cmp(Pred::Eq, 8, x[k], y[k]); acc = self.bin(Op::And, 1, acc, q); }
                let ne = match acc { V::C(c) => V::C(c ^ 1), V::S(e) => { let r = self.ar.not1(e); self.mk(r) } };
                let r = self.zext(ne, 1, 32);
                ret!(r)
            }
            B::Strlen => {
                let mut n = 0u64;
                loop {
                    let p = self.bin(Op::Add, 64, av[0], V::C(n as u128));
                    let c = self.load(st, p, 8)?;
                    let z = self.cmp(Pred::Eq, 8, c, V::C(0));
                    if self.decide(st, z)? { break; }
                    n += 1;
                }
                ret!(V::C(n as u128))
            }
            B::Memchr => {
                let n = self.concretize(st, av[2], 64)? as u64;
                let a = self.concretize(st, av[0], 64)?;
                let x = self.read_bytes(st, V::C(a), n)?;
                let c = self.extr(av[1], 0, 8);
                let mut r = V::C(0);
                for k in 0..n as usize {
                    let eq = self.cmp(Pred::Eq, 8, x[k], c);
                    if self.decide(st, eq)? { r = V::C(a + k as u128); break; }
                }
                ret!(r)
            }
            B::Errno => {
                // the one of this thread
                if st.errno == 0 { st.errno = self.alloc(st, V::C(16), 16, true)?; }
                ret!(V::C(st.errno as u128))
            }
            B::Getrandom => {
                let n = self.concretize(st, av[1], 64)?;
                for k in 0..n as u64 { let p = self.bin(Op::Add, 64, av[0], V::C(k as u128)); self.store(st, p, 8, V::C(0x5a))?; }
                ret!(V::C(n))
            }
            B::Write => { let n = self.concretize(st, av[2], 64)?; ret!(V::C(n)) }
            B::SymU8s => {
                let n = self.concretize(st, av[1], 64)? as u32;
                if (st.nvars + n) as usize > MAXVARS { return Err(Stop::Inconclusive("too many symbolic inputs".into())); }
                let f = st.nvars;
                if n > 0 {
                    let a = self.concretize(st, av[0], 64)?;
                    for k in 0..n { let v = self.ar.var(f + k); self.store(st, V::C(a + k as u128), 8, V::S(v))?; }
                }
                st.nvars += n;
                st.inputs.push(Inp::Bytes(f, n));
            }
            B::SymAssume => {
                let c = self.cmp(Pred::Ne, args[0].1, av[0], V::C(0));
                match c {
                    V::C(1) => {}
                    V::C(_) => return Err(Stop::Kill),
                    V::S(e) => {
                        match self.feasible(st, e)? { Some(m) => { st.model = m; if !st.cons.contains(&e) { st.cons.push(e); } } None => return Err(Stop::Kill) }
                    }
                }
            }
            B::SymAssert => {
                self.stats.asserts += 1;
                let c = self.cmp(Pred::Ne, args[0].1, av[0], V::C(0));
                match c {
                    V::C(1) => {}
                    V::C(_) => { let m = self.read_str(st, av[1], av[2])?; return Err(Stop::Violation(format!("assertion: {}", m))); }
                    V::S(e) => {
                        self.stats.asserts_sym += 1;
                        let ne = self.ar.not1(e);
                        if let Some(m) = self.feasible(st, ne)? {
                            let msg = self.read_str(st, av[1], av[2])?;
                            self.violation(st, &m, format!("assertion: {}", msg));
                            match self.feasible(st, e)? { Some(m) => { st.model = m; st.cons.push(e); } None => return Err(Stop::Kill) }
                        }
                    }
                }
            }
            B::SymLog => st.logs.push(av[0]),
            B::SymChoose => {
                let n = self.concretize(st, av[0], 64)? as u64;
                let k = match st.pending.take() {
                    Some(k) => k,
                    None => {
                        for k in (1..n).rev() { let mut o = st.clone(); o.pending = Some(k); self.stats.forks += 1; self.work.push(o); }
                        0
                    }
                };
                st.inputs.push(Inp::Choice(k));
                ret!(V::C(k as u128))
            }
            B::SymConc => { let v = self.concretize(st, av[0], 64)?; ret!(V::C(v)) }
            B::SymCover => { let m = self.read_str(st, av[0], av[1])?; *self.covers.entry(m).or_insert(0) += 1; }
            B::SymParam => { let i = self.concretize(st, av[0], 64)? as usize; let v = *self.params.get(i).unwrap_or(&0); ret!(V::C(v as u128)) }
            B::SymIsSym => {
                let n = self.concretize(st, av[1], 64)? as u64;
                let v = self.read_bytes(st, av[0], n)?;
                let r = v.iter().any(|x| matches!(x, V::S(_))) as u64;
                st.inputs.push(Inp::Choice(r));
                ret!(V::C(r as u128))
            }
            B::SymAllocLimit => { let v = self.concretize(st, av[0], 64)? as u64; st.alloc_limit = v; }
            B::SymSame => {
                // 1 if the two byte ranges are equal for every value on this path (no fork)
                let n = self.concretize(st, av[2], 64)? as u64;
                let x = self.read_bytes(st, av[0], n)?; let y = self.read_bytes(st, av[1], n)?;
                let mut acc = V::C(1);
                for k in 0..n as usize { let q = self.cmp(Pred::Eq, 8, x[k], y[k]); acc = self.bin(Op::And, 1, acc, q); }
                let r = self.zext(acc, 1, 64);
                ret!(r)
            }
            B::UMin | B::UMax | B::SMin | B::SMax | B::USubSat | B::UAddSat => {
                let n = ret.len();
                for k in 0..n {
                    let (x, y) = (av[k], av[n + k]);
                    let w = ret[k];
                    let r = match b {
                        B::USubSat => { let c = self.cmp(Pred::Ult, w, x, y); let s = self.bin(Op::Sub, w, x, y); self.sel(c, w, V::C(0), s) }
                        B::UAddSat => { let s = self.bin(Op::Add, w, x, y); let c = self.cmp(Pred::Ult, w, s, x); self.sel(c, w, V::C(mask(w)), s) }
                        _ => {
                            let p = match b { B::UMin => Pred::Ult, B::UMax => Pred::Ugt, B::SMin => Pred::Slt, _ => Pred::Sgt };
                            let c = self.cmp(p, w, x, y); self.sel(c, w, x, y)
                        }
                    };
                    if d != u32::MAX { self.set(st, d + k as u32, r); }
                }
            }
            B::UAddO | B::USubO | B::UMulO | B::SAddO | B::SSubO | B::SMulO => {
                let (x, y) = (av[0], av[1]);
                let (r, o) = match b {
                    B::UAddO => { let s = self.bin(Op::Add, w, x, y); let c = self.cmp(Pred::Ult, w, s, x); (s, c) }
                    B::USubO => { let s = self.bin(Op::Sub, w, x, y); let c = self.cmp(Pred::Ult, w, x, y); (s, c) }
                    B::UMulO => {
                        let s = self.bin(Op::Mul, w, x, y);
                        let c = match (x, y) {
                            (V::C(a), V::C(b)) => V::C(a.checked_mul(b).map_or(true, |p| p > mask(w)) as u128),
                            (a, V::C(k)) | (V::C(k), a) => if k == 0 { V::C(0) } else { self.cmp(Pred::Ugt, w, a, V::C(mask(w) / k)) },
                            _ => { if w > 64 { return Err(Stop::Inconclusive("umulo".into())); } let (p, q) = (self.zext(x, w, 2 * w), self.zext(y, w, 2 * w)); let m = self.bin(Op::Mul, 2 * w, p, q); self.cmp(Pred::Ugt, 2 * w, m, V::C(mask(w))) }
                        };
                        (s, c)
                    }
                    _ => {
                        if w > 64 { return Err(Stop::Inconclusive("smulo".into())); }
                        let w2 = 2 * w;
                        let (ex, ey) = (self.e(x, w), self.e(y, w));
                        let (p, q) = (self.ar.sext(ex, w2), self.ar.sext(ey, w2));
                        let op = match b { B::SAddO => Op::Add, B::SSubO => Op::Sub, _ => Op::Mul };
                        let m = self.ar.bin(op, p, q);
                        let lo = self.ar.extract(m, 0, w);
                        let back = self.ar.sext(lo, w2);
                        let eq = self.ar.cmp(Op::Eq, back, m);
                        let ne = self.ar.not1(eq);
                        (self.mk(lo), self.mk(ne))
                    }
                };
                if d != u32::MAX { self.set(st, d, r); self.set(st, d + 1, o); }
            }
            B::Bswap => {
                let v = av[0];
                let r = match v { V::C(c) => V::C((c as u128).swap_bytes() >> (128 - w)), V::S(e) => {
                    let mut r: E = self.ar.extract(e, 0, 8);
                    let mut k = 8; while k < w { let x = self.ar.extract(e, k, 8); r = self.ar.concat(r, x); k += 8; }
                    self.mk(r) } };
                ret!(r)
            }
            B::BitRev => {
                let r = match av[0] { V::C(c) => V::C(c.reverse_bits() >> (128 - w)), V::S(e) => { let mut r = self.ar.extract(e, 0, 1); for k in 1..w { let x = self.ar.extract(e, k, 1); r = self.ar.concat(r, x); } self.mk(r) } };
                ret!(r)
            }
            B::Fshl | B::Fshr => {
                for k in 0..ret.len() {
                    let n = ret.len();
                    let (x, y, s) = (av[k], av[n + k], av[2 * n + k]);
                    let w = ret[k];
                    let s = self.concretize(st, s, w)? as u32 % w;
                    let s = if b == B::Fshl { s } else { (w - s) % w };
                    let r = if s == 0 { if b == B::Fshl { x } else { y } } else {
                        let h = self.extr(x, 0, w - s); let l = self.extr(y, w - s, s);
                        match (h, l) { (V::C(h), V::C(l)) => V::C((h << s) | l), _ => { let (h, l) = (self.e(h, w - s), self.e(l, s)); let r = self.ar.concat(h, l); self.mk(r) } }
                    };
                    if d != u32::MAX { self.set(st, d + k as u32, r); }
                }
            }
            B::Ctlz | B::Cttz => {
                let r = match av[0] {
                    V::C(c) => V::C(if c == 0 { w as u128 } else if b == B::Ctlz { (c.leading_zeros() - (128 - w)) as u128 } else { c.trailing_zeros() as u128 }),
                    V::S(e) => {
                        let mut acc = V::C(w as u128);
                        for k in 0..w {
                            let bit = if b == B::Ctlz { k } else { w - 1 - k };
                            let t = self.ar.extract(e, bit, 1);
                            let n = if b == B::Ctlz { w - 1 - bit } else { bit };
                            let t = self.mk(t);
                            acc = self.sel(t, w, V::C(n as u128), acc);
                        }
                        acc
                    }
                };
                ret!(r)
            }
            B::Ctpop => {
                let r = match av[0] { V::C(c) => V::C(c.count_ones() as u128), V::S(e) => { let mut acc = V::C(0); for k in 0..w { let t = self.ar.extract(e, k, 1); let z = self.ar.zext(t, w); let z = self.mk(z); acc = self.bin(Op::Add, w, acc, z); } acc } };
                ret!(r)
            }
            B::Abs => { let c = self.cmp(Pred::Slt, w, av[0], V::C(0)); let n = self.bin(Op::Sub, w, V::C(0), av[0]); let r = self.sel(c, w, n, av[0]); ret!(r) }
            B::Ucmp | B::Scmp => {
                let aw = args[0].1;
                let p = if b == B::Ucmp { Pred::Ult } else { Pred::Slt };
                let lt = self.cmp(p, aw, av[0], av[1]); let gt = self.cmp(p, aw, av[1], av[0]);
                let g = self.sel(gt, w, V::C(1), V::C(0)); let r = self.sel(lt, w, V::C(mask(w)), g);
                ret!(r)
            }
            B::IsConst => ret!(V::C(0)),
            B::Tls | B::Expect => ret!(av[0]),
            B::LoadRel => {
                let p = self.bin(Op::Add, 64, av[0], av[1]);
                let o = self.load(st, p, 32)?;
                let o = self.concretize(st, o, 32)?;
                let o = V::C(sx(o, 32) as u128 & mask(64));
                let r = self.bin(Op::Add, 64, av[0], o);
                ret!(r)
            }
            B::ReduceOr | B::ReduceAnd | B::ReduceAdd => {
                let op = match b { B::ReduceOr => Op::Or, B::ReduceAnd => Op::And, _ => Op::Add };
                let mut acc = av[0];
                for v in &av[1..] { acc = self.bin(op, w, acc, *v); }
                ret!(acc)
            }
            B::Pmovmskb => {
                let mut acc = V::C(0);
                for (k, v) in av.iter().enumerate() { let t = self.extr(*v, 7, 1); let z = self.zext(t, 1, 32); let z = self.bin(Op::Shl, 32, z, V::C(k as u128)); acc = self.bin(Op::Or, 32, acc, z); }
                ret!(acc)
            }
        }
        Ok(())
    }
    fn sel(&mut self, c: V, w: u32, a: V, b: V) -> V { match c { V::C(c) => if c & 1 == 1 { a } else { b }, V::S(e) => self.ite(e, w, a, b) } }
    pub fn fork_report(&self) -> Vec<(u64, String)> {
        let mut v: Vec<(u64, String)> = self.fork_sites.iter().map(|((f, b, i), n)| {
            let fun = self.funcs[*f as usize].unwrap();
            let dbg = fun.blocks[*b as usize].ins[*i as usize].1;
            let ch = self.m.loc_chain(dbg);
            let s = if ch.is_empty() { fun.name.clone() } else { ch.iter().take(6).map(|(n, f, l)| format!("{} {}:{}", n.split('|').next().unwrap(), short(f), l)).collect::<Vec<_>>().join(" < ") };
            (*n, s)
        }).collect();
        v.sort_by(|a, b| b.0.cmp(&a.0));
        v
    }
    pub fn covered_locs(&self) -> (std::collections::BTreeSet<String>, std::collections::BTreeSet<(String, u32)>) {
        let mut fns = std::collections::BTreeSet::new();
        let mut lines = std::collections::BTreeSet::new();
        let mut seen = HashSet::new();
        for (f, b) in &self.covered {
            let fun = match self.funcs[*f as usize] { Some(x) => x, None => continue };
            for (_, dbg) in &fun.blocks[*b as usize].ins {
                if *dbg == 0 || !seen.insert(*dbg) { continue; }
                for (n, file, line) in self.m.loc_chain(*dbg) {
                    if let Some(i) = file.find("/repo/") {
                        let rel = &file[i + 6..];
                        fns.insert(format!("{}::{}", rel, n.split('|').next().unwrap()));
                        lines.insert((rel.to_string(), line));
                    }
                }
            }
        }
        (fns, lines)
    }
}

pub fn short(f: &str) -> String {
    for k in ["/repo/", "/verif/", "/library/", "/registry/src/"] { if let Some(i) = f.find(k) { let r = &f[i + k.len()..]; return if k == "/registry/src/" { r.splitn(2, '/').nth(1).unwrap_or(r).to_string() } else { r.to_string() }; } }
    f.to_string()
}
