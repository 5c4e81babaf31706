//! Thin FFI to the system libz3: expressions to Z3 bit-vectors, satisfiability, models.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, mc: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sat { Sat, Unsat, Unknown }

pub struct Z3 {
    c: P, s: P,
    memo: Vec<P>,
    vars: Vec<P>,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64,
    pub ns: u64, pub max_ns: u64,
    pub dump: Option<std::path::PathBuf>,
    dumped: u64,
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().into_owned();
        eprintln!("z3 error: {}", m);
        std::process::exit(3);
    }
}

pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let set = |k: &str, v: &str| { let a = CString::new(k).unwrap(); let b = CString::new(v).unwrap(); Z3_global_param_set(a.as_ptr(), b.as_ptr()); };
            set("auto_config", "false");
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), rlimit);
            let k = CString::new("random_seed").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 1);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, memo: vec![], vars: vec![], queries: 0, sat: 0, unsat: 0, unknown: 0, ns: 0, max_ns: 0, dump: None, dumped: 0 }
        }
    }
    fn var(&mut self, i: usize) -> P {
        unsafe {
            while self.vars.len() <= i {
                let nm = CString::new(format!("v{}", self.vars.len())).unwrap();
                let v = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, nm.as_ptr()), Z3_mk_bv_sort(self.c, 8));
                self.vars.push(v);
            }
            self.vars[i]
        }
    }
    // width-1 expressions are Z3 Bool; others BitVec
    fn ast(&mut self, ar: &Arena, root: E) -> P {
        if self.memo.len() < ar.nodes.len() { self.memo.resize(ar.nodes.len(), std::ptr::null_mut()); }
        let mut st = vec![root];
        while let Some(&e) = st.last() {
            if !self.memo[e as usize].is_null() { st.pop(); continue; }
            let n = ar.nodes[e as usize];
            let kids: &[u32] = match n.op {
                Op::Const | Op::Var => &[],
                Op::Extract | Op::SExt | Op::Not => &[n.a][..],
                Op::Ite => &[n.a, n.b, n.c][..],
                _ => &[n.a, n.b][..],
            };
            let mut ready = true;
            for &k in kids { if self.memo[k as usize].is_null() { st.push(k); ready = false; } }
            if !ready { continue; }
            let c = self.c;
            let w = n.w as u32;
            unsafe {
                let g = |z: &Self, k: u32| z.memo[k as usize];
                let wk = |k: u32| ar.w(k);
                // bit-vector view of a child (bools become 1-bit vectors)
                let bv = |z: &Self, k: u32| -> P {
                    if wk(k) == 1 { let s1 = Z3_mk_bv_sort(c, 1); Z3_mk_ite(c, z.memo[k as usize], Z3_mk_unsigned_int64(c, 1, s1), Z3_mk_unsigned_int64(c, 0, s1)) } else { z.memo[k as usize] }
                };
                let r = match n.op {
                    Op::Const => {
                        let v = ar.cval(e).unwrap();
                        if w == 1 { if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } }
                        else if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, w)) }
                        else { let s = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, w)) }
                    }
                    Op::Var => { let i = n.a as usize; self.var(i) }
                    Op::Not => Z3_mk_not(c, g(self, n.a)),
                    Op::Eq => Z3_mk_eq(c, g(self, n.a), g(self, n.b)),
                    Op::Ite => Z3_mk_ite(c, g(self, n.a), g(self, n.b), g(self, n.c)),
                    Op::And if w == 1 => { let v = [g(self, n.a), g(self, n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                    Op::Or if w == 1 => { let v = [g(self, n.a), g(self, n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                    Op::Xor if w == 1 => Z3_mk_xor(c, g(self, n.a), g(self, n.b)),
                    Op::Concat => Z3_mk_concat(c, bv(self, n.a), bv(self, n.b)),
                    Op::Extract => {
                        let x = Z3_mk_extract(c, n.c + w - 1, n.c, bv(self, n.a));
                        if w == 1 { Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))) } else { x }
                    }
                    Op::SExt => Z3_mk_sign_ext(c, w - wk(n.a), bv(self, n.a)),
                    op => {
                        let (x, y) = (bv(self, n.a), bv(self, n.b));
                        let r = match op {
                            Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
                            Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::URem => Z3_mk_bvurem(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
                            Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y),
                            Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
                            Op::Ult => Z3_mk_bvult(c, x, y), Op::Ule => Z3_mk_bvule(c, x, y), Op::Slt => Z3_mk_bvslt(c, x, y), Op::Sle => Z3_mk_bvsle(c, x, y),
                            _ => unreachable!(),
                        };
                        let cmp = matches!(op, Op::Ult | Op::Ule | Op::Slt | Op::Sle);
                        if w == 1 && !cmp { Z3_mk_eq(c, r, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))) } else { r }
                    }
                };
                self.memo[e as usize] = r;
            }
            st.pop();
        }
        self.memo[root as usize]
    }
    /// Conjunction satisfiable?  On Sat returns values for `want` variables.
    pub fn check(&mut self, ar: &Arena, cs: &[E], want: &[u32]) -> (Sat, Vec<(u32, u8)>) {
        let t0 = Instant::now();
        self.queries += 1;
        let asts: Vec<P> = cs.iter().map(|&e| self.ast(ar, e)).collect();
        let mut out = vec![];
        let r;
        unsafe {
            Z3_solver_push(self.c, self.s);
            for a in asts { Z3_solver_assert(self.c, self.s, a); }
            r = match Z3_solver_check(self.c, self.s) { 1 => Sat::Sat, -1 => Sat::Unsat, _ => Sat::Unknown };
            if let Some(d) = &self.dump {
                if self.dumped < 40 || self.queries % 64 == 0 && self.dumped < 200 {
                    let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                    let _ = std::fs::write(d.join(format!("q{}_{}.smt2", std::process::id(), self.dumped)),
                        format!("(set-logic QF_BV)\n(set-info :status {})\n{}(check-sat)\n", match r { Sat::Sat => "sat", Sat::Unsat => "unsat", _ => "unknown" }, s));
                    self.dumped += 1;
                }
            }
            if r == Sat::Sat {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                for &v in want {
                    let a = self.var(v as usize);
                    let mut o: P = std::ptr::null_mut();
                    let mut u = 0u64;
                    if Z3_model_eval(self.c, m, a, true, &mut o) { Z3_get_numeral_uint64(self.c, o, &mut u); }
                    out.push((v, u as u8));
                }
                Z3_model_dec_ref(self.c, m);
            }
            Z3_solver_pop(self.c, self.s, 1);
        }
        match r { Sat::Sat => self.sat += 1, Sat::Unsat => self.unsat += 1, _ => self.unknown += 1 }
        let d = t0.elapsed().as_nanos() as u64;
        self.ns += d;
        if d > self.max_ns { self.max_ns = d; }
        (r, out)
    }
}
