//! Hash-consed bit-vector expressions (width 1..=128) over byte variables,
//! with a construction-time simplifier and interval analysis.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Op {
    Const, Var, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, SExt, Not,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: u32, pub b: u32, pub c: u32 }

pub const MAXVARS: usize = 320;
pub type Sup = [u64; 5];

/// An assignment of the input bytes; the id is unique (memo key).
pub struct Model { pub id: u64, pub v: Vec<u8> }
impl Model {
    pub fn new(v: Vec<u8>) -> Model {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(1);
        Model { id: N.fetch_add(1, Ordering::Relaxed), v }
    }
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub sup: Vec<Sup>,
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    pub leaves: Vec<u16>, // >0: ite tree with that many constant leaves
    map: HashMap<Node, E>,
    consts: Vec<u128>,
    cmap: HashMap<(u128, u16), E>,
    // evaluation memo
    ev: Vec<u128>,
    ev_stamp: Vec<u32>,
    stamp: u32,
    cur_model: u64,
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { let s = 128 - w; ((v << s) as i128) >> s }

#[inline] pub fn fold(op: Op, w: u32, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => if y == 0 { m } else { x / y },
        Op::URem => if y == 0 { x } else { x % y },
        Op::SDiv => if y == 0 { 0 } else { (sx(x, w).wrapping_div(sx(y, w))) as u128 & m },
        Op::SRem => if y == 0 { x } else { (sx(x, w).wrapping_rem(sx(y, w))) as u128 & m },
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        Op::LShr => if y >= w as u128 { 0 } else { x >> y },
        Op::AShr => { let s = if y >= w as u128 { w - 1 } else { y as u32 }; (sx(x, w) >> s) as u128 & m }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sx(x, w) < sx(y, w)) as u128,
        Op::Sle => (sx(x, w) <= sx(y, w)) as u128,
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { nodes: vec![], sup: vec![], lo: vec![], hi: vec![], leaves: vec![], map: HashMap::new(), consts: vec![], cmap: HashMap::new(), ev: vec![], ev_stamp: vec![], stamp: 0, cur_model: 0 };
        // node 0 = dummy so that 0 can mean "concrete"
        a.nodes.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0 });
        a.consts.push(0);
        a.sup.push([0; 5]); a.lo.push(0); a.hi.push(0); a.leaves.push(1);
        a.ev.push(0); a.ev_stamp.push(0);
        a
    }
    pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w as u32 }
    pub fn cval(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(self.consts[n.a as usize]) } else { None }
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        let v = v & mask(w);
        if let Some(&e) = self.cmap.get(&(v, w as u16)) { return e; }
        self.consts.push(v);
        let e = self.push(Node { op: Op::Const, w: w as u16, a: (self.consts.len() - 1) as u32, b: 0, c: 0 }, [0; 5], v, v, 1);
        self.cmap.insert((v, w as u16), e);
        e
    }
    pub fn tt(&mut self) -> E { self.konst(1, 1) }
    pub fn ff(&mut self) -> E { self.konst(0, 1) }
    fn push(&mut self, n: Node, s: Sup, lo: u128, hi: u128, leaves: u16) -> E {
        self.nodes.push(n);
        self.sup.push(s); self.lo.push(lo); self.hi.push(hi); self.leaves.push(leaves);
        self.ev.push(0); self.ev_stamp.push(0);
        (self.nodes.len() - 1) as E
    }
    pub fn var(&mut self, i: u32) -> E {
        let n = Node { op: Op::Var, w: 8, a: i, b: 0, c: 0 };
        if let Some(&e) = self.map.get(&n) { return e; }
        assert!((i as usize) < MAXVARS);
        let mut s = [0u64; 5];
        s[(i / 64) as usize] |= 1 << (i % 64);
        let e = self.push(n, s, 0, 255, 0);
        self.map.insert(n, e);
        e
    }
    fn raw(&mut self, op: Op, w: u32, a: E, b: E, c: E) -> E {
        let n = Node { op, w: w as u16, a, b, c };
        if let Some(&e) = self.map.get(&n) { return e; }
        let mut s = self.sup[a as usize];
        let nk = match op { Op::Extract | Op::SExt | Op::Not => 1, Op::Ite => 3, _ => 2 };
        if nk >= 2 { for i in 0..5 { s[i] |= self.sup[b as usize][i]; } }
        if nk >= 3 { for i in 0..5 { s[i] |= self.sup[c as usize][i]; } }
        let (lo, hi) = self.interval(op, w, a, b, c);
        let leaves = if op == Op::Ite && self.leaves[b as usize] > 0 && self.leaves[c as usize] > 0 {
            self.leaves[b as usize].saturating_add(self.leaves[c as usize]) } else { 0 };
        let e = self.push(n, s, lo, hi, leaves);
        self.map.insert(n, e);
        e
    }
    fn interval(&self, op: Op, w: u32, a: E, b: E, c: E) -> (u128, u128) {
        let m = mask(w);
        let (al, ah) = (self.lo[a as usize], self.hi[a as usize]);
        let (bl, bh) = if matches!(op, Op::Extract | Op::SExt | Op::Not) { (0, 0) } else { (self.lo[b as usize], self.hi[b as usize]) };
        match op {
            Op::Add => match (al.checked_add(bl), ah.checked_add(bh)) { (Some(l), Some(h)) if h <= m => (l, h), _ => (0, m) },
            Op::Sub => if al >= bh { (al - bh, ah - bl) } else { (0, m) },
            Op::Mul => match (al.checked_mul(bl), ah.checked_mul(bh)) { (Some(l), Some(h)) if h <= m => (l, h), _ => (0, m) },
            Op::UDiv => if bl > 0 { (al / bh, ah / bl) } else { (0, m) },
            Op::URem => if bl > 0 { (0, (bh - 1).min(ah)) } else { (0, m) },
            Op::And => (0, ah.min(bh)),
            Op::Or => { let t = ah | bh; let bits = 128 - t.leading_zeros(); (al.max(bl), mask(bits)) }
            Op::Xor => { let t = ah | bh; let bits = 128 - t.leading_zeros(); (0, mask(bits)) }
            Op::LShr => (0, if bl < 128 { ah >> bl } else { 0 }),
            Op::Ite => (self.lo[b as usize].min(self.lo[c as usize]), self.hi[b as usize].max(self.hi[c as usize])),
            Op::Concat => { let wb = self.w(b); ((al << wb) | bl, (ah << wb) | bh) }
            Op::Extract => { if c == 0 { if ah <= m { (al, ah) } else { (0, m) } }
                else { (0, (ah >> c).min(m)) } }
            _ => (0, m),
        }
    }
    pub fn not1(&mut self, a: E) -> E {
        let n = self.nodes[a as usize];
        match n.op {
            Op::Const => { let v = self.cval(a).unwrap(); self.konst(v ^ 1, 1) }
            Op::Not => n.a,
            Op::Ult => self.cmp(Op::Ule, n.b, n.a),
            Op::Ule => self.cmp(Op::Ult, n.b, n.a),
            Op::Slt => self.cmp(Op::Sle, n.b, n.a),
            Op::Sle => self.cmp(Op::Slt, n.b, n.a),
            _ => self.raw(Op::Not, 1, a, 0, 0),
        }
    }
    pub fn cmp(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { let r = fold(op, w, x, y); return self.konst(r, 1); }
        if a == b { let v = matches!(op, Op::Eq | Op::Ule | Op::Sle); return self.konst(v as u128, 1); }
        let (al, ah, bl, bh) = (self.lo[a as usize], self.hi[a as usize], self.lo[b as usize], self.hi[b as usize]);
        match op {
            Op::Eq => if ah < bl || bh < al { return self.ff(); }
            Op::Ult => { if ah < bl { return self.tt(); } if al >= bh { return self.ff(); } }
            Op::Ule => { if ah <= bl { return self.tt(); } if al > bh { return self.ff(); } }
            Op::Slt | Op::Sle => {
                let half = mask(w) >> 1;
                let an = if ah <= half { 0 } else if al > half { 1 } else { 2 };
                let bn = if bh <= half { 0 } else if bl > half { 1 } else { 2 };
                if an < 2 && bn < 2 {
                    if an == bn { return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
                    return self.konst((an == 1) as u128, 1);
                }
                // sign test
                if op == Op::Slt && self.cval(b) == Some(0) { return self.extract(a, w - 1, 1); }
                if op == Op::Sle && self.cval(a) == Some(0) { let s = self.extract(a, w - 1, 1); let _ = s; let t = self.extract(b, w - 1, 1); return self.not1(t); }
                if op == Op::Slt && self.cval(a) == Some(mask(w)) { let t = self.extract(b, w - 1, 1); return self.not1(t); }
                if op == Op::Sle && self.cval(b) == Some(mask(w)) { return self.extract(a, w - 1, 1); }
            }
            _ => {}
        }
        let (mut a, mut b) = (a, b);
        if op == Op::Eq {
            if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
            if w == 1 {
                if let Some(v) = self.cval(b) { return if v == 1 { a } else { self.not1(a) }; }
            }
            if let Some(v) = self.cval(b) {
                let n = self.nodes[a as usize];
                match n.op {
                    Op::Concat => {
                        let wl = self.w(n.b);
                        let (hv, lv) = (v >> wl, v & mask(wl));
                        let wh = self.w(n.a);
                        let ck = self.konst(hv, wh); let h = self.cmp(Op::Eq, n.a, ck);
                        if self.cval(h) == Some(0) { return h; }
                        let ck = self.konst(lv, wl); let l = self.cmp(Op::Eq, n.b, ck);
                        return self.bin(Op::And, h, l);
                    }
                    Op::Add => if let Some(k) = self.cval(n.b) {
                        let ck = self.konst(v.wrapping_sub(k), w); return self.cmp(Op::Eq, n.a, ck);
                    }
                    Op::Xor => if let Some(k) = self.cval(n.b) {
                        let ck = self.konst(v ^ k, w); return self.cmp(Op::Eq, n.a, ck);
                    }
                    Op::SExt => {
                        let wi = self.w(n.a);
                        if sx(v & mask(wi), wi) as u128 & mask(w) != v { return self.ff(); }
                        let ck = self.konst(v, wi); return self.cmp(Op::Eq, n.a, ck);
                    }
                    Op::Ite => {
                        if self.cval(n.b).is_some() || self.cval(n.c).is_some() || (self.leaves[a as usize] > 0 && self.leaves[a as usize] <= 300) {
                            let x = self.cmp(Op::Eq, n.b, b); let y = self.cmp(Op::Eq, n.c, b);
                            return self.ite(n.a, x, y);
                        }
                    }
                    _ => {}
                }
            } else {
                // piecewise equality of aligned concats
                let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                    let h = self.cmp(Op::Eq, na.a, nb.a);
                    if self.cval(h) == Some(0) { return h; }
                    let l = self.cmp(Op::Eq, na.b, nb.b);
                    return self.bin(Op::And, h, l);
                }
                // equalities between xor terms (masking) are left to the solver
                if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b { return self.cmp(Op::Eq, na.a, nb.a); }
            }
            return self.raw(Op::Eq, 1, a, b, 0);
        }
        // unsigned with zero-extended operands: strip common zero high part
        if matches!(op, Op::Ult | Op::Ule) {
            let zl = |s: &Self, e: E| -> u32 {
                if let Some(v) = s.cval(e) { return (128 - v.leading_zeros()).max(1); }
                let n = s.nodes[e as usize];
                if n.op == Op::Concat && s.cval(n.a) == Some(0) { s.w(n.b) } else { s.w(e) }
            };
            let k = zl(self, a).max(zl(self, b));
            if k < w {
                let x = self.extract(a, 0, k); let y = self.extract(b, 0, k);
                return self.cmp(op, x, y);
            }
            // x < 1  <=> x == 0 ;  0 < x <=> x != 0 ; x <= 0
            if op == Op::Ult && self.cval(b) == Some(1) || op == Op::Ule && self.cval(b) == Some(0) { let z = self.konst(0, w); return self.cmp(Op::Eq, a, z); }
            if op == Op::Ult && self.cval(a) == Some(0) { let z = self.konst(0, w); let q = self.cmp(Op::Eq, b, z); return self.not1(q); }
            // canonical: constants with Ule -> Ult
            if op == Op::Ule { if let Some(v) = self.cval(b) { if v < mask(w) { let k = self.konst(v + 1, w); return self.cmp(Op::Ult, a, k); } } }
            if op == Op::Ule { if let Some(v) = self.cval(a) { if v > 0 { let k = self.konst(v - 1, w); return self.cmp(Op::Ult, k, b); } } }
        }
        if self.cval(b).is_some() && self.leaves[a as usize] > 0 && self.leaves[a as usize] <= 300 {
            let n = self.nodes[a as usize];
            let x = self.cmp(op, n.b, b); let y = self.cmp(op, n.c, b);
            return self.ite(n.a, x, y);
        }
        if self.cval(a).is_some() && self.leaves[b as usize] > 0 && self.leaves[b as usize] <= 300 {
            let n = self.nodes[b as usize];
            let x = self.cmp(op, a, n.b); let y = self.cmp(op, a, n.c);
            return self.ite(n.a, x, y);
        }
        self.raw(op, 1, a, b, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cval(c) { return if v == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        let nc = self.nodes[c as usize];
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not1(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not1(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        let nb = self.nodes[b as usize];
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        let na = self.nodes[a as usize];
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        // common high zero part: ite(c, 0:x, 0:y) = 0:ite(c,x,y)
        if w > 1 {
            let k = (128 - self.hi[a as usize].leading_zeros()).max(128 - self.hi[b as usize].leading_zeros()).max(1);
            if k < w && (na.op == Op::Concat || na.op == Op::Const) && (nb.op == Op::Concat || nb.op == Op::Const) && !(na.op == Op::Const && nb.op == Op::Const) {
                let x = self.extract(a, 0, k); let y = self.extract(b, 0, k);
                let r = self.ite(c, x, y);
                return self.zext(r, w);
            }
        }
        self.raw(Op::Ite, w, c, a, b)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        assert!(w <= 128);
        if let (Some(x), Some(y)) = (self.cval(h), self.cval(l)) { return self.konst((x << wl) | y, w); }
        let nh = self.nodes[h as usize];
        let nl = self.nodes[l as usize];
        // merge adjacent extracts
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.c == nl.c + wl {
            return self.extract(nh.a, nl.c, w);
        }
        // h adjacent to the top piece of l
        if nl.op == Op::Concat {
            let nlh = self.nodes[nl.a as usize];
            if nh.op == Op::Extract && nlh.op == Op::Extract && nh.a == nlh.a && nh.c == nlh.c + self.w(nl.a) {
                let m = self.extract(nh.a, nlh.c, self.w(nl.a) + wh);
                return self.concat(m, nl.b);
            }
            if self.cval(h).is_some() && self.cval(nl.a).is_some() {
                let m = self.concat(h, nl.a);
                return self.concat(m, nl.b);
            }
        }
        // an extract of x directly above x truncated: extract(x,k..) ++ (whole-width x handled via extract merge)
        // right-nest
        if nh.op == Op::Concat {
            let t = self.concat(nh.b, l);
            return self.concat(nh.a, t);
        }
        if self.leaves[l as usize] > 1 && self.leaves[l as usize] <= 64 && self.cval(h) == Some(0) { /* keep zext over ite trees as concat */ }
        self.raw(Op::Concat, w, h, l, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w { return a; }
        let z = self.konst(0, w - wa);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w { return a; }
        if let Some(v) = self.cval(a) { return self.konst(sx(v, wa) as u128, w); }
        if self.hi[a as usize] <= mask(wa) >> 1 { return self.zext(a, w); }
        if self.nodes[a as usize].op == Op::SExt { let x = self.nodes[a as usize].a; return self.raw(Op::SExt, w, x, 0, 0); }
        if self.leaves[a as usize] > 0 && self.leaves[a as usize] <= 300 {
            let n = self.nodes[a as usize];
            let x = self.sext(n.b, w); let y = self.sext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.raw(Op::SExt, w, a, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        debug_assert!(lo + w <= wa);
        if w == wa { return a; }
        if let Some(v) = self.cval(a) { return self.konst(v >> lo, w); }
        if self.hi[a as usize] >> lo == 0 { return self.konst(0, w); }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, n.c + lo, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl { return self.extract(n.a, lo - wl, w); }
                if lo + w <= wl { return self.extract(n.b, lo, w); }
                let h = self.extract(n.a, 0, lo + w - wl);
                let l = self.extract(n.b, lo, wl - lo);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.cval(n.b).is_some() || self.cval(n.c).is_some() || w < wa {
                    let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi { return self.extract(n.a, lo, w); }
                if lo == 0 { return self.sext(n.a, w); }
                if lo >= wi - 1 { let s = self.extract(n.a, wi - 1, 1); return self.sext(s, w); }
            }
            Op::Not => {}
            _ => {}
        }
        self.raw(Op::Extract, w, a, 0, lo)
    }
    fn pieces(&self, e: E, out: &mut Vec<(E, u32)>) {
        // high to low
        let n = self.nodes[e as usize];
        if n.op == Op::Concat { self.pieces(n.a, out); self.pieces(n.b, out); } else { out.push((e, self.w(e))); }
    }
    /// Bitwise op over aligned pieces when at least one side is built from concats.
    fn bitwise_pieces(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let isc = |s: &Self, e: E| s.nodes[e as usize].op == Op::Concat;
        if !isc(self, a) && !isc(self, b) {
            // constant mask on a plain expression
            let v = self.cval(b)?;
            let w = self.w(a);
            if op == Op::And {
                // contiguous ones
                if v == 0 { return None; }
                let lo = v.trailing_zeros();
                let t = v >> lo;
                if t & (t + 1) == 0 {
                    let k = 128 - t.leading_zeros();
                    if k == w { return None; }
                    let x = self.extract(a, lo, k);
                    let mut r = x;
                    if lo > 0 { let z = self.konst(0, lo); r = self.concat(r, z); }
                    return Some(self.zext(r, w));
                }
            }
            return None;
        }
        let mut pa = vec![]; let mut pb = vec![];
        self.pieces(a, &mut pa); self.pieces(b, &mut pb);
        // cut points from low
        let mut cuts: Vec<u32> = vec![];
        for p in [&pa, &pb] { let mut o = 0; for (_, w) in p.iter().rev() { o += *w; cuts.push(o); } }
        // constants: cut at boundaries of runs of zeros/ones
        for p in [&pa, &pb] {
            let mut o = 0;
            for (e, w) in p.iter().rev() {
                if let Some(v) = self.cval(*e) {
                    for i in 1..*w { if (v >> i) & 1 != (v >> (i - 1)) & 1 { cuts.push(o + i); } }
                }
                o += *w;
            }
        }
        cuts.sort(); cuts.dedup();
        if cuts.len() > 40 { return None; }
        let mut lo = 0;
        let mut res: Option<E> = None;
        for c in cuts {
            let w = c - lo;
            let x = self.extract(a, lo, w); let y = self.extract(b, lo, w);
            let m = mask(w);
            let r = match (op, self.cval(x), self.cval(y)) {
                (_, Some(p), Some(q)) => { let v = fold(op, w, p, q); self.konst(v, w) }
                (Op::And, Some(0), _) | (Op::And, _, Some(0)) => self.konst(0, w),
                (Op::And, Some(v), _) if v == m => y,
                (Op::And, _, Some(v)) if v == m => x,
                (Op::Or, Some(0), _) | (Op::Xor, Some(0), _) => y,
                (Op::Or, _, Some(0)) | (Op::Xor, _, Some(0)) => x,
                (Op::Or, Some(v), _) | (Op::Or, _, Some(v)) if v == m => self.konst(m, w),
                _ => {
                    if x == y && op != Op::Xor { x }
                    else if x == y { self.konst(0, w) }
                    else { let (x, y) = if self.cval(x).is_some() || (self.cval(y).is_none() && x > y) { (y, x) } else { (x, y) }; self.raw(op, w, x, y, 0) }
                }
            };
            res = Some(match res { None => r, Some(l) => self.concat(r, l) });
            lo = c;
        }
        res
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { let r = fold(op, w, x, y); return self.konst(r, w); }
        let (mut a, mut b) = (a, b);
        let m = mask(w);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) {
            if self.cval(a).is_some() || (self.cval(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let cb = self.cval(b);
        let na = self.nodes[a as usize];
        let nb = self.nodes[b as usize];
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if w == 1 { return self.bin(Op::Xor, a, b); }
                if let Some(k) = cb {
                    if na.op == Op::Add { if let Some(k2) = self.cval(na.b) { let s = self.konst(k.wrapping_add(k2), w); return self.bin(Op::Add, na.a, s); } }
                    if self.leaves[a as usize] > 0 && self.leaves[a as usize] <= 300 { let x = self.bin(Op::Add, na.b, b); let y = self.bin(Op::Add, na.c, b); return self.ite(na.a, x, y); }
                } else {
                    // float constants outwards
                    if na.op == Op::Add && self.cval(na.b).is_some() { let s = self.bin(Op::Add, na.a, b); return self.bin(Op::Add, s, na.b); }
                    if nb.op == Op::Add && self.cval(nb.b).is_some() { let s = self.bin(Op::Add, a, nb.a); return self.bin(Op::Add, s, nb.b); }
                    if nb.op == Op::Sub && nb.b == a { return nb.a; }
                    if na.op == Op::Sub && na.b == b { return na.a; }
                }
            }
            Op::Sub => {
                if a == b { return self.konst(0, w); }
                if w == 1 { return self.bin(Op::Xor, a, b); }
                if let Some(k) = cb { let nk = self.konst(k.wrapping_neg(), w); return self.bin(Op::Add, a, nk); }
                let (xa, ka) = if na.op == Op::Add && self.cval(na.b).is_some() { (na.a, self.cval(na.b).unwrap()) } else { (a, 0) };
                let (xb, kb) = if nb.op == Op::Add && self.cval(nb.b).is_some() { (nb.a, self.cval(nb.b).unwrap()) } else { (b, 0) };
                if xa == xb { return self.konst(ka.wrapping_sub(kb), w); }
                if (ka != 0 || kb != 0) && self.cval(a).is_none() {
                    let s = self.bin(Op::Sub, xa, xb);
                    let k = self.konst(ka.wrapping_sub(kb), w);
                    return self.bin(Op::Add, s, k);
                }
                if na.op == Op::Add { if na.a == b { return na.b; } if na.b == b { return na.a; } }
            }
            Op::Mul => {
                if w == 1 { return self.bin(Op::And, a, b); }
                if let Some(k) = cb {
                    if k == 0 { return b; }
                    if k == 1 { return a; }
                    if k.is_power_of_two() { let s = self.konst(k.trailing_zeros() as u128, w); return self.bin(Op::Shl, a, s); }
                    if self.leaves[a as usize] > 0 && self.leaves[a as usize] <= 300 { let x = self.bin(op, na.b, b); let y = self.bin(op, na.c, b); return self.ite(na.a, x, y); }
                }
            }
            Op::UDiv => if let Some(k) = cb {
                if k == 1 { return a; }
                if k.is_power_of_two() { let s = self.konst(k.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, s); }
                if self.hi[a as usize] < k && k > 0 { return self.konst(0, w); }
            }
            Op::URem => if let Some(k) = cb {
                if k == 1 { return self.konst(0, w); }
                if k.is_power_of_two() { let s = self.konst(k - 1, w); return self.bin(Op::And, a, s); }
                if self.hi[a as usize] < k { return a; }
            }
            Op::And | Op::Or | Op::Xor => {
                if a == b { return if op == Op::Xor { self.konst(0, w) } else { a }; }
                if let Some(k) = cb {
                    match op {
                        Op::And => { if k == 0 { return b; } if k == m { return a; } }
                        Op::Or => { if k == 0 { return a; } if k == m { return b; } }
                        Op::Xor => { if k == 0 { return a; } if w == 1 { return self.not1(a); } }
                        _ => {}
                    }
                    if na.op == op { if let Some(k2) = self.cval(na.b) { let v = fold(op, w, k, k2); let kk = self.konst(v, w); return self.bin(op, na.a, kk); } }
                }
                if w == 1 {
                    // complements
                    let nota = self.not1(a);
                    if nota == b { return match op { Op::And => self.ff(), _ => self.tt() }; }
                    if op == Op::And || op == Op::Or {
                        // absorption: a & (a & x), a | (a | x), a & (a|x), a | (a&x)
                        for (p, q, nq) in [(a, b, nb), (b, a, na)] {
                            let np = self.not1(p);
                            if nq.op == op && (nq.a == p || nq.b == p) { return q; }
                            if nq.op == op && (nq.a == np || nq.b == np) { return if op == Op::And { self.ff() } else { self.tt() }; }
                            if (nq.op == Op::And || nq.op == Op::Or) && nq.op != op && (nq.a == p || nq.b == p) { return p; }
                            if (nq.op == Op::And || nq.op == Op::Or) && nq.op != op && nq.a == np { return self.bin(op, p, nq.b); }
                            if (nq.op == Op::And || nq.op == Op::Or) && nq.op != op && nq.b == np { return self.bin(op, p, nq.a); }
                        }
                    }
                } else {
                    if cb.is_some() && self.leaves[a as usize] > 0 && self.leaves[a as usize] <= 300 { let x = self.bin(op, na.b, b); let y = self.bin(op, na.c, b); return self.ite(na.a, x, y); }
                    if let Some(r) = self.bitwise_pieces(op, a, b) { return r; }
                }
            }
            Op::Shl => if let Some(k) = cb {
                if k == 0 { return a; }
                if k >= w as u128 { return self.konst(0, w); }
                let k = k as u32;
                let x = self.extract(a, 0, w - k); let z = self.konst(0, k);
                return self.concat(x, z);
            }
            Op::LShr => if let Some(k) = cb {
                if k == 0 { return a; }
                if k >= w as u128 { return self.konst(0, w); }
                let k = k as u32;
                let x = self.extract(a, k, w - k);
                return self.zext(x, w);
            }
            Op::AShr => if let Some(k) = cb {
                if k == 0 { return a; }
                let k = (k as u32).min(w - 1);
                let x = self.extract(a, k, w - k);
                return self.sext(x, w);
            }
            _ => {}
        }
        self.raw(op, w, a, b, 0)
    }

    /// Evaluate under a model (byte per variable; missing = 0).
    pub fn eval(&mut self, e: E, model: &Model) -> u128 {
        if let Some(v) = self.cval(e) { return v; }
        if self.cur_model != model.id { self.cur_model = model.id; self.stamp += 1; }
        self.eval_rec(e, &model.v)
    }
    fn eval_rec(&mut self, root: E, model: &Vec<u8>) -> u128 {
        // explicit stack to survive deep DAGs
        let mut st: Vec<E> = vec![root];
        while let Some(&e) = st.last() {
            let i = e as usize;
            if self.ev_stamp[i] == self.stamp { st.pop(); continue; }
            let n = self.nodes[i];
            let w = n.w as u32;
            let v = match n.op {
                Op::Const => self.consts[n.a as usize],
                Op::Var => *model.get(n.a as usize).unwrap_or(&0) as u128,
                _ => {
                    let kids: &[u32] = match n.op { Op::Extract | Op::SExt | Op::Not => &[n.a][..], Op::Ite => &[n.a, n.b, n.c][..], _ => &[n.a, n.b][..] };
                    let mut ready = true;
                    if n.op == Op::Ite {
                        if self.ev_stamp[n.a as usize] != self.stamp { st.push(n.a); continue; }
                        let t = if self.ev[n.a as usize] == 1 { n.b } else { n.c };
                        if self.ev_stamp[t as usize] != self.stamp { st.push(t); continue; }
                        self.ev[t as usize]
                    } else {
                        for &k in kids { if self.ev_stamp[k as usize] != self.stamp { st.push(k); ready = false; } }
                        if !ready { continue; }
                        let x = self.ev[n.a as usize];
                        match n.op {
                            Op::Extract => (x >> n.c) & mask(w),
                            Op::SExt => sx(x, self.w(n.a)) as u128 & mask(w),
                            Op::Not => x ^ 1,
                            Op::Concat => { let wl = self.w(n.b); (x << wl) | self.ev[n.b as usize] }
                            op => fold(op, self.w(n.a), x, self.ev[n.b as usize]),
                        }
                    }
                }
            };
            self.ev[i] = v;
            self.ev_stamp[i] = self.stamp;
            st.pop();
        }
        self.ev[root as usize]
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.nodes[e as usize];
        if depth == 0 { return format!("#{}", e); }
        match n.op {
            Op::Const => format!("{:#x}:{}", self.consts[n.a as usize], n.w),
            Op::Var => format!("v{}", n.a),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.c, n.w),
            Op::SExt => format!("sext{}({})", n.w, self.show(n.a, depth - 1)),
            Op::Not => format!("!{}", self.show(n.a, depth - 1)),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
