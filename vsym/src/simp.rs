//! Simplification of terms under a path condition: known conditions, and consequences of the
//! order constraints in it (difference constraints over unsigned values without overflow).
use crate::term::*;
use std::collections::{HashMap, HashSet};

pub struct Facts {
    idx: HashMap<T, usize>,
    /// v - u <= w
    edges: Vec<(usize, usize, i128)>,
    /// bounds from a base, by base: computed on demand
    memo: HashMap<usize, Vec<i128>>,
}
const ZERO: T = T::MAX;
const INF: i128 = i128::MAX / 4;

/// The term as base + offset, without overflow.
fn lin(t: T) -> (T, i128) {
    let n = node(t);
    match n.op {
        Op::Const => (ZERO, n.k as i128),
        Op::ZExt => lin(n.a),
        Op::Add if n.w <= 64 => {
            let (ra, rb) = (range(n.a), range(n.b));
            if ra.1 + rb.1 > mask(n.w) {
                return (t, 0);
            }
            if let Some(k) = as_const(n.b) {
                let (b, o) = lin(n.a);
                return (b, o + k as i128);
            }
            // the same sum at another width is the same base
            if n.w < 64 {
                let s = |x: T| zext(strip(x), 64);
                let m = bin(Op::Add, s(n.a), s(n.b));
                let nm = node(m);
                if nm.op == Op::Add && nm.w == 64 && as_const(nm.b).is_none() {
                    return (m, 0);
                }
                if m != t && nm.op == Op::Add {
                    return lin(m);
                }
            }
            (t, 0)
        }
        _ => (t, 0),
    }
}
fn strip(t: T) -> T {
    let n = node(t);
    if n.op == Op::ZExt {
        strip(n.a)
    } else {
        t
    }
}

impl Facts {
    pub fn new(pc: &[T]) -> Facts {
        let mut f = Facts { idx: HashMap::new(), edges: vec![], memo: HashMap::new() };
        f.idx.insert(ZERO, 0);
        for t in pc {
            let n = node(*t);
            match n.op {
                Op::Ule => f.le(n.a, n.b, 0),
                Op::Ult => f.le(n.a, n.b, 1),
                Op::Eq if node(n.a).w > 1 => {
                    f.le(n.a, n.b, 0);
                    f.le(n.b, n.a, 0);
                }
                _ => {}
            }
        }
        // disequalities sharpen the order
        for t in pc {
            let n = node(*t);
            if n.op == Op::Xor && n.w == 1 && as_const(n.b) == Some(1) {
                let e = node(n.a);
                if e.op == Op::Eq && node(e.a).w > 1 {
                    if f.implied(e.a, e.b, 0) {
                        f.le(e.a, e.b, 1);
                        f.memo.clear();
                    } else if f.implied(e.b, e.a, 0) {
                        f.le(e.b, e.a, 1);
                        f.memo.clear();
                    }
                }
            }
        }
        f
    }
    fn base(&mut self, b: T) -> usize {
        if let Some(i) = self.idx.get(&b) {
            return *i;
        }
        let i = self.idx.len();
        self.idx.insert(b, i);
        let (lo, hi) = range(b);
        self.edges.push((0, i, hi as i128));
        self.edges.push((i, 0, -(lo as i128)));
        let n = node(b);
        if n.op == Op::Add && n.w <= 64 {
            let (ra, rb) = (range(n.a), range(n.b));
            if ra.1 + rb.1 <= mask(n.w) {
                for (x, r) in [(n.a, rb), (n.b, ra)] {
                    let (bx, ox) = lin(x);
                    let j = self.base(bx);
                    // x + r.0 <= b <= x + r.1
                    self.edges.push((j, i, ox + r.1 as i128));
                    self.edges.push((i, j, -ox - r.0 as i128));
                }
            }
        }
        if n.op == Op::SubNu {
            // b + y = x
            let (rx, ry) = (range(n.a), range(n.b));
            let (bx, ox) = lin(n.a);
            let j = self.base(bx);
            self.edges.push((j, i, ox - ry.0 as i128));
            self.edges.push((i, j, ry.1 as i128 - ox));
            let _ = rx;
        }
        i
    }
    /// a + strict <= b
    fn le(&mut self, a: T, b: T, strict: i128) {
        let ((ba, oa), (bb, ob)) = (lin(a), lin(b));
        if ba != ZERO && node(ba).op == Op::SubNu {
            // x - y + oa + strict <= b: with b constant
            if bb == ZERO {
                let n = node(ba);
                let ((bx, ox), (by, oy)) = (lin(n.a), lin(n.b));
                let (i, j) = (self.base(by), self.base(bx));
                // x - y <= ob - oa - strict
                self.edges.push((i, j, ob - oa - strict - ox + oy));
            }
        }
        if bb != ZERO && node(bb).op == Op::SubNu && ba == ZERO {
            // oa + strict <= x - y + ob, so y - x <= ob - oa - strict
            let n = node(bb);
            let ((bx, ox), (by, oy)) = (lin(n.a), lin(n.b));
            let (i, j) = (self.base(bx), self.base(by));
            self.edges.push((i, j, ob - oa - strict + ox - oy));
        }
        let (i, j) = (self.base(ba), self.base(bb));
        // ba - bb <= ob - oa - strict
        self.edges.push((j, i, ob - oa - strict));
    }
    /// An upper bound for (term of i) - (term of j).
    fn bound(&mut self, i: usize, j: usize) -> i128 {
        let n = self.idx.len();
        if let Some(d) = self.memo.get(&j) {
            if d.len() == n {
                return d[i];
            }
        }
        let mut d = vec![INF; n];
        d[j] = 0;
        for _ in 0..n + 1 {
            let mut ch = false;
            for &(u, v, w) in &self.edges {
                if d[u] < INF && d[u] + w < d[v] {
                    d[v] = d[u] + w;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let r = d[i];
        self.memo.insert(j, d);
        r
    }
    /// Is a + strict <= b implied?
    fn implied(&mut self, a: T, b: T, strict: i128) -> bool {
        let ((ba, oa), (bb, ob)) = (lin(a), lin(b));
        if ba != ZERO && bb == ZERO && node(ba).op == Op::SubNu {
            let n = node(ba);
            let ((bx, ox), (by, oy)) = (lin(n.a), lin(n.b));
            let (i, j) = (self.base(bx), self.base(by));
            if self.bound(i, j) <= ob - oa - strict - ox + oy {
                return true;
            }
        }
        if ba == ZERO && bb != ZERO && node(bb).op == Op::SubNu {
            let n = node(bb);
            let ((bx, ox), (by, oy)) = (lin(n.a), lin(n.b));
            let (i, j) = (self.base(bx), self.base(by));
            // y - x <= ob - oa - strict + ox - oy
            if self.bound(j, i) <= ob - oa - strict + ox - oy {
                return true;
            }
        }
        let (i, j) = (self.base(ba), self.base(bb));
        self.bound(i, j) <= ob - oa - strict
    }
    pub fn decide(&mut self, t: T) -> Option<bool> {
        let n = node(t);
        if n.w != 1 {
            return None;
        }
        match n.op {
            Op::Const => Some(n.k == 1),
            Op::Ule | Op::Ult => {
                let s = (n.op == Op::Ult) as i128;
                if self.implied(n.a, n.b, s) {
                    Some(true)
                } else if self.implied(n.b, n.a, 1 - s) {
                    Some(false)
                } else {
                    None
                }
            }
            Op::Eq if node(n.a).w > 1 => {
                if self.implied(n.a, n.b, 1) || self.implied(n.b, n.a, 1) {
                    Some(false)
                } else if self.implied(n.a, n.b, 0) && self.implied(n.b, n.a, 0) {
                    Some(true)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    /// Assignments worth trying: the greatest and the least solution of the difference constraints.
    pub fn guesses(&mut self) -> Vec<Vec<(u32, u128)>> {
        let n = self.idx.len();
        let mut r = vec![];
        let mut hi = vec![INF; n];
        hi[0] = 0;
        let mut lo = vec![INF; n];
        lo[0] = 0;
        for _ in 0..n + 1 {
            let mut ch = false;
            for &(u, v, w) in &self.edges {
                if hi[u] < INF && hi[u] + w < hi[v] {
                    hi[v] = hi[u] + w;
                    ch = true;
                }
                if lo[v] < INF && lo[v] + w < lo[u] {
                    lo[u] = lo[v] + w;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        for k in 0..2 {
            let mut m = vec![];
            for (t, i) in &self.idx {
                if *t != ZERO {
                    let n = node(*t);
                    if n.op == Op::Var {
                        let x = if k == 0 { -lo[*i] } else { hi[*i] };
                        if x >= 0 && x < INF {
                            m.push((n.k as u32, x as u128));
                        }
                    }
                }
            }
            r.push(m);
        }
        r
    }
    pub fn no_underflow(&mut self, a: T, b: T) -> bool {
        self.implied(b, a, 0)
    }
}

pub struct Simp<'a> {
    pub facts: Facts,
    pub known: &'a HashSet<T>,
    pub memo: HashMap<T, T>,
}
impl Simp<'_> {
    pub fn run(&mut self, t: T) -> T {
        if let Some(r) = self.memo.get(&t) {
            return *r;
        }
        let n = node(t);
        if n.op == Op::Const || n.op == Op::Var && n.w > 1 {
            return t;
        }
        if n.w == 1 {
            if self.known.contains(&t) {
                return konst(1, 1);
            }
            if self.known.contains(&not(t)) {
                return konst(0, 1);
            }
        }
        let r = match n.op {
            Op::Var => t,
            Op::Ite => {
                let c = self.run(n.a);
                match as_const(c) {
                    Some(1) => self.run(n.b),
                    Some(_) => self.run(n.c),
                    None => {
                        let a = self.run(n.b);
                        let b = self.run(n.c);
                        ite(c, a, b)
                    }
                }
            }
            Op::Concat => {
                let a = self.run(n.a);
                let b = self.run(n.b);
                concat(a, b)
            }
            Op::Extract => {
                let a = self.run(n.a);
                extract(a, n.b, n.w)
            }
            Op::ZExt => {
                let a = self.run(n.a);
                zext(a, n.w)
            }
            Op::SExt => {
                let a = self.run(n.a);
                sext(a, n.w)
            }
            Op::Sub => {
                let a = self.run(n.a);
                let b = self.run(n.b);
                let s = bin(Op::Sub, a, b);
                let m = node(s);
                if m.op == Op::Sub && m.w <= 64 && self.facts.no_underflow(m.a, m.b) {
                    bin(Op::SubNu, m.a, m.b)
                } else {
                    s
                }
            }
            op => {
                let a = self.run(n.a);
                let b = self.run(n.b);
                bin(op, a, b)
            }
        };
        let r = if r != t && node(r).w == 1 && self.known.contains(&r) {
            konst(1, 1)
        } else if node(r).w == 1 {
            match self.facts.decide(r) {
                Some(x) => konst(x as u128, 1),
                None => r,
            }
        } else {
            r
        };
        self.memo.insert(t, r);
        r
    }
}
