//! Hash-consed bit-vector terms (width 1..=128) with local simplification.
use std::cell::RefCell;
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    /// a subtraction known not to wrap around on the paths where it is used
    SubNu,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    /// a is the high part
    Concat,
    /// b is the low bit index
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u128,
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<Node, T>,
    pub vars: Vec<(String, u32)>,
    /// for each term the sorted list of variables in it (shared)
    pub vs: Vec<std::rc::Rc<Vec<u32>>>,
    /// unsigned range of each term
    pub rg: Vec<(u128, u128)>,
}

thread_local! {
    pub static AR: RefCell<Arena> = RefCell::new(Arena::default());
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub fn node(t: T) -> Node {
    AR.with(|a| a.borrow().nodes[t as usize])
}
pub fn nvars() -> usize {
    AR.with(|a| a.borrow().vars.len())
}
pub fn var_info(v: u32) -> (String, u32) {
    AR.with(|a| a.borrow().vars[v as usize].clone())
}
pub fn vars_of(t: T) -> std::rc::Rc<Vec<u32>> {
    AR.with(|a| a.borrow().vs[t as usize].clone())
}

fn raw(n: Node) -> T {
    AR.with(|ar| {
        let mut ar = ar.borrow_mut();
        if let Some(t) = ar.map.get(&n) {
            return *t;
        }
        let t = ar.nodes.len() as T;
        let kids: &[T] = match n.op {
            Op::Const | Op::Var => &[],
            Op::ZExt | Op::SExt | Op::Extract => &[n.a],
            Op::Ite => &[n.a, n.b, n.c],
            _ => &[n.a, n.b],
        };
        let mut v: Vec<u32> = if n.op == Op::Var { vec![n.k as u32] } else { vec![] };
        let mut shared = None;
        for k in kids {
            let kv = ar.vs[*k as usize].clone();
            if v.is_empty() && shared.is_none() {
                v = kv.to_vec();
                shared = Some(kv);
            } else if !kv.is_empty() {
                v.extend_from_slice(&kv);
                v.sort_unstable();
                v.dedup();
            }
        }
        let r = match shared {
            Some(s) if *s == v => s,
            _ => std::rc::Rc::new(v),
        };
        let range = range_of(&n, &ar);
        ar.nodes.push(n);
        ar.rg.push(range);
        ar.vs.push(r);
        ar.map.insert(n, t);
        t
    })
}

pub fn range(t: T) -> (u128, u128) {
    AR.with(|a| a.borrow().rg[t as usize])
}
/// An unsigned interval that contains every value of the term.
fn range_of(n: &Node, ar: &Arena) -> (u128, u128) {
    let m = mask(n.w);
    let r = |t: T| ar.rg[t as usize];
    let top = (0, m);
    if n.w > 64 {
        return match n.op {
            Op::Const => (n.k, n.k),
            Op::ZExt => r(n.a),
            _ => top,
        };
    }
    match n.op {
        Op::Const => (n.k, n.k),
        Op::ZExt => r(n.a),
        Op::Add => {
            let (a, b) = (r(n.a), r(n.b));
            if a.1 + b.1 <= m {
                (a.0 + b.0, a.1 + b.1)
            } else if a.0 + b.0 > m {
                (a.0 + b.0 - m - 1, a.1 + b.1 - m - 1)
            } else {
                top
            }
        }
        Op::Sub => {
            let (a, b) = (r(n.a), r(n.b));
            if a.0 >= b.1 {
                (a.0 - b.1, a.1 - b.0)
            } else {
                top
            }
        }
        Op::SubNu => {
            let (a, b) = (r(n.a), r(n.b));
            (a.0.saturating_sub(b.1), a.1.saturating_sub(b.0))
        }
        Op::Mul => {
            let (a, b) = (r(n.a), r(n.b));
            match a.1.checked_mul(b.1) {
                Some(h) if h <= m => (a.0 * b.0, h),
                _ => top,
            }
        }
        Op::UDiv => {
            let (a, b) = (r(n.a), r(n.b));
            if b.0 > 0 {
                (a.0 / b.1, a.1 / b.0)
            } else {
                top
            }
        }
        Op::URem => {
            let b = r(n.b);
            if b.0 > 0 {
                (0, r(n.a).1.min(b.1 - 1))
            } else {
                top
            }
        }
        Op::And => (0, r(n.a).1.min(r(n.b).1)),
        Op::Or => {
            let (a, b) = (r(n.a), r(n.b));
            let bits = 128 - (a.1 | b.1).leading_zeros();
            (a.0.max(b.0), if bits >= 128 { m } else { (1 << bits) - 1 })
        }
        Op::Xor => {
            let bits = 128 - (r(n.a).1 | r(n.b).1).leading_zeros();
            (0, if bits >= 128 { m } else { ((1 << bits) - 1) & m })
        }
        Op::Ite => {
            let (a, b) = (r(n.b), r(n.c));
            (a.0.min(b.0), a.1.max(b.1))
        }
        Op::Concat => {
            let (a, b) = (r(n.a), r(n.b));
            let lw = ar.nodes[n.b as usize].w;
            (a.0 << lw | b.0, a.1 << lw | b.1)
        }
        Op::Extract => {
            let a = r(n.a);
            // Extract stores the low bit index in b
            let (l, h) = (a.0 >> n.b, a.1 >> n.b);
            if h <= m {
                (l, h)
            } else {
                top
            }
        }
        Op::SExt => {
            let a = r(n.a);
            let iw = ar.nodes[n.a as usize].w;
            if a.1 >> (iw - 1) == 0 {
                a
            } else {
                top
            }
        }
        _ => top,
    }
}

pub fn konst(v: u128, w: u32) -> T {
    raw(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
}
/// The variable with this name and width: one term per distinct name.
pub fn var(name: &str, w: u32) -> T {
    let id = AR.with(|ar| {
        let mut ar = ar.borrow_mut();
        for (i, (n, vw)) in ar.vars.iter().enumerate() {
            if *vw == w && n == name {
                return i as u32;
            }
        }
        ar.vars.push((name.to_string(), w));
        ar.vars.len() as u32 - 1
    });
    raw(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id as u128 })
}
pub fn as_const(t: T) -> Option<u128> {
    let n = node(t);
    if n.op == Op::Const {
        Some(n.k)
    } else {
        None
    }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> Option<u128> {
    // w: operand width; comparison results are 1 bit
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub | Op::SubNu => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        Op::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        Op::SDiv => {
            if b == 0 {
                return None;
            }
            (sx(a, w).wrapping_div(sx(b, w)) as u128) & m
        }
        Op::SRem => {
            if b == 0 {
                return None;
            }
            (sx(a, w).wrapping_rem(sx(b, w)) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sx(a, w);
            let sh = if b >= w as u128 { w - 1 } else { b as u32 };
            ((s >> sh) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
        _ => return None,
    })
}

pub fn not(t: T) -> T {
    bin(Op::Xor, t, konst(mask(node(t).w), node(t).w))
}

pub fn bin(op: Op, mut a: T, mut b: T) -> T {
    let (mut na, mut nb) = (node(a), node(b));
    let w = na.w;
    debug_assert_eq!(na.w, nb.w, "{:?}", op);
    let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
    let rw = if cmp { 1 } else { w };
    if na.op == Op::Const && nb.op == Op::Const {
        if let Some(v) = fold(op, w, na.k, nb.k) {
            return konst(v, rw);
        }
    }
    let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
    if comm && (na.op == Op::Const || (nb.op != Op::Const && a > b)) {
        std::mem::swap(&mut a, &mut b);
        std::mem::swap(&mut na, &mut nb);
    }
    let kb = if nb.op == Op::Const { Some(nb.k) } else { None };
    let ka = if na.op == Op::Const { Some(na.k) } else { None };
    if a == b {
        match op {
            Op::Sub | Op::SubNu | Op::Xor => return konst(0, w),
            Op::And | Op::Or => return a,
            Op::Eq | Op::Ule | Op::Sle => return konst(1, 1),
            Op::Ult | Op::Slt => return konst(0, 1),
            _ => {}
        }
    }
    if cmp {
        let (ra, rb) = (range(a), range(b));
        let sign = 1u128 << (w - 1);
        match op {
            Op::Eq => {
                if ra.1 < rb.0 || rb.1 < ra.0 {
                    return konst(0, 1);
                }
            }
            Op::Ult => {
                if ra.1 < rb.0 {
                    return konst(1, 1);
                }
                if ra.0 >= rb.1 {
                    return konst(0, 1);
                }
            }
            Op::Ule => {
                if ra.1 <= rb.0 {
                    return konst(1, 1);
                }
                if ra.0 > rb.1 {
                    return konst(0, 1);
                }
            }
            _ => {
                let (pa, pb, na_, nb_) = (ra.1 < sign, rb.1 < sign, ra.0 >= sign, rb.0 >= sign);
                if (pa && pb) || (na_ && nb_) {
                    return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if na_ && pb {
                    return konst(1, 1);
                }
                if pa && nb_ {
                    return konst(0, 1);
                }
            }
        }
        // x + k against y + l, without overflow
        if w <= 64 && matches!(op, Op::Ult | Op::Ule | Op::Eq) {
            let split = |t: T, n: &Node| -> Option<(Option<T>, u128)> {
                if n.op == Op::Const {
                    return Some((None, n.k));
                }
                if n.op == Op::Add {
                    if let Some(k) = as_const(n.b) {
                        if range(n.a).1 + k <= mask(w) {
                            return Some((Some(n.a), k));
                        }
                    }
                }
                let _ = t;
                None
            };
            let sa = split(a, &na).unwrap_or((Some(a), 0));
            let sb = split(b, &nb).unwrap_or((Some(b), 0));
            let k = sa.1.min(sb.1);
            if k > 0 {
                let mk = |x: Option<T>, y: u128| match x {
                    Some(t) => bin(Op::Add, t, konst(y, w)),
                    None => konst(y, w),
                };
                return bin(op, mk(sa.0, sa.1 - k), mk(sb.0, sb.1 - k));
            }
        }
        // x - y against a constant that only tells whether it wraps around
        if w <= 64 && matches!(op, Op::Ult | Op::Ule) {
            let wraps = |x: T, y: T, k: u128| -> bool {
                // x - y < k exactly if y <= x
                let (rx, ry) = (range(x), range(y));
                rx.1.saturating_sub(ry.0) < k && k <= mask(w) + 1 - ry.1
            };
            if na.op == Op::Sub {
                if let Some(k) = kb {
                    let k = if op == Op::Ult { k } else { k + 1 };
                    if wraps(na.a, na.b, k) {
                        return bin(Op::Ule, na.b, na.a);
                    }
                }
            }
            if nb.op == Op::Sub {
                if let Some(k) = ka {
                    let k = if op == Op::Ule { k } else { k + 1 };
                    if wraps(nb.a, nb.b, k) {
                        return bin(Op::Ult, nb.a, nb.b);
                    }
                }
            }
        }
        if op == Op::Eq && kb == Some(0) && (na.op == Op::Sub || na.op == Op::SubNu) {
            return bin(Op::Eq, na.a, na.b);
        }
        // both sides were widened
        if matches!(op, Op::Ult | Op::Ule | Op::Eq) && na.op == Op::ZExt && nb.op == Op::ZExt {
            let iw = node(na.a).w.max(node(nb.a).w);
            if iw < w {
                return bin(op, zext(na.a, iw), zext(nb.a, iw));
            }
        }
    }
    if w == 1 && matches!(op, Op::And | Op::Or) && kb.is_none() {
        if not(a) == b {
            return konst((op == Op::Or) as u128, 1);
        }
        // two comparisons of the same pair
        let cmpop = |n: &Node| matches!(n.op, Op::Ult | Op::Ule | Op::Eq);
        if cmpop(&na) && cmpop(&nb) && node(na.a).w > 1 {
            // the set of orders (less, equal, greater) of na.a and na.b that satisfy each
            let set = |n: &Node, flip: bool| -> u32 {
                match (n.op, flip) {
                    (Op::Ult, false) => 1,
                    (Op::Ule, false) => 3,
                    (Op::Ult, true) => 4,
                    (Op::Ule, true) => 6,
                    _ => 2,
                }
            };
            let same = na.a == nb.a && na.b == nb.b;
            let swap = na.a == nb.b && na.b == nb.a;
            if same || swap {
                let s = if op == Op::And { set(&na, false) & set(&nb, swap) } else { set(&na, false) | set(&nb, swap) };
                let (x, y) = (na.a, na.b);
                return match s {
                    0 => konst(0, 1),
                    1 => bin(Op::Ult, x, y),
                    2 => bin(Op::Eq, x, y),
                    3 => bin(Op::Ule, x, y),
                    4 => bin(Op::Ult, y, x),
                    6 => bin(Op::Ule, y, x),
                    5 => not(bin(Op::Eq, x, y)),
                    _ => konst(1, 1),
                };
            }
        }
    }
    match op {
        Op::Add => {
            if kb == Some(0) {
                return a;
            }
            // (x - y) + y
            if (na.op == Op::Sub || na.op == Op::SubNu) && na.b == b {
                return na.a;
            }
            if (nb.op == Op::Sub || nb.op == Op::SubNu) && nb.b == a {
                return nb.a;
            }
            // constants outwards
            if kb.is_none() {
                if na.op == Op::Add {
                    if let Some(k) = as_const(na.b) {
                        return bin(Op::Add, bin(Op::Add, na.a, b), konst(k, w));
                    }
                }
                if nb.op == Op::Add {
                    if let Some(k) = as_const(nb.b) {
                        return bin(Op::Add, bin(Op::Add, a, nb.a), konst(k, w));
                    }
                }
            }
            if let Some(k) = kb {
                if na.op == Op::Add {
                    if let Some(k2) = as_const(na.b) {
                        return bin(Op::Add, na.a, konst(k.wrapping_add(k2), w));
                    }
                }
                if na.op == Op::Ite {
                    if let (Some(x), Some(y)) = (as_const(na.b), as_const(na.c)) {
                        return ite(na.a, konst(x.wrapping_add(k), w), konst(y.wrapping_add(k), w));
                    }
                }
            }
        }
        Op::Sub => {
            if let Some(k) = kb {
                return bin(Op::Add, a, konst(k.wrapping_neg(), w));
            }
            if na.op == Op::Add {
                if na.b == b {
                    return na.a;
                }
                if na.a == b {
                    return na.b;
                }
                if let Some(k) = as_const(na.b) {
                    return bin(Op::Add, bin(Op::Sub, na.a, b), konst(k, w));
                }
            }
            if nb.op == Op::Add {
                if let Some(k) = as_const(nb.b) {
                    return bin(Op::Add, bin(Op::Sub, a, nb.a), konst(k.wrapping_neg(), w));
                }
            }
        }
        Op::SubNu => {
            if kb == Some(0) {
                return a;
            }
            if na.op == Op::Add {
                if na.b == b {
                    return na.a;
                }
                if na.a == b {
                    return na.b;
                }
            }
            // at the width of the operands
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let iw = node(na.a).w.max(node(nb.a).w);
                if iw < w {
                    return zext(bin(Op::SubNu, zext(na.a, iw), zext(nb.a, iw)), w);
                }
            }
        }
        Op::Mul => {
            if kb == Some(0) {
                return b;
            }
            if kb == Some(1) {
                return a;
            }
        }
        Op::UDiv => {
            if kb == Some(1) {
                return a;
            }
        }
        Op::And => {
            if let Some(k) = kb {
                if k == 0 {
                    return b;
                }
                if k == mask(w) {
                    return a;
                }
                if na.op == Op::ZExt {
                    let iw = node(na.a).w;
                    if k & mask(iw) == mask(iw) {
                        return a;
                    }
                    return zext(bin(Op::And, na.a, konst(k, iw)), w);
                }
                // a contiguous low mask
                if k & (k + 1) == 0 {
                    let n = 128 - k.leading_zeros();
                    return zext(extract(a, 0, n), w);
                }
                if na.op == Op::Ite {
                    if let (Some(x), Some(y)) = (as_const(na.b), as_const(na.c)) {
                        return ite(na.a, konst(x & k, w), konst(y & k, w));
                    }
                }
            }
        }
        Op::Or => {
            if let Some(k) = kb {
                if k == 0 {
                    return a;
                }
                if k == mask(w) {
                    return b;
                }
            }
        }
        Op::Xor => {
            if let Some(k) = kb {
                if k == 0 {
                    return a;
                }
                if na.op == Op::Xor {
                    if let Some(k2) = as_const(na.b) {
                        return bin(Op::Xor, na.a, konst(k ^ k2, w));
                    }
                }
                if w == 1 {
                    // negation
                    match na.op {
                        Op::Ult => return bin(Op::Ule, na.b, na.a),
                        Op::Ule => return bin(Op::Ult, na.b, na.a),
                        Op::Slt => return bin(Op::Sle, na.b, na.a),
                        Op::Sle => return bin(Op::Slt, na.b, na.a),
                        Op::And => return bin(Op::Or, not(na.a), not(na.b)),
                        Op::Or => return bin(Op::And, not(na.a), not(na.b)),
                        _ => {}
                    }
                }
                if na.op == Op::Ite {
                    if let (Some(x), Some(y)) = (as_const(na.b), as_const(na.c)) {
                        return ite(na.a, konst(x ^ k, w), konst(y ^ k, w));
                    }
                }
            }
        }
        Op::Shl | Op::LShr | Op::AShr => {
            if let Some(k) = kb {
                if k == 0 {
                    return a;
                }
                if k >= w as u128 {
                    if op != Op::AShr {
                        return konst(0, w);
                    }
                } else if op == Op::LShr {
                    return zext(extract(a, k as u32, w - k as u32), w);
                } else if op == Op::Shl {
                    let k = k as u32;
                    return concat(extract(a, 0, w - k), konst(0, k));
                }
            }
        }
        Op::Eq => {
            if let Some(k) = kb {
                if w == 1 {
                    return if k == 1 { a } else { not(a) };
                }
                match na.op {
                    Op::Ite => {
                        let (x, y) = (as_const(na.b), as_const(na.c));
                        match (x, y) {
                            (Some(x), Some(y)) => {
                                return match (x == k, y == k) {
                                    (true, true) => konst(1, 1),
                                    (true, false) => na.a,
                                    (false, true) => not(na.a),
                                    (false, false) => konst(0, 1),
                                }
                            }
                            (Some(x), None) => {
                                let e = bin(Op::Eq, na.c, b);
                                return if x == k { bin(Op::Or, na.a, e) } else { bin(Op::And, not(na.a), e) };
                            }
                            (None, Some(y)) => {
                                let e = bin(Op::Eq, na.b, b);
                                return if y == k { bin(Op::Or, not(na.a), e) } else { bin(Op::And, na.a, e) };
                            }
                            _ => {}
                        }
                    }
                    Op::Add => {
                        if let Some(k2) = as_const(na.b) {
                            return bin(Op::Eq, na.a, konst(k.wrapping_sub(k2), w));
                        }
                    }
                    Op::Xor => {
                        if let Some(k2) = as_const(na.b) {
                            return bin(Op::Eq, na.a, konst(k ^ k2, w));
                        }
                    }
                    Op::ZExt => {
                        let iw = node(na.a).w;
                        if k > mask(iw) {
                            return konst(0, 1);
                        }
                        return bin(Op::Eq, na.a, konst(k, iw));
                    }
                    Op::SExt => {
                        let iw = node(na.a).w;
                        let t = k & mask(iw);
                        if (sx(t, iw) as u128) & mask(w) != k {
                            return konst(0, 1);
                        }
                        return bin(Op::Eq, na.a, konst(t, iw));
                    }
                    Op::Concat => {
                        let lw = node(na.b).w;
                        let h = bin(Op::Eq, na.a, konst(k >> lw, w - lw));
                        let l = bin(Op::Eq, na.b, konst(k, lw));
                        return bin(Op::And, h, l);
                    }
                    _ => {}
                }
            }
        }
        Op::Ult => {
            if kb == Some(0) {
                return konst(0, 1);
            }
            if kb == Some(1) {
                return bin(Op::Eq, a, konst(0, w));
            }
            if ka == Some(mask(w)) {
                return konst(0, 1);
            }
            if ka == Some(0) {
                return not(bin(Op::Eq, b, konst(0, w)));
            }
            if let (Op::ZExt, Some(k)) = (na.op, kb) {
                let iw = node(na.a).w;
                if k > mask(iw) {
                    return konst(1, 1);
                }
                return bin(Op::Ult, na.a, konst(k, iw));
            }
            if let (Op::ZExt, Some(k)) = (nb.op, ka) {
                let iw = node(nb.a).w;
                if k >= mask(iw) {
                    return konst(0, 1);
                }
                return bin(Op::Ult, konst(k, iw), nb.a);
            }
            if na.op == Op::Ite {
                if let (Some(k), Some(x), Some(y)) = (kb, as_const(na.b), as_const(na.c)) {
                    return ite(na.a, konst((x < k) as u128, 1), konst((y < k) as u128, 1));
                }
            }
        }
        Op::Ule => {
            if ka == Some(0) {
                return konst(1, 1);
            }
            if kb == Some(0) {
                return bin(Op::Eq, a, b);
            }
            if kb == Some(mask(w)) {
                return konst(1, 1);
            }
            if let (Op::ZExt, Some(k)) = (na.op, kb) {
                let iw = node(na.a).w;
                if k >= mask(iw) {
                    return konst(1, 1);
                }
                return bin(Op::Ule, na.a, konst(k, iw));
            }
            if let (Op::ZExt, Some(k)) = (nb.op, ka) {
                let iw = node(nb.a).w;
                if k > mask(iw) {
                    return konst(0, 1);
                }
                return bin(Op::Ule, konst(k, iw), nb.a);
            }
        }
        Op::Slt => {
            if na.op == Op::Ite {
                if let (Some(_), Some(x), Some(y)) = (kb, as_const(na.b), as_const(na.c)) {
                    let k = nb.k;
                    return ite(
                        na.a,
                        konst((sx(x, w) < sx(k, w)) as u128, 1),
                        konst((sx(y, w) < sx(k, w)) as u128, 1),
                    );
                }
            }
            if na.op == Op::ZExt && kb == Some(0) {
                return konst(0, 1);
            }
        }
        Op::Sle => {
            if nb.op == Op::ZExt && ka == Some(0) {
                return konst(1, 1);
            }
        }
        _ => {}
    }
    raw(Node { op, w: rw, a, b, c: 0, k: 0 })
}

pub fn ite(c: T, a: T, b: T) -> T {
    if let Some(k) = as_const(c) {
        return if k == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    let w = node(a).w;
    let nc = node(c);
    if nc.op == Op::Xor && nc.w == 1 && as_const(nc.b) == Some(1) {
        return ite(nc.a, b, a);
    }
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Op::Or, c, b),
            (Some(0), None) => return bin(Op::And, not(c), b),
            (None, Some(0)) => return bin(Op::And, c, a),
            (None, Some(1)) => return bin(Op::Or, not(c), a),
            _ => {}
        }
    }
    let na = node(a);
    if na.op == Op::Ite && na.a == c {
        return ite(c, na.b, b);
    }
    let nb = node(b);
    if nb.op == Op::Ite && nb.a == c {
        return ite(c, a, nb.c);
    }
    raw(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
}

pub fn concat(hi: T, lo: T) -> T {
    let (nh, nl) = (node(hi), node(lo));
    let w = nh.w + nl.w;
    if nh.op == Op::Const && nl.op == Op::Const {
        return konst(nh.k << nl.w | nl.k, w);
    }
    if nh.op == Op::Const && nh.k == 0 {
        return zext(lo, w);
    }
    // adjacent extracts of the same term
    if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + nl.w {
        return extract(nh.a, nl.b, w);
    }
    if nh.op == Op::ZExt {
        return zext(concat(nh.a, lo), w);
    }
    // the low part was simplified further
    if nh.op == Op::Extract && nh.b == nl.w && extract(nh.a, 0, nl.w) == lo {
        return extract(nh.a, 0, w);
    }
    raw(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
}

pub fn extract(t: T, lo: u32, w: u32) -> T {
    let n = node(t);
    if lo == 0 && w == n.w {
        return t;
    }
    debug_assert!(lo + w <= n.w);
    match n.op {
        Op::Const => return konst(n.k >> lo, w),
        Op::Extract => return extract(n.a, lo + n.b, w),
        Op::Concat => {
            let lw = node(n.b).w;
            if lo + w <= lw {
                return extract(n.b, lo, w);
            }
            if lo >= lw {
                return extract(n.a, lo - lw, w);
            }
        }
        Op::ZExt => {
            let iw = node(n.a).w;
            if lo >= iw {
                return konst(0, w);
            }
            if lo + w <= iw {
                return extract(n.a, lo, w);
            }
            return zext(extract(n.a, lo, iw - lo), w);
        }
        Op::SExt => {
            let iw = node(n.a).w;
            if lo + w <= iw {
                return extract(n.a, lo, w);
            }
        }
        Op::Ite => {
            let (x, y) = (node(n.b), node(n.c));
            if x.op == Op::Const || y.op == Op::Const {
                return ite(n.a, extract(n.b, lo, w), extract(n.c, lo, w));
            }
        }
        Op::And | Op::Or | Op::Xor => {
            return bin(n.op, extract(n.a, lo, w), extract(n.b, lo, w));
        }
        Op::Add | Op::Sub | Op::Mul if lo == 0 => {
            return bin(n.op, extract(n.a, 0, w), extract(n.b, 0, w));
        }
        _ => {}
    }
    raw(Node { op: Op::Extract, w, a: t, b: lo, c: 0, k: 0 })
}

pub fn zext(t: T, w: u32) -> T {
    let n = node(t);
    if n.w == w {
        return t;
    }
    match n.op {
        Op::Const => return konst(n.k, w),
        Op::ZExt => return zext(n.a, w),
        Op::Ite => {
            if let (Some(x), Some(y)) = (as_const(n.b), as_const(n.c)) {
                return ite(n.a, konst(x, w), konst(y, w));
            }
        }
        _ => {}
    }
    raw(Node { op: Op::ZExt, w, a: t, b: 0, c: 0, k: 0 })
}
pub fn sext(t: T, w: u32) -> T {
    let n = node(t);
    if n.w == w {
        return t;
    }
    match n.op {
        Op::Const => return konst(sx(n.k, n.w) as u128, w),
        Op::ZExt => return zext(n.a, w),
        Op::Ite => {
            if let (Some(x), Some(y)) = (as_const(n.b), as_const(n.c)) {
                return ite(n.a, konst(sx(x, n.w) as u128, w), konst(sx(y, n.w) as u128, w));
            }
        }
        _ => {}
    }
    raw(Node { op: Op::SExt, w, a: t, b: 0, c: 0, k: 0 })
}

/// Value of a term under an assignment (missing variables are 0).
pub fn eval(t: T, m: &[u128]) -> u128 {
    let mut memo = HashMap::new();
    AR.with(|ar| ev(&ar.borrow(), t, m, &mut memo))
}
fn ev(ar: &Arena, t: T, m: &[u128], memo: &mut HashMap<T, u128>) -> u128 {
    let n = &ar.nodes[t as usize];
    match n.op {
        Op::Const => return n.k,
        Op::Var => return m.get(n.k as usize).copied().unwrap_or(0) & mask(n.w),
        _ => {}
    }
    if let Some(v) = memo.get(&t) {
        return *v;
    }
    let r = match n.op {
        Op::Ite => {
            if ev(ar, n.a, m, memo) == 1 {
                ev(ar, n.b, m, memo)
            } else {
                ev(ar, n.c, m, memo)
            }
        }
        Op::Concat => {
            let lw = ar.nodes[n.b as usize].w;
            ev(ar, n.a, m, memo) << lw | ev(ar, n.b, m, memo)
        }
        Op::Extract => (ev(ar, n.a, m, memo) >> n.b) & mask(n.w),
        Op::ZExt => ev(ar, n.a, m, memo),
        Op::SExt => (sx(ev(ar, n.a, m, memo), ar.nodes[n.a as usize].w) as u128) & mask(n.w),
        op => {
            let (x, y) = (ev(ar, n.a, m, memo), ev(ar, n.b, m, memo));
            let w = ar.nodes[n.a as usize].w;
            fold(op, w, x, y).unwrap_or_else(|| match op {
                // SMT-LIB semantics of division by zero
                Op::UDiv => mask(w),
                Op::SDiv => {
                    if sx(x, w) < 0 {
                        1
                    } else {
                        mask(w)
                    }
                }
                _ => x,
            })
        }
    };
    memo.insert(t, r);
    r
}

pub fn show(t: T, d: u32) -> String {
    let n = node(t);
    if d > 14 {
        return "..".into();
    }
    match n.op {
        Op::Const => format!("{}:{}", n.k, n.w),
        Op::Var => var_info(n.k as u32).0,
        Op::Extract => format!("{}[{}+{}]", show(n.a, d + 1), n.b, n.w),
        Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, show(n.a, d + 1)),
        Op::Ite => format!("ite({}, {}, {})", show(n.a, d + 1), show(n.b, d + 1), show(n.c, d + 1)),
        o => format!("{:?}({}, {})", o, show(n.a, d + 1), show(n.b, d + 1)),
    }
}
