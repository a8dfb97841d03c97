//! Differential test of the term simplifier: random terms built through the simplifying
//! constructors are compared with direct evaluation, and with the recorded ranges.
use crate::term::*;

pub fn run(n: u64) -> bool {
    let mut seed = 0x9e3779b97f4a7c15u64;
    let mut rnd = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed
    };
    let widths = [1u32, 3, 8, 20, 30, 32, 64];
    let ops = [
        Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr,
        Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle,
    ];
    for round in 0..n {
        // variables with interesting values
        let mut model = vec![];
        let mut pool: Vec<(T, u128)> = vec![];
        for (i, w) in widths.iter().enumerate() {
            for j in 0..2 {
                let v = var(&format!("st{}_{}", i, j), *w);
                let id = node(v).k as usize;
                let x = match rnd() % 4 {
                    0 => rnd() as u128,
                    1 => (rnd() % 4) as u128,
                    2 => mask(*w) - (rnd() % 3) as u128 % (mask(*w) + 1),
                    _ => 1u128 << (rnd() % *w as u64),
                } & mask(*w);
                if model.len() <= id {
                    model.resize(id + 1, 0);
                }
                model[id] = x;
                pool.push((v, x));
            }
        }
        for _ in 0..40 {
            let (a, x) = pool[(rnd() % pool.len() as u64) as usize];
            let w = node(a).w;
            let pick = |rnd: &mut dyn FnMut() -> u64, pool: &Vec<(T, u128)>| {
                let same: Vec<_> = pool.iter().filter(|p| node(p.0).w == w).copied().collect();
                if rnd() % 4 == 0 {
                    let k = match rnd() % 3 {
                        0 => rnd() as u128,
                        1 => (rnd() % 5) as u128,
                        _ => mask(w) - (rnd() % 5) as u128 % (mask(w) + 1),
                    } & mask(w);
                    (konst(k, w), k)
                } else {
                    same[(rnd() % same.len() as u64) as usize]
                }
            };
            let (t, v, what) = match rnd() % 8 {
                0 => {
                    let nw = widths[(rnd() % 7) as usize];
                    if nw > w {
                        (zext(a, nw), x, "zext")
                    } else {
                        let lo = (rnd() % (w - nw + 1) as u64) as u32;
                        (extract(a, lo, nw), (x >> lo) & mask(nw), "extract")
                    }
                }
                1 => {
                    let nw = widths[(rnd() % 7) as usize].max(w);
                    (sext(a, nw), (sx(x, w) as u128) & mask(nw), "sext")
                }
                2 => {
                    let (b, y) = pick(&mut rnd, &pool);
                    let bools: Vec<_> = pool.iter().filter(|p| node(p.0).w == 1).copied().collect();
                    let (c, z) = bools[(rnd() % bools.len() as u64) as usize];
                    (ite(c, a, b), if z == 1 { x } else { y }, "ite")
                }
                3 if w <= 32 => {
                    let (b, y) = pick(&mut rnd, &pool);
                    (concat(a, b), x << w | y, "concat")
                }
                _ => {
                    let (b, y) = pick(&mut rnd, &pool);
                    let op = ops[(rnd() % ops.len() as u64) as usize];
                    if matches!(op, Op::UDiv | Op::URem) && y == 0 {
                        continue;
                    }
                    (bin(op, a, b), fold(op, w, x, y).unwrap(), "bin")
                }
            };
            let e = eval(t, &model);
            if e != v {
                eprintln!("simplifier: round {} {} gives {} and not {}: {}", round, what, e, v, show(t, 0));
                return false;
            }
            let r = range(t);
            if v < r.0 || v > r.1 {
                eprintln!("range: round {} {} {} outside {:?}: {}", round, what, v, r, show(t, 0));
                return false;
            }
            if node(t).w <= 64 {
                pool.push((t, v));
            }
        }
    }
    true
}
