//! Satisfiability queries: independent slices of the path condition, a cache, and z3 underneath.
use crate::term::*;
use std::collections::HashMap;
use std::ffi::c_void;
use std::os::raw::{c_char, c_int, c_uint};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_dec_ref(c: P, s: P);
}

/// Limits for one question, in milliseconds.
const FIRST_MS: u32 = 10_000;
const SECOND_MS: u32 = 40_000;

pub struct Solver {
    c: P,
    s: P,
    bv: HashMap<T, P>,
    one: P,
    zero: P,
    cache: HashMap<Vec<T>, Option<Vec<(u32, u128)>>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub time: f64,
    pub slowest: f64,
    since_reset: u32,
    assume: bool,
    slow: f64,
    lits: HashMap<T, P>,
    maxlits: usize,
    /// questions without an answer within the time limits
    pub unknown: u64,
    /// questions only the second solver could answer
    pub second: u64,
}

fn cs(s: &str) -> std::ffi::CString {
    std::ffi::CString::new(s).unwrap()
}

pub fn z3_version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            // without reference counting: the context lives as long as the process and asts are
            // cached for its whole life
            let c = Z3_mk_context(cfg);
            let l = cs("QF_BV");
            let s = match std::env::var("VSYM_Z3").as_deref() {
                Ok("simple") => Z3_mk_simple_solver(c),
                Err(_) => Z3_mk_solver(c),
                _ => Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr())),
            };
            Z3_solver_inc_ref(c, s);
            Self::limit(c, s, FIRST_MS);
            let s1 = Z3_mk_bv_sort(c, 1);
            let one = Z3_mk_unsigned_int64(c, 1, s1);
            let zero = Z3_mk_unsigned_int64(c, 0, s1);
            Solver {
                c,
                s,
                bv: HashMap::new(),
                one,
                zero,
                cache: HashMap::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                cache_hits: 0,
                time: 0.0,
                slowest: 0.0,
                since_reset: 0,
                assume: std::env::var("VSYM_PUSH").is_err(),
                lits: HashMap::new(),
                slow: std::env::var("VSYM_SLOW").map_or(0.0, |x| x.parse().unwrap()),
                maxlits: std::env::var("VSYM_ASSUME").map_or(50, |x| x.parse().unwrap()),
                unknown: 0,
                second: 0,
            }
        }
    }
    fn limit(c: P, s: P, ms: u32) {
        unsafe {
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = cs("timeout");
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), ms);
            Z3_solver_set_params(c, s, p);
        }
    }
    fn sort(&self, w: u32) -> P {
        unsafe { Z3_mk_bv_sort(self.c, w) }
    }
    fn tr(&mut self, t: T) -> P {
        if let Some(p) = self.bv.get(&t) {
            return *p;
        }
        let n = node(t);
        let c = self.c;
        let p = unsafe {
            match n.op {
                Op::Const => {
                    let s = cs(&n.k.to_string());
                    Z3_mk_numeral(c, s.as_ptr(), self.sort(n.w))
                }
                Op::Var => {
                    let s = cs(&format!("v{}", n.k));
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), self.sort(n.w))
                }
                Op::Ite => {
                    let k = self.cond(n.a);
                    let a = self.tr(n.b);
                    let b = self.tr(n.c);
                    Z3_mk_ite(c, k, a, b)
                }
                Op::Extract => {
                    let a = self.tr(n.a);
                    Z3_mk_extract(c, n.b + n.w - 1, n.b, a)
                }
                Op::ZExt | Op::SExt => {
                    let iw = node(n.a).w;
                    let a = self.tr(n.a);
                    if n.op == Op::ZExt {
                        Z3_mk_zero_ext(c, n.w - iw, a)
                    } else {
                        Z3_mk_sign_ext(c, n.w - iw, a)
                    }
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let k = self.cond(t);
                    Z3_mk_ite(c, k, self.one, self.zero)
                }
                _ => {
                    let a = self.tr(n.a);
                    let b = self.tr(n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub | Op::SubNu => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        o => panic!("{:?}", o),
                    }
                }
            }
        };
        self.bv.insert(t, p);
        p
    }
    fn cond(&mut self, t: T) -> P {
        let n = node(t);
        let c = self.c;
        unsafe {
            match n.op {
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.tr(n.a);
                    let b = self.tr(n.b);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                _ => {
                    let a = self.tr(t);
                    Z3_mk_eq(c, a, self.one)
                }
            }
        }
    }

    /// Is the conjunction satisfiable? A model over the variables in it if so.
    pub fn check(&mut self, set: &[T]) -> Option<Vec<(u32, u128)>> {
        let mut key: Vec<T> = set.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return r.clone();
        }
        let b = Instant::now();
        let unknown = self.unknown;
        let r = unsafe {
            let r = if self.assume {
                let mut lits: Vec<P> = vec![];
                for t in &key {
                    let l = match self.lits.get(t) {
                        Some(l) => *l,
                        None => {
                            let a = self.cond(*t);
                            let n = cs(&format!("p{}", t));
                            let l = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bool_sort(self.c));
                            Z3_solver_assert(self.c, self.s, Z3_mk_implies(self.c, l, a));
                            self.lits.insert(*t, l);
                            l
                        }
                    };
                    lits.push(l);
                }
                Z3_solver_check_assumptions(self.c, self.s, lits.len() as c_uint, lits.as_ptr())
            } else {
                Z3_solver_push(self.c, self.s);
                for t in &key {
                    let a = self.cond(*t);
                    Z3_solver_assert(self.c, self.s, a);
                }
                Z3_solver_check(self.c, self.s)
            };
            // another solver, from scratch, for what takes the first one too long
            let mut by = self.s;
            let mut r = r;
            let mut fresh = std::ptr::null_mut();
            if r == 0 {
                let l = cs("QF_BV");
                fresh = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()));
                Z3_solver_inc_ref(self.c, fresh);
                Self::limit(self.c, fresh, SECOND_MS);
                for t in &key {
                    let a = self.cond(*t);
                    Z3_solver_assert(self.c, fresh, a);
                }
                r = Z3_solver_check(self.c, fresh);
                self.second += (r != 0) as u64;
                by = fresh;
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, by);
                    Z3_model_inc_ref(self.c, m);
                    let mut vars: Vec<u32> = vec![];
                    for t in &key {
                        vars.extend_from_slice(&vars_of(*t));
                    }
                    vars.sort_unstable();
                    vars.dedup();
                    let mut out = vec![];
                    for v in vars {
                        let (name, w) = var_info(v);
                        let a = {
                            let t = var(&name, w);
                            self.tr(t)
                        };
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, a, true, &mut o) {
                            let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_string_lossy().into_owned();
                            out.push((v, s.parse::<u128>().unwrap()));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Some(out)
                }
                -1 => None,
                _ => {
                    self.unknown += 1;
                    if let Ok(d) = std::env::var("VSYM_UNKNOWN") {
                        self.dump(&key, &format!("{}/{}.smt2", d, std::process::id() as u64 * 1000 + self.unknown));
                    }
                    None
                }
            };
            if !fresh.is_null() {
                Z3_solver_dec_ref(self.c, fresh);
            }
            if !self.assume {
                Z3_solver_pop(self.c, self.s, 1);
            }
            out
        };
        self.queries += 1;
        self.since_reset += 1;
        if (self.assume && self.lits.len() > self.maxlits) || (!self.assume && self.since_reset > 2000) {
            self.lits.clear();
            unsafe { Z3_solver_reset(self.c, self.s) };
            self.since_reset = 0;
        }
        let d = b.elapsed().as_secs_f64();
        self.time += d;
        if self.slow > 0.0 && d > self.slow {
            eprintln!("slow query {:.1}s", d);
            for t in &key {
                eprintln!("  {}", show(*t, 0));
            }
        }
        if d > self.slowest {
            self.slowest = d;
        }
        if r.is_some() {
            self.sat += 1
        } else if self.unknown == unknown {
            self.unsat += 1
        }
        self.cache.insert(key, r.clone());
        r
    }

    fn dump(&mut self, key: &[T], path: &str) {
        unsafe {
            let s = Z3_mk_simple_solver(self.c);
            Z3_solver_inc_ref(self.c, s);
            for t in key {
                let a = self.cond(*t);
                Z3_solver_assert(self.c, s, a);
            }
            let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned();
            std::fs::write(path, t + "(check-sat)\n").ok();
            Z3_solver_dec_ref(self.c, s);
        }
    }

    /// The constraints of `pc` that share variables, directly or not, with `goal`.
    pub fn slice(pc: &[T], goal: &[T]) -> Vec<T> {
        let mut vs: std::collections::HashSet<u32> = std::collections::HashSet::new();
        for g in goal {
            vs.extend(vars_of(*g).iter());
        }
        let mut rest: Vec<T> = pc.to_vec();
        let mut out = vec![];
        loop {
            let mut changed = false;
            rest.retain(|t| {
                let tv = vars_of(*t);
                if tv.iter().any(|v| vs.contains(v)) {
                    vs.extend(tv.iter());
                    out.push(*t);
                    changed = true;
                    false
                } else {
                    true
                }
            });
            if !changed {
                break;
            }
        }
        out
    }
}
