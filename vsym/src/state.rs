//! Symbolic machine state: objects, threads, path condition.
use crate::prog::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// symbolic bytes: offset -> (term whose width is a multiple of 8, byte index)
    pub sym: Option<Box<BTreeMap<u32, (T, u8)>>>,
    pub site: u64,
    pub heap: bool,
}
impl Obj {
    pub fn new(n: usize, site: u64, heap: bool) -> Obj {
        Obj { data: vec![0; n], sym: None, site, heap }
    }
    pub fn clear_sym(&mut self, o: usize, n: usize) {
        if let Some(s) = &mut self.sym {
            let ks: Vec<u32> = s.range(o as u32..(o + n) as u32).map(|x| *x.0).collect();
            for k in ks {
                s.remove(&k);
            }
            if s.is_empty() {
                self.sym = None;
            }
        }
    }
    pub fn any_sym(&self, o: usize, n: usize) -> bool {
        match &self.sym {
            None => false,
            Some(s) => s.range(o as u32..(o + n) as u32).next().is_some(),
        }
    }
    pub fn write(&mut self, o: usize, n: usize, v: &Val, bits: u32) {
        match v {
            Val::C(c) => {
                for i in 0..n {
                    self.data[o + i] = if i < 16 { (c >> (8 * i)) as u8 } else { 0 };
                }
                self.clear_sym(o, n);
            }
            Val::S(t) => {
                debug_assert_eq!(node(*t).w, bits);
                let t = zext(*t, 8 * n as u32);
                let s = self.sym.get_or_insert_with(Default::default);
                for i in 0..n {
                    s.insert((o + i) as u32, (t, i as u8));
                }
            }
            Val::A(_) => panic!("aggregate"),
        }
    }
    pub fn byte(&self, o: usize) -> T {
        if let Some(s) = &self.sym {
            if let Some((t, i)) = s.get(&(o as u32)) {
                return extract(*t, 8 * *i as u32, 8);
            }
        }
        konst(self.data[o] as u128, 8)
    }
    pub fn read(&self, o: usize, n: usize, bits: u32) -> Val {
        if !self.any_sym(o, n) {
            let mut c = 0u128;
            for i in 0..n {
                c |= (self.data[o + i] as u128) << (8 * i);
            }
            return Val::C(c & mask(bits));
        }
        let s = self.sym.as_ref().unwrap();
        if let Some((t, 0)) = s.get(&(o as u32)) {
            if node(*t).w == 8 * n as u32
                && (1..n).all(|i| s.get(&((o + i) as u32)) == Some(&(*t, i as u8)))
            {
                return mkval(extract(*t, 0, bits));
            }
        }
        let mut r = self.byte(o);
        for i in 1..n {
            r = concat(self.byte(o + i), r);
        }
        mkval(extract(r, 0, bits))
    }
}

pub fn mkval(t: T) -> Val {
    match as_const(t) {
        Some(k) => Val::C(k),
        None => Val::S(t),
    }
}

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
    pub kernel: bool,
    pub exc: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Status {
    Ready,
    Blocked { timed: bool },
    Joining(usize),
    Done,
    /// created while the configuration keeps new threads descheduled
    Never,
}

#[derive(Clone)]
pub struct Thread {
    pub frames: Vec<Rc<Frame>>,
    pub status: Status,
    pub tls: HashMap<u32, u32>,
    pub errno: u32,
    pub kdepth: u32,
    pub yielded: bool,
    pub passed: bool,
    pub block_dst: u32,
    pub name: String,
}

#[derive(Clone)]
pub struct State {
    pub mem: Vec<Option<Rc<Obj>>>,
    pub gmem: Vec<Option<Rc<Obj>>>,
    pub free_ids: Vec<u32>,
    pub thr: Vec<Rc<Thread>>,
    pub cur: usize,
    pub pc: Vec<T>,
    pub known: Rc<HashSet<T>>,
    pub model: Rc<Vec<u128>>,
    pub counters: Rc<HashMap<String, u32>>,
    pub tape: Vec<(T, u32)>,
    pub sched: Vec<u8>,
    /// the constraints on the variables of the schedule
    pub spc: Vec<T>,
    pub preempt: u32,
    pub run_threads: bool,
    pub steps: u64,
    /// when the current thread was last switched to
    pub slice: u64,
    pub covers: Rc<Vec<String>>,
    pub log: Rc<Vec<String>>,
    pub owner: Rc<HashMap<u64, u8>>,
    pub shared: Rc<HashSet<u64>>,
    pub keys: u32,
    pub heap_live: i64,
    pub heap_bytes: i64,
    pub forks: u32,
}
