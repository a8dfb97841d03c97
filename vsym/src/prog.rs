//! Lowering of the parsed module to a register machine.
use crate::parse::{self, Ins, Module, Ty, K};
use crate::term::{fold, mask, sx, Op, T};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(T),
    A(Rc<Vec<Val>>),
}
impl Val {
    pub fn zero(t: &Ty) -> Val {
        match t {
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(Val::zero).collect())),
            Ty::Arr(n, e) | Ty::Vec(n, e) => Val::A(Rc::new((0..*n).map(|_| Val::zero(e)).collect())),
            _ => Val::C(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opn {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ck {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    UMax,
    UMin,
    Max,
    Min,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    /// a libc function that the guest models
    Kernel(u32),
    Ext(u32),
    Ind(Opn),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Op, u32, Opn, Opn),
    VBin(Op, u32, Opn, Opn),
    ICmp(Pred, u32, Opn, Opn),
    VICmp(Pred, u32, Opn, Opn),
    Select(Opn, Ty, Opn, Opn),
    Load(Ty, Opn, bool),
    Store(Ty, Opn, Opn, bool),
    Gep(Opn, u64, Vec<(Opn, u32, u64)>),
    Cast(Ck, Ty, Opn, Ty),
    Call { callee: Callee, args: Vec<Opn>, tys: Vec<Ty>, ret: Ty, normal: u32, unwind: u32 },
    Br(u32),
    CondBr(Opn, u32, u32),
    Switch(Opn, u32, u32, Vec<(u128, u32)>),
    Ret(Option<Opn>),
    Unreachable,
    Resume(Opn),
    Extract(Opn, Vec<u32>),
    Insert(Opn, Opn, Vec<u32>),
    LandingPad,
    Rmw(RmwOp, Opn, u32, Opn),
    CmpXchg(Opn, u32, Opn, Opn),
    Fence,
    Alloca(u64, Option<Opn>),
    Copy(Opn),
    ExtractElem(Opn, Opn),
    InsertElem(Opn, Opn, Opn),
    Shuffle(Opn, Opn, Vec<u32>, u32),
    Unsupported(String),
}

pub struct Inst {
    pub dst: u32,
    pub i: I,
    pub dbg: u32,
}
pub const NONE: u32 = u32::MAX;

pub struct BlockD {
    pub start: u32,
    pub phis: Vec<(u32, Vec<(u32, Opn)>)>,
}

pub struct Func {
    pub name: String,
    pub nparams: usize,
    pub nregs: usize,
    pub insts: Vec<Inst>,
    pub blocks: Vec<BlockD>,
}

pub struct Glob {
    pub name: String,
    pub ty: Ty,
    pub constant: bool,
    pub tls: bool,
    pub data: Vec<u8>,
    pub ext: bool,
}

pub struct Prog {
    pub m: Module,
    pub funcs: Vec<Func>,
    pub globs: Vec<Glob>,
    pub exts: Vec<String>,
    pub fidx: HashMap<String, u32>,
    pub gidx: HashMap<String, u32>,
    pub kernel: Vec<bool>,
    pub is_panic: Vec<bool>,
}

/// Address layout: object id in the upper 32 bits, offset below.
pub const SH: u32 = 32;
/// Object ids: globals from 1, functions from FUNC0, externals from EXT0, everything else from DYN0.
pub const FUNC0: u64 = 0x100000;
pub const EXT0: u64 = 0x180000;
pub const DYN0: u64 = 0x200000;

struct Lower<'a> {
    gidx: &'a HashMap<String, u32>,
    fidx: &'a HashMap<String, u32>,
    alias: &'a HashMap<String, K>,
    exts: &'a mut Vec<String>,
    eidx: &'a mut HashMap<String, u32>,
}

impl<'a> Lower<'a> {
    fn ext(&mut self, n: &str) -> u32 {
        if let Some(i) = self.eidx.get(n) {
            return *i;
        }
        let i = self.exts.len() as u32;
        self.exts.push(n.to_string());
        self.eidx.insert(n.to_string(), i);
        i
    }
    fn addr(&mut self, n: &str) -> u64 {
        if let Some(k) = self.alias.get(n) {
            let k = k.clone();
            return match self.konst(&Ty::Ptr, &k) {
                Val::C(v) => v as u64,
                _ => panic!("alias"),
            };
        }
        if let Some(g) = self.gidx.get(n) {
            return (*g as u64 + 1) << SH;
        }
        if let Some(f) = self.fidx.get(n) {
            return (FUNC0 + *f as u64) << SH;
        }
        let vk = format!("vk_{}", n);
        if let Some(f) = self.fidx.get(&vk) {
            return (FUNC0 + *f as u64) << SH;
        }
        (EXT0 + self.ext(n) as u64) << SH
    }
    pub fn konst(&mut self, t: &Ty, k: &K) -> Val {
        match k {
            K::Int(v) => Val::C(*v),
            K::Null => Val::C(0),
            K::Undef | K::Zero => Val::zero(t),
            K::Global(n) => Val::C(self.addr(n) as u128),
            K::Agg(v) => Val::A(Rc::new(v.iter().map(|(t, k)| self.konst(t, k)).collect())),
            K::Str(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u128)).collect())),
            K::Splat(tk) => {
                let v = self.konst(&tk.0, &tk.1);
                Val::A(Rc::new((0..t.count()).map(|_| v.clone()).collect()))
            }
            K::Gep(ty, base, ix) => {
                let b = match self.konst(&Ty::Ptr, base) {
                    Val::C(v) => v as u64,
                    _ => panic!("gep base"),
                };
                let mut off = 0u64;
                let mut cur = ty.clone();
                for (n, (it, iv)) in ix.iter().enumerate() {
                    let v = match self.konst(it, iv) {
                        Val::C(v) => sx(v, it.bits()) as i64 as u64,
                        _ => panic!("gep index"),
                    };
                    if n == 0 {
                        off = off.wrapping_add(v.wrapping_mul(cur.size()));
                    } else {
                        let o = match &cur {
                            Ty::Struct(..) => cur.field_off(v as usize),
                            _ => v.wrapping_mul(cur.elem(0).size()),
                        };
                        off = off.wrapping_add(o);
                        cur = cur.elem(if matches!(cur, Ty::Struct(..)) { v as usize } else { 0 }).clone();
                    }
                }
                Val::C(b.wrapping_add(off) as u128)
            }
            K::Cast(op, t1, k, t2) => {
                let v = match self.konst(t1, k) {
                    Val::C(v) => v,
                    v => return v,
                };
                Val::C(match op.as_str() {
                    "sext" => (sx(v, t1.bits()) as u128) & mask(t2.bits()),
                    _ => v & mask(t2.bits()),
                })
            }
            K::Bin(op, t, a, b) => {
                let (a, b) = (self.konst(t, a), self.konst(t, b));
                match (a, b) {
                    (Val::C(a), Val::C(b)) => Val::C(fold(binop(op).unwrap(), t.bits(), a, b).unwrap()),
                    _ => panic!("constant expression"),
                }
            }
            K::Meta => Val::C(0),
            K::Local(n) => panic!("local %{} in a constant", n),
        }
    }
}

pub fn binop(s: &str) -> Option<Op> {
    Some(match s {
        "add" => Op::Add,
        "sub" => Op::Sub,
        "mul" => Op::Mul,
        "udiv" => Op::UDiv,
        "sdiv" => Op::SDiv,
        "urem" => Op::URem,
        "srem" => Op::SRem,
        "and" => Op::And,
        "or" => Op::Or,
        "xor" => Op::Xor,
        "shl" => Op::Shl,
        "lshr" => Op::LShr,
        "ashr" => Op::AShr,
        _ => return None,
    })
}

fn flat(v: &Val, t: &Ty, out: &mut [u8]) {
    match (v, t) {
        (Val::C(c), t) => {
            let n = t.store() as usize;
            for i in 0..n.min(16) {
                out[i] = (c >> (8 * i)) as u8;
            }
        }
        (Val::A(v), t) => {
            for (i, e) in v.iter().enumerate() {
                let o = t.field_off(i) as usize;
                flat(e, t.elem(i), &mut out[o..]);
            }
        }
        _ => panic!(),
    }
}

pub fn build(text: &str) -> Prog {
    let m = parse::parse(text);
    let mut fidx = HashMap::new();
    for (i, f) in m.funcs.iter().enumerate() {
        fidx.insert(f.name.clone(), i as u32);
    }
    let mut gidx = HashMap::new();
    for (i, g) in m.globals.iter().enumerate() {
        gidx.insert(g.name.clone(), i as u32);
    }
    let alias: HashMap<String, K> = m.aliases.iter().cloned().collect();
    let mut exts = vec![];
    let mut eidx = HashMap::new();
    let mut lw = Lower { gidx: &gidx, fidx: &fidx, alias: &alias, exts: &mut exts, eidx: &mut eidx };
    let mut globs = vec![];
    for g in &m.globals {
        let mut data = vec![0u8; g.ty.size() as usize];
        if let Some(k) = &g.init {
            let v = lw.konst(&g.ty, k);
            flat(&v, &g.ty, &mut data);
        }
        globs.push(Glob {
            name: g.name.clone(),
            ty: g.ty.clone(),
            constant: g.constant && g.init.is_some(),
            tls: g.tls,
            data,
            ext: g.init.is_none(),
        });
    }
    let mut funcs = vec![];
    for f in &m.funcs {
        funcs.push(lower_fn(&mut lw, f));
    }
    let kernel = funcs.iter().map(|f| f.name.starts_with("vk_")).collect();
    let is_panic = funcs.iter().map(|f| f.name.contains("rust_begin_unwind")).collect();
    Prog { m, funcs, globs, exts, fidx, gidx, kernel, is_panic }
}

fn lower_fn(lw: &mut Lower, f: &parse::FuncDef) -> Func {
    let mut regs: HashMap<&str, u32> = HashMap::new();
    for (_, n) in &f.params {
        let i = regs.len() as u32;
        regs.insert(n, i);
    }
    for b in &f.blocks {
        for i in &b.insts {
            if let Some(d) = &i.dst {
                let n = regs.len() as u32;
                regs.insert(d, n);
            }
        }
    }
    let bl: HashMap<&str, u32> = f.blocks.iter().enumerate().map(|(i, b)| (b.name.as_str(), i as u32)).collect();
    let lb = |s: &str| *bl.get(s).unwrap_or_else(|| panic!("label {} in {}", s, f.name));
    let mut insts = vec![];
    let mut blocks = vec![];
    for b in &f.blocks {
        let start = insts.len() as u32;
        let mut phis = vec![];
        for i in &b.insts {
            let dst = i.dst.as_ref().map_or(NONE, |d| regs[d.as_str()]);
            let mut o = |t: &Ty, k: &K| -> Opn {
                match k {
                    K::Local(n) => Opn::R(*regs.get(n.as_str()).unwrap_or_else(|| panic!("register {} in {}", n, f.name))),
                    K::Agg(v) if v.iter().any(|(_, k)| matches!(k, K::Local(_))) => panic!("local in aggregate"),
                    k => Opn::C(lw.konst(t, k)),
                }
            };
            let isv = |t: &Ty| matches!(t, Ty::Vec(..));
            let eb = |t: &Ty| match t {
                Ty::Vec(_, e) => e.bits(),
                t => t.bits(),
            };
            let k = match &i.ins {
                Ins::Phi(t, v) => {
                    let e = v.iter().map(|(k, l)| (lb(l), o(t, k))).collect();
                    phis.push((dst, e));
                    continue;
                }
                Ins::Bin(op, t, a, b) => {
                    let (a, b) = (o(t, a), o(t, b));
                    let op = binop(op).unwrap();
                    if isv(t) {
                        I::VBin(op, eb(t), a, b)
                    } else {
                        I::Bin(op, eb(t), a, b)
                    }
                }
                Ins::ICmp(p, t, a, b) => {
                    let p = match p.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => panic!("icmp {}", p),
                    };
                    let (a, b) = (o(t, a), o(t, b));
                    if isv(t) {
                        I::VICmp(p, eb(t), a, b)
                    } else {
                        I::ICmp(p, eb(t), a, b)
                    }
                }
                Ins::Select(c, t, a, b) => I::Select(o(&Ty::Int(1), c), t.clone(), o(t, a), o(t, b)),
                Ins::Load(t, p, at) => I::Load(t.clone(), o(&Ty::Ptr, p), *at),
                Ins::Store(t, v, p, at) => I::Store(t.clone(), o(t, v), o(&Ty::Ptr, p), *at),
                Ins::Gep(t, p, ix) => {
                    let base = o(&Ty::Ptr, p);
                    let mut off = 0u64;
                    let mut dynix = vec![];
                    let mut cur = t.clone();
                    for (n, (it, iv)) in ix.iter().enumerate() {
                        let scale = if n == 0 {
                            cur.size()
                        } else {
                            match &cur {
                                Ty::Struct(..) => 0,
                                c => c.elem(0).size(),
                            }
                        };
                        let v = o(it, iv);
                        if n > 0 {
                            if let Ty::Struct(..) = cur {
                                let i = match v {
                                    Opn::C(Val::C(i)) => i as usize,
                                    _ => panic!("struct index"),
                                };
                                off = off.wrapping_add(cur.field_off(i));
                                cur = cur.elem(i).clone();
                                continue;
                            }
                            cur = cur.elem(0).clone();
                        }
                        match v {
                            Opn::C(Val::C(i)) => off = off.wrapping_add((sx(i, it.bits()) as i64 as u64).wrapping_mul(scale)),
                            v => dynix.push((v, it.bits(), scale)),
                        }
                    }
                    I::Gep(base, off, dynix)
                }
                Ins::Cast(op, t1, v, t2) => {
                    let v = o(t1, v);
                    let k = match op.as_str() {
                        "trunc" => Some(Ck::Trunc),
                        "zext" => Some(Ck::ZExt),
                        "sext" => Some(Ck::SExt),
                        "ptrtoint" | "ptrtoaddr" => Some(if t2.bits() < 64 { Ck::Trunc } else { Ck::ZExt }),
                        "inttoptr" => Some(Ck::ZExt),
                        "bitcast" | "addrspacecast" => Some(Ck::Bit),
                        _ => None,
                    };
                    match k {
                        Some(k) => I::Cast(k, t1.clone(), v, t2.clone()),
                        None => I::Unsupported(op.clone()),
                    }
                }
                Ins::Call { ret, callee, args, normal, unwind } => {
                    let a: Vec<Opn> = args.iter().map(|(t, k)| o(t, k)).collect();
                    let tys: Vec<Ty> = args.iter().map(|x| x.0.clone()).collect();
                    let c = match callee {
                        K::Global(n) => {
                            let mut n = n.clone();
                            while let Some(K::Global(x)) = lw.alias.get(&n) {
                                n = x.clone();
                            }
                            if let Some(f) = lw.fidx.get(&n) {
                                Callee::Func(*f)
                            } else if let Some(f) = lw.fidx.get(&format!("vk_{}", n)) {
                                Callee::Kernel(*f)
                            } else {
                                Callee::Ext(lw.ext(&n))
                            }
                        }
                        k => Callee::Ind(o(&Ty::Ptr, k)),
                    };
                    I::Call {
                        callee: c,
                        args: a,
                        tys,
                        ret: ret.clone(),
                        normal: normal.as_ref().map_or(NONE, |l| lb(l)),
                        unwind: unwind.as_ref().map_or(NONE, |l| lb(l)),
                    }
                }
                Ins::Asm { text, ret, .. } => {
                    if *ret == Ty::Void {
                        I::Fence
                    } else {
                        I::Unsupported(format!("asm {}", text))
                    }
                }
                Ins::Br(l) => I::Br(lb(l)),
                Ins::CondBr(c, a, b) => I::CondBr(o(&Ty::Int(1), c), lb(a), lb(b)),
                Ins::Switch(t, v, d, cs) => {
                    I::Switch(o(t, v), t.bits(), lb(d), cs.iter().map(|(c, l)| (*c, lb(l))).collect())
                }
                Ins::Ret(v) => I::Ret(v.as_ref().map(|(t, k)| o(t, k))),
                Ins::Unreachable => I::Unreachable,
                Ins::Resume(k) => I::Resume(o(&Ty::Struct(vec![Ty::Ptr, Ty::Int(32)], false), k)),
                Ins::Extract(t, v, ix) => I::Extract(o(t, v), ix.iter().map(|x| *x as u32).collect()),
                Ins::Insert(t, v, t2, v2, ix) => I::Insert(o(t, v), o(t2, v2), ix.iter().map(|x| *x as u32).collect()),
                Ins::LandingPad { .. } => I::LandingPad,
                Ins::Rmw(op, p, t, v) => {
                    let r = match op.as_str() {
                        "xchg" => RmwOp::Xchg,
                        "add" => RmwOp::Add,
                        "sub" => RmwOp::Sub,
                        "and" => RmwOp::And,
                        "or" => RmwOp::Or,
                        "xor" => RmwOp::Xor,
                        "nand" => RmwOp::Nand,
                        "umax" => RmwOp::UMax,
                        "umin" => RmwOp::UMin,
                        "max" => RmwOp::Max,
                        "min" => RmwOp::Min,
                        _ => panic!("atomicrmw {}", op),
                    };
                    I::Rmw(r, o(&Ty::Ptr, p), t.bits(), o(t, v))
                }
                Ins::CmpXchg(p, t, a, b) => I::CmpXchg(o(&Ty::Ptr, p), t.bits(), o(t, a), o(t, b)),
                Ins::Fence => I::Fence,
                Ins::Alloca(t, n, _) => I::Alloca(t.size(), n.as_ref().map(|(t, k)| o(t, k))),
                Ins::Freeze(t, v) => I::Copy(o(t, v)),
                Ins::ExtractElem(t, v, i) => I::ExtractElem(o(t, v), o(&Ty::Int(64), i)),
                Ins::InsertElem(t, v, e, i) => {
                    let et = t.elem(0).clone();
                    I::InsertElem(o(t, v), o(&et, e), o(&Ty::Int(64), i))
                }
                Ins::Shuffle(t, a, b, mt, mk) => {
                    let n = t.count() as u32;
                    let mk = match o(mt, mk) {
                        Opn::C(Val::A(v)) => v
                            .iter()
                            .map(|x| match x {
                                Val::C(c) => *c as u32,
                                _ => 0,
                            })
                            .collect(),
                        _ => panic!("shuffle mask"),
                    };
                    I::Shuffle(o(t, a), o(t, b), mk, n)
                }
                Ins::Unsupported(s) => I::Unsupported(s.clone()),
            };
            insts.push(Inst { dst, i: k, dbg: i.dbg });
        }
        blocks.push(BlockD { start, phis });
    }
    Func { name: f.name.clone(), nparams: f.params.len(), nregs: regs.len(), insts, blocks }
}
