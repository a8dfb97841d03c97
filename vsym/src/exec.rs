//! The symbolic executor.
use crate::parse::Ty;
use crate::prog::*;
use crate::solver::Solver;
use crate::state::*;
use crate::term::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::rc::Rc;

pub enum Stop {
    /// a property violation on this path
    Viol(String, String),
    /// the path can not be continued: the machinery does not model something
    Unmodelled(String),
    /// infeasible or deliberately ended
    End,
    /// out of time
    Abandon,
    /// the current thread can not continue
    Switch,
}
pub type R<X> = Result<X, Stop>;

#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub tape: Vec<(String, u32, u128)>,
    pub sched: Vec<u8>,
    pub confirmed: bool,
    pub log: Vec<String>,
    pub threads: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub ended: u64,
    pub forks: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub asserts: u64,
    pub asserts_solver: u64,
    pub guessed: u64,
    pub branches_simp: u64,
    pub branches_sym: u64,
    pub max_syms: usize,
    pub sched_points: u64,
    pub leftover: u64,
}

pub struct Ex {
    pub p: Rc<Prog>,
    pub solver: Solver,
    pub work: VecDeque<State>,
    pub gconst: Vec<Rc<Obj>>,
    pub st: Stats,
    pub viols: Vec<Violation>,
    pub seen: HashSet<String>,
    pub unmodelled: Vec<(String, Vec<String>)>,
    pub covers: HashMap<String, u64>,
    pub covered: Vec<Vec<bool>>,
    pub params: HashMap<String, u64>,
    pub step_limit: u64,
    pub shared_sites: HashSet<u64>,
    pub profile: bool,
    pub prof: HashMap<String, (u64, u64)>,
    pub new_shared: bool,
    pub trace: bool,
    /// concrete re-execution: values for the symbols in order, and schedule decisions
    pub replay: Option<(Vec<u128>, Vec<u8>)>,
    pub sched_pos: usize,
    pub max_viols: usize,
    pub stop_all: bool,
    /// whether time is up (asked now and then within a path)
    pub late: Option<Box<dyn Fn() -> bool>>,
    pub abandoned: bool,
}

const LOG_MAX: usize = 400;

fn c64(v: &Val) -> Option<u64> {
    match v {
        Val::C(c) => Some(*c as u64),
        _ => None,
    }
}
pub fn term(v: &Val, w: u32) -> T {
    match v {
        Val::C(c) => konst(*c, w),
        Val::S(t) => *t,
        Val::A(_) => panic!("aggregate used as a scalar"),
    }
}

fn bin_v(op: Op, w: u32, a: &Val, b: &Val) -> R<Val> {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        return match fold(op, w, *x, *y) {
            Some(v) => Ok(Val::C(v)),
            None => Err(Stop::Viol("arithmetic".into(), "division by zero".into())),
        };
    }
    Ok(mkval(bin(op, term(a, w), term(b, w))))
}
fn icmp_v(p: Pred, w: u32, a: &Val, b: &Val) -> Val {
    let (op, sw, ng) = match p {
        Pred::Eq => (Op::Eq, false, false),
        Pred::Ne => (Op::Eq, false, true),
        Pred::Ult => (Op::Ult, false, false),
        Pred::Ule => (Op::Ule, false, false),
        Pred::Ugt => (Op::Ult, true, false),
        Pred::Uge => (Op::Ule, true, false),
        Pred::Slt => (Op::Slt, false, false),
        Pred::Sle => (Op::Sle, false, false),
        Pred::Sgt => (Op::Slt, true, false),
        Pred::Sge => (Op::Sle, true, false),
    };
    let (a, b) = if sw { (b, a) } else { (a, b) };
    if let (Val::C(x), Val::C(y)) = (a, b) {
        let v = fold(op, w, *x, *y).unwrap();
        return Val::C(if ng { v ^ 1 } else { v });
    }
    let t = bin(op, term(a, w), term(b, w));
    mkval(if ng { not(t) } else { t })
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        h ^= *p;
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

/// How many instructions a thread may execute before another one that is ready gets its turn.
const FAIR: u64 = 40_000;
/// The schedule is symbolic: one variable for each point where several threads may go on.
fn sched_is(st: &mut State, k: usize, n: usize) {
    let t = var(&format!("sched#{}", st.sched.len()), 4);
    st.sched.push(k as u8);
    st.spc.push(bin(Op::Ult, t, konst(n as u128, 4)));
    st.spc.push(bin(Op::Eq, t, konst(k as u128, 4)));
}
impl Ex {
    pub fn new(p: Prog) -> Ex {
        let covered = p.funcs.iter().map(|f| vec![false; f.insts.len()]).collect();
        let gconst = p
            .globs
            .iter()
            .enumerate()
            .map(|(i, g)| {
                let mut o = Obj::new(g.data.len(), hash64(&[77, i as u64]), false);
                o.data = g.data.clone();
                Rc::new(o)
            })
            .collect();
        Ex {
            p: Rc::new(p),
            solver: Solver::new(),
            work: VecDeque::new(),
            gconst,
            st: Stats::default(),
            viols: vec![],
            seen: HashSet::new(),
            unmodelled: vec![],
            covers: HashMap::new(),
            covered,
            params: HashMap::new(),
            step_limit: 20_000_000,
            shared_sites: HashSet::new(),
            profile: std::env::var("VSYM_PROFILE").is_ok(),
            prof: HashMap::new(),
            new_shared: false,
            trace: false,
            replay: None,
            sched_pos: 0,
            max_viols: 6,
            stop_all: false,
            late: None,
            abandoned: false,
        }
    }

    // ----- memory -----
    pub fn alloc(&self, st: &mut State, n: usize, site: u64, heap: bool) -> u64 {
        let o = Rc::new(Obj::new(n, site, heap));
        let id = if !heap && !st.free_ids.is_empty() {
            let i = st.free_ids.pop().unwrap();
            st.mem[i as usize] = Some(o);
            i
        } else {
            st.mem.push(Some(o));
            st.mem.len() as u32 - 1
        };
        if heap {
            st.heap_live += 1;
            st.heap_bytes += n as i64;
        }
        (DYN0 + id as u64) << SH
    }
    fn objref<'a>(&'a self, st: &'a State, id: u64) -> Option<&'a Rc<Obj>> {
        if id >= DYN0 {
            st.mem.get((id - DYN0) as usize).and_then(|x| x.as_ref())
        } else if id >= 1 && id <= self.p.globs.len() as u64 {
            match &st.gmem[id as usize - 1] {
                Some(o) => Some(o),
                None => Some(&self.gconst[id as usize - 1]),
            }
        } else {
            None
        }
    }
    fn bad(&self, what: &str, a: u64, n: usize) -> Stop {
        Stop::Viol(
            "memory".into(),
            format!("{} of {} bytes at object {:#x} offset {:#x}", what, n, a >> SH, a & 0xffff_ffff),
        )
    }
    pub fn rd(&self, st: &State, a: u64, n: usize) -> R<(Rc<Obj>, usize)> {
        let o = (a & 0xffff_ffff) as usize;
        match self.objref(st, a >> SH) {
            Some(ob) if o + n <= ob.data.len() => Ok((ob.clone(), o)),
            _ => Err(self.bad("invalid read", a, n)),
        }
    }
    pub fn wr<'a>(&self, st: &'a mut State, a: u64, n: usize) -> R<(&'a mut Obj, usize)> {
        let o = (a & 0xffff_ffff) as usize;
        let id = a >> SH;
        let slot: Option<&'a mut Rc<Obj>> = if id >= DYN0 {
            st.mem.get_mut((id - DYN0) as usize).and_then(|x| x.as_mut())
        } else if id >= 1 && id <= self.p.globs.len() as u64 {
            st.gmem[id as usize - 1].as_mut()
        } else {
            None
        };
        match slot {
            Some(rc) if o + n <= rc.data.len() => Ok((Rc::make_mut(rc), o)),
            _ => Err(self.bad("invalid write", a, n)),
        }
    }
    pub fn load(&self, st: &State, a: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    v.push(self.load(st, a.wrapping_add(t.field_off(i)), &f[i])?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, a.wrapping_add(i * e.size()), e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => {
                let n = t.store() as usize;
                let o = (a & 0xffff_ffff) as usize;
                match self.objref(st, a >> SH) {
                    Some(ob) if o + n <= ob.data.len() => Ok(ob.read(o, n, t.bits())),
                    _ => Err(self.bad("invalid read", a, n)),
                }
            }
        }
    }
    pub fn store(&self, st: &mut State, a: u64, t: &Ty, v: &Val) -> R<()> {
        match (t, v) {
            (_, Val::A(v)) => {
                for (i, e) in v.iter().enumerate() {
                    self.store(st, a.wrapping_add(t.field_off(i)), t.elem(i), e)?;
                }
                Ok(())
            }
            _ => {
                let n = t.store() as usize;
                let bits = t.bits();
                let (o, off) = self.wr(st, a, n)?;
                o.write(off, n, v, bits);
                Ok(())
            }
        }
    }
    pub fn copy(&self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (so, soff) = self.rd(st, s, n)?;
        let bytes: Vec<u8> = so.data[soff..soff + n].to_vec();
        let syms: Vec<(u32, (T, u8))> = match &so.sym {
            Some(m) => m.range(soff as u32..(soff + n) as u32).map(|(k, v)| (*k - soff as u32, *v)).collect(),
            None => vec![],
        };
        drop(so);
        let (o, off) = self.wr(st, d, n)?;
        o.data[off..off + n].copy_from_slice(&bytes);
        o.clear_sym(off, n);
        if !syms.is_empty() {
            let m = o.sym.get_or_insert_with(Default::default);
            for (k, v) in syms {
                m.insert(k + off as u32, v);
            }
        }
        Ok(())
    }
    pub fn bytes(&self, st: &State, a: u64, n: usize) -> R<Vec<u8>> {
        let (o, off) = self.rd(st, a, n)?;
        Ok(o.data[off..off + n].to_vec())
    }
    fn free(&self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        let id = a >> SH;
        let ok = a & 0xffff_ffff == 0
            && id >= DYN0
            && st.mem.get((id - DYN0) as usize).and_then(|x| x.as_ref()).map_or(false, |o| o.heap);
        if !ok {
            return Err(self.bad("invalid free", a, 0));
        }
        let n = st.mem[(id - DYN0) as usize].take().map_or(0, |o| o.data.len());
        st.heap_live -= 1;
        st.heap_bytes -= n as i64;
        Ok(())
    }

    // ----- path condition -----
    /// Decides a one-bit value, forking when both are possible. Nothing may have been changed by
    /// the current instruction when this is called: the other path runs it again from the start.
    pub fn cond(&mut self, st: &mut State, v: &Val) -> R<bool> {
        let t = match v {
            Val::C(c) => return Ok(c & 1 == 1),
            Val::S(t) => *t,
            _ => panic!(),
        };
        if st.known.contains(&t) {
            return Ok(true);
        }
        let nt = not(t);
        if st.known.contains(&nt) {
            return Ok(false);
        }
        let (ot, ont) = (t, nt);
        let t = self.simp(st, t);
        if let Some(k) = as_const(t) {
            self.st.branches_simp += 1;
            Rc::make_mut(&mut st.known).insert(if k == 1 { ot } else { ont });
            return Ok(k == 1);
        }
        let nt = not(t);
        self.st.branches_sym += 1;
        if self.profile {
            let s = self.stack(st, st.cur).into_iter().take(5).collect::<Vec<_>>().join(" < ");
            self.prof.entry(s).or_insert((0, 0)).0 += 1;
        }
        let m = eval(t, &st.model) == 1;
        let (here, other) = if m { (t, nt) } else { (nt, t) };
        let (ohere, oother) = if m { (ot, ont) } else { (ont, ot) };
        match self.feasible(st, other, true) {
            None => {
                Rc::make_mut(&mut st.known).insert(here);
                Rc::make_mut(&mut st.known).insert(ohere);
            }
            Some(model) => {
                let mut sib = st.clone();
                self.add(&mut sib, other);
                Rc::make_mut(&mut sib.known).insert(oother);
                sib.model = Rc::new(model);
                sib.forks += 1;
                if self.profile {
                    let s = self.stack(st, st.cur).into_iter().take(5).collect::<Vec<_>>().join(" < ");
                    self.prof.entry(s).or_insert((0, 0)).1 += 1;
                }
                self.add(st, here);
                Rc::make_mut(&mut st.known).insert(ohere);
                self.st.forks += 1;
                self.work.push_back(sib);
            }
        }
        Ok(m)
    }
    /// The term, simplified with what is known on this path.
    fn simp(&mut self, st: &State, t: T) -> T {
        let mut s = crate::simp::Simp { facts: crate::simp::Facts::new(&st.pc), known: &st.known, memo: Default::default() };
        s.run(t)
    }
    fn add(&self, st: &mut State, t: T) {
        // split conjunctions, which keeps slices small
        let n = node(t);
        if n.op == Op::And && n.w == 1 {
            self.add(st, n.a);
            self.add(st, n.b);
        } else if n.op != Op::Const && !st.known.contains(&t) {
            st.pc.push(t);
        }
        Rc::make_mut(&mut st.known).insert(t);
    }
    /// A model of the path condition and `t`, or None.
    fn feasible(&mut self, st: &State, t: T, guess: bool) -> Option<Vec<u128>> {
        match as_const(t) {
            Some(0) => return None,
            Some(_) => return Some(st.model.to_vec()),
            None => {}
        }
        let mut q = Solver::slice(&st.pc, &[t]);
        q.push(t);
        if guess {
            let mut f = crate::simp::Facts::new(&q);
            for g in f.guesses() {
                let mut m = st.model.to_vec();
                for (v, x) in g {
                    if m.len() <= v as usize {
                        m.resize(v as usize + 1, 0);
                    }
                    m[v as usize] = x;
                }
                if q.iter().all(|c| eval(*c, &m) == 1) {
                    self.st.guessed += 1;
                    return Some(m);
                }
            }
        }
        let r = self.solver.check(&q)?;
        let mut m = st.model.to_vec();
        for (v, x) in r {
            if m.len() <= v as usize {
                m.resize(v as usize + 1, 0);
            }
            m[v as usize] = x;
        }
        Some(m)
    }
    /// Restricts the path to `v`.
    pub fn assume(&mut self, st: &mut State, v: &Val) -> R<()> {
        let t = match v {
            Val::C(c) => return if c & 1 == 1 { Ok(()) } else { Err(Stop::End) },
            Val::S(t) => *t,
            _ => panic!(),
        };
        if st.known.contains(&t) {
            return Ok(());
        }
        let t = self.simp(st, t);
        match as_const(t) {
            Some(1) => return Ok(()),
            Some(_) => return Err(Stop::End),
            None => {}
        }
        if eval(t, &st.model) != 1 {
            match self.feasible(st, t, true) {
                None => return Err(Stop::End),
                Some(m) => st.model = Rc::new(m),
            }
        }
        self.add(st, t);
        Ok(())
    }
    /// Is there a value on this path for which `v` is 0? The violating model if so.
    fn refute(&mut self, st: &State, v: &Val) -> Option<Vec<u128>> {
        match v {
            Val::C(c) => {
                if c & 1 == 1 {
                    None
                } else {
                    Some(st.model.to_vec())
                }
            }
            Val::S(t) => {
                if st.known.contains(t) {
                    return None;
                }
                self.st.asserts_solver += 1;
                let nt = not(*t);
                // (the values known to lead here may do)
                if eval(nt, &st.model) == 1 {
                    return Some(st.model.to_vec());
                }
                let s = self.simp(st, nt);
                self.feasible(st, if as_const(s).is_some() { nt } else { s }, false)
            }
            _ => panic!(),
        }
    }
    /// A concrete value for `v` on this path, forking over the others.
    pub fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c as u64),
            Val::S(t) => {
                let m = eval(*t, &st.model);
                let e = mkval(bin(Op::Eq, *t, konst(m, w)));
                let r = self.cond(st, &e)?;
                debug_assert!(r);
                Ok(m as u64)
            }
            _ => panic!(),
        }
    }

    /// The constant a value must have on this path, if there is only one.
    fn unique(&mut self, st: &mut State, v: Val) -> Val {
        let Val::S(t) = v else { return v };
        let w = node(t).w;
        let m = eval(t, &st.model);
        let e = bin(Op::Eq, t, konst(m, w));
        if st.known.contains(&e) {
            return Val::C(m);
        }
        match self.feasible(st, not(e), true) {
            None => {
                Rc::make_mut(&mut st.known).insert(e);
                Val::C(m)
            }
            Some(_) => v,
        }
    }

    // ----- frames -----
    fn top<'a>(&self, st: &'a State) -> &'a Frame {
        st.thr[st.cur].frames.last().unwrap()
    }
    fn topm<'a>(&self, st: &'a mut State) -> &'a mut Frame {
        let th = Rc::make_mut(&mut st.thr[st.cur]);
        Rc::make_mut(th.frames.last_mut().unwrap())
    }
    fn get(&self, st: &State, o: &Opn) -> Val {
        match o {
            Opn::C(v) => v.clone(),
            Opn::R(r) => self.top(st).regs[*r as usize].clone(),
        }
    }
    fn set(&self, st: &mut State, d: u32, v: Val) {
        if d != NONE {
            self.topm(st).regs[d as usize] = v;
        }
    }
    fn next(&self, st: &mut State) {
        self.topm(st).ip += 1;
    }
    fn jump(&self, st: &mut State, to: u32) {
        let p = self.p.clone();
        let fr = self.topm(st);
        let b = &p.funcs[fr.func as usize].blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, es) in &b.phis {
                let o = &es.iter().find(|e| e.0 == fr.blk).expect("phi").1;
                let v = match o {
                    Opn::C(v) => v.clone(),
                    Opn::R(r) => fr.regs[*r as usize].clone(),
                };
                vals.push((*d, v));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.blk = to;
        fr.ip = b.start;
    }
    pub fn push_frame(&self, st: &mut State, f: u32, args: &[Val], kernel: bool) -> R<()> {
        let fd = &self.p.funcs[f as usize];
        let mut regs = vec![Val::C(0); fd.nregs];
        for (i, a) in args.iter().enumerate().take(fd.nparams) {
            regs[i] = a.clone();
        }
        let th = Rc::make_mut(&mut st.thr[st.cur]);
        if th.frames.len() > 400 {
            return Err(Stop::Viol("stack".into(), "unbounded recursion".into()));
        }
        if kernel {
            th.kdepth += 1;
        }
        th.frames.push(Rc::new(Frame { func: f, blk: 0, ip: 0, regs, allocas: vec![], kernel, exc: 0 }));
        Ok(())
    }
    fn pop_frame(&self, st: &mut State) {
        let th = Rc::make_mut(&mut st.thr[st.cur]);
        let f = th.frames.pop().unwrap();
        if f.kernel {
            th.kdepth -= 1;
        }
        for a in &f.allocas {
            st.mem[*a as usize] = None;
            st.free_ids.push(*a);
        }
    }
    /// Completes the call the top frame is at.
    fn complete(&self, st: &mut State, v: Val) {
        let p = self.p.clone();
        let (f, ip) = {
            let t = self.top(st);
            (t.func, t.ip)
        };
        let ins = &p.funcs[f as usize].insts[ip as usize];
        if ins.dst != NONE {
            self.set(st, ins.dst, v);
        }
        match &ins.i {
            I::Call { normal, .. } if *normal != NONE => self.jump(st, *normal),
            _ => self.next(st),
        }
    }
    fn unwind(&self, st: &mut State, exc: u64) -> R<()> {
        let p = self.p.clone();
        loop {
            if st.thr[st.cur].frames.is_empty() {
                return Err(Stop::Viol("panic".into(), "a panic was not caught".into()));
            }
            let (f, ip) = {
                let t = self.top(st);
                (t.func, t.ip)
            };
            if let I::Call { unwind, .. } = &p.funcs[f as usize].insts[ip as usize].i {
                if *unwind != NONE {
                    self.topm(st).exc = exc;
                    self.jump(st, *unwind);
                    return Ok(());
                }
            }
            self.pop_frame(st);
        }
    }

    pub fn where_is(&self, f: u32, ip: u32) -> String {
        let fd = &self.p.funcs[f as usize];
        let Some(i) = fd.insts.get(ip as usize) else { return fd.name.clone() };
        match self.src(i.dbg) {
            Some((file, line, func)) => format!("{}:{} ({})", short(&file), line, func),
            None => fd.name.clone(),
        }
    }
    pub fn src(&self, dbg: u32) -> Option<(String, u32, String)> {
        let m = &self.p.m;
        let (line, mut sc, _) = *m.locs.get(&dbg)?;
        let mut file = 0;
        let mut name = None;
        for _ in 0..64 {
            let Some((par, f, n)) = m.scopes.get(&sc) else { break };
            if file == 0 {
                file = *f;
            }
            if n.is_some() {
                name = n.clone();
                break;
            }
            sc = *par;
        }
        Some((m.files.get(&file).cloned().unwrap_or_default(), line, name.unwrap_or_default()))
    }
    pub fn stack(&self, st: &State, t: usize) -> Vec<String> {
        let mut v = vec![];
        for fr in st.thr[t].frames.iter().rev() {
            let fd = &self.p.funcs[fr.func as usize];
            let mut d = fd.insts.get(fr.ip as usize).map_or(0, |i| i.dbg);
            if d == 0 {
                v.push(fd.name.clone());
            }
            let mut n = 0;
            while d != 0 && n < 30 {
                if let Some((f, l, s)) = self.src(d) {
                    v.push(format!("{}:{} ({})", short(&f), l, s));
                }
                d = self.p.m.locs.get(&d).map_or(0, |x| x.2);
                n += 1;
            }
        }
        v
    }

    pub fn violation(&mut self, st: &State, kind: &str, msg: &str, model: &[u128]) {
        let key = format!("{}:{}", kind, msg);
        if !self.seen.insert(key) {
            return;
        }
        // the whole path, its schedule included, once more
        let mut all: Vec<T> = st.pc.clone();
        all.extend(st.spc.iter().copied());
        for (t, _) in &st.tape {
            if let Some(v) = model.get(node(*t).k as usize) {
                all.push(bin(Op::Eq, *t, konst(*v, node(*t).w)));
            }
        }
        let confirmed = self.replay.is_some() || self.solver.check(&all).is_some();
        let tape = st
            .tape
            .iter()
            .map(|(t, w)| {
                let n = node(*t);
                (var_info(n.k as u32).0, *w, model.get(n.k as usize).copied().unwrap_or(0))
            })
            .collect();
        let mut threads = vec![];
        for (i, t) in st.thr.iter().enumerate() {
            if i != st.cur && !t.frames.is_empty() {
                let s = self.stack(st, i);
                threads.push(format!("thread {} {:?}: {}", i, t.status, s.iter().take(14).cloned().collect::<Vec<_>>().join(" < ")));
            }
        }
        self.viols.push(Violation {
            kind: kind.into(),
            msg: msg.into(),
            stack: self.stack(st, st.cur).into_iter().take(40).collect(),
            tape,
            sched: st.sched.clone(),
            log: st.log.to_vec(),
            threads,
            confirmed,
        });
        if self.viols.len() >= self.max_viols {
            self.stop_all = true;
        }
    }

    // ----- scheduling -----
    fn pick(&mut self, st: &mut State, opts: Vec<usize>, time_out: bool) {
        st.slice = st.steps;
        // siblings for all but the first
        if opts.len() > 1 {
            self.st.sched_points += 1;
            if let Some((_, s)) = &self.replay {
                let k = s.get(self.sched_pos).copied().unwrap_or(0) as usize;
                self.sched_pos += 1;
                st.sched.push(k as u8);
                st.cur = opts[k.min(opts.len() - 1)];
                if time_out {
                    self.wake(st, st.cur, true);
                }
                return;
            }
            for (k, o) in opts.iter().enumerate().skip(1) {
                let mut s = st.clone();
                s.cur = *o;
                sched_is(&mut s, k, opts.len());
                if time_out {
                    self.wake(&mut s, *o, true);
                }
                s.forks += 1;
                self.st.forks += 1;
                self.work.push_back(s);
            }
            sched_is(st, 0, opts.len());
        }
        st.cur = opts[0];
        if time_out {
            self.wake(st, st.cur, true);
        }
    }
    fn wake(&self, st: &mut State, t: usize, timed_out: bool) {
        let th = Rc::make_mut(&mut st.thr[t]);
        th.status = Status::Ready;
        let d = th.block_dst;
        if d != NONE {
            let fr = Rc::make_mut(th.frames.last_mut().unwrap());
            fr.regs[d as usize] = Val::C(timed_out as u128);
        }
    }
    /// Picks another thread after the current one blocked, finished or yielded.
    fn switch(&mut self, st: &mut State) -> R<()> {
        let cur = st.cur;
        let ready: Vec<usize> = (0..st.thr.len()).filter(|i| st.thr[*i].status == Status::Ready).collect();
        let mut o: Vec<usize> = ready.iter().copied().filter(|i| *i != cur && !st.thr[*i].yielded).collect();
        if o.is_empty() && !ready.is_empty() {
            for i in &ready {
                Rc::make_mut(&mut st.thr[*i]).yielded = false;
            }
            o = ready.iter().copied().filter(|i| *i != cur).collect();
            if o.is_empty() {
                o = ready;
            }
        }
        if !o.is_empty() {
            self.pick(st, o, false);
            return Ok(());
        }
        // time passes
        let timed: Vec<usize> = (0..st.thr.len()).filter(|i| st.thr[*i].status == Status::Blocked { timed: true }).collect();
        if !timed.is_empty() {
            self.pick(st, timed, true);
            return Ok(());
        }
        Err(Stop::Viol("stuck".into(), "every thread is blocked and nothing is left to wake one".into()))
    }
    /// A point where another thread may be scheduled instead.
    fn preempt_point(&mut self, st: &mut State) -> bool {
        let th = &st.thr[st.cur];
        if th.passed || th.kdepth > 0 {
            return false;
        }
        let cur = st.cur;
        let o: Vec<usize> = (0..st.thr.len()).filter(|i| *i != cur && st.thr[*i].status == Status::Ready && !st.thr[*i].yielded).collect();
        if o.is_empty() {
            return false;
        }
        Rc::make_mut(&mut st.thr[cur]).passed = true;
        if st.steps - st.slice > FAIR {
            // a thread that waits for another one in a loop does not run for ever
            self.pick(st, o, false);
            return true;
        }
        if st.preempt == 0 {
            return false;
        }
        self.st.sched_points += 1;
        if let Some((_, s)) = &self.replay {
            let k = s.get(self.sched_pos).copied().unwrap_or(0) as usize;
            self.sched_pos += 1;
            st.sched.push(k as u8);
            if k > 0 {
                st.cur = o[(k - 1).min(o.len() - 1)];
                st.preempt -= 1;
                st.slice = st.steps;
                return true;
            }
            return false;
        }
        for (k, t) in o.iter().enumerate() {
            let mut s = st.clone();
            s.cur = *t;
            s.slice = s.steps;
            s.preempt -= 1;
            sched_is(&mut s, k + 1, o.len() + 1);
            s.forks += 1;
            self.st.forks += 1;
            self.work.push_back(s);
        }
        sched_is(st, 0, o.len() + 1);
        false
    }
    fn visible(&mut self, st: &mut State, a: u64) -> bool {
        if st.thr.len() < 2 || !st.run_threads {
            return false;
        }
        let id = a >> SH;
        let cur = st.cur as u8;
        let site = match self.objref(st, id) {
            Some(o) => o.site,
            None => return false,
        };
        let key = hash64(&[site, a & 0xffff_ffff]);
        if !st.shared.contains(&a) {
            match st.owner.get(&a) {
                Some(x) if *x == cur => {}
                Some(_) => {
                    Rc::make_mut(&mut st.shared).insert(a);
                    if self.shared_sites.insert(key) {
                        self.new_shared = true;
                    }
                }
                None => {
                    Rc::make_mut(&mut st.owner).insert(a, cur);
                }
            }
        }
        if self.shared_sites.contains(&key) {
            return self.preempt_point(st);
        }
        false
    }

    // ----- running -----
    pub fn initial(&mut self, f: u32) -> State {
        let gmem = self
            .p
            .globs
            .iter()
            .enumerate()
            .map(|(i, g)| if g.constant { None } else { Some(self.gconst[i].clone()) })
            .collect();
        let mut st = State {
            mem: vec![],
            gmem,
            free_ids: vec![],
            thr: vec![],
            cur: 0,
            pc: vec![],
            known: Rc::new(HashSet::new()),
            model: Rc::new(vec![]),
            counters: Rc::new(HashMap::new()),
            tape: vec![],
            sched: vec![],
            spc: vec![],
            preempt: 0,
            run_threads: false,
            steps: 0,
            slice: 0,
            covers: Rc::new(vec![]),
            log: Rc::new(vec![]),
            owner: Rc::new(HashMap::new()),
            shared: Rc::new(HashSet::new()),
            keys: 0,
            heap_live: 0,
            heap_bytes: 0,
            forks: 0,
        };
        self.new_thread(&mut st, f, &[], Status::Ready, "main");
        st
    }
    fn new_thread(&self, st: &mut State, f: u32, args: &[Val], status: Status, name: &str) -> usize {
        let e = self.alloc(st, 4, hash64(&[91, st.thr.len() as u64]), true);
        st.thr.push(Rc::new(Thread {
            frames: vec![],
            status,
            tls: HashMap::new(),
            errno: ((e >> SH) - DYN0) as u32,
            kdepth: 0,
            yielded: false,
            passed: false,
            block_dst: NONE,
            name: name.to_string(),
        }));
        let c = st.cur;
        st.cur = st.thr.len() - 1;
        let _ = self.push_frame(st, f, args, false);
        let t = st.cur;
        st.cur = c;
        t
    }

    pub fn run_path(&mut self, mut st: State) {
        let r = self.run_inner(&mut st);
        self.st.max_syms = self.st.max_syms.max(st.tape.len());
        self.st.max_steps = self.st.max_steps.max(st.steps);
        match r {
            Ok(()) => {
                self.st.paths += 1;
                for c in st.covers.iter() {
                    *self.covers.entry(c.clone()).or_insert(0) += 1;
                }
            }
            Err(Stop::Viol(k, m)) => {
                self.st.paths += 1;
                let model = st.model.clone();
                self.violation(&st, &k, &m, &model);
            }
            Err(Stop::End) => self.st.ended += 1,
            Err(Stop::Abandon) => self.abandoned = true,
            Err(Stop::Unmodelled(m)) => {
                if self.unmodelled.len() < 5 {
                    let s = self.stack(&st, st.cur);
                    self.unmodelled.push((m, s));
                }
            }
            Err(Stop::Switch) => unreachable!(),
        }
        if self.trace {
            for l in st.log.iter() {
                eprintln!("  log {}", l);
            }
        }
    }
    fn run_inner(&mut self, st: &mut State) -> R<()> {
        loop {
            if st.thr[st.cur].frames.is_empty() {
                // the thread finished
                let c = st.cur;
                Rc::make_mut(&mut st.thr[c]).status = Status::Done;
                if c == 0 {
                    return Ok(());
                }
                for i in 0..st.thr.len() {
                    if st.thr[i].status == Status::Joining(c) {
                        Rc::make_mut(&mut st.thr[i]).status = Status::Ready;
                    }
                }
                self.switch(st)?;
                continue;
            }
            st.steps += 1;
            self.st.steps += 1;
            if st.steps > self.step_limit {
                return Err(Stop::Viol("steps".into(), "the step bound was exceeded: no progress".into()));
            }
            if st.steps & 0xfff == 0 && self.late.as_ref().map_or(false, |f| f()) {
                return Err(Stop::Abandon);
            }
            match self.step(st) {
                Ok(()) => {}
                Err(Stop::Switch) => self.switch(st)?,
                Err(e) => return Err(e),
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let p = self.p.clone();
        let (f, ip) = {
            let t = self.top(st);
            (t.func, t.ip)
        };
        self.covered[f as usize][ip as usize] = true;
        let ins = &p.funcs[f as usize].insts[ip as usize];
        if self.trace && std::env::var("VSYM_TRACE").is_ok() {
            eprintln!("{} t{} {}#{} {:?}", st.steps, st.cur, p.funcs[f as usize].name, ip, ins.i);
        }
        let v = match &ins.i {
            I::Bin(op, w, a, b) => {
                let (mut a, mut b) = (self.get(st, a), self.get(st, b));
                if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem | Op::Mul) {
                    a = self.unique(st, a);
                    b = self.unique(st, b);
                }
                if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                    if let Val::S(t) = &b {
                        let z = mkval(bin(Op::Eq, *t, konst(0, *w)));
                        if self.cond(st, &z)? {
                            return Err(Stop::Viol("arithmetic".into(), "division by zero".into()));
                        }
                    }
                }
                bin_v(*op, *w, &a, &b)?
            }
            I::VBin(op, w, a, b) => match (self.get(st, a), self.get(st, b)) {
                (Val::A(x), Val::A(y)) => {
                    let mut v = vec![];
                    for (x, y) in x.iter().zip(y.iter()) {
                        v.push(bin_v(*op, *w, x, y)?);
                    }
                    Val::A(Rc::new(v))
                }
                _ => panic!(),
            },
            I::ICmp(pr, w, a, b) => icmp_v(*pr, *w, &self.get(st, a), &self.get(st, b)),
            I::VICmp(pr, w, a, b) => match (self.get(st, a), self.get(st, b)) {
                (Val::A(x), Val::A(y)) => Val::A(Rc::new(x.iter().zip(y.iter()).map(|(x, y)| icmp_v(*pr, *w, x, y)).collect())),
                _ => panic!(),
            },
            I::Select(c, t, a, b) => {
                let c = self.get(st, c);
                match c {
                    Val::C(1) => self.get(st, a),
                    Val::C(_) => self.get(st, b),
                    Val::S(ct) => {
                        let (x, y) = (self.get(st, a), self.get(st, b));
                        if t.is_agg() {
                            if self.cond(st, &Val::S(ct))? {
                                x
                            } else {
                                y
                            }
                        } else {
                            let w = t.bits();
                            mkval(ite(ct, term(&x, w), term(&y, w)))
                        }
                    }
                    Val::A(cv) => match (self.get(st, a), self.get(st, b)) {
                        (Val::A(x), Val::A(y)) => {
                            let mut v = vec![];
                            for (i, c) in cv.iter().enumerate() {
                                v.push(match c {
                                    Val::C(1) => x[i].clone(),
                                    Val::C(_) => y[i].clone(),
                                    _ => return Err(Stop::Unmodelled("vector select".into())),
                                });
                            }
                            Val::A(Rc::new(v))
                        }
                        _ => panic!(),
                    },
                }
            }
            I::Load(t, pt, atomic) => {
                let a = self.get(st, pt);
                let a = match c64(&a) {
                    Some(a) => a,
                    None => self.conc(st, &a, 64)?,
                };
                if *atomic && self.visible(st, a) {
                    return Ok(());
                }
                self.load(st, a, t)?
            }
            I::Store(t, v, pt, atomic) => {
                let a = self.get(st, pt);
                let a = match c64(&a) {
                    Some(a) => a,
                    None => self.conc(st, &a, 64)?,
                };
                if *atomic && self.visible(st, a) {
                    return Ok(());
                }
                let v = self.get(st, v);
                self.store(st, a, t, &v)?;
                self.fin(st);
                return Ok(());
            }
            I::Gep(b, off, ix) => {
                let mut v = self.get(st, b);
                if *off != 0 {
                    v = bin_v(Op::Add, 64, &v, &Val::C(*off as u128))?;
                }
                for (i, w, sc) in ix {
                    let iv = self.get(st, i);
                    let iv = match iv {
                        Val::C(c) => Val::C((sx(c, *w) as u128) & mask(64)),
                        Val::S(t) => mkval(if *w > 64 { extract(t, 0, 64) } else { sext(t, 64) }),
                        _ => panic!(),
                    };
                    let m = bin_v(Op::Mul, 64, &iv, &Val::C(*sc as u128))?;
                    v = bin_v(Op::Add, 64, &v, &m)?;
                }
                v
            }
            I::Cast(k, t1, v, t2) => {
                let v = self.get(st, v);
                self.cast(*k, t1, &v, t2)?
            }
            I::Call { callee, args, tys, ret, .. } => {
                let mut a: Vec<Val> = Vec::with_capacity(args.len());
                for x in args {
                    a.push(self.get(st, x));
                }
                let target = match callee {
                    Callee::Func(f) => *f,
                    Callee::Kernel(f) => {
                        let n = &p.funcs[*f as usize].name;
                        if st.thr.len() > 1 && st.run_threads && n != "vk_clock_gettime" && n != "vk_timerfd_settime" && self.preempt_point(st) {
                            return Ok(());
                        }
                        Rc::make_mut(&mut st.thr[st.cur]).passed = false;
                        return self.push_frame(st, *f, &a, true);
                    }
                    Callee::Ext(e) => {
                        let n = p.exts[*e as usize].clone();
                        return self.ext(st, &n, a, tys, ret);
                    }
                    Callee::Ind(o) => {
                        let v = self.get(st, o);
                        let c = self.conc(st, &v, 64)?;
                        let id = c >> SH;
                        if c & 0xffff_ffff != 0 || !(FUNC0..DYN0).contains(&id) {
                            return Err(Stop::Viol("memory".into(), format!("call through a bad pointer {:#x}", c)));
                        }
                        if id >= EXT0 {
                            let n = p.exts[(id - EXT0) as usize].clone();
                            return self.ext(st, &n, a, tys, ret);
                        }
                        let f = (id - FUNC0) as u32;
                        if p.kernel[f as usize] {
                            return self.push_frame(st, f, &a, true);
                        }
                        f
                    }
                };
                if p.is_panic[target as usize] {
                    return Err(Stop::Viol("panic".into(), format!("panic at {}", self.panic_site(st))));
                }
                return self.push_frame(st, target, &a, false);
            }
            I::Br(l) => {
                self.jump(st, *l);
                return Ok(());
            }
            I::CondBr(c, a, b) => {
                let v = self.get(st, c);
                let to = if self.cond(st, &v)? { *a } else { *b };
                self.jump(st, to);
                return Ok(());
            }
            I::Switch(o, w, d, cs) => {
                let v = self.get(st, o);
                let to = match &v {
                    Val::C(c) => cs.iter().find(|x| x.0 == *c).map_or(*d, |x| x.1),
                    Val::S(t) => {
                        let m = eval(*t, &st.model);
                        let to = cs.iter().find(|x| x.0 == m).map_or(*d, |x| x.1);
                        let mut e = konst(0, 1);
                        if to == *d {
                            // every case that leads elsewhere is excluded
                            for (c, l) in cs {
                                if l != d {
                                    e = bin(Op::Or, e, bin(Op::Eq, *t, konst(*c, *w)));
                                }
                            }
                            e = not(e);
                        } else {
                            for (c, l) in cs {
                                if *l == to {
                                    e = bin(Op::Or, e, bin(Op::Eq, *t, konst(*c, *w)));
                                }
                            }
                        }
                        let r = self.cond(st, &mkval(e))?;
                        debug_assert!(r);
                        to
                    }
                    _ => panic!(),
                };
                self.jump(st, to);
                return Ok(());
            }
            I::Ret(v) => {
                let v = match v {
                    Some(o) => self.get(st, o),
                    None => Val::C(0),
                };
                self.pop_frame(st);
                if !st.thr[st.cur].frames.is_empty() {
                    self.complete(st, v);
                }
                return Ok(());
            }
            I::Unreachable => return Err(Stop::Viol("unreachable".into(), "unreachable code was reached".into())),
            I::Resume(v) => {
                let v = self.get(st, v);
                let e = match &v {
                    Val::A(v) => c64(&v[0]).unwrap_or(0),
                    _ => panic!(),
                };
                self.pop_frame(st);
                return self.unwind(st, e);
            }
            I::Extract(o, ix) => {
                let mut v = self.get(st, o);
                for i in ix {
                    v = match &v {
                        Val::A(a) => a[*i as usize].clone(),
                        _ => panic!(),
                    };
                }
                v
            }
            I::Insert(o, e, ix) => {
                let v = self.get(st, o);
                let e = self.get(st, e);
                insert(v, e, ix)
            }
            I::LandingPad => {
                let e = self.top(st).exc;
                Val::A(Rc::new(vec![Val::C(e as u128), Val::C(1)]))
            }
            I::Rmw(op, pt, w, v) => {
                let a = self.get(st, pt);
                let a = self.conc(st, &a, 64)?;
                if self.visible(st, a) {
                    return Ok(());
                }
                let v = self.get(st, v);
                let t = Ty::Int(*w);
                let old = self.load(st, a, &t)?;
                let nv = match op {
                    RmwOp::Xchg => v,
                    RmwOp::Add => bin_v(Op::Add, *w, &old, &v)?,
                    RmwOp::Sub => bin_v(Op::Sub, *w, &old, &v)?,
                    RmwOp::And => bin_v(Op::And, *w, &old, &v)?,
                    RmwOp::Or => bin_v(Op::Or, *w, &old, &v)?,
                    RmwOp::Xor => bin_v(Op::Xor, *w, &old, &v)?,
                    RmwOp::Nand => {
                        let x = bin_v(Op::And, *w, &old, &v)?;
                        bin_v(Op::Xor, *w, &x, &Val::C(mask(*w)))?
                    }
                    RmwOp::UMax | RmwOp::UMin | RmwOp::Max | RmwOp::Min => {
                        let pr = match op {
                            RmwOp::UMax => Pred::Ugt,
                            RmwOp::UMin => Pred::Ult,
                            RmwOp::Max => Pred::Sgt,
                            _ => Pred::Slt,
                        };
                        let c = icmp_v(pr, *w, &old, &v);
                        mkval(ite(term(&c, 1), term(&old, *w), term(&v, *w)))
                    }
                };
                self.store(st, a, &t, &nv)?;
                old
            }
            I::CmpXchg(pt, w, e, n) => {
                let a = self.get(st, pt);
                let a = self.conc(st, &a, 64)?;
                if self.visible(st, a) {
                    return Ok(());
                }
                let t = Ty::Int(*w);
                let (e, n) = (self.get(st, e), self.get(st, n));
                let old = self.load(st, a, &t)?;
                let eq = icmp_v(Pred::Eq, *w, &old, &e);
                let ok = self.cond(st, &eq)?;
                if ok {
                    self.store(st, a, &t, &n)?;
                }
                Val::A(Rc::new(vec![old, Val::C(ok as u128)]))
            }
            I::Fence => {
                self.fin(st);
                return Ok(());
            }
            I::Alloca(sz, n) => {
                let k = match n {
                    None => 1,
                    Some(o) => {
                        let v = self.get(st, o);
                        self.conc(st, &v, 64)?
                    }
                };
                let site = hash64(&[f as u64, ip as u64, st.thr[st.cur].frames.len() as u64, st.cur as u64]);
                let a = self.alloc(st, (*sz * k) as usize, site, false);
                self.topm(st).allocas.push(((a >> SH) - DYN0) as u32);
                Val::C(a as u128)
            }
            I::Copy(o) => self.get(st, o),
            I::ExtractElem(v, i) => {
                let (v, i) = (self.get(st, v), self.get(st, i));
                let i = self.conc(st, &i, 64)?;
                match v {
                    Val::A(a) => a[i as usize].clone(),
                    _ => panic!(),
                }
            }
            I::InsertElem(v, e, i) => {
                let (v, e, i) = (self.get(st, v), self.get(st, e), self.get(st, i));
                let i = self.conc(st, &i, 64)?;
                insert(v, e, &[i as u32])
            }
            I::Shuffle(a, b, mk, n) => match (self.get(st, a), self.get(st, b)) {
                (Val::A(x), Val::A(y)) => Val::A(Rc::new(
                    mk.iter()
                        .map(|i| if i < n { x[*i as usize].clone() } else { y[(*i - n) as usize].clone() })
                        .collect(),
                )),
                _ => panic!(),
            },
            I::Unsupported(s) => return Err(Stop::Unmodelled(format!("instruction {}", s))),
        };
        self.set(st, ins.dst, v);
        self.fin(st);
        Ok(())
    }
    fn fin(&self, st: &mut State) {
        let th = Rc::make_mut(&mut st.thr[st.cur]);
        th.passed = false;
        Rc::make_mut(th.frames.last_mut().unwrap()).ip += 1;
    }
    fn panic_site(&self, st: &State) -> String {
        for l in self.stack(st, st.cur) {
            if !l.starts_with("std") && !l.starts_with("core") && !l.starts_with("alloc") && l.contains(':') {
                return l;
            }
        }
        "?".into()
    }
    fn cast(&mut self, k: Ck, t1: &Ty, v: &Val, t2: &Ty) -> R<Val> {
        if let (Ty::Vec(..), Val::A(a)) = (t1, v) {
            if let (Ty::Vec(..), true) = (t2, k != Ck::Bit) {
                let mut o = vec![];
                for e in a.iter() {
                    o.push(self.cast(k, t1.elem(0), e, t2.elem(0))?);
                }
                return Ok(Val::A(Rc::new(o)));
            }
            // to one wide integer
            let w = t1.elem(0).bits();
            let mut acc: Option<T> = None;
            for e in a.iter() {
                let t = term(e, w);
                acc = Some(match acc {
                    None => t,
                    Some(x) => concat(t, x),
                });
            }
            let x = mkval(acc.unwrap());
            return match t2 {
                Ty::Vec(n, e) => {
                    let w2 = e.bits();
                    let x = term(&x, w * a.len() as u32);
                    Ok(Val::A(Rc::new((0..*n as u32).map(|i| mkval(extract(x, i * w2, w2))).collect())))
                }
                _ => Ok(x),
            };
        }
        if let Ty::Vec(n, e) = t2 {
            let x = term(v, t1.bits());
            let w2 = e.bits();
            return Ok(Val::A(Rc::new((0..*n as u32).map(|i| mkval(extract(x, i * w2, w2))).collect())));
        }
        let (w1, w2) = (t1.bits(), t2.bits());
        Ok(match (k, v) {
            (Ck::Bit, v) => v.clone(),
            (Ck::Trunc, Val::C(c)) => Val::C(c & mask(w2)),
            (Ck::Trunc, Val::S(t)) => mkval(extract(*t, 0, w2)),
            (Ck::ZExt, Val::C(c)) => Val::C(*c),
            (Ck::ZExt, Val::S(t)) => mkval(zext(*t, w2)),
            (Ck::SExt, Val::C(c)) => Val::C((sx(*c, w1) as u128) & mask(w2)),
            (Ck::SExt, Val::S(t)) => mkval(sext(*t, w2)),
            _ => panic!(),
        })
    }

    // ----- externals -----
    fn site(&self, st: &State) -> u64 {
        let fs = &st.thr[st.cur].frames;
        let mut h = vec![];
        for f in fs.iter().rev().take(5) {
            h.push((f.func as u64) << 32 | f.ip as u64);
        }
        hash64(&h)
    }
    fn guest_str(&self, st: &State, p: &Val, n: &Val) -> R<String> {
        let (p, n) = (c64(p).unwrap_or(0), c64(n).unwrap_or(0));
        Ok(String::from_utf8_lossy(&self.bytes(st, p, n as usize)?).into_owned())
    }
    fn ext(&mut self, st: &mut State, name: &str, a: Vec<Val>, tys: &[Ty], ret: &Ty) -> R<()> {
        let one = |b: bool| Val::C(b as u128);
        let r: Val = match name {
            "malloc" | "calloc" | "realloc" | "posix_memalign" | "aligned_alloc" => {
                let site = self.site(st);
                match name {
                    "malloc" => {
                        let n = self.conc(st, &a[0], 64)?;
                        if n > 1 << 26 {
                            return Err(Stop::Unmodelled(format!("allocation of {} bytes", n)));
                        }
                        Val::C(self.alloc(st, n as usize, site, true) as u128)
                    }
                    "calloc" => {
                        let n = self.conc(st, &a[0], 64)?;
                        let m = self.conc(st, &a[1], 64)?;
                        Val::C(self.alloc(st, (n * m) as usize, site, true) as u128)
                    }
                    "aligned_alloc" => {
                        let n = self.conc(st, &a[1], 64)?;
                        Val::C(self.alloc(st, n as usize, site, true) as u128)
                    }
                    "posix_memalign" => {
                        let n = self.conc(st, &a[2], 64)?;
                        let o = self.alloc(st, n as usize, site, true);
                        self.store(st, c64(&a[0]).unwrap(), &Ty::Ptr, &Val::C(o as u128))?;
                        Val::C(0)
                    }
                    _ => {
                        let n = self.conc(st, &a[1], 64)? as usize;
                        let old = c64(&a[0]).unwrap();
                        let o = self.alloc(st, n, site, true);
                        if old != 0 {
                            let len = self.objref(st, old >> SH).map_or(0, |o| o.data.len());
                            self.copy(st, o, old, len.min(n))?;
                            self.free(st, old)?;
                        }
                        Val::C(o as u128)
                    }
                }
            }
            "free" => {
                let p = self.conc(st, &a[0], 64)?;
                self.free(st, p)?;
                Val::C(0)
            }
            "bcmp" | "memcmp" => {
                let n = self.conc(st, &a[2], 64)? as usize;
                let p = self.conc(st, &a[0], 64)?;
                let q = self.conc(st, &a[1], 64)?;
                if n == 0 {
                    Val::C(0)
                } else {
                    let (x, xo) = self.rd(st, p, n)?;
                    let (y, yo) = self.rd(st, q, n)?;
                    if !x.any_sym(xo, n) && !y.any_sym(yo, n) {
                        let c = x.data[xo..xo + n].cmp(&y.data[yo..yo + n]);
                        Val::C(match c {
                            std::cmp::Ordering::Less => mask(32),
                            std::cmp::Ordering::Equal => 0,
                            std::cmp::Ordering::Greater => 1,
                        })
                    } else {
                        let mut r = konst(0, 32);
                        for i in (0..n).rev() {
                            let (b, c) = (x.byte(xo + i), y.byte(yo + i));
                            let e = bin(Op::Eq, b, c);
                            let l = bin(Op::Ult, b, c);
                            r = ite(e, r, ite(l, konst(mask(32), 32), konst(1, 32)));
                        }
                        mkval(r)
                    }
                }
            }
            "strlen" => {
                let p = self.conc(st, &a[0], 64)?;
                let mut n = 0;
                loop {
                    let (o, off) = self.rd(st, p + n, 1)?;
                    let z = mkval(bin(Op::Eq, o.byte(off), konst(0, 8)));
                    if self.cond(st, &z)? {
                        break;
                    }
                    n += 1;
                }
                Val::C(n as u128)
            }
            "__errno_location" => Val::C(((DYN0 + st.thr[st.cur].errno as u64) << SH) as u128),
            "pthread_create" => {
                let f = (c64(&a[2]).unwrap() >> SH) - FUNC0;
                let status = if st.run_threads { Status::Ready } else { Status::Never };
                let t = self.new_thread(st, f as u32, &[a[3].clone()], status, "spawned");
                self.store(st, c64(&a[0]).unwrap(), &Ty::Int(64), &Val::C(t as u128 + 1))?;
                Val::C(0)
            }
            "pthread_join" => {
                let t = c64(&a[0]).unwrap() as usize - 1;
                if st.thr[t].status != Status::Done {
                    let c = st.cur;
                    let th = Rc::make_mut(&mut st.thr[c]);
                    th.status = Status::Joining(t);
                    th.block_dst = NONE;
                    return Err(Stop::Switch);
                }
                Val::C(0)
            }
            "pthread_self" => Val::C(st.cur as u128 + 1),
            "gettid" => Val::C(st.cur as u128 + 1),
            "pthread_attr_init" | "pthread_attr_setstacksize" | "pthread_attr_destroy" | "pthread_detach" | "pthread_setname_np"
            | "pthread_attr_setguardsize" | "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_delete" | "sigaltstack"
            | "_Unwind_DeleteException" => Val::C(0),
            "pthread_getspecific" | "getenv" | "dlsym" => Val::C(0),
            "pthread_key_create" => {
                st.keys += 1;
                let k = st.keys;
                self.store(st, c64(&a[0]).unwrap(), &Ty::Int(32), &Val::C(k as u128))?;
                Val::C(0)
            }
            "sysconf" => Val::C(4096),
            "sched_yield" | "llvm.x86.sse2.pause" => {
                self.complete(st, Val::C(0));
                if st.thr.len() > 1 && st.run_threads {
                    let c = st.cur;
                    Rc::make_mut(&mut st.thr[c]).yielded = true;
                    return Err(Stop::Switch);
                }
                return Ok(());
            }
            "_Unwind_RaiseException" => {
                let e = c64(&a[0]).unwrap();
                return self.unwind(st, e);
            }
            "_Unwind_Resume" => {
                let e = c64(&a[0]).unwrap();
                return self.unwind(st, e);
            }
            "abort" | "llvm.trap" => return Err(Stop::Viol("abort".into(), format!("abort in {}", self.panic_site(st)))),
            // ---- harness interface ----
            "v_sym" => {
                let n = self.guest_str(st, &a[0], &a[1])?;
                let w = c64(&a[2]).unwrap() as u32;
                if let Some((tape, _)) = &self.replay {
                    let v = tape.get(st.tape.len()).copied().unwrap_or(0);
                    let t = var(&format!("replay{}", st.tape.len()), w);
                    st.tape.push((t, w));
                    Val::C(v & mask(w))
                } else {
                    let k = {
                        let m = Rc::make_mut(&mut st.counters);
                        let e = m.entry(n.clone()).or_insert(0);
                        *e += 1;
                        *e
                    };
                    let t = var(&format!("{}#{}", n, k), w);
                    st.tape.push((t, w));
                    let v = node(t).k as usize;
                    if st.model.len() <= v {
                        Rc::make_mut(&mut st.model).resize(v + 1, 0);
                    }
                    mkval(zext(t, 64))
                }
            }
            "v_assume" => {
                let c = self.trunc1(&a[0]);
                self.assume(st, &c)?;
                Val::C(0)
            }
            "v_assert" => {
                self.st.asserts += 1;
                let c = self.trunc1(&a[0]);
                if let Some(m) = self.refute(st, &c) {
                    let s = self.guest_str(st, &a[1], &a[2])?;
                    self.violation(st, "assert", &s, &m);
                    // continue where it holds
                    self.assume(st, &c)?;
                } else if let Val::S(t) = c {
                    Rc::make_mut(&mut st.known).insert(t);
                }
                Val::C(0)
            }
            "v_cover" => {
                let s = self.guest_str(st, &a[0], &a[1])?;
                if !st.covers.contains(&s) {
                    Rc::make_mut(&mut st.covers).push(s);
                }
                Val::C(0)
            }
            "v_log" => {
                let s = self.guest_str(st, &a[0], &a[1])?;
                if st.log.len() < LOG_MAX {
                    let x = match &a[2] {
                        Val::C(c) => format!("{} {}", s, *c as i64),
                        Val::S(t) => format!("{} ~{}", s, eval(*t, &st.model) as i64),
                        _ => s,
                    };
                    let x = format!("t{} {}", st.cur, x);
                    Rc::make_mut(&mut st.log).push(x);
                }
                Val::C(0)
            }
            "v_conc" => {
                let v = self.conc(st, &a[0], 64)?;
                Val::C(v as u128)
            }
            "v_is_sym" => one(matches!(a[0], Val::S(_))),
            "v_param" => {
                let s = self.guest_str(st, &a[0], &a[1])?;
                let d = c64(&a[2]).unwrap();
                Val::C(self.params.get(&s).copied().unwrap_or(d) as u128)
            }
            "v_threads" => {
                // preemption bound; threads created from now on run
                st.preempt = c64(&a[0]).unwrap() as u32;
                st.run_threads = true;
                Val::C(0)
            }
            "v_tid" => Val::C(st.cur as u128),
            "v_block" => {
                let timed = c64(&a[0]).unwrap() != 0;
                let d = {
                    let t = self.top(st);
                    self.p.funcs[t.func as usize].insts[t.ip as usize].dst
                };
                self.complete(st, Val::C(0));
                let c = st.cur;
                let th = Rc::make_mut(&mut st.thr[c]);
                th.status = Status::Blocked { timed };
                th.block_dst = d;
                return Err(Stop::Switch);
            }
            "v_unblock" => {
                let t = c64(&a[0]).unwrap() as usize;
                if matches!(st.thr[t].status, Status::Blocked { .. }) {
                    self.wake(st, t, false);
                }
                Val::C(0)
            }
            "v_is_blocked" => {
                let t = c64(&a[0]).unwrap() as usize;
                one(matches!(st.thr[t].status, Status::Blocked { .. }))
            }
            "v_yield" => {
                self.complete(st, Val::C(0));
                if st.thr.len() > 1 && st.run_threads {
                    let c = st.cur;
                    Rc::make_mut(&mut st.thr[c]).yielded = true;
                    return Err(Stop::Switch);
                }
                return Ok(());
            }
            "v_heap_bytes" => Val::C(st.heap_bytes as u64 as u128),
            "v_heap" => Val::C(st.heap_live as u64 as u128),
            "v_steps" => Val::C(st.steps as u128),
            "v_fail" => {
                let s = self.guest_str(st, &a[0], &a[1])?;
                return Err(Stop::Viol("assert".into(), s));
            }
            "v_end" => return Err(Stop::End),
            "v_unmodelled" => {
                let s = self.guest_str(st, &a[0], &a[1])?;
                return Err(Stop::Unmodelled(s));
            }
            n if n.starts_with("llvm.") => self.intrinsic(st, n, &a, tys, ret)?,
            n => return Err(Stop::Unmodelled(format!("external function {}", n))),
        };
        Rc::make_mut(&mut st.thr[st.cur]).passed = false;
        self.complete(st, r);
        Ok(())
    }
    fn trunc1(&self, v: &Val) -> Val {
        match v {
            Val::C(c) => Val::C((*c != 0) as u128),
            Val::S(t) => {
                let w = node(*t).w;
                if w == 1 {
                    v.clone()
                } else {
                    mkval(not(bin(Op::Eq, *t, konst(0, w))))
                }
            }
            _ => panic!(),
        }
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[Val], tys: &[Ty], ret: &Ty) -> R<Val> {
        let s = &n[5..];
        let w = match ret {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Struct(f, _) => f[0].bits(),
            _ => 0,
        };
        let base = |p: &str| s.starts_with(p);
        if base("memcpy") || base("memmove") {
            let l = self.conc(st, &a[2], 64)?;
            let d = self.conc(st, &a[0], 64)?;
            let sr = self.conc(st, &a[1], 64)?;
            self.copy(st, d, sr, l as usize)?;
            return Ok(Val::C(0));
        }
        if base("memset") {
            let l = self.conc(st, &a[2], 64)? as usize;
            let d = self.conc(st, &a[0], 64)?;
            if l > 0 {
                let (o, off) = self.wr(st, d, l)?;
                match &a[1] {
                    Val::C(c) => {
                        for i in 0..l {
                            o.data[off + i] = *c as u8;
                        }
                        o.clear_sym(off, l);
                    }
                    v => {
                        for i in 0..l {
                            o.write(off + i, 1, v, 8);
                        }
                    }
                }
            }
            return Ok(Val::C(0));
        }
        if base("lifetime") || base("assume") || base("experimental.noalias") || base("dbg") || base("prefetch") || base("va_") {
            return Ok(Val::C(0));
        }
        if base("is.constant") {
            return Ok(Val::C(0));
        }
        if base("expect") {
            return Ok(a[0].clone());
        }
        if base("threadlocal.address") {
            let g = (c64(&a[0]).unwrap() >> SH) as u32 - 1;
            let c = st.cur;
            if let Some(o) = st.thr[c].tls.get(&g) {
                return Ok(Val::C(((DYN0 + *o as u64) << SH) as u128));
            }
            let data = self.p.globs[g as usize].data.clone();
            let p = self.alloc(st, data.len(), hash64(&[55, g as u64, c as u64]), true);
            st.heap_live -= 1;
            st.heap_bytes -= data.len() as i64;
            let (o, _) = self.wr(st, p, data.len())?;
            o.data = data;
            Rc::make_mut(&mut st.thr[c]).tls.insert(g, ((p >> SH) - DYN0) as u32);
            return Ok(Val::C(p as u128));
        }
        if base("load.relative") {
            let p = self.conc(st, &a[0], 64)?;
            let o = self.conc(st, &a[1], 64)?;
            let v = self.load(st, p.wrapping_add(o), &Ty::Int(32))?;
            return match v {
                Val::C(c) => Ok(Val::C((p as i64).wrapping_add(sx(c, 32) as i64) as u64 as u128)),
                _ => Err(Stop::Unmodelled("load.relative".into())),
            };
        }
        if base("umin") || base("umax") || base("smin") || base("smax") {
            let pr = match &s[..4] {
                "umin" => Pred::Ult,
                "umax" => Pred::Ugt,
                "smin" => Pred::Slt,
                _ => Pred::Sgt,
            };
            let c = icmp_v(pr, w, &a[0], &a[1]);
            return Ok(match c {
                Val::C(1) => a[0].clone(),
                Val::C(_) => a[1].clone(),
                c => mkval(ite(term(&c, 1), term(&a[0], w), term(&a[1], w))),
            });
        }
        if base("ucmp") || base("scmp") {
            let ow = tys[0].bits();
            let p = if base("ucmp") { Pred::Ult } else { Pred::Slt };
            let l = term(&icmp_v(p, ow, &a[0], &a[1]), 1);
            let g = term(&icmp_v(p, ow, &a[1], &a[0]), 1);
            return Ok(mkval(ite(l, konst(mask(w), w), ite(g, konst(1, w), konst(0, w)))));
        }
        if s.contains(".with.overflow") {
            let a: &[Val] = if s[1..].starts_with("mul") {
                &[self.unique(st, a[0].clone()), self.unique(st, a[1].clone())]
            } else {
                a
            };
            let pair = |r: T, o: T| Val::A(Rc::new(vec![mkval(r), mkval(o)]));
            let (x, y) = (term(&a[0], w), term(&a[1], w));
            let neg = |t: T| bin(Op::Slt, t, konst(0, w));
            return Ok(match &s[..4] {
                "uadd" => {
                    let r = bin(Op::Add, x, y);
                    pair(r, bin(Op::Ult, r, x))
                }
                "usub" => pair(bin(Op::Sub, x, y), bin(Op::Ult, x, y)),
                "sadd" => {
                    let r = bin(Op::Add, x, y);
                    pair(r, neg(bin(Op::And, bin(Op::Xor, x, r), bin(Op::Xor, y, r))))
                }
                "ssub" => {
                    let r = bin(Op::Sub, x, y);
                    pair(r, neg(bin(Op::And, bin(Op::Xor, x, y), bin(Op::Xor, x, r))))
                }
                "umul" if as_const(x).map_or(false, |k| k != 0) || as_const(y).map_or(false, |k| k != 0) => {
                    let (v, k) = if let Some(k) = as_const(y) { (x, k) } else { (y, as_const(x).unwrap()) };
                    pair(bin(Op::Mul, x, y), bin(Op::Ult, konst(mask(w) / k, w), v))
                }
                "smul" if as_const(x).map_or(false, |k| sx(k, w) > 0) || as_const(y).map_or(false, |k| sx(k, w) > 0) => {
                    let (v, k) = if let Some(k) = as_const(y) { (x, k) } else { (y, as_const(x).unwrap()) };
                    let max = (mask(w) >> 1) as i128;
                    let min = -max - 1;
                    let (hi, lo) = (konst((max / k as i128) as u128, w), konst((min / k as i128) as u128, w));
                    pair(bin(Op::Mul, x, y), bin(Op::Or, bin(Op::Slt, hi, v), bin(Op::Slt, v, lo)))
                }
                "umul" => {
                    let l = bin(Op::Mul, zext(x, 2 * w), zext(y, 2 * w));
                    pair(bin(Op::Mul, x, y), not(bin(Op::Eq, extract(l, w, w), konst(0, w))))
                }
                _ => {
                    let l = bin(Op::Mul, sext(x, 2 * w), sext(y, 2 * w));
                    let r = bin(Op::Mul, x, y);
                    pair(r, not(bin(Op::Eq, l, sext(r, 2 * w))))
                }
            });
        }
        if base("usub.sat") {
            let (x, y) = (term(&a[0], w), term(&a[1], w));
            return Ok(mkval(ite(bin(Op::Ult, x, y), konst(0, w), bin(Op::Sub, x, y))));
        }
        if base("uadd.sat") {
            let (x, y) = (term(&a[0], w), term(&a[1], w));
            let r = bin(Op::Add, x, y);
            return Ok(mkval(ite(bin(Op::Ult, r, x), konst(mask(w), w), r)));
        }
        if base("abs") {
            let x = term(&a[0], w);
            return Ok(mkval(ite(bin(Op::Slt, x, konst(0, w)), bin(Op::Sub, konst(0, w), x), x)));
        }
        if base("fshl") || base("fshr") {
            let sh = (self.conc(st, &a[2], w)? % w as u64) as u32;
            let x = concat(term(&a[0], w), term(&a[1], w));
            return Ok(if base("fshl") {
                mkval(extract(x, w - sh, w))
            } else {
                mkval(extract(x, sh, w))
            });
        }
        if base("bswap") {
            let x = term(&a[0], w);
            let mut r = extract(x, 0, 8);
            for i in 1..w / 8 {
                r = concat(r, extract(x, 8 * i, 8));
            }
            return Ok(mkval(r));
        }
        if base("ctpop") || base("cttz") || base("ctlz") || base("bitreverse") {
            let ww = tys[0].bits();
            let c = match &a[0] {
                Val::C(c) => *c,
                v => self.conc(st, v, ww)? as u128,
            };
            return Ok(Val::C(match &s[..4] {
                "ctpo" => c.count_ones() as u128,
                "cttz" => (c.trailing_zeros()).min(ww) as u128,
                "ctlz" => (c.leading_zeros() - (128 - ww)) as u128,
                _ => c.reverse_bits() >> (128 - ww),
            }));
        }
        if base("ptrmask") {
            return bin_v(Op::And, 64, &a[0], &a[1]);
        }
        Err(Stop::Unmodelled(format!("intrinsic {}", n)))
    }
}

fn insert(v: Val, e: Val, ix: &[u32]) -> Val {
    match v {
        Val::A(a) => {
            let mut a = a;
            let m = Rc::make_mut(&mut a);
            let i = ix[0] as usize;
            m[i] = if ix.len() == 1 {
                e
            } else {
                insert(m[i].clone(), e, &ix[1..])
            };
            Val::A(a)
        }
        _ => panic!("insert into a scalar"),
    }
}

pub fn short(f: &str) -> String {
    if let Some(i) = f.find("/library/") {
        return f[i + 9..].to_string();
    }
    if let Some(i) = f.find("/registry/src/") {
        let r = &f[i + 14..];
        return r.splitn(2, '/').nth(1).unwrap_or(r).to_string();
    }
    f.to_string()
}
