//! Reader for the textual LLVM IR that rustc writes after whole-program LTO.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(u64, Box<Ty>),
    Label,
    Meta,
    Token,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                if *n <= 8 {
                    1
                } else if *n <= 16 {
                    2
                } else if *n <= 32 {
                    4
                } else if *n <= 64 {
                    8
                } else {
                    16
                }
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(n, t) => (n * t.store()).next_power_of_two().max(1),
            _ => 1,
        }
    }
    /// Bytes written by a store of this type.
    pub fn store(&self) -> u64 {
        match self {
            Ty::Int(n) => (*n as u64 + 7) / 8,
            Ty::Vec(n, t) => match **t {
                Ty::Int(b) => (n * b as u64 + 7) / 8,
                _ => n * t.size(),
            },
            _ => self.size(),
        }
    }
    /// Bytes between consecutive array elements of this type.
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => {
                let a = self.align();
                (self.store() + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Vec(..) => {
                let a = self.align();
                (self.store() + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr => 64,
            Ty::Float => 32,
            Ty::Double => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => panic!("count of {:?}", self),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
    }
}

#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    Null,
    Undef,
    Zero,
    Global(String),
    Agg(Vec<(Ty, K)>),
    Str(Vec<u8>),
    Gep(Ty, Box<K>, Vec<(Ty, K)>),
    Cast(String, Ty, Box<K>, Ty),
    Bin(String, Ty, Box<K>, Box<K>),
    Splat(Box<(Ty, K)>),
    Local(String),
    Meta,
}

#[derive(Clone, Debug)]
pub struct GlobalDef {
    pub name: String,
    pub ty: Ty,
    pub init: Option<K>,
    pub constant: bool,
    pub tls: bool,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(String, Ty, K, K),
    ICmp(String, Ty, K, K),
    Select(K, Ty, K, K),
    Load(Ty, K, bool),
    Store(Ty, K, K, bool),
    Gep(Ty, K, Vec<(Ty, K)>),
    Cast(String, Ty, K, Ty),
    Call {
        ret: Ty,
        callee: K,
        args: Vec<(Ty, K)>,
        normal: Option<String>,
        unwind: Option<String>,
    },
    Asm { ret: Ty, text: String, args: Vec<(Ty, K)> },
    Br(String),
    CondBr(K, String, String),
    Switch(Ty, K, String, Vec<(u128, String)>),
    Ret(Option<(Ty, K)>),
    Unreachable,
    Resume(K),
    Extract(Ty, K, Vec<u64>),
    Insert(Ty, K, Ty, K, Vec<u64>),
    Phi(Ty, Vec<(K, String)>),
    LandingPad { catches: bool, cleanup: bool },
    Rmw(String, K, Ty, K),
    CmpXchg(K, Ty, K, K),
    Fence,
    Alloca(Ty, Option<(Ty, K)>, u64),
    Freeze(Ty, K),
    ExtractElem(Ty, K, K),
    InsertElem(Ty, K, K, K),
    Shuffle(Ty, K, K, Ty, K),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub dst: Option<String>,
    pub ins: Ins,
    pub dbg: u32,
}

#[derive(Clone, Debug)]
pub struct Block {
    pub name: String,
    pub insts: Vec<Inst>,
}

#[derive(Clone, Debug)]
pub struct FuncDef {
    pub name: String,
    pub ret: Ty,
    pub params: Vec<(Ty, String)>,
    pub vararg: bool,
    pub blocks: Vec<Block>,
}

#[derive(Default)]
pub struct Module {
    pub globals: Vec<GlobalDef>,
    pub funcs: Vec<FuncDef>,
    pub decls: Vec<(String, Ty)>,
    pub aliases: Vec<(String, K)>,
    pub types: HashMap<String, Ty>,
    /// debug locations: id -> (line, scope, inlinedAt)
    pub locs: HashMap<u32, (u32, u32, u32)>,
    /// scopes: id -> (parent scope, file, subprogram name)
    pub scopes: HashMap<u32, (u32, u32, Option<String>)>,
    pub files: HashMap<u32, String>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Meta(String),
    Int(String),
    Flt(String),
    CStr(Vec<u8>),
    Str(String),
    P(char),
    Dots,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
}

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
                self.i += 1;
            }
            if self.i < self.s.len() && self.s[self.i] == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                break;
            }
        }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    v.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                v.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            String::from_utf8_lossy(&self.quoted()).into_owned()
        } else {
            let b = self.i;
            while self.i < self.s.len() && idc(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[b..self.i]).into_owned()
        }
    }
    fn next(&mut self) -> Tok {
        self.ws();
        if self.i >= self.s.len() {
            return Tok::Eof;
        }
        let c = self.s[self.i];
        match c {
            b'%' => {
                self.i += 1;
                Tok::Local(self.name())
            }
            b'@' => {
                self.i += 1;
                Tok::Global(self.name())
            }
            b'!' => {
                self.i += 1;
                if self.i < self.s.len() && (idc(self.s[self.i])) {
                    Tok::Meta(self.name())
                } else if self.i < self.s.len() && self.s[self.i] == b'"' {
                    self.quoted();
                    Tok::Meta(String::new())
                } else {
                    Tok::Meta(String::new())
                }
            }
            b'"' => Tok::Str(String::from_utf8_lossy(&self.quoted()).into_owned()),
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 1;
                Tok::CStr(self.quoted())
            }
            b'.' if self.s[self.i..].starts_with(b"...") => {
                self.i += 3;
                Tok::Dots
            }
            b'0'..=b'9' | b'-' => {
                let b = self.i;
                self.i += 1;
                while self.i < self.s.len() && (idc(self.s[self.i]) || self.s[self.i] == b'+') {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.s[b..self.i]).unwrap().to_string();
                if t.contains('.') || t.starts_with("0x") {
                    Tok::Flt(t)
                } else {
                    Tok::Int(t)
                }
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'$' || c == b'.' => Tok::Word(self.name()),
            b'#' => {
                self.i += 1;
                let _ = self.name();
                Tok::P('#')
            }
            _ => {
                self.i += 1;
                Tok::P(c as char)
            }
        }
    }
}

pub struct Parser<'a> {
    lx: Lex<'a>,
    t: Tok,
    pend: usize,
    types: HashMap<String, Ty>,
}

impl<'a> Parser<'a> {
    fn new(s: &'a str) -> Self {
        let mut lx = Lex { s: s.as_bytes(), i: 0 };
        let t = lx.next();
        Parser { lx, t, pend: 0, types: HashMap::new() }
    }
    fn adv(&mut self) -> Tok {
        self.pend = self.lx.i;
        let n = self.lx.next();
        std::mem::replace(&mut self.t, n)
    }
    fn isp(&self, c: char) -> bool {
        self.t == Tok::P(c)
    }
    fn isw(&self, w: &str) -> bool {
        matches!(&self.t, Tok::Word(x) if x == w)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.isp(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) {
        if !self.eat(c) {
            self.err(&format!("expected '{}'", c))
        }
    }
    fn err(&self, m: &str) -> ! {
        let a = self.lx.i.saturating_sub(200);
        let b = (self.lx.i + 100).min(self.lx.s.len());
        panic!(
            "IR parse error: {} at {:?} near:\n{}",
            m,
            self.t,
            String::from_utf8_lossy(&self.lx.s[a..b])
        )
    }
    fn word(&mut self) -> String {
        match self.adv() {
            Tok::Word(w) => w,
            t => self.err(&format!("expected a word, got {:?}", t)),
        }
    }
    fn is_type(&self) -> bool {
        match &self.t {
            Tok::Word(w) => {
                matches!(
                    w.as_str(),
                    "void" | "ptr" | "float" | "double" | "label" | "metadata" | "half" | "token" | "fp128" | "x86_fp80"
                ) || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P('{') | Tok::P('[') | Tok::P('<') => true,
            Tok::Local(n) => self.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        match self.adv() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.isw("addrspace") {
                        self.adv();
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float,
                "double" => Ty::Double,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "token" => Ty::Token,
                "half" => Ty::Int(16),
                "fp128" | "x86_fp80" => Ty::Int(128),
                w if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| self.err("type"))),
                _ => self.err("type"),
            },
            Tok::P('{') => {
                let mut f = vec![];
                while !self.isp('}') {
                    f.push(self.ty());
                    self.eat(',');
                }
                self.exp('}');
                Ty::Struct(f, false)
            }
            Tok::P('[') => {
                let n = self.int() as u64;
                if self.word() != "x" {
                    self.err("x")
                }
                let t = self.ty();
                self.exp(']');
                Ty::Arr(n, Box::new(t))
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let mut f = vec![];
                    while !self.isp('}') {
                        f.push(self.ty());
                        self.eat(',');
                    }
                    self.exp('}');
                    self.exp('>');
                    Ty::Struct(f, true)
                } else {
                    let n = self.int() as u64;
                    self.word();
                    let t = self.ty();
                    self.exp('>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            Tok::Local(n) => self.types.get(&n).cloned().unwrap_or_else(|| self.err("named type")),
            _ => self.err("type"),
        }
    }
    fn int(&mut self) -> i128 {
        match self.adv() {
            Tok::Int(t) => t
                .parse::<i128>()
                .unwrap_or_else(|_| t.parse::<u128>().map(|x| x as i128).unwrap_or_else(|_| self.err("int"))),
            t => self.err(&format!("integer expected, got {:?}", t)),
        }
    }
    fn skip_parens(&mut self) {
        self.exp('(');
        let mut d = 1;
        while d > 0 {
            match self.adv() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::Eof => self.err("eof"),
                _ => {}
            }
        }
    }
    fn is_value(&self) -> bool {
        match &self.t {
            Tok::Local(_) | Tok::Global(_) | Tok::Int(_) | Tok::Flt(_) | Tok::CStr(_) | Tok::Meta(_) => true,
            Tok::P('{') | Tok::P('[') | Tok::P('<') => true,
            Tok::Word(w) => matches!(
                w.as_str(),
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr"
                    | "ptrtoint" | "ptrtoaddr" | "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" | "trunc" | "zext" | "sext" | "bitcast"
                    | "splat" | "icmp" | "select" | "asm" | "dso_local_equivalent" | "no_cfi"
            ),
            _ => false,
        }
    }
    /// Skips attributes up to a value.
    fn attrs_to_value(&mut self) {
        while !self.is_value() {
            match self.adv() {
                Tok::Word(w) => {
                    if self.isp('(') {
                        self.skip_parens();
                    } else if w == "align" {
                        self.adv();
                    }
                }
                Tok::Str(_) => {
                    if self.eat('=') {
                        self.adv();
                    }
                }
                _ => self.err("value expected"),
            }
        }
    }
    fn val(&mut self, ty: &Ty) -> K {
        match self.adv() {
            Tok::Local(n) => K::Local(n),
            Tok::Global(n) => K::Global(n),
            Tok::Int(t) => {
                let v = t
                    .parse::<i128>()
                    .map(|x| x as u128)
                    .unwrap_or_else(|_| t.parse::<u128>().unwrap());
                let b = match ty {
                    Ty::Int(n) => *n,
                    _ => 64,
                };
                K::Int(if b >= 128 { v } else { v & ((1u128 << b) - 1) })
            }
            Tok::Flt(t) => {
                if let Some(h) = t.strip_prefix("0x") {
                    K::Int(u128::from_str_radix(h, 16).unwrap_or(0))
                } else {
                    let f: f64 = t.parse().unwrap_or(0.0);
                    K::Int(f.to_bits() as u128)
                }
            }
            Tok::CStr(b) => K::Str(b),
            Tok::Meta(_) => {
                if self.isp('(') {
                    self.skip_parens();
                }
                K::Meta
            }
            Tok::P('{') => self.agg('}'),
            Tok::P('[') => self.agg(']'),
            Tok::P('<') => {
                if self.eat('{') {
                    let a = self.agg('}');
                    self.exp('>');
                    a
                } else {
                    self.agg('>')
                }
            }
            Tok::Word(w) => match w.as_str() {
                "true" => K::Int(1),
                "false" => K::Int(0),
                "null" | "none" => K::Null,
                "undef" | "poison" => K::Undef,
                "zeroinitializer" => K::Zero,
                "splat" => {
                    self.exp('(');
                    let t = self.ty();
                    let v = self.val(&t);
                    self.exp(')');
                    K::Splat(Box::new((t, v)))
                }
                "getelementptr" => {
                    while !self.isp('(') {
                        self.adv();
                        // inrange(a, b)
                        if self.isp('(') && false {
                            break;
                        }
                    }
                    self.exp('(');
                    if !self.is_type() {
                        // inrange(..) was consumed as words; be strict
                        self.err("gep constant");
                    }
                    let t = self.ty();
                    self.exp(',');
                    let pt = self.ty();
                    let p = self.val(&pt);
                    let mut ix = vec![];
                    while self.eat(',') {
                        let it = self.ty();
                        let iv = self.val(&it);
                        ix.push((it, iv));
                    }
                    self.exp(')');
                    K::Gep(t, Box::new(p), ix)
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "trunc" | "zext" | "sext" | "bitcast" => {
                    while !self.isp('(') {
                        self.adv();
                    }
                    self.exp('(');
                    let t = self.ty();
                    let v = self.val(&t);
                    if !self.eatw("to") {
                        self.err("to");
                    }
                    let t2 = self.ty();
                    self.exp(')');
                    K::Cast(w, t, Box::new(v), t2)
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                    while !self.isp('(') {
                        self.adv();
                    }
                    self.exp('(');
                    let t = self.ty();
                    let a = self.val(&t);
                    self.exp(',');
                    let t2 = self.ty();
                    let b = self.val(&t2);
                    self.exp(')');
                    K::Bin(w, t, Box::new(a), Box::new(b))
                }
                _ => self.err(&format!("value {}", w)),
            },
            t => self.err(&format!("value expected, got {:?}", t)),
        }
    }
    fn agg(&mut self, close: char) -> K {
        let mut v = vec![];
        while !self.isp(close) {
            let t = self.ty();
            let k = self.val(&t);
            v.push((t, k));
            self.eat(',');
        }
        self.exp(close);
        K::Agg(v)
    }
    fn tval(&mut self) -> (Ty, K) {
        let t = self.ty();
        if t == Ty::Meta {
            // a metadata operand: `!12`, `!{..}` or a typed value
            if let Tok::Meta(_) = self.t {
                self.adv();
                if self.isp('(') {
                    self.skip_parens();
                }
            } else if self.is_type() {
                let _ = self.tval();
            }
            return (t, K::Meta);
        }
        self.attrs_to_value();
        let v = self.val(&t);
        (t, v)
    }
    fn args(&mut self) -> Vec<(Ty, K)> {
        self.exp('(');
        let mut v = vec![];
        while !self.isp(')') {
            v.push(self.tval());
            self.eat(',');
        }
        self.exp(')');
        v
    }

    fn module(mut self) -> Module {
        let mut m = Module::default();
        loop {
            match self.t.clone() {
                Tok::Eof => break,
                Tok::Word(w) => match w.as_str() {
                    "source_filename" | "target" | "module" | "attributes" => {
                        self.adv();
                        self.skip_line()
                    }
                    "define" => {
                        let f = self.func();
                        m.funcs.push(f)
                    }
                    "declare" => {
                        self.adv();
                        while !self.is_type() {
                            self.adv();
                            if self.isp('(') {
                                self.skip_parens();
                            }
                        }
                        let t = self.ty();
                        if let Tok::Global(n) = self.t.clone() {
                            m.decls.push((n, t));
                        } else {
                            self.err("declare")
                        }
                        self.skip_line();
                    }
                    _ => self.err("top level"),
                },
                Tok::Global(n) => {
                    self.adv();
                    self.exp('=');
                    let mut constant = false;
                    let mut tls = false;
                    let mut external = false;
                    loop {
                        let w = match self.adv() {
                            Tok::Word(w) => w,
                            t => self.err(&format!("global: {:?}", t)),
                        };
                        match w.as_str() {
                            "global" => break,
                            "constant" => {
                                constant = true;
                                break;
                            }
                            "alias" | "ifunc" => {
                                let _ = self.ty();
                                self.exp(',');
                                let t = self.ty();
                                let k = self.val(&t);
                                m.aliases.push((n.clone(), k));
                                external = true;
                                constant = true;
                                self.skip_line();
                                break;
                            }
                            "thread_local" => {
                                tls = true;
                                if self.isp('(') {
                                    self.skip_parens();
                                }
                            }
                            "external" | "extern_weak" => external = true,
                            _ => {
                                if self.isp('(') {
                                    self.skip_parens();
                                }
                            }
                        }
                    }
                    if m.aliases.last().map_or(false, |a| a.0 == n) {
                        continue;
                    }
                    let ty = self.ty();
                    let init = if external { None } else { Some(self.val(&ty)) };
                    m.globals.push(GlobalDef { name: n, ty, init, constant, tls });
                    self.skip_line();
                }
                Tok::Local(n) => {
                    self.adv();
                    self.exp('=');
                    self.word();
                    if self.isw("opaque") {
                        self.adv();
                    } else {
                        let t = self.ty();
                        self.types.insert(n, t);
                    }
                }
                Tok::Meta(_) | Tok::P('$') | Tok::P('^') => {
                    self.adv();
                    self.skip_line()
                }
                _ => self.err("top level"),
            }
        }
        m.types = self.types.clone();
        m
    }
    /// Skips the rest of the line on which the last consumed token ended.
    fn skip_line(&mut self) {
        let mut i = self.pend;
        while i < self.lx.s.len() && self.lx.s[i] != b'\n' {
            i += 1;
        }
        self.lx.i = i;
        self.adv();
    }

    fn func(&mut self) -> FuncDef {
        self.adv(); // define
        while !self.is_type() {
            match self.adv() {
                Tok::Word(w) => {
                    if self.isp('(') {
                        self.skip_parens();
                    } else if w == "align" {
                        self.adv();
                    }
                }
                Tok::Int(_) => {}
                _ => self.err("define"),
            }
        }
        let ret = self.ty();
        let name = match self.adv() {
            Tok::Global(n) => n,
            _ => self.err("function name"),
        };
        self.exp('(');
        let mut params = vec![];
        let mut vararg = false;
        let mut autonum = 0;
        while !self.isp(')') {
            if self.t == Tok::Dots {
                vararg = true;
                self.adv();
                continue;
            }
            let t = self.ty();
            let mut n = None;
            while !self.isp(',') && !self.isp(')') {
                match self.adv() {
                    Tok::Local(x) => n = Some(x),
                    Tok::Word(_) => {
                        if self.isp('(') {
                            self.skip_parens()
                        }
                    }
                    _ => {}
                }
            }
            let n = n.unwrap_or_else(|| {
                let s = autonum.to_string();
                autonum += 1;
                s
            });
            params.push((t, n));
            self.eat(',');
        }
        self.exp(')');
        // everything up to the body
        let mut d = 0;
        loop {
            match &self.t {
                Tok::P('{') if d == 0 => break,
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::Eof => self.err("eof"),
                _ => {}
            }
            self.adv();
        }
        self.exp('{');
        let mut blocks: Vec<Block> = vec![];
        // Unnamed values are numbered over parameters, blocks and instructions.
        let mut first = true;
        while !self.isp('}') {
            // label?
            let mut label = None;
            match &self.t {
                Tok::Word(w) => {
                    if self.peek_colon() {
                        label = Some(w.clone());
                    }
                }
                Tok::Int(w) => {
                    if self.peek_colon() {
                        label = Some(w.clone());
                    }
                }
                Tok::Str(w) => {
                    if self.peek_colon() {
                        label = Some(w.clone());
                    }
                }
                _ => {}
            }
            if let Some(l) = label {
                self.adv();
                self.exp(':');
                blocks.push(Block { name: l, insts: vec![] });
                first = false;
                continue;
            }
            if first {
                blocks.push(Block { name: params.iter().filter(|p| p.1.bytes().all(|c| c.is_ascii_digit())).count().to_string(), insts: vec![] });
                first = false;
            }
            let i = self.inst();
            blocks.last_mut().unwrap().insts.push(i);
        }
        self.exp('}');
        FuncDef { name, ret, params, vararg, blocks }
    }
    fn peek_colon(&self) -> bool {
        self.lx.s.get(self.lx.i) == Some(&b':')
    }
    fn label(&mut self) -> String {
        if !self.eatw("label") {
            self.err("label");
        }
        match self.adv() {
            Tok::Local(n) => n,
            _ => self.err("label name"),
        }
    }
    /// Consumes what follows an instruction: alignment, metadata, attribute groups.
    fn tail(&mut self) -> u32 {
        let mut dbg = 0;
        loop {
            if self.isp('#') {
                self.adv();
                continue;
            }
            if self.isp('[') {
                // operand bundle
                let mut d = 0;
                loop {
                    match self.adv() {
                        Tok::P('[') => d += 1,
                        Tok::P(']') => {
                            d -= 1;
                            if d == 0 {
                                break;
                            }
                        }
                        _ => {}
                    }
                }
                continue;
            }
            if !self.isp(',') {
                break;
            }
            self.adv();
            match self.adv() {
                Tok::Word(w) if w == "align" => {
                    self.adv();
                }
                Tok::Meta(n) => {
                    if let Tok::Meta(v) = self.t.clone() {
                        self.adv();
                        if n == "dbg" {
                            dbg = v.parse().unwrap_or(0);
                        }
                        if self.isp('{') {
                            let mut d = 0;
                            loop {
                                match self.adv() {
                                    Tok::P('{') => d += 1,
                                    Tok::P('}') => {
                                        d -= 1;
                                        if d == 0 {
                                            break;
                                        }
                                    }
                                    _ => {}
                                }
                            }
                        } else if self.isp('(') {
                            self.skip_parens();
                        }
                    } else {
                        self.err("metadata")
                    }
                }
                t => self.err(&format!("after instruction: {:?}", t)),
            }
        }
        dbg
    }
    fn flags(&mut self, fl: &[&str]) {
        while let Tok::Word(w) = &self.t {
            if fl.contains(&w.as_str()) {
                self.adv();
            } else {
                break;
            }
        }
    }
    fn ordering(&mut self) {
        while let Tok::Word(w) = &self.t {
            match w.as_str() {
                "unordered" | "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst" => {
                    self.adv();
                }
                "syncscope" => {
                    self.adv();
                    self.skip_parens();
                }
                _ => break,
            }
        }
    }
    fn call(&mut self, invoke: bool) -> Ins {
        // calling convention, return attributes
        while !self.is_type() {
            match self.adv() {
                Tok::Word(w) => {
                    if self.isp('(') {
                        self.skip_parens();
                    } else if w == "align" {
                        self.adv();
                    }
                }
                Tok::Int(_) => {}
                _ => self.err("call"),
            }
        }
        let ret = self.ty();
        if self.isp('(') {
            // function type
            self.skip_parens();
        }
        if self.isw("asm") {
            self.adv();
            let mut strs = vec![];
            loop {
                match self.t.clone() {
                    Tok::Word(_) => {
                        self.adv();
                    }
                    Tok::Str(s) => {
                        strs.push(s);
                        self.adv();
                        if !self.eat(',') {
                            break;
                        }
                    }
                    _ => break,
                }
            }
            let args = self.args();
            return Ins::Asm { ret, text: strs.join("|"), args };
        }
        let callee = self.val(&Ty::Ptr);
        let args = self.args();
        let (mut normal, mut unwind) = (None, None);
        if invoke {
            // attributes and bundles before `to`
            loop {
                if self.isp('#') {
                    self.adv();
                } else if self.isp('[') {
                    while !self.isp(']') {
                        self.adv();
                    }
                    self.adv();
                } else {
                    break;
                }
            }
            if !self.eatw("to") {
                self.err("invoke to");
            }
            normal = Some(self.label());
            if !self.eatw("unwind") {
                self.err("invoke unwind");
            }
            unwind = Some(self.label());
        }
        Ins::Call { ret, callee, args, normal, unwind }
    }
    fn inst(&mut self) -> Inst {
        let mut dst = None;
        if let Tok::Local(n) = self.t.clone() {
            self.adv();
            self.exp('=');
            dst = Some(n);
        }
        let op = self.word();
        let ins = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                self.flags(&["nuw", "nsw", "exact", "disjoint"]);
                let t = self.ty();
                let a = self.val(&t);
                self.exp(',');
                let b = self.val(&t);
                Ins::Bin(op, t, a, b)
            }
            "icmp" => {
                self.flags(&["samesign"]);
                let p = self.word();
                let t = self.ty();
                let a = self.val(&t);
                self.exp(',');
                let b = self.val(&t);
                Ins::ICmp(p, t, a, b)
            }
            "select" => {
                self.flags(&["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"]);
                let (ct, c) = self.tval();
                if ct != Ty::Int(1) {
                    Ins::Unsupported("vector select".into());
                }
                self.exp(',');
                let (t, a) = self.tval();
                self.exp(',');
                let (_, b) = self.tval();
                Ins::Select(c, t, a, b)
            }
            "load" => {
                let mut atomic = false;
                while self.isw("atomic") || self.isw("volatile") {
                    atomic |= self.isw("atomic");
                    self.adv();
                }
                let t = self.ty();
                self.exp(',');
                let pt = self.ty();
                let p = self.val(&pt);
                self.ordering();
                Ins::Load(t, p, atomic)
            }
            "store" => {
                let mut atomic = false;
                while self.isw("atomic") || self.isw("volatile") {
                    atomic |= self.isw("atomic");
                    self.adv();
                }
                let (t, v) = self.tval();
                self.exp(',');
                let pt = self.ty();
                let p = self.val(&pt);
                self.ordering();
                Ins::Store(t, v, p, atomic)
            }
            "getelementptr" => {
                while let Tok::Word(w) = &self.t {
                    match w.as_str() {
                        "inbounds" | "nuw" | "nusw" => {
                            self.adv();
                        }
                        "inrange" => {
                            self.adv();
                            self.skip_parens();
                        }
                        _ => break,
                    }
                }
                let t = self.ty();
                self.exp(',');
                let pt = self.ty();
                let p = self.val(&pt);
                let mut ix = vec![];
                while self.isp(',') {
                    // an index or metadata
                    let save = self.lx.i;
                    let tok = self.t.clone();
                    self.adv();
                    if !self.is_type() {
                        self.lx.i = save;
                        self.t = tok;
                        break;
                    }
                    let it = self.ty();
                    let iv = self.val(&it);
                    ix.push((it, iv));
                }
                Ins::Gep(t, p, ix)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" | "fptoui" | "fptosi" | "uitofp"
            | "sitofp" | "fptrunc" | "fpext" => {
                self.flags(&["nuw", "nsw", "nneg", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"]);
                let t = self.ty();
                let v = self.val(&t);
                if !self.eatw("to") {
                    self.err("to");
                }
                let t2 = self.ty();
                Ins::Cast(op, t, v, t2)
            }
            "tail" | "musttail" | "notail" => {
                self.word();
                self.call(false)
            }
            "call" => self.call(false),
            "invoke" => self.call(true),
            "br" => {
                if self.isw("label") {
                    Ins::Br(self.label())
                } else {
                    let (_, c) = self.tval();
                    self.exp(',');
                    let a = self.label();
                    self.exp(',');
                    let b = self.label();
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tval();
                self.exp(',');
                let d = self.label();
                self.exp('[');
                let mut cs = vec![];
                while !self.isp(']') {
                    let ct = self.ty();
                    match self.val(&ct) {
                        K::Int(c) => {
                            self.exp(',');
                            cs.push((c, self.label()));
                        }
                        _ => self.err("case"),
                    }
                }
                self.exp(']');
                Ins::Switch(t, v, d, cs)
            }
            "ret" => {
                if self.isw("void") {
                    self.adv();
                    Ins::Ret(None)
                } else {
                    Ins::Ret(Some(self.tval()))
                }
            }
            "unreachable" => Ins::Unreachable,
            "resume" => {
                let (_, v) = self.tval();
                Ins::Resume(v)
            }
            "extractvalue" => {
                let (t, v) = self.tval();
                let ix = self.idx();
                Ins::Extract(t, v, ix)
            }
            "insertvalue" => {
                let (t, v) = self.tval();
                self.exp(',');
                let (t2, v2) = self.tval();
                let ix = self.idx();
                Ins::Insert(t, v, t2, v2, ix)
            }
            "phi" => {
                self.flags(&["nnan", "ninf", "nsz", "fast"]);
                let t = self.ty();
                let mut v = vec![];
                loop {
                    self.exp('[');
                    let k = self.val(&t);
                    self.exp(',');
                    let l = match self.adv() {
                        Tok::Local(n) => n,
                        _ => self.err("phi"),
                    };
                    self.exp(']');
                    v.push((k, l));
                    // another pair?
                    if self.isp(',') {
                        let save = self.lx.i;
                        let tok = self.t.clone();
                        self.adv();
                        if !self.isp('[') {
                            self.lx.i = save;
                            self.t = tok;
                            break;
                        }
                    } else {
                        break;
                    }
                }
                Ins::Phi(t, v)
            }
            "landingpad" => {
                let _ = self.ty();
                let (mut catches, mut cleanup) = (false, false);
                loop {
                    if self.eatw("cleanup") {
                        cleanup = true;
                    } else if self.eatw("catch") {
                        let _ = self.tval();
                        catches = true;
                    } else if self.eatw("filter") {
                        let _ = self.tval();
                        catches = true;
                    } else {
                        break;
                    }
                }
                Ins::LandingPad { catches, cleanup }
            }
            "atomicrmw" => {
                self.flags(&["volatile"]);
                let o = self.word();
                let pt = self.ty();
                let p = self.val(&pt);
                self.exp(',');
                let (t, v) = self.tval();
                self.ordering();
                Ins::Rmw(o, p, t, v)
            }
            "cmpxchg" => {
                self.flags(&["weak", "volatile"]);
                let pt = self.ty();
                let p = self.val(&pt);
                self.exp(',');
                let (t, a) = self.tval();
                self.exp(',');
                let (_, b) = self.tval();
                self.ordering();
                Ins::CmpXchg(p, t, a, b)
            }
            "fence" => {
                self.ordering();
                Ins::Fence
            }
            "alloca" => {
                self.flags(&["inalloca"]);
                let t = self.ty();
                let mut n = None;
                let mut al = t.align();
                while self.isp(',') {
                    let save = self.lx.i;
                    let tok = self.t.clone();
                    self.adv();
                    if self.eatw("align") {
                        al = self.int() as u64;
                    } else if self.is_type() {
                        n = Some(self.tval());
                    } else {
                        self.lx.i = save;
                        self.t = tok;
                        break;
                    }
                }
                Ins::Alloca(t, n, al)
            }
            "freeze" => {
                let (t, v) = self.tval();
                Ins::Freeze(t, v)
            }
            "extractelement" => {
                let (t, v) = self.tval();
                self.exp(',');
                let (_, i) = self.tval();
                Ins::ExtractElem(t, v, i)
            }
            "insertelement" => {
                let (t, v) = self.tval();
                self.exp(',');
                let (_, e) = self.tval();
                self.exp(',');
                let (_, i) = self.tval();
                Ins::InsertElem(t, v, e, i)
            }
            "shufflevector" => {
                let (t, v) = self.tval();
                self.exp(',');
                let (_, b) = self.tval();
                self.exp(',');
                let (mt, m) = self.tval();
                Ins::Shuffle(t, v, b, mt, m)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fcmp" | "fneg" => {
                self.skip_inst();
                Ins::Unsupported(op)
            }
            _ => self.err(&format!("instruction {}", op)),
        };
        let dbg = self.tail();
        Inst { dst, ins, dbg }
    }
    /// Skips to the next instruction of a floating point instruction (one line).
    fn skip_inst(&mut self) {
        // rewind to the start of the current token's line end
        let mut i = self.lx.i;
        // the token in hand may have been the last of the line: search backwards is safe because
        // such instructions always have operands after the opcode.
        while i < self.lx.s.len() && self.lx.s[i] != b'\n' {
            i += 1;
        }
        self.lx.i = i;
        self.adv();
    }
    fn idx(&mut self) -> Vec<u64> {
        let mut v = vec![];
        while self.isp(',') {
            let save = self.lx.i;
            let tok = self.t.clone();
            self.adv();
            if let Tok::Int(_) = self.t {
                v.push(self.int() as u64);
            } else {
                self.lx.i = save;
                self.t = tok;
                break;
            }
        }
        v
    }
}

fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    let i = l.find(k)? + k.len();
    let r = &l[i..];
    if let Some(q) = r.strip_prefix('"') {
        let e = q.find('"')?;
        return Some(&q[..e]);
    }
    let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
    Some(&r[..e])
}
fn mref(s: Option<&str>) -> u32 {
    s.and_then(|x| x.strip_prefix('!')).and_then(|x| x.parse().ok()).unwrap_or(0)
}

pub fn parse(text: &str) -> Module {
    let mut m = Parser::new(text).module();
    for l in text.lines() {
        if !l.starts_with('!') {
            continue;
        }
        let Some(eq) = l.find(" = ") else { continue };
        let Ok(id) = l[1..eq].parse::<u32>() else { continue };
        let r = &l[eq + 3..];
        let r = r.strip_prefix("distinct ").unwrap_or(r);
        if r.starts_with("!DILocation(") {
            let line = field(r, "line: ").and_then(|x| x.parse().ok()).unwrap_or(0);
            m.locs.insert(id, (line, mref(field(r, "scope: ")), mref(field(r, "inlinedAt: "))));
        } else if r.starts_with("!DISubprogram(") {
            m.scopes.insert(id, (0, mref(field(r, "file: ")), field(r, "name: ").map(|s| s.to_string())));
        } else if r.starts_with("!DILexicalBlock") {
            m.scopes.insert(id, (mref(field(r, "scope: ")), mref(field(r, "file: ")), None));
        } else if r.starts_with("!DIFile(") {
            if let Some(f) = field(r, "filename: ") {
                let f = f.split("/@/").next().unwrap();
                let d = field(r, "directory: ").unwrap_or("");
                m.files.insert(
                    id,
                    if f.starts_with('/') { f.to_string() } else { format!("{}/{}", d, f) },
                );
            }
        }
    }
    m
}
