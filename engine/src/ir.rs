//! Textual LLVM IR: types, globals, lazily parsed function bodies.
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u8),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(bool, Rc<Vec<Ty>>),
    Other,
}

impl Ty {
    /// scalar width in bits
    pub fn width(&self) -> Option<u8> {
        match self {
            Ty::Int(w) => Some(*w),
            Ty::Ptr | Ty::F64 => Some(64),
            Ty::F32 => Some(32),
            _ => None,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.store_size()).next_power_of_two().min(16).max(1),
            Ty::Struct(true, _) => 1,
            Ty::Struct(false, ts) => ts.iter().map(|t| t.align()).max().unwrap_or(1),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let s = (*w as u64 + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(..) => {
                let (o, _) = self.fields();
                o
            }
        }
    }
    /// (total size, offsets)
    pub fn fields(&self) -> (u64, Vec<u64>) {
        match self {
            Ty::Struct(packed, ts) => {
                let mut off = 0;
                let mut v = vec![];
                for t in ts.iter() {
                    if !*packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    v.push(off);
                    off += t.size();
                }
                if !*packed {
                    let a = self.align();
                    off = (off + a - 1) / a * a;
                }
                (off, v)
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => (n * t.size(), (0..*n).map(|i| i * t.size()).collect()),
            _ => (self.size(), vec![0]),
        }
    }
    pub fn elem(&self, i: u64) -> Ty {
        match self {
            Ty::Struct(_, ts) => ts[i as usize].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn nelem(&self) -> u64 {
        match self {
            Ty::Struct(_, ts) => ts.len() as u64,
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n,
            _ => panic!("nelem"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    T(T),
    A(Rc<Vec<Val>>),
}
impl Val {
    #[inline]
    pub fn t(&self) -> T {
        match self {
            Val::T(t) => *t,
            Val::A(_) => panic!("aggregate where scalar expected"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    PtrToInt,
    IntToPtr,
    BitCast,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(Rc<str>),
    Indirect(Opnd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, Ty, Opnd, Opnd),
    FNeg(Ty, Opnd),
    ICmp(Pred, Ty, Opnd, Opnd),
    FCmp(Rc<str>, Ty, Opnd, Opnd),
    Cast(CastOp, Ty, Opnd, Ty),
    Select(Opnd, Ty, Opnd, Opnd),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    /// base + const + sum(scale * idx)
    Gep(Opnd, u64, Vec<(u64, Opnd, u8)>),
    Alloca(u64, Option<Opnd>),
    Call { callee: Callee, args: Vec<(Ty, Opnd)>, ret: Ty, normal: Option<u32> },
    Ret(Option<Opnd>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Opnd, u32, Vec<(u128, u32)>),
    Unreachable,
    ExtractValue(Opnd, Vec<u32>),
    InsertValue(Opnd, Opnd, Vec<u32>),
    ExtractElem(Opnd, Opnd),
    InsertElem(Opnd, Opnd, Opnd),
    Shuffle(Opnd, Opnd, Vec<Option<u32>>, u64),
    Phi(Vec<(Opnd, u32)>),
    Rmw(Rc<str>, Ty, Opnd, Opnd),
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    Freeze(Opnd),
    Nop,
    Landing,
}

#[derive(Debug)]
pub struct Block {
    pub insts: Vec<(u32, Inst)>, // (dest slot or u32::MAX, inst)
    pub nphi: usize,
}
#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub blocks: Vec<Block>,
    pub nslots: u32,
    pub nparams: usize,
}

pub struct FuncDef {
    pub header: String,
    pub body: (usize, usize), // byte range of body in text
    pub parsed: Option<Rc<Func>>,
    pub addr: u64,
    pub hash: u64,
}

pub struct GlobalDef {
    pub name: String,
    pub text: (usize, usize), // after '='
    pub addr: u64,
    pub tls: bool,
    pub external: bool,
    pub ty: Ty,
    pub constant: bool,
}

pub const FN_BASE: u64 = 0x6000_0000_0000_0000;

pub struct Module {
    pub text: String,
    pub types: HashMap<String, String>,
    pub funcs: HashMap<Rc<str>, FuncDef>,
    pub fn_by_addr: Vec<Rc<str>>,
    pub globals: Vec<GlobalDef>,
    pub gidx: HashMap<String, usize>,
    pub aliases: HashMap<String, String>,
    tycache: HashMap<String, Ty>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Id(&'a str),
    Local(&'a str),
    Global(&'a str),
    Num(&'a str),
    CStr(&'a str),
    Str(&'a str),
    P(char),
    Meta,
    Attr,
    End,
}

pub struct Lex<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
}

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self {
        Lex { s, b: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.b.len() {
            let c = self.b[self.i];
            if c == b' ' || c == b'\t' || c == b'\n' {
                self.i += 1
            } else if c == b';' {
                while self.i < self.b.len() && self.b[self.i] != b'\n' {
                    self.i += 1
                }
            } else {
                break;
            }
        }
    }
    fn quoted(&mut self) -> &'a str {
        // at opening quote
        let st = self.i + 1;
        self.i = st;
        while self.b[self.i] != b'"' {
            self.i += 1
        }
        let r = &self.s[st..self.i];
        self.i += 1;
        r
    }
    pub fn next(&mut self) -> Tok<'a> {
        self.ws();
        if self.i >= self.b.len() {
            return Tok::End;
        }
        let c = self.b[self.i];
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let name = if self.b[self.i] == b'"' {
                    self.quoted()
                } else {
                    let st = self.i;
                    while self.i < self.b.len() && idc(self.b[self.i]) {
                        self.i += 1
                    }
                    &self.s[st..self.i]
                };
                if c == b'%' {
                    Tok::Local(name)
                } else {
                    Tok::Global(name)
                }
            }
            b'!' => {
                self.i += 1;
                while self.i < self.b.len() && idc(self.b[self.i]) {
                    self.i += 1
                }
                Tok::Meta
            }
            b'#' => {
                self.i += 1;
                while self.i < self.b.len() && idc(self.b[self.i]) {
                    self.i += 1
                }
                Tok::Attr
            }
            b'"' => Tok::Str(self.quoted()),
            b'c' if self.i + 1 < self.b.len() && self.b[self.i + 1] == b'"' => {
                self.i += 1;
                Tok::CStr(self.quoted())
            }
            b'f' if self.s[self.i..].starts_with("f0x") => {
                let st = self.i;
                while self.i < self.b.len() && idc(self.b[self.i]) {
                    self.i += 1
                }
                Tok::Num(&self.s[st..self.i])
            }
            _ if c.is_ascii_digit() || ((c == b'-' || c == b'+') && self.i + 1 < self.b.len() && self.b[self.i + 1].is_ascii_digit()) => {
                let st = self.i;
                self.i += 1;
                while self.i < self.b.len() {
                    let d = self.b[self.i];
                    if d.is_ascii_alphanumeric() || d == b'.' {
                        self.i += 1
                    } else if (d == b'+' || d == b'-') && matches!(self.b[self.i - 1], b'e' | b'E') {
                        self.i += 1
                    } else {
                        break;
                    }
                }
                Tok::Num(&self.s[st..self.i])
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = self.i;
                while self.i < self.b.len() && idc(self.b[self.i]) {
                    self.i += 1
                }
                Tok::Id(&self.s[st..self.i])
            }
            b'.' if self.s[self.i..].starts_with("...") => {
                self.i += 3;
                Tok::Id("...")
            }
            _ => {
                self.i += 1;
                Tok::P(c as char)
            }
        }
    }
    pub fn peek(&mut self) -> Tok<'a> {
        let i = self.i;
        let t = self.next();
        self.i = i;
        t
    }
    pub fn eat(&mut self, p: char) -> bool {
        if self.peek() == Tok::P(p) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, p: char) {
        let t = self.next();
        if t != Tok::P(p) {
            panic!("parse: expected {} got {:?} in {}", p, t, self.s)
        }
    }
    pub fn eat_id(&mut self, id: &str) -> bool {
        if self.peek() == Tok::Id(id) {
            self.next();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::End => panic!("parens in {}", self.s),
                _ => {}
            }
        }
    }
}

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            v.push(b'\\');
            i += 2;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

const VALUE_IDS: &[&str] = &[
    "true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr", "inttoptr", "ptrtoint",
    "bitcast", "trunc", "add", "sub", "xor", "mul", "splat", "asm", "blockaddress", "addrspacecast", "ptrtoaddr",
];

impl Module {
    pub fn load(text: String) -> Module {
        let mut m = Module {
            text: String::new(),
            types: Default::default(),
            funcs: Default::default(),
            fn_by_addr: vec![],
            globals: vec![],
            gidx: Default::default(),
            aliases: Default::default(),
            tycache: Default::default(),
        };
        let mut pos = 0;
        let mut add_fn = |m: &mut Module, header: &str, body: (usize, usize), hash: u64| {
            // name: first Global token
            let at = header.find('@').expect("fn name");
            let mut lx = Lex::new(&header[at..]);
            if let Tok::Global(n) = lx.next() {
                let name: Rc<str> = n.into();
                let addr = FN_BASE + (m.fn_by_addr.len() as u64 + 1) * 16;
                m.fn_by_addr.push(name.clone());
                m.funcs.insert(name, FuncDef { header: header.to_string(), body, parsed: None, addr, hash });
            }
        };
        let mut lines = text.split_inclusive('\n');
        while let Some(l) = lines.next() {
            let start = pos;
            pos += l.len();
            if l.starts_with("define ") {
                let bstart = pos;
                let header = l.trim_end().to_string();
                let mut bend = pos;
                for bl in lines.by_ref() {
                    bend = pos;
                    pos += bl.len();
                    if bl.starts_with('}') {
                        break;
                    }
                }
                let mut h = Fx::default();
                std::hash::Hasher::write(&mut h, &text.as_bytes()[bstart..bend]);
                add_fn(&mut m, &header, (bstart, bend), std::hash::Hasher::finish(&h));
            } else if l.starts_with("declare ") {
                add_fn(&mut m, l.trim_end(), (0, 0), 0);
            } else if l.starts_with('@') {
                let mut lx = Lex::new(l);
                let name = match lx.next() {
                    Tok::Global(n) => n.to_string(),
                    _ => panic!("global"),
                };
                lx.expect('=');
                let off = start + lx.i;
                // alias?
                if l.contains(" alias ") && !l.contains(" constant ") && !l.contains(" global ") {
                    let tgt = l.rfind('@').unwrap();
                    let mut l2 = Lex::new(&l[tgt..]);
                    if let Tok::Global(t) = l2.next() {
                        m.aliases.insert(name, t.to_string());
                    }
                    continue;
                }
                m.gidx.insert(name.clone(), m.globals.len());
                m.globals.push(GlobalDef {
                    name,
                    text: (off, pos),
                    addr: 0,
                    tls: false,
                    external: false,
                    ty: Ty::Void,
                    constant: false,
                });
            } else if l.starts_with('%') {
                let mut lx = Lex::new(l);
                if let Tok::Local(n) = lx.next() {
                    lx.expect('=');
                    lx.eat_id("type");
                    m.types.insert(n.to_string(), l[lx.i..].trim().to_string());
                }
            }
        }
        m.text = text;
        // global addresses are object ids 1..=n shifted
        for i in 0..m.globals.len() {
            m.globals[i].addr = (i as u64 + 1) << 32;
            let (a, b) = m.globals[i].text;
            let s = m.text[a..b].to_string();
            let mut lx = Lex::new(&s);
            let mut tls = false;
            let mut ext = false;
            let mut constant = false;
            loop {
                match lx.next() {
                    Tok::Id("constant") => {
                        constant = true;
                        break;
                    }
                    Tok::Id("global") => break,
                    Tok::Id("thread_local") => {
                        tls = true;
                        if lx.peek() == Tok::P('(') {
                            lx.skip_parens();
                        }
                    }
                    Tok::Id("external") | Tok::Id("extern_weak") => ext = true,
                    Tok::End => panic!("global {}", s),
                    _ => {}
                }
            }
            let ty = m.ty(&mut lx);
            let initpos = a + lx.i;
            let g = &mut m.globals[i];
            g.tls = tls;
            g.external = ext;
            g.constant = constant;
            g.ty = ty;
            g.text.0 = initpos;
        }
        m
    }

    pub fn fn_addr(&self, name: &str) -> Option<u64> {
        self.funcs.get(name).map(|f| f.addr)
    }

    pub fn ty(&mut self, lx: &mut Lex) -> Ty {
        let mut t = match lx.next() {
            Tok::Id("void") => Ty::Void,
            Tok::Id("ptr") => {
                if lx.eat_id("addrspace") {
                    lx.skip_parens();
                }
                Ty::Ptr
            }
            Tok::Id("double") => Ty::F64,
            Tok::Id("float") => Ty::F32,
            Tok::Id("label") | Tok::Id("metadata") | Tok::Id("token") | Tok::Id("opaque") | Tok::Id("half") | Tok::Id("bfloat") | Tok::Id("fp128") | Tok::Id("x86_fp80") => Ty::Other,
            Tok::Id(s) if s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit()) => {
                let w: u32 = s[1..].parse().unwrap();
                if w > 128 {
                    Ty::Other
                } else {
                    Ty::Int(w as u8)
                }
            }
            Tok::P('[') => {
                let n = self.num(lx);
                lx.eat_id("x");
                let e = self.ty(lx);
                lx.expect(']');
                Ty::Arr(n, Rc::new(e))
            }
            Tok::P('<') => {
                if lx.peek() == Tok::P('{') {
                    lx.next();
                    let v = self.tylist(lx, '}');
                    lx.expect('>');
                    Ty::Struct(true, Rc::new(v))
                } else {
                    let n = self.num(lx);
                    lx.eat_id("x");
                    let e = self.ty(lx);
                    lx.expect('>');
                    Ty::Vec(n, Rc::new(e))
                }
            }
            Tok::P('{') => {
                let v = self.tylist(lx, '}');
                Ty::Struct(false, Rc::new(v))
            }
            Tok::Local(n) => {
                if let Some(t) = self.tycache.get(n) {
                    t.clone()
                } else {
                    let d = self.types.get(n).cloned().unwrap_or_else(|| panic!("type {}", n));
                    let mut l2 = Lex::new(&d);
                    let t = self.ty(&mut l2);
                    self.tycache.insert(n.to_string(), t.clone());
                    t
                }
            }
            t => panic!("type? {:?} in {}", t, lx.s),
        };
        // function type
        if lx.peek() == Tok::P('(') && !matches!(t, Ty::Ptr) || (matches!(t, Ty::Ptr) && lx.peek() == Tok::P('(')) {
            lx.skip_parens();
            t = match t {
                x => x,
            };
        }
        t
    }
    fn num(&mut self, lx: &mut Lex) -> u64 {
        match lx.next() {
            Tok::Num(s) => s.parse().unwrap(),
            t => panic!("num? {:?} in {}", t, lx.s),
        }
    }
    fn tylist(&mut self, lx: &mut Lex, end: char) -> Vec<Ty> {
        let mut v = vec![];
        if lx.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty(lx));
            if lx.eat(end) {
                return v;
            }
            lx.expect(',');
        }
    }

    pub fn zero(&self, ts: &mut Terms, ty: &Ty) -> Val {
        match ty {
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                let n = ty.nelem();
                Val::A(Rc::new((0..n).map(|i| self.zero(ts, &ty.elem(i))).collect()))
            }
            _ => match ty.width() {
                Some(w) => Val::T(ts.c(0, w)),
                None => Val::T(ts.c(0, 64)),
            },
        }
    }

    pub fn global_addr(&self, name: &str) -> u64 {
        let name = self.aliases.get(name).map(|s| s.as_str()).unwrap_or(name);
        if let Some(i) = self.gidx.get(name) {
            return self.globals[*i].addr;
        }
        if let Some(f) = self.funcs.get(name) {
            return f.addr;
        }
        panic!("unknown global @{}", name)
    }

    /// constant of the given type
    pub fn constant(&mut self, ts: &mut Terms, lx: &mut Lex, ty: &Ty) -> Val {
        match lx.next() {
            Tok::Num(s) => Val::T(self.num_const(ts, s, ty)),
            Tok::Id("true") => Val::T(ts.b(true)),
            Tok::Id("false") => Val::T(ts.b(false)),
            Tok::Id("null") | Tok::Id("none") => Val::T(ts.c(0, 64)),
            Tok::Id("undef") | Tok::Id("poison") | Tok::Id("zeroinitializer") => self.zero(ts, ty),
            Tok::Global(n) => {
                let a = self.global_addr(n);
                Val::T(ts.c(a as u128, 64))
            }
            Tok::CStr(s) => {
                let v = unescape(s);
                Val::A(Rc::new(v.into_iter().map(|b| Val::T(b as T)).collect()))
            }
            Tok::P('[') => {
                let mut v = vec![];
                if !lx.eat(']') {
                    loop {
                        let t = self.ty(lx);
                        v.push(self.constant(ts, lx, &t));
                        if lx.eat(']') {
                            break;
                        }
                        lx.expect(',');
                    }
                }
                Val::A(Rc::new(v))
            }
            Tok::P('<') => {
                let close2 = lx.eat('{');
                let end = if close2 { '}' } else { '>' };
                let mut v = vec![];
                if !lx.eat(end) {
                    loop {
                        let t = self.ty(lx);
                        v.push(self.constant(ts, lx, &t));
                        if lx.eat(end) {
                            break;
                        }
                        lx.expect(',');
                    }
                }
                if close2 {
                    lx.expect('>');
                }
                Val::A(Rc::new(v))
            }
            Tok::P('{') => {
                let mut v = vec![];
                if !lx.eat('}') {
                    loop {
                        let t = self.ty(lx);
                        v.push(self.constant(ts, lx, &t));
                        if lx.eat('}') {
                            break;
                        }
                        lx.expect(',');
                    }
                }
                Val::A(Rc::new(v))
            }
            Tok::Id("splat") => {
                lx.expect('(');
                let t = self.ty(lx);
                let e = self.constant(ts, lx, &t);
                lx.expect(')');
                Val::A(Rc::new((0..ty.nelem()).map(|_| e.clone()).collect()))
            }
            Tok::Id("getelementptr") => {
                while let Tok::Id(_) = lx.peek() {
                    let t = lx.next();
                    if t == Tok::Id("inrange") {
                        lx.skip_parens();
                    }
                }
                lx.expect('(');
                let bt = self.ty(lx);
                lx.expect(',');
                let pt = self.ty(lx);
                let base = self.constant(ts, lx, &pt).t();
                let mut idx = vec![];
                while lx.eat(',') {
                    let it = self.ty(lx);
                    let v = self.constant(ts, lx, &it).t();
                    idx.push((it, ts.cv(v).expect("const gep index")));
                }
                lx.expect(')');
                let mut off: i128 = 0;
                let mut t = bt;
                for (k, (it, v)) in idx.iter().enumerate() {
                    let v = sx(*v, it.width().unwrap());
                    if k == 0 {
                        off += v * t.size() as i128;
                    } else {
                        let (_, offs) = match &t {
                            Ty::Struct(..) => t.fields(),
                            _ => (0, vec![]),
                        };
                        if let Ty::Struct(..) = t {
                            off += offs[v as usize] as i128;
                            t = t.elem(v as u64);
                        } else {
                            let e = t.elem(0);
                            off += v * e.size() as i128;
                            t = e;
                        }
                    }
                }
                let o = ts.c(off as u128, 64);
                Val::T(ts.add(base, o))
            }
            Tok::Id(c @ ("inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr")) => {
                let _ = c;
                lx.expect('(');
                let ft = self.ty(lx);
                let v = self.constant(ts, lx, &ft);
                lx.eat_id("to");
                let tt = self.ty(lx);
                lx.expect(')');
                match (v, tt.width()) {
                    (Val::T(t), Some(w)) => Val::T(ts.zresize(t, w)),
                    (v, _) => v,
                }
            }
            Tok::Id(c @ ("add" | "sub" | "xor" | "mul")) => {
                while let Tok::Id(_) = lx.peek() {
                    lx.next();
                }
                lx.expect('(');
                let t1 = self.ty(lx);
                let a = self.constant(ts, lx, &t1).t();
                lx.expect(',');
                let t2 = self.ty(lx);
                let b = self.constant(ts, lx, &t2).t();
                lx.expect(')');
                Val::T(match c {
                    "add" => ts.add(a, b),
                    "sub" => ts.sub(a, b),
                    "mul" => ts.mul(a, b),
                    _ => ts.xor(a, b),
                })
            }
            t @ (Tok::P('+') | Tok::P('-') | Tok::Id("-inf" | "-qnan")) if matches!(ty, Ty::F32 | Ty::F64) => {
                let (neg, id) = match t {
                    Tok::Id(i) => (true, i[1..].to_string()),
                    _ => match lx.next() {
                        Tok::Id(i) => (t == Tok::P('-'), i.to_string()),
                        x => panic!("float constant? {:?} in {}", x, &lx.s[..lx.s.len().min(400)]),
                    },
                };
                let bits = match (id.as_str(), ty) {
                    ("inf", Ty::F64) => f64::INFINITY.to_bits(),
                    ("qnan", Ty::F64) => 0x7ff8 << 48,
                    ("inf", _) => f32::INFINITY.to_bits() as u64,
                    ("qnan", _) => 0x7fc0 << 16,
                    x => panic!("float constant? {:?}", x),
                };
                let w = if *ty == Ty::F64 { 64 } else { 32 };
                Val::T(ts.c(bits as u128 | (neg as u128) << (w - 1), w))
            }
            t => panic!("constant? {:?} in {}", t, &lx.s[..lx.s.len().min(400)]),
        }
    }

    fn num_const(&mut self, ts: &mut Terms, s: &str, ty: &Ty) -> T {
        match ty {
            Ty::F64 => {
                let bits = if let Some(h) = s.strip_prefix("f0x") {
                    u64::from_str_radix(h, 16).unwrap()
                } else if let Some(h) = s.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).unwrap()
                } else {
                    s.parse::<f64>().unwrap().to_bits()
                };
                ts.c(bits as u128, 64)
            }
            Ty::F32 => {
                let bits = if let Some(h) = s.strip_prefix("f0x") {
                    u32::from_str_radix(h, 16).unwrap()
                } else if let Some(h) = s.strip_prefix("0x") {
                    (f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32).to_bits()
                } else {
                    s.parse::<f32>().unwrap().to_bits()
                };
                ts.c(bits as u128, 32)
            }
            _ => {
                let w = ty.width().unwrap_or_else(|| panic!("num const of {:?}", ty));
                let v = if s.starts_with('-') {
                    s.parse::<i128>().unwrap() as u128
                } else {
                    s.parse::<u128>().unwrap()
                };
                ts.c(v, w)
            }
        }
    }

    /// initializer of global i as a value, None when external
    pub fn init_of(&mut self, ts: &mut Terms, i: usize) -> Option<Val> {
        if self.globals[i].external {
            return None;
        }
        let (a, b) = self.globals[i].text;
        let s = self.text[a..b].to_string();
        let ty = self.globals[i].ty.clone();
        let mut lx = Lex::new(&s);
        Some(self.constant(ts, &mut lx, &ty))
    }

    pub fn func(&mut self, ts: &mut Terms, name: &str) -> Option<Rc<Func>> {
        let name = match self.aliases.get(name) {
            Some(n) => n.clone(),
            None => name.to_string(),
        };
        let f = self.funcs.get(name.as_str())?;
        if let Some(p) = &f.parsed {
            return Some(p.clone());
        }
        if f.body.1 == 0 {
            return None;
        }
        let header = f.header.clone();
        let body = self.text[f.body.0..f.body.1].to_string();
        let p = Rc::new(self.parse_fn(ts, &name, &header, &body));
        self.funcs.get_mut(name.as_str()).unwrap().parsed = Some(p.clone());
        Some(p)
    }

    fn parse_fn(&mut self, ts: &mut Terms, name: &str, header: &str, body: &str) -> Func {
        let mut slots: HashMap<String, u32> = HashMap::new();
        let mut nslots = 0u32;
        // params: find "@name(" then params
        let at = header.find('@').unwrap();
        let mut lx = Lex::new(&header[at..]);
        lx.next();
        lx.expect('(');
        let mut nparams = 0;
        let mut numeric = 0;
        if !lx.eat(')') {
            loop {
                if lx.eat_id("...") {
                    lx.expect(')');
                    break;
                }
                let _t = self.ty(&mut lx);
                loop {
                    match lx.peek() {
                        Tok::Local(n) => {
                            if n.bytes().all(|c| c.is_ascii_digit()) {
                                numeric += 1;
                            }
                            slots.insert(n.to_string(), nslots);
                            nslots += 1;
                            nparams += 1;
                            lx.next();
                            break;
                        }
                        Tok::P('(') => lx.skip_parens(),
                        Tok::P(_) => panic!("unnamed parameter in {}", name),
                        Tok::End => panic!("params of {}", name),
                        _ => {
                            lx.next();
                        }
                    }
                }
                if lx.eat(')') {
                    break;
                }
                lx.expect(',');
            }
        }
        // logical lines
        let mut lines: Vec<String> = vec![];
        let mut cur = String::new();
        let mut in_switch = false;
        for l in body.lines() {
            if in_switch {
                cur.push(' ');
                cur.push_str(l.trim());
                if l.trim_start().starts_with(']') {
                    lines.push(std::mem::take(&mut cur));
                    in_switch = false;
                }
                continue;
            }
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') {
                continue;
            }
            if t.starts_with("#dbg_") {
                continue;
            }
            if t.starts_with("to label ") || t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") {
                let last = lines.last_mut().unwrap();
                last.push(' ');
                last.push_str(t);
                continue;
            }
            if t.starts_with("switch ") && t.ends_with('[') {
                cur = l.to_string();
                in_switch = true;
                continue;
            }
            lines.push(l.to_string());
        }
        // block labels
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut blk: Vec<Vec<String>> = vec![];
        for l in lines {
            if !l.starts_with(' ') {
                // label
                let e = if l.starts_with('"') { l[1..].find('"').unwrap() + 2 } else { l.find(':').unwrap() };
                let n = l[..e].trim_matches('"').to_string();
                labels.insert(n, blk.len() as u32);
                blk.push(vec![]);
            } else {
                if blk.is_empty() {
                    labels.insert(numeric.to_string(), 0);
                    blk.push(vec![]);
                }
                blk.last_mut().unwrap().push(l);
            }
        }
        let mut blocks = vec![];
        for b in &blk {
            let mut insts = vec![];
            let mut nphi = 0;
            for l in b {
                let mut lx = Lex::new(l);
                let mut dest = u32::MAX;
                if let Tok::Local(n) = lx.peek() {
                    lx.next();
                    lx.expect('=');
                    dest = *slots.entry(n.to_string()).or_insert_with(|| {
                        nslots += 1;
                        nslots - 1
                    });
                }
                let mut ctx = FnCtx { slots: &mut slots, nslots: &mut nslots, labels: &labels };
                let i = self.inst(ts, &mut lx, &mut ctx);
                if let Inst::Phi(_) = i {
                    nphi += 1;
                }
                insts.push((dest, i));
            }
            blocks.push(Block { insts, nphi });
        }
        Func { name: name.into(), blocks, nslots, nparams }
    }

    fn opnd(&mut self, ts: &mut Terms, lx: &mut Lex, cx: &mut FnCtx, ty: &Ty) -> Opnd {
        if let Tok::Local(n) = lx.peek() {
            lx.next();
            return Opnd::R(cx.slot(n));
        }
        Opnd::C(self.constant(ts, lx, ty))
    }
    fn tyopnd(&mut self, ts: &mut Terms, lx: &mut Lex, cx: &mut FnCtx) -> (Ty, Opnd) {
        let t = self.ty(lx);
        self.skip_attrs(lx);
        let o = self.opnd(ts, lx, cx, &t);
        (t, o)
    }
    fn skip_attrs(&mut self, lx: &mut Lex) {
        loop {
            match lx.peek() {
                Tok::Id(s) => {
                    if VALUE_IDS.contains(&s) {
                        return;
                    }
                    lx.next();
                    if s == "align" {
                        if let Tok::Num(_) = lx.peek() {
                            lx.next();
                        }
                    }
                    if lx.peek() == Tok::P('(') {
                        lx.skip_parens();
                    }
                }
                Tok::Str(_) => {
                    lx.next();
                    if lx.eat('=') {
                        lx.next();
                    }
                }
                Tok::Attr => {
                    lx.next();
                }
                _ => return,
            }
        }
    }
    fn label(&mut self, lx: &mut Lex, cx: &FnCtx) -> u32 {
        lx.eat_id("label");
        match lx.next() {
            Tok::Local(n) => *cx.labels.get(n).unwrap_or_else(|| panic!("label {} in {}", n, lx.s)),
            t => panic!("label? {:?} in {}", t, lx.s),
        }
    }

    fn inst(&mut self, ts: &mut Terms, lx: &mut Lex, cx: &mut FnCtx) -> Inst {
        let op = match lx.next() {
            Tok::Id(s) => s,
            t => panic!("inst? {:?} in {}", t, lx.s),
        };
        let bin = |s: &str| -> Option<BinOp> {
            Some(match s {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "fadd" => BinOp::FAdd,
                "fsub" => BinOp::FSub,
                "fmul" => BinOp::FMul,
                "fdiv" => BinOp::FDiv,
                "frem" => BinOp::FRem,
                _ => return None,
            })
        };
        let flags = [
            "nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "fast", "nnan", "ninf", "nsz", "arcp",
            "contract", "afn", "reassoc", "volatile", "atomic", "weak", "tail", "musttail", "notail",
        ];
        macro_rules! skipflags {
            () => {
                while let Tok::Id(s) = lx.peek() {
                    if flags.contains(&s) {
                        lx.next();
                    } else if s == "inrange" {
                        lx.next();
                        lx.skip_parens();
                    } else {
                        break;
                    }
                }
            };
        }
        if let Some(b) = bin(op) {
            skipflags!();
            let t = self.ty(lx);
            let a = self.opnd(ts, lx, cx, &t);
            lx.expect(',');
            let c = self.opnd(ts, lx, cx, &t);
            return Inst::Bin(b, t, a, c);
        }
        let cast = match op {
            "trunc" => Some(CastOp::Trunc),
            "zext" => Some(CastOp::ZExt),
            "sext" => Some(CastOp::SExt),
            "fptrunc" => Some(CastOp::FpTrunc),
            "fpext" => Some(CastOp::FpExt),
            "fptoui" => Some(CastOp::FpToUi),
            "fptosi" => Some(CastOp::FpToSi),
            "uitofp" => Some(CastOp::UiToFp),
            "sitofp" => Some(CastOp::SiToFp),
            "ptrtoint" | "ptrtoaddr" => Some(CastOp::PtrToInt),
            "inttoptr" => Some(CastOp::IntToPtr),
            "bitcast" | "addrspacecast" => Some(CastOp::BitCast),
            _ => None,
        };
        if let Some(c) = cast {
            skipflags!();
            let (t, o) = self.tyopnd(ts, lx, cx);
            lx.eat_id("to");
            let tt = self.ty(lx);
            return Inst::Cast(c, t, o, tt);
        }
        match op {
            "fneg" => {
                skipflags!();
                let (t, o) = self.tyopnd(ts, lx, cx);
                Inst::FNeg(t, o)
            }
            "icmp" => {
                skipflags!();
                let p = match lx.next() {
                    Tok::Id("eq") => Pred::Eq,
                    Tok::Id("ne") => Pred::Ne,
                    Tok::Id("ugt") => Pred::Ugt,
                    Tok::Id("uge") => Pred::Uge,
                    Tok::Id("ult") => Pred::Ult,
                    Tok::Id("ule") => Pred::Ule,
                    Tok::Id("sgt") => Pred::Sgt,
                    Tok::Id("sge") => Pred::Sge,
                    Tok::Id("slt") => Pred::Slt,
                    Tok::Id("sle") => Pred::Sle,
                    t => panic!("icmp {:?}", t),
                };
                let t = self.ty(lx);
                let a = self.opnd(ts, lx, cx, &t);
                lx.expect(',');
                let b = self.opnd(ts, lx, cx, &t);
                Inst::ICmp(p, t, a, b)
            }
            "fcmp" => {
                skipflags!();
                let p = match lx.next() {
                    Tok::Id(s) => s.into(),
                    t => panic!("fcmp {:?}", t),
                };
                let t = self.ty(lx);
                let a = self.opnd(ts, lx, cx, &t);
                lx.expect(',');
                let b = self.opnd(ts, lx, cx, &t);
                Inst::FCmp(p, t, a, b)
            }
            "select" => {
                skipflags!();
                let (_, c) = self.tyopnd(ts, lx, cx);
                lx.expect(',');
                let (t, a) = self.tyopnd(ts, lx, cx);
                lx.expect(',');
                let (_, b) = self.tyopnd(ts, lx, cx);
                Inst::Select(c, t, a, b)
            }
            "load" => {
                skipflags!();
                let t = self.ty(lx);
                lx.expect(',');
                let (_, p) = self.tyopnd(ts, lx, cx);
                Inst::Load(t, p)
            }
            "store" => {
                skipflags!();
                let (t, v) = self.tyopnd(ts, lx, cx);
                lx.expect(',');
                let (_, p) = self.tyopnd(ts, lx, cx);
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                skipflags!();
                let mut t = self.ty(lx);
                lx.expect(',');
                let (_, base) = self.tyopnd(ts, lx, cx);
                let mut off: i128 = 0;
                let mut var = vec![];
                let mut k = 0;
                while lx.peek() == Tok::P(',') {
                    lx.next();
                    if lx.peek() == Tok::Meta {
                        break;
                    }
                    let (it, o) = self.tyopnd(ts, lx, cx);
                    let iw = match it.width() {
                        Some(w) => w,
                        None => panic!("vector gep {}", lx.s),
                    };
                    let scale;
                    if k == 0 {
                        scale = t.size();
                    } else if let Ty::Struct(..) = t {
                        let c = match &o {
                            Opnd::C(v) => ts.cv(v.t()).unwrap(),
                            _ => panic!("struct gep"),
                        };
                        off += t.fields().1[c as usize] as i128;
                        t = t.elem(c as u64);
                        k += 1;
                        continue;
                    } else {
                        t = t.elem(0);
                        scale = t.size();
                    }
                    match &o {
                        Opnd::C(v) => off += sx(ts.cv(v.t()).unwrap(), iw) * scale as i128,
                        _ => var.push((scale, o, iw)),
                    }
                    k += 1;
                }
                Inst::Gep(base, off as u64, var)
            }
            "alloca" => {
                skipflags!();
                let t = self.ty(lx);
                let mut n = None;
                while lx.eat(',') {
                    match lx.peek() {
                        Tok::Id(s) if s.starts_with('i') => {
                            let (_, o) = self.tyopnd(ts, lx, cx);
                            n = Some(o);
                        }
                        _ => {
                            lx.next();
                            lx.next();
                        }
                    }
                }
                Inst::Alloca(t.size(), n)
            }
            "call" | "invoke" | "tail" | "musttail" | "notail" => {
                let mut op = op;
                if op == "tail" || op == "musttail" || op == "notail" {
                    lx.next();
                    op = "call";
                }
                skipflags!();
                // calling convention, return attributes
                loop {
                    match lx.peek() {
                        Tok::Id(s)
                            if s == "void"
                                || s == "ptr"
                                || s == "double"
                                || s == "float"
                                || s == "half"
                                || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit())) =>
                        {
                            break
                        }
                        Tok::Id(s) => {
                            lx.next();
                            if s == "align" {
                                if let Tok::Num(_) = lx.peek() {
                                    lx.next();
                                }
                            }
                            if lx.peek() == Tok::P('(') {
                                lx.skip_parens();
                            }
                        }
                        Tok::Attr => {
                            lx.next();
                        }
                        _ => break,
                    }
                }
                let ret = self.ty(lx);
                let callee = match lx.peek() {
                    Tok::Global(n) => {
                        lx.next();
                        let n = self.aliases.get(n).cloned().unwrap_or(n.to_string());
                        Callee::Direct(n.as_str().into())
                    }
                    Tok::Local(n) => {
                        lx.next();
                        Callee::Indirect(Opnd::R(cx.slot(n)))
                    }
                    Tok::Id("asm") => {
                        while lx.peek() != Tok::P('(') {
                            lx.next();
                        }
                        Callee::Asm
                    }
                    _ => Callee::Indirect(Opnd::C(self.constant(ts, lx, &Ty::Ptr))),
                };
                // intrinsics with metadata arguments and such: skip argument parsing
                if let Callee::Direct(n) = &callee {
                    if n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n.starts_with("llvm.type.") {
                        return Inst::Nop;
                    }
                }
                lx.expect('(');
                let mut args = vec![];
                if !lx.eat(')') {
                    loop {
                        let t = self.ty(lx);
                        if t == Ty::Other {
                            // metadata operand
                            lx.next();
                            args.push((t, Opnd::C(Val::T(0))));
                        } else {
                            self.skip_attrs(lx);
                            let o = self.opnd(ts, lx, cx, &t);
                            args.push((t, o));
                        }
                        if lx.eat(')') {
                            break;
                        }
                        lx.expect(',');
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    while lx.peek() != Tok::Id("to") {
                        lx.next();
                    }
                    lx.next();
                    normal = Some(self.label(lx, cx));
                }
                Inst::Call { callee, args, ret, normal }
            }
            "ret" => {
                let t = self.ty(lx);
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.opnd(ts, lx, cx, &t)))
                }
            }
            "br" => {
                if lx.peek() == Tok::Id("label") {
                    return Inst::Br(self.label(lx, cx));
                }
                let (_, c) = self.tyopnd(ts, lx, cx);
                lx.expect(',');
                let a = self.label(lx, cx);
                lx.expect(',');
                let b = self.label(lx, cx);
                Inst::CondBr(c, a, b)
            }
            "switch" => {
                let (t, c) = self.tyopnd(ts, lx, cx);
                lx.expect(',');
                let d = self.label(lx, cx);
                lx.expect('[');
                let mut v = vec![];
                while !lx.eat(']') {
                    let t2 = self.ty(lx);
                    let k = self.constant(ts, lx, &t2).t();
                    lx.expect(',');
                    let l = self.label(lx, cx);
                    v.push((ts.cv(k).unwrap(), l));
                }
                let _ = t;
                Inst::Switch(c, d, v)
            }
            "unreachable" => Inst::Unreachable,
            "resume" => Inst::Unreachable,
            "extractvalue" => {
                let (_, a) = self.tyopnd(ts, lx, cx);
                let mut ix = vec![];
                while lx.eat(',') {
                    if let Tok::Num(n) = lx.peek() {
                        lx.next();
                        ix.push(n.parse().unwrap());
                    } else {
                        break;
                    }
                }
                Inst::ExtractValue(a, ix)
            }
            "insertvalue" => {
                let (_, a) = self.tyopnd(ts, lx, cx);
                lx.expect(',');
                let (_, b) = self.tyopnd(ts, lx, cx);
                let mut ix = vec![];
                while lx.eat(',') {
                    if let Tok::Num(n) = lx.peek() {
                        lx.next();
                        ix.push(n.parse().unwrap());
                    } else {
                        break;
                    }
                }
                Inst::InsertValue(a, b, ix)
            }
            "extractelement" => {
                let (_, a) = self.tyopnd(ts, lx, cx);
                lx.expect(',');
                let (_, i) = self.tyopnd(ts, lx, cx);
                Inst::ExtractElem(a, i)
            }
            "insertelement" => {
                let (_, a) = self.tyopnd(ts, lx, cx);
                lx.expect(',');
                let (_, v) = self.tyopnd(ts, lx, cx);
                lx.expect(',');
                let (_, i) = self.tyopnd(ts, lx, cx);
                Inst::InsertElem(a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyopnd(ts, lx, cx);
                lx.expect(',');
                let (_, b) = self.tyopnd(ts, lx, cx);
                lx.expect(',');
                let mt = self.ty(lx);
                let mv = self.constant(ts, lx, &mt);
                let v = match mv {
                    Val::A(v) => v.iter().map(|x| ts.cv(x.t()).map(|c| c as u32)).collect(),
                    _ => panic!("shuffle mask"),
                };
                Inst::Shuffle(a, b, v, t.nelem())
            }
            "phi" => {
                skipflags!();
                let t = self.ty(lx);
                let mut v = vec![];
                loop {
                    lx.expect('[');
                    let o = self.opnd(ts, lx, cx, &t);
                    lx.expect(',');
                    let l = match lx.next() {
                        Tok::Local(n) => *cx.labels.get(n).unwrap_or_else(|| panic!("phi label {}", n)),
                        t => panic!("phi {:?}", t),
                    };
                    lx.expect(']');
                    v.push((o, l));
                    if lx.peek() == Tok::P(',') {
                        lx.next();
                        if lx.peek() == Tok::P('[') {
                            continue;
                        }
                    }
                    break;
                }
                Inst::Phi(v)
            }
            "atomicrmw" => {
                skipflags!();
                let o: Rc<str> = match lx.next() {
                    Tok::Id(s) => s.into(),
                    t => panic!("rmw {:?}", t),
                };
                let (_, p) = self.tyopnd(ts, lx, cx);
                lx.expect(',');
                let (t, v) = self.tyopnd(ts, lx, cx);
                Inst::Rmw(o, t, p, v)
            }
            "cmpxchg" => {
                skipflags!();
                let (_, p) = self.tyopnd(ts, lx, cx);
                lx.expect(',');
                let (t, a) = self.tyopnd(ts, lx, cx);
                lx.expect(',');
                let (_, b) = self.tyopnd(ts, lx, cx);
                Inst::CmpXchg(t, p, a, b)
            }
            "fence" => Inst::Nop,
            "freeze" => {
                let (_, a) = self.tyopnd(ts, lx, cx);
                Inst::Freeze(a)
            }
            "landingpad" => Inst::Landing,
            _ => panic!("instruction {} in {}", op, lx.s),
        }
    }
}

pub struct FnCtx<'a> {
    slots: &'a mut HashMap<String, u32>,
    nslots: &'a mut u32,
    labels: &'a HashMap<String, u32>,
}
impl<'a> FnCtx<'a> {
    fn slot(&mut self, n: &str) -> u32 {
        if let Some(s) = self.slots.get(n) {
            return *s;
        }
        let s = *self.nslots;
        *self.nslots += 1;
        self.slots.insert(n.to_string(), s);
        s
    }
}
