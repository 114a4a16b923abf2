//! Parser for textual LLVM IR (whole-program module produced by rustc) into a compact form.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Arr(Rc<Ty>, u64),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(Rc<Ty>, u32),
    Label,
    Meta,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match (*w as u64 + 7) / 8 {
                0 | 1 => 1,
                2 => 2,
                3 | 4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(t, _) => t.align(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            _ => 1,
        }
    }
    /// Store size rounded up to alignment (alloc size).
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Int(w) => {
                let s = (*w as u64 + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(t, n) => t.size() * n,
            Ty::Vec(t, n) => {
                let bits = match &**t {
                    Ty::Int(w) => *w as u64,
                    t => t.size() * 8,
                };
                (bits * *n as u64 + 7) / 8
            }
            Ty::Struct(ts, packed) => {
                let mut off = 0;
                for t in ts.iter() {
                    if !packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    off += t.size();
                }
                if !packed {
                    let a = self.align();
                    off = (off + a - 1) / a * a;
                }
                off
            }
        }
    }
    pub fn store_bytes(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            t => t.size(),
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut off = 0;
                for (j, t) in ts.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    if j == i {
                        return off;
                    }
                    off += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(t, _) => t.size() * i as u64,
            Ty::Vec(t, _) => t.size() * i as u64,
            _ => panic!("field_offset"),
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(ts, _) => ts[i].clone(),
            Ty::Arr(t, _) | Ty::Vec(t, _) => (**t).clone(),
            _ => panic!("field"),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(ts, _) => ts.len(),
            Ty::Arr(_, n) => *n as usize,
            Ty::Vec(_, n) => *n as usize,
            _ => panic!("nfields"),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
    }
    /// Bit width of a scalar type.
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            t => panic!("bits of {:?}", t),
        }
    }
}

/// A constant as parsed (addresses resolved later through the module's tables).
#[derive(Clone, Debug)]
pub enum Const {
    Int(u128),
    Undef,
    Zero,
    Global(Rc<str>),
    Add(Box<Const>, i64),
    Agg(Vec<(Ty, Const)>),
    Bytes(Vec<u8>),
    Splat(Box<(Ty, Const)>),
    Sub(Box<Const>, Box<Const>),
    Trunc(Box<Const>, u16),
    Bin(String, Box<Const>, Box<Const>, u16),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    K(Ty, Const),
    /// Index into the function's constant pool (after preparation).
    C(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(Bin, Ty, Opnd, Opnd),
    FNeg(Ty, Opnd),
    Cast(Cast, Ty, Opnd, Ty),
    ICmp(Pred, Ty, Opnd, Opnd),
    FCmp(String, Ty, Opnd, Opnd),
    Select(Ty, Opnd, Opnd, Opnd, bool),
    Alloca(u64, u64, Option<Opnd>),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(Opnd, i64, Vec<(Opnd, u16, i64)>),
    Call { callee: Callee, args: Vec<(Ty, Opnd)>, ret: Ty, normal: Option<u32> },
    Extract(Opnd, Vec<u32>),
    Insert(Ty, Opnd, Ty, Opnd, Vec<u32>),
    ExtractElt(Opnd, Opnd),
    InsertElt(Ty, Opnd, Opnd, Opnd),
    Shuffle(Ty, Opnd, Opnd, Vec<i32>),
    Freeze(Opnd),
    AtomicRmw(String, Ty, Opnd, Opnd),
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    Nop,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opnd)>),
    Unreachable,
    LandingPad,
    Resume,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opnd),
    Asm,
}

#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ins: Vec<(u32, Opnd)>,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<(u32, Inst)>, // dst register (u32::MAX if none)
}

#[derive(Debug)]
pub struct Func {
    pub nregs: usize,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl {
    pub name: Rc<str>,
    pub defined: bool,
    start: usize, // line index of the define line
    end: usize,
}

pub struct GlobalDecl {
    pub name: Rc<str>,
    pub constant: bool,
    line: usize,
    pub alias: Option<Rc<str>>,
}

pub struct Module {
    lines: Vec<(usize, usize)>,
    text: Vec<u8>,
    pub funcs: Vec<FuncDecl>,
    pub func_ix: HashMap<Rc<str>, u32>,
    pub globals: Vec<GlobalDecl>,
    pub global_ix: HashMap<Rc<str>, u32>,
    types: HashMap<String, Ty>,
    types_src: HashMap<String, usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(String),
    Global(String),
    Word(String),
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(u8),
    Bang,
    Eof,
}

pub struct Lex<'a> {
    s: &'a [u8],
    i: usize,
    pub tok: Tok,
}

fn ident_char(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a [u8]) -> Self {
        let mut l = Lex { s, i: 0, tok: Tok::Eof };
        l.next();
        l
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut out = Vec::new();
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                if self.s[self.i + 1] == b'\\' {
                    out.push(b'\\');
                    self.i += 2;
                    continue;
                }
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).unwrap());
                self.i += 3;
            } else {
                out.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        out
    }
    pub fn next(&mut self) -> Tok {
        let old = std::mem::replace(&mut self.tok, Tok::Eof);
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
        if self.i >= self.s.len() || self.s[self.i] == b';' {
            // a comment runs to the end of its line
            if self.i < self.s.len() {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                if self.i < self.s.len() {
                    self.tok = Tok::Eof;
                    let _ = self.next();
                    return old;
                }
            }
            self.tok = Tok::Eof;
            return old;
        }
        let c = self.s[self.i];
        self.tok = match c {
            b'%' | b'@' => {
                self.i += 1;
                let name = if self.s[self.i] == b'"' {
                    String::from_utf8_lossy(&self.quoted()).into_owned()
                } else {
                    let st = self.i;
                    while self.i < self.s.len() && ident_char(self.s[self.i]) {
                        self.i += 1;
                    }
                    String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
                };
                if c == b'%' {
                    Tok::Local(name)
                } else {
                    Tok::Global(name)
                }
            }
            b'!' => {
                self.i += 1;
                Tok::Bang
            }
            b'"' => Tok::Str(self.quoted()),
            b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                self.i += 1;
                Tok::CStr(self.quoted())
            }
            b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len() && (ident_char(self.s[self.i]) || (self.s[self.i] == b'+')) {
                    self.i += 1;
                }
                Tok::Num(String::from_utf8_lossy(&self.s[st..self.i]).into_owned())
            }
            b'-' | b'+' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len() && (ident_char(self.s[self.i]) || self.s[self.i] == b'+') {
                    self.i += 1;
                }
                Tok::Num(String::from_utf8_lossy(&self.s[st..self.i]).into_owned())
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let st = self.i;
                while self.i < self.s.len() && ident_char(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Word(String::from_utf8_lossy(&self.s[st..self.i]).into_owned())
            }
            _ => {
                self.i += 1;
                Tok::P(c)
            }
        };
        old
    }
    pub fn is_p(&self, c: u8) -> bool {
        self.tok == Tok::P(c)
    }
    pub fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn expect_p(&mut self, c: u8) {
        if !self.eat_p(c) {
            panic!("IR parse: expected '{}' got {:?} in {}", c as char, self.tok, self.ctx());
        }
    }
    pub fn is_w(&self, w: &str) -> bool {
        matches!(&self.tok, Tok::Word(x) if x == w)
    }
    pub fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn ctx(&self) -> String {
        String::from_utf8_lossy(&self.s[..self.s.len().min(400)]).into_owned()
    }
    fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => panic!("unbalanced"),
                _ => {}
            }
        }
    }
}

fn parse_int(s: &str) -> u128 {
    if let Some(r) = s.strip_prefix('-') {
        (0u128).wrapping_sub(r.parse::<u128>().unwrap())
    } else {
        s.parse::<u128>().unwrap_or_else(|_| panic!("int {}", s))
    }
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).expect("read IR");
        let mut lines = Vec::new();
        let mut st = 0;
        for i in 0..text.len() {
            if text[i] == b'\n' {
                lines.push((st, i));
                st = i + 1;
            }
        }
        let mut m = Module {
            lines,
            text,
            funcs: Vec::new(),
            func_ix: HashMap::new(),
            globals: Vec::new(),
            global_ix: HashMap::new(),
            types: HashMap::new(),
            types_src: HashMap::new(),
        };
        let mut i = 0;
        while i < m.lines.len() {
            let l = m.line(i);
            if l.starts_with(b"define") {
                let name = m.fn_name(i);
                let start = i;
                while m.line(i) != b"}" {
                    i += 1;
                }
                m.add_func(name, true, start, i);
            } else if l.starts_with(b"declare") {
                let name = m.fn_name(i);
                m.add_func(name, false, i, i);
            } else if l.starts_with(b"@") {
                let mut lx = Lex::new(l);
                let name: Rc<str> = match lx.next() {
                    Tok::Global(n) => n.into(),
                    t => panic!("global {:?}", t),
                };
                lx.expect_p(b'=');
                let mut constant = false;
                let mut alias = None;
                loop {
                    match lx.next() {
                        Tok::Word(w) if w == "constant" => {
                            constant = true;
                            break;
                        }
                        Tok::Word(w) if w == "global" => break,
                        Tok::Word(w) if w == "alias" || w == "ifunc" => {
                            loop {
                                match lx.next() {
                                    Tok::Global(n) => {
                                        alias = Some(n.into());
                                        break;
                                    }
                                    Tok::Eof => panic!("alias"),
                                    _ => {}
                                }
                            }
                            break;
                        }
                        Tok::Eof => panic!("global decl"),
                        _ => {}
                    }
                }
                let ix = m.globals.len() as u32;
                m.global_ix.insert(name.clone(), ix);
                m.globals.push(GlobalDecl { name, constant, line: i, alias });
            } else if l.starts_with(b"%") {
                let mut lx = Lex::new(l);
                if let Tok::Local(n) = lx.next() {
                    m.types_src.insert(n, i);
                }
            }
            i += 1;
        }
        let names: Vec<String> = m.types_src.keys().cloned().collect();
        for n in names {
            m.resolve_type(&n);
        }
        m
    }
    fn resolve_type(&mut self, n: &str) -> Ty {
        if let Some(t) = self.types.get(n) {
            return t.clone();
        }
        let li = *self.types_src.get(n).unwrap_or_else(|| panic!("type {}", n));
        let l = self.line(li).to_vec();
        // dependencies first
        let mut lx = Lex::new(&l);
        lx.next();
        let mut deps = Vec::new();
        loop {
            match lx.next() {
                Tok::Local(d) => deps.push(d),
                Tok::Eof => break,
                _ => {}
            }
        }
        for d in deps {
            if d != n {
                self.resolve_type(&d);
            }
        }
        let mut lx = Lex::new(&l);
        lx.next();
        lx.expect_p(b'=');
        assert!(lx.eat_w("type"));
        let t = if lx.is_w("opaque") { Ty::Struct(Rc::new(vec![]), false) } else { self.ty(&mut lx) };
        self.types.insert(n.to_string(), t.clone());
        t
    }
    fn line(&self, i: usize) -> &[u8] {
        let (a, b) = self.lines[i];
        &self.text[a..b]
    }
    fn fn_name(&self, i: usize) -> Rc<str> {
        let mut lx = Lex::new(self.line(i));
        loop {
            match lx.next() {
                Tok::Global(n) => return n.into(),
                Tok::Eof => panic!("fn name"),
                _ => {}
            }
        }
    }
    fn add_func(&mut self, name: Rc<str>, defined: bool, start: usize, end: usize) {
        let ix = self.funcs.len() as u32;
        self.func_ix.insert(name.clone(), ix);
        self.funcs.push(FuncDecl { name, defined, start, end });
    }

    fn ty(&self, lx: &mut Lex) -> Ty {
        let t = match lx.next() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                _ if w.starts_with('i') && w[1..].parse::<u16>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => panic!("type {} in {}", w, lx.ctx()),
            },
            Tok::P(b'[') => {
                let n = match lx.next() {
                    Tok::Num(n) => n.parse().unwrap(),
                    t => panic!("{:?}", t),
                };
                assert!(lx.eat_w("x"));
                let t = self.ty(lx);
                lx.expect_p(b']');
                Ty::Arr(Rc::new(t), n)
            }
            Tok::P(b'{') => {
                let mut v = Vec::new();
                while !lx.eat_p(b'}') {
                    v.push(self.ty(lx));
                    lx.eat_p(b',');
                }
                Ty::Struct(Rc::new(v), false)
            }
            Tok::P(b'<') => {
                if lx.eat_p(b'{') {
                    let mut v = Vec::new();
                    while !lx.eat_p(b'}') {
                        v.push(self.ty(lx));
                        lx.eat_p(b',');
                    }
                    lx.expect_p(b'>');
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n = match lx.next() {
                        Tok::Num(n) => n.parse().unwrap(),
                        t => panic!("{:?}", t),
                    };
                    assert!(lx.eat_w("x"));
                    let t = self.ty(lx);
                    lx.expect_p(b'>');
                    Ty::Vec(Rc::new(t), n)
                }
            }
            Tok::Local(n) => self.types.get(&n).cloned().unwrap_or_else(|| panic!("named type {}", n)),
            t => panic!("type tok {:?} in {}", t, lx.ctx()),
        };
        if lx.is_w("addrspace") {
            lx.next();
            lx.skip_balanced();
        }
        t
    }

    fn constant(&self, lx: &mut Lex, ty: &Ty) -> Const {
        match lx.next() {
            Tok::Num(n) => {
                if matches!(ty, Ty::F32 | Ty::F64) {
                    let nan = |neg: bool| (if neg { 1u64 << 63 } else { 0 }) | 0x7FF8 << 48;
                    let bits: u64 = if n == "+qnan" || n == "-qnan" {
                        nan(n.starts_with('-'))
                    } else if let Some(h) = n.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).unwrap()
                    } else {
                        n.parse::<f64>().unwrap_or_else(|_| panic!("fp {}", n)).to_bits()
                    };
                    if *ty == Ty::F32 {
                        Const::Int((f64::from_bits(bits) as f32).to_bits() as u128)
                    } else {
                        Const::Int(bits as u128)
                    }
                } else {
                    Const::Int(parse_int(&n) & mask(ty.bits()))
                }
            }
            Tok::Word(w) => match w.as_str() {
                "true" => Const::Int(1),
                "false" => Const::Int(0),
                "null" | "none" => Const::Int(0),
                _ if w.starts_with("f0x") => Const::Int(u128::from_str_radix(&w[3..], 16).unwrap()),
                "undef" | "poison" => Const::Undef,
                "zeroinitializer" => Const::Zero,
                "splat" => {
                    lx.expect_p(b'(');
                    let t = self.ty(lx);
                    let c = self.constant(lx, &t);
                    lx.expect_p(b')');
                    Const::Splat(Box::new((t, c)))
                }
                "getelementptr" => {
                    while let Tok::Word(w) = &lx.tok {
                        if w == "inrange" {
                            lx.next();
                            lx.skip_balanced();
                        } else {
                            lx.next();
                        }
                    }
                    lx.expect_p(b'(');
                    let sty = self.ty(lx);
                    lx.expect_p(b',');
                    let pt = self.ty(lx);
                    let base = self.constant(lx, &pt);
                    let mut off = 0i64;
                    let mut cur = sty;
                    let mut first = true;
                    while lx.eat_p(b',') {
                        while let Tok::Word(w) = &lx.tok {
                            if w == "inrange" {
                                lx.next();
                            } else {
                                break;
                            }
                        }
                        let it = self.ty(lx);
                        let ix = match self.constant(lx, &it) {
                            Const::Int(v) => sext(v, it.bits()) as i64,
                            Const::Zero => 0,
                            c => panic!("gep const {:?}", c),
                        };
                        if first {
                            off += ix * cur.size() as i64;
                            first = false;
                        } else {
                            off += cur.field_offset_i(ix);
                            cur = cur.field(if matches!(cur, Ty::Struct(..)) { ix as usize } else { 0 });
                        }
                    }
                    lx.expect_p(b')');
                    Const::Add(Box::new(base), off)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    lx.expect_p(b'(');
                    let t = self.ty(lx);
                    let c = self.constant(lx, &t);
                    assert!(lx.eat_w("to"));
                    let to = self.ty(lx);
                    lx.expect_p(b')');
                    if w == "trunc" || to.bits() < t.bits() {
                        Const::Trunc(Box::new(c), to.bits())
                    } else {
                        c
                    }
                }
                "sub" | "add" | "xor" | "and" | "or" | "mul" | "shl" | "lshr" => {
                    while let Tok::Word(x) = &lx.tok {
                        if x == "nuw" || x == "nsw" || x == "exact" || x == "disjoint" {
                            lx.next();
                        } else {
                            break;
                        }
                    }
                    lx.expect_p(b'(');
                    let t = self.ty(lx);
                    let a = self.constant(lx, &t);
                    lx.expect_p(b',');
                    let t2 = self.ty(lx);
                    let b = self.constant(lx, &t2);
                    lx.expect_p(b')');
                    if w == "sub" {
                        Const::Sub(Box::new(a), Box::new(b))
                    } else if w != "add" {
                        Const::Bin(w, Box::new(a), Box::new(b), t.bits())
                    } else {
                        match (a, b) {
                            (a, Const::Int(k)) | (Const::Int(k), a) => Const::Add(Box::new(a), k as i64),
                            _ => panic!("const add"),
                        }
                    }
                }
                _ => panic!("const word {} in {}", w, lx.ctx()),
            },
            Tok::Global(g) => Const::Global(g.into()),
            Tok::CStr(s) => Const::Bytes(s),
            Tok::P(b'{') => self.agg(lx, b'}'),
            Tok::P(b'[') => self.agg(lx, b']'),
            Tok::P(b'<') => {
                if lx.eat_p(b'{') {
                    let r = self.agg(lx, b'}');
                    lx.expect_p(b'>');
                    r
                } else {
                    self.agg(lx, b'>')
                }
            }
            t => panic!("const tok {:?} in {}", t, lx.ctx()),
        }
    }
    fn agg(&self, lx: &mut Lex, close: u8) -> Const {
        let mut v = Vec::new();
        while !lx.eat_p(close) {
            let t = self.ty(lx);
            let c = self.constant(lx, &t);
            v.push((t, c));
            lx.eat_p(b',');
        }
        Const::Agg(v)
    }

    /// Type and initializer of a global (None if external).
    pub fn global_init(&self, ix: u32) -> (Ty, Option<Const>) {
        let g = &self.globals[ix as usize];
        let l = self.line(g.line);
        let mut lx = Lex::new(l);
        let mut external = false;
        loop {
            match lx.next() {
                Tok::Word(w) if w == "constant" || w == "global" => break,
                Tok::Word(w) if w == "external" || w == "extern_weak" => external = true,
                Tok::Eof => panic!("global"),
                _ => {}
            }
        }
        let t = self.ty(&mut lx);
        if external {
            return (t, None);
        }
        let c = self.constant(&mut lx, &t);
        (t, Some(c))
    }

    fn skip_attrs(&self, lx: &mut Lex) {
        loop {
            match &lx.tok {
                Tok::Word(w) => {
                    let w = w.clone();
                    match w.as_str() {
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr"
                        | "ptrtoint" | "inttoptr" | "splat" | "sub" | "add" | "trunc" | "bitcast" | "asm" | "none"
                        | "ptrtoaddr" => return,
                        _ => {}
                    }
                    lx.next();
                    if w == "align" {
                        if let Tok::Num(_) = lx.tok {
                            lx.next();
                            continue;
                        }
                    }
                    if lx.is_p(b'(') {
                        lx.skip_balanced();
                    }
                }
                Tok::Str(_) => {
                    lx.next();
                    if lx.eat_p(b'=') {
                        lx.next();
                    }
                }
                _ => return,
            }
        }
    }

    fn opnd(&self, lx: &mut Lex, ty: &Ty, cx: &FnCtx) -> Opnd {
        if let Tok::Local(n) = &lx.tok {
            let r = *cx.regs.get(n).unwrap_or_else(|| panic!("reg {}", n));
            lx.next();
            Opnd::Reg(r)
        } else {
            Opnd::K(ty.clone(), self.constant(lx, ty))
        }
    }
    fn ty_opnd(&self, lx: &mut Lex, cx: &FnCtx) -> (Ty, Opnd) {
        let t = self.ty(lx);
        let o = self.opnd(lx, &t, cx);
        (t, o)
    }
    fn label(&self, lx: &mut Lex, cx: &FnCtx) -> u32 {
        assert!(lx.eat_w("label"), "label in {}", lx.ctx());
        match lx.next() {
            Tok::Local(n) => *cx.blocks.get(&n).unwrap_or_else(|| panic!("block {}", n)),
            t => panic!("label {:?}", t),
        }
    }

    fn is_label_line(l: &[u8]) -> Option<String> {
        if l.is_empty() || l[0] == b' ' || l[0] == b'\t' || l[0] == b';' {
            return None;
        }
        if l[0] == b'"' {
            let mut lx = Lex::new(l);
            if let Tok::Str(s) = lx.next() {
                if lx.is_p(b':') {
                    return Some(String::from_utf8_lossy(&s).into_owned());
                }
            }
            return None;
        }
        let mut i = 0;
        while i < l.len() && ident_char(l[i]) {
            i += 1;
        }
        if i > 0 && i < l.len() && l[i] == b':' {
            Some(String::from_utf8_lossy(&l[..i]).into_owned())
        } else {
            None
        }
    }

    pub fn compile(&self, fix: u32) -> Func {
        let fd = &self.funcs[fix as usize];
        assert!(fd.defined);
        let mut cx = FnCtx { regs: HashMap::new(), blocks: HashMap::new() };
        // define line
        let mut lx = Lex::new(self.line(fd.start));
        loop {
            if let Tok::Global(_) = lx.tok {
                lx.next();
                break;
            }
            // skip return attributes and type
            lx.next();
        }
        lx.expect_p(b'(');
        let mut params = Vec::new();
        let mut nreg = 0u32;
        let mut unnamed = 0;
        while !lx.eat_p(b')') {
            if lx.is_p(b'.') || matches!(&lx.tok, Tok::Word(w) if w.starts_with("...")) {
                lx.next();
                continue;
            }
            let _t = self.ty(&mut lx);
            self.skip_attrs(&mut lx);
            if let Tok::Local(n) = lx.tok.clone() {
                lx.next();
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                cx.regs.insert(n, nreg);
            } else {
                cx.regs.insert(format!("{}", unnamed), nreg);
                unnamed += 1;
            }
            params.push(nreg);
            nreg += 1;
            lx.eat_p(b',');
        }
        // gather logical lines
        let mut logical: Vec<(Option<String>, Vec<u8>)> = Vec::new();
        let mut i = fd.start + 1;
        while i < fd.end {
            let l = self.line(i);
            if l.is_empty() {
                i += 1;
                continue;
            }
            if let Some(lbl) = Self::is_label_line(l) {
                logical.push((Some(lbl), Vec::new()));
                i += 1;
                continue;
            }
            let t = trim(l);
            if t.is_empty() || t[0] == b';' || t.starts_with(b"#dbg") {
                i += 1;
                continue;
            }
            if t.starts_with(b"cleanup") || t.starts_with(b"catch ") || t.starts_with(b"filter ") {
                i += 1;
                continue;
            }
            let mut s = t.to_vec();
            if t.starts_with(b"switch ") && !ends_switch(&s) {
                loop {
                    i += 1;
                    s.push(b' ');
                    let n = trim(self.line(i));
                    s.extend_from_slice(n);
                    if n.starts_with(b"]") {
                        break;
                    }
                }
            } else if i + 1 < fd.end && trim(self.line(i + 1)).starts_with(b"to label ") {
                i += 1;
                s.push(b' ');
                s.extend_from_slice(trim(self.line(i)));
            }
            logical.push((None, s));
            i += 1;
        }
        // blocks and registers
        let mut nb = 0;
        if logical.first().map_or(true, |l| l.0.is_none()) {
            cx.blocks.insert(format!("{}", unnamed), 0);
            nb = 1;
        }
        for (lbl, s) in &logical {
            if let Some(l) = lbl {
                cx.blocks.insert(l.clone(), nb);
                nb += 1;
            } else if s[0] == b'%' {
                let mut lx = Lex::new(s);
                if let Tok::Local(n) = lx.next() {
                    cx.regs.insert(n, nreg);
                    nreg += 1;
                }
            }
        }
        let mut blocks: Vec<Block> = Vec::new();
        if logical.first().map_or(true, |l| l.0.is_none()) {
            blocks.push(Block { phis: vec![], insts: vec![] });
        }
        for (lbl, s) in &logical {
            if lbl.is_some() {
                blocks.push(Block { phis: vec![], insts: vec![] });
                continue;
            }
            let mut lx = Lex::new(s);
            let dst = if let Tok::Local(n) = lx.tok.clone() {
                lx.next();
                lx.expect_p(b'=');
                cx.regs[&n]
            } else {
                u32::MAX
            };
            let b = blocks.last_mut().unwrap();
            if lx.is_w("phi") {
                lx.next();
                self.skip_flags(&mut lx);
                let t = self.ty(&mut lx);
                let mut ins = Vec::new();
                loop {
                    lx.expect_p(b'[');
                    let o = self.opnd(&mut lx, &t, &cx);
                    lx.expect_p(b',');
                    let l = match lx.next() {
                        Tok::Local(n) => cx.blocks[&n],
                        t => panic!("{:?}", t),
                    };
                    lx.expect_p(b']');
                    ins.push((l, o));
                    if !(lx.is_p(b',')) {
                        break;
                    }
                    lx.next();
                    if !lx.is_p(b'[') {
                        break;
                    }
                }
                b.phis.push(Phi { dst, ins });
            } else {
                let inst = self.inst(&mut lx, &cx);
                b.insts.push((dst, inst));
            }
        }
        Func { nregs: nreg as usize, params, blocks }
    }

    fn skip_flags(&self, lx: &mut Lex) {
        while let Tok::Word(w) = &lx.tok {
            match w.as_str() {
                "nuw" | "nsw" | "exact" | "inbounds" | "nneg" | "disjoint" | "samesign" | "fast" | "nnan" | "ninf"
                | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "nusw" => {
                    lx.next();
                }
                "inrange" => {
                    lx.next();
                    if lx.is_p(b'(') {
                        lx.skip_balanced();
                    }
                }
                _ => break,
            }
        }
    }

    fn inst(&self, lx: &mut Lex, cx: &FnCtx) -> Inst {
        let w = match lx.next() {
            Tok::Word(w) => w,
            t => panic!("inst {:?} {}", t, lx.ctx()),
        };
        let bin = match w.as_str() {
            "add" => Some(Bin::Add),
            "sub" => Some(Bin::Sub),
            "mul" => Some(Bin::Mul),
            "udiv" => Some(Bin::UDiv),
            "sdiv" => Some(Bin::SDiv),
            "urem" => Some(Bin::URem),
            "srem" => Some(Bin::SRem),
            "and" => Some(Bin::And),
            "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor),
            "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::LShr),
            "ashr" => Some(Bin::AShr),
            "fadd" => Some(Bin::FAdd),
            "fsub" => Some(Bin::FSub),
            "fmul" => Some(Bin::FMul),
            "fdiv" => Some(Bin::FDiv),
            "frem" => Some(Bin::FRem),
            _ => None,
        };
        if let Some(b) = bin {
            self.skip_flags(lx);
            let t = self.ty(lx);
            let x = self.opnd(lx, &t, cx);
            lx.expect_p(b',');
            let y = self.opnd(lx, &t, cx);
            return Inst::Bin(b, t, x, y);
        }
        let cast = match w.as_str() {
            "trunc" => Some(Cast::Trunc),
            "zext" => Some(Cast::ZExt),
            "sext" => Some(Cast::SExt),
            "bitcast" => Some(Cast::Bit),
            "ptrtoint" | "inttoptr" | "ptrtoaddr" => Some(Cast::ZExt), // both 64-bit; narrower ints handled by width
            "fptoui" => Some(Cast::FpToUi),
            "fptosi" => Some(Cast::FpToSi),
            "uitofp" => Some(Cast::UiToFp),
            "sitofp" => Some(Cast::SiToFp),
            "fpext" => Some(Cast::FpExt),
            "fptrunc" => Some(Cast::FpTrunc),
            _ => None,
        };
        if let Some(c) = cast {
            self.skip_flags(lx);
            let (t, o) = self.ty_opnd(lx, cx);
            assert!(lx.eat_w("to"));
            let to = self.ty(lx);
            return Inst::Cast(c, t, o, to);
        }
        match w.as_str() {
            "fneg" => {
                self.skip_flags(lx);
                let (t, o) = self.ty_opnd(lx, cx);
                Inst::FNeg(t, o)
            }
            "icmp" => {
                self.skip_flags(lx);
                let p = match lx.next() {
                    Tok::Word(w) => match w.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => panic!("pred {}", w),
                    },
                    t => panic!("{:?}", t),
                };
                let t = self.ty(lx);
                let x = self.opnd(lx, &t, cx);
                lx.expect_p(b',');
                let y = self.opnd(lx, &t, cx);
                Inst::ICmp(p, t, x, y)
            }
            "fcmp" => {
                self.skip_flags(lx);
                let p = match lx.next() {
                    Tok::Word(w) => w,
                    t => panic!("{:?}", t),
                };
                let t = self.ty(lx);
                let x = self.opnd(lx, &t, cx);
                lx.expect_p(b',');
                let y = self.opnd(lx, &t, cx);
                Inst::FCmp(p, t, x, y)
            }
            "select" => {
                self.skip_flags(lx);
                let (ct, c) = self.ty_opnd(lx, cx);
                lx.expect_p(b',');
                let (t, x) = self.ty_opnd(lx, cx);
                lx.expect_p(b',');
                let (_, y) = self.ty_opnd(lx, cx);
                Inst::Select(t, c, x, y, matches!(ct, Ty::Vec(..)))
            }
            "alloca" => {
                lx.eat_w("inalloca");
                let t = self.ty(lx);
                let mut n = None;
                let mut align = t.align();
                while lx.eat_p(b',') {
                    if lx.eat_w("align") {
                        if let Tok::Num(a) = lx.next() {
                            align = a.parse().unwrap();
                        }
                    } else if lx.tok == Tok::Bang {
                        break;
                    } else {
                        let (_, o) = self.ty_opnd(lx, cx);
                        n = Some(o);
                    }
                }
                Inst::Alloca(t.size(), align, n)
            }
            "load" => {
                lx.eat_w("atomic");
                lx.eat_w("volatile");
                let t = self.ty(lx);
                lx.expect_p(b',');
                let (_, p) = self.ty_opnd(lx, cx);
                Inst::Load(t, p)
            }
            "store" => {
                lx.eat_w("atomic");
                lx.eat_w("volatile");
                let (t, v) = self.ty_opnd(lx, cx);
                lx.expect_p(b',');
                let (_, p) = self.ty_opnd(lx, cx);
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                self.skip_flags(lx);
                let sty = self.ty(lx);
                lx.expect_p(b',');
                let (pt, base) = self.ty_opnd(lx, cx);
                if matches!(pt, Ty::Vec(..)) {
                    panic!("vector gep");
                }
                let mut off = 0i64;
                let mut dynamic = Vec::new();
                let mut cur = sty;
                let mut first = true;
                while lx.eat_p(b',') {
                    if lx.tok == Tok::Bang {
                        break;
                    }
                    let (it, ix) = self.ty_opnd(lx, cx);
                    let k = match &ix {
                        Opnd::K(_, Const::Int(v)) => Some(sext(*v, it.bits()) as i64),
                        Opnd::K(_, Const::Zero) => Some(0),
                        _ => None,
                    };
                    if first {
                        first = false;
                        match k {
                            Some(k) => off += k * cur.size() as i64,
                            None => dynamic.push((ix, it.bits(), cur.size() as i64)),
                        }
                    } else {
                        match k {
                            Some(k) => {
                                off += cur.field_offset_i(k);
                                cur = cur.field(if matches!(cur, Ty::Struct(..)) { k as usize } else { 0 });
                            }
                            None => {
                                let e = cur.field(0);
                                dynamic.push((ix, it.bits(), e.size() as i64));
                                cur = e;
                            }
                        }
                    }
                }
                Inst::Gep(base, off, dynamic)
            }
            "tail" | "musttail" | "notail" => {
                assert!(lx.eat_w("call"));
                self.call(lx, cx, false)
            }
            "call" => self.call(lx, cx, false),
            "invoke" => self.call(lx, cx, true),
            "extractvalue" => {
                let (_, o) = self.ty_opnd(lx, cx);
                let mut ix = Vec::new();
                while lx.eat_p(b',') {
                    match lx.next() {
                        Tok::Num(n) => ix.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::Extract(o, ix)
            }
            "insertvalue" => {
                let (t, o) = self.ty_opnd(lx, cx);
                lx.expect_p(b',');
                let (t2, v) = self.ty_opnd(lx, cx);
                let mut ix = Vec::new();
                while lx.eat_p(b',') {
                    match lx.next() {
                        Tok::Num(n) => ix.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                Inst::Insert(t, o, t2, v, ix)
            }
            "extractelement" => {
                let (_, o) = self.ty_opnd(lx, cx);
                lx.expect_p(b',');
                let (_, i) = self.ty_opnd(lx, cx);
                Inst::ExtractElt(o, i)
            }
            "insertelement" => {
                let (t, o) = self.ty_opnd(lx, cx);
                lx.expect_p(b',');
                let (_, v) = self.ty_opnd(lx, cx);
                lx.expect_p(b',');
                let (_, i) = self.ty_opnd(lx, cx);
                Inst::InsertElt(t, o, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.ty_opnd(lx, cx);
                lx.expect_p(b',');
                let (_, b) = self.ty_opnd(lx, cx);
                lx.expect_p(b',');
                let mt = self.ty(lx);
                let n = mt.nfields();
                let m = match self.constant(lx, &mt) {
                    Const::Zero | Const::Undef => vec![0; n],
                    Const::Agg(v) => v
                        .iter()
                        .map(|(_, c)| match c {
                            Const::Int(k) => *k as i32,
                            Const::Zero => 0,
                            _ => -1,
                        })
                        .collect(),
                    Const::Splat(b) => match b.1 {
                        Const::Int(k) => vec![k as i32; n],
                        _ => vec![0; n],
                    },
                    c => panic!("shuffle mask {:?}", c),
                };
                Inst::Shuffle(t, a, b, m)
            }
            "freeze" => {
                let (_, o) = self.ty_opnd(lx, cx);
                Inst::Freeze(o)
            }
            "fence" => Inst::Nop,
            "atomicrmw" => {
                lx.eat_w("volatile");
                let op = match lx.next() {
                    Tok::Word(w) => w,
                    t => panic!("{:?}", t),
                };
                let (_, p) = self.ty_opnd(lx, cx);
                lx.expect_p(b',');
                let (t, v) = self.ty_opnd(lx, cx);
                Inst::AtomicRmw(op, t, p, v)
            }
            "cmpxchg" => {
                lx.eat_w("weak");
                lx.eat_w("volatile");
                let (_, p) = self.ty_opnd(lx, cx);
                lx.expect_p(b',');
                let (t, e) = self.ty_opnd(lx, cx);
                lx.expect_p(b',');
                let (_, n) = self.ty_opnd(lx, cx);
                Inst::CmpXchg(t, p, e, n)
            }
            "br" => {
                if lx.is_w("label") {
                    Inst::Br(self.label(lx, cx))
                } else {
                    let (_, c) = self.ty_opnd(lx, cx);
                    lx.expect_p(b',');
                    let a = self.label(lx, cx);
                    lx.expect_p(b',');
                    let b = self.label(lx, cx);
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.ty_opnd(lx, cx);
                lx.expect_p(b',');
                let d = self.label(lx, cx);
                lx.expect_p(b'[');
                let mut cases = Vec::new();
                while !lx.eat_p(b']') {
                    let ct = self.ty(lx);
                    let k = match self.constant(lx, &ct) {
                        Const::Int(k) => k,
                        c => panic!("switch {:?}", c),
                    };
                    lx.expect_p(b',');
                    let l = self.label(lx, cx);
                    cases.push((k, l));
                }
                Inst::Switch(t, v, d, cases)
            }
            "ret" => {
                if lx.is_w("void") {
                    Inst::Ret(None)
                } else {
                    let (t, o) = self.ty_opnd(lx, cx);
                    Inst::Ret(Some((t, o)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "landingpad" => Inst::LandingPad,
            "resume" => Inst::Resume,
            _ => panic!("instruction {} in {}", w, lx.ctx()),
        }
    }

    fn call(&self, lx: &mut Lex, cx: &FnCtx, invoke: bool) -> Inst {
        // flags, calling convention, return attributes
        let ret;
        loop {
            match &lx.tok {
                Tok::Word(w) => {
                    let isty = matches!(w.as_str(), "void" | "ptr" | "float" | "double")
                        || (w.starts_with('i') && w[1..].parse::<u16>().is_ok());
                    if isty {
                        ret = self.ty(lx);
                        break;
                    }
                    let w = w.clone();
                    lx.next();
                    if w == "cc" || w == "align" {
                        if let Tok::Num(_) = lx.tok {
                            lx.next();
                        }
                    } else if lx.is_p(b'(') {
                        lx.skip_balanced();
                    }
                }
                _ => {
                    ret = self.ty(lx);
                    break;
                }
            }
        }
        if lx.is_p(b'(') {
            lx.skip_balanced(); // function type
        }
        let callee = match lx.tok.clone() {
            Tok::Global(n) => {
                lx.next();
                Callee::Direct(*self.func_ix.get(&*n).unwrap_or_else(|| panic!("callee {}", n)))
            }
            Tok::Local(n) => {
                lx.next();
                Callee::Indirect(Opnd::Reg(cx.regs[&n]))
            }
            Tok::Word(w) if w == "asm" => {
                lx.next();
                while !matches!(lx.tok, Tok::Str(_)) {
                    lx.next();
                }
                if let Tok::Str(s) = lx.next() {
                    if !s.is_empty() {
                        // only empty asm (optimisation barriers) is supported at run time
                    }
                }
                lx.expect_p(b',');
                lx.next();
                Callee::Asm
            }
            _ => {
                let c = self.constant(lx, &Ty::Ptr);
                Callee::Indirect(Opnd::K(Ty::Ptr, c))
            }
        };
        lx.expect_p(b'(');
        let mut args = Vec::new();
        while !lx.eat_p(b')') {
            let t = self.ty(lx);
            if t == Ty::Meta {
                // skip metadata operand
                let mut d = 0;
                loop {
                    match &lx.tok {
                        Tok::P(b'(') | Tok::P(b'{') => d += 1,
                        Tok::P(b')') if d == 0 => break,
                        Tok::P(b',') if d == 0 => break,
                        Tok::P(b')') | Tok::P(b'}') => d -= 1,
                        Tok::Eof => break,
                        _ => {}
                    }
                    lx.next();
                }
                args.push((Ty::Meta, Opnd::K(Ty::Meta, Const::Int(0))));
            } else {
                self.skip_attrs(lx);
                let o = self.opnd(lx, &t, cx);
                args.push((t, o));
            }
            lx.eat_p(b',');
        }
        let mut normal = None;
        if invoke {
            while !lx.is_w("to") {
                if lx.tok == Tok::Eof {
                    panic!("invoke {}", lx.ctx());
                }
                lx.next();
            }
            lx.next();
            normal = Some(self.label(lx, cx));
        }
        Inst::Call { callee, args, ret, normal }
    }
}

fn ends_switch(s: &[u8]) -> bool {
    trim(s).ends_with(b"]")
}

fn trim(l: &[u8]) -> &[u8] {
    let mut a = 0;
    let mut b = l.len();
    while a < b && (l[a] == b' ' || l[a] == b'\t') {
        a += 1;
    }
    while b > a && (l[b - 1] == b' ' || l[b - 1] == b'\t') {
        b -= 1;
    }
    &l[a..b]
}

pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

impl Inst {
    /// Visits every operand.
    pub fn opnds(&mut self, f: &mut dyn FnMut(&mut Opnd)) {
        match self {
            Inst::Bin(_, _, a, b) | Inst::ICmp(_, _, a, b) | Inst::FCmp(_, _, a, b) => {
                f(a);
                f(b)
            }
            Inst::FNeg(_, a) | Inst::Cast(_, _, a, _) | Inst::Load(_, a) | Inst::Extract(a, _) | Inst::Freeze(a) => f(a),
            Inst::Select(_, c, a, b, _) => {
                f(c);
                f(a);
                f(b)
            }
            Inst::Alloca(_, _, n) => {
                if let Some(n) = n {
                    f(n)
                }
            }
            Inst::Store(_, v, p) => {
                f(v);
                f(p)
            }
            Inst::Gep(b, _, d) => {
                f(b);
                for x in d.iter_mut() {
                    f(&mut x.0)
                }
            }
            Inst::Call { callee, args, .. } => {
                if let Callee::Indirect(o) = callee {
                    f(o)
                }
                for a in args.iter_mut() {
                    f(&mut a.1)
                }
            }
            Inst::Insert(_, a, _, b, _) => {
                f(a);
                f(b)
            }
            Inst::ExtractElt(a, b) | Inst::Shuffle(_, a, b, _) => {
                f(a);
                f(b)
            }
            Inst::InsertElt(_, a, b, c) => {
                f(a);
                f(b);
                f(c)
            }
            Inst::AtomicRmw(_, _, a, b) => {
                f(a);
                f(b)
            }
            Inst::CmpXchg(_, a, b, c) => {
                f(a);
                f(b);
                f(c)
            }
            Inst::CondBr(c, _, _) => f(c),
            Inst::Switch(_, v, _, _) => f(v),
            Inst::Ret(Some((_, v))) => f(v),
            Inst::Nop | Inst::Br(_) | Inst::Ret(None) | Inst::Unreachable | Inst::LandingPad | Inst::Resume => {}
        }
    }
}

impl Ty {
    fn field_offset_i(&self, k: i64) -> i64 {
        match self {
            Ty::Struct(..) => self.field_offset(k as usize) as i64,
            Ty::Arr(t, _) | Ty::Vec(t, _) => t.size() as i64 * k,
            _ => panic!("gep into scalar"),
        }
    }
}
