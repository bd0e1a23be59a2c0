//! Parser for the textual LLVM IR that `opt -S` prints for the linked harness
//! module. Functions and global initialisers are parsed lazily.

use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Float,
    Double,
    Ptr,
    Array(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vector(u32, Rc<Ty>),
    Other,
}

impl Ty {
    /// (store/alloc size, alignment) in bytes
    pub fn layout(&self) -> (u64, u64) {
        match self {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = b.next_power_of_two().min(16);
                (align(b, a), a)
            }
            Ty::Float => (4, 4),
            Ty::Double | Ty::Ptr => (8, 8),
            Ty::Array(n, t) => {
                let (s, a) = t.layout();
                (s * n, a)
            }
            Ty::Struct(ts, packed) => {
                let (mut off, mut al) = (0, 1);
                for t in ts.iter() {
                    let (s, a) = t.layout();
                    if !packed {
                        off = align(off, a);
                        al = al.max(a);
                    }
                    off += s;
                }
                (align(off, al), al)
            }
            Ty::Vector(n, t) => {
                let w = (t.bits() as u64 * *n as u64 + 7) / 8;
                let a = w.next_power_of_two().min(16);
                (w, a)
            }
        }
    }
    pub fn size(&self) -> u64 {
        self.layout().0
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut off = 0;
                for (k, t) in ts.iter().enumerate() {
                    let (s, a) = t.layout();
                    if !packed {
                        off = align(off, a);
                    }
                    if k == i {
                        return off;
                    }
                    off += s;
                }
                off
            }
            _ => self.elem().size() * i as u64,
        }
    }
    pub fn elem_at(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(ts, _) => ts[i].clone(),
            _ => self.elem().clone(),
        }
    }
    pub fn elem(&self) -> &Ty {
        match self {
            Ty::Array(_, t) | Ty::Vector(_, t) => t,
            _ => panic!("elem of {self:?}"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Array(n, _) => *n as usize,
            Ty::Vector(n, _) => *n as usize,
            Ty::Struct(t, _) => t.len(),
            _ => 0,
        }
    }
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Float => 32,
            Ty::Double | Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..))
    }
}

fn align(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

/// A concrete constant.
#[derive(Clone, Debug)]
pub enum Cv {
    I(u128),
    A(Rc<Vec<Cv>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(Cv),
}

#[derive(Clone, Debug)]
pub struct Call {
    pub dst: Option<u32>,
    pub ret: Ty,
    pub callee: Callee,
    pub args: Vec<(Ty, Opd)>,
    pub normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(Rc<str>),
    Indirect(Opd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(u32, BinOp, Ty, Opd, Opd),
    ICmp(u32, Pred, Ty, Opd, Opd),
    FCmp(u32, FPred, Ty, Opd, Opd),
    FNeg(u32, Ty, Opd),
    Cast(u32, CastOp, Ty, Opd, Ty),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Ty, Opd, i64)>),
    Select(u32, Ty, Opd, Ty, Opd, Opd),
    Alloca(u32, u64, Option<(Ty, Opd)>, u64),
    Call(Rc<Call>),
    ExtractValue(u32, Opd, Vec<u32>),
    InsertValue(u32, Opd, Opd, Vec<u32>),
    ExtractElement(u32, Opd, Ty, Opd),
    InsertElement(u32, Opd, Opd, Ty, Opd),
    Shuffle(u32, Opd, Opd, Vec<u32>, usize),
    Freeze(u32, Opd),
    Rmw(u32, String, Ty, Opd, Opd),
    CmpXchg(u32, Ty, Opd, Opd, Opd),
    Fence,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FPred {
    False,
    Oeq,
    Ogt,
    Oge,
    Olt,
    Ole,
    One,
    Ord,
    Ueq,
    Ugt,
    Uge,
    Ult,
    Ule,
    Une,
    Uno,
    True,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub param_tys: Vec<Ty>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: u32,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Word(String),
    Local(String),
    Global(String),
    Num(String),
    Str(Vec<u8>),
    P(char),
    Meta,
    Attr,
    NL,
    Dots,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s.get(i + 1) != Some(&b'\\') {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' && s.get(i + 1) == Some(&b'\\') {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

fn lex(src: &str) -> Vec<T> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'.' | b'_' | b'$' | b'-');
    while i < b.len() {
        let c = b[i];
        match c {
            b'\n' => {
                out.push(T::NL);
                i += 1;
            }
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name = if b[i] == b'"' {
                    let st = i + 1;
                    i = st;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    let s = String::from_utf8_lossy(&unescape(&b[st..i])).into_owned();
                    i += 1;
                    s
                } else {
                    let st = i;
                    while i < b.len() && idc(b[i]) {
                        i += 1;
                    }
                    src[st..i].to_string()
                };
                out.push(if c == b'%' { T::Local(name) } else { T::Global(name) });
            }
            b'!' => {
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                out.push(T::Meta);
            }
            b'#' => {
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                out.push(T::Attr);
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                i = st;
                while b[i] != b'"' {
                    i += 1;
                }
                out.push(T::Str(unescape(&b[st..i])));
                i += 1;
            }
            b'"' => {
                let st = i + 1;
                i = st;
                while b[i] != b'"' {
                    i += 1;
                }
                out.push(T::Str(unescape(&b[st..i])));
                i += 1;
            }
            b'.' if src[i..].starts_with("...") => {
                out.push(T::Dots);
                i += 3;
            }
            _ if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) => {
                let st = i;
                i += 1;
                while i < b.len() && (idc(b[i]) || (b[i] == b'+' && b[i - 1] == b'e')) {
                    i += 1;
                }
                out.push(T::Num(src[st..i].to_string()));
            }
            _ if idc(c) => {
                let st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                out.push(T::Word(src[st..i].to_string()));
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
    out.push(T::NL);
    out
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub ty: Ty,
    pub init: RefCell<Option<String>>,
    pub external: bool,
    pub constant: bool,
}

pub struct Module {
    pub func_text: HashMap<Rc<str>, String>,
    pub funcs: RefCell<HashMap<Rc<str>, Rc<Func>>>,
    pub faddr: HashMap<Rc<str>, u64>,
    pub fname: HashMap<u64, Rc<str>>,
    pub globals: Vec<Global>,
    pub gaddr: HashMap<String, usize>,
    pub aliases: HashMap<String, String>,
}

pub const GLOBAL_BASE: u64 = 0x1000_0000;
pub const FUNC_BASE: u64 = 0x10_0000;

struct Ps<'a> {
    t: Vec<T>,
    i: usize,
    m: &'a Module,
    locals: HashMap<String, u32>,
}

impl<'a> Ps<'a> {
    fn peek(&self) -> &T {
        self.t.get(self.i).unwrap_or(&T::NL)
    }
    fn next(&mut self) -> T {
        let t = self.t.get(self.i).cloned().unwrap_or(T::NL);
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        *self.peek() == T::P(c)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected {c:?}, got {:?} near {:?}", self.peek(), &self.t[self.i.saturating_sub(8)..(self.i + 4).min(self.t.len())]);
        }
    }
    fn word(&self) -> Option<&str> {
        match self.peek() {
            T::Word(w) => Some(w),
            _ => None,
        }
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.word() == Some(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_balanced(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                T::P('(') | T::P('[') | T::P('{') => d += 1,
                T::P(')') | T::P(']') | T::P('}') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn skip_line(&mut self) {
        while *self.peek() != T::NL {
            self.i += 1;
        }
    }
    fn num(&mut self) -> i128 {
        match self.next() {
            T::Num(s) => s.parse().unwrap(),
            t => panic!("expected number, got {t:?}"),
        }
    }
    fn is_ty(&self) -> bool {
        match self.peek() {
            T::P('[') | T::P('{') | T::P('<') => true,
            T::Word(w) => {
                matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "metadata" | "label" | "token" | "half" | "fp128" | "x86_fp80")
                    || (w.starts_with('i') && w[1..].chars().all(|c| c.is_ascii_digit()) && w.len() > 1)
            }
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        match self.next() {
            T::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_word("addrspace") {
                        self.skip_balanced();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float,
                "double" => Ty::Double,
                _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
                _ => Ty::Other,
            },
            T::P('[') => {
                let n = self.num() as u64;
                self.next(); // x
                let t = self.ty();
                self.expect(']');
                Ty::Array(n, Rc::new(t))
            }
            T::P('{') => {
                let mut v = vec![];
                if !self.eat('}') {
                    loop {
                        v.push(self.ty());
                        if self.eat('}') {
                            break;
                        }
                        self.expect(',');
                    }
                }
                Ty::Struct(Rc::new(v), false)
            }
            T::P('<') => {
                if self.eat('{') {
                    let mut v = vec![];
                    if !self.eat('}') {
                        loop {
                            v.push(self.ty());
                            if self.eat('}') {
                                break;
                            }
                            self.expect(',');
                        }
                    }
                    self.expect('>');
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n = self.num() as u32;
                    self.next();
                    let t = self.ty();
                    self.expect('>');
                    Ty::Vector(n, Rc::new(t))
                }
            }
            t => panic!("type expected, got {t:?} near {:?}", &self.t[self.i.saturating_sub(10)..(self.i + 4).min(self.t.len())]),
        }
    }

    fn zero(t: &Ty) -> Cv {
        match t {
            Ty::Array(n, e) => Cv::A(Rc::new(vec![Self::zero(e); *n as usize])),
            Ty::Vector(n, e) => Cv::A(Rc::new(vec![Self::zero(e); *n as usize])),
            Ty::Struct(ts, _) => Cv::A(Rc::new(ts.iter().map(Self::zero).collect())),
            _ => Cv::I(0),
        }
    }

    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                T::Word(w) => {
                    if matches!(
                        w.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "sub" | "add" | "trunc" | "xor" | "mul" | "ptrtoaddr" | "asm" | "splat" | "shl" | "zext" | "sext"
                    ) || w.starts_with("f0x")
                    {
                        return;
                    }
                    let al = w == "align";
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_balanced();
                    } else if al {
                        if let T::Num(_) = self.peek() {
                            self.i += 1;
                        }
                    }
                }
                T::Str(_) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                T::Attr => self.i += 1,
                _ => return,
            }
        }
    }

    fn gv(&self, n: &str) -> u128 {
        self.m.addr_of(n) as u128
    }

    /// A value of the given type.
    fn val(&mut self, t: &Ty) -> Opd {
        match self.peek().clone() {
            T::Local(n) => {
                self.i += 1;
                Opd::R(self.local(&n))
            }
            _ => Opd::C(self.konst(t)),
        }
    }

    fn local(&mut self, n: &str) -> u32 {
        if let Some(&i) = self.locals.get(n) {
            return i;
        }
        let i = self.locals.len() as u32;
        self.locals.insert(n.to_string(), i);
        i
    }

    fn ki(&mut self, t: &Ty) -> u128 {
        match self.konst(t) {
            Cv::I(v) => v,
            _ => panic!("scalar constant expected"),
        }
    }

    fn konst(&mut self, t: &Ty) -> Cv {
        let m = |w: u16| crate::expr::mask(w);
        match self.next() {
            T::Num(s) => Cv::I(match t {
                Ty::Float | Ty::Double => {
                    let f = if let Some(h) = s.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                    } else {
                        s.parse::<f64>().unwrap()
                    };
                    if *t == Ty::Float {
                        (f as f32).to_bits() as u128
                    } else {
                        f.to_bits() as u128
                    }
                }
                _ => {
                    let w = t.bits();
                    if let Ok(v) = s.parse::<i128>() {
                        v as u128 & m(w)
                    } else {
                        s.parse::<u128>().unwrap() & m(w)
                    }
                }
            }),
            T::Global(n) => Cv::I(self.gv(&n)),
            T::Str(s) => Cv::A(Rc::new(s.into_iter().map(|b| Cv::I(b as u128)).collect())),
            T::P('[') => self.agg(']'),
            T::P('{') => self.agg('}'),
            T::P('<') => {
                if self.eat('{') {
                    let r = self.agg('}');
                    self.expect('>');
                    r
                } else {
                    self.agg('>')
                }
            }
            T::Meta => Cv::I(0),
            T::Word(w) => match w.as_str() {
                "true" => Cv::I(1),
                "false" | "null" | "none" => Cv::I(0),
                "undef" | "poison" | "zeroinitializer" => Self::zero(t),
                "splat" => {
                    self.expect('(');
                    let et = self.ty();
                    let v = self.konst(&et);
                    self.expect(')');
                    Cv::A(Rc::new(vec![v; t.count()]))
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    // inrange(...) uses parentheses of its own
                    if let T::Word(p) = &self.t[self.i - 1] {
                        if p == "inrange" {
                            self.skip_balanced();
                            while !self.is_p('(') {
                                self.i += 1;
                            }
                        }
                    }
                    self.expect('(');
                    let (_, base, off, dyns) = self.gep_tail();
                    self.expect(')');
                    assert!(dyns.is_empty());
                    match base {
                        Opd::C(Cv::I(b)) => Cv::I((b as u64).wrapping_add(off as u64) as u128),
                        _ => panic!("constexpr gep base"),
                    }
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" | "zext" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.expect('(');
                    let st = self.ty();
                    let v = self.ki(&st);
                    self.next(); // to
                    let dt = self.ty();
                    self.expect(')');
                    Cv::I(v & m(dt.bits()))
                }
                "sub" | "add" | "xor" | "mul" | "shl" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.expect('(');
                    let t1 = self.ty();
                    let a = self.ki(&t1);
                    self.expect(',');
                    let t2 = self.ty();
                    let b = self.ki(&t2);
                    self.expect(')');
                    let r = match w.as_str() {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        "mul" => a.wrapping_mul(b),
                        "shl" => a << b,
                        _ => a ^ b,
                    };
                    Cv::I(r & m(t1.bits()))
                }
                "-inf" | "-qnan" | "inf" | "qnan" => {
                    let (sh, e) = if *t == Ty::Float { (31, if w.ends_with("inf") { 0x7f80_0000u128 } else { 0x7fc0_0000 }) } else { (63, if w.ends_with("inf") { 0x7ff0_0000_0000_0000u128 } else { 0x7ff8_0000_0000_0000 }) };
                    Cv::I(e | if w.starts_with('-') { 1 << sh } else { 0 })
                }
                _ if w.starts_with("f0x") => Cv::I(u128::from_str_radix(&w[3..], 16).unwrap()),
                "asm" => Cv::I(0),
                _ => panic!("constant word {w}"),
            },
            T::P(c @ ('+' | '-')) => {
                // `+inf`, `-inf`, `+qnan`, `-qnan`
                let neg = c == '-';
                let (f32_, w) = (*t == Ty::Float, self.next());
                let mag: u128 = match &w {
                    T::Word(x) if *x == "inf" => if f32_ { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 },
                    T::Word(x) if *x == "qnan" => if f32_ { 0x7fc0_0000 } else { 0x7ff8_0000_0000_0000 },
                    x => panic!("signed constant {x:?}"),
                };
                let sign = if neg { 1u128 << if f32_ { 31 } else { 63 } } else { 0 };
                Cv::I(mag | sign)
            }
            x => panic!("constant expected, got {x:?} near {:?}", &self.t[self.i.saturating_sub(10)..(self.i + 4).min(self.t.len())]),
        }
    }

    fn agg(&mut self, close: char) -> Cv {
        let mut v = vec![];
        if self.eat(close) {
            return Cv::A(Rc::new(v));
        }
        loop {
            let t = self.ty();
            v.push(self.konst(&t));
            if self.eat(close) {
                break;
            }
            self.expect(',');
        }
        Cv::A(Rc::new(v))
    }

    /// `ty, ptr base, iN idx...` → (source type, base, constant offset, dynamic parts)
    fn gep_tail(&mut self) -> (Ty, Opd, i64, Vec<(Ty, Opd, i64)>) {
        let t = self.ty();
        self.expect(',');
        let bt = self.ty();
        self.skip_attrs();
        let base = self.val(&bt);
        let mut off = 0i64;
        let mut dy = vec![];
        let mut cur = t.clone();
        let mut first = true;
        while self.is_p(',') {
            // metadata may follow
            if self.t[self.i + 1] == T::Meta {
                break;
            }
            self.i += 1;
            let it = self.ty();
            self.skip_attrs();
            let ix = self.val(&it);
            let scale;
            let ci = match &ix {
                Opd::C(Cv::I(v)) => Some(crate::expr::sext(*v, it.bits()) as i64),
                _ => None,
            };
            if first {
                scale = align(cur.size(), cur.layout().1) as i64;
                first = false;
                if let Some(c) = ci {
                    off = off.wrapping_add(c.wrapping_mul(scale));
                } else {
                    dy.push((it, ix, scale));
                }
            } else if let Ty::Struct(..) = cur {
                let c = ci.unwrap() as usize;
                off += cur.field_offset(c) as i64;
                cur = cur.elem_at(c);
            } else {
                let e = cur.elem().clone();
                scale = e.size() as i64;
                if let Some(c) = ci {
                    off = off.wrapping_add(c.wrapping_mul(scale));
                } else {
                    dy.push((it, ix, scale));
                }
                cur = e;
            }
        }
        (t, base, off, dy)
    }
}

impl Module {
    pub fn addr_of(&self, n: &str) -> u64 {
        let mut n = n;
        while let Some(a) = self.aliases.get(n) {
            n = a;
        }
        if let Some(&i) = self.gaddr.get(n) {
            return self.globals[i].addr;
        }
        if let Some(&a) = self.faddr.get(n) {
            return a;
        }
        panic!("unknown symbol {n}")
    }

    pub fn load(text: &str) -> Module {
        let mut m = Module {
            func_text: HashMap::new(),
            funcs: RefCell::new(HashMap::new()),
            faddr: HashMap::new(),
            fname: HashMap::new(),
            globals: vec![],
            gaddr: HashMap::new(),
            aliases: HashMap::new(),
        };
        let mut lines = text.split('\n');
        let mut fa = FUNC_BASE;
        let mut ga = GLOBAL_BASE;
        let fname_of = |l: &str| -> Rc<str> {
            let a = l.find('@').unwrap();
            let r = &l[a + 1..];
            if let Some(q) = r.strip_prefix('"') {
                let e = q.find('"').unwrap();
                Rc::from(String::from_utf8_lossy(&unescape(q[..e].as_bytes())).as_ref())
            } else {
                let e = r.find('(').unwrap();
                Rc::from(&r[..e])
            }
        };
        let mut gtexts: Vec<(String, String)> = vec![];
        while let Some(l) = lines.next() {
            if l.starts_with("define ") || l.starts_with("declare ") {
                // a return attribute may contain '@'? never in rustc output
                let n = fname_of(l);
                m.faddr.insert(n.clone(), fa);
                m.fname.insert(fa, n.clone());
                fa += 16;
                if l.starts_with("define ") {
                    let mut s = String::with_capacity(1024);
                    s.push_str(l);
                    s.push('\n');
                    for l in lines.by_ref() {
                        if l == "}" {
                            break;
                        }
                        s.push_str(l);
                        s.push('\n');
                    }
                    m.func_text.insert(n, s);
                }
            } else if l.starts_with('@') {
                let (name, rest) = if let Some(q) = l.strip_prefix("@\"") {
                    let e = q.find('"').unwrap();
                    (String::from_utf8_lossy(&unescape(q[..e].as_bytes())).into_owned(), &q[e + 1..])
                } else {
                    let e = l.find(" =").unwrap();
                    (l[1..e].to_string(), &l[e..])
                };
                let rest = rest.trim_start().trim_start_matches('=').trim_start();
                gtexts.push((name, rest.to_string()));
            }
        }
        for (name, rest) in gtexts {
            let words: Vec<&str> = rest.split(' ').take(14).collect();
            if words.contains(&"alias") {
                let a = rest.rfind('@').unwrap();
                m.aliases.insert(name, rest[a + 1..].trim_matches('"').to_string());
                continue;
            }
            let external = words.iter().take_while(|w| **w != "global" && **w != "constant").any(|w| *w == "external" || *w == "extern_weak");
            let constant = words.iter().find(|w| **w == "global" || **w == "constant") == Some(&"constant");
            let key = if constant { "constant " } else { "global " };
            let p = rest.find(key).unwrap() + key.len();
            let body = &rest[p..];
            // type
            let hdr: String = body.to_string();
            let tlen = type_len(&hdr);
            let ty = {
                let mut ps = Ps { t: lex(&hdr[..tlen]), i: 0, m: &m, locals: HashMap::new() };
                ps.ty()
            };
            let (size, al) = ty.layout();
            ga = align(ga, al.max(16));
            m.gaddr.insert(name.clone(), m.globals.len());
            m.globals.push(Global {
                name,
                addr: ga,
                size: if external { size.max(8) } else { size },
                ty,
                init: RefCell::new(if external { None } else { Some(hdr[tlen..].to_string()) }),
                external,
                constant,
            });
            ga += size.max(1) + 16;
        }
        m
    }

    pub fn global_bytes(&self, i: usize) -> Vec<u8> {
        let g = &self.globals[i];
        let init = g.init.borrow().clone();
        let mut out = vec![0u8; g.size as usize];
        if let Some(s) = init {
            let mut ps = Ps { t: lex(&s), i: 0, m: self, locals: HashMap::new() };
            let v = ps.konst(&g.ty);
            fill(&g.ty, &v, &mut out);
        }
        out
    }

    pub fn func(&self, name: &str) -> Option<Rc<Func>> {
        if let Some(f) = self.funcs.borrow().get(name) {
            return Some(f.clone());
        }
        let (k, text) = self.func_text.get_key_value(name)?;
        let f = Rc::new(self.parse_func(k.clone(), text));
        self.funcs.borrow_mut().insert(k.clone(), f.clone());
        Some(f)
    }

    fn parse_func(&self, name: Rc<str>, text: &str) -> Func {
        let nl = text.find('\n').unwrap();
        // header
        let mut ps = Ps { t: lex(&text[..nl]), i: 0, m: self, locals: HashMap::new() };
        ps.next(); // define
        while !ps.is_ty() {
            ps.i += 1;
            if ps.is_p('(') {
                ps.skip_balanced();
            }
        }
        // attributes such as `range(i32 0, 5)` contain types inside parens: handled by skip
        let ret = ps.ty();
        while !matches!(ps.peek(), T::Global(_)) {
            ps.i += 1;
        }
        ps.i += 1;
        ps.expect('(');
        let mut params = vec![];
        let mut param_tys = vec![];
        let mut anon = 0;
        if !ps.eat(')') {
            loop {
                if *ps.peek() == T::Dots {
                    ps.i += 1;
                    ps.expect(')');
                    break;
                }
                let t = ps.ty();
                ps.skip_attrs();
                let n = match ps.peek().clone() {
                    T::Local(n) => {
                        ps.i += 1;
                        n
                    }
                    _ => {
                        anon += 1;
                        (anon - 1).to_string()
                    }
                };
                if n.parse::<u32>().is_ok() {
                    anon = n.parse::<u32>().unwrap() + 1;
                }
                params.push(ps.local(&n));
                param_tys.push(t);
                if ps.eat(')') {
                    break;
                }
                ps.expect(',');
            }
        }
        let entry_label = anon.to_string();
        // body
        let locals = std::mem::take(&mut ps.locals);
        let mut ps = Ps { t: lex(&text[nl + 1..]), i: 0, m: self, locals };
        let mut labels: HashMap<String, u32> = HashMap::new();
        // collect labels: NL, (Num|Word|Str), ':'
        let mut order: Vec<String> = vec![];
        {
            let t = &ps.t;
            let lab = |k: usize| -> Option<String> {
                if t.get(k + 1) == Some(&T::P(':')) {
                    match &t[k] {
                        T::Num(s) | T::Word(s) => return Some(s.clone()),
                        T::Str(s) => return Some(String::from_utf8_lossy(s).into_owned()),
                        _ => {}
                    }
                }
                None
            };
            let first = t.iter().position(|x| *x != T::NL).unwrap_or(0);
            if lab(first).is_none() {
                order.push(entry_label.clone());
            }
            for k in 0..t.len() {
                if k == first || (k > 0 && t[k - 1] == T::NL) {
                    if let Some(l) = lab(k) {
                        order.push(l);
                    }
                }
            }
        }
        for (i, l) in order.iter().enumerate() {
            labels.insert(l.clone(), i as u32);
        }
        let mut blocks: Vec<Block> = vec![];
        let mut started = false;
        loop {
            while *ps.peek() == T::NL && ps.i < ps.t.len() {
                ps.i += 1;
            }
            if ps.i >= ps.t.len() {
                break;
            }
            let is_label = ps.t.get(ps.i + 1) == Some(&T::P(':')) && !matches!(ps.peek(), T::Local(_));
            if is_label {
                ps.i += 2;
                blocks.push(Block { phis: vec![], insts: vec![] });
                started = true;
                continue;
            }
            if !started {
                blocks.push(Block { phis: vec![], insts: vec![] });
                started = true;
            }
            // debug records
            if *ps.peek() == T::Attr {
                ps.skip_line();
                continue;
            }
            let start = ps.i;
            let b = blocks.last_mut().unwrap();
            match parse_inst(&mut ps, &labels) {
                Line::Phi(d, v) => b.phis.push((d, v)),
                Line::Inst(i) => b.insts.push(i),
                Line::Skip => {}
            }
            let _ = start;
            // a trailing remainder of the line is metadata/attributes
            ps.skip_line();
        }
        Func { name, params, param_tys, ret, blocks, nregs: ps.locals.len() as u32 }
    }
}

/// Length of the leading type in `s`.
fn type_len(s: &str) -> usize {
    let b = s.as_bytes();
    let mut d = 0;
    for (i, c) in b.iter().enumerate() {
        match c {
            b'[' | b'{' | b'<' => d += 1,
            b']' | b'}' | b'>' => {
                d -= 1;
            }
            b' ' | b',' if d == 0 && i > 0 => return i,
            _ => {}
        }
    }
    s.len()
}

fn fill(t: &Ty, v: &Cv, out: &mut [u8]) {
    match v {
        Cv::I(x) => {
            let n = (t.size() as usize).min(out.len());
            out[..n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        Cv::A(vs) => match t {
            Ty::Struct(ts, _) => {
                for (i, x) in vs.iter().enumerate() {
                    let o = t.field_offset(i) as usize;
                    fill(&ts[i], x, &mut out[o..]);
                }
            }
            _ => {
                let e = t.elem();
                let s = e.size() as usize;
                for (i, x) in vs.iter().enumerate() {
                    fill(e, x, &mut out[i * s..]);
                }
            }
        },
    }
}

enum Line {
    Phi(u32, Vec<(u32, Opd)>),
    Inst(Inst),
    Skip,
}

fn label(ps: &mut Ps, labels: &HashMap<String, u32>) -> u32 {
    match ps.next() {
        T::Local(n) => *labels.get(&n).unwrap_or_else(|| panic!("label {n}")),
        t => panic!("label expected, got {t:?}"),
    }
}

fn parse_inst(ps: &mut Ps, labels: &HashMap<String, u32>) -> Line {
    let mut dst = None;
    if let T::Local(n) = ps.peek().clone() {
        ps.i += 1;
        ps.expect('=');
        dst = Some(ps.local(&n));
    }
    let op = match ps.next() {
        T::Word(w) => w,
        t => panic!("instruction expected, got {t:?} near {:?}", &ps.t[ps.i.saturating_sub(6)..(ps.i + 6).min(ps.t.len())]),
    };
    let d = dst.unwrap_or(u32::MAX);
    let flags = |ps: &mut Ps| {
        while let Some(w) = ps.word() {
            if matches!(
                w,
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak"
            ) {
                ps.i += 1;
            } else if w == "inrange" {
                ps.i += 1;
                ps.skip_balanced();
            } else {
                break;
            }
        }
    };
    let binop = match op.as_str() {
        "add" => Some(BinOp::Add),
        "sub" => Some(BinOp::Sub),
        "mul" => Some(BinOp::Mul),
        "udiv" => Some(BinOp::UDiv),
        "sdiv" => Some(BinOp::SDiv),
        "urem" => Some(BinOp::URem),
        "srem" => Some(BinOp::SRem),
        "shl" => Some(BinOp::Shl),
        "lshr" => Some(BinOp::LShr),
        "ashr" => Some(BinOp::AShr),
        "and" => Some(BinOp::And),
        "or" => Some(BinOp::Or),
        "xor" => Some(BinOp::Xor),
        "fadd" => Some(BinOp::FAdd),
        "fsub" => Some(BinOp::FSub),
        "fmul" => Some(BinOp::FMul),
        "fdiv" => Some(BinOp::FDiv),
        "frem" => Some(BinOp::FRem),
        _ => None,
    };
    if let Some(b) = binop {
        flags(ps);
        let t = ps.ty();
        let x = ps.val(&t);
        ps.expect(',');
        let y = ps.val(&t);
        return Line::Inst(Inst::Bin(d, b, t, x, y));
    }
    let cast = match op.as_str() {
        "trunc" => Some(CastOp::Trunc),
        "zext" => Some(CastOp::ZExt),
        "sext" => Some(CastOp::SExt),
        "ptrtoint" | "ptrtoaddr" => Some(CastOp::PtrToInt),
        "inttoptr" => Some(CastOp::IntToPtr),
        "bitcast" => Some(CastOp::BitCast),
        "fptoui" => Some(CastOp::FpToUi),
        "fptosi" => Some(CastOp::FpToSi),
        "uitofp" => Some(CastOp::UiToFp),
        "sitofp" => Some(CastOp::SiToFp),
        "fptrunc" => Some(CastOp::FpTrunc),
        "fpext" => Some(CastOp::FpExt),
        _ => None,
    };
    if let Some(c) = cast {
        flags(ps);
        let t = ps.ty();
        let x = ps.val(&t);
        ps.next(); // to
        let t2 = ps.ty();
        return Line::Inst(Inst::Cast(d, c, t, x, t2));
    }
    Line::Inst(match op.as_str() {
        "icmp" => {
            flags(ps);
            let p = match ps.next() {
                T::Word(w) => match w.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => panic!("icmp {w}"),
                },
                t => panic!("icmp {t:?}"),
            };
            let t = ps.ty();
            let x = ps.val(&t);
            ps.expect(',');
            let y = ps.val(&t);
            Inst::ICmp(d, p, t, x, y)
        }
        "fcmp" => {
            flags(ps);
            let p = match ps.next() {
                T::Word(w) => match w.as_str() {
                    "false" => FPred::False,
                    "oeq" => FPred::Oeq,
                    "ogt" => FPred::Ogt,
                    "oge" => FPred::Oge,
                    "olt" => FPred::Olt,
                    "ole" => FPred::Ole,
                    "one" => FPred::One,
                    "ord" => FPred::Ord,
                    "ueq" => FPred::Ueq,
                    "ugt" => FPred::Ugt,
                    "uge" => FPred::Uge,
                    "ult" => FPred::Ult,
                    "ule" => FPred::Ule,
                    "une" => FPred::Une,
                    "uno" => FPred::Uno,
                    "true" => FPred::True,
                    _ => panic!("fcmp {w}"),
                },
                t => panic!("fcmp {t:?}"),
            };
            let t = ps.ty();
            let x = ps.val(&t);
            ps.expect(',');
            let y = ps.val(&t);
            Inst::FCmp(d, p, t, x, y)
        }
        "fneg" => {
            flags(ps);
            let t = ps.ty();
            let x = ps.val(&t);
            Inst::FNeg(d, t, x)
        }
        "phi" => {
            flags(ps);
            let t = ps.ty();
            let mut v = vec![];
            loop {
                ps.expect('[');
                let x = ps.val(&t);
                ps.expect(',');
                let l = label(ps, labels);
                ps.expect(']');
                v.push((l, x));
                if ps.is_p(',') && ps.t.get(ps.i + 1) == Some(&T::P('[')) {
                    ps.i += 1;
                } else {
                    break;
                }
            }
            return Line::Phi(d, v);
        }
        "load" => {
            flags(ps);
            let t = ps.ty();
            ps.expect(',');
            let pt = ps.ty();
            let p = ps.val(&pt);
            Inst::Load(d, t, p)
        }
        "store" => {
            flags(ps);
            let t = ps.ty();
            let v = ps.val(&t);
            ps.expect(',');
            let pt = ps.ty();
            let p = ps.val(&pt);
            Inst::Store(t, v, p)
        }
        "getelementptr" => {
            flags(ps);
            let (_, base, off, dy) = ps.gep_tail();
            Inst::Gep(d, base, off, dy)
        }
        "select" => {
            flags(ps);
            let ct = ps.ty();
            let c = ps.val(&ct);
            ps.expect(',');
            let t = ps.ty();
            let x = ps.val(&t);
            ps.expect(',');
            let t2 = ps.ty();
            let y = ps.val(&t2);
            Inst::Select(d, ct, c, t, x, y)
        }
        "alloca" => {
            ps.eat_word("inalloca");
            let t = ps.ty();
            let mut n = None;
            let mut al = t.layout().1;
            while ps.eat(',') {
                if ps.eat_word("align") {
                    al = ps.num() as u64;
                } else if ps.is_ty() {
                    let nt = ps.ty();
                    let v = ps.val(&nt);
                    n = Some((nt, v));
                } else {
                    break;
                }
            }
            Inst::Alloca(d, t.size(), n, al)
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            let mut inv = op == "invoke";
            if op != "call" && op != "invoke" {
                ps.next();
                inv = false;
            }
            // calling convention, return attributes, fast-math flags
            while !ps.is_ty() {
                ps.i += 1;
                if ps.is_p('(') {
                    ps.skip_balanced();
                } else if let T::Num(_) = ps.peek() {
                    ps.i += 1;
                }
            }
            let ret = ps.ty();
            if ps.is_p('(') {
                ps.skip_balanced();
            }
            let callee = match ps.next() {
                T::Global(n) => {
                    let mut n = n;
                    while let Some(a) = ps.m.aliases.get(&n) {
                        n = a.clone();
                    }
                    Callee::Direct(Rc::from(n))
                }
                T::Local(n) => Callee::Indirect(Opd::R(ps.local(&n))),
                T::Word(w) if w == "asm" => {
                    while !ps.is_p('(') {
                        ps.i += 1;
                    }
                    Callee::Asm
                }
                T::Word(w) if w == "inttoptr" || w == "getelementptr" => {
                    ps.i -= 1;
                    let v = ps.konst(&Ty::Ptr);
                    Callee::Indirect(Opd::C(v))
                }
                t => panic!("callee {t:?}"),
            };
            ps.expect('(');
            let mut args = vec![];
            if !ps.eat(')') {
                loop {
                    let t = ps.ty();
                    if t == Ty::Other {
                        // metadata argument
                        let mut depth = 0;
                        loop {
                            match ps.peek() {
                                T::P('(') => depth += 1,
                                T::P(')') if depth == 0 => break,
                                T::P(')') => depth -= 1,
                                T::P(',') if depth == 0 => break,
                                _ => {}
                            }
                            ps.i += 1;
                        }
                        args.push((t, Opd::C(Cv::I(0))));
                    } else {
                        ps.skip_attrs();
                        let v = ps.val(&t);
                        args.push((t, v));
                    }
                    if ps.eat(')') {
                        break;
                    }
                    ps.expect(',');
                }
            }
            let mut normal = None;
            if inv {
                while !ps.eat_word("to") {
                    ps.i += 1;
                }
                ps.i += 1; // label
                normal = Some(label(ps, labels));
                ps.skip_line();
            }
            Inst::Call(Rc::new(Call { dst, ret, callee, args, normal }))
        }
        "extractvalue" => {
            let t = ps.ty();
            let v = ps.val(&t);
            let mut ix = vec![];
            while ps.is_p(',') {
                if let Some(T::Num(_)) = ps.t.get(ps.i + 1) {
                    ps.i += 1;
                    ix.push(ps.num() as u32);
                } else {
                    break;
                }
            }
            Inst::ExtractValue(d, v, ix)
        }
        "insertvalue" => {
            let t = ps.ty();
            let v = ps.val(&t);
            ps.expect(',');
            let t2 = ps.ty();
            let x = ps.val(&t2);
            let mut ix = vec![];
            while ps.is_p(',') {
                if let Some(T::Num(_)) = ps.t.get(ps.i + 1) {
                    ps.i += 1;
                    ix.push(ps.num() as u32);
                } else {
                    break;
                }
            }
            Inst::InsertValue(d, v, x, ix)
        }
        "extractelement" => {
            let t = ps.ty();
            let v = ps.val(&t);
            ps.expect(',');
            let it = ps.ty();
            let i = ps.val(&it);
            Inst::ExtractElement(d, v, it, i)
        }
        "insertelement" => {
            let t = ps.ty();
            let v = ps.val(&t);
            ps.expect(',');
            let et = ps.ty();
            let x = ps.val(&et);
            ps.expect(',');
            let it = ps.ty();
            let i = ps.val(&it);
            Inst::InsertElement(d, v, x, it, i)
        }
        "shufflevector" => {
            let t = ps.ty();
            let a = ps.val(&t);
            ps.expect(',');
            let t2 = ps.ty();
            let b = ps.val(&t2);
            ps.expect(',');
            let mt = ps.ty();
            let m = ps.konst(&mt);
            let m = match m {
                Cv::A(v) => v
                    .iter()
                    .map(|x| match x {
                        Cv::I(v) => *v as u32,
                        _ => 0,
                    })
                    .collect(),
                _ => vec![0; mt.count()],
            };
            Inst::Shuffle(d, a, b, m, t.count())
        }
        "freeze" => {
            let t = ps.ty();
            let v = ps.val(&t);
            Inst::Freeze(d, v)
        }
        "atomicrmw" => {
            flags(ps);
            let o = match ps.next() {
                T::Word(w) => w,
                _ => panic!(),
            };
            let pt = ps.ty();
            let p = ps.val(&pt);
            ps.expect(',');
            let t = ps.ty();
            let v = ps.val(&t);
            Inst::Rmw(d, o, t, p, v)
        }
        "cmpxchg" => {
            flags(ps);
            let pt = ps.ty();
            let p = ps.val(&pt);
            ps.expect(',');
            let t = ps.ty();
            let a = ps.val(&t);
            ps.expect(',');
            let t2 = ps.ty();
            let b = ps.val(&t2);
            Inst::CmpXchg(d, t, p, a, b)
        }
        "fence" => Inst::Fence,
        "br" => {
            if ps.eat_word("label") {
                Inst::Br(label(ps, labels))
            } else {
                let t = ps.ty();
                let c = ps.val(&t);
                ps.expect(',');
                ps.next();
                let a = label(ps, labels);
                ps.expect(',');
                ps.next();
                let b = label(ps, labels);
                Inst::CondBr(c, a, b)
            }
        }
        "switch" => {
            let t = ps.ty();
            let c = ps.val(&t);
            ps.expect(',');
            ps.next();
            let dl = label(ps, labels);
            ps.expect('[');
            let mut cs = vec![];
            loop {
                while *ps.peek() == T::NL {
                    ps.i += 1;
                }
                if ps.eat(']') {
                    break;
                }
                let ct = ps.ty();
                let v = ps.ki(&ct);
                ps.expect(',');
                ps.next();
                let l = label(ps, labels);
                cs.push((v, l));
            }
            Inst::Switch(t, c, dl, cs)
        }
        "ret" => {
            if ps.eat_word("void") {
                Inst::Ret(None)
            } else {
                let t = ps.ty();
                let v = ps.val(&t);
                Inst::Ret(Some((t, v)))
            }
        }
        "unreachable" => Inst::Unreachable,
        "landingpad" => {
            let _ = ps.ty();
            // clauses follow on separate lines
            loop {
                ps.skip_line();
                let save = ps.i;
                while *ps.peek() == T::NL && ps.i < ps.t.len() {
                    ps.i += 1;
                }
                if matches!(ps.word(), Some("cleanup" | "catch" | "filter")) {
                    continue;
                }
                ps.i = save;
                break;
            }
            Inst::Unsupported("landingpad".into())
        }
        "resume" | "va_arg" | "indirectbr" | "callbr" | "cleanupret" => Inst::Unsupported(op),
        _ => {
            let _ = Line::Skip;
            Inst::Unsupported(op)
        }
    })
}
