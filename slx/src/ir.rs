//! Parser for the textual LLVM IR that rustc emits (lazy, one function at a time).
use crate::bv::{mask64, Bv};
use crate::term::{self, T};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Fp(u32),
    Arr(u64, Rc<Ty>),
    St(Rc<[Ty]>, bool),
    Vec(u32, Rc<Ty>),
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Fp(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (t.bits() as u64 * *n as u64 + 7) / 8,
            Ty::St(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void => 1,
            Ty::Int(w) => match (*w + 7) / 8 {
                1 => 1,
                2 => 2,
                3..=4 => 4,
                5..=8 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Fp(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::St(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() * i, (**t).clone()),
            Ty::St(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field of scalar {self:?}"),
        }
    }
    pub fn count(&self) -> u64 {
        match self {
            Ty::Arr(n, _) => *n,
            Ty::Vec(n, _) => *n as u64,
            Ty::St(f, _) => f.len() as u64,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::St(..) | Ty::Vec(..))
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Fp(w) => *w,
            Ty::Vec(n, t) => n * t.bits(),
            _ => panic!("bits of {self:?}"),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    C(u64),
    T(T),
    A(Rc<[Val]>),
}

pub fn of_term(t: T) -> Val {
    if let Some(b) = term::as_const(t) {
        if b.w <= 64 {
            return Val::C(b.lo());
        }
    }
    Val::T(t)
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    V(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    P2I,
    I2P,
    Bit,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca(u32, u64, Option<(u32, O)>),
    Load(u32, Ty, O),
    Store(Ty, O, O),
    Gep(u32, O, i64, Vec<(i64, u32, O)>),
    Bin(u32, term::Op, Ty, O, O),
    Cmp(u32, Pred, Ty, O, O),
    Cast(u32, Cast, Ty, Ty, O),
    Select(u32, Ty, Ty, O, O, O),
    Call(Option<u32>, Ty, O, Vec<(Ty, O)>, bool),
    ExtVal(u32, O, Vec<u64>),
    InsVal(u32, O, O, Vec<u64>),
    ExtEl(u32, O, O),
    InsEl(u32, O, O, O),
    Shuffle(u32, O, O, Vec<u32>),
    Rmw(u32, String, u32, O, O),
    Cas(u32, u32, O, O, O),
    Mov(u32, O),
    Nop,
    Unsup(String),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(u32, O, u32, Vec<(Val, u32)>),
    Ret(Option<O>),
    Unreachable,
}

pub struct Block {
    pub name: String,
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
    pub code: Vec<I>,
}

pub struct Func {
    pub name: String,
    pub params: Vec<(u32, Ty)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct FnInfo {
    pub name: String,
    pub defined: bool,
    pub noreturn: bool,
    pub lines: (usize, usize),
    pub body: Option<Rc<Func>>,
}

pub struct Global {
    pub name: String,
    pub size: u64,
    pub data: Vec<u8>,
    pub constant: bool,
    pub external: bool,
}

pub struct Module {
    lines: Vec<&'static str>,
    pub fns: Vec<FnInfo>,
    pub globals: Vec<Global>,
    pub sym: HashMap<String, u64>, // name -> address
    types: HashMap<String, Ty>,
}

pub const BASE: u64 = 0x10000;
pub fn addr(obj: u64, off: u64) -> u64 {
    (obj << 32) | (BASE + off)
}

fn unq(s: &str) -> String {
    if s.starts_with('"') {
        s[1..s.len() - 1].to_string()
    } else {
        s.to_string()
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Tk {
    W(String),  // word / number / keyword
    L(String),  // %local
    G(String),  // @global
    S(Vec<u8>), // string
    P(char),
    M, // metadata-ish
    End,
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
    cur: Tk,
}

fn wordc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-' | b'+')
}

impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Self {
        let mut l = Lex { s: s.as_bytes(), i: 0, cur: Tk::End };
        l.next();
        l
    }
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i += 1;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && wordc(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).to_string()
        }
    }
    fn string(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                if let Ok(b) = u8::from_str_radix(h, 16) {
                    v.push(b);
                    self.i += 3;
                } else {
                    v.push(b'\\');
                    self.i += 2;
                }
            } else {
                v.push(self.s[self.i]);
                self.i += 1;
            }
        }
        self.i += 1;
        v
    }
    fn next(&mut self) -> Tk {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t') {
            self.i += 1;
        }
        let t = if self.i >= self.s.len() {
            Tk::End
        } else {
            let c = self.s[self.i];
            match c {
                b';' => {
                    self.i = self.s.len();
                    Tk::End
                }
                b'%' => {
                    self.i += 1;
                    Tk::L(self.name())
                }
                b'@' => {
                    self.i += 1;
                    Tk::G(self.name())
                }
                b'!' => {
                    self.i += 1;
                    while self.i < self.s.len() && wordc(self.s[self.i]) {
                        self.i += 1;
                    }
                    Tk::M
                }
                b'"' => Tk::S(self.string()),
                b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                    self.i += 1;
                    Tk::S(self.string())
                }
                c if wordc(c) => Tk::W(self.name()),
                c => {
                    self.i += 1;
                    Tk::P(c as char)
                }
            }
        };
        std::mem::replace(&mut self.cur, t)
    }
    fn is(&self, c: char) -> bool {
        self.cur == Tk::P(c)
    }
    fn isw(&self, s: &str) -> bool {
        matches!(&self.cur, Tk::W(x) if x == s)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, s: &str) -> bool {
        if self.isw(s) {
            self.next();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {c} got {:?} in {}", self.cur, String::from_utf8_lossy(self.s)))
        }
    }
    fn word(&mut self) -> Result<String, String> {
        match self.next() {
            Tk::W(s) => Ok(s),
            t => Err(format!("expected word got {t:?} in {}", String::from_utf8_lossy(self.s))),
        }
    }
    fn skip_balanced(&mut self) {
        // at an opening paren
        let mut d = 0;
        loop {
            match self.next() {
                Tk::P('(') => d += 1,
                Tk::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tk::End => return,
                _ => {}
            }
        }
    }
}

fn parse_big(w: u32, s: &str) -> Bv {
    let (neg, d) = match s.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, s),
    };
    let ten = Bv::new(w.max(8), 10);
    let mut r = Bv::zero(w.max(8));
    for c in d.bytes() {
        r = r.mul(&ten).add(&Bv::new(w.max(8), (c - b'0') as u64));
    }
    if neg {
        r = r.neg();
    }
    r.extract(0, w)
}

/// constants, before flattening
enum Cn {
    V(Val),
}

pub fn zero_val(t: &Ty) -> Val {
    match t {
        Ty::Arr(n, e) => Val::A((0..*n).map(|_| zero_val(e)).collect()),
        Ty::Vec(n, e) => Val::A((0..*n).map(|_| zero_val(e)).collect()),
        Ty::St(f, _) => Val::A(f.iter().map(zero_val).collect()),
        t => {
            let b = if *t == Ty::Void { 1 } else { t.bits() };
            if b <= 64 {
                Val::C(0)
            } else {
                Val::T(term::cst(Bv::zero(b)))
            }
        }
    }
}

impl Module {
    pub fn parse(text: &'static str) -> Result<Module, String> {
        let lines: Vec<&'static str> = text.lines().collect();
        let mut m = Module { lines, fns: vec![], globals: vec![], sym: HashMap::new(), types: HashMap::new() };
        let mut nr_attr: HashMap<String, bool> = HashMap::new();
        for l in &m.lines {
            if l.starts_with("attributes #") {
                let id = l["attributes ".len()..].split(' ').next().unwrap().to_string();
                nr_attr.insert(id, l.contains(" noreturn "));
            }
        }
        // pass 1: names
        let mut glines = vec![];
        let mut obj = 1u64;
        let n = m.lines.len();
        let mut i = 0;
        while i < n {
            let l = m.lines[i];
            if l.starts_with('@') {
                let mut lx = Lex::new(l);
                if let Tk::G(name) = lx.next() {
                    m.sym.insert(name.clone(), addr(obj, 0));
                    m.globals.push(Global { name, size: 0, data: vec![], constant: false, external: false });
                    glines.push(i);
                    obj += 1;
                }
            } else if l.starts_with('%') {
                // named types are declared but rustc no longer uses them
            }
            i += 1;
        }
        i = 0;
        while i < n {
            let l = m.lines[i];
            let def = l.starts_with("define ");
            if def || l.starts_with("declare ") {
                let mut lx = Lex::new(l);
                let name = loop {
                    match lx.next() {
                        Tk::G(nm) => break nm,
                        Tk::End => return Err(format!("bad function line {l}")),
                        _ => {}
                    }
                };
                // attributes after the closing paren
                let mut noreturn = false;
                for wd in l.split(' ') {
                    if wd.starts_with('#') {
                        noreturn |= *nr_attr.get(wd).unwrap_or(&false);
                    }
                    if wd == "noreturn" {
                        noreturn = true;
                    }
                }
                let st = i;
                if def {
                    while m.lines[i] != "}" {
                        i += 1;
                    }
                }
                m.sym.insert(name.clone(), addr(obj, 0));
                m.fns.push(FnInfo { name, defined: def, noreturn, lines: (st, i), body: None });
                obj += 1;
            }
            i += 1;
        }
        for (k, li) in glines.iter().enumerate() {
            let g = m.global(m.lines[*li]).map_err(|e| format!("{e} in {}", &m.lines[*li][..m.lines[*li].len().min(200)]))?;
            m.globals[k] = g;
        }
        Ok(m)
    }
    pub fn fn_at(&self, a: u64) -> Option<usize> {
        let o = (a >> 32) as usize;
        let g = self.globals.len();
        if a & 0xffff_ffff == BASE && o > g && o - g - 1 < self.fns.len() {
            Some(o - g - 1)
        } else {
            None
        }
    }
    pub fn first_free(&self) -> u64 {
        (self.globals.len() + self.fns.len() + 1) as u64
    }
    fn global(&self, l: &str) -> Result<Global, String> {
        let mut lx = Lex::new(l);
        let name = match lx.next() {
            Tk::G(n) => n,
            _ => return Err("global name".into()),
        };
        lx.exp('=')?;
        let mut external = false;
        let constant;
        loop {
            match lx.next() {
                Tk::W(w) => {
                    if w == "external" || w == "extern_weak" {
                        external = true;
                    }
                    if w == "global" {
                        constant = false;
                        break;
                    }
                    if w == "constant" {
                        constant = true;
                        break;
                    }
                    if w == "alias" {
                        return Err("alias".into());
                    }
                    if lx.is('(') {
                        lx.skip_balanced();
                    }
                }
                t => return Err(format!("global prefix {t:?}")),
            }
        }
        let ty = self.ty(&mut lx)?;
        let size = ty.size();
        let mut data = vec![0u8; size as usize];
        if !external {
            let v = self.cnst(&mut lx, &ty)?;
            flatten(&ty, &v, &mut data, 0)?;
        }
        Ok(Global { name, size, data, constant, external })
    }
    fn ty(&self, lx: &mut Lex) -> Result<Ty, String> {
        match lx.next() {
            Tk::W(s) => {
                if s == "void" {
                    return Ok(Ty::Void);
                }
                if s == "ptr" {
                    return Ok(Ty::Ptr);
                }
                if s == "float" {
                    return Ok(Ty::Fp(32));
                }
                if s == "double" {
                    return Ok(Ty::Fp(64));
                }
                if s == "half" {
                    return Ok(Ty::Fp(16));
                }
                if s == "metadata" || s == "label" {
                    return Ok(Ty::Void);
                }
                if let Some(d) = s.strip_prefix('i') {
                    if let Ok(w) = d.parse() {
                        return Ok(Ty::Int(w));
                    }
                }
                Err(format!("type {s}"))
            }
            Tk::P('[') => {
                let n: u64 = lx.word()?.parse().map_err(|_| "arr n")?;
                lx.word()?;
                let t = self.ty(lx)?;
                lx.exp(']')?;
                Ok(Ty::Arr(n, Rc::new(t)))
            }
            Tk::P('{') => {
                let mut v = vec![];
                while !lx.eat('}') {
                    v.push(self.ty(lx)?);
                    lx.eat(',');
                }
                Ok(Ty::St(v.into(), false))
            }
            Tk::P('<') => {
                if lx.eat('{') {
                    let mut v = vec![];
                    while !lx.eat('}') {
                        v.push(self.ty(lx)?);
                        lx.eat(',');
                    }
                    lx.exp('>')?;
                    Ok(Ty::St(v.into(), true))
                } else {
                    let n: u32 = lx.word()?.parse().map_err(|_| "vec n")?;
                    lx.word()?;
                    let t = self.ty(lx)?;
                    lx.exp('>')?;
                    Ok(Ty::Vec(n, Rc::new(t)))
                }
            }
            Tk::L(n) => self.types.get(&n).cloned().ok_or(format!("named type {n}")),
            t => Err(format!("type token {t:?}")),
        }
    }
    fn gaddr(&self, n: &str) -> Result<u64, String> {
        self.sym.get(n).copied().ok_or(format!("unknown symbol @{n}"))
    }
    /// constant of a given type (no registers)
    fn cnst(&self, lx: &mut Lex, ty: &Ty) -> Result<Val, String> {
        match lx.next() {
            Tk::G(n) => Ok(Val::C(self.gaddr(&n)?)),
            Tk::S(b) => Ok(Val::A(b.iter().map(|x| Val::C(*x as u64)).collect())),
            Tk::W(s) => match s.as_str() {
                "true" => Ok(Val::C(1)),
                "false" => Ok(Val::C(0)),
                "null" => Ok(Val::C(0)),
                "undef" | "poison" | "zeroinitializer" | "none" => Ok(zero_val(ty)),
                "splat" => {
                    lx.exp('(')?;
                    let et = self.ty(lx)?;
                    let v = self.cnst(lx, &et)?;
                    lx.exp(')')?;
                    Ok(Val::A((0..ty.count()).map(|_| v.clone()).collect()))
                }
                "inttoptr" | "ptrtoint" | "trunc" | "zext" | "bitcast" | "addrspacecast" => {
                    lx.exp('(')?;
                    let ft = self.ty(lx)?;
                    let v = self.cnst(lx, &ft)?;
                    lx.word()?; // to
                    let tt = self.ty(lx)?;
                    lx.exp(')')?;
                    match v {
                        Val::C(x) => Ok(Val::C(x & mask64(tt.bits()))),
                        _ => Err("const cast".into()),
                    }
                }
                "sub" | "add" | "xor" | "mul" => {
                    while !lx.is('(') {
                        lx.next();
                    }
                    lx.exp('(')?;
                    let t1 = self.ty(lx)?;
                    let a = self.cnst(lx, &t1)?;
                    lx.exp(',')?;
                    let t2 = self.ty(lx)?;
                    let b = self.cnst(lx, &t2)?;
                    lx.exp(')')?;
                    match (a, b) {
                        (Val::C(a), Val::C(b)) => Ok(Val::C(
                            match s.as_str() {
                                "sub" => a.wrapping_sub(b),
                                "add" => a.wrapping_add(b),
                                "mul" => a.wrapping_mul(b),
                                _ => a ^ b,
                            } & mask64(t1.bits()),
                        )),
                        _ => Err("const op".into()),
                    }
                }
                "getelementptr" => {
                    while !lx.is('(') {
                        if let Tk::W(_) = lx.next() {}
                        // inrange(...)
                        if lx.is('(') {
                            // could be inrange( or the operand list; operand list starts with a type
                            let save = (lx.i, lx.cur.clone());
                            lx.next();
                            let is_range = matches!(&lx.cur, Tk::W(w) if w.starts_with('-') || w.chars().all(|c| c.is_ascii_digit()));
                            if is_range {
                                while !lx.eat(')') {
                                    lx.next();
                                }
                                continue;
                            }
                            lx.i = save.0;
                            lx.cur = save.1;
                        }
                    }
                    lx.exp('(')?;
                    let et = self.ty(lx)?;
                    lx.exp(',')?;
                    let bt = self.ty(lx)?;
                    let b = self.cnst(lx, &bt)?;
                    let mut off = 0i64;
                    let mut cur = et;
                    let mut first = true;
                    while lx.eat(',') {
                        while lx.eatw("inrange") {}
                        let it = self.ty(lx)?;
                        let iv = match self.cnst(lx, &it)? {
                            Val::C(x) => sx(x, it.bits()),
                            _ => return Err("gep idx".into()),
                        };
                        if first {
                            off += cur.size() as i64 * iv;
                            first = false;
                        } else {
                            let (o, t) = match &cur {
                                Ty::Arr(_, t) => (t.size() as i64 * iv, (**t).clone()),
                                _ => {
                                    let (o, t) = cur.field(iv as u64);
                                    (o as i64, t)
                                }
                            };
                            off += o;
                            cur = t;
                        }
                    }
                    lx.exp(')')?;
                    match b {
                        Val::C(x) => Ok(Val::C(x.wrapping_add(off as u64))),
                        _ => Err("gep base".into()),
                    }
                }
                num => {
                    if let Ty::Fp(w) = ty {
                        if let Some(h) = num.strip_prefix("0x") {
                            return Ok(Val::C(u64::from_str_radix(h, 16).map_err(|_| "fp")?));
                        }
                        let f: f64 = num.parse().map_err(|_| format!("fp {num}"))?;
                        return Ok(Val::C(if *w == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() }));
                    }
                    let w = match ty {
                        Ty::Int(w) => *w,
                        _ => return Err(format!("const {num} of type {ty:?}")),
                    };
                    if !num.trim_start_matches('-').chars().all(|c| c.is_ascii_digit()) {
                        return Err(format!("const {num}"));
                    }
                    if w <= 64 {
                        let v = if let Ok(x) = num.parse::<i64>() {
                            x as u64
                        } else {
                            num.parse::<u64>().map_err(|_| format!("num {num}"))?
                        };
                        Ok(Val::C(v & mask64(w)))
                    } else {
                        Ok(Val::T(term::cst(parse_big(w, num))))
                    }
                }
            },
            Tk::P(c @ ('[' | '{' | '<')) => {
                let mut close = match c {
                    '[' => ']',
                    '{' => '}',
                    _ => '>',
                };
                let mut packed = false;
                if c == '<' && lx.is('{') {
                    lx.next();
                    packed = true;
                    close = '}';
                }
                let mut v = vec![];
                while !lx.eat(close) {
                    let t = self.ty(lx)?;
                    v.push(self.cnst(lx, &t)?);
                    lx.eat(',');
                }
                if packed {
                    lx.exp('>')?;
                }
                Ok(Val::A(v.into()))
            }
            t => Err(format!("const token {t:?} of {ty:?}")),
        }
    }
}

pub fn sx(x: u64, w: u32) -> i64 {
    if w >= 64 {
        x as i64
    } else {
        ((x << (64 - w)) as i64) >> (64 - w)
    }
}

fn flatten(ty: &Ty, v: &Val, out: &mut [u8], at: u64) -> Result<(), String> {
    match (ty, v) {
        (_, Val::A(vs)) => {
            for (i, x) in vs.iter().enumerate() {
                let (o, t) = ty.field(i as u64);
                flatten(&t, x, out, at + o)?;
            }
            Ok(())
        }
        (_, Val::C(x)) => {
            let n = ty.size();
            for k in 0..n.min(8) {
                out[(at + k) as usize] = (x >> (8 * k)) as u8;
            }
            Ok(())
        }
        (_, Val::T(t)) => {
            let b = term::as_const(*t).ok_or("sym const")?;
            for k in 0..ty.size() {
                out[(at + k) as usize] = b.byte(k as usize);
            }
            Ok(())
        }
    }
}

struct FnP<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    blks: HashMap<String, u32>,
}

impl<'m> FnP<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn blk(&mut self, n: &str) -> Result<u32, String> {
        self.blks.get(n).copied().ok_or(format!("block {n}"))
    }
    fn op(&mut self, lx: &mut Lex, ty: &Ty) -> Result<O, String> {
        if let Tk::L(n) = lx.cur.clone() {
            lx.next();
            return Ok(O::R(self.reg(&n)));
        }
        Ok(O::V(self.m.cnst(lx, ty)?))
    }
    fn tyop(&mut self, lx: &mut Lex) -> Result<(Ty, O), String> {
        let t = self.m.ty(lx)?;
        let o = self.op(lx, &t)?;
        Ok((t, o))
    }
    fn attrs(&self, lx: &mut Lex) {
        loop {
            match &lx.cur {
                Tk::W(s) => {
                    let s = s.clone();
                    if matches!(
                        s.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "inttoptr" | "ptrtoint" | "getelementptr"
                            | "trunc" | "sub" | "add" | "splat" | "none"
                    ) || s.starts_with('-')
                        || s.as_bytes()[0].is_ascii_digit()
                    {
                        return;
                    }
                    lx.next();
                    if s == "align" {
                        if !lx.is('(') {
                            lx.next();
                        }
                    }
                    if lx.is('(') {
                        lx.skip_balanced();
                    }
                }
                _ => return,
            }
        }
    }
    fn label(&mut self, lx: &mut Lex) -> Result<u32, String> {
        lx.word()?;
        match lx.next() {
            Tk::L(n) => self.blk(&n),
            t => Err(format!("label {t:?}")),
        }
    }
    fn call(&mut self, lx: &mut Lex, d: Option<u32>) -> Result<I, String> {
        // after 'call'/'invoke'
        // calling conv / attrs until a type
        loop {
            match &lx.cur {
                Tk::W(s) => {
                    let s = s.clone();
                    let isty = s == "void" || s == "ptr" || s == "double" || s == "float"
                        || (s.starts_with('i') && s[1..].chars().all(|c| c.is_ascii_digit()) && s.len() > 1);
                    if isty {
                        break;
                    }
                    lx.next();
                    if s == "align" && !lx.is('(') {
                        lx.next();
                    }
                    if lx.is('(') {
                        lx.skip_balanced();
                    }
                }
                _ => break,
            }
        }
        let rt = self.m.ty(lx)?;
        if lx.is('(') {
            lx.skip_balanced(); // function type (varargs)
        }
        if lx.isw("asm") {
            return Ok(I::Unsup("inline asm".into()));
        }
        let callee = self.op(lx, &Ty::Ptr)?;
        lx.exp('(')?;
        let mut args = vec![];
        while !lx.eat(')') {
            if lx.isw("metadata") {
                lx.next();
                // skip metadata operand
                loop {
                    if lx.is(')') || lx.is(',') {
                        break;
                    }
                    if lx.is('(') {
                        lx.skip_balanced();
                    } else {
                        lx.next();
                    }
                }
                lx.eat(',');
                continue;
            }
            let t = self.m.ty(lx)?;
            self.attrs(lx);
            let o = self.op(lx, &t)?;
            args.push((t, o));
            lx.eat(',');
        }
        Ok(I::Call(d, rt, callee, args, false))
    }
    fn instr(&mut self, line: &str, out: &mut Vec<I>, phis: &mut Vec<(u32, Vec<(u32, O)>)>) -> Result<(), String> {
        let mut lx = Lex::new(line);
        let lx = &mut lx;
        let mut d = None;
        if let Tk::L(n) = lx.cur.clone() {
            lx.next();
            lx.exp('=')?;
            d = Some(self.reg(&n));
        }
        let mut opc = lx.word()?;
        while matches!(opc.as_str(), "tail" | "musttail" | "notail") {
            opc = lx.word()?;
        }
        let i = match opc.as_str() {
            "alloca" => {
                lx.eatw("inalloca");
                let t = self.m.ty(lx)?;
                let mut n = None;
                if lx.eat(',') {
                    if !lx.isw("align") {
                        let (nt, o) = self.tyop(lx)?;
                        n = Some((nt.bits(), o));
                    }
                }
                I::Alloca(d.unwrap(), t.size(), n)
            }
            "load" => {
                while lx.eatw("atomic") || lx.eatw("volatile") {}
                let t = self.m.ty(lx)?;
                lx.exp(',')?;
                let (_, p) = self.tyop(lx)?;
                I::Load(d.unwrap(), t, p)
            }
            "store" => {
                while lx.eatw("atomic") || lx.eatw("volatile") {}
                let (t, v) = self.tyop(lx)?;
                lx.exp(',')?;
                let (_, p) = self.tyop(lx)?;
                I::Store(t, v, p)
            }
            "getelementptr" => {
                while lx.eatw("inbounds") || lx.eatw("nuw") || lx.eatw("nusw") {}
                let mut cur = self.m.ty(lx)?;
                lx.exp(',')?;
                let (bt, b) = self.tyop(lx)?;
                if bt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut first = true;
                while lx.eat(',') {
                    if matches!(lx.cur, Tk::M) {
                        break;
                    }
                    let (it, o) = self.tyop(lx)?;
                    let (scale, nxt) = if first {
                        (cur.size() as i64, Some(cur.clone()))
                    } else {
                        match &cur {
                            Ty::Arr(_, t) => (t.size() as i64, Some((**t).clone())),
                            _ => (0, None),
                        }
                    };
                    match (&o, nxt) {
                        (O::V(Val::C(x)), Some(t)) => {
                            off += scale * sx(*x, it.bits());
                            if !first {
                                cur = t;
                            }
                        }
                        (O::V(Val::C(x)), None) => {
                            let (fo, t) = cur.field(*x);
                            off += fo as i64;
                            cur = t;
                        }
                        (_, Some(t)) => {
                            dynv.push((scale, it.bits(), o));
                            if !first {
                                cur = t;
                            }
                        }
                        _ => return Err("gep".into()),
                    }
                    first = false;
                }
                I::Gep(d.unwrap(), b, off, dynv)
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while lx.eatw("nuw") || lx.eatw("nsw") || lx.eatw("exact") || lx.eatw("disjoint") {}
                let (t, a) = self.tyop(lx)?;
                lx.exp(',')?;
                let b = self.op(lx, &t)?;
                use term::Op::*;
                let op = match opc.as_str() {
                    "add" => Add,
                    "sub" => Sub,
                    "mul" => Mul,
                    "udiv" => UDiv,
                    "sdiv" => SDiv,
                    "urem" => URem,
                    "srem" => SRem,
                    "shl" => Shl,
                    "lshr" => LShr,
                    "ashr" => AShr,
                    "and" => And,
                    "or" => Or,
                    _ => Xor,
                };
                I::Bin(d.unwrap(), op, t, a, b)
            }
            "icmp" => {
                lx.eatw("samesign");
                let p = lx.word()?;
                let (t, a) = self.tyop(lx)?;
                lx.exp(',')?;
                let b = self.op(lx, &t)?;
                let pr = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => return Err(format!("icmp {p}")),
                };
                I::Cmp(d.unwrap(), pr, t, a, b)
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" => {
                while lx.eatw("nneg") || lx.eatw("nuw") || lx.eatw("nsw") {}
                let (t, a) = self.tyop(lx)?;
                lx.word()?;
                let to = self.m.ty(lx)?;
                let k = match opc.as_str() {
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "trunc" => Cast::Trunc,
                    "ptrtoint" => Cast::P2I,
                    "inttoptr" => Cast::I2P,
                    _ => Cast::Bit,
                };
                I::Cast(d.unwrap(), k, t, to, a)
            }
            "select" => {
                let (ct, c) = self.tyop(lx)?;
                lx.exp(',')?;
                let (t, a) = self.tyop(lx)?;
                lx.exp(',')?;
                let (_, b) = self.tyop(lx)?;
                I::Select(d.unwrap(), ct, t, c, a, b)
            }
            "phi" => {
                let t = self.m.ty(lx)?;
                let mut v = vec![];
                while lx.eat('[') {
                    let o = self.op(lx, &t)?;
                    lx.exp(',')?;
                    let b = match lx.next() {
                        Tk::L(n) => self.blk(&n)?,
                        t => return Err(format!("phi {t:?}")),
                    };
                    lx.exp(']')?;
                    v.push((b, o));
                    lx.eat(',');
                }
                phis.push((d.unwrap(), v));
                return Ok(());
            }
            "call" => self.call(lx, d)?,
            "invoke" => {
                let c = self.call(lx, d)?;
                out.push(c);
                while !lx.isw("to") {
                    if lx.cur == Tk::End {
                        return Err("invoke to".into());
                    }
                    lx.next();
                }
                lx.next();
                I::Br(self.label(lx)?)
            }
            "extractvalue" => {
                let (_, a) = self.tyop(lx)?;
                let mut idx = vec![];
                while lx.eat(',') {
                    if let Tk::W(s) = lx.cur.clone() {
                        lx.next();
                        idx.push(s.parse().map_err(|_| "ev")?);
                    } else {
                        break;
                    }
                }
                I::ExtVal(d.unwrap(), a, idx)
            }
            "insertvalue" => {
                let (_, a) = self.tyop(lx)?;
                lx.exp(',')?;
                let (_, v) = self.tyop(lx)?;
                let mut idx = vec![];
                while lx.eat(',') {
                    if let Tk::W(s) = lx.cur.clone() {
                        lx.next();
                        idx.push(s.parse().map_err(|_| "iv")?);
                    } else {
                        break;
                    }
                }
                I::InsVal(d.unwrap(), a, v, idx)
            }
            "extractelement" => {
                let (_, a) = self.tyop(lx)?;
                lx.exp(',')?;
                let (_, i) = self.tyop(lx)?;
                I::ExtEl(d.unwrap(), a, i)
            }
            "insertelement" => {
                let (_, a) = self.tyop(lx)?;
                lx.exp(',')?;
                let (_, v) = self.tyop(lx)?;
                lx.exp(',')?;
                let (_, i) = self.tyop(lx)?;
                I::InsEl(d.unwrap(), a, v, i)
            }
            "shufflevector" => {
                let (_, a) = self.tyop(lx)?;
                lx.exp(',')?;
                let (_, b) = self.tyop(lx)?;
                lx.exp(',')?;
                let (_, mk) = self.tyop(lx)?;
                let mk = match mk {
                    O::V(Val::A(v)) => v.iter().map(|x| if let Val::C(c) = x { *c as u32 } else { 0 }).collect(),
                    _ => return Err("shuffle mask".into()),
                };
                I::Shuffle(d.unwrap(), a, b, mk)
            }
            "atomicrmw" => {
                lx.eatw("volatile");
                let op = lx.word()?;
                let (_, p) = self.tyop(lx)?;
                lx.exp(',')?;
                let (t, v) = self.tyop(lx)?;
                I::Rmw(d.unwrap(), op, t.bits(), p, v)
            }
            "cmpxchg" => {
                while lx.eatw("weak") || lx.eatw("volatile") {}
                let (_, p) = self.tyop(lx)?;
                lx.exp(',')?;
                let (t, e) = self.tyop(lx)?;
                lx.exp(',')?;
                let (_, n) = self.tyop(lx)?;
                I::Cas(d.unwrap(), t.bits(), p, e, n)
            }
            "fence" => I::Nop,
            "freeze" => {
                let (_, a) = self.tyop(lx)?;
                I::Mov(d.unwrap(), a)
            }
            "br" => {
                if lx.isw("label") {
                    I::Br(self.label(lx)?)
                } else {
                    let (_, c) = self.tyop(lx)?;
                    lx.exp(',')?;
                    let a = self.label(lx)?;
                    lx.exp(',')?;
                    let b = self.label(lx)?;
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyop(lx)?;
                lx.exp(',')?;
                let dflt = self.label(lx)?;
                lx.exp('[')?;
                let mut cases = vec![];
                while !lx.eat(']') {
                    let ct = self.m.ty(lx)?;
                    let c = self.m.cnst(lx, &ct)?;
                    lx.exp(',')?;
                    let b = self.label(lx)?;
                    cases.push((c, b));
                }
                I::Switch(t.bits(), v, dflt, cases)
            }
            "ret" => {
                if lx.isw("void") {
                    I::Ret(None)
                } else {
                    let (_, v) = self.tyop(lx)?;
                    I::Ret(Some(v))
                }
            }
            "unreachable" => I::Unreachable,
            "landingpad" | "resume" => I::Unsup(opc.clone()),
            _ => I::Unsup(line.to_string()),
        };
        out.push(i);
        Ok(())
    }
}

impl Module {
    pub fn func(&mut self, id: usize) -> Result<Rc<Func>, String> {
        if let Some(f) = &self.fns[id].body {
            return Ok(f.clone());
        }
        let (a, b) = self.fns[id].lines;
        let name = self.fns[id].name.clone();
        let f = {
            let mut p = FnP { m: self, regs: HashMap::new(), blks: HashMap::new() };
            // header params
            let hdr = p.m.lines[a];
            let mut lx = Lex::new(hdr);
            loop {
                match lx.next() {
                    Tk::G(_) => break,
                    Tk::End => return Err("hdr".into()),
                    _ => {}
                }
            }
            lx.exp('(')?;
            let mut params = vec![];
            let mut unnamed = 0;
            while !lx.eat(')') {
                if lx.is('.') || lx.isw("...") {
                    lx.next();
                    continue;
                }
                let t = p.m.ty(&mut lx)?;
                p.attrs(&mut lx);
                if let Tk::L(n) = lx.next() {
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    let r = p.reg(&n);
                    params.push((r, t));
                } else {
                    return Err(format!("param in {hdr}"));
                }
                lx.eat(',');
            }
            // collect logical lines per block
            let mut blocks: Vec<(String, Vec<String>)> = vec![];
            let mut i = a + 1;
            while i < b {
                let l = p.m.lines[i];
                if l.is_empty() {
                    i += 1;
                    continue;
                }
                if !l.starts_with(' ') {
                    // label
                    let nm = l.split(':').next().unwrap();
                    let nm = if l.starts_with('"') { unq(&l[..l[1..].find('"').unwrap() + 2]) } else { nm.to_string() };
                    blocks.push((nm, vec![]));
                    i += 1;
                    continue;
                }
                let tl = l.trim_start();
                let mut s = tl.to_string();
                if tl.starts_with("switch ") && !strip_md(tl).contains(']') {
                    i += 1;
                    loop {
                        let x = p.m.lines[i].trim();
                        s.push(' ');
                        s.push_str(x);
                        if x.starts_with(']') {
                            break;
                        }
                        i += 1;
                    }
                } else if tl.starts_with("invoke ") || tl.contains("= invoke ") {
                    i += 1;
                    s.push(' ');
                    s.push_str(p.m.lines[i].trim());
                } else if tl.contains("= landingpad") {
                    while matches!(p.m.lines[i + 1].trim_start().split(' ').next(), Some("cleanup" | "filter" | "catch")) {
                        i += 1;
                    }
                } else if tl.starts_with("#dbg_") {
                    i += 1;
                    continue;
                }
                if blocks.is_empty() {
                    // unnamed entry block: numbered after the unnamed parameters
                    blocks.push((unnamed.to_string(), vec![]));
                }
                blocks.last_mut().unwrap().1.push(s);
                i += 1;
            }
            for (k, bl) in blocks.iter().enumerate() {
                p.blks.insert(bl.0.clone(), k as u32);
            }
            let mut out = vec![];
            for (nm, ls) in &blocks {
                let mut phis = vec![];
                let mut code = vec![];
                for l in ls {
                    p.instr(l, &mut code, &mut phis).map_err(|e| format!("{e} @ {name}: {l}"))?;
                }
                out.push(Block { name: nm.clone(), phis, code });
            }
            Func { name: name.clone(), params, nregs: p.regs.len() as u32, blocks: out }
        };
        let f = Rc::new(f);
        self.fns[id].body = Some(f.clone());
        Ok(f)
    }
}

fn strip_md(s: &str) -> &str {
    s.split(", !").next().unwrap()
}

#[allow(dead_code)]
fn unused(_: Cn) {}
