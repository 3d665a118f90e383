//! Parser for textual LLVM IR (the subset rustc emits), producing a compact executable form.
//! Globals and functions get concrete addresses while parsing so that every constant operand is a
//! plain number.

use std::collections::HashMap;
use std::sync::Arc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, TyId),
    Vec(u32, TyId),
    Struct(bool, Vec<TyId>),
    Label,
    Meta,
    Opaque,
}

/// Address layout: object id in the high 32 bits; the base of an object is OBJ_OFF within its slot.
pub const OBJ_OFF: u64 = 0x1000_0000;
pub const FN_BASE: u64 = 0x0fff_0000_0000_0000;

pub fn obj_addr(id: u32) -> u64 {
    ((id as u64) << 32) + OBJ_OFF
}

#[derive(Clone, Debug)]
pub enum C {
    I(u128),
    Undef,
    Agg(Vec<C>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    K(u128),
    Undef,
    Agg(Arc<Vec<C>>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bitcast,
    PtrInt,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ind(Opd),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub ret: TyId,
    pub callee: Callee,
    pub args: Vec<(TyId, Opd)>,
    pub normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, TyId, u32, Opd, Opd),
    Icmp(Pred, TyId, u32, Opd, Opd),
    Cast(CastOp, TyId, TyId, u32, Opd),
    Select(TyId, u32, Opd, Opd, Opd, bool),
    Load(TyId, u32, Opd),
    Store(TyId, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u32, u64)>),
    Alloca(u32, u64, Opd),
    Call(Box<CallI>),
    Extract(TyId, u32, Opd, Vec<u32>),
    Insert(u32, TyId, Opd, Opd, Vec<u32>),
    ExtElem(u32, TyId, Opd, Opd),
    InsElem(u32, TyId, Opd, Opd, Opd),
    Shuffle(u32, TyId, Opd, Opd, Vec<u32>),
    Rmw(&'static str, TyId, u32, Opd, Opd),
    Cmpxchg(TyId, u32, Opd, Opd, Opd),
    Freeze(TyId, u32, Opd),
    Nop,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(TyId, Opd)>),
    Unreachable,
    /// floating point, on concrete values: operation or predicate, operand type, result type
    Fp(String, TyId, TyId, u32, Vec<Opd>),
    Unsupported(String),
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    /// destination register, incoming (pred block, value)
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Clone, Debug, Default)]
pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub declared_only: bool,
}

#[derive(Clone, Debug)]
pub struct Global {
    pub name: String,
    pub size: u64,
    pub constant: bool,
    pub id: u32,
    /// cells: 0..=255 value, 256 uninit
    pub init: Arc<Vec<u32>>,
}

pub struct Module {
    pub types: Vec<Ty>,
    pub sizes: Vec<u64>,
    pub aligns: Vec<u64>,
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    pub func_ids: HashMap<String, u32>,
    pub global_ids: HashMap<String, u32>,
    /// first object id free for run-time objects
    pub next_obj: u32,
    pub insts: u64,
}

impl Module {
    pub fn ty(&self, t: TyId) -> &Ty {
        &self.types[t as usize]
    }
    pub fn size(&self, t: TyId) -> u64 {
        self.sizes[t as usize]
    }
    pub fn bits(&self, t: TyId) -> u32 {
        match self.types[t as usize] {
            Ty::Int(n) => n,
            Ty::Ptr => 64,
            Ty::Float(n) => n,
            _ => 0,
        }
    }
    pub fn field_off(&self, packed: bool, fs: &[TyId], i: usize) -> u64 {
        let mut off = 0u64;
        for (k, &f) in fs.iter().enumerate() {
            if !packed {
                let a = self.aligns[f as usize].max(1);
                off = (off + a - 1) / a * a;
            }
            if k == i {
                return off;
            }
            off += self.sizes[f as usize];
        }
        off
    }
}

// ---------------------------------------------------------------- lexer

#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    Int(i128),
    UInt(u128),
    Local(String),
    Global(String),
    Label(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Meta(String),
    Attr,
    P(u8),
    Dots,
    Eof,
}

struct Lexer<'a> {
    s: &'a [u8],
    i: usize,
}

fn isid(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lexer<'a> {
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut out = Vec::new();
        while self.s[self.i] != b'"' {
            let c = self.s[self.i];
            if c == b'\\' {
                let n = self.s[self.i + 1];
                if n == b'\\' {
                    out.push(b'\\');
                    self.i += 2;
                } else {
                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                    out.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                }
            } else {
                out.push(c);
                self.i += 1;
            }
        }
        self.i += 1;
        out
    }
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            String::from_utf8_lossy(&self.quoted()).into_owned()
        } else {
            let st = self.i;
            while self.i < self.s.len() && isid(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn next(&mut self) -> T {
        loop {
            if self.i >= self.s.len() {
                return T::Eof;
            }
            let c = self.s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.i += 1;
            } else if c == b';' {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else {
                break;
            }
        }
        let c = self.s[self.i];
        match c {
            b'%' => {
                self.i += 1;
                T::Local(self.name())
            }
            b'@' => {
                self.i += 1;
                T::Global(self.name())
            }
            b'!' => {
                self.i += 1;
                if self.i < self.s.len() && (isid(self.s[self.i])) {
                    T::Meta(self.name())
                } else {
                    T::Meta(String::new())
                }
            }
            b'#' => {
                self.i += 1;
                let _ = self.name();
                T::Attr
            }
            b'"' => {
                let s = self.quoted();
                if self.i < self.s.len() && self.s[self.i] == b':' {
                    self.i += 1;
                    T::Label(String::from_utf8_lossy(&s).into_owned())
                } else {
                    T::Str(s)
                }
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 1;
                T::CStr(self.quoted())
            }
            b'.' if self.s[self.i..].starts_with(b"...") => {
                self.i += 3;
                T::Dots
            }
            _ if isid(c) => {
                let st = self.i;
                let mut n = self.name();
                if (c.is_ascii_digit() || c == b'-') && n.ends_with('e') && n.contains('.') && self.s.get(self.i) == Some(&b'+') {
                    self.i += 1;
                    n = n + "+" + &self.name();
                }
                if self.i < self.s.len() && self.s[self.i] == b':' {
                    self.i += 1;
                    return T::Label(n);
                }
                if c.is_ascii_digit() || (c == b'-' && self.i > st + 1) {
                    if let Ok(v) = n.parse::<i128>() {
                        return T::Int(v);
                    }
                    if let Ok(v) = n.parse::<u128>() {
                        return T::UInt(v);
                    }
                }
                T::Id(n)
            }
            _ => {
                self.i += 1;
                T::P(c)
            }
        }
    }
}

// ---------------------------------------------------------------- parser

pub struct Parser {
    toks: Vec<T>,
    p: usize,
    types: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    sizes: Vec<u64>,
    aligns: Vec<u64>,
    func_ids: HashMap<String, u32>,
    gaddr: HashMap<String, u64>,
}

type R<X> = Result<X, String>;

struct FnCtx {
    regs: HashMap<String, u32>,
    nregs: u32,
    labels: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        let l = self.labels.len() as u32;
        *self.labels.entry(n.to_string()).or_insert(l)
    }
}

impl Parser {
    fn peek(&self) -> &T {
        &self.toks[self.p]
    }
    fn peek2(&self) -> &T {
        self.toks.get(self.p + 1).unwrap_or(&T::Eof)
    }
    fn bump(&mut self) -> T {
        let t = self.toks[self.p].clone();
        if self.p + 1 < self.toks.len() {
            self.p += 1;
        }
        t
    }
    fn isp(&self, c: u8) -> bool {
        matches!(self.peek(), T::P(x) if *x == c)
    }
    fn isid(&self, s: &str) -> bool {
        matches!(self.peek(), T::Id(x) if x == s)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.isp(c) {
            self.bump();
            true
        } else {
            false
        }
    }
    fn eatid(&mut self, s: &str) -> bool {
        if self.isid(s) {
            self.bump();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected '{}' got {:?} near {:?}", c as char, self.peek(), self.ctx()))
        }
    }
    fn ctx(&self) -> Vec<T> {
        let a = self.p.saturating_sub(12);
        self.toks[a..(self.p + 6).min(self.toks.len())].to_vec()
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.bump() {
                T::P(b'(') | T::P(b'[') | T::P(b'{') => d += 1,
                T::P(b')') | T::P(b']') | T::P(b'}') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::Eof => return,
                _ => {}
            }
        }
    }

    fn intern(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let (s, a) = match &t {
            Ty::Int(n) => {
                let b = ((n + 7) / 8) as u64;
                let a = b.next_power_of_two().min(16).max(1);
                ((b + a - 1) / a * a, a)
            }
            Ty::Float(n) => ((*n / 8) as u64, (*n / 8) as u64),
            Ty::Ptr => (8, 8),
            Ty::Array(n, e) => (n * self.sizes[*e as usize], self.aligns[*e as usize]),
            Ty::Vec(n, e) => {
                let eb = match self.types[*e as usize] {
                    Ty::Int(b) => b as u64,
                    Ty::Ptr => 64,
                    _ => self.sizes[*e as usize] * 8,
                };
                let b = ((*n as u64) * eb + 7) / 8;
                let a = b.next_power_of_two().max(1);
                (b, a)
            }
            Ty::Struct(packed, fs) => {
                let mut off = 0u64;
                let mut al = 1u64;
                for f in fs {
                    let a = if *packed { 1 } else { self.aligns[*f as usize].max(1) };
                    al = al.max(a);
                    off = (off + a - 1) / a * a;
                    off += self.sizes[*f as usize];
                }
                ((off + al - 1) / al * al, al)
            }
            _ => (0, 1),
        };
        let id = self.types.len() as TyId;
        self.types.push(t.clone());
        self.sizes.push(s);
        self.aligns.push(a);
        self.tymap.insert(t, id);
        id
    }

    fn is_type_start(&self) -> bool {
        match self.peek() {
            T::Id(s) => {
                matches!(s.as_str(), "void" | "ptr" | "label" | "metadata" | "half" | "float" | "double" | "fp128" | "x86_fp80" | "opaque" | "token")
                    || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            T::P(c) => matches!(c, b'{' | b'[' | b'<'),
            T::Local(_) => true,
            _ => false,
        }
    }

    fn ty(&mut self) -> R<TyId> {
        let t = match self.bump() {
            T::Id(s) => match s.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.isid("addrspace") {
                        self.bump();
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "half" => Ty::Float(16),
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "fp128" => Ty::Float(128),
                "x86_fp80" => Ty::Float(128),
                "opaque" | "token" => Ty::Opaque,
                _ if s.starts_with('i') => Ty::Int(s[1..].parse().map_err(|_| format!("type {}", s))?),
                _ => return Err(format!("type? {} near {:?}", s, self.ctx())),
            },
            T::Local(n) => {
                return self.named.get(&n).copied().ok_or(format!("named type {}", n));
            }
            T::P(b'{') => {
                let fs = self.tylist(b'}')?;
                Ty::Struct(false, fs)
            }
            T::P(b'[') => {
                let n = self.uint()?;
                if !self.eatid("x") {
                    return Err("array x".into());
                }
                let e = self.ty()?;
                self.expect(b']')?;
                Ty::Array(n as u64, e)
            }
            T::P(b'<') => {
                if self.eat(b'{') {
                    let fs = self.tylist(b'}')?;
                    self.expect(b'>')?;
                    Ty::Struct(true, fs)
                } else {
                    let n = self.uint()?;
                    if !self.eatid("x") {
                        return Err("vec x".into());
                    }
                    let e = self.ty()?;
                    self.expect(b'>')?;
                    Ty::Vec(n as u32, e)
                }
            }
            t => return Err(format!("type? {:?} near {:?}", t, self.ctx())),
        };
        Ok(self.intern(t))
    }
    fn tylist(&mut self, end: u8) -> R<Vec<TyId>> {
        let mut v = Vec::new();
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat(end) {
                return Ok(v);
            }
            self.expect(b',')?;
        }
    }
    fn uint(&mut self) -> R<u128> {
        match self.bump() {
            T::Int(v) => Ok(v as u128),
            T::UInt(v) => Ok(v),
            t => Err(format!("int? {:?} near {:?}", t, self.ctx())),
        }
    }

    fn bits(&self, t: TyId) -> u32 {
        match self.types[t as usize] {
            Ty::Int(n) => n,
            Ty::Ptr => 64,
            Ty::Float(n) => n,
            _ => 128,
        }
    }

    fn mask(&self, t: TyId, v: u128) -> u128 {
        let b = self.bits(t);
        if b >= 128 {
            v
        } else {
            v & ((1u128 << b) - 1)
        }
    }

    fn zero(&self, t: TyId) -> C {
        match &self.types[t as usize] {
            Ty::Array(n, e) => C::Agg((0..*n).map(|_| self.zero(*e)).collect()),
            Ty::Vec(n, e) => C::Agg((0..*n).map(|_| self.zero(*e)).collect()),
            Ty::Struct(_, fs) => C::Agg(fs.iter().map(|f| self.zero(*f)).collect()),
            _ => C::I(0),
        }
    }
    fn undef(&self, t: TyId) -> C {
        match &self.types[t as usize] {
            Ty::Array(n, e) => C::Agg((0..*n).map(|_| self.undef(*e)).collect()),
            Ty::Vec(n, e) => C::Agg((0..*n).map(|_| self.undef(*e)).collect()),
            Ty::Struct(_, fs) => C::Agg(fs.iter().map(|f| self.undef(*f)).collect()),
            _ => C::Undef,
        }
    }

    fn addr_of(&self, n: &str) -> R<u64> {
        if let Some(&a) = self.gaddr.get(n) {
            return Ok(a);
        }
        if let Some(&f) = self.func_ids.get(n) {
            return Ok(FN_BASE + 16 * f as u64);
        }
        Err(format!("unknown global @{}", n))
    }

    /// Constant of type `t` at the cursor.
    fn konst(&mut self, t: TyId) -> R<C> {
        match self.bump() {
            T::Int(v) => Ok(C::I(self.mask(t, v as u128))),
            T::UInt(v) => Ok(C::I(self.mask(t, v))),
            T::Global(n) => Ok(C::I(self.addr_of(&n)? as u128)),
            T::CStr(s) => Ok(C::Agg(s.into_iter().map(|b| C::I(b as u128)).collect())),
            T::P(b'{') => self.konst_list(b'}'),
            T::P(b'[') => self.konst_list(b']'),
            T::P(b'<') => {
                if self.eat(b'{') {
                    let r = self.konst_list(b'}')?;
                    self.expect(b'>')?;
                    Ok(r)
                } else {
                    self.konst_list(b'>')
                }
            }
            T::Id(s) => match s.as_str() {
                "true" => Ok(C::I(1)),
                "false" => Ok(C::I(0)),
                "null" | "none" => Ok(C::I(0)),
                "zeroinitializer" => Ok(self.zero(t)),
                "undef" | "poison" => Ok(self.undef(t)),
                "splat" => {
                    self.expect(b'(')?;
                    let et = self.ty()?;
                    let v = self.konst(et)?;
                    self.expect(b')')?;
                    match self.types[t as usize] {
                        Ty::Vec(n, _) => Ok(C::Agg((0..n).map(|_| v.clone()).collect())),
                        _ => Err("splat".into()),
                    }
                }
                "getelementptr" => {
                    while matches!(self.peek(), T::Id(_)) {
                        let isinrange = self.isid("inrange");
                        self.bump();
                        if isinrange && self.isp(b'(') {
                            self.skip_parens();
                        }
                    }
                    self.expect(b'(')?;
                    let et = self.ty()?;
                    self.expect(b',')?;
                    let pt = self.ty()?;
                    let base = match self.konst(pt)? {
                        C::I(v) => v,
                        _ => return Err("gep base".into()),
                    };
                    let mut off: i128 = 0;
                    let mut cur = et;
                    let mut first = true;
                    while self.eat(b',') {
                        let it = self.ty()?;
                        let iv = match self.konst(it)? {
                            C::I(v) => v,
                            _ => return Err("gep idx".into()),
                        };
                        let b = self.bits(it);
                        let sv = crate::expr::sext_val(iv, b);
                        let (o, nt) = self.gep_step(cur, sv, first)?;
                        off += o;
                        cur = nt;
                        first = false;
                    }
                    self.expect(b')')?;
                    Ok(C::I((base as i128 + off) as u128 & 0xffff_ffff_ffff_ffff))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" => {
                    self.expect(b'(')?;
                    let st = self.ty()?;
                    let v = self.konst(st)?;
                    if !self.eatid("to") {
                        return Err("cast to".into());
                    }
                    let dt = self.ty()?;
                    self.expect(b')')?;
                    match v {
                        C::I(v) => Ok(C::I(self.mask(dt, v))),
                        v => Ok(v),
                    }
                }
                "sub" | "add" => {
                    while matches!(self.peek(), T::Id(_)) {
                        self.bump();
                    }
                    self.expect(b'(')?;
                    let t1 = self.ty()?;
                    let a = self.konst(t1)?;
                    self.expect(b',')?;
                    let t2 = self.ty()?;
                    let b = self.konst(t2)?;
                    self.expect(b')')?;
                    match (a, b) {
                        (C::I(a), C::I(b)) => {
                            Ok(C::I(self.mask(t1, if s == "sub" { a.wrapping_sub(b) } else { a.wrapping_add(b) })))
                        }
                        _ => Err("const arith".into()),
                    }
                }
                _ => {
                    // floating point constants
                    if let Ty::Float(w) = self.types[t as usize] {
                        let x = match s.strip_prefix("0x") {
                            Some(h) => u64::from_str_radix(h, 16).ok().map(f64::from_bits),
                            None => s.parse::<f64>().ok(),
                        };
                        return Ok(match (x, w) {
                            (Some(x), 64) => C::I(x.to_bits() as u128),
                            (Some(x), 32) => C::I((x as f32).to_bits() as u128),
                            _ => C::Undef,
                        });
                    }
                    if s.starts_with("0x") || s.contains('.') {
                        return Ok(C::Undef);
                    }
                    Err(format!("constant? {} near {:?}", s, self.ctx()))
                }
            },
            t => Err(format!("constant? {:?} near {:?}", t, self.ctx())),
        }
    }
    fn konst_list(&mut self, end: u8) -> R<C> {
        let mut v = Vec::new();
        if self.eat(end) {
            return Ok(C::Agg(v));
        }
        loop {
            let t = self.ty()?;
            v.push(self.konst(t)?);
            if self.eat(end) {
                return Ok(C::Agg(v));
            }
            self.expect(b',')?;
        }
    }

    fn gep_step(&self, cur: TyId, idx: i128, first: bool) -> R<(i128, TyId)> {
        if first {
            return Ok((idx * self.sizes[cur as usize] as i128, cur));
        }
        match &self.types[cur as usize] {
            Ty::Array(_, e) | Ty::Vec(_, e) => Ok((idx * self.sizes[*e as usize] as i128, *e)),
            Ty::Struct(packed, fs) => {
                let i = idx as usize;
                let mut off = 0u64;
                for (k, &f) in fs.iter().enumerate() {
                    if !packed {
                        let a = self.aligns[f as usize].max(1);
                        off = (off + a - 1) / a * a;
                    }
                    if k == i {
                        return Ok((off as i128, f));
                    }
                    off += self.sizes[f as usize];
                }
                Err("gep struct".into())
            }
            _ => Err("gep through scalar".into()),
        }
    }

    /// Write constant into cells.
    fn cells(&self, t: TyId, c: &C, out: &mut [u32]) -> R<()> {
        match (&self.types[t as usize], c) {
            (_, C::Undef) => {}
            (Ty::Array(_, e), C::Agg(v)) | (Ty::Vec(_, e), C::Agg(v)) => {
                let s = self.sizes[*e as usize] as usize;
                for (i, x) in v.iter().enumerate() {
                    self.cells(*e, x, &mut out[i * s..(i + 1) * s])?;
                }
            }
            (Ty::Struct(packed, fs), C::Agg(v)) => {
                let mut off = 0usize;
                for (i, x) in v.iter().enumerate() {
                    let f = fs[i];
                    if !*packed {
                        let a = self.aligns[f as usize].max(1) as usize;
                        off = (off + a - 1) / a * a;
                    }
                    let s = self.sizes[f as usize] as usize;
                    self.cells(f, x, &mut out[off..off + s])?;
                    off += s;
                }
            }
            (_, C::I(v)) => {
                for (i, o) in out.iter_mut().enumerate() {
                    *o = if i < 16 { (v >> (8 * i)) as u32 & 0xff } else { 0 };
                }
            }
            (t, c) => return Err(format!("initialiser {:?} {:?}", t, c)),
        }
        Ok(())
    }

    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                T::Id(s) => {
                    const VALS: &[&str] = &[
                        "null", "undef", "poison", "true", "false", "zeroinitializer", "getelementptr", "ptrtoint",
                        "inttoptr", "none", "splat", "bitcast", "sub", "add", "trunc", "zext", "asm", "blockaddress",
                    ];
                    if VALS.contains(&s.as_str()) || s.starts_with("0x") {
                        return;
                    }
                    let al = s == "align";
                    self.bump();
                    if self.isp(b'(') {
                        self.skip_parens();
                    } else if al {
                        if matches!(self.peek(), T::Int(_)) {
                            self.bump();
                        }
                    }
                }
                T::Str(_) => {
                    // string attribute "k"="v"
                    self.bump();
                    if self.eat(b'=') {
                        self.bump();
                    }
                }
                T::Attr => {
                    self.bump();
                }
                _ => return,
            }
        }
    }

    /// Attributes that may precede a type.
    fn skip_pre_type(&mut self) {
        while !self.is_type_start() {
            match self.peek() {
                T::Id(s) => {
                    let al = s == "align" || s == "cc";
                    self.bump();
                    if self.isp(b'(') {
                        self.skip_parens();
                    } else if al && matches!(self.peek(), T::Int(_)) {
                        self.bump();
                    }
                }
                T::Str(_) => {
                    self.bump();
                    if self.eat(b'=') {
                        self.bump();
                    }
                }
                T::Attr => {
                    self.bump();
                }
                _ => return,
            }
        }
    }

    fn opd(&mut self, t: TyId, f: &mut FnCtx) -> R<Opd> {
        if let T::Local(n) = self.peek().clone() {
            self.bump();
            return Ok(Opd::Reg(f.reg(&n)));
        }
        if let T::Meta(_) = self.peek() {
            // metadata operand
            self.bump();
            if self.isp(b'(') || self.isp(b'{') {
                self.skip_parens();
            }
            return Ok(Opd::Undef);
        }
        if self.isid("asm") {
            return Err("inline asm".into());
        }
        Ok(match self.konst(t)? {
            C::I(v) => Opd::K(v),
            C::Undef => Opd::Undef,
            C::Agg(v) => Opd::Agg(Arc::new(v)),
        })
    }
    fn ty_opd(&mut self, f: &mut FnCtx) -> R<(TyId, Opd)> {
        let t = self.ty()?;
        self.skip_attrs();
        let o = self.opd(t, f)?;
        Ok((t, o))
    }
    fn label(&mut self, f: &mut FnCtx) -> R<u32> {
        if !self.eatid("label") {
            return Err("label".into());
        }
        match self.bump() {
            T::Local(n) => Ok(f.label(&n)),
            t => Err(format!("label {:?}", t)),
        }
    }

    fn trailing(&mut self) {
        // ", align 8", ", !meta !1", "#3"
        loop {
            if self.isp(b',') {
                match self.peek2() {
                    T::Meta(_) => {
                        self.bump();
                        self.bump();
                        if matches!(self.peek(), T::Meta(_)) {
                            self.bump();
                            if self.isp(b'{') || self.isp(b'(') {
                                self.skip_parens();
                            }
                        }
                        continue;
                    }
                    T::Id(s) if s == "align" => {
                        self.bump();
                        self.bump();
                        self.bump();
                        continue;
                    }
                    _ => return,
                }
            }
            if matches!(self.peek(), T::Attr) {
                self.bump();
                continue;
            }
            return;
        }
    }

    fn fp(&self, op: String, t: TyId, t2: TyId, d: u32, args: Vec<Opd>) -> Inst {
        let ok = |t: TyId| matches!(self.types[t as usize], Ty::Float(32) | Ty::Float(64) | Ty::Int(_));
        if ok(t) && ok(t2) {
            Inst::Fp(op, t, t2, d, args)
        } else {
            Inst::Unsupported(op)
        }
    }

    fn skip_words(&mut self, ws: &[&str]) {
        while let T::Id(s) = self.peek() {
            if ws.contains(&s.as_str()) {
                self.bump();
            } else {
                break;
            }
        }
    }

    fn call(&mut self, dst: Option<u32>, f: &mut FnCtx, invoke: bool) -> R<Inst> {
        self.skip_words(&["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
        self.skip_pre_type();
        let ret = self.ty()?;
        if self.isp(b'(') {
            self.skip_parens(); // function type parameters
        }
        let callee = match self.bump() {
            T::Global(n) => match self.func_ids.get(&n) {
                Some(&i) => Callee::Func(i),
                None => return Err(format!("call of unknown @{}", n)),
            },
            T::Local(n) => Callee::Ind(Opd::Reg(f.reg(&n))),
            T::Id(s) if s == "asm" => {
                // inline asm: only the empty one (std::hint::black_box) means something here
                let mut texts = Vec::new();
                while !self.isp(b'(') {
                    if let T::Str(s) = self.bump() {
                        texts.push(s);
                    }
                }
                self.skip_parens();
                self.trailing();
                let void = matches!(self.types[ret as usize], Ty::Void);
                return Ok(if void && texts.first().map_or(false, |s| s.is_empty()) {
                    Inst::Nop
                } else {
                    Inst::Unsupported("inline asm".into())
                });
            }
            T::Id(_) => {
                self.p -= 1;
                let t = self.intern(Ty::Ptr);
                Callee::Ind(self.opd(t, f)?)
            }
            t => return Err(format!("callee {:?} near {:?}", t, self.ctx())),
        };
        self.expect(b'(')?;
        let mut args = Vec::new();
        if !self.eat(b')') {
            loop {
                let t = self.ty()?;
                if self.types[t as usize] == Ty::Meta {
                    // skip metadata argument
                    self.bump();
                    while !(self.isp(b',') || self.isp(b')')) {
                        if self.isp(b'(') || self.isp(b'{') {
                            self.skip_parens();
                        } else {
                            self.bump();
                        }
                    }
                    args.push((t, Opd::Undef));
                } else {
                    self.skip_attrs();
                    let o = self.opd(t, f)?;
                    args.push((t, o));
                }
                if self.eat(b')') {
                    break;
                }
                self.expect(b',')?;
            }
        }
        // attributes, operand bundles
        loop {
            match self.peek() {
                T::Attr => {
                    self.bump();
                }
                T::P(b'[') => self.skip_parens(),
                _ => break,
            }
        }
        let mut normal = None;
        if invoke {
            if !self.eatid("to") {
                return Err(format!("invoke to {:?}", self.ctx()));
            }
            normal = Some(self.label(f)?);
            if !self.eatid("unwind") {
                return Err("invoke unwind".into());
            }
            let _ = self.label(f)?;
        }
        self.trailing();
        Ok(Inst::Call(Box::new(CallI { dst, ret, callee, args, normal })))
    }

    fn inst(&mut self, f: &mut FnCtx, blk: &mut Block) -> R<()> {
        let mut dst = None;
        if let (T::Local(n), T::P(b'=')) = (self.peek().clone(), self.peek2().clone()) {
            self.bump();
            self.bump();
            dst = Some(f.reg(&n));
        }
        let op = match self.bump() {
            T::Id(s) => s,
            t => return Err(format!("instruction? {:?} near {:?}", t, self.ctx())),
        };
        let d = dst.unwrap_or(u32::MAX);
        let ins = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                self.skip_words(&["nuw", "nsw", "exact", "disjoint"]);
                let t = self.ty()?;
                let a = self.opd(t, f)?;
                self.expect(b',')?;
                let b = self.opd(t, f)?;
                let o = match op.as_str() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    _ => BinOp::AShr,
                };
                Inst::Bin(o, t, d, a, b)
            }
            "icmp" => {
                self.skip_words(&["samesign"]);
                let p = match self.bump() {
                    T::Id(s) => match s.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => return Err("icmp pred".into()),
                    },
                    _ => return Err("icmp pred".into()),
                };
                let t = self.ty()?;
                let a = self.opd(t, f)?;
                self.expect(b',')?;
                let b = self.opd(t, f)?;
                Inst::Icmp(p, t, d, a, b)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                self.skip_words(&["nuw", "nsw", "nneg"]);
                let (t, a) = self.ty_opd(f)?;
                if !self.eatid("to") {
                    return Err("cast to".into());
                }
                let t2 = self.ty()?;
                let c = match op.as_str() {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "bitcast" => CastOp::Bitcast,
                    _ => CastOp::PtrInt,
                };
                Inst::Cast(c, t, t2, d, a)
            }
            "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fpext" | "fptrunc" => {
                self.skip_words(&["nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let (t, a) = self.ty_opd(f)?;
                self.bump();
                let t2 = self.ty()?;
                self.fp(op.clone(), t, t2, d, vec![a])
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fcmp" | "fneg" => {
                self.skip_words(&["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let mut name = op.clone();
                if op == "fcmp" {
                    if let T::Id(p) = self.bump() {
                        name = p;
                    }
                }
                let t = self.ty()?;
                let mut args = vec![self.opd(t, f)?];
                if self.eat(b',') {
                    args.push(self.opd(t, f)?);
                }
                let t2 = if op == "fcmp" { self.intern(Ty::Int(1)) } else { t };
                self.fp(name, t, t2, d, args)
            }
            "select" => {
                let (ct, c) = self.ty_opd(f)?;
                self.expect(b',')?;
                let (t, a) = self.ty_opd(f)?;
                self.expect(b',')?;
                let (_, b) = self.ty_opd(f)?;
                let isvec = matches!(self.types[ct as usize], Ty::Vec(..));
                Inst::Select(t, d, c, a, b, isvec)
            }
            "load" => {
                self.skip_words(&["atomic", "volatile"]);
                let t = self.ty()?;
                self.expect(b',')?;
                let (_, p) = self.ty_opd(f)?;
                self.skip_words(&["monotonic", "acquire", "release", "acq_rel", "seq_cst", "unordered"]);
                Inst::Load(t, d, p)
            }
            "store" => {
                self.skip_words(&["atomic", "volatile"]);
                let (t, v) = self.ty_opd(f)?;
                self.expect(b',')?;
                let (_, p) = self.ty_opd(f)?;
                self.skip_words(&["monotonic", "acquire", "release", "acq_rel", "seq_cst", "unordered"]);
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                self.skip_words(&["inbounds", "nuw", "nusw"]);
                let et = self.ty()?;
                self.expect(b',')?;
                let (_, base) = self.ty_opd(f)?;
                let mut cur = et;
                let mut off: i128 = 0;
                let mut dyns = Vec::new();
                let mut first = true;
                while self.isp(b',') && !matches!(self.peek2(), T::Meta(_)) {
                    self.bump();
                    let (it, iv) = self.ty_opd(f)?;
                    match iv {
                        Opd::K(v) => {
                            let sv = crate::expr::sext_val(v, self.bits(it));
                            let (o, nt) = self.gep_step(cur, sv, first)?;
                            off += o;
                            cur = nt;
                        }
                        o => {
                            let (st, nt) = self.gep_step(cur, 1, first)?;
                            if let Ty::Struct(..) = self.types[cur as usize] {
                                if !first {
                                    return Err("dynamic struct gep".into());
                                }
                            }
                            dyns.push((o, self.bits(it), st as u64));
                            cur = nt;
                        }
                    }
                    first = false;
                }
                Inst::Gep(d, base, off as i64, dyns)
            }
            "alloca" => {
                self.skip_words(&["inalloca"]);
                let t = self.ty()?;
                let mut n = Opd::K(1);
                if self.isp(b',') && !matches!(self.peek2(), T::Meta(_)) && !matches!(self.peek2(), T::Id(s) if s=="align" || s=="addrspace") {
                    self.bump();
                    let (_, o) = self.ty_opd(f)?;
                    n = o;
                }
                Inst::Alloca(d, self.sizes[t as usize], n)
            }
            "call" => self.call(dst, f, false)?,
            "tail" | "musttail" | "notail" => {
                if !self.eatid("call") {
                    return Err("tail call".into());
                }
                self.call(dst, f, false)?
            }
            "invoke" => self.call(dst, f, true)?,
            "phi" => {
                self.skip_words(&["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let t = self.ty()?;
                let mut inc = Vec::new();
                loop {
                    self.expect(b'[')?;
                    let v = self.opd(t, f)?;
                    self.expect(b',')?;
                    let l = match self.bump() {
                        T::Local(n) => f.label(&n),
                        t => return Err(format!("phi {:?}", t)),
                    };
                    self.expect(b']')?;
                    inc.push((l, v));
                    if self.isp(b',') && matches!(self.peek2(), T::P(b'[')) {
                        self.bump();
                    } else {
                        break;
                    }
                }
                self.trailing();
                blk.phis.push((d, inc));
                return Ok(());
            }
            "extractvalue" => {
                let (t, a) = self.ty_opd(f)?;
                let mut idx = Vec::new();
                while self.isp(b',') && matches!(self.peek2(), T::Int(_)) {
                    self.bump();
                    idx.push(self.uint()? as u32);
                }
                Inst::Extract(t, d, a, idx)
            }
            "insertvalue" => {
                let (t, a) = self.ty_opd(f)?;
                self.expect(b',')?;
                let (_, v) = self.ty_opd(f)?;
                let mut idx = Vec::new();
                while self.isp(b',') && matches!(self.peek2(), T::Int(_)) {
                    self.bump();
                    idx.push(self.uint()? as u32);
                }
                Inst::Insert(d, t, a, v, idx)
            }
            "extractelement" => {
                let (t, a) = self.ty_opd(f)?;
                self.expect(b',')?;
                let (_, i) = self.ty_opd(f)?;
                Inst::ExtElem(d, t, a, i)
            }
            "insertelement" => {
                let (t, a) = self.ty_opd(f)?;
                self.expect(b',')?;
                let (_, v) = self.ty_opd(f)?;
                self.expect(b',')?;
                let (_, i) = self.ty_opd(f)?;
                Inst::InsElem(d, t, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.ty_opd(f)?;
                self.expect(b',')?;
                let (_, b) = self.ty_opd(f)?;
                self.expect(b',')?;
                let (_, m) = self.ty_opd(f)?;
                let mm = match m {
                    Opd::Agg(v) => v
                        .iter()
                        .map(|c| match c {
                            C::I(v) => *v as u32,
                            _ => 0,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                Inst::Shuffle(d, t, a, b, mm)
            }
            "atomicrmw" => {
                self.skip_words(&["volatile"]);
                let o = match self.bump() {
                    T::Id(s) => s,
                    _ => return Err("rmw".into()),
                };
                let o: &'static str = match o.as_str() {
                    "add" => "add",
                    "sub" => "sub",
                    "and" => "and",
                    "or" => "or",
                    "xor" => "xor",
                    "xchg" => "xchg",
                    "umax" => "umax",
                    "umin" => "umin",
                    "nand" => "nand",
                    _ => return Err(format!("rmw {}", o)),
                };
                let (_, p) = self.ty_opd(f)?;
                self.expect(b',')?;
                let (t, v) = self.ty_opd(f)?;
                while matches!(self.peek(), T::Id(_)) && !self.next_is_inst() {
                    self.bump();
                    if self.isp(b'(') {
                        self.skip_parens();
                    }
                }
                Inst::Rmw(o, t, d, p, v)
            }
            "cmpxchg" => {
                self.skip_words(&["weak", "volatile"]);
                let (_, p) = self.ty_opd(f)?;
                self.expect(b',')?;
                let (t, a) = self.ty_opd(f)?;
                self.expect(b',')?;
                let (_, b) = self.ty_opd(f)?;
                while matches!(self.peek(), T::Id(_)) && !self.next_is_inst() {
                    self.bump();
                    if self.isp(b'(') {
                        self.skip_parens();
                    }
                }
                Inst::Cmpxchg(t, d, p, a, b)
            }
            "fence" => {
                self.skip_words(&["monotonic", "acquire", "release", "acq_rel", "seq_cst"]);
                if self.isid("syncscope") {
                    self.bump();
                    self.skip_parens();
                    self.skip_words(&["monotonic", "acquire", "release", "acq_rel", "seq_cst"]);
                }
                Inst::Nop
            }
            "freeze" => {
                let (t, a) = self.ty_opd(f)?;
                Inst::Freeze(t, d, a)
            }
            "br" => {
                if self.isid("label") {
                    let l = self.label(f)?;
                    Inst::Br(l)
                } else {
                    let (_, c) = self.ty_opd(f)?;
                    self.expect(b',')?;
                    let a = self.label(f)?;
                    self.expect(b',')?;
                    let b = self.label(f)?;
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, c) = self.ty_opd(f)?;
                self.expect(b',')?;
                let def = self.label(f)?;
                self.expect(b'[')?;
                let mut cs = Vec::new();
                while !self.eat(b']') {
                    let ct = self.ty()?;
                    let v = match self.konst(ct)? {
                        C::I(v) => v,
                        _ => return Err("switch case".into()),
                    };
                    self.expect(b',')?;
                    let l = self.label(f)?;
                    cs.push((v, l));
                }
                Inst::Switch(self.bits(t), c, def, cs)
            }
            "ret" => {
                let t = self.ty()?;
                if self.types[t as usize] == Ty::Void {
                    Inst::Ret(None)
                } else {
                    self.skip_attrs();
                    let o = self.opd(t, f)?;
                    Inst::Ret(Some((t, o)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "landingpad" => {
                let _ = self.ty()?;
                loop {
                    if self.eatid("cleanup") {
                        continue;
                    }
                    if self.isid("catch") || self.isid("filter") {
                        self.bump();
                        let t = self.ty()?;
                        let _ = self.konst(t)?;
                        continue;
                    }
                    break;
                }
                Inst::Unsupported("landingpad".into())
            }
            "resume" => {
                let _ = self.ty_opd(f)?;
                Inst::Unsupported("resume".into())
            }
            _ => return Err(format!("instruction {} near {:?}", op, self.ctx())),
        };
        self.trailing();
        blk.insts.push(ins);
        Ok(())
    }
    fn next_is_inst(&self) -> bool {
        if let T::Id(s) = self.peek() {
            !matches!(s.as_str(), "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst" | "syncscope" | "unordered")
        } else {
            true
        }
    }
}

pub fn parse(src: &str) -> R<Module> {
    let mut lx = Lexer { s: src.as_bytes(), i: 0 };
    let mut toks = Vec::with_capacity(src.len() / 4);
    loop {
        let t = lx.next();
        let e = t == T::Eof;
        toks.push(t);
        if e {
            break;
        }
    }
    let mut ps = Parser {
        toks,
        p: 0,
        types: vec![],
        tymap: HashMap::new(),
        named: HashMap::new(),
        sizes: vec![],
        aligns: vec![],
        func_ids: HashMap::new(),
        gaddr: HashMap::new(),
    };
    let n = ps.toks.len();
    // Pass 1: find top-level entities.
    let mut fpos: Vec<(usize, bool, String)> = Vec::new(); // token pos after define/declare
    let mut gpos: Vec<(usize, String)> = Vec::new();
    let mut aliases: Vec<(String, usize)> = Vec::new();
    let mut i = 0;
    while i < n {
        match &ps.toks[i] {
            T::Local(name) if matches!(ps.toks[i + 1], T::P(b'=')) && matches!(&ps.toks[i+2], T::Id(s) if s=="type") => {
                // named type (definitions come before uses in practice)
                let name = name.clone();
                ps.p = i + 3;
                let t = ps.ty()?;
                ps.named.insert(name, t);
                i = ps.p;
            }
            T::Global(name) if matches!(ps.toks[i + 1], T::P(b'=')) => {
                let name = name.clone();
                // alias?
                let mut j = i + 2;
                let mut kind = "";
                while let T::Id(s) = &ps.toks[j] {
                    if s == "global" || s == "constant" {
                        kind = "g";
                        break;
                    }
                    if s == "alias" || s == "ifunc" {
                        kind = "a";
                        break;
                    }
                    j += 1;
                    if ps.toks[j] == T::P(b'(') {
                        while ps.toks[j] != T::P(b')') {
                            j += 1;
                        }
                        j += 1;
                    }
                }
                if kind == "a" {
                    aliases.push((name, j + 1));
                } else {
                    gpos.push((i, name));
                }
                i = j + 1;
            }
            T::Id(s) if s == "define" || s == "declare" => {
                let def = s == "define";
                // name = first Global token
                let mut j = i + 1;
                while !matches!(ps.toks[j], T::Global(_)) {
                    j += 1;
                }
                if let T::Global(nm) = &ps.toks[j] {
                    let nm = nm.clone();
                    let id = fpos.len() as u32;
                    if !def && ps.toks[i + 1..j].iter().any(|t| matches!(t, T::Id(s) if s == "extern_weak")) {
                        ps.gaddr.insert(nm.clone(), 0);
                    }
                    ps.func_ids.insert(nm.clone(), id);
                    fpos.push((j, def, nm));
                }
                // skip body
                if def {
                    while ps.toks[j] != T::P(b'(') {
                        j += 1;
                    }
                    ps.p = j;
                    ps.skip_parens();
                    while ps.toks[ps.p] != T::P(b'{') {
                        ps.p += 1;
                    }
                    ps.skip_parens();
                    i = ps.p;
                } else {
                    i = j + 1;
                }
            }
            _ => i += 1,
        }
    }
    // Addresses for globals
    for (k, (_, name)) in gpos.iter().enumerate() {
        ps.gaddr.insert(name.clone(), obj_addr(k as u32 + 1));
    }
    for (name, j) in &aliases {
        // alias ty, ptr @target
        let mut k = *j;
        while !matches!(ps.toks[k], T::Global(_)) {
            k += 1;
        }
        if let T::Global(t) = ps.toks[k].clone() {
            if let Some(&f) = ps.func_ids.get(&t) {
                ps.func_ids.insert(name.clone(), f);
            } else if let Some(&a) = ps.gaddr.get(&t) {
                ps.gaddr.insert(name.clone(), a);
            }
        }
    }
    // Globals
    let mut globals = Vec::new();
    let mut global_ids = HashMap::new();
    for (k, (pos, name)) in gpos.iter().enumerate() {
        ps.p = pos + 2;
        let mut external = false;
        let mut weak = false;
        let constant;
        loop {
            match ps.bump() {
                T::Id(s) => match s.as_str() {
                    "external" => external = true,
                    "extern_weak" => {
                        external = true;
                        weak = true;
                    }
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "global" => {
                        constant = false;
                        break;
                    }
                    _ => {
                        if ps.isp(b'(') {
                            ps.skip_parens();
                        }
                    }
                },
                t => return Err(format!("global {} {:?}", name, t)),
            }
        }
        let t = ps.ty()?;
        let size = ps.sizes[t as usize];
        let mut cells = vec![256u32; size as usize];
        if external {
            if weak {
                // resolves to null
                ps.gaddr.insert(name.clone(), 0);
            }
        } else {
            let c = ps.konst(t)?;
            ps.cells(t, &c, &mut cells)?;
        }
        global_ids.insert(name.clone(), k as u32);
        globals.push(Global { name: name.clone(), size, constant, id: k as u32 + 1, init: Arc::new(cells) });
    }
    // Functions
    let mut funcs = Vec::new();
    let mut ninsts = 0;
    for (pos, def, name) in fpos.iter() {
        let mut f = Func { name: name.clone(), ..Default::default() };
        f.declared_only = !*def;
        if !*def {
            funcs.push(f);
            continue;
        }
        ps.p = pos + 1;
        ps.expect(b'(')?;
        let mut ctx = FnCtx { regs: HashMap::new(), nregs: 0, labels: HashMap::new() };
        let mut unnamed = 0;
        if !ps.eat(b')') {
            loop {
                if ps.peek() == &T::Dots {
                    ps.bump();
                    ps.expect(b')')?;
                    break;
                }
                let _t = ps.ty()?;
                ps.skip_attrs();
                match ps.peek().clone() {
                    T::Local(nm) => {
                        ps.bump();
                        if nm.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed += 1;
                        }
                        let r = ctx.reg(&nm);
                        f.params.push(r);
                    }
                    _ => {
                        let nm = format!("{}", unnamed);
                        unnamed += 1;
                        let r = ctx.reg(&nm);
                        f.params.push(r);
                    }
                }
                if ps.eat(b')') {
                    break;
                }
                ps.expect(b',')?;
            }
        }
        while ps.toks[ps.p] != T::P(b'{') {
            ps.p += 1;
        }
        ps.p += 1;
        let mut blocks: Vec<(u32, Block)> = Vec::new();
        let mut cur = Block::default();
        let mut curl = match ps.peek().clone() {
            T::Label(l) => {
                ps.bump();
                ctx.label(&l)
            }
            _ => ctx.label(&format!("{}", unnamed)),
        };
        loop {
            if ps.eat(b'}') {
                break;
            }
            if let T::Label(l) = ps.peek().clone() {
                ps.bump();
                blocks.push((curl, std::mem::take(&mut cur)));
                curl = ctx.label(&l);
                continue;
            }
            ps.inst(&mut ctx, &mut cur).map_err(|e| format!("in @{}: {}", name, e))?;
        }
        blocks.push((curl, cur));
        let nb = ctx.labels.len();
        f.blocks = vec![Block::default(); nb];
        for (l, b) in blocks {
            ninsts += b.insts.len() as u64 + b.phis.len() as u64;
            f.blocks[l as usize] = b;
        }
        f.nregs = ctx.nregs;
        funcs.push(f);
    }
    let next_obj = globals.len() as u32 + 1;
    Ok(Module {
        types: ps.types,
        sizes: ps.sizes,
        aligns: ps.aligns,
        globals,
        funcs,
        func_ids: ps.func_ids,
        global_ids,
        next_obj,
        insts: ninsts,
    })
}
