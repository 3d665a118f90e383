//! Hash-consed bit-vector expressions (width 1..=128) with canonicalising constructors.
//!
//! Canonical forms used throughout: zero extension and constant shifts are `Concat`/`Extract`,
//! bitwise operations with constants are split into bit runs, `Ule` is `not Ult` swapped, additions
//! carry their constant on the right.

use std::hash::{BuildHasherDefault, Hasher};

/// A fast hash for small keys.
#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(v));
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        let x = (self.0.rotate_left(5) ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 = x ^ (x >> 32);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
}
pub type HashMap<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<Fx>>;
pub type HashSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Not,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract,
    SExt,
    Ite,
    Eq,
    Ult,
    Slt,
    Uf,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub const NVARBITS: usize = 512;
pub type VarSet = [u64; NVARBITS / 64];

/// Which uninterpreted function.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u32)]
pub enum UfName {
    Md5 = 0,
    Md4 = 1,
    Des = 2,
    Rc4 = 3,
}
impl UfName {
    pub fn from_u32(x: u32) -> UfName {
        match x {
            0 => UfName::Md5,
            1 => UfName::Md4,
            2 => UfName::Des,
            _ => UfName::Rc4,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            UfName::Md5 => "md5_compress",
            UfName::Md4 => "md4_compress",
            UfName::Des => "des_encrypt_block",
            UfName::Rc4 => "rc4_keystream",
        }
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext_val(v: u128, w: u32) -> i128 {
    let sh = 128 - w;
    ((v << sh) as i128) >> sh
}

/// Value of an operator node given the values of its operands (`wa`, `wb`: their widths).
fn apply(n: Node, wa: u32, wb: u32, a: u128, b: u128) -> u128 {
    let w = n.w as u32;
    let m = mask(w);
    match n.op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext_val(a, w), sext_val(b, w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                x.wrapping_div(y) as u128 & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext_val(a, w), sext_val(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128 & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Not => !a & m,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b as u32) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b as u32
            }
        }
        Op::AShr => {
            let s = b.min(w as u128 - 1) as u32;
            (sext_val(a, w) >> s) as u128 & m
        }
        Op::Concat => (a << wb) | b,
        Op::Extract => (a >> n.b) & m,
        Op::SExt => sext_val(a, wa) as u128 & m,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext_val(a, wa) < sext_val(b, wa)) as u128,
        Op::Const | Op::Var | Op::Ite | Op::Uf => unreachable!(),
    }
}

const MANY: u32 = u32::MAX;

fn join_single(a: u32, b: u32) -> u32 {
    match (a, b) {
        (0, x) | (x, 0) => x,
        (x, y) if x == y => x,
        _ => MANY,
    }
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub consts: Vec<u128>,
    pub uf_args: Vec<Box<[E]>>,
    cons: HashMap<Node, E>,
    const_ids: HashMap<(u8, u128), E>,
    uf_ids: HashMap<(u32, Box<[E]>), E>,
    pub vars: Vec<(String, u32)>,
    vsets: Vec<Option<Box<VarSet>>>,
    ranges: Vec<Option<(u128, u128)>>,
    ones: Vec<Option<u128>>,
    /// The only variable a node depends on, plus one; 0 for none, `MANY` for several (or a UF).
    single: Vec<u32>,
    tabs: HashMap<E, std::rc::Rc<[u64; 256]>>,
    tab_reps: HashMap<(u32, u8, Box<[u8; 256]>), E>,
    // evaluation memo
    memo_epoch: Vec<u32>,
    memo_val: Vec<u128>,
    epoch: u32,
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: Vec::new(),
            consts: Vec::new(),
            uf_args: Vec::new(),
            cons: HashMap::default(),
            const_ids: HashMap::default(),
            uf_ids: HashMap::default(),
            vars: Vec::new(),
            vsets: Vec::new(),
            ranges: Vec::new(),
            ones: Vec::new(),
            single: Vec::new(),
            tabs: HashMap::default(),
            tab_reps: HashMap::default(),
            memo_epoch: Vec::new(),
            memo_val: Vec::new(),
            epoch: 0,
        };
        a.konst(1, 0);
        a.konst(1, 1);
        a
    }

    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn node(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    fn push(&mut self, n: Node) -> E {
        let id = self.nodes.len() as u32;
        self.nodes.push(n);
        self.vsets.push(None);
        self.ranges.push(None);
        self.ones.push(None);
        let single = match n.op {
            Op::Const => 0,
            Op::Var => n.a + 1,
            Op::Uf => MANY,
            Op::Not | Op::Extract | Op::SExt => self.single[n.a as usize],
            Op::Ite => {
                let (a, b) = (self.single[n.a as usize], self.single[n.b as usize]);
                join_single(join_single(a, b), self.single[n.c as usize])
            }
            _ => join_single(self.single[n.a as usize], self.single[n.b as usize]),
        };
        self.single.push(single);
        self.memo_epoch.push(0);
        self.memo_val.push(0);
        id
    }
    fn mk(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32) -> E {
        debug_assert!(w >= 1 && w <= 128);
        let n = Node { op, w: w as u8, a, b, c };
        if let Some(&e) = self.cons.get(&n) {
            return e;
        }
        let id = self.push(n);
        let id = if w <= 8 { self.canonical(id) } else { id };
        self.cons.insert(n, id);
        id
    }

    /// Nodes of at most 8 bits over one single byte variable are represented by their truth table:
    /// two of them that denote the same function become the same node.
    fn canonical(&mut self, e: E) -> E {
        let s = self.single[e as usize];
        if s == 0 || s == MANY {
            return e;
        }
        let n = self.node(e);
        let vw = self.vars[(s - 1) as usize].1;
        if vw > 8 {
            return e;
        }
        if n.op == Op::Extract && self.node(n.a).op != Op::Var || n.op == Op::Concat {
            return e;
        }
        let Some(t) = self.table(e) else { return e };
        let w = n.w as u32;
        if t[1..1 << vw].iter().all(|x| *x == t[0]) {
            return self.konst(w, t[0] as u128);
        }
        let mut k = Box::new([0u8; 256]);
        for i in 0..1 << vw {
            k[i] = t[i] as u8;
        }
        let rep = *self.tab_reps.entry((s, n.w, k)).or_insert(e);
        if matches!(n.op, Op::Var | Op::Extract) {
            return e;
        }
        rep
    }

    /// Values of a node over all values of its only variable.
    fn table(&mut self, e: E) -> Option<std::rc::Rc<[u64; 256]>> {
        if let Some(t) = self.tabs.get(&e) {
            return Some(t.clone());
        }
        let n = self.node(e);
        if n.w > 64 {
            return None;
        }
        let vw = match self.single[e as usize] {
            0 => 8,
            s => self.vars[(s - 1) as usize].1,
        };
        let kids = self.kids(e);
        let mut kt = Vec::with_capacity(3);
        for k in kids {
            kt.push(self.table(k)?);
        }
        let mut t = [0u64; 256];
        let wa = match n.op {
            Op::Const | Op::Var | Op::Uf => 0,
            _ => self.w(n.a),
        };
        let wb = if n.op == Op::Concat { self.w(n.b) } else { 0 };
        for i in 0..1usize << vw {
            t[i] = match n.op {
                Op::Const => self.consts[n.a as usize] as u64,
                Op::Var => i as u64,
                Op::Uf => return None,
                Op::Ite => {
                    if kt[0][i] == 1 {
                        kt[1][i]
                    } else {
                        kt[2][i]
                    }
                }
                _ => {
                    let a = kt[0][i] as u128;
                    let b = kt.get(1).map_or(0, |k| k[i]) as u128;
                    apply(n, wa, wb, a, b) as u64
                }
            };
        }
        let t = std::rc::Rc::new(t);
        if self.tabs.len() > 20000 {
            self.tabs.clear();
        }
        self.tabs.insert(e, t.clone());
        Some(t)
    }
    pub fn konst(&mut self, w: u32, v: u128) -> E {
        let v = v & mask(w);
        if let Some(&e) = self.const_ids.get(&(w as u8, v)) {
            return e;
        }
        let ci = self.consts.len() as u32;
        self.consts.push(v);
        let id = self.push(Node { op: Op::Const, w: w as u8, a: ci, b: 0, c: 0 });
        self.const_ids.insert((w as u8, v), id);
        id
    }
    pub fn t(&self) -> E {
        1
    }
    pub fn f(&self) -> E {
        0
    }
    pub fn var(&mut self, name: String, w: u32) -> E {
        let vi = self.vars.len() as u32;
        self.vars.push((name, w));
        self.mk(Op::Var, w, vi, 0, 0)
    }
    pub fn uf(&mut self, f: UfName, args: Vec<E>, w: u32) -> E {
        let key = (f as u32, args.into_boxed_slice());
        if let Some(&e) = self.uf_ids.get(&key) {
            return e;
        }
        let ai = self.uf_args.len() as u32;
        self.uf_args.push(key.1.clone());
        let id = self.push(Node { op: Op::Uf, w: w as u8, a: f as u32, b: ai, c: 0 });
        self.uf_ids.insert(key, id);
        id
    }

    // ---- concat / extract -------------------------------------------------

    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        assert!(w <= 128, "concat too wide");
        let nh = self.node(hi);
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, lo);
            return self.concat(nh.a, r);
        }
        if let Some(m) = self.merge(hi, lo) {
            return m;
        }
        // upper bits of a sum or product beside the same value's lower bits
        if nh.op == Op::Extract && nh.b >= wl && matches!(self.node(nh.a).op, Op::Add | Op::Mul) {
            let c = self.extract(nh.a, nh.b - wl, wl);
            if c == lo {
                return self.extract(nh.a, nh.b - wl, w);
            }
        }
        let nl = self.node(lo);
        if nl.op == Op::Concat {
            if let Some(m) = self.merge(hi, nl.a) {
                return self.concat(m, nl.b);
            }
        }
        self.mk(Op::Concat, w, hi, lo, 0)
    }

    /// Merge two adjacent non-concat pieces into one piece.
    fn merge(&mut self, hi: E, lo: E) -> Option<E> {
        let (nh, nl) = (self.node(hi), self.node(lo));
        let (wh, wl) = (nh.w as u32, nl.w as u32);
        if nh.op == Op::Const && nl.op == Op::Const {
            let v = (self.consts[nh.a as usize] << wl) | self.consts[nl.a as usize];
            return Some(self.konst(wh + wl, v));
        }
        let (bh, lh) = if nh.op == Op::Extract { (nh.a, nh.b) } else { return None };
        let (bl, ll) = if nl.op == Op::Extract {
            (nl.a, nl.b)
        } else if bh == lo {
            // extract(x) : x is never adjacent
            return None;
        } else {
            return None;
        };
        if bh == bl && lh == ll + wl {
            return Some(self.extract(bh, ll, wh + wl));
        }
        None
    }

    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let n = self.node(e);
        let we = n.w as u32;
        debug_assert!(lo + w <= we, "extract {}+{} of {}", lo, w, we);
        if w == we {
            return e;
        }
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize] >> lo;
                self.konst(w, v)
            }
            Op::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl {
                    self.extract(n.b, lo, w)
                } else if lo >= wl {
                    self.extract(n.a, lo - wl, w)
                } else {
                    let l = self.extract(n.b, lo, wl - lo);
                    let h = self.extract(n.a, 0, w - (wl - lo));
                    self.concat(h, l)
                }
            }
            Op::Extract => self.extract(n.a, n.b + lo, w),
            Op::And | Op::Or | Op::Xor => {
                let a = self.extract(n.a, lo, w);
                let b = self.extract(n.b, lo, w);
                match n.op {
                    Op::And => self.and(a, b),
                    Op::Or => self.or(a, b),
                    _ => self.xor(a, b),
                }
            }
            Op::Not => {
                let a = self.extract(n.a, lo, w);
                self.not(a)
            }
            Op::Add if lo == 0 => {
                let a = self.extract(n.a, 0, w);
                let b = self.extract(n.b, 0, w);
                self.add(a, b)
            }
            Op::Mul if lo == 0 => {
                let a = self.extract(n.a, 0, w);
                let b = self.extract(n.b, 0, w);
                self.mul(a, b)
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    self.extract(n.a, lo, w)
                } else if lo == 0 {
                    self.sext(n.a, w)
                } else {
                    self.mk(Op::Extract, w, e, lo, 0)
                }
            }
            Op::Ite => {
                let (b, c) = (self.node(n.b), self.node(n.c));
                let simple = |o: Op| matches!(o, Op::Const | Op::Concat | Op::Ite);
                if simple(b.op) && simple(c.op) && (b.op == Op::Const || c.op == Op::Const || we <= 64) {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    self.ite(n.a, x, y)
                } else {
                    self.mk(Op::Extract, w, e, lo, 0)
                }
            }
            _ => self.mk(Op::Extract, w, e, lo, 0),
        }
    }

    pub fn zext(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if w == we {
            return e;
        }
        let z = self.konst(w - we, 0);
        self.concat(z, e)
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if w == we {
            return e;
        }
        if let Some(v) = self.as_const(e) {
            return self.konst(w, sext_val(v, we) as u128);
        }
        if self.maybe_ones(e) >> (we - 1) & 1 == 0 {
            return self.zext(e, w);
        }
        let n = self.node(e);
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.mk(Op::SExt, w, e, 0, 0)
    }
    pub fn trunc(&mut self, e: E, w: u32) -> E {
        self.extract(e, 0, w)
    }

    /// Pieces of a concat from low to high with their offsets.
    fn pieces(&self, e: E, out: &mut Vec<(E, u32)>) {
        let mut rev = Vec::new();
        let mut cur = e;
        loop {
            let n = self.node(cur);
            if n.op == Op::Concat {
                rev.push(n.a);
                cur = n.b;
            } else {
                rev.push(cur);
                break;
            }
        }
        let mut off = 0;
        for p in rev.into_iter().rev() {
            out.push((p, off));
            off += self.w(p);
        }
    }

    // ---- bitwise ----------------------------------------------------------

    fn bit_const(&mut self, op: Op, x: E, c: u128) -> E {
        let w = self.w(x);
        // split c into runs
        let mut res: Option<E> = None;
        let mut i = 0;
        while i < w {
            let bit = (c >> i) & 1;
            let mut j = i + 1;
            while j < w && (c >> j) & 1 == bit {
                j += 1;
            }
            let seg = match (op, bit) {
                (Op::And, 0) => self.konst(j - i, 0),
                (Op::And, _) => self.extract(x, i, j - i),
                (Op::Or, 0) => self.extract(x, i, j - i),
                _ => self.konst(j - i, u128::MAX),
            };
            res = Some(match res {
                None => seg,
                Some(r) => self.concat(seg, r),
            });
            i = j;
        }
        res.unwrap()
    }

    fn split_bitop(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.node(a), self.node(b));
        if na.op != Op::Concat && nb.op != Op::Concat {
            return None;
        }
        let (mut pa, mut pb) = (Vec::new(), Vec::new());
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        let anyconst = pa.iter().chain(pb.iter()).any(|&(p, _)| self.as_const(p).is_some());
        if !anyconst {
            return None;
        }
        let w = self.w(a);
        let mut cuts: Vec<u32> = pa.iter().chain(pb.iter()).map(|x| x.1).collect();
        cuts.push(w);
        cuts.sort();
        cuts.dedup();
        let mut res: Option<E> = None;
        for i in 0..cuts.len() - 1 {
            let (lo, hi) = (cuts[i], cuts[i + 1]);
            let x = self.extract(a, lo, hi - lo);
            let y = self.extract(b, lo, hi - lo);
            let s = match op {
                Op::And => self.and(x, y),
                Op::Or => self.or(x, y),
                _ => self.xor(x, y),
            };
            res = Some(match res {
                None => s,
                Some(r) => self.concat(s, r),
            });
        }
        res
    }

    pub fn and(&mut self, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.konst(w, x & y),
            (Some(x), None) => return self.bit_const(Op::And, b, x),
            (None, Some(y)) => return self.bit_const(Op::And, a, y),
            _ => {}
        }
        if self.is_not_of(a, b) {
            return self.konst(w, 0);
        }
        if w == 1 {
            // absorption with nested and
            let (na, nb) = (self.node(a), self.node(b));
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return b;
            }
            if na.op == Op::And && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                return a;
            }
            if na.op == Op::Or && (na.a == b || na.b == b) {
                return b;
            }
        }
        if let Some(r) = self.split_bitop(Op::And, a, b) {
            return r;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::And, w, a, b, 0)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.konst(w, x | y),
            (Some(x), None) => return self.bit_const(Op::Or, b, x),
            (None, Some(y)) => return self.bit_const(Op::Or, a, y),
            _ => {}
        }
        if self.is_not_of(a, b) {
            return self.konst(w, u128::MAX);
        }
        if w == 1 {
            let (na, nb) = (self.node(a), self.node(b));
            if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                return b;
            }
            if na.op == Op::Or && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return a;
            }
            if na.op == Op::And && (na.a == b || na.b == b) {
                return b;
            }
        }
        if let Some(r) = self.split_bitop(Op::Or, a, b) {
            return r;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Or, w, a, b, 0)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.konst(w, 0);
        }
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.konst(w, x ^ y),
            (Some(_), None) => return self.xor(b, a),
            (None, Some(y)) => {
                if y == 0 {
                    return a;
                }
                if y == mask(w) {
                    return self.not(a);
                }
                let n = self.node(a);
                if n.op == Op::Xor {
                    if let Some(z) = self.as_const(n.b) {
                        let k = self.konst(w, y ^ z);
                        return self.xor(n.a, k);
                    }
                }
                if let Some(r) = self.split_bitop(Op::Xor, a, b) {
                    return r;
                }
                return self.mk(Op::Xor, w, a, b, 0);
            }
            _ => {}
        }
        if self.is_not_of(a, b) {
            return self.konst(w, u128::MAX);
        }
        // x ^ (x ^ y)
        let (na, nb) = (self.node(a), self.node(b));
        if nb.op == Op::Xor {
            if nb.a == a {
                return nb.b;
            }
            if nb.b == a {
                return nb.a;
            }
        }
        if na.op == Op::Xor {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        if let Some(r) = self.split_bitop(Op::Xor, a, b) {
            return r;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Xor, w, a, b, 0)
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let (na, nb) = (self.node(a), self.node(b));
        (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a)
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.node(a);
        let w = n.w as u32;
        match n.op {
            Op::Const => {
                let v = !self.consts[n.a as usize];
                self.konst(w, v)
            }
            Op::Not => n.a,
            Op::Concat => {
                let h = self.not(n.a);
                let l = self.not(n.b);
                self.concat(h, l)
            }
            Op::Xor if self.as_const(n.b).is_some() => {
                let v = !self.as_const(n.b).unwrap();
                let k = self.konst(w, v);
                self.xor(n.a, k)
            }
            _ => self.mk(Op::Not, w, a, 0, 0),
        }
    }

    // ---- arithmetic -------------------------------------------------------

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.konst(w, x.wrapping_add(y)),
            (Some(_), None) => return self.add(b, a),
            (None, Some(y)) => {
                if y == 0 {
                    return a;
                }
                let n = self.node(a);
                if n.op == Op::Add {
                    if let Some(z) = self.as_const(n.b) {
                        let k = self.konst(w, y.wrapping_add(z));
                        return self.add(n.a, k);
                    }
                }
                if n.op == Op::Ite {
                    if let (Some(p), Some(q)) = (self.as_const(n.b), self.as_const(n.c)) {
                        let p = self.konst(w, p.wrapping_add(y));
                        let q = self.konst(w, q.wrapping_add(y));
                        return self.ite(n.a, p, q);
                    }
                }
            }
            _ => {}
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if self.maybe_ones(a) & self.maybe_ones(b) == 0 {
            return self.or(a, b);
        }
        // pull constants outward
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == Op::Add && self.as_const(na.b).is_some() {
            let s = self.add(na.a, b);
            return self.add(s, na.b);
        }
        if nb.op == Op::Add && self.as_const(nb.b).is_some() {
            let s = self.add(a, nb.a);
            return self.add(s, nb.b);
        }
        if matches!(na.op, Op::Add | Op::Mul) || matches!(nb.op, Op::Add | Op::Mul) {
            if let Some(r) = self.add_linear(a, b) {
                return r;
            }
        }
        let is_c = |s: &Self, e: E| s.as_const(e).is_some();
        let (a, b) = if is_c(self, b) || a < b { (a, b) } else { (b, a) };
        self.mk(Op::Add, w, a, b, 0)
    }
    /// Canonical sum of two values, as a linear combination.
    fn add_linear(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let mut ts: Vec<(E, u128)> = Vec::new();
        let mut k = 0u128;
        self.linear(a, 1, &mut ts, &mut k);
        self.linear(b, 1, &mut ts, &mut k);
        if ts.len() > 8 {
            return None;
        }
        loop {
            ts.sort();
            let mut out: Vec<(E, u128)> = Vec::new();
            for (e, m) in ts {
                let m = m & mask(w);
                match out.last_mut() {
                    Some(l) if l.0 == e => l.1 = l.1.wrapping_add(m) & mask(w),
                    _ => out.push((e, m)),
                }
            }
            out.retain(|t| t.1 != 0);
            ts = out;
            // pieces that do not overlap, e.g. the two halves of a value
            let mut hit = None;
            'f: for i in 0..ts.len() {
                for j in i + 1..ts.len() {
                    if ts[i].1 == 1 && ts[j].1 == 1 && self.maybe_ones(ts[i].0) & self.maybe_ones(ts[j].0) == 0 {
                        hit = Some((i, j));
                        break 'f;
                    }
                }
            }
            match hit {
                None => break,
                Some((i, j)) => {
                    let (y, _) = ts.swap_remove(j);
                    let (x, _) = ts.swap_remove(i);
                    let o = self.or(x, y);
                    self.linear(o, 1, &mut ts, &mut k);
                    if ts.len() > 8 {
                        return None;
                    }
                }
            }
        }
        let mut r = None;
        for (e, m) in ts {
            let me = self.konst(w, m);
            let p = self.mul(e, me);
            r = Some(match r {
                None => p,
                Some(q) => {
                    let (q, p) = if q < p { (q, p) } else { (p, q) };
                    self.mk(Op::Add, w, q, p, 0)
                }
            });
        }
        let ke = self.konst(w, k);
        Some(match r {
            None => ke,
            Some(r) if k & mask(w) == 0 => r,
            Some(r) => self.mk(Op::Add, w, r, ke, 0),
        })
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let k = self.konst(w, u128::MAX);
        self.mul(a, k)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.konst(w, 0);
        }
        if let Some(y) = self.as_const(b) {
            let k = self.konst(w, y.wrapping_neg());
            return self.add(a, k);
        }
        let n = self.neg(b);
        self.add(a, n)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match (self.as_const(a), self.as_const(b)) {
            (Some(x), Some(y)) => return self.konst(w, x.wrapping_mul(y)),
            (Some(_), None) => return self.mul(b, a),
            (None, Some(y)) => {
                if y == 0 {
                    return b;
                }
                if y == 1 {
                    return a;
                }
                if y.is_power_of_two() {
                    let k = y.trailing_zeros();
                    return self.shl_c(a, k);
                }
                let n = self.node(a);
                if n.op == Op::Mul {
                    if let Some(z) = self.as_const(n.b) {
                        let k = self.konst(w, y.wrapping_mul(z));
                        return self.mul(n.a, k);
                    }
                }
                if n.op == Op::Add {
                    let p = self.mul(n.a, b);
                    let q = self.mul(n.b, b);
                    return self.add(p, q);
                }
                return self.mk(Op::Mul, w, a, b, 0);
            }
            _ => {}
        }
        if w == 1 {
            return self.and(a, b);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Mul, w, a, b, 0)
    }
    pub fn shl_c(&mut self, a: E, k: u32) -> E {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        if k >= w {
            return self.konst(w, 0);
        }
        let h = self.extract(a, 0, w - k);
        let l = self.konst(k, 0);
        self.concat(h, l)
    }
    pub fn lshr_c(&mut self, a: E, k: u32) -> E {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        if k >= w {
            return self.konst(w, 0);
        }
        let h = self.extract(a, k, w - k);
        self.zext(h, w)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            return self.shl_c(a, k.min(w as u128) as u32);
        }
        if self.as_const(a) == Some(0) {
            return a;
        }
        self.mk(Op::Shl, w, a, b, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.as_const(b) {
            return self.lshr_c(a, k.min(w as u128) as u32);
        }
        if self.as_const(a) == Some(0) {
            return a;
        }
        self.mk(Op::LShr, w, a, b, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.maybe_ones(a) >> (w - 1) & 1 == 0 {
            return self.lshr(a, b);
        }
        if let Some(k) = self.as_const(b) {
            let k = k.min((w - 1) as u128) as u32;
            if k == 0 {
                return a;
            }
            let h = self.extract(a, k, w - k);
            return self.sext(h, w);
        }
        self.mk(Op::AShr, w, a, b, 0)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.as_const(b) {
            if let Some(x) = self.as_const(a) {
                if y != 0 {
                    return self.konst(w, x / y);
                }
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                return self.lshr_c(a, y.trailing_zeros());
            }
            if y != 0 && self.range(a).1 < y {
                return self.konst(w, 0);
            }
            if let Some((q, _, guard)) = self.div_linear(a, y) {
                if self.as_const(guard) == Some(1) {
                    return q;
                }
                let d = self.mk(Op::UDiv, w, a, b, 0);
                return self.ite(guard, q, d);
            }
        }
        self.mk(Op::UDiv, w, a, b, 0)
    }
    /// `f * a` as a sum of multiples and a constant.
    fn linear(&self, a: E, f: u128, out: &mut Vec<(E, u128)>, k: &mut u128) {
        let n = self.node(a);
        if let Some(c) = self.as_const(a) {
            *k = k.wrapping_add(c.wrapping_mul(f));
            return;
        }
        match n.op {
            Op::Add => {
                self.linear(n.a, f, out, k);
                self.linear(n.b, f, out, k);
            }
            Op::Mul if self.as_const(n.b).is_some() => {
                self.linear(n.a, f.wrapping_mul(self.as_const(n.b).unwrap()), out, k)
            }
            _ => out.push((a, f)),
        }
    }
    /// Quotient and remainder of `a = c*m*t + rest` by the constant `c`, and the condition (1 bit)
    /// under which they are exact (no wrap-around in the sum).
    fn div_linear(&mut self, a: E, c: u128) -> Option<(E, E, E)> {
        let w = self.w(a);
        let n = self.node(a);
        if n.op != Op::Add && n.op != Op::Mul {
            return None;
        }
        let mut ts = Vec::new();
        let mut k = 0u128;
        self.linear(a, 1, &mut ts, &mut k);
        k &= mask(w);
        for t in &mut ts {
            t.1 &= mask(w);
        }
        if ts.len() > 4 {
            return None;
        }
        let at = ts.iter().position(|t| t.1 % c == 0)?;
        let (t, kt) = ts.swap_remove(at);
        if ts.iter().any(|t| t.1 % c == 0) {
            return None;
        }
        let (kq, kr) = (k / c, k % c);
        // rest = the other terms + kr
        let mut rmax = kr;
        let mut rest = self.konst(w, kr);
        for (e, m) in ts {
            rmax = rmax.checked_add(self.range(e).1.checked_mul(m)?)?;
            let me = self.konst(w, m);
            let p = self.mul(e, me);
            rest = self.add(rest, p);
        }
        if rmax > mask(w) {
            return None;
        }
        let m = kt / c;
        let me = self.konst(w, m);
        let p = self.mul(t, me);
        let ke = self.konst(w, kq);
        let q = self.add(p, ke);
        let ce = self.konst(w, c);
        let room = mask(w) - rmax;
        let bound = self.range(t).1.checked_mul(kt).and_then(|x| x.checked_add(kq * c));
        if bound.map_or(false, |x| x <= room) {
            let (rq, rr) = if rmax < c { (self.konst(w, 0), rest) } else { (self.udiv(rest, ce), self.urem(rest, ce)) };
            let q = self.add(q, rq);
            let t = self.t();
            return Some((q, rr, t));
        }
        if m == 1 && rmax < c {
            // whatever t + kq wrapped to, a == c*q + rest (mod 2^w)
            let lim = self.konst(w, room / c);
            let over = self.ult(lim, q);
            let g = self.not(over);
            return Some((q, rest, g));
        }
        None
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.as_const(b) {
            if let Some(x) = self.as_const(a) {
                if y != 0 {
                    return self.konst(w, x % y);
                }
            }
            if y.is_power_of_two() {
                let k = y.trailing_zeros();
                if k == 0 {
                    return self.konst(w, 0);
                }
                let l = self.extract(a, 0, k);
                return self.zext(l, w);
            }
            if y != 0 && self.range(a).1 < y {
                return a;
            }
            if let Some((_, r, guard)) = self.div_linear(a, y) {
                if self.as_const(guard) == Some(1) {
                    return r;
                }
                let d = self.mk(Op::URem, w, a, b, 0);
                return self.ite(guard, r, d);
            }
        }
        self.mk(Op::URem, w, a, b, 0)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if y != 0 {
                let r = sext_val(x, w).wrapping_div(sext_val(y, w));
                return self.konst(w, r as u128);
            }
        }
        if self.nonneg(a) && self.nonneg(b) {
            return self.udiv(a, b);
        }
        self.mk(Op::SDiv, w, a, b, 0)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if y != 0 {
                let r = sext_val(x, w).wrapping_rem(sext_val(y, w));
                return self.konst(w, r as u128);
            }
        }
        if self.nonneg(a) && self.nonneg(b) {
            return self.urem(a, b);
        }
        self.mk(Op::SRem, w, a, b, 0)
    }
    fn nonneg(&mut self, a: E) -> bool {
        let w = self.w(a);
        self.range(a).1 < (1u128 << (w - 1))
    }

    // ---- predicates -------------------------------------------------------

    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.t();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return if x == y { self.t() } else { self.f() };
        }
        if self.as_const(a).is_some() {
            return self.eq(b, a);
        }
        if w == 1 {
            if let Some(y) = self.as_const(b) {
                return if y == 1 { a } else { self.not(a) };
            }
            let x = self.xor(a, b);
            return self.not(x);
        }
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == Op::Concat && nb.op == Op::Const || na.op == Op::Concat && nb.op == Op::Concat {
            let (mut pa, mut pb) = (Vec::new(), Vec::new());
            self.pieces(a, &mut pa);
            self.pieces(b, &mut pb);
            let mut cuts: Vec<u32> = pa.iter().chain(pb.iter()).map(|x| x.1).collect();
            cuts.push(w);
            cuts.sort();
            cuts.dedup();
            let mut parts = Vec::new();
            for i in 0..cuts.len() - 1 {
                let (lo, hi) = (cuts[i], cuts[i + 1]);
                let x = self.extract(a, lo, hi - lo);
                let y = self.extract(b, lo, hi - lo);
                let q = if self.w(x) == w { self.mk_eq(x, y) } else { self.eq(x, y) };
                if q == self.f() {
                    return q;
                }
                parts.push(q);
            }
            let mut r = self.t();
            for p in parts {
                r = self.and(r, p);
            }
            return r;
        }
        if let Some(y) = self.as_const(b) {
            match na.op {
                Op::Add => {
                    if let Some(z) = self.as_const(na.b) {
                        let k = self.konst(w, y.wrapping_sub(z));
                        return self.eq(na.a, k);
                    }
                }
                Op::Xor => {
                    if let Some(z) = self.as_const(na.b) {
                        let k = self.konst(w, y ^ z);
                        return self.eq(na.a, k);
                    }
                }
                Op::Not => {
                    let k = self.konst(w, !y);
                    return self.eq(na.a, k);
                }
                Op::Ite => {
                    let (p, q) = (self.as_const(na.b), self.as_const(na.c));
                    match (p, q) {
                        (Some(p), Some(q)) => {
                            return match (p == y, q == y) {
                                (true, true) => self.t(),
                                (true, false) => na.a,
                                (false, true) => self.not(na.a),
                                (false, false) => self.f(),
                            }
                        }
                        (Some(p), None) => {
                            let r = self.eq(na.c, b);
                            return if p == y {
                                self.or(na.a, r)
                            } else {
                                let nc = self.not(na.a);
                                self.and(nc, r)
                            };
                        }
                        (None, Some(q)) => {
                            let r = self.eq(na.b, b);
                            return if q == y {
                                let nc = self.not(na.a);
                                self.or(nc, r)
                            } else {
                                self.and(na.a, r)
                            };
                        }
                        _ => {}
                    }
                }
                Op::SExt => {
                    let wi = self.w(na.a);
                    let lowv = y & mask(wi);
                    if (sext_val(lowv, wi) as u128) & mask(w) == y {
                        let k = self.konst(wi, lowv);
                        return self.eq(na.a, k);
                    }
                    return self.f();
                }
                _ => {}
            }
            let (lo, hi) = self.range(a);
            if y < lo || y > hi {
                return self.f();
            }
        } else if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
            let x = self.eq(na.b, nb.b);
            let y = self.eq(na.c, nb.c);
            return self.ite(na.a, x, y);
        }
        self.mk_eq(a, b)
    }
    fn mk_eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.t();
        }
        let (a, b) = if self.as_const(b).is_some() || (a < b && self.as_const(a).is_none()) { (a, b) } else { (b, a) };
        self.mk(Op::Eq, 1, a, b, 0)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }

    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f();
        }
        let w = self.w(a);
        let (la, ha) = self.range(a);
        let (lb, hb) = self.range(b);
        if ha < lb {
            return self.t();
        }
        if la >= hb {
            return self.f();
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        // strip common leading zeros
        let m = self.maybe_ones(a) | self.maybe_ones(b);
        let need = 128 - m.leading_zeros();
        if need < w && need >= 1 {
            let (na, nb) = (self.node(a), self.node(b));
            let ok = |o: Op| matches!(o, Op::Concat | Op::Const);
            if ok(na.op) && ok(nb.op) {
                let x = self.extract(a, 0, need);
                let y = self.extract(b, 0, need);
                return self.ult(x, y);
            }
        }
        if let Some(y) = self.as_const(b) {
            if y == 1 {
                let z = self.konst(w, 0);
                return self.eq(a, z);
            }
            let na = self.node(a);
            if na.op == Op::Ite {
                if let (Some(p), Some(q)) = (self.as_const(na.b), self.as_const(na.c)) {
                    let p = self.konst(1, (p < y) as u128);
                    let q = self.konst(1, (q < y) as u128);
                    return self.ite(na.a, p, q);
                }
            }
            // a < 2^k  <=>  high bits zero
            if y.is_power_of_two() {
                let k = y.trailing_zeros();
                let h = self.extract(a, k, w - k);
                let z = self.konst(w - k, 0);
                return self.eq(h, z);
            }
        }
        if let Some(x) = self.as_const(a) {
            if x == 0 {
                return self.ne(b, a);
            }
            let nb = self.node(b);
            if nb.op == Op::Ite {
                if let (Some(p), Some(q)) = (self.as_const(nb.b), self.as_const(nb.c)) {
                    let p = self.konst(1, (x < p) as u128);
                    let q = self.konst(1, (x < q) as u128);
                    return self.ite(nb.a, p, q);
                }
            }
            if (x + 1).is_power_of_two() {
                // b > 2^k-1 <=> high bits nonzero
                let k = (x + 1).trailing_zeros();
                if k < w {
                    let h = self.extract(b, k, w - k);
                    let z = self.konst(w - k, 0);
                    return self.ne(h, z);
                }
            }
        }
        self.mk(Op::Ult, 1, a, b, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = sext_val(x, w) < sext_val(y, w);
            return self.konst(1, r as u128);
        }
        if self.nonneg(a) && self.nonneg(b) {
            return self.ult(a, b);
        }
        if self.as_const(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.as_const(a) == Some(mask(w)) {
            // -1 < b  <=> b >= 0
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
            return self.slt(na.a, nb.a);
        }
        self.mk(Op::Slt, 1, a, b, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(v) = self.as_const(c) {
            return if v == 1 { a } else { b };
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let nc = self.node(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (self.node(a), self.node(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // common high/low pieces
        if (na.op == Op::Concat || na.op == Op::Const) && (nb.op == Op::Concat || nb.op == Op::Const) && (na.op != nb.op || na.op == Op::Concat) {
            let (mut pa, mut pb) = (Vec::new(), Vec::new());
            self.pieces(a, &mut pa);
            self.pieces(b, &mut pb);
            let mut cuts: Vec<u32> = pa.iter().chain(pb.iter()).map(|x| x.1).collect();
            cuts.push(w);
            cuts.sort();
            cuts.dedup();
            let segs: Vec<(E, E)> = (0..cuts.len() - 1)
                .map(|i| {
                    let (lo, l) = (cuts[i], cuts[i + 1] - cuts[i]);
                    (self.extract(a, lo, l), self.extract(b, lo, l))
                })
                .collect();
            if segs.iter().any(|(x, y)| x == y) {
                let mut res: Option<E> = None;
                // group adjacent differing segments
                let mut i = 0;
                while i < segs.len() {
                    let s = if segs[i].0 == segs[i].1 {
                        let r = segs[i].0;
                        i += 1;
                        r
                    } else {
                        let (mut x, mut y) = segs[i];
                        i += 1;
                        while i < segs.len() && segs[i].0 != segs[i].1 {
                            x = self.concat(segs[i].0, x);
                            y = self.concat(segs[i].1, y);
                            i += 1;
                        }
                        self.ite(c, x, y)
                    };
                    res = Some(match res {
                        None => s,
                        Some(r) => self.concat(s, r),
                    });
                }
                return res.unwrap();
            }
        }
        self.mk(Op::Ite, w, c, a, b)
    }

    // ---- analyses ---------------------------------------------------------

    /// Bits that may be one.
    pub fn maybe_ones(&mut self, e: E) -> u128 {
        if let Some(m) = self.ones[e as usize] {
            return m;
        }
        let n = self.node(e);
        let w = n.w as u32;
        let full = mask(w);
        let m = match n.op {
            Op::Const => self.consts[n.a as usize],
            Op::Concat => {
                let wl = self.w(n.b);
                (self.maybe_ones(n.a) << wl) | self.maybe_ones(n.b)
            }
            Op::And => self.maybe_ones(n.a) & self.maybe_ones(n.b),
            Op::Or | Op::Xor => self.maybe_ones(n.a) | self.maybe_ones(n.b),
            Op::Ite => self.maybe_ones(n.b) | self.maybe_ones(n.c),
            Op::Extract => (self.maybe_ones(n.a) >> n.b) & full,
            Op::Add | Op::Mul | Op::UDiv | Op::URem | Op::LShr => {
                let hi = self.range(e).1;
                let hm = if hi == 0 { 0 } else { mask(128 - hi.leading_zeros()) };
                let mut lowz = 0;
                if n.op == Op::Add {
                    let (x, y) = (self.maybe_ones(n.a), self.maybe_ones(n.b));
                    lowz = x.trailing_zeros().min(y.trailing_zeros()).min(w);
                } else if n.op == Op::Mul {
                    let (x, y) = (self.maybe_ones(n.a), self.maybe_ones(n.b));
                    lowz = (x.trailing_zeros() + y.trailing_zeros()).min(w);
                }
                hm & full & !mask(lowz)
            }
            _ => full,
        };
        self.ones[e as usize] = Some(m);
        m
    }

    /// Unsigned interval containing every value.
    pub fn range(&mut self, e: E) -> (u128, u128) {
        if let Some(r) = self.ranges[e as usize] {
            return r;
        }
        let n = self.node(e);
        let w = n.w as u32;
        let full = mask(w);
        let r = match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                (v, v)
            }
            Op::Concat => {
                let wl = self.w(n.b);
                let (a, b) = (self.range(n.a), self.range(n.b));
                ((a.0 << wl) | b.0, (a.1 << wl) | b.1)
            }
            Op::Add => {
                let (a, b) = (self.range(n.a), self.range(n.b));
                if let Some(k) = self.as_const(n.b) {
                    // x + k where k is "negative" and x large enough
                    let negk = k.wrapping_neg() & full;
                    if k > full / 2 && a.0 >= negk {
                        (a.0 - negk, a.1 - negk)
                    } else {
                        match a.1.checked_add(b.1) {
                            Some(s) if s <= full => (a.0 + b.0, s),
                            _ => (0, full),
                        }
                    }
                } else {
                    match a.1.checked_add(b.1) {
                        Some(s) if s <= full => (a.0 + b.0, s),
                        _ => (0, full),
                    }
                }
            }
            Op::Mul => {
                let (a, b) = (self.range(n.a), self.range(n.b));
                match a.1.checked_mul(b.1) {
                    Some(s) if s <= full => (a.0 * b.0, s),
                    _ => (0, full),
                }
            }
            Op::UDiv => {
                let (a, b) = (self.range(n.a), self.range(n.b));
                if b.0 > 0 {
                    (a.0 / b.1, a.1 / b.0)
                } else {
                    (0, full)
                }
            }
            Op::URem => {
                let (a, b) = (self.range(n.a), self.range(n.b));
                if b.0 > 0 {
                    (0, a.1.min(b.1 - 1))
                } else {
                    (0, full)
                }
            }
            Op::LShr => {
                let a = self.range(n.a);
                (0, a.1)
            }
            Op::And => {
                let (a, b) = (self.range(n.a), self.range(n.b));
                (0, a.1.min(b.1))
            }
            Op::Or => {
                let (a, b) = (self.range(n.a), self.range(n.b));
                let m = a.1 | b.1;
                let hi = if m == 0 { 0 } else { mask(128 - m.leading_zeros()) };
                (a.0.max(b.0), hi)
            }
            Op::Xor => {
                let (a, b) = (self.range(n.a), self.range(n.b));
                let m = a.1 | b.1;
                let hi = if m == 0 { 0 } else { mask(128 - m.leading_zeros()) };
                (0, hi)
            }
            Op::Ite => {
                let (a, b) = (self.range(n.b), self.range(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::Extract if n.b == 0 => {
                let a = self.range(n.a);
                if a.1 <= full {
                    a
                } else {
                    (0, full)
                }
            }
            _ => (0, full),
        };
        self.ranges[e as usize] = Some(r);
        r
    }

    /// The variables in `e`.
    pub fn vars_in(&self, e: E) -> Vec<E> {
        let mut seen: HashSet<E> = HashSet::default();
        let mut stack = vec![e];
        let mut out = vec![];
        while let Some(x) = stack.pop() {
            if seen.insert(x) {
                if self.node(x).op == Op::Var {
                    out.push(x);
                }
                stack.extend(self.kids(x));
            }
        }
        out.sort();
        out
    }

    pub fn varset(&mut self, e: E) -> VarSet {
        if let Some(v) = &self.vsets[e as usize] {
            return **v;
        }
        // iterative post-order to avoid deep recursion
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.vsets[x as usize].is_some() {
                continue;
            }
            let kids = self.kids(x);
            if !done {
                stack.push((x, true));
                for k in kids {
                    if self.vsets[k as usize].is_none() {
                        stack.push((k, false));
                    }
                }
            } else {
                let n = self.node(x);
                let mut s: VarSet = [0; NVARBITS / 64];
                match n.op {
                    Op::Var => {
                        let b = 8 + (n.a as usize % (NVARBITS - 8));
                        s[b / 64] |= 1 << (b % 64);
                    }
                    Op::Uf => {
                        let b = n.a as usize;
                        s[b / 64] |= 1 << (b % 64);
                    }
                    _ => {}
                }
                for k in kids {
                    let ks = self.vsets[k as usize].as_ref().unwrap();
                    for i in 0..s.len() {
                        s[i] |= ks[i];
                    }
                }
                self.vsets[x as usize] = Some(Box::new(s));
            }
        }
        **self.vsets[e as usize].as_ref().unwrap()
    }

    pub fn kids(&self, e: E) -> Vec<E> {
        let n = self.node(e);
        match n.op {
            Op::Const | Op::Var => vec![],
            Op::Not | Op::Extract | Op::SExt => vec![n.a],
            Op::Ite => vec![n.a, n.b, n.c],
            Op::Uf => self.uf_args[n.b as usize].to_vec(),
            _ => vec![n.a, n.b],
        }
    }

    /// The conditions of the selections in `e`, inner ones first; none if `e` has more than `max` nodes or
    /// uninterpreted functions.
    pub fn ite_conds(&self, e: E, max: usize) -> Vec<E> {
        let mut seen: HashMap<E, ()> = HashMap::default();
        let mut out = vec![];
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            let n = self.node(x);
            if done {
                if n.op == Op::Ite && !out.contains(&n.a) {
                    out.push(n.a);
                }
                continue;
            }
            if seen.insert(x, ()).is_some() {
                continue;
            }
            if seen.len() > max || n.op == Op::Uf {
                return vec![];
            }
            stack.push((x, true));
            for k in self.kids(x) {
                stack.push((k, false));
            }
        }
        out
    }

    /// Rebuild `e` with the replacements in `map`, which also serves as the memo.
    pub fn rebuild(&mut self, e: E, map: &mut HashMap<E, E>) -> E {
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if map.contains_key(&x) {
                stack.pop();
                continue;
            }
            let kids = self.kids(x);
            let todo: Vec<E> = kids.iter().copied().filter(|k| !map.contains_key(k)).collect();
            if !todo.is_empty() {
                stack.extend(todo);
                continue;
            }
            stack.pop();
            let r = if kids.iter().all(|k| map[k] == *k) {
                x
            } else {
                let n = self.node(x);
                let k: Vec<E> = kids.iter().map(|k| map[k]).collect();
                match n.op {
                    Op::Const | Op::Var => x,
                    Op::Add => self.add(k[0], k[1]),
                    Op::Mul => self.mul(k[0], k[1]),
                    Op::UDiv => self.udiv(k[0], k[1]),
                    Op::URem => self.urem(k[0], k[1]),
                    Op::SDiv => self.sdiv(k[0], k[1]),
                    Op::SRem => self.srem(k[0], k[1]),
                    Op::And => self.and(k[0], k[1]),
                    Op::Or => self.or(k[0], k[1]),
                    Op::Xor => self.xor(k[0], k[1]),
                    Op::Not => self.not(k[0]),
                    Op::Shl => self.shl(k[0], k[1]),
                    Op::LShr => self.lshr(k[0], k[1]),
                    Op::AShr => self.ashr(k[0], k[1]),
                    Op::Concat => self.concat(k[0], k[1]),
                    Op::Extract => self.extract(k[0], n.b, n.w as u32),
                    Op::SExt => self.sext(k[0], n.w as u32),
                    Op::Ite => self.ite(k[0], k[1], k[2]),
                    Op::Eq => self.eq(k[0], k[1]),
                    Op::Ult => self.ult(k[0], k[1]),
                    Op::Slt => self.slt(k[0], k[1]),
                    Op::Uf => self.uf(UfName::from_u32(n.a), k, n.w as u32),
                }
            };
            map.insert(x, r);
        }
        map[&e]
    }

    /// Function applications below `e`, arguments before the applications they occur in.
    pub fn apps(&self, e: E) -> Vec<E> {
        let mut seen = HashSet::default();
        let mut out = vec![];
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if done {
                out.push(x);
                continue;
            }
            if !seen.insert(x) {
                continue;
            }
            if self.node(x).op == Op::Uf {
                stack.push((x, true));
            }
            for k in self.kids(x) {
                stack.push((k, false));
            }
        }
        out
    }

    // ---- evaluation -------------------------------------------------------

    pub fn new_eval(&mut self) {
        self.epoch += 1;
    }
    /// Evaluate under `model` (values by variable index, missing = 0). Call `new_eval` whenever the
    /// model changes.
    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        if self.memo_epoch[e as usize] == self.epoch {
            return self.memo_val[e as usize];
        }
        let mut stack: Vec<E> = vec![e];
        while let Some(&x) = stack.last() {
            if self.memo_epoch[x as usize] == self.epoch {
                stack.pop();
                continue;
            }
            let n = self.node(x);
            // lazily evaluate ite
            if n.op == Op::Ite {
                if self.memo_epoch[n.a as usize] != self.epoch {
                    stack.push(n.a);
                    continue;
                }
                let pick = if self.memo_val[n.a as usize] == 1 { n.b } else { n.c };
                if self.memo_epoch[pick as usize] != self.epoch {
                    stack.push(pick);
                    continue;
                }
                let v = self.memo_val[pick as usize];
                self.memo_epoch[x as usize] = self.epoch;
                self.memo_val[x as usize] = v;
                stack.pop();
                continue;
            }
            let mut ready = true;
            match n.op {
                Op::Const | Op::Var => {}
                Op::Not | Op::Extract | Op::SExt => {
                    if self.memo_epoch[n.a as usize] != self.epoch {
                        stack.push(n.a);
                        ready = false;
                    }
                }
                Op::Uf => {
                    for i in 0..self.uf_args[n.b as usize].len() {
                        let k = self.uf_args[n.b as usize][i];
                        if self.memo_epoch[k as usize] != self.epoch {
                            stack.push(k);
                            ready = false;
                        }
                    }
                }
                _ => {
                    if self.memo_epoch[n.a as usize] != self.epoch {
                        stack.push(n.a);
                        ready = false;
                    }
                    if self.memo_epoch[n.b as usize] != self.epoch {
                        stack.push(n.b);
                        ready = false;
                    }
                }
            }
            if !ready {
                continue;
            }
            let v = self.eval_node(n, model);
            self.memo_epoch[x as usize] = self.epoch;
            self.memo_val[x as usize] = v;
            stack.pop();
        }
        self.memo_val[e as usize]
    }

    fn eval_node(&self, n: Node, model: &[u64]) -> u128 {
        let m = mask(n.w as u32);
        match n.op {
            Op::Const => self.consts[n.a as usize],
            Op::Var => (*model.get(n.a as usize).unwrap_or(&0)) as u128 & m,
            Op::Ite => unreachable!(),
            Op::Uf => {
                let args: Vec<u8> = self.uf_args[n.b as usize]
                    .iter()
                    .map(|&k| self.memo_val[k as usize] as u8)
                    .collect();
                crate::crypto::uf(UfName::from_u32(n.a), &args)
            }
            Op::Not | Op::Extract | Op::SExt => apply(n, self.w(n.a), 0, self.memo_val[n.a as usize], 0),
            _ => apply(n, self.w(n.a), self.w(n.b), self.memo_val[n.a as usize], self.memo_val[n.b as usize]),
        }
    }

    pub fn show(&self, e: E, depth: usize) -> String {
        let n = self.node(e);
        if n.op == Op::Const {
            return format!("{:#x}:{}", self.consts[n.a as usize], n.w);
        }
        if n.op == Op::Var {
            return self.vars[n.a as usize].0.clone();
        }
        if depth == 0 {
            return "..".into();
        }
        if n.op == Op::Uf {
            return format!("{}({} args)", UfName::from_u32(n.a).name(), self.uf_args[n.b as usize].len());
        }
        if n.op == Op::Extract {
            return format!("{}[{}+{}]", self.show(n.a, depth - 1), n.b, n.w);
        }
        let k: Vec<String> = self.kids(e).iter().map(|&k| self.show(k, depth - 1)).collect();
        format!("({:?} {})", n.op, k.join(" "))
    }
}
