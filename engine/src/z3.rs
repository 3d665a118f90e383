//! Minimal FFI to libz3 and translation of expressions.
#![allow(non_camel_case_types)]
use crate::expr::*;
use crate::expr::{HashMap, HashSet};
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Sym = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Decl = *mut c_void;
type Params = *mut c_void;
type Cfg = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> Cfg;
    fn Z3_del_config(c: Cfg);
    fn Z3_mk_context_rc(c: Cfg) -> Ctx;
    fn Z3_mk_context(c: Cfg) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> Sort;
    fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    fn Z3_mk_func_decl(c: Ctx, s: Sym, n: c_uint, d: *const Sort, r: Sort) -> Decl;
    fn Z3_mk_app(c: Ctx, d: Decl, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    fn Z3_mk_params(c: Ctx) -> Params;
    fn Z3_params_inc_ref(c: Ctx, p: Params);
    fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, a: Ast, compl: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(c: Ctx, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().into_owned();
        eprintln!("z3 error: {}", m);
        std::process::exit(2);
    }
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub enum Res {
    Sat(Vec<(u32, u64)>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: Ctx,
    s: Solver,
    bv: HashMap<E, Ast>,
    bo: HashMap<E, Ast>,
    decls: HashMap<(u32, u32), Decl>,
    pub checks: u64,
    limit_ms: u32,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            // non-refcounted context: all ASTs live until the context is dropped
            let _ = Z3_mk_context_rc as usize;
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            let _ = Z3_inc_ref as usize;
            Z3 { c, s, bv: HashMap::default(), bo: HashMap::default(), decls: HashMap::default(), checks: 0, limit_ms: timeout_ms }
        }
    }

    pub fn check(&mut self, ar: &Arena, cs: &[E], want_model: bool) -> Res {
        unsafe {
            self.checks += 1;
            Z3_solver_push(self.c, self.s);
            for &e in cs {
                let a = self.to_bool(ar, e);
                Z3_solver_assert(self.c, self.s, a);
            }
            let r = Z3_solver_check(self.c, self.s);
            let out = match r {
                1 => {
                    let mut vals = Vec::new();
                    if want_model {
                        let m = Z3_solver_get_model(self.c, self.s);
                        Z3_model_inc_ref(self.c, m);
                        let mut seen = HashSet::default();
                        let mut st: Vec<E> = cs.to_vec();
                        while let Some(e) = st.pop() {
                            if !seen.insert(e) {
                                continue;
                            }
                            let n = ar.node(e);
                            if n.op == Op::Var {
                                let a = self.to_bv(ar, e);
                                let mut o: Ast = std::ptr::null_mut();
                                if Z3_model_eval(self.c, m, a, true, &mut o) {
                                    let mut v = 0u64;
                                    if !Z3_get_numeral_uint64(self.c, o, &mut v) {
                                        eprintln!("z3: no numeral");
                                        std::process::exit(2);
                                    }
                                    vals.push((n.a, v));
                                }
                            } else {
                                st.extend(ar.kids(e));
                            }
                        }
                        Z3_model_dec_ref(self.c, m);
                    }
                    Res::Sat(vals)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.c, self.s, 1);
            out
        }
    }

    /// Change the time limit of the queries that follow.
    pub fn limit(&mut self, ms: u32) {
        if ms == self.limit_ms {
            return;
        }
        self.limit_ms = ms;
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
            Z3_solver_set_params(self.c, self.s, p);
        }
    }

    /// SMT-LIB text of a query (for cross-checking with another solver).
    pub fn smt2(&mut self, ar: &Arena, cs: &[E]) -> String {
        unsafe {
            Z3_solver_push(self.c, self.s);
            for &e in cs {
                let a = self.to_bool(ar, e);
                Z3_solver_assert(self.c, self.s, a);
            }
            let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
            Z3_solver_pop(self.c, self.s, 1);
            s
        }
    }

    fn num(&self, w: u32, v: u128) -> Ast {
        unsafe {
            let t = Z3_mk_bv_sort(self.c, w);
            let s = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.c, s.as_ptr(), t)
        }
    }

    fn build(&mut self, ar: &Arena, root: E) {
        // iterative: make sure all kids are translated (bv form; w1 also in bool form)
        let mut st = vec![root];
        while let Some(&e) = st.last() {
            if self.bv.contains_key(&e) || self.bo.contains_key(&e) {
                st.pop();
                continue;
            }
            let mut ok = true;
            for k in ar.kids(e) {
                if !self.bv.contains_key(&k) && !self.bo.contains_key(&k) {
                    st.push(k);
                    ok = false;
                }
            }
            if ok {
                self.translate(ar, e);
                st.pop();
            }
        }
    }

    fn get_bv(&mut self, ar: &Arena, e: E) -> Ast {
        if let Some(&a) = self.bv.get(&e) {
            return a;
        }
        let b = self.bo[&e];
        debug_assert_eq!(ar.w(e), 1);
        unsafe {
            let one = self.num(1, 1);
            let zero = self.num(1, 0);
            let a = Z3_mk_ite(self.c, b, one, zero);
            self.bv.insert(e, a);
            a
        }
    }
    fn get_bool(&mut self, _ar: &Arena, e: E) -> Ast {
        if let Some(&a) = self.bo.get(&e) {
            return a;
        }
        let b = self.bv[&e];
        unsafe {
            let one = self.num(1, 1);
            let a = Z3_mk_eq(self.c, b, one);
            self.bo.insert(e, a);
            a
        }
    }

    fn translate(&mut self, ar: &Arena, e: E) {
        let n = ar.node(e);
        let w = n.w as u32;
        let c = self.c;
        unsafe {
            if w == 1 {
                let r = match n.op {
                    Op::Const => Some(if ar.as_const(e) == Some(1) { Z3_mk_true(c) } else { Z3_mk_false(c) }),
                    Op::And | Op::Or | Op::Xor => {
                        let x = self.get_bool(ar, n.a);
                        let y = self.get_bool(ar, n.b);
                        Some(match n.op {
                            Op::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                            _ => Z3_mk_xor(c, x, y),
                        })
                    }
                    Op::Not => {
                        let x = self.get_bool(ar, n.a);
                        Some(Z3_mk_not(c, x))
                    }
                    Op::Eq => {
                        let x = self.get_bv(ar, n.a);
                        let y = self.get_bv(ar, n.b);
                        Some(Z3_mk_eq(c, x, y))
                    }
                    Op::Ult => {
                        let x = self.get_bv(ar, n.a);
                        let y = self.get_bv(ar, n.b);
                        Some(Z3_mk_bvult(c, x, y))
                    }
                    Op::Slt => {
                        let x = self.get_bv(ar, n.a);
                        let y = self.get_bv(ar, n.b);
                        Some(Z3_mk_bvslt(c, x, y))
                    }
                    Op::Ite => {
                        let p = self.get_bool(ar, n.a);
                        let x = self.get_bool(ar, n.b);
                        let y = self.get_bool(ar, n.c);
                        Some(Z3_mk_ite(c, p, x, y))
                    }
                    _ => None,
                };
                if let Some(r) = r {
                    self.bo.insert(e, r);
                    return;
                }
            }
            let r = match n.op {
                Op::Const => self.num(w, ar.as_const(e).unwrap()),
                Op::Var => {
                    let s = CString::new(format!("v{}_{}", n.a, ar.vars[n.a as usize].0.replace(['|', '\\', '\0'], "_"))).unwrap();
                    let t = Z3_mk_bv_sort(c, w);
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), t)
                }
                Op::Not => Z3_mk_bvnot(c, self.get_bv(ar, n.a)),
                Op::Extract => Z3_mk_extract(c, n.b + w - 1, n.b, self.get_bv(ar, n.a)),
                Op::SExt => {
                    let a = self.get_bv(ar, n.a);
                    Z3_mk_sign_ext(c, w - ar.w(n.a), a)
                }
                Op::Ite => {
                    let p = self.get_bool(ar, n.a);
                    let x = self.get_bv(ar, n.b);
                    let y = self.get_bv(ar, n.c);
                    Z3_mk_ite(c, p, x, y)
                }
                Op::Uf => {
                    let args: Vec<E> = ar.uf_args[n.b as usize].to_vec();
                    let key = (n.a, args.len() as u32);
                    let b8 = Z3_mk_bv_sort(c, 8);
                    let decl = match self.decls.get(&key) {
                        Some(&d) => d,
                        None => {
                            let s = CString::new(format!("{}_{}", UfName::from_u32(n.a).name(), args.len())).unwrap();
                            let dom = vec![b8; args.len()];
                            let rs = Z3_mk_bv_sort(c, w);
                            let d = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, s.as_ptr()), args.len() as u32, dom.as_ptr(), rs);
                            self.decls.insert(key, d);
                            d
                        }
                    };
                    let av: Vec<Ast> = args.iter().map(|&k| self.get_bv(ar, k)).collect();
                    Z3_mk_app(c, decl, av.len() as u32, av.as_ptr())
                }
                _ => {
                    let x = self.get_bv(ar, n.a);
                    let y = self.get_bv(ar, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!("{:?}", n.op),
                    }
                }
            };
            self.bv.insert(e, r);
        }
    }

    fn to_bool(&mut self, ar: &Arena, e: E) -> Ast {
        self.build(ar, e);
        self.get_bool(ar, e)
    }
    fn to_bv(&mut self, ar: &Arena, e: E) -> Ast {
        self.build(ar, e);
        self.get_bv(ar, e)
    }
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}
