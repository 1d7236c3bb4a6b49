//! Z3 behind the expression arena: one context per worker, queries over independent slices.
use crate::expr::*;
use crate::ir::BinOp;
use std::collections::HashMap;
use std::ffi::c_void;
use std::os::raw::{c_char, c_int, c_uint};
use std::rc::Rc;
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Sym = *mut c_void;
type Params = *mut c_void;

#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_del_config(c: *mut c_void);
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, v: Ast, u: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: Ctx, sz: c_uint) -> Sort;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Sym;
    fn Z3_mk_const(c: Ctx, s: Sym, ty: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, ty: Sort) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_params(c: Ctx) -> Params;
    fn Z3_params_inc_ref(c: Ctx, p: Params);
    fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    fn Z3_set_error_handler(c: Ctx, h: extern "C" fn(Ctx, c_int));
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_error(_c: Ctx, code: c_int) {
    eprintln!("symx: Z3 error {code}");
    std::process::exit(70);
}

pub type Assign = HashMap<u32, u64>;
#[derive(Clone)]
pub enum Answer {
    Unsat,
    Sat(Rc<Vec<(u32, u64)>>),
    Unknown,
}
pub struct Z3 {
    c: Ctx,
    s: Solver,
    bv: Vec<Ast>,
    bl: Vec<Ast>,
    cache: HashMap<Vec<E>, Answer>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub hits: u64,
    pub time: f64,
    pub max_time: f64,
    /// some queries in SMT-LIB form, for a second solver
    pub dump: Vec<(String, bool)>,
    pub dump_max: usize,
}
pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}
impl Z3 {
    pub fn new(timeout_ms: u32, dump_max: usize) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, on_error);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, c"timeout".as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, bv: vec![], bl: vec![], cache: HashMap::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, hits: 0, time: 0.0, max_time: 0.0, dump: vec![], dump_max }
        }
    }
    fn num(&self, v: u128, w: u32) -> Ast {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w))
            } else {
                let h = self.num(v >> 64, w - 64);
                let l = self.num(v & mask(64), 64);
                Z3_mk_concat(self.c, h, l)
            }
        }
    }
    fn to_bv(&mut self, a: &Arena, e: E) -> Ast {
        if self.bv.len() <= e as usize {
            self.bv.resize(a.n.len().max(e as usize + 1), std::ptr::null_mut());
        }
        if !self.bv[e as usize].is_null() {
            return self.bv[e as usize];
        }
        let (n, w) = a.n[e as usize].clone();
        let c = self.c;
        let r = unsafe {
            match n {
                N::Nil => unreachable!(),
                N::Const(v) => self.num(v, w),
                N::Var(v) => Z3_mk_const(c, Z3_mk_int_symbol(c, v as c_int), Z3_mk_bv_sort(c, w)),
                N::Bin(op, x, y) => {
                    let (x, y) = (self.to_bv(a, x), self.to_bv(a, y));
                    match op {
                        BinOp::Add => Z3_mk_bvadd(c, x, y),
                        BinOp::Sub => Z3_mk_bvsub(c, x, y),
                        BinOp::Mul => Z3_mk_bvmul(c, x, y),
                        BinOp::UDiv => Z3_mk_bvudiv(c, x, y),
                        BinOp::URem => Z3_mk_bvurem(c, x, y),
                        BinOp::SDiv => Z3_mk_bvsdiv(c, x, y),
                        BinOp::SRem => Z3_mk_bvsrem(c, x, y),
                        BinOp::And => Z3_mk_bvand(c, x, y),
                        BinOp::Or => Z3_mk_bvor(c, x, y),
                        BinOp::Xor => Z3_mk_bvxor(c, x, y),
                        BinOp::Shl => Z3_mk_bvshl(c, x, y),
                        BinOp::LShr => Z3_mk_bvlshr(c, x, y),
                        BinOp::AShr => Z3_mk_bvashr(c, x, y),
                    }
                }
                N::Eq(..) | N::Ult(..) | N::Slt(..) => {
                    let b = self.to_bool(a, e);
                    let one = self.num(1, 1);
                    let zero = self.num(0, 1);
                    Z3_mk_ite(c, b, one, zero)
                }
                N::Ite(k, x, y) => {
                    let k = self.to_bool(a, k);
                    let (x, y) = (self.to_bv(a, x), self.to_bv(a, y));
                    Z3_mk_ite(c, k, x, y)
                }
                N::Concat(h, l) => {
                    let (h, l) = (self.to_bv(a, h), self.to_bv(a, l));
                    Z3_mk_concat(c, h, l)
                }
                N::Extract(x, lo) => {
                    let x = self.to_bv(a, x);
                    Z3_mk_extract(c, lo + w - 1, lo, x)
                }
                N::ZExt(x) => {
                    let d = w - a.w(x);
                    let x = self.to_bv(a, x);
                    Z3_mk_zero_ext(c, d, x)
                }
                N::SExt(x) => {
                    let d = w - a.w(x);
                    let x = self.to_bv(a, x);
                    Z3_mk_sign_ext(c, d, x)
                }
            }
        };
        self.bv[e as usize] = r;
        r
    }
    fn to_bool(&mut self, a: &Arena, e: E) -> Ast {
        if self.bl.len() <= e as usize {
            self.bl.resize(a.n.len().max(e as usize + 1), std::ptr::null_mut());
        }
        if !self.bl[e as usize].is_null() {
            return self.bl[e as usize];
        }
        let c = self.c;
        let r = unsafe {
            match a.n[e as usize].0.clone() {
                N::Const(1) => Z3_mk_true(c),
                N::Const(_) => Z3_mk_false(c),
                N::Eq(x, y) => {
                    let (x, y) = (self.to_bv(a, x), self.to_bv(a, y));
                    Z3_mk_eq(c, x, y)
                }
                N::Ult(x, y) => {
                    let (x, y) = (self.to_bv(a, x), self.to_bv(a, y));
                    Z3_mk_bvult(c, x, y)
                }
                N::Slt(x, y) => {
                    let (x, y) = (self.to_bv(a, x), self.to_bv(a, y));
                    Z3_mk_bvslt(c, x, y)
                }
                N::Bin(BinOp::And, x, y) => {
                    let v = [self.to_bool(a, x), self.to_bool(a, y)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                N::Bin(BinOp::Or, x, y) => {
                    let v = [self.to_bool(a, x), self.to_bool(a, y)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                N::Bin(BinOp::Xor, x, y) => {
                    if a.k(y) == Some(1) {
                        let x = self.to_bool(a, x);
                        Z3_mk_not(c, x)
                    } else {
                        let (x, y) = (self.to_bool(a, x), self.to_bool(a, y));
                        Z3_mk_xor(c, x, y)
                    }
                }
                N::Ite(k, x, y) => {
                    let (k, x, y) = (self.to_bool(a, k), self.to_bool(a, x), self.to_bool(a, y));
                    Z3_mk_ite(c, k, x, y)
                }
                _ => {
                    let x = self.to_bv(a, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        self.bl[e as usize] = r;
        r
    }
    /// Is the conjunction satisfiable? The list is a slice: sorted, deduplicated.
    pub fn check(&mut self, a: &mut Arena, conj: Vec<E>) -> Answer {
        if let Some(r) = self.cache.get(&conj) {
            self.hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for e in &conj {
                let b = self.to_bool(a, *e);
                Z3_solver_assert(self.c, self.s, b);
            }
            let mut text = None;
            if self.dump.len() < self.dump_max && (self.queries.is_power_of_two() || self.queries % 97 == 0) {
                text = Some(std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned());
            }
            let r = match Z3_solver_check(self.c, self.s) {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut vs: Vec<u32> = vec![];
                    for e in &conj {
                        vs.extend(a.vars(*e).iter());
                    }
                    vs.sort_unstable();
                    vs.dedup();
                    let mut out = vec![];
                    for v in vs {
                        let ve = a.var[v as usize].0;
                        let ast = self.to_bv(a, ve);
                        let mut o: Ast = std::ptr::null_mut();
                        let ok = Z3_model_eval(self.c, m, ast, true, &mut o);
                        let mut u = 0u64;
                        if !ok || !Z3_get_numeral_uint64(self.c, o, &mut u) {
                            eprintln!("symx: model evaluation failed");
                            std::process::exit(70);
                        }
                        out.push((v, u));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Answer::Sat(Rc::new(out))
                }
                -1 => {
                    self.unsat += 1;
                    Answer::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Answer::Unknown
                }
            };
            if let (Some(t), false) = (text, matches!(r, Answer::Unknown)) {
                self.dump.push((t, matches!(r, Answer::Sat(_))));
            }
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        if dt > 1.0 {
            // debugging aid: SYMX_SLOW=dir keeps the slow queries
            if let Ok(d) = std::env::var("SYMX_SLOW") {
                unsafe {
                    Z3_solver_push(self.c, self.s);
                    for e in &conj {
                        let b = self.to_bool(a, *e);
                        Z3_solver_assert(self.c, self.s, b);
                    }
                    let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                    Z3_solver_pop(self.c, self.s, 1);
                    let _ = std::fs::write(format!("{d}/{:.2}-{}.smt2", dt, self.queries), t);
                }
            }
        }
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        self.cache.insert(conj, r.clone());
        r
    }
}
/// The constraints that share variables, transitively, with `cond`.
pub fn slice(a: &mut Arena, pc: &[E], cond: &[E]) -> Vec<E> {
    let mut vs: Vec<u32> = vec![];
    for c in cond {
        vs.extend(a.vars(*c).iter());
    }
    let mut set: std::collections::HashSet<u32> = vs.into_iter().collect();
    let mut used = vec![false; pc.len()];
    let pv: Vec<Rc<[u32]>> = pc.iter().map(|e| a.vars(*e)).collect();
    loop {
        let mut more = false;
        for i in 0..pc.len() {
            if !used[i] && pv[i].iter().any(|v| set.contains(v)) {
                used[i] = true;
                more = true;
                set.extend(pv[i].iter());
            }
        }
        if !more {
            break;
        }
    }
    let mut out: Vec<E> = pc.iter().zip(&used).filter(|x| *x.1).map(|x| *x.0).collect();
    out.extend_from_slice(cond);
    out.sort_unstable();
    out.dedup();
    out
}
