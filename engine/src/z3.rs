//! Thin FFI layer over libz3's C API and the translation of expressions to bit-vector terms.
#![allow(non_camel_case_types)]
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
}

extern "C" fn on_error(_c: P, code: c_int) {
    eprintln!("symx: z3 API error {code}");
    std::process::exit(3);
}

pub type Dom = [u64; 4];
pub const FULL: Dom = [u64::MAX; 4];
pub fn dom_has(d: &Dom, v: u32) -> bool { d[(v >> 6) as usize] >> (v & 63) & 1 == 1 }
pub fn dom_count(d: &Dom) -> u32 { d.iter().map(|x| x.count_ones()).sum() }
pub fn dom_iter(d: &Dom) -> impl Iterator<Item = u32> + '_ { (0..256).filter(|v| dom_has(d, *v)) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res { Sat, Unsat, Unknown }

pub struct Z3 {
    ctx: P,
    solver: P,
    memo: HashMap<u64, P>,
    keep: Vec<E>,
    vars: HashMap<u32, P>,
    n: u64,
    pub queries: u64,
    pub time: f64,
    timeout_ms: u32,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        let mut z = Z3 { ctx: std::ptr::null_mut(), solver: std::ptr::null_mut(), memo: HashMap::new(), keep: vec![], vars: HashMap::new(), n: 0, queries: 0, time: 0.0, timeout_ms };
        z.init();
        z
    }
    fn init(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            let (k, v) = (CString::new("model").unwrap(), CString::new("true").unwrap());
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(on_error));
            let l = CString::new("QF_BV").unwrap();
            self.solver = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, l.as_ptr()));
            Z3_solver_inc_ref(self.ctx, self.solver);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, t.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.ctx, self.solver, p);
        }
    }
    fn recycle(&mut self) {
        self.memo.clear();
        self.keep.clear();
        self.vars.clear();
        unsafe { Z3_del_context(self.ctx) };
        self.init();
        self.n = 0;
    }
    fn num(&self, v: u128, w: u16) -> P {
        unsafe {
            if w <= 64 { return Z3_mk_unsigned_int64(self.ctx, v as u64, Z3_mk_bv_sort(self.ctx, w as c_uint)); }
            let hi = Z3_mk_unsigned_int64(self.ctx, (v >> 64) as u64, Z3_mk_bv_sort(self.ctx, w as c_uint - 64));
            let lo = Z3_mk_unsigned_int64(self.ctx, v as u64, Z3_mk_bv_sort(self.ctx, 64));
            Z3_mk_concat(self.ctx, hi, lo)
        }
    }
    fn var(&mut self, v: u32) -> P {
        let ctx = self.ctx;
        *self.vars.entry(v).or_insert_with(|| unsafe { Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, v as c_int), Z3_mk_bv_sort(ctx, 8)) })
    }
    fn b2v(&self, b: P) -> P { unsafe { Z3_mk_ite(self.ctx, b, self.num(1, 1), self.num(0, 1)) } }
    fn term(&mut self, e: &E) -> P {
        if let Some(p) = self.memo.get(&e.id) { return *p; }
        for x in nodes_of(e) {
            if self.memo.contains_key(&x.id) { continue; }
            let c = self.ctx;
            let g = |y: &E| self.memo[&y.id];
            let p = unsafe {
                match &x.k {
                    K::Const(v) => self.num(*v, x.w),
                    K::Var(v) => self.var(*v),
                    K::Bin(o, a, b) => {
                        let (a, b) = (g(a), g(b));
                        match o {
                            BinOp::Add => Z3_mk_bvadd(c, a, b), BinOp::Sub => Z3_mk_bvsub(c, a, b), BinOp::Mul => Z3_mk_bvmul(c, a, b),
                            BinOp::UDiv => Z3_mk_bvudiv(c, a, b), BinOp::SDiv => Z3_mk_bvsdiv(c, a, b),
                            BinOp::URem => Z3_mk_bvurem(c, a, b), BinOp::SRem => Z3_mk_bvsrem(c, a, b),
                            BinOp::And => Z3_mk_bvand(c, a, b), BinOp::Or => Z3_mk_bvor(c, a, b), BinOp::Xor => Z3_mk_bvxor(c, a, b),
                            BinOp::Shl => Z3_mk_bvshl(c, a, b), BinOp::LShr => Z3_mk_bvlshr(c, a, b), BinOp::AShr => Z3_mk_bvashr(c, a, b),
                        }
                    }
                    K::Cmp(p, a, b) => {
                        let (a, b) = (g(a), g(b));
                        let r = match p {
                            Pred::Eq => Z3_mk_eq(c, a, b), Pred::Ne => Z3_mk_not(c, Z3_mk_eq(c, a, b)),
                            Pred::Ugt => Z3_mk_bvult(c, b, a), Pred::Uge => Z3_mk_bvule(c, b, a),
                            Pred::Ult => Z3_mk_bvult(c, a, b), Pred::Ule => Z3_mk_bvule(c, a, b),
                            Pred::Sgt => Z3_mk_bvslt(c, b, a), Pred::Sge => Z3_mk_bvsle(c, b, a),
                            Pred::Slt => Z3_mk_bvslt(c, a, b), Pred::Sle => Z3_mk_bvsle(c, a, b),
                        };
                        self.b2v(r)
                    }
                    K::Ite(i, a, b) => { let i = Z3_mk_eq(c, g(i), self.num(1, 1)); Z3_mk_ite(c, i, g(a), g(b)) }
                    K::Zext(a) => Z3_mk_zero_ext(c, (x.w - a.w) as c_uint, g(a)),
                    K::Sext(a) => Z3_mk_sign_ext(c, (x.w - a.w) as c_uint, g(a)),
                    K::Extract(lo, a) => Z3_mk_extract(c, (*lo + x.w - 1) as c_uint, *lo as c_uint, g(a)),
                    K::Concat(a, b) => Z3_mk_concat(c, g(a), g(b)),
                    K::Lut(a, t) => {
                        let ix = g(a);
                        // runs of equal values as range tests
                        let mut acc = self.num(t[255], x.w);
                        let mut i = 255usize;
                        while i > 0 {
                            let v = t[i];
                            let mut j = i;
                            while j > 0 && t[j - 1] == v { j -= 1; }
                            // values j..=i equal v; below j the rest
                            if j == 0 { break; }
                            let below = t[j - 1];
                            // acc currently right for indices >= j; for index <= j-1 use `below` run
                            let cond = Z3_mk_bvule(c, ix, self.num(j as u128 - 1, 8));
                            acc = Z3_mk_ite(c, cond, self.num(below, x.w), acc);
                            // nested ites: the innermost test must be the largest bound, so build outward
                            i = j - 1;
                        }
                        acc
                    }
                }
            };
            self.memo.insert(x.id, p);
            self.keep.push(x.clone());
        }
        self.memo[&e.id]
    }
    fn dom_term(&mut self, v: u32, d: &Dom) -> Option<P> {
        if *d == FULL { return None; }
        let c = self.ctx;
        let x = self.var(v);
        let mut parts = vec![];
        let mut i = 0u32;
        while i < 256 {
            if !dom_has(d, i) { i += 1; continue; }
            let lo = i;
            while i < 256 && dom_has(d, i) { i += 1; }
            let hi = i - 1;
            unsafe {
                if lo == hi { parts.push(Z3_mk_eq(c, x, self.num(lo as u128, 8))); } else {
                    let a = [Z3_mk_bvule(c, self.num(lo as u128, 8), x), Z3_mk_bvule(c, x, self.num(hi as u128, 8))];
                    parts.push(Z3_mk_and(c, 2, a.as_ptr()));
                }
            }
        }
        Some(unsafe { Z3_mk_or(c, parts.len() as c_uint, parts.as_ptr()) })
    }
    /// Satisfiability of the conjunction of 1-bit expressions and byte domains.
    pub fn check(&mut self, cons: &[E], doms: &[(u32, Dom)], model: Option<&mut HashMap<u32, u8>>) -> Res {
        if self.n > 4000 || self.memo.len() > 300_000 { self.recycle(); }
        let t0 = Instant::now();
        self.n += 1;
        self.queries += 1;
        unsafe {
            Z3_solver_reset(self.ctx, self.solver);
            let one = self.num(1, 1);
            for e in cons {
                let t = self.term(e);
                let a = Z3_mk_eq(self.ctx, t, one);
                Z3_solver_assert(self.ctx, self.solver, a);
            }
            for (v, d) in doms {
                if let Some(t) = self.dom_term(*v, d) { Z3_solver_assert(self.ctx, self.solver, t); }
            }
            let r = match Z3_solver_check(self.ctx, self.solver) { 1 => Res::Sat, -1 => Res::Unsat, _ => Res::Unknown };
            if r == Res::Sat {
                if let Some(m) = model {
                    let md = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, md);
                    for (v, _) in doms {
                        let x = self.var(*v);
                        let mut out: P = std::ptr::null_mut();
                        if Z3_model_eval(self.ctx, md, x, true, &mut out) {
                            let mut u = 0u64;
                            if Z3_get_numeral_uint64(self.ctx, out, &mut u) { m.insert(*v, u as u8); }
                        }
                    }
                    Z3_model_dec_ref(self.ctx, md);
                }
            }
            self.time += t0.elapsed().as_secs_f64();
            r
        }
    }
}
