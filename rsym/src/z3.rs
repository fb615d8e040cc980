//! Minimal FFI to libz3 (C API) and the translation of `expr` nodes into Z3 bit-vector terms.
use crate::expr::{Arena, Op, E};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_iff(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error code {e}");
    std::process::abort();
}

pub struct Z3 {
    c: P,
    s: P,
    byte_vars: Vec<P>,
    /// (bool view, bv view) of each expression, null when absent
    cache: Vec<(P, P)>,
}

pub enum Res {
    Sat(Vec<(usize, u8)>),
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 30_000);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, byte_vars: vec![], cache: vec![] }
        }
    }
    fn sort(&self, w: u8) -> P {
        unsafe { Z3_mk_bv_sort(self.c, w as c_uint) }
    }
    fn byte_var(&mut self, i: usize) -> P {
        while self.byte_vars.len() <= i {
            unsafe {
                let s = Z3_mk_int_symbol(self.c, self.byte_vars.len() as c_int);
                let v = Z3_mk_const(self.c, s, self.sort(8));
                self.byte_vars.push(v);
            }
        }
        self.byte_vars[i]
    }
    fn get(&mut self, e: E) -> (P, P) {
        if self.cache.len() <= e as usize {
            self.cache.resize(e as usize + 1, (std::ptr::null_mut(), std::ptr::null_mut()));
        }
        self.cache[e as usize]
    }
    fn boolean(&mut self, a: &Arena, e: E) -> P {
        let c0 = self.get(e).0;
        if !c0.is_null() {
            return c0;
        }
        let n = a.n(e);
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => if n.k != 0 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Not => {
                    let x = self.boolean(a, n.a);
                    Z3_mk_not(c, x)
                }
                Op::And | Op::Or | Op::Xor => {
                    let v = [self.boolean(a, n.a), self.boolean(a, n.b)];
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, v.as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, v.as_ptr()),
                        _ => Z3_mk_xor(c, v[0], v[1]),
                    }
                }
                Op::Eq if a.w(n.a) == 1 => {
                    let (x, y) = (self.boolean(a, n.a), self.boolean(a, n.b));
                    Z3_mk_iff(c, x, y)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (x, y) = (self.bv(a, n.a), self.bv(a, n.b));
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, x, y),
                        Op::Ult => Z3_mk_bvult(c, x, y),
                        Op::Ule => Z3_mk_bvule(c, x, y),
                        Op::Slt => Z3_mk_bvslt(c, x, y),
                        _ => Z3_mk_bvsle(c, x, y),
                    }
                }
                Op::Ite => {
                    let (x, y, z) =
                        (self.boolean(a, n.a), self.boolean(a, n.b), self.boolean(a, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let v = self.bv(a, e);
                    Z3_mk_eq(c, v, Z3_mk_unsigned_int64(c, 1, self.sort(1)))
                }
            }
        };
        self.get(e);
        self.cache[e as usize].0 = r;
        r
    }
    fn bv(&mut self, a: &Arena, e: E) -> P {
        let c1 = self.get(e).1;
        if !c1.is_null() {
            return c1;
        }
        let n = a.n(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.w <= 64 {
                        Z3_mk_unsigned_int64(c, n.k as u64, self.sort(n.w))
                    } else {
                        let hi = Z3_mk_unsigned_int64(c, (n.k >> 64) as u64, self.sort(n.w - 64));
                        let lo = Z3_mk_unsigned_int64(c, n.k as u64, self.sort(64));
                        Z3_mk_concat(c, hi, lo)
                    }
                }
                Op::Var => self.byte_var(n.k as usize),
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.boolean(a, e);
                    let s = self.sort(1);
                    Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                }
                Op::Not => {
                    let x = self.bv(a, n.a);
                    Z3_mk_bvnot(c, x)
                }
                Op::Extract => {
                    let x = self.bv(a, n.a);
                    Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, x)
                }
                Op::ZExt => {
                    let x = self.bv(a, n.a);
                    Z3_mk_zero_ext(c, (n.w - a.w(n.a)) as c_uint, x)
                }
                Op::SExt => {
                    let x = self.bv(a, n.a);
                    Z3_mk_sign_ext(c, (n.w - a.w(n.a)) as c_uint, x)
                }
                Op::Ite => {
                    let (x, y, z) = (self.boolean(a, n.a), self.bv(a, n.b), self.bv(a, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                op => {
                    let (x, y) = (self.bv(a, n.a), self.bv(a, n.b));
                    match op {
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.get(e);
        self.cache[e as usize].1 = r;
        r
    }
    /// Decide the conjunction of `cs`; on sat, return values for the variables in `vars`.
    pub fn check(&mut self, a: &Arena, cs: &[E], vars: u128) -> Res {
        unsafe {
            Z3_solver_push(self.c, self.s);
            for &e in cs {
                let b = self.boolean(a, e);
                Z3_solver_assert(self.c, self.s, b);
            }
            let r = match Z3_solver_check(self.c, self.s) {
                -1 => Res::Unsat,
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for i in 0..128 {
                        if vars >> i & 1 == 1 {
                            let v = self.byte_var(i);
                            let mut r = std::ptr::null_mut();
                            let mut x = 0u64;
                            if Z3_model_eval(self.c, m, v, true, &mut r)
                                && Z3_get_numeral_uint64(self.c, r, &mut x)
                            {
                                out.push((i, x as u8));
                            }
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(out)
                }
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.c, self.s, 1);
            r
        }
    }
}
