//! z3 through its C API: one context per worker thread.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::sync::Arc;
use std::time::{Duration, Instant};

type Z = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_set_param_value(c: Z, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: Z) -> Z;
    fn Z3_del_context(c: Z);
    fn Z3_del_config(c: Z);
    fn Z3_mk_solver_for_logic(c: Z, s: Z) -> Z;
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_solver_dec_ref(c: Z, s: Z);
    fn Z3_solver_push(c: Z, s: Z);
    fn Z3_solver_pop(c: Z, s: Z, n: c_uint);
    fn Z3_solver_assert(c: Z, s: Z, a: Z);
    fn Z3_solver_check(c: Z, s: Z) -> c_int;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_solver_to_string(c: Z, s: Z) -> *const c_char;
    fn Z3_model_inc_ref(c: Z, s: Z);
    fn Z3_model_dec_ref(c: Z, s: Z);
    fn Z3_model_eval(c: Z, m: Z, t: Z, completion: bool, out: *mut Z) -> bool;
    fn Z3_inc_ref(c: Z, a: Z);
    fn Z3_dec_ref(c: Z, a: Z);
    fn Z3_mk_bv_sort(c: Z, w: c_uint) -> Z;
    fn Z3_mk_const(c: Z, s: Z, sort: Z) -> Z;
    fn Z3_mk_int_symbol(c: Z, i: c_int) -> Z;
    fn Z3_mk_numeral(c: Z, s: *const c_char, sort: Z) -> Z;
    fn Z3_mk_unsigned_int64(c: Z, v: u64, sort: Z) -> Z;
    fn Z3_get_numeral_string(c: Z, a: Z) -> *const c_char;
    fn Z3_get_numeral_uint64(c: Z, a: Z, out: *mut u64) -> bool;
    fn Z3_set_error_handler(c: Z, h: *const c_void);
    fn Z3_get_error_code(c: Z) -> c_int;
    fn Z3_mk_not(c: Z, a: Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_xor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    fn Z3_mk_bvnot(c: Z, a: Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z;
    fn Z3_mk_zero_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Z) -> Z;
}

pub enum Answer { Unsat, Sat(Vec<(u32, u128)>), Unknown(String) }

pub struct Solver {
    ctx: Z,
    solver: Z,
    bv: HashMap<*const Node, (Ex, Z)>,
    bl: HashMap<*const Node, (Ex, Z)>,
    vars: HashMap<(u32, u16), Z>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: Duration,
    pub max: Duration,
    pub dump_every: u64,
    pub dumped: Vec<(String, bool)>,
    timeout_ms: u64,
    since_reset: u64,
}

unsafe fn mk_ctx(timeout_ms: u64) -> (Z, Z) {
    let cfg = Z3_mk_config();
    let set = |k: &str, v: &str| { let k = CString::new(k).unwrap(); let v = CString::new(v).unwrap(); Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr()); };
    set("model", "true");
    set("timeout", &timeout_ms.to_string());
    let ctx = Z3_mk_context_rc(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, std::ptr::null());
    let name = CString::new("QF_BV").unwrap();
    let s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, name.as_ptr()));
    Z3_solver_inc_ref(ctx, s);
    (ctx, s)
}

impl Solver {
    pub fn new(timeout_ms: u64, dump_every: u64) -> Self {
        let (ctx, solver) = unsafe { mk_ctx(timeout_ms) };
        Solver { ctx, solver, bv: HashMap::new(), bl: HashMap::new(), vars: HashMap::new(), queries: 0, sat: 0, unsat: 0, time: Duration::ZERO, max: Duration::ZERO, dump_every, dumped: vec![], timeout_ms, since_reset: 0 }
    }
    fn reset(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.solver);
            Z3_del_context(self.ctx);
            let (c, s) = mk_ctx(self.timeout_ms);
            self.ctx = c; self.solver = s;
        }
        self.bv.clear(); self.bl.clear(); self.vars.clear(); self.since_reset = 0;
    }
    unsafe fn keep(&self, a: Z) -> Z { assert!(!a.is_null(), "z3 term construction failed"); Z3_inc_ref(self.ctx, a); a }
    unsafe fn var(&mut self, i: u32, w: u16) -> Z {
        if let Some(z) = self.vars.get(&(i, w)) { return *z; }
        let s = Z3_mk_int_symbol(self.ctx, (i as c_int) * 256 + w as c_int);
        let z = self.keep(Z3_mk_const(self.ctx, s, Z3_mk_bv_sort(self.ctx, w as c_uint)));
        self.vars.insert((i, w), z);
        z
    }
    unsafe fn num(&self, v: u128, w: u16) -> Z {
        let s = Z3_mk_bv_sort(self.ctx, w as c_uint);
        if w <= 64 { self.keep(Z3_mk_unsigned_int64(self.ctx, v as u64, s)) } else { let t = CString::new(v.to_string()).unwrap(); self.keep(Z3_mk_numeral(self.ctx, t.as_ptr(), s)) }
    }
    unsafe fn to_bv(&mut self, e: &Ex) -> Z {
        if let Some((_, z)) = self.bv.get(&Arc::as_ptr(e)) { return *z; }
        let c = self.ctx;
        let z = match &e.k {
            K::Const(v) => self.num(*v, e.w),
            K::Var(i) => self.var(*i, e.w),
            _ if e.w == 1 && is_boolish(e) => {
                let b = self.to_bool(e);
                let (o, z) = (self.num(1, 1), self.num(0, 1));
                self.keep(Z3_mk_ite(c, b, o, z))
            }
            K::Not(a) => { let a = self.to_bv(a); self.keep(Z3_mk_bvnot(c, a)) }
            K::Bin(op, x, y) => {
                let (x, y) = (self.to_bv(x), self.to_bv(y));
                let r = match op {
                    B::Add => Z3_mk_bvadd(c, x, y), B::Sub => Z3_mk_bvsub(c, x, y), B::Mul => Z3_mk_bvmul(c, x, y),
                    B::UDiv => Z3_mk_bvudiv(c, x, y), B::SDiv => Z3_mk_bvsdiv(c, x, y), B::URem => Z3_mk_bvurem(c, x, y), B::SRem => Z3_mk_bvsrem(c, x, y),
                    B::And => Z3_mk_bvand(c, x, y), B::Or => Z3_mk_bvor(c, x, y), B::Xor => Z3_mk_bvxor(c, x, y),
                    B::Shl => Z3_mk_bvshl(c, x, y), B::LShr => Z3_mk_bvlshr(c, x, y), B::AShr => Z3_mk_bvashr(c, x, y),
                    B::Concat => Z3_mk_concat(c, x, y),
                    _ => unreachable!(),
                };
                self.keep(r)
            }
            K::Ite(d, x, y) => { let d = self.to_bool(d); let (x, y) = (self.to_bv(x), self.to_bv(y)); self.keep(Z3_mk_ite(c, d, x, y)) }
            K::Extract(a, lo) => { let a = self.to_bv(a); self.keep(Z3_mk_extract(c, (*lo + e.w - 1) as c_uint, *lo as c_uint, a)) }
            K::ZExt(a) => { let n = e.w - a.w; let a = self.to_bv(a); self.keep(Z3_mk_zero_ext(c, n as c_uint, a)) }
            K::SExt(a) => { let n = e.w - a.w; let a = self.to_bv(a); self.keep(Z3_mk_sign_ext(c, n as c_uint, a)) }
        };
        self.bv.insert(Arc::as_ptr(e), (e.clone(), z));
        z
    }
    unsafe fn to_bool(&mut self, e: &Ex) -> Z {
        debug_assert_eq!(e.w, 1);
        if let Some((_, z)) = self.bl.get(&Arc::as_ptr(e)) { return *z; }
        let c = self.ctx;
        let z = match &e.k {
            K::Not(a) => { let a = self.to_bool(a); self.keep(Z3_mk_not(c, a)) }
            K::Bin(op, x, y) if is_cmp(*op) => {
                let (x, y) = (self.to_bv(x), self.to_bv(y));
                let r = match op { B::Eq => Z3_mk_eq(c, x, y), B::Ult => Z3_mk_bvult(c, x, y), B::Ule => Z3_mk_bvule(c, x, y), B::Slt => Z3_mk_bvslt(c, x, y), _ => Z3_mk_bvsle(c, x, y) };
                self.keep(r)
            }
            K::Bin(op @ (B::And | B::Or | B::Xor), x, y) => {
                let v = [self.to_bool(x), self.to_bool(y)];
                let r = match op { B::And => Z3_mk_and(c, 2, v.as_ptr()), B::Or => Z3_mk_or(c, 2, v.as_ptr()), _ => Z3_mk_xor(c, v[0], v[1]) };
                self.keep(r)
            }
            K::Ite(d, x, y) => { let (d, x, y) = (self.to_bool(d), self.to_bool(x), self.to_bool(y)); self.keep(Z3_mk_ite(c, d, x, y)) }
            _ => { let b = self.to_bv(e); let o = self.num(1, 1); self.keep(Z3_mk_eq(c, b, o)) }
        };
        self.bl.insert(Arc::as_ptr(e), (e.clone(), z));
        z
    }

    pub fn check(&mut self, cs: &[Ex], widths: &[u16]) -> Answer {
        if self.bv.len() + self.bl.len() > 300_000 || self.since_reset > 40_000 { self.reset(); }
        self.queries += 1;
        self.since_reset += 1;
        let t0 = Instant::now();
        let mut vars: VarSet = 0;
        let ans = unsafe {
            Z3_solver_push(self.ctx, self.solver);
            for e in cs { vars |= e.vars; let z = self.to_bool(e); Z3_solver_assert(self.ctx, self.solver, z); }
            let smt = if self.dump_every > 0 && self.queries % self.dump_every == 1 && self.dumped.len() < 40 {
                Some(CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_string_lossy().into_owned())
            } else { None };
            let r = Z3_solver_check(self.ctx, self.solver);
            let ec = Z3_get_error_code(self.ctx);
            let a = if ec != 0 { Answer::Unknown(format!("z3 error code {}", ec)) } else if r == -1 { self.unsat += 1; Answer::Unsat } else if r == 1 {
                self.sat += 1;
                let m = Z3_solver_get_model(self.ctx, self.solver);
                Z3_model_inc_ref(self.ctx, m);
                let mut out = vec![];
                let mut bad = None;
                for i in var_ids(vars) {
                    let w = widths[i as usize];
                    let z = self.var(i, w);
                    let mut o: Z = std::ptr::null_mut();
                    if !Z3_model_eval(self.ctx, m, z, true, &mut o) { bad = Some("model eval"); break; }
                    Z3_inc_ref(self.ctx, o);
                    let mut u = 0u64;
                    let v = if w <= 64 && Z3_get_numeral_uint64(self.ctx, o, &mut u) { u as u128 } else {
                        let s = CStr::from_ptr(Z3_get_numeral_string(self.ctx, o)).to_string_lossy().into_owned();
                        match s.parse() { Ok(v) => v, Err(_) => { bad = Some("numeral"); 0 } }
                    };
                    Z3_dec_ref(self.ctx, o);
                    out.push((i, v));
                }
                Z3_model_dec_ref(self.ctx, m);
                match bad { Some(b) => Answer::Unknown(b.into()), None => Answer::Sat(out) }
            } else { Answer::Unknown("unknown/timeout".into()) };
            if let (Some(s), false) = (smt, matches!(a, Answer::Unknown(_))) { self.dumped.push((s, matches!(a, Answer::Sat(_)))); }
            Z3_solver_pop(self.ctx, self.solver, 1);
            a
        };
        let dt = t0.elapsed();
        self.time += dt;
        if dt > self.max { self.max = dt; }
        ans
    }
}
fn is_boolish(e: &Ex) -> bool {
    match &e.k { K::Not(_) | K::Ite(..) => true, K::Bin(op, ..) => is_cmp(*op) || matches!(op, B::And | B::Or | B::Xor), _ => false }
}
