//! Z3 back end through the C API.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_fma(c: P, r: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_mod(c: P, a: P, b: P) -> P;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_tactic(c: P, s: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: P, v: P) -> *const c_char;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    unsafe { eprintln!("z3 error {}: {:?}", e, CStr::from_ptr(Z3_get_error_msg(c, e))) }
    // any z3 error makes the run inconclusive
    std::process::exit(3);
}

#[derive(Clone, Debug)]
pub enum R { Sat(std::rc::Rc<Vec<(u32, u128)>>), Unsat, Unknown }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub cache_hits: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub time: f64, pub max_time: f64, pub int_decided: u64, pub abs_decided: u64, pub probe_decided: u64, pub order_decided: u64 }

pub struct Solver {
    c: P, inc: P, inc_lits: usize, hard: P,
    zb: Vec<P>, zv: Vec<P>,
    lits: FxMap<E, P>,
    fpmemo: Vec<bool>,
    cache: FxMap<Box<[E]>, R>,
    pub st: Stats,
    pub timeout_ms: u32,
    /// no query runs (much) longer than this
    pub deadline: Option<std::time::Instant>,
    pub quick_ms: u32, from: std::cell::RefCell<String>,
    absmemo: FxMap<E, E>, in_abs: bool, rng: u64,
    ord: P, lia: P, olevel: FxMap<E, u8>, olits: FxMap<E, P>, oi: FxMap<E, Option<P>>, ovars: FxMap<u32, P>,
}
fn cs(s: &str) -> CString { CString::new(s).unwrap() }
pub fn z3_version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            Z3_global_param_set(cs("memory_max_size").as_ptr(), cs("6000").as_ptr());
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mut s = Solver { c, inc: std::ptr::null_mut(), inc_lits: 0, hard: std::ptr::null_mut(), zb: vec![], zv: vec![], lits: Default::default(), fpmemo: vec![], cache: Default::default(), st: Default::default(), timeout_ms, deadline: None, from: Default::default(), quick_ms: std::env::var("SYMEX_QUICK").ok().and_then(|v| v.parse().ok()).unwrap_or(1000), absmemo: Default::default(), in_abs: false, rng: 0x9e3779b97f4a7c15, ord: std::ptr::null_mut(), lia: std::ptr::null_mut(), olevel: Default::default(), olits: Default::default(), oi: Default::default(), ovars: Default::default() };
            s.reset_inc();
            s
        }
    }
    fn reset_inc(&mut self) {
        unsafe {
            if !self.inc.is_null() { Z3_solver_dec_ref(self.c, self.inc); }
            let s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, cs("QF_BV").as_ptr()));
            Z3_solver_inc_ref(self.c, s);
            self.inc = s;
            self.inc_lits = 0;
            self.lits.clear();
        }
    }
    fn set_timeout(&self, s: P, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, cs("timeout").as_ptr()), ms);
            Z3_solver_set_params(self.c, s, p);
            Z3_params_dec_ref(self.c, p);
        }
    }
    fn keep(&self, a: P) -> P { a }
    unsafe fn fp(&self, bv: P, w: u32) -> P { Z3_mk_fpa_to_fp_bv(self.c, bv, if w == 64 { Z3_mk_fpa_sort_64(self.c) } else { Z3_mk_fpa_sort_32(self.c) }) }
    unsafe fn unfp(&self, f: P, w: u32) -> P {
        let bits = Z3_mk_fpa_to_ieee_bv(self.c, f);
        let nan = Z3_mk_unsigned_int64(self.c, if w == 64 { 0x7ff8000000000000 } else { 0x7fc00000 }, Z3_mk_bv_sort(self.c, w));
        Z3_mk_ite(self.c, Z3_mk_fpa_is_nan(self.c, f), nan, bits)
    }
    fn grow(&mut self, n: usize) { while self.zb.len() < n { self.zb.push(std::ptr::null_mut()); self.zv.push(std::ptr::null_mut()); } while self.fpmemo.len() < n { self.fpmemo.push(false) } }
    /// translate to a BV-sorted term
    fn bv(&mut self, x: &Ctx, e: E) -> P {
        if !self.zv[e as usize].is_null() { return self.zv[e as usize]; }
        let b = self.zb[e as usize];
        debug_assert!(!b.is_null());
        unsafe {
            let s = Z3_mk_bv_sort(self.c, 1);
            let r = Z3_mk_ite(self.c, b, Z3_mk_unsigned_int64(self.c, 1, s), Z3_mk_unsigned_int64(self.c, 0, s));
            let r = self.keep(r);
            self.zv[e as usize] = r;
            let _ = x;
            r
        }
    }
    fn bl(&mut self, x: &Ctx, e: E) -> P {
        if !self.zb[e as usize].is_null() { return self.zb[e as usize]; }
        let _ = x;
        unsafe {
            let s = Z3_mk_bv_sort(self.c, 1);
            let r = Z3_mk_eq(self.c, self.zv[e as usize], Z3_mk_unsigned_int64(self.c, 1, s));
            let r = self.keep(r);
            self.zb[e as usize] = r;
            r
        }
    }
    fn done(&self, e: E) -> bool { !self.zb[e as usize].is_null() || !self.zv[e as usize].is_null() }
    fn translate(&mut self, x: &Ctx, e: E) {
        self.grow(x.nodes.len());
        let mut st = vec![e];
        while let Some(&t) = st.last() {
            if self.done(t) { st.pop(); continue; }
            let n = x.n(t);
            let (ks, nk) = Ctx::kids(&n);
            let mut ok = true;
            for i in 0..nk { if !self.done(ks[i]) { st.push(ks[i]); ok = false } }
            if !ok { continue }
            st.pop();
            let c = self.c;
            let w = n.w as u32;
            use O::*;
            let isf = matches!(n.op, FAdd | FSub | FMul | FDiv | FRem | FSqrt | FFma | FLt | FLe | FEq | FUno | FToS | FToU | SToF | UToF | FToF | FRne | FRtz | FRtp | FRtn | FRna);
            let mut fpf = isf;
            for i in 0..nk { fpf |= self.fpmemo[ks[i] as usize] }
            self.fpmemo[t as usize] = fpf;
            unsafe {
                let mut boolres = false;
                let r = match n.op {
                    Const => if w == 1 { boolres = true; if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else if w <= 64 { Z3_mk_unsigned_int64(c, n.k as u64, Z3_mk_bv_sort(c, w)) } else { Z3_mk_numeral(c, cs(&n.k.to_string()).as_ptr(), Z3_mk_bv_sort(c, w)) },
                    Var => if w == 1 { boolres = true; Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), Z3_mk_bool_sort(c)) } else { Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), Z3_mk_bv_sort(c, w)) },
                    And | Or | Xor | Not if w == 1 => {
                        boolres = true;
                        let a = self.bl(x, n.a);
                        if n.op == Not { Z3_mk_not(c, a) } else {
                            let b = self.bl(x, n.b);
                            let v = [a, b];
                            match n.op { And => Z3_mk_and(c, 2, v.as_ptr()), Or => Z3_mk_or(c, 2, v.as_ptr()), _ => Z3_mk_not(c, Z3_mk_eq(c, a, b)) }
                        }
                    }
                    Ite => {
                        let g = self.bl(x, n.a);
                        if w == 1 { boolres = true; let (a, b) = (self.bl(x, n.b), self.bl(x, n.c)); Z3_mk_ite(c, g, a, b) }
                        else { let (a, b) = (self.bv(x, n.b), self.bv(x, n.c)); Z3_mk_ite(c, g, a, b) }
                    }
                    _ => {
                        let cw = x.w(n.a);
                        let a = self.bv(x, n.a);
                        let b = if nk > 1 { self.bv(x, n.b) } else { std::ptr::null_mut() };
                        match n.op {
                            Add => Z3_mk_bvadd(c, a, b), Sub => Z3_mk_bvsub(c, a, b), Mul => Z3_mk_bvmul(c, a, b),
                            UDiv => Z3_mk_bvudiv(c, a, b), SDiv => Z3_mk_bvsdiv(c, a, b), URem => Z3_mk_bvurem(c, a, b), SRem => Z3_mk_bvsrem(c, a, b),
                            And => Z3_mk_bvand(c, a, b), Or => Z3_mk_bvor(c, a, b), Xor => Z3_mk_bvxor(c, a, b), Not => Z3_mk_bvnot(c, a),
                            Shl => Z3_mk_bvshl(c, a, b), LShr => Z3_mk_bvlshr(c, a, b), AShr => Z3_mk_bvashr(c, a, b),
                            Concat => Z3_mk_concat(c, a, b),
                            Extract => Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a),
                            ZExt => Z3_mk_zero_ext(c, w - cw, a), SExt => Z3_mk_sign_ext(c, w - cw, a),
                            Eq => { boolres = true; Z3_mk_eq(c, a, b) }
                            Ult => { boolres = true; Z3_mk_bvult(c, a, b) }
                            Ule => { boolres = true; Z3_mk_bvule(c, a, b) }
                            Slt => { boolres = true; Z3_mk_bvslt(c, a, b) }
                            Sle => { boolres = true; Z3_mk_bvsle(c, a, b) }
                            FAdd | FSub | FMul | FDiv => {
                                let (f, g) = (self.fp(a, w), self.fp(b, w)); let r = Z3_mk_fpa_rne(c);
                                let z = match n.op { FAdd => Z3_mk_fpa_add(c, r, f, g), FSub => Z3_mk_fpa_sub(c, r, f, g), FMul => Z3_mk_fpa_mul(c, r, f, g), _ => Z3_mk_fpa_div(c, r, f, g) };
                                self.unfp(z, w)
                            }
                            FRem => { eprintln!("symbolic frem unsupported"); std::process::exit(3) }
                            FSqrt => { let f = self.fp(a, w); let z = Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), f); self.unfp(z, w) }
                            FFma => { let d = self.bv(x, n.c); let z = Z3_mk_fpa_fma(c, Z3_mk_fpa_rne(c), self.fp(a, w), self.fp(b, w), self.fp(d, w)); self.unfp(z, w) }
                            FLt => { boolres = true; Z3_mk_fpa_lt(c, self.fp(a, cw), self.fp(b, cw)) }
                            FLe => { boolres = true; Z3_mk_fpa_leq(c, self.fp(a, cw), self.fp(b, cw)) }
                            FEq => { boolres = true; Z3_mk_fpa_eq(c, self.fp(a, cw), self.fp(b, cw)) }
                            FUno => { boolres = true; let v = [Z3_mk_fpa_is_nan(c, self.fp(a, cw)), Z3_mk_fpa_is_nan(c, self.fp(b, cw))]; Z3_mk_or(c, 2, v.as_ptr()) }
                            FRne | FRtz | FRtp | FRtn | FRna => {
                                let r = match n.op { FRne => Z3_mk_fpa_rne(c), FRtz => Z3_mk_fpa_rtz(c), FRtp => Z3_mk_fpa_rtp(c), FRtn => Z3_mk_fpa_rtn(c), _ => Z3_mk_fpa_rna(c) };
                                let z = Z3_mk_fpa_round_to_integral(c, r, self.fp(a, w)); self.unfp(z, w)
                            }
                            FToF => { let s = if w == 64 { Z3_mk_fpa_sort_64(c) } else { Z3_mk_fpa_sort_32(c) }; let z = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), self.fp(a, cw), s); self.unfp(z, w) }
                            SToF | UToF => { let s = if w == 64 { Z3_mk_fpa_sort_64(c) } else { Z3_mk_fpa_sort_32(c) }; let z = if n.op == SToF { Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, s) } else { Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, s) }; self.unfp(z, w) }
                            FToS | FToU => {
                                // saturating conversion, NaN -> 0
                                let f = self.fp(a, cw);
                                let so = if cw == 64 { Z3_mk_fpa_sort_64(c) } else { Z3_mk_fpa_sort_32(c) };
                                let bs = Z3_mk_bv_sort(c, w);
                                let num = |k: u128| Z3_mk_numeral(c, cs(&k.to_string()).as_ptr(), bs);
                                let rtz = Z3_mk_fpa_rtz(c);
                                if n.op == FToS {
                                    let hi = Z3_mk_fpa_numeral_double(c, 2f64.powi(w as i32 - 1), so);
                                    let lo = Z3_mk_fpa_numeral_double(c, -2f64.powi(w as i32 - 1), so);
                                    let conv = Z3_mk_fpa_to_sbv(c, rtz, f, w);
                                    let r = Z3_mk_ite(c, Z3_mk_fpa_lt(c, f, lo), num(1u128 << (w - 1)), conv);
                                    let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, hi, f), num((1u128 << (w - 1)) - 1), r);
                                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), num(0), r)
                                } else {
                                    let hi = Z3_mk_fpa_numeral_double(c, 2f64.powi(w as i32), so);
                                    let zero = Z3_mk_fpa_numeral_double(c, 0.0, so);
                                    let conv = Z3_mk_fpa_to_ubv(c, rtz, f, w);
                                    let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, f, zero), num(0), conv);
                                    let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, hi, f), num(mask(w)), r);
                                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), num(0), r)
                                }
                            }
                            _ => unreachable!(),
                        }
                    }
                };
                let r = self.keep(r);
                if boolres { self.zb[t as usize] = r } else { self.zv[t as usize] = r }
            }
        }
    }
    fn has_fp(&self, e: E) -> bool { self.fpmemo[e as usize] }

    /// Decide the conjunction of `cons` (width-1 exprs). Sat gives values for the variables in it.
    pub fn check(&mut self, x: &mut Ctx, cons: &[E]) -> R {
        let mut key: Vec<E> = cons.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key[..]) { self.st.cache_hits += 1; return r.clone(); }
        let t0 = std::time::Instant::now();
        if !self.in_abs { if let Some(r) = self.shortcut(x, &key) {
            self.st.queries += 1;
            if matches!(r, R::Unsat) { self.st.unsat += 1 } else { self.st.sat += 1 }
            self.st.time += t0.elapsed().as_secs_f64();
            self.cache.insert(key.into_boxed_slice(), r.clone());
            return r;
        } }
        if !self.in_abs { self.st.queries += 1; }
        if let Some(r) = self.order(x, &key, true) {
            if !self.in_abs {
                self.st.order_decided += 1;
                if matches!(r, R::Unsat) { self.st.unsat += 1 } else { self.st.sat += 1 }
                let dt = t0.elapsed().as_secs_f64();
                if !self.in_abs { self.st.time += dt; }
                if dt > self.st.max_time { self.st.max_time = dt }
            }
            self.cache.insert(key.into_boxed_slice(), r.clone());
            return r;
        }
        let mut fp = false;
        for &e in &key { self.translate(x, e); fp |= self.has_fp(e); }
        let mut vars: Vec<u32> = vec![];
        for &e in &key { vars.extend(x.vars(e).iter()); }
        vars.sort_unstable(); vars.dedup();
        let r = unsafe {
            let mut res = 0;
            let mut int_model: Option<Option<Vec<(u32, u128)>>> = None;
            let mut used = self.inc;
            if !fp {
                if self.inc_lits > *INC.get_or_init(|| std::env::var("SYMEX_INC").ok().and_then(|v| v.parse().ok()).unwrap_or(60)) { self.reset_inc() }
                let mut ls: Vec<P> = Vec::with_capacity(key.len());
                for &e in &key {
                    let l = match self.lits.get(&e) { Some(&l) => l, None => {
                        let b = self.bl(x, e);
                        let l = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, cs(&format!("l{}", e)).as_ptr()), Z3_mk_bool_sort(self.c));
                        let l = self.keep(l);
                        let v = [Z3_mk_not(self.c, l), b];
                        Z3_solver_assert(self.c, self.inc, Z3_mk_or(self.c, 2, v.as_ptr()));
                        self.inc_lits += 1;
                        self.lits.insert(e, l);
                        l
                    } };
                    ls.push(l);
                }
                self.set_timeout(self.inc, self.quick_ms);
                used = self.inc;
                res = Z3_solver_check_assumptions(self.c, self.inc, ls.len() as c_uint, ls.as_ptr());
                // an incremental solver that ran out of time is not asked again (its later models were seen to be wrong)
                if res == 0 { self.reset_inc() }
                if res == 0 && !self.in_abs {
                    if let Some(r) = self.order(x, &key, false) {
                        self.st.order_decided += 1;
                        match &r { R::Sat(m) => { res = 1; int_model = Some(Some((**m).clone())) } _ => { res = -1 } }
                    }
                }
            }
            if res == 0 && !self.in_abs {
                // heavy: one-shot tactic solver
                if self.hard.is_null() {
                    let t = Z3_mk_tactic(self.c, cs("qffpbv").as_ptr());
                    Z3_tactic_inc_ref(self.c, t);
                    let s = Z3_mk_solver_from_tactic(self.c, t);
                    Z3_solver_inc_ref(self.c, s);
                    self.hard = s;
                }
                Z3_solver_reset(self.c, self.hard);
                let limit = self.timeout_ms.min(self.deadline.map_or(u32::MAX, |d| d.saturating_duration_since(std::time::Instant::now()).as_millis() as u32 + 500));
                self.set_timeout(self.hard, limit);
                for &e in &key { let b = self.bl(x, e); Z3_solver_assert(self.c, self.hard, b) }
                used = self.hard;
                if std::env::var("SYMEX_HARD").is_ok() { eprintln!("hard query"); for e in &key { eprintln!("   {}", x.show(*e, 9)); } }
                // race an integer-encoding solver: decides multiply/divide kernels that bit-blasting does not
                let race = if fp { None } else { self.spawn_int(x, &key, &vars) };
                // (Z3 gets growing time slices rather than an interrupt, which it does not recover from cleanly)
                let (mut slice, t1) = (2000u32, std::time::Instant::now());
                loop {
                    let left = (limit as u64).saturating_sub(t1.elapsed().as_millis() as u64) as u32;
                    self.set_timeout(self.hard, if race.is_some() { slice.min(left.max(1)) } else { left.max(1) });
                    if slice > 2000 { Z3_solver_reset(self.c, self.hard); for &e in &key { let b = self.bl(x, e); Z3_solver_assert(self.c, self.hard, b) } }
                    res = Z3_solver_check(self.c, self.hard);
                    if res != 0 || left <= slice || race.as_ref().map_or(true, |r| r.h.is_finished() && !r.gave_up()) { break }
                    slice *= 2;
                }
                if let Some(rc) = race {
                    if res == 0 { int_model = rc.wait(x, &key); if let Some(m) = &int_model { res = if m.is_some() { 1 } else { -1 }; self.st.int_decided += 1 } }
                    else { rc.kill() }
                }
            }
            if let Some(Some(m)) = int_model { self.st.sat += 1; *self.from.borrow_mut() = "int".into(); R::Sat(std::rc::Rc::new(m)) } else { match res {
                1 => {
                    *self.from.borrow_mut() = format!("{}", if used == self.inc { "inc" } else { "hard" });
                    let m = Z3_solver_get_model(self.c, used);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for &v in &vars {
                        let ve = x.var_expr[v as usize];
                        self.translate(x, ve);
                        let t = self.bv(x, ve);
                        let mut o: P = std::ptr::null_mut();
                        let ok = Z3_model_eval(self.c, m, t, true, &mut o);
                        let mut val = 0u64;
                        let k = if ok && Z3_get_numeral_uint64(self.c, o, &mut val) { val as u128 } else if ok { CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_str().unwrap().parse::<u128>().unwrap_or(0) } else { 0 };
                        out.push((v, k));
                    }
                    Z3_model_dec_ref(self.c, m);
                    if !self.in_abs { self.st.sat += 1; }
                    R::Sat(std::rc::Rc::new(out))
                }
                -1 => { if !self.in_abs { self.st.unsat += 1; } R::Unsat }
                _ => { if !self.in_abs { self.st.unknown += 1; } R::Unknown }
            } }
        };
        // a model counts only if it satisfies the query
        let r = match r {
            R::Sat(m) => {
                let mut full = vec![0u128; vars.last().map_or(0, |v| *v as usize + 1)];
                for (v, k) in m.iter() { full[*v as usize] = *k }
                let mut c = Default::default();
                if key.iter().all(|&e| x.eval(e, &full, &mut c) == 1) { R::Sat(m) } else { eprintln!("a solver gave a model that does not satisfy the query (fp={} cons={} from {})", fp, key.len(), *self.from.borrow()); if !self.in_abs { self.st.sat -= 1; self.st.unknown += 1; } R::Unknown }
            }
            r => r,
        };
        let dt = t0.elapsed().as_secs_f64();
        if !self.in_abs { self.st.time += dt; }
        if dt > self.st.max_time { self.st.max_time = dt }
        if std::env::var("SYMEX_SLOW").is_ok() && dt > std::env::var("SYMEX_SLOWT").ok().and_then(|v| v.parse().ok()).unwrap_or(0.8) { eprintln!("slow query {:.1}s cons={} -> {:?}", dt, key.len(), match r { R::Sat(_) => "sat", R::Unsat => "unsat", _ => "unknown" }); for e in &key { eprintln!("   {}", x.show(*e, std::env::var("SYMEX_SLOW").unwrap().parse().unwrap_or(6))); } }
        if !matches!(r, R::Unknown) { self.cache.insert(key.into_boxed_slice(), r.clone()); }
        r
    }
}

static INC: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
struct Race { pid: u32, gave_up: std::sync::Arc<std::sync::atomic::AtomicBool>, h: std::thread::JoinHandle<Option<String>>, vars: Vec<u32> }
impl Race {
    fn gave_up(&self) -> bool { self.gave_up.load(std::sync::atomic::Ordering::SeqCst) }
    fn kill(self) { unsafe { kill(self.pid as i32, 9); } let _ = self.h.join(); }
    /// Some(None) = unsat, Some(Some(model)) = sat, None = no answer
    fn wait(self, x: &Ctx, key: &[E]) -> Option<Option<Vec<(u32, u128)>>> {
        let out = self.h.join().ok()??;
        let first = out.lines().next()?.trim();
        if first == "unsat" { return Some(None) }
        if out.contains("error") { return None }
        if first != "sat" { return None }
        // ((v3 #b0101) (v4 true))
        let mut m = vec![];
        let toks: Vec<&str> = out[first.len()..].split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|t| !t.is_empty()).collect();
        let mut i = 0;
        while i + 1 < toks.len() {
            let v: u32 = toks[i].strip_prefix('v')?.parse().ok()?;
            let k = match toks[i + 1] { "true" => 1, "false" => 0, t => if let Some(b) = t.strip_prefix("#b") { u128::from_str_radix(b, 2).ok()? } else { u128::from_str_radix(t.strip_prefix("#x")?, 16).ok()? } };
            m.push((v, k)); i += 2;
        }
        if m.len() != self.vars.len() { return None }
        // the model must satisfy the query under this program's own semantics
        let mx = m.iter().map(|p| p.0).max().unwrap_or(0) as usize;
        let mut full = vec![0u128; mx + 1];
        for (v, k) in &m { full[*v as usize] = *k }
        let mut c = Default::default();
        for &e in key { if x.eval(e, &full, &mut c) != 1 { eprintln!("integer back end gave a model that does not satisfy the query"); return None } }
        Some(Some(m))
    }
}
extern "C" { fn kill(pid: i32, sig: i32) -> i32; }

impl Solver {
    /// Replace every deep arithmetic subterm by an unconstrained variable: if what remains is
    /// unsatisfiable, so is the original.
    fn abstracted(&mut self, x: &mut Ctx, e: E) -> E {
        if let Some(&r) = self.absmemo.get(&e) { return r }
        let mut st = vec![e];
        while let Some(&t) = st.last() {
            if self.absmemo.contains_key(&t) { st.pop(); continue }
            if x.adepth[t as usize] < 3 { self.absmemo.insert(t, t); st.pop(); continue }
            let n = x.n(t);
            if is_arith(&n) && x.adepth[t as usize] >= 3 { let v = x.var("abs", n.w as u32); self.absmemo.insert(t, v); st.pop(); continue }
            let (ks, nk) = Ctx::kids(&n);
            let mut ok = true;
            for i in 0..nk { if !self.absmemo.contains_key(&ks[i]) { st.push(ks[i]); ok = false } }
            if !ok { continue }
            st.pop();
            let k: Vec<E> = (0..nk).map(|i| self.absmemo[&ks[i]]).collect();
            let r = x.rebuild(&n, &k);
            self.absmemo.insert(t, r);
        }
        self.absmemo[&e]
    }
    /// queries over deep arithmetic (hashes): first without it, then with a few concrete probes
    fn shortcut(&mut self, x: &mut Ctx, key: &[E]) -> Option<R> {
        let mut deep = false;
        for &e in key { deep |= x.adepth[e as usize] >= 6 }
        if !deep { return None }
        let mut k2 = vec![];
        for &e in key { k2.push(self.abstracted(x, e)) }
        self.in_abs = true;
        let q = self.quick_ms; self.quick_ms = 500;
        let r = self.check(x, &k2);
        self.quick_ms = q;
        self.in_abs = false;
        if let R::Unsat = r { self.st.abs_decided += 1; return Some(R::Unsat) }
        let mut vars: Vec<u32> = vec![];
        for &e in key { vars.extend(x.vars(e).iter()); }
        vars.sort_unstable(); vars.dedup();
        let mx = *vars.last()? as usize;
        let mut full = vec![0u128; mx + 1];
        for round in 0..300 {
            for &v in &vars {
                let w = x.var_width[v as usize] as u32;
                self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
                let lo = self.rng;
                full[v as usize] = (if round % 3 == 0 { (lo >> 40) as u128 & 0xf } else { lo as u128 | (lo.rotate_left(29) as u128) << 64 }) & mask(w);
            }
            let mut c = Default::default();
            if key.iter().all(|&e| x.eval(e, &full, &mut c) == 1) {
                self.st.probe_decided += 1;
                return Some(R::Sat(std::rc::Rc::new(vars.iter().map(|&v| (v, full[v as usize])).collect())));
            }
        }
        None
    }
    pub fn integer(&mut self, x: &mut Ctx, key: &[E]) -> Option<R> { self.order(x, key, true).or_else(|| self.order(x, key, false)) }
    /// Queries made only of comparisons between variables, constants, sums and selections are decided over the
    /// integers (bit-vectors in their signed reading, sums wrapped explicitly), where chains of comparisons are cheap.
    /// Products, quotients and slices with constants are linear too: quotients that bit-vector solvers find hard are
    /// tried here first, the rest only when the bit-vector solver gives up.
    fn order(&mut self, x: &mut Ctx, key: &[E], first: bool) -> Option<R> {
        let mut wide = 0;
        let mut level = 0;
        for &e in key { self.int(x, e)?; wide += self.wide_vars(x, e); level = level.max(self.olevel[&e]) }
        if wide == 0 || first && level == 1 { return None }
        unsafe {
            if level > 0 {
                if self.lia.is_null() { self.lia = Z3_mk_simple_solver(self.c); Z3_solver_inc_ref(self.c, self.lia) }
                Z3_solver_reset(self.c, self.lia);
                let mut vars: Vec<u32> = vec![];
                for &e in key { vars.extend(x.vars(e).iter()); let b = self.int(x, e)?; Z3_solver_assert(self.c, self.lia, b) }
                vars.sort_unstable(); vars.dedup();
                for v in vars { let t = *self.ovars.get(&v)?; self.bound(x, v, t, self.lia) }
            }
            let mut ls = vec![];
            if level == 0 {
            if self.ord.is_null() {
                self.ord = Z3_mk_simple_solver(self.c);
                Z3_solver_inc_ref(self.c, self.ord);
                let vs: Vec<(u32, P)> = self.ovars.iter().map(|(a, b)| (*a, *b)).collect();
                for (v, t) in vs { self.bound(x, v, t, self.ord) }
            }
            for &e in key {
                let l = match self.olits.get(&e) { Some(&l) => l, None => {
                    let b = self.int(x, e)?;
                    let l = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, cs(&format!("o{}", e)).as_ptr()), Z3_mk_bool_sort(self.c));
                    let v = [Z3_mk_not(self.c, l), b];
                    Z3_solver_assert(self.c, self.ord, Z3_mk_or(self.c, 2, v.as_ptr()));
                    self.olits.insert(e, l);
                    l
                } };
                ls.push(l);
            }
            }
            let used = if level == 0 { self.ord } else { self.lia };
            self.set_timeout(used, if level == 0 { 2000 } else { 5000 });
            match Z3_solver_check_assumptions(self.c, used, ls.len() as c_uint, ls.as_ptr()) {
                -1 => Some(R::Unsat),
                1 => {
                    let m = Z3_solver_get_model(self.c, used);
                    Z3_model_inc_ref(self.c, m);
                    let mut vars: Vec<u32> = vec![];
                    for &e in key { vars.extend(x.vars(e).iter()); }
                    vars.sort_unstable(); vars.dedup();
                    let mut full = vec![0u128; vars.last().map_or(0, |v| *v as usize + 1)];
                    let mut out = vec![];
                    for &v in &vars {
                        let w = x.var_width[v as usize] as u32;
                        let mut o: P = std::ptr::null_mut();
                        let t = *self.ovars.get(&v)?;
                        let ok = Z3_model_eval(self.c, m, t, true, &mut o);
                        let k = if !ok { 0 } else if w == 1 { (Z3_get_bool_value(self.c, o) == 1) as u128 } else { (CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_str().unwrap().parse::<i128>().unwrap_or(0) as u128) & mask(w) };
                        full[v as usize] = k;
                        out.push((v, k));
                    }
                    Z3_model_dec_ref(self.c, m);
                    let mut c = Default::default();
                    if key.iter().all(|&e| x.eval(e, &full, &mut c) == 1) { Some(R::Sat(std::rc::Rc::new(out))) } else { eprintln!("order back end gave a model that does not satisfy the query"); None }
                }
                _ => {
                    let s = if level == 0 { self.olits.clear(); &mut self.ord } else { &mut self.lia };
                    Z3_solver_dec_ref(self.c, *s);
                    *s = std::ptr::null_mut();
                    None
                }
            }
        }
    }
    unsafe fn unsigned(&self, a: P, w: u32) -> P {
        let v = [a, self.num(1i128 << w)];
        Z3_mk_ite(self.c, Z3_mk_lt(self.c, a, self.num(0)), Z3_mk_add(self.c, 2, v.as_ptr()), a)
    }
    /// the signed w-bit reading of an integer
    unsafe fn wrap(&self, a: P, w: u32) -> P {
        let h = self.num(1i128 << (w - 1));
        let v = [a, h];
        let v = [Z3_mk_mod(self.c, Z3_mk_add(self.c, 2, v.as_ptr()), self.num(1i128 << w)), h];
        Z3_mk_sub(self.c, 2, v.as_ptr())
    }
    fn wide_vars(&self, x: &mut Ctx, e: E) -> usize { x.vars(e).iter().filter(|v| x.var_width[**v as usize] >= 16).count() }
    unsafe fn num(&self, k: i128) -> P { Z3_mk_numeral(self.c, cs(&k.to_string()).as_ptr(), Z3_mk_int_sort(self.c)) }
    unsafe fn bound(&self, x: &Ctx, v: u32, t: P, s: P) {
        let w = x.var_width[v as usize] as u32;
        if w == 1 { return }
        let h = 1i128 << (w - 1);
        Z3_solver_assert(self.c, s, Z3_mk_le(self.c, self.num(-h), t));
        Z3_solver_assert(self.c, s, Z3_mk_lt(self.c, t, self.num(h)));
    }
    fn int(&mut self, x: &Ctx, e: E) -> Option<P> {
        let mut st = vec![e];
        while let Some(&t) = st.last() {
            if self.oi.contains_key(&t) { st.pop(); continue }
            let n = x.n(t);
            let (ks, nk) = Ctx::kids(&n);
            let w = n.w as u32;
            use O::*;
            let cw = if nk > 0 { x.w(n.a) } else { 0 };
            let fits = w <= 64 && (nk == 0 || cw <= 64) && match n.op {
                Const | Var | Ite | Eq | Ult | Ule | Slt | Sle => true,
                And | Or | Xor | Not => w == 1,
                Add | Sub => w > 1,
                ZExt | SExt => true,
                Extract => cw > 1,
                Concat => w <= 64,
                Mul => w > 1 && x.n(n.b).op == Const || w > 1 && x.n(n.a).op == Const,
                UDiv | URem | SDiv | SRem => w > 1 && x.n(n.b).op == Const && x.n(n.b).k != 0 && x.n(n.b).k < 1u128 << (w - 1),
                Shl | LShr | AShr => w > 1 && x.n(n.b).op == Const && x.n(n.b).k < w as u128,
                _ => false,
            };
            if !fits { self.oi.insert(t, None); st.pop(); continue }
            let lv = match n.op {
                UDiv | URem | SDiv | SRem => if x.n(n.b).k.is_power_of_two() { 1 } else { 2 },
                Mul | Shl | LShr | AShr | Concat => 1,
                Extract => if w == 1 && n.k as u32 + 1 == cw { 0 } else { 1 },
                Add | Sub => if x.n(n.a).op == Const || x.n(n.b).op == Const { 0 } else { 1 },
                _ => 0u8,
            };
            let mut ok = true;
            for i in 0..nk { if !self.oi.contains_key(&ks[i]) { st.push(ks[i]); ok = false } }
            if !ok { continue }
            st.pop();
            let mut k: [P; 3] = [std::ptr::null_mut(); 3];
            let mut all = true;
            for i in 0..nk { match self.oi[&ks[i]] { Some(p) => k[i] = p, None => all = false } }
            if !all { self.oi.insert(t, None); continue }
            let mut lv = lv;
            for i in 0..nk { lv = lv.max(self.olevel.get(&ks[i]).copied().unwrap_or(0)) }
            self.olevel.insert(t, lv);
            let c = self.c;
            let r = unsafe { match n.op {
                Const => if w == 1 { if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { let h = 1u128 << (w - 1); self.num(if n.k >= h { n.k as i128 - (1i128 << w) } else { n.k as i128 }) },
                Var => {
                    let s = Z3_mk_string_symbol(c, cs(&format!("i{}", n.a)).as_ptr());
                    let v = Z3_mk_const(c, s, if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_int_sort(c) });
                    self.ovars.insert(n.a, v);
                    if !self.ord.is_null() { self.bound(x, n.a, v, self.ord) }
                    v
                }
                Ite => Z3_mk_ite(c, k[0], k[1], k[2]),
                And => Z3_mk_and(c, 2, k.as_ptr()),
                Or => Z3_mk_or(c, 2, k.as_ptr()),
                Xor => Z3_mk_not(c, Z3_mk_eq(c, k[0], k[1])),
                Not => Z3_mk_not(c, k[0]),
                Eq => Z3_mk_eq(c, k[0], k[1]),
                Ult | Ule | Slt | Sle if cw == 1 => {
                    // as truth values: unsigned false < true, signed true < false
                    let (a, b) = if matches!(n.op, Ult | Ule) { (k[0], k[1]) } else { (k[1], k[0]) };
                    if matches!(n.op, Ult | Slt) { let v = [Z3_mk_not(c, a), b]; Z3_mk_and(c, 2, v.as_ptr()) } else { let v = [Z3_mk_not(c, a), b]; Z3_mk_or(c, 2, v.as_ptr()) }
                }
                Slt => Z3_mk_lt(c, k[0], k[1]),
                Sle => Z3_mk_le(c, k[0], k[1]),
                Ult | Ule => {
                    let z = self.num(0);
                    let (na, nb) = (Z3_mk_lt(c, k[0], z), Z3_mk_lt(c, k[1], z));
                    let cmp = if n.op == Ult { Z3_mk_lt(c, k[0], k[1]) } else { Z3_mk_le(c, k[0], k[1]) };
                    Z3_mk_ite(c, Z3_mk_eq(c, na, nb), cmp, nb)
                }
                Add | Sub => {
                    let v = [k[0], k[1]];
                    let s = if n.op == Add { Z3_mk_add(c, 2, v.as_ptr()) } else { Z3_mk_sub(c, 2, v.as_ptr()) };
                    let (h, m) = (1i128 << (w - 1), self.num(1i128 << w));
                    let (dn, up) = ([s, m], [s, m]);
                    Z3_mk_ite(c, Z3_mk_le(c, self.num(h), s), Z3_mk_sub(c, 2, dn.as_ptr()), Z3_mk_ite(c, Z3_mk_lt(c, s, self.num(-h)), Z3_mk_add(c, 2, up.as_ptr()), s))
                }
                ZExt => if cw == 1 { Z3_mk_ite(c, k[0], self.num(1), self.num(0)) } else { let v = [k[0], self.num(1i128 << cw)]; Z3_mk_ite(c, Z3_mk_lt(c, k[0], self.num(0)), Z3_mk_add(c, 2, v.as_ptr()), k[0]) },
                Extract if w == 1 && n.k as u32 + 1 == cw => Z3_mk_lt(c, k[0], self.num(0)),
                Extract => {
                    // a floor quotient of the signed reading has the same low bits
                    let q = if n.k == 0 { k[0] } else { Z3_mk_div(c, k[0], self.num(1i128 << n.k)) };
                    if w == 1 { Z3_mk_eq(c, Z3_mk_mod(c, q, self.num(2)), self.num(1)) }
                    else if n.k as u32 + w == cw { q } else { self.wrap(q, w) }
                }
                Concat => {
                    let bw = x.w(n.b);
                    let hi = if cw == 1 { Z3_mk_ite(c, k[0], self.num(-1), self.num(0)) } else { k[0] };
                    let lo = if bw == 1 { Z3_mk_ite(c, k[1], self.num(1), self.num(0)) } else { self.unsigned(k[1], bw) };
                    let v = [hi, self.num(1i128 << bw)];
                    let v = [Z3_mk_mul(c, 2, v.as_ptr()), lo];
                    Z3_mk_add(c, 2, v.as_ptr())
                }
                Mul => self.wrap(Z3_mk_mul(c, 2, k.as_ptr()), w),
                Shl => { let v = [k[0], self.num(1i128 << x.n(n.b).k)]; self.wrap(Z3_mk_mul(c, 2, v.as_ptr()), w) }
                AShr => Z3_mk_div(c, k[0], self.num(1i128 << x.n(n.b).k)),
                LShr => { let q = Z3_mk_div(c, self.unsigned(k[0], w), self.num(1i128 << x.n(n.b).k)); if x.n(n.b).k == 0 { k[0] } else { q } }
                UDiv => { let q = Z3_mk_div(c, self.unsigned(k[0], w), k[1]); if x.n(n.b).k == 1 { k[0] } else { q } }
                URem => Z3_mk_mod(c, self.unsigned(k[0], w), k[1]),
                SDiv | SRem => {
                    let z = self.num(0);
                    let neg = Z3_mk_lt(c, k[0], z);
                    let v = [z, k[0]];
                    let ab = Z3_mk_ite(c, neg, Z3_mk_sub(c, 2, v.as_ptr()), k[0]);
                    let q = if n.op == SDiv { Z3_mk_div(c, ab, k[1]) } else { Z3_mk_mod(c, ab, k[1]) };
                    let v = [z, q];
                    Z3_mk_ite(c, neg, Z3_mk_sub(c, 2, v.as_ptr()), q)
                }
                SExt => if cw == 1 { Z3_mk_ite(c, k[0], self.num(-1), self.num(0)) } else { k[0] },
                _ => unreachable!(),
            } };
            self.oi.insert(t, Some(r));
        }
        self.oi[&e]
    }
    fn spawn_int(&mut self, x: &Ctx, key: &[E], vars: &[u32]) -> Option<Race> {
        use std::io::Write;
        use std::process::*;
        let txt = smt2(x, key, vars)?;
        let mut ch = Command::new("cvc5").args(["--lang=smt2", "--solve-bv-as-int=sum", "--produce-models", &format!("--tlimit={}", self.timeout_ms)])
            .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
        let pid = ch.id();
        let mut si = ch.stdin.take()?;
        let gave_up = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let g2 = gave_up.clone();
        let h = std::thread::spawn(move || {
            let _ = si.write_all(txt.as_bytes());
            drop(si);
            let out = ch.wait_with_output().ok()?;
            let s = String::from_utf8_lossy(&out.stdout).into_owned();
            if !(s.starts_with("sat") || s.starts_with("unsat")) { g2.store(true, std::sync::atomic::Ordering::SeqCst) }
            Some(s)
        });
        Some(Race { pid, gave_up, h, vars: vars.to_vec() })
    }
}
/// SMT-LIB 2 text of the conjunction; None when it is too large to be worth it
pub fn smt2(x: &Ctx, key: &[E], vars: &[u32]) -> Option<String> {
    use std::fmt::Write;
    let mut o = String::from("(set-logic QF_BV)\n");
    for v in vars { let w = x.var_width[*v as usize]; if w == 1 { writeln!(o, "(declare-const v{} Bool)", v).ok()? } else { writeln!(o, "(declare-const v{} (_ BitVec {}))", v, w).ok()? } }
    // define every shared node once, children first
    let mut done: FxMap<E, ()> = Default::default();
    let mut count = 0;
    let mut st: Vec<E> = key.to_vec();
    let name = |x: &Ctx, e: E| -> String { let n = x.n(e); match n.op {
        O::Const => if n.w == 1 { if n.k == 1 { "true".into() } else { "false".into() } } else { format!("(_ bv{} {})", n.k, n.w) },
        O::Var => format!("v{}", n.a), _ => format!("n{}", e) } };
    let bv = |x: &Ctx, e: E| -> String { let s = name(x, e); if x.w(e) == 1 { format!("(ite {} #b1 #b0)", s) } else { s } };
    while let Some(&e) = st.last() {
        if done.contains_key(&e) { st.pop(); continue }
        let n = x.n(e);
        let (ks, nk) = Ctx::kids(&n);
        let mut ok = true;
        for i in 0..nk { if !done.contains_key(&ks[i]) { st.push(ks[i]); ok = false } }
        if !ok { continue }
        st.pop(); done.insert(e, ());
        if matches!(n.op, O::Const | O::Var) { continue }
        count += 1;
        if count > 4000 { return None }
        let w = n.w as u32; let cw = x.w(n.a);
        use O::*;
        let boolop = w == 1 && matches!(n.op, And | Or | Xor | Not | Eq | Ult | Ule | Slt | Sle | Ite);
        let body = match n.op {
            And | Or | Xor if w == 1 => format!("({} {} {})", match n.op { And => "and", Or => "or", _ => "xor" }, name(x, n.a), name(x, n.b)),
            Not if w == 1 => format!("(not {})", name(x, n.a)),
            Ite => format!("(ite {} {} {})", name(x, n.a), name(x, n.b), name(x, n.c)),
            Eq => format!("(= {} {})", name(x, n.a), name(x, n.b)),
            Extract => format!("((_ extract {} {}) {})", n.k as u32 + w - 1, n.k, bv(x, n.a)),
            ZExt => format!("((_ zero_extend {}) {})", w - cw, bv(x, n.a)),
            SExt => format!("((_ sign_extend {}) {})", w - cw, bv(x, n.a)),
            Not => format!("(bvnot {})", bv(x, n.a)),
            _ => { let f = match n.op { Add => "bvadd", Sub => "bvsub", Mul => "bvmul", UDiv => "bvudiv", SDiv => "bvsdiv", URem => "bvurem", SRem => "bvsrem", And => "bvand", Or => "bvor", Xor => "bvxor", Shl => "bvshl", LShr => "bvlshr", AShr => "bvashr", Concat => "concat", Ult => "bvult", Ule => "bvule", Slt => "bvslt", Sle => "bvsle", _ => return None };
                format!("({} {} {})", f, bv(x, n.a), bv(x, n.b)) }
        };
        if w == 1 {
            let body = if boolop { body } else { format!("(= {} #b1)", body) };
            writeln!(o, "(define-fun n{} () Bool {})", e, body).ok()?;
        } else { writeln!(o, "(define-fun n{} () (_ BitVec {}) {})", e, w, body).ok()?; }
    }
    for &e in key { writeln!(o, "(assert {})", name(x, e)).ok()?; }
    o += "(check-sat)\n";
    if !vars.is_empty() { o += "(get-value ("; for v in vars { write!(o, "v{} ", v).ok()?; } o += "))\n"; }
    Some(o)
}
