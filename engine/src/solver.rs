//! Z3 back end (C API) with query slicing, an incremental assertion stack and
//! a query cache.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case, dead_code)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, domain: *const P, range: P) -> P;
    fn Z3_mk_app(c: P, d: P, n: c_uint, args: *const P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, t: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_geq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
}

static mut ZERR: c_int = 0;
extern "C" fn on_err(_c: P, e: c_int) {
    unsafe { ZERR = e };
}

pub enum Res {
    Unsat,
    Sat(Vec<(u32, u128)>),
    Unknown(String),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub time: f64,
    pub max_time: f64,
    pub fd: u64,
    pub ext: u64,
}

pub struct Solver {
    ctx: P,
    s: P,
    ast: Vec<P>,
    stack: Vec<E>,
    cache: HashMap<(Vec<E>, E), Option<Vec<(u32, u128)>>, FxB>,
    bools: FxMap<E, P>,
    has_fp: FxMap<E, bool>,
    /// Floating-point operations as uninterpreted functions.
    abs: Option<Box<Solver>>,
    uf: bool,
    pub stats: Stats,
    pub timeout_ms: u32,
    pub ext_cmd: Option<String>,
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{a}.{b}.{c}.{d}")
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let mut s = Solver {
                ctx,
                s: std::ptr::null_mut(),
                ast: vec![],
                stack: vec![],
                cache: HashMap::default(),
                bools: FxMap::default(),
                has_fp: FxMap::default(),
                abs: None,
                uf: false,
                stats: Stats::default(),
                timeout_ms,
                ext_cmd: None,
            };
            s.mk_solver();
            s
        }
    }

    fn mk_solver(&mut self) {
        unsafe {
            self.s = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.s);
            self.limit(self.s);
            self.stack.clear();
        }
    }

    fn limit(&self, s: P) {
        unsafe {
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), self.timeout_ms);
            Z3_solver_set_params(self.ctx, s, p);
            Z3_params_dec_ref(self.ctx, p);
        }
    }

    fn sort(&self, w: u16) -> P {
        unsafe { Z3_mk_bv_sort(self.ctx, w as c_uint) }
    }
    fn num(&self, v: u128, w: u16) -> P {
        unsafe {
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, self.sort(w))
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, s.as_ptr(), self.sort(w))
            }
        }
    }
    fn fsort(&self, w: u16) -> P {
        unsafe {
            if w == 32 {
                Z3_mk_fpa_sort(self.ctx, 8, 24)
            } else {
                Z3_mk_fpa_sort(self.ctx, 11, 53)
            }
        }
    }
    fn fp(&self, a: P, w: u16) -> P {
        unsafe { Z3_mk_fpa_to_fp_bv(self.ctx, a, self.fsort(w)) }
    }
    fn b2bv(&self, b: P) -> P {
        unsafe { Z3_mk_ite(self.ctx, b, self.num(1, 1), self.num(0, 1)) }
    }

    /// Translate a 1-bit expression into a Z3 Boolean.
    fn tb(&mut self, e: E) -> P {
        if let Some(&p) = self.bools.get(&e) {
            return p;
        }
        let c = self.ctx;
        let r = unsafe {
            match node(e) {
                Node::Bin(Op::Eq, a, b) => {
                    if width(a) == 1 {
                        let (x, y) = (self.tb(a), self.tb(b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.t(a), self.t(b));
                        Z3_mk_eq(c, x, y)
                    }
                }
                Node::Bin(Op::Ult, a, b) => {
                    let (x, y) = (self.t(a), self.t(b));
                    Z3_mk_bvult(c, x, y)
                }
                Node::Bin(Op::Slt, a, b) => {
                    let (x, y) = (self.t(a), self.t(b));
                    Z3_mk_bvslt(c, x, y)
                }
                Node::Bin(op @ (Op::FEq | Op::FLt | Op::FLe), a, b) => {
                    let w = width(a);
                    let (x, y) = (self.t(a), self.t(b));
                    if self.uf {
                        let r = self.app(&format!("{op:?}"), &[(x, w), (y, w)], 0);
                        self.bools.insert(e, r);
                        return r;
                    }
                    let (x, y) = (self.fp(x, w), self.fp(y, w));
                    match op {
                        Op::FEq => Z3_mk_fpa_eq(c, x, y),
                        Op::FLt => Z3_mk_fpa_lt(c, x, y),
                        _ => Z3_mk_fpa_leq(c, x, y),
                    }
                }
                Node::Bin(Op::Xor, a, b) => {
                    let x = self.tb(a);
                    if as_const(b) == Some(1) {
                        Z3_mk_not(c, x)
                    } else {
                        let y = self.tb(b);
                        Z3_mk_not(c, Z3_mk_eq(c, x, y))
                    }
                }
                Node::Bin(Op::And, a, b) => {
                    let (x, y) = (self.tb(a), self.tb(b));
                    let f = Z3_mk_eq(c, self.num(0, 1), self.num(1, 1));
                    Z3_mk_ite(c, x, y, f)
                }
                Node::Bin(Op::Or, a, b) => {
                    let (x, y) = (self.tb(a), self.tb(b));
                    let t = Z3_mk_eq(c, self.num(1, 1), self.num(1, 1));
                    Z3_mk_ite(c, x, t, y)
                }
                Node::Ite(i, a, b) => {
                    let (x, y, z) = (self.tb(i), self.tb(a), self.tb(b));
                    Z3_mk_ite(c, x, y, z)
                }
                Node::Un(Un::FIsNan, a) => {
                    let w = width(a);
                    let x = self.t(a);
                    if self.uf {
                        let r = self.app("nan", &[(x, w)], 0);
                        self.bools.insert(e, r);
                        return r;
                    }
                    let x = self.fp(x, w);
                    Z3_mk_fpa_is_nan(c, x)
                }
                _ => {
                    let x = self.t(e);
                    Z3_mk_eq(c, x, self.num(1, 1))
                }
            }
        };
        self.bools.insert(e, r);
        r
    }

    fn t(&mut self, e: E) -> P {
        let i = e as usize;
        if i < self.ast.len() && !self.ast[i].is_null() {
            return self.ast[i];
        }
        let c = self.ctx;
        let w = width(e);
        let r = unsafe {
            match node(e) {
                Node::Const(v) => self.num(v, w),
                Node::Var(v) => Z3_mk_const(c, Z3_mk_int_symbol(c, v as c_int), self.sort(w)),
                Node::Bin(op, a, b) => {
                    if w == 1 {
                        match op {
                            Op::Eq | Op::Ult | Op::Slt | Op::FEq | Op::FLt | Op::FLe | Op::And | Op::Or | Op::Xor => {
                                let x = self.tb(e);
                                let r = self.b2bv(x);
                                self.put(i, r);
                                return r;
                            }
                            _ => {}
                        }
                    }
                    let (x, y) = (self.t(a), self.t(b));
                    let wa = width(a);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv if self.uf => {
                            self.app(&format!("{op:?}"), &[(x, wa), (y, wa)], w)
                        }
                        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                            let rm = Z3_mk_fpa_rne(c);
                            let (x, y) = (self.fp(x, wa), self.fp(y, wa));
                            let r = match op {
                                Op::FAdd => Z3_mk_fpa_add(c, rm, x, y),
                                Op::FSub => Z3_mk_fpa_sub(c, rm, x, y),
                                Op::FMul => Z3_mk_fpa_mul(c, rm, x, y),
                                _ => Z3_mk_fpa_div(c, rm, x, y),
                            };
                            Z3_mk_fpa_to_ieee_bv(c, r)
                        }
                        _ => unreachable!("{op:?}"),
                    }
                }
                Node::Un(u, a) => {
                    let wa = width(a);
                    let x = self.t(a);
                    match u {
                        Un::ZExt => Z3_mk_zero_ext(c, (w - wa) as c_uint, x),
                        Un::SExt => Z3_mk_sign_ext(c, (w - wa) as c_uint, x),
                        Un::Extract(lo) => Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, x),
                        Un::SiToFp if self.uf && wa < 64 => {
                            let x = Z3_mk_sign_ext(c, (64 - wa) as c_uint, x);
                            self.app("SiToFp", &[(x, 64)], w)
                        }
                        Un::SiToFp | Un::UiToFp | Un::FpExt | Un::FpTrunc | Un::FpRound(_) | Un::FpToSiSat | Un::FpToUiSat
                            if self.uf =>
                        {
                            self.app(&format!("{u:?}").replace(['(', ')'], ""), &[(x, wa)], w)
                        }
                        Un::SiToFp => {
                            let f = Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), x, self.fsort(w));
                            Z3_mk_fpa_to_ieee_bv(c, f)
                        }
                        Un::UiToFp => {
                            let f = Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), x, self.fsort(w));
                            Z3_mk_fpa_to_ieee_bv(c, f)
                        }
                        Un::FpExt | Un::FpTrunc => {
                            let f = self.fp(x, wa);
                            let f = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), f, self.fsort(w));
                            Z3_mk_fpa_to_ieee_bv(c, f)
                        }
                        Un::FpRound(m) => {
                            let rm = match m {
                                0 => Z3_mk_fpa_rtz(c),
                                1 => Z3_mk_fpa_rtn(c),
                                2 => Z3_mk_fpa_rtp(c),
                                3 => Z3_mk_fpa_rne(c),
                                _ => Z3_mk_fpa_rna(c),
                            };
                            let f = Z3_mk_fpa_round_to_integral(c, rm, self.fp(x, wa));
                            Z3_mk_fpa_to_ieee_bv(c, f)
                        }
                        Un::FIsNan => {
                            let b = self.tb(e);
                            self.b2bv(b)
                        }
                        Un::FpToSiSat | Un::FpToUiSat => {
                            let f = self.fp(x, wa);
                            let fs = self.fsort(wa);
                            let signed = u == Un::FpToSiSat;
                            // saturation bounds are exact in binary FP
                            let hi = if signed { 2f64.powi(w as i32 - 1) } else { 2f64.powi(w as i32) };
                            let lo = if signed { -hi } else { 0.0 };
                            let zhi = Z3_mk_fpa_numeral_double(c, hi, fs);
                            let zlo = Z3_mk_fpa_numeral_double(c, lo, fs);
                            let rtz = Z3_mk_fpa_rtz(c);
                            let (conv, vhi, vlo) = if signed {
                                (
                                    Z3_mk_fpa_to_sbv(c, rtz, f, w as c_uint),
                                    self.num(mask(w - 1), w),
                                    self.num(1u128 << (w - 1), w),
                                )
                            } else {
                                (Z3_mk_fpa_to_ubv(c, rtz, f, w as c_uint), self.num(mask(w), w), self.num(0, w))
                            };
                            let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, f, zlo), vlo, conv);
                            let r = Z3_mk_ite(c, Z3_mk_fpa_geq(c, f, zhi), vhi, r);
                            Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), self.num(0, w), r)
                        }
                    }
                }
                Node::Ite(i, a, b) => {
                    let x = self.tb(i);
                    let (y, z) = (self.t(a), self.t(b));
                    Z3_mk_ite(c, x, y, z)
                }
                Node::Select(t, idx) => {
                    let tab = ar().tables[t as usize].clone();
                    let bits = usize::BITS - (tab.len().max(2) - 1).leading_zeros();
                    let ix = self.t(idx);
                    self.lut(&tab, ix, 0, bits)
                }
            }
        };
        self.put(i, r);
        r
    }

    fn put(&mut self, i: usize, r: P) {
        if self.ast.len() <= i {
            self.ast.resize(i + 1, std::ptr::null_mut());
        }
        self.ast[i] = r;
    }

    fn lut(&mut self, tab: &[u8], ix: P, base: usize, bits: u32) -> P {
        let end = (base + (1usize << bits)).min(tab.len());
        if base >= tab.len() {
            return self.num(0, 8);
        }
        let s = &tab[base..end];
        if s.iter().all(|&b| b == s[0]) {
            return self.num(s[0] as u128, 8);
        }
        let k = bits - 1;
        let lo = self.lut(tab, ix, base, k);
        if base + (1 << k) >= tab.len() {
            return lo;
        }
        let hi = self.lut(tab, ix, base + (1 << k), k);
        unsafe {
            let bit = Z3_mk_extract(self.ctx, k, k, ix);
            let c = Z3_mk_eq(self.ctx, bit, self.num(1, 1));
            Z3_mk_ite(self.ctx, c, hi, lo)
        }
    }

    /// Is `pc ∧ cond` satisfiable? `pc` is sliced to what `cond` depends on;
    /// the returned model covers only the sliced variables.
    pub fn check(&mut self, pc: &[E], cond: E, hint: &HashMap<u32, u128>) -> Res {
        match as_const(cond) {
            Some(0) => return Res::Unsat,
            Some(_) => return Res::Sat(vec![]),
            None => {}
        }
        // ¬(A ∧ B): the parts about floating-point values apart, as they are
        // costly enough by themselves
        if let Node::Bin(Op::Xor, x, k) = node(cond) {
            if as_const(k) == Some(1) && has_fp(cond, &mut self.has_fp) {
                if let Node::Bin(Op::And, ..) = node(x) {
                    let mut parts = vec![];
                    conjuncts(x, &mut parts);
                    let (fp, plain): (Vec<E>, Vec<E>) = parts.into_iter().partition(|p| has_fp(*p, &mut self.has_fp));
                    let mut groups = fp;
                    if !plain.is_empty() {
                        groups.insert(0, plain.into_iter().reduce(|a, b| bin(Op::And, a, b)).unwrap());
                    }
                    for g in groups {
                        match self.check(pc, not(g), hint) {
                            Res::Unsat => {}
                            r => return r,
                        }
                    }
                    return Res::Unsat;
                }
            }
        }
        // slice
        let mut vs: Vec<u32> = vars(cond).to_vec();
        let mut used = vec![false; pc.len()];
        loop {
            let mut changed = false;
            for (i, &c) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let cv = vars(c);
                if cv.iter().any(|v| vs.contains(v)) {
                    used[i] = true;
                    for v in cv.iter() {
                        if !vs.contains(v) {
                            vs.push(*v);
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        let sliced: Vec<E> = pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, e)| *e).collect();
        let key = (sliced, cond);
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return match r {
                None => Res::Unsat,
                Some(m) => Res::Sat(m.clone()),
            };
        }
        let t0 = Instant::now();
        // Floating-point operations are costly to the solver. First try to
        // keep their operands as they are; then, as many conditions hold
        // whatever the operations are, with all of them as uninterpreted
        // functions, where "unsat" is final.
        let r = if let Some(m) = self.with_hint(&key.0, cond, &vs, hint) {
            Res::Sat(m)
        } else if has_fp(cond, &mut self.has_fp) && self.abstract_unsat(&key.0, cond) {
            Res::Unsat
        } else {
            let fp = &mut self.has_fp;
            if key.0.iter().chain([&cond]).any(|e| has_fp(*e, fp)) {
                self.once(&key.0, cond, &vs)
            } else {
                self.raw(&key.0, cond, &vs)
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        match &r {
            Res::Sat(m) => {
                self.stats.sat += 1;
                self.cache.insert(key, Some(m.clone()));
            }
            Res::Unsat => {
                self.stats.unsat += 1;
                self.cache.insert(key, None);
            }
            _ => {}
        }
        if self.cache.len() > 2_000_000 {
            self.cache.clear();
        }
        r
    }

    /// A model in which the variables of floating-point operations keep the
    /// values they have: the rest is a query without such operations.
    fn with_hint(&mut self, pc: &[E], cond: E, vs: &[u32], hint: &HashMap<u32, u128>) -> Option<Vec<(u32, u128)>> {
        let mut fixed = vec![];
        for &e in pc.iter().chain([&cond]) {
            fp_vars(e, &mut self.has_fp, &mut fixed);
        }
        if fixed.is_empty() {
            return None;
        }
        fixed.sort_unstable();
        fixed.dedup();
        let value = |v: u32| hint.get(&v).copied().unwrap_or(0) & mask(var_width(v));
        let map: FxMap<E, E> = fixed.iter().map(|&v| (intern_var(v), cst(value(v), var_width(v)))).collect();
        let mut memo = FxMap::default();
        let cond = subst_all(cond, &map, &mut memo);
        if as_const(cond) == Some(0) {
            return None;
        }
        let mut rest = vec![];
        for &e in pc {
            let e = subst_all(e, &map, &mut memo);
            match as_const(e) {
                Some(0) => return None,
                Some(_) => {}
                None => rest.push(e),
            }
        }
        let free: Vec<u32> = vs.iter().copied().filter(|v| !fixed.contains(v)).collect();
        match self.abstraction().raw(&rest, cond, &free) {
            Res::Sat(mut m) => {
                m.extend(fixed.iter().map(|&v| (v, value(v))));
                Some(m)
            }
            _ => None,
        }
    }

    fn abstraction(&mut self) -> &mut Solver {
        if self.abs.is_none() {
            let mut a = Solver::new(2000);
            a.uf = true;
            self.abs = Some(Box::new(a));
        }
        self.abs.as_mut().unwrap()
    }

    fn abstract_unsat(&mut self, pc: &[E], cond: E) -> bool {
        // only what is about the same inputs: fewer facts keep "unsat" sound
        let vs = vars(cond);
        let near: Vec<E> = pc.iter().copied().filter(|c| vars(*c).iter().all(|v| vs.contains(v))).collect();
        matches!(self.abstraction().once(&near, cond, &[]), Res::Unsat)
    }

    /// A query on a solver of its own: nothing to push or to pop, so that Z3
    /// may choose its means by the kind of formula.
    fn once(&mut self, pc: &[E], cond: E, vs: &[u32]) -> Res {
        let terms: Vec<P> = pc.iter().chain([&cond]).map(|&e| self.tb(e)).collect();
        unsafe {
            ZERR = 0;
            let s = Z3_mk_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, s);
            self.limit(s);
            for t in terms {
                Z3_solver_assert(self.ctx, s, t);
            }
            let r = match Z3_solver_check(self.ctx, s) {
                1 => self.model(s, vs),
                -1 => Res::Unsat,
                _ => Res::Unknown("timeout".into()),
            };
            Z3_solver_dec_ref(self.ctx, s);
            if ZERR != 0 {
                return Res::Unknown(format!("z3 error {}", ZERR));
            }
            r
        }
    }

    fn model(&mut self, s: P, vs: &[u32]) -> Res {
        let c = self.ctx;
        unsafe {
            let m = Z3_solver_get_model(c, s);
            Z3_model_inc_ref(c, m);
            let mut out = vec![];
            let mut ok = true;
            for &v in vs {
                let e = intern_var(v);
                let a = self.t(e);
                let mut r: P = std::ptr::null_mut();
                let mut val = 0u64;
                if !Z3_model_eval(c, m, a, true, &mut r) || !Z3_get_numeral_uint64(c, r, &mut val) {
                    ok = false;
                    break;
                }
                out.push((v, val as u128));
            }
            Z3_model_dec_ref(c, m);
            if ok { Res::Sat(out) } else { Res::Unknown("model".into()) }
        }
    }

    /// An uninterpreted function applied; a result of width 0 is a Boolean.
    fn app(&self, name: &str, args: &[(P, u16)], w: u16) -> P {
        unsafe {
            let mut n = name.to_string();
            let mut sorts = vec![];
            let mut vals = vec![];
            for (a, aw) in args {
                n += &format!("_{aw}");
                sorts.push(self.sort(*aw));
                vals.push(*a);
            }
            let n = CString::new(format!("{n}_{w}")).unwrap();
            let range = if w == 0 { Z3_mk_bool_sort(self.ctx) } else { self.sort(w) };
            let d = Z3_mk_func_decl(
                self.ctx,
                Z3_mk_string_symbol(self.ctx, n.as_ptr()),
                sorts.len() as c_uint,
                sorts.as_ptr(),
                range,
            );
            Z3_mk_app(self.ctx, d, vals.len() as c_uint, vals.as_ptr())
        }
    }

    fn raw(&mut self, pc: &[E], cond: E, vs: &[u32]) -> Res {
        let c = self.ctx;
        unsafe {
            ZERR = 0;
            let common = self.stack.iter().zip(pc).take_while(|(a, b)| a == b).count();
            if common < self.stack.len() {
                Z3_solver_pop(c, self.s, (self.stack.len() - common) as c_uint);
                self.stack.truncate(common);
            }
            for &e in &pc[common..] {
                let b = self.tb(e);
                Z3_solver_push(c, self.s);
                Z3_solver_assert(c, self.s, b);
                self.stack.push(e);
            }
            let b = self.tb(cond);
            Z3_solver_push(c, self.s);
            Z3_solver_assert(c, self.s, b);
            let r = Z3_solver_check(c, self.s);
            let out = if ZERR != 0 {
                Res::Unknown(format!("z3 error {}", ZERR))
            } else {
                match r {
                    1 => self.model(self.s, vs),
                    -1 => Res::Unsat,
                    _ => Res::Unknown("timeout".into()),
                }
            };
            Z3_solver_pop(c, self.s, 1);
            if ZERR != 0 {
                return Res::Unknown(format!("z3 error {}", ZERR));
            }
            out
        }
    }
}

fn intern_var(id: u32) -> E {
    let w = var_width(id);
    var(id / 8, w)
}

fn conjuncts(e: E, out: &mut Vec<E>) {
    match node(e) {
        Node::Bin(Op::And, a, b) => {
            conjuncts(a, out);
            conjuncts(b, out);
        }
        _ => out.push(e),
    }
}
