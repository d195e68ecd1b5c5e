//! Z3 back end (C API, declared by hand).  Every feasibility decision and every
//! assertion of the executor is settled here.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;
use std::time::Instant;

type Ast = *mut c_void;
type Ctx = *mut c_void;
type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> Ctx;
    fn Z3_del_config(c: P);
    fn Z3_del_context(c: Ctx);
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> P;
    fn Z3_mk_bool_sort(c: Ctx) -> P;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> P;
    fn Z3_mk_const(c: Ctx, s: P, ty: P) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, ty: P) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, ty: P) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_implies(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
    fn Z3_mk_fpa_sort_64(c: Ctx) -> P;
    fn Z3_mk_fpa_sort_32(c: Ctx) -> P;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtz(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtn(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtp(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rna(c: Ctx) -> Ast;
    fn Z3_mk_fpa_round_to_integral(c: Ctx, rm: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, rm: Ast, a: Ast, s: P) -> Ast;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, a: Ast, s: P) -> Ast;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, rm: Ast, a: Ast, s: P) -> Ast;
    fn Z3_mk_fpa_to_fp_signed(c: Ctx, rm: Ast, a: Ast, s: P) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_to_ubv(c: Ctx, rm: Ast, a: Ast, w: c_uint) -> Ast;
    fn Z3_mk_fpa_to_sbv(c: Ctx, rm: Ast, a: Ast, w: c_uint) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sub(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_div(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sqrt(c: Ctx, rm: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_solver(c: Ctx) -> P;
    fn Z3_mk_solver_for_logic(c: Ctx, s: P) -> P;
    fn Z3_solver_inc_ref(c: Ctx, s: P);
    fn Z3_solver_dec_ref(c: Ctx, s: P);
    fn Z3_solver_assert(c: Ctx, s: P, a: Ast);
    fn Z3_solver_push(c: Ctx, s: P);
    fn Z3_solver_pop(c: Ctx, s: P, n: c_uint);
    fn Z3_solver_check(c: Ctx, s: P) -> c_int;
    fn Z3_solver_check_assumptions(c: Ctx, s: P, n: c_uint, a: *const Ast) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: P) -> P;
    fn Z3_solver_set_params(c: Ctx, s: P, p: P);
    fn Z3_mk_params(c: Ctx) -> P;
    fn Z3_params_inc_ref(c: Ctx, p: P);
    fn Z3_params_set_uint(c: Ctx, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: Ctx, m: P);
    fn Z3_model_dec_ref(c: Ctx, m: P);
    fn Z3_model_eval(c: Ctx, m: P, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, v: Ast, u: *mut u64) -> bool;
}

extern "C" fn on_err(_c: Ctx, code: c_int) {
    eprintln!("irsym: z3 error code {}", code);
    std::process::exit(4);
}

#[derive(Clone)]
pub enum Res {
    Sat(Rc<Vec<(u32, u64)>>),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: Ctx,
    inc: P,
    gen: P,
    bv: FxMap<X, Ast>,
    bl: FxMap<X, Ast>,
    proxies: FxMap<X, Ast>,
    vars: FxMap<u32, Ast>,
    isfp: FxMap<X, bool>,
    varcache: FxMap<X, Rc<Vec<u32>>>,
    cache: FxMap<Vec<X>, Res>,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_us: u64,
    pub max_us: u64,
    timeout_ms: u32,
}

unsafe fn sym(c: Ctx, s: &str) -> P {
    let s = CString::new(s).unwrap();
    Z3_mk_string_symbol(c, s.as_ptr())
}

/// The width, if smaller than its own, in which an arithmetic node can be
/// computed as a signed number: the ranges of its operands and result fit.
fn narrow(ar: &Arena, n: &Node) -> Option<c_uint> {
    if n.w > 64 || n.w < 8 {
        return None;
    }
    // bits of a signed representation of lo..=hi
    let one = |v: i64| 65 - (if v < 0 { !v } else { v }).leading_zeros();
    let bits = |lo: i64, hi: i64| one(lo).max(one(hi));
    let own = bits(n.slo, n.shi);
    let (a, b) = (ar.node(n.a), ar.node(n.b));
    let k = match n.op {
        Op::Add | Op::Sub | Op::Mul => own,
        Op::UDiv | Op::URem if a.slo >= 0 && b.slo >= 0 => bits(a.slo, a.shi).max(bits(b.slo, b.shi)),
        Op::SDiv | Op::SRem => bits(a.slo, a.shi).max(bits(b.slo, b.shi)) + 1,
        _ => return None,
    };
    if k < n.w as u32 {
        Some(k)
    } else {
        None
    }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        let mut s = Solver {
            ctx: std::ptr::null_mut(),
            inc: std::ptr::null_mut(),
            gen: std::ptr::null_mut(),
            bv: Default::default(),
            bl: Default::default(),
            proxies: Default::default(),
            vars: Default::default(),
            isfp: Default::default(),
            varcache: Default::default(),
            cache: Default::default(),
            queries: 0,
            cache_hits: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            time_us: 0,
            max_us: 0,
            timeout_ms,
        };
        unsafe { s.init() };
        s
    }
    unsafe fn init(&mut self) {
        let cfg = Z3_mk_config();
        let k = CString::new("model").unwrap();
        let v = CString::new("true").unwrap();
        Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
        self.ctx = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        Z3_set_error_handler(self.ctx, Some(on_err));
        self.mk_solvers();
    }
    unsafe fn mk_solvers(&mut self) {
        let p = Z3_mk_params(self.ctx);
        Z3_params_inc_ref(self.ctx, p);
        Z3_params_set_uint(self.ctx, p, sym(self.ctx, "timeout"), self.timeout_ms);
        self.inc = Z3_mk_solver_for_logic(self.ctx, sym(self.ctx, "QF_BV"));
        Z3_solver_inc_ref(self.ctx, self.inc);
        Z3_solver_set_params(self.ctx, self.inc, p);
        self.gen = Z3_mk_solver(self.ctx);
        Z3_solver_inc_ref(self.ctx, self.gen);
        Z3_solver_set_params(self.ctx, self.gen, p);
    }
    /// Forget everything tied to the expression arena.
    pub fn reset(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.inc);
            Z3_solver_dec_ref(self.ctx, self.gen);
            Z3_del_context(self.ctx);
            self.bv.clear();
            self.bl.clear();
            self.proxies.clear();
            self.vars.clear();
            self.isfp.clear();
            self.varcache.clear();
            self.cache.clear();
            self.init();
        }
    }

    pub fn vars_of(&mut self, ar: &Arena, x: X) -> Rc<Vec<u32>> {
        if let Some(v) = self.varcache.get(&x) {
            return v.clone();
        }
        let mut seen = FxSet::default();
        let mut out = vec![];
        ar.vars_of(x, &mut seen, &mut out);
        out.sort();
        let r = Rc::new(out);
        self.varcache.insert(x, r.clone());
        r
    }

    fn has_fp(&mut self, ar: &Arena, x: X) -> bool {
        if x == 0 {
            return false;
        }
        if let Some(&b) = self.isfp.get(&x) {
            return b;
        }
        let n = *ar.node(x);
        let r = match n.op {
            Op::Const | Op::Var => false,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::FLt | Op::FEq | Op::FNan | Op::UiToFp | Op::SiToFp | Op::FpToSi | Op::FpToUi | Op::FpCvt | Op::FInt => true,
            _ => self.has_fp(ar, n.a) || self.has_fp(ar, n.b) || self.has_fp(ar, n.c),
        };
        self.isfp.insert(x, r);
        r
    }

    /// Is the conjunction of `cs` satisfiable?
    pub fn check(&mut self, ar: &Arena, cs: &[X]) -> Res {
        let mut key: Vec<X> = cs.iter().copied().filter(|&x| x != ar.t).collect();
        key.sort();
        key.dedup();
        if key.contains(&ar.f) {
            return Res::Unsat;
        }
        if key.is_empty() {
            return Res::Sat(Rc::new(vec![]));
        }
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let r = unsafe { self.run(ar, &key) };
        let us = t0.elapsed().as_micros() as u64;
        self.time_us += us;
        self.max_us = self.max_us.max(us);
        if us > 400_000 && std::env::var_os("IRSYM_SLOW").is_some() {
            eprintln!("slow query {} ms", us / 1000);
            for &x in &key {
                eprintln!("  {}", ar.show(x));
            }
        }
        self.queries += 1;
        match r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        self.cache.insert(key, r.clone());
        r
    }

    unsafe fn run(&mut self, ar: &Arena, key: &[X]) -> Res {
        let fp = key.iter().any(|&x| self.has_fp(ar, x));
        if self.proxies.len() > 6000 {
            // drop learnt state now and then
            Z3_solver_dec_ref(self.ctx, self.inc);
            Z3_solver_dec_ref(self.ctx, self.gen);
            self.mk_solvers();
            self.proxies.clear();
            let vs: Vec<(u32, Ast)> = self.vars.iter().map(|(a, b)| (*a, *b)).collect();
            for (v, a) in vs {
                self.assert_range(ar, v, a);
            }
        }
        let mut vars: Vec<u32> = vec![];
        for &x in key {
            for &v in self.vars_of(ar, x).iter() {
                if !vars.contains(&v) {
                    vars.push(v)
                }
            }
        }
        for &v in &vars {
            self.var(ar, v);
        }
        let (sol, rc) = if fp {
            Z3_solver_push(self.ctx, self.gen);
            for &x in key {
                let b = self.tb(ar, x);
                Z3_solver_assert(self.ctx, self.gen, b);
            }
            (self.gen, Z3_solver_check(self.ctx, self.gen))
        } else {
            let mut ps = vec![];
            for &x in key {
                let p = match self.proxies.get(&x) {
                    Some(p) => *p,
                    None => {
                        let b = self.tb(ar, x);
                        let p = Z3_mk_const(self.ctx, sym(self.ctx, &format!("p!{}", x)), Z3_mk_bool_sort(self.ctx));
                        let imp = Z3_mk_implies(self.ctx, p, b);
                        Z3_solver_assert(self.ctx, self.inc, imp);
                        self.proxies.insert(x, p);
                        p
                    }
                };
                ps.push(p);
            }
            (self.inc, Z3_solver_check_assumptions(self.ctx, self.inc, ps.len() as c_uint, ps.as_ptr()))
        };
        let r = match rc {
            1 => {
                let m = Z3_solver_get_model(self.ctx, sol);
                Z3_model_inc_ref(self.ctx, m);
                let mut out = vec![];
                let mut ok = true;
                for &v in &vars {
                    let a = self.vars[&v];
                    let mut r: Ast = std::ptr::null_mut();
                    let mut u = 0u64;
                    if !Z3_model_eval(self.ctx, m, a, true, &mut r) || !Z3_get_numeral_uint64(self.ctx, r, &mut u) {
                        ok = false;
                        break;
                    }
                    out.push((v, u));
                }
                Z3_model_dec_ref(self.ctx, m);
                if ok {
                    Res::Sat(Rc::new(out))
                } else {
                    Res::Unknown
                }
            }
            -1 => Res::Unsat,
            _ => Res::Unknown,
        };
        if fp {
            Z3_solver_pop(self.ctx, self.gen, 1);
        }
        r
    }

    unsafe fn assert_range(&mut self, ar: &Arena, i: u32, a: Ast) {
        let v = &ar.vars[i as usize];
        let s = Z3_mk_bv_sort(self.ctx, v.w as c_uint);
        let mut cs = vec![];
        if v.lo > 0 {
            let l = Z3_mk_unsigned_int64(self.ctx, v.lo, s);
            cs.push(Z3_mk_bvule(self.ctx, l, a));
        }
        if v.hi < mask64(v.w) {
            let h = Z3_mk_unsigned_int64(self.ctx, v.hi, s);
            cs.push(Z3_mk_bvule(self.ctx, a, h));
        }
        for c in cs {
            Z3_solver_assert(self.ctx, self.inc, c);
            Z3_solver_assert(self.ctx, self.gen, c);
        }
    }
    unsafe fn var(&mut self, ar: &Arena, i: u32) -> Ast {
        if let Some(&a) = self.vars.get(&i) {
            return a;
        }
        let v = &ar.vars[i as usize];
        let s = Z3_mk_bv_sort(self.ctx, v.w as c_uint);
        // only as many bits as the declared range needs
        let k = 64 - v.hi.leading_zeros().min(63);
        let a = if k < v.w as u32 {
            let s = Z3_mk_bv_sort(self.ctx, k as c_uint);
            let n = Z3_mk_const(self.ctx, sym(self.ctx, &format!("v!{}", i)), s);
            Z3_mk_zero_ext(self.ctx, v.w as c_uint - k, n)
        } else {
            Z3_mk_const(self.ctx, sym(self.ctx, &format!("v!{}", i)), s)
        };
        self.vars.insert(i, a);
        self.assert_range(ar, i, a);
        a
    }

    unsafe fn fp(&mut self, ar: &Arena, x: X) -> Ast {
        let w = ar.w(x);
        let b = self.t(ar, x);
        let s = if w == 64 { Z3_mk_fpa_sort_64(self.ctx) } else { Z3_mk_fpa_sort_32(self.ctx) };
        Z3_mk_fpa_to_fp_bv(self.ctx, b, s)
    }

    /// boolean translation of a width-1 expression
    unsafe fn tb(&mut self, ar: &Arena, x: X) -> Ast {
        if let Some(&a) = self.bl.get(&x) {
            return a;
        }
        let c = self.ctx;
        let n = *ar.node(x);
        debug_assert_eq!(n.w, 1);
        let r = match n.op {
            Op::Const => {
                if n.k != 0 {
                    Z3_mk_true(c)
                } else {
                    Z3_mk_false(c)
                }
            }
            Op::Not => {
                let a = self.tb(ar, n.a);
                Z3_mk_not(c, a)
            }
            Op::And => {
                let v = [self.tb(ar, n.a), self.tb(ar, n.b)];
                Z3_mk_and(c, 2, v.as_ptr())
            }
            Op::Xor => {
                let (a, b) = (self.tb(ar, n.a), self.tb(ar, n.b));
                Z3_mk_xor(c, a, b)
            }
            Op::Ite => {
                let (a, b, d) = (self.tb(ar, n.a), self.tb(ar, n.b), self.tb(ar, n.c));
                Z3_mk_ite(c, a, b, d)
            }
            Op::Eq => {
                let (a, b) = (self.t(ar, n.a), self.t(ar, n.b));
                Z3_mk_eq(c, a, b)
            }
            Op::Ult => {
                let (a, b) = (self.t(ar, n.a), self.t(ar, n.b));
                Z3_mk_bvult(c, a, b)
            }
            Op::Slt => {
                let (a, b) = (self.t(ar, n.a), self.t(ar, n.b));
                Z3_mk_bvslt(c, a, b)
            }
            Op::FLt => {
                let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b));
                Z3_mk_fpa_lt(c, a, b)
            }
            Op::FEq => {
                let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b));
                Z3_mk_fpa_eq(c, a, b)
            }
            Op::FNan => {
                let a = self.fp(ar, n.a);
                Z3_mk_fpa_is_nan(c, a)
            }
            _ => {
                let a = self.t(ar, x);
                let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                Z3_mk_eq(c, a, one)
            }
        };
        self.bl.insert(x, r);
        r
    }

    unsafe fn t(&mut self, ar: &Arena, x: X) -> Ast {
        if let Some(&a) = self.bv.get(&x) {
            return a;
        }
        let c = self.ctx;
        let n = *ar.node(x);
        let w = n.w as c_uint;
        let isbool = n.w == 1
            && matches!(n.op, Op::Not | Op::And | Op::Xor | Op::Ite | Op::Eq | Op::Ult | Op::Slt | Op::FLt | Op::FEq | Op::FNan);
        let r = if isbool {
            let b = self.tb(ar, x);
            let s = Z3_mk_bv_sort(c, 1);
            let (o, z) = (Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s));
            Z3_mk_ite(c, b, o, z)
        } else {
            match n.op {
                Op::Const => {
                    let s = Z3_mk_bv_sort(c, w);
                    if n.k <= u64::MAX as u128 {
                        Z3_mk_unsigned_int64(c, n.k as u64, s)
                    } else {
                        let st = CString::new(format!("{}", n.k)).unwrap();
                        Z3_mk_numeral(c, st.as_ptr(), s)
                    }
                }
                Op::Var => self.var(ar, n.k as u32),
                Op::Mod => self.t(ar, n.a),
                Op::Not => {
                    let a = self.t(ar, n.a);
                    Z3_mk_bvnot(c, a)
                }
                Op::Ite => {
                    let (a, b, d) = (self.tb(ar, n.a), self.t(ar, n.b), self.t(ar, n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                Op::ZExt => {
                    let wi = ar.w(n.a) as c_uint;
                    let a = self.t(ar, n.a);
                    Z3_mk_zero_ext(c, w - wi, a)
                }
                Op::SExt => {
                    let wi = ar.w(n.a) as c_uint;
                    let a = self.t(ar, n.a);
                    Z3_mk_sign_ext(c, w - wi, a)
                }
                Op::Extract => {
                    let a = self.t(ar, n.a);
                    Z3_mk_extract(c, n.k as c_uint + w - 1, n.k as c_uint, a)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b));
                    let rm = Z3_mk_fpa_rne(c);
                    let f = match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, rm, a, b),
                        Op::FSub => Z3_mk_fpa_sub(c, rm, a, b),
                        Op::FMul => Z3_mk_fpa_mul(c, rm, a, b),
                        _ => Z3_mk_fpa_div(c, rm, a, b),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                Op::FSqrt => {
                    let a = self.fp(ar, n.a);
                    let f = Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), a);
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                Op::UiToFp => {
                    let a = self.t(ar, n.a);
                    let f = Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, Z3_mk_fpa_sort_64(c));
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                Op::SiToFp => {
                    let a = self.t(ar, n.a);
                    let f = Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, Z3_mk_fpa_sort_64(c));
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                Op::FInt => {
                    let a = self.fp(ar, n.a);
                    let rm = match n.k {
                        0 => Z3_mk_fpa_rtn(c),
                        1 => Z3_mk_fpa_rtp(c),
                        2 => Z3_mk_fpa_rtz(c),
                        3 => Z3_mk_fpa_rna(c),
                        _ => Z3_mk_fpa_rne(c),
                    };
                    let f = Z3_mk_fpa_round_to_integral(c, rm, a);
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                Op::FpCvt => {
                    let a = self.fp(ar, n.a);
                    let s = if w == 64 { Z3_mk_fpa_sort_64(c) } else { Z3_mk_fpa_sort_32(c) };
                    let f = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, s);
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                Op::FpToUi => {
                    let a = self.fp(ar, n.a);
                    Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), a, w)
                }
                Op::FpToSi => {
                    let a = self.fp(ar, n.a);
                    Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), a, w)
                }
                op => {
                    let a = self.t(ar, n.a);
                    let b = self.t(ar, n.b);
                    if let Some(k) = narrow(ar, &n) {
                        let (a, b) = (Z3_mk_extract(c, k - 1, 0, a), Z3_mk_extract(c, k - 1, 0, b));
                        let r = match op {
                            Op::Add => Z3_mk_bvadd(c, a, b),
                            Op::Sub => Z3_mk_bvsub(c, a, b),
                            Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b),
                            Op::URem => Z3_mk_bvurem(c, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                            _ => Z3_mk_bvsrem(c, a, b),
                        };
                        let r = Z3_mk_sign_ext(c, w - k, r);
                        self.bv.insert(x, r);
                        return r;
                    }
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!("translate {:?}", op),
                    }
                }
            }
        };
        self.bv.insert(x, r);
        r
    }
}
