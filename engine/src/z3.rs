//! Minimal z3 C API binding and translation of expressions.

use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::{Duration, Instant};

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_get_version(a: *mut c_uint, b: *mut c_uint, c: *mut c_uint, d: *mut c_uint);
    fn Z3_get_error_code(c: P) -> c_int;
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("z3 error {e}");
    std::process::abort();
}

pub struct Z3 {
    c: P,
    ast: Vec<P>,
    sorts: Vec<P>,
    logic: P,
    params: P,
    /// Kept for easy queries, which would otherwise cost more to set up than to decide.
    easy: P,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: Duration,
    pub longest: Duration,
}

pub enum Res {
    Sat(Assign),
    Unsat,
    Unknown,
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("z3 {a}.{b}.{c}")
}

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            // legacy context: asts live as long as the context
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let l = CString::new("QF_BV").unwrap();
            let logic = Z3_mk_string_symbol(c, l.as_ptr());
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, params, Z3_mk_string_symbol(c, k.as_ptr()), rlimit);
            let k = CString::new("random_seed").unwrap();
            Z3_params_set_uint(c, params, Z3_mk_string_symbol(c, k.as_ptr()), 1);
            let _ = Z3_get_error_code(c);
            Z3 {
                c,
                ast: vec![],
                sorts: vec![std::ptr::null_mut(); 513],
                logic,
                params,
                easy: std::ptr::null_mut(),
                queries: 0,
                sat: 0,
                unsat: 0,
                time: Duration::ZERO,
                longest: Duration::ZERO,
            }
        }
    }

    fn sort(&mut self, w: u32) -> P {
        let w = w as usize;
        if self.sorts[w].is_null() {
            self.sorts[w] = unsafe {
                if w == 1 {
                    Z3_mk_bool_sort(self.c)
                } else {
                    Z3_mk_bv_sort(self.c, w as c_uint)
                }
            };
        }
        self.sorts[w]
    }

    /// Bool (width 1) to a 1-bit vector.
    fn bv1(&mut self, p: P) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, 1);
            let one = CString::new("1").unwrap();
            let zero = CString::new("0").unwrap();
            let o = Z3_mk_numeral(self.c, one.as_ptr(), s);
            let z = Z3_mk_numeral(self.c, zero.as_ptr(), s);
            Z3_mk_ite(self.c, p, o, z)
        }
    }
    fn from_bv1(&mut self, p: P) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, 1);
            let one = CString::new("1").unwrap();
            let o = Z3_mk_numeral(self.c, one.as_ptr(), s);
            Z3_mk_eq(self.c, p, o)
        }
    }

    pub fn tr(&mut self, e: Ex) -> P {
        let i = e.0 as usize;
        if self.ast.len() <= i {
            self.ast.resize(ar().nodes.len(), std::ptr::null_mut());
        }
        if !self.ast[i].is_null() {
            return self.ast[i];
        }
        let n = ar().nodes[i];
        let w = n.w as u32;
        let c = self.c;
        use Op::*;
        let r = unsafe {
            match n.op {
                Const => {
                    if w == 1 {
                        if n.k == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        let s = CString::new(n.k.to_string()).unwrap();
                        let so = self.sort(w);
                        Z3_mk_numeral(c, s.as_ptr(), so)
                    }
                }
                Var => {
                    let sy = Z3_mk_int_symbol(c, n.a as c_int);
                    let so = self.sort(w);
                    Z3_mk_const(c, sy, so)
                }
                Ite => {
                    let (x, y, z) = (self.tr(Ex(n.a)), self.tr(Ex(n.b)), self.tr(Ex(n.c)));
                    Z3_mk_ite(c, x, y, z)
                }
                Concat => {
                    let mut x = self.tr(Ex(n.a));
                    if width(Ex(n.a)) == 1 {
                        x = self.bv1(x);
                    }
                    let mut y = self.tr(Ex(n.b));
                    if width(Ex(n.b)) == 1 {
                        y = self.bv1(y);
                    }
                    Z3_mk_concat(c, x, y)
                }
                Extract => {
                    let x = self.tr(Ex(n.a));
                    let r = Z3_mk_extract(c, n.b + w - 1, n.b, x);
                    if w == 1 {
                        self.from_bv1(r)
                    } else {
                        r
                    }
                }
                ZExt | SExt => {
                    let iw = width(Ex(n.a));
                    let mut x = self.tr(Ex(n.a));
                    if iw == 1 {
                        x = self.bv1(x);
                    }
                    if n.op == ZExt {
                        Z3_mk_zero_ext(c, w - iw, x)
                    } else {
                        Z3_mk_sign_ext(c, w - iw, x)
                    }
                }
                op => {
                    let ow = width(Ex(n.a));
                    let x = self.tr(Ex(n.a));
                    let y = self.tr(Ex(n.b));
                    if ow == 1 {
                        match op {
                            And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                            Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                            Xor => Z3_mk_xor(c, x, y),
                            Eq => Z3_mk_eq(c, x, y),
                            _ => {
                                let (x, y) = (self.bv1(x), self.bv1(y));
                                let r = bvop(c, op, x, y);
                                if w == 1 && !matches!(op, Ult | Ule | Slt | Sle) {
                                    self.from_bv1(r)
                                } else {
                                    r
                                }
                            }
                        }
                    } else {
                        // x xor all-ones is bvnot, x == 1-bit handled above
                        bvop(c, op, x, y)
                    }
                }
            }
        };
        let r = if w == 1 && n.op == Xor && konst(Ex(n.b)) == Some(1) {
            let x = self.tr(Ex(n.a));
            unsafe { Z3_mk_not(c, x) }
        } else {
            r
        };
        if self.ast.len() <= i {
            self.ast.resize(ar().nodes.len(), std::ptr::null_mut());
        }
        self.ast[i] = r;
        r
    }

    pub fn check(&mut self, cs: &[Ex], easy: bool) -> Res {
        let t0 = Instant::now();
        self.queries += 1;
        let r = unsafe {
            let s = if easy {
                if self.easy.is_null() {
                    self.easy = Z3_mk_simple_solver(self.c);
                    Z3_solver_inc_ref(self.c, self.easy);
                    Z3_solver_set_params(self.c, self.easy, self.params);
                }
                Z3_solver_push(self.c, self.easy);
                self.easy
            } else {
                let s = Z3_mk_solver_for_logic(self.c, self.logic);
                Z3_solver_inc_ref(self.c, s);
                Z3_solver_set_params(self.c, s, self.params);
                s
            };
            for e in cs {
                let a = self.tr(*e);
                Z3_solver_assert(self.c, s, a);
            }
            let st = Z3_solver_check(self.c, s);
            let r = match st {
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out: Assign = Default::default();
                    for e in cs {
                        for v in vars_of(*e).iter() {
                            if out.contains_key(v) {
                                continue;
                            }
                            let w = ar().var_w[*v as usize] as u32;
                            let so = self.sort(w);
                            let sy = Z3_mk_int_symbol(self.c, *v as c_int);
                            let cn = Z3_mk_const(self.c, sy, so);
                            let mut val: P = std::ptr::null_mut();
                            Z3_model_eval(self.c, m, cn, true, &mut val);
                            let x: u128 = if w == 1 {
                                (Z3_get_bool_value(self.c, val) == 1) as u128
                            } else {
                                let p = Z3_get_numeral_string(self.c, val);
                                std::ffi::CStr::from_ptr(p).to_str().unwrap().parse().unwrap()
                            };
                            out.insert(*v, x);
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    Res::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => Res::Unknown,
            };
            if easy {
                Z3_solver_pop(self.c, s, 1);
            } else {
                Z3_solver_dec_ref(self.c, s);
            }
            r
        };
        let d = t0.elapsed();
        self.time += d;
        if d > self.longest {
            self.longest = d;
        }
        // Never trust a model that does not satisfy the query.
        if let Res::Sat(m) = &r {
            for (e, v) in cs.iter().zip(eval_all(cs, m)) {
                if v == 0 {
                    eprintln!("z3 model does not satisfy {}", show(*e));
                    std::process::abort();
                }
            }
        }
        r
    }
}

unsafe fn bvop(c: P, op: Op, x: P, y: P) -> P {
    use Op::*;
    match op {
        Add => Z3_mk_bvadd(c, x, y),
        Sub => Z3_mk_bvsub(c, x, y),
        Mul => Z3_mk_bvmul(c, x, y),
        UDiv => Z3_mk_bvudiv(c, x, y),
        SDiv => Z3_mk_bvsdiv(c, x, y),
        URem => Z3_mk_bvurem(c, x, y),
        SRem => Z3_mk_bvsrem(c, x, y),
        And => Z3_mk_bvand(c, x, y),
        Or => Z3_mk_bvor(c, x, y),
        Xor => Z3_mk_bvxor(c, x, y),
        Shl => Z3_mk_bvshl(c, x, y),
        LShr => Z3_mk_bvlshr(c, x, y),
        AShr => Z3_mk_bvashr(c, x, y),
        Eq => Z3_mk_eq(c, x, y),
        Ult => Z3_mk_bvult(c, x, y),
        Ule => Z3_mk_bvule(c, x, y),
        Slt => Z3_mk_bvslt(c, x, y),
        Sle => Z3_mk_bvsle(c, x, y),
        _ => unreachable!(),
    }
}
