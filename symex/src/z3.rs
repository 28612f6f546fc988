//! Minimal binding to libz3's C API: an incremental bit-vector solver.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, logic: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
}

extern "C" fn on_error(_c: P, code: c_int) {
    eprintln!("FATAL: z3 error code {}", code);
    std::process::exit(3);
}

pub struct Solver {
    ctx: P,
    solver: P,
    bv: Vec<P>,
    bl: Vec<P>,
    syms: Vec<P>,
    stack: Vec<Eid>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
}

pub enum Answer {
    Sat(Vec<u64>),
    Unsat,
    Unknown,
}

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.solver);
            Z3_del_context(self.ctx);
        }
    }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let _ = Z3_mk_simple_solver as *const ();
            let l = CString::new("QF_BV").unwrap();
            let _ = Z3_mk_solver_for_logic as *const ();
            let _ = l;
            let solver = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, solver, p);
            Solver {
                ctx,
                solver,
                bv: vec![],
                bl: vec![],
                syms: vec![],
                stack: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                time: 0.0,
            }
        }
    }

    fn keep(&mut self, a: P) -> P {
        unsafe { Z3_inc_ref(self.ctx, a) };
        a
    }

    fn sort(&self, w: u8) -> P {
        unsafe { Z3_mk_bv_sort(self.ctx, w as c_uint) }
    }

    fn num(&mut self, v: u64, w: u8) -> P {
        let s = self.sort(w);
        let r = unsafe { Z3_mk_unsigned_int64(self.ctx, v, s) };
        self.keep(r)
    }

    /// Boolean term of a width-1 expression.
    fn bool_of(&mut self, ar: &Arena, e: Eid) -> P {
        while self.bl.len() <= e as usize {
            self.bl.push(std::ptr::null_mut());
        }
        if !self.bl[e as usize].is_null() {
            return self.bl[e as usize];
        }
        let c = self.ctx;
        let r = unsafe {
            match ar.node(e) {
                Node::Const(v) => {
                    if v != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Node::Eq(a, b) => {
                    if ar.w(a) == 1 {
                        let (x, y) = (self.bool_of(ar, a), self.bool_of(ar, b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.bv_of(ar, a), self.bv_of(ar, b));
                        Z3_mk_eq(c, x, y)
                    }
                }
                Node::Ult(a, b) => {
                    let (x, y) = (self.bv_of(ar, a), self.bv_of(ar, b));
                    Z3_mk_bvult(c, x, y)
                }
                Node::Slt(a, b) => {
                    let (x, y) = (self.bv_of(ar, a), self.bv_of(ar, b));
                    Z3_mk_bvslt(c, x, y)
                }
                Node::Bin(Op::And, a, b) => {
                    let v = [self.bool_of(ar, a), self.bool_of(ar, b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Node::Bin(Op::Or, a, b) => {
                    let v = [self.bool_of(ar, a), self.bool_of(ar, b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Node::Bin(Op::Xor, a, b) => {
                    if ar.cval(b) == Some(1) {
                        let x = self.bool_of(ar, a);
                        Z3_mk_not(c, x)
                    } else {
                        let (x, y) = (self.bool_of(ar, a), self.bool_of(ar, b));
                        Z3_mk_xor(c, x, y)
                    }
                }
                Node::Ite(q, a, b) => {
                    let q = self.bool_of(ar, q);
                    let (x, y) = (self.bool_of(ar, a), self.bool_of(ar, b));
                    Z3_mk_ite(c, q, x, y)
                }
                _ => {
                    let x = self.bv_of(ar, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        let r = self.keep(r);
        self.bl[e as usize] = r;
        r
    }

    fn sym(&mut self, s: u32, w: u8) -> P {
        while self.syms.len() <= s as usize {
            self.syms.push(std::ptr::null_mut());
        }
        if self.syms[s as usize].is_null() {
            let name = CString::new(format!("s{}", s)).unwrap();
            let sort = self.sort(w);
            let r = unsafe {
                Z3_mk_const(self.ctx, Z3_mk_string_symbol(self.ctx, name.as_ptr()), sort)
            };
            self.syms[s as usize] = self.keep(r);
        }
        self.syms[s as usize]
    }

    fn bv_of(&mut self, ar: &Arena, e: Eid) -> P {
        while self.bv.len() <= e as usize {
            self.bv.push(std::ptr::null_mut());
        }
        if !self.bv[e as usize].is_null() {
            return self.bv[e as usize];
        }
        let c = self.ctx;
        let w = ar.w(e);
        let r = unsafe {
            match ar.node(e) {
                Node::Const(v) => self.num(v, w),
                Node::Undef => self.num(0, w),
                Node::Sym(s) => self.sym(s, w),
                Node::Bin(op, a, b) if w > 1 => {
                    let (x, y) = (self.bv_of(ar, a), self.bv_of(ar, b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                    }
                }
                Node::Ite(q, a, b) if w > 1 => {
                    let q = self.bool_of(ar, q);
                    let (x, y) = (self.bv_of(ar, a), self.bv_of(ar, b));
                    Z3_mk_ite(c, q, x, y)
                }
                Node::SExt(a) => {
                    let x = self.bv_of(ar, a);
                    Z3_mk_sign_ext(c, (w - ar.w(a)) as c_uint, x)
                }
                Node::Concat(a, b) => {
                    let (x, y) = (self.bv_of(ar, a), self.bv_of(ar, b));
                    Z3_mk_concat(c, x, y)
                }
                Node::Extract(a, lo) => {
                    let x = self.bv_of(ar, a);
                    Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, x)
                }
                Node::Bin(op, a, b) if !matches!(op, Op::And | Op::Or | Op::Xor) => {
                    let (x, y) = (self.bv_of(ar, a), self.bv_of(ar, b));
                    match op {
                        Op::Add | Op::Sub => Z3_mk_bvxor(c, x, y),
                        Op::Mul => Z3_mk_bvand(c, x, y),
                        _ => panic!("1-bit {:?}", op),
                    }
                }
                // width-1 boolean structure
                _ => {
                    let b = self.bool_of(ar, e);
                    let one = self.num(1, 1);
                    let zero = self.num(0, 1);
                    Z3_mk_ite(c, b, one, zero)
                }
            }
        };
        let r = self.keep(r);
        self.bv[e as usize] = r;
        r
    }

    /// Is `pc /\ extra` satisfiable?
    pub fn check(&mut self, ar: &Arena, pc: &[Eid], extra: Option<Eid>) -> Answer {
        let t0 = Instant::now();
        let mut common = 0;
        while common < pc.len() && common < self.stack.len() && pc[common] == self.stack[common] {
            common += 1;
        }
        unsafe {
            if self.stack.len() > common {
                Z3_solver_pop(self.ctx, self.solver, (self.stack.len() - common) as c_uint);
                self.stack.truncate(common);
            }
            for &e in &pc[common..] {
                Z3_solver_push(self.ctx, self.solver);
                let b = self.bool_of(ar, e);
                Z3_solver_assert(self.ctx, self.solver, b);
                self.stack.push(e);
            }
            if let Some(x) = extra {
                Z3_solver_push(self.ctx, self.solver);
                let b = self.bool_of(ar, x);
                Z3_solver_assert(self.ctx, self.solver, b);
            }
            let r = Z3_solver_check(self.ctx, self.solver);
            self.queries += 1;
            let ans = match r {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut v = vec![0u64; ar.nsyms as usize];
                    for i in 0..v.len() {
                        if i < self.syms.len() && !self.syms[i].is_null() {
                            let mut out: P = std::ptr::null_mut();
                            if Z3_model_eval(self.ctx, m, self.syms[i], true, &mut out) {
                                Z3_get_numeral_uint64(self.ctx, out, &mut v[i]);
                            }
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Answer::Sat(v)
                }
                -1 => {
                    self.unsat += 1;
                    Answer::Unsat
                }
                _ => Answer::Unknown,
            };
            if extra.is_some() {
                Z3_solver_pop(self.ctx, self.solver, 1);
            }
            self.time += t0.elapsed().as_secs_f64();
            ans
        }
    }
}
