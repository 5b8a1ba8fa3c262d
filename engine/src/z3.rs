//! Minimal binding to the system libz3 (C API) and the query layer.
use crate::expr::{Exprs, Op, E};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;

#[link(name = "z3", kind = "dylib")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_global_param_set(k: *const i8, v: *const i8);
    fn Z3_mk_context_rc(c: *mut c_void) -> Ctx;
    fn Z3_del_config(c: *mut c_void);
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, v: Ast, u: *mut u64) -> bool;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
}

extern "C" fn on_err(_c: Ctx, e: c_int) {
    eprintln!("z3 error code {e}");
    std::process::exit(70);
}

pub struct Z3 {
    c: Ctx,
    s: Solver,
    cache: HashMap<E, Ast>,
    sorts: HashMap<u32, Sort>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
}

pub enum Res {
    Unsat,
    Sat(Vec<(u32, u8)>),
}

impl Z3 {
    pub fn new() -> Self {
        unsafe {
            Z3_global_param_set(c"timeout".as_ptr() as *const i8, c"30000".as_ptr() as *const i8);
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            Z3 { c, s, cache: HashMap::new(), sorts: HashMap::new(), queries: 0, sat: 0, unsat: 0, time: 0.0 }
        }
    }
    fn sort(&mut self, w: u32) -> Sort {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(c, w);
            Z3_inc_ref(c, s);
            s
        })
    }
    fn num(&mut self, w: u32, v: u128) -> Ast {
        let t = self.sort(w);
        let s = CString::new(v.to_string()).unwrap();
        unsafe { Z3_mk_numeral(self.c, s.as_ptr(), t) }
    }
    fn b2v(&mut self, b: Ast) -> Ast {
        unsafe {
            Z3_inc_ref(self.c, b);
            let one = self.num(1, 1);
            Z3_inc_ref(self.c, one);
            let zero = self.num(1, 0);
            Z3_inc_ref(self.c, zero);
            Z3_mk_ite(self.c, b, one, zero)
        }
    }
    pub fn ast(&mut self, ex: &mut Exprs, e: E) -> Ast {
        if let Some(&a) = self.cache.get(&e) {
            return a;
        }
        // iterative post-order to keep the native stack bounded
        let mut st = vec![(e, false)];
        while let Some((x, done)) = st.pop() {
            if self.cache.contains_key(&x) {
                continue;
            }
            let n = ex.nodes[x as usize].clone();
            if ex.sz[x as usize] > 12 {
                if let Some(v) = ex.single(x) {
                    // large one-byte term: give the solver its exact value table
                    let t = ex.table(x);
                    let ve = ex.var(v);
                    let va = self.ast(ex, ve);
                    let c = self.c;
                    let mut runs: Vec<(u64, u64, u64)> = vec![];
                    for i in 0..256u64 {
                        match runs.last_mut() {
                            Some(r) if r.2 == t[i as usize] => r.1 = i,
                            _ => runs.push((i, i, t[i as usize])),
                        }
                    }
                    let mut r = self.num(n.w, runs.last().unwrap().2 as u128);
                    unsafe {
                        Z3_inc_ref(c, r);
                        for &(_, hi, val) in runs[..runs.len() - 1].iter().rev() {
                            let k = self.num(8, hi as u128);
                            Z3_inc_ref(c, k);
                            let le = Z3_mk_bvule(c, va, k);
                            Z3_inc_ref(c, le);
                            let vv = self.num(n.w, val as u128);
                            Z3_inc_ref(c, vv);
                            r = Z3_mk_ite(c, le, vv, r);
                            Z3_inc_ref(c, r);
                        }
                    }
                    self.cache.insert(x, r);
                    continue;
                }
            }
            let kids: Vec<E> = match n.op {
                Op::Const | Op::Var => vec![],
                Op::ZExt | Op::SExt | Op::Extract | Op::Sel => vec![n.a],
                Op::Ite => vec![n.a, n.b, n.c],
                _ => vec![n.a, n.b],
            };
            if !done {
                st.push((x, true));
                for k in kids {
                    st.push((k, false));
                }
                continue;
            }
            let c = self.c;
            let g = |s: &Self, k: E| *s.cache.get(&k).unwrap();
            let r = unsafe {
                match n.op {
                    Op::Const => self.num(n.w, n.k),
                    Op::Var => {
                        let s = CString::new(format!("in{}", n.k)).unwrap();
                        let sym = Z3_mk_string_symbol(c, s.as_ptr());
                        let t = self.sort(n.w);
                        Z3_mk_const(c, sym, t)
                    }
                    Op::ZExt => Z3_mk_zero_ext(c, n.w - ex.w(n.a), g(self, n.a)),
                    Op::SExt => Z3_mk_sign_ext(c, n.w - ex.w(n.a), g(self, n.a)),
                    Op::Extract => Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, g(self, n.a)),
                    Op::Concat => Z3_mk_concat(c, g(self, n.a), g(self, n.b)),
                    Op::Ite => {
                        let one = self.num(1, 1);
                        Z3_inc_ref(c, one);
                        let cond = Z3_mk_eq(c, g(self, n.a), one);
                        Z3_inc_ref(c, cond);
                        Z3_mk_ite(c, cond, g(self, n.b), g(self, n.c))
                    }
                    Op::Sel => {
                        let tb = ex.sels[n.k as usize].clone();
                        let a = g(self, n.a);
                        let wa = ex.w(n.a);
                        let mut r = self.num(n.w, 0);
                        Z3_inc_ref(c, r);
                        for &(k, v) in tb.iter() {
                            let kk = self.num(wa, k as u128);
                            Z3_inc_ref(c, kk);
                            let eq = Z3_mk_eq(c, a, kk);
                            Z3_inc_ref(c, eq);
                            let vv = self.num(n.w, v as u128);
                            Z3_inc_ref(c, vv);
                            r = Z3_mk_ite(c, eq, vv, r);
                            Z3_inc_ref(c, r);
                        }
                        r
                    }
                    op => {
                        let (a, b) = (g(self, n.a), g(self, n.b));
                        match op {
                            Op::Add => Z3_mk_bvadd(c, a, b),
                            Op::Sub => Z3_mk_bvsub(c, a, b),
                            Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                            Op::URem => Z3_mk_bvurem(c, a, b),
                            Op::SRem => Z3_mk_bvsrem(c, a, b),
                            Op::And => Z3_mk_bvand(c, a, b),
                            Op::Or => Z3_mk_bvor(c, a, b),
                            Op::Xor => Z3_mk_bvxor(c, a, b),
                            Op::Shl => Z3_mk_bvshl(c, a, b),
                            Op::LShr => Z3_mk_bvlshr(c, a, b),
                            Op::AShr => Z3_mk_bvashr(c, a, b),
                            Op::Eq => {
                                let q = Z3_mk_eq(c, a, b);
                                self.b2v(q)
                            }
                            Op::Ult => {
                                let q = Z3_mk_bvult(c, a, b);
                                self.b2v(q)
                            }
                            Op::Ule => {
                                let q = Z3_mk_bvule(c, a, b);
                                self.b2v(q)
                            }
                            Op::Slt => {
                                let q = Z3_mk_bvslt(c, a, b);
                                self.b2v(q)
                            }
                            Op::Sle => {
                                let q = Z3_mk_bvsle(c, a, b);
                                self.b2v(q)
                            }
                            _ => unreachable!(),
                        }
                    }
                }
            };
            unsafe { Z3_inc_ref(c, r) };
            self.cache.insert(x, r);
        }
        self.cache[&e]
    }
    /// Is the conjunction of `conds` (each a 1-bit expression with its polarity) satisfiable?
    /// On Sat, gives values for `vars`.
    pub fn check(&mut self, ex: &mut Exprs, conds: &[(E, bool)], vars: &[u32]) -> Res {
        let t0 = Instant::now();
        let asts: Vec<(Ast, bool)> = conds.iter().map(|&(e, p)| (self.ast(ex, e), p)).collect();
        let vs: Vec<(u32, Ast)> = vars
            .iter()
            .map(|&v| {
                let e = ex.var(v);
                (v, self.ast(ex, e))
            })
            .collect();
        let c = self.c;
        let r = unsafe {
            Z3_solver_push(c, self.s);
            for (a, p) in asts {
                let k = self.num(1, p as u128);
                Z3_inc_ref(c, k);
                let q = Z3_mk_eq(c, a, k);
                Z3_inc_ref(c, q);
                Z3_solver_assert(c, self.s, q);
            }
            let r = Z3_solver_check(c, self.s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    let mut o = vec![];
                    for (v, a) in vs {
                        let mut res = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(c, m, a, true, &mut res) {
                            Z3_inc_ref(c, res);
                            Z3_get_numeral_uint64(c, res, &mut u);
                        }
                        o.push((v, u as u8));
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(o)
                }
                -1 => Res::Unsat,
                _ => {
                    eprintln!("z3 gives no answer within 30 s: {} conditions, {} input bytes", conds.len(), vars.len());
                    std::process::exit(71);
                }
            };
            Z3_solver_pop(c, self.s, 1);
            out
        };
        let _ = Z3_mk_not;
        self.queries += 1;
        match r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
        }
        self.time += t0.elapsed().as_secs_f64();
        r
    }
}
