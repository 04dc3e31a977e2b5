//! z3 (C API) behind independent-constraint slicing and a query cache.
use crate::expr::{Arena, E, K};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type Ast = *mut c_void;
type Ctx = *mut c_void;

#[allow(non_snake_case)]
extern "C" {
  fn Z3_mk_config() -> *mut c_void;
  fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
  fn Z3_mk_context(c: *mut c_void) -> Ctx;
  fn Z3_mk_simple_solver(c: Ctx) -> *mut c_void;
  fn Z3_solver_inc_ref(c: Ctx, s: *mut c_void);
  fn Z3_solver_push(c: Ctx, s: *mut c_void);
  fn Z3_solver_pop(c: Ctx, s: *mut c_void, n: c_uint);
  fn Z3_solver_assert(c: Ctx, s: *mut c_void, a: Ast);
  fn Z3_solver_check(c: Ctx, s: *mut c_void) -> c_int;
  fn Z3_solver_get_model(c: Ctx, s: *mut c_void) -> *mut c_void;
  fn Z3_solver_set_params(c: Ctx, s: *mut c_void, p: *mut c_void);
  fn Z3_mk_params(c: Ctx) -> *mut c_void;
  fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
  fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
  fn Z3_model_inc_ref(c: Ctx, m: *mut c_void);
  fn Z3_model_dec_ref(c: Ctx, m: *mut c_void);
  fn Z3_model_eval(c: Ctx, m: *mut c_void, t: Ast, completion: bool, v: *mut Ast) -> bool;
  fn Z3_get_numeral_uint64(c: Ctx, v: Ast, u: *mut u64) -> bool;
  fn Z3_mk_bv_sort(c: Ctx, sz: c_uint) -> *mut c_void;
  fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> *mut c_void;
  fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
  fn Z3_mk_const(c: Ctx, s: *mut c_void, ty: *mut c_void) -> Ast;
  fn Z3_mk_unsigned_int64(c: Ctx, v: u64, ty: *mut c_void) -> Ast;
  fn Z3_mk_eq(c: Ctx, l: Ast, r: Ast) -> Ast;
  fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
  fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
  fn Z3_mk_bvadd(c: Ctx, l: Ast, r: Ast) -> Ast;
  fn Z3_mk_bvsub(c: Ctx, l: Ast, r: Ast) -> Ast;
  fn Z3_mk_bvmul(c: Ctx, l: Ast, r: Ast) -> Ast;
  fn Z3_mk_bvudiv(c: Ctx, l: Ast, r: Ast) -> Ast;
  fn Z3_mk_bvsdiv(c: Ctx, l: Ast, r: Ast) -> Ast;
  fn Z3_mk_bvurem(c: Ctx, l: Ast, r: Ast) -> Ast;
  fn Z3_mk_bvsrem(c: Ctx, l: Ast, r: Ast) -> Ast;
  fn Z3_mk_bvshl(c: Ctx, l: Ast, r: Ast) -> Ast;
  fn Z3_mk_bvlshr(c: Ctx, l: Ast, r: Ast) -> Ast;
  fn Z3_mk_bvashr(c: Ctx, l: Ast, r: Ast) -> Ast;
  fn Z3_mk_bvand(c: Ctx, l: Ast, r: Ast) -> Ast;
  fn Z3_mk_bvor(c: Ctx, l: Ast, r: Ast) -> Ast;
  fn Z3_mk_bvxor(c: Ctx, l: Ast, r: Ast) -> Ast;
  fn Z3_mk_bvult(c: Ctx, l: Ast, r: Ast) -> Ast;
  fn Z3_mk_bvule(c: Ctx, l: Ast, r: Ast) -> Ast;
  fn Z3_mk_bvslt(c: Ctx, l: Ast, r: Ast) -> Ast;
  fn Z3_mk_bvsle(c: Ctx, l: Ast, r: Ast) -> Ast;
  fn Z3_mk_concat(c: Ctx, l: Ast, r: Ast) -> Ast;
  fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, t: Ast) -> Ast;
  fn Z3_mk_zero_ext(c: Ctx, i: c_uint, t: Ast) -> Ast;
  fn Z3_mk_sign_ext(c: Ctx, i: c_uint, t: Ast) -> Ast;
  fn Z3_solver_to_string(c: Ctx, s: *mut c_void) -> *const c_char;
}

#[derive(Clone)]
pub enum Res {
  Unsat,
  Sat(Vec<(u32, u64)>),
  Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
  pub queries: u64, // answered by z3
  pub cached: u64,
  pub sat: u64,
  pub unsat: u64,
  pub unknown: u64,
  pub time_us: u64,
}

pub struct Solver {
  ctx: Ctx,
  s: *mut c_void,
  memo: Vec<Ast>,
  bmemo: HashMap<E, Ast>,
  cache: HashMap<Box<[E]>, Res>,
  pub st: Stats,
  pub dump: Option<(std::path::PathBuf, u64)>, // directory, every n-th query
}

impl Solver {
  pub fn new() -> Solver {
    unsafe {
      let cfg = Z3_mk_config();
      Z3_set_param_value(cfg, c"model".as_ptr(), c"true".as_ptr());
      let ctx = Z3_mk_context(cfg);
      let s = Z3_mk_simple_solver(ctx);
      Z3_solver_inc_ref(ctx, s);
      let p = Z3_mk_params(ctx);
      Z3_params_inc_ref(ctx, p);
      let k = Z3_mk_string_symbol(ctx, c"timeout".as_ptr());
      Z3_params_set_uint(ctx, p, k, 20000);
      Z3_solver_set_params(ctx, s, p);
      Solver { ctx, s, memo: vec![], bmemo: HashMap::new(), cache: HashMap::new(), st: Stats::default(), dump: None }
    }
  }
  fn bv(&mut self, a: &Arena, e: E) -> Ast {
    let i = e as usize;
    if i < self.memo.len() && !self.memo[i].is_null() {
      return self.memo[i];
    }
    let c = self.ctx;
    let n = a.nodes[i];
    let r = unsafe {
      macro_rules! b2 {
        ($f:ident, $x:expr, $y:expr) => {{
          let p = self.bv(a, $x);
          let q = self.bv(a, $y);
          $f(c, p, q)
        }};
      }
      match n.k {
        K::Const(v) => Z3_mk_unsigned_int64(c, v, Z3_mk_bv_sort(c, n.w)),
        K::Var(v) => Z3_mk_const(c, Z3_mk_int_symbol(c, (v * 64 + (n.w - 1)) as c_int), Z3_mk_bv_sort(c, n.w)),
        K::Add(x, y) => b2!(Z3_mk_bvadd, x, y),
        K::Sub(x, y) => b2!(Z3_mk_bvsub, x, y),
        K::Mul(x, y) => b2!(Z3_mk_bvmul, x, y),
        K::UDiv(x, y) => b2!(Z3_mk_bvudiv, x, y),
        K::SDiv(x, y) => b2!(Z3_mk_bvsdiv, x, y),
        K::URem(x, y) => b2!(Z3_mk_bvurem, x, y),
        K::SRem(x, y) => b2!(Z3_mk_bvsrem, x, y),
        K::Shl(x, y) => b2!(Z3_mk_bvshl, x, y),
        K::LShr(x, y) => b2!(Z3_mk_bvlshr, x, y),
        K::AShr(x, y) => b2!(Z3_mk_bvashr, x, y),
        K::And(x, y) => b2!(Z3_mk_bvand, x, y),
        K::Or(x, y) => b2!(Z3_mk_bvor, x, y),
        K::Xor(x, y) => b2!(Z3_mk_bvxor, x, y),
        K::Concat(x, y) => b2!(Z3_mk_concat, x, y),
        K::Eq(..) | K::Ult(..) | K::Ule(..) | K::Slt(..) | K::Sle(..) => {
          let b = self.boolean(a, e);
          let s1 = Z3_mk_bv_sort(c, 1);
          Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s1), Z3_mk_unsigned_int64(c, 0, s1))
        },
        K::Ite(x, y, z) => {
          let p = self.boolean(a, x);
          let q = self.bv(a, y);
          let r = self.bv(a, z);
          Z3_mk_ite(c, p, q, r)
        },
        K::ZExt(x) => {
          let p = self.bv(a, x);
          Z3_mk_zero_ext(c, n.w - a.w(x), p)
        },
        K::SExt(x) => {
          let p = self.bv(a, x);
          Z3_mk_sign_ext(c, n.w - a.w(x), p)
        },
        K::Extract(x, lo) => {
          let p = self.bv(a, x);
          Z3_mk_extract(c, lo + n.w - 1, lo, p)
        },
      }
    };
    if self.memo.len() <= i {
      self.memo.resize(i + 1024, std::ptr::null_mut());
    }
    self.memo[i] = r;
    r
  }
  fn boolean(&mut self, a: &Arena, e: E) -> Ast {
    if let Some(r) = self.bmemo.get(&e) {
      return *r;
    }
    let c = self.ctx;
    let r = unsafe {
      macro_rules! b2 {
        ($f:ident, $x:expr, $y:expr) => {{
          let p = self.bv(a, $x);
          let q = self.bv(a, $y);
          $f(c, p, q)
        }};
      }
      match a.k(e) {
        K::Eq(x, y) => b2!(Z3_mk_eq, x, y),
        K::Ult(x, y) => b2!(Z3_mk_bvult, x, y),
        K::Ule(x, y) => b2!(Z3_mk_bvule, x, y),
        K::Slt(x, y) => b2!(Z3_mk_bvslt, x, y),
        K::Sle(x, y) => b2!(Z3_mk_bvsle, x, y),
        K::Xor(x, y) if a.cv(y) == Some(1) => {
          let p = self.boolean(a, x);
          Z3_mk_not(c, p)
        },
        _ => {
          let p = self.bv(a, e);
          Z3_mk_eq(c, p, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)))
        },
      }
    };
    self.bmemo.insert(e, r);
    r
  }

  /// is (pc and cond) satisfiable?  Only the constraints connected to cond by shared variables matter,
  /// as pc itself is known to be satisfiable.
  pub fn check(&mut self, a: &Arena, pc: &[E], cond: E) -> Res {
    if let Some(v) = a.cv(cond) {
      return if v == 1 { Res::Sat(vec![]) } else { Res::Unsat };
    }
    // slice
    let nv = a.nvars as usize;
    let mut invs = vec![false; nv];
    for v in a.vars_of(cond) {
      invs[*v as usize] = true;
    }
    let mut used = vec![false; pc.len()];
    let mut sel: Vec<E> = vec![cond];
    loop {
      let mut ch = false;
      for (i, p) in pc.iter().enumerate() {
        if used[i] {
          continue;
        }
        let vs = a.vars_of(*p);
        if vs.iter().any(|v| invs[*v as usize]) {
          used[i] = true;
          sel.push(*p);
          for v in vs {
            if !invs[*v as usize] {
              invs[*v as usize] = true;
              ch = true;
            }
          }
        }
      }
      if !ch {
        break;
      }
    }
    sel[1..].sort();
    sel[1..].to_vec().dedup();
    let key: Box<[E]> = sel.clone().into_boxed_slice();
    if let Some(r) = self.cache.get(&key) {
      self.st.cached += 1;
      return r.clone();
    }
    let t0 = Instant::now();
    let c = self.ctx;
    let r = unsafe {
      Z3_solver_push(c, self.s);
      for e in &sel {
        let b = self.boolean(a, *e);
        Z3_solver_assert(c, self.s, b);
      }
      if let Some((dir, n)) = &self.dump {
        if self.st.queries % n == 0 {
          let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(c, self.s)).to_string_lossy().to_string();
          let name = format!("q{}_{}", std::process::id(), self.st.queries);
          let _ = std::fs::write(dir.join(name + ".smt2"), s + "(check-sat)\n");
        }
      }
      let res = Z3_solver_check(c, self.s);
      let out = if res == 1 {
        let m = Z3_solver_get_model(c, self.s);
        Z3_model_inc_ref(c, m);
        let mut vals = vec![];
        for v in 0..nv {
          if invs[v] {
            let w = a.var_w[v];
            let ast = Z3_mk_const(c, Z3_mk_int_symbol(c, (v as u32 * 64 + (w - 1)) as c_int), Z3_mk_bv_sort(c, w));
            let mut o: Ast = std::ptr::null_mut();
            let mut x = 0u64;
            if Z3_model_eval(c, m, ast, true, &mut o) && Z3_get_numeral_uint64(c, o, &mut x) {
              vals.push((v as u32, x));
            }
          }
        }
        Z3_model_dec_ref(c, m);
        self.st.sat += 1;
        Res::Sat(vals)
      } else if res == -1 {
        self.st.unsat += 1;
        Res::Unsat
      } else {
        self.st.unknown += 1;
        Res::Unknown
      };
      Z3_solver_pop(c, self.s, 1);
      out
    };
    self.st.queries += 1;
    self.st.time_us += t0.elapsed().as_micros() as u64;
    if !matches!(r, Res::Unknown) {
      self.cache.insert(key, r.clone());
    }
    r
  }
}
