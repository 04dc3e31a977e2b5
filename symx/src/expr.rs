//! Hash-consed bit-vector terms (width 1..64) with local simplification.
use crate::ir::{mask, sext};
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
  Const(u64),
  Var(u32),
  Add(E, E),
  Sub(E, E),
  Mul(E, E),
  UDiv(E, E),
  SDiv(E, E),
  URem(E, E),
  SRem(E, E),
  Shl(E, E),
  LShr(E, E),
  AShr(E, E),
  And(E, E),
  Or(E, E),
  Xor(E, E),
  Eq(E, E),
  Ult(E, E),
  Ule(E, E),
  Slt(E, E),
  Sle(E, E),
  Ite(E, E, E),
  ZExt(E),
  SExt(E),
  Extract(E, u32), // low bit
  Concat(E, E),    // hi, lo
}

#[derive(Clone, Copy)]
pub struct Node {
  pub k: K,
  pub w: u32,
  pub vars: u32,
  size: u32, // id into varsets
}

pub struct Arena {
  pub nodes: Vec<Node>,
  map: HashMap<(K, u32), E>,
  pub varsets: Vec<Vec<u32>>,
  vsmap: HashMap<Vec<u32>, u32>,
  pub nvars: u32,
  pub var_w: Vec<u32>,
}

impl Arena {
  pub fn new() -> Arena {
    let mut a = Arena {
      nodes: vec![],
      map: HashMap::new(),
      varsets: vec![vec![]],
      vsmap: HashMap::new(),
      nvars: 0,
      var_w: vec![],
    };
    a.vsmap.insert(vec![], 0);
    // id 0 reserved so that 0 can mean "none" in byte maps
    a.mk(K::Const(0), 1);
    a
  }
  fn kids(k: K) -> ([E; 3], usize) {
    use K::*;
    match k {
      Const(_) | Var(_) => ([0; 3], 0),
      Add(a, b) | Sub(a, b) | Mul(a, b) | UDiv(a, b) | SDiv(a, b) | URem(a, b) | SRem(a, b) | Shl(a, b) | LShr(a, b)
      | AShr(a, b) | And(a, b) | Or(a, b) | Xor(a, b) | Eq(a, b) | Ult(a, b) | Ule(a, b) | Slt(a, b) | Sle(a, b)
      | Concat(a, b) => ([a, b, 0], 2),
      Ite(a, b, c) => ([a, b, c], 3),
      ZExt(a) | SExt(a) | Extract(a, _) => ([a, 0, 0], 1),
    }
  }
  pub fn mk(&mut self, k: K, w: u32) -> E {
    if let Some(e) = self.map.get(&(k, w)) {
      return *e;
    }
    let (ks, n) = Self::kids(k);
    let vs = if let K::Var(v) = k {
      self.vset(vec![v])
    } else if n == 0 {
      0
    } else if n == 1 {
      self.nodes[ks[0] as usize].vars
    } else {
      let f = self.nodes[ks[0] as usize].vars;
      if ks[1..n].iter().all(|x| self.nodes[*x as usize].vars == f || self.nodes[*x as usize].vars == 0) {
        f
      } else {
        let mut v: Vec<u32> = vec![];
        for x in &ks[..n] {
          v.extend(&self.varsets[self.nodes[*x as usize].vars as usize]);
        }
        v.sort();
        v.dedup();
        self.vset(v)
      }
    };
    let e = self.nodes.len() as E;
    let size = ks[..n].iter().fold(1u32, |s, x| s.saturating_add(self.nodes[*x as usize].size)).min(1 << 20);
    self.nodes.push(Node { k, w, vars: vs, size });
    self.map.insert((k, w), e);
    e
  }
  fn vset(&mut self, v: Vec<u32>) -> u32 {
    if let Some(i) = self.vsmap.get(&v) {
      return *i;
    }
    let i = self.varsets.len() as u32;
    self.varsets.push(v.clone());
    self.vsmap.insert(v, i);
    i
  }
  pub fn vars_of(&self, e: E) -> &[u32] {
    &self.varsets[self.nodes[e as usize].vars as usize]
  }
  pub fn new_var(&mut self, w: u32) -> E {
    let v = self.nvars;
    self.nvars += 1;
    self.var_w.push(w);
    self.mk(K::Var(v), w)
  }
  /// variable number v (shared between sibling states so that terms and caches are shared)
  pub fn var(&mut self, v: u32, w: u32) -> E {
    self.mk(K::Var(v), w)
  }
  pub fn c(&mut self, v: u64, w: u32) -> E {
    self.mk(K::Const(v & mask(w)), w)
  }
  pub fn w(&self, e: E) -> u32 {
    self.nodes[e as usize].w
  }
  pub fn k(&self, e: E) -> K {
    self.nodes[e as usize].k
  }
  pub fn cv(&self, e: E) -> Option<u64> {
    if let K::Const(v) = self.nodes[e as usize].k {
      Some(v)
    } else {
      None
    }
  }
  pub fn tru(&mut self) -> E {
    self.c(1, 1)
  }

  pub fn not(&mut self, a: E) -> E {
    // 1-bit
    if let Some(v) = self.cv(a) {
      return self.c(v ^ 1, 1);
    }
    match self.k(a) {
      K::Xor(x, y) if self.w(a) == 1 && self.cv(y) == Some(1) => x,
      K::Ult(x, y) => self.ule(y, x),
      K::Ule(x, y) => self.ult(y, x),
      K::Slt(x, y) => self.sle(y, x),
      K::Sle(x, y) => self.slt(y, x),
      _ => {
        let o = self.c(1, 1);
        self.mk(K::Xor(a, o), 1)
      },
    }
  }

  fn fold(k: crate::ir::Bin, a: u64, b: u64, w: u32) -> Option<u64> {
    use crate::ir::Bin::*;
    let m = mask(w);
    Some(
      m & match k {
        Add => a.wrapping_add(b),
        Sub => a.wrapping_sub(b),
        Mul => a.wrapping_mul(b),
        UDiv => a.checked_div(b)?,
        URem => a.checked_rem(b)?,
        SDiv => {
          if b == 0 {
            return None;
          }
          sext(a, w).wrapping_div(sext(b, w)) as u64
        },
        SRem => {
          if b == 0 {
            return None;
          }
          sext(a, w).wrapping_rem(sext(b, w)) as u64
        },
        Shl => {
          if b >= w as u64 {
            0
          } else {
            a << b
          }
        },
        LShr => {
          if b >= w as u64 {
            0
          } else {
            a >> b
          }
        },
        AShr => {
          let s = sext(a, w);
          if b >= w as u64 {
            (s >> 63) as u64
          } else {
            (s >> b) as u64
          }
        },
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
      },
    )
  }
  pub fn fold_bin(k: crate::ir::Bin, a: u64, b: u64, w: u32) -> Option<u64> {
    Self::fold(k, a, b, w)
  }

  pub fn bin(&mut self, k: crate::ir::Bin, a: E, b: E) -> E {
    use crate::ir::Bin::*;
    let w = self.w(a);
    debug_assert_eq!(w, self.w(b));
    let (ca, cb) = (self.cv(a), self.cv(b));
    if let (Some(x), Some(y)) = (ca, cb) {
      if let Some(r) = Self::fold(k, x, y, w) {
        return self.c(r, w);
      }
    }
    let m = mask(w);
    // commutative: constant to the right
    let (a, b, ca, cb) =
      if matches!(k, Add | Mul | And | Or | Xor) && ca.is_some() { (b, a, cb, ca) } else { (a, b, ca, cb) };
    let _ = ca;
    match (k, cb) {
      (Add | Sub | Or | Xor | Shl | LShr | AShr, Some(0)) => return a,
      (Mul, Some(1)) | (UDiv, Some(1)) => return a,
      (Mul | And, Some(0)) => return self.c(0, w),
      (And, Some(c)) if c == m => return a,
      (Or, Some(c)) if c == m => return b,
      (Shl | LShr, Some(c)) if c >= w as u64 => return self.c(0, w),
      _ => {},
    }
    if a == b {
      match k {
        Sub | Xor => return self.c(0, w),
        And | Or => return a,
        _ => {},
      }
    }
    // constants distribute over ite with constant arms
    if let (K::Ite(c, x, y), Some(_)) = (self.k(a), cb) {
      if self.cv(x).is_some() && self.cv(y).is_some() && !matches!(k, UDiv | SDiv | URem | SRem) {
        let l = self.bin(k, x, b);
        let r = self.bin(k, y, b);
        return self.ite(c, l, r);
      }
    }
    match k {
      Xor if w == 1 && cb == Some(1) => return self.not(a),
      Add => {
        if let (K::Add(x, y), Some(c)) = (self.k(a), cb) {
          if let Some(c2) = self.cv(y) {
            let s = self.c(c.wrapping_add(c2), w);
            return self.bin(Add, x, s);
          }
        }
      },
      Sub => {
        if let Some(c) = cb {
          let n = self.c(0u64.wrapping_sub(c), w);
          return self.bin(Add, a, n);
        }
      },
      And => {
        if let Some(c) = cb {
          // and(zext(x), c)
          if let K::ZExt(x) = self.k(a) {
            let xw = self.w(x);
            let cx = self.c(c & mask(xw), xw);
            let r = self.bin(And, x, cx);
            return self.zext(r, w);
          }
        }
      },
      Shl => {
        if let (Some(c), K::ZExt(x)) = (cb, self.k(a)) {
          let _ = (c, x);
        }
      },
      LShr => {
        if let (Some(c), K::ZExt(x)) = (cb, self.k(a)) {
          let xw = self.w(x);
          if c >= xw as u64 {
            return self.c(0, w);
          }
          let cx = self.c(c, xw);
          let r = self.bin(LShr, x, cx);
          return self.zext(r, w);
        }
      },
      URem | UDiv => {
        if let (Some(c), K::ZExt(x)) = (cb, self.k(a)) {
          let xw = self.w(x);
          if c > mask(xw) {
            return if k == URem { a } else { self.c(0, w) };
          }
          let cx = self.c(c, xw);
          let r = self.bin(k, x, cx);
          return self.zext(r, w);
        }
      },
      _ => {},
    }
    let kk = match k {
      Add => K::Add(a, b),
      Sub => K::Sub(a, b),
      Mul => K::Mul(a, b),
      UDiv => K::UDiv(a, b),
      SDiv => K::SDiv(a, b),
      URem => K::URem(a, b),
      SRem => K::SRem(a, b),
      Shl => K::Shl(a, b),
      LShr => K::LShr(a, b),
      AShr => K::AShr(a, b),
      And => K::And(a, b),
      Or => K::Or(a, b),
      Xor => K::Xor(a, b),
    };
    self.mk(kk, w)
  }

  pub fn zext(&mut self, a: E, w: u32) -> E {
    let aw = self.w(a);
    if aw == w {
      return a;
    }
    if let Some(v) = self.cv(a) {
      return self.c(v, w);
    }
    match self.k(a) {
      K::ZExt(x) => self.zext(x, w),
      K::Ite(c, x, y) if self.cv(x).is_some() && self.cv(y).is_some() => {
        let l = self.zext(x, w);
        let r = self.zext(y, w);
        self.ite(c, l, r)
      },
      _ => self.mk(K::ZExt(a), w),
    }
  }
  pub fn sext(&mut self, a: E, w: u32) -> E {
    let aw = self.w(a);
    if aw == w {
      return a;
    }
    if let Some(v) = self.cv(a) {
      return self.c(sext(v, aw) as u64, w);
    }
    match self.k(a) {
      K::ZExt(x) => self.zext(x, w), // top bit is 0 as the extension is strict
      K::SExt(x) => self.sext(x, w),
      K::Ite(c, x, y) if self.cv(x).is_some() && self.cv(y).is_some() => {
        let l = self.sext(x, w);
        let r = self.sext(y, w);
        self.ite(c, l, r)
      },
      _ => self.mk(K::SExt(a), w),
    }
  }
  pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
    let aw = self.w(a);
    debug_assert!(lo + w <= aw);
    if lo == 0 && w == aw {
      return a;
    }
    if let Some(v) = self.cv(a) {
      return self.c(v >> lo, w);
    }
    match self.k(a) {
      K::ZExt(x) => {
        let xw = self.w(x);
        if lo >= xw {
          self.c(0, w)
        } else if lo + w <= xw {
          self.extract(x, lo, w)
        } else {
          let p = self.extract(x, lo, xw - lo);
          self.zext(p, w)
        }
      },
      K::SExt(x) if lo + w <= self.w(x) => self.extract(x, lo, w),
      K::Extract(x, l) => self.extract(x, lo + l, w),
      K::Concat(h, l) => {
        let lw = self.w(l);
        if lo + w <= lw {
          self.extract(l, lo, w)
        } else if lo >= lw {
          self.extract(h, lo - lw, w)
        } else {
          let p = self.extract(l, lo, lw - lo);
          let q = self.extract(h, 0, w - (lw - lo));
          self.concat(q, p)
        }
      },
      K::Ite(c, x, y) if self.cv(x).is_some() && self.cv(y).is_some() => {
        let l = self.extract(x, lo, w);
        let r = self.extract(y, lo, w);
        self.ite(c, l, r)
      },
      K::And(x, y) | K::Or(x, y) | K::Xor(x, y) => {
        let l = self.extract(x, lo, w);
        let r = self.extract(y, lo, w);
        let op = match self.k(a) {
          K::And(..) => crate::ir::Bin::And,
          K::Or(..) => crate::ir::Bin::Or,
          _ => crate::ir::Bin::Xor,
        };
        self.bin(op, l, r)
      },
      K::Add(x, y) if lo == 0 => {
        let l = self.extract(x, lo, w);
        let r = self.extract(y, lo, w);
        self.bin(crate::ir::Bin::Add, l, r)
      },
      _ => self.mk(K::Extract(a, lo), w),
    }
  }
  pub fn concat(&mut self, h: E, l: E) -> E {
    let (hw, lw) = (self.w(h), self.w(l));
    let w = hw + lw;
    assert!(w <= 64);
    if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) {
      return self.c((x << lw) | y, w);
    }
    if self.cv(h) == Some(0) {
      return self.zext(l, w);
    }
    if let (K::Extract(x, a), K::Extract(y, b)) = (self.k(h), self.k(l)) {
      if x == y && a == b + lw {
        return self.extract(x, b, w);
      }
    }
    // low part is the whole low end of h's source
    if let K::Extract(x, a) = self.k(h) {
      if a == lw {
        let low = self.extract(x, 0, lw);
        if low == l {
          return self.extract(x, 0, w);
        }
      }
    }
    self.mk(K::Concat(h, l), w)
  }
  pub fn ite(&mut self, c: E, a: E, b: E) -> E {
    if let Some(v) = self.cv(c) {
      return if v == 1 { a } else { b };
    }
    if a == b {
      return a;
    }
    let w = self.w(a);
    if w == 1 {
      match (self.cv(a), self.cv(b)) {
        (Some(1), Some(0)) => return c,
        (Some(0), Some(1)) => return self.not(c),
        (Some(1), None) => return self.bin(crate::ir::Bin::Or, c, b),
        (None, Some(0)) => return self.bin(crate::ir::Bin::And, c, a),
        (Some(0), None) => {
          let n = self.not(c);
          return self.bin(crate::ir::Bin::And, n, b);
        },
        (None, Some(1)) => {
          let n = self.not(c);
          return self.bin(crate::ir::Bin::Or, n, a);
        },
        _ => {},
      }
    }
    self.mk(K::Ite(c, a, b), w)
  }
  pub fn eq(&mut self, a: E, b: E) -> E {
    if a == b {
      return self.c(1, 1);
    }
    let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
    let w = self.w(a);
    if let Some(c) = self.cv(b) {
      if let Some(x) = self.cv(a) {
        return self.c((x == c) as u64, 1);
      }
      if w == 1 {
        return if c == 1 { a } else { self.not(a) };
      }
      match self.k(a) {
        K::ZExt(x) => {
          let xw = self.w(x);
          if c > mask(xw) {
            return self.c(0, 1);
          }
          let cx = self.c(c, xw);
          return self.eq(x, cx);
        },
        K::SExt(x) => {
          let xw = self.w(x);
          let t = c & mask(xw);
          if (sext(t, xw) as u64) & mask(w) != c {
            return self.c(0, 1);
          }
          let cx = self.c(t, xw);
          return self.eq(x, cx);
        },
        K::Add(x, y) => {
          if let Some(k) = self.cv(y) {
            let n = self.c(c.wrapping_sub(k), w);
            return self.eq(x, n);
          }
        },
        K::Xor(x, y) => {
          if let Some(k) = self.cv(y) {
            let n = self.c(c ^ k, w);
            return self.eq(x, n);
          }
        },
        K::Ite(cc, x, y) => {
          let (cx, cy) = (self.cv(x), self.cv(y));
          if cx.is_some() || cy.is_some() {
            let l = self.eq(x, b);
            let r = self.eq(y, b);
            return self.ite(cc, l, r);
          }
        },
        K::Concat(h, l) => {
          let lw = self.w(l);
          let hw = self.w(h);
          let ch = self.c(c >> lw, hw);
          let cl = self.c(c & mask(lw), lw);
          let p = self.eq(h, ch);
          let q = self.eq(l, cl);
          return self.bin(crate::ir::Bin::And, p, q);
        },
        _ => {},
      }
    } else {
      if let (K::ZExt(x), K::ZExt(y)) = (self.k(a), self.k(b)) {
        let (xw, yw) = (self.w(x), self.w(y));
        let t = xw.max(yw);
        if t < w {
          let p = self.zext(x, t);
          let q = self.zext(y, t);
          return self.eq(p, q);
        }
      }
      if a > b {
        return self.mk(K::Eq(b, a), 1);
      }
    }
    self.mk(K::Eq(a, b), 1)
  }
  fn narrow2(&mut self, a: E, b: E) -> Option<(E, E)> {
    // both are zero-extensions (or small constants): compare at the narrower width
    let w = self.w(a);
    let nw = |s: &Self, e: E| match s.k(e) {
      K::ZExt(x) => s.w(x),
      K::Const(v) => 64 - v.leading_zeros().min(63),
      _ => w,
    };
    let t = nw(self, a).max(nw(self, b));
    if t < w {
      let p = self.extract(a, 0, t);
      let q = self.extract(b, 0, t);
      Some((p, q))
    } else {
      None
    }
  }
  pub fn ult(&mut self, a: E, b: E) -> E {
    if a == b {
      return self.c(0, 1);
    }
    let w = self.w(a);
    match (self.cv(a), self.cv(b)) {
      (Some(x), Some(y)) => return self.c((x < y) as u64, 1),
      (_, Some(0)) => return self.c(0, 1),
      (Some(x), _) if x == mask(w) => return self.c(0, 1),
      (_, Some(1)) => {
        let z = self.c(0, w);
        return self.eq(a, z);
      },
      _ => {},
    }
    if let (K::ZExt(x), Some(c)) = (self.k(a), self.cv(b)) {
      if c > mask(self.w(x)) {
        return self.c(1, 1);
      }
    }
    if let (Some(c), K::ZExt(x)) = (self.cv(a), self.k(b)) {
      if c >= mask(self.w(x)) {
        return self.c(0, 1);
      }
    }
    if let K::Ite(c, x, y) = self.k(a) {
      if self.cv(b).is_some() && self.cv(x).is_some() && self.cv(y).is_some() {
        let l = self.ult(x, b);
        let r = self.ult(y, b);
        return self.ite(c, l, r);
      }
    }
    if let Some((p, q)) = self.narrow2(a, b) {
      return self.ult(p, q);
    }
    self.mk(K::Ult(a, b), 1)
  }
  pub fn ule(&mut self, a: E, b: E) -> E {
    if a == b {
      return self.c(1, 1);
    }
    let w = self.w(a);
    match (self.cv(a), self.cv(b)) {
      (Some(x), Some(y)) => return self.c((x <= y) as u64, 1),
      (Some(0), _) => return self.c(1, 1),
      (_, Some(y)) if y == mask(w) => return self.c(1, 1),
      (_, Some(y)) => {
        let n = self.c(y + 1, w);
        return self.ult(a, n);
      },
      (Some(x), _) => {
        let n = self.c(x - 1, w);
        return self.ult(n, b);
      },
      _ => {},
    }
    if let Some((p, q)) = self.narrow2(a, b) {
      return self.ule(p, q);
    }
    self.mk(K::Ule(a, b), 1)
  }
  pub fn slt(&mut self, a: E, b: E) -> E {
    if a == b {
      return self.c(0, 1);
    }
    let w = self.w(a);
    if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
      return self.c((sext(x, w) < sext(y, w)) as u64, 1);
    }
    let nonneg = |s: &Self, e: E| match s.k(e) {
      K::ZExt(_) => true,
      K::Const(v) => v >> (w - 1) == 0,
      _ => false,
    };
    if nonneg(self, a) && nonneg(self, b) {
      return self.ult(a, b);
    }
    if nonneg(self, a) && self.cv(b).map_or(false, |v| v >> (w - 1) == 1) {
      return self.c(0, 1);
    }
    if nonneg(self, b) && self.cv(a).map_or(false, |v| v >> (w - 1) == 1) {
      return self.c(1, 1);
    }
    for (p, q, l) in [(a, b, true), (b, a, false)] {
      if let (K::Ite(c, x, y), Some(_)) = (self.k(p), self.cv(q)) {
        if self.cv(x).is_some() || self.cv(y).is_some() {
          let (r, t) = if l { (self.slt(x, q), self.slt(y, q)) } else { (self.slt(q, x), self.slt(q, y)) };
          return self.ite(c, r, t);
        }
      }
    }
    self.mk(K::Slt(a, b), 1)
  }
  pub fn sle(&mut self, a: E, b: E) -> E {
    if a == b {
      return self.c(1, 1);
    }
    let w = self.w(a);
    if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
      return self.c((sext(x, w) <= sext(y, w)) as u64, 1);
    }
    let nonneg = |s: &Self, e: E| match s.k(e) {
      K::ZExt(_) => true,
      K::Const(v) => v >> (w - 1) == 0,
      _ => false,
    };
    if nonneg(self, a) && nonneg(self, b) {
      return self.ule(a, b);
    }
    let t = self.slt(b, a);
    if let K::Slt(..) = self.k(t) {
      return self.mk(K::Sle(a, b), 1);
    }
    self.not(t)
  }

  /// evaluate under an assignment (missing variables are 0)
  /// evaluate; small terms without memoisation
  pub fn evals(&self, e: E, m: &dyn Fn(u32) -> u64) -> u64 {
    let mut memo = if self.nodes[e as usize].size <= 48 { None } else { Some(HashMap::new()) };
    self.eval(e, m, &mut memo)
  }
  pub fn eval(&self, e: E, m: &dyn Fn(u32) -> u64, memo: &mut Option<HashMap<E, u64>>) -> u64 {
    let n = self.nodes[e as usize];
    match n.k {
      K::Const(v) => return v,
      K::Var(v) => return m(v) & mask(n.w),
      _ => {},
    }
    if let Some(v) = memo.as_ref().and_then(|m| m.get(&e)) {
      return *v;
    }
    use crate::ir::Bin as B;
    let ev = |s: &Self, x: E, memo: &mut Option<HashMap<E, u64>>| s.eval(x, m, memo);
    let b2 = |s: &Self, k: B, x: E, y: E, memo: &mut Option<HashMap<E, u64>>| {
      let p = s.eval(x, m, memo);
      let q = s.eval(y, m, memo);
      Self::fold(k, p, q, n.w).unwrap_or_else(|| match k {
        // SMT-LIB semantics of division by zero
        B::UDiv => mask(n.w),
        B::URem | B::SRem => p,
        _ => {
          if sext(p, n.w) < 0 {
            1
          } else {
            mask(n.w)
          }
        },
      })
    };
    let r = match n.k {
      K::Const(_) | K::Var(_) => unreachable!(),
      K::Add(x, y) => b2(self, B::Add, x, y, memo),
      K::Sub(x, y) => b2(self, B::Sub, x, y, memo),
      K::Mul(x, y) => b2(self, B::Mul, x, y, memo),
      K::UDiv(x, y) => b2(self, B::UDiv, x, y, memo),
      K::SDiv(x, y) => b2(self, B::SDiv, x, y, memo),
      K::URem(x, y) => b2(self, B::URem, x, y, memo),
      K::SRem(x, y) => b2(self, B::SRem, x, y, memo),
      K::Shl(x, y) => b2(self, B::Shl, x, y, memo),
      K::LShr(x, y) => b2(self, B::LShr, x, y, memo),
      K::AShr(x, y) => b2(self, B::AShr, x, y, memo),
      K::And(x, y) => b2(self, B::And, x, y, memo),
      K::Or(x, y) => b2(self, B::Or, x, y, memo),
      K::Xor(x, y) => b2(self, B::Xor, x, y, memo),
      K::Eq(x, y) => (ev(self, x, memo) == ev(self, y, memo)) as u64,
      K::Ult(x, y) => (ev(self, x, memo) < ev(self, y, memo)) as u64,
      K::Ule(x, y) => (ev(self, x, memo) <= ev(self, y, memo)) as u64,
      K::Slt(x, y) => {
        let w = self.w(x);
        (sext(ev(self, x, memo), w) < sext(ev(self, y, memo), w)) as u64
      },
      K::Sle(x, y) => {
        let w = self.w(x);
        (sext(ev(self, x, memo), w) <= sext(ev(self, y, memo), w)) as u64
      },
      K::Ite(c, x, y) => {
        if ev(self, c, memo) == 1 {
          ev(self, x, memo)
        } else {
          ev(self, y, memo)
        }
      },
      K::ZExt(x) => ev(self, x, memo),
      K::SExt(x) => sext(ev(self, x, memo), self.w(x)) as u64 & mask(n.w),
      K::Extract(x, lo) => (ev(self, x, memo) >> lo) & mask(n.w),
      K::Concat(h, l) => (ev(self, h, memo) << self.w(l)) | ev(self, l, memo),
    };
    if let Some(m) = memo {
      m.insert(e, r);
    }
    r
  }
}
