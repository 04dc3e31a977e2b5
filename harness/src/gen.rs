//! Reference model of graphs over any schema: transactions, commits, comparison.
//! A schema says which fields a node type has, how to reach them in the real node, and what a
//! commit does beyond the recorded operations (`post`).
use crate::rt::*;
use ::indexmap::IndexSet;
use ::ordermap::OrderSet;
use std::collections::{BTreeSet, HashSet};
use ttgraph::*;

pub enum F<'a> {
  D(&'a mut NodeIndex),
  B(&'a mut BTreeSet<NodeIndex>),
  H(&'a mut HashSet<NodeIndex>),
  O(&'a mut OrderSet<NodeIndex>),
  I(&'a mut IndexSet<NodeIndex>),
  V(&'a mut Vec<NodeIndex>),
  X,
}
pub enum R<'a> {
  D(&'a NodeIndex),
  B(&'a BTreeSet<NodeIndex>),
  H(&'a HashSet<NodeIndex>),
  O(&'a OrderSet<NodeIndex>),
  I(&'a IndexSet<NodeIndex>),
  V(&'a Vec<NodeIndex>),
  X,
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum K {
  D,
  S,
  V,
}
pub type Fields = Vec<Vec<usize>>;

#[derive(Clone)]
pub struct MN {
  pub id: usize,
  pub ty: u8,
  pub data: u64,
  pub f: Fields,
}
pub trait Schema: Clone + Copy + 'static {
  type Node: NodeEnum + Clone + 'static;
  /// kinds of the fields of a type
  fn kinds(ty: u8) -> &'static [K];
  fn blank(ty: u8) -> Self::Node;
  fn ty(n: &Self::Node) -> u8;
  fn data(n: &mut Self::Node) -> &mut u64;
  fn rdata(n: &Self::Node) -> u64;
  fn field(n: &mut Self::Node, f: usize) -> F<'_>;
  fn rfield(n: &Self::Node, f: usize) -> R<'_>;
  /// what else a commit does to the model; false: it panics
  fn post(_pre: &[MN], _m: &mut Vec<MN>) -> bool {
    true
  }
}
/// distinct, non-empty elements
pub fn set(s: &[usize]) -> Vec<usize> {
  let mut r: Vec<usize> = vec![];
  for &x in s {
    if x != 0 && !r.contains(&x) {
      r.push(x)
    }
  }
  r
}
/// a model node; fields given in order, missing ones empty
pub fn mn<S: Schema>(ty: u8, f: &[&[usize]], data: u64) -> MN {
  let ks = S::kinds(ty);
  let mut v: Fields = vec![];
  for k in 0..ks.len() {
    let x: &[usize] = if k < f.len() { f[k] } else { &[] };
    v.push(match ks[k] {
      K::D => vec![if x.is_empty() { 0 } else { x[0] }],
      K::S => set(x),
      K::V => x.to_vec(),
    });
  }
  MN { id: 0, ty, data, f: v }
}
pub fn real<S: Schema>(m: &MN) -> S::Node {
  let mut n = S::blank(m.ty);
  *S::data(&mut n) = m.data;
  for k in 0..m.f.len() {
    for x in &m.f[k] {
      let x = NodeIndex(*x);
      match S::field(&mut n, k) {
        F::D(d) => *d = x,
        F::B(s) => {
          s.insert(x);
        },
        F::H(s) => {
          s.insert(x);
        },
        F::O(s) => {
          s.insert(x);
        },
        F::I(s) => {
          s.insert(x);
        },
        F::V(v) => v.push(x),
        F::X => {},
      }
    }
  }
  n
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Edit {
  Data(u64, u64),
  /// single link := target; set link: insert; vector link: push
  Put(usize, usize),
  /// set link: delete target; vector link: pop; single: clear
  Del(usize, usize),
  /// set link: clear all, then insert; vector: assign position 0
  Swap(usize, usize),
  /// two at once
  Two(usize, usize, usize, usize),
}
pub fn edit_model<S: Schema>(m: &mut MN, e: Edit) {
  let ks = S::kinds(m.ty);
  match e {
    Edit::Data(a, b) => m.data = m.data.wrapping_mul(a).wrapping_add(b),
    Edit::Two(a, x, b, y) => {
      edit_model::<S>(m, Edit::Put(a, x));
      edit_model::<S>(m, Edit::Put(b, y));
    },
    Edit::Put(f, t) => match ks[f] {
      K::D => m.f[f][0] = t,
      K::S => {
        if !m.f[f].contains(&t) {
          m.f[f].push(t)
        }
      },
      K::V => m.f[f].push(t),
    },
    Edit::Del(f, t) => match ks[f] {
      K::D => m.f[f][0] = 0,
      K::S => m.f[f].retain(|x| *x != t),
      K::V => {
        m.f[f].pop();
      },
    },
    Edit::Swap(f, t) => match ks[f] {
      K::D => m.f[f][0] = t,
      K::S => m.f[f] = vec![t],
      K::V => {
        if !m.f[f].is_empty() {
          m.f[f][0] = t
        }
      },
    },
  }
}
pub fn edit_real<S: Schema>(n: &mut S::Node, e: Edit) {
  macro_rules! on {
    ($f:expr, $t:expr, $d:expr, $s:ident => $set:expr, $v:ident => $vec:expr) => {
      match S::field(n, $f) {
        F::D(x) => *x = NodeIndex($d),
        F::B($s) => {
          $set;
        },
        F::H($s) => {
          $set;
        },
        F::O($s) => {
          $set;
        },
        F::I($s) => {
          $set;
        },
        F::V($v) => {
          $vec;
        },
        F::X => {},
      }
    };
  }
  match e {
    Edit::Data(a, b) => {
      let d = S::data(n);
      *d = d.wrapping_mul(a).wrapping_add(b)
    },
    Edit::Two(a, x, b, y) => {
      edit_real::<S>(n, Edit::Put(a, x));
      edit_real::<S>(n, Edit::Put(b, y));
    },
    Edit::Put(f, t) => on!(f, t, t, s => s.insert(NodeIndex(t)), v => v.push(NodeIndex(t))),
    Edit::Del(f, t) => on!(f, t, 0, s => s.retain(|x| x.0 != t), v => v.pop()),
    Edit::Swap(f, t) => on!(f, t, t, s => { s.clear(); s.insert(NodeIndex(t)) }, v => if !v.is_empty() { v[0] = NodeIndex(t) }),
  }
}
fn edit_targets(e: Edit) -> [usize; 2] {
  match e {
    Edit::Put(_, t) | Edit::Swap(_, t) => [t, 0],
    Edit::Two(_, t, _, u) => [t, u],
    _ => [0, 0],
  }
}

pub fn find(m: &[MN], id: usize) -> Option<usize> {
  m.iter().position(|x| x.id == id)
}
pub struct Tx<S: Schema> {
  pub t: Transaction<'static, S::Node>,
  pub red: Vec<(usize, usize)>,
  pub red_all: Vec<(usize, usize)>,
  pub pend: Vec<MN>,
  pub muts: Vec<(usize, Edit)>,
  pub upds: Vec<(usize, Edit)>,
  pub rem: Vec<usize>,
}
impl<S: Schema> Tx<S> {
  pub fn new(ctx: &Context) -> Self {
    Tx { t: Transaction::new(ctx), red: vec![], red_all: vec![], pend: vec![], muts: vec![], upds: vec![], rem: vec![] }
  }
  pub fn insert(&mut self, mut m: MN) -> usize {
    let id = self.t.insert(real::<S>(&m)).0;
    m.id = id;
    self.pend.push(m);
    id
  }
  pub fn new_node(&mut self, ty: u8, f: &[&[usize]]) -> usize {
    self.insert(mn::<S>(ty, f, any()))
  }
  pub fn alloc(&mut self) -> usize {
    self.t.alloc_untyped().0
  }
  pub fn fill(&mut self, id: usize, ty: u8, f: &[&[usize]]) {
    let mut m = mn::<S>(ty, f, any());
    self.t.fill_back_untyped(NodeIndex(id), real::<S>(&m));
    m.id = id;
    self.pend.push(m);
  }
  pub fn remove(&mut self, id: usize) {
    self.t.remove(NodeIndex(id));
    if let Some(k) = find(&self.pend, id) {
      self.pend.remove(k);
    } else if !self.rem.contains(&id) {
      self.rem.push(id);
    }
  }
  pub fn mutate(&mut self, id: usize, e: Edit) {
    self.t.mutate(NodeIndex(id), move |n| edit_real::<S>(n, e));
    match find(&self.pend, id) {
      Some(k) => edit_model::<S>(&mut self.pend[k], e),
      None => self.muts.push((id, e)),
    }
  }
  pub fn update(&mut self, id: usize, e: Edit) {
    self.t.update(NodeIndex(id), move |mut n| {
      edit_real::<S>(&mut n, e);
      n
    });
    match find(&self.pend, id) {
      Some(k) => edit_model::<S>(&mut self.pend[k], e),
      None => self.upds.push((id, e)),
    }
  }
  pub fn edit(&mut self, upd: bool, id: usize, e: Edit) {
    if upd {
      self.update(id, e)
    } else {
      self.mutate(id, e)
    }
  }
  pub fn redirect(&mut self, a: usize, b: usize) {
    assume(self.red.iter().all(|x| x.0 != a));
    self.t.redirect_links(NodeIndex(a), NodeIndex(b));
    self.red.push((a, b));
  }
  pub fn redirect_all(&mut self, a: usize, b: usize) {
    assume(self.red_all.iter().all(|x| x.0 != a));
    self.t.redirect_all_links(NodeIndex(a), NodeIndex(b));
    self.red_all.push((a, b));
  }
}
fn chain(red: &[(usize, usize)], x: usize) -> Option<usize> {
  let mut c = x;
  let mut n = 0;
  'o: loop {
    for (a, b) in red {
      if *a == c {
        c = *b;
        n += 1;
        if n > red.len() {
          return None;
        }
        continue 'o;
      }
    }
    return Some(c);
  }
}
fn redirect_model<S: Schema>(m: &mut [MN], red: &[(usize, usize)]) -> bool {
  if red.is_empty() {
    return true;
  }
  for (a, _) in red {
    if chain(red, *a).is_none() {
      return false;
    }
  }
  for n in m.iter_mut() {
    let ks = S::kinds(n.ty);
    for f in 0..ks.len() {
      for x in n.f[f].iter_mut() {
        if *x != 0 {
          *x = chain(red, *x).unwrap();
        }
      }
      if ks[f] == K::S {
        n.f[f] = set(&n.f[f]);
      }
    }
  }
  true
}
fn unlink_model<S: Schema>(m: &mut [MN], id: usize) {
  for n in m.iter_mut() {
    let ks = S::kinds(n.ty);
    for f in 0..ks.len() {
      if ks[f] == K::S {
        n.f[f].retain(|x| *x != id)
      } else {
        for x in n.f[f].iter_mut() {
          if *x == id {
            *x = 0
          }
        }
      }
    }
  }
}
pub struct W<S: Schema> {
  pub ctx: Context,
  pub g: Graph<S::Node>,
  pub m: Vec<MN>,
}
impl<S: Schema> W<S> {
  pub fn new() -> Self {
    let ctx = Context::new();
    let g = Graph::new(&ctx);
    W { ctx, g, m: vec![] }
  }
  pub fn tx(&self) -> Tx<S> {
    Tx::new(&self.ctx)
  }
  /// the operations as recorded; false: panic
  pub fn plain(&mut self, t: &Tx<S>) -> bool {
    for (a, _) in &t.red {
      assume(find(&self.m, *a).is_some());
    }
    if !redirect_model::<S>(&mut self.m, &t.red) {
      return false;
    }
    for p in &t.pend {
      self.m.push(p.clone());
    }
    for l in [&t.muts, &t.upds] {
      for (id, e) in l.iter() {
        for to in edit_targets(*e) {
          assume(to == 0 || find(&self.m, to).is_some());
        }
        match find(&self.m, *id) {
          Some(k) => edit_model::<S>(&mut self.m[k], *e),
          None => return false,
        }
      }
    }
    for (a, _) in &t.red_all {
      assume(find(&self.m, *a).is_some());
    }
    if !redirect_model::<S>(&mut self.m, &t.red_all) {
      return false;
    }
    for id in &t.rem {
      match find(&self.m, *id) {
        Some(k) => {
          self.m.remove(k);
          unlink_model::<S>(&mut self.m, *id);
        },
        None => return false,
      }
    }
    true
  }
  /// the documented meaning of a commit; false: it has to panic
  pub fn model(&mut self, t: &Tx<S>) -> bool {
    let pre = self.m.clone();
    self.plain(t) && S::post(&pre, &mut self.m)
  }
  /// commit, compare with the model; false: panicked (as it had to)
  pub fn commit(&mut self, t: Tx<S>, id: u32) -> bool {
    let ok = self.model(&t);
    let g = &mut self.g;
    let tt = t.t;
    let p = catch(move || g.commit(tt));
    check(p != ok, id + 1);
    if p {
      return false;
    }
    self.same(id);
    true
  }
  pub fn setup(&mut self, t: Tx<S>) {
    let ok = self.model(&t);
    assume(ok);
    self.g.commit(t.t);
  }
  pub fn same(&self, id: u32) {
    same::<S>(&self.g, &self.m, id)
  }
  pub fn ids(&self) -> Vec<usize> {
    self.m.iter().map(|x| x.id).collect()
  }
}
pub fn same<S: Schema>(g: &Graph<S::Node>, m: &[MN], id: u32) {
  check(g.len() == m.len(), id + 2);
  for x in m {
    match g.get(NodeIndex(x.id)) {
      None => check(false, id + 3),
      Some(n) => eq_node::<S>(n, x, id),
    }
  }
}
pub fn eq_node<S: Schema>(n: &S::Node, m: &MN, id: u32) {
  check(S::ty(n) == m.ty, id + 4);
  check(S::rdata(n) == m.data, id + 5);
  for k in 0..m.f.len() {
    macro_rules! on {
      ($s:ident) => {{
        check($s.len() == m.f[k].len(), id + 7);
        for x in &m.f[k] {
          check($s.contains(&NodeIndex(*x)), id + 7);
        }
      }};
    }
    match S::rfield(n, k) {
      R::D(d) => check(d.0 == m.f[k][0], id + 6),
      R::B(s) => on!(s),
      R::H(s) => on!(s),
      R::O(s) => on!(s),
      R::I(s) => on!(s),
      R::V(v) => {
        check(v.len() == m.f[k].len(), id + 8);
        for i in 0..v.len() {
          check(v[i].0 == m.f[k][i], id + 8);
        }
      },
      R::X => {},
    }
  }
}
/// accessors of a schema: variant(index) { field index => kind name, ... }
#[macro_export]
macro_rules! accessors {
  ($N:ident; $($V:ident = $t:literal { $($i:literal $K:ident $f:ident),* }),* $(,)?) => {
    fn ty(n: &$N) -> u8 { match n { $($N::$V(_) => $t),* } }
    fn data(n: &mut $N) -> &mut u64 { match n { $($N::$V(x) => &mut x.data),* } }
    fn rdata(n: &$N) -> u64 { match n { $($N::$V(x) => x.data),* } }
    fn field(n: &mut $N, f: usize) -> $crate::gen::F<'_> {
      match n { $($N::$V(x) => match f { $($i => $crate::gen::F::$K(&mut x.$f),)* _ => $crate::gen::F::X }),* }
    }
    fn rfield(n: &$N, f: usize) -> $crate::gen::R<'_> {
      match n { $($N::$V(x) => match f { $($i => $crate::gen::R::$K(&x.$f),)* _ => $crate::gen::R::X }),* }
    }
    fn kinds(ty: u8) -> &'static [$crate::gen::K] {
      match ty { $($t => &[$($crate::kind_of!($K)),*],)* _ => &[] }
    }
    fn blank(ty: u8) -> $N {
      $(if ty == $t { return $N::$V(Default::default()); })*
      unreachable!()
    }
  };
}
#[macro_export]
macro_rules! kind_of {
  (D) => { $crate::gen::K::D };
  (V) => { $crate::gen::K::V };
  ($k:ident) => { $crate::gen::K::S };
}
