//! Schema with bidirectional declarations of every kind.
use crate::accessors;
use crate::gen::*;
use crate::rt::*;
use ::indexmap::IndexSet;
use ::ordermap::OrderSet;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashSet};
use ttgraph::*;

#[derive(TypedNode, Serialize, Deserialize, Clone, Debug, Default)]
pub struct PNode {
  pub one: NodeIndex,
  pub kids: HashSet<NodeIndex>,
  pub peers: BTreeSet<NodeIndex>,
  pub next: NodeIndex,
  pub prev: NodeIndex,
  pub owned: OrderSet<NodeIndex>,
  pub free: Vec<NodeIndex>,
  pub data: u64,
}
#[derive(TypedNode, Serialize, Deserialize, Clone, Debug, Default)]
pub struct QNode {
  pub back: NodeIndex,
  pub par: NodeIndex,
  #[group(gl)]
  pub g1: NodeIndex,
  #[group(gl)]
  pub g2: OrderSet<NodeIndex>,
  pub tags: HashSet<NodeIndex>,
  pub free: IndexSet<NodeIndex>,
  pub data: u64,
}
#[derive(TypedNode, Serialize, Deserialize, Clone, Debug, Default)]
pub struct RNode {
  #[group(hl)]
  pub h1: NodeIndex,
  #[group(hl)]
  pub h2: BTreeSet<NodeIndex>,
  pub owner: NodeIndex,
  pub twin: NodeIndex,
  pub data: u64,
}
#[derive(TypedNode, Serialize, Deserialize, Clone, Debug, Default)]
pub struct SNode {
  pub owner: NodeIndex,
  pub mates: IndexSet<NodeIndex>,
  pub free: NodeIndex,
  pub data: u64,
}
node_enum! {
  #[derive(Serialize, Deserialize, Clone, Debug)]
  pub enum BN {
    P(PNode),
    Q(QNode),
    R(RNode),
    S(SNode),
  }
  group! {
    rs{R, S},
  }
  bidirectional! {
    P.one <-> Q.back,
    P.kids <-> Q.par,
    P.peers <-> P.peers,
    P.next <-> P.prev,
    P.owned <-> rs.owner,
    Q.gl <-> R.hl,
    Q.tags <-> S.mates,
    R.twin <-> R.twin,
  }
}
pub const P: u8 = 0;
pub const Q: u8 = 1;
pub const R_: u8 = 2;
pub const S_: u8 = 3;
#[derive(Clone, Copy)]
pub struct Bd;
/// (type, fields) <-> (type, fields)
pub const DECL: &[Decl] = &[
  (P, &[0], Q, &[0]),
  (P, &[1], Q, &[1]),
  (P, &[2], P, &[2]),
  (P, &[3], P, &[4]),
  (P, &[5], R_, &[2]),
  (P, &[5], S_, &[0]),
  (Q, &[2, 3], R_, &[0, 1]),
  (Q, &[4], S_, &[1]),
  (R_, &[3], R_, &[3]),
];
impl Pairs for Bd {
  fn decl() -> &'static [Decl] {
    DECL
  }
}
impl Schema for Bd {
  type Node = BN;
  accessors! { BN;
    P = 0 { 0 D one, 1 H kids, 2 B peers, 3 D next, 4 D prev, 5 O owned, 6 V free },
    Q = 1 { 0 D back, 1 D par, 2 D g1, 3 O g2, 4 H tags, 5 I free },
    R = 2 { 0 D h1, 1 B h2, 2 D owner, 3 D twin },
    S = 3 { 0 D owner, 1 I mates, 2 D free },
  }
  fn post(pre: &[MN], m: &mut Vec<MN>) -> bool {
    counterparts::<Bd>(DECL, pre, m)
  }
}
/// a schema with bidirectional declarations
pub trait Pairs: Schema {
  fn decl() -> &'static [Decl];
}
pub type Decl = (u8, &'static [usize], u8, &'static [usize]);
/// a pair that was linked stays only if both sides still link, a pair that was not linked is
/// completed; false: there is no place for a counterpart
pub fn counterparts<S: Schema>(decl: &'static [Decl], pre: &[MN], m: &mut Vec<MN>) -> bool {
  let mut todo: Vec<(usize, usize, &'static [usize])> = vec![];
  for d in decl {
    for x in 0..m.len() {
      for y in 0..m.len() {
        if m[x].ty != d.0 || m[y].ty != d.2 {
          continue;
        }
        let (i, j) = (m[x].id, m[y].id);
        let a = reaches(&m[x], d.1, j);
        let b = reaches(&m[y], d.3, i);
        if a == b {
          continue;
        }
        let was = match (find(pre, i), find(pre, j)) {
          (Some(p), Some(q)) => reaches(&pre[p], d.1, j),
          _ => false,
        };
        if was {
          drop_links::<S>(&mut m[x], d.1, j);
          drop_links::<S>(&mut m[y], d.3, i);
        } else if a {
          todo.push((y, i, d.3));
        } else {
          todo.push((x, j, d.1));
        }
      }
    }
  }
  for (y, i, fs) in todo {
    if fs.len() > 1 {
      return false;
    }
    let f = fs[0];
    if S::kinds(m[y].ty)[f] == K::D {
      if m[y].f[f][0] != 0 && m[y].f[f][0] != i {
        return false;
      }
      m[y].f[f][0] = i;
    } else if !m[y].f[f].contains(&i) {
      m[y].f[f].push(i);
    }
  }
  true
}
pub fn reaches(n: &MN, fs: &[usize], to: usize) -> bool {
  fs.iter().any(|f| n.f[*f].contains(&to))
}
fn drop_links<S: Schema>(n: &mut MN, fs: &[usize], to: usize) {
  for f in fs {
    if S::kinds(n.ty)[*f] == K::D {
      if n.f[*f][0] == to {
        n.f[*f][0] = 0
      }
    } else {
      n.f[*f].retain(|x| *x != to)
    }
  }
}
fn each<S: Schema>(n: &S::Node, f: usize, k: &mut dyn FnMut(usize)) {
  match S::rfield(n, f) {
    R::D(d) => k(d.0),
    R::B(s) => s.iter().for_each(|x| k(x.0)),
    R::H(s) => s.iter().for_each(|x| k(x.0)),
    R::O(s) => s.iter().for_each(|x| k(x.0)),
    R::I(s) => s.iter().for_each(|x| k(x.0)),
    R::V(s) => s.iter().for_each(|x| k(x.0)),
    R::X => {},
  }
}
fn holds<S: Schema>(n: &S::Node, fs: &[usize], to: usize) -> bool {
  let to = NodeIndex(to);
  fs.iter().any(|f| match S::rfield(n, *f) {
    R::D(d) => *d == to,
    R::B(s) => s.contains(&to),
    R::H(s) => s.contains(&to),
    R::O(s) => s.contains(&to),
    R::I(s) => s.contains(&to),
    R::V(v) => v.contains(&to),
    R::X => false,
  })
}
/// the declared symmetry, on the real graph
pub fn symmetric<S: Pairs>(g: &Graph<S::Node>, ids: &[usize], id: u32) {
  for i in ids {
    if let Some(x) = g.get(NodeIndex(*i)) {
      let ty = S::ty(x);
      for d in S::decl() {
        for (t0, f0, t1, f1) in [(d.0, d.1, d.2, d.3), (d.2, d.3, d.0, d.1)] {
          if ty != t0 {
            continue;
          }
          for f in f0 {
            each::<S>(x, *f, &mut |j| {
              if let Some(y) = g.get(NodeIndex(j)) {
                if S::ty(y) == t1 {
                  check(holds::<S>(y, f1, *i), id);
                }
              }
            });
          }
        }
      }
    }
  }
}
pub type BW = W<Bd>;
pub type BT = Tx<Bd>;

/// a graph under test in one of two ways: compared with the model, or for symmetry alone
pub struct D<S: Pairs = Bd> {
  pub w: W<S>,
  pub full: bool,
  pub all: Vec<usize>,
}
impl D {
  pub fn new(full: bool) -> D {
    D::of(full)
  }
}
impl<S: Pairs> D<S> {
  pub fn of(full: bool) -> D<S> {
    D { w: W::new(), full, all: vec![] }
  }
  pub fn tx(&self) -> Tx<S> {
    self.w.tx()
  }
  pub fn commit(&mut self, t: Tx<S>, id: u32) -> bool {
    for p in &t.pend {
      self.all.push(p.id)
    }
    if self.full {
      return self.w.commit(t, id);
    }
    let g = &mut self.w.g;
    let tt = t.t;
    if catch(move || g.commit(tt)) {
      return false;
    }
    symmetric::<S>(&self.w.g, &self.all, id + 9);
    true
  }
  /// set-up whose outcome is taken for granted (panics are not considered)
  pub fn setup(&mut self, t: Tx<S>) {
    for p in &t.pend {
      self.all.push(p.id)
    }
    let ok = self.w.model(&t);
    assume(ok);
    self.w.g.commit(t.t);
  }
}
/// which fields a scenario works on: nodes by type, and editable fields per type
pub struct Part {
  pub types: &'static [u8],
  pub fields: &'static [(u8, usize)],
  /// the states of the link-group part are written out
  pub written: bool,
}
pub const SINGLE: Part = Part { types: &[P, P, Q, Q], fields: &[(P, 0), (Q, 0)], written: false };
pub const SETSINGLE: Part = Part { types: &[P, P, Q, Q], fields: &[(P, 1), (Q, 1)], written: false };
pub const PEERS: Part = Part { types: &[P, P, P], fields: &[(P, 2)], written: false };
pub const LIST: Part = Part { types: &[P, P, P], fields: &[(P, 3), (P, 4)], written: false };
pub const OWNED: Part = Part { types: &[P, P, R_, S_], fields: &[(P, 5), (R_, 2), (S_, 0)], written: false };
pub const GROUP: Part = Part { types: &[Q, Q, R_, R_], fields: &[(Q, 2), (Q, 3), (R_, 0), (R_, 1)], written: true };
pub const SETSET: Part = Part { types: &[Q, Q, S_, S_], fields: &[(Q, 4), (S_, 1)], written: false };
pub const TWIN: Part = Part { types: &[R_, R_, R_], fields: &[(R_, 3)], written: false };

/// nodes of a part without links
pub fn bare<S: Pairs>(d: &mut D<S>, p: &Part) -> Vec<usize> {
  let mut t = d.tx();
  let v: Vec<usize> = p.types.iter().map(|ty| t.new_node(*ty, &[])).collect();
  d.setup(t);
  v
}
/// the types a field leads to by its declarations
fn partners<S: Pairs>(ty: u8, f: usize) -> Vec<u8> {
  let mut v = vec![];
  for d in S::decl() {
    if d.0 == ty && d.1.contains(&f) {
      v.push(d.2)
    }
    if d.2 == ty && d.3.contains(&f) {
      v.push(d.0)
    }
  }
  v
}
fn right<S: Pairs>(ids: &[(usize, u8)], ty: u8, f: usize) -> Vec<usize> {
  let p = partners::<S>(ty, f);
  ids.iter().filter(|x| p.contains(&x.1)).map(|x| x.0).collect()
}
/// an edit of one of the fields of the part on any of the nodes
pub fn any_edit<S: Pairs>(t: &mut Tx<S>, p: &Part, ids: &[(usize, u8)], upd: bool) {
  let mut cases: Vec<(usize, usize, u8)> = vec![];
  for (id, ty) in ids {
    for (fty, f) in p.fields {
      if fty == ty {
        cases.push((*id, *f, *ty));
      }
    }
  }
  let c = conc(range(0, cases.len() as u64 - 1) as usize);
  let (id, f, ty) = cases[c];
  let mut ts = right::<S>(ids, ty, f);
  if S::kinds(ty)[f] == K::D {
    ts.push(0);
    t.edit(upd, id, Edit::Put(f, pick(&ts)));
  } else {
    let to = pick(&ts);
    match range(0, 2) {
      0 => t.edit(upd, id, Edit::Put(f, to)),
      1 => t.edit(upd, id, Edit::Del(f, to)),
      _ => t.edit(upd, id, Edit::Swap(f, to)),
    }
  }
}
/// any symmetric state of the first declaration of the part
fn any_state<S: Pairs>(d: &mut D<S>, p: &Part, ids: &[(usize, u8)]) {
  let mut t = d.tx();
  let (ty, f) = p.fields[0];
  if p.written {
    // groups: both sides are written out
    let (q0, q1, r0, r1) = (ids[0].0, ids[1].0, ids[2].0, ids[3].0);
    match range(0, 6) {
      0 => {},
      1 => {
        t.mutate(q0, Edit::Put(2, r0));
        t.mutate(r0, Edit::Put(0, q0));
      },
      2 => {
        t.mutate(q0, Edit::Two(2, r0, 3, r0));
        t.mutate(r0, Edit::Put(1, q0));
      },
      3 => {
        t.mutate(q0, Edit::Two(2, r0, 3, r1));
        t.mutate(r0, Edit::Two(0, q0, 1, q0));
        t.mutate(r1, Edit::Put(0, q0));
      },
      4 => {
        t.mutate(q0, Edit::Two(3, r0, 3, r1));
        t.mutate(q1, Edit::Two(2, r0, 3, r1));
        t.mutate(r0, Edit::Two(0, q1, 1, q0));
        t.mutate(r1, Edit::Two(1, q0, 1, q1));
      },
      5 => {
        t.mutate(q0, Edit::Put(3, r0));
        t.mutate(r0, Edit::Put(1, q0));
        t.mutate(q1, Edit::Put(2, r1));
        t.mutate(r1, Edit::Two(0, q1, 1, q1));
      },
      _ => {
        t.mutate(q0, Edit::Two(2, r1, 3, r1));
        t.mutate(r1, Edit::Two(0, q0, 1, q0));
        t.mutate(q1, Edit::Put(3, r0));
        t.mutate(r0, Edit::Put(0, q1));
      },
    }
  } else {
    let mut ts = right::<S>(ids, ty, f);
    for (id, ity) in ids {
      if *ity != ty {
        continue;
      }
      if S::kinds(ty)[f] == K::D {
        let mut u = ts.clone();
        u.push(0);
        let x = pick(&u);
        if x != 0 {
          t.mutate(*id, Edit::Put(f, x));
        }
      } else {
        // any subset
        for x in &ts {
          if flag() {
            t.mutate(*id, Edit::Put(f, *x));
          }
        }
        // same link on both sides: each pair once
        if partners::<S>(ty, f).contains(&ty) {
          ts.retain(|x| x != id);
        }
      }
    }
  }
  d.setup(t);
}
/// any state of a declaration, then a transaction with any edits of it
pub fn edits<S: Pairs>(full: bool, p: &Part, during: usize, id: u32) {
  let mut d = D::<S>::of(full);
  let v = bare(&mut d, p);
  let ids: Vec<(usize, u8)> = v.iter().copied().zip(p.types.iter().copied()).collect();
  any_state(&mut d, p, &ids);
  let mut t = d.tx();
  let u = flag();
  for k in 0..during {
    any_edit(&mut t, p, &ids, if k == 0 { u } else { !u && k == 1 });
  }
  if d.commit(t, id) {
    reach(1);
  } else {
    reach(2);
  }
}
/// a symmetric graph with links of every declaration: p0 p1 p2 q0 q1 r0 r1 s
pub fn dense(d: &mut D) -> Vec<(usize, u8)> {
  let mut t = d.tx();
  let ty = [P, P, P, Q, Q, R_, R_, S_];
  let n: Vec<usize> = (0..8).map(|_| t.alloc()).collect();
  let (p0, p1, p2, q0, q1, r0, r1, s) = (n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7]);
  t.fill(p0, P, &[&[q0], &[q0, q1], &[p1, p0], &[p1], &[p2], &[r0, s], &[q0, p1, 0]]);
  t.fill(p1, P, &[&[q1], &[], &[p0], &[p2], &[p0], &[r1], &[p0]]);
  t.fill(p2, P, &[&[], &[], &[], &[p0], &[p1], &[], &[]]);
  t.fill(q0, Q, &[&[p0], &[p0], &[r0], &[r1, r0], &[s], &[p0, s]]);
  t.fill(q1, Q, &[&[p1], &[p0], &[], &[r1], &[s], &[q1]]);
  t.fill(r0, R_, &[&[q0], &[], &[p0], &[r1]]);
  t.fill(r1, R_, &[&[q1], &[q0], &[p1], &[r0]]);
  t.fill(s, S_, &[&[p0], &[q0, q1], &[r0]]);
  d.setup(t);
  n.into_iter().zip(ty).collect()
}
/// any operation on the dense graph
pub fn any_op(t: &mut BT, n: &[(usize, u8)], level: u8) {
  let ids: Vec<usize> = n.iter().map(|x| x.0).collect();
  let mut all = vec![0];
  all.extend_from_slice(&ids);
  // a smaller choice
  let some: Vec<usize> = match level {
    0 => ids.clone(),
    1 => vec![ids[0], ids[3], ids[4], ids[6]],
    _ => vec![ids[0], ids[3], ids[6]],
  };
  let (all, ids) = if level < 2 { (all, ids) } else { (vec![0, ids[1], ids[4], ids[5]], vec![ids[1], ids[4], ids[5], ids[0], ids[3]]) };
  match range(0, 4) {
    0 => t.redirect(pick(&some), pick(&all)),
    1 => t.redirect_all(pick(&some), pick(&all)),
    2 => t.remove(pick(&some)),
    3 => {
      let k = conc(range(0, n.len() as u64 - 1) as usize);
      let (id, ty) = n[k];
      if level > 0 {
        assume(k == 0 || k == 3 || k == 5 || (k == 7 && level == 1));
      }
      let f = conc(range(0, Bd::kinds(ty).len() as u64 - 1) as usize);
      let upd = if level == 0 { flag() } else { false };
      match Bd::kinds(ty)[f] {
        K::D => t.edit(upd, id, Edit::Put(f, pick(&all))),
        _ => match range(0, if level == 0 { 2 } else { 1 }) {
          0 => t.edit(upd, id, Edit::Put(f, pick(&ids))),
          1 => t.edit(upd, id, Edit::Del(f, pick(&ids))),
          _ => t.edit(upd, id, Edit::Swap(f, pick(&ids))),
        },
      }
    },
    _ => {
      let l = pick(&ids);
      let k = if level == 0 { range(0, 6) } else { range(0, 3) };
      match k {
        0 => t.new_node(P, &[&[], &[l], &[l], &[], &[], &[], &[l]]),
        1 => t.new_node(Q, &[&[], &[l], &[], &[l], &[], &[l]]),
        2 => t.new_node(R_, &[&[l], &[], &[], &[]]),
        3 => t.new_node(S_, &[&[l], &[l], &[]]),
        4 => t.new_node(P, &[&[l], &[], &[], &[], &[], &[l], &[]]),
        5 => t.new_node(Q, &[&[l], &[], &[l], &[], &[l], &[]]),
        _ => t.new_node(R_, &[&[], &[l], &[l], &[]]),
      };
    },
  }
}
pub fn ops(full: bool, levels: &[u8], commits: bool, id: u32) {
  let mut d = D::new(full);
  let n = dense(&mut d);
  let mut t = d.tx();
  for (k, l) in levels.iter().enumerate() {
    any_op(&mut t, &n, *l);
    if commits {
      let o = std::mem::replace(&mut t, d.tx());
      if !d.commit(o, id + 20 * k as u32) {
        reach(2);
        return;
      }
    }
  }
  if commits {
    reach(1);
    return;
  }
  if d.commit(t, id) {
    reach(1);
  } else {
    reach(2);
  }
}
/// links given by new nodes, on either side or both, with each other and with older nodes
pub fn inserts<S: Pairs>(full: bool, p: &Part, id: u32) {
  inserted::<S>(full, p, false, id)
}
/// the first new node only links with a node which does not exist
pub fn lost<S: Pairs>(full: bool, p: &Part, id: u32) {
  inserted::<S>(full, p, true, id)
}
fn inserted<S: Pairs>(full: bool, p: &Part, lost: bool, id: u32) {
  let mut d = D::<S>::of(full);
  let old = {
    let mut t = d.tx();
    let v: Vec<usize> = p.types[1..].iter().map(|ty| t.new_node(*ty, &[])).collect();
    d.setup(t);
    v
  };
  let mut t = d.tx();
  let n: Vec<usize> = p.types.iter().map(|_| t.alloc()).collect();
  for (k, ty) in p.types.iter().enumerate() {
    let ks = S::kinds(*ty);
    let mut m = mn::<S>(*ty, &[], any());
    let per = p.fields.iter().filter(|x| x.0 == *ty).count();
    for (fty, f) in p.fields {
      if fty != ty {
        continue;
      }
      let mut ts = vec![0];
      if lost && k == 0 {
        ts.push(1 << 40);
      } else {
        ts.extend_from_slice(&n);
        ts.extend_from_slice(&old[..2]);
      }
      let x = if k < 2 || (k == 2 && per == 1) { pick(&ts) } else { 0 };
      if ks[*f] == K::D {
        m.f[*f][0] = x;
      } else {
        m.f[*f] = set(&[x]);
      }
    }
    m.id = n[k];
    t.t.fill_back_untyped(NodeIndex(n[k]), real::<S>(&m));
    t.pend.push(m);
  }
  if d.commit(t, id) {
    reach(1);
  } else {
    reach(2);
  }
}
/// one node linked with many
pub fn wide(full: bool, id: u32) {
  let mut d = D::new(full);
  let n = crate::plain::any_size();
  let mut t = d.tx();
  let hub = t.new_node(P, &[]);
  let other = t.new_node(P, &[]);
  let hs = t.new_node(S_, &[&[], &[], &[]]);
  let v: Vec<usize> = (0..n)
    .map(|k| match k % 3 {
      0 => t.new_node(Q, &[&[], &[hub], &[], &[], &[hs]]),
      1 => t.new_node(R_, &[&[], &[], &[hub]]),
      _ => t.new_node(P, &[&[], &[], &[hub]]),
    })
    .collect();
  if !d.commit(t, id) {
    return;
  }
  let mut t = d.tx();
  match range(0, 5) {
    0 => t.remove(hub),
    1 => t.redirect(hub, other),
    2 => t.mutate(hub, Edit::Swap(2, other)),
    3 => {
      t.redirect_all(hub, other);
      t.remove(hub);
    },
    4 => {
      for k in 0..n {
        if k % 2 == 1 {
          t.remove(v[k]);
        } else if k % 3 == 0 {
          t.mutate(v[k], Edit::Put(1, other));
        }
      }
    },
    _ => {
      assume(n > 0);
      let k = conc(range(0, n as u64 - 1) as usize);
      match k % 3 {
        0 => t.update(v[k], Edit::Put(1, 0)),
        1 => t.update(v[k], Edit::Put(2, other)),
        _ => t.update(v[k], Edit::Del(2, hub)),
      }
    },
  }
  if d.commit(t, id + 20) {
    reach(1);
  }
}

/// several transactions, each with edits of one declaration
pub fn history<S: Pairs>(full: bool, p: &Part, steps: usize, id: u32) {
  let mut d = D::<S>::of(full);
  let v = bare(&mut d, p);
  let ids: Vec<(usize, u8)> = v.iter().copied().zip(p.types.iter().copied()).collect();
  if p.written {
    any_state(&mut d, p, &ids);
  }
  for k in 0..steps {
    let mut t = d.tx();
    any_edit(&mut t, p, &ids, k == 1);
    if !d.commit(t, id + 20 * k as u32) {
      reach(2);
      return;
    }
  }
  let mut t = d.tx();
  if flag() {
    t.remove(pick(&v));
  } else {
    t.redirect(pick(&v), pick(&[0, v[0], v[1], v[2]]));
  }
  if d.commit(t, id + 20 * steps as u32) {
    reach(1);
  } else {
    reach(2);
  }
}
