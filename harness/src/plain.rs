//! Schema without bidirectional or type declarations, its reference model, and helpers.
//!
//! Field numbering of the model: A: 0=d 1=e (single), 2=s (BTreeSet), 3=v (Vec);
//! B: 0=p (single), 1=h (HashSet), 2=o (OrderSet), 3=i (IndexSet); C: 0=w (Vec).
use crate::rt::*;
use ::indexmap::IndexSet;
use ::ordermap::OrderSet;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashSet};
use ttgraph::*;

#[derive(TypedNode, Serialize, Deserialize, Clone, Debug, Default)]
pub struct NodeA {
  pub d: NodeIndex,
  pub e: NodeIndex,
  pub s: BTreeSet<NodeIndex>,
  pub v: Vec<NodeIndex>,
  pub data: u64,
}
#[derive(TypedNode, Serialize, Deserialize, Clone, Debug, Default)]
pub struct NodeB {
  pub p: NodeIndex,
  pub h: HashSet<NodeIndex>,
  pub o: OrderSet<NodeIndex>,
  pub i: IndexSet<NodeIndex>,
  pub data: u64,
}
#[derive(TypedNode, Serialize, Deserialize, Clone, Debug, Default)]
pub struct NodeC {
  pub w: Vec<NodeIndex>,
  pub data: u64,
}
node_enum! {
  #[derive(Serialize, Deserialize, Clone, Debug)]
  pub enum N {
    A(NodeA),
    B(NodeB),
    C(NodeC),
  }
  group! {
    ab{A, B},
    bc{B, C},
    only{C},
    all{A, B, C},
  }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum K {
  D,
  S,
  V,
  X,
}
pub fn kind(ty: u8, f: usize) -> K {
  match (ty, f) {
    (0, 0) | (0, 1) | (1, 0) => K::D,
    (0, 2) | (1, 1) | (1, 2) | (1, 3) => K::S,
    (0, 3) | (2, 0) => K::V,
    _ => K::X,
  }
}

/// model of a node
#[derive(Clone)]
pub struct MN {
  pub id: usize,
  pub ty: u8,
  pub data: u64,
  pub f: [Vec<usize>; 4],
}
pub fn ma(d: usize, e: usize, s: &[usize], v: &[usize], data: u64) -> MN {
  MN { id: 0, ty: 0, data, f: [vec![d], vec![e], set(s), v.to_vec()] }
}
pub fn mb(p: usize, h: &[usize], o: &[usize], i: &[usize], data: u64) -> MN {
  MN { id: 0, ty: 1, data, f: [vec![p], set(h), set(o), set(i)] }
}
pub fn mc(w: &[usize], data: u64) -> MN {
  MN { id: 0, ty: 2, data, f: [w.to_vec(), vec![], vec![], vec![]] }
}
/// distinct, non-empty elements (the empty index given here means "nothing")
pub fn set(s: &[usize]) -> Vec<usize> {
  let mut r: Vec<usize> = vec![];
  for &x in s {
    if x != 0 && !r.contains(&x) {
      r.push(x)
    }
  }
  r
}
pub fn real(m: &MN) -> N {
  let v = |k: usize| m.f[k].iter().map(|x| NodeIndex(*x)).collect::<Vec<_>>();
  match m.ty {
    0 => {
      let mut s = BTreeSet::new();
      for x in &m.f[2] {
        s.insert(NodeIndex(*x));
      }
      N::A(NodeA { d: NodeIndex(m.f[0][0]), e: NodeIndex(m.f[1][0]), s, v: v(3), data: m.data })
    },
    1 => {
      let mut h = HashSet::new();
      let mut o = OrderSet::new();
      let mut i = IndexSet::new();
      for x in &m.f[1] {
        h.insert(NodeIndex(*x));
      }
      for x in &m.f[2] {
        o.insert(NodeIndex(*x));
      }
      for x in &m.f[3] {
        i.insert(NodeIndex(*x));
      }
      N::B(NodeB { p: NodeIndex(m.f[0][0]), h, o, i, data: m.data })
    },
    _ => N::C(NodeC { w: v(0), data: m.data }),
  }
}

#[derive(Clone, Copy)]
pub enum Edit {
  /// data = data * mul + add
  Data(u64, u64),
  /// single link
  Dir(usize, usize),
  /// set link: insert / delete
  Ins(usize, usize),
  Del(usize, usize),
  /// vector link: push / assign a position (if there) / pop
  Push(usize, usize),
  At(usize, usize, usize),
  Pop(usize),
  /// becomes a node of this type linking to the target, with this data
  Become(u8, usize, u64),
}
pub fn become_node(ty: u8, l: usize, data: u64) -> MN {
  match ty {
    0 => ma(l, 0, &[l], &[0, l], data),
    1 => mb(l, &[l], &[l], &[l], data),
    _ => mc(&[l], data),
  }
}
pub fn edit_model(m: &mut MN, e: Edit) {
  match e {
    Edit::Data(a, b) => m.data = m.data.wrapping_mul(a).wrapping_add(b),
    Edit::Dir(f, t) => m.f[f][0] = t,
    Edit::Ins(f, t) => {
      if !m.f[f].contains(&t) {
        m.f[f].push(t)
      }
    },
    Edit::Del(f, t) => m.f[f].retain(|x| *x != t),
    Edit::Push(f, t) => m.f[f].push(t),
    Edit::At(f, k, t) => {
      if k < m.f[f].len() {
        m.f[f][k] = t
      }
    },
    Edit::Pop(f) => {
      m.f[f].pop();
    },
    Edit::Become(ty, l, data) => {
      let id = m.id;
      *m = become_node(ty, l, data);
      m.id = id;
    },
  }
}
pub fn edit_real(n: &mut N, e: Edit) {
  if let Edit::Become(ty, l, data) = e {
    *n = real(&become_node(ty, l, data));
    return;
  }
  let vec_edit = |v: &mut Vec<NodeIndex>| match e {
    Edit::Push(_, t) => v.push(NodeIndex(t)),
    Edit::At(_, k, t) => {
      if k < v.len() {
        v[k] = NodeIndex(t)
      }
    },
    Edit::Pop(_) => {
      v.pop();
    },
    _ => {},
  };
  match n {
    N::A(a) => match e {
      Edit::Data(x, y) => a.data = a.data.wrapping_mul(x).wrapping_add(y),
      Edit::Dir(0, t) => a.d = NodeIndex(t),
      Edit::Dir(_, t) => a.e = NodeIndex(t),
      Edit::Ins(_, t) => {
        a.s.insert(NodeIndex(t));
      },
      Edit::Del(_, t) => {
        a.s.remove(&NodeIndex(t));
      },
      _ => vec_edit(&mut a.v),
    },
    N::B(b) => match e {
      Edit::Data(x, y) => b.data = b.data.wrapping_mul(x).wrapping_add(y),
      Edit::Dir(_, t) => b.p = NodeIndex(t),
      Edit::Ins(1, t) => {
        b.h.insert(NodeIndex(t));
      },
      Edit::Ins(2, t) => {
        b.o.insert(NodeIndex(t));
      },
      Edit::Ins(_, t) => {
        b.i.insert(NodeIndex(t));
      },
      Edit::Del(1, t) => {
        b.h.remove(&NodeIndex(t));
      },
      Edit::Del(2, t) => {
        b.o.remove(&NodeIndex(t));
      },
      Edit::Del(_, t) => {
        b.i.swap_remove(&NodeIndex(t));
      },
      _ => {},
    },
    N::C(c) => match e {
      Edit::Data(x, y) => c.data = c.data.wrapping_mul(x).wrapping_add(y),
      _ => vec_edit(&mut c.w),
    },
  }
}
/// a symbolic edit of a node of type ty with targets out of `ts` (first element is the empty index)
pub fn any_edit(ty: u8, ts: &[usize]) -> Edit {
  let t = pick(&ts[1..]);
  match ty {
    0 => match range(0, 6) {
      0 => Edit::Data(3, 1),
      1 => Edit::Dir(0, pick(ts)),
      2 => Edit::Ins(2, t),
      3 => Edit::Del(2, t),
      4 => Edit::Push(3, pick(ts)),
      5 => Edit::At(3, 0, pick(ts)),
      _ => Edit::Pop(3),
    },
    1 => match range(0, 6) {
      0 => Edit::Dir(0, pick(ts)),
      1 => Edit::Ins(1, t),
      2 => Edit::Del(1, t),
      3 => Edit::Ins(2, t),
      4 => Edit::Del(2, t),
      5 => Edit::Ins(3, t),
      _ => Edit::Del(3, t),
    },
    _ => match range(0, 1) {
      0 => Edit::Push(0, pick(ts)),
      _ => Edit::At(0, 0, pick(ts)),
    },
  }
}

/// the graph under test together with the model
pub struct W {
  pub ctx: Context,
  pub g: Graph<N>,
  pub m: Vec<MN>,
}
pub fn find(m: &[MN], id: usize) -> Option<usize> {
  m.iter().position(|x| x.id == id)
}

/// a transaction together with its model
pub struct Tx {
  pub t: Transaction<'static, N>,
  pub red: Vec<(usize, usize)>,
  pub red_all: Vec<(usize, usize)>,
  pub pend: Vec<MN>,
  pub alloc: Vec<usize>,
  pub muts: Vec<(usize, Edit)>,
  pub upds: Vec<(usize, Edit)>,
  pub rem: Vec<usize>,
}
impl Tx {
  pub fn new(ctx: &Context) -> Tx {
    Tx { t: Transaction::new(ctx), red: vec![], red_all: vec![], pend: vec![], alloc: vec![], muts: vec![], upds: vec![], rem: vec![] }
  }
  pub fn insert(&mut self, mut m: MN) -> usize {
    let id = self.t.insert(real(&m)).0;
    m.id = id;
    self.pend.push(m);
    id
  }
  pub fn alloc(&mut self, ty: u8) -> usize {
    let i = match ty {
      0 => alloc_node!(self.t, N::A),
      1 => alloc_node!(self.t, N::B),
      2 => alloc_node!(self.t, N::C),
      _ => self.t.alloc_untyped(),
    }
    .0;
    self.alloc.push(i);
    i
  }
  pub fn fill(&mut self, id: usize, mut m: MN) {
    self.t.fill_back(NodeIndex(id), real(&m));
    m.id = id;
    self.alloc.retain(|x| *x != id);
    self.pend.push(m);
  }
  pub fn fill_untyped(&mut self, id: usize, mut m: MN) {
    self.t.fill_back_untyped(NodeIndex(id), real(&m));
    m.id = id;
    self.alloc.retain(|x| *x != id);
    self.pend.push(m);
  }
  pub fn remove(&mut self, id: usize) {
    self.t.remove(NodeIndex(id));
    if let Some(k) = find(&self.pend, id) {
      self.pend.remove(k);
    } else if self.alloc.contains(&id) {
      self.alloc.retain(|x| *x != id);
    } else if !self.rem.contains(&id) {
      self.rem.push(id);
    }
  }
  pub fn mutate(&mut self, id: usize, e: Edit) {
    self.t.mutate(NodeIndex(id), move |n| edit_real(n, e));
    match find(&self.pend, id) {
      Some(k) => edit_model(&mut self.pend[k], e),
      None => self.muts.push((id, e)),
    }
  }
  pub fn update(&mut self, id: usize, e: Edit) {
    self.t.update(NodeIndex(id), move |mut n| {
      edit_real(&mut n, e);
      n
    });
    match find(&self.pend, id) {
      Some(k) => edit_model(&mut self.pend[k], e),
      None => self.upds.push((id, e)),
    }
  }
  pub fn redirect(&mut self, a: usize, b: usize) {
    self.t.redirect_links(NodeIndex(a), NodeIndex(b));
    self.red.push((a, b));
  }
  pub fn redirect_all(&mut self, a: usize, b: usize) {
    self.t.redirect_all_links(NodeIndex(a), NodeIndex(b));
    self.red_all.push((a, b));
  }
}

/// end of the redirection chain of x; None for a loop
pub fn chain(red: &[(usize, usize)], x: usize) -> Option<usize> {
  let mut c = x;
  let mut n = 0;
  'o: loop {
    for (a, b) in red {
      if *a == c {
        c = *b;
        n += 1;
        if n > red.len() {
          return None;
        }
        continue 'o;
      }
    }
    return Some(c);
  }
}
/// move the links of all nodes along the redirections; false: loop
pub fn redirect_model(m: &mut [MN], red: &[(usize, usize)]) -> bool {
  if red.is_empty() {
    return true;
  }
  for (a, _) in red {
    if chain(red, *a).is_none() {
      return false;
    }
  }
  for n in m.iter_mut() {
    for f in 0..4 {
      let k = kind(n.ty, f);
      for x in n.f[f].iter_mut() {
        if *x != 0 {
          *x = chain(red, *x).unwrap();
        }
      }
      if k == K::S {
        n.f[f] = set(&n.f[f]);
      }
    }
  }
  true
}
pub fn unlink_model(m: &mut [MN], id: usize) {
  for n in m.iter_mut() {
    for f in 0..4 {
      match kind(n.ty, f) {
        K::S => n.f[f].retain(|x| *x != id),
        _ => {
          for x in n.f[f].iter_mut() {
            if *x == id {
              *x = 0
            }
          }
        },
      }
    }
  }
}

impl W {
  pub fn new() -> W {
    let ctx = Context::new();
    let g = Graph::new(&ctx);
    W { ctx, g, m: vec![] }
  }
  pub fn tx(&self) -> Tx {
    Tx::new(&self.ctx)
  }
  /// the documented meaning of a commit; false: it has to panic
  pub fn model(&mut self, t: &Tx) -> bool {
    if !t.alloc.is_empty() {
      return false;
    }
    // redirections of nodes that do not exist are not considered
    for (a, _) in &t.red {
      assume(find(&self.m, *a).is_some());
    }
    if !redirect_model(&mut self.m, &t.red) {
      return false;
    }
    for p in &t.pend {
      self.m.push(p.clone());
    }
    for l in [&t.muts, &t.upds] {
      for (id, e) in l.iter() {
        // edits that link to a node that does not exist are not considered
        let to = match *e {
          Edit::Dir(_, t) | Edit::Ins(_, t) | Edit::Push(_, t) | Edit::At(_, _, t) | Edit::Become(_, t, _) => t,
          _ => 0,
        };
        assume(to == 0 || find(&self.m, to).is_some());
        match find(&self.m, *id) {
          Some(k) => edit_model(&mut self.m[k], *e),
          None => return false,
        }
      }
    }
    for (a, _) in &t.red_all {
      assume(find(&self.m, *a).is_some());
    }
    if !redirect_model(&mut self.m, &t.red_all) {
      return false;
    }
    for id in &t.rem {
      match find(&self.m, *id) {
        Some(k) => {
          self.m.remove(k);
          unlink_model(&mut self.m, *id);
        },
        None => return false,
      }
    }
    true
  }
  /// commit, compare with the model; false: panicked (as it had to)
  pub fn commit(&mut self, t: Tx, id: u32) -> bool {
    let ok = self.model(&t);
    let g = &mut self.g;
    let tt = t.t;
    let p = catch(move || g.commit(tt));
    check(p != ok, id + 1);
    if p {
      return false;
    }
    same(&self.g, &self.m, id);
    true
  }
  /// commit that is known not to panic, without comparison (set-up steps)
  pub fn setup(&mut self, t: Tx) {
    let ok = self.model(&t);
    assume(ok);
    self.g.commit(t.t);
  }
  /// later transactions reach every link: move all links to fresh nodes
  pub fn flush_redirect(&mut self, id: u32) {
    let ids: Vec<usize> = self.m.iter().map(|x| x.id).collect();
    let mut t = self.tx();
    let fresh: Vec<usize> = ids.iter().map(|x| t.insert(mc(&[], *x as u64))).collect();
    for k in 0..ids.len() {
      t.redirect(ids[k], fresh[k]);
    }
    self.commit(t, id);
  }
  /// later transactions reach every link: remove all targets, leaving their owners
  pub fn flush_remove(&mut self, id: u32) {
    // the odd ones first, then the rest
    let ids: Vec<usize> = self.m.iter().map(|x| x.id).collect();
    for r in 0..2 {
      let mut t = self.tx();
      for k in 0..ids.len() {
        if k % 2 == r {
          t.remove(ids[k]);
        }
      }
      self.commit(t, id + 10 * r as u32);
    }
  }
}

pub fn eq_node(n: &N, m: &MN, id: u32) {
  let dir = |x: &NodeIndex, k: usize| check(x.0 == m.f[k][0], id + 6);
  let vecl = |v: &Vec<NodeIndex>, k: usize| {
    check(v.len() == m.f[k].len(), id + 8);
    for i in 0..v.len() {
      check(v[i].0 == m.f[k][i], id + 8);
    }
  };
  match n {
    N::A(a) => {
      check(m.ty == 0, id + 4);
      check(a.data == m.data, id + 5);
      dir(&a.d, 0);
      dir(&a.e, 1);
      check(a.s.len() == m.f[2].len(), id + 7);
      for x in &m.f[2] {
        check(a.s.contains(&NodeIndex(*x)), id + 7);
      }
      vecl(&a.v, 3);
    },
    N::B(b) => {
      check(m.ty == 1, id + 4);
      check(b.data == m.data, id + 5);
      dir(&b.p, 0);
      check(b.h.len() == m.f[1].len(), id + 7);
      for x in &m.f[1] {
        check(b.h.contains(&NodeIndex(*x)), id + 7);
      }
      check(b.o.len() == m.f[2].len(), id + 7);
      for x in &m.f[2] {
        check(b.o.contains(&NodeIndex(*x)), id + 7);
      }
      check(b.i.len() == m.f[3].len(), id + 7);
      for x in &m.f[3] {
        check(b.i.contains(&NodeIndex(*x)), id + 7);
      }
    },
    N::C(c) => {
      check(m.ty == 2, id + 4);
      check(c.data == m.data, id + 5);
      vecl(&c.w, 0);
    },
  }
}
/// the graph holds exactly the nodes of the model
pub fn same(g: &Graph<N>, m: &[MN], id: u32) {
  check(g.len() == m.len(), id + 2);
  for x in m {
    match g.get(NodeIndex(x.id)) {
      None => check(false, id + 3),
      Some(n) => eq_node(n, x, id),
    }
  }
}

/// [empty, ids of the committed nodes...]
pub fn targets(w: &W) -> Vec<usize> {
  let mut v = vec![0];
  for x in &w.m {
    v.push(x.id)
  }
  v
}
/// k allocated ids in a transaction: a, b, c, a, b, c, ...
pub fn alloc_abc(t: &mut Tx, n: usize) -> Vec<usize> {
  (0..n).map(|k| t.alloc((k % 3) as u8)).collect()
}

/// a smaller choice of edits
pub fn few_edits(ty: u8, ts: &[usize]) -> Edit {
  let n = ts.len() - 1;
  match ty {
    0 => match range(0, 3) {
      0 => Edit::Dir(0, pick(ts)),
      1 => Edit::At(3, 0, ts[n]),
      2 => Edit::Ins(2, ts[1]),
      _ => Edit::Del(2, ts[2]),
    },
    1 => match range(0, 3) {
      0 => Edit::Dir(0, pick(&ts[..2])),
      1 => Edit::Ins(1, ts[n]),
      2 => Edit::Del(2, ts[3]),
      _ => Edit::Ins(3, ts[2]),
    },
    _ => match range(0, 1) {
      0 => Edit::Push(0, ts[n]),
      _ => Edit::At(0, 0, pick(&ts[1..3])),
    },
  }
}
/// one operation of any kind with symbolic operands.
/// `ex`: committed nodes (with types), `all`: [empty, committed.., pending..]
pub fn any_op(t: &mut Tx, ex: &[(usize, u8)], all: &[usize], pend: &[(usize, u8)], few: bool) {
  let any_edit = |ty: u8, ts: &[usize]| if few { few_edits(ty, ts) } else { any_edit(ty, ts) };
  let ids: Vec<usize> = ex.iter().map(|x| x.0).collect();
  match range(0, 5) {
    0 => {
      let a = pick(&ids);
      assume(t.red.iter().all(|x| x.0 != a));
      t.redirect(a, pick(all));
    },
    1 => {
      let a = pick(&all[1..]);
      assume(t.red_all.iter().all(|x| x.0 != a));
      t.redirect_all(a, pick(all));
    },
    2 => t.remove(pick(&ids)),
    3 => {
      let k = range(0, (ex.len() + pend.len()) as u64 - 1) as usize;
      for (i, (id, ty)) in ex.iter().chain(pend.iter()).enumerate() {
        if i == k {
          t.mutate(*id, any_edit(*ty, all));
        }
      }
    },
    4 => {
      let k = range(0, (ex.len() + pend.len()) as u64 - 1) as usize;
      for (i, (id, ty)) in ex.iter().chain(pend.iter()).enumerate() {
        if i == k {
          t.update(*id, any_edit(*ty, all));
        }
      }
    },
    _ => {
      let l = pick(all);
      match range(0, 2) {
        0 => t.insert(ma(l, 0, &[], &[0, l], any())),
        1 => t.insert(mb(0, &[l], &[l], &[l], any())),
        _ => t.insert(mc(&[l, l], any())),
      };
    },
  }
}
/// three committed nodes of the three types with links of every kind
pub fn dense3(w: &mut W) -> Vec<(usize, u8)> {
  let mut t = w.tx();
  let n = alloc_abc(&mut t, 3);
  t.fill(n[0], ma(n[1], n[0], &[n[1], n[2]], &[n[2], 0, n[1]], any()));
  t.fill(n[1], mb(n[2], &[n[0], n[1]], &[n[2], n[0]], &[n[1], n[2]], any()));
  t.fill(n[2], mc(&[n[0], n[1], n[0], n[2]], any()));
  w.setup(t);
  vec![(n[0], 0), (n[1], 1), (n[2], 2)]
}
/// a hub and n nodes linking to it (and to their predecessor) through links of all kinds in turn
pub fn star(w: &mut W, n: usize) -> (usize, Vec<usize>) {
  let mut t = w.tx();
  let hub = t.insert(mc(&[], 7));
  let mut prev = hub;
  let mut v = vec![];
  for k in 0..n {
    let m = match k % 8 {
      0 => ma(hub, 0, &[], &[prev], k as u64),
      1 => ma(prev, hub, &[], &[], k as u64),
      2 => ma(0, 0, &[hub, prev], &[], k as u64),
      3 => ma(0, 0, &[prev], &[0, hub, prev, hub], k as u64),
      4 => mb(hub, &[prev], &[], &[], k as u64),
      5 => mb(0, &[hub, prev], &[prev], &[], k as u64),
      6 => mb(prev, &[], &[hub, prev], &[prev, hub], k as u64),
      _ => mc(&[hub, prev, 0, hub], k as u64),
    };
    prev = t.insert(m);
    v.push(prev);
  }
  w.setup(t);
  (hub, v)
}
/// a size out of a range that crosses the usual growth thresholds
pub fn any_size() -> usize {
  conc(pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 33]))
}
/// a node of type ty linking to l
pub fn any_node(ty: u8, l: usize) -> MN {
  match ty {
    0 => ma(l, 0, &[l], &[0, l], any()),
    1 => mb(l, &[l], &[l], &[l], any()),
    _ => mc(&[l], any()),
  }
}
