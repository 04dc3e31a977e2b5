//! Schema with declared link types: single types, several, node groups, link groups, overlapping
//! declarations, and a bidirectional pair whose counterpart is typed.
use crate::accessors;
use crate::bd::{counterparts, Decl};
use crate::gen::*;
use crate::rt::*;
use ::ordermap::OrderSet;
use std::collections::{BTreeSet, HashSet};
use ttgraph::*;

#[derive(TypedNode, Clone, Debug, Default)]
pub struct LA {
  pub d: NodeIndex,
  pub s: BTreeSet<NodeIndex>,
  pub v: Vec<NodeIndex>,
  #[group(lk)]
  pub e: NodeIndex,
  #[group(lk)]
  pub u: HashSet<NodeIndex>,
  pub p: NodeIndex,
  pub free: NodeIndex,
  pub data: u64,
}
#[derive(TypedNode, Clone, Debug, Default)]
pub struct LB {
  #[group(lk)]
  pub e: NodeIndex,
  pub h: HashSet<NodeIndex>,
  pub q: BTreeSet<NodeIndex>,
  pub free: Vec<NodeIndex>,
  pub data: u64,
}
#[derive(TypedNode, Clone, Debug, Default)]
pub struct LC {
  pub w: Vec<NodeIndex>,
  #[group(lm)]
  pub x: OrderSet<NodeIndex>,
  pub q: BTreeSet<NodeIndex>,
  pub free: BTreeSet<NodeIndex>,
  pub data: u64,
}
node_enum! {
  #[derive(Clone, Debug)]
  pub enum LN {
    A(LA),
    B(LB),
    C(LC),
  }
  group! {
    ab{A, B},
    bc{B, C},
  }
  bidirectional! {
    A.p <-> bc.q,
  }
  link_type! {
    A.d: B,
    A.s: {B, C},
    A.v: A,
    ab.lk: bc,
    B.h: {ab},
    C.w: {ab, C},
    C.x: {A, B},
    C.lm: bc,
    C.q: B,
    bc.q: {A, B},
  }
}
const DECL: &[Decl] = &[(0, &[5], 1, &[2]), (0, &[5], 2, &[2])];
/// types a link may lead to
pub fn allowed(ty: u8, f: usize) -> &'static [u8] {
  match (ty, f) {
    (0, 0) => &[1],
    (0, 1) => &[1, 2],
    (0, 2) => &[0],
    (0, 3) | (0, 4) | (1, 0) => &[1, 2],
    (1, 1) => &[0, 1],
    (2, 1) => &[1],
    (1, 2) => &[0, 1],
    (2, 2) => &[1],
    _ => &[0, 1, 2],
  }
}
#[derive(Clone, Copy)]
pub struct Lt;
impl Schema for Lt {
  type Node = LN;
  accessors! { LN;
    A = 0 { 0 D d, 1 B s, 2 V v, 3 D e, 4 H u, 5 D p, 6 D free },
    B = 1 { 0 D e, 1 H h, 2 B q, 3 V free },
    C = 2 { 0 V w, 1 O x, 2 B q, 3 B free },
  }
  fn post(pre: &[MN], m: &mut Vec<MN>) -> bool {
    if !counterparts::<Lt>(DECL, pre, m) {
      return false;
    }
    !cfg!(feature = "dbg") || typed(m)
  }
}
pub fn typed(m: &[MN]) -> bool {
  for n in m.iter() {
    for f in 0..n.f.len() {
      for x in &n.f[f] {
        if let Some(k) = find(m, *x) {
          if !allowed(n.ty, f).contains(&m[k].ty) {
            return false;
          }
        }
      }
    }
  }
  true
}
pub type LW = W<Lt>;
pub type LT = Tx<Lt>;
