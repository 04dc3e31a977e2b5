//! Schema with bidirectional declarations between a variant or a group and a group that contains
//! it.
use crate::accessors;
use crate::bd::*;
use crate::gen::*;
use crate::rt::*;
use ::indexmap::IndexSet;
use ::ordermap::OrderSet;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashSet};
use ttgraph::*;

#[derive(TypedNode, Serialize, Deserialize, Clone, Debug, Default)]
pub struct ANode {
  pub boss: NodeIndex,
  pub staff: BTreeSet<NodeIndex>,
  pub mates: HashSet<NodeIndex>,
  pub left: NodeIndex,
  pub right: NodeIndex,
  #[group(gl)]
  pub g1: NodeIndex,
  #[group(gl)]
  pub g2: IndexSet<NodeIndex>,
  pub data: u64,
}
#[derive(TypedNode, Serialize, Deserialize, Clone, Debug, Default)]
pub struct BNode {
  pub staff: OrderSet<NodeIndex>,
  pub mates: IndexSet<NodeIndex>,
  pub left: NodeIndex,
  pub right: NodeIndex,
  #[group(gl)]
  pub g: NodeIndex,
  pub data: u64,
}
#[derive(TypedNode, Serialize, Deserialize, Clone, Debug, Default)]
pub struct CNode {
  pub back: BTreeSet<NodeIndex>,
  pub data: u64,
}
node_enum! {
  #[derive(Serialize, Deserialize, Clone, Debug)]
  pub enum ON {
    A(ANode),
    B(BNode),
    C(CNode),
  }
  group! {
    any{A, B},
    all{A, B, C},
  }
  bidirectional! {
    A.boss <-> any.staff,
    any.mates <-> any.mates,
    any.left <-> any.right,
    any.gl <-> C.back,
  }
}
#[derive(Clone, Copy)]
pub struct Own;
impl Pairs for Own {
  fn decl() -> &'static [Decl] {
    &[
      (0, &[0], 0, &[1]),
      (0, &[0], 1, &[0]),
      (0, &[2], 0, &[2]),
      (0, &[2], 1, &[1]),
      (1, &[1], 1, &[1]),
      (0, &[3], 0, &[4]),
      (0, &[3], 1, &[3]),
      (1, &[2], 0, &[4]),
      (1, &[2], 1, &[3]),
      (0, &[5, 6], 2, &[0]),
      (1, &[4], 2, &[0]),
    ]
  }
}
impl Schema for Own {
  type Node = ON;
  accessors! { ON;
    A = 0 { 0 D boss, 1 B staff, 2 H mates, 3 D left, 4 D right, 5 D g1, 6 I g2 },
    B = 1 { 0 O staff, 1 I mates, 2 D left, 3 D right, 4 D g },
    C = 2 { 0 B back },
  }
  fn post(pre: &[MN], m: &mut Vec<MN>) -> bool {
    counterparts::<Own>(Own::decl(), pre, m)
  }
}
pub const STAFF: Part = Part { types: &[0, 0, 1], fields: &[(0, 0), (0, 1), (1, 0)], written: false };
pub const MATES: Part = Part { types: &[0, 1, 1], fields: &[(0, 2), (1, 1)], written: false };
pub const CHAIN: Part = Part { types: &[0, 0, 1], fields: &[(0, 3), (0, 4), (1, 2), (1, 3)], written: false };
pub const BACK: Part = Part { types: &[2, 2, 0, 1], fields: &[(2, 0), (0, 5), (0, 6), (1, 4)], written: false };
