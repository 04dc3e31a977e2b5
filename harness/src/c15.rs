//! Reflection reports exactly what a node contains.
use crate::rt::*;
use ::indexmap::IndexSet;
use ::ordermap::OrderSet;
use std::collections::{BTreeSet, HashSet};
use ttgraph::*;

#[derive(TypedNode, Clone, Debug, Default)]
pub struct RA {
  #[group(g1, g2)]
  pub d: NodeIndex,
  pub x: u64,
  #[group(g1)]
  pub s: BTreeSet<NodeIndex>,
  #[group(g2)]
  pub vec_link: Vec<NodeIndex>,
  pub h: HashSet<NodeIndex>,
  pub y: Option<u32>,
  #[group(g3)]
  #[group(g1)]
  pub o: OrderSet<NodeIndex>,
  #[group(g3)]
  pub i: IndexSet<NodeIndex>,
  pub t: (u8, u32),
  pub e: NodeIndex,
  pub list: Vec<u64>,
}
#[derive(TypedNode, Clone, Debug, Default)]
#[phantom_group(ph)]
pub struct RB {
  pub x: u32,
  pub d: Vec<NodeIndex>,
  #[group(g1)]
  pub s: ttgraph::NodeIndex,
  #[group(g1)]
  pub long_link_name: std::collections::BTreeSet<ttgraph::NodeIndex>,
}
#[derive(TypedNode, Clone, Debug, Default)]
pub struct RC {
  pub x: u64,
  pub b: bool,
}
#[derive(TypedNode, Clone, Debug, Default)]
pub struct RD {}
node_enum! {
  #[derive(Clone, Debug)]
  pub enum RN {
    A(RA),
    B(RB),
    C(RC),
    D(RD),
  }
  group! {
    first{A, B},
    last{C, D},
    g1{B, C, D},
  }
  bidirectional! {
    A.g3 <-> B.g1,
  }
}
type LM = <RN as NodeEnum>::LinkMirrorEnum;
type SE = <RN as NodeEnum>::SourceEnum;
type LG = <RN as NodeEnum>::LoGMirrorEnum;
type AM = <RA as TypedNode>::LinkMirror;
type BM = <RB as TypedNode>::LinkMirror;
type AS = <RA as TypedNode>::Source;
type BS = <RB as TypedNode>::Source;
type AL = <RA as TypedNode>::LoGMirror;
type BL = <RB as TypedNode>::LoGMirror;
type CL = <RC as TypedNode>::LoGMirror;

const NAMES: [&str; 26] = [
  "d", "s", "vec_link", "h", "o", "i", "e", "x", "y", "t", "list", "long_link_name", "b", "g1", "g2", "g3", "ph", "first", "RA", "D", "",
  "VecLink", "vec_lin", "vec_link_", "last", "empty",
];
fn name() -> &'static str {
  NAMES[conc(range(0, NAMES.len() as u64 - 1) as usize)]
}
fn val() -> usize {
  any() as usize
}
/// content of a node as lists of targets
struct M {
  d: usize,
  s: Vec<usize>,
  v: Vec<usize>,
  h: Vec<usize>,
  o: Vec<usize>,
  i: Vec<usize>,
  e: usize,
}
/// n distinct targets of set k; those of set `sym` are any values
fn dist(n: usize, k: usize, sym: usize) -> Vec<usize> {
  if k != sym {
    return (0..n).map(|x| 10 * k + x + 1).collect();
  }
  let v: Vec<usize> = (0..n).map(|_| val()).collect();
  for k in 0..n {
    assume(v[k] != 0);
    for j in 0..k {
      assume(v[k] != v[j]);
    }
  }
  v
}
fn len() -> usize {
  conc(range(0, 2) as usize)
}
fn node_a() -> (RN, M) {
  let (a, b, y) = (len(), len(), conc(range(0, 3) as usize));
  let m = M { d: val(), s: dist(b, 0, y), v: (0..conc(range(0, 2) as usize)).map(|_| val()).collect(), h: dist(a, 1, y), o: dist(a, 2, y), i: dist(b, 3, y), e: val() };
  let n = |x: &usize| NodeIndex(*x);
  let r = RA {
    d: ix(m.d),
    x: 5,
    s: m.s.iter().map(n).collect(),
    vec_link: m.v.iter().map(n).collect(),
    h: m.h.iter().map(n).collect(),
    y: Some(6),
    o: m.o.iter().map(n).collect(),
    i: m.i.iter().map(n).collect(),
    t: (7, 8),
    e: ix(m.e),
    list: vec![9],
  };
  (RN::A(r), m)
}
fn one(x: usize) -> Vec<usize> {
  if x == 0 {
    vec![]
  } else {
    vec![x]
  }
}
fn dense(v: &[usize]) -> Vec<usize> {
  v.iter().copied().filter(|x| *x != 0).collect()
}
/// the same values, with the same multiplicity
fn equal(got: &[NodeIndex], want: &[usize], id: u32) {
  check(got.len() == want.len(), id);
  for w in want {
    let a = got.iter().filter(|x| x.0 == *w).count();
    let b = want.iter().filter(|x| *x == w).count();
    check(a == b, id);
  }
}
fn ordered(got: &[NodeIndex], want: &[usize], id: u32) {
  check(got.len() == want.len(), id);
  for k in 0..want.len() {
    check(got[k].0 == want[k], id);
  }
}
/// links by name, for every name and any content
pub fn c15_by_name() {
  let (n, m) = node_a();
  let q = name();
  let got: Vec<NodeIndex> = n.get_links_by_name(q).collect();
  match q {
    "d" => ordered(&got, &one(m.d), 1),
    "s" => equal(&got, &m.s, 2),
    "vec_link" => ordered(&got, &dense(&m.v), 3),
    "h" => equal(&got, &m.h, 4),
    "o" => equal(&got, &m.o, 5),
    "i" => equal(&got, &m.i, 6),
    "e" => ordered(&got, &one(m.e), 7),
    _ => {
      check(got.is_empty(), 8);
      reach(2);
    },
  }
  reach(1);
}
/// links by reflection
pub fn c15_by_link() {
  let (n, m) = node_a();
  let it = |l: AM| -> Vec<NodeIndex> { n.iter_links(LM::A(l)).collect() };
  ordered(&it(AM::D), &one(m.d), 1);
  equal(&it(AM::S), &m.s, 2);
  ordered(&it(AM::VecLink), &dense(&m.v), 3);
  equal(&it(AM::H), &m.h, 4);
  equal(&it(AM::O), &m.o, 5);
  equal(&it(AM::I), &m.i, 6);
  ordered(&it(AM::E), &one(m.e), 7);
  reach(1);
}
/// links by group
pub fn c15_by_group() {
  let (n, m) = node_a();
  let q = ["g1", "g2", "g3", "d", "first", "g", ""][conc(range(0, 6) as usize)];
  let got = n.get_links_by_group(q);
  let mut want = vec![];
  match q {
    "g1" => {
      want.extend(one(m.d));
      want.extend(&m.s);
      want.extend(&m.o);
    },
    "g2" => {
      want.extend(one(m.d));
      want.extend(dense(&m.v));
    },
    "g3" => {
      want.extend(&m.o);
      want.extend(&m.i);
    },
    _ => reach(2),
  }
  equal(&got, &want, 1);
  reach(1);
}
/// the overall enumeration
pub fn c15_sources() {
  let (n, m) = node_a();
  let got: Vec<(NodeIndex, SE)> = n.iter_sources().collect();
  let of = |s: AS| -> Vec<NodeIndex> { got.iter().filter(|x| x.1 == SE::A(s)).map(|x| x.0).collect() };
  ordered(&of(AS::D), &one(m.d), 1);
  equal(&of(AS::S), &m.s, 2);
  let mut cnt = one(m.d).len() + m.s.len() + m.h.len() + m.o.len() + m.i.len() + one(m.e).len();
  for k in 0..m.v.len() {
    ordered(&of(AS::VecLink(k)), &one(m.v[k]), 5);
    cnt += one(m.v[k]).len();
  }
  equal(&of(AS::H), &m.h, 2);
  equal(&of(AS::O), &m.o, 2);
  equal(&of(AS::I), &m.i, 2);
  ordered(&of(AS::E), &one(m.e), 1);
  check(got.len() == cnt, 6);
  for (x, s) in &got {
    let l = RN::to_link_mirror_enum(*s);
    check(n.check_link(l), 3);
    check(n.contains_link(l, *x), 4);
  }
  reach(1);
}
/// the other types: names shared between types with other kinds
pub fn c15_other_types() {
  let v: Vec<usize> = (0..conc(range(0, 3) as usize)).map(|_| val()).collect();
  let s = val();
  let l = dist(len(), 0, 0);
  let n = |x: &usize| NodeIndex(*x);
  let b = RN::B(RB { x: 3, d: v.iter().map(n).collect(), s: ix(s), long_link_name: l.iter().map(n).collect() });
  let c = RN::C(RC { x: any(), b: flag() });
  let d = RN::D(RD {});
  let q = name();
  let get = |n: &RN| -> Vec<NodeIndex> { n.get_links_by_name(q).collect() };
  match q {
    "d" => ordered(&get(&b), &dense(&v), 1),
    "s" => ordered(&get(&b), &one(s), 2),
    "long_link_name" => equal(&get(&b), &l, 3),
    _ => check(get(&b).is_empty(), 4),
  }
  check(get(&c).is_empty() && get(&d).is_empty(), 5);
  let mut want = vec![];
  if q == "g1" {
    want.extend(one(s));
    want.extend(&l);
  }
  equal(&b.get_links_by_group(q), &want, 6);
  check(c.get_links_by_group(q).is_empty() && d.get_links_by_group(q).is_empty(), 7);
  // enumeration
  let got: Vec<(NodeIndex, SE)> = b.iter_sources().collect();
  let mut cnt = 0;
  for k in 0..v.len() {
    if v[k] != 0 {
      cnt += 1;
      check(got.contains(&(ix(v[k]), SE::B(BS::D(k)))), 8);
    }
  }
  if s != 0 {
    cnt += 1;
    check(got.contains(&(ix(s), SE::B(BS::S))), 8);
  }
  for x in &l {
    cnt += 1;
    check(got.contains(&(ix(*x), SE::B(BS::LongLinkName))), 8);
  }
  check(got.len() == cnt, 9);
  check(c.iter_sources().count() == 0 && d.iter_sources().count() == 0, 10);
  // groups of node types
  let g = |n: &RN| n.in_group(q);
  let want = match q {
    "first" => [true, true, false, false],
    "last" => [false, false, true, true],
    "g1" => [false, true, true, true],
    _ => [false; 4],
  };
  let a = RN::A(RA::default());
  check([g(&a), g(&b), g(&c), g(&d)] == want, 11);
  reach(1);
}
/// data by name and type
pub fn c15_data() {
  let x = any();
  let y = if flag() { Some(any() as u32) } else { None };
  let t = (any() as u8, any() as u32);
  let list: Vec<u64> = (0..conc(range(0, 2) as usize)).map(|_| any()).collect();
  let d = val();
  let a = RN::A(RA { x, y, t, list: list.clone(), d: ix(d), ..Default::default() });
  let q = name();
  let is = |n: &str| q == n;
  check(a.data_ref_by_name::<u64>(q).copied() == if is("x") { Some(x) } else { None }, 1);
  check(a.data_ref_by_name::<Option<u32>>(q).copied() == if is("y") { Some(y) } else { None }, 2);
  check(a.data_ref_by_name::<(u8, u32)>(q).copied() == if is("t") { Some(t) } else { None }, 3);
  check(a.data_ref_by_name::<u32>(q).is_none(), 4);
  match a.data_ref_by_name::<Vec<u64>>(q) {
    Some(v) => {
      check(is("list"), 5);
      check(*v == list, 5);
    },
    None => check(!is("list"), 5),
  }
  // links are not data
  check(a.data_ref_by_name::<NodeIndex>(q).is_none(), 6);
  check(a.data_ref_by_name::<Vec<NodeIndex>>(q).is_none(), 6);
  check(a.data_ref_by_name::<BTreeSet<NodeIndex>>(q).is_none(), 6);
  let bx = any() as u32;
  let b = RN::B(RB { x: bx, ..Default::default() });
  check(b.data_ref_by_name::<u32>(q).copied() == if is("x") { Some(bx) } else { None }, 7);
  check(b.data_ref_by_name::<u64>(q).is_none(), 8);
  let f = flag();
  let c = RN::C(RC { x, b: f });
  check(c.data_ref_by_name::<u64>(q).copied() == if is("x") { Some(x) } else { None }, 9);
  check(c.data_ref_by_name::<bool>(q).copied() == if is("b") { Some(f) } else { None }, 10);
  check(RN::D(RD {}).data_ref_by_name::<u64>(q).is_none(), 11);
  reach(1);
}
fn same_names(a: &[&str], b: &[&str], id: u32) {
  check(a.len() == b.len(), id);
  for k in 0..b.len() {
    check(a[k] == b[k], id);
  }
}
/// static tables and conversions
pub fn c15_tables() {
  same_names(RA::link_names(), &["d", "s", "vec_link", "h", "o", "i", "e"], 1);
  same_names(RB::link_names(), &["d", "s", "long_link_name"], 2);
  same_names(RC::link_names(), &[], 3);
  same_names(RD::link_names(), &[], 3);
  same_names(RA::data_names(), &["x", "y", "t", "list"], 4);
  same_names(RB::data_names(), &["x"], 5);
  same_names(RC::data_names(), &["x", "b"], 6);
  same_names(RD::data_names(), &[], 6);
  use LinkType::*;
  check(RA::link_types() == [Point, Set, Vec, Set, Set, Set, Point], 7);
  check(RB::link_types() == [Vec, Point, Set], 8);
  check(RC::link_types().is_empty() && RD::link_types().is_empty(), 9);
  check(RA::link_mirrors() == [AM::D, AM::S, AM::VecLink, AM::H, AM::O, AM::I, AM::E], 10);
  check(RB::link_mirrors() == [BM::D, BM::S, BM::LongLinkName], 11);
  check(RC::link_mirrors().is_empty() && RD::link_mirrors().is_empty(), 12);
  // link and source reflections correspond
  for (l, s) in [(AM::D, AS::D), (AM::S, AS::S), (AM::H, AS::H), (AM::O, AS::O), (AM::I, AS::I), (AM::E, AS::E)] {
    check(RA::to_source(l) == s && RA::to_link_mirror(s) == l, 13);
    check(RN::to_source_enum(LM::A(l)) == SE::A(s) && RN::to_link_mirror_enum(SE::A(s)) == LM::A(l), 14);
  }
  let k = any() as usize;
  check(RA::to_link_mirror(AS::VecLink(k)) == AM::VecLink && RB::to_link_mirror(BS::D(k)) == BM::D, 15);
  check(RN::to_link_mirror_enum(SE::B(BS::D(k))) == LM::B(BM::D), 15);
  // groups of links
  let groups = |l: AM| RA::to_link_or_groups(l);
  let has = |l: AM, g: &[AL]| {
    check(groups(l).len() == g.len(), 16);
    for x in g {
      check(groups(l).contains(x), 16);
      check(RN::to_log_mirror_enums(LM::A(l)).contains(&LG::A(*x)), 17);
      check(RN::expand_link_groups(LG::A(*x)).contains(&LM::A(l)), 18);
    }
    check(RN::to_log_mirror_enums(LM::A(l)).len() == g.len(), 17);
  };
  has(AM::D, &[AL::D, AL::G1, AL::G2]);
  has(AM::S, &[AL::S, AL::G1]);
  has(AM::VecLink, &[AL::VecLink, AL::G2]);
  has(AM::H, &[AL::H]);
  has(AM::O, &[AL::O, AL::G3, AL::G1]);
  has(AM::I, &[AL::I, AL::G3]);
  has(AM::E, &[AL::E]);
  for (g, n) in [(AL::G1, 3), (AL::G2, 2), (AL::G3, 2), (AL::D, 1), (AL::VecLink, 1), (AL::E, 1)] {
    check(RN::expand_link_groups(LG::A(g)).len() == n, 19);
  }
  check(RN::expand_link_groups(LG::B(BL::G1)) == [LM::B(BM::S), LM::B(BM::LongLinkName)], 19);
  check(RN::expand_link_groups(LG::B(BL::Ph)).is_empty(), 19);
  // by name
  let q = name();
  let want = match q {
    "d" => Some(AL::D),
    "s" => Some(AL::S),
    "vec_link" => Some(AL::VecLink),
    "h" => Some(AL::H),
    "o" => Some(AL::O),
    "i" => Some(AL::I),
    "e" => Some(AL::E),
    "g1" => Some(AL::G1),
    "g2" => Some(AL::G2),
    "g3" => Some(AL::G3),
    _ => None,
  };
  check(RA::get_link_or_group_by_name(q) == want, 20);
  let want = match q {
    "d" => Some(BL::D),
    "s" => Some(BL::S),
    "long_link_name" => Some(BL::LongLinkName),
    "g1" => Some(BL::G1),
    "ph" => Some(BL::Ph),
    _ => None,
  };
  check(RB::get_link_or_group_by_name(q) == want, 21);
  check(RC::get_link_or_group_by_name(q).is_none() && RD::get_link_or_group_by_name(q).is_none(), 22);
  reach(1);
}
/// counterparts of bidirectional links: what has to link back
pub fn c15_counterparts() {
  let (n, m) = node_a();
  let got = n.get_bidiretional_links();
  check(got.len() == 2, 1);
  let back = [LM::B(BM::S), LM::B(BM::LongLinkName)];
  for (ys, ls) in &got {
    check(ls.len() == 2 && ls.contains(&back[0]) && ls.contains(&back[1]), 2);
  }
  let mut all: Vec<NodeIndex> = vec![];
  for (ys, _) in &got {
    all.extend(ys);
  }
  let mut want = m.o.clone();
  want.extend(&m.i);
  equal(&all, &want, 3);
  for l in [AM::D, AM::S, AM::VecLink, AM::H, AM::O, AM::I, AM::E] {
    let b = n.get_bidiretional_link_mirrors_of(LM::A(l));
    if l == AM::O || l == AM::I {
      check(b.len() == 2 && b.contains(&back[0]) && b.contains(&back[1]), 4);
    } else {
      check(b.is_empty(), 5);
    }
  }
  let b = RN::B(RB::default());
  for l in [BM::S, BM::LongLinkName] {
    let x = n.get_bidiretional_link_mirrors_of(LM::B(l));
    check(x.len() == 2 && x.contains(&LM::A(AM::O)) && x.contains(&LM::A(AM::I)), 6);
  }
  check(b.get_bidiretional_link_mirrors_of(LM::B(BM::D)).is_empty(), 7);
  let x = b.match_bd_link_group(vec![LM::A(AM::O), LM::B(BM::D), LM::A(AM::I), LM::B(BM::S)]);
  check(x == [LM::B(BM::D), LM::B(BM::S)], 8);
  reach(1);
}
/// every accepted spelling of a link's type
pub mod spelled {
  use indexmap::IndexSet;
  use ordermap::OrderSet;
  use std::collections::{self, BTreeSet, HashSet};
  use std::vec;
  use ttgraph::{LinkType, NodeIndex, TypedNode};
  mod map {
    pub use indexmap::IndexSet;
    pub use ordermap::OrderSet;
  }
  mod tgraph {
    pub use ordermap;
  }
  #[derive(TypedNode, Clone, Debug, Default)]
  pub struct RS {
    pub f0: NodeIndex,
    pub f1: ::std::collections::HashSet<NodeIndex>,
    pub f2: std::collections::HashSet<NodeIndex>,
    pub f3: collections::HashSet<NodeIndex>,
    pub f4: HashSet<NodeIndex>,
    pub f5: ::std::collections::BTreeSet<NodeIndex>,
    pub f6: std::collections::BTreeSet<NodeIndex>,
    pub f7: collections::BTreeSet<NodeIndex>,
    pub f8: BTreeSet<NodeIndex>,
    pub f9: ::ordermap::set::OrderSet<NodeIndex>,
    pub f10: ::ordermap::OrderSet<NodeIndex>,
    pub f11: ordermap::set::OrderSet<NodeIndex>,
    pub f12: ordermap::OrderSet<NodeIndex>,
    pub f13: map::OrderSet<NodeIndex>,
    pub f14: tgraph::ordermap::OrderSet<NodeIndex>,
    pub f15: OrderSet<NodeIndex>,
    pub f16: ::indexmap::set::IndexSet<NodeIndex>,
    pub f17: ::indexmap::IndexSet<NodeIndex>,
    pub f18: indexmap::set::IndexSet<NodeIndex>,
    pub f19: indexmap::IndexSet<NodeIndex>,
    pub f20: map::IndexSet<NodeIndex>,
    pub f21: IndexSet<NodeIndex>,
    pub f22: std::vec::Vec<NodeIndex>,
    pub f23: vec::Vec<NodeIndex>,
    pub f24: Vec<NodeIndex>,
    pub f25: ttgraph::NodeIndex,
    pub f26: ::std::collections::HashSet<ttgraph::NodeIndex>,
    pub f27: std::collections::HashSet<ttgraph::NodeIndex>,
    pub f28: collections::HashSet<ttgraph::NodeIndex>,
    pub f29: HashSet<ttgraph::NodeIndex>,
    pub f30: ::std::collections::BTreeSet<ttgraph::NodeIndex>,
    pub f31: std::collections::BTreeSet<ttgraph::NodeIndex>,
    pub f32: collections::BTreeSet<ttgraph::NodeIndex>,
    pub f33: BTreeSet<ttgraph::NodeIndex>,
    pub f34: ::ordermap::set::OrderSet<ttgraph::NodeIndex>,
    pub f35: ::ordermap::OrderSet<ttgraph::NodeIndex>,
    pub f36: ordermap::set::OrderSet<ttgraph::NodeIndex>,
    pub f37: ordermap::OrderSet<ttgraph::NodeIndex>,
    pub f38: map::OrderSet<ttgraph::NodeIndex>,
    pub f39: tgraph::ordermap::OrderSet<ttgraph::NodeIndex>,
    pub f40: OrderSet<ttgraph::NodeIndex>,
    pub f41: ::indexmap::set::IndexSet<ttgraph::NodeIndex>,
    pub f42: ::indexmap::IndexSet<ttgraph::NodeIndex>,
    pub f43: indexmap::set::IndexSet<ttgraph::NodeIndex>,
    pub f44: indexmap::IndexSet<ttgraph::NodeIndex>,
    pub f45: map::IndexSet<ttgraph::NodeIndex>,
    pub f46: IndexSet<ttgraph::NodeIndex>,
    pub f47: std::vec::Vec<ttgraph::NodeIndex>,
    pub f48: vec::Vec<ttgraph::NodeIndex>,
    pub f49: Vec<ttgraph::NodeIndex>,
  }
  pub const N: usize = 50;
  pub fn build(f: impl Fn(usize) -> NodeIndex) -> RS {
    RS {
      f0: f(0),
      f1: [f(1)].into_iter().collect(),
      f2: [f(2)].into_iter().collect(),
      f3: [f(3)].into_iter().collect(),
      f4: [f(4)].into_iter().collect(),
      f5: [f(5)].into_iter().collect(),
      f6: [f(6)].into_iter().collect(),
      f7: [f(7)].into_iter().collect(),
      f8: [f(8)].into_iter().collect(),
      f9: [f(9)].into_iter().collect(),
      f10: [f(10)].into_iter().collect(),
      f11: [f(11)].into_iter().collect(),
      f12: [f(12)].into_iter().collect(),
      f13: [f(13)].into_iter().collect(),
      f14: [f(14)].into_iter().collect(),
      f15: [f(15)].into_iter().collect(),
      f16: [f(16)].into_iter().collect(),
      f17: [f(17)].into_iter().collect(),
      f18: [f(18)].into_iter().collect(),
      f19: [f(19)].into_iter().collect(),
      f20: [f(20)].into_iter().collect(),
      f21: [f(21)].into_iter().collect(),
      f22: vec![f(22)],
      f23: vec![f(23)],
      f24: vec![f(24)],
      f25: f(25),
      f26: [f(26)].into_iter().collect(),
      f27: [f(27)].into_iter().collect(),
      f28: [f(28)].into_iter().collect(),
      f29: [f(29)].into_iter().collect(),
      f30: [f(30)].into_iter().collect(),
      f31: [f(31)].into_iter().collect(),
      f32: [f(32)].into_iter().collect(),
      f33: [f(33)].into_iter().collect(),
      f34: [f(34)].into_iter().collect(),
      f35: [f(35)].into_iter().collect(),
      f36: [f(36)].into_iter().collect(),
      f37: [f(37)].into_iter().collect(),
      f38: [f(38)].into_iter().collect(),
      f39: [f(39)].into_iter().collect(),
      f40: [f(40)].into_iter().collect(),
      f41: [f(41)].into_iter().collect(),
      f42: [f(42)].into_iter().collect(),
      f43: [f(43)].into_iter().collect(),
      f44: [f(44)].into_iter().collect(),
      f45: [f(45)].into_iter().collect(),
      f46: [f(46)].into_iter().collect(),
      f47: vec![f(47)],
      f48: vec![f(48)],
      f49: vec![f(49)],
    }
  }
  pub const KINDS: [LinkType; N] = {
    use LinkType::*;
    [Point, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Vec, Vec, Vec, Point, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Set, Vec, Vec, Vec]
  };
  pub const NAMES: [&str; N] = ["f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "f10", "f11", "f12", "f13", "f14", "f15", "f16", "f17", "f18", "f19", "f20", "f21", "f22", "f23", "f24", "f25", "f26", "f27", "f28", "f29", "f30", "f31", "f32", "f33", "f34", "f35", "f36", "f37", "f38", "f39", "f40", "f41", "f42", "f43", "f44", "f45", "f46", "f47", "f48", "f49"];
}
/// links of every accepted spelling of the link types are links of the right kind
pub fn c15_spellings() {
  use spelled::*;
  let (k, v) = (conc(range(0, N as u64 - 1) as usize), val());
  assume(v != 0);
  let n = build(|i| NodeIndex(if i == k { v } else { 100 + i }));
  check(RS::link_types() == KINDS && RS::link_names() == NAMES && RS::data_names().is_empty(), 1);
  let got: Vec<NodeIndex> = n.get_links_by_name(NAMES[k]).collect();
  ordered(&got, &[v], 2);
  let l = RS::link_mirrors()[k];
  let got: Vec<NodeIndex> = n.iter_links(l).collect();
  ordered(&got, &[v], 3);
  let all: Vec<_> = n.iter_sources().collect();
  check(all.len() == N, 4);
  for i in 0..N {
    check(all[i].0 .0 == if i == k { v } else { 100 + i }, 5);
    check(RS::to_link_mirror(all[i].1) == RS::link_mirrors()[i], 6);
  }
  reach(1);
}
crate::entries! { c15_spellings, c15_by_name, c15_by_link, c15_by_group, c15_sources, c15_other_types, c15_data, c15_tables, c15_counterparts }
