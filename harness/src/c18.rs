//! Link edits of a single node do what they report.
use crate::rt::*;
use ::indexmap::IndexSet;
use ::ordermap::OrderSet;
use std::collections::{BTreeSet, HashSet};
use ttgraph::*;

#[derive(TypedNode, Clone, Debug, Default)]
pub struct EA {
  pub d: NodeIndex,
  pub b: BTreeSet<NodeIndex>,
  pub x: u64,
  #[group(g)]
  pub v: Vec<NodeIndex>,
  #[group(g)]
  pub h: HashSet<NodeIndex>,
  pub o: OrderSet<NodeIndex>,
  pub i: IndexSet<NodeIndex>,
  pub e: NodeIndex,
  pub w: Vec<NodeIndex>,
  pub c: BTreeSet<NodeIndex>,
}
#[derive(TypedNode, Clone, Debug, Default)]
pub struct EB {
  pub v: Vec<NodeIndex>,
  pub d: NodeIndex,
  pub b: BTreeSet<NodeIndex>,
  pub x: u64,
}
#[derive(TypedNode, Clone, Debug, Default)]
pub struct EC {
  pub x: u64,
}
node_enum! {
  #[derive(Clone, Debug)]
  pub enum EN {
    A(EA),
    B(EB),
    C(EC),
  }
  bidirectional! {
    A.d <-> B.b,
    A.c <-> A.o,
  }
}
type LM = <EN as NodeEnum>::LinkMirrorEnum;
type SE = <EN as NodeEnum>::SourceEnum;
type AM = <EA as TypedNode>::LinkMirror;
type BM = <EB as TypedNode>::LinkMirror;
type AS = <EA as TypedNode>::Source;
type BS = <EB as TypedNode>::Source;

/// fields of A: d b v h o i e w c; of B: v d b
#[derive(Clone, Copy, PartialEq)]
enum K {
  D,
  V,
  S,
}
const KA: [K; 9] = [K::D, K::S, K::V, K::S, K::S, K::S, K::D, K::V, K::S];
const KB: [K; 3] = [K::V, K::D, K::S];
fn am(k: usize) -> AM {
  [AM::D, AM::B, AM::V, AM::H, AM::O, AM::I, AM::E, AM::W, AM::C][k]
}
fn bm(k: usize) -> BM {
  [BM::V, BM::D, BM::B][k]
}
struct M {
  b: bool,
  x: u64,
  f: Vec<Vec<usize>>,
}
impl M {
  fn kind(&self, f: usize) -> K {
    if self.b {
      KB[f]
    } else {
      KA[f]
    }
  }
  fn link(&self, f: usize) -> LM {
    if self.b {
      LM::B(bm(f))
    } else {
      LM::A(am(f))
    }
  }
  fn source(&self, f: usize, k: usize) -> SE {
    if self.b {
      SE::B(match f {
        0 => BS::V(k),
        1 => BS::D,
        _ => BS::B,
      })
    } else {
      SE::A(match f {
        0 => AS::D,
        1 => AS::B,
        2 => AS::V(k),
        3 => AS::H,
        4 => AS::O,
        5 => AS::I,
        6 => AS::E,
        7 => AS::W(k),
        _ => AS::C,
      })
    }
  }
}
/// a field with any content
fn content(k: K, n: usize) -> Vec<usize> {
  match k {
    K::D => vec![any() as usize],
    K::V => (0..n).map(|_| any() as usize).collect(),
    K::S => {
      let v: Vec<usize> = (0..n).map(|_| any() as usize).collect();
      for i in 0..n {
        assume(v[i] != 0);
        for j in 0..i {
          assume(v[i] != v[j]);
        }
      }
      v
    },
  }
}
/// the field under test holds any values, the others fixed ones
fn node(b: bool, f: usize, n: usize) -> (EN, M) {
  let kinds: &[K] = if b { &KB } else { &KA };
  let mut m = M { b, x: any(), f: vec![] };
  for g in 0..kinds.len() {
    if g == f {
      m.f.push(content(kinds[g], n));
    } else {
      m.f.push(match kinds[g] {
        K::D => vec![if g % 2 == 0 { 0 } else { 7 }],
        K::V => vec![3, 0, 5 + g],
        K::S => vec![3, 5 + g],
      });
    }
  }
  let at = |k: usize| m.f[k].iter().map(|x| NodeIndex(*x));
  let r = if b {
    EN::B(EB { v: at(0).collect(), d: ix(m.f[1][0]), b: at(2).collect(), x: m.x })
  } else {
    EN::A(EA {
      d: ix(m.f[0][0]),
      b: at(1).collect(),
      x: m.x,
      v: at(2).collect(),
      h: at(3).collect(),
      o: at(4).collect(),
      i: at(5).collect(),
      e: ix(m.f[6][0]),
      w: at(7).collect(),
      c: at(8).collect(),
    })
  };
  (r, m)
}
fn same_set(len: usize, has: &dyn Fn(usize) -> bool, want: &[usize], id: u32) {
  check(len == want.len(), id);
  for w in want {
    check(has(*w), id);
  }
}
fn same_vec(v: &[NodeIndex], want: &[usize], id: u32) {
  check(v.len() == want.len(), id);
  for k in 0..want.len() {
    check(v[k].0 == want[k], id);
  }
}
fn same(n: &EN, m: &M, id: u32) {
  match n {
    EN::A(a) => {
      check(!m.b && a.x == m.x, id);
      check(a.d.0 == m.f[0][0] && a.e.0 == m.f[6][0], id);
      same_vec(&a.v, &m.f[2], id);
      same_vec(&a.w, &m.f[7], id);
      same_set(a.b.len(), &|x| a.b.iter().any(|y| y.0 == x), &m.f[1], id);
      same_set(a.h.len(), &|x| a.h.iter().any(|y| y.0 == x), &m.f[3], id);
      same_set(a.o.len(), &|x| a.o.iter().any(|y| y.0 == x), &m.f[4], id);
      same_set(a.i.len(), &|x| a.i.iter().any(|y| y.0 == x), &m.f[5], id);
      same_set(a.c.len(), &|x| a.c.iter().any(|y| y.0 == x), &m.f[8], id);
    },
    EN::B(b) => {
      check(m.b && b.x == m.x && b.d.0 == m.f[1][0], id);
      same_vec(&b.v, &m.f[0], id);
      same_set(b.b.len(), &|x| b.b.iter().any(|y| y.0 == x), &m.f[2], id);
    },
    EN::C(_) => check(false, id),
  }
}
/// a target: often one that is there
fn target(m: &M, f: usize) -> usize {
  any() as usize
}
/// one edit or test of field f; false: panicked
fn op(n: &mut EN, m: &mut M, f: usize, op: u64) -> bool {
  let k = m.kind(f);
  let l = m.link(f);
  let t = target(m, f);
  let here = m.f[f].iter().position(|x| *x == t);
  match op {
    // add
    0 => {
      if k == K::S {
        assume(t != 0);
      }
      let mut r = false;
      let p = catch(|| r = n.add_link(l, ix(t)));
      match k {
        K::V => {
          check(p, 10);
          return false;
        },
        K::D => {
          let c = m.f[f][0];
          if c != 0 && c != t {
            check(p, 11);
            same(n, m, 12);
            return false;
          }
          check(!p, 13);
          check(r == (c == 0 && t != 0), 14);
          m.f[f][0] = t;
        },
        K::S => {
          check(!p, 15);
          check(r == here.is_none(), 16);
          if here.is_none() {
            m.f[f].push(t);
          }
        },
      }
    },
    // remove
    1 => {
      let mut r = false;
      let p = catch(|| r = n.remove_link(l, ix(t)));
      match k {
        K::V => {
          check(p, 20);
          return false;
        },
        K::D => {
          check(!p, 21);
          check(r == (t != 0 && here.is_some()), 22);
          if t != 0 && here.is_some() {
            m.f[f][0] = 0;
          }
        },
        K::S => {
          check(!p, 23);
          check(r == here.is_some(), 24);
          if let Some(x) = here {
            m.f[f].remove(x);
          }
        },
      }
    },
    // test
    2 => {
      assume(t != 0);
      let mut r = false;
      let p = catch(|| r = n.contains_link(l, ix(t)));
      check(!p, 30);
      check(r == here.is_some(), 31);
      check(n.check_link(l), 32);
    },
    // replace
    _ => {
      let mut at = 0;
      if k == K::V {
        if m.f[f].is_empty() {
          return true;
        }
        at = conc(range(0, m.f[f].len() as u64 - 1) as usize);
      }
      let old = if k == K::S { any() as usize } else { m.f[f][at] };
      let pos = if k == K::S { m.f[f].iter().position(|x| *x == old) } else { Some(at) };
      if k == K::S {
        assume(old != t);
      }
      let s = m.source(f, at);
      let mut r = None;
      let p = catch(|| r = Some(n.modify_link(s, ix(old), ix(t))));
      check(!p, 40);
      let r = r.unwrap();
      match k {
        K::S => {
          check(r.removed == pos.is_some(), 41);
          if let Some(x) = pos {
            m.f[f].remove(x);
          }
          check(r.added == (t != 0 && here.is_none()), 42);
          if t != 0 && here.is_none() {
            m.f[f].push(t);
          }
        },
        _ => {
          check(r.removed == (old != t && old != 0), 43);
          check(r.added == (old != t && t != 0), 44);
          m.f[f][at] = t;
        },
      }
      let want: Vec<LM> = match (m.b, f) {
        (false, 0) => vec![LM::B(BM::B)],
        (true, 2) => vec![LM::A(AM::D)],
        (false, 8) => vec![LM::A(AM::O)],
        (false, 4) => vec![LM::A(AM::C)],
        _ => vec![],
      };
      check(r.bd_link_mirrors == want, 45);
    },
  }
  same(n, m, 50);
  true
}
fn start(n: usize) -> (EN, M, usize) {
  let b = flag();
  let f = conc(range(0, if b { 2 } else { 8 }) as usize);
  let (r, m) = node(b, f, conc(range(0, n as u64) as usize));
  (r, m, f)
}
fn ops(n: usize, k: usize) {
  let (mut r, mut m, f) = start(n);
  for _ in 0..k {
    let o = range(0, 3);
    let o = conc(o as usize) as u64;
    if !op(&mut r, &mut m, f, o) {
      reach(2);
      return;
    }
  }
  reach(1);
}
pub fn c18_one() {
  ops(4, 1);
}
pub fn c18_two() {
  ops(2, 2);
}
pub fn c18_three() {
  ops(1, 3);
}
pub fn c18_four() {
  ops(1, 4);
}
/// reflections of another type never match
pub fn c18_other_type() {
  let which = conc(range(0, 2) as usize);
  let (mut n, m) = if which == 2 { (EN::C(EC { x: 9 }), None) } else { let (n, m) = node(which == 1, 0, 2); (n, Some(m)) };
  // a link of another type, often of the same name
  let (l, s): (LM, SE) = if which == 0 || (which == 2 && flag()) {
    let k = conc(range(0, 2) as usize);
    (LM::B(bm(k)), [SE::B(BS::V(0)), SE::B(BS::D), SE::B(BS::B)][k])
  } else {
    let k = conc(range(0, 8) as usize);
    (LM::A(am(k)), [SE::A(AS::D), SE::A(AS::B), SE::A(AS::V(0)), SE::A(AS::H), SE::A(AS::O), SE::A(AS::I), SE::A(AS::E), SE::A(AS::W(1)), SE::A(AS::C)][k])
  };
  let t = any() as usize;
  check(!n.check_link(l), 1);
  let o = conc(range(0, 4) as usize);
  let mut r = false;
  match o {
    0 => {
      check(!catch(|| r = n.add_link(l, ix(t))), 2);
      check(!r, 3);
    },
    1 => {
      check(!catch(|| r = n.remove_link(l, ix(t))), 2);
      check(!r, 3);
    },
    2 => {
      check(!catch(|| r = n.contains_link(l, ix(t))), 2);
      check(!r, 3);
    },
    3 => {
      let p = catch(|| {
        let _ = n.iter_links(l).count();
      });
      check(p, 4);
      reach(2);
    },
    _ => {
      let old = any() as usize;
      let p = catch(|| {
        let _ = n.modify_link(s, ix(old), ix(t));
      });
      check(p, 5);
      reach(2);
    },
  }
  match &m {
    Some(m) => same(&n, m, 6),
    None => {
      if let EN::C(c) = &n {
        check(c.x == 9, 6)
      } else {
        check(false, 6)
      }
    },
  }
  reach(1);
}
/// long sets and vectors, any element touched
pub fn c18_wide() {
  let b = flag();
  let f = conc(range(0, if b { 2 } else { 8 }) as usize);
  let kinds: &[K] = if b { &KB } else { &KA };
  if kinds[f] == K::D {
    return;
  }
  let n = [8, 12, 16, 17, 24, 33][conc(range(0, 5) as usize)];
  let (mut r, mut m) = node(b, f, 0);
  for k in 0..n {
    let x = 2 * k + 1;
    m.f[f].push(x);
    match (&mut r, f) {
      (EN::A(a), 1) => drop(a.b.insert(ix(x))),
      (EN::A(a), 2) => a.v.push(ix(x)),
      (EN::A(a), 3) => drop(a.h.insert(ix(x))),
      (EN::A(a), 4) => drop(a.o.insert(ix(x))),
      (EN::A(a), 5) => drop(a.i.insert(ix(x))),
      (EN::A(a), 7) => a.w.push(ix(x)),
      (EN::A(a), 8) => drop(a.c.insert(ix(x))),
      (EN::B(a), 0) => a.v.push(ix(x)),
      (EN::B(a), 2) => drop(a.b.insert(ix(x))),
      _ => {},
    }
  }
  let t = conc(range(1, 2 * n as u64) as usize);
  let l = m.link(f);
  check(r.contains_link(l, ix(t)) == m.f[f].contains(&t), 1);
  if m.kind(f) == K::S {
    match conc(range(0, 2) as usize) {
      0 => {
        let had = m.f[f].contains(&t);
        check(r.add_link(l, ix(t)) != had, 2);
        if !had {
          m.f[f].push(t);
        }
      },
      1 => {
        let had = m.f[f].contains(&t);
        check(r.remove_link(l, ix(t)) == had, 3);
        m.f[f].retain(|x| *x != t);
      },
      _ => {
        let u = 2 * (n / 2) + 1;
        if t == u {
          return;
        }
        let had = m.f[f].contains(&t);
        let x = r.modify_link(m.source(f, 0), ix(u), ix(t));
        check(x.removed && x.added != had, 4);
        m.f[f].retain(|x| *x != u);
        if !had {
          m.f[f].push(t);
        }
      },
    }
  } else {
    let at = t % n;
    let x = r.modify_link(m.source(f, at), ix(m.f[f][at]), ix(2 * n + 5));
    check(x.removed && x.added, 5);
    m.f[f][at] = 2 * n + 5;
  }
  same(&r, &m, 6);
  reach(1);
}
crate::entries! { c18_one, c18_two, c18_three, c18_four, c18_other_type, c18_wide }
