//! Checked commits run the user's checks on exactly what changed.
use crate::accessors;
use crate::bd::{self, Bd};
use crate::gen::*;
use crate::lt::Lt;
use crate::plain::{N, NodeA, NodeB, NodeC};
use crate::rt::*;
use std::cell::RefCell;
use std::rc::Rc;
use ttgraph::check::*;
use ttgraph::*;

#[derive(Clone, Copy)]
pub struct Pl;
impl Schema for Pl {
  type Node = N;
  accessors! { N;
    A = 0 { 0 D d, 1 D e, 2 B s, 3 V v },
    B = 1 { 0 D p, 1 H h, 2 O o, 3 I i },
    C = 2 { 0 V w },
  }
}
/// which call of a check reports an error
#[derive(Clone, Copy)]
struct Bad {
  /// 0: node check, 1: link added, 2: link removed
  kind: u8,
  x: usize,
  y: usize,
}
struct Log {
  calls: Vec<(u8, usize, usize)>,
}
fn count(n: &MN, f: usize, y: usize) -> usize {
  n.f[f].iter().filter(|x| **x == y).count()
}
/// net change of the links from x to y: (added, removed)
fn net<S: Schema>(pre: &[MN], post: &[MN], x: usize, y: usize) -> (bool, bool) {
  let (a, b) = (find(pre, x), find(post, x));
  let (mut add, mut rem) = (false, false);
  for ty in 0..4u8 {
    for f in 0..S::kinds(ty).len() {
      let c = |m: &[MN], k: Option<usize>| match k {
        Some(k) if m[k].ty == ty => count(&m[k], f, y),
        _ => 0,
      };
      let (p, q) = (c(pre, a), c(post, b));
      add |= q > p;
      rem |= p > q;
    }
  }
  (add, rem)
}
fn content(a: &MN, b: &MN) -> bool {
  if a.ty != b.ty || a.data != b.data {
    return false;
  }
  for f in 0..a.f.len() {
    if a.f[f].len() != b.f[f].len() {
      return false;
    }
    // order of vectors matters, order of sets does not; here sets keep the model's order
    for x in &a.f[f] {
      if count(a, f, *x) != count(b, f, *x) {
        return false;
      }
    }
  }
  true
}
fn links_to(n: &MN, y: usize) -> bool {
  n.f.iter().any(|f| f.contains(&y))
}
/// commit with checks that record their calls; one call may be made to fail
pub fn checked<S: Schema>(w: &mut W<S>, t: Tx<S>, id: u32) -> bool {
  let pre = w.m.clone();
  let ok = w.model(&t);
  let bad = {
    // any call at all may fail
    let mut ids = vec![];
    for x in pre.iter().chain(t.pend.iter()) {
      ids.push(x.id)
    }
    let kind = conc(range(0, 3) as usize) as u8;
    if kind == 3 {
      None
    } else {
      let x = pick(&ids);
      Some(Bad { kind, x, y: if kind == 0 { 0 } else { pick(&ids) } })
    }
  };
  let log = Rc::new(RefCell::new(Log { calls: vec![] }));
  let post = Rc::new(w.m.clone());
  let mut c = GraphCheck::<S::Node>::new();
  let hit = move |k: u8, x: usize, y: usize| match bad {
    Some(b) => b.kind == k && b.x == x && b.y == y,
    None => false,
  };
  {
    let (log, post) = (log.clone(), post.clone());
    c.insert_node_check("node".to_string(), move |i, n| {
      log.borrow_mut().calls.push((0, i.0, 0));
      // it sees the node as it is after the commit
      match find(&post, i.0) {
        Some(k) => eq_node::<S>(n, &post[k], id + 20),
        None => check(!ok, id + 10),
      }
      if hit(0, i.0, 0) {
        Err(())
      } else {
        Ok(())
      }
    });
  }
  for kind in [1u8, 2] {
    let (log, post) = (log.clone(), post.clone());
    let f = move |i: NodeIndex, j: NodeIndex, n: &S::Node, m: Option<&S::Node>| {
      log.borrow_mut().calls.push((kind, i.0, j.0));
      match find(&post, i.0) {
        Some(k) => eq_node::<S>(n, &post[k], id + 20),
        None => check(!ok, id + 10),
      }
      match (find(&post, j.0), m) {
        (Some(k), Some(m)) => eq_node::<S>(m, &post[k], id + 20),
        (a, b) => check(a.is_none() == b.is_none(), id + 11),
      }
      if hit(kind, i.0, j.0) {
        Err(())
      } else {
        Ok(())
      }
    };
    if kind == 1 {
      c.insert_link_add_check("add".to_string(), f);
    } else {
      c.insert_link_remove_check("remove".to_string(), f);
    }
  }
  let mut all: Vec<usize> = pre.iter().map(|x| x.id).collect();
  all.extend(t.pend.iter().map(|x| x.id));
  // a link may lead to a node that is not there
  for n in post.iter() {
    for f in &n.f {
      for y in f {
        if *y != 0 && !all.contains(y) {
          all.push(*y)
        }
      }
    }
  }
  let edited: Vec<usize> = t.muts.iter().chain(t.upds.iter()).map(|x| x.0).collect();
  let mut moved: Vec<usize> = vec![];
  for (a, b) in t.red.iter().chain(t.red_all.iter()) {
    moved.push(*a);
    moved.push(*b);
  }
  // what has to be called (only owners that are still there)
  let here = |x: usize| find(&post, x);
  let node_must = |x: usize| match (find(&pre, x), here(x)) {
    (_, None) => false,
    (None, Some(_)) => true,
    (Some(a), Some(b)) => !content(&pre[a], &post[b]),
  };
  let node_may = |x: usize| {
    edited.contains(&x)
      || moved.iter().any(|y| *y != 0 && (here(x).map_or(false, |k| links_to(&post[k], *y)) || find(&pre, x).map_or(false, |k| links_to(&pre[k], *y))))
  };
  let mut fails = false;
  if ok {
    if let Some(b) = bad {
      match b.kind {
        0 => {
          assume(node_must(b.x) || !node_may(b.x) || here(b.x).is_none());
          fails = node_must(b.x)
        },
        1 => fails = here(b.x).is_some() && net::<S>(&pre, &post, b.x, b.y).0,
        _ => fails = here(b.x).is_some() && net::<S>(&pre, &post, b.x, b.y).1,
      }
    }
  }
  let g = &mut w.g;
  let tt = t.t;
  let cc = &c;
  let p = catch(move || g.commit_checked(tt, cc));
  check(p == (!ok || fails), id + 1);
  if p {
    return false;
  }
  // not one call failed: all of them were made, and no others
  w.same(id);
  let calls = &log.borrow().calls;
  for x in &all {
    let n = calls.iter().filter(|c| c.0 == 0 && c.1 == *x).count();
    if node_must(*x) {
      check(n == 1, id + 12);
    } else if here(*x).is_some() && node_may(*x) {
      check(n <= 1, id + 12);
    } else {
      check(n == 0, id + 13);
    }
    for y in &all {
      let (add, rem) = net::<S>(&pre, &post, *x, *y);
      let e = here(*x).is_some();
      check(calls.contains(&(1, *x, *y)) == (e && add), id + 14);
      check(calls.contains(&(2, *x, *y)) == (e && rem), id + 15);
    }
  }
  for c in calls.iter() {
    check(all.contains(&c.1) && (c.0 == 0 || all.contains(&c.2)), id + 16);
  }
  true
}
fn outcome<S: Schema>(w: &mut W<S>, t: Tx<S>, id: u32) {
  if checked::<S>(w, t, id) {
    reach(1);
  } else {
    reach(2);
  }
}
/// three nodes with links of every kind
fn dense3(w: &mut W<Pl>) -> [usize; 3] {
  let mut t = w.tx();
  let n = [t.alloc(), t.alloc(), t.alloc()];
  t.fill(n[0], 0, &[&[n[1]], &[], &[n[1], n[2]], &[n[2], 0, n[1]]]);
  t.fill(n[1], 1, &[&[n[2]], &[n[0]], &[n[2], n[0]], &[n[1], n[2]]]);
  t.fill(n[2], 2, &[&[n[0], n[1], n[0]]]);
  w.setup(t);
  n
}
fn edit(t: &mut Tx<Pl>, n: &[usize; 3], all: &[usize]) {
  let k = conc(range(0, 2) as usize);
  let f = conc(range(0, Pl::kinds(k as u8).len() as u64) as usize);
  let upd = flag();
  let ks = Pl::kinds(k as u8);
  if f == ks.len() {
    t.edit(upd, n[k], Edit::Data(1, range(0, 1)));
    return;
  }
  let e = match (ks[f], range(0, 2)) {
    (K::D, 0) => Edit::Put(f, pick(all)),
    (K::D, _) => Edit::Data(1, 0),
    (_, 0) => Edit::Put(f, pick(&all[1..])),
    (_, 1) => Edit::Del(f, pick(&all[1..])),
    _ => Edit::Swap(f, pick(&all[1..])),
  };
  t.edit(upd, n[k], e);
}
fn op(t: &mut Tx<Pl>, n: &[usize; 3], all: &[usize]) {
  match range(0, 4) {
    0 => edit(t, n, all),
    1 => t.redirect(pick(n), pick(all)),
    2 => t.redirect_all(pick(n), pick(all)),
    3 => t.remove(pick(n)),
    _ => {
      let l = pick(all);
      match range(0, 2) {
        0 => t.new_node(0, &[&[l], &[], &[l], &[0, l, l]]),
        1 => t.new_node(1, &[&[], &[l], &[l], &[l]]),
        _ => t.new_node(2, &[&[l]]),
      };
    },
  }
}
pub fn c16_one() {
  let mut w = W::<Pl>::new();
  let n = dense3(&mut w);
  let mut t = w.tx();
  op(&mut t, &n, &[0, n[0], n[1], n[2]]);
  outcome(&mut w, t, 0);
}
pub fn c16_two() {
  let mut w = W::<Pl>::new();
  let n = dense3(&mut w);
  let mut t = w.tx();
  let all = [0, n[0], n[1], n[2]];
  op(&mut t, &n, &all);
  match range(0, 2) {
    0 => t.remove(n[1]),
    1 => t.mutate(n[0], Edit::Swap(2, n[1])),
    _ => {
      t.redirect_all(n[2], n[0]);
    },
  }
  outcome(&mut w, t, 0);
}
/// changed, linked and new nodes removed in the same transaction
pub fn c16_removed() {
  let mut w = W::<Pl>::new();
  let n = dense3(&mut w);
  let mut t = w.tx();
  let p = t.new_node(0, &[&[n[0]], &[n[2]], &[n[1]], &[n[2]]]);
  let all = [0, n[0], n[1], n[2], p];
  edit(&mut t, &n, &all);
  let x = pick(&n);
  t.remove(x);
  if flag() {
    let y = pick(&[n[0], n[1], p]);
    assume(x != y);
    t.remove(y);
  }
  outcome(&mut w, t, 0);
}
/// links taken away and given back: nothing changed
pub fn c16_back() {
  let mut w = W::<Pl>::new();
  let n = dense3(&mut w);
  let mut t = w.tx();
  let all = [0, n[0], n[1], n[2]];
  let (k, f) = match range(0, 6) {
    0 => (0, 0),
    1 => (0, 2),
    2 => (0, 3),
    3 => (1, 1),
    4 => (1, 2),
    5 => (1, 3),
    _ => (2, 0),
  };
  let to = pick(&n);
  let e = |x: u64| match x {
    0 => Edit::Put(f, to),
    1 => Edit::Del(f, to),
    _ => Edit::Swap(f, to),
  };
  t.edit(flag(), n[k], e(range(0, 2)));
  t.edit(flag(), n[k], e(range(0, 2)));
  if flag() {
    t.edit(true, n[k], e(range(0, 1)));
  }
  outcome(&mut w, t, 0);
}
/// node types change
pub fn c16_become() {
  let mut w = W::<Pl>::new();
  let n = dense3(&mut w);
  let mut t = w.tx();
  let k = pick(&n);
  let ty = conc(range(0, 2) as usize) as u8;
  let l = pick(&n);
  let m = mn::<Pl>(ty, &[&[l], &[l], &[], &[l]], any());
  let r = real::<Pl>(&m);
  let pre = w.m.clone();
  if flag() {
    t.t.mutate(NodeIndex(k), move |n| *n = r);
  } else {
    t.t.update(NodeIndex(k), move |_| r);
  }
  let i = find(&w.m, k).unwrap();
  let id = w.m[i].id;
  w.m[i] = m;
  w.m[i].id = id;
  let post = w.m.clone();
  let log = Rc::new(RefCell::new(Log { calls: vec![] }));
  let mut c = GraphCheck::<N>::new();
  let l0 = log.clone();
  c.insert_node_check("n".to_string(), move |i, _| {
    l0.borrow_mut().calls.push((0, i.0, 0));
    Ok(())
  });
  let l1 = log.clone();
  c.insert_link_add_check("n".to_string(), move |i, j, _, _| {
    l1.borrow_mut().calls.push((1, i.0, j.0));
    Ok(())
  });
  let l2 = log.clone();
  c.insert_link_remove_check("n".to_string(), move |i, j, _, _| {
    l2.borrow_mut().calls.push((2, i.0, j.0));
    Ok(())
  });
  w.g.commit_checked(t.t, &c);
  w.same(0);
  let calls = &log.borrow().calls;
  for x in &n {
    check(calls.contains(&(0, *x, 0)) == (*x == k), 10);
    for y in &n {
      let (add, rem) = net::<Pl>(&pre, &post, *x, *y);
      check(calls.contains(&(1, *x, *y)) == add, 11);
      check(calls.contains(&(2, *x, *y)) == rem, 12);
    }
  }
  reach(1);
}
/// two transactions
pub fn c16_history() {
  let mut w = W::<Pl>::new();
  let n = dense3(&mut w);
  let all = [0, n[0], n[1], n[2]];
  let mut t = w.tx();
  match range(0, 3) {
    0 => t.mutate(n[0], Edit::Put(2, n[0])),
    1 => t.redirect(n[1], n[0]),
    2 => t.update(n[2], Edit::Put(0, n[1])),
    _ => t.remove(n[1]),
  }
  let empty = GraphCheck::<N>::default();
  let ok = w.model(&t);
  assume(ok);
  w.g.commit_checked(t.t, &empty);
  let mut t = w.tx();
  op(&mut t, &n, &all);
  outcome(&mut w, t, 0);
}
/// merged graphs and filled allocations count as inserted
pub fn c16_inserted() {
  let mut w = W::<Pl>::new();
  let n = dense3(&mut w);
  let mut v = W::<Pl> { ctx: w.ctx.clone(), g: Graph::new(&w.ctx), m: vec![] };
  let mut t = v.tx();
  let a = t.new_node(1, &[&[n[0]], &[n[1]]]);
  let b = t.new_node(0, &[&[a], &[n[2]], &[], &[0, a]]);
  v.setup(t);
  let mut t = w.tx();
  t.t.merge(v.g);
  t.pend.extend(v.m);
  match range(0, 3) {
    0 => t.remove(a),
    1 => {
      let i = t.alloc();
      t.fill(i, 2, &[&[n[0], b, 0, b]]);
    },
    2 => t.mutate(b, Edit::Put(1, n[1])),
    _ => t.redirect(n[0], b),
  }
  outcome(&mut w, t, 0);
}
/// links completed and dropped by bidirectional upkeep
pub fn c16_bidirectional() {
  let mut d = bd::D::new(true);
  let n = bd::dense(&mut d);
  let mut t = d.tx();
  bd::any_op(&mut t, &n, 1);
  outcome(&mut d.w, t, 0);
}
pub fn c16_pairs() {
  let mut d = bd::D::new(true);
  let n = bd::dense(&mut d);
  let g = |k: usize| n[k].0;
  let (p0, p1, p2, q0, q1, r0, r1, s) = (g(0), g(1), g(2), g(3), g(4), g(5), g(6), g(7));
  let mut t = d.tx();
  for _ in 0..2 {
    match range(0, 7) {
      0 => t.mutate(p0, Edit::Put(0, pick(&[0, q0]))),
      1 => t.mutate(q1, Edit::Put(1, pick(&[0, p1, p0]))),
      2 => t.update(p2, Edit::Put(2, pick(&[p0, p2]))),
      3 => t.mutate(p0, Edit::Del(5, pick(&[r0, s]))),
      4 => t.mutate(q0, Edit::Swap(3, pick(&[r0, r1]))),
      5 => t.mutate(s, Edit::Del(1, pick(&[q0, q1]))),
      6 => t.remove(pick(&[q1, r1, p2])),
      _ => t.update(r0, Edit::Put(3, pick(&[0, r1]))),
    }
  }
  outcome(&mut d.w, t, 0);
}
/// a commit rejected for its link types stays rejected
pub fn c16_typed() {
  let mut w = W::<Lt>::new();
  let mut t = w.tx();
  let n = [t.new_node(0, &[]), t.new_node(1, &[]), t.new_node(2, &[])];
  w.setup(t);
  let mut t = w.tx();
  let k = conc(range(0, 2) as usize);
  let f = conc(range(0, Lt::kinds(k as u8).len() as u64 - 1) as usize);
  t.edit(flag(), n[k], Edit::Put(f, pick(&n)));
  outcome(&mut w, t, 0);
}
/// the table of checks itself: several checks, replaced and removed ones
pub fn c16_table() {
  let mut w = W::<Pl>::new();
  let n = dense3(&mut w);
  let log = Rc::new(RefCell::new([0usize; 9]));
  let mut c = GraphCheck::<N>::new();
  let names = ["a", "b", "c"];
  let fail = conc(range(0, 9) as usize);
  for k in 0..3 {
    let (l0, l1, l2) = (log.clone(), log.clone(), log.clone());
    let r = move |b: bool| if b { Err(()) } else { Ok(()) };
    c.insert_node_check(names[k].to_string(), move |_, _| {
      l0.borrow_mut()[k] += 1;
      r(fail == k)
    });
    c.insert_link_add_check(names[k].to_string(), move |_, _, _, _| {
      l1.borrow_mut()[3 + k] += 1;
      r(fail == 3 + k)
    });
    c.insert_link_remove_check(names[k].to_string(), move |_, _, _, _| {
      l2.borrow_mut()[6 + k] += 1;
      r(fail == 6 + k)
    });
  }
  // some are taken out or replaced by one that accepts everything
  let x = conc(range(0, 2) as usize);
  let out = conc(range(0, 5) as usize);
  match out {
    0 => c.remove_node_check(names[x]),
    1 => c.remove_link_add_check(names[x]),
    2 => c.remove_link_remove_check(names[x]),
    3 => c.insert_node_check(names[x].to_string(), |_, _| Ok(())),
    4 => c.insert_link_add_check(names[x].to_string(), |_, _, _, _| Ok(())),
    _ => c.insert_link_remove_check(names[x].to_string(), |_, _, _, _| Ok(())),
  }
  let gone = 3 * (out % 3) + x;
  let mut t = w.tx();
  // n[0] changes: the link e is added, the link d is removed
  t.mutate(n[0], Edit::Put(1, n[0]));
  t.mutate(n[0], Edit::Put(0, 0));
  let ok = w.model(&t);
  check(ok, 30);
  let g = &mut w.g;
  let (tt, cc) = (t.t, &c);
  let p = catch(move || g.commit_checked(tt, cc));
  check(p == (fail < 9 && fail != gone), 1);
  let l = log.borrow();
  check(l[gone] == 0, 2);
  if p {
    reach(2);
    return;
  }
  for k in 0..9 {
    check(k == gone || l[k] == 1, 3);
  }
  w.same(10);
  reach(1);
}
crate::entries! { c16_one, c16_two, c16_removed, c16_back, c16_become, c16_history, c16_inserted, c16_bidirectional, c16_pairs, c16_typed, c16_table }
