//! All ways of reading a graph agree.
use crate::plain::*;
use crate::rt::*;
use ttgraph::*;

/// every node exactly once, lengths right at every step
fn seq<'a, I: Iterator<Item = (NodeIndex, &'a N)> + ExactSizeIterator>(mut it: I, m: &[&MN], id: u32) {
  let mut seen: Vec<usize> = vec![];
  loop {
    let left = m.len() - seen.len();
    check(it.len() == left, id);
    let h = it.size_hint();
    check(h.0 == left && h.1 == Some(left), id + 1);
    match it.next() {
      None => break,
      Some((i, n)) => {
        check(!seen.contains(&i.0), id + 2);
        match m.iter().find(|x| x.id == i.0) {
          None => check(false, id + 3),
          Some(x) => eq_node(n, x, id + 3),
        }
        seen.push(i.0);
      },
    }
    check(seen.len() <= m.len(), id + 4);
  }
  check(seen.len() == m.len(), id + 4);
  check(it.next().is_none(), id + 5);
  check(it.len() == 0, id);
}
fn agree(g: &Graph<N>, m: &[MN], absent: &[usize]) {
  same(g, m, 0);
  check(g.is_empty() == m.is_empty(), 10);
  let all: Vec<&MN> = m.iter().collect();
  seq(g.iter(), &all, 20);
  seq(g.into_iter(), &all, 40);
  // copies of an iterator go on from the same place
  let mut it = g.iter();
  if it.next().is_some() {
    let c = it.clone();
    check(c.count() == all.len() - 1, 11);
    check(it.count() == all.len() - 1, 12);
  }
  for ty in 0..3u8 {
    let mine: Vec<&MN> = m.iter().filter(|x| x.ty == ty).collect();
    let d = match ty {
      0 => discriminant!(N::A),
      1 => discriminant!(N::B),
      _ => discriminant!(N::C),
    };
    seq(g.iter_type(d), &mine, 60);
    let n = match ty {
      0 => iter_nodes!(g, N::A).map(|(i, n)| check(mine.iter().any(|x| x.id == i.0 && x.data == n.data), 13)).count(),
      1 => iter_nodes!(g, N::B).map(|(i, n)| check(mine.iter().any(|x| x.id == i.0 && x.data == n.data), 13)).count(),
      _ => iter_nodes!(g, N::C).map(|(i, n)| check(mine.iter().any(|x| x.id == i.0 && x.data == n.data), 13)).count(),
    };
    check(n == mine.len(), 14);
  }
  let groups: [(&'static str, &[u8]); 5] = [("ab", &[0, 1]), ("bc", &[1, 2]), ("only", &[2]), ("all", &[0, 1, 2]), ("none", &[])];
  for (name, tys) in groups {
    let mut n = 0;
    for (i, x) in g.iter_group(name) {
      let k = find(m, i.0);
      check(k.is_some(), 15);
      if let Some(k) = k {
        check(tys.contains(&m[k].ty), 16);
        eq_node(x, &m[k], 80);
      }
      n += 1;
    }
    check(n == m.iter().filter(|x| tys.contains(&x.ty)).count(), 17);
  }
  for x in m {
    let i = ix(x.id);
    check(get_node!(g, N::A, i).is_some() == (x.ty == 0), 18);
    check(get_node!(g, N::B, i).is_some() == (x.ty == 1), 18);
    check(get_node!(g, N::C, i).is_some() == (x.ty == 2), 18);
  }
  for i in absent {
    if find(m, *i).is_none() {
      check(g.get(ix(*i)).is_none(), 19);
      check(get_node!(g, N::A, ix(*i)).is_none(), 19);
      check(get_node!(g, N::C, ix(*i)).is_none(), 19);
    }
  }
}
fn by_value(g: Graph<N>, m: &[MN]) {
  let mut it = g.into_iter();
  let mut seen: Vec<usize> = vec![];
  loop {
    let left = m.len() - seen.len();
    check(it.len() == left, 100);
    let h = it.size_hint();
    check(h.0 == left && h.1 == Some(left), 101);
    match it.next() {
      None => break,
      Some((i, n)) => {
        check(!seen.contains(&i.0), 102);
        match find(m, i.0) {
          None => check(false, 103),
          Some(k) => eq_node(&n, &m[k], 103),
        }
        seen.push(i.0);
      },
    }
    check(seen.len() <= m.len(), 104);
  }
  check(seen.len() == m.len(), 104);
  check(it.next().is_none(), 105);
}
/// any operation, including ones that change the type of a node
fn op(w: &W, t: &mut Tx, pend: &mut Vec<usize>, level: u8) {
  let ids: Vec<usize> = w.m.iter().map(|x| x.id).collect();
  let mut to = ids.clone();
  to.extend_from_slice(pend);
  assume(!to.is_empty());
  let ty = range(0, 2) as u8;
  match range(0, if level == 0 { 6 } else { 4 }) {
    0 => pend.push(t.insert(any_node(ty, pick(&[0, to[0]])))),
    1 => {
      let i = pick(&to);
      pend.retain(|x| *x != i);
      t.remove(i)
    },
    2 => t.mutate(pick(&to), Edit::Become(ty, pick(&[0, to[0]]), any())),
    3 => t.update(pick(&to), Edit::Become(ty, pick(&[0, to[0]]), any())),
    4 => {
      let i = t.alloc(ty);
      if flag() {
        t.fill(i, any_node(ty, i));
        pend.push(i);
      } else {
        t.remove(i);
      }
    },
    5 => t.redirect_all(to[0], *to.last().unwrap()),
    _ => {
      // nodes of another graph
      let mut g = Graph::<N>::new(&w.ctx);
      let mut o = w.tx();
      let a = o.insert(any_node(ty, 0));
      let b = o.insert(any_node((ty + 1) % 3, a));
      pend.push(a);
      pend.push(b);
      g.commit(o.t);
      t.t.merge(g);
      t.pend.extend(o.pend);
    },
  }
}
fn history(plan: &[&[u8]]) {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let mut gone: Vec<usize> = ex.iter().map(|x| x.0).collect();
  gone.push(0);
  for p in plan {
    let mut t = w.tx();
    let mut pend = vec![];
    for l in p.iter() {
      op(&w, &mut t, &mut pend, *l);
      gone.extend_from_slice(&pend);
    }
    if !w.commit(t, 200) {
      reach(2);
      return;
    }
    agree(&w.g, &w.m, &gone);
  }
  reach(1);
  let W { g, m, .. } = w;
  by_value(g, &m);
}
pub fn c11_one() {
  history(&[&[0]]);
}
pub fn c11_two() {
  history(&[&[0, 1]]);
}
pub fn c11_commits() {
  history(&[&[1], &[0]]);
}
pub fn c11_three() {
  history(&[&[1], &[1, 1]]);
}
/// sizes, removals at any place
pub fn c11_wide() {
  let mut w = W::new();
  let n = any_size();
  let (hub, v) = star(&mut w, n);
  let mut t = w.tx();
  let every = pick(&[1, 2, 3]);
  for k in 0..n {
    if k % every == 0 {
      if k % 4 == 1 {
        t.update(v[k], Edit::Become((k % 3) as u8, hub, any()));
      } else {
        t.remove(v[k]);
      }
    }
  }
  for k in 0..3 {
    t.insert(any_node(k, hub));
  }
  w.commit(t, 200);
  let mut gone = v.clone();
  gone.push(0);
  agree(&w.g, &w.m, &gone);
  reach(1);
  let W { g, m, .. } = w;
  by_value(g, &m);
}
/// a graph with nodes of some types only, or none
pub fn c11_sparse() {
  let mut w = W::new();
  let k = range(0, 7);
  let mut t = w.tx();
  for ty in 0..3u8 {
    if k >> ty & 1 == 1 {
      t.insert(any_node(ty, 0));
      if flag() {
        t.insert(any_node(ty, 0));
      }
    }
  }
  w.commit(t, 200);
  agree(&w.g, &w.m, &[0, 1, 2, 77]);
  // lookups of any other index
  let i = any() as usize;
  assume(w.m.iter().all(|x| x.id != i));
  check(w.g.get(ix(i)).is_none(), 19);
  reach(1);
  let W { g, m, .. } = w;
  by_value(g, &m);
}
static mut SHOWN: [u64; 8] = [0; 8];
static mut NSHOWN: usize = 0;
impl std::fmt::Display for N {
  fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    unsafe {
      if NSHOWN < 8 {
        SHOWN[NSHOWN] = match self {
          N::A(x) => x.data,
          N::B(x) => x.data,
          N::C(x) => x.data,
        };
      }
      NSHOWN += 1;
    }
    Ok(())
  }
}
struct Sink(Vec<u8>);
impl std::fmt::Write for Sink {
  fn write_str(&mut self, s: &str) -> std::fmt::Result {
    self.0.extend_from_slice(s.as_bytes());
    Ok(())
  }
}
/// runs of digits
fn numbers(t: &[u8]) -> Vec<usize> {
  let mut v = vec![];
  let mut cur: Option<usize> = None;
  for c in t {
    if c.is_ascii_digit() {
      cur = Some(cur.unwrap_or(0) * 10 + (c - b'0') as usize);
    } else if let Some(x) = cur.take() {
      v.push(x)
    }
  }
  v.extend(cur);
  v
}
/// the text form names every node once, with its index
pub fn c11_display() {
  let mut w = W::new();
  let n = conc(range(0, 4) as usize);
  let mut t = w.tx();
  let mut ids = vec![];
  for k in 0..n {
    ids.push(t.insert(any_node(range(0, 2) as u8, 0)));
  }
  w.commit(t, 0);
  let mut t = w.tx();
  for i in &ids {
    match range(0, 2) {
      0 => t.remove(*i),
      1 => t.update(*i, Edit::Become(range(0, 2) as u8, 0, any())),
      _ => {},
    }
  }
  w.commit(t, 20);
  let mut s = Sink(vec![]);
  unsafe { NSHOWN = 0 };
  let r = std::fmt::write(&mut s, format_args!("{}", w.g));
  check(r.is_ok(), 60);
  let shown = unsafe { NSHOWN };
  check(shown == w.m.len(), 61);
  let nums = numbers(&s.0);
  check(nums.len() == w.m.len(), 62);
  for (k, i) in nums.iter().enumerate() {
    match find(&w.m, *i) {
      Some(p) => check(unsafe { SHOWN[k] } == w.m[p].data, 63),
      None => check(false, 64),
    }
    check(!nums[..k].contains(i), 65);
  }
  reach(1);
}
crate::entries! { c11_display, c11_one, c11_two, c11_commits, c11_three, c11_wide, c11_sparse }
