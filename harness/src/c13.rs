//! Merging a graph into a transaction adds all its nodes unchanged.
use crate::bd;
use crate::plain::*;
use crate::rt::*;
use ttgraph::*;

/// two graphs of one context with any links within and across
fn two(variant: u8) -> (W, W, [usize; 3], [usize; 2]) {
  let mut w = W::new();
  let mut v = W { ctx: w.ctx.clone(), g: Graph::new(&w.ctx), m: vec![] };
  let mut t = w.tx();
  let mut u = v.tx();
  let mut a = [0; 3];
  let mut b = [0; 2];
  a[0] = t.alloc(0);
  b[0] = u.alloc(if variant == 0 { 0 } else { 2 });
  a[1] = t.alloc(1);
  b[1] = u.alloc(1);
  a[2] = t.alloc(2);
  let l = [0, a[0], a[2], b[0], b[1]];
  let r = || pick(&l);
  t.fill(a[0], ma(b[0], 0, &[a[1], b[0]], &[b[1], a[2]], any()));
  t.fill(a[1], mb(b[1], &[a[0], b[0]], &[r()], &[a[2]], any()));
  t.fill(a[2], mc(&[a[0], b[0]], any()));
  if variant == 0 {
    u.fill(b[0], ma(r(), b[1], &[r(), b[0]], &[a[2], 0, b[1]], any()));
    u.fill(b[1], mb(a[0], &[b[0], a[1]], &[r()], &[a[1], b[0]], any()));
  } else {
    u.fill(b[0], mc(&[r(), b[1], a[0]], any()));
    u.fill(b[1], mb(r(), &[a[0]], &[b[1], a[2]], &[r(), a[0]], any()));
  }
  w.setup(t);
  v.setup(u);
  (w, v, a, b)
}
fn merge(t: &mut Tx, v: W) {
  let W { g, m, .. } = v;
  t.t.merge(g);
  t.pend.extend(m);
}
fn links(variant: u8) {
  let (mut w, v, a, b) = two(variant);
  let mut t = w.tx();
  merge(&mut t, v);
  check(!t.t.is_empty(), 9);
  same(&w.g, &w.m, 40);
  let ok = w.commit(t, 0);
  check(ok, 9);
  reach(1);
  // links between the parts are honoured
  w.flush_redirect(20);
}
pub fn c13_links() {
  links(0);
}
pub fn c13_links2() {
  links(1);
}
fn dense2(w: &mut W, v: &mut W) -> ([usize; 3], [usize; 2]) {
  let mut t = w.tx();
  let mut u = v.tx();
  let a = [t.alloc(0), t.alloc(1), t.alloc(2)];
  let b = [u.alloc(0), u.alloc(2)];
  t.fill(a[0], ma(a[1], b[0], &[a[1], b[0]], &[b[1], a[2]], any()));
  t.fill(a[1], mb(b[1], &[a[0], b[0]], &[b[1]], &[a[2], b[1]], any()));
  t.fill(a[2], mc(&[a[0], b[0]], any()));
  u.fill(b[0], ma(a[0], b[1], &[a[2], b[0]], &[a[2], 0, b[1]], any()));
  u.fill(b[1], mc(&[b[0], a[1], b[1]], any()));
  w.setup(t);
  v.setup(u);
  (a, b)
}
/// with another operation of any kind in the same transaction, before or after
pub fn c13_with() {
  let mut w = W::new();
  let mut v = W { ctx: w.ctx.clone(), g: Graph::new(&w.ctx), m: vec![] };
  let (a, b) = dense2(&mut w, &mut v);
  let ex = [(a[0], 0), (a[1], 1), (a[2], 2)];
  let pend = [(b[0], 0), (b[1], 2)];
  let all = [0, a[0], a[1], a[2], b[0], b[1]];
  let mut t = w.tx();
  if flag() {
    merge(&mut t, v);
    any_op(&mut t, &ex, &all, &pend, true);
  } else {
    any_op(&mut t, &ex, &all, &[], true);
    merge(&mut t, v);
  }
  if w.commit(t, 0) {
    reach(1);
    w.flush_redirect(20);
  }
}
/// nodes of the merged graph are taken back or edited before the commit
pub fn c13_pending() {
  let mut w = W::new();
  let mut v = W { ctx: w.ctx.clone(), g: Graph::new(&w.ctx), m: vec![] };
  let (a, b) = dense2(&mut w, &mut v);
  let all = [0, a[0], a[1], a[2], b[0], b[1]];
  let mut t = w.tx();
  merge(&mut t, v);
  let mut ty = 2;
  for k in 0..2 {
    match range(0, 4) {
      0 => {
        let i = pick(&b);
        assume(find(&t.pend, i).is_some());
        t.remove(i)
      },
      1 => t.mutate(b[0], any_edit(0, &all)),
      2 => {
        ty = conc(range(0, 2) as usize) as u8;
        t.update(b[1], Edit::Become(ty, pick(&all), any()))
      },
      3 => {
        assume(k == 0);
        t.redirect_all(pick(&all[1..]), pick(&all))
      },
      _ => t.update(b[1], any_edit(ty, &all)),
    }
    assume(t.pend.len() > 0);
  }
  if w.commit(t, 0) {
    reach(1);
  }
}
/// allocations of every kind open while the graph is merged, filled before or after it
pub fn c13_alloc() {
  let mut w = W::new();
  let mut v = W { ctx: w.ctx.clone(), g: Graph::new(&w.ctx), m: vec![] };
  let (a, b) = dense2(&mut w, &mut v);
  let all = [0, a[0], a[1], b[0], b[1]];
  let mut t = w.tx();
  let ty = conc(range(0, 2) as usize) as u8;
  let typed = flag();
  let i = t.alloc(if typed { ty } else { 3 });
  let j = t.alloc(2);
  let early = flag();
  let l = pick(&all);
  let node = |k: u8, l: usize| match k {
    0 => ma(l, i, &[j], &[l, j], 5),
    1 => mb(l, &[i], &[j], &[l, i], 6),
    _ => mc(&[l, i, j], 7),
  };
  let fill = |t: &mut Tx, m: MN| if typed { t.fill(i, m) } else { t.fill_untyped(i, m) };
  if early {
    fill(&mut t, node(ty, l));
  }
  if flag() {
    t.insert(mc(&[i, l], 9));
  }
  merge(&mut t, v);
  let k = t.alloc(1);
  if !early {
    fill(&mut t, node(ty, l));
  }
  t.fill(j, node(2, i));
  if flag() {
    t.fill(k, node(1, b[0]));
  } else {
    t.remove(k);
  }
  let ok = w.commit(t, 0);
  check(ok, 9);
  reach(1);
  w.flush_redirect(20);
}
/// then an arbitrary later operation
pub fn c13_later() {
  let mut w = W::new();
  let mut v = W { ctx: w.ctx.clone(), g: Graph::new(&w.ctx), m: vec![] };
  let (a, b) = dense2(&mut w, &mut v);
  let mut t = w.tx();
  merge(&mut t, v);
  let ok = w.commit(t, 0);
  check(ok, 9);
  let ex = [(a[0], 0), (a[1], 1), (a[2], 2), (b[0], 0), (b[1], 2)];
  let all = [0, a[0], a[1], a[2], b[0], b[1]];
  let mut t = w.tx();
  any_op(&mut t, &ex, &all, &[], false);
  if w.commit(t, 20) {
    reach(1);
    w.flush_redirect(40);
  }
}
/// several graphs at once, into an empty graph or not; empty graphs
pub fn c13_many() {
  let mut w = W::new();
  let mut prev = 0;
  let mut parts = vec![];
  let n = conc(range(0, 4) as usize);
  for k in 0..n {
    let mut v = W { ctx: w.ctx.clone(), g: Graph::new(&w.ctx), m: vec![] };
    let mut t = v.tx();
    for j in 0..conc(range(0, 2) as usize) {
      prev = t.insert(any_node(((k + j) % 3) as u8, prev));
    }
    v.setup(t);
    parts.push(v);
  }
  if flag() {
    let mut t = w.tx();
    t.insert(mb(prev, &[], &[], &[], any()));
    w.setup(t);
  }
  let mut t = w.tx();
  let one = flag();
  for v in parts {
    merge(&mut t, v);
    if one {
      let o = std::mem::replace(&mut t, w.tx());
      let ok = w.commit(o, 0);
      check(ok, 9);
    }
  }
  let ok = w.commit(t, 20);
  check(ok, 29);
  reach(1);
  w.flush_redirect(40);
}
/// a graph of another context is rejected, after a switch of context it is not
pub fn c13_other_context() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let mut v = W::new();
  let mut u = v.tx();
  for _ in 0..conc(range(0, 4) as usize) {
    u.alloc(3);
  }
  let mut u = v.tx();
  let n = alloc_abc(&mut u, 3);
  u.fill(n[0], ma(n[1], n[2], &[n[1], n[2]], &[n[2], 0, n[1]], 1010));
  u.fill(n[1], mb(n[2], &[n[0], n[1]], &[n[2], n[0]], &[n[1], n[2]], 1011));
  u.fill(n[2], mc(&[n[0], n[1], n[0]], 1012));
  v.setup(u);
  let mut t = w.tx();
  let p = t.insert(mc(&[ex[0].0], any()));
  if flag() {
    let tt = &mut t.t;
    let g = v.g;
    check(catch(|| tt.merge(g)), 50);
    reach(2);
    // what was recorded before is still good
    let ok = w.commit(t, 0);
    check(ok, 9);
    return;
  }
  let g = v.g.switch_context(&w.ctx);
  // the renaming is known from the data
  let mut map: Vec<(usize, usize)> = vec![];
  for (i, x) in g.iter() {
    let d = match x {
      N::A(x) => x.data,
      N::B(x) => x.data,
      N::C(x) => x.data,
    };
    let k = v.m.iter().position(|y| y.data == d);
    check(k.is_some(), 51);
    map.push((v.m[k.unwrap()].id, i.0));
  }
  check(map.len() == 3, 52);
  let ren = |x: usize| if x == 0 { 0 } else { map.iter().find(|y| y.0 == x).unwrap().1 };
  for x in v.m.iter_mut() {
    x.id = ren(x.id);
    for f in x.f.iter_mut() {
      for y in f.iter_mut() {
        *y = ren(*y);
      }
    }
  }
  t.t.merge(g);
  t.pend.extend(v.m);
  let ok = w.commit(t, 0);
  check(ok, 9);
  reach(1);
  let all = targets(&w);
  let mut t = w.tx();
  let i = pick(&all[1..]);
  if flag() {
    t.remove(i);
  } else {
    t.redirect(i, pick(&all[..2]));
  }
  if w.commit(t, 20) {
    w.flush_redirect(40);
  }
}
/// bidirectional links between the parts are completed
pub fn c13_bidirectional() {
  let mut d = bd::D::new(true);
  let n = bd::dense(&mut d);
  let mut e = bd::D::<bd::Bd> { w: crate::gen::W { ctx: d.w.ctx.clone(), g: Graph::new(&d.w.ctx), m: vec![] }, full: true, all: vec![] };
  let mut t = e.tx();
  let ids: Vec<usize> = n.iter().map(|x| x.0).collect();
  let l = pick(&ids);
  let q = t.alloc();
  let s = t.alloc();
  match range(0, 3) {
    0 => {
      t.fill(q, bd::Q, &[&[], &[l], &[], &[], &[s], &[l]]);
      t.fill(s, bd::S_, &[&[l], &[], &[l]]);
    },
    1 => {
      t.fill(q, bd::P, &[&[l], &[l], &[l], &[], &[], &[s]]);
      t.fill(s, bd::S_, &[&[], &[l], &[]]);
    },
    2 => {
      t.fill(q, bd::P, &[&[], &[], &[s], &[l], &[], &[l]]);
      t.fill(s, bd::P, &[]);
    },
    _ => {
      t.fill(q, bd::R_, &[&[s], &[l], &[l], &[]]);
      t.fill(s, bd::Q, &[&[l], &[], &[q], &[], &[], &[]]);
    },
  }
  e.setup(t);
  let mut t = d.tx();
  let bd::D { w, .. } = e;
  t.t.merge(w.g);
  t.pend.extend(w.m);
  if d.commit(t, 0) {
    reach(1);
  } else {
    reach(2);
  }
}
/// sizes
pub fn c13_wide() {
  let mut w = W::new();
  let n = any_size();
  let (hub, v) = star(&mut w, 5);
  let mut x = W { ctx: w.ctx.clone(), g: Graph::new(&w.ctx), m: vec![] };
  let mut t = x.tx();
  for k in 0..n {
    t.insert(any_node((k % 3) as u8, if k % 2 == 0 { hub } else { v[k % 5] }));
  }
  x.setup(t);
  let mut t = w.tx();
  merge(&mut t, x);
  w.commit(t, 0);
  reach(1);
  let mut t = w.tx();
  t.redirect(hub, v[0]);
  t.remove(v[pick(&[0, 1, 3])]);
  w.commit(t, 20);
}
crate::entries! { c13_links, c13_links2, c13_with, c13_pending, c13_alloc, c13_later, c13_many, c13_other_context, c13_bidirectional, c13_wide }
