//! Serialization round-trips the graph and its context.
use crate::bd;
use crate::gen;
use crate::plain::*;
use crate::rt::*;
use crate::tok;
use ttgraph::serialize::*;
use ttgraph::*;

/// the three ways of taking a graph through its serialized form
fn through<T: NodeEnum + Clone + serde::Serialize + for<'a> serde::Deserialize<'a> + 'static>(g: Graph<T>, way: u64) -> (Context, Graph<T>) {
  match way {
    0 => {
      let t = tok::ser(&g);
      let s: Option<GraphSerializer<T>> = tok::de(t);
      check(s.is_some(), 60);
      deserialize_graph(s.unwrap())
    },
    1 => deserialize_graph(GraphSerializer::from(g)),
    _ => {
      let t = tok::ser(&GraphSerializer::from(g));
      let s: Option<GraphSerializer<T>> = tok::de(t);
      check(s.is_some(), 60);
      deserialize_graph(s.unwrap())
    },
  }
}
fn recover(w: W, way: u64, id: u32) -> W {
  let W { g, m, .. } = w;
  let (ctx, g) = through(g, way);
  same(&g, &m, id);
  W { ctx, g, m }
}
/// the next index is beyond every index in use
fn beyond(w: &W, p: usize, id: u32) {
  for x in &w.m {
    check(p > x.id, id);
  }
  check(p != 0, id);
}
fn go_on(w: &mut W, id: u32) {
  let ids: Vec<usize> = w.m.iter().map(|x| x.id).collect();
  let mut t = w.tx();
  let p = t.insert(any_node(conc(range(0, 2) as usize) as u8, ids[0]));
  beyond(w, p, id + 9);
  match range(0, 3) {
    0 => t.remove(pick(&ids)),
    1 => t.redirect(pick(&ids), p),
    2 => t.redirect_all(pick(&ids), p),
    _ => {
      for x in &w.m {
        if x.ty == 0 {
          t.mutate(x.id, Edit::Dir(0, p));
          t.update(x.id, Edit::Ins(2, p));
        }
      }
    },
  }
  let ok = w.commit(t, id);
  check(ok, id + 9);
  w.flush_redirect(id + 20);
}
/// every content
pub fn c14_links() {
  let mut w = W::new();
  let mut t = w.tx();
  let n = alloc_abc(&mut t, 3);
  let l = [0, n[0], n[1], n[2]];
  let r = || pick(&l);
  t.fill(n[0], ma(r(), n[2], &[r(), n[1]], &[r(), n[2], 0, n[0]], any()));
  t.fill(n[1], mb(r(), &[n[0], n[2]], &[r(), n[0]], &[n[1], n[2]], any()));
  t.fill(n[2], mc(&[n[1], 0, n[1]], any()));
  w.setup(t);
  let mut w = recover(w, 0, 0);
  reach(1);
  w.flush_redirect(20);
}
pub fn c14_links2() {
  let mut w = W::new();
  let mut t = w.tx();
  let n = alloc_abc(&mut t, 3);
  let l = [0, n[0], n[1], n[2]];
  let r = || pick(&l);
  t.fill(n[0], ma(n[0], r(), &[n[0], n[1], n[2]], &[n[1]], any()));
  t.fill(n[1], mb(0, &[r(), n[1]], &[n[2], n[0]], &[r(), n[0]], any()));
  t.fill(n[2], mc(&[r(), 0, r(), n[2]], any()));
  w.setup(t);
  let mut w = recover(w, range(1, 2), 0);
  reach(1);
  w.flush_redirect(20);
}
/// gaps in the indices, left by removed, given up and dropped nodes; then used further
pub fn c14_gaps() {
  let mut w = W::new();
  let mut t = w.tx();
  let n = alloc_abc(&mut t, 5);
  t.fill(n[3], ma(n[1], n[4], &[n[1], n[0], n[4]], &[n[2], 0, n[1]], any()));
  t.fill(n[0], ma(n[1], 0, &[n[3], n[2]], &[n[2], 0, n[1]], any()));
  t.fill(n[4], mb(n[2], &[n[0]], &[n[2], n[3]], &[n[1], n[4]], any()));
  t.fill(n[1], mb(n[2], &[n[0], n[4]], &[n[2], n[0]], &[n[1], n[2]], any()));
  t.fill(n[2], mc(&[n[0], n[1], n[3], n[4]], any()));
  w.setup(t);
  let mut t = w.tx();
  t.insert(mc(&[], 1));
  t.t.give_up();
  let mut t = w.tx();
  let mut left = 5;
  for k in 0..5 {
    if flag() {
      t.remove(n[k]);
      left -= 1;
    }
  }
  assume(left > 0);
  w.setup(t);
  let way = range(0, 2);
  let mut w = recover(w, way, 0);
  go_on(&mut w, 20);
  reach(1);
}
/// an operation of any kind on the recovered graph
pub fn c14_later() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let mut w = recover(w, 0, 0);
  let mut t = w.tx();
  let p = t.insert(mc(&[ex[0].0, ex[1].0], any()));
  beyond(&w, p, 9);
  let all = [0, ex[0].0, ex[1].0, ex[2].0, p];
  any_op(&mut t, &ex, &all, &[(p, 2)], false);
  if w.commit(t, 20) {
    reach(1);
    w.flush_redirect(40);
  }
}
/// a history before: the recovered graph reflects the last state, type changes included
pub fn c14_history() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let all = [0, ex[0].0, ex[1].0, ex[2].0];
  let mut t = w.tx();
  match range(0, 1) {
    0 => any_op(&mut t, &ex, &all, &[], true),
    _ => t.update(pick(&all[1..]), Edit::Become(range(0, 2) as u8, pick(&all), any())),
  }
  let ok = w.model(&t);
  assume(ok);
  w.g.commit(t.t);
  assume(w.m.len() > 0);
  let mut w = recover(w, range(0, 2), 0);
  // and once more
  let mut w = recover(w, 0, 20);
  reach(1);
  let mut t = w.tx();
  let p = t.insert(mc(&[], any()));
  beyond(&w, p, 39);
  t.remove(w.m[0].id);
  w.commit(t, 40);
}
/// the recovered context is the same context: transactions of the original one are accepted,
/// and the other way round; a new context is not
pub fn c14_identity() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let old = w.ctx.clone();
  let t0 = tok::ser(&w.g);
  let s: Option<GraphSerializer<N>> = tok::de(t0);
  let (ctx, g) = deserialize_graph(s.unwrap());
  let mut r = W { ctx, g, m: w.m.clone() };
  let i = ex[0].0;
  match range(0, 3) {
    0 => {
      // a transaction of the original context on the recovered graph
      let mut t = Tx::new(&old);
      t.mutate(i, Edit::Data(5, 1));
      t.remove(ex[1].0);
      let ok = r.commit(t, 0);
      check(ok, 9);
    },
    1 => {
      let mut t = Tx::new(&r.ctx);
      t.mutate(i, Edit::Data(5, 1));
      t.redirect(ex[1].0, i);
      let ok = w.commit(t, 0);
      check(ok, 9);
    },
    2 => {
      // merging the recovered graph of a part
      let mut v = W { ctx: old.clone(), g: Graph::new(&old), m: vec![] };
      let mut t = v.tx();
      let j = t.insert(mc(&[i, 0, ex[1].0], any()));
      v.setup(t);
      let v = recover(v, range(0, 2), 40);
      let mut t = w.tx();
      t.t.merge(v.g);
      t.pend.extend(v.m);
      let ok = w.commit(t, 0);
      check(ok, 9);
      w.flush_redirect(20);
    },
    _ => {
      let c = Context::new();
      let mut t = Tx::new(&c);
      t.insert(mc(&[], 1));
      let g = &mut r.g;
      let tt = t.t;
      check(catch(move || g.commit(tt)), 50);
      reach(2);
      return;
    },
  }
  reach(1);
}
/// any indices at all, also large ones; duplicates are rejected
pub fn c14_any_index() {
  let a = any() as usize;
  let b = any() as usize;
  let c = any() as usize;
  for x in [a, b, c] {
    assume(x > 0 && x < (1 << 62));
  }
  let mk = |k: usize| -> MN {
    let mut m = match k {
      0 => ma(b, 0, &[], &[b, 0, a], any()),
      1 => ma(0, a, &[], &[a], any()),
      _ => mc(&[a, 0, b], any()),
    };
    m.id = [a, b, c][k];
    m
  };
  let n = conc(range(2, 3) as usize);
  let m: Vec<MN> = (0..n).map(mk).collect();
  let dup = a == b || (n > 2 && (a == c || b == c));
  let nodes: Vec<(usize, N)> = m.iter().map(|x| (x.id, real(x))).collect();
  let s = tok::graph_of(nodes);
  let mut r: Option<(Context, Graph<N>)> = None;
  {
    let rr = &mut r;
    let p = catch(move || *rr = Some(deserialize_graph(s)));
    check(p == dup, 1);
    if p {
      reach(2);
      return;
    }
  }
  let (ctx, g) = r.unwrap();
  same(&g, &m, 0);
  let mut w = W { ctx, g, m };
  let mut t = w.tx();
  let p = t.insert(mc(&[a], any()));
  beyond(&w, p, 9);
  t.remove(b);
  let ok = w.commit(t, 20);
  check(ok, 29);
  reach(1);
}
/// duplicated index, of the same or another type, anywhere
pub fn c14_duplicate() {
  let n = conc(range(2, 5) as usize);
  let i = conc(range(0, n as u64 - 1) as usize);
  let j = conc(range(0, n as u64 - 1) as usize);
  let mut nodes = vec![];
  for k in 0..n {
    let id = if k == i { j } else { k };
    let m = any_node(conc(range(0, 2) as usize) as u8, 1 + (k + 1) % n);
    nodes.push((id + 1, real(&m)));
  }
  let s = tok::graph_of(nodes);
  let p = catch(move || {
    let r = deserialize_graph(s);
    check(r.1.len() == n, 2);
  });
  check(p == (i != j), 1);
  if p {
    reach(2);
  } else {
    reach(1);
  }
}
/// the empty graph
pub fn c14_empty() {
  let mut w = W::new();
  if flag() {
    let ex = dense3(&mut w);
    let mut t = w.tx();
    for x in ex {
      t.remove(x.0);
    }
    w.setup(t);
  }
  let mut w = recover(w, range(0, 2), 0);
  check(w.g.is_empty(), 9);
  let mut t = w.tx();
  let a = t.insert(ma(0, 0, &[], &[], any()));
  let b = t.insert(mb(a, &[a], &[a], &[a], any()));
  check(a != b && a != 0 && b != 0, 9);
  let ok = w.commit(t, 20);
  check(ok, 29);
  reach(1);
  w.flush_redirect(40);
}
/// bidirectional upkeep continues
pub fn c14_bidirectional() {
  let mut d = bd::D::new(true);
  let n = bd::dense(&mut d);
  let w = d.w;
  let (ctx, g) = through(w.g, range(0, 2));
  let mut d = bd::D::<bd::Bd> { w: gen::W { ctx, g, m: w.m }, full: true, all: d.all };
  d.w.same(0);
  let mut t = d.tx();
  bd::any_op(&mut t, &n, 0);
  if d.commit(t, 20) {
    reach(1);
  } else {
    reach(2);
  }
}
/// sizes
pub fn c14_wide() {
  let mut w = W::new();
  let n = any_size();
  let (hub, v) = star(&mut w, n);
  if n > 3 {
    let mut t = w.tx();
    t.remove(v[pick(&[0, 2, 3])]);
    w.setup(t);
  }
  let mut w = recover(w, range(0, 2), 0);
  let mut t = w.tx();
  let p = t.insert(mc(&[hub], any()));
  beyond(&w, p, 19);
  if flag() {
    t.redirect(hub, p);
  } else {
    t.remove(hub);
  }
  let ok = w.commit(t, 20);
  check(ok, 29);
  reach(1);
}
crate::entries! { c14_links, c14_links2, c14_gaps, c14_later, c14_history, c14_identity, c14_any_index, c14_duplicate, c14_empty, c14_bidirectional, c14_wide }
