//! Transactions and graphs of different contexts are not mixed.
use crate::plain::*;
use crate::rt::*;
use crate::tok;
use ttgraph::serialize::*;
use ttgraph::*;

/// contexts of three identities; `class` says which are the same
struct World {
  ctx: Vec<Context>,
  class: Vec<usize>,
  /// graphs with their class and content
  gs: Vec<(Option<Graph<N>>, usize, Vec<MN>)>,
}
fn build(ctx: &Context, k: u64) -> W {
  let mut w = W { ctx: ctx.clone(), g: Graph::new(ctx), m: vec![] };
  let mut t = w.tx();
  let n = alloc_abc(&mut t, 3);
  t.fill(n[0], ma(n[1], n[2], &[n[1], n[2]], &[n[2], 0, n[1]], k));
  t.fill(n[1], mb(n[2], &[n[0], n[1]], &[n[2], n[0]], &[n[1], n[2]], k + 1));
  t.fill(n[2], mc(&[n[0], n[1], n[0]], k + 2));
  w.setup(t);
  w
}
fn copy(g: &Graph<N>) -> (Context, Graph<N>) {
  let s: Option<GraphSerializer<N>> = tok::de(tok::ser(g));
  deserialize_graph(s.unwrap())
}
fn world() -> World {
  let c0 = Context::new();
  let c1 = Context::new();
  let c2 = c0.clone();
  let c4 = Context::default();
  let g2 = build(&c2, 10);
  let g1 = build(&c1, 20);
  let g4 = build(&c4, 30);
  let e1: Graph<N> = Graph::new(&c1);
  let g0 = build(&c0, 40);
  let (c3, g3) = copy(&g0.g);
  let (c6, e6) = copy(&e1);
  let (c7, g7) = deserialize_graph(GraphSerializer::from(copy(&g1.g).1));
  let c5 = c3.clone();
  // a graph that has come to another context
  let sw = Graph::<N>::new(&c1).switch_context(&c0);
  let sw2 = Graph::<N>::new(&c0).switch_context(&c4);
  World {
    ctx: vec![c0, c1, c2, c3, c4, c5, c6, c7],
    class: vec![0, 1, 0, 0, 2, 0, 1, 1],
    gs: vec![
      (Some(g0.g), 0, g0.m.clone()),
      (Some(g1.g), 1, g1.m.clone()),
      (Some(g2.g), 0, g2.m),
      (Some(g3), 0, g0.m),
      (Some(g4.g), 2, g4.m),
      (Some(e1), 1, vec![]),
      (Some(e6), 1, vec![]),
      (Some(g7), 1, g1.m),
      (Some(sw), 0, vec![]),
      (Some(sw2), 2, vec![]),
    ],
  }
}
/// a transaction of any kind
fn record(t: &mut Tx, m: &[MN], kind: usize) {
  if kind == 0 {
    return;
  }
  if kind == 1 {
    t.insert(mc(&[], any()));
    return;
  }
  if kind == 2 {
    let i = t.alloc(0);
    t.fill(i, ma(i, i, &[i], &[i], any()));
    return;
  }
  if kind == 3 {
    let i = t.insert(mc(&[], any()));
    t.remove(i);
    return;
  }
  if m.is_empty() {
    return;
  }
  let (a, b) = (m[0].id, m[1].id);
  match kind {
    4 => t.mutate(a, Edit::Data(any(), 1)),
    5 => t.update(a, Edit::Data(any(), 1)),
    6 => t.remove(b),
    7 => t.redirect(a, b),
    _ => t.redirect_all(a, b),
  }
}
/// context 6 was recovered from an empty graph and hands out the indices of its origin again
fn collides(ci: usize, m: &[MN]) -> bool {
  ci == 6 && !m.is_empty()
}
fn commits(checked: bool) {
  let mut w = world();
  let gi = conc(range(0, w.gs.len() as u64 - 1) as usize);
  let ci = conc(range(0, w.ctx.len() as u64 - 1) as usize);
  let same_ctx = w.class[ci] == w.gs[gi].1;
  let (g, _, m) = &mut w.gs[gi];
  let mut t = Tx::new(&w.ctx[ci]);
  let kind = conc(range(0, 8) as usize);
  if collides(ci, m) && kind < 4 {
    return;
  }
  record(&mut t, m, kind);
  let mut v = W { ctx: w.ctx[ci].clone(), g: g.take().unwrap(), m: m.clone() };
  let go = |g: &mut Graph<N>, t: Transaction<'static, N>| {
    #[cfg(feature = "dbg")]
    if checked {
      let k = ttgraph::check::GraphCheck::new();
      g.commit_checked(t, &k);
      return;
    }
    g.commit(t)
  };
  if same_ctx {
    let ok = v.model(&t);
    let (g, tt) = (&mut v.g, t.t);
    let p = catch(move || go(g, tt));
    check(!p && ok, 9);
    same(&v.g, &v.m, 10);
    reach(1);
  } else {
    let (g, tt) = (&mut v.g, t.t);
    let p = catch(move || go(g, tt));
    check(p, 20);
    same(&v.g, &v.m, 20);
    reach(2);
    // and it can be used further by its own context
    let k = (0..w.ctx.len()).find(|k| w.class[*k] == w.gs[gi].1 && *k < 5).unwrap();
    let mut t = Tx::new(&w.ctx[k]);
    for x in &v.m {
      t.remove(x.id);
    }
    let ok = v.commit(t, 30);
    check(ok, 39);
  }
}
pub fn c19_commit() {
  commits(false);
}
pub fn c19_commit_checked() {
  commits(true);
}
/// merging
pub fn c19_merge() {
  let mut w = world();
  let gi = conc(range(0, w.gs.len() as u64 - 1) as usize);
  let ci = conc(range(0, w.ctx.len() as u64 - 1) as usize);
  let same_ctx = w.class[ci] == w.gs[gi].1;
  let mut t = Tx::new(&w.ctx[ci]);
  let kind = conc(range(0, 3) as usize);
  if collides(ci, &w.gs[gi].2) && kind > 0 {
    return;
  }
  record(&mut t, &[], kind);
  let (g, _, m) = &mut w.gs[gi];
  let (g, m) = (g.take().unwrap(), m.clone());
  let tt = &mut t.t;
  let p = catch(|| tt.merge(g));
  check(p != same_ctx, 1);
  if same_ctx {
    t.pend.extend(m);
    reach(1);
  } else {
    reach(2);
  }
  // the transaction holds what was recorded, and the merged nodes if any
  let c = w.ctx[ci].clone();
  let mut v = W { g: Graph::new(&c), ctx: c, m: vec![] };
  check(t.t.is_empty() == t.pend.is_empty(), 2);
  let ok = v.commit(t, 10);
  check(ok, 19);
}
/// any number of contexts: a transaction is accepted by its own only
pub fn c19_many() {
  let n = conc(range(2, 6) as usize);
  let ctx: Vec<Context> = (0..n).map(|k| if k % 2 == 0 { Context::new() } else { Context::default() }).collect();
  let a = conc(range(0, n as u64 - 1) as usize);
  let b = conc(range(0, n as u64 - 1) as usize);
  let mut g: Graph<N> = Graph::new(&ctx[a]);
  let t: Transaction<N> = Transaction::new(&ctx[b]);
  let gg = &mut g;
  let p = catch(move || gg.commit(t));
  check(p == (a != b), 1);
  let h: Graph<N> = Graph::new(&ctx[b]);
  let mut t: Transaction<N> = Transaction::new(&ctx[a]);
  let p = catch(|| t.merge(h));
  check(p == (a != b), 2);
  reach(if a == b { 1 } else { 2 });
}
/// a graph takes on the context it is switched to, and only that
pub fn c19_switched() {
  let c0 = Context::new();
  let c1 = Context::new();
  let w = build(&c0, 10);
  let twice = flag();
  let mut g = w.g.switch_context(&c1);
  if twice {
    g = g.switch_context(&c0);
  }
  let use_old = flag();
  let right = (use_old && twice) || (!use_old && !twice);
  let c = if use_old { &c0 } else { &c1 };
  let ids: Vec<usize> = {
    let mut v: Vec<usize> = g.iter().map(|(i, _)| i.0).collect();
    v.sort();
    v
  };
  let mut t: Transaction<N> = Transaction::new(c);
  if flag() {
    t.remove(ix(ids[0]));
    let gg = &mut g;
    let p = catch(move || gg.commit(t));
    check(p != right, 1);
    check(g.len() == if right { 2 } else { 3 }, 2);
  } else {
    let p = catch(|| t.merge(g));
    check(p != right, 3);
  }
  reach(if right { 1 } else { 2 });
}
crate::entries! { c19_commit, c19_commit_checked, c19_merge, c19_many, c19_switched }
