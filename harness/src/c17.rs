//! Reverse-link tracking stays exact over any history.
use crate::bd;
use crate::gen;
use crate::plain::*;
use crate::rt::*;
use crate::tok;
use ttgraph::serialize::*;
use ttgraph::*;

fn internal(m: &[MN]) -> bool {
  m.iter().all(|n| n.f.iter().all(|f| f.iter().all(|x| *x == 0 || find(m, *x).is_some())))
}
/// the self-checks say what is true
fn self_check(g: &Graph<N>, m: &[MN], id: u32) {
  check(!catch(|| g.check_backlinks()), id + 10);
  check(catch(|| g.check_integrity()) == !internal(m), id + 11);
}
fn commit(w: &mut W, t: Tx, id: u32) -> bool {
  if !w.commit(t, id) {
    return false;
  }
  self_check(&w.g, &w.m, id);
  true
}
fn finish(w: &mut W, id: u32) {
  reach(1);
  w.flush_redirect(id);
  self_check(&w.g, &w.m, id);
}
fn graph_with(w: &mut W, variant: u64) -> [usize; 4] {
  let mut t = w.tx();
  let n = alloc_abc(&mut t, 3);
  let gone = t.alloc(3);
  t.remove(gone);
  let l = [0, n[0], n[1], n[2], gone];
  let r = || pick(&l);
  match variant {
    0 => {
      t.fill(n[0], ma(r(), n[1], &[r()], &[r(), n[0]], any()));
      t.fill(n[1], mb(n[2], &[n[0]], &[r(), n[0]], &[], any()));
      t.fill(n[2], mc(&[n[0]], any()));
    },
    _ => {
      t.fill(n[0], ma(n[1], r(), &[n[2]], &[n[0], 0], any()));
      t.fill(n[1], mb(0, &[r()], &[n[0]], &[r(), n[1]], any()));
      t.fill(n[2], mc(&[r(), n[1], 0], any()));
    },
  }
  let ok = commit(w, t, 0);
  check(ok, 9);
  [n[0], n[1], n[2], gone]
}
/// any contents, also links to nodes outside
pub fn c17_fields() {
  let mut w = W::new();
  let v = range(0, 1);
  let n = graph_with(&mut w, v);
  let mut t = w.tx();
  match range(0, 2) {
    0 => t.remove(pick(&n[..3])),
    1 => t.redirect(pick(&n[..3]), pick(&[0, n[0], n[1]])),
    _ => t.mutate(n[0], Edit::Dir(0, pick(&[0, n[2]]))),
  }
  if commit(&mut w, t, 20) {
    reach(1);
  }
}
fn step(w: &mut W, ex: &[(usize, u8)], few: bool, id: u32) -> bool {
  let mut all = vec![0];
  all.extend(ex.iter().map(|x| x.0));
  let mut t = w.tx();
  any_op(&mut t, ex, &all, &[], few);
  commit(w, t, id)
}
pub fn c17_commits() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  if step(&mut w, &ex, false, 0) && step(&mut w, &ex, true, 20) {
    finish(&mut w, 40);
  }
}
/// operations of two kinds in one transaction, on committed and pending nodes
pub fn c17_two() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let mut t = w.tx();
  let p = t.insert(mb(ex[1].0, &[ex[0].0], &[ex[2].0], &[ex[0].0, ex[1].0], any()));
  let all = [0, ex[0].0, ex[1].0, ex[2].0, p];
  any_op(&mut t, &ex, &all, &[(p, 1)], false);
  any_op(&mut t, &ex, &all, &[(p, 1)], true);
  if commit(&mut w, t, 0) {
    reach(1);
  }
}
/// several links of one node to the same target, taken away one by one
pub fn c17_multiple() {
  let mut w = W::new();
  let mut t = w.tx();
  let n = alloc_abc(&mut t, 3);
  t.fill(n[0], ma(n[1], n[1], &[n[1], n[2]], &[n[1], n[1], n[2], n[1]], any()));
  t.fill(n[1], mb(n[2], &[n[2]], &[n[2]], &[n[2]], any()));
  t.fill(n[2], mc(&[n[0], n[0], n[0]], any()));
  w.setup(t);
  for k in 0..2 {
    let mut t = w.tx();
    match range(0, 9) {
      0 => t.mutate(n[0], Edit::Dir(k, pick(&[0, n[0]]))),
      1 => t.mutate(n[0], Edit::Pop(3)),
      2 => t.mutate(n[0], Edit::At(3, conc(range(0, 3) as usize), pick(&[0, n[1], n[2]]))),
      3 => t.mutate(n[0], Edit::Del(2, n[1])),
      4 => t.update(n[1], Edit::Del(conc(range(1, 3) as usize), n[2])),
      5 => t.update(n[2], Edit::At(0, 1, pick(&[0, n[1]]))),
      6 => t.update(n[2], Edit::Pop(0)),
      7 => t.redirect(n[1], n[2]),
      8 => t.redirect_all(n[2], pick(&[n[1], 0])),
      _ => t.mutate(n[0], Edit::Push(3, n[1])),
    }
    if !commit(&mut w, t, 20 * k as u32) {
      return;
    }
  }
  finish(&mut w, 40);
}
/// nodes that change their type
pub fn c17_become() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let all = [0, ex[0].0, ex[1].0, ex[2].0];
  let k = conc(range(0, 2) as usize);
  let ty = conc(range(0, 2) as usize) as u8;
  let mut t = w.tx();
  let e = Edit::Become(ty, pick(&all), any());
  if flag() {
    t.mutate(ex[k].0, e);
  } else {
    t.update(ex[k].0, e);
  }
  let ok = commit(&mut w, t, 0);
  check(ok, 9);
  let mut ex = ex;
  ex[k].1 = ty;
  if step(&mut w, &ex, true, 20) {
    finish(&mut w, 40);
  }
}
pub fn c17_merge() {
  let mut w = W::new();
  let mut v = W { ctx: w.ctx.clone(), g: Graph::new(&w.ctx), m: vec![] };
  let ex = dense3(&mut w);
  let l = [0, ex[0].0, ex[1].0, ex[2].0];
  let mut t = v.tx();
  let a = t.insert(ma(pick(&l), 0, &[pick(&l)], &[ex[0].0, pick(&l)], any()));
  t.insert(mb(a, &[a, pick(&l)], &[ex[1].0], &[pick(&l)], any()));
  let ok = commit(&mut v, t, 0);
  check(ok, 9);
  let mut t = w.tx();
  let W { g, m, .. } = v;
  t.t.merge(g);
  t.pend.extend(m);
  match range(0, 3) {
    0 => t.redirect(ex[0].0, a),
    1 => t.redirect_all(ex[1].0, a),
    2 => t.remove(a),
    _ => {},
  }
  if commit(&mut w, t, 20) {
    finish(&mut w, 40);
  }
}
pub fn c17_switch() {
  let mut w = W::new();
  let mut t = w.tx();
  let n = alloc_abc(&mut t, 3);
  let l = [0, n[0], n[1], n[2]];
  let r = || pick(&l);
  t.fill(n[0], ma(r(), n[1], &[r(), n[0]], &[r(), n[0]], any()));
  t.fill(n[1], mb(r(), &[n[0], n[2]], &[r(), n[0]], &[n[1]], any()));
  t.fill(n[2], mc(&[n[0], 0, n[0], n[1]], any()));
  w.setup(t);
  let c = if flag() { Context::new() } else { w.ctx.clone() };
  let g = w.g.switch_context(&c);
  check(!catch(|| g.check_backlinks()), 10);
  check(!catch(|| g.check_integrity()), 11);
  // later transactions reach every link: cut them all
  let ids: Vec<NodeIndex> = g.iter().map(|x| x.0).collect();
  check(ids.len() == 3, 1);
  let mut g = g;
  let mut t = Transaction::<N>::new(&c);
  let f = t.insert(real(&mc(&[], 0)));
  let fr = if flag() { f } else { NodeIndex::empty() };
  for i in &ids {
    t.redirect_links(*i, fr);
  }
  g.commit(t);
  check(!catch(|| g.check_backlinks()), 12);
  for (_, x) in g.iter() {
    for (y, _) in x.iter_sources() {
      check(y == f, 13);
    }
  }
  reach(1);
}
pub fn c17_recovered() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let mut t = w.tx();
  let p = t.insert(mc(&[ex[0].0, pick(&[ex[1].0, ex[2].0])], any()));
  t.mutate(ex[0].0, Edit::Ins(2, p));
  if flag() {
    t.remove(ex[1].0);
  }
  w.setup(t);
  let W { g, m, .. } = w;
  let (ctx, g) = if flag() {
    let s: Option<GraphSerializer<N>> = tok::de(tok::ser(&g));
    deserialize_graph(s.unwrap())
  } else {
    deserialize_graph(GraphSerializer::from(g))
  };
  self_check(&g, &m, 0);
  let mut w = W { ctx, g, m };
  let ex: Vec<(usize, u8)> = w.m.iter().map(|x| (x.id, x.ty)).collect();
  if step(&mut w, &ex, true, 20) {
    finish(&mut w, 40);
  }
}
fn bd_check(d: &bd::D, id: u32) {
  let g = &d.w.g;
  check(!catch(|| g.check_backlinks()), id + 10);
  let m = &d.w.m;
  let inner = m.iter().all(|n| n.f.iter().all(|f| f.iter().all(|x| *x == 0 || gen::find(m, *x).is_some())));
  check(catch(|| g.check_integrity()) == !inner, id + 11);
}
pub fn c17_bidirectional() {
  let mut d = bd::D::new(true);
  let n = bd::dense(&mut d);
  let mut t = d.tx();
  bd::any_op(&mut t, &n, 0);
  if d.commit(t, 0) {
    bd_check(&d, 0);
    reach(1);
  }
}
pub fn c17_bidirectional2() {
  let mut d = bd::D::new(true);
  let n = bd::dense(&mut d);
  for k in 0..2 {
    let mut t = d.tx();
    bd::any_op(&mut t, &n, 1 + k);
    if !d.commit(t, 20 * k as u32) {
      return;
    }
    bd_check(&d, 20 * k as u32);
  }
  reach(1);
}
/// every pair of operations within one transaction
pub fn c17_bidirectional3() {
  let mut d = bd::D::new(true);
  let n = bd::dense(&mut d);
  let mut t = d.tx();
  bd::any_op(&mut t, &n, 1);
  bd::any_op(&mut t, &n, 2);
  if d.commit(t, 0) {
    bd_check(&d, 0);
    reach(1);
  }
}
pub fn c17_wide() {
  let mut w = W::new();
  let n = any_size();
  let (hub, v) = star(&mut w, n);
  self_check(&w.g, &w.m, 0);
  let mut t = w.tx();
  match range(0, 3) {
    0 => t.remove(hub),
    1 => {
      for k in 0..n {
        if k % 3 != 1 {
          t.remove(v[k]);
        }
      }
    },
    2 => {
      let f = t.insert(mc(&[hub], 3));
      t.redirect_all(hub, f);
    },
    _ => {
      for k in 0..n {
        t.redirect(v[k], if k + 1 < n { v[k + 1] } else { hub });
      }
    },
  }
  let ok = commit(&mut w, t, 20);
  check(ok, 29);
  reach(1);
}
crate::entries! { c17_fields, c17_commits, c17_two, c17_multiple, c17_become, c17_merge, c17_switch, c17_recovered, c17_bidirectional, c17_bidirectional2, c17_bidirectional3, c17_wide }
