//! Without the optional feature: the same graphs, fewer checks.
use crate::bd;
use crate::gen;
use crate::lt::*;
use crate::plain::*;
use crate::rt::*;
use crate::tok;
use ttgraph::serialize::*;
use ttgraph::*;

// histories without bidirectional links
fn base(w: &mut W) -> (Vec<(usize, u8)>, Tx, Vec<(usize, u8)>, Vec<usize>) {
  let ex = dense3(w);
  let mut t = w.tx();
  let p = t.insert(ma(ex[0].0, ex[1].0, &[ex[2].0], &[ex[0].0, 0], any()));
  let mut all = vec![0];
  for x in &ex {
    all.push(x.0)
  }
  all.push(p);
  (ex, t, vec![(p, 0)], all)
}
pub fn c20_one() {
  let mut w = W::new();
  let (ex, mut t, pend, all) = base(&mut w);
  any_op(&mut t, &ex, &all, &pend, false);
  if w.commit(t, 0) {
    reach(1);
    w.flush_redirect(20);
    w.flush_remove(40);
  } else {
    reach(2);
  }
}
pub fn c20_two() {
  let mut w = W::new();
  let (ex, mut t, pend, all) = base(&mut w);
  any_op(&mut t, &ex, &all, &pend, true);
  any_op(&mut t, &ex, &all, &pend, true);
  if w.commit(t, 0) {
    reach(1);
    w.flush_redirect(20);
  } else {
    reach(2);
  }
}
pub fn c20_commits() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let all = targets(&w);
  for k in 0..2 {
    let mut t = w.tx();
    any_op(&mut t, &ex, &all, &[], true);
    if !w.commit(t, 20 * k) {
      reach(2);
      return;
    }
  }
  reach(1);
}
// bidirectional upkeep
pub fn c20_single() {
  bd::edits::<bd::Bd>(true, &bd::SINGLE, 2, 0);
}
pub fn c20_set_single() {
  bd::edits::<bd::Bd>(true, &bd::SETSINGLE, 2, 0);
}
pub fn c20_list() {
  bd::edits::<bd::Bd>(true, &bd::LIST, 2, 0);
}
pub fn c20_owned() {
  bd::edits::<bd::Bd>(true, &bd::OWNED, 2, 0);
}
pub fn c20_group() {
  bd::edits::<bd::Bd>(true, &bd::GROUP, 2, 0);
}
pub fn c20_set_set() {
  bd::edits::<bd::Bd>(true, &bd::SETSET, 2, 0);
}
pub fn c20_twin() {
  bd::edits::<bd::Bd>(true, &bd::TWIN, 1, 0);
}
pub fn c20_peers() {
  bd::edits::<bd::Bd>(true, &bd::PEERS, 1, 0);
}
pub fn c20_any() {
  bd::ops(true, &[0], false, 0);
}
pub fn c20_some2() {
  bd::ops(true, &[2, 2], false, 0);
}
pub fn c20_history() {
  bd::history::<bd::Bd>(true, &bd::SETSINGLE, 2, 0);
}
pub fn c20_history_group() {
  bd::history::<bd::Bd>(true, &bd::GROUP, 1, 0);
}
pub fn c20_new_single() {
  bd::inserts::<bd::Bd>(true, &bd::SINGLE, 0);
}
pub fn c20_new_sets() {
  bd::inserts::<bd::Bd>(true, &bd::SETSINGLE, 0);
}
pub fn c20_new_group() {
  bd::inserts::<bd::Bd>(true, &bd::GROUP, 0);
}
pub fn c20_wide() {
  bd::wide(true, 0);
}
// link types are not enforced
fn typed_base(w: &mut LW) -> Vec<usize> {
  let mut t = w.tx();
  let n: Vec<usize> = (0..3).map(|_| t.alloc()).collect();
  let (a, b, c) = (n[0], n[1], n[2]);
  t.fill(a, 0, &[&[b], &[b, c], &[a, 0], &[c], &[b, c], &[b], &[c]]);
  t.fill(b, 1, &[&[c], &[a, b], &[a], &[c, a, b]]);
  t.fill(c, 2, &[&[a, b, c], &[b], &[], &[a, b]]);
  w.setup(t);
  n
}
pub fn c20_typed() {
  use gen::Schema;
  let mut w = LW::new();
  let n = typed_base(&mut w);
  let mut t = w.tx();
  let ty = conc(range(0, 2) as usize) as u8;
  let f = conc(range(0, Lt::kinds(ty).len() as u64 - 1) as usize);
  let x = pick(&n);
  match range(0, 2) {
    0 => t.edit(flag(), n[ty as usize], if flag() { gen::Edit::Put(f, x) } else { gen::Edit::Del(f, x) }),
    1 => t.redirect(x, pick(&n)),
    _ => {
      let mut m = gen::mn::<Lt>(ty, &[], any());
      m.f[f] = vec![x];
      t.insert(m);
    },
  }
  if w.commit(t, 0) {
    reach(if typed(&w.m) { 1 } else { 2 });
  }
}
// what is not a link type check or a self-check is still rejected
pub fn c20_rejected() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let mut t = w.tx();
  match range(0, 6) {
    0 => {
      t.alloc(conc(range(0, 3) as usize) as u8);
    },
    1 => {
      let c = Context::new();
      t = Tx::new(&c);
      t.insert(mc(&[], 1));
      let (g, tt) = (&mut w.g, t.t);
      check(catch(move || g.commit(tt)), 1);
      same(&w.g, &w.m, 0);
      reach(1);
      return;
    },
    2 => {
      let v = W::new();
      let tt = &mut t.t;
      let g = v.g;
      check(catch(|| tt.merge(g)), 2);
      reach(1);
      return;
    },
    3 => {
      t.redirect(ex[0].0, ex[1].0);
      t.redirect(ex[1].0, ex[0].0);
    },
    4 => {
      t.redirect_all(ex[0].0, ex[1].0);
      t.redirect_all(ex[1].0, ex[0].0);
    },
    5 => t.remove(ex[2].0 + 10),
    _ => t.mutate(ex[2].0 + 10, Edit::Data(5, 1)),
  }
  let ok = w.commit(t, 20);
  check(!ok, 29);
  reach(1);
}
/// switching, merging, recovering
pub fn c20_moves() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  match range(0, 2) {
    0 => {
      let s: Option<GraphSerializer<N>> = tok::de(tok::ser(&w.g));
      let (ctx, g) = deserialize_graph(s.unwrap());
      same(&g, &w.m, 0);
      w = W { ctx, g, m: w.m };
    },
    1 => {
      let mut v = W { ctx: w.ctx.clone(), g: Graph::new(&w.ctx), m: vec![] };
      let mut t = v.tx();
      t.insert(mb(ex[0].0, &[ex[1].0], &[], &[ex[2].0], any()));
      v.setup(t);
      let mut t = w.tx();
      t.t.merge(v.g);
      t.pend.extend(v.m);
      let ok = w.commit(t, 20);
      check(ok, 29);
    },
    _ => {
      let c = Context::new();
      let n = w.g.len();
      let g = w.g.switch_context(&c);
      check(g.len() == n, 1);
      let mut ids: Vec<usize> = vec![];
      for (i, x) in g.iter() {
        ids.push(i.0);
      }
      // each of the nodes is still linked by the others: removing it empties the links
      let mut g = g;
      let mut t = Transaction::new(&c);
      for i in &ids {
        t.remove(ix(*i));
      }
      check(!catch(|| g.commit(t)), 2);
      check(g.is_empty(), 3);
      reach(1);
      return;
    },
  }
  w.flush_redirect(40);
  w.flush_remove(60);
  reach(1);
}
crate::entries! { c20_one, c20_two, c20_commits, c20_single, c20_set_single, c20_list, c20_owned, c20_group, c20_set_set, c20_twin, c20_peers, c20_any, c20_some2, c20_history, c20_history_group, c20_new_single, c20_new_sets, c20_new_group, c20_wide, c20_typed, c20_rejected, c20_moves }
