//! A commit applies its operations in the documented order, and nothing else.
use crate::plain::*;
use crate::rt::*;
use ttgraph::*;

fn base(w: &mut W) -> (Vec<(usize, u8)>, Tx, Vec<(usize, u8)>, Vec<usize>) {
  let ex = dense3(w);
  let mut t = w.tx();
  let p = t.insert(ma(ex[0].0, ex[1].0, &[ex[2].0], &[ex[0].0, 0], any()));
  let mut all = vec![0];
  for x in &ex {
    all.push(x.0)
  }
  all.push(p);
  (ex, t, vec![(p, 0)], all)
}
/// two operations of any kind on a dense graph
pub fn c04_two() {
  let mut w = W::new();
  let (ex, mut t, pend, all) = base(&mut w);
  any_op(&mut t, &ex, &all, &pend, true);
  any_op(&mut t, &ex, &all, &pend, true);
  if w.commit(t, 0) {
    reach(1);
    w.flush_redirect(20);
  } else {
    reach(2);
  }
}
/// three operations of any kind
pub fn c04_three() {
  let mut w = W::new();
  let (ex, mut t, pend, all) = base(&mut w);
  any_op(&mut t, &ex, &all, &pend, true);
  any_op(&mut t, &ex, &all, &pend, true);
  any_op(&mut t, &ex, &all, &pend, true);
  if w.commit(t, 0) {
    reach(1);
    w.flush_redirect(20);
  }
}
/// one operation of every kind, symbolic operands, recorded in a symbolic order
pub fn c04_kinds() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let (a, b, c) = (ex[0].0, ex[1].0, ex[2].0);
  let all = [0, a, b, c];
  let ids = [a, b, c];
  let mut t = w.tx();
  let start = range(0, 5);
  let back = flag();
  let mut p = 0;
  for k in 0..6u64 {
    let op = if back { (start + 6 - k) % 6 } else { (start + k) % 6 };
    match op {
      0 => t.redirect(pick(&ids), pick(&all)),
      1 => t.redirect_all(pick(&ids), b),
      2 => t.mutate(a, Edit::Dir(0, pick(&all))),
      3 => t.update(a, Edit::At(3, 0, c)),
      4 => t.remove(pick(&ids)),
      _ => {
        p = t.insert(ma(c, 0, &[a, b], &[pick(&ids)], 5));
      },
    }
  }
  if w.commit(t, 0) {
    reach(1);
    w.flush_redirect(20);
  } else {
    reach(2);
  }
}
/// mutations and updates of the same nodes: recorded order within each kind, mutations first
pub fn c04_edit_order() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let (a, b, c) = (ex[0].0, ex[1].0, ex[2].0);
  let mut t = w.tx();
  let n = range(0, 5);
  for k in 0..5u64 {
    if k >= n {
      break;
    }
    let id = pick(&[a, b, c]);
    let e = Edit::Data(3, any());
    if flag() {
      t.mutate(id, e)
    } else {
      t.update(id, e)
    }
  }
  w.commit(t, 0);
  reach(1);
}
/// link edits of the same vector and set by several mutations and updates
pub fn c04_link_order() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let (a, b, c) = (ex[0].0, ex[1].0, ex[2].0);
  let all = [0, a, b, c];
  let mut t = w.tx();
  for _ in 0..3 {
    let m = flag();
    let (id, e) = match range(0, 6) {
      0 => (a, Edit::Dir(0, pick(&all))),
      1 => (a, Edit::Ins(2, a)),
      2 => (a, Edit::Del(2, b)),
      3 => (a, Edit::At(3, 1, pick(&all))),
      4 => (a, Edit::Pop(3)),
      5 => (c, Edit::Push(0, pick(&all))),
      _ => (b, Edit::Del(3, c)),
    };
    if m {
      t.mutate(id, e)
    } else {
      t.update(id, e)
    }
  }
  w.commit(t, 0);
  reach(1);
  w.flush_redirect(20);
}
/// three transactions of one operation each, of any kind
pub fn c04_history() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  for k in 0..2u32 {
    let mut t = w.tx();
    let e: Vec<(usize, u8)> = w.m.iter().map(|x| (x.id, x.ty)).collect();
    if e.is_empty() {
      break;
    }
    let mut all = vec![0];
    for x in &e {
      all.push(x.0)
    }
    any_op(&mut t, &e, &all, &[], k == 0);
    if !w.commit(t, 10 * k) {
      return;
    }
  }
  reach(1);
  w.flush_remove(60);
}
/// large graph, one operation: nothing else changes
pub fn c04_wide() {
  let mut w = W::new();
  let n = any_size();
  let (hub, v) = star(&mut w, n);
  assume(n >= 1);
  let x = v[range(0, (n - 1) as u64) as usize];
  let mut t = w.tx();
  match range(0, 5) {
    0 => t.redirect(hub, x),
    1 => t.redirect_all(x, hub),
    2 => t.remove(x),
    3 => t.mutate(x, Edit::Data(5, any())),
    4 => t.update(x, Edit::Data(5, any())),
    _ => {
      t.insert(mc(&[x, hub], any()));
    },
  }
  w.commit(t, 0);
  reach(1);
}
macro_rules! edit_as {
  ($t:ident, $v:path, $id:expr, $form:expr, $y:expr) => {
    match $form {
      0 => mut_node!($t, $v, $id, n, { n.data = n.data.wrapping_mul(3).wrapping_add($y) }),
      1 => mut_node!($t, $v, $id, |n| { n.data = n.data.wrapping_mul(3).wrapping_add($y) }),
      2 => mut_node!($t, $v, $id, move |n| { n.data = n.data.wrapping_mul(3).wrapping_add($y) }),
      3 => update_node!($t, $v, $id, n, {
        let mut n = n;
        n.data = n.data.wrapping_mul(3).wrapping_add($y);
        n
      }),
      4 => update_node!($t, $v, $id, |n| {
        let mut n = n;
        n.data = n.data.wrapping_mul(3).wrapping_add($y);
        n
      }),
      _ => update_node!($t, $v, $id, move |n| {
        let mut n = n;
        n.data = n.data.wrapping_mul(3).wrapping_add($y);
        n
      }),
    }
  };
}
/// typed edit helpers: they edit a node of the named type and panic on any other
pub fn c04_helpers() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let new = mb(ex[0].0, &[ex[1].0], &[], &[], any());
  let y = [any(), any()];
  let at = [conc(range(0, 3) as usize), conc(range(0, 3) as usize)];
  let named = [conc(range(0, 2) as usize), conc(range(0, 2) as usize)];
  let form = [conc(range(0, 5) as usize), conc(range(0, 5) as usize)];
  let mut ids = vec![ex[0].0, ex[1].0, ex[2].0];
  let mut id = 0;
  let (g, ctx) = (&mut w.g, &w.ctx);
  let p = catch(|| {
    let mut t: Transaction<N> = Transaction::new(ctx);
    id = t.insert(real(&new)).0;
    ids.push(id);
    let i = NodeIndex(ids[at[0]]);
    match named[0] {
      0 => edit_as!(t, N::A, i, form[0], y[0]),
      1 => edit_as!(t, N::B, i, form[0], y[0]),
      _ => edit_as!(t, N::C, i, form[0], y[0]),
    }
    let i = NodeIndex(ids[at[1]]);
    match named[1] {
      0 => edit_as!(t, N::A, i, form[1], y[1]),
      1 => edit_as!(t, N::B, i, form[1], y[1]),
      _ => edit_as!(t, N::C, i, form[1], y[1]),
    }
    g.commit(t);
  });
  let ty = [ex[0].1 as usize, ex[1].1 as usize, ex[2].1 as usize, 1];
  check(p != (named[0] == ty[at[0]] && named[1] == ty[at[1]]), 1);
  if p {
    reach(2);
    return;
  }
  let mut new = new;
  new.id = id;
  w.m.push(new);
  // a committed node is mutated before it is updated
  let swap = at[0] == at[1] && at[0] < 3 && form[0] > 2 && form[1] < 3;
  for k in if swap { [1, 0] } else { [0, 1] } {
    edit_model(&mut w.m[at[k]], Edit::Data(3, y[k]));
  }
  same(&w.g, &w.m, 10);
  reach(1);
  w.flush_redirect(20);
}
crate::entries! { c04_helpers, c04_two, c04_three, c04_kinds, c04_edit_order, c04_link_order, c04_history, c04_wide }
