//! Removing nodes leaves no link pointing at them.
use crate::plain::*;
use crate::rt::*;
use ttgraph::NodeIndex;

/// three nodes, every field of every kind holding a symbolic target, symbolic set of removed nodes
pub fn c05_fields() {
  let mut w = W::new();
  let mut t = w.tx();
  let n = alloc_abc(&mut t, 3);
  let l = [0, n[0], n[1], n[2]];
  let r = || pick(&l);
  let (x, y, z) = (any(), any(), any());
  t.fill(n[0], ma(r(), 0, &[r()], &[r(), n[1]], x));
  t.fill(n[1], mb(r(), &[r(), n[2]], &[n[0]], &[], y));
  t.fill(n[2], mc(&[n[0], r()], z));
  w.setup(t);
  remove_some(&mut w, &n);
}
/// the other fields
pub fn c05_fields2() {
  let mut w = W::new();
  let mut t = w.tx();
  let n = alloc_abc(&mut t, 3);
  let l = [0, n[0], n[1], n[2]];
  let r = || pick(&l);
  let (x, y, z) = (any(), any(), any());
  t.fill(n[0], ma(n[2], r(), &[n[0], n[1]], &[], x));
  t.fill(n[1], mb(n[0], &[], &[r(), r()], &[r(), n[0]], y));
  t.fill(n[2], mc(&[r(), r(), n[1]], z));
  w.setup(t);
  remove_some(&mut w, &n);
}
fn remove_some(w: &mut W, n: &[usize]) {
  let mut t = w.tx();
  let k = range(1, 7);
  let rev = flag();
  for i in 0..3 {
    let i = if rev { 2 - i } else { i };
    if k >> i & 1 == 1 {
      t.remove(n[i]);
    }
  }
  w.commit(t, 0);
  reach(1);
  w.flush_remove(20);
}
/// the links to the removed node were created by earlier transactions in every possible way
pub fn c05_origin() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let e: Vec<(usize, u8)> = ex.clone();
  let all = [0, ex[0].0, ex[1].0, ex[2].0];
  for k in 0..2 {
    let mut t = w.tx();
    any_op(&mut t, &e, &all, &[], k == 1);
    let ok = w.model(&t);
    assume(ok);
    assume(w.m.len() >= 3);
    w.g.commit(t.t);
  }
  let mut t = w.tx();
  let k = range(0, 2) as usize;
  t.remove(ex[k].0);
  w.commit(t, 0);
  reach(1);
}
/// removal together with other operations of the same transaction
pub fn c05_with() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let mut t = w.tx();
  let p = t.insert(ma(ex[0].0, ex[1].0, &[ex[2].0, ex[0].0], &[ex[0].0, ex[1].0, ex[2].0], any()));
  let all = [0, ex[0].0, ex[1].0, ex[2].0, p];
  let k = range(0, 2) as usize;
  let first = flag();
  if first {
    t.remove(ex[k].0);
  }
  any_op(&mut t, &ex, &all, &[(p, 0)], false);
  if !first {
    t.remove(ex[k].0);
  }
  if flag() {
    t.remove(ex[(k + 1) % 3].0);
  }
  if w.commit(t, 0) {
    reach(1);
    w.flush_remove(20);
  }
}
/// many nodes linking to the removed ones
pub fn c05_wide() {
  let mut w = W::new();
  let n = any_size();
  let (hub, v) = star(&mut w, n);
  let mut t = w.tx();
  match range(0, 3) {
    0 => t.remove(hub),
    1 => {
      // every second one
      for k in 0..n {
        if k % 2 == 0 {
          t.remove(v[k]);
        }
      }
    },
    2 => {
      t.remove(hub);
      for k in 0..n {
        if k % 3 == 1 {
          t.remove(v[k]);
        }
      }
    },
    _ => {
      assume(n > 0);
      let k = range(0, n as u64 - 1) as usize;
      t.remove(v[k]);
    },
  }
  w.commit(t, 0);
  reach(1);
  let mut t = w.tx();
  for x in &w.m {
    t.remove(x.id);
  }
  w.commit(t, 20);
}
/// many links to the removed node in one vector, with symbolic positions
pub fn c05_positions() {
  let mut w = W::new();
  let mut t = w.tx();
  let a = t.insert(mc(&[], 1));
  let b = t.insert(mc(&[], 2));
  let mut v = vec![];
  for _ in 0..7 {
    v.push(pick(&[0, a, b]));
  }
  let ty = flag();
  if ty {
    t.insert(mc(&v, any()));
  } else {
    t.insert(ma(v[0], v[1], &v[2..4], &v[3..], any()));
  }
  w.setup(t);
  let mut t = w.tx();
  t.remove(a);
  w.commit(t, 0);
  reach(1);
  let mut t = w.tx();
  t.remove(b);
  w.commit(t, 20);
}
/// removing an absent node panics
pub fn c05_absent() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let gone = {
    let mut t = w.tx();
    let x = t.insert(mc(&[ex[0].0], 0));
    w.setup(t);
    let mut t = w.tx();
    t.remove(x);
    w.setup(t);
    x
  };
  let mut t = w.tx();
  let id = match range(0, 3) {
    0 => gone,
    1 => 0,
    2 => {
      let x = any() as usize;
      assume(x > 100);
      x
    },
    _ => {
      // present: no panic
      pick(&[ex[0].0, ex[1].0, ex[2].0])
    },
  };
  if flag() {
    t.remove(ex[0].0);
  }
  t.remove(id);
  if w.commit(t, 0) {
    reach(1)
  } else {
    reach(2)
  }
}
crate::entries! { c05_fields, c05_fields2, c05_origin, c05_with, c05_wide, c05_positions, c05_absent }
