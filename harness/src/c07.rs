//! Redirecting all links also covers the nodes of the same transaction.
use crate::plain::*;
use crate::rt::*;

fn dense4(w: &mut W) -> Vec<usize> {
  let mut t = w.tx();
  let n = alloc_abc(&mut t, 4);
  t.fill(n[0], ma(n[3], 0, &[n[1], n[2]], &[n[2], 0, n[3]], any()));
  t.fill(n[1], mb(n[2], &[n[0], n[3]], &[n[2]], &[n[1], n[3]], any()));
  t.fill(n[2], mc(&[n[0], n[1], n[0]], any()));
  t.fill(n[3], ma(n[1], n[3], &[n[0]], &[n[1]], any()));
  w.setup(t);
  n
}
fn redirect_any(w: &mut W, n: &[usize], k: usize) {
  let mut t = w.tx();
  let p = t.insert(ma(n[0], n[1], &[n[2], n[3]], &[n[0], n[2]], any()));
  let l = [0, n[0], n[1], n[2], n[3], p];
  let s = [n[0], n[1], n[2], n[3], p];
  let mut src = vec![];
  for _ in 0..k {
    let a = pick(&s);
    assume(!src.contains(&a));
    src.push(a);
    t.redirect_all(a, pick(&l));
  }
  if w.commit(t, 0) {
    reach(1);
    // no link leads to a redirected node
    for (_, x) in w.g.iter() {
      for (y, _) in ttgraph::NodeEnum::iter_sources(x) {
        check(src.iter().all(|s| y.0 != *s), 9);
      }
    }
  } else {
    reach(2);
  }
}
pub fn c07_two() {
  let mut w = W::new();
  let n = dense4(&mut w);
  redirect_any(&mut w, &n, 2);
}
pub fn c07_three() {
  let mut w = W::new();
  let n = dense4(&mut w);
  redirect_any(&mut w, &n, 3);
}
/// pending nodes with symbolic links in every kind of field
pub fn c07_pending() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let (a, b, c) = (ex[0].0, ex[1].0, ex[2].0);
  let l = [0, a, b, c];
  let r = || pick(&l);
  let mut t = w.tx();
  let late = flag();
  if !late {
    t.redirect_all(a, b);
  }
  let p = match range(0, 2) {
    0 => t.insert(ma(r(), a, &[r(), b], &[r(), r()], any())),
    1 => t.insert(mb(r(), &[r(), a], &[r(), b], &[r(), c], any())),
    _ => t.insert(mc(&[r(), r(), r(), a], any())),
  };
  let q = t.insert(mc(&[p, a], any()));
  if late {
    t.redirect_all(a, pick(&[0, b, q]));
  }
  w.commit(t, 0);
  reach(1);
  w.flush_redirect(20);
}
/// with plain redirections, mutations, updates and removals of the same transaction
pub fn c07_mix() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let (a, b, c) = (ex[0].0, ex[1].0, ex[2].0);
  let l = [0, a, b, c];
  let ids = [a, b, c];
  let mut t = w.tx();
  let p = t.insert(ma(a, b, &[c], &[a], any()));
  let x = pick(&ids);
  let y = pick(&[0, a, b, c, p]);
  let first = flag();
  if first {
    t.redirect_all(x, y);
  }
  match range(0, 4) {
    0 => t.redirect(pick(&ids), pick(&l)),
    1 => t.mutate(a, Edit::Dir(1, pick(&[a, b, c, p]))),
    2 => t.update(c, Edit::Push(0, pick(&[a, b, c, p]))),
    3 => t.update(b, Edit::Ins(2, pick(&[a, b, c, p]))),
    _ => t.mutate(b, Edit::Ins(3, pick(&[a, b, c, p]))),
  }
  if flag() {
    t.remove(x);
  }
  if !first {
    t.redirect_all(x, y);
  }
  if w.commit(t, 0) {
    reach(1);
    w.flush_redirect(20);
  } else {
    reach(2);
  }
}
/// with any other operation, and a removal of the redirected node
pub fn c07_with() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let mut t = w.tx();
  let p = t.insert(ma(ex[0].0, ex[1].0, &[ex[2].0], &[ex[0].0, 0], any()));
  let all = [0, ex[0].0, ex[1].0, ex[2].0, p];
  let a = pick(&[ex[0].0, ex[1].0, ex[2].0]);
  t.redirect_all(a, pick(&[0, ex[1].0, ex[2].0, p]));
  any_op(&mut t, &ex, &all, &[(p, 0)], false);
  t.remove(a);
  if w.commit(t, 0) {
    reach(1);
  } else {
    reach(2);
  }
}
/// plain and all redirections together, chained
pub fn c07_both() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let (a, b, c) = (ex[0].0, ex[1].0, ex[2].0);
  let mut t = w.tx();
  let p = t.insert(mb(a, &[a, b], &[c], &[b, c], any()));
  let ids = [a, b, c];
  let l = [0, a, b, c, p];
  let x = pick(&ids);
  t.redirect(x, pick(&l));
  let y = pick(&[a, b, c, p]);
  t.redirect_all(y, pick(&l));
  let z = pick(&[a, b, c, p]);
  assume(z != y);
  t.redirect_all(z, pick(&l));
  if w.commit(t, 0) {
    reach(1);
  } else {
    reach(2);
  }
}
pub fn c07_wide() {
  let mut w = W::new();
  let n = any_size();
  let (hub, v) = star(&mut w, n);
  assume(n >= 1);
  let mut t = w.tx();
  let p = t.insert(ma(hub, v[0], &[hub, v[n - 1]], &[hub, v[0], hub], 9));
  match range(0, 3) {
    0 => t.redirect_all(hub, v[range(0, n as u64 - 1) as usize]),
    1 => t.redirect_all(v[range(0, n as u64 - 1) as usize], p),
    2 => {
      for k in 0..n - 1 {
        t.redirect_all(v[k], v[k + 1]);
      }
      t.redirect_all(hub, v[0]);
    },
    _ => {
      t.redirect_all(v[0], hub);
      for k in 1..n {
        t.redirect_all(v[k], v[k - 1]);
      }
      if flag() {
        t.redirect_all(hub, v[n - 1]);
      }
    },
  }
  if w.commit(t, 0) {
    reach(1);
  } else {
    reach(2);
  }
}
crate::entries! { c07_two, c07_three, c07_pending, c07_mix, c07_with, c07_both, c07_wide }
