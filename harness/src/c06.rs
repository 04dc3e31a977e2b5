//! Redirecting links moves exactly the existing links to the final target.
use crate::plain::*;
use crate::rt::*;

/// four nodes with links of all kinds
fn dense4(w: &mut W) -> Vec<usize> {
  let mut t = w.tx();
  let n = alloc_abc(&mut t, 4);
  t.fill(n[0], ma(n[3], 0, &[n[1], n[2]], &[n[2], 0, n[3]], any()));
  t.fill(n[1], mb(n[2], &[n[0], n[3]], &[n[2]], &[n[1], n[3]], any()));
  t.fill(n[2], mc(&[n[0], n[1], n[0]], any()));
  t.fill(n[3], ma(n[1], n[3], &[n[0]], &[n[1]], any()));
  w.setup(t);
  n
}
fn redirect_any(all: bool, w: &mut W, n: &[usize], k: usize) {
  let mut t = w.tx();
  let p = t.insert(ma(n[0], n[1], &[n[2], n[3]], &[n[0], n[2]], any()));
  let l = [0, n[0], n[1], n[2], n[3], p];
  let mut src = vec![];
  for _ in 0..k {
    let a = pick(n);
    assume(!src.contains(&a));
    src.push(a);
    let b = pick(&l);
    if all {
      t.redirect_all(a, b)
    } else {
      t.redirect(a, b)
    }
  }
  if w.commit(t, 0) {
    reach(1);
  } else {
    reach(2);
  }
}
/// two redirections in any order, then all links are moved again
pub fn c06_two() {
  let mut w = W::new();
  let n = dense4(&mut w);
  redirect_any(false, &mut w, &n, 2);
}
/// chains and loops of three redirections
pub fn c06_three() {
  let mut w = W::new();
  let n = dense4(&mut w);
  redirect_any(false, &mut w, &n, 3);
}
/// chains and loops of four redirections
pub fn c06_four() {
  let mut w = W::new();
  let n = dense4(&mut w);
  redirect_any(false, &mut w, &n, 4);
}
/// every field holding a symbolic target, one redirection
pub fn c06_fields() {
  let mut w = W::new();
  let mut t = w.tx();
  let n = alloc_abc(&mut t, 3);
  let l = [0, n[0], n[1], n[2]];
  let r = || pick(&l);
  t.fill(n[0], ma(r(), 0, &[r(), n[2]], &[r(), n[1]], any()));
  t.fill(n[1], mb(r(), &[r(), n[0]], &[n[1]], &[n[2], n[0]], any()));
  t.fill(n[2], mc(&[n[2], r()], any()));
  w.setup(t);
  let mut t = w.tx();
  let a = n[range(0, 2) as usize];
  t.redirect(a, n[1]);
  if w.commit(t, 0) {
    reach(1);
    w.flush_redirect(20);
  } else {
    reach(2);
  }
}
pub fn c06_fields2() {
  let mut w = W::new();
  let mut t = w.tx();
  let n = alloc_abc(&mut t, 3);
  let l = [0, n[0], n[1], n[2]];
  let r = || pick(&l);
  t.fill(n[0], ma(n[0], r(), &[n[1]], &[n[0], r()], any()));
  t.fill(n[1], mb(n[0], &[n[2]], &[r(), n[0]], &[r(), n[1]], any()));
  t.fill(n[2], mc(&[r(), n[0], n[1]], any()));
  w.setup(t);
  let mut t = w.tx();
  t.redirect(n[0], pick(&[0, n[1], n[2]]));
  w.commit(t, 0);
  reach(1);
  w.flush_redirect(20);
}
/// redirections over several transactions
pub fn c06_sequence() {
  let mut w = W::new();
  let n = dense4(&mut w);
  let l = [0, n[0], n[1], n[2], n[3]];
  for k in 0..3u32 {
    let mut t = w.tx();
    let a = pick(&n);
    let b = pick(&l);
    assume(a != b);
    t.redirect(a, b);
    w.commit(t, 10 * k);
  }
  reach(1);
}
/// redirection with another operation of any kind in the same transaction
pub fn c06_with() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let mut t = w.tx();
  let p = t.insert(ma(ex[0].0, ex[1].0, &[ex[2].0], &[ex[0].0, 0], any()));
  let all = [0, ex[0].0, ex[1].0, ex[2].0, p];
  let first = flag();
  let a = ex[range(0, 2) as usize].0;
  let b = pick(&[0, ex[0].0, ex[1].0, p]);
  if first {
    t.redirect(a, b);
  }
  any_op(&mut t, &ex, &all, &[(p, 0)], false);
  if !first {
    assume(t.red.iter().all(|x| x.0 != a));
    t.redirect(a, b);
  }
  if w.commit(t, 0) {
    reach(1);
  } else {
    reach(2);
  }
}
/// after a transaction of any kind
pub fn c06_after() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let mut all = vec![0, ex[0].0, ex[1].0, ex[2].0];
  let mut t = w.tx();
  let p = t.insert(ma(ex[0].0, ex[1].0, &[ex[2].0], &[ex[0].0, 0], any()));
  all.push(p);
  any_op(&mut t, &ex, &all, &[], false);
  let ok = w.commit(t, 0);
  assume(ok);
  let mut t = w.tx();
  let a = pick(&all[1..]);
  assume(w.m.iter().any(|x| x.id == a));
  t.redirect(a, pick(&all));
  if w.commit(t, 20) {
    reach(1);
  } else {
    reach(2);
  }
}
/// many links, long chains
pub fn c06_wide() {
  let mut w = W::new();
  let n = any_size();
  let (hub, v) = star(&mut w, n);
  assume(n >= 1);
  let mut t = w.tx();
  match range(0, 3) {
    0 => t.redirect(hub, v[range(0, n as u64 - 1) as usize]),
    1 => t.redirect(v[range(0, n as u64 - 1) as usize], hub),
    2 => {
      // chain recorded backwards
      for k in 0..n - 1 {
        t.redirect(v[k], v[k + 1]);
      }
      t.redirect(hub, v[0]);
    },
    _ => {
      // chain recorded forwards, from the end
      t.redirect(v[0], hub);
      for k in 1..n {
        t.redirect(v[k], v[k - 1]);
      }
      if flag() {
        // closed to a loop
        t.redirect(hub, v[n - 1]);
      }
    },
  }
  if w.commit(t, 0) {
    reach(1);
    let mut t = w.tx();
    t.redirect(hub, 0);
    w.commit(t, 20);
  } else {
    reach(2);
  }
}
/// one vector and one set with symbolic positions
pub fn c06_positions() {
  let mut w = W::new();
  let mut t = w.tx();
  let a = t.insert(mc(&[], 1));
  let b = t.insert(mc(&[], 2));
  let c = t.insert(mc(&[], 3));
  let mut v = vec![];
  for _ in 0..6 {
    v.push(pick(&[0, a, b, c]));
  }
  let ty = flag();
  if ty {
    t.insert(mc(&v, any()));
  } else {
    t.insert(mb(v[0], &v[0..3], &v[2..5], &v[3..], any()));
  }
  w.setup(t);
  let mut t = w.tx();
  let to = range(0, 2);
  t.redirect(a, if to == 0 { 0 } else { b });
  if to == 2 {
    t.redirect(b, c);
  }
  w.commit(t, 0);
  reach(1);
}
crate::entries! { c06_two, c06_three, c06_four, c06_fields, c06_fields2, c06_sequence, c06_with, c06_after, c06_wide, c06_positions }
