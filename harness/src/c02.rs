//! Committed new nodes are retrievable under their index; misuse is rejected.
use crate::plain::*;
use crate::rt::*;
use ttgraph::*;

/// a node of type ty with links to l and r
pub fn node(ty: u8, l: usize, r: usize) -> MN {
  match ty {
    0 => ma(l, r, &[l, r], &[r, 0, l], any()),
    1 => mb(r, &[l], &[l, r], &[r], any()),
    _ => mc(&[l, r, l], any()),
  }
}
/// a symbolic script of creating calls, each on symbolic operands
fn script(t: &mut Tx, old: usize, steps: usize, few: bool) {
  // (id, type), type 3: untyped
  let mut al: Vec<(usize, u8)> = vec![];
  let mut last = old;
  for _ in 0..steps {
    match range(0, 5) {
      0 => {
        let ty = if few { 1 } else { range(0, 2) as u8 };
        last = t.insert(node(ty, last, old));
      },
      1 => {
        let ty = range(if few { 2 } else { 0 }, 3) as u8;
        let i = t.alloc(ty);
        al.push((i, ty));
        last = i;
      },
      2 => {
        assume(!al.is_empty());
        let k = range(0, al.len() as u64 - 1) as usize;
        let (i, ty) = al.remove(k);
        if ty == 3 {
          let ty = range(0, 2) as u8;
          t.fill_untyped(i, node(ty, i, last));
        } else if flag() {
          t.fill(i, node(ty, last, i));
        } else {
          t.fill_untyped(i, node(ty, last, i));
        }
      },
      3 => {
        // take back an allocated index
        assume(!al.is_empty());
        let k = range(0, al.len() as u64 - 1) as usize;
        let (i, _) = al.remove(k);
        t.remove(i);
        last = old;
      },
      4 => {
        // take back a new node
        assume(!t.pend.is_empty());
        let k = range(0, t.pend.len() as u64 - 1) as usize;
        let i = t.pend[k].id;
        t.remove(i);
        last = old;
      },
      _ => {
        // several at once; their indices are found by their data
        let mut v = vec![];
        v.push(node(2, last, last));
        v.push(node(0, 0, old));
        extend(t, v);
      },
    }
  }
}
fn extend(t: &mut Tx, v: Vec<MN>) {
  // indices of extended nodes are not returned: they are the ones following a probe
  let probe = t.t.alloc_untyped().0;
  t.t.remove(NodeIndex(probe));
  t.t.extend(v.iter().map(real).collect::<Vec<_>>());
  let end = t.t.alloc_untyped().0;
  t.t.remove(NodeIndex(end));
  assume(end == probe + v.len() + 1);
  let mut k = probe;
  for mut m in v {
    k += 1;
    m.id = k;
    t.pend.push(m);
  }
}
fn one(steps: usize, few: bool) {
  let mut w = W::new();
  let mut t = w.tx();
  let old = t.insert(ma(0, 0, &[], &[], any()));
  w.setup(t);
  let mut t = w.tx();
  script(&mut t, old, steps, few);
  if w.commit(t, 0) {
    reach(1);
    // nothing is left over for the next transaction
    let mut t = w.tx();
    let n = t.insert(node(1, old, old));
    let ok = w.commit(t, 20);
    check(ok, 40);
  } else {
    reach(2);
  }
}
pub fn c02_build4() {
  one(4, false);
}
pub fn c02_build5() {
  one(5, true);
}
/// the same transaction, contents of every kind, many new nodes at once
pub fn c02_wide() {
  let mut w = W::new();
  let n = any_size();
  let mut t = w.tx();
  let ids: Vec<usize> = (0..n).map(|k| t.alloc((k % 4) as u8)).collect();
  let back = conc(flag() as usize) == 1;
  let skip = conc(range(0, n as u64) as usize);
  for k in 0..n {
    let k = if back { n - 1 - k } else { k };
    if k + 1 == skip {
      if flag() {
        // leave it unfilled
        continue;
      }
      t.remove(ids[k]);
      continue;
    }
    let (l, r) = (ids[(k + 1) % n], ids[(k * 7 + 3) % n]);
    if k % 4 == 3 {
      t.fill_untyped(ids[k], node((k % 3) as u8, l, r));
    } else {
      t.fill(ids[k], node((k % 4) as u8, l, r));
    }
  }
  if w.commit(t, 0) {
    reach(1);
  } else {
    reach(2);
  }
}
/// filling in ways that are not allowed
pub fn c02_misuse() {
  let mut w = W::new();
  let mut t = w.tx();
  let old = t.insert(ma(0, 0, &[], &[], any()));
  let gone = t.insert(mc(&[], any()));
  w.setup(t);
  let mut t = w.tx();
  t.remove(gone);
  w.setup(t);
  let mut t = w.tx();
  let ty = range(0, 2) as u8;
  let other = range(0, 2) as u8;
  let x = t.alloc(ty);
  let y = t.alloc(3);
  let z = t.insert(node(1, x, y));
  let ok;
  let tt = &mut t.t;
  match range(0, 5) {
    0 => {
      // typed allocation: only its own type
      ok = other == ty;
      check(catch(|| tt.fill_back(ix(x), real(&node(other, old, 0)))) != ok, 1);
    },
    1 => {
      // twice
      tt.fill_back(ix(x), real(&node(ty, old, 0)));
      ok = false;
      check(catch(|| tt.fill_back(ix(x), real(&node(ty, old, 0)))), 2);
    },
    2 => {
      tt.fill_back_untyped(ix(y), real(&node(ty, old, 0)));
      ok = false;
      check(catch(|| tt.fill_back_untyped(ix(y), real(&node(other, old, 0)))), 3);
    },
    3 => {
      // a node that was inserted
      ok = false;
      if flag() {
        check(catch(|| tt.fill_back_untyped(ix(z), real(&node(other, old, 0)))), 4);
      } else {
        check(catch(|| tt.fill_back(ix(z), real(&node(1, old, 0)))), 5);
      }
    },
    4 => {
      // never allocated, or of an earlier transaction
      ok = false;
      let i = match range(0, 3) {
        0 => 0,
        1 => old,
        2 => gone,
        _ => {
          let v = any() as usize;
          assume(v > 100);
          v
        },
      };
      check(catch(|| tt.fill_back(ix(i), real(&node(other, old, 0)))), 6);
    },
    _ => {
      tt.fill_back_untyped(ix(y), real(&node(other, old, 0)));
      ok = true;
    },
  }
  if ok {
    // one of x, y is unfilled
    let g = &mut w.g;
    let tt = t.t;
    check(catch(move || g.commit(tt)), 7);
    reach(2);
  } else {
    // the committed graph is not affected
    same(&w.g, &w.m, 20);
    reach(1);
  }
}
/// two transactions open at the same time, committed in either order
pub fn c02_two_open() {
  let mut w = W::new();
  let mut t = w.tx();
  let old = t.insert(ma(0, 0, &[], &[], any()));
  w.setup(t);
  let mut t1 = w.tx();
  let mut t2 = w.tx();
  let a = t1.alloc(range(0, 3) as u8);
  let b = t2.insert(node(range(0, 2) as u8, old, 0));
  let c = t1.insert(node(1, a, old));
  let d = t2.alloc(3);
  check(a != b && a != c && a != d && b != c && b != d && c != d, 60);
  // the type of a is whatever was allocated
  let ta = range(0, 2) as u8;
  t1.fill_untyped(a, node(ta, c, a));
  t2.fill_untyped(d, node(range(0, 2) as u8, b, d));
  let (x, y) = if flag() { (t1, t2) } else { (t2, t1) };
  let ok = w.commit(x, 0);
  check(ok, 61);
  let ok = w.commit(y, 20);
  check(ok, 62);
  reach(1);
}
crate::entries! { c02_build4, c02_build5, c02_wide, c02_misuse, c02_two_open }
