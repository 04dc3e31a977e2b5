//! Nothing is visible before commit; a dropped transaction changes nothing; pending nodes are edited in place.
use crate::plain::*;
use crate::rt::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use ttgraph::*;

pub fn empty_model(t: &Tx) -> bool {
  t.alloc.is_empty() && t.pend.is_empty() && t.rem.is_empty() && t.muts.is_empty() && t.upds.is_empty() && t.red.is_empty() && t.red_all.is_empty()
}
/// any recording call, including ones on the nodes pending in the transaction.
/// `mine`: nodes inserted (id, type), `al`: allocated (id, type)
fn record(t: &mut Tx, ex: &[(usize, u8)], mine: &mut Vec<(usize, u8)>, al: &mut Vec<(usize, u8)>, level: u8) {
  let few = level > 0;
  let mut all = vec![0];
  for x in ex.iter().chain(mine.iter()).chain(al.iter()) {
    all.push(x.0)
  }
  match range(0, 5) {
    0 if level < 2 => any_op(t, ex, &all, mine, few),
    0 => match range(0, 4) {
      0 => {
        assume(t.red.is_empty());
        t.redirect(ex[1].0, *all.last().unwrap())
      },
      1 => {
        assume(t.red_all.is_empty());
        t.redirect_all(*all.last().unwrap(), ex[0].0)
      },
      2 => t.remove(ex[2].0),
      3 => t.mutate(ex[0].0, Edit::Dir(0, *all.last().unwrap())),
      _ => t.update(ex[1].0, Edit::Ins(1, *all.last().unwrap())),
    },
    1 => {
      let ty = if few { 0 } else { range(0, 2) as u8 };
      let l = pick(&all);
      let m = match ty {
        0 => ma(l, 0, &[l], &[l, ex[0].0], any()),
        1 => mb(l, &[l], &[ex[1].0], &[ex[2].0, l], any()),
        _ => mc(&[l, 0], any()),
      };
      let i = t.insert(m);
      mine.push((i, ty));
    },
    2 => {
      let ty = if few { 2 } else { range(0, 2) as u8 };
      let i = t.alloc(ty);
      al.push((i, ty));
    },
    3 => {
      assume(!al.is_empty());
      let k = conc(range(0, al.len() as u64 - 1) as usize);
      let (i, ty) = al.remove(k);
      let m = match ty {
        0 => ma(ex[1].0, i, &[i], &[], any()),
        1 => mb(i, &[], &[i], &[ex[0].0], any()),
        _ => mc(&[i, ex[0].0], any()),
      };
      t.fill(i, m);
      mine.push((i, ty));
    },
    4 => {
      // remove a pending node or allocation
      assume(!mine.is_empty() || !al.is_empty());
      let k = conc(range(0, (mine.len() + al.len()) as u64 - 1) as usize);
      let i = if k < mine.len() { mine.remove(k).0 } else { al.remove(k - mine.len()).0 };
      t.remove(i);
    },
    _ => {
      // edit a pending node
      assume(!mine.is_empty());
      let k = conc(range(0, mine.len() as u64 - 1) as usize);
      let (i, ty) = mine[k];
      let e = match level {
        0 => any_edit(ty, &all),
        1 => few_edits(ty, &all),
        _ => match ty {
          0 => Edit::Push(3, ex[0].0),
          1 => Edit::Ins(2, ex[1].0),
          _ => Edit::At(0, 0, ex[2].0),
        },
      };
      if flag() {
        t.mutate(i, e);
      } else {
        t.update(i, e);
      }
    },
  }
}
fn go(levels: &[u8], pre: bool, dropped: bool) {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let mut t = w.tx();
  check(t.t.is_empty(), 50);
  let (mut mine, mut al) = (vec![], vec![]);
  if pre {
    let i = t.insert(ma(ex[0].0, ex[1].0, &[ex[2].0], &[ex[0].0, ex[1].0], any()));
    mine.push((i, 0));
    let j = t.alloc(1);
    al.push((j, 1));
  }
  for l in levels {
    record(&mut t, &ex, &mut mine, &mut al, *l);
    check(t.t.is_empty() == empty_model(&t), 51);
  }
  // nothing has happened yet
  same(&w.g, &w.m, 0);
  if flag() {
    if pre {
      for (i, ty) in al {
        t.fill(i, crate::plain::any_node(ty, ex[0].0));
      }
    }
    if w.commit(t, 20) {
      reach(1);
    } else {
      reach(2);
    }
    return;
  }
  if dropped {
    drop(t.t)
  } else {
    t.t.give_up()
  }
  same(&w.g, &w.m, 60);
  reach(3);
  // and nothing of it turns up later
  let mut t = w.tx();
  check(t.t.is_empty(), 52);
  t.insert(mc(&[ex[0].0], any()));
  t.remove(ex[1].0);
  let ok = w.commit(t, 80);
  check(ok, 99);
}
pub fn c03_two() {
  go(&[0, 1], false, false);
}
pub fn c03_pending() {
  go(&[1, 1], true, true);
}
pub fn c03_three() {
  go(&[1, 2, 2], true, false);
}
pub fn c03_four() {
  go(&[2, 2, 2, 2], false, true);
}
static RUNS: AtomicUsize = AtomicUsize::new(0);
/// functions given to mutate and update run exactly once, and only at commit unless their node is pending
pub fn c03_closures() {
  RUNS.store(0, Ordering::Relaxed);
  let mut w = W::new();
  let ex = dense3(&mut w);
  let mut t = w.tx();
  let p = t.insert(mc(&[], any()));
  let i = pick(&[ex[0].0, ex[2].0, p]);
  let upd = flag();
  let tt = &mut t.t;
  if upd {
    tt.update(ix(i), |n| {
      RUNS.fetch_add(1, Ordering::Relaxed);
      n
    });
  } else {
    tt.mutate(ix(i), |_| {
      RUNS.fetch_add(1, Ordering::Relaxed);
    });
  }
  let now = RUNS.load(Ordering::Relaxed);
  if i == p {
    check(now <= 1, 1);
  } else {
    check(now == 0, 2);
  }
  if flag() {
    check(!t.t.is_empty(), 3);
    let ok = w.commit(t, 20);
    check(ok, 4);
    check(RUNS.load(Ordering::Relaxed) == 1, 5);
    reach(1);
  } else {
    drop(t);
    check(RUNS.load(Ordering::Relaxed) == now, 6);
    same(&w.g, &w.m, 40);
    reach(2);
  }
}
/// two graphs of one context: a commit concerns the graph it is given to
pub fn c03_other_graph() {
  let mut w = W::new();
  let ex = dense3(&mut w);
  let mut w2 = W { ctx: w.ctx.clone(), g: Graph::new(&w.ctx), m: vec![] };
  let mut t = w2.tx();
  let x = t.insert(mc(&[], any()));
  let y = t.insert(ma(x, 0, &[x], &[x], any()));
  w2.setup(t);
  let mut t = w2.tx();
  let p = t.insert(mc(&[x], any()));
  any_op(&mut t, &[(x, 2), (y, 0)], &[0, x, y, p], &[(p, 2)], false);
  if w2.commit(t, 0) {
    reach(1);
  }
  same(&w.g, &w.m, 20);
  let mut t = w.tx();
  t.remove(ex[0].0);
  let ok = w.commit(t, 40);
  check(ok, 60);
}
crate::entries! { c03_two, c03_pending, c03_three, c03_four, c03_closures, c03_other_graph }
