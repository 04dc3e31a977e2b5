//! Switching the context renames nodes and preserves the graph.
use crate::bd;
use crate::gen;
use crate::plain::*;
use crate::rt::*;
use ttgraph::*;

/// a context that has handed out j indices, with a node in a graph of its own
fn used(j: usize) -> (Context, Vec<usize>) {
  let c = Context::new();
  let mut t = Transaction::<N>::new(&c);
  let v = (0..j).map(|_| t.insert(real(&mc(&[], 0))).0).collect();
  (c, v)
}
/// switch and compare; nodes are recognised by their data
fn switch(w: W, to: &Context, taken: &[usize], id: u32) -> W {
  let W { ctx, g, m } = w;
  let g = g.switch_context(to);
  check(g.len() == m.len(), id + 2);
  let mut map: Vec<(usize, usize)> = vec![];
  for (i, n) in g.iter() {
    let d = match n {
      N::A(x) => x.data,
      N::B(x) => x.data,
      N::C(x) => x.data,
    };
    let k = m.iter().position(|x| x.data == d);
    check(k.is_some(), id + 3);
    let old = m[k.unwrap()].id;
    check(map.iter().all(|(a, b)| *a != old && *b != i.0), id + 10);
    check(i.0 != 0 && !taken.contains(&i.0), id + 11);
    map.push((old, i.0));
  }
  check(map.len() == m.len(), id + 12);
  let ren = |x: usize| if x == 0 { 0 } else { map.iter().find(|y| y.0 == x).unwrap().1 };
  let mut m2 = m.clone();
  for x in m2.iter_mut() {
    x.id = ren(x.id);
    for f in x.f.iter_mut() {
      for y in f.iter_mut() {
        *y = ren(*y);
      }
    }
  }
  same(&g, &m2, id);
  W { ctx: to.clone(), g, m: m2 }
}
/// the switched graph is used further
fn go_on(w: &mut W, id: u32) {
  let ids: Vec<usize> = w.m.iter().map(|x| x.id).collect();
  let mut t = w.tx();
  let p = t.insert(mc(&[ids[0]], 99));
  check(!ids.contains(&p), id + 9);
  t.mutate(ids[1], Edit::Data(1, 1000));
  match range(0, 2) {
    0 => t.remove(pick(&ids)),
    1 => t.redirect(pick(&ids), p),
    _ => t.redirect_all(pick(&ids), p),
  }
  let ok = w.commit(t, id);
  check(ok, id + 9);
  w.flush_redirect(id + 20);
}
fn waste(w: &W, n: usize) {
  let mut t = w.tx();
  for _ in 0..n {
    t.alloc(3);
  }
}
/// every overlap of old and new indices
pub fn c12_overlap() {
  let mut w = W::new();
  waste(&w, conc(range(0, 4) as usize));
  let mut t = w.tx();
  // any order of the types, so that old and new order differ
  let first = conc(range(0, 2) as usize);
  let gap = conc(range(0, 2) as usize);
  let mut n = vec![0; 4];
  for k in 0..4 {
    let ty = (first + 2 * k) % 3;
    n[ty + if k == 3 { 3 - ty } else { 0 }] = t.alloc(ty as u8);
    if k == 1 {
      waste(&w, gap);
    }
  }
  // n[0]: A, n[1]: B, n[2]: C, n[3]: of the type of the first
  t.fill(n[0], ma(n[1], n[0], &[n[1], n[2], n[3]], &[n[2], 0, n[1], n[2]], 10));
  t.fill(n[1], mb(n[2], &[n[0], n[1]], &[n[2], n[3]], &[n[3], n[0], n[2]], 11));
  t.fill(n[2], mc(&[n[0], 0, n[1], n[0], n[3]], 12));
  let ty = first as u8;
  t.fill(
    n[3],
    match ty {
      0 => ma(n[1], 0, &[n[0], n[3]], &[n[1], n[0]], 13),
      1 => mb(n[3], &[n[2], n[1]], &[n[1]], &[n[0]], 13),
      _ => mc(&[n[2], n[1]], 13),
    },
  );
  w.setup(t);
  let (c, taken) = used(conc(range(0, 8) as usize));
  let mut w = switch(w, &c, &taken, 0);
  reach(1);
  go_on(&mut w, 20);
}
fn fields(variant: u8) {
  let mut w = W::new();
  let mut t = w.tx();
  let (x, y) = if flag() { (0, 2) } else { (2, 0) };
  let mut n = vec![0; 3];
  n[x] = t.alloc(x as u8);
  n[1] = t.alloc(1);
  n[y] = t.alloc(y as u8);
  let l = [0, n[0], n[1], n[2]];
  let r = || pick(&l);
  if variant == 0 {
    t.fill(n[0], ma(r(), 0, &[r(), n[2]], &[r(), n[1]], 10));
    t.fill(n[1], mb(r(), &[r(), n[0]], &[n[1]], &[n[2], n[0]], 11));
    t.fill(n[2], mc(&[n[2], r()], 12));
  } else {
    t.fill(n[0], ma(n[0], r(), &[n[1]], &[n[0], r()], 10));
    t.fill(n[1], mb(n[0], &[n[2]], &[r(), n[0]], &[r(), n[1]], 11));
    t.fill(n[2], mc(&[r(), n[0], n[1]], 12));
  }
  w.setup(t);
  let (c, taken) = used(conc(pick(&[0, 1, 3])));
  let mut w = switch(w, &c, &taken, 0);
  reach(1);
  w.flush_redirect(20);
}
pub fn c12_fields() {
  fields(0);
}
pub fn c12_fields2() {
  fields(1);
}
/// within the same context, and back and forth
pub fn c12_own() {
  let mut w = W::new();
  let mut t = w.tx();
  let n = alloc_abc(&mut t, 3);
  t.fill(n[0], ma(n[1], n[2], &[n[1], n[2]], &[n[2], 0, n[1]], 10));
  t.fill(n[1], mb(n[2], &[n[0], n[1]], &[n[2], n[0]], &[n[1], n[2]], 11));
  t.fill(n[2], mc(&[n[0], n[1], n[0]], 12));
  w.setup(t);
  let own = w.ctx.clone();
  let (other, mut taken) = used(conc(range(0, 4) as usize));
  let mut mine: Vec<usize> = n.clone();
  for k in 0..3u32 {
    let home = flag();
    w = if home { switch(w, &own, &mine, 30 * k) } else { switch(w, &other, &taken, 30 * k) };
    for x in &w.m {
      if home {
        mine.push(x.id)
      } else {
        taken.push(x.id)
      }
    }
    reach(1);
  }
  go_on(&mut w, 100);
}
/// after an earlier transaction of any kind
pub fn c12_history() {
  let mut w = W::new();
  let mut t = w.tx();
  let n = alloc_abc(&mut t, 4);
  t.fill(n[0], ma(n[3], 0, &[n[1], n[2]], &[n[2], 0, n[3]], 10));
  t.fill(n[1], mb(n[2], &[n[0], n[3]], &[n[2]], &[n[1], n[3]], 11));
  t.fill(n[2], mc(&[n[0], n[1], n[0]], 12));
  t.fill(n[3], ma(n[1], n[3], &[n[0]], &[n[1]], 13));
  w.setup(t);
  let ex: Vec<(usize, u8)> = w.m.iter().map(|x| (x.id, x.ty)).collect();
  let all = targets(&w);
  let mut t = w.tx();
  match range(0, 6) {
    0 => t.redirect(pick(&n), pick(&all)),
    1 => t.redirect_all(pick(&n), pick(&all)),
    2 => t.remove(pick(&n)),
    3 => t.mutate(n[0], any_edit(0, &all)),
    4 => t.update(n[1], any_edit(1, &all)),
    5 => t.update(n[2], Edit::Become(range(0, 2) as u8, pick(&all), 55)),
    _ => {
      t.insert(ma(n[0], 0, &[n[1], n[3]], &[n[2]], 14));
    },
  }
  let ok = w.model(&t);
  assume(ok);
  w.g.commit(t.t);
  assume(w.m.iter().all(|x| w.m.iter().filter(|y| y.data == x.data).count() == 1));
  let (c, taken) = used(conc(range(0, 2) as usize));
  let mut w = switch(w, &c, &taken, 0);
  reach(1);
  w.flush_redirect(20);
}
pub fn c12_wide() {
  let mut w = W::new();
  let n = any_size();
  let (hub, v) = star(&mut w, n);
  let mut t = w.tx();
  t.mutate(hub, Edit::Data(0, 1000));
  w.setup(t);
  let (c, taken) = used(conc(pick(&[0, 1, 3, 7, 20])));
  let mut w = switch(w, &c, &taken, 0);
  reach(1);
  let mut t = w.tx();
  for x in &w.m {
    t.remove(x.id);
  }
  w.commit(t, 20);
}
/// an empty graph
pub fn c12_empty() {
  let mut w = W::new();
  let (c, taken) = used(conc(range(0, 2) as usize));
  let mut w = switch(w, &c, &taken, 0);
  let mut t = w.tx();
  t.insert(mc(&[], any()));
  let ok = w.commit(t, 20);
  check(ok, 29);
  reach(1);
}
/// bidirectional links are carried over and kept up afterwards
pub fn c12_bidirectional() {
  let mut d = bd::D::new(true);
  let pre = {
    let mut t = d.tx();
    for _ in 0..conc(range(0, 2) as usize) {
      t.alloc();
    }
  };
  let n = bd::dense(&mut d);
  for (k, x) in n.iter().enumerate() {
    let at = find_bd(&d.w.m, x.0);
    d.w.m[at].data = 100 + k as u64;
    let mut t = d.tx();
    let i = x.0;
    t.t.mutate(ix(i), move |b| {
      use crate::gen::Schema;
      *bd::Bd::data(b) = 100 + k as u64
    });
    d.w.g.commit(t.t);
  }
  let c = Context::new();
  let mut t = Transaction::<bd::BN>::new(&c);
  for _ in 0..conc(range(0, 5) as usize) {
    t.alloc_untyped();
  }
  let bd::D { w, .. } = d;
  let g = w.g.switch_context(&c);
  let mut map: Vec<(usize, usize)> = vec![];
  for (i, x) in g.iter() {
    use crate::gen::Schema;
    let dd = bd::Bd::rdata(x);
    let k = w.m.iter().position(|y| y.data == dd);
    check(k.is_some(), 3);
    map.push((w.m[k.unwrap()].id, i.0));
  }
  check(map.len() == w.m.len(), 2);
  let ren = |x: usize| if x == 0 { 0 } else { map.iter().find(|y| y.0 == x).unwrap().1 };
  let mut m2 = w.m.clone();
  for x in m2.iter_mut() {
    x.id = ren(x.id);
    for f in x.f.iter_mut() {
      for y in f.iter_mut() {
        *y = ren(*y);
      }
    }
  }
  let w = gen::W::<bd::Bd> { ctx: c, g, m: m2 };
  w.same(0);
  reach(1);
  let mut d = bd::D::<bd::Bd> { w, full: true, all: vec![] };
  let n2: Vec<(usize, u8)> = n.iter().map(|x| (ren(x.0), x.1)).collect();
  let mut t = d.tx();
  bd::any_op(&mut t, &n2, 2);
  d.commit(t, 20);
}
fn find_bd(m: &[gen::MN], id: usize) -> usize {
  gen::find(m, id).unwrap()
}
crate::entries! { c12_overlap, c12_fields, c12_fields2, c12_own, c12_history, c12_wide, c12_empty, c12_bidirectional }
