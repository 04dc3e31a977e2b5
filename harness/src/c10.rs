//! Declared link types are enforced, exactly.
use crate::gen::*;
use crate::lt::*;
use crate::rt::*;
use ttgraph::*;

/// a graph with valid links of every field
fn base(w: &mut LW) -> Vec<(usize, u8)> {
  let mut t = w.tx();
  let n: Vec<usize> = (0..6).map(|_| t.alloc()).collect();
  let (a, b, c, a2, b2, c2) = (n[0], n[1], n[2], n[3], n[4], n[5]);
  t.fill(a, 0, &[&[b], &[b, c], &[a, 0, a2], &[c], &[b, c], &[b], &[c]]);
  t.fill(b, 1, &[&[c], &[a, b], &[a], &[c, a, b]]);
  t.fill(c, 2, &[&[a, b, c], &[b], &[], &[a, b]]);
  t.fill(a2, 0, &[&[], &[], &[], &[], &[], &[], &[b]]);
  t.fill(b2, 1, &[]);
  t.fill(c2, 2, &[]);
  w.setup(t);
  n.into_iter().zip([0, 1, 2, 0, 1, 2]).collect()
}
fn done(w: &mut LW, t: LT, id: u32) {
  if w.commit(t, id) {
    reach(1);
  } else {
    reach(2);
  }
}
fn ids(n: &[(usize, u8)]) -> Vec<usize> {
  let mut v = vec![0];
  for x in n {
    v.push(x.0)
  }
  v
}
/// any field of a node of any type
fn any_field() -> (u8, usize) {
  let ty = conc(range(0, 2) as usize) as u8;
  (ty, conc(range(0, Lt::kinds(ty).len() as u64 - 1) as usize))
}
fn edit_of(ty: u8, f: usize, ts: &[usize], swap: bool) -> Edit {
  match Lt::kinds(ty)[f] {
    K::D => Edit::Put(f, pick(ts)),
    _ => match range(0, if swap { 2 } else { 1 }) {
      0 => Edit::Put(f, pick(&ts[1..])),
      1 => Edit::Del(f, pick(&ts[1..])),
      _ => Edit::Swap(f, pick(&ts[1..])),
    },
  }
}
/// a new node with any target in any field
pub fn c10_insert() {
  let mut w = LW::new();
  let n = base(&mut w);
  let mut t = w.tx();
  let me = t.alloc();
  let mut ts = ids(&n);
  ts.push(me);
  let (ty, f) = any_field();
  let x = pick(&ts);
  let y = pick(&ts);
  let mut m = mn::<Lt>(ty, &[], any());
  match Lt::kinds(ty)[f] {
    K::D => m.f[f][0] = x,
    K::S => m.f[f] = set(&[x, y]),
    K::V => m.f[f] = vec![x, y, n[0].0],
  }
  m.id = me;
  t.t.fill_back_untyped(ix(me), real::<Lt>(&m));
  t.pend.push(m);
  done(&mut w, t, 0);
}
/// links with nodes which do not exist have no type, the others are still checked
pub fn c10_lost() {
  let mut w = LW::new();
  let n = base(&mut w);
  let mut t = w.tx();
  let me = [t.alloc(), t.alloc()];
  let lost = pick(&[1 << 40, usize::MAX]);
  let first = conc(range(0, 1) as usize);
  for k in 0..2 {
    let (ty, f) = any_field();
    let mut m = mn::<Lt>(ty, &[], any());
    let x = if k == first { lost } else { pick(&[n[0].0, n[1].0, n[2].0, me[first]]) };
    m.f[f] = vec![x];
    m.id = me[k];
    t.t.fill_back_untyped(ix(me[k]), real::<Lt>(&m));
    t.pend.push(m);
  }
  done(&mut w, t, 0);
}
/// links between nodes new in the same transaction
pub fn c10_insert_new() {
  let mut w = LW::new();
  let mut t = w.tx();
  let n: Vec<usize> = (0..3).map(|_| t.alloc()).collect();
  let (ty, f) = any_field();
  let (ty2, f2) = any_field();
  let ts = [0, n[0], n[1], n[2]];
  for k in 0..3u8 {
    let mut m = mn::<Lt>(k, &[], any());
    for (ty, f) in [(ty, f), (ty2, f2)] {
      if ty == k {
        let x = pick(&ts);
        match Lt::kinds(ty)[f] {
          K::D => m.f[f][0] = x,
          K::S => m.f[f] = set(&[x]),
          K::V => m.f[f] = vec![n[0], 0, x],
        }
      }
    }
    m.id = n[k as usize];
    t.t.fill_back_untyped(ix(m.id), real::<Lt>(&m));
    t.pend.push(m);
  }
  done(&mut w, t, 0);
}
/// one edit of any field
pub fn c10_edit() {
  let mut w = LW::new();
  let n = base(&mut w);
  let mut t = w.tx();
  let (ty, f) = any_field();
  let e = edit_of(ty, f, &ids(&n), true);
  t.edit(flag(), n[ty as usize + 3 * range(0, 1) as usize].0, e);
  done(&mut w, t, 0);
}
/// two edits of the same node: what counts is the result
pub fn c10_edit_twice() {
  let mut w = LW::new();
  let n = base(&mut w);
  let mut t = w.tx();
  let (ty, f) = any_field();
  let ts = [0, n[0].0, n[1].0, n[2].0];
  let id = n[ty as usize + 3].0;
  for k in 0..3 {
    let e = match Lt::kinds(ty)[f] {
      K::D => Edit::Put(f, pick(&ts)),
      _ if flag() => Edit::Put(f, pick(&ts[1..])),
      _ => Edit::Del(f, ts[k + 1]),
    };
    t.edit(k == 2, id, e);
  }
  done(&mut w, t, 0);
}
/// the same vector edited by several mutations and updates
pub fn c10_vector() {
  let mut w = LW::new();
  let n = base(&mut w);
  let mut t = w.tx();
  let (a, b) = (n[0].0, n[1].0);
  for k in 0..5 {
    let e = match range(0, 4) {
      0 => Edit::Put(2, b),
      1 => Edit::Put(2, a),
      2 => Edit::Del(2, 0),
      3 => Edit::Swap(2, pick(&[a, b])),
      _ => Edit::Data(1, 1),
    };
    t.edit(k >= 3, n[3].0, e);
  }
  done(&mut w, t, 0);
}
/// redirections
pub fn c10_redirect() {
  let mut w = LW::new();
  let n = base(&mut w);
  let mut t = w.tx();
  let ts = ids(&n);
  let p = t.new_node(range(0, 2) as u8, &[]);
  let mut to = ts.clone();
  to.push(p);
  for k in 0..2 {
    let a = pick(if k == 0 { &ts[1..] } else { &ts[1..4] });
    let b = pick(&to);
    if flag() {
      t.redirect(a, b)
    } else {
      t.redirect_all(a, b)
    }
  }
  done(&mut w, t, 0);
}
/// an edit together with a redirection or a removal that may repair it
pub fn c10_mixed() {
  let mut w = LW::new();
  let n = base(&mut w);
  let ts = ids(&n);
  let mut t = w.tx();
  let (ty, f) = any_field();
  let e = edit_of(ty, f, &ts[..4], false);
  t.edit(false, n[ty as usize + 3].0, e);
  let x = pick(&ts[1..4]);
  match range(0, 2) {
    0 => t.remove(x),
    1 => t.redirect_all(x, pick(&ts)),
    _ => {
      t.redirect_all(x, pick(&ts));
      t.remove(x);
    },
  }
  done(&mut w, t, 0);
}
/// counterparts added for a bidirectional declaration
pub fn c10_counterpart() {
  let mut w = LW::new();
  let n = base(&mut w);
  let ts = ids(&n);
  let mut t = w.tx();
  match range(0, 3) {
    0 => t.mutate(n[3].0, Edit::Put(5, pick(&ts))),
    1 => t.update(n[1 + 3 * range(0, 1) as usize].0, Edit::Put(2, pick(&ts[1..]))),
    2 => t.mutate(n[2 + 3 * range(0, 1) as usize].0, Edit::Put(2, pick(&ts[1..]))),
    _ => {
      let l = pick(&ts);
      t.new_node(0, &[&[], &[], &[], &[], &[], &[l]]);
    },
  }
  if flag() {
    t.redirect(pick(&ts[1..]), pick(&ts));
  }
  done(&mut w, t, 0);
}
/// nodes of a merged graph: their links into this graph are checked here
pub fn c10_merge() {
  let mut w = LW::new();
  let n = base(&mut w);
  let ts = ids(&n);
  let (ty, f) = any_field();
  let x = pick(&ts);
  let mut m = mn::<Lt>(ty, &[], any());
  match Lt::kinds(ty)[f] {
    K::D => m.f[f][0] = x,
    K::S => m.f[f] = set(&[x]),
    K::V => m.f[f] = vec![0, x],
  }
  let mut g = Graph::<LN>::new(&w.ctx);
  let mut o = LT::new(&w.ctx);
  let i = o.insert(m);
  g.commit(o.t);
  let mut t = w.tx();
  t.t.merge(g);
  t.pend = o.pend;
  if flag() {
    t.mutate(i, Edit::Data(3, 1));
  }
  done(&mut w, t, 0);
}
/// histories: what was legal stays legal
pub fn c10_history() {
  let mut w = LW::new();
  let n = base(&mut w);
  let ts = ids(&n);
  for k in 0..2 {
    let mut t = w.tx();
    let (ty, f) = any_field();
    let e = edit_of(ty, f, &ts[..4], k == 1);
    t.edit(k == 0, n[ty as usize + 3].0, e);
    if !w.commit(t, 20 * k) {
      reach(2);
      return;
    }
  }
  reach(1);
}
/// many links, any one of them wrong
pub fn c10_wide() {
  let mut w = LW::new();
  let n = crate::plain::any_size();
  let mut t = w.tx();
  let b = t.new_node(1, &[]);
  let c = t.new_node(2, &[]);
  let bad = conc(range(0, n as u64) as usize);
  let redirect = flag();
  for k in 0..n {
    // every one of them may lead to b, only the bad one may not lead to c
    let x = if k + 1 == bad && !redirect { c } else { b };
    if k + 1 == bad {
      if k % 2 == 0 {
        t.new_node(0, &[&[x]]);
      } else {
        t.new_node(2, &[&[], &[x]]);
      }
    } else {
      match k % 4 {
        0 => t.new_node(0, &[&[], &[x]]),
        1 => t.new_node(1, &[&[x]]),
        2 => t.new_node(0, &[&[], &[], &[], &[x], &[x]]),
        _ => t.new_node(2, &[&[x]]),
      };
    }
  }
  if !w.commit(t, 0) {
    reach(2);
    return;
  }
  let mut t = w.tx();
  t.redirect(b, c);
  done(&mut w, t, 20);
}
crate::entries! { c10_wide, c10_lost, c10_insert, c10_insert_new, c10_edit, c10_edit_twice, c10_vector, c10_redirect, c10_mixed, c10_counterpart, c10_merge, c10_history }
