//! Node indices are never empty and never handed out twice in one context.
use crate::plain::*;
use crate::rt::*;
use crate::tok;
use ttgraph::serialize::*;
use ttgraph::*;

static mut OUT: [[usize; 4]; 3] = [[0; 4]; 3];

fn take(t: &mut Transaction<'static, N>, how: u64) -> usize {
  match how {
    0 => t.insert(real(&mc(&[], 1))).0,
    1 => alloc_node!(t, N::B).0,
    _ => t.alloc_untyped().0,
  }
}
fn distinct(v: &[usize], id: u32) {
  for i in 0..v.len() {
    check(v[i] != 0, id);
    for j in 0..i {
      check(v[i] != v[j], id + 1);
    }
  }
}
/// threads allocating through transactions of their own
fn race(threads: usize, per: usize, hows: &[u64]) {
  #[cfg(not(feature = "native"))]
  {
    let ctx = Context::new();
    let mut t = Transaction::<N>::new(&ctx);
    let mut ids = vec![take(&mut t, 0)];
    for k in 0..threads {
      let c = ctx.clone();
      let h: Vec<u64> = hows[k * per..(k + 1) * per].to_vec();
      spawn(move || {
        let mut t = Transaction::<N>::new(&c);
        for i in 0..h.len() {
          let x = take(&mut t, h[i]);
          unsafe { OUT[k][i] = x };
        }
        std::mem::forget(t);
        std::mem::forget(c);
        std::mem::forget(h);
      });
    }
    ids.push(take(&mut t, 2));
    join_all();
    for k in 0..threads {
      for i in 0..per {
        ids.push(unsafe { OUT[k][i] });
      }
    }
    ids.push(take(&mut t, 1));
    distinct(&ids, 1);
    reach(1);
  }
  #[cfg(feature = "native")]
  {
    // replay of a schedule: provoke it by repetition
    use std::sync::{Arc, Barrier, Mutex};
    for _ in 0..60 {
      let ctx = Context::new();
      let all = Arc::new(Mutex::new(vec![]));
      let bar = Arc::new(Barrier::new(threads.max(4)));
      let hs: Vec<_> = (0..threads.max(4))
        .map(|k| {
          let (c, all, bar) = (ctx.clone(), all.clone(), bar.clone());
          let h: Vec<u64> = hows[(k % threads) * per..(k % threads + 1) * per].to_vec();
          std::thread::spawn(move || {
            let mut t = Transaction::<N>::new(&c);
            let mut v = vec![];
            bar.wait();
            for _ in 0..400 {
              for x in &h {
                v.push(take(&mut t, *x));
              }
            }
            all.lock().unwrap().extend(v);
          })
        })
        .collect();
      for h in hs {
        if h.join().is_err() {
          println!("REPLAY-THREAD-PANIC");
          std::process::exit(11)
        }
      }
      let mut v = all.lock().unwrap().clone();
      v.sort();
      check(v[0] != 0, 1);
      for i in 1..v.len() {
        check(v[i] != v[i - 1], 2);
      }
    }
  }
}
pub fn c01_threads2() {
  let h = [range(0, 2), range(0, 2), range(0, 2), range(0, 2)];
  race(2, 2, &h);
}
pub fn c01_threads2x3() {
  race(2, 3, &[0, 1, 2, 2, 0, 1]);
}
pub fn c01_threads3() {
  race(3, 1, &[0, 1, 2]);
}
/// any history of allocating calls, with transactions committed, given up, merged or left open
fn history(steps: usize, start: usize) {
  let (ctx, mut g) = start_at(start);
  let mut ids: Vec<usize> = g.iter().map(|x| x.0 .0).collect();
  let n0 = ids.len();
  let mut t = Transaction::<N>::new(&ctx);
  let mut open: Vec<Transaction<N>> = vec![];
  let mut c2 = ctx.clone();
  for k in 0..steps {
    match range(0, 8) {
      0 => ids.push(t.insert(real(&any_node(range(0, 2) as u8, 0))).0),
      1 => {
        let i = alloc_node!(t, N::A);
        t.fill_back(i, real(&ma(0, 0, &[], &[], 3)));
        ids.push(i.0);
      },
      2 => {
        let i = t.alloc_untyped();
        t.fill_back_untyped(i, real(&mc(&[], 3)));
        ids.push(i.0);
      },
      3 => {
        g.commit(t);
        t = Transaction::new(&ctx);
      },
      4 => {
        t.give_up();
        t = Transaction::new(&c2);
      },
      5 => {
        // a second open transaction
        let o = std::mem::replace(&mut t, Transaction::new(&c2));
        open.push(o);
      },
      6 => {
        // remove the newest node again
        assume(ids.len() > n0);
        let i = *ids.last().unwrap();
        if g.get(ix(i)).is_some() {
          let mut r = Transaction::new(&ctx);
          r.remove(ix(i));
          g.commit(r);
        } else {
          assume(open.is_empty());
          let i2 = alloc_node!(t, N::C);
          t.remove(i2);
          ids.push(i2.0);
        }
      },
      7 => {
        // relabel within the context
        g = g.switch_context(&ctx);
        let v: Vec<usize> = g.iter().map(|x| x.0 .0).collect();
        for x in v {
          ids.push(x);
        }
      },
      _ => {
        // bulk insertion
        let before = g.len();
        let mut b = Transaction::new(&c2);
        b.extend(vec![real(&mc(&[], 8)), real(&ma(0, 0, &[], &[], 9))]);
        let mut h = Graph::<N>::new(&ctx);
        h.commit(b);
        check(h.len() == 2, 11);
        let v: Vec<usize> = h.iter().map(|x| x.0 .0).collect();
        for x in v {
          ids.push(x);
        }
        t.merge(h);
      },
    }
  }
  ids.push(t.insert(real(&mc(&[], 8))).0);
  distinct(&ids, 1);
  reach(1);
}
/// a context in which indices up to `start` (and some of them still used) have been handed out
fn start_at(start: usize) -> (Context, Graph<N>) {
  if start == 0 {
    let c = Context::new();
    let g = Graph::new(&c);
    return (c, g);
  }
  deserialize_graph(tok::graph_of(vec![(start, real(&mc(&[], 1)))]))
}
pub fn c01_history() {
  history(4, 0);
}
/// the counter starts anywhere
pub fn c01_history_any() {
  let s = any() as usize;
  assume(s > 0 && s < 1 << 62);
  history(3, s);
}
/// a context rebuilt by deserialization never reuses an index
pub fn c01_recovered() {
  let (a, b, c) = (any() as usize, any() as usize, any() as usize);
  assume(a != 0 && b != 0 && c != 0 && a < 1 << 62 && b < 1 << 62 && c < 1 << 62);
  assume(a != b && b != c && a != c);
  let n = conc(range(0, 3) as usize);
  let all = [(a, real(&mc(&[], 1))), (b, real(&ma(0, 0, &[], &[], 1))), (c, real(&mb(0, &[], &[], &[], 1)))];
  let used = [a, b, c];
  let mut v = vec![];
  let mut ids = vec![];
  for (k, x) in all.into_iter().enumerate() {
    if k < n {
      ids.push(x.0);
      v.push(x);
    }
  }
  let (ctx, g) = deserialize_graph(tok::graph_of(v));
  let mut t = Transaction::<N>::new(&ctx);
  for k in 0..2 {
    ids.push(take(&mut t, k + 1));
  }
  let mut t2 = Transaction::<N>::new(&ctx.clone());
  ids.push(take(&mut t2, 0));
  distinct(&ids, 1);
  reach(1);
}
/// recovered from a graph with gaps, through the owned serializer
pub fn c01_recovered_gaps() {
  let mut w = W::new();
  let n = conc(range(1, 5) as usize);
  let mut t = w.tx();
  let mut ids = vec![];
  for k in 0..n {
    ids.push(t.insert(any_node((k % 3) as u8, 0)));
  }
  w.setup(t);
  let rem = range(0, 31);
  let mut t = w.tx();
  for k in 0..n {
    if rem >> k & 1 == 1 {
      t.remove(ids[k]);
    }
  }
  w.setup(t);
  let mut left: Vec<usize> = w.m.iter().map(|x| x.id).collect();
  let s: GraphSerializer<N> = GraphSerializer::from(w.g);
  let (ctx, g) = deserialize_graph(s);
  check(g.len() == left.len(), 10);
  let mut t = Transaction::<N>::new(&ctx);
  for k in 0..3 {
    left.push(take(&mut t, k));
  }
  distinct(&left, 1);
  reach(1);
}
crate::entries! { c01_threads2, c01_threads2x3, c01_threads3, c01_history, c01_history_any, c01_recovered, c01_recovered_gaps }
