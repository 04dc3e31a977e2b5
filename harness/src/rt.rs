//! Interface between the harness and the engine.  In the symbolic build the functions below are
//! interpreted by symx; in the native build (feature `native`) they replay recorded inputs.
use ttgraph::NodeIndex;

#[cfg(not(feature = "native"))]
mod imp {
  extern "C" {
    fn symx_range(lo: u64, hi: u64) -> u64;
    fn symx_any() -> u64;
    fn symx_assume(c: bool);
    fn symx_assert(c: bool, id: u32);
    fn symx_reach(id: u32);
    fn symx_catch(f: extern "C" fn(*mut u8), data: *mut u8) -> i32;
    fn symx_spawn(f: extern "C" fn(*mut u8), data: *mut u8);
    fn symx_join_all();
    fn symx_hash_mode(m: u64);
    fn symx_print(v: u64);
    fn symx_conc(v: u64) -> u64;
  }
  #[inline(always)]
  pub fn range(lo: u64, hi: u64) -> u64 {
    unsafe { symx_range(lo, hi) }
  }
  #[inline(always)]
  pub fn any() -> u64 {
    unsafe { symx_any() }
  }
  #[inline(always)]
  pub fn assume(c: bool) {
    unsafe { symx_assume(c) }
  }
  #[inline(always)]
  pub fn check(c: bool, id: u32) {
    unsafe { symx_assert(c, id) }
  }
  #[inline(always)]
  pub fn reach(id: u32) {
    unsafe { symx_reach(id) }
  }
  pub fn catch_raw(f: extern "C" fn(*mut u8), data: *mut u8) -> bool {
    unsafe { symx_catch(f, data) != 0 }
  }
  pub fn spawn_raw(f: extern "C" fn(*mut u8), data: *mut u8) {
    unsafe { symx_spawn(f, data) }
  }
  pub fn join_all() {
    unsafe { symx_join_all() }
  }
  pub fn hash_mode(m: u64) {
    unsafe { symx_hash_mode(m) }
  }
  /// the same value, made concrete by case distinction
  pub fn conc(v: usize) -> usize {
    unsafe { symx_conc(v as u64) as usize }
  }
  #[allow(dead_code)]
  pub fn print(v: u64) {
    unsafe { symx_print(v) }
  }
  extern "C" fn tramp<F: FnOnce()>(p: *mut u8) {
    let f = unsafe { (*(p as *mut Option<F>)).take().unwrap() };
    f()
  }
  /// true if f panicked
  pub fn catch<F: FnOnce()>(f: F) -> bool {
    let mut o = Some(f);
    catch_raw(tramp::<F>, &mut o as *mut Option<F> as *mut u8)
  }
  pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    let b = Box::leak(Box::new(Some(f)));
    spawn_raw(tramp::<F>, b as *mut Option<F> as *mut u8)
  }
}

#[cfg(feature = "native")]
mod imp {
  use std::cell::RefCell;
  use std::panic::{catch_unwind, AssertUnwindSafe};
  thread_local! {
    pub static INPUTS: RefCell<(Vec<u64>, usize)> = const { RefCell::new((vec![], 0)) };
    pub static THREADS: RefCell<Vec<std::thread::JoinHandle<()>>> = const { RefCell::new(vec![]) };
  }
  fn next() -> u64 {
    INPUTS.with(|i| {
      let mut i = i.borrow_mut();
      let k = i.1;
      i.1 += 1;
      match i.0.get(k) {
        Some(v) => *v,
        None => {
          println!("REPLAY-EXHAUSTED");
          std::process::exit(3)
        },
      }
    })
  }
  pub fn range(lo: u64, hi: u64) -> u64 {
    let v = next();
    if v < lo || v > hi {
      println!("REPLAY-OUT-OF-RANGE");
      std::process::exit(3)
    }
    v
  }
  pub fn any() -> u64 {
    next()
  }
  pub fn assume(c: bool) {
    if !c {
      println!("REPLAY-ASSUME-FALSE");
      std::process::exit(3)
    }
  }
  pub fn check(c: bool, id: u32) {
    if !c {
      println!("REPLAY-ASSERT {}", id);
      std::process::exit(10)
    }
  }
  pub fn reach(_id: u32) {}
  pub fn join_all() {
    THREADS.with(|t| {
      for h in t.borrow_mut().drain(..) {
        if h.join().is_err() {
          println!("REPLAY-THREAD-PANIC");
          std::process::exit(11)
        }
      }
    })
  }
  pub fn hash_mode(_m: u64) {}
  pub fn conc(v: usize) -> usize {
    v
  }
  #[allow(dead_code)]
  pub fn print(v: u64) {
    println!("print: {}", v);
  }
  pub fn catch<F: FnOnce()>(f: F) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
  }
  pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    let h = std::thread::spawn(f);
    THREADS.with(|t| t.borrow_mut().push(h));
  }
}
pub use imp::*;

#[allow(dead_code)]
pub fn flag() -> bool {
  range(0, 1) == 1
}
/// one of the given values, symbolically
#[allow(dead_code)]
pub fn pick(v: &[usize]) -> usize {
  let k = range(0, v.len() as u64 - 1);
  let mut r = v[0];
  let mut i = 1;
  while i < v.len() {
    if k == i as u64 {
      r = v[i];
    }
    i += 1;
  }
  r
}
#[allow(dead_code)]
pub fn ix(x: usize) -> NodeIndex {
  NodeIndex(x)
}
