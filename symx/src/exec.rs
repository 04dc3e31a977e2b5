//! Symbolic interpreter for the parsed LLVM IR.
use crate::expr::{Arena, E, K};
use crate::ir::*;
use crate::solver::{Res, Solver};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
  C(u64),
  S(E),
  A(Rc<Vec<Val>>), // aggregates and vectors
  W(Rc<u128>),     // concrete integers wider than 64 bits
}

#[derive(Clone)]
pub struct Obj {
  pub data: Vec<u8>,
  pub sym: Vec<u32>, // empty, or per byte expr<<4 | byte index (0: concrete)
}

#[derive(Clone)]
pub struct Frame {
  pub func: u32,
  pub block: u32,
  pub ip: u32,
  pub catch: bool,
  pub regs: Vec<Val>,
  pub allocas: Vec<u32>,
}

#[derive(Clone)]
pub struct Thread {
  pub frames: Vec<Frame>,
  pub granted: bool,
  pub joining: bool,
  pub waiting: Option<u64>, // for the lock word at this address to become 0
  pub done: bool,
}

#[derive(Clone)]
pub struct State {
  pub objs: Vec<Option<Rc<Obj>>>,
  pub free: Vec<u32>,
  pub gover: BTreeMap<u32, Rc<Obj>>,
  pub threads: Vec<Thread>,
  pub cur: usize,
  pub pc: Vec<E>,
  pub model: Vec<u64>,
  pub fixed: Vec<bool>, // variables with a single feasible value (the model's)
  pub dom: Vec<u64>, // per variable of at most 6 bits: values left by the path condition (0: not tracked)
  pub inputs: Vec<(u64, Val, bool)>, // (lo, value expression, is schedule)
  pub icount: u64,
  pub uuid: u64,
  pub preempted: u32, // switches away from a thread that could go on
  pub hash_mode: u64,
  pub reach: Vec<u32>,
  pub last_panic: String,
}

#[derive(Debug, Clone)]
pub enum Stop {
  End,
  Infeasible,
  Panic(String),
  Mem(String),
  Unsup(String),
  Limit,
  Yield,
  Assert(u32),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stub {
  None,
  MutexLock,
  Nop,
  Panic,
  PanicMisc,
  HashOne(bool), // key readable as u64
  RandomStateNew,
  FormatInner,
  Uuid,
  Memcpy,
  Memset,
  Malloc,
  Calloc,
  Realloc,
  PosixMemalign,
  Free,
  Bcmp,
  Memcmp,
  Strlen,
  Abort,
  GetRandom,
  Range,
  Any,
  Assume,
  SAssert,
  Reach,
  Catch,
  Spawn,
  JoinAll,
  HashMode,
  Conc,
  Print,
  LAssume,
  Expect,
  Ctlz(u32),
  Cttz(u32),
  Ctpop(u32),
  Bswap(u32),
  Bitrev(u32),
  Fsh(bool, u32),
  MinMax(u8, u32),
  Ovf(u8, u32),
  Sat(u8, u32),
  Cmp3(bool, u32, u32), // signed, result width, arg width
  Abs(u32),
  TlsAddr,
  IsConst,
  Movmsk,
}

fn width_suffix(n: &str) -> u32 {
  n.rsplit('.').next().and_then(|s| s.strip_prefix('i')).and_then(|s| s.parse().ok()).unwrap_or(0)
}

pub fn stub_for(name: &str) -> Stub {
  if let Some(n) = name.strip_prefix("llvm.") {
    let w = width_suffix(name);
    if n.starts_with("memcpy.") || n.starts_with("memmove.") {
      return Stub::Memcpy;
    }
    if n.starts_with("memset.") {
      return Stub::Memset;
    }
    if n.starts_with("lifetime.")
      || n.starts_with("experimental.noalias")
      || n.starts_with("dbg.")
      || n.starts_with("prefetch")
      || n.starts_with("x86.sse2.pause")
      || n.starts_with("sideeffect")
      || n.starts_with("donothing")
    {
      return Stub::Nop;
    }
    if n == "assume" {
      return Stub::LAssume;
    }
    if n == "trap" || n == "ubsantrap" || n == "debugtrap" {
      return Stub::Abort;
    }
    if n.starts_with("expect.") {
      return Stub::Expect;
    }
    if n.starts_with("is.constant") {
      return Stub::IsConst;
    }
    if n.starts_with("threadlocal.address") || n.starts_with("launder.") || n.starts_with("strip.") {
      return Stub::TlsAddr;
    }
    if n.starts_with("x86.sse2.pmovmskb") {
      return Stub::Movmsk;
    }
    if w > 0 {
      if n.starts_with("ctlz.") {
        return Stub::Ctlz(w);
      }
      if n.starts_with("cttz.") {
        return Stub::Cttz(w);
      }
      if n.starts_with("ctpop.") {
        return Stub::Ctpop(w);
      }
      if n.starts_with("bswap.") {
        return Stub::Bswap(w);
      }
      if n.starts_with("bitreverse.") {
        return Stub::Bitrev(w);
      }
      if n.starts_with("fshl.") {
        return Stub::Fsh(true, w);
      }
      if n.starts_with("fshr.") {
        return Stub::Fsh(false, w);
      }
      for (i, p) in ["umax.", "umin.", "smax.", "smin."].iter().enumerate() {
        if n.starts_with(p) {
          return Stub::MinMax(i as u8, w);
        }
      }
      for (i, p) in ["uadd.with", "usub.with", "umul.with", "sadd.with", "ssub.with", "smul.with"].iter().enumerate() {
        if n.starts_with(p) {
          return Stub::Ovf(i as u8, w);
        }
      }
      for (i, p) in ["uadd.sat", "usub.sat"].iter().enumerate() {
        if n.starts_with(p) {
          return Stub::Sat(i as u8, w);
        }
      }
      if n.starts_with("ucmp.") || n.starts_with("scmp.") {
        let r: u32 = n[5..].split('.').next().unwrap()[1..].parse().unwrap_or(8);
        return Stub::Cmp3(n.starts_with('s'), r, w);
      }
      if n.starts_with("abs.") {
        return Stub::Abs(w);
      }
    }
    return Stub::None;
  }
  match name {
    "malloc" => Stub::Malloc,
    "calloc" => Stub::Calloc,
    "realloc" => Stub::Realloc,
    "posix_memalign" => Stub::PosixMemalign,
    "free" => Stub::Free,
    "bcmp" => Stub::Bcmp,
    "memcmp" => Stub::Memcmp,
    "memcpy" | "memmove" => Stub::Memcpy,
    "memset" => Stub::Memset,
    "strlen" => Stub::Strlen,
    "abort" => Stub::Abort,
    "getrandom" => Stub::GetRandom,
    "__cxa_thread_atexit_impl" | "sched_yield" => Stub::Nop,
    "symx_range" => Stub::Range,
    "symx_any" => Stub::Any,
    "symx_assume" => Stub::Assume,
    "symx_assert" => Stub::SAssert,
    "symx_reach" => Stub::Reach,
    "symx_catch" => Stub::Catch,
    "symx_spawn" => Stub::Spawn,
    "symx_join_all" => Stub::JoinAll,
    "symx_hash_mode" => Stub::HashMode,
    "symx_print" => Stub::Print,
    "symx_conc" => Stub::Conc,
    _ => {
      if name.contains("11BuildHasher8hash_one") {
        let t = &name[name.find("8hash_one").unwrap() + 9..];
        let body = t.strip_prefix('R').unwrap_or(t);
        let key = body.starts_with('j') || (body.contains("9NodeIndex") && (body.starts_with("Nt") || body.starts_with("TNt")));
        return Stub::HashOne(key);
      }
      if name.contains("4hash6random") && name.contains("11RandomState3new") {
        return Stub::RandomStateNew;
      }
      if name.contains("9panicking9panic_fmt") {
        return Stub::Panic;
      }
      if name.contains("9panicking") || name.contains("18handle_alloc_error") || name.contains("10rust_panic") {
        return Stub::PanicMisc;
      }
      if name.contains("3fmt6format12format_inner") {
        return Stub::FormatInner;
      }
      if name.contains("4Uuid6new_v4") {
        return Stub::Uuid;
      }
      if name.contains("5mutex5futex") && name.contains("14lock_contended") {
        return Stub::MutexLock;
      }
      Stub::None
    },
  }
}

#[derive(Clone)]
pub struct Violation {
  pub kind: String, // assert, panic, memory, limit, abort
  pub id: u32,
  pub what: String,
  pub inputs: Vec<u64>,
  pub sched: Vec<u64>,
}

#[derive(Default)]
pub struct Results {
  pub paths: u64,
  pub infeasible: u64,
  pub forks: u64,
  pub bounded: u64, // switches not explored: too many preemptions
  pub instrs: u64,
  pub asserts: u64,       // assertion instances reached
  pub assert_queries: u64, // those that needed the solver
  pub assert_ids: BTreeMap<u32, u64>,
  pub reach: BTreeMap<u32, u64>,
  pub touched: Vec<bool>,
  pub violations: Vec<Violation>,
  pub vcount: BTreeMap<String, u64>,
  pub errors: BTreeMap<String, u64>,
  pub panics: BTreeMap<String, u64>,
  pub max_depth: u64,
  pub unknown: u64,
  pub samples: Vec<Vec<u64>>,
}

pub struct Exec {
  pub m: &'static Module,
  pub a: Arena,
  pub solver: Solver,
  pub kvals: Vec<Val>,
  pub globals: Vec<Rc<Obj>>,
  pub stubs: Vec<Stub>,
  pub pending: Vec<State>,
  pub bfs: bool,
  pub forked: bool,
  pub r: Results,
  pub limit: u64,
  pub max_preempt: u32,
  pub deadline: Option<Instant>,
  pub timed_out: bool,
  pub varmap: HashMap<(u32, u32), E>,
  pub tmp: Vec<Val>,
  pub max_viol: usize,
}

type R<T> = Result<T, Stop>;

impl Exec {
  pub fn new(m: &'static Module) -> Exec {
    let mut ex = Exec {
      m,
      a: Arena::new(),
      solver: Solver::new(),
      kvals: vec![],
      globals: vec![],
      stubs: m.funcs.iter().map(|f| if f.defined { Stub::None } else { stub_for(&f.name) }).collect(),
      pending: vec![],
      bfs: false,
      forked: false,
      r: Results { touched: vec![false; m.funcs.len()], ..Default::default() },
      limit: 40_000_000,
      max_preempt: u32::MAX,
      deadline: None,
      timed_out: false,
      varmap: HashMap::new(),
      tmp: vec![],
      max_viol: 40,
    };
    for (t, c) in &m.consts {
      let v = ex.const_val(*t, c);
      ex.kvals.push(v);
    }
    for g in &m.globals {
      let mut data = vec![0u8; g.size as usize];
      if let Some(c) = &g.init {
        ex.const_bytes(g.ty, c, &mut data, 0);
      }
      ex.globals.push(Rc::new(Obj { data, sym: vec![] }));
    }
    ex
  }
  fn const_bytes(&self, t: TyId, c: &Const, out: &mut [u8], off: usize) {
    let sz = self.m.types.size(t) as usize;
    let mut put = |v: u64, n: usize| {
      for i in 0..n.min(8) {
        out[off + i] = (v >> (8 * i)) as u8;
      }
    };
    match c {
      Const::Int(v) => put(*v, sz),
      Const::Wide(v) => {
        for i in 0..sz.min(16) {
          out[off + i] = (*v >> (8 * i)) as u8;
        }
      },
      Const::Global(g, o) => put(global_addr(*g).wrapping_add(*o as u64), 8),
      Const::Func(f) => put(func_addr(*f), 8),
      Const::Zero | Const::Undef => {},
      Const::Bytes(b) => out[off..off + b.len()].copy_from_slice(b),
      Const::Agg(v) => {
        for (i, (et, e)) in v.iter().enumerate() {
          let (o, _) = self.m.types.field_off(t, i);
          self.const_bytes(*et, e, out, off + o as usize);
        }
      },
    }
  }
  fn const_val(&self, t: TyId, c: &Const) -> Val {
    match c {
      Const::Int(v) => Val::C(*v),
      Const::Wide(v) => Val::W(Rc::new(*v)),
      Const::Global(g, o) => Val::C(global_addr(*g).wrapping_add(*o as u64)),
      Const::Func(f) => Val::C(func_addr(*f)),
      Const::Zero | Const::Undef => self.zero(t),
      Const::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u64)).collect())),
      Const::Agg(v) => Val::A(Rc::new(v.iter().map(|(t, c)| self.const_val(*t, c)).collect())),
    }
  }
  fn zero(&self, t: TyId) -> Val {
    match &self.m.types.tys[t as usize] {
      Ty::Int(w) if *w > 64 => Val::W(Rc::new(0)),
      Ty::Array(n, e) => Val::A(Rc::new((0..*n).map(|_| self.zero(*e)).collect())),
      Ty::Vector(n, e) => Val::A(Rc::new((0..*n).map(|_| self.zero(*e)).collect())),
      Ty::Struct(fs, _) => Val::A(Rc::new(fs.iter().map(|f| self.zero(*f)).collect())),
      _ => Val::C(0),
    }
  }

  pub fn initial(&mut self, entry: &str) -> State {
    let f = *self.m.fmap.get(entry).unwrap_or_else(|| panic!("entry {} not found", entry));
    let mut st = State {
      objs: vec![None],
      free: vec![],
      gover: BTreeMap::new(),
      threads: vec![Thread { frames: vec![], granted: false, joining: false, waiting: None, done: false }],
      cur: 0,
      pc: vec![],
      model: vec![],
      fixed: vec![],
      dom: vec![],
      inputs: vec![],
      icount: 0,
      uuid: 0,
      preempted: 0,
      hash_mode: 0,
      reach: vec![],
      last_panic: String::new(),
    };
    let fr = self.new_frame(f, vec![]);
    st.threads[0].frames.push(fr);
    st
  }
  fn new_frame(&mut self, f: u32, args: Vec<Val>) -> Frame {
    self.r.touched[f as usize] = true;
    let fun = &self.m.funcs[f as usize];
    let mut regs = args;
    regs.truncate(fun.nparams as usize);
    regs.resize(fun.nregs as usize, Val::C(0));
    Frame { func: f, block: 0, ip: 0, catch: false, regs, allocas: vec![] }
  }

  // ---- expressions -------------------------------------------------------------------------------
  fn norm(&self, e: E) -> Val {
    match self.a.cv(e) {
      Some(v) => Val::C(v),
      None => Val::S(e),
    }
  }
  fn ex(&mut self, v: &Val, w: u32) -> R<E> {
    match v {
      Val::C(c) => Ok(self.a.c(*c, w)),
      Val::S(e) => {
        let ew = self.a.w(*e);
        if ew == w {
          Ok(*e)
        } else if ew < w {
          Ok(self.a.zext(*e, w))
        } else {
          Ok(self.a.extract(*e, 0, w))
        }
      },
      _ => Err(Stop::Unsup("scalar expected".into())),
    }
  }
  pub fn meval(&self, st: &State, e: E) -> u64 {
    self.a.evals(e, &|v| st.model.get(v as usize).copied().unwrap_or(0))
  }
  fn set_model(&self, st: &mut State, vals: &[(u32, u64)]) {
    for (v, x) in vals {
      let i = *v as usize;
      if st.model.len() <= i {
        st.model.resize(i + 1, 0);
      }
      st.model[i] = *x;
    }
  }
  fn new_input(&mut self, st: &mut State, w: u32) -> E {
    let k = st.inputs.len() as u32;
    if let Some(e) = self.varmap.get(&(k, w)) {
      return *e;
    }
    let e = self.a.new_var(w);
    self.varmap.insert((k, w), e);
    e
  }
  /// decide a 1-bit condition; forks the state when both outcomes are feasible.  The other outcome is
  /// returned as a state that has the negated condition in its path condition.
  fn decide(&mut self, st: &mut State, cond: E) -> R<(bool, Option<State>)> {
    if let Some(v) = self.a.cv(cond) {
      return Ok((v == 1, None));
    }
    let v = self.meval(st, cond) == 1;
    if self.all_fixed(st, cond) {
      return Ok((v, None));
    }
    let n = self.a.not(cond);
    let (here, other) = if v { (cond, n) } else { (n, cond) };
    match self.solver.check(&self.a, &st.pc, other) {
      Res::Unsat => {
        self.fix(st, here);
        Ok((v, None))
      },
      Res::Sat(m) => {
        let mut o = st.clone();
        o.pc.push(other);
        self.set_model(&mut o, &m);
        self.fix(&mut o, other);
        st.pc.push(here);
        self.fix(st, here);
        self.r.forks += 1;
        Ok((v, Some(o)))
      },
      Res::Unknown => {
        self.r.unknown += 1;
        Err(Stop::Unsup("solver returned unknown".into()))
      },
    }
  }
  /// note that the condition c, which holds on this path, may pin a variable to one value
  fn fix(&self, st: &mut State, c: E) {
    let vs = self.a.vars_of(c);
    if vs.len() != 1 {
      return;
    }
    let v = vs[0];
    let i = v as usize;
    let d = st.dom.get(i).copied().unwrap_or(0);
    let one = if d != 0 {
      let mut r = 0u64;
      for k in 0..64 {
        if d >> k & 1 == 1 && self.a.evals(c, &|_| k) == 1 {
          r |= 1 << k;
        }
      }
      st.dom[i] = r;
      r.count_ones() == 1
    } else {
      match self.a.k(c) {
        K::Eq(x, y) => self.a.cv(y).is_some() && matches!(self.a.k(x), K::Var(_)),
        _ => false,
      }
    };
    if one {
      if st.fixed.len() <= i {
        st.fixed.resize(i + 1, false);
      }
      st.fixed[i] = true;
    }
  }
  fn all_fixed(&self, st: &State, e: E) -> bool {
    self.a.vars_of(e).iter().all(|x| st.fixed.get(*x as usize).copied().unwrap_or(false))
  }
  fn settle(&self, st: &State, v: Val) -> Val {
    match v {
      Val::S(e) if self.all_fixed(st, e) => Val::C(self.meval(st, e)),
      v => v,
    }
  }
  fn push_pending(&mut self, s: State) {
    self.pending.push(s);
    self.forked = true;
  }
  /// make a value concrete by forking over its feasible values (alternatives re-execute the instruction)
  fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
    match v {
      Val::C(c) => Ok(*c),
      Val::S(e) => {
        let x = self.meval(st, *e);
        let w = self.a.w(*e);
        let k = self.a.c(x, w);
        let c = self.a.eq(*e, k);
        let (b, o) = self.decide(st, c)?;
        debug_assert!(b);
        if let Some(o) = o {
          self.push_pending(o);
        }
        Ok(x)
      },
      _ => Err(Stop::Unsup("scalar expected".into())),
    }
  }

  // ---- memory ------------------------------------------------------------------------------------
  fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
    let o = Rc::new(Obj { data: vec![0; size as usize], sym: vec![] });
    self.alloc_obj(st, o)
  }
  fn alloc_obj(&mut self, st: &mut State, o: Rc<Obj>) -> u64 {
    let id = if let Some(i) = st.free.pop() {
      st.objs[i as usize] = Some(o);
      i
    } else {
      st.objs.push(Some(o));
      (st.objs.len() - 1) as u32
    };
    (id as u64) << 32
  }
  fn free_obj(&mut self, st: &mut State, id: u32) {
    st.objs[id as usize] = None;
    st.free.push(id);
  }
  fn obj<'x>(&'x self, st: &'x State, addr: u64, n: u64) -> R<(&'x Obj, usize)> {
    let id = addr >> 32;
    let off = (addr & 0xffff_ffff) as usize;
    let o: &Obj = if id < GLOBAL_BASE {
      match st.objs.get(id as usize) {
        Some(Some(o)) => o,
        _ => return Err(Stop::Mem(format!("access to invalid address {:#x}", addr))),
      }
    } else if id < FUNC_BASE {
      let g = (id - GLOBAL_BASE) as u32;
      match st.gover.get(&g) {
        Some(o) => o,
        None => match self.globals.get(g as usize) {
          Some(o) => o,
          None => return Err(Stop::Mem(format!("access to invalid address {:#x}", addr))),
        },
      }
    } else {
      return Err(Stop::Mem(format!("access to invalid address {:#x}", addr)));
    };
    if off as u64 + n > o.data.len() as u64 {
      return Err(Stop::Mem(format!("out of bounds access of {} bytes at offset {} of an object of {} bytes", n, off, o.data.len())));
    }
    Ok((o, off))
  }
  fn obj_mut<'x>(&'x self, st: &'x mut State, addr: u64, n: u64) -> R<(&'x mut Obj, usize)> {
    let id = addr >> 32;
    let off = (addr & 0xffff_ffff) as usize;
    let o: &mut Rc<Obj> = if id < GLOBAL_BASE {
      match st.objs.get_mut(id as usize) {
        Some(Some(o)) => o,
        _ => return Err(Stop::Mem(format!("write to invalid address {:#x}", addr))),
      }
    } else if id < FUNC_BASE {
      let g = (id - GLOBAL_BASE) as u32;
      if g as usize >= self.globals.len() || self.m.globals[g as usize].constant {
        return Err(Stop::Mem("write to constant memory".into()));
      }
      st.gover.entry(g).or_insert_with(|| self.globals[g as usize].clone())
    } else {
      return Err(Stop::Mem(format!("write to invalid address {:#x}", addr)));
    };
    if off as u64 + n > o.data.len() as u64 {
      return Err(Stop::Mem(format!("out of bounds write of {} bytes at offset {} of an object of {} bytes", n, off, o.data.len())));
    }
    Ok((Rc::make_mut(o), off))
  }
  fn load_int(&mut self, st: &State, addr: u64, w: u32) -> R<Val> {
    let n = ((w + 7) / 8) as usize;
    if n > 8 {
      let (o, off) = self.obj(st, addr, n as u64)?;
      if !o.sym.is_empty() && o.sym[off..off + n].iter().any(|x| *x != 0) {
        return Err(Stop::Unsup("symbolic wide integer".into()));
      }
      let mut v = 0u128;
      for i in (0..n.min(16)).rev() {
        v = v << 8 | o.data[off + i] as u128;
      }
      return Ok(Val::W(Rc::new(v)));
    }
    let (o, off) = self.obj(st, addr, n as u64)?;
    if o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| *x == 0) {
      let d = &o.data[off..off + n];
      let v = if n == 8 {
        u64::from_le_bytes(d.try_into().unwrap())
      } else {
        let mut v = 0u64;
        for i in (0..n).rev() {
          v = v << 8 | d[i] as u64;
        }
        v
      };
      return Ok(Val::C(v & mask(w)));
    }
    // symbolic
    let mut bytes: [(u32, u8); 8] = [(0, 0); 8];
    for i in 0..n {
      bytes[i] = (o.sym[off + i], o.data[off + i]);
    }
    let e0 = bytes[0].0 >> 4;
    if e0 != 0 && self.a.w(e0) == 8 * n as u32 && (0..n).all(|i| bytes[i].0 == (e0 << 4 | i as u32)) {
      let e = if w < 8 * n as u32 { self.a.extract(e0, 0, w) } else { e0 };
      let v = self.norm(e);
      return Ok(self.settle(st, v));
    }
    let mut acc: Option<E> = None;
    for i in 0..n {
      let b = if bytes[i].0 == 0 {
        self.a.c(bytes[i].1 as u64, 8)
      } else {
        let e = bytes[i].0 >> 4;
        let k = bytes[i].0 & 15;
        self.a.extract(e, k * 8, 8)
      };
      acc = Some(match acc {
        None => b,
        Some(l) => self.a.concat(b, l),
      });
    }
    let mut e = acc.unwrap();
    if w < 8 * n as u32 {
      e = self.a.extract(e, 0, w);
    }
    let v = self.norm(e);
    Ok(self.settle(st, v))
  }
  fn store_int(&mut self, st: &mut State, addr: u64, w: u32, v: &Val) -> R<()> {
    let n = ((w + 7) / 8) as usize;
    match v {
      Val::C(c) => {
        let (o, off) = self.obj_mut(st, addr, n as u64)?;
        for i in 0..n {
          o.data[off + i] = if i < 8 { (*c >> (8 * i)) as u8 } else { 0 };
        }
        if !o.sym.is_empty() {
          o.sym[off..off + n].fill(0);
        }
        Ok(())
      },
      Val::W(c) => {
        let (o, off) = self.obj_mut(st, addr, n as u64)?;
        for i in 0..n.min(16) {
          o.data[off + i] = (**c >> (8 * i)) as u8;
        }
        if !o.sym.is_empty() {
          o.sym[off..off + n].fill(0);
        }
        Ok(())
      },
      Val::S(e) => {
        if n > 8 {
          return Err(Stop::Unsup("symbolic wide store".into()));
        }
        let e = self.a.zext(*e, 8 * n as u32);
        let (o, off) = self.obj_mut(st, addr, n as u64)?;
        if o.sym.is_empty() {
          o.sym = vec![0; o.data.len()];
        }
        for i in 0..n {
          o.sym[off + i] = e << 4 | i as u32;
          o.data[off + i] = 0;
        }
        Ok(())
      },
      Val::A(_) => Err(Stop::Unsup("aggregate stored as integer".into())),
    }
  }
  fn load_ty(&mut self, st: &State, addr: u64, t: TyId) -> R<Val> {
    let m = self.m;
    match &m.types.tys[t as usize] {
      Ty::Struct(fs, _) => {
        let mut v = vec![];
        for (i, f) in fs.iter().enumerate() {
          let (o, _) = m.types.field_off(t, i);
          v.push(self.load_ty(st, addr + o, *f)?);
        }
        Ok(Val::A(Rc::new(v)))
      },
      Ty::Array(n, e) => {
        let s = m.types.size(*e);
        let mut v = vec![];
        for i in 0..*n {
          v.push(self.load_ty(st, addr + i * s, *e)?);
        }
        Ok(Val::A(Rc::new(v)))
      },
      _ => {
        let sh = m.shape(t);
        self.load_shape(st, addr, sh)
      },
    }
  }
  fn load_shape(&mut self, st: &State, addr: u64, sh: Shape) -> R<Val> {
    match sh {
      Shape::Int(w) => self.load_int(st, addr, w),
      Shape::Vec(n, w) => {
        if w % 8 == 0 {
          let mut v = Vec::with_capacity(n as usize);
          for i in 0..n {
            v.push(self.load_int(st, addr + (i * w / 8) as u64, w)?);
          }
          Ok(Val::A(Rc::new(v)))
        } else {
          let x = self.load_int(st, addr, n * w)?;
          self.bitcast(&x, Shape::Int(n * w), sh)
        }
      },
      Shape::Agg(t) => self.load_ty(st, addr, t),
      Shape::Void => Ok(Val::C(0)),
    }
  }
  fn store_ty(&mut self, st: &mut State, addr: u64, t: TyId, v: &Val) -> R<()> {
    let m = self.m;
    match &m.types.tys[t as usize] {
      Ty::Struct(fs, _) => {
        let Val::A(a) = v else { return Err(Stop::Unsup("agg".into())) };
        for (i, f) in fs.iter().enumerate() {
          let (o, _) = m.types.field_off(t, i);
          self.store_ty(st, addr + o, *f, &a[i])?;
        }
        Ok(())
      },
      Ty::Array(n, e) => {
        let Val::A(a) = v else { return Err(Stop::Unsup("agg".into())) };
        let s = m.types.size(*e);
        for i in 0..*n {
          self.store_ty(st, addr + i * s, *e, &a[i as usize])?;
        }
        Ok(())
      },
      _ => {
        let sh = m.shape(t);
        self.store_shape(st, addr, sh, v)
      },
    }
  }
  fn store_shape(&mut self, st: &mut State, addr: u64, sh: Shape, v: &Val) -> R<()> {
    match sh {
      Shape::Int(w) => self.store_int(st, addr, w, v),
      Shape::Vec(n, w) => {
        if w % 8 == 0 {
          let Val::A(a) = v else { return Err(Stop::Unsup("vec".into())) };
          for i in 0..n {
            self.store_int(st, addr + (i * w / 8) as u64, w, &a[i as usize])?;
          }
          Ok(())
        } else {
          let x = self.bitcast(v, sh, Shape::Int(n * w))?;
          self.store_int(st, addr, n * w, &x)
        }
      },
      Shape::Agg(t) => self.store_ty(st, addr, t, v),
      Shape::Void => Ok(()),
    }
  }
  fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
    if n == 0 {
      return Ok(());
    }
    let n_ = n as usize;
    let (data, sym) = {
      let (o, off) = self.obj(st, s, n)?;
      let sym = if o.sym.is_empty() { vec![] } else { o.sym[off..off + n_].to_vec() };
      (o.data[off..off + n_].to_vec(), sym)
    };
    let (o, off) = self.obj_mut(st, d, n)?;
    o.data[off..off + n_].copy_from_slice(&data);
    if sym.iter().any(|x| *x != 0) {
      if o.sym.is_empty() {
        o.sym = vec![0; o.data.len()];
      }
      o.sym[off..off + n_].copy_from_slice(&sym);
    } else if !o.sym.is_empty() {
      o.sym[off..off + n_].fill(0);
    }
    Ok(())
  }

  // ---- vector helpers ----------------------------------------------------------------------------
  fn bitcast(&mut self, v: &Val, s1: Shape, s2: Shape) -> R<Val> {
    // to little-endian bit list: go through lanes
    let lanes1: Vec<(Val, u32)> = match (v, s1) {
      (v, Shape::Int(w)) => {
        if w > 64 {
          let Val::W(x) = v else { return Err(Stop::Unsup("wide bitcast".into())) };
          vec![(Val::C(**x as u64), 64), (Val::C((**x >> 64) as u64), w - 64)]
        } else {
          vec![(v.clone(), w)]
        }
      },
      (Val::A(a), Shape::Vec(n, w)) => (0..n as usize).map(|i| (a[i].clone(), w)).collect(),
      _ => return Err(Stop::Unsup("bitcast".into())),
    };
    let (n2, w2) = match s2 {
      Shape::Int(w) if w > 64 => (2, 64),
      Shape::Int(w) => (1, w),
      Shape::Vec(n, w) => (n, w),
      _ => return Err(Stop::Unsup("bitcast".into())),
    };
    let mut out = vec![];
    if lanes1.iter().all(|(v, _)| matches!(v, Val::C(_))) {
      let mut bits: Vec<u8> = vec![];
      for (v, w) in &lanes1 {
        let Val::C(c) = v else { unreachable!() };
        for i in 0..*w {
          bits.push((c >> i & 1) as u8);
        }
      }
      for l in 0..n2 {
        let mut c = 0u64;
        for i in 0..w2 {
          c |= (bits[(l * w2 + i) as usize] as u64) << i;
        }
        out.push(Val::C(c));
      }
    } else {
      // symbolic: build each output lane by concatenation
      let mut pos = 0; // lane
      let mut used = 0; // bits used of that lane
      for _ in 0..n2 {
        let mut need = w2;
        let mut acc: Option<E> = None;
        while need > 0 {
          let (v, w) = lanes1[pos].clone();
          let take = need.min(w - used);
          let e = self.ex(&v, w)?;
          let p = self.a.extract(e, used, take);
          acc = Some(match acc {
            None => p,
            Some(l) => self.a.concat(p, l),
          });
          used += take;
          need -= take;
          if used == w {
            used = 0;
            pos += 1;
          }
        }
        let r = self.norm(acc.unwrap());
        out.push(r);
      }
    }
    Ok(match s2 {
      Shape::Int(w) if w > 64 => {
        let (Val::C(a), Val::C(b)) = (&out[0], &out[1]) else { return Err(Stop::Unsup("wide bitcast".into())) };
        Val::W(Rc::new((*b as u128) << 64 | *a as u128))
      },
      Shape::Int(_) => out.pop().unwrap(),
      _ => Val::A(Rc::new(out)),
    })
  }
  fn bin_op(&mut self, k: Bin, w: u32, x: &Val, y: &Val) -> R<Val> {
    if let (Val::C(a), Val::C(b)) = (x, y) {
      if w <= 64 {
        return match Arena::fold_bin(k, *a, *b, w) {
          Some(v) => Ok(Val::C(v)),
          None => Err(Stop::Mem("division by zero".into())),
        };
      }
    }
    if w > 64 {
      let g = |v: &Val| match v {
        Val::W(x) => Some(**x),
        Val::C(x) => Some(*x as u128),
        _ => None,
      };
      let (Some(a), Some(b)) = (g(x), g(y)) else { return Err(Stop::Unsup("symbolic wide integer operation".into())) };
      let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
      let r = match k {
        Bin::Add => a.wrapping_add(b),
        Bin::Sub => a.wrapping_sub(b),
        Bin::Mul => a.wrapping_mul(b),
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
        Bin::Shl => {
          if b >= w as u128 {
            0
          } else {
            a << b
          }
        },
        Bin::LShr => {
          if b >= w as u128 {
            0
          } else {
            a >> b
          }
        },
        Bin::UDiv if b != 0 => a / b,
        Bin::URem if b != 0 => a % b,
        _ => return Err(Stop::Unsup("wide operation".into())),
      };
      return Ok(Val::W(Rc::new(r & m)));
    }
    let a = self.ex(x, w)?;
    let b = self.ex(y, w)?;
    if matches!(k, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) && self.a.cv(b).is_none() {
      return Err(Stop::Unsup("division by a symbolic value".into()));
    }
    let e = self.a.bin(k, a, b);
    Ok(self.norm(e))
  }
  fn icmp(&mut self, p: Pred, w: u32, x: &Val, y: &Val) -> R<Val> {
    if w > 64 {
      let g = |v: &Val| match v {
        Val::W(x) => Some(**x),
        Val::C(x) => Some(*x as u128),
        _ => None,
      };
      let (Some(a), Some(b)) = (g(x), g(y)) else { return Err(Stop::Unsup("symbolic wide compare".into())) };
      let sh = 128 - w;
      let (sa, sb) = (((a << sh) as i128), ((b << sh) as i128));
      let r = match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sa < sb,
        Pred::Sle => sa <= sb,
        Pred::Sgt => sa > sb,
        Pred::Sge => sa >= sb,
      };
      return Ok(Val::C(r as u64));
    }
    if let (Val::C(a), Val::C(b)) = (x, y) {
      let (a, b) = (*a, *b);
      let r = match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sext(a, w) < sext(b, w),
        Pred::Sle => sext(a, w) <= sext(b, w),
        Pred::Sgt => sext(a, w) > sext(b, w),
        Pred::Sge => sext(a, w) >= sext(b, w),
      };
      return Ok(Val::C(r as u64));
    }
    let a = self.ex(x, w)?;
    let b = self.ex(y, w)?;
    let e = match p {
      Pred::Eq => self.a.eq(a, b),
      Pred::Ne => {
        let e = self.a.eq(a, b);
        self.a.not(e)
      },
      Pred::Ult => self.a.ult(a, b),
      Pred::Ule => self.a.ule(a, b),
      Pred::Ugt => self.a.ult(b, a),
      Pred::Uge => self.a.ule(b, a),
      Pred::Slt => self.a.slt(a, b),
      Pred::Sle => self.a.sle(a, b),
      Pred::Sgt => self.a.slt(b, a),
      Pred::Sge => self.a.sle(b, a),
    };
    Ok(self.norm(e))
  }
  fn cast(&mut self, k: Cast, w1: u32, w2: u32, v: &Val) -> R<Val> {
    if w1 > 64 || w2 > 64 {
      let x: u128 = match v {
        Val::C(c) => {
          if k == Cast::SExt {
            sext(*c, w1) as i128 as u128
          } else {
            *c as u128
          }
        },
        Val::W(x) => **x,
        _ => return Err(Stop::Unsup("symbolic wide cast".into())),
      };
      return Ok(if w2 > 64 {
        let m = if w2 >= 128 { u128::MAX } else { (1u128 << w2) - 1 };
        Val::W(Rc::new(x & m))
      } else {
        Val::C(x as u64 & mask(w2))
      });
    }
    match v {
      Val::C(c) => Ok(Val::C(match k {
        Cast::Trunc => c & mask(w2),
        Cast::SExt => sext(*c, w1) as u64 & mask(w2),
        _ => *c,
      })),
      Val::S(_) => {
        let e = self.ex(v, w1)?;
        let r = match k {
          Cast::Trunc => self.a.extract(e, 0, w2),
          Cast::SExt => self.a.sext(e, w2),
          _ => self.a.zext(e, w2),
        };
        Ok(self.norm(r))
      },
      _ => Err(Stop::Unsup("cast".into())),
    }
  }
  fn ite(&mut self, c: E, a: &Val, b: &Val, sh: Shape) -> R<Val> {
    match sh {
      Shape::Int(w) if w <= 64 => {
        let x = self.ex(a, w)?;
        let y = self.ex(b, w)?;
        let e = self.a.ite(c, x, y);
        Ok(self.norm(e))
      },
      Shape::Vec(n, w) => {
        let (Val::A(p), Val::A(q)) = (a, b) else { return Err(Stop::Unsup("select".into())) };
        let mut o = vec![];
        for i in 0..n as usize {
          o.push(self.ite(c, &p[i], &q[i], Shape::Int(w))?);
        }
        Ok(Val::A(Rc::new(o)))
      },
      _ => Err(Stop::Unsup("symbolic select of an aggregate".into())),
    }
  }

  // ---- control -----------------------------------------------------------------------------------
  #[inline]
  fn op(&self, fr: &Frame, o: &Op) -> Val {
    match o {
      Op::Reg(r) => fr.regs[*r as usize].clone(),
      Op::C(c) => Val::C(*c),
      Op::K(k) => self.kvals[*k as usize].clone(),
    }
  }
  fn take_edge(&mut self, fr: &mut Frame, e: &Edge) {
    match e.moves.len() {
      0 => {},
      1 => {
        let v = self.op(fr, &e.moves[0].1);
        fr.regs[e.moves[0].0 as usize] = v;
      },
      _ => {
        let mut t = std::mem::take(&mut self.tmp);
        t.clear();
        for (_, o) in &e.moves {
          t.push(self.op(fr, o));
        }
        for ((d, _), v) in e.moves.iter().zip(t.drain(..)) {
          fr.regs[*d as usize] = v;
        }
        self.tmp = t;
      },
    }
    fr.block = e.target;
    fr.ip = 0;
  }
  /// the callee of the top frame's current instruction returned v
  fn finish_call(&mut self, st: &mut State, v: Val) {
    let m = self.m;
    let cur = st.cur;
    let fr = st.threads[cur].frames.last_mut().unwrap();
    let ins = &m.funcs[fr.func as usize].blocks[fr.block as usize][fr.ip as usize];
    match ins {
      Ins::Call(d, ..) => {
        if let Some(d) = d {
          fr.regs[*d as usize] = v;
        }
        fr.ip += 1;
      },
      Ins::Invoke(d, _, _, _, e) => {
        if let Some(d) = d {
          fr.regs[*d as usize] = v;
        }
        self.take_edge(fr, e);
      },
      _ => unreachable!(),
    }
  }
  fn pop_frame(&mut self, st: &mut State) -> Frame {
    let cur = st.cur;
    let fr = st.threads[cur].frames.pop().unwrap();
    for a in &fr.allocas {
      self.free_obj(st, *a);
    }
    fr
  }
  fn do_panic(&mut self, st: &mut State, what: String) -> R<()> {
    let cur = st.cur;
    if !st.threads[cur].frames.iter().any(|f| f.catch) {
      return Err(Stop::Panic(what));
    }
    *self.r.panics.entry(what.clone()).or_insert(0) += 1;
    st.last_panic = what;
    loop {
      let fr = self.pop_frame(st);
      if fr.catch {
        break;
      }
    }
    self.finish_call(st, Val::C(1));
    Ok(())
  }
  fn read_str(&mut self, st: &State, p: u64, n: u64) -> String {
    match self.obj(st, p, n) {
      Ok((o, off)) => String::from_utf8_lossy(&o.data[off..off + n as usize]).to_string(),
      Err(_) => "?".into(),
    }
  }
  fn location(&mut self, st: &State, p: &Val) -> String {
    // core::panic::Location { filename: NonNull<str>, line: u32, col: u32 }
    let Val::C(p) = p else { return "?".into() };
    let (Ok(Val::C(fp)), Ok(Val::C(fl)), Ok(Val::C(l))) =
      (self.load_int(st, *p, 64), self.load_int(st, *p + 8, 64), self.load_int(st, *p + 16, 32))
    else {
      return "?".into();
    };
    if fl > 4096 {
      return "?".into();
    }
    let s = self.read_str(st, fp, fl).trim_end_matches('\0').to_string();
    format!("{}:{}", s, l)
  }
  pub fn inputs_of(&self, st: &State) -> (Vec<u64>, Vec<u64>) {
    let mut i = vec![];
    let mut s = vec![];
    for (lo, v, sched) in &st.inputs {
      let x = match v {
        Val::C(c) => *c,
        Val::S(e) => self.meval(st, *e),
        _ => 0,
      };
      if *sched {
        s.push(x);
      } else {
        i.push(lo.wrapping_add(x));
      }
    }
    (i, s)
  }
  pub fn violate(&mut self, st: &State, kind: &str, id: u32, what: &str) {
    let key = format!("{}#{}#{}", kind, id, what);
    let c = self.r.vcount.entry(key).or_insert(0);
    *c += 1;
    if *c <= 3 && self.r.violations.len() < self.max_viol {
      let (inputs, sched) = self.inputs_of(st);
      self.r.violations.push(Violation { kind: kind.into(), id, what: what.into(), inputs, sched });
    }
  }

  fn runnable(&mut self, st: &State) -> R<Vec<usize>> {
    let mut v = vec![];
    for t in 0..st.threads.len() {
      let th = &st.threads[t];
      if th.done || th.joining {
        continue;
      }
      if let Some(p) = th.waiting {
        match self.load_int(st, p, 32)? {
          Val::C(0) => {},
          Val::C(_) => continue,
          _ => return Err(Stop::Unsup("symbolic lock word".into())),
        }
      }
      v.push(t);
    }
    Ok(v)
  }
  /// pick the next thread: one successor state per choice (the choice is a symbolic schedule variable)
  fn schedule(&mut self, st: &mut State, grant: bool) -> R<()> {
    let run = self.runnable(st)?;
    if run.is_empty() {
      return Err(Stop::Mem("deadlock: no runnable thread".into()));
    }
    if run.len() == 1 {
      st.cur = run[0];
      st.threads[st.cur].granted = grant;
      return Ok(());
    }
    let e = self.new_input(st, 8);
    let from = st.cur;
    st.inputs.push((0, Val::S(e), true));
    for (i, t) in run.iter().enumerate().rev() {
      let c = self.a.c(i as u64, 8);
      let q = self.a.eq(e, c);
      let vi = self.a.vars_of(e)[0];
      if i == 0 {
        st.pc.push(q);
        self.set_model(st, &[(vi, 0)]);
        st.cur = *t;
        if grant && *t != from {
          st.preempted += 1;
        }
        st.threads[*t].granted = grant;
      } else {
        let mut o = st.clone();
        o.pc.push(q);
        self.set_model(&mut o, &[(vi, i as u64)]);
        o.cur = *t;
        if grant && *t != from {
          o.preempted += 1;
        }
        o.threads[*t].granted = grant;
        self.r.forks += 1;
        self.push_pending(o);
      }
    }
    Ok(())
  }
  /// returns true when the thread was switched and the instruction must not be executed now
  fn visible_op(&mut self, st: &mut State) -> R<bool> {
    if st.threads.len() == 1 || self.runnable(st)?.len() == 1 {
      return Ok(false);
    }
    let cur = st.cur;
    if st.threads[cur].granted {
      st.threads[cur].granted = false;
      return Ok(false);
    }
    if st.preempted >= self.max_preempt {
      self.r.bounded += 1;
      return Ok(false);
    }
    self.schedule(st, true)?;
    Ok(true)
  }

  fn call(&mut self, st: &mut State, f: u32, args: Vec<Val>) -> R<()> {
    let fun = &self.m.funcs[f as usize];
    if fun.defined {
      let cur = st.cur;
      if st.threads[cur].frames.len() > 4000 {
        return Err(Stop::Mem("stack overflow".into()));
      }
      let fr = self.new_frame(f, args);
      st.threads[cur].frames.push(fr);
      return Ok(());
    }
    let s = self.stubs[f as usize];
    self.stub(st, f, s, args)
  }

  fn stub(&mut self, st: &mut State, f: u32, s: Stub, args: Vec<Val>) -> R<()> {
    let ret: Val = match s {
      Stub::None => return Err(Stop::Unsup(format!("call of external function {}", self.m.funcs[f as usize].name))),
      Stub::Nop => Val::C(0),
      Stub::LAssume => {
        // assumptions of the optimiser: a false one is undefined behaviour of the code, ignore
        Val::C(0)
      },
      Stub::Panic => {
        let loc = self.location(st, &args[args.len() - 1]);
        return self.do_panic(st, loc);
      },
      Stub::PanicMisc => {
        let n = self.m.funcs[f as usize].name.clone();
        let mut what = n;
        for a in args.iter().rev() {
          if let Val::C(p) = a {
            if *p >> 32 >= GLOBAL_BASE {
              let l = self.location(st, a);
              if l.contains(".rs:") {
                what = l;
                break;
              }
            }
          }
        }
        return self.do_panic(st, what);
      },
      Stub::HashOne(key) => {
        if key && st.hash_mode == 1 {
          let p = self.conc(st, &args[1])?;
          let v = self.load_int(st, p, 64)?;
          let v = match v {
            Val::C(c) => Val::C(!c & 0xff),
            v => {
              let e = self.ex(&v, 64)?;
              let m = self.a.c(u64::MAX, 64);
              let n = self.a.bin(Bin::Xor, e, m);
              let k = self.a.c(0xff, 64);
              let r = self.a.bin(Bin::And, n, k);
              self.norm(r)
            },
          };
          // the hash decides where the element lives: one path per value
          Val::C(self.conc(st, &v)?)
        } else {
          Val::C(0)
        }
      },
      Stub::RandomStateNew => Val::A(Rc::new(vec![Val::C(0), Val::C(0)])),
      Stub::FormatInner => {
        let p = self.conc(st, &args[0])?;
        self.store_int(st, p, 64, &Val::C(0))?;
        self.store_int(st, p + 8, 64, &Val::C(1))?;
        self.store_int(st, p + 16, 64, &Val::C(0))?;
        Val::C(0)
      },
      Stub::Uuid => {
        let p = self.conc(st, &args[0])?;
        st.uuid += 1;
        let u = st.uuid;
        self.store_int(st, p, 64, &Val::C(0x1111_2222_3333_4444))?;
        self.store_int(st, p + 8, 64, &Val::C(u.swap_bytes()))?;
        Val::C(0)
      },
      Stub::Memcpy => {
        let n = self.conc(st, &args[2])?;
        if n > 0 {
          let d = self.conc(st, &args[0])?;
          let s = self.conc(st, &args[1])?;
          self.memcpy(st, d, s, n)?;
        }
        args[0].clone()
      },
      Stub::Memset => {
        let n = self.conc(st, &args[2])?;
        if n > 0 {
          let d = self.conc(st, &args[0])?;
          match &args[1] {
            Val::C(c) => {
              let b = *c as u8;
              let (o, off) = self.obj_mut(st, d, n)?;
              o.data[off..off + n as usize].fill(b);
              if !o.sym.is_empty() {
                o.sym[off..off + n as usize].fill(0);
              }
            },
            v => {
              let v = v.clone();
              for i in 0..n {
                self.store_int(st, d + i, 8, &v)?;
              }
            },
          }
        }
        args[0].clone()
      },
      Stub::Malloc | Stub::Calloc => {
        let mut n = self.conc(st, &args[0])?;
        if s == Stub::Calloc {
          n *= self.conc(st, &args[1])?;
        }
        if n > 1 << 28 {
          return Err(Stop::Unsup(format!("allocation of {} bytes", n)));
        }
        Val::C(self.alloc(st, n))
      },
      Stub::PosixMemalign => {
        let n = self.conc(st, &args[2])?;
        let p = self.conc(st, &args[0])?;
        if n > 1 << 28 {
          return Err(Stop::Unsup(format!("allocation of {} bytes", n)));
        }
        let a = self.alloc(st, n);
        self.store_int(st, p, 64, &Val::C(a))?;
        Val::C(0)
      },
      Stub::Realloc => {
        let p = self.conc(st, &args[0])?;
        let n = self.conc(st, &args[1])?;
        if n > 1 << 28 {
          return Err(Stop::Unsup(format!("allocation of {} bytes", n)));
        }
        let old = {
          let (o, _) = self.obj(st, p, 0)?;
          o.data.len() as u64
        };
        let a = self.alloc(st, n);
        self.memcpy(st, a, p, old.min(n))?;
        self.free_obj(st, (p >> 32) as u32);
        Val::C(a)
      },
      Stub::Free => {
        let p = self.conc(st, &args[0])?;
        if p != 0 {
          self.obj(st, p, 0)?;
          if p & 0xffff_ffff != 0 || p >> 32 >= GLOBAL_BASE {
            return Err(Stop::Mem("free of an interior pointer".into()));
          }
          self.free_obj(st, (p >> 32) as u32);
        }
        Val::C(0)
      },
      Stub::Bcmp | Stub::Memcmp => {
        let n = self.conc(st, &args[2])?;
        if n == 0 {
          Val::C(0)
        } else {
          let x = self.conc(st, &args[0])?;
          let y = self.conc(st, &args[1])?;
          let concrete = {
            let (p, po) = self.obj(st, x, n)?;
            let (q, qo) = self.obj(st, y, n)?;
            let n_ = n as usize;
            if (p.sym.is_empty() || p.sym[po..po + n_].iter().all(|v| *v == 0))
              && (q.sym.is_empty() || q.sym[qo..qo + n_].iter().all(|v| *v == 0))
            {
              Some(p.data[po..po + n_].cmp(&q.data[qo..qo + n_]) as i8 as i32)
            } else {
              None
            }
          };
          match concrete {
            Some(c) => Val::C(c as u32 as u64),
            None => {
              let mut acc = self.a.c(0, 32);
              let lt = self.a.c(u64::MAX, 32);
              let gt = self.a.c(1, 32);
              for i in (0..n).rev() {
                let p = self.load_int(st, x + i, 8)?;
                let q = self.load_int(st, y + i, 8)?;
                let p = self.ex(&p, 8)?;
                let q = self.ex(&q, 8)?;
                let e = self.a.eq(p, q);
                let l = self.a.ult(p, q);
                let d = if s == Stub::Bcmp { gt } else { self.a.ite(l, lt, gt) };
                acc = self.a.ite(e, acc, d);
              }
              self.norm(acc)
            },
          }
        }
      },
      Stub::Strlen => {
        let p = self.conc(st, &args[0])?;
        let mut n = 0;
        loop {
          match self.load_int(st, p + n, 8)? {
            Val::C(0) => break,
            Val::C(_) => n += 1,
            _ => return Err(Stop::Unsup("strlen of symbolic bytes".into())),
          }
        }
        Val::C(n)
      },
      Stub::GetRandom => {
        // all-zero seed: the hash function itself is modelled (HashOne), seeds are never looked at
        let n = self.conc(st, &args[1])?;
        if n > 0 {
          let d = self.conc(st, &args[0])?;
          let (o, off) = self.obj_mut(st, d, n)?;
          o.data[off..off + n as usize].fill(0);
          if !o.sym.is_empty() {
            o.sym[off..off + n as usize].fill(0);
          }
        }
        Val::C(n)
      },
      Stub::Abort => return Err(Stop::Mem("abort".into())),
      Stub::Range | Stub::Any => {
        let (lo, hi) = if s == Stub::Any { (0, u64::MAX) } else { (self.conc(st, &args[0])?, self.conc(st, &args[1])?) };
        if lo > hi {
          return Err(Stop::Unsup("empty range".into()));
        }
        let span = hi - lo;
        if span == 0 {
          st.inputs.push((lo, Val::C(0), false));
          Val::C(lo)
        } else {
          let w = 64 - span.leading_zeros();
          let e = self.new_input(st, w);
          st.inputs.push((lo, Val::S(e), false));
          let vi = self.a.vars_of(e)[0];
          self.set_model(st, &[(vi, 0)]);
          let i = vi as usize;
          if st.dom.len() <= i {
            st.dom.resize(i + 1, 0);
          }
          st.dom[i] = if w <= 6 { mask(span as u32 + 1) } else { 0 };
          if span != mask(w) {
            let k = self.a.c(span, w);
            let c = self.a.ule(e, k);
            st.pc.push(c);
          }
          let z = self.a.zext(e, 64);
          let l = self.a.c(lo, 64);
          let r = self.a.bin(Bin::Add, z, l);
          self.norm(r)
        }
      },
      Stub::Assume => {
        let c = self.ex(&args[0], 1)?;
        let (b, o) = self.decide(st, c)?;
        match (b, o) {
          (true, _) => {},
          (false, Some(o)) => *st = o,
          (false, None) => return Err(Stop::Infeasible),
        }
        Val::C(0)
      },
      Stub::SAssert => {
        let id = self.conc(st, &args[1])? as u32;
        let c = self.ex(&args[0], 1)?;
        self.r.asserts += 1;
        *self.r.assert_ids.entry(id).or_insert(0) += 1;
        match self.a.cv(c) {
          Some(1) => {},
          Some(_) => return Err(Stop::Assert(id)),
          None => {
            self.r.assert_queries += 1;
            let (b, o) = self.decide(st, c)?;
            match (b, o) {
              (true, Some(o)) => self.violate(&o, "assert", id, ""),
              (true, None) => {},
              (false, Some(o)) => {
                self.violate(st, "assert", id, "");
                *st = o;
              },
              (false, None) => return Err(Stop::Assert(id)),
            }
          },
        }
        Val::C(0)
      },
      Stub::Reach => {
        let id = self.conc(st, &args[0])? as u32;
        if !st.reach.contains(&id) {
          st.reach.push(id);
        }
        Val::C(0)
      },
      Stub::HashMode => {
        st.hash_mode = self.conc(st, &args[0])?;
        Val::C(0)
      },
      Stub::Conc => Val::C(self.conc(st, &args[0])?),
      Stub::Print => {
        let s = match &args[0] {
          Val::C(c) => format!("{}", c),
          Val::S(e) => format!("sym({}) model={}", e, self.meval(st, *e)),
          _ => "?".into(),
        };
        eprintln!("print: {}", s);
        Val::C(0)
      },
      Stub::Catch => {
        let a = self.conc(st, &args[0])?;
        let g = a >> 32;
        if g < FUNC_BASE || !self.m.funcs[(g - FUNC_BASE) as usize].defined {
          return Err(Stop::Unsup("symx_catch callee".into()));
        }
        let mut fr = self.new_frame((g - FUNC_BASE) as u32, vec![args[1].clone()]);
        fr.catch = true;
        let cur = st.cur;
        st.threads[cur].frames.push(fr);
        return Ok(());
      },
      Stub::Spawn => {
        let a = self.conc(st, &args[0])?;
        let g = a >> 32;
        if g < FUNC_BASE {
          return Err(Stop::Unsup("symx_spawn callee".into()));
        }
        let fr = self.new_frame((g - FUNC_BASE) as u32, vec![args[1].clone()]);
        st.threads.push(Thread { frames: vec![fr], granted: false, joining: false, waiting: None, done: false });
        Val::C(0)
      },
      Stub::MutexLock => {
        let p = self.conc(st, &args[0])?;
        let cur = st.cur;
        match self.load_int(st, p, 32)? {
          Val::C(0) => {
            st.threads[cur].waiting = None;
            self.store_int(st, p, 32, &Val::C(1))?;
            Val::C(0)
          },
          Val::C(_) => {
            // the call is made again when the lock is free
            st.threads[cur].waiting = Some(p);
            return self.schedule(st, false);
          },
          _ => return Err(Stop::Unsup("symbolic lock word".into())),
        }
      },
      Stub::JoinAll => {
        let cur = st.cur;
        let others = (0..st.threads.len()).any(|t| t != cur && !st.threads[t].done);
        self.finish_call(st, Val::C(0));
        if others {
          st.threads[cur].joining = true;
          self.schedule(st, false)?;
        }
        return Ok(());
      },
      Stub::Expect | Stub::TlsAddr => args[0].clone(),
      Stub::IsConst => Val::C(0),
      Stub::Ctlz(w) | Stub::Cttz(w) | Stub::Ctpop(w) | Stub::Bswap(w) | Stub::Bitrev(w) => {
        if w > 64 {
          let Val::W(x) = &args[0] else { return Err(Stop::Unsup("wide intrinsic".into())) };
          let x = **x;
          let r = match s {
            Stub::Ctlz(_) => (x.leading_zeros() - (128 - w)) as u128,
            Stub::Cttz(_) => x.trailing_zeros().min(w) as u128,
            Stub::Ctpop(_) => x.count_ones() as u128,
            Stub::Bswap(128) => x.swap_bytes(),
            _ => return Err(Stop::Unsup("wide intrinsic".into())),
          };
          Val::W(Rc::new(r))
        } else {
          let sym = matches!(args[0], Val::S(_));
          if sym {
            self.sym_bits(s, w, &args[0])?
          } else {
            let Val::C(x) = args[0] else { return Err(Stop::Unsup("intrinsic".into())) };
            Val::C(match s {
              Stub::Ctlz(_) => (x.leading_zeros() - (64 - w)) as u64,
              Stub::Cttz(_) => (x.trailing_zeros().min(w)) as u64,
              Stub::Ctpop(_) => x.count_ones() as u64,
              Stub::Bswap(_) => x.swap_bytes() >> (64 - w),
              _ => x.reverse_bits() >> (64 - w),
            })
          }
        }
      },
      Stub::Fsh(left, w) => {
        let k = self.conc(st, &args[2])?;
        let k = k % w as u64;
        if k == 0 {
          if left {
            args[0].clone()
          } else {
            args[1].clone()
          }
        } else {
          let (l, r) = if left { (k, w as u64 - k) } else { (w as u64 - k, k) };
          let a = self.bin_op(Bin::Shl, w, &args[0], &Val::C(l))?;
          let b = self.bin_op(Bin::LShr, w, &args[1], &Val::C(r))?;
          self.bin_op(Bin::Or, w, &a, &b)?
        }
      },
      Stub::MinMax(k, w) => {
        let p = [Pred::Ugt, Pred::Ult, Pred::Sgt, Pred::Slt][k as usize];
        let c = self.icmp(p, w, &args[0], &args[1])?;
        self.select(&c, &args[0], &args[1], Shape::Int(w))?
      },
      Stub::Sat(k, w) => {
        if k == 0 {
          let s = self.bin_op(Bin::Add, w, &args[0], &args[1])?;
          let c = self.icmp(Pred::Ult, w, &s, &args[0])?;
          self.select(&c, &Val::C(mask(w)), &s, Shape::Int(w))?
        } else {
          let s = self.bin_op(Bin::Sub, w, &args[0], &args[1])?;
          let c = self.icmp(Pred::Ult, w, &args[0], &args[1])?;
          self.select(&c, &Val::C(0), &s, Shape::Int(w))?
        }
      },
      Stub::Cmp3(signed, rw, w) => {
        let lt = self.icmp(if signed { Pred::Slt } else { Pred::Ult }, w, &args[0], &args[1])?;
        let eq = self.icmp(Pred::Eq, w, &args[0], &args[1])?;
        let t = self.select(&eq, &Val::C(0), &Val::C(1), Shape::Int(rw))?;
        self.select(&lt, &Val::C(mask(rw)), &t, Shape::Int(rw))?
      },
      Stub::Abs(w) => {
        let n = self.bin_op(Bin::Sub, w, &Val::C(0), &args[0])?;
        let c = self.icmp(Pred::Slt, w, &args[0], &Val::C(0))?;
        self.select(&c, &n, &args[0], Shape::Int(w))?
      },
      Stub::Ovf(k, w) => {
        let (x, y) = (&args[0], &args[1]);
        let (r, o) = match k {
          0 => {
            let r = self.bin_op(Bin::Add, w, x, y)?;
            let o = self.icmp(Pred::Ult, w, &r, x)?;
            (r, o)
          },
          1 => {
            let r = self.bin_op(Bin::Sub, w, x, y)?;
            let o = self.icmp(Pred::Ult, w, x, y)?;
            (r, o)
          },
          2 => {
            let r = self.bin_op(Bin::Mul, w, x, y)?;
            let o = match (x, y) {
              (Val::C(a), Val::C(b)) => Val::C(((*a as u128) * (*b as u128) > mask(w) as u128) as u64),
              (v, Val::C(c)) | (Val::C(c), v) => {
                if *c == 0 {
                  Val::C(0)
                } else {
                  self.icmp(Pred::Ugt, w, v, &Val::C(mask(w) / c))?
                }
              },
              _ => {
                let c = self.conc(st, y)?;
                if c == 0 {
                  Val::C(0)
                } else {
                  self.icmp(Pred::Ugt, w, x, &Val::C(mask(w) / c))?
                }
              },
            };
            (r, o)
          },
          3 | 4 => {
            let b = if k == 3 { Bin::Add } else { Bin::Sub };
            let r = self.bin_op(b, w, x, y)?;
            // add: overflow iff sign(x)==sign(y) && sign(r)!=sign(x); sub: sign(x)!=sign(y) && sign(r)!=sign(x)
            let xy = self.bin_op(Bin::Xor, w, x, y)?;
            let xr = self.bin_op(Bin::Xor, w, x, &r)?;
            let xy = if k == 3 { self.bin_op(Bin::Xor, w, &xy, &Val::C(mask(w)))? } else { xy };
            let t = self.bin_op(Bin::And, w, &xy, &xr)?;
            let o = self.icmp(Pred::Slt, w, &t, &Val::C(0))?;
            (r, o)
          },
          _ => {
            let a = self.conc(st, x)?;
            let b = self.conc(st, y)?;
            let p = sext(a, w) as i128 * sext(b, w) as i128;
            let r = p as u64 & mask(w);
            (Val::C(r), Val::C((sext(r, w) as i128 != p) as u64))
          },
        };
        Val::A(Rc::new(vec![r, o]))
      },
      Stub::Movmsk => {
        let Val::A(v) = &args[0] else { return Err(Stop::Unsup("movmsk".into())) };
        let mut r = Val::C(0);
        for (i, x) in v.clone().iter().enumerate() {
          let b = self.bin_op(Bin::LShr, 8, x, &Val::C(7))?;
          let b = self.cast(Cast::ZExt, 8, 32, &b)?;
          let b = self.bin_op(Bin::Shl, 32, &b, &Val::C(i as u64))?;
          r = self.bin_op(Bin::Or, 32, &r, &b)?;
        }
        r
      },
    };
    self.finish_call(st, ret);
    Ok(())
  }
  fn sym_bits(&mut self, s: Stub, w: u32, v: &Val) -> R<Val> {
    let e = self.ex(v, w)?;
    let r = match s {
      Stub::Cttz(_) | Stub::Ctlz(_) => {
        let mut acc = self.a.c(w as u64, w);
        for i in 0..w {
          // cttz: lowest set bit wins -> build from the top; ctlz: highest set bit wins -> build from the bottom
          let bit = if matches!(s, Stub::Cttz(_)) { w - 1 - i } else { i };
          let b = self.a.extract(e, bit, 1);
          let k = if matches!(s, Stub::Cttz(_)) { bit } else { w - 1 - bit };
          let kc = self.a.c(k as u64, w);
          acc = self.a.ite(b, kc, acc);
        }
        acc
      },
      Stub::Ctpop(_) => {
        let mut acc = self.a.c(0, w);
        for i in 0..w {
          let b = self.a.extract(e, i, 1);
          let z = self.a.zext(b, w);
          acc = self.a.bin(Bin::Add, acc, z);
        }
        acc
      },
      Stub::Bswap(_) => {
        let n = w / 8;
        let mut acc = self.a.extract(e, 0, 8);
        for i in 1..n {
          let b = self.a.extract(e, 8 * i, 8);
          acc = self.a.concat(acc, b);
        }
        acc
      },
      _ => return Err(Stop::Unsup("symbolic bit intrinsic".into())),
    };
    Ok(self.norm(r))
  }
  fn select(&mut self, c: &Val, a: &Val, b: &Val, sh: Shape) -> R<Val> {
    match c {
      Val::C(1) => Ok(a.clone()),
      Val::C(_) => Ok(b.clone()),
      Val::S(e) => {
        let e = *e;
        self.ite(e, a, b, sh)
      },
      _ => Err(Stop::Unsup("select".into())),
    }
  }

  /// run one state until its path ends, or (in bfs mode) until it forks
  pub fn run(&mut self, st: &mut State) -> Stop {
    loop {
      match self.steps(st) {
        Ok(()) => {},
        Err(s) => return s,
      }
    }
  }

  /// concrete straight-line code of the current frame; stops at the first instruction that needs the
  /// general treatment of `steps` (symbolic operands, calls, vectors, atomics, faults)
  #[inline(never)]
  fn fast(&mut self, st: &mut State, cur: usize) -> u64 {
    let m = self.m;
    let State { threads, objs, .. } = st;
    let fr = threads[cur].frames.last_mut().unwrap();
    let blocks = &m.funcs[fr.func as usize].blocks;
    let mut blk: &[Ins] = &blocks[fr.block as usize];
    let mut ip = fr.ip as usize;
    let mut n = 0u64;
    let kv = &self.kvals;
    macro_rules! c {
      ($o:expr) => {
        match $o {
          Op::Reg(r) => match &fr.regs[*r as usize] {
            Val::C(c) => *c,
            _ => break,
          },
          Op::C(c) => *c,
          Op::K(k) => match &kv[*k as usize] {
            Val::C(c) => *c,
            _ => break,
          },
        }
      };
    }
    while n < 60000 {
      match &blk[ip] {
        Ins::Bin(d, k, Shape::Int(w), x, y) if *w <= 64 => {
          let (a, b) = (c!(x), c!(y));
          let Some(v) = Arena::fold_bin(*k, a, b, *w) else { break };
          fr.regs[*d as usize] = Val::C(v);
          ip += 1;
        },
        Ins::Icmp(d, p, Shape::Int(w), x, y) if *w <= 64 => {
          let (a, b) = (c!(x), c!(y));
          let r = match p {
            Pred::Eq => a == b,
            Pred::Ne => a != b,
            Pred::Ult => a < b,
            Pred::Ule => a <= b,
            Pred::Ugt => a > b,
            Pred::Uge => a >= b,
            Pred::Slt => sext(a, *w) < sext(b, *w),
            Pred::Sle => sext(a, *w) <= sext(b, *w),
            Pred::Sgt => sext(a, *w) > sext(b, *w),
            Pred::Sge => sext(a, *w) >= sext(b, *w),
          };
          fr.regs[*d as usize] = Val::C(r as u64);
          ip += 1;
        },
        Ins::Cast(d, k, Shape::Int(w1), Shape::Int(w2), x) if *w1 <= 64 && *w2 <= 64 => {
          let c = c!(x);
          let v = match k {
            Cast::Trunc => c & mask(*w2),
            Cast::SExt => sext(c, *w1) as u64 & mask(*w2),
            _ => c,
          };
          fr.regs[*d as usize] = Val::C(v);
          ip += 1;
        },
        Ins::Select(d, Shape::Int(_), Shape::Int(_), c, x, y) => {
          let c = c!(c);
          let v = c!(if c & 1 == 1 { x } else { y });
          fr.regs[*d as usize] = Val::C(v);
          ip += 1;
        },
        Ins::Gep(d, b, off, idx) => {
          let mut a = c!(b).wrapping_add(*off as u64);
          let mut ok = true;
          for (o, w, s) in idx {
            let i = match o {
              Op::Reg(r) => match &fr.regs[*r as usize] {
                Val::C(c) => *c,
                _ => {
                  ok = false;
                  break;
                },
              },
              Op::C(c) => *c,
              Op::K(_) => {
                ok = false;
                break;
              },
            };
            a = a.wrapping_add((sext(i, *w) as u64).wrapping_mul(*s));
          }
          if !ok {
            break;
          }
          fr.regs[*d as usize] = Val::C(a);
          ip += 1;
        },
        Ins::Load(d, Shape::Int(w), p, false) if *w <= 64 => {
          let a = c!(p);
          let id = (a >> 32) as usize;
          let off = (a & 0xffff_ffff) as usize;
          let len = ((*w + 7) / 8) as usize;
          let Some(Some(o)) = objs.get(id) else { break };
          if off + len > o.data.len() || !o.sym.is_empty() && o.sym[off..off + len].iter().any(|x| *x != 0) {
            break;
          }
          let d8 = &o.data[off..off + len];
          let v = match len {
            8 => u64::from_le_bytes(d8.try_into().unwrap()),
            4 => u32::from_le_bytes(d8.try_into().unwrap()) as u64,
            1 => d8[0] as u64,
            _ => {
              let mut v = 0u64;
              for i in (0..len).rev() {
                v = v << 8 | d8[i] as u64;
              }
              v
            },
          };
          fr.regs[*d as usize] = Val::C(v & mask(*w));
          ip += 1;
        },
        Ins::Store(Shape::Int(w), v, p, false) if *w <= 64 => {
          let a = c!(p);
          let v = c!(v);
          let id = (a >> 32) as usize;
          let off = (a & 0xffff_ffff) as usize;
          let len = ((*w + 7) / 8) as usize;
          let Some(Some(o)) = objs.get_mut(id) else { break };
          if off + len > o.data.len() || !o.sym.is_empty() {
            break;
          }
          let o = Rc::make_mut(o);
          o.data[off..off + len].copy_from_slice(&v.to_le_bytes()[..len]);
          ip += 1;
        },
        Ins::Br(e) => {
          if e.moves.len() > 8 {
            break;
          }
          if !Self::fast_edge(kv, fr, e) {
            break;
          }
          blk = &blocks[e.target as usize];
          ip = 0;
        },
        Ins::CondBr(c, t, f) => {
          let e = if c!(c) & 1 == 1 { t } else { f };
          if e.moves.len() > 8 || !Self::fast_edge(kv, fr, e) {
            break;
          }
          blk = &blocks[e.target as usize];
          fr.block = e.target;
          ip = 0;
        },
        Ins::Switch(v, w, cases, edges) if *w <= 64 => {
          let c = c!(v);
          let k = cases.iter().find(|(k, _)| *k == c).map_or(0, |x| x.1);
          let e = &edges[k as usize];
          if e.moves.len() > 8 || !Self::fast_edge(kv, fr, e) {
            break;
          }
          blk = &blocks[e.target as usize];
          ip = 0;
        },
        _ => break,
      }
      n += 1;
    }
    fr.ip = ip as u32;
    n
  }
  #[inline(always)]
  fn fast_edge(kv: &[Val], fr: &mut Frame, e: &Edge) -> bool {
    match e.moves.len() {
      0 => {},
      1 => {
        let v = match &e.moves[0].1 {
          Op::Reg(r) => fr.regs[*r as usize].clone(),
          Op::C(c) => Val::C(*c),
          Op::K(k) => kv[*k as usize].clone(),
        };
        fr.regs[e.moves[0].0 as usize] = v;
      },
      n => {
        let mut t: [Val; 8] = [const { Val::C(0) }; 8];
        for i in 0..n {
          t[i] = match &e.moves[i].1 {
            Op::Reg(r) => fr.regs[*r as usize].clone(),
            Op::C(c) => Val::C(*c),
            Op::K(k) => kv[*k as usize].clone(),
          };
        }
        for i in 0..n {
          fr.regs[e.moves[i].0 as usize] = std::mem::replace(&mut t[i], Val::C(0));
        }
      },
    }
    fr.block = e.target;
    true
  }

  fn steps(&mut self, st: &mut State) -> R<()> {
    let m = self.m;
    // the frame is moved out of the state while straight-line code runs
    let cur = st.cur;
    if st.threads[cur].frames.is_empty() {
      // thread finished
      if cur == 0 {
        return Err(Stop::End);
      }
      st.threads[cur].done = true;
      if (1..st.threads.len()).all(|t| st.threads[t].done) {
        st.threads[0].joining = false;
      }
      return self.schedule(st, false);
    }
    macro_rules! fr {
      () => {
        st.threads[cur].frames.last_mut().unwrap()
      };
    }
    loop {
      let n = self.fast(st, cur);
      let before = st.icount >> 16;
      st.icount += 1 + n;
      self.r.instrs += 1 + n;
      if st.icount >> 16 != before {
        if st.icount > self.limit {
          return Err(Stop::Limit);
        }
        if let Some(d) = self.deadline {
          if Instant::now() > d {
            self.timed_out = true;
            return Err(Stop::Yield);
          }
        }
      }
      if self.forked {
        self.forked = false;
        if self.bfs {
          return Err(Stop::Yield);
        }
      }
      let fr: &mut Frame = fr!();
      let ins = &m.funcs[fr.func as usize].blocks[fr.block as usize][fr.ip as usize];
      match ins {
        Ins::Bin(d, k, sh, x, y) => {
          let (a, mut b) = (self.op(fr, x), self.op(fr, y));
          if matches!((k, &b), (Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem, Val::S(_))) {
            let c = self.conc(st, &b)?;
            b = Val::C(c);
          }
          let v = match sh {
            Shape::Int(w) => self.bin_op(*k, *w, &a, &b)?,
            Shape::Vec(n, w) => {
              let (Val::A(p), Val::A(q)) = (&a, &b) else { return Err(Stop::Unsup("vector op".into())) };
              let mut o = Vec::with_capacity(*n as usize);
              for i in 0..*n as usize {
                o.push(self.bin_op(*k, *w, &p[i], &q[i])?);
              }
              Val::A(Rc::new(o))
            },
            _ => return Err(Stop::Unsup("bin".into())),
          };
          let fr = fr!();
          fr.regs[*d as usize] = v;
          fr.ip += 1;
        },
        Ins::Icmp(d, p, sh, x, y) => {
          let (a, b) = (self.op(fr, x), self.op(fr, y));
          let v = match sh {
            Shape::Int(w) => self.icmp(*p, *w, &a, &b)?,
            Shape::Vec(n, w) => {
              let (Val::A(r), Val::A(q)) = (&a, &b) else { return Err(Stop::Unsup("vector cmp".into())) };
              let mut o = Vec::with_capacity(*n as usize);
              for i in 0..*n as usize {
                o.push(self.icmp(*p, *w, &r[i], &q[i])?);
              }
              Val::A(Rc::new(o))
            },
            _ => return Err(Stop::Unsup("icmp".into())),
          };
          let fr = fr!();
          fr.regs[*d as usize] = v;
          fr.ip += 1;
        },
        Ins::Cast(d, k, s1, s2, x) => {
          let a = self.op(fr, x);
          let v = match (s1, s2) {
            (Shape::Int(w1), Shape::Int(w2)) => self.cast(*k, *w1, *w2, &a)?,
            (Shape::Vec(n, w1), Shape::Vec(_, w2)) => {
              let Val::A(p) = &a else { return Err(Stop::Unsup("vector cast".into())) };
              let mut o = Vec::with_capacity(*n as usize);
              for i in 0..*n as usize {
                o.push(self.cast(*k, *w1, *w2, &p[i])?);
              }
              Val::A(Rc::new(o))
            },
            _ => return Err(Stop::Unsup("cast".into())),
          };
          let fr = fr!();
          fr.regs[*d as usize] = v;
          fr.ip += 1;
        },
        Ins::Select(d, cs, sh, c, x, y) => {
          let (c, a, b) = (self.op(fr, c), self.op(fr, x), self.op(fr, y));
          let v = match (cs, &c) {
            (Shape::Int(_), Val::S(e)) if !matches!(sh, Shape::Int(1..=64) | Shape::Vec(..)) => {
              // aggregates: decide the condition
              let (bv, o) = self.decide(st, *e)?;
              if let Some(o) = o {
                self.push_pending(o);
              }
              if bv {
                a
              } else {
                b
              }
            },
            (Shape::Int(_), _) => self.select(&c, &a, &b, *sh)?,
            (Shape::Vec(n, _), Val::A(cv)) => {
              let (Val::A(p), Val::A(q), Shape::Vec(_, w)) = (&a, &b, sh) else { return Err(Stop::Unsup("select".into())) };
              let mut o = Vec::with_capacity(*n as usize);
              for i in 0..*n as usize {
                o.push(self.select(&cv[i], &p[i], &q[i], Shape::Int(*w))?);
              }
              Val::A(Rc::new(o))
            },
            _ => return Err(Stop::Unsup("select".into())),
          };
          let fr = fr!();
          fr.regs[*d as usize] = v;
          fr.ip += 1;
        },
        Ins::Gep(d, b, off, idx) => {
          let base = self.op(fr, b);
          let v = if idx.is_empty() {
            match base {
              Val::C(c) => Val::C(c.wrapping_add(*off as u64)),
              v => self.bin_op(Bin::Add, 64, &v, &Val::C(*off as u64))?,
            }
          } else {
            let mut acc = match base {
              Val::C(c) => Val::C(c.wrapping_add(*off as u64)),
              v => self.bin_op(Bin::Add, 64, &v, &Val::C(*off as u64))?,
            };
            for (o, w, s) in idx {
              let i = self.op(fr, o);
              acc = match (&acc, &i) {
                (Val::C(a), Val::C(i)) => Val::C(a.wrapping_add((sext(*i, *w) as u64).wrapping_mul(*s))),
                _ => {
                  let i = if *w < 64 { self.cast(Cast::SExt, *w, 64, &i)? } else { i };
                  let t = self.bin_op(Bin::Mul, 64, &i, &Val::C(*s))?;
                  self.bin_op(Bin::Add, 64, &acc, &t)?
                },
              };
            }
            acc
          };
          fr.regs[*d as usize] = v;
          fr.ip += 1;
        },
        Ins::Load(d, sh, p, atomic) => {
          if *atomic && st.threads.len() > 1 && self.visible_op(st)? {
            return Ok(());
          }
          let a = self.op(fr!(), p);
          let a = self.conc(st, &a)?;
          let v = match sh {
            Shape::Int(w) => self.load_int(st, a, *w)?,
            _ => self.load_shape(st, a, *sh)?,
          };
          let fr = fr!();
          fr.regs[*d as usize] = v;
          fr.ip += 1;
        },
        Ins::Store(sh, v, p, atomic) => {
          if *atomic && st.threads.len() > 1 && self.visible_op(st)? {
            return Ok(());
          }
          let fr = fr!();
          let a = self.op(fr, p);
          let v = self.op(fr, v);
          let a = self.conc(st, &a)?;
          match sh {
            Shape::Int(w) => self.store_int(st, a, *w, &v)?,
            _ => self.store_shape(st, a, *sh, &v)?,
          };
          fr!().ip += 1;
        },
        Ins::Alloca(d, n) => {
          let a = self.alloc(st, *n);
          let fr = fr!();
          fr.allocas.push((a >> 32) as u32);
          fr.regs[*d as usize] = Val::C(a);
          fr.ip += 1;
        },
        Ins::Call(_, _, c, args) | Ins::Invoke(_, _, c, args, _) => {
          let f = match c {
            Callee::Direct(f) => *f,
            Callee::Indirect(o) => {
              let a = self.op(fr, o);
              let a = self.conc(st, &a)?;
              let id = a >> 32;
              if id < FUNC_BASE || id - FUNC_BASE >= m.funcs.len() as u64 {
                return Err(Stop::Mem("call of an invalid function pointer".into()));
              }
              (id - FUNC_BASE) as u32
            },
          };
          let fr = fr!();
          let av: Vec<Val> = args.iter().map(|(o, _)| self.op(fr, o)).collect();
          self.call(st, f, av)?;
          if st.cur != cur || st.threads[cur].frames.is_empty() {
            return Ok(());
          }
        },
        Ins::Br(e) => {
          let fr = st.threads[cur].frames.last_mut().unwrap();
          self.take_edge(fr, e);
        },
        Ins::CondBr(c, t, f) => {
          let c = self.op(fr, c);
          match c {
            Val::C(c) => {
              let fr = st.threads[cur].frames.last_mut().unwrap();
              self.take_edge(fr, if c & 1 == 1 { t } else { f });
            },
            Val::S(e) => {
              let (b, o) = self.decide(st, e)?;
              if let Some(mut o) = o {
                self.take_edge(o.threads[cur].frames.last_mut().unwrap(), if b { f } else { t });
                self.push_pending(o);
              }
              self.take_edge(st.threads[cur].frames.last_mut().unwrap(), if b { t } else { f });
            },
            _ => return Err(Stop::Unsup("branch".into())),
          }
        },
        Ins::Switch(v, w, cases, edges) => {
          let c = self.op(fr, v);
          match c {
            Val::C(c) => {
              let k = cases.iter().find(|(k, _)| *k == c).map_or(0, |x| x.1);
              self.take_edge(st.threads[cur].frames.last_mut().unwrap(), &edges[k as usize]);
            },
            Val::S(_) => {
              // decide the edge the model takes; the alternative re-executes the switch
              let e = self.ex(&c, *w)?;
              let x = self.meval(st, e);
              let k = cases.iter().find(|(k, _)| *k == x).map_or(0, |x| x.1);
              let mut cond = self.a.c(0, 1);
              let target = edges[k as usize].target;
              let same = |i: u32| -> bool { i == k || (edges[i as usize].target == target && edges[i as usize].moves.is_empty()) };
              if k == 0 || edges[k as usize].moves.is_empty() && edges[0].target == target {
                // default: none of the cases that lead elsewhere
                cond = self.a.c(1, 1);
                for (cv, i) in cases {
                  if !same(*i) {
                    let kc = self.a.c(*cv, *w);
                    let q = self.a.eq(e, kc);
                    let n = self.a.not(q);
                    cond = self.a.bin(Bin::And, cond, n);
                  }
                }
              } else {
                for (cv, i) in cases {
                  if same(*i) {
                    let kc = self.a.c(*cv, *w);
                    let q = self.a.eq(e, kc);
                    cond = self.a.bin(Bin::Or, cond, q);
                  }
                }
              }
              let (b, o) = self.decide(st, cond)?;
              debug_assert!(b);
              if let Some(o) = o {
                self.push_pending(o);
              }
              self.take_edge(st.threads[cur].frames.last_mut().unwrap(), &edges[k as usize]);
            },
            _ => return Err(Stop::Unsup("switch".into())),
          }
        },
        Ins::Ret(v) => {
          let v = match v {
            Some((o, _)) => self.op(fr, o),
            None => Val::C(0),
          };
          let f = self.pop_frame(st);
          if st.threads[cur].frames.is_empty() {
            return Ok(());
          }
          let v = if f.catch { Val::C(0) } else { v };
          self.finish_call(st, v);
        },
        Ins::Unreachable => return Err(Stop::Mem("unreachable code reached".into())),
        Ins::ExtractValue(d, a, ix) => {
          let mut v = self.op(fr, a);
          for i in ix {
            let Val::A(x) = &v else { return Err(Stop::Unsup("extractvalue".into())) };
            let n = x[*i as usize].clone();
            v = n;
          }
          fr.regs[*d as usize] = v;
          fr.ip += 1;
        },
        Ins::InsertValue(d, _t, a, v, ix) => {
          let mut agg = self.op(fr, a);
          let v = self.op(fr, v);
          fn put(agg: &mut Val, ix: &[u32], v: Val) -> bool {
            if ix.is_empty() {
              *agg = v;
              return true;
            }
            match agg {
              Val::A(x) => put(&mut Rc::make_mut(x)[ix[0] as usize], &ix[1..], v),
              _ => false,
            }
          }
          if !put(&mut agg, ix, v) {
            return Err(Stop::Unsup("insertvalue".into()));
          }
          fr.regs[*d as usize] = agg;
          fr.ip += 1;
        },
        Ins::ExtractElem(d, a, i) => {
          let v = self.op(fr, a);
          let (Val::A(x), Val::C(i)) = (&v, self.op(fr, i)) else { return Err(Stop::Unsup("extractelement".into())) };
          let r = x.get(i as usize).cloned().unwrap_or(Val::C(0));
          fr.regs[*d as usize] = r;
          fr.ip += 1;
        },
        Ins::InsertElem(d, _, a, v, i) => {
          let mut x = self.op(fr, a);
          let v = self.op(fr, v);
          let Val::C(i) = self.op(fr, i) else { return Err(Stop::Unsup("insertelement".into())) };
          let Val::A(p) = &mut x else { return Err(Stop::Unsup("insertelement".into())) };
          Rc::make_mut(p)[i as usize] = v;
          fr.regs[*d as usize] = x;
          fr.ip += 1;
        },
        Ins::Shuffle(d, n, a, b, mk) => {
          let (a, b) = (self.op(fr, a), self.op(fr, b));
          let (Val::A(p), Val::A(q)) = (&a, &b) else { return Err(Stop::Unsup("shuffle".into())) };
          let o: Vec<Val> = mk
            .iter()
            .map(|k| {
              if *k < 0 {
                Val::C(0)
              } else if (*k as u32) < *n {
                p[*k as usize].clone()
              } else {
                q[*k as usize - *n as usize].clone()
              }
            })
            .collect();
          fr.regs[*d as usize] = Val::A(Rc::new(o));
          fr.ip += 1;
        },
        Ins::Copy(d, a) => {
          let v = self.op(fr, a);
          fr.regs[*d as usize] = v;
          fr.ip += 1;
        },
        Ins::VecBitcast(d, s1, s2, a) => {
          let v = self.op(fr, a);
          let r = self.bitcast(&v, *s1, *s2)?;
          let fr = fr!();
          fr.regs[*d as usize] = r;
          fr.ip += 1;
        },
        Ins::AtomicRmw(d, k, w, p, v) => {
          if st.threads.len() > 1 && self.visible_op(st)? {
            return Ok(());
          }
          let fr = fr!();
          let p = self.op(fr, p);
          let v = self.op(fr, v);
          let p = self.conc(st, &p)?;
          let old = self.load_int(st, p, *w)?;
          let new = match *k {
            "add" => self.bin_op(Bin::Add, *w, &old, &v)?,
            "sub" => self.bin_op(Bin::Sub, *w, &old, &v)?,
            "or" => self.bin_op(Bin::Or, *w, &old, &v)?,
            "and" => self.bin_op(Bin::And, *w, &old, &v)?,
            "xor" => self.bin_op(Bin::Xor, *w, &old, &v)?,
            "xchg" => v,
            k => {
              let pr = match k {
                "max" => Pred::Sgt,
                "min" => Pred::Slt,
                "umax" => Pred::Ugt,
                _ => Pred::Ult,
              };
              let c = self.icmp(pr, *w, &old, &v)?;
              self.select(&c, &old, &v, Shape::Int(*w))?
            },
          };
          self.store_int(st, p, *w, &new)?;
          let fr = fr!();
          if *d != u32::MAX {
            fr.regs[*d as usize] = old;
          }
          fr.ip += 1;
        },
        Ins::CmpXchg(d, w, p, c, n) => {
          if st.threads.len() > 1 && self.visible_op(st)? {
            return Ok(());
          }
          let fr = fr!();
          let p = self.op(fr, p);
          let c = self.op(fr, c);
          let n = self.op(fr, n);
          let p = self.conc(st, &p)?;
          let old = self.load_int(st, p, *w)?;
          let eq = self.icmp(Pred::Eq, *w, &old, &c)?;
          let new = self.select(&eq, &n, &old, Shape::Int(*w))?;
          self.store_int(st, p, *w, &new)?;
          let fr = fr!();
          if *d != u32::MAX {
            fr.regs[*d as usize] = Val::A(Rc::new(vec![old, eq]));
          }
          fr.ip += 1;
        },
        Ins::Fence => fr.ip += 1,
        Ins::LandingPad => return Err(Stop::Unsup("landing pad".into())),
        Ins::Unsupported(s) => return Err(Stop::Unsup(format!("instruction: {}", s.trim()))),
      }
    }
  }

  /// bookkeeping for a finished path
  pub fn finish(&mut self, st: &State, s: Stop) {
    self.r.max_depth = self.r.max_depth.max(st.pc.len() as u64);
    for r in &st.reach {
      *self.r.reach.entry(*r).or_insert(0) += 1;
    }
    match s {
      Stop::End => {
        self.r.paths += 1;
        if self.r.samples.len() < 12 && (self.r.paths & (self.r.paths - 1)) == 0 {
          let (i, s) = self.inputs_of(st);
          if s.is_empty() {
            self.r.samples.push(i);
          }
        }
      },
      Stop::Infeasible => self.r.infeasible += 1,
      Stop::Panic(w) => {
        self.r.paths += 1;
        self.violate(st, "panic", 0, &w);
      },
      Stop::Assert(id) => {
        self.r.paths += 1;
        self.violate(st, "assert", id, "");
      },
      Stop::Mem(w) => {
        self.r.paths += 1;
        let fr = st.threads[st.cur].frames.last();
        let n = fr.map_or(String::new(), |f| self.m.funcs[f.func as usize].name.clone());
        self.violate(st, "memory", 0, &format!("{} in {}", w, n));
      },
      Stop::Limit => {
        self.r.paths += 1;
        self.violate(st, "limit", 0, "instruction limit of a path exceeded");
      },
      Stop::Unsup(w) => {
        let fr = st.threads[st.cur].frames.last();
        let n = fr.map_or(String::new(), |f| self.m.funcs[f.func as usize].name.clone());
        *self.r.errors.entry(format!("{} in {}", w, n)).or_insert(0) += 1;
      },
      Stop::Yield => {},
    }
  }
}
