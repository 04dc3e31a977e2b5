//! LLVM textual IR: data model and parser (the subset rustc emits).
use std::collections::HashMap;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
  Void,
  Int(u32),
  Ptr,
  Float,
  Double,
  Array(u64, TyId),
  Vector(u32, TyId),
  Struct(Vec<TyId>, bool),
  Label,
  Meta,
  Token,
  Func,
}

#[derive(Default)]
pub struct Types {
  pub tys: Vec<Ty>,
  pub map: HashMap<Ty, TyId>,
  pub sizes: Vec<(u64, u64)>, // (size, align) bytes
}

impl Types {
  pub fn get(&mut self, t: Ty) -> TyId {
    if let Some(x) = self.map.get(&t) {
      return *x;
    }
    let sa = self.compute(&t);
    let id = self.tys.len() as TyId;
    self.tys.push(t.clone());
    self.sizes.push(sa);
    self.map.insert(t, id);
    id
  }
  fn compute(&self, t: &Ty) -> (u64, u64) {
    match t {
      Ty::Void | Ty::Label | Ty::Meta | Ty::Token | Ty::Func => (0, 1),
      Ty::Int(w) => {
        let b = ((*w as u64) + 7) / 8;
        let a = if b <= 1 { 1 } else if b <= 2 { 2 } else if b <= 4 { 4 } else if b <= 8 { 8 } else { 16 };
        ((b + a - 1) / a * a, a)
      },
      Ty::Ptr => (8, 8),
      Ty::Float => (4, 4),
      Ty::Double => (8, 8),
      Ty::Array(n, e) => {
        let (s, a) = self.sizes[*e as usize];
        (s * n, a)
      },
      Ty::Vector(n, e) => {
        let bits = match self.tys[*e as usize] {
          Ty::Int(w) => w as u64,
          _ => self.sizes[*e as usize].0 * 8,
        };
        let s = (bits * *n as u64 + 7) / 8;
        let s = s.next_power_of_two();
        (s, s)
      },
      Ty::Struct(fs, packed) => {
        let mut off = 0;
        let mut al = 1;
        for f in fs {
          let (s, a) = self.sizes[*f as usize];
          let a = if *packed { 1 } else { a };
          off = (off + a - 1) / a * a + s;
          al = al.max(a);
        }
        ((off + al - 1) / al * al, al)
      },
    }
  }
  pub fn size(&self, t: TyId) -> u64 {
    self.sizes[t as usize].0
  }
  pub fn field_off(&self, t: TyId, i: usize) -> (u64, TyId) {
    match &self.tys[t as usize] {
      Ty::Struct(fs, packed) => {
        let mut off = 0;
        for (k, f) in fs.iter().enumerate() {
          let (s, a) = self.sizes[*f as usize];
          let a = if *packed { 1 } else { a };
          off = (off + a - 1) / a * a;
          if k == i {
            return (off, *f);
          }
          off += s;
        }
        panic!("field index out of range")
      },
      Ty::Array(_, e) => (self.size(*e) * i as u64, *e),
      Ty::Vector(_, e) => (self.size(*e) * i as u64, *e),
      x => panic!("field_off of {:?}", x),
    }
  }
}

/// Constants
#[derive(Clone, Debug)]
pub enum Const {
  Int(u64),          // up to 64 bits, masked
  Wide(u128),        // > 64 bits
  Global(u32, i64),  // global object + offset
  Func(u32),
  Zero,              // zeroinitializer of an aggregate / vector
  Undef,
  Agg(Vec<(TyId, Const)>),
  Bytes(Vec<u8>),
}

#[derive(Clone, Debug)]
pub enum Op {
  Reg(u32),
  C(u64),
  K(u32), // constant pool: non-scalar or >64 bits
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
  Add,
  Sub,
  Mul,
  UDiv,
  SDiv,
  URem,
  SRem,
  Shl,
  LShr,
  AShr,
  And,
  Or,
  Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
  Eq,
  Ne,
  Ult,
  Ule,
  Ugt,
  Uge,
  Slt,
  Sle,
  Sgt,
  Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
  Trunc,
  ZExt,
  SExt,
  BitLike, // ptrtoint, inttoptr, ptr bitcast
}

/// Shape of a first-class value
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Shape {
  Int(u32),      // width
  Vec(u32, u32), // lanes, lane width
  Agg(TyId),
  Void,
}

pub struct Edge {
  pub target: u32,
  pub moves: Vec<(u32, Op)>,
}

pub enum Callee {
  Direct(u32),
  Indirect(Op),
}

pub enum Ins {
  Bin(u32, Bin, Shape, Op, Op),
  Icmp(u32, Pred, Shape, Op, Op),
  Cast(u32, Cast, Shape, Shape, Op),
  Select(u32, Shape, Shape, Op, Op, Op), // dst, cond shape, val shape
  Gep(u32, Op, i64, Vec<(Op, u32, u64)>), // base, const off, (index, width, scale)
  Load(u32, Shape, Op, bool),            // atomic?
  Store(Shape, Op, Op, bool),            // val, ptr
  Alloca(u32, u64),
  Call(Option<u32>, Shape, Callee, Vec<(Op, Shape)>),
  Invoke(Option<u32>, Shape, Callee, Vec<(Op, Shape)>, Edge),
  Br(Edge),
  CondBr(Op, Edge, Edge),
  Switch(Op, u32, Vec<(u64, u32)>, Vec<Edge>), // value, width, (case, edge index); edge 0 default
  Ret(Option<(Op, Shape)>),
  Unreachable,
  ExtractValue(u32, Op, Vec<u32>),
  InsertValue(u32, TyId, Op, Op, Vec<u32>),
  ExtractElem(u32, Op, Op),
  InsertElem(u32, Shape, Op, Op, Op),
  Shuffle(u32, u32, Op, Op, Vec<i32>),
  Copy(u32, Op),
  VecBitcast(u32, Shape, Shape, Op),
  AtomicRmw(u32, &'static str, u32, Op, Op),
  CmpXchg(u32, u32, Op, Op, Op),
  Fence,
  LandingPad,
  Unsupported(String),
}

pub struct Func {
  pub name: String,
  pub nparams: u32,
  pub nregs: u32,
  pub blocks: Vec<Vec<Ins>>,
  pub defined: bool,
}

pub struct Global {
  pub name: String,
  pub size: u64,
  pub ty: TyId,
  pub init: Option<Const>,
  pub constant: bool,
}

pub struct Module {
  pub types: Types,
  pub funcs: Vec<Func>,
  pub fmap: HashMap<String, u32>,
  pub globals: Vec<Global>,
  pub gmap: HashMap<String, u32>,
  pub consts: Vec<(TyId, Const)>,
}

impl Module {
  pub fn shape(&self, t: TyId) -> Shape {
    match &self.types.tys[t as usize] {
      Ty::Int(w) => Shape::Int(*w),
      Ty::Ptr => Shape::Int(64),
      Ty::Float => Shape::Int(32),
      Ty::Double => Shape::Int(64),
      Ty::Vector(n, e) => match self.types.tys[*e as usize] {
        Ty::Int(w) => Shape::Vec(*n, w),
        Ty::Ptr => Shape::Vec(*n, 64),
        _ => Shape::Vec(*n, 64),
      },
      Ty::Struct(..) | Ty::Array(..) => Shape::Agg(t),
      _ => Shape::Void,
    }
  }
}

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
  Word(&'a str),   // identifiers, keywords, numbers
  Local(&'a str),  // %x
  GlobalT(&'a str),
  Meta(&'a str),   // !x
  Str(&'a str),    // "..." raw
  CStr(&'a str),   // c"..." raw
  Attr,            // #n
  P(char),
  Dots,
}

fn lex(s: &str) -> Vec<Tok<'_>> {
  let b = s.as_bytes();
  let mut i = 0;
  let mut v = Vec::new();
  let is_id = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
  while i < b.len() {
    let c = b[i];
    match c {
      b' ' | b'\t' | b'\r' | b'\n' => i += 1,
      b';' => {
        while i < b.len() && b[i] != b'\n' {
          i += 1;
        }
      },
      b'%' | b'@' => {
        let st;
        let en;
        if i + 1 < b.len() && b[i + 1] == b'"' {
          st = i + 2;
          let mut j = st;
          while b[j] != b'"' {
            j += 1;
          }
          en = j;
          i = j + 1;
        } else {
          st = i + 1;
          let mut j = st;
          while j < b.len() && is_id(b[j]) {
            j += 1;
          }
          en = j;
          i = j;
        }
        v.push(if c == b'%' { Tok::Local(&s[st..en]) } else { Tok::GlobalT(&s[st..en]) });
      },
      b'!' => {
        let st = i + 1;
        let mut j = st;
        while j < b.len() && is_id(b[j]) {
          j += 1;
        }
        v.push(Tok::Meta(&s[st..j]));
        i = j;
      },
      b'#' => {
        let mut j = i + 1;
        while j < b.len() && b[j].is_ascii_digit() {
          j += 1;
        }
        v.push(Tok::Attr);
        i = j;
      },
      b'"' => {
        let st = i + 1;
        let mut j = st;
        while b[j] != b'"' {
          j += 1;
        }
        v.push(Tok::Str(&s[st..j]));
        i = j + 1;
      },
      b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
        let st = i + 2;
        let mut j = st;
        while b[j] != b'"' {
          j += 1;
        }
        v.push(Tok::CStr(&s[st..j]));
        i = j + 1;
      },
      b'.' if s[i..].starts_with("...") => {
        v.push(Tok::Dots);
        i += 3;
      },
      _ if is_id(c) => {
        let st = i;
        let mut j = i;
        while j < b.len() && is_id(b[j]) {
          j += 1;
        }
        v.push(Tok::Word(&s[st..j]));
        i = j;
      },
      _ => {
        v.push(Tok::P(c as char));
        i += 1;
      },
    }
  }
  v
}

pub fn mask(w: u32) -> u64 {
  if w >= 64 {
    u64::MAX
  } else {
    (1u64 << w) - 1
  }
}

fn cstr_bytes(s: &str) -> Vec<u8> {
  let b = s.as_bytes();
  let mut o = Vec::new();
  let mut i = 0;
  while i < b.len() {
    if b[i] == b'\\' {
      if b[i + 1] == b'\\' {
        o.push(b'\\');
        i += 2;
      } else {
        o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
        i += 3;
      }
    } else {
      o.push(b[i]);
      i += 1;
    }
  }
  o
}

struct P<'a, 'm> {
  t: Vec<Tok<'a>>,
  i: usize,
  m: &'m mut Module,
  named: &'m HashMap<String, TyId>,
  regs: HashMap<&'a str, u32>,
}

const PARAM_ATTRS: &[&str] = &[
  "noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "returned", "zeroext", "signext",
  "immarg", "nofree", "nest", "inreg", "swiftself", "swifterror", "allocptr", "allocalign", "noext", "writable",
  "dead_on_unwind", "dead_on_return", "nocapture", "nofpclass", "local_unnamed_addr", "unnamed_addr", "inbounds",
];

impl<'a, 'm> P<'a, 'm> {
  fn peek(&self) -> Option<&Tok<'a>> {
    self.t.get(self.i)
  }
  fn next(&mut self) -> Tok<'a> {
    let x = self.t[self.i].clone();
    self.i += 1;
    x
  }
  fn eat(&mut self, c: char) -> bool {
    if self.peek() == Some(&Tok::P(c)) {
      self.i += 1;
      true
    } else {
      false
    }
  }
  fn eatw(&mut self, w: &str) -> bool {
    if let Some(Tok::Word(x)) = self.peek() {
      if *x == w {
        self.i += 1;
        return true;
      }
    }
    false
  }
  fn expect(&mut self, c: char) {
    if !self.eat(c) {
      panic!("expected {:?} at token {} of {:?}", c, self.i, &self.t);
    }
  }
  fn word(&mut self) -> &'a str {
    match self.next() {
      Tok::Word(w) => w,
      x => panic!("expected word, got {:?} in {:?}", x, self.t),
    }
  }
  fn num(&mut self) -> i128 {
    let w = self.word();
    w.parse::<i128>().unwrap_or_else(|_| panic!("number {:?}", w))
  }
  fn is_type_start(&self) -> bool {
    match self.peek() {
      Some(Tok::Word(w)) => {
        matches!(*w, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80")
          || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
      },
      Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) => true,
      Some(Tok::Local(n)) => self.named.contains_key(*n),
      _ => false,
    }
  }
  fn ty(&mut self) -> TyId {
    let t = match self.next() {
      Tok::Word("void") => Ty::Void,
      Tok::Word("ptr") => {
        if self.eatw("addrspace") {
          self.skip_parens();
        }
        Ty::Ptr
      },
      Tok::Word("float") => Ty::Float,
      Tok::Word("double") => Ty::Double,
      Tok::Word("label") => Ty::Label,
      Tok::Word("metadata") => Ty::Meta,
      Tok::Word("token") => Ty::Token,
      Tok::Word(w) if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {}", w))),
      Tok::P('[') => {
        let n = self.num() as u64;
        assert!(self.eatw("x"));
        let e = self.ty();
        self.expect(']');
        Ty::Array(n, e)
      },
      Tok::P('{') => {
        let f = self.ty_list('}');
        Ty::Struct(f, false)
      },
      Tok::P('<') => {
        if self.eat('{') {
          let f = self.ty_list('}');
          self.expect('>');
          Ty::Struct(f, true)
        } else {
          let n = self.num() as u32;
          assert!(self.eatw("x"));
          let e = self.ty();
          self.expect('>');
          Ty::Vector(n, e)
        }
      },
      Tok::Local(n) => return self.named[n],
      x => panic!("type expected, got {:?} in {:?}", x, self.t),
    };
    self.m.types.get(t)
  }
  fn ty_list(&mut self, end: char) -> Vec<TyId> {
    let mut v = Vec::new();
    if self.eat(end) {
      return v;
    }
    loop {
      v.push(self.ty());
      if self.eat(end) {
        return v;
      }
      self.expect(',');
    }
  }
  fn skip_parens(&mut self) {
    // at '('
    self.expect('(');
    let mut d = 1;
    while d > 0 {
      match self.next() {
        Tok::P('(') => d += 1,
        Tok::P(')') => d -= 1,
        _ => {},
      }
    }
  }
  fn skip_attrs(&mut self) {
    loop {
      match self.peek() {
        Some(Tok::Word(w)) => {
          let w = *w;
          if w == "align" {
            self.i += 1;
            if self.peek() == Some(&Tok::P('(')) {
              self.skip_parens();
            } else {
              self.i += 1;
            }
          } else if matches!(
            w,
            "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "captures" | "range" | "elementtype"
              | "initializes" | "byref" | "preallocated" | "inalloca" | "memory" | "nofpclass" | "alignstack"
          ) {
            self.i += 1;
            if self.peek() == Some(&Tok::P('(')) {
              self.skip_parens();
            }
          } else if PARAM_ATTRS.contains(&w) {
            self.i += 1;
            if self.peek() == Some(&Tok::P('(')) && (w == "dead_on_return" || w == "nofpclass") {
              self.skip_parens();
            }
          } else {
            return;
          }
        },
        Some(Tok::Str(_)) => {
          self.i += 1;
          if self.eat('=') {
            self.i += 1;
          }
        },
        _ => return,
      }
    }
  }
  fn reg(&mut self, n: &'a str) -> u32 {
    let k = self.regs.len() as u32;
    *self.regs.entry(n).or_insert(k)
  }
  fn gref(&self, n: &str) -> Const {
    if let Some(f) = self.m.fmap.get(n) {
      Const::Func(*f)
    } else if let Some(g) = self.m.gmap.get(n) {
      Const::Global(*g, 0)
    } else {
      panic!("unknown global @{}", n)
    }
  }
  /// constant of the given type
  fn konst(&mut self, t: TyId) -> Const {
    let ty = self.m.types.tys[t as usize].clone();
    match self.next() {
      Tok::Word("true") => Const::Int(1),
      Tok::Word("false") => Const::Int(0),
      Tok::Word("null") | Tok::Word("none") => Const::Int(0),
      Tok::Word("zeroinitializer") => match ty {
        Ty::Int(w) if w <= 64 => Const::Int(0),
        Ty::Ptr => Const::Int(0),
        _ => Const::Zero,
      },
      Tok::Word("undef") | Tok::Word("poison") => match ty {
        Ty::Int(w) if w <= 64 => Const::Int(0),
        Ty::Ptr | Ty::Float | Ty::Double => Const::Int(0),
        _ => Const::Undef,
      },
      Tok::Word("splat") => {
        self.expect('(');
        let et = self.ty();
        let c = self.konst(et);
        self.expect(')');
        if let Ty::Vector(n, _) = ty {
          Const::Agg((0..n).map(|_| (et, c.clone())).collect())
        } else {
          panic!("splat")
        }
      },
      Tok::Word("getelementptr") => {
        loop {
          match self.peek() {
            Some(Tok::Word("inbounds")) | Some(Tok::Word("nuw")) | Some(Tok::Word("nusw")) => self.i += 1,
            Some(Tok::Word("inrange")) => {
              self.i += 1;
              self.skip_parens();
            },
            _ => break,
          }
        }
        self.expect('(');
        let et = self.ty();
        self.expect(',');
        let bt = self.ty();
        let base = self.konst(bt);
        let mut off: i64 = 0;
        let mut cur = et;
        let mut first = true;
        while self.eat(',') {
          let it = self.ty();
          let w = match self.m.types.tys[it as usize] {
            Ty::Int(w) => w,
            _ => panic!(),
          };
          let c = self.konst(it);
          let v = match c {
            Const::Int(v) => sext(v, w),
            _ => panic!("gep const idx"),
          };
          if first {
            off += v * self.m.types.size(et) as i64;
            first = false;
          } else {
            let (o, nt) = self.m.types.field_off(cur, v as usize);
            off += o as i64;
            cur = nt;
          }
        }
        self.expect(')');
        match base {
          Const::Global(g, o) => Const::Global(g, o + off),
          Const::Int(v) => Const::Int((v as i64 + off) as u64),
          _ => panic!("gep base"),
        }
      },
      Tok::Word("inttoptr") | Tok::Word("ptrtoint") | Tok::Word("bitcast") | Tok::Word("trunc") => {
        self.expect('(');
        let it = self.ty();
        let c = self.konst(it);
        assert!(self.eatw("to"));
        let ot = self.ty();
        self.expect(')');
        match (c, &self.m.types.tys[ot as usize]) {
          (Const::Int(v), Ty::Int(w)) => Const::Int(v & mask(*w)),
          (c, _) => c,
        }
      },
      Tok::Word("sub") | Tok::Word("add") => Const::Undef,
      Tok::Word(w) => match ty {
        Ty::Int(b) => {
          if b <= 64 {
            let v: i128 = w.parse().unwrap_or_else(|_| panic!("int const {:?} in {:?}", w, self.t));
            Const::Int(v as u64 & mask(b))
          } else if let Ok(v) = w.parse::<i128>() {
            Const::Wide(v as u128)
          } else {
            Const::Wide(w.parse::<u128>().unwrap_or(0))
          }
        },
        Ty::Float | Ty::Double => {
          if let Some(h) = w.strip_prefix("0x") {
            Const::Int(u64::from_str_radix(h, 16).unwrap_or(0))
          } else {
            Const::Int(w.parse::<f64>().unwrap_or(0.0).to_bits())
          }
        },
        _ => panic!("const {:?} of type {:?}: {:?}", w, ty, self.t),
      },
      Tok::GlobalT(n) => self.gref(n),
      Tok::CStr(s) => Const::Bytes(cstr_bytes(s)),
      Tok::P('[') => Const::Agg(self.klist(']')),
      Tok::P('{') => Const::Agg(self.klist('}')),
      Tok::P('<') => {
        if self.eat('{') {
          let r = self.klist('}');
          self.expect('>');
          Const::Agg(r)
        } else {
          Const::Agg(self.klist('>'))
        }
      },
      x => panic!("const? {:?} in {:?}", x, self.t),
    }
  }
  fn klist(&mut self, end: char) -> Vec<(TyId, Const)> {
    let mut v = Vec::new();
    if self.eat(end) {
      return v;
    }
    loop {
      let t = self.ty();
      let c = self.konst(t);
      v.push((t, c));
      if self.eat(end) {
        return v;
      }
      self.expect(',');
    }
  }
  fn mkop(&mut self, t: TyId, c: Const) -> Op {
    match c {
      Const::Int(v) => Op::C(v),
      Const::Func(f) => Op::C(func_addr(f)),
      Const::Global(g, o) => Op::C(global_addr(g).wrapping_add(o as u64)),
      c => {
        self.m.consts.push((t, c));
        Op::K(self.m.consts.len() as u32 - 1)
      },
    }
  }
  fn val(&mut self, t: TyId) -> Op {
    if let Some(Tok::Local(n)) = self.peek() {
      let n = *n;
      self.i += 1;
      return Op::Reg(self.reg(n));
    }
    if let Ty::Meta = self.m.types.tys[t as usize] {
      // metadata operand: skip one token group
      match self.next() {
        Tok::Meta(_) => {
          if self.peek() == Some(&Tok::P('(')) {
            self.skip_parens();
          }
        },
        _ => {},
      }
      return Op::C(0);
    }
    let c = self.konst(t);
    self.mkop(t, c)
  }
  fn tval(&mut self) -> (TyId, Op) {
    let t = self.ty();
    self.skip_attrs();
    let v = self.val(t);
    (t, v)
  }
}

pub fn sext(v: u64, w: u32) -> i64 {
  if w >= 64 {
    v as i64
  } else {
    let s = 64 - w;
    ((v << s) as i64) >> s
  }
}

pub const FUNC_BASE: u64 = 0x4000_0000;
pub const GLOBAL_BASE: u64 = 0x2000_0000;
pub fn func_addr(f: u32) -> u64 {
  (FUNC_BASE + f as u64) << 32
}
/// globals live at object ids GLOBAL_BASE + g
pub fn global_addr(g: u32) -> u64 {
  (GLOBAL_BASE + g as u64) << 32
}

pub fn parse_module(src: &str) -> Module {
  let mut m = Module {
    types: Types::default(),
    funcs: vec![],
    fmap: HashMap::new(),
    globals: vec![],
    gmap: HashMap::new(),
    consts: vec![],
  };
  // split in top-level items
  let mut typedefs: Vec<(&str, &str)> = vec![];
  let mut globals: Vec<(&str, &str)> = vec![];
  let mut fdefs: Vec<(u32, &str, Vec<&str>)> = vec![];
  let mut lines = src.lines();
  let gname = |l: &str| -> String {
    let at = l.find('@').unwrap();
    let r = &l[at + 1..];
    if let Some(q) = r.strip_prefix('"') {
      q[..q.find('"').unwrap()].to_string()
    } else {
      let e = r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-')).unwrap_or(r.len());
      r[..e].to_string()
    }
  };
  while let Some(l) = lines.next() {
    if l.starts_with("define ") {
      let name = gname(l);
      let id = m.funcs.len() as u32;
      m.fmap.insert(name.clone(), id);
      m.funcs.push(Func { name, nparams: 0, nregs: 0, blocks: vec![], defined: true });
      let mut body = Vec::new();
      for b in lines.by_ref() {
        if b == "}" {
          break;
        }
        body.push(b);
      }
      fdefs.push((id, l, body));
    } else if l.starts_with("declare ") {
      let name = gname(l);
      let id = m.funcs.len() as u32;
      m.fmap.insert(name.clone(), id);
      m.funcs.push(Func { name, nparams: 0, nregs: 0, blocks: vec![], defined: false });
    } else if l.starts_with('@') {
      let name = gname(l);
      if name.starts_with("llvm.") {
        continue;
      }
      let id = m.globals.len() as u32;
      m.gmap.insert(name.clone(), id);
      m.globals.push(Global { name, size: 0, ty: 0, init: None, constant: false });
      let e = l.find(" = ").unwrap();
      globals.push((&l[..e], &l[e + 3..]));
    } else if l.starts_with('%') {
      let e = l.find(" = type ").unwrap();
      let n = l[1..e].trim_matches('"');
      typedefs.push((n, &l[e + 8..]));
    }
  }
  // named types (few; resolve iteratively)
  let mut named: HashMap<String, TyId> = HashMap::new();
  let mut pending = typedefs;
  while !pending.is_empty() {
    let n0 = pending.len();
    let mut rest = vec![];
    for (n, b) in pending {
      let toks = lex(b);
      let ready = toks.iter().all(|t| if let Tok::Local(x) = t { named.contains_key(*x) } else { true });
      if ready {
        let mut p = P { t: toks, i: 0, m: &mut m, named: &named, regs: HashMap::new() };
        let t = p.ty();
        named.insert(n.to_string(), t);
      } else {
        rest.push((n, b));
      }
    }
    if rest.len() == n0 {
      panic!("recursive named types");
    }
    pending = rest;
  }
  for (gi, (_, rest)) in globals.iter().enumerate() {
    let toks = lex(rest);
    let mut p = P { t: toks, i: 0, m: &mut m, named: &named, regs: HashMap::new() };
    let mut external = false;
    let mut constant = false;
    loop {
      match p.peek() {
        Some(Tok::Word("constant")) => {
          constant = true;
          p.i += 1;
          break;
        },
        Some(Tok::Word("global")) => {
          p.i += 1;
          break;
        },
        Some(Tok::Word("external")) | Some(Tok::Word("extern_weak")) => {
          external = true;
          p.i += 1;
        },
        Some(Tok::Word("thread_local")) => {
          p.i += 1;
          if p.peek() == Some(&Tok::P('(')) {
            p.skip_parens();
          }
        },
        Some(_) => p.i += 1,
        None => panic!("global {}", rest),
      }
    }
    let t = p.ty();
    let init = if external { None } else { Some(p.konst(t)) };
    let size = m.types.size(t);
    let g = &mut m.globals[gi];
    g.ty = t;
    g.size = size;
    g.init = init;
    g.constant = constant;
  }
  for (id, head, body) in fdefs {
    parse_func(&mut m, &named, id, head, &body);
  }
  m
}

fn parse_func(m: &mut Module, named: &HashMap<String, TyId>, id: u32, head: &str, body: &[&str]) {
  let toks = lex(head);
  let mut p = P { t: toks, i: 1, m, named, regs: HashMap::new() };
  while !matches!(p.peek(), Some(Tok::GlobalT(_))) {
    p.i += 1;
  }
  p.i += 1;
  p.expect('(');
  let mut nparams = 0u32;
  if !p.eat(')') {
    loop {
      if p.peek() == Some(&Tok::Dots) {
        p.i += 1;
      } else {
        let _t = p.ty();
        p.skip_attrs();
        if let Some(Tok::Local(n)) = p.peek() {
          let n = *n;
          p.i += 1;
          let r = p.reg(n);
          assert_eq!(r, nparams);
        } else {
          panic!("unnamed param in {}", head);
        }
        nparams += 1;
      }
      if p.eat(')') {
        break;
      }
      p.expect(',');
    }
  }
  let mut regs = std::mem::take(&mut p.regs);
  drop(p);

  // Blocks: split lines by labels; entry label is implicit number = nparams when unnamed values are used.
  struct RawBlock<'a> {
    label: String,
    lines: Vec<String>,
    _p: std::marker::PhantomData<&'a ()>,
  }
  let mut blocks: Vec<RawBlock> = vec![];
  let mut cur = RawBlock { label: String::from("\u{1}entry"), lines: vec![], _p: std::marker::PhantomData };
  let mut started = false;
  let mut i = 0;
  while i < body.len() {
    let l = body[i];
    i += 1;
    let tl = l.trim_start();
    if tl.is_empty() || tl.starts_with(';') || tl.starts_with("#dbg") {
      continue;
    }
    if !l.starts_with(' ') && !l.starts_with('\t') {
      // label
      let lab = if let Some(q) = l.strip_prefix('"') {
        q[..q.find('"').unwrap()].to_string()
      } else {
        l[..l.find(':').unwrap()].to_string()
      };
      if started {
        blocks.push(cur);
      }
      started = true;
      cur = RawBlock { label: lab, lines: vec![], _p: std::marker::PhantomData };
      continue;
    }
    started = true;
    let mut s = tl.to_string();
    if tl.starts_with("switch ") {
      while !s.trim_end().ends_with(']') && !s.contains("], !") {
        s.push(' ');
        s.push_str(body[i].trim());
        i += 1;
      }
    } else if tl.contains("invoke ") && i < body.len() && body[i].trim_start().starts_with("to label") {
      s.push(' ');
      s.push_str(body[i].trim());
      i += 1;
    } else if tl.contains("landingpad ") {
      while i < body.len() {
        let n = body[i].trim_start();
        if n.starts_with("cleanup") || n.starts_with("catch") || n.starts_with("filter") {
          i += 1;
        } else {
          break;
        }
      }
    }
    cur.lines.push(s);
  }
  blocks.push(cur);
  // entry label: rustc names it "start" or leaves unnamed -> number nparams(unnamed count); predecessors of entry never exist
  let mut bmap: HashMap<&str, u32> = HashMap::new();
  for (k, b) in blocks.iter().enumerate() {
    bmap.insert(b.label.as_str(), k as u32);
  }
  // entry implicit number for phi incoming: count unnamed params
  // pass 1: parse phis for all blocks
  // entry's implicit label: find the number as the count of unnamed (numeric) params
  let entry_num = {
    let mut mx: i64 = -1;
    for n in regs.keys() {
      if let Ok(v) = n.parse::<i64>() {
        mx = mx.max(v);
      }
    }
    (mx + 1).to_string()
  };
  let lookup = |n: &str| -> u32 {
    if let Some(b) = bmap.get(n) {
      *b
    } else if n == entry_num {
      0
    } else {
      panic!("block {} not found in {}", n, head)
    }
  };
  let mut out: Vec<Vec<Ins>> = Vec::new();
  // phi table: block -> Vec<(dst, HashMap<pred, Op>)>
  let mut phis: Vec<Vec<(u32, Vec<(u32, Op)>)>> = Vec::new();
  for b in &blocks {
    let mut ph = vec![];
    for l in &b.lines {
      let e = match l.find(" = ") {
        Some(e) => e,
        None => break,
      };
      if !l[e + 3..].starts_with("phi ") {
        break;
      }
      let toks = lex(l);
      // SAFETY of lifetimes: regs keyed by &str of leaked lines
      let toks: Vec<Tok<'static>> = unsafe { std::mem::transmute(toks) };
      let mut p = P { t: toks, i: 0, m, named, regs: unsafe { std::mem::transmute(std::mem::take(&mut regs)) } };
      let dst = match p.next() {
        Tok::Local(n) => p.reg(n),
        _ => panic!(),
      };
      p.expect('=');
      p.i += 1; // phi
      while matches!(p.peek(), Some(Tok::Word("nnan" | "ninf" | "nsz" | "fast"))) {
        p.i += 1;
      }
      let t = p.ty();
      let mut inc = vec![];
      loop {
        p.expect('[');
        let v = p.val(t);
        p.expect(',');
        let lb = match p.next() {
          Tok::Local(n) => lookup(n),
          x => panic!("phi label {:?}", x),
        };
        p.expect(']');
        inc.push((lb, v));
        if !p.eat(',') {
          break;
        }
        if let Some(Tok::Meta(_)) = p.peek() {
          break;
        }
      }
      regs = unsafe { std::mem::transmute(std::mem::take(&mut p.regs)) };
      ph.push((dst, inc));
    }
    phis.push(ph);
  }
  let mk_edge = |from: u32, to: u32| -> Edge {
    let mut moves = vec![];
    for (dst, inc) in &phis[to as usize] {
      let o = inc.iter().find(|(p, _)| *p == from).unwrap_or_else(|| panic!("phi pred missing in {}", head));
      moves.push((*dst, o.1.clone()));
    }
    Edge { target: to, moves }
  };
  for (bi, b) in blocks.iter().enumerate() {
    let mut v = vec![];
    let np = phis[bi].len();
    for l in &b.lines[np..] {
      let toks = lex(l);
      let toks: Vec<Tok<'static>> = unsafe { std::mem::transmute(toks) };
      let mut p = P { t: toks, i: 0, m, named, regs: unsafe { std::mem::transmute(std::mem::take(&mut regs)) } };
      let ins = parse_ins(&mut p, l, bi as u32, &lookup, &mk_edge);
      regs = unsafe { std::mem::transmute(std::mem::take(&mut p.regs)) };
      v.push(ins);
    }
    out.push(v);
  }
  let n = regs.len() as u32;
  std::mem::forget(blocks); // register names point into these lines
  let f = &mut m.funcs[id as usize];
  f.nparams = nparams;
  f.nregs = n;
  f.blocks = out;
}

fn parse_ins(p: &mut P, line: &str, bi: u32, lookup: &dyn Fn(&str) -> u32, mk_edge: &dyn Fn(u32, u32) -> Edge) -> Ins {
  let mut dst = None;
  if let Some(Tok::Local(n)) = p.peek() {
    let n = *n;
    if p.t.get(1) == Some(&Tok::P('=')) {
      dst = Some(p.reg(n));
      p.i = 2;
    }
  }
  let mut op = p.word();
  while matches!(op, "tail" | "musttail" | "notail") {
    op = p.word();
  }
  let label = |p: &mut P| -> u32 {
    assert!(p.eatw("label"), "label expected {}", line);
    match p.next() {
      Tok::Local(n) => lookup(n),
      x => panic!("label {:?}", x),
    }
  };
  let bin = match op {
    "add" => Some(Bin::Add),
    "sub" => Some(Bin::Sub),
    "mul" => Some(Bin::Mul),
    "udiv" => Some(Bin::UDiv),
    "sdiv" => Some(Bin::SDiv),
    "urem" => Some(Bin::URem),
    "srem" => Some(Bin::SRem),
    "shl" => Some(Bin::Shl),
    "lshr" => Some(Bin::LShr),
    "ashr" => Some(Bin::AShr),
    "and" => Some(Bin::And),
    "or" => Some(Bin::Or),
    "xor" => Some(Bin::Xor),
    _ => None,
  };
  if let Some(b) = bin {
    while matches!(p.peek(), Some(Tok::Word("nuw" | "nsw" | "exact" | "disjoint"))) {
      p.i += 1;
    }
    let t = p.ty();
    let a = p.val(t);
    p.expect(',');
    let c = p.val(t);
    return Ins::Bin(dst.unwrap(), b, p.m.shape(t), a, c);
  }
  match op {
    "icmp" => {
      while matches!(p.peek(), Some(Tok::Word("samesign"))) {
        p.i += 1;
      }
      let pr = match p.word() {
        "eq" => Pred::Eq,
        "ne" => Pred::Ne,
        "ult" => Pred::Ult,
        "ule" => Pred::Ule,
        "ugt" => Pred::Ugt,
        "uge" => Pred::Uge,
        "slt" => Pred::Slt,
        "sle" => Pred::Sle,
        "sgt" => Pred::Sgt,
        "sge" => Pred::Sge,
        x => panic!("pred {}", x),
      };
      let t = p.ty();
      let a = p.val(t);
      p.expect(',');
      let c = p.val(t);
      Ins::Icmp(dst.unwrap(), pr, p.m.shape(t), a, c)
    },
    "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
      while matches!(p.peek(), Some(Tok::Word("nuw" | "nsw" | "nneg"))) {
        p.i += 1;
      }
      let (t, a) = p.tval();
      assert!(p.eatw("to"));
      let t2 = p.ty();
      let (s1, s2) = (p.m.shape(t), p.m.shape(t2));
      let d = dst.unwrap();
      match op {
        "trunc" => Ins::Cast(d, Cast::Trunc, s1, s2, a),
        "zext" => Ins::Cast(d, Cast::ZExt, s1, s2, a),
        "sext" => Ins::Cast(d, Cast::SExt, s1, s2, a),
        "bitcast" if s1 != s2 => Ins::VecBitcast(d, s1, s2, a),
        "bitcast" => Ins::Copy(d, a),
        _ => {
          let (w1, w2) = match (s1, s2) {
            (Shape::Int(a), Shape::Int(b)) => (a, b),
            _ => return Ins::Unsupported(line.to_string()),
          };
          if w1 == w2 {
            Ins::Copy(d, a)
          } else if w1 > w2 {
            Ins::Cast(d, Cast::Trunc, s1, s2, a)
          } else {
            Ins::Cast(d, Cast::ZExt, s1, s2, a)
          }
        },
      }
    },
    "freeze" => {
      let (_, a) = p.tval();
      Ins::Copy(dst.unwrap(), a)
    },
    "select" => {
      while matches!(p.peek(), Some(Tok::Word("nnan" | "ninf" | "nsz" | "fast"))) {
        p.i += 1;
      }
      let (ct, c) = p.tval();
      p.expect(',');
      let (t, a) = p.tval();
      p.expect(',');
      let (_, b) = p.tval();
      Ins::Select(dst.unwrap(), p.m.shape(ct), p.m.shape(t), c, a, b)
    },
    "getelementptr" => {
      while matches!(p.peek(), Some(Tok::Word("inbounds" | "nuw" | "nusw"))) {
        p.i += 1;
      }
      let et = p.ty();
      p.expect(',');
      let (bt, base) = p.tval();
      if let Ty::Vector(..) = p.m.types.tys[bt as usize] {
        return Ins::Unsupported(line.to_string());
      }
      let mut off = 0i64;
      let mut idx = vec![];
      let mut cur = et;
      let mut first = true;
      while p.eat(',') {
        if let Some(Tok::Meta(_)) = p.peek() {
          break;
        }
        let (it, iv) = p.tval();
        let w = match p.m.types.tys[it as usize] {
          Ty::Int(w) => w,
          _ => return Ins::Unsupported(line.to_string()),
        };
        let (scale, nt) = if first {
          first = false;
          (p.m.types.size(et), et)
        } else {
          match p.m.types.tys[cur as usize].clone() {
            Ty::Struct(..) => {
              let k = match iv {
                Op::C(k) => k as usize,
                _ => panic!("struct gep"),
              };
              let (o, nt) = p.m.types.field_off(cur, k);
              off += o as i64;
              cur = nt;
              continue;
            },
            Ty::Array(_, e) | Ty::Vector(_, e) => (p.m.types.size(e), e),
            _ => panic!("gep into scalar {}", line),
          }
        };
        cur = nt;
        match iv {
          Op::C(v) => off = off.wrapping_add(sext(v, w).wrapping_mul(scale as i64)),
          o => idx.push((o, w, scale)),
        }
      }
      Ins::Gep(dst.unwrap(), base, off, idx)
    },
    "load" => {
      let atomic = p.eatw("atomic");
      p.eatw("volatile");
      let t = p.ty();
      p.expect(',');
      let (_, a) = p.tval();
      Ins::Load(dst.unwrap(), p.m.shape(t), a, atomic)
    },
    "store" => {
      let atomic = p.eatw("atomic");
      p.eatw("volatile");
      let (t, v) = p.tval();
      p.expect(',');
      let (_, a) = p.tval();
      Ins::Store(p.m.shape(t), v, a, atomic)
    },
    "alloca" => {
      let t = p.ty();
      let mut n = 1;
      if p.eat(',') && p.is_type_start() {
        let (_, c) = p.tval();
        if let Op::C(c) = c {
          n = c;
        } else {
          return Ins::Unsupported(line.to_string());
        }
      }
      Ins::Alloca(dst.unwrap(), p.m.types.size(t) * n)
    },
    "call" | "invoke" => {
      // [fmf] [cc] [ret attrs] type [fnty] callee(args) ...
      loop {
        if p.is_type_start() {
          break;
        }
        match p.peek() {
          Some(Tok::Word("fastcc" | "ccc" | "coldcc" | "nnan" | "ninf" | "nsz" | "fast" | "preserve_mostcc" | "tailcc" | "preserve_nonecc")) => p.i += 1,
          Some(Tok::Word("cc")) => p.i += 2,
          _ => {
            let k = p.i;
            p.skip_attrs();
            if p.i == k {
              p.i += 1;
            }
          },
        }
      }
      let rt = p.ty();
      if p.peek() == Some(&Tok::P('(')) {
        p.skip_parens(); // function type (varargs)
      }
      let callee = match p.next() {
        Tok::GlobalT(n) => match p.gref(n) {
          Const::Func(f) => Callee::Direct(f),
          _ => panic!("call of global {}", line),
        },
        Tok::Local(n) => Callee::Indirect(Op::Reg(p.reg(n))),
        Tok::Word("asm") => return Ins::Unsupported(line.to_string()),
        Tok::Word("null") | Tok::Word("undef") | Tok::Word("poison") => Callee::Indirect(Op::C(0)),
        Tok::Word("inttoptr") => {
          p.i -= 1;
          let t = p.m.types.get(Ty::Ptr);
          let c = p.konst(t);
          let o = p.mkop(t, c);
          Callee::Indirect(o)
        },
        x => panic!("callee {:?} in {}", x, line),
      };
      p.expect('(');
      let mut args = vec![];
      if !p.eat(')') {
        loop {
          let (t, o) = p.tval();
          args.push((o, p.m.shape(t)));
          if p.eat(')') {
            break;
          }
          p.expect(',');
        }
      }
      let sh = p.m.shape(rt);
      if op == "call" {
        Ins::Call(dst, sh, callee, args)
      } else {
        // find "to label %x"
        while !p.eatw("to") {
          p.i += 1;
        }
        let to = label(p);
        Ins::Invoke(dst, sh, callee, args, mk_edge(bi, to))
      }
    },
    "br" => {
      if let Some(Tok::Word("label")) = p.peek() {
        let t = label(p);
        Ins::Br(mk_edge(bi, t))
      } else {
        let (_, c) = p.tval();
        p.expect(',');
        let a = label(p);
        p.expect(',');
        let b = label(p);
        Ins::CondBr(c, mk_edge(bi, a), mk_edge(bi, b))
      }
    },
    "switch" => {
      let (t, c) = p.tval();
      p.expect(',');
      let d = label(p);
      p.expect('[');
      let mut edges = vec![mk_edge(bi, d)];
      let mut cases = vec![];
      while !p.eat(']') {
        let (_, k) = p.tval();
        p.expect(',');
        let l = label(p);
        let k = match k {
          Op::C(k) => k,
          _ => return Ins::Unsupported(line.to_string()),
        };
        cases.push((k, edges.len() as u32));
        edges.push(mk_edge(bi, l));
      }
      let w = match p.m.shape(t) {
        Shape::Int(w) => w,
        _ => panic!(),
      };
      Ins::Switch(c, w, cases, edges)
    },
    "ret" => {
      let t = p.ty();
      if p.m.types.tys[t as usize] == Ty::Void {
        Ins::Ret(None)
      } else {
        let v = p.val(t);
        Ins::Ret(Some((v, p.m.shape(t))))
      }
    },
    "unreachable" => Ins::Unreachable,
    "extractvalue" => {
      let (_, a) = p.tval();
      let mut ix = vec![];
      while p.eat(',') {
        if let Some(Tok::Meta(_)) = p.peek() {
          break;
        }
        ix.push(p.num() as u32);
      }
      Ins::ExtractValue(dst.unwrap(), a, ix)
    },
    "insertvalue" => {
      let (t, a) = p.tval();
      p.expect(',');
      let (_, v) = p.tval();
      let mut ix = vec![];
      while p.eat(',') {
        if let Some(Tok::Meta(_)) = p.peek() {
          break;
        }
        ix.push(p.num() as u32);
      }
      Ins::InsertValue(dst.unwrap(), t, a, v, ix)
    },
    "extractelement" => {
      let (_, a) = p.tval();
      p.expect(',');
      let (_, i) = p.tval();
      Ins::ExtractElem(dst.unwrap(), a, i)
    },
    "insertelement" => {
      let (t, a) = p.tval();
      p.expect(',');
      let (_, v) = p.tval();
      p.expect(',');
      let (_, i) = p.tval();
      Ins::InsertElem(dst.unwrap(), p.m.shape(t), a, v, i)
    },
    "shufflevector" => {
      let (t, a) = p.tval();
      p.expect(',');
      let (_, b) = p.tval();
      p.expect(',');
      let mt = p.ty();
      let c = p.konst(mt);
      let n = match p.m.types.tys[mt as usize] {
        Ty::Vector(n, _) => n,
        _ => panic!(),
      };
      let mk: Vec<i32> = match c {
        Const::Zero => vec![0; n as usize],
        Const::Undef => vec![-1; n as usize],
        Const::Agg(v) => v.iter().map(|(_, c)| if let Const::Int(k) = c { *k as i32 } else { -1 }).collect(),
        _ => return Ins::Unsupported(line.to_string()),
      };
      let w = match p.m.shape(t) {
        Shape::Vec(n, _) => n,
        _ => panic!(),
      };
      Ins::Shuffle(dst.unwrap(), w, a, b, mk)
    },
    "atomicrmw" => {
      p.eatw("volatile");
      let k = match p.word() {
        "add" => "add",
        "sub" => "sub",
        "xchg" => "xchg",
        "or" => "or",
        "and" => "and",
        "xor" => "xor",
        "max" => "max",
        "min" => "min",
        "umax" => "umax",
        "umin" => "umin",
        _ => return Ins::Unsupported(line.to_string()),
      };
      let (_, a) = p.tval();
      p.expect(',');
      let (t, v) = p.tval();
      let w = match p.m.shape(t) {
        Shape::Int(w) => w,
        _ => return Ins::Unsupported(line.to_string()),
      };
      Ins::AtomicRmw(dst.unwrap_or(u32::MAX), k, w, a, v)
    },
    "cmpxchg" => {
      p.eatw("weak");
      p.eatw("volatile");
      let (_, a) = p.tval();
      p.expect(',');
      let (t, c) = p.tval();
      p.expect(',');
      let (_, n) = p.tval();
      let w = match p.m.shape(t) {
        Shape::Int(w) => w,
        _ => return Ins::Unsupported(line.to_string()),
      };
      Ins::CmpXchg(dst.unwrap_or(u32::MAX), w, a, c, n)
    },
    "fence" => Ins::Fence,
    "landingpad" => Ins::LandingPad,
    _ => {
      Ins::Unsupported(line.to_string())
    },
  }
}
