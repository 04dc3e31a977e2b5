//! A serde format that keeps the data model in memory (tokens), for round trips without text.
use serde::de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use ttgraph::serialize::GraphSerializer;
use ttgraph::*;

#[derive(Clone)]
pub enum T {
  U(u64),
  Str(String),
  Bytes(Vec<u8>),
  Bool(bool),
  Unit,
  None,
  Some(Box<T>),
  Seq(Vec<T>),
  Map(Vec<(T, T)>),
  /// struct: field names and values
  St(Vec<(&'static str, T)>),
  /// enum variant: name and contents
  Var(&'static str, Box<T>),
}
#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E {
  fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
    Ok(())
  }
}
impl std::error::Error for E {}
impl ser::Error for E {
  fn custom<M: std::fmt::Display>(_: M) -> Self {
    E
  }
}
impl de::Error for E {
  fn custom<M: std::fmt::Display>(_: M) -> Self {
    E
  }
  fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self {
    E
  }
  fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self {
    E
  }
  fn invalid_length(_: usize, _: &dyn de::Expected) -> Self {
    E
  }
  fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self {
    E
  }
  fn unknown_field(_: &str, _: &'static [&'static str]) -> Self {
    E
  }
  fn missing_field(_: &'static str) -> Self {
    E
  }
  fn duplicate_field(_: &'static str) -> Self {
    E
  }
}
pub struct S;
pub struct SeqS(Vec<T>, Option<&'static str>);
pub struct MapS(Vec<(T, T)>, Option<T>);
pub struct StS(Vec<(&'static str, T)>, Option<&'static str>);
type R = Result<T, E>;
macro_rules! num { ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> R { Ok(T::U(v as u64)) })* } }
impl ser::Serializer for S {
  type Ok = T;
  type Error = E;
  type SerializeSeq = SeqS;
  type SerializeTuple = SeqS;
  type SerializeTupleStruct = SeqS;
  type SerializeTupleVariant = SeqS;
  type SerializeMap = MapS;
  type SerializeStruct = StS;
  type SerializeStructVariant = StS;
  num!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
  fn serialize_f32(self, _: f32) -> R {
    Err(E)
  }
  fn serialize_f64(self, _: f64) -> R {
    Err(E)
  }
  fn serialize_char(self, v: char) -> R {
    Ok(T::U(v as u64))
  }
  fn serialize_bool(self, v: bool) -> R {
    Ok(T::Bool(v))
  }
  fn serialize_str(self, v: &str) -> R {
    Ok(T::Str(v.to_string()))
  }
  fn serialize_bytes(self, v: &[u8]) -> R {
    Ok(T::Bytes(v.to_vec()))
  }
  fn serialize_none(self) -> R {
    Ok(T::None)
  }
  fn serialize_some<V: Serialize + ?Sized>(self, v: &V) -> R {
    Ok(T::Some(Box::new(v.serialize(S)?)))
  }
  fn serialize_unit(self) -> R {
    Ok(T::Unit)
  }
  fn serialize_unit_struct(self, _: &'static str) -> R {
    Ok(T::Unit)
  }
  fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> R {
    Ok(T::Var(v, Box::new(T::Unit)))
  }
  fn serialize_newtype_struct<V: Serialize + ?Sized>(self, _: &'static str, v: &V) -> R {
    v.serialize(S)
  }
  fn serialize_newtype_variant<V: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &V) -> R {
    Ok(T::Var(n, Box::new(v.serialize(S)?)))
  }
  fn serialize_seq(self, _: Option<usize>) -> Result<SeqS, E> {
    Ok(SeqS(vec![], None))
  }
  fn serialize_tuple(self, _: usize) -> Result<SeqS, E> {
    Ok(SeqS(vec![], None))
  }
  fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SeqS, E> {
    Ok(SeqS(vec![], None))
  }
  fn serialize_tuple_variant(self, _: &'static str, _: u32, v: &'static str, _: usize) -> Result<SeqS, E> {
    Ok(SeqS(vec![], Some(v)))
  }
  fn serialize_map(self, _: Option<usize>) -> Result<MapS, E> {
    Ok(MapS(vec![], None))
  }
  fn serialize_struct(self, _: &'static str, _: usize) -> Result<StS, E> {
    Ok(StS(vec![], None))
  }
  fn serialize_struct_variant(self, _: &'static str, _: u32, v: &'static str, _: usize) -> Result<StS, E> {
    Ok(StS(vec![], Some(v)))
  }
  fn is_human_readable(&self) -> bool {
    false
  }
}
fn wrap(n: Option<&'static str>, t: T) -> T {
  match n {
    Some(n) => T::Var(n, Box::new(t)),
    None => t,
  }
}
macro_rules! seqs { ($($tr:ident $f:ident),*) => { $(impl ser::$tr for SeqS {
  type Ok = T;
  type Error = E;
  fn $f<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<(), E> { self.0.push(v.serialize(S)?); Ok(()) }
  fn end(self) -> R { Ok(wrap(self.1, T::Seq(self.0))) }
})* } }
seqs!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl ser::SerializeMap for MapS {
  type Ok = T;
  type Error = E;
  fn serialize_key<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<(), E> {
    self.1 = Some(v.serialize(S)?);
    Ok(())
  }
  fn serialize_value<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<(), E> {
    let k = self.1.take().unwrap();
    self.0.push((k, v.serialize(S)?));
    Ok(())
  }
  fn end(self) -> R {
    Ok(T::Map(self.0))
  }
}
macro_rules! sts { ($($tr:ident),*) => { $(impl ser::$tr for StS {
  type Ok = T;
  type Error = E;
  fn serialize_field<V: Serialize + ?Sized>(&mut self, k: &'static str, v: &V) -> Result<(), E> { self.0.push((k, v.serialize(S)?)); Ok(()) }
  fn end(self) -> R { Ok(wrap(self.1, T::St(self.0))) }
})* } }
sts!(SerializeStruct, SerializeStructVariant);

pub struct D(pub T);
struct SeqD(std::vec::IntoIter<T>);
struct StD(std::vec::IntoIter<(&'static str, T)>, Option<T>);
struct MapD(std::vec::IntoIter<(T, T)>, Option<T>);
struct VarD(&'static str, T);
impl<'de> SeqAccess<'de> for SeqD {
  type Error = E;
  fn next_element_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<Option<V::Value>, E> {
    match self.0.next() {
      Some(t) => s.deserialize(D(t)).map(Some),
      None => Ok(None),
    }
  }
  fn size_hint(&self) -> Option<usize> {
    Some(self.0.len())
  }
}
impl<'de> MapAccess<'de> for StD {
  type Error = E;
  fn next_key_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<Option<V::Value>, E> {
    match self.0.next() {
      Some((k, v)) => {
        self.1 = Some(v);
        s.deserialize(D(T::Str(k.to_string()))).map(Some)
      },
      None => Ok(None),
    }
  }
  fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, E> {
    s.deserialize(D(self.1.take().unwrap()))
  }
}
impl<'de> MapAccess<'de> for MapD {
  type Error = E;
  fn next_key_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<Option<V::Value>, E> {
    match self.0.next() {
      Some((k, v)) => {
        self.1 = Some(v);
        s.deserialize(D(k)).map(Some)
      },
      None => Ok(None),
    }
  }
  fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, E> {
    s.deserialize(D(self.1.take().unwrap()))
  }
}
impl<'de> EnumAccess<'de> for VarD {
  type Error = E;
  type Variant = D;
  fn variant_seed<V: DeserializeSeed<'de>>(self, s: V) -> Result<(V::Value, D), E> {
    let v = s.deserialize(D(T::Str(self.0.to_string())))?;
    Ok((v, D(self.1)))
  }
}
impl<'de> VariantAccess<'de> for D {
  type Error = E;
  fn unit_variant(self) -> Result<(), E> {
    Ok(())
  }
  fn newtype_variant_seed<V: DeserializeSeed<'de>>(self, s: V) -> Result<V::Value, E> {
    s.deserialize(self)
  }
  fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> {
    de::Deserializer::deserialize_any(self, v)
  }
  fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
    de::Deserializer::deserialize_any(self, v)
  }
}
impl<'de> de::Deserializer<'de> for D {
  type Error = E;
  fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
    match self.0 {
      T::U(x) => v.visit_u64(x),
      T::Str(s) => v.visit_str(&s),
      T::Bytes(b) => v.visit_bytes(&b),
      T::Bool(b) => v.visit_bool(b),
      T::Unit => v.visit_unit(),
      T::None => v.visit_none(),
      T::Some(t) => v.visit_some(D(*t)),
      T::Seq(s) => v.visit_seq(SeqD(s.into_iter())),
      T::Map(m) => v.visit_map(MapD(m.into_iter(), None)),
      T::St(m) => v.visit_map(StD(m.into_iter(), None)),
      T::Var(n, t) => v.visit_enum(VarD(n, *t)),
    }
  }
  fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
    match self.0 {
      T::None => v.visit_none(),
      T::Some(t) => v.visit_some(D(*t)),
      t => v.visit_some(D(t)),
    }
  }
  fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
    v.visit_newtype_struct(self)
  }
  fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
    match self.0 {
      T::Var(n, t) => v.visit_enum(VarD(n, *t)),
      _ => Err(E),
    }
  }
  fn is_human_readable(&self) -> bool {
    false
  }
  serde::forward_to_deserialize_any! {
    bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple
    tuple_struct map struct identifier ignored_any
  }
}
pub fn ser<V: Serialize>(v: &V) -> T {
  match v.serialize(S) {
    Ok(t) => t,
    Err(_) => panic!("not serializable"),
  }
}
pub fn de<V: for<'a> serde::Deserialize<'a>>(t: T) -> Option<V> {
  V::deserialize(D(t)).ok()
}
pub fn field(t: &mut T, name: &str) -> Option<T> {
  if let T::St(v) = t {
    for (k, x) in v.iter_mut() {
      if *k == name {
        return Some(std::mem::replace(x, T::Unit));
      }
    }
  }
  None
}
/// a serialized graph with the given nodes
pub fn graph_of<N: NodeEnum + Serialize + for<'a> serde::Deserialize<'a> + 'static>(nodes: Vec<(usize, N)>) -> GraphSerializer<N> {
  let ctx = Context::new();
  let g = Graph::<N>::new(&ctx);
  let mut t = ser(&g);
  let v: Vec<T> = nodes.iter().map(|(i, n)| T::Seq(vec![T::U(*i as u64), ser(n)])).collect();
  if let T::St(f) = &mut t {
    for (k, x) in f.iter_mut() {
      if *k == "nodes" {
        *x = T::Seq(v.clone());
      }
    }
  }
  match de(t) {
    Some(g) => g,
    None => panic!("cannot deserialize"),
  }
}
