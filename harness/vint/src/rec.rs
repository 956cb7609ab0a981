//! A data format that keeps exactly what a `Serialize` impl wrote, and gives it back.
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Unit,
    None,
    Some(Box<Tok>),
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I64(i64),
    F64(f64),
    Str(String),
    Bytes(Vec<u8>),
    /// announced length, elements
    Seq(Option<usize>, Vec<Tok>),
    Map(Option<usize>, Vec<(Tok, Tok)>),
    Newtype(Box<Tok>),
    /// type, index, name
    UnitVariant(&'static str, u32, &'static str),
    Other(&'static str),
}

#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

#[derive(Clone, Copy)]
pub struct Ser {
    pub human: bool,
}
pub struct SeqSer(Ser, Option<usize>, Vec<Tok>);
pub struct MapSer(Ser, Option<usize>, Vec<(Tok, Tok)>, Option<Tok>);

pub fn to_tok<T: Serialize + ?Sized>(x: &T, human: bool) -> Result<Tok, Error> {
    x.serialize(Ser { human })
}

impl ser::Serializer for Ser {
    type Ok = Tok;
    type Error = Error;
    type SerializeSeq = SeqSer;
    type SerializeTuple = SeqSer;
    type SerializeTupleStruct = SeqSer;
    type SerializeTupleVariant = ser::Impossible<Tok, Error>;
    type SerializeMap = MapSer;
    type SerializeStruct = ser::Impossible<Tok, Error>;
    type SerializeStructVariant = ser::Impossible<Tok, Error>;
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn serialize_bool(self, v: bool) -> Result<Tok, Error> {
        Ok(Tok::Bool(v))
    }
    fn serialize_i8(self, _: i8) -> Result<Tok, Error> {
        Ok(Tok::Other("i8"))
    }
    fn serialize_i16(self, _: i16) -> Result<Tok, Error> {
        Ok(Tok::Other("i16"))
    }
    fn serialize_i32(self, _: i32) -> Result<Tok, Error> {
        Ok(Tok::Other("i32"))
    }
    fn serialize_i64(self, v: i64) -> Result<Tok, Error> {
        Ok(Tok::I64(v))
    }
    fn serialize_i128(self, _: i128) -> Result<Tok, Error> {
        Ok(Tok::Other("i128"))
    }
    fn serialize_u8(self, v: u8) -> Result<Tok, Error> {
        Ok(Tok::U8(v))
    }
    fn serialize_u16(self, v: u16) -> Result<Tok, Error> {
        Ok(Tok::U16(v))
    }
    fn serialize_u32(self, v: u32) -> Result<Tok, Error> {
        Ok(Tok::U32(v))
    }
    fn serialize_u64(self, v: u64) -> Result<Tok, Error> {
        Ok(Tok::U64(v))
    }
    fn serialize_u128(self, v: u128) -> Result<Tok, Error> {
        Ok(Tok::U128(v))
    }
    fn serialize_f32(self, _: f32) -> Result<Tok, Error> {
        Ok(Tok::Other("f32"))
    }
    fn serialize_f64(self, v: f64) -> Result<Tok, Error> {
        Ok(Tok::F64(v))
    }
    fn serialize_char(self, v: char) -> Result<Tok, Error> {
        Ok(Tok::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<Tok, Error> {
        Ok(Tok::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Tok, Error> {
        Ok(Tok::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> Result<Tok, Error> {
        Ok(Tok::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Tok, Error> {
        Ok(Tok::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<Tok, Error> {
        Ok(Tok::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Tok, Error> {
        Ok(Tok::Other("unit struct"))
    }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<Tok, Error> {
        Ok(Tok::UnitVariant(n, i, v))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Tok, Error> {
        Ok(Tok::Newtype(Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Tok, Error> {
        Ok(Tok::Other("newtype variant"))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<SeqSer, Error> {
        Ok(SeqSer(self, n, Vec::new()))
    }
    fn serialize_tuple(self, _: usize) -> Result<SeqSer, Error> {
        Err(Error("tuple".to_string()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SeqSer, Error> {
        Err(Error("tuple struct".to_string()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Error> {
        Err(Error("tuple variant".to_string()))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<MapSer, Error> {
        Ok(MapSer(self, n, Vec::new(), None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> {
        Err(Error("struct".to_string()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Error> {
        Err(Error("struct variant".to_string()))
    }
}
impl ser::SerializeSeq for SeqSer {
    type Ok = Tok;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.2.push(v.serialize(self.0)?);
        Ok(())
    }
    fn end(self) -> Result<Tok, Error> {
        Ok(Tok::Seq(self.1, self.2))
    }
}
impl ser::SerializeTuple for SeqSer {
    type Ok = Tok;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.2.push(v.serialize(self.0)?);
        Ok(())
    }
    fn end(self) -> Result<Tok, Error> {
        Ok(Tok::Seq(self.1, self.2))
    }
}
impl ser::SerializeTupleStruct for SeqSer {
    type Ok = Tok;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.2.push(v.serialize(self.0)?);
        Ok(())
    }
    fn end(self) -> Result<Tok, Error> {
        Ok(Tok::Seq(self.1, self.2))
    }
}
impl ser::SerializeMap for MapSer {
    type Ok = Tok;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Error> {
        self.3 = Some(k.serialize(self.0)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        let v = v.serialize(self.0)?;
        let k = self.3.take().ok_or(Error("value without key".to_string()))?;
        self.2.push((k, v));
        Ok(())
    }
    fn end(self) -> Result<Tok, Error> {
        Ok(Tok::Map(self.1, self.2))
    }
}

/// How the input behaves where formats differ.
#[derive(Clone, Copy, Debug)]
pub struct Quirks {
    pub human: bool,
    /// size hints: 0 exact, 1 none, 2 too large, 3 too small
    pub hint: u8,
    /// enums by index instead of by name
    pub by_index: bool,
}
pub struct De<'a>(pub &'a Tok, pub Quirks);

impl<'de, 'a> De<'a> {
    fn any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Tok::Unit => v.visit_unit(),
            Tok::None => v.visit_none(),
            Tok::Some(x) => v.visit_some(De(x, self.1)),
            Tok::Bool(x) => v.visit_bool(*x),
            Tok::U8(x) => v.visit_u8(*x),
            Tok::U16(x) => v.visit_u16(*x),
            Tok::U32(x) => v.visit_u32(*x),
            Tok::U64(x) => v.visit_u64(*x),
            Tok::U128(x) => v.visit_u128(*x),
            Tok::I64(x) => v.visit_i64(*x),
            Tok::F64(x) => v.visit_f64(*x),
            Tok::Str(x) => v.visit_str(x),
            Tok::Bytes(x) => v.visit_bytes(x),
            Tok::Seq(_, x) => {
                let mut acc = Acc(x.iter(), self.1);
                let r = v.visit_seq(&mut acc)?;
                if acc.0.len() != 0 {
                    return Err(Error("elements left over".to_string()));
                }
                Ok(r)
            }
            Tok::Map(_, x) => {
                let mut acc = MapAcc(x.iter(), self.1, None);
                let r = v.visit_map(&mut acc)?;
                if acc.0.len() != 0 {
                    return Err(Error("entries left over".to_string()));
                }
                Ok(r)
            }
            Tok::Newtype(x) => v.visit_newtype_struct(De(x, self.1)),
            Tok::UnitVariant(_, _, n) => v.visit_str(n),
            Tok::Other(x) => Err(Error(x.to_string())),
        }
    }
}
macro_rules! fwd {
    ($($f:ident)*) => {$(
        fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.any(v) }
    )*}
}
impl<'de, 'a> de::Deserializer<'de> for De<'a> {
    type Error = Error;
    fn is_human_readable(&self) -> bool {
        self.1.human
    }
    fwd!(deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64
        deserialize_i128 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128
        deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string
        deserialize_bytes deserialize_byte_buf deserialize_unit deserialize_seq
        deserialize_map deserialize_ignored_any);
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.any(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Tok::Unit | Tok::None => v.visit_none(),
            Tok::Some(x) => v.visit_some(De(x, self.1)),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        self.any(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Error> {
        self.any(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Error> {
        self.any(v)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        self.any(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        match self.0 {
            Tok::Str(x) => v.visit_enum(x.as_str().into_deserializer()),
            Tok::UnitVariant(_, i, n) => {
                if self.1.by_index {
                    v.visit_enum((*i).into_deserializer())
                } else {
                    v.visit_enum((*n).into_deserializer())
                }
            }
            Tok::U8(x) => v.visit_enum((*x as u32).into_deserializer()),
            Tok::U32(x) => v.visit_enum((*x).into_deserializer()),
            _ => Err(Error("not an enum".to_string())),
        }
    }
}
fn hint(n: usize, q: &Quirks) -> Option<usize> {
    match q.hint % 4 {
        0 => Some(n),
        1 => None,
        2 => Some(usize::MAX),
        _ => Some(n / 2),
    }
}
struct Acc<'a>(std::slice::Iter<'a, Tok>, Quirks);
impl<'de, 'a> de::SeqAccess<'de> for &mut Acc<'a> {
    type Error = Error;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Error> {
        match self.0.next() {
            Some(x) => s.deserialize(De(x, self.1)).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.0.len(), &self.1)
    }
}
struct MapAcc<'a>(std::slice::Iter<'a, (Tok, Tok)>, Quirks, Option<&'a Tok>);
impl<'de, 'a> de::MapAccess<'de> for &mut MapAcc<'a> {
    type Error = Error;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Error> {
        match self.0.next() {
            Some((k, v)) => {
                self.2 = Some(v);
                s.deserialize(De(k, self.1)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, Error> {
        match self.2.take() {
            Some(x) => s.deserialize(De(x, self.1)),
            None => Err(Error("value without key".to_string())),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.0.len(), &self.1)
    }
}
pub fn from_tok<T: de::DeserializeOwned>(t: &Tok, q: Quirks) -> Result<T, Error> {
    T::deserialize(De(t, q))
}
