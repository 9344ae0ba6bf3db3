//! A self-describing serialization format that keeps everything it is told.
use serde::de::{self, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum C {
    Bool(bool),
    U(u128),
    I(i128),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<C>),
    Seq(Option<usize>, Vec<C>),
    Map(Option<usize>, Vec<(C, C)>),
    UnitVariant(u32, &'static str),
    NewtypeVariant(u32, &'static str, Box<C>),
}

#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

pub struct Ser;
pub struct SeqSer(Option<usize>, Vec<C>);
pub struct MapSer(Option<usize>, Vec<(C, C)>, Option<C>);

fn unsupported<T>() -> Result<T, Error> {
    Err(Error("unsupported".into()))
}

pub fn to_content<T: Serialize + ?Sized>(t: &T) -> Result<C, Error> {
    t.serialize(Ser)
}

impl ser::Serializer for Ser {
    type Ok = C;
    type Error = Error;
    type SerializeSeq = SeqSer;
    type SerializeTuple = ser::Impossible<C, Error>;
    type SerializeTupleStruct = ser::Impossible<C, Error>;
    type SerializeTupleVariant = ser::Impossible<C, Error>;
    type SerializeMap = MapSer;
    type SerializeStruct = ser::Impossible<C, Error>;
    type SerializeStructVariant = ser::Impossible<C, Error>;

    fn serialize_bool(self, v: bool) -> Result<C, Error> {
        Ok(C::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<C, Error> {
        Ok(C::I(v.into()))
    }
    fn serialize_i16(self, v: i16) -> Result<C, Error> {
        Ok(C::I(v.into()))
    }
    fn serialize_i32(self, v: i32) -> Result<C, Error> {
        Ok(C::I(v.into()))
    }
    fn serialize_i64(self, v: i64) -> Result<C, Error> {
        Ok(C::I(v.into()))
    }
    fn serialize_i128(self, v: i128) -> Result<C, Error> {
        Ok(C::I(v))
    }
    fn serialize_u8(self, v: u8) -> Result<C, Error> {
        Ok(C::U(v.into()))
    }
    fn serialize_u16(self, v: u16) -> Result<C, Error> {
        Ok(C::U(v.into()))
    }
    fn serialize_u32(self, v: u32) -> Result<C, Error> {
        Ok(C::U(v.into()))
    }
    fn serialize_u64(self, v: u64) -> Result<C, Error> {
        Ok(C::U(v.into()))
    }
    fn serialize_u128(self, v: u128) -> Result<C, Error> {
        Ok(C::U(v))
    }
    fn serialize_f32(self, _: f32) -> Result<C, Error> {
        unsupported()
    }
    fn serialize_f64(self, _: f64) -> Result<C, Error> {
        unsupported()
    }
    fn serialize_char(self, v: char) -> Result<C, Error> {
        Ok(C::Char(v))
    }
    fn serialize_str(self, v: &str) -> Result<C, Error> {
        Ok(C::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<C, Error> {
        Ok(C::Bytes(v.into()))
    }
    fn serialize_none(self) -> Result<C, Error> {
        Ok(C::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<C, Error> {
        Ok(C::Some(Box::new(v.serialize(Ser)?)))
    }
    fn serialize_unit(self) -> Result<C, Error> {
        Ok(C::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<C, Error> {
        Ok(C::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> Result<C, Error> {
        Ok(C::UnitVariant(i, n))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<C, Error> {
        v.serialize(Ser)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(
        self,
        _: &'static str,
        i: u32,
        n: &'static str,
        v: &T,
    ) -> Result<C, Error> {
        Ok(C::NewtypeVariant(i, n, Box::new(v.serialize(Ser)?)))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<SeqSer, Error> {
        Ok(SeqSer(len, Vec::new()))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<MapSer, Error> {
        Ok(MapSer(len, Vec::new(), None))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Error> {
        unsupported()
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Error> {
        unsupported()
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeTupleVariant, Error> {
        unsupported()
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> {
        unsupported()
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeStructVariant, Error> {
        unsupported()
    }
}

impl ser::SerializeSeq for SeqSer {
    type Ok = C;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.1.push(v.serialize(Ser)?);
        Ok(())
    }
    fn end(self) -> Result<C, Error> {
        Ok(C::Seq(self.0, self.1))
    }
}

impl ser::SerializeMap for MapSer {
    type Ok = C;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.2 = Some(v.serialize(Ser)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        let k = self.2.take().ok_or_else(|| Error("value without key".into()))?;
        self.1.push((k, v.serialize(Ser)?));
        Ok(())
    }
    fn end(self) -> Result<C, Error> {
        if self.2.is_some() {
            return Err(Error("key without value".into()));
        }
        Ok(C::Map(self.0, self.1))
    }
}

/// Deserializer over a content tree that lives forever (so that borrowed keys work).
#[derive(Clone, Copy)]
pub struct De(pub &'static C);

struct SeqDe(std::slice::Iter<'static, C>, Option<usize>);
struct MapDe(std::slice::Iter<'static, (C, C)>, Option<&'static C>, Option<usize>);
struct VarDe(u32, Option<&'static C>);

impl De {
    fn any<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            C::Bool(b) => v.visit_bool(*b),
            C::U(u) => match u64::try_from(*u) {
                Ok(u) => v.visit_u64(u),
                Err(_) => v.visit_u128(*u),
            },
            C::I(i) => match i64::try_from(*i) {
                Ok(i) => v.visit_i64(i),
                Err(_) => v.visit_i128(*i),
            },
            C::Char(c) => v.visit_char(*c),
            C::Str(s) => v.visit_borrowed_str(s),
            C::Bytes(b) => v.visit_borrowed_bytes(b),
            C::Unit => v.visit_unit(),
            C::None => v.visit_none(),
            C::Some(c) => v.visit_some(De(c)),
            C::Seq(n, s) => v.visit_seq(SeqDe(s.iter(), *n)),
            C::Map(n, m) => v.visit_map(MapDe(m.iter(), None, *n)),
            C::UnitVariant(i, _) => v.visit_enum(VarDe(*i, None)),
            C::NewtypeVariant(i, _, c) => v.visit_enum(VarDe(*i, Some(c))),
        }
    }
}

macro_rules! fwd {
    ($($name:ident)*) => { $(fn $name<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> { self.any(v) })* };
}

impl de::Deserializer<'static> for De {
    type Error = Error;
    fwd!(deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64
        deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64
        deserialize_char deserialize_str deserialize_string deserialize_byte_buf
        deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any);
    fn deserialize_i128<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
        self.any(v)
    }
    fn deserialize_u128<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
        self.any(v)
    }
    fn deserialize_bytes<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
        // byte strings may be stored as sequences of integers
        if let C::Seq(_, s) = self.0 {
            let mut out = Vec::new();
            for c in s {
                match c {
                    C::U(u) if *u < 256 => out.push(*u as u8),
                    _ => return self.any(v),
                }
            }
            return v.visit_borrowed_bytes(out.leak());
        }
        self.any(v)
    }
    fn deserialize_option<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            C::None | C::Unit => v.visit_none(),
            C::Some(c) => v.visit_some(De(c)),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_unit_struct<V: Visitor<'static>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        self.any(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'static>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_tuple<V: Visitor<'static>>(self, _: usize, v: V) -> Result<V::Value, Error> {
        self.any(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'static>>(
        self,
        _: &'static str,
        _: usize,
        v: V,
    ) -> Result<V::Value, Error> {
        self.any(v)
    }
    fn deserialize_struct<V: Visitor<'static>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, Error> {
        self.any(v)
    }
    fn deserialize_enum<V: Visitor<'static>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, Error> {
        self.any(v)
    }
}

impl de::SeqAccess<'static> for SeqDe {
    type Error = Error;
    fn next_element_seed<T: de::DeserializeSeed<'static>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        self.0.next().map(|c| s.deserialize(De(c))).transpose()
    }
    fn size_hint(&self) -> Option<usize> {
        self.1
    }
}

impl de::MapAccess<'static> for MapDe {
    type Error = Error;
    fn next_key_seed<T: de::DeserializeSeed<'static>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        match self.0.next() {
            None => Ok(None),
            Some((k, v)) => {
                self.1 = Some(v);
                s.deserialize(De(k)).map(Some)
            }
        }
    }
    fn next_value_seed<T: de::DeserializeSeed<'static>>(&mut self, s: T) -> Result<T::Value, Error> {
        let v = self.1.take().ok_or_else(|| Error("value asked before key".into()))?;
        s.deserialize(De(v))
    }
    fn size_hint(&self) -> Option<usize> {
        self.2
    }
}

impl de::EnumAccess<'static> for VarDe {
    type Error = Error;
    type Variant = VarDe;
    fn variant_seed<T: de::DeserializeSeed<'static>>(self, s: T) -> Result<(T::Value, VarDe), Error> {
        let i: de::value::U32Deserializer<Error> = self.0.into_deserializer();
        Ok((s.deserialize(i)?, self))
    }
}

impl de::VariantAccess<'static> for VarDe {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        match self.1 {
            None => Ok(()),
            Some(_) => Err(Error("unexpected payload".into())),
        }
    }
    fn newtype_variant_seed<T: de::DeserializeSeed<'static>>(self, s: T) -> Result<T::Value, Error> {
        match self.1 {
            Some(c) => s.deserialize(De(c)),
            None => Err(Error("missing payload".into())),
        }
    }
    fn tuple_variant<V: Visitor<'static>>(self, _: usize, _: V) -> Result<V::Value, Error> {
        unsupported()
    }
    fn struct_variant<V: Visitor<'static>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, Error> {
        unsupported()
    }
}

/// How each key of `K` is serialized.
pub fn key_contents<K: super::kt::KT>() -> Vec<C> {
    K::all().iter().map(|k| to_content(k).expect("key content")).collect()
}

/// Content that is not a key of `K` (decided by `K`'s own deserialization).
pub fn bad_key<K: super::kt::KT>() -> Option<C> {
    let c = [
        C::UnitVariant(9999, "zz"),
        C::Str("no such key".into()),
        C::Bool(true),
        C::I(-1_000_000),
        C::Seq(Some(1), vec![C::Bool(true)]),
    ];
    c.into_iter().find(|c| K::deserialize(De(Box::leak(Box::new(c.clone())))).is_err())
}

/// A list of pairs as a JSON object, without the library under test.
pub fn json_map<K: serde::Serialize>(l: &std::collections::LinkedList<(K, u8)>) -> Option<String> {
    struct M<'a, K>(&'a std::collections::LinkedList<(K, u8)>);
    impl<K: serde::Serialize> serde::Serialize for M<'_, K> {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            use serde::ser::SerializeMap;
            let mut m = s.serialize_map(Some(self.0.len()))?;
            for (k, v) in self.0 {
                m.serialize_entry(k, v)?;
            }
            m.end()
        }
    }
    serde_json::to_string(&M(l)).ok()
}

pub fn json_back<K: serde::Deserialize<'static>>(t: &'static str) -> Option<Vec<(K, u8)>> {
    struct L<K>(Vec<(K, u8)>);
    impl<K: serde::Deserialize<'static>> serde::Deserialize<'static> for L<K> {
        fn deserialize<D: serde::Deserializer<'static>>(d: D) -> Result<Self, D::Error> {
            struct V<K>(std::marker::PhantomData<K>);
            impl<K: serde::Deserialize<'static>> Visitor<'static> for V<K> {
                type Value = L<K>;
                fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.write_str("a map")
                }
                fn visit_map<A: de::MapAccess<'static>>(self, mut a: A) -> Result<L<K>, A::Error> {
                    let mut v = Vec::new();
                    while let Some(e) = a.next_entry()? {
                        v.push(e);
                    }
                    Ok(L(v))
                }
            }
            d.deserialize_map(V(std::marker::PhantomData))
        }
    }
    serde_json::from_str::<L<K>>(t).ok().map(|l| l.0)
}
