//! A compact binary format which is not self-describing: nothing tells the reader what comes next,
//! lengths are written ahead, and every byte has to be consumed.
use super::content::Error;
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};

fn err<T>(m: &str) -> Result<T, Error> {
    Err(Error(m.into()))
}

pub fn to_bytes<T: Serialize + ?Sized>(t: &T) -> Result<Vec<u8>, Error> {
    let mut s = Ser(Vec::new());
    t.serialize(&mut s)?;
    Ok(s.0)
}

pub fn write_to<T: Serialize + ?Sized>(buf: &mut Vec<u8>, t: &T) -> Result<(), Error> {
    let mut s = Ser(std::mem::take(buf));
    t.serialize(&mut s)?;
    *buf = s.0;
    Ok(())
}

pub fn from_static<T: serde::Deserialize<'static>>(b: &'static [u8]) -> Result<T, Error> {
    T::deserialize(&mut De(b))
}

pub fn from_bytes<T: serde::Deserialize<'static>>(b: &[u8]) -> Result<T, Error> {
    let mut d = De(b.to_vec().leak());
    let t = T::deserialize(&mut d)?;
    if d.0.is_empty() {
        Ok(t)
    } else {
        err("trailing bytes")
    }
}

struct Ser(Vec<u8>);
struct Items<'a> {
    s: &'a mut Ser,
    left: usize,
}

macro_rules! ints {
    ($($name:ident: $t:ty),*) => {$(
        fn $name(self, v: $t) -> Result<(), Error> { self.0.extend(v.to_le_bytes()); Ok(()) }
    )*};
}

impl<'a> ser::Serializer for &'a mut Ser {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Items<'a>;
    type SerializeTuple = ser::Impossible<(), Error>;
    type SerializeTupleStruct = ser::Impossible<(), Error>;
    type SerializeTupleVariant = ser::Impossible<(), Error>;
    type SerializeMap = Items<'a>;
    type SerializeStruct = ser::Impossible<(), Error>;
    type SerializeStructVariant = ser::Impossible<(), Error>;
    fn is_human_readable(&self) -> bool {
        false
    }
    ints!(serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_i128: i128,
        serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_u128: u128,
        serialize_f32: f32, serialize_f64: f64);
    fn serialize_bool(self, v: bool) -> Result<(), Error> {
        self.0.push(u8::from(v));
        Ok(())
    }
    fn serialize_char(self, v: char) -> Result<(), Error> {
        self.serialize_u32(v as u32)
    }
    fn serialize_str(self, v: &str) -> Result<(), Error> {
        self.serialize_bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Error> {
        self.0.extend((v.len() as u64).to_le_bytes());
        self.0.extend(v);
        Ok(())
    }
    fn serialize_none(self) -> Result<(), Error> {
        self.0.push(0);
        Ok(())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), Error> {
        self.0.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Error> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Error> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), Error> {
        self.serialize_u32(i)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), Error> {
        self.0.extend(i.to_le_bytes());
        v.serialize(self)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Items<'a>, Error> {
        let Some(left) = len else { return err("length not known ahead") };
        self.0.extend((left as u64).to_le_bytes());
        Ok(Items { s: self, left })
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Items<'a>, Error> {
        self.serialize_seq(len)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Error> {
        err("unsupported")
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Error> {
        err("unsupported")
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Error> {
        err("unsupported")
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> {
        err("unsupported")
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Error> {
        err("unsupported")
    }
}

impl Items<'_> {
    fn item<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        if self.left == 0 {
            return err("more items than announced");
        }
        self.left -= 1;
        v.serialize(&mut *self.s)
    }
    fn done(self) -> Result<(), Error> {
        if self.left == 0 {
            Ok(())
        } else {
            err("fewer items than announced")
        }
    }
}

impl ser::SerializeSeq for Items<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.item(v)
    }
    fn end(self) -> Result<(), Error> {
        self.done()
    }
}

impl ser::SerializeMap for Items<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.item(v)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        v.serialize(&mut *self.s)
    }
    fn end(self) -> Result<(), Error> {
        self.done()
    }
}

struct De(&'static [u8]);
struct Rest<'a>(&'a mut De, usize);

impl De {
    fn take(&mut self, n: usize) -> Result<&'static [u8], Error> {
        if self.0.len() < n {
            return err("end of input");
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn bytes(&mut self) -> Result<&'static [u8], Error> {
        let n = u64::from_le_bytes(self.take(8)?.try_into().expect("8 bytes"));
        self.take(usize::try_from(n).unwrap_or(usize::MAX))
    }
    fn tag(&mut self) -> Result<u32, Error> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().expect("4 bytes")))
    }
}

macro_rules! reads {
    ($($name:ident $visit:ident $t:ty),*) => {$(
        fn $name<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
            let b = self.take(std::mem::size_of::<$t>())?;
            v.$visit(<$t>::from_le_bytes(b.try_into().expect("enough bytes")))
        }
    )*};
}

macro_rules! unknown {
    ($($name:ident)*) => {$(
        fn $name<V: Visitor<'static>>(self, _: V) -> Result<V::Value, Error> {
            err(concat!(stringify!($name), ": this format does not describe itself"))
        }
    )*};
}

impl de::Deserializer<'static> for &mut De {
    type Error = Error;
    fn is_human_readable(&self) -> bool {
        false
    }
    unknown!(deserialize_any deserialize_identifier deserialize_ignored_any);
    reads!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64,
        deserialize_i128 visit_i128 i128, deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32,
        deserialize_u64 visit_u64 u64, deserialize_u128 visit_u128 u128, deserialize_f32 visit_f32 f32, deserialize_f64 visit_f64 f64);
    fn deserialize_bool<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
        match self.take(1)?[0] {
            0 => v.visit_bool(false),
            1 => v.visit_bool(true),
            _ => err("not a bool"),
        }
    }
    fn deserialize_char<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
        match char::from_u32(self.tag()?) {
            Some(c) => v.visit_char(c),
            None => err("not a char"),
        }
    }
    fn deserialize_str<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
        match std::str::from_utf8(self.bytes()?) {
            Ok(s) => v.visit_borrowed_str(s),
            Err(_) => err("not a str"),
        }
    }
    fn deserialize_string<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_str(v)
    }
    fn deserialize_bytes<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
        let b = self.bytes()?;
        v.visit_borrowed_bytes(b)
    }
    fn deserialize_byte_buf<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
        match self.take(1)?[0] {
            0 => v.visit_none(),
            1 => v.visit_some(self),
            _ => err("not an option"),
        }
    }
    fn deserialize_unit<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'static>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'static>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
        let n = u64::from_le_bytes(self.take(8)?.try_into().expect("8 bytes"));
        v.visit_seq(Rest(self, usize::try_from(n).unwrap_or(usize::MAX)))
    }
    fn deserialize_map<V: Visitor<'static>>(self, v: V) -> Result<V::Value, Error> {
        let n = u64::from_le_bytes(self.take(8)?.try_into().expect("8 bytes"));
        v.visit_map(Rest(self, usize::try_from(n).unwrap_or(usize::MAX)))
    }
    fn deserialize_tuple<V: Visitor<'static>>(self, n: usize, v: V) -> Result<V::Value, Error> {
        v.visit_seq(Rest(self, n))
    }
    fn deserialize_tuple_struct<V: Visitor<'static>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, Error> {
        v.visit_seq(Rest(self, n))
    }
    fn deserialize_struct<V: Visitor<'static>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        v.visit_seq(Rest(self, f.len()))
    }
    fn deserialize_enum<V: Visitor<'static>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        v.visit_enum(self)
    }
}

impl de::SeqAccess<'static> for Rest<'_> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'static>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        if self.1 == 0 {
            return Ok(None);
        }
        self.1 -= 1;
        s.deserialize(&mut *self.0).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.1)
    }
}

impl de::MapAccess<'static> for Rest<'_> {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'static>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        de::SeqAccess::next_element_seed(self, s)
    }
    fn next_value_seed<T: DeserializeSeed<'static>>(&mut self, s: T) -> Result<T::Value, Error> {
        s.deserialize(&mut *self.0)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.1)
    }
}

impl de::EnumAccess<'static> for &mut De {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'static>>(self, s: T) -> Result<(T::Value, Self), Error> {
        let i: de::value::U32Deserializer<Error> = self.tag()?.into_deserializer();
        Ok((s.deserialize(i)?, self))
    }
}

impl de::VariantAccess<'static> for &mut De {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'static>>(self, s: T) -> Result<T::Value, Error> {
        s.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'static>>(self, _: usize, _: V) -> Result<V::Value, Error> {
        err("unsupported")
    }
    fn struct_variant<V: Visitor<'static>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, Error> {
        err("unsupported")
    }
}
