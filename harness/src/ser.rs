//! Serializer / deserializer that expose exactly what the data-model calls do.
//! The elements themselves (`K`, `V`) are opaque: their (de)serialisation is given by the analyser.
use crate::opaque::{any_bool, any_err, input_err, nondet};
use serde::de::{self, DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize};

pub struct Err_;
impl core::fmt::Debug for Err_ { fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl core::fmt::Display for Err_ { fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl std::error::Error for Err_ {}
impl de::Error for Err_ { fn custom<T: core::fmt::Display>(_m: T) -> Self { any_err() } }
impl ser::Error for Err_ { fn custom<T: core::fmt::Display>(_m: T) -> Self { any_err() } }

pub struct De;
macro_rules! fwd { ($($n:ident)*) => { $(fn $n<Vv: Visitor<'de>>(self, _v: Vv) -> Result<Vv::Value, Err_> { Err(any_err()) })* } }
impl<'de> de::Deserializer<'de> for De {
    type Error = Err_;
    fwd! { deserialize_any deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16
           deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes
           deserialize_byte_buf deserialize_option deserialize_unit deserialize_identifier deserialize_ignored_any }
    fn deserialize_bool<Vv: Visitor<'de>>(self, v: Vv) -> Result<Vv::Value, Err_> { v.visit_bool(any_bool()) }
    fn deserialize_unit_struct<Vv: Visitor<'de>>(self, _n: &'static str, v: Vv) -> Result<Vv::Value, Err_> { v.visit_unit() }
    fn deserialize_newtype_struct<Vv: Visitor<'de>>(self, _n: &'static str, v: Vv) -> Result<Vv::Value, Err_> { v.visit_newtype_struct(De) }
    fn deserialize_seq<Vv: Visitor<'de>>(self, v: Vv) -> Result<Vv::Value, Err_> { v.visit_seq(DeSeq { fixed: false, n: 0 }) }
    fn deserialize_tuple<Vv: Visitor<'de>>(self, n: usize, v: Vv) -> Result<Vv::Value, Err_> { v.visit_seq(DeSeq { fixed: true, n }) }
    fn deserialize_tuple_struct<Vv: Visitor<'de>>(self, _n: &'static str, n: usize, v: Vv) -> Result<Vv::Value, Err_> { v.visit_seq(DeSeq { fixed: true, n }) }
    fn deserialize_map<Vv: Visitor<'de>>(self, v: Vv) -> Result<Vv::Value, Err_> { v.visit_map(DeMap) }
    fn deserialize_struct<Vv: Visitor<'de>>(self, _n: &'static str, _f: &'static [&'static str], v: Vv) -> Result<Vv::Value, Err_> { v.visit_map(DeMap) }
    fn deserialize_enum<Vv: Visitor<'de>>(self, _n: &'static str, _f: &'static [&'static str], _v: Vv) -> Result<Vv::Value, Err_> { Err(any_err()) }
}
pub struct DeSeq { fixed: bool, n: usize }
impl<'de> SeqAccess<'de> for DeSeq {
    type Error = Err_;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Err_> {
        if self.fixed {
            if self.n == 0 { return Ok(None); }
            self.n -= 1;
        } else if nondet() { crate::opaque::seq_end(); return Ok(None); }
        if nondet() { return Err(input_err()); }
        match seed.deserialize(De) { Ok(x) => Ok(Some(x)), Err(e) => Err(e) }
    }
    fn size_hint(&self) -> Option<usize> { if nondet() { None } else { Some(crate::opaque::choose(0, 1000)) } }
}
pub struct DeMap;
impl<'de> MapAccess<'de> for DeMap {
    type Error = Err_;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Err_> {
        if nondet() { crate::opaque::seq_end(); return Ok(None); }
        if nondet() { return Err(input_err()); }
        match seed.deserialize(De) { Ok(x) => Ok(Some(x)), Err(e) => Err(e) }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Err_> { seed.deserialize(De) }
    fn size_hint(&self) -> Option<usize> { if nondet() { None } else { Some(crate::opaque::choose(0, 1000)) } }
}

pub struct Ser;
macro_rules! sfwd { ($($n:ident $t:ty,)*) => { $(fn $n(self, _v: $t) -> Result<(), Err_> { Err(any_err()) })* } }
impl ser::Serializer for Ser {
    type Ok = ();
    type Error = Err_;
    type SerializeSeq = Ser;
    type SerializeTuple = Ser;
    type SerializeTupleStruct = Ser;
    type SerializeTupleVariant = Ser;
    type SerializeMap = Ser;
    type SerializeStruct = Ser;
    type SerializeStructVariant = Ser;
    sfwd! { serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
            serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8], }
    fn serialize_bool(self, v: bool) -> Result<(), Err_> { crate::opaque_ser::emit_bool(v); Ok(()) }
    fn collect_str<T: ?Sized + core::fmt::Display>(self, _v: &T) -> Result<(), Err_> { Err(any_err()) }
    fn serialize_none(self) -> Result<(), Err_> { Err(any_err()) }
    fn serialize_some<T: ?Sized + Serialize>(self, _v: &T) -> Result<(), Err_> { Err(any_err()) }
    fn serialize_unit(self) -> Result<(), Err_> { Err(any_err()) }
    fn serialize_unit_struct(self, _n: &'static str) -> Result<(), Err_> { Err(any_err()) }
    fn serialize_unit_variant(self, _n: &'static str, _i: u32, _v: &'static str) -> Result<(), Err_> { Err(any_err()) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _n: &'static str, v: &T) -> Result<(), Err_> { v.serialize(Ser) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _n: &'static str, _i: u32, _v: &'static str, _x: &T) -> Result<(), Err_> { Err(any_err()) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Ser, Err_> { crate::opaque_ser::begin_seq(n); Ok(Ser) }
    fn serialize_tuple(self, n: usize) -> Result<Ser, Err_> { crate::opaque_ser::begin_tuple(n); Ok(Ser) }
    fn serialize_tuple_struct(self, _n: &'static str, n: usize) -> Result<Ser, Err_> { crate::opaque_ser::begin_tuple(n); Ok(Ser) }
    fn serialize_tuple_variant(self, _n: &'static str, _i: u32, _v: &'static str, _k: usize) -> Result<Ser, Err_> { Err(any_err()) }
    fn serialize_map(self, n: Option<usize>) -> Result<Ser, Err_> { crate::opaque_ser::begin_map(n); Ok(Ser) }
    fn serialize_struct(self, _n: &'static str, _k: usize) -> Result<Ser, Err_> { Err(any_err()) }
    fn serialize_struct_variant(self, _n: &'static str, _i: u32, _v: &'static str, _k: usize) -> Result<Ser, Err_> { Err(any_err()) }
}
impl ser::SerializeSeq for Ser { type Ok = (); type Error = Err_;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err_> { v.serialize(Ser) }
    fn end(self) -> Result<(), Err_> { crate::opaque_ser::end(); Ok(()) } }
impl ser::SerializeTuple for Ser { type Ok = (); type Error = Err_;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err_> { v.serialize(Ser) }
    fn end(self) -> Result<(), Err_> { crate::opaque_ser::end(); Ok(()) } }
impl ser::SerializeTupleStruct for Ser { type Ok = (); type Error = Err_;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err_> { v.serialize(Ser) }
    fn end(self) -> Result<(), Err_> { crate::opaque_ser::end(); Ok(()) } }
impl ser::SerializeTupleVariant for Ser { type Ok = (); type Error = Err_;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err_> { v.serialize(Ser) }
    fn end(self) -> Result<(), Err_> { Ok(()) } }
impl ser::SerializeMap for Ser { type Ok = (); type Error = Err_;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err_> { v.serialize(Ser) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Err_> { v.serialize(Ser) }
    fn end(self) -> Result<(), Err_> { crate::opaque_ser::end(); Ok(()) } }
impl ser::SerializeStruct for Ser { type Ok = (); type Error = Err_;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _k: &'static str, v: &T) -> Result<(), Err_> { v.serialize(Ser) }
    fn end(self) -> Result<(), Err_> { Ok(()) } }
impl ser::SerializeStructVariant for Ser { type Ok = (); type Error = Err_;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _k: &'static str, v: &T) -> Result<(), Err_> { v.serialize(Ser) }
    fn end(self) -> Result<(), Err_> { Ok(()) } }
