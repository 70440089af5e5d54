//! serde-wasm-bindgen over JSON values. Differences that matter to the application are none: it only sends
//! records, lists, strings, small numbers and options.
use serde::ser::*;
use serde_json::value::Serializer as Js;
use std::fmt::Display;
use wasm_bindgen::JsValue;

#[derive(Debug)]
pub struct Error(pub String);
impl Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
impl serde::ser::Error for Error {
    fn custom<T: Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl From<Error> for JsValue {
    fn from(e: Error) -> Self {
        JsValue::from_str(&e.0)
    }
}
pub type Result<T = JsValue> = std::result::Result<T, Error>;

pub fn from_value<T: serde::de::DeserializeOwned>(v: JsValue) -> Result<T> {
    serde_json::from_value(v.0).map_err(|e| Error(e.to_string()))
}
pub fn to_value<T: serde::Serialize + ?Sized>(v: &T) -> Result {
    v.serialize(&Serializer::new())
}

#[derive(Default)]
pub struct Serializer;
impl Serializer {
    pub const fn new() -> Self {
        Serializer
    }
    pub const fn json_compatible() -> Self {
        Serializer
    }
}
pub struct W<T>(T);
fn done(r: std::result::Result<serde_json::Value, serde_json::Error>) -> Result {
    r.map(JsValue).map_err(|e| Error(e.to_string()))
}
fn unit(r: std::result::Result<(), serde_json::Error>) -> Result<()> {
    r.map_err(|e| Error(e.to_string()))
}
fn open<T>(r: std::result::Result<T, serde_json::Error>) -> Result<W<T>> {
    r.map(W).map_err(|e| Error(e.to_string()))
}
impl<'a> serde::Serializer for &'a Serializer {
    type Ok = JsValue;
    type Error = Error;
    type SerializeSeq = W<<Js as serde::Serializer>::SerializeSeq>;
    type SerializeTuple = W<<Js as serde::Serializer>::SerializeTuple>;
    type SerializeTupleStruct = W<<Js as serde::Serializer>::SerializeTupleStruct>;
    type SerializeTupleVariant = W<<Js as serde::Serializer>::SerializeTupleVariant>;
    type SerializeMap = W<<Js as serde::Serializer>::SerializeMap>;
    type SerializeStruct = W<<Js as serde::Serializer>::SerializeStruct>;
    type SerializeStructVariant = W<<Js as serde::Serializer>::SerializeStructVariant>;
    fn serialize_bool(self, v: bool) -> Result {
        done(Js.serialize_bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result {
        done(Js.serialize_i8(v))
    }
    fn serialize_i16(self, v: i16) -> Result {
        done(Js.serialize_i16(v))
    }
    fn serialize_i32(self, v: i32) -> Result {
        done(Js.serialize_i32(v))
    }
    fn serialize_i64(self, v: i64) -> Result {
        done(Js.serialize_i64(v))
    }
    fn serialize_u8(self, v: u8) -> Result {
        done(Js.serialize_u8(v))
    }
    fn serialize_u16(self, v: u16) -> Result {
        done(Js.serialize_u16(v))
    }
    fn serialize_u32(self, v: u32) -> Result {
        done(Js.serialize_u32(v))
    }
    fn serialize_u64(self, v: u64) -> Result {
        done(Js.serialize_u64(v))
    }
    fn serialize_f32(self, v: f32) -> Result {
        done(Js.serialize_f32(v))
    }
    fn serialize_f64(self, v: f64) -> Result {
        done(Js.serialize_f64(v))
    }
    fn serialize_char(self, v: char) -> Result {
        done(Js.serialize_char(v))
    }
    fn serialize_str(self, v: &str) -> Result {
        done(Js.serialize_str(v))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result {
        done(Js.serialize_bytes(v))
    }
    fn serialize_none(self) -> Result {
        done(Js.serialize_none())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result {
        done(Js.serialize_some(v))
    }
    fn serialize_unit(self) -> Result {
        done(Js.serialize_unit())
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result {
        done(Js.serialize_unit_struct(n))
    }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result {
        done(Js.serialize_unit_variant(n, i, v))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, v: &T) -> Result {
        done(Js.serialize_newtype_struct(n, v))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, n: &'static str, i: u32, k: &'static str, v: &T) -> Result {
        done(Js.serialize_newtype_variant(n, i, k, v))
    }
    fn serialize_seq(self, l: Option<usize>) -> Result<Self::SerializeSeq> {
        open(Js.serialize_seq(l))
    }
    fn serialize_tuple(self, l: usize) -> Result<Self::SerializeTuple> {
        open(Js.serialize_tuple(l))
    }
    fn serialize_tuple_struct(self, n: &'static str, l: usize) -> Result<Self::SerializeTupleStruct> {
        open(Js.serialize_tuple_struct(n, l))
    }
    fn serialize_tuple_variant(self, n: &'static str, i: u32, v: &'static str, l: usize) -> Result<Self::SerializeTupleVariant> {
        open(Js.serialize_tuple_variant(n, i, v, l))
    }
    fn serialize_map(self, l: Option<usize>) -> Result<Self::SerializeMap> {
        open(Js.serialize_map(l))
    }
    fn serialize_struct(self, n: &'static str, l: usize) -> Result<Self::SerializeStruct> {
        open(Js.serialize_struct(n, l))
    }
    fn serialize_struct_variant(self, n: &'static str, i: u32, v: &'static str, l: usize) -> Result<Self::SerializeStructVariant> {
        open(Js.serialize_struct_variant(n, i, v, l))
    }
}
impl<T: SerializeSeq<Ok = serde_json::Value, Error = serde_json::Error>> SerializeSeq for W<T> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_element<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<()> {
        unit(self.0.serialize_element(v))
    }
    fn end(self) -> Result {
        done(self.0.end())
    }
}
impl<T: SerializeTuple<Ok = serde_json::Value, Error = serde_json::Error>> SerializeTuple for W<T> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_element<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<()> {
        unit(self.0.serialize_element(v))
    }
    fn end(self) -> Result {
        done(self.0.end())
    }
}
impl<T: SerializeTupleStruct<Ok = serde_json::Value, Error = serde_json::Error>> SerializeTupleStruct for W<T> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<()> {
        unit(self.0.serialize_field(v))
    }
    fn end(self) -> Result {
        done(self.0.end())
    }
}
impl<T: SerializeTupleVariant<Ok = serde_json::Value, Error = serde_json::Error>> SerializeTupleVariant for W<T> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<()> {
        unit(self.0.serialize_field(v))
    }
    fn end(self) -> Result {
        done(self.0.end())
    }
}
impl<T: SerializeMap<Ok = serde_json::Value, Error = serde_json::Error>> SerializeMap for W<T> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_key<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<()> {
        unit(self.0.serialize_key(v))
    }
    fn serialize_value<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<()> {
        unit(self.0.serialize_value(v))
    }
    fn end(self) -> Result {
        done(self.0.end())
    }
}
impl<T: SerializeStruct<Ok = serde_json::Value, Error = serde_json::Error>> SerializeStruct for W<T> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<V: Serialize + ?Sized>(&mut self, k: &'static str, v: &V) -> Result<()> {
        unit(self.0.serialize_field(k, v))
    }
    fn end(self) -> Result {
        done(self.0.end())
    }
}
impl<T: SerializeStructVariant<Ok = serde_json::Value, Error = serde_json::Error>> SerializeStructVariant for W<T> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<V: Serialize + ?Sized>(&mut self, k: &'static str, v: &V) -> Result<()> {
        unit(self.0.serialize_field(k, v))
    }
    fn end(self) -> Result {
        done(self.0.end())
    }
}
