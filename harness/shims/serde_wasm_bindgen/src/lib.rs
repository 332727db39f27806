use serde::ser::*;
use serde_json::value::Serializer as Json;
use wasm_bindgen::JsValue;

pub struct Error(serde_json::Error);
impl From<Error> for JsValue {
    fn from(e: Error) -> Self {
        JsValue(serde_json::Value::String(e.0.to_string()))
    }
}
impl std::fmt::Debug for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl std::error::Error for Error {}
impl serde::ser::Error for Error {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        Error(<serde_json::Error as serde::ser::Error>::custom(m))
    }
}

pub fn from_value<T: serde::de::DeserializeOwned>(v: JsValue) -> Result<T, Error> {
    serde_json::from_value(v.0).map_err(Error)
}
pub fn to_value<T: serde::Serialize + ?Sized>(v: &T) -> Result<JsValue, Error> {
    v.serialize(&Serializer::new())
}

#[derive(Default)]
pub struct Serializer(());
impl Serializer {
    pub const fn new() -> Self {
        Serializer(())
    }
}
type R = Result<JsValue, Error>;
fn done(r: Result<serde_json::Value, serde_json::Error>) -> R {
    r.map(JsValue).map_err(Error)
}
pub struct Part<T>(T);
macro_rules! plain {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> R { done(Json.$f(v)) })* };
}
impl serde::Serializer for &Serializer {
    type Ok = JsValue;
    type Error = Error;
    type SerializeSeq = Part<<Json as serde::Serializer>::SerializeSeq>;
    type SerializeTuple = Part<<Json as serde::Serializer>::SerializeTuple>;
    type SerializeTupleStruct = Part<<Json as serde::Serializer>::SerializeTupleStruct>;
    type SerializeTupleVariant = Part<<Json as serde::Serializer>::SerializeTupleVariant>;
    type SerializeMap = Part<<Json as serde::Serializer>::SerializeMap>;
    type SerializeStruct = Part<<Json as serde::Serializer>::SerializeStruct>;
    type SerializeStructVariant = Part<<Json as serde::Serializer>::SerializeStructVariant>;
    plain!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8], serialize_unit_struct &'static str);
    fn serialize_none(self) -> R { done(Json.serialize_none()) }
    fn serialize_unit(self) -> R { done(Json.serialize_unit()) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R { done(Json.serialize_some(v)) }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> R { done(Json.serialize_unit_variant(n, i, v)) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, v: &T) -> R { done(Json.serialize_newtype_struct(n, v)) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, n: &'static str, i: u32, w: &'static str, v: &T) -> R { done(Json.serialize_newtype_variant(n, i, w, v)) }
    fn serialize_seq(self, l: Option<usize>) -> Result<Self::SerializeSeq, Error> { Json.serialize_seq(l).map(Part).map_err(Error) }
    fn serialize_tuple(self, l: usize) -> Result<Self::SerializeTuple, Error> { Json.serialize_tuple(l).map(Part).map_err(Error) }
    fn serialize_tuple_struct(self, n: &'static str, l: usize) -> Result<Self::SerializeTupleStruct, Error> { Json.serialize_tuple_struct(n, l).map(Part).map_err(Error) }
    fn serialize_tuple_variant(self, n: &'static str, i: u32, v: &'static str, l: usize) -> Result<Self::SerializeTupleVariant, Error> { Json.serialize_tuple_variant(n, i, v, l).map(Part).map_err(Error) }
    fn serialize_map(self, l: Option<usize>) -> Result<Self::SerializeMap, Error> { Json.serialize_map(l).map(Part).map_err(Error) }
    fn serialize_struct(self, n: &'static str, l: usize) -> Result<Self::SerializeStruct, Error> { Json.serialize_struct(n, l).map(Part).map_err(Error) }
    fn serialize_struct_variant(self, n: &'static str, i: u32, v: &'static str, l: usize) -> Result<Self::SerializeStructVariant, Error> { Json.serialize_struct_variant(n, i, v, l).map(Part).map_err(Error) }
}
macro_rules! parts {
    ($($tr:ident $f:ident ($($k:ident)?)),*) => { $(impl<T: $tr<Ok = serde_json::Value, Error = serde_json::Error>> $tr for Part<T> {
        type Ok = JsValue;
        type Error = Error;
        fn $f<V: Serialize + ?Sized>(&mut self, $($k: &'static str,)? v: &V) -> Result<(), Error> { self.0.$f($($k,)? v).map_err(Error) }
        fn end(self) -> R { done(self.0.end()) }
    })* };
}
parts!(SerializeSeq serialize_element (), SerializeTuple serialize_element (), SerializeTupleStruct serialize_field (), SerializeTupleVariant serialize_field (), SerializeStruct serialize_field (k), SerializeStructVariant serialize_field (k));
impl<T: SerializeMap<Ok = serde_json::Value, Error = serde_json::Error>> SerializeMap for Part<T> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_key<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<(), Error> { self.0.serialize_key(v).map_err(Error) }
    fn serialize_value<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<(), Error> { self.0.serialize_value(v).map_err(Error) }
    fn end(self) -> R { done(self.0.end()) }
}
