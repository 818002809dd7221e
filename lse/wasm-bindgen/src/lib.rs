//! A JavaScript value as the Rust side sees it: a number, or what `serde` made of an object.
//!
//! wasm-bindgen 0.2.31 passes objects as JSON text.  With the feature `text` that text is made and parsed by serde_json, as in the
//! real crate.  Without, an object is a byte string given one byte at a time (which is what JSON makes of byte strings), or something
//! which is not a sequence of bytes.
#[macro_use]
extern crate serde;
extern crate serde_json;
extern crate wasm_bindgen_macro;
pub mod prelude {
    pub use wasm_bindgen_macro::wasm_bindgen;
    pub use JsValue;
}
use serde::de::DeserializeOwned;
use serde::Serialize;

#[derive(Clone, Debug, PartialEq)]
pub enum JsValue {
    Number(i64),
    Bool(bool),
    Null,
    Undefined,
    /// A sequence of bytes, or (if the second field is given) one whose element there is no byte.
    Bytes(Vec<u8>, Option<usize>),
    /// Any other object.
    Other,
}
macro_rules! numbers { ($($t:ty)*) => { $(impl From<$t> for JsValue { fn from(x: $t) -> JsValue { JsValue::Number(x as i64) } })* } }
numbers!(i8 u8 i16 u16 i32 u32 f32 f64);
impl From<bool> for JsValue { fn from(x: bool) -> JsValue { JsValue::Bool(x) } }
impl<'a> From<&'a str> for JsValue { fn from(_: &'a str) -> JsValue { JsValue::Other } }
impl From<String> for JsValue { fn from(_: String) -> JsValue { JsValue::Other } }
impl JsValue {
    pub const NULL: JsValue = JsValue::Null;
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    pub fn null() -> JsValue { JsValue::Null }
    pub fn undefined() -> JsValue { JsValue::Undefined }
    pub fn from_f64(x: f64) -> JsValue { JsValue::Number(x as i64) }
    pub fn from_bool(x: bool) -> JsValue { JsValue::Bool(x) }
    pub fn from_str(_: &str) -> JsValue { JsValue::Other }
    pub fn is_null(&self) -> bool { *self == JsValue::Null }
    pub fn is_undefined(&self) -> bool { *self == JsValue::Undefined }
    pub fn is_object(&self) -> bool { match self { JsValue::Bytes(..) | JsValue::Other => true, _ => false } }
    pub fn is_string(&self) -> bool { false }
    pub fn as_bool(&self) -> Option<bool> { if let JsValue::Bool(x) = self { Some(*x) } else { None } }
    pub fn as_f64(&self) -> Option<f64> { if let JsValue::Number(x) = self { Some(*x as f64) } else { None } }
}

#[cfg(feature = "text")]
impl JsValue {
    fn text(&self) -> String {
        match self {
            JsValue::Number(x) => format!("{}", x),
            JsValue::Bool(x) => format!("{}", x),
            JsValue::Null | JsValue::Undefined => "null".to_string(),
            JsValue::Bytes(b, odd) => {
                let e: Vec<String> = b.iter().enumerate().map(|(i, x)| if Some(i) == *odd { format!("{}", 256 + *x as u32) } else { format!("{}", x) }).collect();
                format!("[{}]", e.join(","))
            },
            JsValue::Other => "{\"a\":\"b\"}".to_string(),
        }
    }
    pub fn from_serde<T: Serialize + ?Sized>(t: &T) -> serde_json::Result<JsValue> {
        let v: serde_json::Value = serde_json::from_str(&serde_json::to_string(t)?)?;
        Ok(match v {
            serde_json::Value::Array(a) => {
                let b: Option<Vec<u8>> = a.iter().map(|x| x.as_u64().filter(|x| *x < 256).map(|x| x as u8)).collect();
                b.map_or(JsValue::Other, |b| JsValue::Bytes(b, None))
            },
            serde_json::Value::Number(n) => n.as_i64().map_or(JsValue::Other, JsValue::Number),
            serde_json::Value::Bool(b) => JsValue::Bool(b),
            serde_json::Value::Null => JsValue::Null,
            _ => JsValue::Other,
        })
    }
    pub fn into_serde<T: DeserializeOwned>(&self) -> serde_json::Result<T> { serde_json::from_str(&self.text()) }
}

#[cfg(not(feature = "text"))]
mod abstracted {
    use super::*;
    use serde::de::{self, DeserializeSeed, Deserializer, SeqAccess, Visitor};
    use serde::ser::{self, Impossible, SerializeSeq, SerializeTuple, Serializer};
    use std::fmt;
    /// The error, which cannot be told apart from any other.
    #[derive(Debug)]
    pub struct Error;
    impl fmt::Display for Error { fn fmt(&self, _f: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
    impl ::std::error::Error for Error {}
    impl de::Error for Error { fn custom<T: fmt::Display>(_m: T) -> Error { Error } }
    impl ser::Error for Error { fn custom<T: fmt::Display>(_m: T) -> Error { Error } }

    struct Elements<'a>(&'a [u8], usize, Option<usize>);
    impl<'a, 'de> SeqAccess<'de> for Elements<'a> {
        type Error = Error;
        fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
            if self.1 >= self.0.len() { return Ok(None); }
            let (b, odd) = (self.0[self.1], self.2 == Some(self.1));
            self.1 += 1;
            if odd { seed.deserialize(Number(256 + b as u64)).map(Some) } else { seed.deserialize(Number(b as u64)).map(Some) }
        }
    }
    struct Number(u64);
    impl<'de> Deserializer<'de> for Number {
        type Error = Error;
        fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { v.visit_u64(self.0) }
        forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
    }
    struct Value<'a>(&'a JsValue);
    impl<'a, 'de> Deserializer<'de> for Value<'a> {
        type Error = Error;
        fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
            match self.0 {
                JsValue::Number(x) => v.visit_i64(*x),
                JsValue::Bool(x) => v.visit_bool(*x),
                JsValue::Null | JsValue::Undefined => v.visit_unit(),
                // Elements which are left over are an error.
                JsValue::Bytes(b, odd) => {
                    let mut e = Elements(&b[..], 0, *odd);
                    let r = v.visit_seq(Rest(&mut e))?;
                    if e.1 < b.len() { Err(Error) } else { Ok(r) }
                },
                JsValue::Other => v.visit_unit(),
            }
        }
        forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
    }
    struct Rest<'b, 'a: 'b>(&'b mut Elements<'a>);
    impl<'b, 'a, 'de> SeqAccess<'de> for Rest<'b, 'a> {
        type Error = Error;
        fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> { self.0.next_element_seed(seed) }
    }

    struct ToValue;
    macro_rules! no { ($($f:ident $t:ty)*) => { $(fn $f(self, _v: $t) -> Result<JsValue, Error> { Ok(JsValue::Other) })* } }
    macro_rules! number { ($($f:ident $t:ty)*) => { $(fn $f(self, v: $t) -> Result<JsValue, Error> { Ok(JsValue::Number(v as i64)) })* } }
    impl Serializer for ToValue {
        type Ok = JsValue;
        type Error = Error;
        type SerializeSeq = Sequence;
        type SerializeTuple = Sequence;
        type SerializeTupleStruct = Impossible<JsValue, Error>;
        type SerializeTupleVariant = Impossible<JsValue, Error>;
        type SerializeMap = Impossible<JsValue, Error>;
        type SerializeStruct = Impossible<JsValue, Error>;
        type SerializeStructVariant = Impossible<JsValue, Error>;
        number! { serialize_i8 i8 serialize_i16 i16 serialize_i32 i32 serialize_i64 i64 serialize_u8 u8 serialize_u16 u16 serialize_u32 u32 serialize_u64 u64 serialize_f32 f32 serialize_f64 f64 }
        no! { serialize_char char serialize_str &str }
        fn serialize_bool(self, v: bool) -> Result<JsValue, Error> { Ok(JsValue::Bool(v)) }
        fn serialize_bytes(self, v: &[u8]) -> Result<JsValue, Error> { Ok(JsValue::Bytes(v.to_vec(), None)) }
        fn serialize_none(self) -> Result<JsValue, Error> { Ok(JsValue::Null) }
        fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<JsValue, Error> { v.serialize(self) }
        fn serialize_unit(self) -> Result<JsValue, Error> { Ok(JsValue::Null) }
        fn serialize_unit_struct(self, _n: &'static str) -> Result<JsValue, Error> { Ok(JsValue::Null) }
        fn serialize_unit_variant(self, _n: &'static str, _i: u32, _v: &'static str) -> Result<JsValue, Error> { Ok(JsValue::Other) }
        fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _n: &'static str, v: &T) -> Result<JsValue, Error> { v.serialize(self) }
        fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _n: &'static str, _i: u32, _v: &'static str, _t: &T) -> Result<JsValue, Error> { Ok(JsValue::Other) }
        fn serialize_seq(self, _len: Option<usize>) -> Result<Sequence, Error> { Ok(Sequence(Vec::new())) }
        fn serialize_tuple(self, _len: usize) -> Result<Sequence, Error> { Ok(Sequence(Vec::new())) }
        fn serialize_tuple_struct(self, _n: &'static str, _l: usize) -> Result<Impossible<JsValue, Error>, Error> { Err(Error) }
        fn serialize_tuple_variant(self, _n: &'static str, _i: u32, _v: &'static str, _l: usize) -> Result<Impossible<JsValue, Error>, Error> { Err(Error) }
        fn serialize_map(self, _l: Option<usize>) -> Result<Impossible<JsValue, Error>, Error> { Err(Error) }
        fn serialize_struct(self, _n: &'static str, _l: usize) -> Result<Impossible<JsValue, Error>, Error> { Err(Error) }
        fn serialize_struct_variant(self, _n: &'static str, _i: u32, _v: &'static str, _l: usize) -> Result<Impossible<JsValue, Error>, Error> { Err(Error) }
    }
    pub struct Sequence(Vec<u8>);
    impl Sequence {
        fn push<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
            match v.serialize(ToValue)? {
                JsValue::Number(x) if x >= 0 && x < 256 => { self.0.push(x as u8); Ok(()) },
                _ => Err(Error),
            }
        }
    }
    impl SerializeSeq for Sequence {
        type Ok = JsValue;
        type Error = Error;
        fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> { self.push(v) }
        fn end(self) -> Result<JsValue, Error> { Ok(JsValue::Bytes(self.0, None)) }
    }
    impl SerializeTuple for Sequence {
        type Ok = JsValue;
        type Error = Error;
        fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> { self.push(v) }
        fn end(self) -> Result<JsValue, Error> { Ok(JsValue::Bytes(self.0, None)) }
    }
    impl JsValue {
        pub fn from_serde<T: Serialize + ?Sized>(t: &T) -> Result<JsValue, Error> { t.serialize(ToValue) }
        pub fn into_serde<T: DeserializeOwned>(&self) -> Result<T, Error> { T::deserialize(Value(self)) }
    }
}
