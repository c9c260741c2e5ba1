//! A minimal serde data format for the verifier: a record is up to four named integers or nulls, nothing is allocated, no
//! strings are compared unless a harness asks for it.
use serde::{
    de::{self, DeserializeSeed, Deserializer, MapAccess, Visitor},
    ser::{self, Impossible, Serialize, SerializeStruct, Serializer},
    Deserialize,
};
use std::fmt;

pub const N: usize = 4;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Val {
    Null,
    Int(i32),
}

#[derive(Clone, Copy)]
pub struct Record {
    pub len:   usize,
    pub names: [&'static str; N],
    pub vals:  [Val; N],
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Error {
    Custom,
    Missing,
    Unsupported,
}
impl fmt::Display for Error {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Error::Custom
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Error::Custom
    }
    fn missing_field(_: &'static str) -> Self {
        Error::Missing
    }
}

macro_rules! unsupported {
    ($self:ident $( $f:ident ( $( $t:ty ),* ) ),+ ) => {
        $( fn $f($self, $( _: $t ),*) -> Result<Self::Ok, Error> { Err(Error::Unsupported) } )+
    };
}
macro_rules! unsupported_compound {
    () => {
        type SerializeSeq = Impossible<Self::Ok, Error>;
        type SerializeTuple = Impossible<Self::Ok, Error>;
        type SerializeTupleStruct = Impossible<Self::Ok, Error>;
        type SerializeTupleVariant = Impossible<Self::Ok, Error>;
        type SerializeMap = Impossible<Self::Ok, Error>;
        type SerializeStructVariant = Impossible<Self::Ok, Error>;
        fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Error> {
            Err(Error::Unsupported)
        }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Error> {
            Err(Error::Unsupported)
        }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Error> {
            Err(Error::Unsupported)
        }
        fn serialize_tuple_variant(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: usize,
        ) -> Result<Self::SerializeTupleVariant, Error> {
            Err(Error::Unsupported)
        }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Error> {
            Err(Error::Unsupported)
        }
        fn serialize_struct_variant(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: usize,
        ) -> Result<Self::SerializeStructVariant, Error> {
            Err(Error::Unsupported)
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Self::Ok, Error> {
            Err(Error::Unsupported)
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: &T,
        ) -> Result<Self::Ok, Error> {
            Err(Error::Unsupported)
        }
    };
}

/// Serializes a record.
pub struct RecSer;
pub struct RecBuf(Record);

impl Serializer for RecSer {
    type Ok = Record;
    type Error = Error;
    type SerializeStruct = RecBuf;
    unsupported_compound!();
    unsupported!(self serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64),
        serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32),
        serialize_f64(f64), serialize_char(char), serialize_str(&str), serialize_bytes(&[u8]), serialize_none(),
        serialize_unit(), serialize_unit_struct(&'static str), serialize_unit_variant(&'static str, u32, &'static str));
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Self::Ok, Error> {
        Err(Error::Unsupported)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<RecBuf, Error> {
        Ok(RecBuf(Record { len: 0, names: [""; N], vals: [Val::Null; N] }))
    }
}
impl SerializeStruct for RecBuf {
    type Ok = Record;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, name: &'static str, value: &T) -> Result<(), Error> {
        let v = value.serialize(ValSer)?;
        let n = self.0.len;
        self.0.names[n] = name;
        self.0.vals[n] = v;
        self.0.len += 1;
        Ok(())
    }
    fn end(self) -> Result<Record, Error> {
        Ok(self.0)
    }
}

/// Serializes a single value.
pub struct ValSer;
impl Serializer for ValSer {
    type Ok = Val;
    type Error = Error;
    type SerializeStruct = Impossible<Val, Error>;
    unsupported_compound!();
    unsupported!(self serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i64(i64),
        serialize_u8(u8), serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32),
        serialize_f64(f64), serialize_char(char), serialize_str(&str), serialize_bytes(&[u8]), 
        serialize_unit(), serialize_unit_struct(&'static str), serialize_unit_variant(&'static str, u32, &'static str));
    fn serialize_i32(self, v: i32) -> Result<Val, Error> {
        Ok(Val::Int(v))
    }
    fn serialize_none(self) -> Result<Val, Error> {
        Ok(Val::Null)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Val, Error> {
        v.serialize(ValSer)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> {
        Err(Error::Unsupported)
    }
}

/// Deserializes a record: `input[i]` is the value for i'th field of those the struct expects, if present.
pub struct RecDe {
    pub input: [Option<Val>; N],
    pos:       usize,
}
impl RecDe {
    pub fn new(input: [Option<Val>; N]) -> Self {
        Self { input, pos: 0 }
    }
}
impl<'de> Deserializer<'de> for RecDe {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Error> {
        Err(Error::Unsupported)
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        fields: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, Error> {
        unsafe { EXPECTS = fields };
        v.visit_map(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map enum identifier ignored_any
    }
}
/// Fields that the last deserialized struct has asked for.
pub static mut EXPECTS: &[&str] = &[];

impl<'de> MapAccess<'de> for RecDe {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        // Not a loop, for the verifier.
        if self.pos < N && self.input[self.pos].is_none() {
            self.pos += 1;
        }
        if self.pos < N && self.input[self.pos].is_none() {
            self.pos += 1;
        }
        if self.pos < N && self.input[self.pos].is_none() {
            self.pos += 1;
        }
        if self.pos < N && self.input[self.pos].is_none() {
            self.pos += 1;
        }
        if self.pos < N {
            seed.deserialize(IdxDe(self.pos as u64)).map(Some)
        }
        else {
            Ok(None)
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, Error> {
        let v = self.input[self.pos].unwrap();
        self.pos += 1;
        seed.deserialize(ValDe(v))
    }
}
struct IdxDe(u64);
impl<'de> Deserializer<'de> for IdxDe {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_u64(self.0)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
pub struct ValDe(pub Val);
impl<'de> Deserializer<'de> for ValDe {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Val::Null => v.visit_unit(),
            Val::Int(i) => v.visit_i32(i),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Val::Null => v.visit_none(),
            Val::Int(_) => v.visit_some(self),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

pub fn ser<T: Serialize>(v: &T) -> Result<Record, Error> {
    v.serialize(RecSer)
}
pub fn de<T: for<'a> Deserialize<'a>>(input: [Option<Val>; N]) -> Result<T, Error> {
    T::deserialize(RecDe::new(input))
}
