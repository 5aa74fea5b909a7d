//! A serializer of somebody else: values are data that other formats can be
//! given. It rebuilds what it is told, and refuses after a number of calls.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Display;

use serde::ser::{self, Serialize};
use upon::Value;

#[derive(Debug)]
pub enum Stop {
    /// The budget is used up.
    Full,
    /// Something a value has no business to be.
    Odd(String),
}

impl Display for Stop {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}

impl std::error::Error for Stop {}

impl ser::Error for Stop {
    fn custom<T: Display>(m: T) -> Self {
        Stop::Odd(m.to_string())
    }
}

type R = Result<Value, Stop>;

#[derive(Clone, Copy)]
pub struct Fore<'a> {
    pub left: &'a Cell<usize>,
    pub human: bool,
}

impl<'a> Fore<'a> {
    fn put(self, v: Value) -> R {
        match self.left.get().checked_sub(1) {
            Some(n) => {
                self.left.set(n);
                Ok(v)
            }
            None => Err(Stop::Full),
        }
    }
}

fn odd<T>(m: &str) -> Result<T, Stop> {
    Err(Stop::Odd(m.into()))
}

pub struct Many<'a> {
    to: Fore<'a>,
    told: Option<usize>,
    items: Vec<Value>,
    keys: Vec<String>,
}

impl<'a> ser::Serializer for Fore<'a> {
    type Ok = Value;
    type Error = Stop;
    type SerializeSeq = Many<'a>;
    type SerializeTuple = Many<'a>;
    type SerializeTupleStruct = ser::Impossible<Value, Stop>;
    type SerializeTupleVariant = ser::Impossible<Value, Stop>;
    type SerializeMap = Many<'a>;
    type SerializeStruct = ser::Impossible<Value, Stop>;
    type SerializeStructVariant = ser::Impossible<Value, Stop>;

    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn serialize_bool(self, v: bool) -> R {
        self.put(Value::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> R {
        self.serialize_i64(v.into())
    }
    fn serialize_i16(self, v: i16) -> R {
        self.serialize_i64(v.into())
    }
    fn serialize_i32(self, v: i32) -> R {
        self.serialize_i64(v.into())
    }
    fn serialize_i64(self, v: i64) -> R {
        self.put(Value::Integer(v))
    }
    fn serialize_u8(self, v: u8) -> R {
        self.serialize_i64(v.into())
    }
    fn serialize_u16(self, v: u16) -> R {
        self.serialize_i64(v.into())
    }
    fn serialize_u32(self, v: u32) -> R {
        self.serialize_i64(v.into())
    }
    fn serialize_u64(self, v: u64) -> R {
        match v.try_into() {
            Ok(v) => self.serialize_i64(v),
            Err(_) => odd("an integer that no value has"),
        }
    }
    fn serialize_f32(self, _: f32) -> R {
        odd("a float of 32 bits")
    }
    fn serialize_f64(self, v: f64) -> R {
        self.put(Value::Float(v))
    }
    fn serialize_char(self, v: char) -> R {
        self.put(Value::String(v.into()))
    }
    fn serialize_str(self, v: &str) -> R {
        self.put(Value::String(v.into()))
    }
    fn serialize_bytes(self, _: &[u8]) -> R {
        odd("bytes")
    }
    fn serialize_none(self) -> R {
        self.put(Value::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_unit(self) -> R {
        self.put(Value::None)
    }
    fn serialize_unit_struct(self, _: &'static str) -> R {
        odd("a unit struct")
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> R {
        odd("a variant")
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> R {
        odd("a variant")
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Many<'a>, Stop> {
        self.put(Value::None)?;
        Ok(Many {
            to: self,
            told: len,
            items: vec![],
            keys: vec![],
        })
    }
    fn serialize_tuple(self, len: usize) -> Result<Many<'a>, Stop> {
        self.serialize_seq(Some(len))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Stop> {
        odd("a tuple struct")
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeTupleVariant, Stop> {
        odd("a variant")
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Many<'a>, Stop> {
        self.serialize_seq(len)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Stop> {
        odd("a struct")
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeStructVariant, Stop> {
        odd("a variant")
    }
}

impl Many<'_> {
    fn add<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Stop> {
        self.items.push(v.serialize(self.to)?);
        Ok(())
    }

    fn list(self) -> R {
        // Formats like bincode write the length first.
        match self.told {
            Some(n) if n != self.items.len() => odd("the announced length is wrong"),
            _ => Ok(Value::List(self.items)),
        }
    }
}

impl ser::SerializeSeq for Many<'_> {
    type Ok = Value;
    type Error = Stop;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Stop> {
        self.add(v)
    }
    fn end(self) -> R {
        self.list()
    }
}

impl ser::SerializeTuple for Many<'_> {
    type Ok = Value;
    type Error = Stop;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Stop> {
        self.add(v)
    }
    fn end(self) -> R {
        self.list()
    }
}

impl ser::SerializeMap for Many<'_> {
    type Ok = Value;
    type Error = Stop;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Stop> {
        match k.serialize(self.to)? {
            Value::String(k) => self.keys.push(k),
            _ => return odd("a key that is not a string"),
        }
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Stop> {
        self.add(v)
    }
    fn end(self) -> R {
        let n = self.keys.len();
        if n != self.items.len() || self.told.map_or(false, |t| t != n) {
            return odd("the announced length is wrong");
        }
        let m: BTreeMap<_, _> = self.keys.into_iter().zip(self.items).collect();
        if m.len() != n {
            return odd("a key twice");
        }
        Ok(Value::Map(m))
    }
}
