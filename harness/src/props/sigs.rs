//! Written by tools/gen_sigs.py.

use std::collections::BTreeMap;

use upon::Value;

use crate::funcs::{Filter, Shape, Ty};
use crate::reg_filter;

pub static SIGS: &[Filter] = &[
    Filter { params: &[Ty::Unit], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: ()), result: Shape::List },
    Filter { params: &[Ty::Bool], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: bool), result: Shape::List },
    Filter { params: &[Ty::U8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: u8), result: Shape::List },
    Filter { params: &[Ty::U16], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: u16), result: Shape::List },
    Filter { params: &[Ty::U32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: u32), result: Shape::List },
    Filter { params: &[Ty::U64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: u64), result: Shape::List },
    Filter { params: &[Ty::U128], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: u128), result: Shape::List },
    Filter { params: &[Ty::Usize], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: usize), result: Shape::List },
    Filter { params: &[Ty::I8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: i8), result: Shape::List },
    Filter { params: &[Ty::I16], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: i16), result: Shape::List },
    Filter { params: &[Ty::I32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: i32), result: Shape::List },
    Filter { params: &[Ty::I64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: i64), result: Shape::List },
    Filter { params: &[Ty::I128], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: i128), result: Shape::List },
    Filter { params: &[Ty::Isize], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: isize), result: Shape::List },
    Filter { params: &[Ty::F32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: f32), result: Shape::List },
    Filter { params: &[Ty::F64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: f64), result: Shape::List },
    Filter { params: &[Ty::Str], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: String), result: Shape::List },
    Filter { params: &[Ty::List], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Vec<Value>), result: Shape::List },
    Filter { params: &[Ty::Map], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: BTreeMap<String, Value>), result: Shape::List },
    Filter { params: &[Ty::Value], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value), result: Shape::List },
    Filter { params: &[Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str), result: Shape::List },
    Filter { params: &[Ty::ListRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value]), result: Shape::List },
    Filter { params: &[Ty::MapRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>), result: Shape::List },
    Filter { params: &[Ty::ValueRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::Unit], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: ()), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::Bool], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: bool), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::U8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: u8), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::U16], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: u16), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::U32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: u32), result: Shape::List },
    Filter { params: &[Ty::I64, Ty::U64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: i64, a: u64), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::U128], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: u128), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::Usize], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: usize), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::I8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: i8), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::I16], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: i16), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::I32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: i32), result: Shape::List },
    Filter { params: &[Ty::I64, Ty::I64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: i64, a: i64), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::I128], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: i128), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::Isize], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: isize), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::F32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: f32), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::F64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: f64), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Str], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: String), result: Shape::List },
    Filter { params: &[Ty::I64, Ty::List], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: i64, a: Vec<Value>), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::Map], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: BTreeMap<String, Value>), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::Value], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: Value), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: &str), result: Shape::List },
    Filter { params: &[Ty::Usize, Ty::F32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: usize, a: f32), result: Shape::List },
    Filter { params: &[Ty::Bool, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: bool, a: &str), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::I8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: i8), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: &str), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::F64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: f64), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: &str), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::U8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: u8), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: &str), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::I16], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: i16), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: &str), result: Shape::List },
    Filter { params: &[Ty::Str, Ty::U16, Ty::I32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: String, a: u16, b: i32), result: Shape::List },
    Filter { params: &[Ty::List, Ty::U32, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Vec<Value>, a: u32, b: &str), result: Shape::List },
    Filter { params: &[Ty::I64, Ty::StrRef, Ty::Map], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: i64, a: &str, b: BTreeMap<String, Value>), result: Shape::List },
    Filter { params: &[Ty::U64, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: u64, a: &str, b: &str), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::I128, Ty::Value], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: i128, b: Value), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::U128, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: u128, b: &str), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::StrRef, Ty::Isize], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: &str, b: isize), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: &str, b: &str), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::Unit, Ty::Usize], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: (), b: usize), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::F32, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: f32, b: &str), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::StrRef, Ty::Bool], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: &str, b: bool), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: &str, b: &str), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::I8, Ty::F64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: i8, b: f64), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::U8, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: u8, b: &str), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::StrRef, Ty::I16], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: &str, b: i16), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: &str, b: &str), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::Str, Ty::U16], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: String, b: u16), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::I32, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: i32, b: &str), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::StrRef, Ty::List], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: &str, b: Vec<Value>), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: &str, b: &str), result: Shape::List },
    Filter { params: &[Ty::U32, Ty::I64, Ty::Map, Ty::U64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: u32, a: i64, b: BTreeMap<String, Value>, c: u64), result: Shape::List },
    Filter { params: &[Ty::I128, Ty::Value, Ty::U128, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: i128, a: Value, b: u128, c: &str), result: Shape::List },
    Filter { params: &[Ty::Isize, Ty::Unit, Ty::StrRef, Ty::Usize], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: isize, a: (), b: &str, c: usize), result: Shape::List },
    Filter { params: &[Ty::F32, Ty::Bool, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: f32, a: bool, b: &str, c: &str), result: Shape::List },
    Filter { params: &[Ty::I8, Ty::StrRef, Ty::F64, Ty::U8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: i8, a: &str, b: f64, c: u8), result: Shape::List },
    Filter { params: &[Ty::I16, Ty::StrRef, Ty::Str, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: i16, a: &str, b: String, c: &str), result: Shape::List },
    Filter { params: &[Ty::U16, Ty::StrRef, Ty::StrRef, Ty::I32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: u16, a: &str, b: &str, c: i32), result: Shape::List },
    Filter { params: &[Ty::List, Ty::StrRef, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Vec<Value>, a: &str, b: &str, c: &str), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::U32, Ty::I64, Ty::Map], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: u32, b: i64, c: BTreeMap<String, Value>), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::U64, Ty::I128, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: u64, b: i128, c: &str), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::Value, Ty::StrRef, Ty::U128], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: Value, b: &str, c: u128), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::Isize, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: isize, b: &str, c: &str), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::StrRef, Ty::Unit, Ty::Usize], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: &str, b: (), c: usize), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::StrRef, Ty::F32, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: &str, b: f32, c: &str), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::StrRef, Ty::StrRef, Ty::Bool], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: &str, b: &str, c: bool), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::StrRef, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: &str, b: &str, c: &str), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::I8, Ty::F64, Ty::U8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: i8, b: f64, c: u8), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::I16, Ty::Str, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: i16, b: String, c: &str), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::U16, Ty::StrRef, Ty::I32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: u16, b: &str, c: i32), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::List, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: Vec<Value>, b: &str, c: &str), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::StrRef, Ty::U32, Ty::I64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: &str, b: u32, c: i64), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::StrRef, Ty::Map, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: &str, b: BTreeMap<String, Value>, c: &str), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::StrRef, Ty::StrRef, Ty::U64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: &str, b: &str, c: u64), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::StrRef, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: &str, b: &str, c: &str), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::I128, Ty::Value, Ty::U128], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: i128, b: Value, c: u128), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::Isize, Ty::Unit, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: isize, b: (), c: &str), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::Usize, Ty::StrRef, Ty::F32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: usize, b: &str, c: f32), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::Bool, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: bool, b: &str, c: &str), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::StrRef, Ty::I8, Ty::F64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: &str, b: i8, c: f64), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::StrRef, Ty::U8, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: &str, b: u8, c: &str), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::StrRef, Ty::StrRef, Ty::I16], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: &str, b: &str, c: i16), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::StrRef, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: &str, b: &str, c: &str), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::Str, Ty::U16, Ty::I32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: String, b: u16, c: i32), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::List, Ty::U32, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: Vec<Value>, b: u32, c: &str), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::I64, Ty::StrRef, Ty::Map], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: i64, b: &str, c: BTreeMap<String, Value>), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::U64, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: u64, b: &str, c: &str), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::StrRef, Ty::I128, Ty::Value], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: &str, b: i128, c: Value), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::StrRef, Ty::U128, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: &str, b: u128, c: &str), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::StrRef, Ty::StrRef, Ty::Isize], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: &str, b: &str, c: isize), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::StrRef, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: &str, b: &str, c: &str), result: Shape::List },
    Filter { params: &[Ty::Unit, Ty::Usize, Ty::F32, Ty::Bool, Ty::I8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: (), a: usize, b: f32, c: bool, d: i8), result: Shape::List },
    Filter { params: &[Ty::F64, Ty::U8, Ty::I16, Ty::Str, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: f64, a: u8, b: i16, c: String, d: &str), result: Shape::List },
    Filter { params: &[Ty::U16, Ty::I32, Ty::List, Ty::StrRef, Ty::U32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: u16, a: i32, b: Vec<Value>, c: &str, d: u32), result: Shape::List },
    Filter { params: &[Ty::I64, Ty::Map, Ty::U64, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: i64, a: BTreeMap<String, Value>, b: u64, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::I128, Ty::Value, Ty::StrRef, Ty::U128, Ty::Isize], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: i128, a: Value, b: &str, c: u128, d: isize), result: Shape::List },
    Filter { params: &[Ty::Unit, Ty::Usize, Ty::StrRef, Ty::F32, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: (), a: usize, b: &str, c: f32, d: &str), result: Shape::List },
    Filter { params: &[Ty::Bool, Ty::I8, Ty::StrRef, Ty::StrRef, Ty::F64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: bool, a: i8, b: &str, c: &str, d: f64), result: Shape::List },
    Filter { params: &[Ty::U8, Ty::I16, Ty::StrRef, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: u8, a: i16, b: &str, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::Str, Ty::StrRef, Ty::U16, Ty::I32, Ty::List], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: String, a: &str, b: u16, c: i32, d: Vec<Value>), result: Shape::List },
    Filter { params: &[Ty::U32, Ty::StrRef, Ty::I64, Ty::Map, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: u32, a: &str, b: i64, c: BTreeMap<String, Value>, d: &str), result: Shape::List },
    Filter { params: &[Ty::U64, Ty::StrRef, Ty::I128, Ty::StrRef, Ty::Value], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: u64, a: &str, b: i128, c: &str, d: Value), result: Shape::List },
    Filter { params: &[Ty::U128, Ty::StrRef, Ty::Isize, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: u128, a: &str, b: isize, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::Unit, Ty::StrRef, Ty::StrRef, Ty::Usize, Ty::F32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: (), a: &str, b: &str, c: usize, d: f32), result: Shape::List },
    Filter { params: &[Ty::Bool, Ty::StrRef, Ty::StrRef, Ty::I8, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: bool, a: &str, b: &str, c: i8, d: &str), result: Shape::List },
    Filter { params: &[Ty::F64, Ty::StrRef, Ty::StrRef, Ty::StrRef, Ty::U8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: f64, a: &str, b: &str, c: &str, d: u8), result: Shape::List },
    Filter { params: &[Ty::I16, Ty::StrRef, Ty::StrRef, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: i16, a: &str, b: &str, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::Str, Ty::U16, Ty::I32, Ty::List], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: String, b: u16, c: i32, d: Vec<Value>), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::U32, Ty::I64, Ty::Map, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: u32, b: i64, c: BTreeMap<String, Value>, d: &str), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::U64, Ty::I128, Ty::StrRef, Ty::Value], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: u64, b: i128, c: &str, d: Value), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::U128, Ty::Isize, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: u128, b: isize, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::Unit, Ty::StrRef, Ty::Usize, Ty::F32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: (), b: &str, c: usize, d: f32), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::Bool, Ty::StrRef, Ty::I8, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: bool, b: &str, c: i8, d: &str), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::F64, Ty::StrRef, Ty::StrRef, Ty::U8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: f64, b: &str, c: &str, d: u8), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::I16, Ty::StrRef, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: i16, b: &str, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::StrRef, Ty::Str, Ty::U16, Ty::I32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: &str, b: String, c: u16, d: i32), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::StrRef, Ty::List, Ty::U32, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: &str, b: Vec<Value>, c: u32, d: &str), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::StrRef, Ty::I64, Ty::StrRef, Ty::Map], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: &str, b: i64, c: &str, d: BTreeMap<String, Value>), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::StrRef, Ty::U64, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: &str, b: u64, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::StrRef, Ty::StrRef, Ty::I128, Ty::Value], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: &str, b: &str, c: i128, d: Value), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::StrRef, Ty::StrRef, Ty::U128, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: &str, b: &str, c: u128, d: &str), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::StrRef, Ty::StrRef, Ty::StrRef, Ty::Isize], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: &str, b: &str, c: &str, d: isize), result: Shape::List },
    Filter { params: &[Ty::StrRef, Ty::StrRef, Ty::StrRef, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &str, a: &str, b: &str, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::Unit, Ty::Usize, Ty::F32, Ty::Bool], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: (), b: usize, c: f32, d: bool), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::I8, Ty::F64, Ty::U8, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: i8, b: f64, c: u8, d: &str), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::I16, Ty::Str, Ty::StrRef, Ty::U16], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: i16, b: String, c: &str, d: u16), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::I32, Ty::List, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: i32, b: Vec<Value>, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::U32, Ty::StrRef, Ty::I64, Ty::Map], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: u32, b: &str, c: i64, d: BTreeMap<String, Value>), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::U64, Ty::StrRef, Ty::I128, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: u64, b: &str, c: i128, d: &str), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::Value, Ty::StrRef, Ty::StrRef, Ty::U128], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: Value, b: &str, c: &str, d: u128), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::Isize, Ty::StrRef, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: isize, b: &str, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::StrRef, Ty::Unit, Ty::Usize, Ty::F32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: &str, b: (), c: usize, d: f32), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::StrRef, Ty::Bool, Ty::I8, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: &str, b: bool, c: i8, d: &str), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::StrRef, Ty::F64, Ty::StrRef, Ty::U8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: &str, b: f64, c: &str, d: u8), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::StrRef, Ty::I16, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: &str, b: i16, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::StrRef, Ty::StrRef, Ty::Str, Ty::U16], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: &str, b: &str, c: String, d: u16), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::StrRef, Ty::StrRef, Ty::I32, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: &str, b: &str, c: i32, d: &str), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::StrRef, Ty::StrRef, Ty::StrRef, Ty::List], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: &str, b: &str, c: &str, d: Vec<Value>), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::StrRef, Ty::StrRef, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: &str, b: &str, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::U32, Ty::I64, Ty::Map, Ty::U64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: u32, b: i64, c: BTreeMap<String, Value>, d: u64), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::I128, Ty::Value, Ty::U128, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: i128, b: Value, c: u128, d: &str), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::Isize, Ty::Unit, Ty::StrRef, Ty::Usize], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: isize, b: (), c: &str, d: usize), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::F32, Ty::Bool, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: f32, b: bool, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::I8, Ty::StrRef, Ty::F64, Ty::U8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: i8, b: &str, c: f64, d: u8), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::I16, Ty::StrRef, Ty::Str, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: i16, b: &str, c: String, d: &str), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::U16, Ty::StrRef, Ty::StrRef, Ty::I32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: u16, b: &str, c: &str, d: i32), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::List, Ty::StrRef, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: Vec<Value>, b: &str, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::StrRef, Ty::U32, Ty::I64, Ty::Map], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: &str, b: u32, c: i64, d: BTreeMap<String, Value>), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::StrRef, Ty::U64, Ty::I128, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: &str, b: u64, c: i128, d: &str), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::StrRef, Ty::Value, Ty::StrRef, Ty::U128], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: &str, b: Value, c: &str, d: u128), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::StrRef, Ty::Isize, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: &str, b: isize, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::StrRef, Ty::StrRef, Ty::Unit, Ty::Usize], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: &str, b: &str, c: (), d: usize), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::StrRef, Ty::StrRef, Ty::F32, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: &str, b: &str, c: f32, d: &str), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::StrRef, Ty::StrRef, Ty::StrRef, Ty::Bool], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: &str, b: &str, c: &str, d: bool), result: Shape::List },
    Filter { params: &[Ty::MapRef, Ty::StrRef, Ty::StrRef, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &BTreeMap<String, Value>, a: &str, b: &str, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::I8, Ty::F64, Ty::U8, Ty::I16], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: i8, b: f64, c: u8, d: i16), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::Str, Ty::U16, Ty::I32, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: String, b: u16, c: i32, d: &str), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::List, Ty::U32, Ty::StrRef, Ty::I64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: Vec<Value>, b: u32, c: &str, d: i64), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::Map, Ty::U64, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: BTreeMap<String, Value>, b: u64, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::I128, Ty::StrRef, Ty::Value, Ty::U128], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: i128, b: &str, c: Value, d: u128), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::Isize, Ty::StrRef, Ty::Unit, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: isize, b: &str, c: (), d: &str), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::Usize, Ty::StrRef, Ty::StrRef, Ty::F32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: usize, b: &str, c: &str, d: f32), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::Bool, Ty::StrRef, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: bool, b: &str, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::StrRef, Ty::I8, Ty::F64, Ty::U8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: &str, b: i8, c: f64, d: u8), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::StrRef, Ty::I16, Ty::Str, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: &str, b: i16, c: String, d: &str), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::StrRef, Ty::U16, Ty::StrRef, Ty::I32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: &str, b: u16, c: &str, d: i32), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::StrRef, Ty::List, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: &str, b: Vec<Value>, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::StrRef, Ty::StrRef, Ty::U32, Ty::I64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: &str, b: &str, c: u32, d: i64), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::StrRef, Ty::StrRef, Ty::Map, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: &str, b: &str, c: BTreeMap<String, Value>, d: &str), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::StrRef, Ty::StrRef, Ty::StrRef, Ty::U64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: &str, b: &str, c: &str, d: u64), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::StrRef, Ty::StrRef, Ty::StrRef, Ty::StrRef], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: &str, b: &str, c: &str, d: &str), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::Unit], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: ()), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::U16, Ty::Bool], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: u16, b: bool), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::U8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: u8), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::I16, Ty::U16], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: i16, b: u16), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::U32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: u32), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::F64, Ty::U64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: f64, b: u64), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::U128], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: u128), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::Bool, Ty::Usize], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: bool, b: usize), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::I8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: i8), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::Usize, Ty::I16], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: usize, b: i16), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::I32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: i32), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::Isize, Ty::I64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: isize, b: i64), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::I128], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: i128), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::Value, Ty::Isize], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: Value, b: isize), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::F32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: f32), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::U64, Ty::F64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: u64, b: f64), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::Str], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: String), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::I64, Ty::List], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: i64, b: Vec<Value>), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::Map], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: BTreeMap<String, Value>), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::List, Ty::Value], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: Vec<Value>, b: Value), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::Bool, Ty::Unit], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: bool, c: ()), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::U16, Ty::Value, Ty::Bool], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: u16, b: Value, c: bool), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::Usize, Ty::U8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: usize, c: u8), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::I16, Ty::Value, Ty::U16], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: i16, b: Value, c: u16), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::Isize, Ty::U32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: isize, c: u32), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::F64, Ty::Value, Ty::U64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: f64, b: Value, c: u64), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::Value, Ty::U128], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: Value, c: u128), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::Bool, Ty::Value, Ty::Usize], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: bool, b: Value, c: usize), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::U64, Ty::I8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: u64, c: i8), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::Usize, Ty::Value, Ty::I16], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: usize, b: Value, c: i16), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::I64, Ty::I32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: i64, c: i32), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::Isize, Ty::Value, Ty::I64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: isize, b: Value, c: i64), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::List, Ty::I128], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: Vec<Value>, c: i128), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::Value, Ty::Value, Ty::Isize], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: Value, b: Value, c: isize), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::U16, Ty::F32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: u16, c: f32), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::U64, Ty::Value, Ty::F64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: u64, b: Value, c: f64), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::I16, Ty::Str], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: i16, c: String), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::I64, Ty::Value, Ty::List], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: i64, b: Value, c: Vec<Value>), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::F64, Ty::Map], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: f64, c: BTreeMap<String, Value>), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::List, Ty::Value, Ty::Value], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: Vec<Value>, b: Value, c: Value), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::Bool, Ty::Value, Ty::Unit], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: bool, c: Value, d: ()), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::U16, Ty::Value, Ty::U64, Ty::Bool], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: u16, b: Value, c: u64, d: bool), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::Usize, Ty::Value, Ty::U8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: usize, c: Value, d: u8), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::I16, Ty::Value, Ty::I64, Ty::U16], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: i16, b: Value, c: i64, d: u16), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::Isize, Ty::Value, Ty::U32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: isize, c: Value, d: u32), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::F64, Ty::Value, Ty::List, Ty::U64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: f64, b: Value, c: Vec<Value>, d: u64), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::Value, Ty::Value, Ty::U128], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: Value, c: Value, d: u128), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::Bool, Ty::Value, Ty::U16, Ty::Usize], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: bool, b: Value, c: u16, d: usize), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::U64, Ty::Value, Ty::I8], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: u64, c: Value, d: i8), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::Usize, Ty::Value, Ty::I16, Ty::I16], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: usize, b: Value, c: i16, d: i16), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::I64, Ty::Value, Ty::I32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: i64, c: Value, d: i32), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::Isize, Ty::Value, Ty::F64, Ty::I64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: isize, b: Value, c: f64, d: i64), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::List, Ty::Value, Ty::I128], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: Vec<Value>, c: Value, d: i128), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::Value, Ty::Value, Ty::Bool, Ty::Isize], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: Value, b: Value, c: bool, d: isize), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::U16, Ty::Value, Ty::F32], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: u16, c: Value, d: f32), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::U64, Ty::Value, Ty::Usize, Ty::F64], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: u64, b: Value, c: usize, d: f64), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::I16, Ty::Value, Ty::Str], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: i16, c: Value, d: String), result: Shape::List },
    Filter { params: &[Ty::ListRef, Ty::I64, Ty::Value, Ty::Isize, Ty::List], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &[Value], a: i64, b: Value, c: isize, d: Vec<Value>), result: Shape::List },
    Filter { params: &[Ty::Value, Ty::Value, Ty::F64, Ty::Value, Ty::Map], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: Value, a: Value, b: f64, c: Value, d: BTreeMap<String, Value>), result: Shape::List },
    Filter { params: &[Ty::ValueRef, Ty::List, Ty::Value, Ty::Value, Ty::Value], run: |a| Ok(Value::List(a.to_vec())), reg: reg_filter!(v: &Value, a: Vec<Value>, b: Value, c: Value, d: Value), result: Shape::List },
];
