//! The reference model: an independent reading of the template language.
pub mod interp;
pub mod parse;

pub use interp::*;
pub use parse::*;

use upon::Value;

/// Structural equality of values; floats are equal if they are the same number
/// or both not a number, and zeros must agree in sign.
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::None, Value::None) => true,
        (Value::Bool(a), Value::Bool(b)) => a == b,
        (Value::Integer(a), Value::Integer(b)) => a == b,
        (Value::Float(a), Value::Float(b)) => {
            a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
        }
        (Value::String(a), Value::String(b)) => a == b,
        (Value::List(a), Value::List(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b))
        }
        (Value::Map(a), Value::Map(b)) => {
            a.len() == b.len()
                && a.iter()
                    .zip(b)
                    .all(|((k, a), (l, b))| k == l && same(a, b))
        }
        _ => false,
    }
}

/// An unambiguous textual form of any value.
pub fn show(v: &Value) -> String {
    let mut s = String::new();
    show_into(v, &mut s);
    s
}

fn show_into(v: &Value, s: &mut String) {
    use std::fmt::Write;
    match v {
        Value::None => s.push('~'),
        Value::Bool(b) => write!(s, "{b}").unwrap(),
        Value::Integer(n) => write!(s, "{n}").unwrap(),
        Value::Float(n) if n.is_nan() => s.push_str("NaN"),
        Value::Float(n) => write!(s, "{n:?}").unwrap(),
        Value::String(x) => write!(s, "{x:?}").unwrap(),
        Value::List(l) => {
            s.push('[');
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                show_into(x, s);
            }
            s.push(']');
        }
        Value::Map(m) => {
            s.push('<');
            for (i, (k, x)) in m.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                write!(s, "{k:?}=").unwrap();
                show_into(x, s);
            }
            s.push('>');
        }
    }
}

pub fn truthy(v: &Value) -> bool {
    match v {
        Value::None => false,
        Value::Bool(b) => *b,
        Value::Integer(n) => *n != 0,
        Value::Float(x) => !(*x == 0.0),
        Value::String(s) => !s.is_empty(),
        Value::List(l) => !l.is_empty(),
        Value::Map(m) => !m.is_empty(),
    }
}

pub fn type_name(v: &Value) -> &'static str {
    match v {
        Value::None => "none",
        Value::Bool(_) => "bool",
        Value::Integer(_) => "integer",
        Value::Float(_) => "float",
        Value::String(_) => "string",
        Value::List(_) => "list",
        Value::Map(_) => "map",
    }
}
