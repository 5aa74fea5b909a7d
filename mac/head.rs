#![recursion_limit = "512"]
#![allow(unused, uncommon_codepoints, mixed_script_confusables)]
use serde::ser::{Error as _, Serialize, SerializeStruct, Serializer};
use std::cell::RefCell;
use std::collections::BTreeMap;
use upon::Value;

thread_local! {
    static LOG: RefCell<Vec<u32>> = const { RefCell::new(vec![]) };
}
/// An expression with an effect.
fn n<T>(id: u32, x: T) -> T {
    LOG.with(|l| l.borrow_mut().push(id));
    x
}
fn two<A, B>(a: A, _: B) -> A {
    a
}
struct S<A> {
    f: A,
    g: &'static str,
}
impl<A: Serialize> Serialize for S<A> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let mut s = z.serialize_struct("S", 2)?;
        s.serialize_field("f", &self.f)?;
        s.serialize_field("g", self.g)?;
        s.end()
    }
}
struct Bad;
impl Serialize for Bad {
    fn serialize<Z: Serializer>(&self, _: Z) -> Result<Z::Ok, Z::Error> {
        Err(Z::Error::custom("bad"))
    }
}
const K: i64 = 7;
fn show(v: &Value) -> String {
    match v {
        Value::None => "~".into(),
        Value::Bool(b) => b.to_string(),
        Value::Integer(n) => n.to_string(),
        Value::Float(n) => format!("{n:?}"),
        Value::String(x) => format!("{x:?}"),
        Value::List(l) => format!("[{}]", l.iter().map(show).collect::<Vec<_>>().join(",")),
        Value::Map(m) => format!(
            "<{}>",
            m.iter().map(|(k, x)| format!("{k:?}={}", show(x))).collect::<Vec<_>>().join(",")
        ),
    }
}
fn run(id: usize, f: fn() -> Value) {
    LOG.with(|l| l.borrow_mut().clear());
    let r = std::panic::catch_unwind(f);
    let log = LOG.with(|l| {
        let mut v = l.borrow().clone();
        v.sort();
        v
    });
    match r {
        Ok(v) => println!("{id}\t{}\t{log:?}", show(&v)),
        Err(_) => println!("{id}\tpanic"),
    }
}
