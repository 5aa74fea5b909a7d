//! C17: conversion of data to values, against an independent mirror.

use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;

use serde::ser::{
    Error as _, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant, Serializer,
};
use upon::Value;

use crate::gen;
use crate::model::{same, show, Kind};
use crate::run::{Case, Prop, Res};
use crate::src::Src;
use crate::uut::{guard, see};

/// The length announced for a sequence or map.
#[derive(Clone, Copy, Debug)]
enum Hint {
    None,
    Exact,
    Less,
    More(usize),
}

impl Hint {
    fn any(s: &mut Src) -> Hint {
        match s.below(6) {
            0 | 1 => Hint::Exact,
            2 | 3 => Hint::None,
            4 => Hint::Less,
            _ => Hint::More(s.range(1, 9)),
        }
    }

    fn of(self, n: usize) -> Option<usize> {
        match self {
            Hint::None => None,
            Hint::Exact => Some(n),
            Hint::Less => Some(n / 2),
            Hint::More(k) => Some(n + k),
        }
    }
}

/// Data that uses every part of serde's data model.
#[derive(Clone, Debug)]
enum Data {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Display(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Data>),
    Unit,
    UnitStruct,
    UnitVariant(&'static str),
    Newtype(Box<Data>),
    NewtypeVariant(&'static str, Box<Data>),
    Seq(Vec<Data>, Hint),
    Tuple(Vec<Data>),
    TupleStruct(Vec<Data>),
    TupleVariant(&'static str, Vec<Data>),
    Map(Vec<(Data, Data)>, bool, Hint),
    Struct(Vec<(&'static str, Data)>),
    StructVariant(&'static str, Vec<(&'static str, Data)>),
    Value(Value),
    Fail(String),
    // Types of the standard library.
    StdTuple((i8, String, Option<bool>)),
    StdMap(HashMap<u16, Vec<i64>>),
    StdAddr(std::net::Ipv4Addr),
    StdResult(Result<i32, String>),
    StdNested(Vec<Option<BTreeMap<String, char>>>),
}

impl Serialize for Data {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use Data::*;
        match self {
            Bool(x) => s.serialize_bool(*x),
            I8(x) => s.serialize_i8(*x),
            I16(x) => s.serialize_i16(*x),
            I32(x) => s.serialize_i32(*x),
            I64(x) => s.serialize_i64(*x),
            I128(x) => s.serialize_i128(*x),
            U8(x) => s.serialize_u8(*x),
            U16(x) => s.serialize_u16(*x),
            U32(x) => s.serialize_u32(*x),
            U64(x) => s.serialize_u64(*x),
            U128(x) => s.serialize_u128(*x),
            F32(x) => s.serialize_f32(*x),
            F64(x) => s.serialize_f64(*x),
            Char(x) => s.serialize_char(*x),
            Str(x) => s.serialize_str(x),
            Display(x) => s.collect_str(&format_args!("<{x}>")),
            Bytes(x) => s.serialize_bytes(x),
            None => s.serialize_none(),
            Some(x) => s.serialize_some(x),
            Unit => s.serialize_unit(),
            UnitStruct => s.serialize_unit_struct("UnitStruct"),
            UnitVariant(n) => s.serialize_unit_variant("Enum", 1, n),
            Newtype(x) => s.serialize_newtype_struct("Newtype", x),
            NewtypeVariant(n, x) => s.serialize_newtype_variant("Enum", 2, n, x),
            Seq(l, hint) => {
                let mut q = s.serialize_seq(hint.of(l.len()))?;
                for x in l {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Tuple(l) => {
                let mut q = s.serialize_tuple(l.len())?;
                for x in l {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            TupleStruct(l) => {
                let mut q = s.serialize_tuple_struct("TupleStruct", l.len())?;
                for x in l {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            TupleVariant(n, l) => {
                let mut q = s.serialize_tuple_variant("Enum", 3, n, l.len())?;
                for x in l {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Map(m, entries, hint) => {
                let mut q = s.serialize_map(hint.of(m.len()))?;
                for (k, v) in m {
                    if *entries {
                        q.serialize_entry(k, v)?;
                    } else {
                        q.serialize_key(k)?;
                        q.serialize_value(v)?;
                    }
                }
                q.end()
            }
            Struct(m) => {
                let mut q = s.serialize_struct("Struct", m.len())?;
                for (k, v) in m {
                    q.serialize_field(k, v)?;
                }
                q.skip_field("skipped")?;
                q.end()
            }
            StructVariant(n, m) => {
                let mut q = s.serialize_struct_variant("Enum", 4, n, m.len())?;
                for (k, v) in m {
                    q.serialize_field(k, v)?;
                }
                q.skip_field("skipped")?;
                q.end()
            }
            Value(v) => v.serialize(s),
            Fail(m) => Err(S::Error::custom(m)),
            StdTuple(x) => x.serialize(s),
            StdMap(x) => x.serialize(s),
            StdAddr(x) => x.serialize(s),
            StdResult(x) => x.serialize(s),
            StdNested(x) => x.serialize(s),
        }
    }
}

fn st(t: &str) -> Value {
    Value::String(t.into())
}
fn int(n: impl Into<i64>) -> Value {
    Value::Integer(n.into())
}

/// The value that mirrors the data; `Err` with the message, if it is known.
fn mirror(d: &Data) -> Result<Value, Option<String>> {
    use Data as D;
    let list = |l: &[Data]| -> Result<Value, Option<String>> {
        l.iter().map(mirror).collect::<Result<Vec<_>, _>>().map(Value::List)
    };
    let fields = |m: &[(&'static str, Data)]| -> Result<Value, Option<String>> {
        let mut out = BTreeMap::new();
        for (k, v) in m {
            out.insert(k.to_string(), mirror(v)?);
        }
        Ok(Value::Map(out))
    };
    let only = |n: &str, v: Value| Value::Map(BTreeMap::from([(n.to_string(), v)]));
    Ok(match d {
        D::Bool(b) => Value::Bool(*b),
        D::I8(n) => int(*n),
        D::I16(n) => int(*n),
        D::I32(n) => int(*n),
        D::I64(n) => int(*n),
        D::U8(n) => int(*n),
        D::U16(n) => int(*n),
        D::U32(n) => int(*n),
        D::U64(n) => match i64::try_from(*n) {
            Ok(n) => int(n),
            Err(_) => return Err(None),
        },
        D::I128(_) | D::U128(_) => return Err(None),
        D::F32(x) => Value::Float(*x as f64),
        D::F64(x) => Value::Float(*x),
        D::Char(c) => st(&c.to_string()),
        D::Str(t) => st(t),
        D::Display(t) => st(&format!("<{t}>")),
        D::Bytes(b) => Value::List(b.iter().map(|b| int(*b)).collect()),
        D::None | D::Unit | D::UnitStruct => Value::None,
        D::Some(x) | D::Newtype(x) => mirror(x)?,
        D::UnitVariant(n) => st(n),
        D::NewtypeVariant(n, x) => only(n, mirror(x)?),
        D::Seq(l, _) | D::Tuple(l) | D::TupleStruct(l) => list(l)?,
        D::TupleVariant(n, l) => only(n, list(l)?),
        D::Map(m, ..) => {
            let mut out = BTreeMap::new();
            for (k, v) in m {
                out.insert(key(k).ok_or(None)?, mirror(v)?);
            }
            Value::Map(out)
        }
        D::Struct(m) => fields(m)?,
        D::StructVariant(n, m) => only(n, fields(m)?),
        D::Value(v) => v.clone(),
        D::Fail(m) => return Err(Some(m.clone())),
        D::StdTuple((a, b, c)) => Value::List(vec![int(*a), st(b), match c {
            Some(c) => Value::Bool(*c),
            None => Value::None,
        }]),
        D::StdMap(m) => Value::Map(
            m.iter()
                .map(|(k, v)| (k.to_string(), Value::List(v.iter().map(|n| int(*n)).collect())))
                .collect(),
        ),
        D::StdAddr(a) => st(&a.to_string()),
        D::StdResult(Ok(n)) => only("Ok", int(*n)),
        D::StdResult(Err(e)) => only("Err", st(e)),
        D::StdNested(l) => Value::List(
            l.iter()
                .map(|o| match o {
                    None => Value::None,
                    Some(m) => Value::Map(m.iter().map(|(k, c)| (k.clone(), st(&c.to_string()))).collect()),
                })
                .collect(),
        ),
    })
}

/// The text of a map key that has one.
fn key(d: &Data) -> Option<String> {
    use Data as D;
    Some(match d {
        D::Str(t) => t.clone(),
        D::Display(t) => format!("<{t}>"),
        D::Char(c) => c.to_string(),
        D::I8(n) => n.to_string(),
        D::I16(n) => n.to_string(),
        D::I32(n) => n.to_string(),
        D::I64(n) => n.to_string(),
        D::U8(n) => n.to_string(),
        D::U16(n) => n.to_string(),
        D::U32(n) => n.to_string(),
        D::U64(n) => n.to_string(),
        D::UnitVariant(n) => n.to_string(),
        D::Newtype(x) => key(x)?,
        D::StdAddr(a) => a.to_string(),
        D::Value(Value::String(t)) => t.clone(),
        D::Value(Value::Integer(n)) => n.to_string(),
        _ => return None,
    })
}

const IDS: &[&str] = &["a", "b", "Variant", "name", "名前", "with space", "", "zz", "A"];

fn any_int(s: &mut Src) -> Data {
    let n = gen::int(s);
    match s.below(12) {
        0 => Data::I8(n as i8),
        1 => Data::I16(n as i16),
        2 => Data::I32(n as i32),
        3 | 4 => Data::I64(n),
        5 => Data::U8(n as u8),
        6 => Data::U16(n as u16),
        7 => Data::U32(n as u32),
        8 => Data::U64(n as u64 & i64::MAX as u64),
        9 => Data::U64(*s.of(&[i64::MAX as u64, 0, 1, u32::MAX as u64 + 1])),
        10 => s.of(&[Data::I64(i64::MIN), Data::I8(-128), Data::U8(255), Data::I16(-32768), Data::U32(u32::MAX)]).clone(),
        _ => Data::I32(n as i32),
    }
}

/// Something no value can hold.
fn misfit(s: &mut Src) -> Data {
    match s.below(6) {
        0 => Data::U64(i64::MAX as u64 + 1 + s.draw(0) % (i64::MAX as u64)),
        1 => Data::I128(gen::int(s) as i128),
        2 => Data::U128(gen::int(s) as u64 as u128),
        3 => Data::Fail(gen::string(s)),
        4 => Data::U64(*s.of(&[i64::MAX as u64 + 1, u64::MAX])),
        _ => Data::Map(vec![(bad_key(s), Data::Unit)], s.coin(), Hint::any(s)),
    }
}

fn good_key(s: &mut Src) -> Data {
    match s.below(10) {
        0..=3 => Data::Str(gen::string(s)),
        4 if s.odds(1, 4) => Data::U64(*s.of(&[u64::MAX, i64::MAX as u64 + 1, i64::MAX as u64])),
        4 => any_int(s),
        5 => Data::Char(gen::ch(s)),
        6 => Data::UnitVariant(id(s)),
        7 => Data::Newtype(Box::new(good_key(s))),
        8 => Data::Display(gen::string(s)),
        _ => Data::StdAddr(std::net::Ipv4Addr::from(s.draw(0) as u32)),
    }
}

fn bad_key(s: &mut Src) -> Data {
    match s.below(17) {
        0 => Data::Bool(s.coin()),
        1 => Data::F32(1.0),
        2 => Data::F64(gen::float(s)),
        3 => Data::Bytes(b"ab".to_vec()),
        4 => Data::None,
        5 => Data::Some(Box::new(Data::Str("k".into()))),
        6 => Data::Unit,
        7 => Data::UnitStruct,
        8 => Data::NewtypeVariant("v", Box::new(Data::Str("k".into()))),
        9 => Data::Seq(vec![], Hint::Exact),
        10 => Data::Tuple(vec![Data::Str("k".into())]),
        11 => Data::TupleStruct(vec![]),
        12 => Data::TupleVariant("v", vec![]),
        13 => Data::Map(vec![], true, Hint::Exact),
        14 => Data::Struct(vec![]),
        15 => Data::StructVariant("v", vec![]),
        _ => Data::I128(5),
    }
}

/// A name, which serde wants to live forever.
fn id(s: &mut Src) -> &'static str {
    use std::sync::OnceLock;
    static WORDS: OnceLock<Vec<&'static str>> = OnceLock::new();
    if let Some(n) = s.number_of_word(1, 6) {
        let all = WORDS.get_or_init(|| crate::dict::get().words.iter().map(|w| &*w.clone().leak()).collect());
        return all[n];
    }
    s.pick(IDS)
}

fn data(s: &mut Src, depth: usize, bad: u64) -> Data {
    if s.odds(bad, 1000) {
        return misfit(s);
    }
    let bx = |s: &mut Src| Box::new(data(s, depth.saturating_sub(1), bad));
    let many = |s: &mut Src| -> Vec<Data> {
        if s.rare(300) {
            let n = s.size(&[16, 17, 64, 65, 255, 256, 257, 1025], 3_000);
            return (0..n).map(|i| Data::I16(i as i16)).collect();
        }
        let n = s.below(4);
        (0..n).map(|_| data(s, depth - 1, bad)).collect()
    };
    let fields = |s: &mut Src| -> Vec<(&'static str, Data)> {
        let n = s.below(4);
        let mut m: Vec<(&'static str, Data)> = vec![];
        for _ in 0..n {
            let k = id(s);
            m.push((k, data(s, depth - 1, bad)));
        }
        m
    };
    let deep = if depth == 0 { 0 } else { 12 };
    match s.below(20 + deep) {
        0..=4 => any_int(s),
        5 => Data::Bool(s.coin()),
        6 => Data::F64(gen::float(s)),
        7 => Data::F32(if s.coin() { gen::float(s) as f32 } else { f32::from_bits(s.draw(0) as u32) }),
        8 => Data::Char(gen::ch(s)),
        9 | 10 => Data::Str(gen::string(s)),
        11 => Data::Display(gen::string(s)),
        12 => Data::Bytes({
            let n = s.below(5);
            (0..n).map(|_| s.draw(256) as u8).collect()
        }),
        13 => s.of(&[Data::None, Data::Unit, Data::UnitStruct]).clone(),
        14 => Data::UnitVariant(id(s)),
        15 => Data::Value(gen::value(s, depth.min(2))),
        16 => match s.below(5) {
            0 => Data::StdTuple((s.draw(256) as i8, gen::string(s), if s.coin() { Some(s.coin()) } else { None })),
            1 => Data::StdMap({
                let n = s.below(3);
                (0..n).map(|_| (s.draw(65536) as u16, vec![gen::int(s)])).collect()
            }),
            2 => Data::StdAddr(std::net::Ipv4Addr::from(s.draw(0) as u32)),
            3 => Data::StdResult(if s.coin() { Ok(gen::int(s) as i32) } else { Err(gen::string(s)) }),
            _ => Data::StdNested(vec![None, Some(BTreeMap::from([(gen::key(s), gen::ch(s))]))]),
        },
        17 | 18 => Data::Some(bx(s)),
        19 => Data::Newtype(bx(s)),
        20 => Data::NewtypeVariant(id(s), bx(s)),
        21 | 22 => Data::Seq(many(s), Hint::any(s)),
        23 => Data::Tuple(many(s)),
        24 => Data::TupleStruct(many(s)),
        25 => Data::TupleVariant(id(s), many(s)),
        26..=28 => {
            let n = s.below(4);
            let mut m: Vec<(Data, Data)> = vec![];
            for _ in 0..n {
                let k = if s.odds(bad, 1000) {
                    bad_key(s)
                } else if !m.is_empty() && s.odds(1, 4) {
                    // The last of two equal keys wins, as when inserting.
                    match (s.of(&m).0.clone(), s.coin()) {
                        (k, true) => key(&k).map(Data::Str).unwrap_or(k),
                        (k, false) => k,
                    }
                } else {
                    good_key(s)
                };
                m.push((k, data(s, depth - 1, bad)));
            }
            Data::Map(m, s.coin(), Hint::any(s))
        }
        29 | 30 => Data::Struct(fields(s)),
        _ => Data::StructVariant(id(s), fields(s)),
    }
}

fn c17(s: &mut Src, case: &mut Case) -> Res {
    if s.odds(1, 5) {
        return direct(s, case);
    }
    let bad = *s.of(&[0, 0, 60]);
    let d = data(s, 4, bad);
    let exp = mirror(&d);
    case.say(|| format!("data {d:?}\nexpected {}", match &exp {
        Ok(v) => show(v),
        Err(m) => format!("a serialize error {m:?}"),
    }));
    let check = |got: Result<Value, upon::Error>, how: &str| -> Result<Option<Value>, String> {
        match (&exp, got) {
            (Ok(v), Ok(got)) => {
                if !same(v, &got) {
                    return Err(format!("{how}: {} instead of {}", show(&got), show(v)));
                }
                Ok(Some(got))
            }
            (Err(_), Err(err)) => {
                if see(&err)?.kind != Kind::Serialize {
                    return Err(format!("{how}: expected a serialize error, got {err:#}"));
                }
                Ok(None)
            }
            (Ok(_), Err(err)) => Err(format!("{how} failed: {err:#}")),
            (Err(_), Ok(got)) => Err(format!("{how}: unrepresentable data became {}", show(&got))),
        }
    };
    let v = check(guard("to_value", || upon::to_value(&d))?, "to_value")?;
    if let (Err(Some(m)), Data::Fail(_)) = (&exp, &d) {
        // A custom error says what it was given.
        let text = upon::to_value(&d).unwrap_err().to_string();
        if !text.contains(m.as_str()) {
            return Err(format!("the message {m:?} is missing in {text:?}"));
        }
    }
    if let Some(v) = v {
        let again = guard("to_value", || upon::to_value(&v))?.map_err(|e| format!("converting a value failed: {e:#}"))?;
        if !same(&v, &again) {
            return Err(format!("converting {} again gives {}", show(&v), show(&again)));
        }
        let again = guard("to_value", || upon::to_value(v.clone()))?.map_err(|e| format!("converting a value failed: {e:#}"))?;
        if !same(&v, &again) {
            return Err(format!("converting {} again gives {}", show(&v), show(&again)));
        }
    }
    // To another format.
    if let Ok(v) = &exp {
        outwards(s, v)?;
    }
    // Through a renderer.
    if s.odds(1, 4) {
        let mut e = upon::Engine::new();
        e.add_filter("show", |v: &Value| show(v));
        let t = e.compile("{{ x | show }}").map_err(|e| format!("{e:#}"))?;
        let got = guard("rendering", || t.render(&e, Data::Struct(vec![("x", d.clone())])).to_string())?;
        match (&exp, got) {
            (Ok(v), Ok(out)) if out == show(v) => {}
            (Err(_), Err(err)) if see(&err)?.kind == Kind::Serialize => {}
            (_, got) => return Err(format!("rendered: {got:?}")),
        }
        case.label("through a renderer");
    }
    case.label(if exp.is_ok() { "representable" } else { "not representable" });
    let text = format!("{d:?}");
    for (n, l) in [
        ("Map(", "map"),
        ("Struct(", "struct"),
        ("Variant(", "enum variant"),
        ("Bytes(", "bytes"),
        ("Tuple", "tuple"),
        ("F32(", "32-bit float"),
    ] {
        case.label_if(text.contains(n), l);
    }
    case.key(&text);
    case.nontrivial = text.len() > 12;
    Ok(())
}

/// Another serializer is told what the value is.
fn outwards(s: &mut Src, v: &Value) -> Res {
    use super::outward::{Fore, Stop};
    let left = std::cell::Cell::new(usize::MAX);
    let to = Fore { left: &left, human: s.coin() };
    let got = guard("serializing a value", || v.serialize(to))?;
    match got {
        Ok(got) if same(v, &got) => {}
        Ok(got) => return Err(format!("another serializer is given {}, expected {}", show(&got), show(v))),
        Err(e) => return Err(format!("another serializer is given something unexpected: {e}")),
    }
    // It fails at any point.
    let calls = usize::MAX - left.get();
    let stop = s.below(calls);
    left.set(stop);
    match guard("serializing a value", || v.serialize(to))? {
        Err(Stop::Full) => Ok(()),
        other => Err(format!("a serializer that failed after {stop} of {calls} calls gives {other:?}")),
    }
}

// ---------------------------------------------------------------- direct

fn both<T: Into<Value> + Serialize + Clone + Debug>(x: T, exp: Value) -> Res {
    let a: Value = guard("From", || x.clone().into())?;
    if !same(&a, &exp) {
        return Err(format!("{x:?} converts to {}, expected {}", show(&a), show(&exp)));
    }
    let b = guard("to_value", || upon::to_value(&x))?.map_err(|e| format!("{x:?} fails: {e:#}"))?;
    if !same(&b, &exp) {
        return Err(format!("{x:?} serializes to {}, expected {}", show(&b), show(&exp)));
    }
    Ok(())
}

fn direct(s: &mut Src, case: &mut Case) -> Res {
    let n = gen::int(s);
    let t = gen::string(s);
    let x = gen::float(s);
    let k = s.below(22);
    case.say(|| format!("direct conversion {k} of {n}, {t:?}, {x:?}"));
    case.label("direct conversion");
    case.key(&format!("{k} {n} {t} {x:?}"));
    case.nontrivial = true;
    let len = s.below(4);
    let ns: Vec<i64> = (0..len).map(|_| gen::int(s)).collect();
    let ts: Vec<String> = (0..len).map(|_| gen::string(s)).collect();
    let l = |v: Vec<Value>| Value::List(v);
    let m = |v: Vec<(&str, Value)>| Value::Map(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    match k {
        0 => both((), Value::None),
        1 => both(n > 0, Value::Bool(n > 0)),
        2 => both(n as u8, int(n & 0xff)),
        3 => both(n as u16, int(n & 0xffff)),
        4 => both(n as u32, int(n & 0xffff_ffff)),
        5 => both(n as i8, int(n << 56 >> 56)),
        6 => both(n as i16, int(n << 48 >> 48)),
        7 => both(n as i32, int(n << 32 >> 32)),
        8 => both(n, int(n)),
        9 => both(x as f32, Value::Float((x as f32) as f64)),
        10 => both(x, Value::Float(x)),
        11 => both(t.clone(), st(&t)),
        12 => both(t.as_str(), st(&t)),
        13 => both(Cow::Borrowed(t.as_str()), st(&t)),
        14 => both(ns.clone(), l(ns.iter().map(|n| int(*n)).collect())),
        15 => both([t.clone(), String::new()], l(vec![st(&t), st("")])),
        16 => both(
            ts.iter().cloned().zip(ns.iter().copied()).collect::<BTreeMap<_, _>>(),
            Value::Map(ts.iter().cloned().zip(ns.iter().map(|n| int(*n))).collect()),
        ),
        17 => both(
            ts.iter().cloned().zip(ns.iter().copied()).collect::<HashMap<_, _>>(),
            Value::Map(ts.iter().cloned().zip(ns.iter().map(|n| int(*n))).collect()),
        ),
        18 => {
            both(Some(n), int(n))?;
            both(None::<i64>, Value::None)?;
            both(Some(vec![Some(t.clone()), None]), l(vec![st(&t), Value::None]))
        }
        19 => {
            let a = Value::from([("k", n), ("a", 1)]);
            let exp = m(vec![("a", int(1)), ("k", int(n))]);
            if !same(&a, &exp) {
                return Err(format!("an array of pairs becomes {}, expected {}", show(&a), show(&exp)));
            }
            let a = Value::from([(t.clone(), n), ("a".to_string(), 1), (t.clone(), 2)]);
            let mut exp = m(vec![("a", int(1))]);
            if let Value::Map(m) = &mut exp {
                m.insert(t.clone(), int(2));
            }
            if !same(&a, &exp) {
                return Err(format!("an array of pairs becomes {}, expected {}", show(&a), show(&exp)));
            }
            Ok(())
        }
        20 => {
            let a: Value = ns.iter().copied().collect();
            let b: Value = ts.iter().cloned().zip(ns.iter().copied()).collect();
            let ea = l(ns.iter().map(|n| int(*n)).collect());
            let eb = Value::Map(ts.iter().cloned().zip(ns.iter().map(|n| int(*n))).collect());
            if !same(&a, &ea) || !same(&b, &eb) {
                return Err(format!("collecting gives {} and {}, expected {} and {}", show(&a), show(&b), show(&ea), show(&eb)));
            }
            Ok(())
        }
        _ => {
            let v = gen::value(s, 3);
            case.key(&show(&v));
            let a = Value::from(vec![v.clone()]);
            let r: &Value = v.as_ref();
            if !same(&a, &l(vec![v.clone()])) || !same(r, &v) || v.clone() != v && !show(&v).contains("NaN") {
                return Err(format!("{} is not kept", show(&v)));
            }
            // Inside everything that converts.
            let w = gen::scalar(s);
            let all = [
                ("Some", Value::from(Some(v.clone())), v.clone()),
                ("Some list", Value::from(Some(vec![v.clone()])), l(vec![v.clone()])),
                ("Some text", Value::from(Some(t.as_str())), st(&t)),
                ("Some empty list", Value::from(Some(ns.clone())), l(ns.iter().map(|n| int(*n)).collect())),
                ("Some map", Value::from(Some(ts.iter().cloned().map(|t| (t, v.clone())).collect::<BTreeMap<_, _>>())),
                    Value::Map(ts.iter().cloned().map(|t| (t, v.clone())).collect())),
                ("HashMap", Value::from(ts.iter().cloned().map(|t| (t, v.clone())).collect::<HashMap<_, _>>()),
                    Value::Map(ts.iter().cloned().map(|t| (t, v.clone())).collect())),
                ("array", Value::from([w.clone(), v.clone(), w.clone()]), l(vec![w.clone(), v.clone(), w.clone()])),
                ("empty array", Value::from(<[Value; 0]>::default()), l(vec![])),
                ("array of pairs", Value::from([("b", v.clone()), ("a", w.clone())]), m(vec![("a", w.clone()), ("b", v.clone())])),
                ("collected", [w.clone(), v.clone()].into_iter().collect(), l(vec![w.clone(), v.clone()])),
                ("collected options", [Some(v.clone()), None].into_iter().collect(), l(vec![v.clone(), Value::None])),
                ("collected pairs", [("k", v.clone()), ("k", w.clone()), ("j", v.clone())].into_iter().collect(),
                    m(vec![("j", v.clone()), ("k", w.clone())])),
                ("Cow", Value::from(Cow::<str>::Owned(t.clone())), st(&t)),
            ];
            for (how, got, exp) in &all {
                if !same(got, exp) {
                    return Err(format!("{how}: {} instead of {}", show(got), show(exp)));
                }
            }
            if !matches!(Value::default(), Value::None) {
                return Err("the default value is not none".into());
            }
            Ok(())
        }
    }
}

const P: &[Prop] = &[Prop {
    id: "C17",
    case: c17,
    rule: "data over every method of serde's data model, including unrepresentable parts, every direct conversion, and values given to a foreign serializer that may fail at any call; non-trivial: the debug form of the data is longer than 12 bytes",
    assumptions: &["map keys that are integers, characters or unit variants become their text", "the last of two equal keys of a map wins, as when they are inserted one by one"],
    quick: 4_000_000,
    thorough: 200_000_000,
    once: None,
}];
pub static PROPS: &[&Prop] = &[&P[0]];
