//! The filters and formatters registered by the checks: each has one pure
//! definition that serves the model, and a registration that records its calls.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write;

use upon::{Engine, Value};

use crate::model::{show, Event};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Unit,
    Bool,
    U8,
    U16,
    U32,
    U64,
    U128,
    Usize,
    I8,
    I16,
    I32,
    I64,
    I128,
    Isize,
    F32,
    F64,
    Str,
    StrRef,
    List,
    ListRef,
    Map,
    MapRef,
    Value,
    ValueRef,
}

thread_local! {
    pub static LOG: RefCell<Option<Vec<Event>>> = const { RefCell::new(None) };
}

pub fn log_start() {
    LOG.with(|l| *l.borrow_mut() = Some(vec![]));
}

pub fn log_take() -> Vec<Event> {
    LOG.with(|l| l.borrow_mut().take().unwrap_or_default())
}

pub fn log(e: impl FnOnce() -> Event) {
    LOG.with(|l| {
        if let Some(v) = l.borrow_mut().as_mut() {
            v.push(e());
        }
    })
}

/// Conversion of what a filter received back to a value.
pub trait ToV {
    fn to_v(self) -> Value;
}
macro_rules! tov {
    ($($t:ty => $p:pat => $e:expr),+ $(,)?) => { $(impl ToV for $t { fn to_v(self) -> Value { let $p = self; $e } })+ };
}
tov! {
    () => _ => Value::None,
    bool => b => Value::Bool(b),
    u8 => n => Value::Integer(n as i64),
    u16 => n => Value::Integer(n as i64),
    u32 => n => Value::Integer(n as i64),
    u64 => n => i64::try_from(n).map(Value::Integer).unwrap_or(Value::String(format!("u64 {n}"))),
    u128 => n => i64::try_from(n).map(Value::Integer).unwrap_or(Value::String(format!("u128 {n}"))),
    usize => n => i64::try_from(n).map(Value::Integer).unwrap_or(Value::String(format!("usize {n}"))),
    i8 => n => Value::Integer(n as i64),
    i16 => n => Value::Integer(n as i64),
    i32 => n => Value::Integer(n as i64),
    i64 => n => Value::Integer(n),
    i128 => n => i64::try_from(n).map(Value::Integer).unwrap_or(Value::String(format!("i128 {n}"))),
    isize => n => Value::Integer(n as i64),
    f32 => x => Value::Float(x as f64),
    f64 => x => Value::Float(x),
    String => s => Value::String(s),
    &str => s => Value::String(s.to_string()),
    Vec<Value> => l => Value::List(l),
    &[Value] => l => Value::List(l.to_vec()),
    BTreeMap<String, Value> => m => Value::Map(m),
    &BTreeMap<String, Value> => m => Value::Map(m.clone()),
    Value => v => v,
    &Value => v => v.clone(),
}

pub type Run = fn(&[Value]) -> Result<Value, String>;

#[derive(Clone, Copy)]
pub struct Filter {
    pub params: &'static [Ty],
    pub run: Run,
    pub reg: fn(&mut Engine<'_>, String, Run) -> Option<upon::EngineFn>,
    /// A result on typical arguments, for the generators.
    pub result: Shape,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Shape {
    Same,
    Scalar,
    List,
    Map,
    Fails,
}

#[derive(Clone, Copy)]
pub enum Func {
    Filter(Filter),
    Formatter(Fmt),
}

pub type FuncSet = BTreeMap<String, Func>;

/// The formatters.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fmt {
    /// The library's built-in default, not recorded.
    Builtin,
    /// The library's default called from a user function.
    Wrapped,
    /// Unambiguous form of any value.
    Show,
    /// Built-in form of anything, in several small writes.
    Bang,
    Nothing,
    ErrMsg,
    ErrPlain,
    /// Fails for none, after having written something.
    ErrNone,
    /// Reports a failing write by a message of its own.
    Remap,
}

pub enum FmtErr {
    Msg(String),
    Plain,
}

impl From<std::fmt::Error> for FmtErr {
    fn from(_: std::fmt::Error) -> Self {
        FmtErr::Plain
    }
}

fn plain<W: Write>(w: &mut W, v: &Value) -> Result<(), FmtErr> {
    match v {
        Value::None => {}
        Value::Bool(true) => w.write_str("true")?,
        Value::Bool(false) => w.write_str("false")?,
        Value::Integer(n) => w.write_str(&n.to_string())?,
        Value::Float(x) => w.write_str(&x.to_string())?,
        Value::String(s) => w.write_str(s)?,
        _ => return Err(FmtErr::Msg("?".into())),
    }
    Ok(())
}

impl Fmt {
    pub const NAMED: &'static [(&'static str, Fmt)] = &[
        ("plainly", Fmt::Wrapped),
        ("show", Fmt::Show),
        ("bang", Fmt::Bang),
        ("nothing", Fmt::Nothing),
        ("ferr", Fmt::ErrMsg),
        ("ferr0", Fmt::ErrPlain),
        ("some_only", Fmt::ErrNone),
        ("remap", Fmt::Remap),
    ];

    pub fn is_recorded(self) -> bool {
        self != Fmt::Builtin
    }

    /// Shared by the model and the registered functions, except for the
    /// library's default, which the model spells out itself.
    fn write<W: Write>(self, w: &mut W, v: &Value) -> Result<(), FmtErr> {
        match self {
            Fmt::Builtin | Fmt::Wrapped => plain(w, v),
            Fmt::Show => {
                w.write_str(&show(v))?;
                Ok(())
            }
            Fmt::Bang => {
                for c in show(v).chars() {
                    w.write_char(c)?;
                }
                write!(w, "{}{}", '!', "¡")?;
                Ok(())
            }
            Fmt::Nothing => Ok(()),
            Fmt::Remap => {
                let t = show(v);
                w.write_str(&t).map_err(|_| FmtErr::Msg("remapped".into()))?;
                w.write_char('.').map_err(|_| FmtErr::Msg("remapped".into()))
            }
            Fmt::ErrMsg => Err(FmtErr::Msg(grumble(v))),
            Fmt::ErrPlain => Err(FmtErr::Plain),
            Fmt::ErrNone => {
                w.write_str("<")?;
                match v {
                    Value::None => Err(FmtErr::Msg("no none please".into())),
                    v => {
                        w.write_str(&show(v))?;
                        Ok(())
                    }
                }
            }
        }
    }

    /// The model: `Err(Some(message))`; the message of the library's default is
    /// not specified, which is expressed by an empty message.
    pub fn run(self, buf: &mut String, v: &Value) -> Result<(), Option<String>> {
        self.write(buf, v).map_err(|e| match e {
            FmtErr::Msg(_) if matches!(self, Fmt::Builtin | Fmt::Wrapped) => Some(String::new()),
            FmtErr::Msg(m) => Some(m),
            FmtErr::Plain => None,
        })
    }

    fn real(self, name: &str, f: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result {
        log(|| Event::Format(name.to_string(), show(v)));
        if self == Fmt::Wrapped {
            return upon::fmt::default(f, v);
        }
        self.write(f, v).map_err(|e| match e {
            FmtErr::Msg(m) => upon::fmt::Error::from(m),
            FmtErr::Plain => upon::fmt::Error::from(std::fmt::Error),
        })
    }

    pub fn register(self, e: &mut Engine<'_>, name: String) -> Option<upon::EngineFn> {
        let n = name.clone();
        e.add_formatter(name, move |f: &mut upon::fmt::Formatter<'_>, v: &Value| {
            self.real(&n, f, v)
        })
    }

    pub fn set_default(self, e: &mut Engine<'_>) {
        macro_rules! set {
            ($k:ident) => {{
                fn d(f: &mut upon::fmt::Formatter<'_>, v: &Value) -> upon::fmt::Result {
                    Fmt::$k.real("", f, v)
                }
                e.set_default_formatter(&d)
            }};
        }
        match self {
            Fmt::Builtin => {}
            Fmt::Wrapped => set!(Wrapped),
            Fmt::Show => set!(Show),
            Fmt::Bang => set!(Bang),
            Fmt::Nothing => set!(Nothing),
            Fmt::ErrMsg => set!(ErrMsg),
            Fmt::ErrPlain => set!(ErrPlain),
            Fmt::ErrNone => set!(ErrNone),
            Fmt::Remap => set!(Remap),
        }
    }
}

#[macro_export]
macro_rules! reg_filter {
    ($($p:ident: $t:ty),+) => {
        |e: &mut ::upon::Engine<'_>, name: String, run: $crate::funcs::Run| {
            let n = name.clone();
            e.add_filter(name, move |$($p: $t),+| -> Result<::upon::Value, String> {
                let vals = [$($crate::funcs::ToV::to_v($p)),+];
                $crate::funcs::log(|| $crate::model::Event::Filter(n.clone(), vals.iter().map($crate::model::show).collect()));
                run(&vals)
            })
        }
    };
}

fn int(v: &Value) -> i64 {
    match v {
        Value::Integer(n) => *n,
        _ => 0,
    }
}

fn text(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        v => show(v),
    }
}

/// The message of a function that fails: any text at all.
fn grumble(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::List(l) if l.len() > 1 => l.iter().map(grumble).collect::<Vec<_>>().join("\n"),
        v => format!("boom on {}", show(v)),
    }
}

/// The general-purpose functions.
pub fn standard() -> FuncSet {
    use Shape::*;
    let mut m = FuncSet::new();
    macro_rules! f {
        ($name:literal, [$($p:ident: $t:ty = $k:ident),+], $shape:expr, $run:expr) => {
            m.insert($name.to_string(), Func::Filter(Filter {
                params: &[$(Ty::$k),+],
                run: $run,
                reg: reg_filter!($($p: $t),+),
                result: $shape,
            }));
        };
    }
    f!("id", [v: Value = Value], Same, |a| Ok(a[0].clone()));
    f!("len", [v: &Value = ValueRef], Scalar, |a| match &a[0] {
        Value::String(s) => Ok(Value::Integer(s.chars().count() as i64)),
        Value::List(l) => Ok(Value::Integer(l.len() as i64)),
        Value::Map(m) => Ok(Value::Integer(m.len() as i64)),
        v => Err(format!("no length: {}", show(v))),
    });
    f!("text", [v: &Value = ValueRef], Scalar, |a| Ok(Value::String(show(&a[0]))));
    f!("upper", [v: &str = StrRef], Scalar, |a| Ok(Value::String(text(&a[0]).to_uppercase())));
    f!("lower", [v: String = Str], Scalar, |a| Ok(Value::String(text(&a[0]).to_lowercase())));
    f!("inc", [v: i64 = I64], Scalar, |a| Ok(Value::Integer(int(&a[0]).wrapping_add(1))));
    f!("inv", [v: bool = Bool], Scalar, |a| Ok(Value::Bool(!truthy_bool(&a[0]))));
    f!("keys", [v: &BTreeMap<String, Value> = MapRef], List, |a| match &a[0] {
        Value::Map(m) => Ok(Value::List(m.keys().map(|k| Value::String(k.clone())).collect())),
        _ => Err("not a map".into()),
    });
    f!("vals", [v: BTreeMap<String, Value> = Map], List, |a| match &a[0] {
        Value::Map(m) => Ok(Value::List(m.values().cloned().collect())),
        _ => Err("not a map".into()),
    });
    f!("rev", [v: Vec<Value> = List], List, |a| match &a[0] {
        Value::List(l) => Ok(Value::List(l.iter().rev().cloned().collect())),
        _ => Err("not a list".into()),
    });
    f!("first", [v: &[Value] = ListRef], Scalar, |a| match &a[0] {
        Value::List(l) => Ok(l.first().cloned().unwrap_or(Value::None)),
        _ => Err("not a list".into()),
    });
    f!("tolist", [v: Value = Value], List, |a| Ok(Value::List(vec![
        a[0].clone(),
        Value::None,
        a[0].clone()
    ])));
    f!("tomap", [v: Value = Value], Map, |a| Ok(Value::Map(BTreeMap::from([
        ("a".to_string(), a[0].clone()),
        ("b".to_string(), Value::Integer(2)),
        ("名".to_string(), Value::String("n".into())),
    ]))));
    f!("upto", [v: u8 = U8], List, |a| Ok(Value::List(
        (0..int(&a[0]).min(5)).map(Value::Integer).collect()
    )));
    f!("void", [v: Value = Value], Scalar, |_| Ok(Value::None));
    f!("boom", [v: Value = Value], Fails, |a| Err(grumble(&a[0])));
    f!("add", [v: i64 = I64, a: i64 = I64], Scalar, |a| Ok(Value::Integer(
        int(&a[0]).wrapping_add(int(&a[1]))
    )));
    f!("append", [v: String = Str, a: &str = StrRef], Scalar, |a| Ok(Value::String(
        format!("{}{}", text(&a[0]), text(&a[1]))
    )));
    f!("or", [v: Value = Value, a: Value = Value], Scalar, |a| Ok(match &a[0] {
        Value::None => a[1].clone(),
        v => v.clone(),
    }));
    f!("eq", [v: &Value = ValueRef, a: Value = Value], Scalar, |a| Ok(Value::Bool(
        crate::model::same(&a[0], &a[1])
    )));
    f!("pair", [v: Value = Value, a: Value = Value], List, |a| Ok(Value::List(a.to_vec())));
    f!("boomif", [v: Value = Value, a: bool = Bool], Scalar, |a| match &a[1] {
        Value::Bool(true) => Err(grumble(&a[0])),
        _ => Ok(a[0].clone()),
    });
    f!("triple", [v: Value = Value, a: Value = Value, b: Value = Value], List, |a| Ok(Value::List(a.to_vec())));
    f!("quad", [v: Value = Value, a: Value = Value, b: Value = Value, c: Value = Value], List, |a| Ok(Value::List(a.to_vec())));
    f!("quint", [v: Value = Value, a: Value = Value, b: Value = Value, c: Value = Value, d: Value = Value], List, |a| Ok(Value::List(a.to_vec())));
    f!("mix", [v: Value = Value, a: i64 = I64, b: &str = StrRef], List, |a| Ok(Value::List(a.to_vec())));
    f!("mix4", [v: &Value = ValueRef, a: String = Str, b: u8 = U8, c: bool = Bool], List, |a| Ok(Value::List(a.to_vec())));
    f!("mix5", [v: Value = Value, a: f64 = F64, b: Vec<Value> = List, c: BTreeMap<String, Value> = Map, d: i32 = I32], List, |a| Ok(Value::List(a.to_vec())));
    for (name, k) in Fmt::NAMED {
        m.insert(name.to_string(), Func::Formatter(*k));
    }
    m
}

fn truthy_bool(v: &Value) -> bool {
    matches!(v, Value::Bool(true))
}

pub fn register(e: &mut Engine<'_>, set: &FuncSet) {
    for (name, f) in set {
        match f {
            Func::Filter(f) => {
                (f.reg)(e, name.clone(), f.run);
            }
            Func::Formatter(f) => {
                f.register(e, name.clone());
            }
        }
    }
}
