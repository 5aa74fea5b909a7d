//! C14: filter signatures, decided without the reference model.

use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};

use upon::{Engine, Value};

use crate::funcs::{self, FuncSet, Ty};
use crate::gen::{self, Gen, Prof};
use crate::model::{show, Kind};
use crate::props::scene::pick_funcs;
use crate::props::sigs::SIGS;
use crate::run::{Case, Prop, Res};
use crate::src::Src;
use crate::uut::{guard, see};

thread_local! {
    static FUNCS: FuncSet = pick_funcs(&["id", "show"]);
}

/// What the parameter receives.
fn accept(t: Ty, v: &Value) -> Option<Value> {
    let range = |lo: i128, hi: i128| match v {
        Value::Integer(n) if lo <= *n as i128 && *n as i128 <= hi => Some(v.clone()),
        _ => None,
    };
    let when = |ok: bool| if ok { Some(v.clone()) } else { None };
    match t {
        Ty::Value | Ty::ValueRef => when(true),
        Ty::Unit => when(matches!(v, Value::None)),
        Ty::Bool => when(matches!(v, Value::Bool(_))),
        Ty::Str | Ty::StrRef => when(matches!(v, Value::String(_))),
        Ty::List | Ty::ListRef => when(matches!(v, Value::List(_))),
        Ty::Map | Ty::MapRef => when(matches!(v, Value::Map(_))),
        Ty::F64 => when(matches!(v, Value::Float(_))),
        Ty::F32 => match v {
            Value::Float(x) => Some(Value::Float(*x as f32 as f64)),
            _ => None,
        },
        Ty::U8 => range(0, 0xff),
        Ty::U16 => range(0, 0xffff),
        Ty::U32 => range(0, 0xffff_ffff),
        Ty::U64 | Ty::U128 | Ty::Usize => range(0, i128::MAX),
        Ty::I8 => range(-0x80, 0x7f),
        Ty::I16 => range(-0x8000, 0x7fff),
        Ty::I32 => range(-0x8000_0000, 0x7fff_ffff),
        Ty::I64 | Ty::I128 | Ty::Isize => range(i128::MIN, i128::MAX),
    }
}

/// A value of the type, if there is one; edges of the range included.
fn fitting(s: &mut Src, t: Ty) -> Value {
    let edge = |s: &mut Src, lo: i64, hi: i64| -> Value {
        Value::Integer(match s.below(6) {
            0 => lo,
            1 => hi,
            2 => lo / 2 + hi / 2,
            3 => 0.clamp(lo, hi),
            4 => {
                // Just outside.
                if s.coin() {
                    lo.saturating_sub(1)
                } else {
                    hi.saturating_add(1)
                }
            }
            _ => {
                let n = gen::int(s);
                if (lo..=hi).contains(&n) {
                    n
                } else {
                    1
                }
            }
        })
    };
    match t {
        Ty::Unit => Value::None,
        Ty::Bool => Value::Bool(s.coin()),
        Ty::U8 => edge(s, 0, 0xff),
        Ty::U16 => edge(s, 0, 0xffff),
        Ty::U32 => edge(s, 0, 0xffff_ffff),
        Ty::U64 | Ty::U128 | Ty::Usize => edge(s, 0, i64::MAX),
        Ty::I8 => edge(s, -0x80, 0x7f),
        Ty::I16 => edge(s, -0x8000, 0x7fff),
        Ty::I32 => edge(s, -0x8000_0000, 0x7fff_ffff),
        Ty::I64 | Ty::I128 | Ty::Isize => edge(s, i64::MIN, i64::MAX),
        Ty::F32 | Ty::F64 => Value::Float(gen::float(s)),
        Ty::Str | Ty::StrRef => Value::String(gen::string(s)),
        Ty::List | Ty::ListRef => Value::List(gen::list(s, 2)),
        Ty::Map | Ty::MapRef => Value::Map(gen::map(s, 2)),
        Ty::Value | Ty::ValueRef => gen::value(s, 2),
    }
}

fn spell(s: &mut Src, v: &Value) -> Option<String> {
    let funcs = FuncSet::new();
    let mut g = Gen::new(s, Prof::default(), &funcs, &Value::None);
    match v {
        Value::Bool(b) => Some(b.to_string()),
        Value::Integer(n) => Some(g.int_text(*n)),
        Value::Float(x) if x.is_finite() => Some(format!("{x:?}")),
        Value::String(t) => Some(g.str_text(t)),
        _ => None,
    }
}

#[derive(Default)]
struct Scope {
    ctx: BTreeMap<String, Value>,
    open: String,
    close: Vec<&'static str>,
    /// Spelling, value and whether it is a literal, of what came before.
    before: Vec<(String, Value, bool)>,
}

impl Scope {
    fn with(&mut self, what: String, name: String) {
        self.open.push_str(&format!("{{% with {what} as {name} %}}"));
        self.close.push("{% endwith %}");
    }
    fn each(&mut self, vars: String, what: String) {
        self.open.push_str(&format!("{{% for {vars} in {what} %}}"));
        self.close.push("{% endfor %}");
    }

    /// Makes the value available in some way; returns the spelling, and
    /// whether it is a literal.
    fn provide(&mut self, s: &mut Src, i: usize, v: Value, label: &mut Vec<&'static str>) -> (String, Value, bool) {
        let (p, q, w) = (format!("p{i}"), format!("q{i}"), format!("w{i}"));
        let own = if s.coin() { " | id" } else { "" };
        let one = |v: &Value| Value::List(vec![v.clone()]);
        let two = |v: &Value| Value::List(vec![Value::Integer(-1), v.clone()]);
        let key = |v: &Value| Value::Map(BTreeMap::from([("k".to_string(), v.clone())]));
        label.push(if own.is_empty() { "borrowed" } else { "computed" });
        let text = match s.below(12) {
            0..=3 => match spell(s, &v) {
                Some(t) => {
                    label.pop();
                    label.push("literal");
                    return (t, v, true);
                }
                None => {
                    self.ctx.insert(p.clone(), v.clone());
                    p
                }
            },
            4 => {
                self.ctx.insert(p.clone(), v.clone());
                p
            }
            5 => {
                self.ctx.insert(p.clone(), key(&two(&v)));
                format!("{p}.k.1")
            }
            6 => {
                self.ctx.insert(q.clone(), v.clone());
                self.with(format!("{q}{own}"), p.clone());
                p
            }
            7 => {
                self.ctx.insert(q.clone(), one(&v));
                self.each(p.clone(), format!("{q}{own}"));
                p
            }
            8 => {
                self.ctx.insert(q.clone(), key(&v));
                self.each(format!("{w}, {p}"), format!("{q}{own}"));
                p
            }
            9 => match &v {
                Value::String(t) => {
                    // A key of a map.
                    self.ctx.insert(q.clone(), Value::Map(BTreeMap::from([(t.clone(), Value::Integer(0))])));
                    self.each(format!("{p}, {w}"), format!("{q}{own}"));
                    p
                }
                Value::Bool(true) => {
                    self.ctx.insert(q.clone(), one(&v));
                    self.each(p, format!("{q}{own}"));
                    "loop.last".to_string()
                }
                Value::None => {
                    self.ctx.insert(q.clone(), key(&v));
                    format!("{q}?.nope")
                }
                _ => {
                    self.ctx.insert(q.clone(), v.clone());
                    q
                }
            },
            _ => {
                self.ctx.insert(q.clone(), two(&v));
                self.with(format!("{q}{own}"), w.clone());
                format!("{w}.1")
            }
        };
        (text, v, false)
    }
}

fn c14(s: &mut Src, case: &mut Case) -> Res {
    if s.odds(1, 5) {
        return returns(s, case);
    }
    let sig = s.of(SIGS);
    let mut sc = Scope::default();
    let mut vals = vec![];
    let mut labels = vec![];
    for (i, t) in sig.params.iter().enumerate() {
        if !sc.before.is_empty() && s.odds(1, 6) {
            // The same variable again; loop.last belongs to a loop that may no
            // longer be the innermost.
            let b = s.of(&sc.before).clone();
            if b.0 != "loop.last" {
                sc.before.push(b.clone());
                vals.push(b);
                labels.push("shared variable");
                continue;
            }
        }
        let v = if s.odds(9, 10) { fitting(s, *t) } else { gen::value(s, 2) };
        let x = sc.provide(s, i, v, &mut labels);
        sc.before.push(x.clone());
        vals.push(x);
    }
    // A loop opened later hides an earlier loop.last.
    let lasts = vals.iter().filter(|v| v.0 == "loop.last").count();
    if lasts > 0 {
        // All loops here have exactly one item, so it holds for each of them.
        case.label("loop metadata");
    }
    let pre = if s.odds(1, 4) { " | id" } else { "" };
    let args: Vec<&str> = vals[1..].iter().map(|v| v.0.as_str()).collect();
    let colon = if args.is_empty() { "" } else { ": " };
    let call = format!("{}{pre} | f{colon}{}", vals[0].0, args.join(", "));
    let root = format!(
        "{}{{{{ {call} | show }}}};{{{{ {call} | show }}}}{}",
        sc.open,
        sc.close.iter().rev().copied().collect::<String>()
    );
    let ctx = Value::Map(sc.ctx);
    case.say(|| format!("parameters {:?}\ntemplate {root:?}\ncontext {}", sig.params, show(&ctx)));
    let mut received = Some(vec![]);
    let mut may_fail = false;
    for (i, (t, v)) in sig.params.iter().zip(&vals).enumerate() {
        // A reference to something that is not a literal may be refused.
        if i > 0 && *t == Ty::StrRef && !v.2 {
            may_fail = true;
        }
        match (accept(*t, &v.1), &mut received) {
            (Some(x), Some(r)) => r.push(x),
            _ => received = None,
        }
    }
    case.say(|| match &received {
        Some(r) => format!("expected arguments {}", show(&Value::List(r.clone()))),
        None => "expected a render error".into(),
    });

    let mut e = Engine::new();
    FUNCS.with(|f| funcs::register(&mut e, f));
    (sig.reg)(&mut e, "f".into(), sig.run);
    let got = guard("rendering", || e.compile(root.as_str()).map(|t| t.render_from(&e, &ctx).to_string()))?
        .map_err(|e| format!("{root:?} was rejected: {e:#}"))?;
    match (&received, got) {
        (Some(r), Ok(out)) => {
            let x = show(&Value::List(r.clone()));
            if out != format!("{x};{x}") {
                return Err(format!("the filter received {out}\nexpected {x}, twice"));
            }
        }
        (Some(_), Err(err)) if !may_fail => return Err(format!("failed: {err:#}")),
        (_, Err(err)) => {
            if see(&err)?.kind != Kind::Render {
                return Err(format!("expected a render error, got {err:#}"));
            }
        }
        (None, Ok(out)) => return Err(format!("an unsuitable argument was accepted: {out}")),
    }
    for l in labels {
        case.label(l);
    }
    case.label(["", "arity 1", "arity 2", "arity 3", "arity 4", "arity 5"][vals.len()]);
    case.label_if(received.is_none(), "unsuitable argument");
    case.label_if(sig.params[1..].contains(&Ty::StrRef), "&str argument");
    case.key(&root);
    case.key(&format!("{:?}", sig.params));
    case.key(&show(&ctx));
    case.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------- returns

type Reg = fn(&mut Engine<'_>);
type Expect = fn(i64, &str) -> Result<Value, Option<String>>;

fn st(t: &str) -> Value {
    Value::String(t.into())
}
fn int(n: i64) -> Value {
    Value::Integer(n)
}
fn obj(kv: &[(&str, Value)]) -> Value {
    Value::Map(kv.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}

macro_rules! rets {
    ($(|$n:ident, $t:ident| $ty:ty { $e:expr } => $x:expr;)+) => {
        &[$((stringify!($ty), {
            fn reg(e: &mut Engine<'_>) {
                e.add_filter("f", |$n: i64, $t: String| -> $ty { let _ = (&$n, &$t); $e });
            }
            reg as Reg
        }, {
            fn exp($n: i64, $t: &str) -> Result<Value, Option<String>> { let _ = (&$n, &$t); $x }
            exp as Expect
        })),+]
    };
}

static RETS: &[(&str, Reg, Expect)] = rets! {
    |n, t| () { () } => Ok(Value::None);
    |n, t| bool { n % 2 == 0 } => Ok(Value::Bool(n % 2 == 0));
    |n, t| u8 { n as u8 } => Ok(int((n as u64 & 0xff) as i64));
    |n, t| u16 { n as u16 } => Ok(int((n as u64 & 0xffff) as i64));
    |n, t| u32 { n as u32 } => Ok(int((n as u64 & 0xffff_ffff) as i64));
    |n, t| i8 { n as i8 } => Ok(int(n << 56 >> 56));
    |n, t| i16 { n as i16 } => Ok(int(n << 48 >> 48));
    |n, t| i32 { n as i32 } => Ok(int(n << 32 >> 32));
    |n, t| i64 { n } => Ok(int(n));
    |n, t| f32 { n as f32 } => Ok(Value::Float(n as f32 as f64));
    |n, t| f64 { n as f64 / 3.0 } => Ok(Value::Float(n as f64 / 3.0));
    |n, t| String { t } => Ok(st(t));
    |n, t| &'static str { if n > 0 { "plus" } else { "" } } => Ok(st(if n > 0 { "plus" } else { "" }));
    |n, t| Cow<'static, str> { if n > 0 { Cow::Borrowed("plus") } else { Cow::Owned(t) } } => Ok(st(if n > 0 { "plus" } else { t }));
    |n, t| Vec<i64> { vec![n, 1, n] } => Ok(Value::List(vec![int(n), int(1), int(n)]));
    |n, t| Vec<String> { vec![t.clone(), String::new(), t] } => Ok(Value::List(vec![st(t), st(""), st(t)]));
    |n, t| Vec<Vec<u8>> { vec![vec![], vec![n as u8, 2]] } => Ok(Value::List(vec![Value::List(vec![]), Value::List(vec![int((n as u64 & 0xff) as i64), int(2)])]));
    |n, t| Vec<Value> { vec![Value::None, Value::Integer(n)] } => Ok(Value::List(vec![Value::None, int(n)]));
    |n, t| Vec<()> { vec![(); (n & 3) as usize] } => Ok(Value::List(vec![Value::None; (n & 3) as usize]));
    |n, t| [i64; 3] { [3, n, 1] } => Ok(Value::List(vec![int(3), int(n), int(1)]));
    |n, t| [String; 1] { [t] } => Ok(Value::List(vec![st(t)]));
    |n, t| BTreeMap<String, i64> { BTreeMap::from([(t, n), ("z".into(), 1)]) } => {
        Ok(if t == "z" { obj(&[("z", int(1))]) } else { obj(&[(t, int(n)), ("z", int(1))]) })
    };
    |n, t| BTreeMap<&'static str, bool> { BTreeMap::from([("b", n > 0), ("a", false)]) } => Ok(obj(&[("a", Value::Bool(false)), ("b", Value::Bool(n > 0))]));
    |n, t| HashMap<String, Vec<i64>> { HashMap::from([("x".into(), vec![n]), ("名".into(), vec![])]) } => Ok(obj(&[("x", Value::List(vec![int(n)])), ("名", Value::List(vec![]))]));
    |n, t| [(String, i64); 2] { [("q".into(), n), ("p".into(), 1)] } => Ok(obj(&[("p", int(1)), ("q", int(n))]));
    |n, t| [(&'static str, String); 1] { [("k", t)] } => Ok(obj(&[("k", st(t))]));
    |n, t| Option<i64> { if n > 0 { Some(n) } else { None } } => Ok(if n > 0 { int(n) } else { Value::None });
    |n, t| Option<String> { if n > 0 { Some(t) } else { None } } => Ok(if n > 0 { st(t) } else { Value::None });
    |n, t| Option<Vec<Option<bool>>> { Some(vec![None, Some(n > 0)]) } => Ok(Value::List(vec![Value::None, Value::Bool(n > 0)]));
    |n, t| Value { Value::List(vec![Value::String(t)]) } => Ok(Value::List(vec![st(t)]));
    |n, t| BTreeMap<String, Value> { BTreeMap::from([("v".to_string(), Value::Float(0.5))]) } => Ok(obj(&[("v", Value::Float(0.5))]));
    |n, t| Result<i64, String> { if n > 0 { Ok(n) } else { Err(t) } } => if n > 0 { Ok(int(n)) } else { Err(Some(t.to_string())) };
    |n, t| Result<String, &'static str> { if n > 0 { Ok(t) } else { Err("static 名\nmessage") } } => if n > 0 { Ok(st(t)) } else { Err(Some("static 名\nmessage".into())) };
    |n, t| Result<Option<u8>, String> { if n > 0 { Ok(None) } else { Err(format!("no {n}")) } } => if n > 0 { Ok(Value::None) } else { Err(Some(format!("no {n}"))) };
    |n, t| Result<(), String> { if n > 0 { Ok(()) } else { Err(t) } } => if n > 0 { Ok(Value::None) } else { Err(Some(t.to_string())) };
    |n, t| Result<Value, String> { Ok(Value::String(t)) } => Ok(st(t));
};

fn returns(s: &mut Src, case: &mut Case) -> Res {
    let (ty, reg, exp) = s.of(RETS);
    let (n, t) = (gen::int(s), gen::string(s));
    let exp = exp(n, &t);
    let mut e = Engine::new();
    FUNCS.with(|f| funcs::register(&mut e, f));
    reg(&mut e);
    let ctx = obj(&[("n", int(n)), ("t", st(&t))]);
    let root = *s.of(&[
        "{{ n | f: t | show }}",
        "{% with n | f: t as r %}{{ r | show }}{% endwith %}",
        "{{ n | f: t | id | show }}",
    ]);
    case.say(|| format!("a filter returning {ty} of {n} and {t:?}\n{root}\nexpected {exp:?}"));
    let got = guard("rendering", || e.compile(root).map(|x| x.render_from(&e, &ctx).to_string()))?
        .map_err(|e| format!("rejected: {e:#}"))?;
    match (exp, got) {
        (Ok(v), Ok(out)) => {
            if out != show(&v) {
                return Err(format!("a result of type {ty} became {out}, expected {}", show(&v)));
            }
        }
        (Err(m), Err(err)) => {
            let seen = see(&err)?;
            if seen.kind != Kind::Filter || (m != Some(String::new()) && seen.reason != m) {
                return Err(format!("expected a filter error with {m:?}, got {err:#}"));
            }
        }
        (e, g) => return Err(format!("a result of type {ty}: expected {e:?}, got {g:?}")),
    }
    case.label("return conversion");
    case.key(&format!("{ty} {n} {t} {root}"));
    case.nontrivial = true;
    Ok(())
}

const P: &[Prop] = &[Prop {
    id: "C14",
    case: c14,
    rule: "255 filters covering every combination of owned and borrowed parameters of every arity, with literal, borrowed and computed arguments at and beyond the edges of the types, and 36 return types; every case is non-trivial, counted by distinct template, signature and data",
    assumptions: &["a `&str` argument that is not written as a literal may be refused with a render error", "a 32-bit float receives the nearest value"],
    quick: 600_000,
    thorough: 60_000_000,
    once: None,
}];
pub static PROPS: &[&Prop] = &[&P[0]];
