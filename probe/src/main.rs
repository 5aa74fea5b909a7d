//! Compiles and renders what it is sent, under one set of the crate's features.
//! Fields are preceded by their length; see `props/features.rs` for the other side.

use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::{self, Read, Write};
use std::sync::atomic::{AtomicU32, Ordering};

use upon::{fmt, Engine, Value};

fn field(r: &mut impl Read) -> Option<Vec<u8>> {
    let mut n = [0; 4];
    r.read_exact(&mut n).ok()?;
    let mut b = vec![0; u32::from_le_bytes(n) as usize];
    r.read_exact(&mut b).ok()?;
    Some(b)
}

fn text(r: &mut impl Read) -> Option<String> {
    String::from_utf8(field(r)?).ok()
}

fn value(r: &mut impl Read) -> Option<Value> {
    let b = field(r)?;
    fn go(b: &[u8], at: &mut usize) -> Value {
        let tag = b[*at];
        *at += 1;
        fn num(b: &[u8], at: &mut usize) -> u64 {
            let n = u64::from_le_bytes(b[*at..*at + 8].try_into().unwrap());
            *at += 8;
            n
        }
        fn string(b: &[u8], at: &mut usize) -> String {
            let n = num(b, at) as usize;
            *at += n;
            String::from_utf8(b[*at - n..*at].to_vec()).unwrap()
        }
        // Every variant is built by its conversion.
        match tag {
            0 => Value::from(()),
            1 => Value::from(num(b, at) != 0),
            2 => Value::from(num(b, at) as i64),
            3 => Value::from(f64::from_bits(num(b, at))),
            4 => Value::from(string(b, at)),
            5 => {
                let n = num(b, at);
                Value::from((0..n).map(|_| go(b, at)).collect::<Vec<Value>>())
            }
            _ => {
                let n = num(b, at);
                let mut m = BTreeMap::new();
                for _ in 0..n {
                    let k = string(b, at);
                    m.insert(k, go(b, at));
                }
                Value::from(m)
            }
        }
    }
    Some(go(&b, &mut 0))
}

/// The message of a function that fails: any text at all.
fn grumble(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::List(l) if l.len() > 1 => l.iter().map(grumble).collect::<Vec<_>>().join("\n"),
        v => format!("boom on {}", show(v)),
    }
}

fn show(v: &Value) -> String {
    match v {
        Value::None => "~".into(),
        Value::Bool(b) => b.to_string(),
        Value::Integer(n) => n.to_string(),
        Value::Float(n) if n.is_nan() => "NaN".into(),
        Value::Float(n) => format!("{n:?}"),
        Value::String(x) => format!("{x:?}"),
        Value::List(l) => format!("[{}]", l.iter().map(show).collect::<Vec<_>>().join(",")),
        Value::Map(m) => format!(
            "<{}>",
            m.iter().map(|(k, x)| format!("{k:?}={}", show(x))).collect::<Vec<_>>().join(",")
        ),
    }
}

fn show_fmt(f: &mut fmt::Formatter<'_>, v: &Value) -> fmt::Result {
    f.write_str(&show(v))?;
    Ok(())
}

fn engine<'a>(pairs: &'a [(String, String)], names: &[&str]) -> Engine<'a> {
    let mut e = if pairs.iter().all(|(a, _)| a.is_empty()) {
        Engine::new()
    } else {
        let mut b = upon::Syntax::builder();
        if !pairs[0].0.is_empty() {
            b.expr(&pairs[0].0, &pairs[0].1);
        }
        if !pairs[1].0.is_empty() {
            b.block(&pairs[1].0, &pairs[1].1);
        }
        if !pairs[2].0.is_empty() {
            b.comment(&pairs[2].0, &pairs[2].1);
        }
        Engine::with_syntax(b.build())
    };
    macro_rules! add {
        ($add:ident, $name:literal, $f:expr) => {
            if names.contains(&$name) {
                e.$add($name, $f);
            }
        };
    }
    add!(add_formatter, "show", show_fmt);
    add!(add_formatter, "plainly", |f: &mut fmt::Formatter<'_>, v: &Value| fmt::default(f, v));
    add!(add_formatter, "nothing", |_: &mut fmt::Formatter<'_>, _: &Value| Ok(()));
    add!(add_formatter, "ferr", |_: &mut fmt::Formatter<'_>, v: &Value| {
        Err(fmt::Error::from(grumble(v)))
    });
    #[cfg(feature = "filters")]
    {
        add!(add_filter, "id", |v: Value| v);
        add!(add_filter, "text", |v: &Value| show(v));
        add!(add_filter, "inc", |n: i64| n.wrapping_add(1));
        add!(add_filter, "tolist", |v: Value| vec![v.clone(), Value::None, v]);
        add!(add_filter, "pair", |v: Value, a: Value| vec![v, a]);
        add!(add_filter, "or", |v: Value, a: Value| if let Value::None = v { a } else { v });
        add!(add_filter, "boom", |v: Value| -> Result<Value, String> { Err(grumble(&v)) });
    }
    e
}

fn put(out: &mut Vec<u8>, s: &str) {
    out.extend_from_slice(&(s.len() as u32).to_le_bytes());
    out.extend_from_slice(s.as_bytes());
}

fn fail(out: &mut Vec<u8>, at: &str, e: &upon::Error) {
    put(out, at);
    put(out, &format!("{e}"));
    put(out, &format!("{e:#}"));
}

/// Half seconds that the current case has taken; 0 between cases.
static CASE: AtomicU32 = AtomicU32::new(0);

fn case(r: &mut impl Read) -> Option<Vec<u8>> {
    let show_default = text(r)? == "show";
    CASE.store(1, Ordering::Relaxed);
    let names = text(r)?;
    let names: Vec<&str> = names.split(' ').collect();
    let root = text(r)?;
    let n: usize = text(r)?.parse().ok()?;
    let mut templates = vec![];
    for _ in 0..n {
        templates.push((text(r)?, text(r)?));
    }
    let mut pairs = vec![];
    for _ in 0..3 {
        pairs.push((text(r)?, text(r)?));
    }
    let ctx = value(r)?;
    let mut out = vec![];
    let mut e = engine(&pairs, &names);
    if show_default {
        e.set_default_formatter(&show_fmt);
    }
    for (n, t) in templates {
        if let Err(err) = e.add_template(n, t) {
            fail(&mut out, "compile", &err);
            return Some(out);
        }
    }
    let t = match e.compile(root.as_str()) {
        Ok(t) => t,
        Err(err) => {
            fail(&mut out, "compile", &err);
            return Some(out);
        }
    };
    let first = t.render_from(&e, &ctx).to_string();
    #[cfg(feature = "serde")]
    {
        let second = t.render(&e, &ctx).to_string();
        let (a, b) = (
            first.as_ref().map_err(|e| format!("{e:#}")),
            second.as_ref().map_err(|e| format!("{e:#}")),
        );
        if a != b {
            put(&mut out, "differs");
            put(&mut out, &format!("{a:?}"));
            put(&mut out, &format!("{b:?}"));
            return Some(out);
        }
    }
    // The same to a writer.
    let mut bytes = vec![];
    let third = t.render_from(&e, &ctx).to_writer(&mut bytes);
    let a = first.as_ref().map(|s| s.clone().into_bytes()).map_err(|e| format!("{e:#}"));
    let b = third.map(|()| bytes).map_err(|e| format!("{e:#}"));
    if a != b {
        put(&mut out, "differs");
        put(&mut out, &format!("{a:?}"));
        put(&mut out, &format!("{b:?}"));
        return Some(out);
    }
    match first {
        Ok(s) => {
            put(&mut out, "ok");
            put(&mut out, &s);
            put(&mut out, "");
        }
        Err(err) => fail(&mut out, "render", &err),
    }
    Some(out)
}

fn main() {
    let (mut r, mut w) = (io::BufReader::new(io::stdin().lock()), io::stdout().lock());
    std::panic::set_hook(Box::new(|_| ()));
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        // One case takes far too long.
        if CASE.load(Ordering::Relaxed) != 0 && CASE.fetch_add(1, Ordering::Relaxed) > 30 {
            std::process::exit(86);
        }
    });
    loop {
        CASE.store(0, Ordering::Relaxed);
        // A panic ends the process, which the other side sees.
        let Some(out) = case(&mut r) else { return };
        if w.write_all(&out).and_then(|_| w.flush()).is_err() {
            return;
        }
    }
}
