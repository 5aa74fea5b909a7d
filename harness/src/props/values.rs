//! Properties of the smallest expressions: literals and paths, decided without
//! the reference model.

use std::collections::BTreeMap;

use upon::Value;

use crate::funcs::{FuncSet, Ty};
use crate::gen;
use crate::model::{self, same, show, truthy, Kind};
use crate::props::scene::pick_funcs;
use crate::run::{Case, Prop, Res};
use crate::src::Src;
use crate::uut::{guard, see};
use crate::{funcs, reg_filter};

// ------------------------------------------------------------------ C05

/// What a spelling denotes.
#[derive(Clone, Debug)]
enum Means {
    Is(Value),
    Reject,
    /// A decimal integer outside the range: rejected, or a float near it.
    Huge(f64),
}

fn under(s: &mut Src, digits: String) -> String {
    if !s.odds(1, 4) {
        return digits;
    }
    let mut out = String::new();
    let n = digits.len();
    for (i, c) in digits.chars().enumerate() {
        out.push(c);
        if i + 1 < n && s.odds(1, 3) {
            out.push_str(s.pick(&["_", "__"]));
        }
    }
    out
}

fn flip_case(s: &mut Src, t: String) -> String {
    if s.coin() {
        return t;
    }
    t.chars()
        .map(|c| if s.coin() { c.to_ascii_uppercase() } else { c })
        .collect()
}

fn int_spelling(s: &mut Src) -> (String, Means, &'static str) {
    let n: i128 = match s.below(5) {
        0 => gen::int(s) as i128,
        1 => i64::MAX as i128 - 2 + s.below(5) as i128,
        2 => -(i64::MIN as i128 + 2) - s.below(5) as i128,
        3 => {
            let k = s.below(70) as u32;
            let off = s.below(3) as i128 - 1;
            (1i128 << k) + off
        }
        _ => {
            // More digits than fit.
            let k = s.below(63) as u32;
            (s.draw(0) as i128) << k >> s.below(40)
        }
    };
    let n = if s.odds(1, 3) { -n } else { n };
    let a = n.unsigned_abs();
    let radix = s.below(5);
    let digits = match radix {
        0 | 1 => format!("{a}"),
        2 => format!("{a:b}"),
        3 => format!("{a:o}"),
        _ => {
            let t = format!("{a:x}");
            flip_case(s, t)
        }
    };
    let zeros = if s.odds(1, 8) { "0".repeat(if s.odds(1, 6) { s.range(4, 90) } else { s.range(1, 3) }) } else { String::new() };
    let zeros = if radix < 2 && a == 0 { String::new() } else { zeros };
    let digits = under(s, format!("{zeros}{digits}"));
    let prefix = ["", "", "0b", "0o", "0x"][radix];
    let sign = if n < 0 {
        "-"
    } else if s.odds(1, 6) {
        "+"
    } else if n == 0 && s.odds(1, 6) {
        "-"
    } else {
        ""
    };
    let gap = if !sign.is_empty() && s.odds(1, 4) { s.pick(&[" ", "\t", "  "]) } else { "" };
    let text = format!("{sign}{gap}{prefix}{digits}");
    match i64::try_from(n) {
        Ok(v) => (text, Means::Is(Value::Integer(v)), "integer"),
        Err(_) if radix >= 2 => (text, Means::Reject, "integer out of range"),
        Err(_) => (text, Means::Huge(n as f64), "decimal out of range"),
    }
}

/// An integer literal with a character that is no digit of its base.
fn bad_int(s: &mut Src) -> (String, Means, &'static str) {
    let (prefix, good, bad): (&str, &str, &str) = match s.below(4) {
        0 => ("0b", "01", "23456789afzG"),
        1 => ("0o", "01234567", "89abzG"),
        2 => ("0x", "0123456789abcdefABCDEF", "gzGhZ"),
        _ => ("", "123456789", "abcfgxyzGX"),
    };
    let good: Vec<char> = good.chars().collect();
    let bad: Vec<char> = bad.chars().collect();
    let n = s.range(1, 6);
    let at = s.below(n + 1);
    let mut t = String::new();
    for i in 0..=n {
        if i == at {
            // A decimal has to begin with a digit to be a number at all.
            if i == 0 && prefix.is_empty() {
                t.push('7');
            }
            t.push(*s.of(&bad));
        }
        if i < n {
            t.push(*s.of(&good));
        }
    }
    let sign = s.pick(&["", "", "-", "+"]);
    let text = format!("{sign}{prefix}{t}");
    // 7e5 and the like are floats.
    if text.trim_start_matches(['-', '+']).parse::<f64>().is_ok() {
        return ("7f".into(), Means::Reject, "invalid digit");
    }
    (text, Means::Reject, "invalid digit")
}

fn float_spelling(s: &mut Src) -> (String, Means, &'static str) {
    if s.coin() {
        let mut f = gen::float(s);
        if !f.is_finite() {
            f = 0.5;
        }
        let a = f.abs();
        let t = match s.below(3) {
            0 => format!("{a:?}"),
            1 => format!("{a:e}"),
            _ => format!("{a:E}"),
        };
        let t = if t.contains(['.', 'e', 'E']) { t } else { format!("{t}.0") };
        let sign = if f.is_sign_negative() { "-" } else { s.pick(&["", "", "+"]) };
        let gap = if !sign.is_empty() && s.odds(1, 6) { " " } else { "" };
        return (format!("{sign}{gap}{t}"), Means::Is(Value::Float(f)), "float");
    }
    let digits = |s: &mut Src, lo: usize, hi: usize| -> String {
        let n = s.range(lo, hi);
        (0..n).map(|_| (b'0' + s.below(10) as u8) as char).collect()
    };
    let whole = digits(s, 1, 18);
    let mut t = whole;
    let frac = s.coin();
    if frac {
        t.push('.');
        t.push_str(&digits(s, 1, 25));
    }
    if !frac || s.coin() {
        t.push(*s.of(&['e', 'E']));
        t.push_str(s.pick(&["", "-", "+"]));
        t.push_str(&s.below(330).to_string());
    }
    let f: f64 = t.parse().unwrap();
    if f.is_infinite() {
        return ("1e3".into(), Means::Is(Value::Float(1000.0)), "float");
    }
    let neg = s.odds(1, 4);
    (
        format!("{}{t}", if neg { "-" } else { "" }),
        Means::Is(Value::Float(if neg { -f } else { f })),
        "float",
    )
}

fn bad_number(s: &mut Src) -> (String, Means, &'static str) {
    if s.coin() {
        // A character too many in a float.
        let t = loop {
            let (t, m, _) = float_spelling(s);
            if matches!(m, Means::Is(Value::Float(_))) && t.contains(['.', 'e', 'E']) {
                break t;
            }
        };
        let first = t.find(|c: char| c.is_ascii_digit()).unwrap();
        let i = s.range(first + 1, t.len());
        let c = *s.of(&['_', '_', '_', 'g', 'é']);
        return (format!("{}{c}{}", &t[..i], &t[i..]), Means::Reject, "malformed float");
    }
    let t = s.pick(&[
        "1.2.3", "1e", "1e+", "1.5e", "1e5e5", "1e1.5", "0x1.8", "0b1.0", "1.0x", "1..", "1-2", "1+2", "0x-1",
        "--1", "+-1", "- -1", "-+1", "+", "-", "0x1g", "1.5.", "0b12", "0o78", "1e--5", "12abc", "0xfffffffffffffffff",
        "-0x8000000000000001", "0x8000000000000000", "0b2", "1.5f", "0X1F", "0B1", "0O7",
    ]);
    (t.to_string(), Means::Reject, "malformed number")
}

fn string_spelling(s: &mut Src) -> (String, Means, &'static str) {
    let n = if s.odds(1, 60) { s.range(10, 400) } else { s.below(9) };
    let mut text = String::from("\"");
    let mut value = String::new();
    let mut class = "plain string";
    if s.rare(50) {
        // Much before what is to be noticed.
        let k = s.size(&[15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 1000], 5000);
        let t = s.pick(&["a", "é", " ", "}}"]).repeat(k);
        text.push_str(&t);
        value.push_str(&t);
    }
    for _ in 0..n {
        if s.odds(1, 3) {
            class = "string with escapes";
            let (e, c) = *s.of(&[('n', '\n'), ('r', '\r'), ('t', '\t'), ('\\', '\\'), ('"', '"')]);
            text.push('\\');
            text.push(e);
            value.push(c);
        } else if s.odds(1, 6) {
            let w = s.pick(&["{{", "}}", "{%", "%}", "{#", "#}", "-}}", "'", "//", "|", "{{ x }}", "名前", "\t"]);
            text.push_str(w);
            value.push_str(w);
        } else {
            let c = gen::ch(s);
            if !matches!(c, '\n' | '\r' | '"' | '\\') {
                text.push(c);
                value.push(c);
            }
        }
    }
    text.push('"');
    (text, Means::Is(Value::String(value)), class)
}

fn bad_string(s: &mut Src) -> (String, Means, &'static str) {
    let pre = s.pick(&["", "a", "名", "\\\\", "\\n", "é\\\""]);
    let post = s.pick(&["", "b", "\\\\", "n", "0", "u{1}", "x41", "名"]);
    if s.odds(1, 3) {
        // A line break inside.
        let c = s.pick(&["\n", "\r", "\r\n", "\\\n"]);
        return (format!("\"{pre}{c}{post}\""), Means::Reject, "line break in a string");
    }
    let mut c = gen::ch(s);
    if s.coin() {
        c = *s.of(&['0', 'a', 'b', 'f', 'v', 'u', 'x', '\'', ' ', 'N', 'T', '{', '/', '名', '😀', 'é']);
    }
    if matches!(c, 'n' | 'r' | 't' | '\\' | '"') {
        c = 'q';
    }
    (format!("\"{pre}\\{c}{post}\""), Means::Reject, "unknown escape")
}

fn spelling(s: &mut Src) -> (String, Means, &'static str) {
    match s.weighted(&[8, 6, 5, 2, 1, 1, 1]) {
        0 => int_spelling(s),
        1 => string_spelling(s),
        2 => float_spelling(s),
        3 => {
            let b = s.coin();
            (b.to_string(), Means::Is(Value::Bool(b)), "boolean")
        }
        4 => bad_int(s),
        5 => bad_number(s),
        _ => bad_string(s),
    }
}

fn plain(v: &Value) -> Option<String> {
    Some(match v {
        Value::None => String::new(),
        Value::Bool(b) => b.to_string(),
        Value::Integer(n) => n.to_string(),
        Value::Float(x) => x.to_string(),
        Value::String(s) => s.clone(),
        _ => return None,
    })
}

fn typed() -> FuncSet {
    let mut m = pick_funcs(&["id", "show", "text", "pair", "triple", "quint", "or"]);
    macro_rules! f {
        ($name:literal, $t:ty, $k:ident) => {
            m.insert(
                $name.into(),
                funcs::Func::Filter(funcs::Filter {
                    params: &[Ty::Value, Ty::$k],
                    run: |a| Ok(a[1].clone()),
                    reg: reg_filter!(v: Value, a: $t),
                    result: funcs::Shape::Scalar,
                }),
            );
        };
    }
    f!("as_i64", i64, I64);
    f!("as_f64", f64, F64);
    f!("as_bool", bool, Bool);
    f!("as_str", &str, StrRef);
    f!("as_string", String, Str);
    f!("as_ref", Value, Value);
    m
}

thread_local! {
    static TYPED: FuncSet = typed();
}

fn c05(s: &mut Src, case: &mut Case) -> Res {
    let (text, means, class) = spelling(s);
    case.label(class);
    case.say(|| format!("literal {text:?} means {means:?}"));
    case.key(&text);
    case.nontrivial = true;

    // Where it stands, and what is to be seen for a value.
    let other = |s: &mut Src| s.pick(&["1", "\"s\"", "true", "g"]).to_string();
    let pos = s.below(14);
    case.hash = crate::src::mix(&[case.hash, pos as u64]);
    let end = if s.odds(1, 4) { "" } else { " " };
    let mut templates: Vec<(String, String)> = vec![];
    let root = match pos {
        0 => format!("{{{{ {text} | show }}}}"),
        1 => format!("{{{{ {text}{end}}}}}"),
        2 => format!("{{{{- {text}{end}-}}}}"),
        3 => format!("{{{{ g | pair: {text} | show }}}}"),
        4 => {
            let k = s.below(4);
            let args: Vec<String> = (0..4).map(|i| if i == k { text.clone() } else { other(s) }).collect();
            templates.push(("k".into(), k.to_string()));
            format!("{{{{ 0 | quint: {} | pick{k} | show }}}}", args.join(s.pick(&[", ", ",", " , "])))
        }
        5 => format!("{{% with {text} as v %}}{{{{ v | show }}}}{{% endwith %}}"),
        6 => format!("{{% with {text} as v %}}{{{{ v }}}}{{% endwith %}}"),
        7 => format!("{{% if {text}{end}%}}T{{% else %}}F{{% endif %}}"),
        8 => format!("{{% if not {text}{end}%}}T{{% else if {text} %}}F{{% endif %}}"),
        9 => {
            let n = match (&means, s.below(3)) {
                (Means::Is(Value::Integer(_)), 0 | 1) => "as_i64",
                (Means::Is(Value::Float(_)), 0 | 1) => "as_f64",
                (Means::Is(Value::Bool(_)), 0 | 1) => "as_bool",
                (Means::Is(Value::String(_)), 0) => "as_str",
                (Means::Is(Value::String(_)), 1) => "as_string",
                _ => "as_ref",
            };
            format!("{{{{ g | {n}: {text} | show }}}}")
        }
        10 => {
            templates.push(("t".into(), "{{ v | show }}".into()));
            format!("{{% with {text} as v %}}{{% include \"t\" %}}{{% endwith %}}")
        }
        11 => format!("{{% for x in {text} | pair: {text} %}}{{{{ x | show }}}}{{% endfor %}}"),
        12 => {
            // The name of an include.
            match &means {
                Means::Is(Value::String(v)) => {
                    templates.push((v.clone(), "found".into()));
                    if v != "decoy" {
                        templates.push(("decoy".into(), "no".into()));
                    }
                }
                _ => {}
            }
            format!("{{% include {text} %}}")
        }
        _ => format!("a{{{{ {text}|id|show}}}}b{{{{ {text} | text }}}}"),
    };
    let means = match (pos, means) {
        // Nothing but a string names a template.
        (12, Means::Is(Value::String(v))) => Means::Is(Value::String(v)),
        (12, _) => Means::Reject,
        (_, m) => m,
    };
    let expect = |v: &Value| -> Option<String> {
        Some(match pos {
            0 | 3 | 4 | 5 | 9 | 10 => match pos {
                3 => format!("[7,{}]", show(v)),
                _ => show(v),
            },
            1 | 2 | 6 => plain(v)?,
            7 => if truthy(v) { "T" } else { "F" }.to_string(),
            8 => if truthy(v) { "F" } else { "T" }.to_string(),
            11 => format!("{0}{0}", show(v)),
            12 => "found".into(),
            _ => format!("a{0}b{0}", show(v)),
        })
    };
    case.say(|| format!("template {root:?}"));

    let mut e = upon::Engine::new();
    TYPED.with(|f| funcs::register(&mut e, f));
    e.add_filter("pick0", |l: Vec<Value>| l[1].clone());
    e.add_filter("pick1", |l: Vec<Value>| l[2].clone());
    e.add_filter("pick2", |l: Vec<Value>| l[3].clone());
    e.add_filter("pick3", |l: Vec<Value>| l[4].clone());
    for (n, t) in &templates {
        guard("add_template", || e.add_template(n.clone(), t.clone()))?
            .map_err(|e| format!("{t:?} was rejected: {e:#}"))?;
    }
    let ctx = Value::Map(BTreeMap::from([("g".to_string(), Value::Integer(7))]));
    let t = guard("compile", || e.compile(root.as_str()))?;
    let t = match (t, &means) {
        (Ok(_), Means::Reject) => return Err(format!("{root:?} was accepted")),
        (Err(err), Means::Is(_)) => return Err(format!("{root:?} was rejected: {err:#}")),
        (Err(err), _) => {
            let seen = see(&err)?;
            if seen.kind != Kind::Syntax {
                return Err(format!("rejected with {}", seen.text));
            }
            return Ok(());
        }
        (Ok(t), _) => t,
    };
    let got = guard("rendering", || t.render_from(&e, &ctx).to_string())?
        .map_err(|err| format!("failed: {err:#}"))?;
    match &means {
        Means::Is(v) => {
            let exp = expect(v).unwrap();
            if got != exp {
                return Err(format!("{root:?} gives {got:?}, expected {exp:?}"));
            }
        }
        Means::Huge(f) => {
            let exp = expect(&Value::Float(*f)).unwrap();
            if got != exp {
                return Err(format!("{root:?} gives {got:?}, which is not the number written"));
            }
        }
        Means::Reject => unreachable!(),
    }
    Ok(())
}

// ------------------------------------------------------------------ C06

#[derive(Clone, Debug)]
enum Step {
    Key(String),
    Index(u64),
}

#[derive(Clone, Debug)]
struct Path(Vec<(bool, Step)>);

enum Found<'a> {
    Value(&'a Value),
    /// An optional member is missing.
    Nothing,
    Fails,
}

fn follow<'a>(mut v: &'a Value, p: &[(bool, Step)]) -> Found<'a> {
    for (opt, step) in p {
        let next = match (v, step) {
            (Value::Map(m), Step::Key(k)) => m.iter().find(|(n, _)| *n == k).map(|(_, v)| v),
            (Value::List(l), Step::Index(i)) => {
                l.iter().enumerate().find(|(j, _)| *j as u64 == *i).map(|(_, v)| v)
            }
            _ => return Found::Fails,
        };
        match next {
            Some(x) => v = x,
            None if *opt => return Found::Nothing,
            None => return Found::Fails,
        }
    }
    Found::Value(v)
}

fn gen_path(s: &mut Src, v: &Value) -> Path {
    let mut p = vec![];
    let mut cur = Some(v);
    let n = s.range(0, 5);
    for _ in 0..n {
        let opt = s.odds(1, 3);
        let miss = s.odds(1, 8);
        let step = match cur {
            Some(Value::List(l)) if !miss && !l.is_empty() => {
                let i = s.below(l.len());
                cur = Some(&l[i]);
                Step::Index(i as u64)
            }
            Some(Value::Map(m)) if !miss => {
                let ks: Vec<&String> = m.keys().filter(|k| gen::is_ident(k)).collect();
                if ks.is_empty() {
                    cur = None;
                    Step::Key("nope".into())
                } else {
                    let k = (*s.of(&ks)).clone();
                    cur = m.get(&k);
                    Step::Key(k)
                }
            }
            Some(Value::List(l)) if s.odds(3, 4) => {
                let i = *s.of(&[l.len() as u64, l.len() as u64 + 1, 255, 256, u32::MAX as u64 + 1, u64::MAX]);
                cur = None;
                Step::Index(i)
            }
            Some(Value::Map(_)) if s.odds(3, 4) => {
                cur = None;
                Step::Key(s.pick(&["nope", "A", "Name", "len", "loop", "index", "first"]).to_string())
            }
            _ => {
                let stop = cur.is_some() && !miss && s.odds(7, 8);
                if stop {
                    break;
                }
                cur = None;
                if s.coin() {
                    Step::Key(gen::a_name(s))
                } else {
                    Step::Index(s.below(4) as u64)
                }
            }
        };
        p.push((opt, step));
    }
    Path(p)
}

fn spell(s: &mut Src, head: &str, p: &[(bool, Step)]) -> String {
    let mut t = head.to_string();
    for (opt, step) in p {
        let (a, b) = if s.odds(1, 12) { (*s.of(&[" ", "", "\t"]), *s.of(&["", " "])) } else { ("", "") };
        t.push_str(a);
        t.push_str(if *opt { "?." } else { "." });
        t.push_str(b);
        match step {
            Step::Key(k) => t.push_str(k),
            Step::Index(i) => {
                if s.odds(1, 16) {
                    t.push('0');
                }
                t.push_str(&i.to_string());
            }
        }
    }
    t
}

fn c06(s: &mut Src, case: &mut Case) -> Res {
    let v = {
        let v = gen::value(s, 4);
        match v {
            Value::List(_) | Value::Map(_) => v,
            v if s.odds(1, 4) => v,
            _ => Value::Map(gen::map(s, 3)),
        }
    };
    let mut v = v;
    let mut p = gen_path(s, &v);
    if s.odds(1, 10) {
        // Far down, among many others.
        for _ in 0..*s.of(&[1, 1, 2, 3, 12]) {
            let n = *s.of(&[1, 9, 10, 11, 12, 33, 100, 257, 300]);
            let i = s.below(n);
            let opt = s.odds(1, 4);
            if s.coin() {
                let mut l: Vec<Value> = (0..n).map(|i| Value::Integer(-(i as i64))).collect();
                l[i] = v;
                v = Value::List(l);
                p.0.insert(0, (opt, Step::Index(i as u64)));
            } else {
                let pre = *s.of(&["k", "a_rather_long_name_of_a_member_", "名", "K"]);
                let name = |i: usize| format!("{pre}{i}");
                let mut m: BTreeMap<String, Value> = (0..n).map(|i| (name(i), Value::Integer(-(i as i64)))).collect();
                m.insert(name(i), v);
                v = Value::Map(m);
                p.0.insert(0, (opt, Step::Key(name(i))));
            }
        }
    }
    let found = follow(&v, &p.0);
    let expected = match &found {
        Found::Value(v) => Some((*v).clone()),
        Found::Nothing => Some(Value::None),
        Found::Fails => None,
    };
    let head = s.pick(&["h", "名", "_x9", "iff", "h2", "HEAD"]).to_string();
    let text = spell(s, &head, &p.0);
    case.say(|| format!("{head} = {}\npath {text:?}\nexpected {}", show(&v), match &expected {
        Some(v) => show(v),
        None => "a render error".into(),
    }));

    // Use of the path; what it shows.
    let used = s.below(9);
    let use_ = match used {
        0..=2 => format!("{{{{ {text} | show }}}}"),
        3 => format!("{{{{ 0 | pair: {text} | show }}}}"),
        4 => format!("{{{{ 0 | quint: 1, 2, {text}, 3 | show }}}}"),
        5 => format!("{{% with {text} as r %}}{{{{ r | show }}}}{{% endwith %}}"),
        6 => format!("{{% if {text} %}}T{{% else %}}F{{% endif %}}"),
        7 => format!("{{{{ {text} | text }}}}"),
        _ => format!("{{% for r in {text} | pair: 1 %}}{{{{ r | show }}}};{{% endfor %}}"),
    };
    let seen_as = |v: &Value| match used {
        0..=2 | 5 | 7 => show(v),
        3 => format!("[0,{}]", show(v)),
        4 => format!("[0,1,2,{},3]", show(v)),
        6 => if truthy(v) { "T" } else { "F" }.into(),
        _ => format!("{};1;", show(v)),
    };

    // Where the variable is bound: data, text, and how often it is rendered.
    let obj = |kv: Vec<(&str, Value)>| -> Value {
        Value::Map(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    };
    let noise = |s: &mut Src| gen::value(s, 2);
    let mut templates: Vec<(&str, String)> = vec![];
    let how = s.below(20);
    let n = noise(s);
    let (ctx, root, times) = match how {
        0 => (obj(vec![(&head, v.clone()), ("g", n)]), use_.clone(), 1),
        1 => (
            obj(vec![("g", v.clone()), (&head, n)]),
            format!("{{% with g as {head} %}}{use_}{{% endwith %}}"),
            1,
        ),
        2 => (
            obj(vec![("g", v.clone()), (&head, n)]),
            format!("{{% with g | id as {head} %}}{use_}{{% endwith %}}"),
            1,
        ),
        3 => {
            let k = s.range(1, 3);
            (
                obj(vec![("g", Value::List(vec![v.clone(); k])), (&head, n)]),
                format!("{{% for {head} in g %}}{use_}{{% endfor %}}"),
                k,
            )
        }
        4 => {
            let k = s.range(1, 3);
            (
                obj(vec![("g", Value::List(vec![v.clone(); k])), (&head, n)]),
                format!("{{% for {head} in g | id %}}{use_}{{% endfor %}}"),
                k,
            )
        }
        5 => (
            obj(vec![("g", obj(vec![("p", v.clone()), ("q", v.clone())])), (&head, n)]),
            format!("{{% for k, {head} in g %}}{use_}{{% endfor %}}"),
            2,
        ),
        6 => (
            obj(vec![("g", obj(vec![("p", v.clone())])), (&head, n)]),
            format!("{{% for k, {head} in g | id %}}{use_}{{% endfor %}}"),
            1,
        ),
        7 => {
            templates.push(("t", use_.clone()));
            (obj(vec![(&head, v.clone())]), "{% include \"t\" %}".into(), 1)
        }
        8 => {
            templates.push(("t", use_.clone()));
            (
                obj(vec![("g", obj(vec![(&head, v.clone()), ("z", n)]))]),
                "{% include \"t\" with g %}".into(),
                1,
            )
        }
        9 => {
            templates.push(("t", use_.clone()));
            (
                obj(vec![("g", obj(vec![(&head, v.clone())])), (&head, n)]),
                "{% include \"t\" with g | id %}".into(),
                1,
            )
        }
        10 => {
            templates.push(("t", use_.clone()));
            (
                obj(vec![("g", v.clone()), (&head, n)]),
                format!("{{% with g as {head} %}}{{% include \"t\" %}}{{% endwith %}}"),
                1,
            )
        }
        11 => {
            templates.push(("t", use_.clone()));
            (
                obj(vec![("g", Value::List(vec![v.clone()])), (&head, n)]),
                format!("{{% for {head} in g %}}{{% include \"t\" %}}{{% endfor %}}"),
                1,
            )
        }
        // Among other bindings.
        12 => (
            obj(vec![(&head, v.clone()), ("g", n.clone()), ("l", Value::List(vec![n.clone(), n]))]),
            format!("{{% with g as q %}}{{% for w in l %}}{use_}{{% endfor %}}{{% endwith %}}"),
            2,
        ),
        13 => (
            obj(vec![("g", v.clone()), ("l", Value::List(vec![n.clone()])), (&head, n)]),
            format!("{{% with g as {head} %}}{{% for w in l %}}{{% with w as q %}}{use_}{{% endwith %}}{{% endfor %}}{{% endwith %}}"),
            1,
        ),
        // One variable for the first steps.
        14 | 15 => {
            let k = s.below(p.0.len() + 1);
            let (first, rest) = p.0.split_at(k);
            let direct = matches!(follow(&v, first), Found::Value(_) | Found::Fails);
            if !direct {
                (obj(vec![(&head, v.clone())]), use_.clone(), 1)
            } else {
                let a = spell(s, "g", first);
                let b = spell(s, &head, rest);
                let u = use_.replacen(&text, &b, 1);
                let f = if how == 14 { "" } else { " | id" };
                (
                    obj(vec![("g", v.clone()), (&head, n)]),
                    format!("{{% with {a}{f} as {head} %}}{u}{{% endwith %}}"),
                    1,
                )
            }
        }
        // Nowhere.
        18 => (obj(vec![("g", v.clone()), (&format!("{head}_"), n)]), use_.clone(), 0),
        19 => {
            templates.push(("t", use_.clone()));
            (
                obj(vec![("g", if s.coin() { n.clone() } else { v.clone() }), (&head, v.clone())]),
                match s.below(3) {
                    0 => "{% include \"t\" with g %}",
                    1 => "{% include \"t\" with g | id %}",
                    _ => "{% with 1 as q %}{% include \"t\" with g %}{% endwith %}",
                }
                .into(),
                0,
            )
        }
        16 => (
            obj(vec![("g", obj(vec![("in", v.clone()), ("wrap", v.clone())])), (&head, n)]),
            format!("{{% with g.wrap as {head} %}}{use_}{{% endwith %}}"),
            1,
        ),
        _ => (
            obj(vec![("g", Value::List(vec![n.clone(), v.clone()])), (&head, n)]),
            format!("{{% with g.1 as {head} %}}{use_}{{% endwith %}}"),
            1,
        ),
    };
    case.say(|| format!("template {root:?} {templates:?}\ncontext {}", show(&ctx)));

    // With no binding at all nothing is optional.
    let bound = match (how, &ctx) {
        (18, _) => false,
        (19, Value::Map(m)) => match m.get("g") {
            Some(Value::Map(m)) if m.contains_key(&head) => return Ok(()),
            _ => false,
        },
        _ => true,
    };
    let expected = expected.filter(|_| bound);

    let mut e = upon::Engine::new();
    PATH_FUNCS.with(|f| funcs::register(&mut e, f));
    for (n, t) in &templates {
        guard("add_template", || e.add_template(*n, t.clone()))?
            .map_err(|e| format!("{t:?} was rejected: {e:#}"))?;
    }
    let t = guard("compile", || e.compile(root.as_str()))?
        .map_err(|e| format!("{root:?} was rejected: {e:#}"))?;
    let before = ctx.clone();
    let got = guard("rendering", || t.render_from(&e, &ctx).to_string())?;
    if !same(&before, &ctx) {
        return Err("the context changed".into());
    }
    match (&expected, got) {
        (Some(v), Ok(out)) => {
            let exp = seen_as(v).repeat(times);
            if out != exp {
                return Err(format!("{root:?} gives {out:?}, expected {exp:?}"));
            }
        }
        (None, Err(err)) => {
            if see(&err)?.kind != Kind::Render {
                return Err(format!("expected a render error, got {err:#}"));
            }
        }
        (Some(_), Err(err)) => return Err(format!("{root:?} failed: {err:#}")),
        (None, Ok(out)) => return Err(format!("{root:?} gives {out:?}, expected a render error")),
    }
    case.label(match &found {
        _ if !bound => "first segment missing",
        Found::Value(_) => "found",
        Found::Nothing => "optional member missing",
        Found::Fails => "fails",
    });
    case.label_if(p.0.len() > 2, "more than two steps");
    case.key(&root);
    case.key(&show(&v));
    case.nontrivial = !p.0.is_empty();
    let _ = model::type_name(&v);
    Ok(())
}

thread_local! {
    static PATH_FUNCS: FuncSet = pick_funcs(&["id", "show", "text", "pair", "quint"]);
}

const P: &[Prop] = &[
    Prop {
        id: "C05",
        case: c05,
        rule: "spellings of literals whose value is known by construction (or which must be rejected), in 14 positions; every case is non-trivial, counted by distinct spelling and position",
        assumptions: &["the nearest double of a decimal is what Rust's own parser gives", "a decimal integer outside the 64-bit range may be rejected or be a float", "literals without digits, infinite floats and forms like `1.` are not generated"],
        quick: 1_200_000,
        thorough: 60_000_000,
        once: None,
    },
    Prop {
        id: "C06",
        case: c06,
        rule: "paths over generated data under 20 ways to bind the variable (two of which do not) and 9 ways to use it; non-trivial: at least one step",
        assumptions: &["`text`, `show`, `pair`, `quint` and `id` are functions of the check"],
        quick: 800_000,
        thorough: 40_000_000,
        once: None,
    },
];
pub static PROPS: &[&Prop] = &[&P[0], &P[1]];
