//! C23: Rust programs full of generated invocations of the `value!` macro.

use std::collections::{BTreeMap, BTreeSet};
use std::process::Command;

use upon::Value;

use crate::model::show;
use crate::run::{verif_dir, Case, Once, Prop, Res};
use crate::src::{mix, Src};

#[derive(Clone, Debug)]
enum Node {
    None,
    /// Rust text, what it gives (nothing: it panics), the effects it has.
    Expr(String, Option<Value>, Vec<u32>),
    List(Vec<Node>, bool),
    Map(Vec<(String, Node)>, bool),
}

const KEYS: &[&str] = &[
    "a", "b", "c", "名", "é", "_x", "x1", "type", "fn", "match", "struct", "self", "Self", "crate", "super", "async",
    "true", "false", "None", "map", "mapping", "array", "rest", "copy", "key", "value", "elems", "union", "auto", "i32",
    "expr", "A", "__", "loop", "r1", "dyn", "static", "where", "unsafe", "impl", "if", "Some", "vec",
];

impl Node {
    fn text(&self) -> String {
        match self {
            Node::None => "None".into(),
            Node::Expr(t, ..) => t.clone(),
            Node::List(..) => format!("[{}]", self.inner()),
            Node::Map(..) => format!("{{{}}}", self.inner()),
        }
    }

    fn inner(&self) -> String {
        let end = |t: bool, n: usize| if t && n > 0 { "," } else { "" };
        match self {
            Node::List(l, t) => {
                format!("{}{}", l.iter().map(|x| x.text()).collect::<Vec<_>>().join(", "), end(*t, l.len()))
            }
            Node::Map(m, t) => format!(
                "{}{}",
                m.iter().map(|(k, x)| format!("{k}: {}", x.text())).collect::<Vec<_>>().join(", "),
                end(*t, m.len())
            ),
            _ => unreachable!(),
        }
    }

    fn value(&self) -> Option<Value> {
        Some(match self {
            Node::None => Value::None,
            Node::Expr(_, v, _) => v.clone()?,
            Node::List(l, _) => Value::List(l.iter().map(|x| x.value()).collect::<Option<_>>()?),
            Node::Map(m, _) => Value::Map(
                m.iter()
                    .map(|(k, x)| Some((k.clone(), x.value()?)))
                    .collect::<Option<_>>()?,
            ),
        })
    }

    fn effects(&self, out: &mut Vec<u32>) {
        match self {
            Node::None => {}
            Node::Expr(_, _, e) => out.extend(e),
            Node::List(l, _) => l.iter().for_each(|x| x.effects(out)),
            Node::Map(m, _) => m.iter().for_each(|(_, x)| x.effects(out)),
        }
    }

    fn repeats(&self) -> bool {
        match self {
            Node::None | Node::Expr(..) => false,
            Node::List(l, _) => l.iter().any(|x| x.repeats()),
            Node::Map(m, _) => {
                m.iter().any(|(_, x)| x.repeats()) || m.iter().map(|(k, _)| k).collect::<BTreeSet<_>>().len() < m.len()
            }
        }
    }

    fn size(&self) -> usize {
        match self {
            Node::None | Node::Expr(..) => 1,
            Node::List(l, _) => 1 + l.iter().map(|x| x.size()).sum::<usize>(),
            Node::Map(m, _) => 1 + m.iter().map(|(_, x)| x.size()).sum::<usize>(),
        }
    }

    /// Smaller nodes of the same shape.
    fn smaller(&self) -> Vec<Node> {
        let mut v = vec![];
        match self {
            Node::None => {}
            Node::Expr(..) => v.push(Node::Expr("1".into(), Some(Value::Integer(1)), vec![])),
            Node::List(l, t) => {
                if *t {
                    v.push(Node::List(l.clone(), false));
                }
                for (i, x) in l.iter().enumerate() {
                    let mut m = l.clone();
                    m.remove(i);
                    v.push(Node::List(m, *t));
                    v.extend(x.smaller().into_iter().map(|y| {
                        let mut m = l.clone();
                        m[i] = y;
                        Node::List(m, *t)
                    }));
                }
                v.extend(l.iter().cloned());
            }
            Node::Map(l, t) => {
                if *t {
                    v.push(Node::Map(l.clone(), false));
                }
                for (i, (k, x)) in l.iter().enumerate() {
                    let mut m = l.clone();
                    m.remove(i);
                    v.push(Node::Map(m, *t));
                    if k != "a" && !l.iter().any(|(k, _)| k == "a") {
                        let mut m = l.clone();
                        m[i].0 = "a".into();
                        v.push(Node::Map(m, *t));
                    }
                    v.extend(x.smaller().into_iter().map(|y| {
                        let mut m = l.clone();
                        m[i].1 = y;
                        Node::Map(m, *t)
                    }));
                }
                v.extend(l.iter().map(|x| x.1.clone()));
            }
        }
        v
    }
}

#[derive(Clone)]
struct Item {
    root: Node,
    brackets: (char, char),
    imported: bool,
}

impl Item {
    fn text(&self) -> String {
        format!(
            "{}value!{}{}{}",
            if self.imported { "" } else { "upon::" },
            self.brackets.0,
            self.root.inner(),
            self.brackets.1
        )
    }

    fn expected(&self) -> String {
        match self.root.value() {
            None => "panic".into(),
            Some(v) => {
                let mut e = vec![];
                self.root.effects(&mut e);
                e.sort();
                format!("{}\t{e:?}", show(&v))
            }
        }
    }
}

/// What a program is made of, and a replay file holds.
struct Job {
    imported: bool,
    text: String,
    expected: String,
}

impl Job {
    fn of(x: &Item) -> Job {
        Job {
            imported: x.imported,
            text: x.text(),
            expected: x.expected(),
        }
    }

    fn line(&self) -> String {
        format!("{}\t{}\t{}", self.imported, self.text, self.expected)
    }

    fn read(l: &str) -> Option<Job> {
        let mut it = l.splitn(3, '\t');
        Some(Job {
            imported: it.next()? == "true",
            text: it.next()?.into(),
            expected: it.next()?.into(),
        })
    }
}

fn int(n: i64) -> Option<Value> {
    Some(Value::Integer(n))
}

fn string(t: &str) -> Option<Value> {
    Some(Value::String(t.into()))
}

fn ints(l: &[i64]) -> Option<Value> {
    Some(Value::List(l.iter().map(|n| Value::Integer(*n)).collect()))
}

fn one(k: &str, v: Value) -> Value {
    Value::Map(BTreeMap::from([(k.to_string(), v)]))
}

/// An expression and its value.
fn expr(s: &mut Src, bad: bool) -> (String, Option<Value>) {
    let st = |f: i64, g: &str| {
        Some(Value::Map(BTreeMap::from([
            ("f".to_string(), Value::Integer(f)),
            ("g".to_string(), Value::String(g.into())),
        ])))
    };
    if bad && s.odds(1, 12) {
        let t = *s.of(&[
            "u64::MAX",
            "Bad",
            "i128::MIN",
            "S { f: Bad, g: \"x\" }",
            "vec![Some(1u64), Some(9223372036854775808)]",
            "&Bad",
            "Some(Bad)",
        ]);
        return (t.into(), None);
    }
    let k = s.below(1000) as i64;
    let table: Vec<(String, Option<Value>)> = vec![
        (format!("{k}"), int(k)),
        (format!("-{k}"), int(-k)),
        (format!("{k}u16"), int(k)),
        ("true".into(), Some(Value::Bool(true))),
        ("false".into(), Some(Value::Bool(false))),
        ("!true".into(), Some(Value::Bool(false))),
        (format!("\"s{k} ü\""), string(&format!("s{k} ü"))),
        ("\"\"".into(), string("")),
        ("1.5".into(), Some(Value::Float(1.5))),
        ("-0.0".into(), Some(Value::Float(-0.0))),
        ("2.5f32".into(), Some(Value::Float(2.5))),
        ("'c'".into(), string("c")),
        (format!("{k} + 2 * 3"), int(k + 6)),
        (format!("{k}i32 as u8 as i64"), int(k & 255)),
        (format!("{k} < 5"), Some(Value::Bool(k < 5))),
        ("K".into(), int(7)),
        ("map".into(), int(41)),
        ("list.clone()".into(), ints(&[1, 2])),
        ("text.as_str()".into(), string("owned")),
        ("text.clone()".into(), string("owned")),
        ("&text".into(), string("owned")),
        ("*&map".into(), int(41)),
        ("format!(\"{}-{}\", 1, map)".into(), string("1-41")),
        ("vec![1, 2, 3]".into(), ints(&[1, 2, 3])),
        ("(1, \"x\")".into(), Some(Value::List(vec![Value::Integer(1), Value::String("x".into())]))),
        ("()".into(), Some(Value::None)),
        ("(None::<i32>)".into(), Some(Value::None)),
        ("Some(3)".into(), int(3)),
        ("Option::<u8>::None".into(), Some(Value::None)),
        (format!("S {{ f: {k}, g: \"y\" }}"), st(k, "y")),
        (format!("&S {{ f: {k}, g: \"\" }}"), st(k, "")),
        (format!("if {k} > 500 {{ 1 }} else {{ 2 }}"), int(if k > 500 { 1 } else { 2 })),
        (format!("match {k} {{ 0..=499 => \"lo\", _ => \"hi\" }}"), string(if k < 500 { "lo" } else { "hi" })),
        ("two::<i32, u8>(4, 5)".into(), int(4)),
        ("(|x, y| x + y)(1, 2)".into(), int(3)),
        ("([4, 5])".into(), ints(&[4, 5])),
        ("({ let z = 3; z })".into(), int(3)),
        ("&[7][..]".into(), ints(&[7])),
        ("BTreeMap::from([(\"k\", 1)])".into(), Some(one("k", Value::Integer(1)))),
        ("upon::value! { z: [None, {}], }".into(), Some(one(
            "z",
            Value::List(vec![Value::None, Value::Map(BTreeMap::new())]),
        ))),
        ("upon::value!()".into(), Some(Value::Map(BTreeMap::new()))),
        ("Value::None".into(), Some(Value::None)),
        ("Value::from(\"v\")".into(), string("v")),
        ("i64::MIN".into(), int(i64::MIN)),
        ("9223372036854775807u64".into(), int(i64::MAX)),
        ("unsafe { 8 }".into(), int(8)),
        ("loop { break 9 }".into(), int(9)),
        ("text.len() as i8".into(), int(5)),
        ("std::iter::once(1).chain([2]).collect::<Vec<i32>>()".into(), ints(&[1, 2])),
    ];
    s.of(&table).clone()
}

fn node(s: &mut Src, depth: usize, bad: bool, id: &mut u32) -> Node {
    match s.weighted(&[2, 8, if depth > 0 { 3 } else { 1 }, if depth > 0 { 3 } else { 1 }]) {
        0 => Node::None,
        1 => {
            let (t, v) = expr(s, bad);
            if s.odds(2, 5) {
                *id += 1;
                Node::Expr(format!("n({id}, {t})"), v, vec![*id])
            } else {
                Node::Expr(t, v, vec![])
            }
        }
        2 => {
            let n = if depth == 0 { 0 } else { s.below(5) };
            let l = (0..n).map(|_| node(s, depth - 1, bad, id)).collect();
            Node::List(l, s.coin())
        }
        _ => map(s, depth, bad, id),
    }
}

fn map(s: &mut Src, depth: usize, bad: bool, id: &mut u32) -> Node {
    let n = if depth == 0 { 0 } else { s.below(6) };
    let mut m: Vec<(String, Node)> = vec![];
    for _ in 0..n {
        let again = !m.is_empty() && s.odds(1, 16);
        let k = if again { s.of(&m).0.clone() } else { s.pick(KEYS).to_string() };
        if m.iter().all(|(x, _)| *x != k) || again {
            m.push((k, node(s, depth - 1, bad, id)));
        }
    }
    Node::Map(m, s.coin())
}

fn item(s: &mut Src) -> Item {
    let bad = s.odds(1, 4);
    let depth = s.range(1, 4);
    Item {
        root: map(s, depth, bad, &mut 0),
        brackets: *s.of(&[('{', '}'), ('(', ')'), ('[', ']')]),
        imported: s.coin(),
    }
}

fn program(items: &[Job]) -> (String, usize) {
    let head = std::fs::read_to_string(format!("{}/mac/head.rs", verif_dir())).expect("mac/head.rs");
    let first = head.lines().count() + 1;
    let mut t = head;
    for (i, x) in items.iter().enumerate() {
        t.push_str(&format!(
            "fn i{i}() -> Value {{ {} let (map, list, text) = (41, vec![1, 2], \"owned\".to_string()); let v = {}; v }}\n",
            if x.imported { "use upon::value;" } else { "" },
            x.text
        ));
    }
    t.push_str("fn main() {\nstd::panic::set_hook(Box::new(|_| ()));\n");
    for i in 0..items.len() {
        t.push_str(&format!("run({i}, i{i});\n"));
    }
    t.push_str("}\n");
    (t, first)
}

/// The items that do not give what they should, with an explanation.
fn failures(items: &[Job]) -> Vec<(usize, String)> {
    let dir = format!("{}/target/mac/p{}", verif_dir(), std::process::id());
    let _ = std::fs::create_dir_all(format!("{dir}/src"));
    let (text, first) = program(items);
    std::fs::write(format!("{dir}/src/main.rs"), text).expect("write the program");
    let o = Command::new("bash")
        .args([&format!("{}/mac/build.sh", verif_dir()), &dir])
        .output()
        .expect("build the program");
    let res = if !o.status.success() {
        let err = String::from_utf8_lossy(&o.stderr).to_string();
        let mut bad: BTreeMap<usize, String> = BTreeMap::new();
        let mut msg = String::new();
        for l in err.lines() {
            if l.starts_with("error") {
                msg = l.to_string();
            }
            if let Some((_, at)) = l.split_once("src/main.rs:") {
                let line: Option<usize> = at.split(':').next().and_then(|n| n.parse().ok());
                if let Some(i) = line.and_then(|n| n.checked_sub(first)).filter(|i| *i < items.len()) {
                    if !msg.is_empty() {
                        bad.entry(i).or_insert(format!("does not compile: {msg}"));
                    }
                }
            }
        }
        if bad.is_empty() {
            panic!("the generated program does not build: {err}");
        }
        bad.into_iter().collect()
    } else {
        let o = Command::new(format!("{}/target/mac/out/debug/mac", verif_dir()))
            .output()
            .expect("run the program");
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        let mut got: BTreeMap<usize, String> = BTreeMap::new();
        for l in out.lines() {
            if let Some((i, r)) = l.split_once('\t') {
                got.insert(i.parse().expect("number"), r.to_string());
            }
        }
        items
            .iter()
            .enumerate()
            .filter_map(|(i, x)| {
                let e = &x.expected;
                match got.get(&i) {
                    Some(g) if g == e => None,
                    Some(g) => Some((i, format!("gives {g}\nexpected {e}"))),
                    None => Some((i, format!("gives nothing, the process ended ({})", o.status))),
                }
            })
            .collect()
    };
    let _ = std::fs::remove_dir_all(&dir);
    res
}

fn shrink(mut x: Item, mut msg: String) -> (Item, String) {
    for _ in 0..10 {
        let mut c: Vec<Item> = x
            .root
            .smaller()
            .into_iter()
            .filter(|n| matches!(n, Node::Map(..)))
            .map(|root| Item { root, ..x.clone() })
            .collect();
        c.sort_by_key(|y| (y.root.size(), y.text().len()));
        c.retain(|y| y.text().len() < x.text().len());
        c.truncate(150);
        if c.is_empty() {
            break;
        }
        let f = failures(&c.iter().map(Job::of).collect::<Vec<_>>());
        match f.into_iter().next() {
            Some((i, m)) => {
                x = c[i].clone();
                msg = m;
            }
            None => break,
        }
    }
    (x, msg)
}

fn c23_once(o: &mut Once) -> Res {
    let (programs, size) = if o.thorough { (60, 500) } else { (8, 300) };
    let mut seen: BTreeSet<String> = BTreeSet::new();
    for p in 0..programs {
        let seed_of = |i: usize| mix(&[o.seed, 23, p as u64, i as u64]);
        if let Some(j) = o.only.as_deref() {
            let j = Job::read(j).expect("an invocation and its value");
            return match failures(&[j]).pop() {
                Some((_, m)) => Err(m),
                None => Ok(()),
            };
        }
        let items: Vec<Item> = (0..size).map(|i| item(&mut Src::seeded(seed_of(i)))).collect();
        let bad = failures(&items.iter().map(Job::of).collect::<Vec<_>>());
        for x in &items {
            o.evaluations += 1;
            if x.root.size() > 1 && seen.insert(x.text()) {
                o.nontrivial += 1;
                if o.samples.len() < 3 && x.root.size() == 6 {
                    o.samples.push(format!("{}\nexpected: {}", x.text(), x.expected()));
                }
            }
            let mut note = |c: bool, k: &str| {
                if c {
                    *o.notes.entry(k.into()).or_default() += 1;
                }
            };
            note(x.root.value().is_none(), "panics");
            note(x.root.repeats(), "repeated keys");
            note(x.root.size() > 8, "more than 8 nodes");
            let mut e = vec![];
            x.root.effects(&mut e);
            note(e.len() > 1, "several effects");
        }
        if let Some((i, m)) = bad.into_iter().next() {
            let (x, m) = shrink(items[i].clone(), m);
            o.input = Some(Job::of(&x).line());
            return Err(format!("{}\n{m}", x.text()));
        }
    }
    Ok(())
}

fn c23(_: &mut Src, _: &mut Case) -> Res {
    Ok(())
}

const P: &[Prop] = &[Prop {
    id: "C23",
    case: c23,
    rule: "generated Rust programs of several hundred invocations of the macro each, compiled and run; every result, panic and effect is compared with the value built by the generator; non-trivial: at least one entry, counted once per text",
    assumptions: &[
        "the order in which the expressions of one invocation are evaluated is not claimed",
        "expressions that start with a bracket, a brace or None are written in parentheses, as the macro's grammar requires",
        "a key that is repeated in one map takes the last of its values, as when inserting into a map",
    ],
    quick: 0,
    thorough: 0,
    once: Some(c23_once),
}];
pub static PROPS: &[&Prop] = &[&P[0]];
