//! C20: every combination of the crate's features gives templates the meaning
//! the model gives them. The library is driven in one process per combination,
//! see /verif/probe.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

use upon::Value;

use crate::funcs::{Fmt, Func, FuncSet};
use crate::gen::{self, Prof};
use crate::model::{self, show, Ctx, Delims, Kind};
use crate::props::scene::{self, Scene};
use crate::run::{verif_dir, Case, Once, Prop, Res};
use crate::src::Src;
use crate::uut::{self, compare_fail, Level, Seen};

const COMBOS: &[&str] = &[
    "none",
    "filters",
    "serde",
    "unicode",
    "filters,serde",
    "filters,unicode",
    "serde,unicode",
    "filters,serde,unicode",
];

/// What the probe registers.
const FUNCS: &[&str] = &[
    "id", "text", "inc", "tolist", "pair", "or", "boom", "show", "plainly", "nothing", "ferr",
];

const READY: &str = "VT_PROBE_READY";

fn build() -> Result<(), String> {
    if std::env::var_os(READY).is_some() {
        return Ok(());
    }
    let o = Command::new("bash")
        .arg(format!("{}/probe/build.sh", verif_dir()))
        .output()
        .expect("build the probe");
    if o.status.success() {
        std::env::set_var(READY, "1");
        return Ok(());
    }
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let bad = text.lines().filter(|l| l.starts_with("features: ")).count();
    if bad == 0 || bad == COMBOS.len() {
        // Not a matter of the features.
        panic!("the probe does not build: {text}{}", String::from_utf8_lossy(&o.stderr));
    }
    Err(format!("does not compile under some sets of features\n{text}"))
}

struct Probe {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}

impl Drop for Probe {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static PROBES: RefCell<BTreeMap<usize, Probe>> = const { RefCell::new(BTreeMap::new()) };
}

fn start(i: usize) -> Probe {
    let mut child = Command::new(format!("{}/target/probe/{}/debug/probe", verif_dir(), COMBOS[i]))
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("start the probe");
    Probe {
        stdin: child.stdin.take().unwrap(),
        stdout: BufReader::new(child.stdout.take().unwrap()),
        child,
    }
}

fn put(out: &mut Vec<u8>, b: &[u8]) {
    out.extend_from_slice(&(b.len() as u32).to_le_bytes());
    out.extend_from_slice(b);
}

fn put_value(out: &mut Vec<u8>, v: &Value) {
    let num = |out: &mut Vec<u8>, n: u64| out.extend_from_slice(&n.to_le_bytes());
    let string = |out: &mut Vec<u8>, s: &str| {
        out.extend_from_slice(&(s.len() as u64).to_le_bytes());
        out.extend_from_slice(s.as_bytes());
    };
    match v {
        Value::None => out.push(0),
        Value::Bool(b) => {
            out.push(1);
            num(out, *b as u64)
        }
        Value::Integer(n) => {
            out.push(2);
            num(out, *n as u64)
        }
        Value::Float(x) => {
            out.push(3);
            num(out, x.to_bits())
        }
        Value::String(s) => {
            out.push(4);
            string(out, s)
        }
        Value::List(l) => {
            out.push(5);
            num(out, l.len() as u64);
            l.iter().for_each(|x| put_value(out, x));
        }
        Value::Map(m) => {
            out.push(6);
            num(out, m.len() as u64);
            for (k, x) in m {
                string(out, k);
                put_value(out, x);
            }
        }
    }
}

fn request(sc: &Scene) -> Vec<u8> {
    let mut b = vec![];
    put(&mut b, if sc.default_fmt == Fmt::Show { b"show" } else { b"" });
    put(&mut b, sc.funcs.keys().cloned().collect::<Vec<_>>().join(" ").as_bytes());
    put(&mut b, sc.root.as_bytes());
    put(&mut b, sc.templates.len().to_string().as_bytes());
    for (n, t) in &sc.templates {
        put(&mut b, n.as_bytes());
        put(&mut b, t.as_bytes());
    }
    let custom = sc.delims != Delims::default();
    for p in [&sc.delims.expr, &sc.delims.block, &sc.delims.comment] {
        let (x, y) = match p {
            Some((x, y)) if custom => (x.as_str(), y.as_str()),
            _ => ("", ""),
        };
        put(&mut b, x.as_bytes());
        put(&mut b, y.as_bytes());
    }
    let mut v = vec![];
    put_value(&mut v, &sc.globals);
    put(&mut b, &v);
    b
}

enum Reply {
    Out(String),
    Fail(bool, Seen),
}

fn field(r: &mut impl Read) -> std::io::Result<String> {
    let mut n = [0; 4];
    r.read_exact(&mut n)?;
    let mut b = vec![0; u32::from_le_bytes(n) as usize];
    r.read_exact(&mut b)?;
    Ok(String::from_utf8(b).expect("reply of the probe"))
}

fn reply(p: &mut Probe) -> Result<Reply, String> {
    let r = &mut p.stdout;
    let f = (|| Ok((field(r)?, field(r)?, field(r)?)))();
    let (kind, a, b) = match f {
        Ok(f) => f,
        Err(_) => {
            let _: std::io::Error = f.unwrap_err();
            return Err(format!("panicked or died ({})", match p.child.wait() {
                Ok(s) => s.to_string(),
                Err(e) => e.to_string(),
            }));
        }
    };
    match kind.as_str() {
        "ok" => Ok(Reply::Out(a)),
        "differs" => Err(format!("two ways to render differ: {a}\nand {b}")),
        k => Ok(Reply::Fail(k == "compile", uut::see_texts(a, b, None)?)),
    }
}

/// The syntax error of the first invalid text, in the order of compilation.
fn syntax_error(sc: &Scene) -> Option<(Option<String>, model::Loc)> {
    let one = |n: Option<&String>, t: &str| {
        let e = model::parse(&sc.delims, t).err()?;
        Some((n.cloned(), model::locate(t, e.span)))
    };
    sc.templates
        .iter()
        .find_map(|(n, t)| one(Some(n), t))
        .or_else(|| one(None, &sc.root))
}

fn unspecified(sc: &Scene) -> bool {
    sc.templates
        .values()
        .chain([&sc.root])
        .any(|t| model::parse_lenient(&sc.delims, t).1)
}

fn check(sc: &Scene, what: &str, filters: bool, unicode: bool, got: Result<Reply, String>) -> Result<Option<&'static str>, String> {
    let got = got.map_err(|m| format!("features {what}: {m}"))?;
    let bad = |m: String| Err(format!("features {what}: {m}"));
    if let Some((name, loc)) = syntax_error(sc) {
        let Reply::Fail(true, seen) = &got else {
            return bad(match got {
                Reply::Out(o) => format!("rendered {o:?}\nexpected a syntax error"),
                Reply::Fail(_, s) => format!("expected a syntax error, got {}", s.text),
            });
        };
        if seen.kind != Kind::Syntax {
            return bad(format!("expected a syntax error, got {}", seen.text));
        }
        if let Err(m) = place(name.as_deref(), &loc, seen, unicode) {
            return bad(m);
        }
        return Ok(Some("syntax error"));
    }
    let exp = sc.predict(&Ctx::Value(&sc.globals)).unwrap();
    if let Some(d) = exp.discard {
        return Ok(Some(d));
    }
    match (&exp.res, got) {
        (Ok(()), Reply::Out(o)) if o == exp.out => Ok(Some("renders")),
        (Ok(()), Reply::Out(o)) => bad(format!("output {o:?}\nexpected {:?}", exp.out)),
        (Ok(()), Reply::Fail(compile, s)) => {
            // Compiling may refuse what can only fail, even if it is not reached.
            if compile && !filters && uses_calls(sc) && s.kind == Kind::Syntax {
                return Ok(Some("refused"));
            }
            bad(format!("failed with {}\nexpected the output {:?}", s.text, exp.out))
        }
        (Err(f), Reply::Out(o)) => bad(format!("output {o:?}\nexpected a failure: {f:?}")),
        (Err(f), Reply::Fail(compile, s)) => {
            if compile {
                if !filters && uses_calls(sc) && s.kind == Kind::Syntax {
                    return Ok(Some("refused"));
                }
                return bad(format!("a valid text was rejected: {}", s.text));
            }
            if let Err(m) = compare_fail(f, &s, Level::Kind) {
                return bad(m);
            }
            if let Some(l) = &f.loc {
                if let Err(m) = place(f.template.as_deref(), l, &s, unicode) {
                    return bad(m);
                }
            }
            Ok(Some("fails"))
        }
    }
}

fn uses_calls(sc: &Scene) -> bool {
    sc.root.contains('|') || sc.templates.values().any(|t| t.contains('|'))
}

/// Columns are only claimed with the unicode feature, or where all is plain.
fn place(name: Option<&str>, loc: &model::Loc, got: &Seen, unicode: bool) -> Res {
    let plain = loc.plain && loc.text.bytes().all(|b| (0x20..0x7f).contains(&b)) && loc.col - 1 + loc.width <= loc.text.len();
    if unicode || plain {
        return uut::compare_loc(name, loc, got);
    }
    let Some(p) = &got.pretty else {
        return Err(format!("the error shows no location: {}", got.text));
    };
    let name = name.unwrap_or("<anonymous>");
    if p.name != name || (!loc.past_end && p.line != loc.line) {
        return Err(format!("expected an error in line {} of {name:?}: {}", loc.line, got.text));
    }
    Ok(())
}

fn run(sc: &Scene, case: &mut Case) -> Result<bool, String> {
    build()?;
    if unspecified(sc) {
        case.discarded = Some("unspecified");
        return Ok(false);
    }
    if sc.predict(&Ctx::Value(&sc.globals)).map_or(false, |o| o.discard.is_some()) {
        case.discarded = Some("budget");
        return Ok(false);
    }
    let req = request(sc);
    let replies: Vec<Result<Reply, String>> = PROBES.with(|ps| {
        let mut ps = ps.borrow_mut();
        for i in 0..COMBOS.len() {
            let p = ps.entry(i).or_insert_with(|| start(i));
            // If it died, the answer tells.
            let _ = p.stdin.write_all(&req).and_then(|_| p.stdin.flush());
        }
        let r: Vec<_> = (0..COMBOS.len()).map(|i| reply(ps.get_mut(&i).unwrap())).collect();
        for (i, r) in r.iter().enumerate() {
            if r.is_err() {
                ps.remove(&i);
            }
        }
        r
    });
    let bare = {
        let mut b = sc.clone();
        b.funcs.retain(|_, f| matches!(f, Func::Formatter(_)));
        b
    };
    let mut seen: Vec<&str> = vec![];
    for (i, r) in replies.into_iter().enumerate() {
        let has = |f: &str| COMBOS[i].contains(f);
        let sc = if has("filters") { sc } else { &bare };
        struct Reset;
        impl Drop for Reset {
            fn drop(&mut self) {
                model::ASCII.set(false);
            }
        }
        let _reset = Reset;
        model::ASCII.set(!has("unicode"));
        if let Some(l) = check(sc, COMBOS[i], has("filters"), has("unicode"), r)? {
            if !seen.contains(&l) {
                seen.push(l);
                case.label(l);
            }
        }
    }
    case.label_if(seen.len() > 1, "depends on the features");
    Ok(true)
}

fn ascii_keys(v: &mut Value) {
    match v {
        Value::List(l) => l.iter_mut().for_each(ascii_keys),
        Value::Map(m) => {
            *m = std::mem::take(m)
                .into_iter()
                .map(|(k, mut x)| {
                    ascii_keys(&mut x);
                    (ascii(&k), x)
                })
                .collect();
        }
        _ => {}
    }
}

fn ascii(t: &str) -> String {
    t.chars()
        .map(|c| match c {
            '名' => "N1".to_string(),
            'é' => "_e".to_string(),
            c if !c.is_ascii() && (model::is_ident_continue(c) || model::is_ident_start(c)) => format!("U{:x}", c as u32),
            c => c.to_string(),
        })
        .collect()
}

fn c20(s: &mut Src, case: &mut Case) -> Res {
    let p = Prof {
        fault: *s.of(&[0, 0, 10, 60]),
        boom: true,
        filter: *s.of(&[0, 2, 5]),
        formatter: *s.of(&[0, 3]),
        cyclic: *s.of(&[0, 0, 20]),
        ..Prof::default()
    };
    let d = if s.odds(1, 6) { gen::delims(s) } else { Delims::default() };
    let p = scene::restrict(p, &d);
    let funcs: FuncSet = scene::pick_funcs(FUNCS);
    let mut sc = scene::make(s, p, funcs, d);
    if s.odds(1, 4) {
        sc.default_fmt = Fmt::Show;
    }
    match s.below(6) {
        0 => sc.funcs.clear(),
        1 => sc.funcs.retain(|_, _| s.odds(3, 4)),
        2 => sc.funcs.retain(|_, f| matches!(f, Func::Filter(_))),
        _ => {}
    }
    if s.odds(1, 8) {
        sc.root = gen::mutate(s, &sc.root, &sc.delims);
    }
    if s.odds(1, 10) {
        sc.globals = gen::context(s);
    }
    if s.odds(3, 4) {
        ascii_keys(&mut sc.globals);
        sc.root = ascii(&sc.root);
        for t in sc.templates.values_mut() {
            *t = ascii(t);
        }
    }
    case.say(|| sc.describe());
    if !run(&sc, case)? {
        return Ok(());
    }
    case.key(&sc.root);
    case.key(&show(&sc.globals));
    case.key(&format!("{:?}", sc.funcs.keys()));
    for t in sc.templates.values() {
        case.key(t);
    }
    case.label_if(!sc.root.is_ascii(), "non-ASCII text");
    case.label_if(uses_calls(&sc), "filters or formatters");
    case.label_if(sc.funcs.len() < FUNCS.len(), "not all functions are registered");
    case.nontrivial = sc.delims.patterns().iter().any(|(p, ..)| sc.root.contains(p.as_str()));
    Ok(())
}

fn c20_once(o: &mut Once) -> Res {
    std::env::remove_var(READY);
    o.evaluations += COMBOS.len() as u64;
    if let Err(m) = build() {
        o.input = Some("build".into());
        return Err(m);
    }
    Ok(())
}

const P: &[Prop] = &[Prop {
    id: "C20",
    case: c20,
    rule: "generated scenes (valid, faulty and mutated; ASCII or with other identifiers; default or custom delimiters) compiled and rendered in eight processes, one per combination of the features, each reply compared with the reference model for that combination; non-trivial: the text contains a delimiter",
    assumptions: &[
        "without the unicode feature columns and widths are compared only in lines of printable ASCII, since widths are that feature's business",
        "without the filters feature a text that uses one may be refused when it is compiled or fail when it is rendered",
    ],
    quick: 30_000,
    thorough: 3_000_000,
    once: Some(c20_once),
}];
pub static PROPS: &[&Prop] = &[&P[0]];
