//! Properties of compiling: totality, the grammar, error locations.

use std::process::{Command, ExitCode};

use upon::{Engine, Value};

use crate::gen::{self, Gen, Prof};
use crate::model::{self, Delims, Kind};
use crate::props::scene;
use crate::run::{verif_dir, Case, Once, Prop, Res};
use crate::src::Src;
use crate::uut::{self, guard, see, Level};

/// Delimiters from a wide domain.
pub fn any_delims(s: &mut Src) -> Delims {
    match s.below(7) {
        0..=2 => Delims::default(),
        3 | 4 => gen::delims(s),
        5 => gen::wordy_delims(s),
        _ => {
            // Distinct, otherwise arbitrary.
            let mut word = |s: &mut Src| -> String {
                let n = s.range(1, 3);
                (0..n)
                    .map(|_| match s.below(6) {
                        0..=2 => *s.of(&['{', '}', '<', '>', '%', '#', '-', '|', '.', '"', ' ', 'a', '1', '?']),
                        _ => gen::ch(s),
                    })
                    .collect()
            };
            let mut pair = |s: &mut Src| {
                if s.odds(1, 8) {
                    None
                } else {
                    Some((word(s), word(s)))
                }
            };
            let d = Delims {
                expr: pair(s),
                block: pair(s),
                comment: pair(s),
            };
            if d.is_unambiguous() && d != (Delims { expr: None, block: None, comment: None }) {
                d
            } else {
                Delims::default()
            }
        }
    }
}

fn valid_text(s: &mut Src, d: &Delims) -> String {
    let b = valid_pieces(s, d);
    gen::spell(&b, d)
}

fn valid_pieces(s: &mut Src, d: &Delims) -> Vec<gen::Piece> {
    let p = scene::restrict(
        Prof {
            fault: 0,
            near: 3,
            trim: 3,
            space: *s.of(&[0, 4, 14]),
            len: 5,
            templates: 2,
            literal: 6,
            ..Prof::default()
        },
        d,
    );
    let p = if d.expr.is_none() { Prof { emit: 0, ..p } } else { p };
    let globals = gen::context(s);
    scene::with_funcs(|f| {
        let mut g = Gen::new(s, p, f, &globals);
        g.body1()
    })
}

/// Texts of all kinds: valid, nearly valid, token soup, junk.
pub fn any_text(s: &mut Src, d: &Delims) -> String {
    if s.odds(1, 40) && d.block.is_some() {
        // A name that means something in loops can be bound as well.
        let (b, e) = d.block.clone().unwrap();
        let body = valid_text(s, d);
        let n = gen::a_name(s);
        let (x, y) = *s.of(&[
            ("with 1 as loop", "endwith"),
            ("for loop in a", "endfor"),
            ("for NAME, loop in a", "endfor"),
            ("for loop, NAME in a", "endfor"),
            ("with loop as loop", "endwith"),
            ("with loop.index as NAME", "endwith"),
        ]);
        return format!("{b} {} {e}{body}{b} {y} {e}", x.replace("NAME", &n));
    }
    match s.weighted(&[24, 32, 32, 8, 32, 16, 12, 2]) {
        6 => gen::shorty(s, d),
        7 => gen::lengthy(s, d),
        0 => valid_text(s, d),
        4 => {
            let mut b = valid_pieces(s, d);
            gen::mutate_pieces(s, &mut b);
            gen::spell(&b, d)
        }
        5 => gen::skeleton(s, d),
        1 => {
            let t = valid_text(s, d);
            gen::mutate(s, &t, d)
        }
        2 => gen::token_soup(s, d),
        _ => gen::junk(s),
    }
}

// ------------------------------------------------------------------ C01

fn c01(s: &mut Src, case: &mut Case) -> Res {
    let d = any_delims(s);
    let t = any_text(s, &d);
    case.say(|| format!("delimiters: {d:?}\ntext: {t:?}"));
    let (e, e2) = guard("building an engine", || {
        (Engine::with_syntax(d.to_syntax()), Engine::with_syntax(d.to_syntax()))
    })?;
    let one = |e: &Engine<'_>| -> Result<Result<(), String>, String> {
        match guard("compile", || e.compile(t.clone()))? {
            Ok(x) => {
                if x.source() != t {
                    return Err(format!("source() is {:?}", x.source()));
                }
                guard("debug form of a template", || format!("{x:?}"))?;
                Ok(Ok(()))
            }
            Err(err) => {
                let seen = see(&err)?;
                if seen.kind != Kind::Syntax {
                    return Err(format!("compiling failed with {}", seen.text));
                }
                Ok(Err(seen.text))
            }
        }
    };
    let a = one(&e)?;
    let b = one(&e)?;
    let c = one(&e2)?;
    if a != b || a != c {
        return Err(format!("compiling again gives another outcome: {a:?}, {b:?}, {c:?}"));
    }
    let mut e = e;
    let add = guard("add_template", || e.add_template("名", t.clone()))?;
    match (&a, add) {
        (Ok(()), Ok(())) => {
            let src = guard("get_template", || e.template("名").source().to_string())?;
            if src != t {
                return Err(format!("source() of the registered template is {src:?}"));
            }
        }
        (Err(_), Err(err)) => {
            let seen = see(&err)?;
            if seen.kind != Kind::Syntax {
                return Err(format!("adding failed with {}", seen.text));
            }
        }
        (a, b) => return Err(format!("compile gives {a:?}, add_template {b:?}")),
    }
    case.label(if a.is_ok() { "accepted" } else { "rejected" });
    case.label_if(d != Delims::default(), "custom delimiters");
    case.key(&t);
    case.key(&format!("{d:?}"));
    case.nontrivial = d.patterns().iter().any(|(p, ..)| t.contains(p.as_str()));
    Ok(())
}

/// Nested or repeated constructs of the given size.
fn deep_text(kind: &str, n: usize) -> String {
    let rep = |x: &str| x.repeat(n);
    match kind {
        "nested if" => format!("{}{}", rep("{% if a %}"), rep("{% endif %}")),
        "nested for" => format!("{}{}", rep("{% for x in xs %}"), rep("{% endfor %}")),
        "nested with" => format!("{}{}", rep("{% with a as b %}"), rep("{% endwith %}")),
        "else if chain" => format!("{{% if a %}}{}{{% endif %}}", rep("{% else if a %}")),
        "filter chain" => format!("{{{{ a{} }}}}", rep(" | f")),
        "unclosed if" => rep("{% if a %}"),
        "path" => format!("{{{{ a{} }}}}", rep(".b")),
        "arguments" => format!("{{{{ a | f: 1{} }}}}", rep(", 1")),
        "emissions" => rep("{{ a }}x"),
        "comments" => rep("{# c #}"),
        "begin delimiters" => rep("{{"),
        "string" => format!("{{{{ \"{}\" }}}}", rep("\\\\a")),
        "number" => format!("{{{{ {} }}}}", rep("1")),
        "text" => rep("{ "),
        _ => unreachable!(),
    }
}

/// (kind, size that has to work, size of the known finding)
const DEEP: &[(&str, usize, usize)] = &[
    ("nested if", 600, 20_000),
    ("nested for", 600, 20_000),
    ("nested with", 600, 20_000),
    ("else if chain", 600, 20_000),
    ("filter chain", 1500, 0),
    ("unclosed if", 600, 0),
    ("path", 3000, 0),
    ("arguments", 3000, 0),
    ("emissions", 3000, 0),
    ("comments", 3000, 0),
    ("begin delimiters", 3000, 0),
    ("string", 3000, 0),
    ("number", 3000, 0),
    ("text", 3000, 0),
];

pub fn deep_sub(args: &[String]) -> ExitCode {
    let t = deep_text(&args[0], args[1].parse().unwrap());
    let e = Engine::new();
    let ok = match e.compile(t.as_str()) {
        Ok(x) => x.source() == t,
        Err(err) => !format!("{err:#}").is_empty(),
    };
    ExitCode::from(!ok as u8)
}

fn run_deep(kind: &str, n: usize) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    let s = Command::new(std::env::current_exe().unwrap())
        .args(["sub", "deep", kind, &n.to_string()])
        .stderr(std::process::Stdio::null())
        .status()
        .ok()?;
    Some(s.code().unwrap_or_else(|| -s.signal().unwrap_or(0)))
}

/// Errors far from the start of a line, displayed by a program that is built
/// with the newest toolchain. Gives the cases that `bad` picks.
fn wide(o: &mut Once, bad: fn(&str) -> bool) -> Res {
    if o.only.as_ref().map_or(false, |x| !x.contains("width")) {
        return Ok(());
    }
    let built = Command::new("bash").arg(format!("{}/wide/build.sh", verif_dir())).status();
    if !built.map_or(false, |s| s.success()) {
        o.notes.insert("wide: cannot be built with the newest toolchain".into(), 1);
        return Ok(());
    }
    let out = Command::new("timeout")
        .args(["120", &format!("{}/target/wide/debug/wide", verif_dir())])
        .output().expect("run the program");
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let (input, r) = l.split_once('\t').expect("a line of the program");
        if o.only.as_ref().map_or(false, |x| x != input) {
            continue;
        }
        o.evaluations += 1;
        o.nontrivial += 1;
        *o.notes.entry("wide".into()).or_default() += 1;
        if bad(r) {
            o.input = Some(input.into());
            return Err(format!("displaying an error at {input}: {r}"));
        }
    }
    Ok(())
}

fn c19_once(o: &mut Once) -> Res {
    wide(o, |r| r != "ok")
}

fn c01_once(o: &mut Once) -> Res {
    wide(o, |r| r.starts_with("panicked"))?;
    for (kind, must, known) in DEEP {
        for n in [*must, *known] {
            let input = format!("{kind} x {n}");
            if n == 0 || o.only.as_ref().map_or(false, |x| *x != input) {
                continue;
            }
            o.evaluations += 1;
            o.nontrivial += 1;
            let code = run_deep(kind, n).ok_or("cannot start a process").unwrap();
            if code == 0 {
                continue;
            }
            // 6: abort after a stack overflow.
            if n == *known && code == -6 && o.only.is_none() {
                o.known.push(format!("stack overflow compiling {kind} x {n}"));
                continue;
            }
            o.input = Some(input.clone());
            return Err(format!("compiling {input} ended with status {code}"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C02

fn c02(s: &mut Src, case: &mut Case) -> Res {
    let d = any_delims(s);
    let t = any_text(s, &d);
    case.say(|| format!("delimiters: {d:?}\ntext: {t:?}"));
    let exp = model::parse(&d, &t);
    if matches!(&exp, Ok(t) if t.unspecified) {
        return case.discard("unspecified");
    }
    let e = guard("building an engine", || Engine::with_syntax(d.to_syntax()))?;
    let got = guard("compile", || e.compile(t.as_str()))?;
    match (&exp, got) {
        (Ok(_), Ok(_)) => case.label("accepted"),
        (Err(_), Err(e)) => {
            if see(&e)?.kind != Kind::Syntax {
                return Err(format!("rejected with {e:#}"));
            }
            case.label("rejected")
        }
        (Ok(_), Err(e)) => return Err(format!("a valid text was rejected: {e:#}")),
        (Err(x), Ok(_)) => {
            return Err(format!(
                "an invalid text was accepted; the problem is {:?} at {:?}",
                &t[x.span.0..x.span.1],
                x.span
            ))
        }
    }
    case.label_if(d != Delims::default(), "custom delimiters");
    case.key(&t);
    case.key(&format!("{d:?}"));
    case.nontrivial = d.patterns().iter().any(|(p, ..)| t.contains(p.as_str()));
    Ok(())
}

// ------------------------------------------------------------------ C19

fn c19(s: &mut Src, case: &mut Case) -> Res {
    if s.odds(1, 3) {
        let d = match s.below(4) {
            0 => gen::delims(s),
            _ => Delims::default(),
        };
        let mut t = any_text(s, &d);
        if s.odds(1, 2) {
            let pre = s.pick(&["名é\n", "line\r\n", "\t", "\n\n", "e\u{301}😀 ", "\u{a0}a\n", "x\ny\nz\n"]);
            t = format!("{pre}{t}");
        }
        let Err(exp) = model::parse(&d, &t) else {
            return case.discard("valid");
        };
        let name = if s.coin() { Some(*s.of(&["t", "名.html", "a:b", "x y"])) } else { None };
        case.say(|| format!("delimiters: {d:?}\ntext: {t:?}\nname: {name:?}\nexpected span: {:?}", exp.span));
        let mut e = guard("building an engine", || Engine::with_syntax(d.to_syntax()))?;
        let r = match name {
            Some(n) => guard("add_template", || e.add_template(n, t.clone()))?,
            None => guard("compile", || e.compile(t.as_str()).map(|_| ()))?,
        };
        let Err(err) = r else {
            return case.discard("accepted, see C02");
        };
        let seen = see(&err)?;
        if seen.kind != Kind::Syntax {
            return Err(format!("expected a syntax error, got {}", seen.text));
        }
        uut::debug_form(&err)?;
        let loc = model::locate(&t, exp.span);
        uut::compare_loc(name, &loc, &seen)?;
        case.label("syntax error");
        case.label_if(loc.line > 1, "not on the first line");
        case.label_if(!t.is_ascii(), "non-ASCII text");
        case.key(&t);
        case.nontrivial = true;
        return Ok(());
    }
    let p = Prof {
        fault: *s.of(&[30, 80, 200]),
        boom: true,
        filter: 5,
        formatter: 3,
        include: 3,
        near: 1,
        ..Prof::default()
    };
    let d = if s.odds(1, 6) { gen::delims(s) } else { Delims::default() };
    let p = scene::restrict(p, &d);
    let f = scene::some_funcs(s);
    let mut sc = scene::make(s, p, f, d);
    if s.coin() {
        sc.root_name = Some(s.pick(&["root", "名.html", "a:b", ""]).to_string());
    }
    if s.odds(1, 6) {
        sc.custom = Some(
            sc.templates
                .iter()
                .enumerate()
                .map(|(i, (n, t))| {
                    let v = if i == 1 && s.coin() { Err("function\nerror".to_string()) } else { Ok(t.clone()) };
                    (n.clone(), v)
                })
                .collect(),
        );
        sc.templates.clear();
    }
    if s.odds(1, 8) {
        sc.globals = gen::context(s);
    }
    if let Some(o) = scene::judge(case, &sc, Level::Location, false)? {
        if let Err(f) = &o.res {
            case.label_if(f.template.as_deref() != sc.root_name.as_deref(), "in an included template");
            case.label_if(f.loc.as_ref().map_or(false, |l| l.line > 1), "not on the first line");
            case.nontrivial = true;
        }
    }
    Ok(())
}

#[allow(dead_code)]
fn _unused(_: Value) {}

const P: &[Prop] = &[
    Prop {
        id: "C01",
        case: c01,
        rule: "valid, mutated, token-soup and junk texts under default and arbitrary distinct delimiters, plus deeply nested texts in processes of their own and errors far from the start of a line in a program built with the newest toolchain; non-trivial: the text contains a delimiter",
        assumptions: &["texts nest at most a few hundred blocks; deeper nesting is a known finding"],
        quick: 150_000,
        thorough: 30_000_000,
        once: Some(c01_once),
    },
    Prop {
        id: "C02",
        case: c02,
        rule: "valid, mutated, token-soup and junk texts under default and arbitrary distinct delimiters, compared with the reference parser; non-trivial: the text contains a delimiter",
        assumptions: &["the reference parser in harness/src/model/parse.rs states the documented grammar"],
        quick: 300_000,
        thorough: 20_000_000,
        once: None,
    },
    Prop {
        id: "C19",
        case: c19,
        rule: "invalid texts and faulty scenes with multi-line, multi-byte text, plus errors far from the start of a line and with long underlines in a program built with the newest toolchain; non-trivial: an error with a predicted location",
        assumptions: &["display width is that of the unicode-width crate", "the location of an error behind a final line break is not specified"],
        quick: 200_000,
        thorough: 30_000_000,
        once: Some(c19_once),
    },
];
pub static PROPS: &[&Prop] = &[&P[0], &P[1], &P[2]];
