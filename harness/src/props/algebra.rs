//! C24: relations between renders of different templates. The library is
//! compared with itself; the model only bounds the work.

use std::collections::BTreeMap;

use upon::Value;

use super::scene::{all_funcs, RealCtx, Scene};
use crate::funcs::{Fmt, Func, FuncSet, Ty};
use crate::gen::{self, Gen, Piece, Prof};
use crate::model::{show, Ctx, Delims, Kind, Tag};
use crate::run::{Case, Prop, Res};
use crate::src::Src;
use crate::uut::Seen;

type Set = BTreeMap<String, Vec<Piece>>;

fn raw(t: &str) -> Piece {
    Piece::Raw(t.into())
}

fn block(t: impl Into<String>) -> Piece {
    Piece::Tag {
        tag: Tag::Block,
        lt: false,
        rt: false,
        inner: format!(" {} ", t.into()),
    }
}

fn emit(t: impl Into<String>) -> Piece {
    Piece::Tag {
        tag: Tag::Expr,
        lt: false,
        rt: false,
        inner: format!(" {} ", t.into()),
    }
}

fn comment(t: &str) -> Piece {
    Piece::Tag {
        tag: Tag::Comment,
        lt: false,
        rt: false,
        inner: t.into(),
    }
}

/// One rendering to compare.
#[derive(Clone)]
struct Side {
    root: Vec<Piece>,
    set: Set,
    globals: Value,
    delims: Delims,
}

struct World {
    funcs: FuncSet,
    fmt: Fmt,
}

impl World {
    fn scene(&self, x: &Side) -> Scene {
        let mut sc = Scene::new(x.globals.clone(), gen::spell(&x.root, &x.delims), self.funcs.clone());
        sc.templates = x.set.iter().map(|(n, t)| (n.clone(), gen::spell(t, &x.delims))).collect();
        sc.delims = x.delims.clone();
        sc.default_fmt = self.fmt;
        sc
    }
}

/// Filters whose parameters are references tell bound from computed values.
fn by_value() -> FuncSet {
    all_funcs()
        .into_iter()
        .filter(|(_, f)| match f {
            Func::Filter(f) => !f.params[1..]
                .iter()
                .any(|t| matches!(t, Ty::StrRef | Ty::ListRef | Ty::MapRef | Ty::ValueRef)),
            Func::Formatter(_) => true,
        })
        .collect()
}

/// Positions between pieces, with the run of pieces that can be cut out from
/// each: `(i, j)` such that blocks opened in `i..j` are closed in it.
fn runs(ps: &[Piece]) -> Vec<(usize, usize)> {
    let kind = |p: &Piece| -> i32 {
        let Piece::Tag { tag: Tag::Block, inner, .. } = p else { return 0 };
        let w = inner.trim_start_matches(['-']).trim_start();
        for (k, n) in [("endif", -1), ("endfor", -1), ("endwith", -1), ("else", 2), ("include", 0), ("if", 1), ("for", 1), ("with", 1)] {
            if w.starts_with(k) {
                return n;
            }
        }
        0
    };
    let mut out = vec![];
    // Some of them, if there are very many.
    let step = 1 + ps.len() / 300;
    for i in (0..=ps.len()).step_by(step) {
        let mut depth = 0;
        out.push((i, i));
        for (j, p) in ps.iter().enumerate().skip(i) {
            match kind(p) {
                2 if depth == 0 => break,
                2 => {}
                n => depth += n,
            }
            if depth < 0 {
                break;
            }
            if depth == 0 && (j + 1 == ps.len() || (j - i) % step == 0) {
                out.push((i, j + 1));
            }
        }
    }
    out
}

fn has_loop(ps: &[Piece]) -> bool {
    ps.iter().any(|p| matches!(p, Piece::Tag { inner, .. } if inner.contains("loop")))
}

/// What is between the uses of the variable `hole`, not of one like it.
fn holes(inner: &str) -> Vec<&str> {
    let part = |c: char| c == '_' || c.is_alphanumeric() || gen::is_ident(&format!("a{c}"));
    let (mut out, mut from) = (vec![], 0);
    for (i, _) in inner.match_indices("hole") {
        let (a, b) = (&inner[..i], &inner[i + 4..]);
        if !a.ends_with(part) && !b.starts_with(part) {
            out.push(&inner[from..i]);
            from = i + 4;
        }
    }
    out.push(&inner[from..]);
    out
}

fn uses_hole(p: &Piece) -> bool {
    matches!(p, Piece::Tag { tag, inner, .. } if *tag != Tag::Comment && holes(inner).len() > 1)
}

/// The names of the templates that are included, from anywhere, with a context
/// of their own, and of those they include.
fn own_context(body: &[Piece], set: &BTreeMap<String, Vec<Piece>>) -> Vec<String> {
    // The names and whether there is a context; an escaped name could be any.
    let includes = |ps: &[Piece]| -> Vec<(String, bool)> {
        let mut out = vec![];
        for p in ps {
            let Piece::Tag { tag: Tag::Block, inner, .. } = p else { continue };
            let Some(rest) = inner.trim().strip_prefix("include") else { continue };
            let rest = rest.trim();
            let found = set.keys().find_map(|n| Some((n, rest.strip_prefix(&format!("\"{n}\""))?)));
            match found {
                Some((n, rest)) if !n.contains('\\') => out.push((n.clone(), !rest.trim().is_empty())),
                _ => out.extend(set.keys().map(|n| (n.clone(), rest.contains("with")))),
            }
        }
        out
    };
    let mut out: Vec<String> = vec![];
    let mut todo: Vec<String> = set.values().map(|t| &t[..]).chain([body]).flat_map(includes).filter(|(_, with)| *with).map(|(n, _)| n).collect();
    while let Some(n) = todo.pop() {
        if !out.contains(&n) {
            todo.extend(set.get(&n).map_or(vec![], |t| includes(t)).into_iter().map(|(n, _)| n));
            out.push(n);
        }
    }
    out
}

/// Replaces the variable `hole`.
fn substitute(ps: &[Piece], by: &str) -> Vec<Piece> {
    ps.iter()
        .map(|p| match p {
            Piece::Tag { tag, lt, rt, inner } if *tag != Tag::Comment => Piece::Tag {
                tag: *tag,
                lt: *lt,
                rt: *rt,
                inner: holes(inner).join(by),
            },
            p => p.clone(),
        })
        .collect()
}

const PROF: Prof = Prof {
    raw: 4,
    emit: 6,
    cond: 2,
    loops: 2,
    with: 2,
    include: 1,
    comment: 1,
    depth: 3,
    len: 3,
    filter: 4,
    formatter: 2,
    trim: 3,
    fault: 0,
    near: 0,
    deep: 9,
    literal: 3,
    templates: 3,
    cyclic: 0,
    boom: false,
    space: 2,
};

/// A path to a value in the unique global `gg`, and the value.
fn unique_path(s: &mut Src, v: &Value) -> (String, Value) {
    let mut t = "gg".to_string();
    let mut cur = v.clone();
    while !s.odds(1, 3) {
        let q = if s.odds(1, 5) { "?." } else { "." };
        match &cur {
            Value::List(l) if !l.is_empty() => {
                let i = s.below(l.len());
                t.push_str(&format!("{q}{i}"));
                cur = l[i].clone();
            }
            Value::Map(m) => {
                let ks: Vec<&String> = m.keys().filter(|k| gen::is_ident(k)).collect();
                if ks.is_empty() {
                    break;
                }
                let k = (*s.of(&ks)).clone();
                t.push_str(&format!("{q}{k}"));
                cur = m[&k].clone();
            }
            _ => break,
        }
    }
    (t, cur)
}

fn c24(s: &mut Src, case: &mut Case) -> Res {
    let mut globals = gen::context(s);
    let gg = gen::value(s, 3);
    if let Value::Map(m) = &mut globals {
        m.remove("loop");
        m.insert("gg".into(), gg.clone());
        m.insert("one".into(), Value::List(vec![gen::value(s, 1)]));
    }
    let w = World {
        funcs: by_value(),
        fmt: *s.of(&[Fmt::Show, Fmt::Builtin, Fmt::Bang]),
    };
    let mut p = PROF;
    p.fault = *s.of(&[0, 0, 0, 6]);
    p.boom = s.odds(1, 6);
    let rel = s.below(16);
    if rel == 14 {
        p.trim = 0;
    }
    let base = |root: Vec<Piece>, set: Set| Side {
        root,
        set,
        globals: globals.clone(),
        delims: Delims::default(),
    };
    let funcs = w.funcs.clone();
    // Several sides, and how they relate.
    let mut sides: Vec<Side> = vec![];
    let mut concat = false;
    let name: &'static str;
    match rel {
        0 => {
            name = "concatenation";
            let mut g = Gen::new(s, p, &funcs, &globals);
            let a = g.body();
            let b = g.body();
            let set = std::mem::take(&mut g.templates);
            let first = match b.first() {
                Some(Piece::Raw(t)) => t.chars().next(),
                _ => None,
            };
            let mut b = b;
            if !first.map_or(false, |c| c.is_alphanumeric()) {
                b.insert(0, raw(s.pick(&["|", "x", "名", ";"])));
            }
            let ab: Vec<Piece> = a.iter().chain(&b).cloned().collect();
            sides.push(base(ab, set.clone()));
            sides.push(base(a, set.clone()));
            sides.push(base(b, set));
            concat = true;
        }
        1 | 2 => {
            let mut g = Gen::new(s, p, &funcs, &globals);
            let c = loop {
                let c = g.cond();
                if !c.starts_with("not") {
                    break c;
                }
                if g.s.odds(1, 2) {
                    break "a".into();
                }
            };
            let c2 = g.cond();
            let (x, y, z) = (g.body(), g.body(), g.body());
            let pre = g.body();
            let set = std::mem::take(&mut g.templates);
            let cat = |parts: Vec<Vec<Piece>>| pre.iter().cloned().chain(parts.into_iter().flatten()).collect::<Vec<_>>();
            let one = |t: &str| vec![block(t)];
            if rel == 1 {
                name = "not swaps the branches";
                let l = cat(vec![one(&format!("if {c}")), x.clone(), one("else"), y.clone(), one("endif")]);
                let r = cat(vec![one(&format!("if not {c}")), y, one("else"), x, one("endif")]);
                sides.push(base(l, set.clone()));
                sides.push(base(r, set));
            } else {
                name = "else if is an if in the else";
                let l = cat(vec![
                    one(&format!("if {c}")), x.clone(), one(&format!("else if {c2}")), y.clone(), one("else"), z.clone(), one("endif"),
                ]);
                let r = cat(vec![
                    one(&format!("if {c}")), x, one("else"), one(&format!("if {c2}")), y, one("else"), z, one("endif"), one("endif"),
                ]);
                sides.push(base(l, set.clone()));
                sides.push(base(r, set));
            }
        }
        3 | 4 => {
            // A loop unrolled.
            let (path, v) = unique_path(s, &gg);
            let l: Vec<(Option<String>, String, Value)> = match &v {
                Value::List(l) => l.iter().enumerate().map(|(i, x)| (None, format!("{path}.{i}"), x.clone())).collect(),
                Value::Map(m) if m.keys().all(|k| gen::is_ident(k)) => {
                    m.iter().map(|(k, x)| (Some(k.clone()), format!("{path}.{k}"), x.clone())).collect()
                }
                _ => return case.discard("nothing to loop over"),
            };
            name = "a loop is its body for each element";
            let map = matches!(v, Value::Map(_));
            let mut g = Gen::new(s, p, &funcs, &globals);
            let x = g.name();
            let k = g.s.pick(&["k", "key", "kk"]);
            let k = if x == k { "kkk".to_string() } else { k.to_string() };
            let sample = l.first().map_or(Value::None, |e| e.2.clone());
            let body = match map {
                true => g.body_with(&[(&k, Value::String("a".into())), (&x, sample)]),
                false => g.body_with(&[(&x, sample)]),
            };
            let set = std::mem::take(&mut g.templates);
            let vars = if map { format!("{k}, {x}") } else { x.clone() };
            let computed = if s.odds(1, 4) { " | id" } else { "" };
            let mut a = vec![block(format!("for {vars} in {path}{computed}"))];
            a.extend(body.clone());
            a.push(block("endfor"));
            let mut b = vec![];
            for (key, path, _) in &l {
                if let Some(key) = key {
                    b.push(block(format!("with {key:?} as {k}")));
                }
                b.push(block(format!("with {path} as {x}")));
                b.extend(body.clone());
                b.push(block("endwith"));
                if key.is_some() {
                    b.push(block("endwith"));
                }
            }
            if has_loop(&body) || set.values().any(|t| has_loop(t)) {
                // Only the loop has loop metadata; inner loops' own is no
                // problem as long as the unrolled form renders.
                let sc = w.scene(&base(b.clone(), set.clone()));
                if !sc.predict(&Ctx::Value(&globals)).map_or(false, |o| o.res.is_ok()) {
                    return case.discard("uses the loop metadata");
                }
            }
            sides.push(base(a, set.clone()));
            sides.push(base(b, set));
        }
        5 | 6 => {
            name = "a with block is a substitution";
            let (mut path, mut v) = unique_path(s, &gg);
            let literal = s.odds(1, 3);
            let mut g = Gen::new(s, p, &funcs, &globals);
            if literal {
                let (t, x) = if g.s.coin() {
                    let t = g.s.pick(&["0.5", "-0.0", "0.0", "5e-324", "0", "-0", "\"\"", "\" \"", "\"0\"", "256", "4294967296", "-1"]);
                    (t.to_string(), None)
                } else {
                    g.literal(gen::Want::Any)
                };
                // A sign must not become a trim marker.
                (path, v) = (format!(" {t}"), x.unwrap_or(Value::Bool(true)));
            }
            let mut body = g.body_with(&[("hole", v)]);
            if literal || g.s.odds(1, 8) {
                // Where else a value can be used.
                let t = g.s.pick(&["if hole", "if not hole", "if false|else if hole", "if true|!|else if hole", "if not true|!|else if not hole"]);
                for t in t.split('|') {
                    body.push(if t == "!" { raw("!") } else { block(t) });
                }
                body.push(raw("T"));
                if !g.s.odds(1, 8) {
                    body.push(block("else"));
                    body.push(raw("F"));
                }
                body.push(block("endif"));
                let e = g.s.pick(&["hole", "hole | text", "hole | show", "1 | pair: hole | show", "hole | pair: hole | show"]);
                body.push(emit(e));
            }
            let set = std::mem::take(&mut g.templates);
            if literal {
                let member = |t: &Vec<Piece>| {
                    t.iter().any(|p| match p {
                        Piece::Tag { inner, .. } => holes(inner).iter().skip(1).any(|r| r.trim_start().starts_with(['.', '?'])),
                        Piece::Raw(_) => false,
                    })
                };
                if member(&body) || set.values().any(member) {
                    return case.discard("a member of a literal");
                }
            }
            if own_context(&body, &set).iter().any(|n| set.get(n).map_or(false, |t| t.iter().any(uses_hole))) {
                return case.discard("the variable in a template with a context of its own");
            }
            let mut a = vec![block(format!("with {path} as hole"))];
            a.extend(body.clone());
            a.push(block("endwith"));
            let b = substitute(&body, &path);
            let set2 = set.iter().map(|(n, t)| (n.clone(), substitute(t, &path))).collect();
            sides.push(base(a, set));
            sides.push(base(b, set2));
        }
        7 => {
            name = "a chain of filters is a chain of with blocks";
            let mut g = Gen::new(s, p, &funcs, &globals);
            let (e, _) = g.base(gen::Want::Any);
            let n = g.s.range(1, 4);
            let fs: Vec<String> = (0..n)
                .map(|_| {
                    let f = g.s.pick(&["id", "text", "tolist", "tomap", "pair", "or", "upper", "inc", "len", "void"]);
                    match f {
                        "pair" | "or" => format!("{f}: {}", g.base(gen::Want::Any).0),
                        f => f.to_string(),
                    }
                })
                .collect();
            let last = g.s.pick(&["text", "show", "id"]);
            let set = std::mem::take(&mut g.templates);
            let a = vec![emit(format!("{e} | {} | {last}", fs.join(" | ")))];
            let k = s.below(fs.len());
            let head = if k == 0 { e.clone() } else { format!("{e} | {}", fs[..k].join(" | ")) };
            let b = vec![
                block(format!("with {head} as hole")),
                emit(format!("hole | {} | {last}", fs[k..].join(" | "))),
                block("endwith"),
            ];
            sides.push(base(a, set.clone()));
            sides.push(base(b, set));
        }
        8 => {
            name = "an include with a value is a render with that value";
            let (path, v) = unique_path(s, &gg);
            let mut g = Gen::new(s, p, &funcs, &v);
            let body = g.body1();
            let set = std::mem::take(&mut g.templates);
            let mut set2 = set.clone();
            set2.insert("out".into(), body.clone());
            let a = base(vec![block(format!("include \"out\" with {path}"))], set2);
            let mut b = base(body, set);
            b.globals = v;
            sides.push(a);
            sides.push(b);
        }
        14 => {
            name = "other delimiters";
            let mut g = Gen::new(s, p, &funcs, &globals);
            let body = g.body1();
            let set = std::mem::take(&mut g.templates);
            let a = base(body, set);
            let mut b = a.clone();
            let q = |a: &str, b: &str| Some((a.to_string(), b.to_string()));
            b.delims = Delims {
                expr: q("⟦", "⟧"),
                block: q("⟦⟦", "⟧⟧"),
                comment: q("⟪", "⟫"),
            };
            let clean = |t: &Vec<Piece>| {
                t.iter().all(|p| match p {
                    Piece::Raw(t) => !t.contains(|c| "{}%#⟦⟧⟪⟫".contains(c)),
                    Piece::Tag { inner, .. } => !inner.contains(|c| "{}%#⟦⟧⟪⟫".contains(c)),
                })
            };
            if !clean(&a.root) || !a.set.values().all(clean) {
                return case.discard("delimiters in the text");
            }
            sides.push(a);
            sides.push(b);
        }
        15 => {
            name = "unrelated data";
            let mut g = Gen::new(s, p, &funcs, &globals);
            let body = g.body1();
            let set = std::mem::take(&mut g.templates);
            let a = base(body, set);
            let mut b = a.clone();
            // What no tag mentions is unrelated.
            let all: Vec<String> = a.set.values().chain([&a.root]).map(|t| gen::spell(t, &a.delims)).collect();
            let word = |k: &str| all.iter().any(|t| t.split(|c| !crate::model::is_ident_continue(c)).any(|w| w == k));
            let quoted = |k: &str| all.iter().any(|t| t.contains(&format!("{k:?}")));
            if let Value::Map(m) = &mut b.globals {
                for k in ["A", "aa", "aaa", "ab", "zzzz", "m2", "xsx", "", "名名", "loo", "0"] {
                    if s.coin() && (k.is_empty() || k == "0" || !word(k)) {
                        m.insert(k.into(), gen::value(s, 1));
                    }
                }
            }
            for k in ["t00", "T", "tt", "root"] {
                if s.coin() && !quoted(k) {
                    b.set.insert(k.into(), vec![raw("unrelated")]);
                }
            }
            sides.push(a);
            sides.push(b);
        }
        _ => {
            // A fragment anywhere is wrapped; bars keep the trim markers and
            // the delimiters of its neighbours apart from what is put there.
            let mut g = Gen::new(s, p, &funcs, &globals);
            let body = g.body1();
            let mut set = std::mem::take(&mut g.templates);
            let mut root = body;
            let place = if s.odds(1, 3) && !set.is_empty() {
                let ks: Vec<String> = set.keys().cloned().collect();
                Some(s.of(&ks).clone())
            } else {
                None
            };
            let target = match &place {
                Some(n) => set[n].clone(),
                None => root.clone(),
            };
            let (i, j) = *s.of(&runs(&target));
            let frag = target[i..j].to_vec();
            let mut set2 = set.clone();
            let (open, inner, close): (Vec<Piece>, Vec<Piece>, Vec<Piece>) = match rel {
                9 => {
                    name = "a true conditional around";
                    match s.below(4) {
                        0 => (vec![block("if true")], frag.clone(), vec![block("endif")]),
                        1 => (vec![block("if not false")], frag.clone(), vec![block("else"), raw("no"), block("endif")]),
                        2 => (vec![block("if 0"), raw("no"), block("else")], frag.clone(), vec![block("endif")]),
                        _ => (
                            vec![block("if \"\""), raw("no"), block("else if \"x\"")],
                            frag.clone(),
                            vec![block("else if gg.nothing"), raw("no"), block("endif")],
                        ),
                    }
                }
                10 => {
                    name = "a comment in between";
                    let c = s.pick(&[" c ", "", "if", "\n", "{", " endif ", "\"", "名"]);
                    if s.coin() {
                        (vec![comment(c)], frag.clone(), vec![])
                    } else {
                        (vec![], frag.clone(), vec![comment(c), comment(c)])
                    }
                }
                11 => {
                    name = "a fragment moved to an included template";
                    let mut t = vec![];
                    if s.coin() {
                        t.push(comment("moved"));
                    }
                    t.extend(frag.clone());
                    set2.insert("moved".into(), t);
                    (vec![block("include \"moved\"")], vec![], vec![])
                }
                12 => {
                    name = "a loop over one element around";
                    if has_loop(&frag) || set.values().any(|t| has_loop(t)) {
                        return case.discard("uses the loop metadata");
                    }
                    // Included templates may not see the globals.
                    let e = s.pick(&["1 | upto", "one", "one | id", "one | rev"]);
                    let e = if place.is_some() { "1 | upto" } else { e };
                    (vec![block(format!("for unused in {e}"))], frag.clone(), vec![block("endfor")])
                }
                _ => {
                    name = "an unused variable around";
                    let e = s.pick(&["gg", "1", "\"x\"", "one.0", "gg?.nothing_here_at_all", "one | id"]);
                    let e = if place.is_some() { "1 | upto" } else { e };
                    let e = if e.starts_with("gg?") && !matches!(gg, Value::Map(_)) { "gg" } else { e };
                    (vec![block(format!("with {e} as unused"))], frag.clone(), vec![block("endwith")])
                }
            };
            let put = |mid: Vec<Piece>| -> Vec<Piece> {
                target[..i]
                    .iter()
                    .cloned()
                    .chain([raw("|")])
                    .chain(mid)
                    .chain([raw("|")])
                    .chain(target[j..].iter().cloned())
                    .collect()
            };
            let a = put(frag.clone());
            let b = put(open.into_iter().chain(inner).chain(close).collect());
            let mut root2 = root.clone();
            match &place {
                Some(n) => {
                    set.insert(n.clone(), a);
                    set2.insert(n.clone(), b);
                }
                None => {
                    root = a;
                    root2 = b;
                }
            }
            sides.push(base(root, set));
            sides.push(base(root2, set2));
        }
    }
    let scenes: Vec<Scene> = sides.iter().map(|x| w.scene(x)).collect();
    case.say(|| name.to_string());
    let mut steps = 0;
    for (i, sc) in scenes.iter().enumerate() {
        let shown = if i == 0 { sc.describe() } else { sc.describe().lines().filter(|l| !l.starts_with("context")).collect::<Vec<_>>().join("\n") };
        case.say(|| shown);
        let Some(o) = sc.predict(&Ctx::Value(&sc.globals)) else {
            return case.discard("not a valid template");
        };
        if let Some(d) = o.discard {
            return case.discard(d);
        }
        steps = steps.max(o.stats.steps);
    }
    let mut outs = vec![];
    for sc in &scenes {
        outs.push(sc.actual(&RealCtx::Value(&sc.globals))?.res);
    }
    if concat {
        let exp = match (&outs[1], &outs[2]) {
            (Ok(a), Ok(b)) => Ok(format!("{a}{b}")),
            (Err(e), _) | (_, Err(e)) => Err(e.clone()),
        };
        same("the parts", &exp, "the whole", &outs[0])?;
    } else {
        same("first", &outs[0], "second", &outs[1])?;
    }
    case.label(name);
    case.label(if outs[0].is_ok() { "renders" } else { "fails" });
    case.key(name);
    for sc in &scenes {
        case.key(&sc.describe());
    }
    case.key(&show(&globals));
    case.nontrivial = steps >= 4 && outs[0].is_ok();
    Ok(())
}

fn same(an: &str, a: &Result<String, Seen>, bn: &str, b: &Result<String, Seen>) -> Res {
    let ok = match (a, b) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => a.kind == b.kind && (!matches!(a.kind, Kind::Filter | Kind::Format) || a.reason == b.reason),
        _ => false,
    };
    if !ok {
        return Err(format!("{an}: {a:?}\n{bn}: {b:?}"));
    }
    Ok(())
}

const P: &[Prop] = &[Prop {
    id: "C24",
    case: c24,
    rule: "pairs of templates related by a law (concatenation, branch swap, else-if, unrolling, substitution, filter chain, include as render, wrapping or moving a fragment at any depth, delimiters, unrelated data), rendered by the library and compared with each other; non-trivial: at least 4 steps and the first side renders",
    assumptions: &["filters with borrowed parameters after the first are left out, as they tell bound from computed values"],
    quick: 120_000,
    thorough: 20_000_000,
    once: None,
}];
pub static PROPS: &[&Prop] = &[&P[0]];
