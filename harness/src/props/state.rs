//! C18: the engine as a state machine, against a model of its registries.

use std::collections::BTreeMap;

use upon::{Engine, EngineFn, Template, Value};

use super::scene::{all_funcs, compare, Real, Scene};
use super::ways::{run_way, How, Store, Way};
use crate::funcs::{self, Fmt, Func, FuncSet};
use crate::gen::{self, Gen, Prof};
use crate::model::{self, show, Ctx, Delims, Kind};
use crate::run::{Case, Prop, Res};
use crate::src::Src;
use crate::uut::{self, guard, see, Level};

/// Few names, so that they collide; some also name templates.
const FN_NAMES: &[&str] = &["f", "g", "show", "t0", "a", "id", "名"];
const TPL_NAMES: &[&str] = &["t0", "t1", "f", "名.html", "a b", "", "id"];

#[derive(Clone, Debug)]
enum Op {
    Add { name: String, text: String, owned: bool },
    Remove(String),
    Filter(String, String),
    Formatter(String, Fmt),
    RemoveFn(String),
    Default(Fmt),
    Depth(usize),
    Hold(String),
    Render { held: Option<usize>, name: String, how: How },
    Lookup(String),
}

fn kind_of(f: &Func) -> EngineFn {
    match f {
        Func::Filter(_) => EngineFn::Filter,
        Func::Formatter(_) => EngineFn::Formatter,
    }
}

struct State<'e> {
    e: Engine<'e>,
    templates: BTreeMap<String, String>,
    funcs: FuncSet,
    fmt: Fmt,
    depth: Option<usize>,
    held: Vec<(String, Template<'static>)>,
    adds: usize,
    replaced: usize,
    renders: usize,
    ok: usize,
    rejected: usize,
    /// Names of templates, of functions, and names that are never registered.
    tpls: Vec<String>,
    fns: Vec<String>,
    never: Vec<String>,
}

fn text(s: &mut Src, st: &State<'_>, globals: &Value) -> (String, Vec<(String, String)>) {
    let p = Prof {
        raw: 3,
        emit: 6,
        cond: 1,
        loops: 1,
        with: 1,
        include: 3,
        filter: 7,
        formatter: 6,
        trim: 0,
        near: 0,
        space: 1,
        len: 3,
        templates: s.below(3),
        boom: true,
        fault: 4,
        cyclic: 2,
        ..Prof::default()
    };
    // Sometimes written for functions that are not there, or not yet.
    let mut funcs = st.funcs.clone();
    if funcs.is_empty() || s.odds(1, 4) {
        let all = all_funcs();
        funcs.insert(s.of(&st.fns).clone(), all["id"]);
        funcs.insert(s.of(&st.fns).clone(), all["show"]);
    }
    let mut g = Gen::new(s, p, &funcs, globals);
    let mut root = g.body1();
    let d = Delims::default();
    let others: Vec<(String, String)> = std::mem::take(&mut g.templates)
        .iter()
        .map(|(n, t)| (n.clone(), gen::spell(t, &d)))
        .collect();
    if s.odds(1, 3) {
        // Refers to a template that is, was or will be registered.
        let from = if s.odds(1, 12) { &st.never } else { &st.tpls };
        let n = s.of(from).clone();
        let mut g = Gen::new(s, Prof::default(), &funcs, globals);
        let n = g.str_text(&n);
        root.push(gen::Piece::Raw(format!("{{% include {n} %}}")));
    }
    (gen::spell(&root, &d), others)
}

fn broken(s: &mut Src) -> String {
    s.pick(&[
        "{{ a",
        "{% if a %}x",
        "x {% endif %}",
        "{{ a | }}",
        "{{ 0x1_zz }}",
        "{% for x in %}{% endfor %}",
        "{{ a }} {% include f %}",
        "{{ \"\\q\" }}",
        "{# c",
        "}}",
    ])
    .to_string()
}

impl<'e> State<'e> {
    fn scene(&self, root: &str, name: Option<&str>, globals: &Value) -> Scene {
        let mut sc = Scene::new(globals.clone(), root.to_string(), self.funcs.clone());
        sc.templates = self.templates.clone();
        sc.root_name = name.map(|n| n.to_string());
        sc.default_fmt = self.fmt;
        sc.engine_depth = self.depth;
        sc
    }

    fn check_names(&self) -> Res {
        for n in self.tpls.iter().chain(&self.never).chain(self.templates.keys()).cloned().collect::<Vec<_>>() {
            let got = guard("get_template", || self.e.get_template(&n).map(|t| t.source().to_string()))?;
            if got.as_ref() != self.templates.get(&n) {
                return Err(format!("get_template({n:?}) has source {got:?}, expected {:?}", self.templates.get(&n)));
            }
        }
        Ok(())
    }

    fn add(&mut self, name: &str, text: &str, owned: bool, arena: &'e Arena) -> Res {
        let valid = model::parse(&Delims::default(), text).is_ok();
        let r = if owned {
            guard("add_template", || self.e.add_template(name.to_string(), text.to_string()))?
        } else {
            let (n, t) = (arena.keep(name), arena.keep(text));
            guard("add_template", || self.e.add_template(n, t))?
        };
        match (r, valid) {
            (Ok(()), true) => {
                self.adds += 1;
                if self.templates.insert(name.into(), text.into()).is_some() {
                    self.replaced += 1;
                }
            }
            (Err(err), false) => {
                let sn = see(&err)?;
                if sn.kind != Kind::Syntax || sn.pretty.as_ref().map_or(true, |p| p.name != name) {
                    return Err(format!("adding {name:?} = {text:?} failed with {}", sn.text));
                }
                self.rejected += 1;
            }
            (Ok(()), false) => return Err(format!("{text:?} was accepted")),
            (Err(err), true) => return Err(format!("{text:?} was rejected: {err:#}")),
        }
        self.check_names()
    }

    fn render(&mut self, root: String, name: Option<&str>, held: Option<usize>, how: How, globals: &Value) -> Res {
        let sc = self.scene(&root, name, globals);
        let Some(exp) = sc.predict(&Ctx::Value(globals)) else {
            return Err("a registered template is not valid".into());
        };
        if exp.discard.is_some() {
            return Ok(());
        }
        let st = Store::new();
        funcs::log_start();
        let res = match held {
            // Any template serves when only the registered one is rendered.
            Some(i) => {
                let t = &self.held[i].1;
                if t.source() != root {
                    return Err(format!("a compiled template has source {:?}, expected {root:?}", t.source()));
                }
                match how {
                    How::Value => guard("rendering", || t.render_from(&self.e, globals).to_string())?,
                    _ => guard("rendering", || t.render(&self.e, globals).to_string())?,
                }
                .map(Some)
            }
            None => {
                let dummy = guard("compile", || self.e.compile(""))?.map_err(|e| format!("{e:#}"))?;
                let way = Way { registered: true, how };
                run_way(&sc, name.unwrap_or(""), &self.e, &dummy, &st, way, &|| (), None)?
            }
        };
        let events = funcs::log_take();
        let res = match res {
            Ok(t) => Ok(t.unwrap()),
            Err(e) => Err(see(&e)?),
        };
        self.renders += 1;
        self.ok += res.is_ok() as usize;
        let what = match held {
            Some(_) => format!("compiled template {root:?}"),
            None => format!("template {name:?} = {root:?}"),
        };
        compare(&exp, &Real { res, events }, Level::Location, true)
            .map_err(|m| format!("{what} with templates {:?}, functions {:?}: {m}", self.templates, names(&self.funcs)))
    }
}

fn names(f: &FuncSet) -> Vec<String> {
    f.iter()
        .map(|(n, f)| match f {
            Func::Filter(f) => format!("{n}: filter of {:?}", f.params),
            Func::Formatter(k) => format!("{n}: {k:?}"),
        })
        .collect()
}

/// Texts that outlive the engine.
#[derive(Default)]
struct Arena(std::cell::RefCell<Vec<Box<str>>>);

impl Arena {
    fn keep(&self, t: &str) -> &str {
        let b: Box<str> = t.into();
        let p: *const str = &*b;
        self.0.borrow_mut().push(b);
        // Boxes are never removed while the arena lives.
        unsafe { &*p }
    }
}

fn c18(s: &mut Src, case: &mut Case) -> Res {
    let arena = Arena::default();
    let globals = gen::context(s);
    let d = Delims::default();
    let own = |n: &[&str]| n.iter().map(|n| n.to_string()).collect::<Vec<_>>();
    let (tpls, never) = match s.below(3) {
        0 => (s.tpls[..7].to_vec(), s.misses.clone()),
        _ => (own(TPL_NAMES), own(&[" t0", "T0", "./t1", "f ", "Id", "\0", "missing"])),
    };
    let fns = if s.odds(1, 3) {
        let mut v = vec![gen::ident(s)];
        while v.len() < 7 {
            let b = s.of(&v).clone();
            v.push(match s.below(8) {
                0 => gen::near_name(s, &b),
                1 => gen::ident(s),
                _ => gen::near(s, &b),
            });
        }
        v
    } else {
        own(FN_NAMES)
    };
    let (mut tpls, mut fns) = (tpls, fns);
    if let Some(w) = s.word(1, 2) {
        let w = if s.odds(1, 4) { gen::near(s, &w) } else { w };
        let i = s.below(7);
        if gen::is_ident(&w) && w != "loop" && !model::KEYWORDS.contains(&&*w) && !fns.contains(&w) {
            fns[i] = w.clone();
        }
        if !tpls.contains(&w) && !never.contains(&w) && s.coin() {
            tpls[i] = w;
        }
    }
    let mut st = State {
        tpls,
        fns,
        never,
        e: uut::engine(&d, &FuncSet::new(), Fmt::Builtin, None)?,
        templates: BTreeMap::new(),
        funcs: FuncSet::new(),
        fmt: Fmt::Builtin,
        depth: None,
        held: vec![],
        adds: 0,
        replaced: 0,
        renders: 0,
        ok: 0,
        rejected: 0,
    };
    case.say(|| format!("context: {}", show(&globals)));
    let all = all_funcs();
    let filters: Vec<String> = all
        .iter()
        .filter(|(_, f)| matches!(f, Func::Filter(_)))
        .map(|(n, _)| n.clone())
        .collect();
    let n = s.range(1, if case.tier_thorough { 40 } else { 20 });
    let (mut fn_changes, mut fn_replaced) = (0, 0);
    for _ in 0..n {
        let op = match s.weighted(&[8, 2, 5, 3, 2, 1, 1, 2, 9, 1]) {
            0 => Op::Add {
                name: s.of(&st.tpls).clone(),
                text: String::new(),
                owned: s.coin(),
            },
            1 => Op::Remove(s.of(&st.tpls).clone()),
            2 => {
                let f = if s.coin() { s.pick(&["id", "text", "or", "pair", "inc", "boom"]).to_string() } else { s.of(&filters).clone() };
                Op::Filter(s.of(&st.fns).clone(), f)
            }
            3 => Op::Formatter(s.of(&st.fns).clone(), s.of(Fmt::NAMED).1),
            4 => Op::RemoveFn(s.of(&st.fns).clone()),
            5 => Op::Default(*s.of(&[Fmt::Wrapped, Fmt::Show, Fmt::Bang, Fmt::Nothing, Fmt::ErrNone])),
            6 => Op::Depth(match s.number(1, 4) {
                Some(n) => n as usize,
                None => *s.of(&[0, 1, 2, 3, 64, usize::MAX, usize::MAX - 1, 255, 256, 257]),
            }),
            7 => Op::Hold(String::new()),
            8 => Op::Render {
                held: if s.odds(1, 3) && !st.held.is_empty() { Some(s.below(st.held.len())) } else { None },
                name: s.of(&st.tpls).clone(),
                how: *s.of(&[How::Value, How::Serde, How::View]),
            },
            _ => Op::Lookup(s.of(&st.tpls).clone()),
        };
        match op {
            Op::Add { name, owned, .. } => {
                if s.odds(1, 6) {
                    let t = broken(s);
                    case.say(|| format!("add template {name:?} = {t:?}"));
                    st.add(&name, &t, owned, &arena)?;
                } else {
                    let (t, others) = text(s, &st, &globals);
                    for (n, t) in others {
                        if st.templates.contains_key(&n) && s.coin() {
                            continue;
                        }
                        case.say(|| format!("add template {n:?} = {t:?}"));
                        st.add(&n, &t, owned, &arena)?;
                    }
                    case.say(|| format!("add template {name:?} = {t:?}"));
                    case.key(&t);
                    st.add(&name, &t, owned, &arena)?;
                }
            }
            Op::Remove(name) => {
                case.say(|| format!("remove template {name:?}"));
                let got = guard("remove_template", || st.e.remove_template(&name))?;
                let exp = st.templates.remove(&name).is_some();
                if got != exp {
                    return Err(format!("remove_template({name:?}) returned {got}, expected {exp}"));
                }
                st.check_names()?;
            }
            Op::Filter(name, f) => {
                case.say(|| format!("add filter {name:?}: {f}"));
                let Func::Filter(x) = all[&f] else { continue };
                let got = guard("add_filter", || (x.reg)(&mut st.e, name.clone(), x.run))?;
                let old = st.funcs.insert(name.clone(), Func::Filter(x));
                if got != old.as_ref().map(kind_of) {
                    return Err(format!("add_filter({name:?}) returned {got:?}, expected {:?}", old.as_ref().map(kind_of)));
                }
                fn_changes += 1;
                fn_replaced += old.is_some() as usize;
                case.key(&f);
            }
            Op::Formatter(name, k) => {
                case.say(|| format!("add formatter {name:?}: {k:?}"));
                let got = guard("add_formatter", || k.register(&mut st.e, name.clone()))?;
                let old = st.funcs.insert(name.clone(), Func::Formatter(k));
                if got != old.as_ref().map(kind_of) {
                    return Err(format!("add_formatter({name:?}) returned {got:?}, expected {:?}", old.as_ref().map(kind_of)));
                }
                fn_changes += 1;
                fn_replaced += old.is_some() as usize;
            }
            Op::RemoveFn(name) => {
                case.say(|| format!("remove function {name:?}"));
                let got = guard("remove_function", || st.e.remove_function(&name))?;
                let old = st.funcs.remove(&name);
                if got != old.as_ref().map(kind_of) {
                    return Err(format!("remove_function({name:?}) returned {got:?}, expected {:?}", old.as_ref().map(kind_of)));
                }
                fn_changes += 1;
            }
            Op::Default(k) => {
                case.say(|| format!("default formatter {k:?}"));
                guard("set_default_formatter", || k.set_default(&mut st.e))?;
                st.fmt = k;
            }
            Op::Depth(n) => {
                case.say(|| format!("max include depth {n}"));
                guard("set_max_include_depth", || st.e.set_max_include_depth(n))?;
                st.depth = Some(n);
            }
            Op::Hold(_) => {
                let (t, others) = text(s, &st, &globals);
                for (n, t) in others {
                    st.add(&n, &t, true, &arena)?;
                    case.say(|| format!("add template {n:?} = {t:?}"));
                }
                case.say(|| format!("compile {t:?}"));
                let valid = model::parse(&d, &t).is_ok();
                match guard("compile", || st.e.compile(t.clone()))? {
                    Err(_) if !valid => {}
                    Ok(x) if valid => st.held.push((t, x)),
                    Ok(_) => return Err(format!("{t:?} was accepted")),
                    Err(e) => return Err(format!("{t:?} was rejected: {e:#}")),
                }
                let b = broken(s);
                match guard("compile", || st.e.compile(b.clone()))? {
                    Ok(_) => return Err(format!("{b:?} was accepted")),
                    Err(e) => {
                        let sn = see(&e)?;
                        if sn.pretty.as_ref().map_or(true, |p| p.name != "<anonymous>") {
                            return Err(format!("the error of an unnamed template is {}", sn.text));
                        }
                    }
                }
                st.check_names()?;
            }
            Op::Render { held, name, how } => {
                if let Some(i) = held {
                    case.say(|| format!("render compiled template {i}"));
                    let root = st.held[i].0.clone();
                    st.render(root, None, Some(i), how, &globals)?;
                } else if let Some(t) = st.templates.get(&name).cloned() {
                    case.say(|| format!("render {name:?} {how:?}"));
                    st.render(t, Some(&name), None, how, &globals)?;
                } else {
                    lookup_missing(&st, &name)?;
                }
            }
            Op::Lookup(name) => {
                case.say(|| format!("look up {name:?}"));
                if !st.templates.contains_key(&name) {
                    lookup_missing(&st, &name)?;
                }
                st.check_names()?;
            }
        }
    }
    if s.rare(48) {
        mass(s, case, &mut st, &arena, &globals)?;
    }
    // Everything there is, at the end.
    for (n, t) in st.templates.clone() {
        st.render(t, Some(&n), None, How::Value, &globals)?;
    }
    for i in 0..st.held.len() {
        let root = st.held[i].0.clone();
        st.render(root, None, Some(i), How::Value, &globals)?;
    }
    case.key(&show(&globals));
    case.label_if(st.replaced > 0, "template replaced");
    case.label_if(fn_replaced > 0, "function replaced");
    case.label_if(st.rejected > 0, "invalid template refused");
    case.label_if(!st.held.is_empty(), "compiled template kept");
    case.label_if(st.ok > 0, "successful render");
    case.label_if(st.ok < st.renders, "failing render");
    case.nontrivial = st.adds >= 2 && fn_changes >= 1 && st.ok >= 1;
    Ok(())
}

/// Many names, or many registrations of one.
fn mass<'e>(s: &mut Src, case: &mut Case, st: &mut State<'e>, arena: &'e Arena, globals: &Value) -> Res {
    const SIZES: &[usize] = &[33, 65, 127, 129, 254, 255, 256, 257, 258, 300, 512, 513, 1025];
    let all = all_funcs();
    let pre = s.pick(&["m", "名", "t", "m/"]);
    let mut end = "!".to_string();
    while st.tpls.iter().chain(&st.fns).chain(&st.never).any(|n| n.ends_with(&end)) {
        end.push('!');
    }
    let name = |i: usize| format!("{pre}{i:03}{end}");
    match s.below(4) {
        0 => {
            let n = s.size(SIZES, 6000);
            case.say(|| format!("add {n} templates"));
            case.label("hundreds of templates");
            for i in 0..n {
                let r = guard("add_template", || match i % 2 {
                    0 => st.e.add_template(name(i), format!("x{i}")),
                    _ => st.e.add_template(arena.keep(&name(i)), arena.keep(&format!("x{i}"))),
                })?;
                r.map_err(|e| format!("template {} was rejected: {e:#}", name(i)))?;
            }
            st.check_names()?;
            for i in 0..n {
                let got = guard("get_template", || st.e.get_template(&name(i)).map(|t| t.source().to_string()))?;
                if got != Some(format!("x{i}")) {
                    return Err(format!("of {n} templates, {:?} has source {got:?}, expected \"x{i}\"", name(i)));
                }
            }
            for _ in 0..8 {
                let i = s.below(n);
                let t = guard("compile", || st.e.compile(format!("[{{% include \"{}\" %}}]", name(i))))?.map_err(|e| format!("{e:#}"))?;
                let got = guard("rendering", || t.render_from(&st.e, globals).to_string())?;
                let deep = st.depth.map_or(false, |d| d < 2);
                if !deep && got.as_ref().ok() != Some(&format!("[x{i}]")) {
                    return Err(format!("of {n} templates, including {:?} renders {got:?}, expected \"[x{i}]\"", name(i)));
                }
            }
            for i in 0..n {
                let (a, b) = guard("remove_template", || (st.e.remove_template(&name(i)), st.e.remove_template(&name(i))))?;
                if (a, b) != (true, false) {
                    return Err(format!("removing {:?} twice returns {a} and {b}", name(i)));
                }
            }
            st.check_names()?;
        }
        1 => {
            let n = s.size(SIZES, 70_000);
            let key = s.of(&st.tpls).clone();
            case.say(|| format!("add template {key:?} {n} times"));
            case.label("hundreds of registrations of a name");
            let gone = s.odds(1, 3);
            for i in 0..n {
                if gone && i % 2 == 1 {
                    guard("remove_template", || st.e.remove_template(&key))?;
                    if guard("get_template", || st.e.get_template(&key).is_some())? {
                        return Err(format!("{key:?} is still there after its removal {i}"));
                    }
                    continue;
                }
                guard("add_template", || st.e.add_template(key.clone(), format!("x{i}")))?.map_err(|e| format!("{e:#}"))?;
                let got = guard("get_template", || st.e.get_template(&key).map(|t| t.source().to_string()))?;
                if got != Some(format!("x{i}")) {
                    return Err(format!("{key:?} registered {} times has source {got:?}, expected \"x{i}\"", i + 1));
                }
            }
            st.templates.remove(&key);
            st.add(&key, "the last", false, arena)?;
            st.render("the last".into(), Some(&key), None, How::Value, globals)?;
        }
        2 => {
            let n = s.size(SIZES, 6000);
            case.say(|| format!("add {n} filters"));
            case.label("hundreds of functions");
            let (Func::Filter(id), Func::Filter(text)) = (all["id"], all["text"]) else { return Ok(()) };
            for i in 0..n {
                let f = if i % 2 == 0 { id } else { text };
                if let Some(k) = guard("add_filter", || (f.reg)(&mut st.e, name(i), f.run))? {
                    return Err(format!("adding {:?} replaces a {k:?}", name(i)));
                }
            }
            for i in 0..n {
                let got = guard("remove_function", || (st.e.remove_function(&name(i)), st.e.remove_function(&name(i))))?;
                if got != (Some(EngineFn::Filter), None) {
                    return Err(format!("of {n} filters, removing {:?} twice returns {got:?}", name(i)));
                }
            }
            st.check_names()?;
        }
        _ => {
            let n = s.size(SIZES, 70_000);
            let key = s.of(&st.fns).clone();
            case.say(|| format!("add function {key:?} {n} times"));
            case.label("hundreds of registrations of a name");
            let Func::Filter(id) = all["id"] else { return Ok(()) };
            let mut old = st.funcs.get(&key).map(kind_of);
            let step = s.range(2, 5);
            for i in 0..n {
                let (got, now) = match i % step {
                    0 => (guard("add_formatter", || Fmt::Show.register(&mut st.e, key.clone()))?, Some(EngineFn::Formatter)),
                    3 => (guard("remove_function", || st.e.remove_function(&key))?, None),
                    _ => (guard("add_filter", || (id.reg)(&mut st.e, key.clone(), id.run))?, Some(EngineFn::Filter)),
                };
                if got != old {
                    return Err(format!("change {i} of the function {key:?} reports {got:?}, expected {old:?}"));
                }
                old = now;
            }
            guard("add_filter", || (id.reg)(&mut st.e, key.clone(), id.run))?;
            st.funcs.insert(key, Func::Filter(id));
        }
    }
    Ok(())
}

fn lookup_missing(st: &State<'_>, name: &str) -> Res {
    if guard("get_template", || st.e.get_template(name).is_some())? {
        return Err(format!("get_template({name:?}) finds a template that is not registered"));
    }
    if let Ok(src) = guard("template", || st.e.template(name).source().to_string()) {
        return Err(format!("template({name:?}) finds {src:?}, which is not registered"));
    }
    Ok(())
}

const P: &[Prop] = &[Prop {
    id: "C18",
    case: c18,
    rule: "histories of registrations, removals, settings, lookups and renders over few names, compared with a model after every step; non-trivial: at least two templates added, one function changed and one successful render",
    assumptions: &["the reference model in harness/src/model states the documented semantics"],
    quick: 120_000,
    thorough: 6_000_000,
    once: None,
}];
pub static PROPS: &[&Prop] = &[&P[0]];
