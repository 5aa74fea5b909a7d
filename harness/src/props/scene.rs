//! Properties decided by rendering generated scenes and comparing the output,
//! the error and the calls of user functions with the reference model.

use std::collections::BTreeMap;

use upon::{Engine, Value};

use crate::funcs::{self, Fmt, Func, FuncSet};
use crate::gen::{self, Gen, Prof};
use crate::model::{self, show, Ctx, Delims, Event, Outcome, Stats, World};
use crate::run::{Case, Prop, Res};
use crate::src::Src;
use crate::uut::{self, compare_fail, guard, see, Level, Seen};

thread_local! {
    static FUNCS: FuncSet = funcs::standard();
}

pub fn with_funcs<T>(f: impl FnOnce(&FuncSet) -> T) -> T {
    FUNCS.with(|x| f(x))
}

/// Everything that determines a rendering.
#[derive(Clone)]
pub struct Scene {
    pub delims: Delims,
    pub templates: BTreeMap<String, String>,
    pub root: String,
    pub root_name: Option<String>,
    pub globals: Value,
    pub funcs: FuncSet,
    pub default_fmt: Fmt,
    pub engine_depth: Option<usize>,
    pub render_depth: Option<usize>,
    /// Use the renderer's own template function, with these answers.
    pub custom: Option<BTreeMap<String, Result<String, String>>>,
}

pub const CUSTOM_MISSING: &str = "no such template, says the function";

impl Scene {
    pub fn new(globals: Value, root: String, funcs: FuncSet) -> Self {
        Scene {
            delims: Delims::default(),
            templates: BTreeMap::new(),
            root,
            root_name: None,
            globals,
            funcs,
            default_fmt: Fmt::Builtin,
            engine_depth: None,
            render_depth: None,
            custom: None,
        }
    }

    pub fn max_depth(&self) -> usize {
        self.render_depth.or(self.engine_depth).unwrap_or(64)
    }

    pub fn describe(&self) -> String {
        let mut t = String::new();
        if self.delims != Delims::default() {
            t.push_str(&format!("delimiters: {:?}\n", self.delims));
        }
        t.push_str(&format!("template{}: {:?}\n", match &self.root_name {
            Some(n) => format!(" {n:?}"),
            None => String::new(),
        }, self.root));
        for (n, x) in &self.templates {
            t.push_str(&format!("included {n:?}: {x:?}\n"));
        }
        if let Some(c) = &self.custom {
            t.push_str(&format!("template function answers: {c:?}\n"));
        }
        if self.default_fmt != Fmt::Builtin {
            t.push_str(&format!("default formatter: {:?}\n", self.default_fmt));
        }
        if self.engine_depth.is_some() || self.render_depth.is_some() {
            t.push_str(&format!(
                "max include depth: engine {:?}, renderer {:?}\n",
                self.engine_depth, self.render_depth
            ));
        }
        t.push_str(&format!("context: {}", show(&self.globals)));
        t
    }

    /// `None` if some text is not valid.
    pub fn predict(&self, ctx: &Ctx<'_>) -> Option<Outcome> {
        let ok = |t: &str| model::parse(&self.delims, t).is_ok();
        if !ok(&self.root) || !self.templates.values().all(|t| ok(t)) {
            return None;
        }
        if let Some(c) = &self.custom {
            if !c.values().flatten().all(|t| ok(t)) {
                return None;
            }
        }
        let mut all = std::borrow::Cow::Borrowed(&self.templates);
        if let Some(n) = &self.root_name {
            all.to_mut().insert(n.clone(), self.root.clone());
        }
        let w = World {
            delims: &self.delims,
            templates: &all,
            custom: self.custom.as_ref(),
            custom_missing: CUSTOM_MISSING,
            funcs: &self.funcs,
            default_fmt: self.default_fmt,
            max_depth: self.max_depth(),
        };
        Some(model::render(&w, self.root_name.as_deref(), &self.root, ctx))
    }

    pub fn engine(&self) -> Result<Engine<'_>, String> {
        let mut e = uut::engine(&self.delims, &self.funcs, self.default_fmt, self.engine_depth)?;
        uut::add_all(&mut e, &self.templates)?;
        if let Some(n) = &self.root_name {
            guard("add_template", || e.add_template(n.clone(), self.root.clone()))?
                .map_err(|err| format!("the template was rejected: {err:#}"))?;
        }
        Ok(e)
    }

    /// Renders with the library.
    pub fn actual(&self, ctx: &RealCtx<'_>) -> Result<Real, String> {
        let e = self.engine()?;
        self.actual_in(&e, ctx)
    }

    /// Another engine, which compiles the templates of every fourth scene: only
    /// its syntax may matter for them.
    pub fn stranger(&self) -> Result<Option<Engine<'_>>, String> {
        if self.root.len() % 4 != 3 {
            return Ok(None);
        }
        let mut e = uut::engine(&self.delims, &FuncSet::new(), Fmt::Nothing, Some(0))?;
        for n in self.funcs.keys() {
            e.add_filter(n.clone(), |_: Value| "a stranger's");
        }
        for n in self.templates.keys() {
            // A word may be a delimiter of the scene, the empty text never is.
            if guard("add_template", || e.add_template(n.clone(), "a stranger's"))?.is_err() {
                guard("add_template", || e.add_template(n.clone(), ""))?.map_err(|e| format!("{e:#}"))?;
            }
        }
        Ok(Some(e))
    }

    pub fn actual_in(&self, e: &Engine<'_>, ctx: &RealCtx<'_>) -> Result<Real, String> {
        let stranger = self.stranger()?;
        let by = stranger.as_ref().unwrap_or(e);
        let tpl = guard("compile", || by.compile(self.root.as_str()))?
            .map_err(|err| format!("the template was rejected: {err:#}"))?;
        let mut store: BTreeMap<&str, Result<upon::Template<'_>, String>> = BTreeMap::new();
        if let Some(c) = &self.custom {
            for (n, t) in c {
                let v = match t {
                    Ok(t) => Ok(guard("compile", || by.compile(t.as_str()))?
                        .map_err(|err| format!("template {n:?} was rejected: {err:#}"))?),
                    Err(m) => Err(m.clone()),
                };
                store.insert(n, v);
            }
        }
        drop(stranger);
        funcs::log_start();
        let res = guard("rendering", || {
            let r = match (&self.root_name, ctx) {
                (Some(n), RealCtx::Value(v)) => e.template(n).render_from(v),
                (None, RealCtx::Value(v)) => tpl.render_from(e, v),
                (Some(n), RealCtx::Fn(f)) => e.template(n).render_from_fn(f),
                (None, RealCtx::Fn(f)) => tpl.render_from_fn(e, f),
            };
            let r = match self.render_depth {
                Some(d) => r.with_max_include_depth(d),
                None => r,
            };
            if self.custom.is_some() {
                r.with_template_fn(|n| {
                    funcs::log(|| Event::Template(n.to_string()));
                    match store.get(n) {
                        Some(Ok(t)) => Ok(t),
                        Some(Err(m)) => Err(m.clone()),
                        None => Err(CUSTOM_MISSING.to_string()),
                    }
                })
                .to_string()
            } else {
                r.to_string()
            }
        });
        let events = funcs::log_take();
        let res = match res? {
            Ok(s) => Ok(s),
            Err(e) => Err(see(&e)?),
        };
        Ok(Real { res, events })
    }
}

pub enum RealCtx<'a> {
    Value(&'a Value),
    Fn(&'a dyn Fn(&[upon::ValueMember<'_>]) -> Result<Value, String>),
}

pub struct Real {
    pub res: Result<String, Seen>,
    pub events: Vec<Event>,
}

/// Compares outcome and prediction.
pub fn compare(exp: &Outcome, got: &Real, level: Level, events: bool) -> Res {
    match (&exp.res, &got.res) {
        (Ok(()), Ok(out)) => {
            if *out != exp.out {
                return Err(format!("output {out:?}\nexpected {:?}", exp.out));
            }
        }
        (Ok(()), Err(e)) => {
            return Err(format!("failed with {}\nexpected the output {:?}", e.text, exp.out))
        }
        (Err(f), Ok(out)) => return Err(format!("output {out:?}\nexpected a failure: {f:?}")),
        (Err(f), Err(e)) => compare_fail(f, e, level)?,
    }
    if events && exp.events != got.events {
        let i = exp
            .events
            .iter()
            .zip(&got.events)
            .take_while(|(a, b)| a == b)
            .count();
        return Err(format!(
            "call {i} of a user function is {:?}\nexpected {:?}",
            got.events.get(i),
            exp.events.get(i)
        ));
    }
    Ok(())
}

/// Makes a scene from the profile.
pub fn make(s: &mut Src, p: Prof, funcs: FuncSet, delims: Delims) -> Scene {
    let globals = if s.odds(1, 40) { gen::value(s, 2) } else { gen::context(s) };
    let (root, templates) = {
        let mut g = Gen::new(s, p, &funcs, &globals);
        let root = g.body1();
        (root, std::mem::take(&mut g.templates))
    };
    let mut sc = Scene::new(globals, gen::spell(&root, &delims), funcs);
    sc.templates = templates
        .iter()
        .map(|(n, t)| (n.clone(), gen::spell(t, &delims)))
        .collect();
    sc.delims = delims;
    sc
}

/// Renders a scene both ways.
pub fn judge(case: &mut Case, sc: &Scene, level: Level, events: bool) -> Result<Option<Outcome>, String> {
    case.say(|| sc.describe());
    let Some(exp) = sc.predict(&Ctx::Value(&sc.globals)) else {
        case.discarded = Some("not a valid template");
        return Ok(None);
    };
    if let Some(d) = exp.discard {
        case.discarded = Some(d);
        return Ok(None);
    }
    case.say(|| match &exp.res {
        Ok(()) => format!("expected output: {:?}", exp.out),
        Err(f) => format!("expected failure: {f:?}"),
    });
    let got = sc.actual(&RealCtx::Value(&sc.globals))?;
    if let (Err(e), true) = (&got.res, std::env::var_os("VT_REASONS").is_some()) {
        eprintln!("REASON {}", e.reason.clone().unwrap_or_default());
    }
    compare(&exp, &got, level, events)?;
    case.key(&sc.root);
    case.key(&show(&sc.globals));
    for (n, t) in &sc.templates {
        case.key(n);
        case.key(t);
    }
    stat_labels(case, &exp);
    Ok(Some(exp))
}

pub fn stat_labels(case: &mut Case, o: &Outcome) {
    let st = &o.stats;
    case.label(match &o.res {
        Ok(()) => "renders",
        Err(f) if f.max_depth.is_some() => "include depth error",
        Err(f) => match f.kind {
            model::Kind::Render => "render error",
            model::Kind::Filter => "filter error",
            model::Kind::Format => "format error",
            _ => "other error",
        },
    });
    case.label_if(st.else_taken > 0, "no condition held");
    case.label_if(st.ifs > 0, "conditional");
    case.label_if(st.iterations > 1, "several iterations");
    case.label_if(st.empty_loops > 0, "empty loop");
    case.label_if(st.map_loops > 0, "map loop");
    case.label_if(st.owned_loops > 0, "loop over a computed value");
    case.label_if(st.loop_meta > 0, "loop metadata");
    case.label_if(st.withs > 0, "with");
    case.label_if(st.shadowed > 0, "shadowing");
    case.label_if(st.includes > 0, "include");
    case.label_if(st.includes_with > 0, "include with");
    case.label_if(st.max_chain > 1, "filter chain");
    case.label_if(st.formats > 0, "named formatter");
    case.label_if(st.deep_paths > 0, "path of several segments");
    case.label_if(st.optional_missing > 0, "missing optional member");
}

/// A subset of the functions.
pub fn pick_funcs(names: &[&str]) -> FuncSet {
    with_funcs(|f| {
        names
            .iter()
            .map(|n| (n.to_string(), f[*n]))
            .collect()
    })
}

/// Mostly a subset of the functions, sometimes all.
pub fn most_funcs(s: &mut Src, names: &[&str]) -> FuncSet {
    if s.odds(1, 4) {
        all_funcs()
    } else {
        pick_funcs(names)
    }
}

pub fn all_funcs() -> FuncSet {
    with_funcs(|f| f.clone())
}

/// All functions, some of them under further names.
pub fn some_funcs(s: &mut Src) -> FuncSet {
    let mut f = all_funcs();
    alias(s, &mut f);
    f
}

pub fn alias(s: &mut Src, f: &mut FuncSet) {
    let all: Vec<String> = f.keys().cloned().collect();
    for _ in 0..3 {
        if let Some(w) = s.word(1, 2) {
            let b = s.below(all.len());
            if gen::is_ident(&w) && !all.is_empty() && !f.contains_key(&w) {
                let x = f[&all[b]];
                f.insert(w, x);
            }
        }
    }
    if f.is_empty() || !s.odds(1, 5) {
        return;
    }
    let names: Vec<String> = f.keys().cloned().collect();
    let only = s.below(names.len());
    for _ in 0..s.range(1, 4) {
        let b = names[if s.coin() { only } else { s.below(names.len()) }].clone();
        let n = if s.coin() { gen::near(s, &b) } else { gen::ident(s) };
        if gen::is_ident(&n) && !f.contains_key(&n) {
            let x = f[&b];
            f.insert(n, x);
        }
    }
}

/// Maximum include depths.
pub fn depths(s: &mut Src) -> usize {
    if let Some(n) = s.number(1, 4) {
        return n as usize;
    }
    match s.below(4) {
        0 | 1 => *s.of(&[1, 2, 3, 0, 4, 5, 10]),
        2 => *s.of(&[63, 64, 65, 66, 67, 100]),
        _ => *s.of(&[
            usize::MAX,
            usize::MAX - 1,
            usize::MAX / 2,
            usize::MAX / 2 + 1,
            u32::MAX as usize,
            u32::MAX as usize + 1,
            u32::MAX as usize + 3,
            i32::MAX as usize,
            u16::MAX as usize,
            u16::MAX as usize + 2,
            127,
            128,
            255,
            256,
            257,
            258,
        ]),
    }
}

pub fn formatters_only() -> FuncSet {
    with_funcs(|f| {
        f.iter()
            .filter(|(_, f)| matches!(f, Func::Formatter(_)))
            .map(|(n, f)| (n.clone(), *f))
            .collect()
    })
}

fn generic(
    s: &mut Src,
    case: &mut Case,
    p: Prof,
    funcs: FuncSet,
    delims: Delims,
    level: Level,
    events: bool,
    nontrivial: fn(&Outcome, &Stats) -> bool,
) -> Res {
    let mut sc = make(s, p, funcs, delims);
    if s.odds(1, 4) {
        sc.root_name = Some("root".into());
    }
    if s.odds(1, 4) {
        sc.default_fmt = Fmt::Show;
    }
    if let Some(o) = judge(case, &sc, level, events)? {
        case.nontrivial = nontrivial(&o, &o.stats);
    }
    Ok(())
}

const ASSUME: &[&str] = &[
    "the reference model in harness/src/model states the documented semantics",
    "cases whose predicted work exceeds 20000 steps or 1 MiB of output are discarded and counted",
];

// ------------------------------------------------------------------ C03

/// Accepts so many bytes.
struct Full(usize, std::io::ErrorKind);

impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 && !b.is_empty() {
            return Err(std::io::Error::new(self.1, "the writer\nis full"));
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }

    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn c03(s: &mut Src, case: &mut Case) -> Res {
    if s.rare(1000) {
        return c08_long(s, case);
    }
    let p = Prof {
        fault: *s.of(&[0, 10, 40, 200]),
        boom: true,
        cyclic: *s.of(&[0, 8, 40]),
        filter: 6,
        formatter: 4,
        depth: 4,
        ..Prof::default()
    };
    let d = if s.odds(1, 5) { gen::delims(s) } else { Delims::default() };
    let p = restrict(p, &d);
    let f = some_funcs(s);
    let mut sc = make(s, p, f, d);
    if s.odds(1, 3) {
        sc.root_name = Some(gen::string(s));
    }
    sc.default_fmt = *s.of(&[Fmt::Builtin, Fmt::Builtin, Fmt::Show, Fmt::Bang, Fmt::ErrNone, Fmt::ErrMsg, Fmt::ErrPlain]);
    if s.odds(1, 4) {
        sc.engine_depth = Some(depths(s));
    }
    if s.odds(1, 6) {
        sc.render_depth = Some(depths(s));
    }
    if s.odds(1, 3) {
        // Data the template was not written for.
        sc.globals = match s.below(3) {
            0 => gen::context(s),
            1 => gen::value(s, 3),
            _ => Value::Map(gen::map(s, 3)),
        };
    }
    case.say(|| sc.describe());
    let Some(exp) = sc.predict(&Ctx::Value(&sc.globals)) else {
        return case.discard("not a valid template");
    };
    if exp.discard == Some("budget") {
        return case.discard("budget");
    }
    let big = sc.templates.values().chain([&sc.root]).any(|t| t.len() > 2000);
    if exp.discard.is_some() {
        // What follows is not predicted.
        let most = if big { 2 } else { 100 };
        sc.engine_depth = Some(sc.engine_depth.unwrap_or(64).min(most));
        sc.render_depth = sc.render_depth.map(|d| d.min(most));
    }
    let got = sc.actual(&RealCtx::Value(&sc.globals))?;
    use model::Kind::*;
    if let Err(e) = &got.res {
        if !matches!(e.kind, Render | Filter | Format) {
            return Err(format!("rendering to a string failed with {}", e.text));
        }
    }
    if s.odds(1, 3) {
        // The other ways to render, and a writer that may fail.
        let e = sc.engine()?;
        let tpl = guard("compile", || e.compile(sc.root.as_str()))?.map_err(|e| format!("rejected the second time: {e:#}"))?;
        let limit = if s.coin() { usize::MAX } else { s.below(40) };
        let way = s.below(3);
        let salt = s.draw(0);
        let kind = *s.of(super::ways::KINDS);
        let f = |p: &[upon::ValueMember<'_>]| -> Result<Value, String> {
            let h = crate::src::mix(&[salt, crate::src::hash_str(&format!("{p:?}"))]);
            match h % 5 {
                0 => Err("the value function\nfails".into()),
                _ => Ok(gen::value(&mut Src::seeded(h), 2)),
            }
        };
        case.say(|| format!("written to a writer that fails after {limit} bytes, way {way}"));
        let r = guard("rendering to a writer", || {
            let r = match way {
                0 => tpl.render(&e, &sc.globals),
                1 => tpl.render_from(&e, &sc.globals),
                _ => tpl.render_from_fn(&e, f),
            };
            let r = match sc.render_depth {
                // Other answers may lead to other work than predicted.
                Some(d) if way != 2 => r.with_max_include_depth(d),
                Some(d) => r.with_max_include_depth(d.min(if big { 2 } else { 6 })),
                None if way != 2 => r,
                None => r.with_max_include_depth(if big { 2 } else { 6 }),
            };
            r.to_writer(Full(limit, kind))
        })?;
        if let Err(e) = r {
            let seen = see(&e)?;
            if !matches!(seen.kind, Render | Filter | Format | Io) {
                return Err(format!("rendering to a writer failed with {}", seen.text));
            }
            case.label_if(seen.kind == Io, "io error");
        }
    }
    if exp.discard.is_none() {
        compare(&exp, &got, Level::Kind, false)?;
    }
    stat_labels(case, &exp);
    case.key(&sc.describe());
    case.nontrivial = exp.stats.steps >= 5;
    Ok(())
}

/// Leaves out what the delimiters cannot spell.
pub fn restrict(mut p: Prof, d: &Delims) -> Prof {
    if d.block.is_none() {
        p.cond = 0;
        p.loops = 0;
        p.with = 0;
        p.include = 0;
        p.templates = 0;
    }
    if d.comment.is_none() {
        p.comment = 0;
    }
    p
}

// ------------------------------------------------------------------ C04

/// Texts longer than anything that is done in pieces. The oracle is the text itself.
fn c04_long(s: &mut Src, case: &mut Case) -> Res {
    let unit = *s.of(&["é", "名", "😀", "abc", "a\n", "\r\n", " ", "{.", "}.", "%", "-", "{ %", "e\u{301}"]);
    let len = match s.below(12) {
        0 => 65_536,
        1 => 70_000,
        2 => 32_768,
        _ => s.size(&[127, 128, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8192], 300_000),
    };
    // Nothing lies at a fixed place of the text.
    let shift = s.below(9);
    let mut a = "x".repeat(shift);
    while a.len() < len {
        a.push_str(unit);
    }
    let b: String = unit.repeat(s.below(40));
    let (tpl, exp) = match s.below(6) {
        0 => (a.clone(), a),
        1 => (format!("{a}.{{# c #}}.{b}"), format!("{a}..{b}")),
        2 => (format!("{b}.{{# {a}. #}}.{b}").replace("{#", "\u{1}").replace("#}", "\u{2}"), format!("{b}..{b}")),
        3 => (format!("{a}.{{{{ 1 }}}}.{b}{{{{ 2 }}}}."), format!("{a}.1.{b}2.")),
        4 => (format!("{{{{ 1 }}}}.{a}.{{% if 1 %}}{a}.{{% endif %}}"), format!("1.{a}.{a}.")),
        _ => (format!("{{% for x in two %}}.{a}.{{% endfor %}}{b}"), format!(".{a}..{a}.{b}")),
    };
    let tpl = tpl.replace('\u{1}', "{#").replace('\u{2}', "#}");
    if a_tag(&exp) || tpl.matches("{#").count() > 1 {
        return case.discard("not only text");
    }
    case.say(|| format!("template of {} bytes, mostly {unit:?}, starting with {:?}", tpl.len(), tpl.chars().take(40).collect::<String>()));
    let e = Engine::new();
    let t = guard("compile", || e.compile(tpl.as_str()))?.map_err(|e| format!("rejected: {e:#}"))?;
    let v = upon::value! { two: [1, 2] };
    let mut w = vec![];
    guard("rendering", || t.render_from(&e, &v).to_writer(&mut w))?.map_err(|e| format!("failed: {e:#}"))?;
    let got = guard("rendering", || t.render_from(&e, &v).to_string())?.map_err(|e| format!("failed: {e:#}"))?;
    for (got, how) in [(got.as_bytes(), "string"), (&w[..], "writer")] {
        if got != exp.as_bytes() {
            let i = got.iter().zip(exp.as_bytes()).take_while(|(a, b)| a == b).count();
            return Err(format!(
                "the output ({how}) differs at byte {i} of {}: {:?}, expected {:?}",
                exp.len(),
                String::from_utf8_lossy(&got[i..got.len().min(i + 20)]),
                String::from_utf8_lossy(&exp.as_bytes()[i..exp.len().min(i + 20)])
            ));
        }
    }
    case.label("long text");
    case.key(&format!("{unit} {len} {shift} {}", tpl.len()));
    case.nontrivial = true;
    Ok(())
}

fn a_tag(t: &str) -> bool {
    ["{{", "}}", "{%", "%}", "{#", "#}"].iter().any(|d| t.contains(d))
}

fn c04(s: &mut Src, case: &mut Case) -> Res {
    if s.rare(300) {
        return c04_long(s, case);
    }
    let d = if s.odds(1, 3) { gen::delims(s) } else { Delims::default() };
    let globals = gen::context(s);
    let text = if s.coin() {
        // Dense in characters of the delimiters.
        let pats = d.patterns();
        let n = s.range(1, 12);
        let mut t = String::new();
        for _ in 0..n {
            match s.below(8) {
                0..=2 => {
                    let p = &s.of(&pats).0;
                    let c: Vec<char> = p.chars().collect();
                    t.push(c[s.below(c.len())]);
                }
                3 => t.push_str(s.pick(&[" ", "\n", "-", "a", "\\", "é"])),
                4 => match &d.comment {
                    Some((b, e)) => {
                        let body = s.pick(&["", " ", "c", "-", "{", " x "]);
                        t.push_str(&format!("{b}{body}{e}"));
                    }
                    None => t.push('.'),
                },
                5 => match &d.expr {
                    Some((b, e)) => t.push_str(&format!("{b} {} {e}", s.below(10))),
                    None => t.push('.'),
                },
                6 => t.push_str(s.pick(&["text", "\r\n", "\t", "名", "😀"])),
                _ => t.push(gen::ch(s)),
            }
        }
        t
    } else {
        let p = restrict(
            Prof {
                raw: 6,
                emit: 1,
                cond: 0,
                loops: 0,
                with: 0,
                include: 0,
                comment: 4,
                filter: 0,
                formatter: 0,
                near: 6,
                len: 8,
                literal: 16,
                fault: 0,
                ..Prof::default()
            },
            &d,
        );
        let f = FuncSet::new();
        let mut g = Gen::new(s, p, &f, &globals);
        let b = g.body1();
        gen::spell(&b, &d)
    };
    let none = d.patterns().iter().all(|(p, ..)| !text.contains(p.as_str()));
    let mut sc = Scene::new(globals, text, FuncSet::new());
    sc.delims = d;
    if none {
        // Independent of the model: without any delimiter the text stands for itself.
        case.label("no delimiter at all");
        case.say(|| sc.describe());
        let got = sc.actual(&RealCtx::Value(&sc.globals))?;
        match got.res {
            Ok(o) if o == sc.root => {}
            Ok(o) => return Err(format!("output {o:?}, expected the text itself")),
            Err(e) => return Err(format!("text without tags failed: {}", e.text)),
        }
    }
    if let Some(o) = judge(case, &sc, Level::Any, false)? {
        case.nontrivial = o.stats.raws + o.stats.emits > 0 && sc.root.len() > 3;
    }
    Ok(())
}

// ------------------------------------------------------------------ C07..C13

fn c07(s: &mut Src, case: &mut Case) -> Res {
    let p = Prof {
        raw: 5,
        emit: 3,
        cond: 8,
        loops: 1,
        with: 1,
        include: 0,
        comment: 1,
        depth: 5,
        filter: 5,
        formatter: 1,
        trim: 0,
        near: 0,
        fault: *s.of(&[0, 0, 20]),
        ..Prof::default()
    };
    let f = some_funcs(s);
    generic(s, case, p, f, Delims::default(), Level::Kind, true, |_, st| st.ifs > 0)
}

/// Many items. The oracle is this loop.
fn c08_long(s: &mut Src, case: &mut Case) -> Res {
    let n = match s.below(40) {
        0 => 65_537,
        1 => 70_001,
        2 => 140_000,
        3 | 4 => *s.of(&[2_047, 2_049, 4_095, 4_096, 4_097, 4_100, 8_193, 10_001, 32_769]),
        _ => s.size(&[127, 128, 129, 255, 256, 257, 258, 300, 511, 513, 1000, 1025], 150_000),
    };
    let map = s.coin();
    let through = *s.of(&["", "", " | id", " | same"]);
    let items: Vec<i64> = (0..n as i64).map(|i| i * 37 % 101).collect();
    let v = if map {
        Value::Map(items.iter().enumerate().map(|(i, x)| (format!("k{i:06}"), Value::Integer(*x))).collect())
    } else {
        Value::List(items.iter().map(|x| Value::Integer(*x)).collect())
    };
    let (vars, item) = if map { ("k, v", "{{ k }}={{ v }}") } else { ("v", "{{ v }}") };
    let deep = s.below(8);
    let meta = "{{ loop.index }}{% if loop.first %}F{% endif %}{% if loop.last %}L{% endif %}";
    let body = match deep {
        0 => format!("{item}:{meta};"),
        1 => format!("{{% with v as w %}}{item}:{meta}{{% endwith %}};"),
        2 => format!("{{% for q in two %}}{{{{ q }}}}{{% endfor %}}{item}:{meta};"),
        3 => format!("{{% include \"meta\" %}};"),
        // The loop variable as a whole.
        4 => format!("{item}:{{{{ loop | state }}}};"),
        5 => format!("{{% with loop as l %}}{item}:{{{{ l | state }}}}{{% endwith %}};"),
        6 => format!("{{% for l in loop | tolist %}}{item}:{{{{ l | state }}}}{{% endfor %}};"),
        _ => format!("{item}:{{% include \"state\" with loop %}};"),
    };
    let mut e = Engine::new();
    guard("setting up", || {
        e.add_filter("tolist", |v: Value| Value::List(vec![v]));
        e.add_filter("state", |v: &Value| match v {
            Value::Map(m) => {
                let mut t = match &m["index"] {
                    Value::Integer(i) => i.to_string(),
                    v => format!("{v:?}"),
                };
                for (k, x) in [("first", "F"), ("last", "L")] {
                    match &m[k] {
                        Value::Bool(true) => t.push_str(x),
                        Value::Bool(false) => {}
                        v => t.push_str(&format!("{v:?}")),
                    }
                }
                t
            }
            v => format!("{v:?}"),
        });
        e.add_template("state", "{{ index }}{% if first %}F{% endif %}{% if last %}L{% endif %}").unwrap();
        e.add_filter("id", |v: Value| v);
        e.add_filter("same", |v: &Value| v.clone());
        e.add_template("meta", format!("{item}:{meta}")).unwrap();
        e.add_template("t", format!("<{{% for {vars} in xs{through} %}}{body}{{% endfor %}}>")).unwrap();
    })?;
    case.say(|| format!("{n} items, map: {map}, iterating over xs{through}, body {body:?}"));
    let ctx = upon::value! { xs: v, two: [1, 2] };
    let got = guard("rendering", || e.template("t").render_from(&ctx).to_string())?.map_err(|e| format!("failed: {e:#}"))?;
    let mut exp = String::from("<");
    for (i, x) in items.iter().enumerate() {
        if deep == 2 {
            exp.push_str("12");
        }
        if map {
            exp.push_str(&format!("k{i:06}="));
        }
        exp.push_str(&format!("{x}:{i}"));
        if i == 0 {
            exp.push('F');
        }
        if i + 1 == n {
            exp.push('L');
        }
        exp.push(';');
    }
    exp.push('>');
    if got != exp {
        let i = got.bytes().zip(exp.bytes()).take_while(|(a, b)| a == b).count();
        let at = |t: &str| t.bytes().skip(i.saturating_sub(20)).take(60).map(|b| b as char).collect::<String>();
        return Err(format!("the output differs at byte {i}: {:?}, expected {:?}", at(&got), at(&exp)));
    }
    case.label("more than a hundred items");
    case.key(&format!("{n} {map} {through} {deep}"));
    case.nontrivial = true;
    Ok(())
}

fn c08(s: &mut Src, case: &mut Case) -> Res {
    if s.rare(400) {
        return c08_long(s, case);
    }
    let p = Prof {
        raw: 4,
        emit: 8,
        cond: 1,
        loops: 8,
        with: 1,
        include: 1,
        comment: 1,
        depth: 4,
        len: 3,
        filter: 3,
        trim: 0,
        near: 0,
        literal: 1,
        fault: *s.of(&[0, 0, 12]),
        ..Prof::default()
    };
    let f = most_funcs(s, &["id", "rev", "tolist", "tomap", "keys", "vals", "text", "show", "upto"]);
    generic(s, case, p, f, Delims::default(), Level::Kind, false, |_, st| st.iterations > 1)
}

fn c09(s: &mut Src, case: &mut Case) -> Res {
    let p = Prof {
        raw: 2,
        emit: 9,
        cond: 2,
        loops: 4,
        with: 6,
        include: 2,
        comment: 1,
        depth: 6,
        filter: 2,
        trim: 0,
        near: 0,
        literal: 2,
        fault: *s.of(&[0, 0, 25]),
        ..Prof::default()
    };
    let f = most_funcs(s, &["id", "tolist", "tomap", "text", "show", "pair", "boomif", "upto"]);
    generic(s, case, p, f, Delims::default(), Level::Kind, true, |_, st| {
        st.bound_lookups > 0 && st.global_lookups > 0
    })
}

/// Templates that include themselves, or each other, along a tree of data.
fn c10_tree(s: &mut Src, case: &mut Case) -> Res {
    fn node(s: &mut Src, depth: usize, fault: u64, count: &mut i64) -> Value {
        *count += 1;
        let n = if depth == 0 || *count > 40 { 0 } else { s.below(4) };
        let mut m = vec![("n".to_string(), Value::Integer(*count))];
        let kids: Vec<Value> = (0..n).map(|_| node(s, depth - 1, fault, count)).collect();
        if let Some(k) = kids.last() {
            m.push(("next".into(), k.clone()));
        } else if !s.odds(fault, 12) {
            m.push(("next".into(), Value::None));
        }
        if !s.odds(fault, 12) {
            m.push(("k".into(), Value::List(kids)));
        }
        Value::Map(m.into_iter().collect())
    }
    let depth = s.range(1, 6);
    let fault = *s.of(&[0, 0, 0, 1]);
    let tree = node(s, depth, fault, &mut 0);
    let names: Vec<String> = match s.below(3) {
        0 => vec![s.of(&s.tpls.clone()).clone()],
        1 => vec!["a".into(), "b".into()],
        _ => vec!["t".into(), "".into(), "名.html".into()],
    };
    let id = s.pick(&["", "", " | id"]);
    let mut lit = |s: &mut Src, i: usize| {
        let n = names[i % names.len()].clone();
        Gen::new(s, Prof::default(), &FuncSet::new(), &Value::None).str_text(&n)
    };
    // By context or by what is visible.
    let with = s.coin();
    let mut templates: BTreeMap<String, String> = BTreeMap::new();
    let v = if with { "" } else { "v." };
    for i in 0..names.len() {
        let next = lit(s, i + 1);
        let go = |x: &str| match with {
            true => format!("{{% include {next} with {x}{id} %}}"),
            false => format!("{{% with {x}{id} as v %}}{{% include {next} %}}{{% endwith %}}"),
        };
        let q = if with { "n" } else { "v" };
        let step = match s.below(4) {
            // All children.
            0 | 1 => format!("{{% for c in {v}k{id} %}}{}{{% endfor %}}", go("c")),
            2 => format!("{{% if {v}{} %}}{}{{% endif %}}", "next", go(&format!("{v}next"))),
            _ => format!("{{% for c in {v}k %}}{{% if not loop.last %}}{}{{% endif %}}{}{{{{ loop.index }}}}{{% endfor %}}", go("c"), go("c")),
        };
        let tail = match s.below(4) {
            0 => format!("{{{{ {v}n }}}}"),
            1 => format!("{{{{ {q}?.n | show }}}}"),
            2 if s.odds(1, 6) => "{{ c }}".into(),
            _ => String::new(),
        };
        templates.insert(names[i].clone(), format!("({{{{ {v}n }}}}{step}{tail})"));
    }
    let first = lit(s, 0);
    let root = match (with, s.coin()) {
        (true, true) => format!("{{% include {first} with tree %}}"),
        (true, false) => format!("{{% for c in forest %}}{{% include {first} with c %}}{{% endfor %}}"),
        (false, true) => {
            let after = if s.odds(1, 8) { "{% if v %}{% endif %}" } else { "" };
            format!("{{% with tree as v %}}{{% include {first} %}}{{% endwith %}}{after}")
        }
        (false, false) => format!("{{% for v in forest %}}{{% include {first} %}}{{% endfor %}}"),
    };
    let globals = Value::from([("tree", tree.clone()), ("forest", Value::List(vec![tree.clone(), tree]))]);
    let mut sc = Scene::new(globals, root, pick_funcs(&["id", "show"]));
    if s.coin() {
        sc.custom = Some(templates.iter().map(|(n, t)| (n.clone(), Ok(t.clone()))).collect());
        if s.coin() {
            for t in templates.values_mut() {
                *t = "WRONG".into();
            }
        }
    }
    sc.templates = templates;
    case.label("tree of includes");
    if let Some(o) = judge(case, &sc, Level::Kind, true)? {
        case.label_if(o.res.is_ok() && o.stats.includes > 5, "more than five includes of a tree");
        case.nontrivial = o.stats.includes > 2 && o.stats.paths > 0;
    }
    Ok(())
}

fn c10(s: &mut Src, case: &mut Case) -> Res {
    if s.odds(1, 16) {
        return c10_tree(s, case);
    }
    let p = Prof {
        raw: 3,
        emit: 8,
        cond: 1,
        loops: 3,
        with: 3,
        include: 9,
        comment: 1,
        depth: 4,
        filter: 2,
        trim: 1,
        near: 0,
        templates: 6,
        fault: *s.of(&[0, 0, 15]),
        ..Prof::default()
    };
    let f = most_funcs(s, &["id", "tolist", "tomap", "text", "show", "pair", "upto"]);
    let mut sc = make(s, p, f, Delims::default());
    if s.odds(1, 3) {
        sc.root_name = Some("root".into());
    }
    if s.odds(1, 3) {
        sc.default_fmt = Fmt::Show;
    }
    if s.odds(1, 2) {
        // The function answers instead of the engine; the engine's templates of
        // the same names must not be consulted.
        let mut c: BTreeMap<String, Result<String, String>> =
            sc.templates.iter().map(|(n, t)| (n.clone(), Ok(t.clone()))).collect();
        let names: Vec<String> = c.keys().cloned().collect();
        if !names.is_empty() && s.odds(1, 8) {
            let n = s.of(&names).clone();
            if s.coin() {
                c.insert(n, Err("the function says no".into()));
            } else {
                c.remove(&n);
            }
        }
        sc.templates = match s.below(3) {
            0 => BTreeMap::new(),
            1 => names.iter().map(|n| (n.clone(), format!("WRONG {n}"))).collect(),
            _ => sc.templates,
        };
        sc.custom = Some(c);
    } else if s.odds(1, 20) {
        sc.custom = None;
        let names: Vec<String> = sc.templates.keys().cloned().collect();
        if !names.is_empty() {
            let n = s.of(&names).clone();
            sc.templates.remove(&n);
        }
    }
    if let Some(o) = judge(case, &sc, Level::Kind, true)? {
        case.label_if(sc.custom.is_some(), "template function");
        if let Some(c) = &sc.custom {
            case.key(&format!("{c:?}"));
        }
        case.nontrivial = o.stats.includes > 0 && o.stats.paths > 0;
    }
    Ok(())
}

/// Far deeper than the default allows: the maximum is exact however large it is.
fn c11_deep(s: &mut Src, case: &mut Case) -> Res {
    let max = match s.below(6) {
        0..=3 => s.size(&[63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513], 20_000).max(3),
        _ => *s.of(&[999, 1000, 1001, 1023, 1024, 1025, 2047, 2049, 3000, 4096, 4097, 5000]),
    };
    let by = s.below(3);
    let way = s.below(7);
    let wrap = |inc: &str| match way {
        0 | 1 => inc.to_string(),
        2 => format!("{{% if go %}}{inc}{{% endif %}}"),
        3 => format!("{{% for i in one %}}{inc}{{% endfor %}}"),
        4 => format!("{{% with go as q %}}{inc}{{% endwith %}}"),
        5 => format!("{{% for i in one %}}{{% if i %}}{{% with i as go %}}{inc}{{% endwith %}}{{% endif %}}{{% endfor %}}"),
        _ => inc.to_string(),
    };
    let with = if way == 1 { " with 1 | map" } else { "" };
    let mut e = Engine::new();
    if by != 1 {
        e.set_max_include_depth(if by == 0 { max } else { 3 });
    }
    let mut templates: Vec<(String, String)> = vec![];
    // `len` is how many includes are nested; none if the chain is a cycle.
    let len = match s.below(4) {
        0 => None,
        // The root counts.
        1 => Some(max),
        2 => Some(max - 1),
        _ => Some(max - 2),
    };
    match len {
        None => {
            let ring = s.range(1, 3);
            for i in 0..ring {
                let j = (i + 1) % ring;
                templates.push((format!("t{i}"), format!("x{}y", wrap(&format!("{{% include \"t{j}\"{with} %}}")))));
            }
        }
        Some(len) => {
            for i in 0..len {
                let t = match i + 1 == len {
                    true => "xy".to_string(),
                    false => format!("x{}y", wrap(&format!("{{% include \"t{}\"{with} %}}", i + 1))),
                };
                templates.push((format!("t{i}"), t));
            }
        }
    }
    case.say(|| format!("maximum {max} (set at {by}), chain {len:?}, by {:?}{with}", templates.get(0)));
    guard("setting up", || {
        e.add_filter("map", |_: i64| BTreeMap::<String, Value>::new());
        for (n, t) in &templates {
            e.add_template(n.clone(), t.clone()).unwrap();
        }
    })?;
    let root = guard("compiling", || e.compile(format!("{{% include \"t0\"{with} %}}")))?.map_err(|e| format!("{e:#}"))?;
    let ctx = |p: &[upon::ValueMember<'_>]| -> Result<Value, String> {
        match p[0].access {
            upon::ValueAccess::Key("go") => Ok(Value::Bool(true)),
            upon::ValueAccess::Key("one") => Ok(Value::List(vec![Value::Integer(1)])),
            _ => Err("unknown".into()),
        }
    };
    let mut out = vec![];
    let res = guard("rendering", || {
        let r = root.render_from_fn(&e, ctx);
        let r = if by != 0 { r.with_max_include_depth(max) } else { r };
        r.to_writer(&mut out)
    })?;
    let out = String::from_utf8_lossy(&out).into_owned();
    let fits = len.map_or(false, |n| n < max);
    match (&res, fits) {
        (Ok(()), true) => {
            let n = len.unwrap();
            if out != "x".repeat(n) + &"y".repeat(n) {
                return Err(format!("{n} nested includes gave {} bytes: {}…", out.len(), out.chars().take(40).collect::<String>()));
            }
        }
        (Ok(()), false) => return Err(format!("accepted, although the maximum is {max}")),
        (Err(e), true) => return Err(format!("failed, although the maximum is {max}: {e:#}")),
        (Err(e), false) => {
            let seen = see(e)?;
            if seen.kind != model::Kind::Render || !seen.reason.as_deref().unwrap_or("").contains("include") {
                return Err(format!("failed in another way: {e:#}"));
            }
            if out != "x".repeat(max - 1) {
                return Err(format!("{} bytes were written before the maximum of {max} was reached", out.len()));
            }
        }
    }
    case.label("deep chain");
    case.key(&format!("{max} {by} {way} {len:?}"));
    case.nontrivial = true;
    Ok(())
}

fn c11(s: &mut Src, case: &mut Case) -> Res {
    if s.rare(150) {
        return c11_deep(s, case);
    }
    // A random include graph; every template writes its name.
    let n = s.range(1, 6);
    let mut g = BTreeMap::new();
    let name = |i: usize| format!("t{i}");
    let acyclic = s.coin();
    for i in 0..n {
        // Some write nothing.
        let bare = s.odds(1, 4);
        let mut t = if bare { String::new() } else { format!("<{i}") };
        let k = s.below(4);
        for _ in 0..k {
            let j = if acyclic {
                if i + 1 >= n {
                    continue;
                }
                s.range(i + 1, n - 1)
            } else {
                s.below(n)
            };
            let inc = |w: &str| format!("{{% include \"{}\"{w} %}}", name(j));
            t.push_str(&match s.below(9) {
                8 => format!("{{% for x in two %}}{{% for x in two %}}{}{{% endfor %}}{{% endfor %}}", inc("")),
                0..=2 => inc(""),
                3 => inc(" with g"),
                4 => format!("{{% if go %}}{}{{% endif %}}", inc("")),
                5 => format!("{{% for x in two %}}{}{{% endfor %}}", inc("")),
                6 => format!("{{% with go as q %}}{}{{% endwith %}}", inc(" with g")),
                _ => format!("{{% if not go %}}{}{{% else %}}-{{% endif %}}", inc("")),
            });
        }
        if !bare && s.odds(2, 3) {
            t.push('>');
        }
        g.insert(name(i), t);
    }
    // Long chains reach the default maximum.
    if s.odds(1, 2) {
        let len = *s.of(&[1, 2, 3, 10, 61, 62, 63, 64, 65, 66]);
        for i in 0..len {
            let inner = if i + 1 == len {
                match s.below(4) {
                    0 => "{% include \"t0\" %}".to_string(),
                    1 => String::new(),
                    _ => "end".to_string(),
                }
            } else {
                format!("{{% include \"c{}\" %}}", i + 1)
            };
            let twice = s.odds(1, 40);
            let end = if twice {
                "{% include \"leaf\" %})"
            } else if s.coin() {
                ")"
            } else {
                ""
            };
            let open = if s.odds(1, 3) { "" } else { "(" };
            g.insert(format!("c{i}"), format!("{open}{inner}{end}"));
        }
        g.insert("leaf".into(), ".".into());
    }
    let root = match (g.contains_key("c0"), s.below(5)) {
        (true, 0..=2) => "{% include \"c0\" %}",
        // More in sequence than the maximum allows in depth.
        (_, 3) => *s.of(&[
            "{% for x in many %}{% include \"t0\" %}{% endfor %}",
            "{% for x in many %}{% include \"t0\" with x %}{% endfor %}",
            "{% for x in many %}{% for y in two %}{% include \"t0\" %}{% endfor %}{% endfor %}{% include \"t0\" %}",
            "{% for x in many %}{% include \"t0\" with x %}{% include \"t0\" %}{% endfor %}",
        ]),
        _ => "{% include \"t0\" %}!{% include \"t0\" %}",
    };
    let map = |v: Vec<(&str, Value)>| -> Value {
        Value::Map(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    };
    let two = Value::List(vec![Value::Integer(1), Value::Integer(2)]);
    let leaf = map(vec![("go", Value::Bool(true)), ("two", two.clone()), ("g", map(vec![]))]);
    // `g` must be available however deep `include with` nests.
    let mut ctx = leaf;
    for _ in 0..8 {
        ctx = map(vec![("go", Value::Bool(true)), ("two", two.clone()), ("g", ctx)]);
    }
    if root.contains("many") {
        let n = *s.of(&[1, 2, 3, 10, 33, 70, 140]);
        if let Value::Map(m) = &mut ctx {
            let x = m["g"].clone();
            m.insert("many".into(), Value::List(vec![x; n]));
        }
    }
    let mut sc = Scene::new(ctx, root.to_string(), FuncSet::new());
    sc.templates = g;
    if s.coin() {
        sc.engine_depth = Some(depths(s));
    }
    if s.odds(1, 3) {
        sc.render_depth = Some(depths(s));
    }
    if s.odds(1, 3) {
        sc.root_name = Some("root".into());
    }
    if s.odds(1, 4) {
        sc.custom = Some(sc.templates.iter().map(|(n, t)| (n.clone(), Ok(t.clone()))).collect());
        sc.templates.clear();
    }
    if let Some(o) = judge(case, &sc, Level::Kind, true)? {
        case.key(&format!("{:?} {:?} {:?}", sc.engine_depth, sc.render_depth, sc.custom));
        case.label_if(o.res.is_ok() && o.stats.max_depth == sc.max_depth(), "reaches the maximum exactly");
        case.nontrivial = o.stats.max_depth >= 2;
    }
    Ok(())
}

fn c12(s: &mut Src, case: &mut Case) -> Res {
    let d = if s.odds(1, 4) { gen::delims(s) } else { Delims::default() };
    let p = restrict(
        Prof {
            raw: 8,
            emit: 6,
            cond: 2,
            loops: 1,
            with: 2,
            include: 1,
            comment: 3,
            depth: 3,
            filter: 1,
            trim: 8,
            near: 3,
            literal: 8,
            fault: 0,
            ..Prof::default()
        },
        &d,
    );
    let f = pick_funcs(&["id", "show", "text"]);
    generic(s, case, p, f, d, Level::Any, false, |o, st| {
        st.raws > 0 && o.out.len() > 2
    })
}

fn c13(s: &mut Src, case: &mut Case) -> Res {
    let p = Prof {
        raw: 1,
        emit: 9,
        cond: 2,
        loops: 1,
        with: 3,
        include: 1,
        comment: 1,
        filter: 13,
        formatter: 4,
        trim: 0,
        near: 0,
        boom: s.odds(1, 4),
        literal: 5,
        fault: *s.of(&[0, 0, 30, 80]),
        ..Prof::default()
    };
    let f = some_funcs(s);
    generic(s, case, p, f, Delims::default(), Level::Kind, true, |_, st| {
        st.filters >= 2 && st.max_chain >= 2
    })
}

// ------------------------------------------------------------------ C15

fn c15(s: &mut Src, case: &mut Case) -> Res {
    let p = Prof {
        raw: 3,
        emit: 10,
        cond: 1,
        loops: 1,
        with: 1,
        include: 1,
        comment: 1,
        filter: 4,
        formatter: 7,
        trim: 0,
        boom: s.odds(1, 3),
        fault: *s.of(&[0, 10, 40]),
        ..Prof::default()
    };
    let f = some_funcs(s);
    let mut sc = make(s, p, f, Delims::default());
    sc.default_fmt = *s.of(&[
        Fmt::Builtin,
        Fmt::Wrapped,
        Fmt::Show,
        Fmt::Bang,
        Fmt::Nothing,
        Fmt::ErrNone,
        Fmt::ErrMsg,
        Fmt::ErrPlain,
    ]);
    if s.odds(1, 6) {
        // Also lists and maps reach the default formatter.
        let n = gen::a_name(s);
        sc.root = format!("{}{{{{ {n} }}}}", sc.root);
    }
    if let Some(o) = judge(case, &sc, Level::Kind, true)? {
        case.key(&format!("{:?}", sc.default_fmt));
        case.nontrivial = o.stats.emits > 0;
    }
    Ok(())
}

// ------------------------------------------------------------------ C21

fn c21(s: &mut Src, case: &mut Case) -> Res {
    let p = Prof {
        raw: 1,
        emit: 8,
        cond: 2,
        loops: 3,
        with: 3,
        include: 2,
        comment: 1,
        depth: 4,
        filter: 3,
        trim: 0,
        near: 0,
        deep: 12,
        fault: *s.of(&[0, 0, 20, 60]),
        ..Prof::default()
    };
    let f = most_funcs(s, &["id", "tolist", "tomap", "text", "show", "pair", "triple", "quad", "quint", "append", "or", "len", "first", "upto"]);
    let mut sc = make(s, p, f, Delims::default());
    if s.odds(1, 3) {
        sc.root_name = Some("root".into());
    }
    case.say(|| sc.describe());
    // How the function answers: by following the path through the data, or by
    // an arbitrary value that depends on nothing but the path.
    let mode = s.below(4);
    let salt = s.draw(0);
    let answer = move |globals: &Value, path: &[(bool, model::Access)]| -> Result<Value, String> {
        let text: Vec<String> = path
            .iter()
            .map(|(o, a)| format!("{o}{}", model::access_text(a)))
            .collect();
        let h = crate::src::mix(&[salt, crate::src::hash_str(&text.join("/"))]);
        if mode == 1 && h % 6 == 0 {
            return Err(match h / 6 % 12 {
                0 | 1 => String::new(),
                2 => "not found in this scope".into(),
                3 => "two\nlines".into(),
                4 => " ".into(),
                _ => format!("refused {}", text.join("/")),
            });
        }
        if mode == 2 {
            return Ok(gen::value(&mut Src::seeded(h), 2));
        }
        let mut cur = globals;
        for (i, (opt, a)) in path.iter().enumerate() {
            let next = match (cur, a) {
                (Value::Map(m), model::Access::Key(k)) => m.get(k),
                (Value::List(l), model::Access::Index(i)) => l.get(*i),
                _ => return Err(format!("{i} cannot follow {}", text.join("/"))),
            };
            match next {
                Some(v) => cur = v,
                None if *opt => return Ok(Value::None),
                None => return Err(format!("{i} missing in {}", text.join("/"))),
            }
        }
        Ok(cur.clone())
    };
    let globals = sc.globals.clone();
    let mf = |path: &[(bool, model::Access)]| answer(&globals, path);
    let Some(exp) = sc.predict(&Ctx::Fn(&mf)) else {
        return case.discard("not a valid template");
    };
    if let Some(d) = exp.discard {
        return case.discard(d);
    }
    case.say(|| match &exp.res {
        Ok(()) => format!("mode {mode}, expected output: {:?}", exp.out),
        Err(f) => format!("mode {mode}, expected failure: {f:?}"),
    });
    let rf = |path: &[upon::ValueMember<'_>]| -> Result<Value, String> {
        let p: Vec<(bool, model::Access)> = path
            .iter()
            .map(|m| {
                (
                    m.op == upon::ValueAccessOp::Optional,
                    match m.access {
                        upon::ValueAccess::Index(i) => model::Access::Index(i),
                        upon::ValueAccess::Key(k) => model::Access::Key(k.to_string()),
                    },
                )
            })
            .collect();
        funcs::log(|| Event::Lookup(p.iter().map(|(o, a)| (*o, model::access_text(a))).collect()));
        answer(&globals, &p)
    };
    let got = sc.actual(&RealCtx::Fn(&rf))?;
    compare(&exp, &got, Level::Location, true)?;
    stat_labels(case, &exp);
    case.key(&sc.describe());
    case.key(&format!("{mode}"));
    case.label_if(mode == 2, "arbitrary answers");
    case.nontrivial = exp.stats.global_lookups > 0;
    Ok(())
}

// ------------------------------------------------------------------ C25

/// The syntax of these delimiters, come by in some other way.
fn c25_builder<'a>(s: &mut Src, d: &'a Delims) -> Result<upon::Syntax<'a>, String> {
    let leak = |t: &str| -> &'static str { Box::leak(t.to_string().into_boxed_str()) };
    let mut calls: Vec<(usize, String, String)> = vec![];
    for (k, p) in [&d.expr, &d.block, &d.comment].into_iter().enumerate() {
        if let Some((a, b)) = p {
            let at = s.below(calls.len() + 1);
            calls.insert(at, (k, a.clone(), b.clone()));
        }
    }
    // What is set again later does not count.
    for _ in 0..s.below(3) {
        if calls.is_empty() {
            break;
        }
        let i = s.below(calls.len());
        let at = s.range(0, i);
        let (a, b) = (s.pick(&["<", "{{", "x", "{%", "%}", "é"]), s.pick(&[">", "}}", "y", "%}", "{%", "{{"]));
        calls.insert(at, (calls[i].0, a.into(), b.into()));
    }
    let refused = s.odds(1, 6) && !calls.is_empty();
    if refused {
        let i = s.below(calls.len());
        match s.below(3) {
            0 => calls[i].1.clear(),
            1 => calls[i].2.clear(),
            _ => {
                calls[i].1.clear();
                calls[i].2.clear();
            }
        }
    }
    let cut = if s.odds(1, 3) { s.below(calls.len() + 1) } else { usize::MAX };
    let told = format!("{calls:?}");
    let built = std::panic::catch_unwind(|| {
        let mut b = upon::Syntax::builder();
        for (i, (k, x, y)) in calls.iter().enumerate() {
            if i == cut {
                // Building consumes nothing, and a copy goes its own way.
                let _ = b.build();
                let mut c = b.clone();
                c.expr("decoy", "yoced").block("blo", "ck").comment("com", "ment");
                let _ = c.build();
            }
            let (x, y) = (leak(x), leak(y));
            match k {
                0 => b.expr(x, y),
                1 => b.block(x, y),
                _ => b.comment(x, y),
            };
        }
        b.build()
    });
    match (built, refused) {
        (Ok(_), true) => Err(format!("an empty delimiter was accepted: {told}")),
        (Err(_), false) => Err(format!("a syntax was refused: {told}")),
        (Err(_), true) => Ok(d.to_syntax()),
        (Ok(b), false) => {
            if b != d.to_syntax() {
                return Err(format!("the syntax built by {told} is not that of {d:?}"));
            }
            // Any difference counts.
            let mut o = d.clone();
            match s.below(6) {
                0 => o.expr = o.expr.map_or(Some(("(((".into(), ")))".into())), |_| None),
                1 => o.block = o.block.map_or(Some(("(((".into(), ")))".into())), |_| None),
                2 => o.comment = o.comment.map_or(Some(("(((".into(), ")))".into())), |_| None),
                k => {
                    let p = match k {
                        3 => &mut o.expr,
                        4 => &mut o.block,
                        _ => &mut o.comment,
                    };
                    if let Some((a, b)) = p {
                        if s.coin() {
                            a.push('x')
                        } else {
                            b.push('x')
                        }
                    }
                }
            }
            if o != *d && b == o.to_syntax() {
                return Err(format!("the syntaxes of {d:?} and {o:?} are equal"));
            }
            if b.clone() != b {
                return Err("a syntax differs from its clone".into());
            }
            Ok(b)
        }
    }
}

/// Texts of all kinds, most of them invalid.
fn c25_text(s: &mut Src, case: &mut Case) -> Res {
    let d = match s.below(4) {
        0 => crate::props::texts::any_delims(s),
        1 => gen::wordy_delims(s),
        _ => gen::delims(s),
    };
    let t = crate::props::texts::any_text(s, &d);
    case.say(|| format!("delimiters: {d:?}\ntext: {t:?}"));
    let syntax = if s.odds(1, 3) { c25_builder(s, &d)? } else { d.to_syntax() };
    let exp = model::parse(&d, &t);
    if matches!(&exp, Ok(t) if t.unspecified) {
        return case.discard("unspecified");
    }
    let e = guard("building an engine", || Engine::with_syntax(syntax))?;
    match (&exp, guard("compile", || e.compile(t.as_str()))?) {
        (Ok(_), Ok(_)) => case.label("accepted text"),
        (Err(_), Err(e)) => {
            if see(&e)?.kind != model::Kind::Syntax {
                return Err(format!("rejected with {e:#}"));
            }
            case.label("rejected text")
        }
        (Ok(_), Err(e)) => return Err(format!("a valid text was rejected: {e:#}")),
        (Err(x), Ok(_)) => {
            return Err(format!("an invalid text was accepted; the problem is {:?}", &t[x.span.0..x.span.1]))
        }
    }
    case.key(&t);
    case.key(&format!("{d:?}"));
    case.nontrivial = d.patterns().iter().any(|(p, ..)| t.contains(p.as_str()));
    Ok(())
}

fn c25(s: &mut Src, case: &mut Case) -> Res {
    if s.odds(1, 4) {
        return c25_text(s, case);
    }
    let d = if s.odds(1, 5) { gen::wordy_delims(s) } else { gen::delims(s) };
    let mut p = restrict(
        Prof {
            trim: 4,
            near: 1,
            fault: 0,
            filter: 4,
            ..Prof::default()
        },
        &d,
    );
    if s.coin() {
        p.loops = 1.min(p.loops);
        p.include = 0;
    }
    let funcs = pick_funcs(&["id", "append", "text", "show", "or", "tolist", "tomap", "upto"]);
    let globals = gen::context(s);
    let (root, templates) = {
        let mut g = Gen::new(s, p, &funcs, &globals);
        let root = g.body1();
        (root, std::mem::take(&mut g.templates))
    };
    let spell = |d: &Delims| {
        let mut sc = Scene::new(globals.clone(), gen::spell(&root, d), funcs.clone());
        sc.templates = templates.iter().map(|(n, t)| (n.clone(), gen::spell(t, d))).collect();
        sc.delims = d.clone();
        sc
    };
    let plain = spell(&Delims::default());
    let custom = spell(&d);
    if s.odds(1, 3) {
        // The default delimiters are ordinary text.
        let mut c2 = custom.clone();
        let extra = *s.of(&["{{ a }}", "{% if a %}", "{# x #}", "{{-", "-%}"]);
        if s.coin() {
            c2.root = format!("{extra}{}", c2.root);
        } else {
            c2.root = format!("{}{extra}", c2.root);
        }
        if let Some(o) = judge(case, &c2, Level::Kind, false)? {
            case.label("default delimiters in the text");
            case.key(&format!("{d:?}"));
            case.nontrivial = o.stats.emits + o.stats.ifs > 0;
        }
        return Ok(());
    }
    let Some(o) = judge(case, &custom, Level::Kind, false)? else {
        return Ok(());
    };
    case.key(&format!("{d:?}"));
    case.nontrivial = o.stats.emits + o.stats.ifs + o.stats.loops > 0;
    // The same template under the default delimiters, if it still consists of
    // the same pieces.
    let same_pieces = |sc: &Scene| {
        let o = sc.predict(&Ctx::Value(&sc.globals));
        o.map(|o| (o.out, o.res.is_ok(), o.stats.steps))
    };
    let (a, b) = (same_pieces(&plain), same_pieces(&custom));
    if a.is_some() && a == b {
        case.label("same template under the default delimiters");
        let x = plain.actual(&RealCtx::Value(&plain.globals))?;
        let y = custom.actual(&RealCtx::Value(&custom.globals))?;
        match (x.res, y.res) {
            (Ok(x), Ok(y)) if x == y => {}
            (Err(x), Err(y)) if x.kind == y.kind && x.reason == y.reason => {}
            (x, y) => {
                return Err(format!(
                    "default delimiters: {x:?}\ncustom delimiters: {y:?}\nfor {:?}",
                    plain.root
                ))
            }
        }
    }
    Ok(())
}

macro_rules! prop {
    ($id:literal, $f:ident, $quick:expr, $thorough:expr, $rule:literal) => {
        Prop {
            id: $id,
            case: $f,
            rule: $rule,
            assumptions: ASSUME,
            quick: $quick,
            thorough: $thorough,
            once: None,
        }
    };
}

const P: &[Prop] = &[
    prop!("C03", c03, 150_000, 20_000_000, "generated valid templates with faulty expressions, include cycles, failing functions and unrelated data; non-trivial: the model executes at least 5 steps"),
    prop!("C04", c04, 300_000, 40_000_000, "texts dense in delimiter characters, comments and odd whitespace under default and custom delimiters; non-trivial: more than 3 bytes and at least one literal or emitted part"),
    prop!("C07", c07, 150_000, 20_000_000, "templates of nested conditional chains over every kind of value; non-trivial: at least one conditional is executed"),
    prop!("C08", c08, 120_000, 20_000_000, "templates of nested loops over borrowed and computed lists and maps; non-trivial: more than one iteration"),
    prop!("C09", c09, 150_000, 20_000_000, "templates of nested with, for and include over few names, so that bindings shadow each other; non-trivial: uses a bound and a global variable"),
    prop!("C10", c10, 120_000, 20_000_000, "template sets with plain and with-includes in loops and bindings, resolved by the engine or a function; non-trivial: an include is executed and a variable is used"),
    prop!("C11", c11, 100_000, 10_000_000, "random include graphs and chains around the configured and default maximum; non-trivial: include depth at least 2"),
    prop!("C12", c12, 200_000, 30_000_000, "templates with trim markers on half of the tag sides between all kinds of whitespace; non-trivial: literal text is executed and there is output"),
    prop!("C13", c13, 120_000, 20_000_000, "templates of filter chains with arguments, recorded call by call; non-trivial: a chain of at least two filters and two calls"),
    prop!("C15", c15, 120_000, 20_000_000, "emissions through every formatter and default formatter, recorded; non-trivial: at least one emission"),
    prop!("C21", c21, 120_000, 20_000_000, "templates rendered from a value function whose calls are recorded; non-trivial: the function is called"),
    prop!("C25", c25, 150_000, 20_000_000, "templates spelled under random delimiters, compared with the model and the default spelling; non-trivial: a tag is executed"),
];
pub static PROPS: &[&Prop] = &[
    &P[0], &P[1], &P[2], &P[3], &P[4], &P[5], &P[6], &P[7], &P[8], &P[9], &P[10], &P[11],
];
