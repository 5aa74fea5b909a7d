//! C16 and C22: the ways to render a scene, compared with each other.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io;

use serde::ser::{Serialize, SerializeMap, SerializeSeq, Serializer};
use upon::{Engine, Template, Value, ValueAccess, ValueAccessOp, ValueMember};

use super::scene::{all_funcs, make, restrict, Scene, CUSTOM_MISSING};
use crate::funcs::{self, Fmt, Func, FuncSet, Shape, Ty};
use crate::gen::{self, Prof};
use crate::model::{show, Ctx, Delims, Event, Kind};
use crate::run::{Case, Once, Prop, Res};
use crate::src::{Rng, Src};
use crate::uut::{self, guard, see, Seen};

/// A value serialized by hand: other lengths, narrow integers, options.
pub struct View<'a>(pub &'a Value);

impl Serialize for View<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            Value::None => s.serialize_none(),
            Value::Bool(b) => s.serialize_some(b),
            Value::Integer(n) => match (u8::try_from(*n), i32::try_from(*n), u64::try_from(*n)) {
                (Ok(n), _, _) => s.serialize_u8(n),
                (_, Ok(n), _) => s.serialize_i32(n),
                (_, _, Ok(n)) => s.serialize_u64(n),
                _ => s.serialize_i64(*n),
            },
            Value::Float(x) => s.serialize_f64(*x),
            Value::String(t) => s.collect_str(t),
            Value::List(l) => {
                let mut q = s.serialize_seq(None)?;
                for x in l {
                    q.serialize_element(&View(x))?;
                }
                q.end()
            }
            Value::Map(m) => {
                let mut q = s.serialize_map(None)?;
                for (k, x) in m.iter().rev() {
                    q.serialize_key(k)?;
                    q.serialize_value(&View(x))?;
                }
                q.end()
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    Value,
    Serde,
    View,
    Fn,
}

#[derive(Clone, Copy, Debug)]
pub struct Way {
    pub registered: bool,
    pub how: How,
}

/// Follows a path through the data, as the engine would.
pub fn walk(globals: &Value, path: &[ValueMember<'_>]) -> Result<Value, String> {
    let mut cur = globals;
    for m in path {
        let next = match (cur, m.access) {
            (Value::Map(x), ValueAccess::Key(k)) => x.get(k),
            (Value::List(l), ValueAccess::Index(i)) => l.get(i),
            _ => return Err("cannot follow the path".into()),
        };
        match next {
            Some(v) => cur = v,
            None if m.op == ValueAccessOp::Optional => return Ok(Value::None),
            None => return Err("nothing at the path".into()),
        }
    }
    Ok(cur.clone())
}

pub type Store<'a> = BTreeMap<&'a str, Result<Template<'a>, String>>;

pub fn store<'a>(sc: &'a Scene, e: &Engine<'_>) -> Result<Store<'a>, String> {
    let mut m = BTreeMap::new();
    let stranger = sc.stranger()?;
    let e = stranger.as_ref().unwrap_or(e);
    for (n, t) in sc.custom.iter().flatten() {
        let v = match t {
            Ok(t) => Ok(guard("compile", || e.compile(t.as_str()))?
                .map_err(|err| format!("template {n:?} was rejected: {err:#}"))?),
            Err(m) => Err(m.clone()),
        };
        m.insert(n.as_str(), v);
    }
    Ok(m)
}

/// Renders one way; `tick` is called from every callback a render has.
#[allow(clippy::too_many_arguments)]
pub fn run_way<'a>(
    sc: &'a Scene,
    name: &'a str,
    e: &'a Engine<'a>,
    tpl: &'a Template<'a>,
    store: &'a Store<'a>,
    way: Way,
    tick: &'a dyn Fn(),
    sink: Option<&mut dyn io::Write>,
) -> Result<Result<Option<String>, upon::Error>, String> {
    let g = &sc.globals;
    guard("rendering", move || {
        let rf = |p: &[ValueMember<'_>]| {
            tick();
            walk(g, p)
        };
        let tr = e.template(name);
        let r = match (way.registered, way.how) {
            (true, How::Value) => tr.render_from(g),
            (false, How::Value) => tpl.render_from(e, g),
            (true, How::Serde) => tr.render(g),
            (false, How::Serde) => tpl.render(e, g),
            (true, How::View) => tr.render(View(g)),
            (false, How::View) => tpl.render(e, View(g)),
            (true, How::Fn) => e.get_template(name).unwrap().render_from_fn(rf),
            (false, How::Fn) => tpl.render_from_fn(e, rf),
        };
        let r = match sc.render_depth {
            Some(d) => r.with_max_include_depth(d),
            None => r,
        };
        // Renderers of the same template with settings of their own, which are
        // never used: their settings are nobody else's.
        let others = (sc.root.len() % 2 == 1).then(|| {
            let f = |_: &str| Err::<&Template<'_>, _>("a stranger's".to_string());
            (tpl.render_from(e, g).with_max_include_depth(0), tr.render_from(g).with_template_fn(f))
        });
        if sc.root.len() % 4 == 1 {
            drop(others);
        }
        let r = if sc.custom.is_some() {
            r.with_template_fn(move |n| {
                tick();
                funcs::log(|| Event::Template(n.to_string()));
                match store.get(n) {
                    Some(Ok(t)) => Ok(t),
                    Some(Err(m)) => Err(m.clone()),
                    None => Err(CUSTOM_MISSING.to_string()),
                }
            })
        } else {
            r
        };
        match sink {
            None => r.to_string().map(Some),
            Some(w) => r.to_writer(w).map(|_| None),
        }
    })
}

/// A writer with short writes, interruptions and a fault at some byte.
pub struct Sink {
    pub got: Vec<u8>,
    rng: Rng,
    chunk: u64,
    interrupts: u64,
    streak: u32,
    fail_at: Option<usize>,
    sticky: bool,
    fired: bool,
    fault: Fault,
    flush: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Kind(io::ErrorKind),
    Message(io::ErrorKind),
    Os(i32),
    Zero,
}

/// Every kind but the one that asks for another attempt.
pub const KINDS: &[io::ErrorKind] = {
    use io::ErrorKind::*;
    &[
        Other,
        BrokenPipe,
        WouldBlock,
        TimedOut,
        WriteZero,
        UnexpectedEof,
        InvalidData,
        InvalidInput,
        NotFound,
        PermissionDenied,
        ConnectionRefused,
        ConnectionReset,
        ConnectionAborted,
        NotConnected,
        AddrInUse,
        AddrNotAvailable,
        AlreadyExists,
        Unsupported,
        OutOfMemory,
    ]
};

const MESSAGE: &str = "the disk says no: 名前";

impl Fault {
    fn make(self) -> io::Result<usize> {
        match self {
            Fault::Kind(k) => Err(k.into()),
            Fault::Message(k) => Err(io::Error::new(k, MESSAGE)),
            Fault::Os(n) => Err(io::Error::from_raw_os_error(n)),
            Fault::Zero => Ok(0),
        }
    }

    fn check(self, e: &io::Error) -> Res {
        let ok = match self {
            Fault::Kind(k) => e.kind() == k && e.get_ref().is_none(),
            Fault::Message(k) => e.kind() == k && e.to_string() == MESSAGE,
            Fault::Os(n) => e.raw_os_error() == Some(n),
            Fault::Zero => e.kind() == io::ErrorKind::WriteZero,
        };
        if !ok {
            return Err(format!("the source of the error is {e:?}, the writer failed with {self:?}"));
        }
        Ok(())
    }
}

impl Sink {
    fn new(s: &mut Src) -> Self {
        Sink {
            got: vec![],
            rng: Rng(s.draw(0)),
            chunk: *s.of(&[1, 2, 3, 7, 1000]),
            interrupts: *s.of(&[0, 0, 2, 8]),
            streak: 0,
            fail_at: None,
            sticky: false,
            fired: false,
            fault: Fault::Zero,
            flush: !s.odds(1, 4),
        }
    }
}

impl io::Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.rng.next() % 16 < self.interrupts && self.streak < 5 {
            self.streak += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.streak = 0;
        let mut n = buf.len().min(1 + (self.rng.next() % self.chunk) as usize);
        if let Some(at) = self.fail_at {
            if self.got.len() >= at && (self.sticky || !self.fired) {
                self.fired = true;
                return self.fault.make();
            }
            if self.got.len() < at {
                n = n.min(at - self.got.len());
            }
        }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        if !self.flush {
            return Err(io::Error::new(io::ErrorKind::Other, "cannot be flushed"));
        }
        Ok(())
    }
}

/// The outcome without the template's own name.
#[derive(Clone, Debug, PartialEq)]
pub struct Shown {
    pub res: Result<String, Seen>,
}

fn anonymous(mut e: Seen, name: &str) -> Seen {
    if let Some(p) = &mut e.pretty {
        if p.name == name {
            p.name = "<anonymous>".into();
        }
    }
    e.text = String::new();
    e
}

fn differ(what: &str, base: &Result<String, Seen>, got: &Result<String, Seen>, loose: bool) -> Res {
    let ok = match (base, got) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) if loose => {
            a.kind == b.kind && (a.kind == Kind::Render || a.reason == b.reason)
        }
        (Err(a), Err(b)) => a == b,
        _ => false,
    };
    if !ok {
        return Err(format!("compiled, from a value, to a string: {base:?}\n{what}: {got:?}"));
    }
    Ok(())
}

/// Filters whose parameters after the first are references refuse the computed
/// values that a value function gives.
fn no_ref_args() -> FuncSet {
    all_funcs()
        .into_iter()
        .filter(|(_, f)| match f {
            Func::Filter(f) => !f.params[1..]
                .iter()
                .any(|t| matches!(t, Ty::StrRef | Ty::ListRef | Ty::MapRef | Ty::ValueRef)),
            Func::Formatter(_) => true,
        })
        .collect()
}

fn any_scene(s: &mut Src) -> Scene {
    let p = Prof {
        fault: *s.of(&[0, 0, 4, 30]),
        boom: s.odds(1, 4),
        cyclic: *s.of(&[0, 0, 8]),
        ..Prof::default()
    };
    let d = if s.odds(1, 8) { gen::delims(s) } else { Delims::default() };
    let p = restrict(p, &d);
    let mut sc = make(s, p, no_ref_args(), d);
    sc.default_fmt = *s.of(&[Fmt::Builtin, Fmt::Builtin, Fmt::Show, Fmt::Bang, Fmt::ErrNone, Fmt::Remap]);
    if s.odds(1, 8) {
        sc.engine_depth = Some(super::scene::depths(s));
    }
    if s.odds(1, 8) {
        sc.render_depth = Some(super::scene::depths(s));
    }
    if s.odds(1, 50) {
        // More text than a buffer holds.
        let n = s.size(&[100, 250, 256, 511, 1000, 1024, 4090, 4096, 4100, 8192, 8200, 66_000], 300_000);
        let unit = s.pick(&["0123456789", "abc\n", "é", "名前.", "x", "\u{1f600}y"]);
        let mut text = unit.repeat(n / unit.len() + 1);
        if s.coin() {
            text.push('!');
        }
        let mut place = |s: &mut Src, t: &str| {
            if s.coin() {
                sc.root.push_str(t);
            } else {
                sc.root.insert_str(0, t);
            }
        };
        match (&mut sc.globals, &sc.delims.expr, s.coin()) {
            (Value::Map(m), Some((b, e)), true) => {
                place(s, &format!("{b} large {e}"));
                m.insert("large".into(), Value::String(text));
            }
            _ => place(s, &text),
        }
    }
    if s.odds(1, 4) {
        let mut c: BTreeMap<String, Result<String, String>> =
            std::mem::take(&mut sc.templates).into_iter().map(|(n, t)| (n, Ok(t))).collect();
        if s.odds(1, 4) {
            for v in c.values_mut().take(1) {
                *v = Err("refused".into());
            }
        }
        sc.custom = Some(c);
    }
    sc
}

struct Fails;
impl Serialize for Fails {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(None)?;
        m.serialize_entry("a", &1)?;
        Err(serde::ser::Error::custom("cannot serialize this"))
    }
}

fn c16(s: &mut Src, case: &mut Case) -> Res {
    let sc = any_scene(s);
    case.say(|| sc.describe());
    let Some(exp) = sc.predict(&Ctx::Value(&sc.globals)) else {
        return case.discard("not a valid template");
    };
    if let Some(d) = exp.discard {
        return case.discard(d);
    }
    let mut e = sc.engine()?;
    // A name that no included template has.
    let mut root = "root".to_string();
    while sc.templates.contains_key(&root) {
        root.push('_');
    }
    let root = root.as_str();
    guard("add_template", || e.add_template(root, sc.root.as_str()))?
        .map_err(|err| format!("the template was rejected: {err:#}"))?;
    let stranger = sc.stranger()?;
    let tpl = guard("compile", || stranger.as_ref().unwrap_or(&e).compile(sc.root.as_str()))?
        .map_err(|err| format!("the template was rejected: {err:#}"))?;
    if tpl.source() != sc.root || e.template(root).source() != sc.root {
        return Err("the source is not kept".into());
    }
    let st = store(&sc, &e)?;
    let go = |way: Way, sink: Option<&mut dyn io::Write>| -> Result<(Result<Option<String>, upon::Error>, Vec<Event>), String> {
        funcs::log_start();
        let r = run_way(&sc, root, &e, &tpl, &st, way, &|| (), sink);
        let ev = funcs::log_take();
        Ok((r?, ev))
    };
    let seen = |r: Result<String, upon::Error>| -> Result<Result<String, Seen>, String> {
        Ok(match r {
            Ok(t) => Ok(t),
            Err(e) => Err(anonymous(see(&e)?, root)),
        })
    };
    let first = Way {
        registered: false,
        how: How::Value,
    };
    let (base, base_ev) = go(first, None)?;
    let base = seen(base.map(|t| t.unwrap()))?;
    match (&base, &exp.res) {
        (Ok(a), Ok(())) if *a == exp.out => {}
        (Err(_), Err(_)) => {}
        _ => return Err(format!("rendered {base:?}\nexpected {:?} with output {:?}", exp.res, exp.out)),
    }
    for registered in [false, true] {
        for how in [How::Value, How::Serde, How::View, How::Fn] {
            let way = Way { registered, how };
            let writer = s.coin();
            let what = format!("{way:?}, to a {}", if writer { "writer" } else { "string" });
            let mut sink = Sink::new(s);
            let (r, ev) = go(way, if writer { Some(&mut sink) } else { None })?;
            let r = match r {
                Ok(Some(t)) => Ok(t),
                Ok(None) => Ok(String::from_utf8(sink.got.clone())
                    .map_err(|_| format!("{what}: the writer got something that is not UTF-8: {:?}", sink.got))?),
                Err(e) => Err(e),
            };
            let r = seen(r)?;
            differ(&what, &base, &r, how == How::Fn)?;
            // A failing value function can only fail where a lookup would.
            if ev != base_ev {
                return Err(format!("{what}: user functions were called with {ev:?}, before with {base_ev:?}"));
            }
        }
    }
    // A writer that fails.
    if let Ok(out) = &base {
        for _ in 0..3 {
            let way = Way {
                registered: s.coin(),
                how: *s.of(&[How::Value, How::Serde, How::View, How::Fn]),
            };
            let mut sink = Sink::new(s);
            let at = match s.below(4) {
                0 => 0,
                1 => out.len(),
                2 => out.len().saturating_sub(1),
                _ => s.below(out.len() + 1),
            };
            sink.fail_at = Some(at);
            sink.sticky = s.coin();
            sink.fault = match s.below(5) {
                0 => Fault::Zero,
                1 => Fault::Message(*s.of(KINDS)),
                2 => Fault::Os(s.range(5, 133) as i32),
                _ => Fault::Kind(*s.of(KINDS)),
            };
            let what = format!(
                "{way:?}, to a writer failing at byte {at} of {} with {:?}, {}",
                out.len(),
                sink.fault,
                if sink.sticky { "for good" } else { "once" }
            );
            case.say(|| what.clone());
            let fault = sink.fault;
            let (r, _) = go(way, Some(&mut sink))?;
            if !out.as_bytes().starts_with(&sink.got) {
                return Err(format!(
                    "{what}: the writer accepted {:?}, which is no prefix of {out:?}",
                    String::from_utf8_lossy(&sink.got)
                ));
            }
            match r {
                Ok(_) if at == out.len() && sink.got.len() == at => case.label("writer full at the end"),
                Ok(_) => return Err(format!("{what}: rendering succeeded")),
                Err(err) => {
                    let sn = see(&err)?;
                    if sn.kind != Kind::Io || !sink.fired {
                        return Err(format!("{what}: failed with {}", sn.text));
                    }
                    let src = std::error::Error::source(&err)
                        .and_then(|x| x.downcast_ref::<io::Error>())
                        .ok_or_else(|| format!("{what}: the error has no source"))?;
                    fault.check(src)?;
                    case.label("failing writer");
                }
            }
        }
    } else if s.coin() {
        // Whichever error comes first, it fails.
        let mut sink = Sink::new(s);
        sink.fail_at = Some(s.below(exp.out.len() + 2));
        sink.sticky = true;
        sink.fault = Fault::Kind(*s.of(KINDS));
        let (r, _) = go(first, Some(&mut sink))?;
        match r {
            Ok(_) => return Err("rendering succeeded to a failing writer, but fails to a string".into()),
            Err(e) => {
                see(&e)?;
            }
        }
        if !exp.out.as_bytes().starts_with(&sink.got) && exp.res.as_ref().err().map_or(true, |f| f.kind != Kind::Format) {
            return Err(format!(
                "the writer accepted {:?}, not a prefix of {:?}",
                String::from_utf8_lossy(&sink.got),
                exp.out
            ));
        }
        case.label("failing template and writer");
    }
    // Data that cannot be serialized.
    if s.odds(1, 8) {
        let mut buf = vec![];
        let a = guard("rendering", || tpl.render(&e, Fails).to_string())?;
        let b = guard("rendering", || e.template("root").render(Fails).to_writer(&mut buf))?;
        for r in [a.map(|_| ()), b] {
            match r {
                Err(err) => {
                    let sn = see(&err)?;
                    if sn.kind != Kind::Serialize || !sn.text.contains("cannot serialize this") {
                        return Err(format!("data that cannot be serialized: {}", sn.text));
                    }
                }
                Ok(_) => return Err("data that cannot be serialized was rendered".into()),
            }
        }
        if !buf.is_empty() {
            return Err(format!("data that cannot be serialized produced output: {buf:?}"));
        }
        case.label("unserializable data");
    }
    super::scene::stat_labels(case, &exp);
    case.key(&sc.describe());
    case.label_if(sc.custom.is_some(), "template function");
    case.nontrivial = exp.stats.steps >= 4 && exp.out.len() >= 4;
    Ok(())
}

// ------------------------------------------------------------------ C22

thread_local! {
    /// Called by filters, formatters and callbacks in the middle of a render.
    static REENTER: Cell<Option<*const dyn Fn()>> = const { Cell::new(None) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static ERRORS: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}

fn reenter() {
    if INSIDE.with(|i| i.replace(true)) {
        return;
    }
    if let Some(f) = REENTER.with(|r| r.get()) {
        // The pointer is set for the duration of `with_reenter` only.
        unsafe { (*f)() };
    }
    INSIDE.with(|i| i.set(false));
}

fn with_reenter<T>(f: &dyn Fn(), body: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            REENTER.with(|r| r.set(None));
            INSIDE.with(|r| r.set(false));
        }
    }
    let _reset = Reset;
    let p: *const (dyn Fn() + '_) = f;
    // Lifetime erased, see above.
    let p: *const (dyn Fn() + 'static) = unsafe { std::mem::transmute(p) };
    REENTER.with(|r| r.set(Some(p)));
    body()
}

fn again_filter() -> Func {
    Func::Filter(funcs::Filter {
        params: &[Ty::Value],
        run: |a| {
            reenter();
            Ok(a[0].clone())
        },
        reg: crate::reg_filter!(v: Value),
        result: Shape::Same,
    })
}

/// A writer from which templates are rendered.
struct Tick<'a>(&'a mut Vec<u8>);
impl io::Write for Tick<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        reenter();
        self.0.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

type Out = (Result<String, Seen>, Vec<Event>);

fn c22(s: &mut Src, case: &mut Case) -> Res {
    // Several templates over one set of included templates and data.
    let mut scenes: Vec<Scene> = vec![];
    let n = s.range(2, 3);
    let mut funcs = no_ref_args();
    funcs.insert("again".into(), again_filter());
    let p = Prof {
        fault: *s.of(&[0, 4, 30]),
        boom: true,
        cyclic: *s.of(&[0, 0, 8]),
        include: 2,
        filter: 5,
        ..Prof::default()
    };
    let fmt = *s.of(&[Fmt::Builtin, Fmt::Show, Fmt::Bang]);
    let depth = s.odds(1, 4).then(|| s.range(1, 3));
    let mut all = BTreeMap::new();
    for i in 0..n {
        let mut sc = make(s, p.clone(), funcs.clone(), Delims::default());
        sc.default_fmt = fmt;
        sc.engine_depth = depth;
        sc.root_name = Some(format!("root{i}"));
        for (n, t) in std::mem::take(&mut sc.templates) {
            all.entry(n).or_insert(t);
        }
        scenes.push(sc);
    }
    // One template with other data.
    let mut tid: Vec<usize> = (0..n).collect();
    if s.odds(1, 3) {
        tid[1] = 0;
        scenes[1].root = scenes[0].root.clone();
        scenes[1].globals = match (&scenes[0].globals, s.below(3)) {
            (Value::Map(m), 0 | 1) => {
                let mut m = m.clone();
                if let Value::Map(x) = gen::context(s) {
                    for (k, v) in x {
                        if s.odds(1, 3) {
                            m.insert(k, v);
                        }
                    }
                }
                Value::Map(m)
            }
            _ => gen::context(s),
        };
        case.label("one template with different data");
    }
    for i in 0..n {
        all.insert(format!("root{i}"), scenes[i].root.clone());
    }
    let mut budget = 0;
    for sc in &mut scenes {
        sc.templates = all.clone();
        case.say(|| sc.describe());
        let Some(exp) = sc.predict(&Ctx::Value(&sc.globals)) else {
            return case.discard("not a valid template");
        };
        if exp.discard == Some("budget") {
            return case.discard("budget");
        }
        budget += exp.stats.steps;
    }
    if budget > 4000 {
        return case.discard("too long");
    }
    let names: Vec<String> = tid.iter().map(|i| format!("root{i}")).collect();
    let before: Vec<String> = scenes.iter().map(|sc| show(&sc.globals)).collect();

    // Each alone, in an engine of its own.
    let alone: Vec<Out> = {
        let mut v = vec![];
        for (i, sc) in scenes.iter().enumerate() {
            let e = sc.engine()?;
            let tpl = guard("compile", || e.compile(sc.root.as_str()))?.map_err(|e| format!("{e:#}"))?;
            let st = store(sc, &e)?;
            funcs::log_start();
            let r = run_way(sc, &names[i], &e, &tpl, &st, Way { registered: true, how: How::Value }, &|| (), None);
            let ev = funcs::log_take();
            let r = match r? {
                Ok(t) => Ok(t.unwrap()),
                Err(e) => Err(anonymous(see(&e)?, &names[i])),
            };
            v.push((r, ev));
        }
        v
    };
    // Then in any order in a shared one.
    let e = scenes[0].engine()?;
    let dbg = format!("{e:?}");
    let mut tpls = vec![];
    for sc in &scenes {
        tpls.push(guard("compile", || e.compile(sc.root.as_str()))?.map_err(|e| format!("{e:#}"))?);
    }
    let stores: Vec<Store<'_>> = scenes.iter().map(|sc| store(sc, &e)).collect::<Result<_, _>>()?;
    let render = |i: usize, way: Way, writer: u8| -> Res {
        let mut buf: Vec<u8> = vec![];
        let logging = !INSIDE.with(|x| x.get());
        if logging {
            funcs::log_start();
        }
        let r = if writer == 0 {
            run_way(&scenes[i], &names[i], &e, &tpls[tid[i]], &stores[i], way, &reenter, None)
        } else {
            let mut t = Tick(&mut buf);
            run_way(&scenes[i], &names[i], &e, &tpls[tid[i]], &stores[i], way, &reenter, Some(&mut t))
        };
        let ev = if logging { Some(funcs::log_take()) } else { None };
        let r = match r? {
            Ok(Some(t)) => Ok(t),
            Ok(None) => Ok(String::from_utf8_lossy(&buf).into_owned()),
            Err(e) => Err(anonymous(see(&e)?, &names[i])),
        };
        let what = || format!("template {i}, {way:?}, {}", if writer == 0 { "to a string" } else { "to a writer" });
        let loose = way.how == How::Fn;
        differ(&what(), &alone[i].0, &r, loose)?;
        if let Some(ev) = ev {
            if ev != alone[i].1 {
                return Err(format!("{}: user functions were called with {ev:?}, alone with {:?}", what(), alone[i].1));
            }
        }
        Ok(())
    };
    let any_way = |s: &mut Src| {
        (
            s.below(n),
            Way {
                registered: s.coin(),
                how: *s.of(&[How::Value, How::Serde, How::View, How::Fn]),
            },
            s.below(2) as u8,
        )
    };
    let plan: Vec<_> = (0..s.range(2, 6)).map(|_| any_way(s)).collect();
    case.say(|| format!("renders {plan:?}"));
    for &(i, way, w) in &plan {
        render(i, way, w)?;
    }
    if s.odds(1, 60) && budget < 300 {
        case.label("hundreds of renders");
        let (i, way, w) = any_way(s);
        let (j, way2, w2) = any_way(s);
        let k = *s.of(&[70, 140, 260, 300]);
        case.say(|| format!("{k} times {:?} and {:?}", (i, way, w), (j, way2, w2)));
        for _ in 0..k {
            render(i, way, w)?;
            render(j, way2, w2)?;
        }
    }
    // Renders inside renders.
    if s.coin() {
        case.label("re-entrant");
        let inner = any_way(s);
        let hits = Cell::new(0);
        let f = || {
            if hits.get() > 20 {
                return;
            }
            hits.set(hits.get() + 1);
            // The outer render's record must not see the inner calls.
            let saved = funcs::LOG.with(|l| l.borrow_mut().take());
            let r = render(inner.0, inner.1, inner.2);
            funcs::LOG.with(|l| *l.borrow_mut() = saved);
            if let Err(m) = r {
                ERRORS.with(|e| e.borrow_mut().push(m));
            }
        };
        for _ in 0..2 {
            let (i, way, w) = any_way(s);
            case.say(|| format!("render {:?} inside {:?}", inner, (i, way, w)));
            let r = with_reenter(&f, || render(i, way, w));
            if let Some(m) = ERRORS.with(|e| std::mem::take(&mut *e.borrow_mut())).pop() {
                return Err(format!("inside another render: {m}"));
            }
            r?;
        }
        case.label_if(hits.get() > 0, "rendered inside a render");
    }
    // Renders abandoned by a panic of a user's function or writer.
    if s.odds(1, 6) {
        let times = *s.of(&[1, 3, 12, 40]);
        let (i, way, w) = any_way(s);
        let after = s.below(4);
        let hits = Cell::new(0);
        let abandoned = Cell::new(0);
        let f = || {
            hits.set(hits.get() + 1);
            if hits.get() > after {
                std::panic::panic_any(uut::Abandon);
            }
        };
        case.say(|| format!("{times} times {:?} panics at call {after} of a user's function", (i, way, w)));
        for _ in 0..times {
            hits.set(0);
            let r = with_reenter(&f, || {
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| render(i, way, w)))
            });
            match r {
                Ok(r) => r?,
                Err(_) => {
                    abandoned.set(abandoned.get() + 1);
                    let _ = funcs::log_take();
                }
            }
        }
        case.label_if(abandoned.get() > 0, "a user's function panics");
        let (j, way, w) = any_way(s);
        render(j, way, w)?;
    }
    // Renders at the same time.
    if s.odds(1, 4) {
        case.label("concurrent");
        let plans: Vec<Vec<_>> = (0..s.range(2, 4))
            .map(|_| (0..s.range(1, 6)).map(|_| any_way(s)).collect())
            .collect();
        case.say(|| format!("threads {plans:?}"));
        let barrier = std::sync::Barrier::new(plans.len());
        let shared = Shared {
            scenes: &scenes,
            e: &e,
            tpls: &tpls,
            tid: &tid,
            names: &names,
            alone: &alone,
        };
        let errs: Vec<String> = std::thread::scope(|t| {
            let hs: Vec<_> = plans
                .iter()
                .map(|plan| {
                    let (b, sh) = (&barrier, &shared);
                    t.spawn(move || -> Res {
                        b.wait();
                        for &(i, way, _) in plan {
                            sh.render(i, way)?;
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter()
                .filter_map(|h| match h.join() {
                    Ok(r) => r.err(),
                    Err(_) => Some("a rendering thread panicked".into()),
                })
                .collect()
        });
        if let Some(m) = errs.first() {
            return Err(format!("with several threads: {m}"));
        }
    }
    for &(i, way, w) in plan.iter().take(2) {
        render(i, way, w)?;
    }
    // Nothing has changed.
    for (sc, b) in scenes.iter().zip(&before) {
        if show(&sc.globals) != *b {
            return Err(format!("the context was {b}, after rendering it is {}", show(&sc.globals)));
        }
    }
    if format!("{e:?}") != dbg {
        return Err(format!("the engine has changed: {dbg}\nto {e:?}"));
    }
    for (i, t) in tpls.iter().enumerate() {
        if t.source() != scenes[i].root || e.template(&names[i]).source() != scenes[i].root {
            return Err("the source of a template has changed".into());
        }
    }
    let ok = alone.iter().filter(|a| a.0.is_ok()).count();
    case.label_if(ok > 0 && ok < n, "successful and failing renders");
    case.key(&format!("{plan:?}"));
    for sc in &scenes {
        case.key(&sc.describe());
    }
    case.nontrivial = budget >= 10 && ok > 0;
    Ok(())
}

/// A history far longer than a generated case has: one engine renders a few
/// templates tens of thousands of times, also from several threads, and they
/// give what they gave first.
fn c22_once(o: &mut Once) -> Res {
    const TEXTS: &[(&str, &str)] = &[
        ("leaf", "{{ x }}."),
        ("empty", ""),
        ("self", "{% include \"self\" %}"),
        ("plain", "{{ a }}{{ m.k }}{{ l.1 }}{{ m?.no }}-{# c -#} z"),
        ("incl", "{% for x in l %}{% include \"leaf\" %}{% endfor %}{% include \"empty\" %}{% include \"t\" with m %}"),
        ("t", "[{{ k }}{% include \"leaf\" with w %}]"),
        ("calls", "{{ a | inc | inc }}{{ a | pair: \"s\" | show }}{{ l | id | show }}"),
        ("block", "{% for k, v in m %}{{ loop.index }}{% if not loop.last %}{{ k }}{% else if v %}!{% endif %}{% endfor %}{% with a as b %}{{ b }}{% endwith %}"),
        ("missing", "a{{ a }}{{ nothing }}"),
        ("unknown", "{% for x in l %}{% include \"no such\" %}{% endfor %}"),
        ("boom", "{% with 1 as q %}{{ a | boom }}{% endwith %}"),
        ("format", "{{ a }}{{ l }}"),
        ("iterate", "{% for x in a %}{% endfor %}"),
        ("ferr", "{{ a | ferr }}"),
    ];
    let texts: Vec<(&str, String)> = TEXTS.iter().map(|(n, t)| (*n, t.to_string())).collect();
    let mut e = Engine::new();
    funcs::register(&mut e, &super::scene::pick_funcs(&["inc", "pair", "show", "id", "boom", "ferr"]));
    for (n, t) in &texts {
        e.add_template(*n, t.clone()).map_err(|e| format!("{t:?} was rejected: {e:#}"))?;
    }
    let compiled: Vec<Template<'_>> = texts.iter().map(|(_, t)| e.compile(t.clone()).unwrap()).collect();
    let num = |n| Value::Integer(n);
    let map = |v: Vec<(&str, Value)>| Value::Map(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    let ctx = map(vec![
        ("a", num(7)),
        ("x", num(0)),
        ("l", Value::List(vec![num(1), num(2), num(3)])),
        ("m", map(vec![("k", num(5)), ("w", map(vec![("x", Value::String("in".into()))]))])),
    ]);
    let owned = compiled.len();
    let one = |i: usize| -> Result<String, String> {
        let (t, c) = (e.template(texts[i % owned].0), &compiled[i % owned]);
        let r = match i / owned {
            0 => t.render_from(&ctx).to_string(),
            1 => c.render_from(&e, &ctx).to_string(),
            2 => t.render(&ctx).to_string(),
            _ => {
                let mut w = Vec::new();
                let r = t.render_from(&ctx).to_writer(&mut w);
                r.map(|_| String::from_utf8(w).unwrap())
            }
        };
        r.map_err(|e| format!("{e:#}"))
    };
    let kinds = owned * 4;
    let first: Vec<_> = (0..kinds).map(one).collect();
    if first.iter().filter(|r| r.is_ok()).count() < 5 * 4 {
        return Err(format!("templates fail: {first:?}"));
    }
    let rounds = match (&o.only, o.thorough) {
        (Some(n), _) => n.parse().unwrap_or(1),
        (None, false) => 20_000,
        (None, true) => 150_000,
    };
    let run = |from: usize, shift: usize| -> Result<(), (usize, String)> {
        for n in from..=rounds {
            for k in 0..kinds {
                let i = (k + shift) % kinds;
                // The deep ones are slow.
                if texts[i % owned].0 == "self" && n % 10 > 0 {
                    continue;
                }
                let r = one(i);
                if r != first[i] {
                    let m = format!("template {:?} gave {:?} first, and {r:?} in round {n}", texts[i % owned], first[i]);
                    return Err((n, m));
                }
            }
        }
        Ok(())
    };
    let half = rounds / 2;
    let mut r = std::thread::scope(|t| {
        let hs: Vec<_> = (0..4).map(|k| t.spawn(move || run(half.max(1), k * 11))).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err((rounds, "a rendering thread panicked".into())))).collect::<Result<(), _>>()
    });
    if r.is_ok() {
        r = run(1, 0);
    }
    o.evaluations += (rounds * kinds * 3) as u64;
    o.nontrivial += kinds as u64;
    o.notes.insert("renders of one engine in a long history".into(), (rounds * kinds * 3) as u64);
    r.map_err(|(n, m)| {
        o.input = Some(n.max(rounds).to_string());
        m
    })
}

/// What the threads share.
struct Shared<'a> {
    scenes: &'a [Scene],
    e: &'a Engine<'a>,
    tpls: &'a [Template<'a>],
    tid: &'a [usize],
    names: &'a [String],
    alone: &'a [Out],
}

impl Shared<'_> {
    fn render(&self, i: usize, way: Way) -> Res {
        let st = Store::new();
        funcs::log_start();
        let r = run_way(&self.scenes[i], &self.names[i], self.e, &self.tpls[self.tid[i]], &st, way, &|| (), None);
        let ev = funcs::log_take();
        let r = match r? {
            Ok(t) => Ok(t.unwrap()),
            Err(e) => Err(anonymous(see(&e)?, &self.names[i])),
        };
        differ(&format!("template {i}, {way:?}"), &self.alone[i].0, &r, way.how == How::Fn)?;
        if ev != self.alone[i].1 {
            return Err(format!("template {i}: user functions were called with {ev:?}, alone with {:?}", self.alone[i].1));
        }
        Ok(())
    }
}

const P: &[Prop] = &[
    Prop {
        id: "C16",
        case: c16,
        rule: "scenes rendered eight ways (compiled or registered; value, serialize, hand-written serialize, value function), to strings and to writers with short writes, interruptions and faults at chosen bytes; non-trivial: the model executes at least 4 steps and there are at least 4 bytes of output",
        assumptions: &["a value function's error is a render error whose message is its own, so only its kind is compared", "filters with borrowed parameters after the first are left out, as computed values cannot be borrowed"],
        quick: 120_000,
        thorough: 6_000_000,
        once: None,
    },
    Prop {
        id: "C22",
        case: c22,
        rule: "two or three templates rendered alone, then repeatedly, interleaved, inside each other and on several threads in one engine, and a history of three million renders by one engine; non-trivial: at least 10 steps and one successful render",
        assumptions: &["threads are scheduled by the operating system, schedules are not enumerated"],
        quick: 25_000,
        thorough: 4_000_000,
        once: Some(c22_once),
    },
];
pub static PROPS: &[&Prop] = &[&P[0], &P[1]];
