//! Reference interpreter.

use std::collections::BTreeMap;
use std::rc::Rc;

use upon::Value;

use super::parse::*;
use super::{show, truthy};
use crate::funcs::{Fmt, Func, FuncSet, Ty};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Syntax,
    Render,
    Filter,
    Format,
    Serialize,
    Io,
}

/// A predicted failure.
#[derive(Clone, Debug)]
pub struct Fail {
    pub kind: Kind,
    /// The name of the template whose text contains the cause.
    pub template: Option<String>,
    /// The location, if one is shown.
    pub loc: Option<Loc>,
    /// A message that came from a user function.
    pub message: Option<String>,
    pub max_depth: Option<usize>,
}

/// A recorded call of a user function.
#[derive(Clone, Debug, PartialEq)]
pub enum Event {
    Filter(String, Vec<String>),
    Format(String, String),
    Lookup(Vec<(bool, String)>),
    Template(String),
}

pub type ValueFn<'a> = dyn Fn(&[(bool, Access)]) -> Result<Value, String> + 'a;

pub enum Ctx<'a> {
    Value(&'a Value),
    Fn(&'a ValueFn<'a>),
}

pub struct World<'a> {
    pub delims: &'a Delims,
    /// The engine's templates.
    pub templates: &'a BTreeMap<String, String>,
    /// If set, what the renderer's own lookup function answers.
    pub custom: Option<&'a BTreeMap<String, Result<String, String>>>,
    pub custom_missing: &'a str,
    pub funcs: &'a FuncSet,
    pub default_fmt: Fmt,
    pub max_depth: usize,
}

#[derive(Clone, Debug)]
struct Val {
    v: Rc<Value>,
    owned: bool,
}

impl Val {
    fn owned(v: Value) -> Self {
        Val {
            v: Rc::new(v),
            owned: true,
        }
    }
}

enum Frame {
    Globals(Val),
    Fn,
    Var(String, Val),
    Loop {
        item: Option<(String, Val)>,
        kv: Option<(String, String, Val, Val)>,
        index: usize,
        len: usize,
    },
    Boundary,
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub steps: usize,
    pub emits: usize,
    pub raws: usize,
    pub ifs: usize,
    pub else_taken: usize,
    pub loops: usize,
    pub empty_loops: usize,
    pub iterations: usize,
    pub map_loops: usize,
    pub owned_loops: usize,
    pub loop_meta: usize,
    pub withs: usize,
    pub shadowed: usize,
    pub includes: usize,
    pub includes_with: usize,
    pub max_depth: usize,
    pub filters: usize,
    pub max_chain: usize,
    pub formats: usize,
    pub paths: usize,
    pub deep_paths: usize,
    pub optional_missing: usize,
    pub bound_lookups: usize,
    pub global_lookups: usize,
}

pub struct Outcome {
    pub out: String,
    pub res: Result<(), Fail>,
    pub events: Vec<Event>,
    pub stats: Stats,
    /// The prediction is not to be relied on: resource bound or unspecified.
    pub discard: Option<&'static str>,
}

struct Bail(Option<Fail>);
type R<T> = Result<T, Bail>;

struct Source {
    name: Option<String>,
    text: String,
    tpl: Tpl,
}

struct Interp<'a> {
    w: &'a World<'a>,
    ctx: &'a Ctx<'a>,
    cache: BTreeMap<String, Option<Rc<Source>>>,
    out: String,
    frames: Vec<Frame>,
    depth: usize,
    events: Vec<Event>,
    st: Stats,
    discard: Option<&'static str>,
    limit: usize,
    /// Total size of the values that may be passed to filters.
    purse: usize,
    /// How deep the interpreter itself is.
    level: usize,
}

pub const STEP_LIMIT: usize = 20_000;

/// Renders `text` according to the reference; `text` must parse.
pub fn render(w: &World<'_>, name: Option<&str>, text: &str, ctx: &Ctx<'_>) -> Outcome {
    render_limited(w, name, text, ctx, STEP_LIMIT.max(text.len()))
}

pub fn render_limited(
    w: &World<'_>,
    name: Option<&str>,
    text: &str,
    ctx: &Ctx<'_>,
    limit: usize,
) -> Outcome {
    let tpl = parse(w.delims, text).expect("model: root template parses");
    let unspecified = tpl.unspecified || tpl.vague;
    let mut it = Interp {
        w,
        ctx,
        cache: BTreeMap::new(),
        out: String::new(),
        frames: vec![match ctx {
            Ctx::Value(v) => Frame::Globals(Val {
                v: Rc::new((*v).clone()),
                owned: false,
            }),
            Ctx::Fn(_) => Frame::Fn,
        }],
        depth: 1,
        events: vec![],
        st: Stats::default(),
        discard: None,
        limit,
        purse: 1_000_000,
        level: 0,
    };
    let src = Source {
        name: name.map(|s| s.to_string()),
        text: text.to_string(),
        tpl,
    };
    it.st.max_depth = 1;
    let r = it.body(&src, &src.tpl.body);
    if unspecified && it.discard.is_none() {
        it.discard = Some("unspecified");
    }
    let res = match r {
        Ok(()) => {
            assert!(it.frames.len() == 1, "model: balanced frames");
            Ok(())
        }
        Err(Bail(Some(f))) => Err(f),
        Err(Bail(None)) => {
            assert!(it.discard.is_some());
            Ok(())
        }
    };
    Outcome {
        out: it.out,
        res,
        events: it.events,
        stats: it.st,
        discard: it.discard,
    }
}

impl Source {
    fn err(&self, kind: Kind, span: Span, message: Option<String>) -> Bail {
        Bail(Some(Fail {
            kind,
            template: self.name.clone(),
            loc: Some(locate(&self.text, span)),
            message,
            max_depth: None,
        }))
    }

    fn render_err(&self, span: Span) -> Bail {
        self.err(Kind::Render, span, None)
    }
}

/// Follows one segment. `Ok(None)` is a missing optional member.
fn step<'v>(src: &Source, v: &'v Value, seg: &Seg) -> R<Option<&'v Value>> {
    let found = match (v, &seg.access) {
        (Value::Map(m), Access::Key(k)) => m.get(k),
        (Value::List(l), Access::Index(i)) => l.get(*i),
        _ => return Err(src.render_err(seg.span)),
    };
    match found {
        Some(v) => Ok(Some(v)),
        None if seg.optional => Ok(None),
        None => Err(src.render_err(seg.span)),
    }
}

impl<'a> Interp<'a> {
    fn tick(&mut self) -> R<()> {
        self.st.steps += 1;
        if self.st.steps > self.limit || self.out.len() > 1 << 20 {
            self.discard = Some("budget");
            return Err(Bail(None));
        }
        Ok(())
    }

    /// Values that double in a cycle of includes would grow without end.
    fn pay(&mut self, v: &Value) -> R<()> {
        fn size(v: &Value, left: &mut usize) -> bool {
            let own = match v {
                Value::String(s) => 1 + s.len() / 8,
                _ => 1,
            };
            if own > *left {
                return false;
            }
            *left -= own;
            match v {
                Value::List(l) => l.iter().all(|x| size(x, left)),
                Value::Map(m) => m.values().all(|x| size(x, left)),
                _ => true,
            }
        }
        let mut left = 10_000.min(self.purse);
        let before = left;
        if !size(v, &mut left) {
            self.discard = Some("budget");
            return Err(Bail(None));
        }
        self.purse -= before - left;
        Ok(())
    }

    fn body(&mut self, src: &Source, body: &[Stmt]) -> R<()> {
        if self.level == 3000 {
            self.discard = Some("budget");
            return Err(Bail(None));
        }
        self.level += 1;
        for s in body {
            self.stmt(src, s)?;
        }
        self.level -= 1;
        Ok(())
    }

    fn stmt(&mut self, src: &Source, s: &Stmt) -> R<()> {
        self.tick()?;
        match s {
            Stmt::Raw((a, b)) => {
                self.st.raws += 1;
                self.out.push_str(&src.text[*a..*b]);
            }
            Stmt::Emit(e) => self.emit(src, e)?,
            Stmt::If(arms, els) => {
                self.st.ifs += 1;
                for arm in arms {
                    self.tick()?;
                    let v = self.expr(src, &arm.cond)?;
                    if truthy(&v.v) != arm.not {
                        return self.body(src, &arm.body);
                    }
                }
                self.st.else_taken += 1;
                if let Some(b) = els {
                    self.body(src, b)?;
                }
            }
            Stmt::For { vars, iter, body } => {
                let v = self.expr(src, iter)?;
                self.st.loops += 1;
                let owned = v.owned;
                let wrap = |x: &Value| Val {
                    v: Rc::new(x.clone()),
                    owned,
                };
                match &*v.v {
                    Value::List(l) => {
                        if vars.len() != 1 {
                            return Err(src.render_err((vars[0].1 .0, vars[1].1 .1)));
                        }
                        if l.is_empty() {
                            self.st.empty_loops += 1;
                        }
                        self.st.owned_loops += owned as usize;
                        let n = l.len();
                        for (i, x) in l.iter().enumerate() {
                            self.tick()?;
                            self.st.iterations += 1;
                            self.frames.push(Frame::Loop {
                                item: Some((vars[0].0.clone(), wrap(x))),
                                kv: None,
                                index: i,
                                len: n,
                            });
                            self.body(src, body)?;
                            self.frames.pop();
                        }
                    }
                    Value::Map(m) => {
                        if vars.len() != 2 {
                            return Err(src.render_err(vars[0].1));
                        }
                        if m.is_empty() {
                            self.st.empty_loops += 1;
                        }
                        self.st.map_loops += 1;
                        self.st.owned_loops += owned as usize;
                        let n = m.len();
                        for (i, (k, x)) in m.iter().enumerate() {
                            self.tick()?;
                            self.st.iterations += 1;
                            self.frames.push(Frame::Loop {
                                item: None,
                                kv: Some((
                                    vars[0].0.clone(),
                                    vars[1].0.clone(),
                                    Val::owned(Value::String(k.clone())),
                                    wrap(x),
                                )),
                                index: i,
                                len: n,
                            });
                            self.body(src, body)?;
                            self.frames.pop();
                        }
                    }
                    _ => return Err(src.render_err(iter.span)),
                }
            }
            Stmt::With { expr, name, body } => {
                let v = self.expr(src, expr)?;
                self.st.withs += 1;
                self.frames.push(Frame::Var(name.clone(), v));
                self.body(src, body)?;
                self.frames.pop();
            }
            Stmt::Include { name, span, with } => {
                let globals = match with {
                    Some(e) => Some(self.expr(src, e)?),
                    None => None,
                };
                let tpl = self.template(src, name, *span)?;
                self.depth += 1;
                self.st.includes += 1;
                self.st.max_depth = self.st.max_depth.max(self.depth);
                if self.depth > self.w.max_depth {
                    return Err(Bail(Some(Fail {
                        kind: Kind::Render,
                        template: None,
                        loc: None,
                        message: None,
                        max_depth: Some(self.w.max_depth),
                    })));
                }
                if self.depth > 300 {
                    // Beyond the stack.
                    self.discard = Some("budget");
                    return Err(Bail(None));
                }
                match globals {
                    Some(g) => {
                        self.st.includes_with += 1;
                        self.frames.push(Frame::Boundary);
                        self.frames.push(Frame::Globals(g));
                        self.body(&tpl, &tpl.tpl.body)?;
                        self.frames.pop();
                        self.frames.pop();
                    }
                    None => self.body(&tpl, &tpl.tpl.body)?,
                }
                self.depth -= 1;
            }
        }
        Ok(())
    }

    fn template(&mut self, src: &Source, name: &str, span: Span) -> R<Rc<Source>> {
        if self.w.custom.is_some() {
            self.events.push(Event::Template(name.to_string()));
        }
        if let Some(t) = self.cache.get(name).and_then(|t| t.clone()) {
            return Ok(t);
        }
        let text = match self.w.custom {
            Some(c) => match c.get(name) {
                Some(Ok(t)) => t.clone(),
                Some(Err(e)) => return Err(src.err(Kind::Render, span, Some(e.clone()))),
                None => {
                    let m = self.w.custom_missing.to_string();
                    return Err(src.err(Kind::Render, span, Some(m)));
                }
            },
            None => match self.w.templates.get(name) {
                Some(t) => t.clone(),
                None => return Err(src.render_err(span)),
            },
        };
        let tpl = parse(self.w.delims, &text).expect("model: included template parses");
        if tpl.unspecified || tpl.vague {
            self.discard = Some("unspecified");
            return Err(Bail(None));
        }
        let s = Rc::new(Source {
            name: Some(name.to_string()),
            text,
            tpl,
        });
        self.cache.insert(name.to_string(), Some(s.clone()));
        Ok(s)
    }

    fn base(&mut self, src: &Source, b: &Base) -> R<Val> {
        match b {
            Base::Lit(v, _) => Ok(Val::owned(v.clone())),
            Base::Path(p) => self.lookup(src, p),
        }
    }

    fn lookup(&mut self, src: &Source, path: &[Seg]) -> R<Val> {
        self.st.paths += 1;
        if path.len() > 1 {
            self.st.deep_paths += 1;
        }
        let Access::Key(name) = &path[0].access else {
            unreachable!()
        };
        let follow = |v: &Val, rest: &[Seg], st: &mut Stats| -> R<Val> {
            let mut cur: &Value = &v.v;
            for seg in rest {
                match step(src, cur, seg)? {
                    Some(x) => cur = x,
                    None => {
                        st.optional_missing += 1;
                        return Ok(Val {
                            v: Rc::new(Value::None),
                            owned: false,
                        });
                    }
                }
            }
            Ok(Val {
                v: Rc::new(cur.clone()),
                owned: v.owned,
            })
        };
        let mut st = std::mem::take(&mut self.st);
        let mut result: Option<R<Val>> = None;
        let binds = |f: &Frame| match f {
            Frame::Var(n, _) => n == name,
            Frame::Loop { item, kv, .. } => {
                name == "loop"
                    || matches!(item, Some((n, _)) if n == name)
                    || matches!(kv, Some((k, v, _, _)) if k == name || v == name)
            }
            Frame::Globals(v) => {
                matches!(&*v.v, Value::Map(m) if m.contains_key(name))
            }
            _ => false,
        };
        for (fi, f) in self.frames.iter().enumerate().rev() {
            match f {
                Frame::Boundary => break,
                Frame::Fn => {
                    let Ctx::Fn(vf) = self.ctx else {
                        unreachable!()
                    };
                    let segs: Vec<(bool, Access)> = path
                        .iter()
                        .map(|s| (s.optional, s.access.clone()))
                        .collect();
                    self.events.push(Event::Lookup(
                        segs.iter()
                            .map(|(o, a)| (*o, access_text(a)))
                            .collect(),
                    ));
                    let span = (path[0].span.0, path[path.len() - 1].span.1);
                    st.global_lookups += 1;
                    result = Some(match vf(&segs) {
                        Ok(v) => Ok(Val::owned(v)),
                        Err(m) => Err(src.err(Kind::Render, span, Some(m))),
                    });
                    break;
                }
                _ if !binds(f) => continue,
                f => {
                    if self.frames[..fi].iter().any(|g| binds(g)) {
                        st.shadowed += 1;
                    }
                    result = Some(match f {
                        Frame::Globals(g) => {
                            st.global_lookups += 1;
                            follow(g, path, &mut st)
                        }
                        Frame::Var(_, v) => {
                            st.bound_lookups += 1;
                            follow(v, &path[1..], &mut st)
                        }
                        Frame::Loop {
                            item,
                            kv,
                            index,
                            len,
                        } => {
                            st.bound_lookups += 1;
                            if name == "loop" {
                                st.loop_meta += 1;
                                let m = Value::Map(BTreeMap::from([
                                    ("index".to_string(), Value::Integer(*index as i64)),
                                    ("first".to_string(), Value::Bool(*index == 0)),
                                    ("last".to_string(), Value::Bool(*index + 1 == *len)),
                                ]));
                                follow_loop(src, m, &path[1..])
                            } else if let Some((_, v)) = item {
                                follow(v, &path[1..], &mut st)
                            } else {
                                let (k, _, kval, v) = kv.as_ref().unwrap();
                                if k == name {
                                    follow(kval, &path[1..], &mut st)
                                } else {
                                    follow(v, &path[1..], &mut st)
                                }
                            }
                        }
                        _ => unreachable!(),
                    });
                    break;
                }
            }
        }
        self.st = st;
        match result {
            Some(r) => r,
            None => Err(src.render_err(path[0].span)),
        }
    }

    /// Evaluates a whole expression.
    fn expr(&mut self, src: &Source, e: &Expr) -> R<Val> {
        let v = self.base(src, &e.base)?;
        self.st.max_chain = self.st.max_chain.max(e.calls.len());
        self.calls(src, v, &e.calls)
    }

    fn calls(&mut self, src: &Source, mut v: Val, calls: &[Call]) -> R<Val> {
        for c in calls {
            self.tick()?;
            v = self.apply(src, v, c)?;
        }
        Ok(v)
    }

    fn apply(&mut self, src: &Source, v: Val, c: &Call) -> R<Val> {
        let w = self.w;
        let Some(f) = w.funcs.get(&c.name) else {
            return Err(src.render_err(c.span));
        };
        let Func::Filter(f) = f else {
            return Err(src.render_err(c.span));
        };
        let none = Vec::new();
        let args = c.args.as_ref().unwrap_or(&none);
        if args.len() + 1 != f.params.len() {
            return Err(src.render_err(c.span));
        }
        let mut vals = Vec::new();
        match convert(&v, f.params[0], true) {
            Some(x) => vals.push(x),
            None => return Err(src.render_err(c.span)),
        }
        for (a, ty) in args.iter().zip(&f.params[1..]) {
            let mut x = self.base(src, a)?;
            if let Base::Lit(..) = a {
                x.owned = false;
            }
            match convert(&x, *ty, false) {
                Some(x) => vals.push(x),
                None => return Err(src.render_err(a.span())),
            }
        }
        self.st.filters += 1;
        for v in &vals {
            self.pay(v)?;
        }
        self.events.push(Event::Filter(
            c.name.clone(),
            vals.iter().map(show).collect(),
        ));
        match (f.run)(&vals) {
            Ok(v) => {
                self.pay(&v)?;
                Ok(Val::owned(v))
            }
            Err(m) => Err(src.err(Kind::Filter, c.span, Some(m))),
        }
    }

    fn emit(&mut self, src: &Source, e: &Expr) -> R<()> {
        let w = self.w;
        self.st.emits += 1;
        self.st.max_chain = self.st.max_chain.max(e.calls.len());
        let v = self.base(src, &e.base)?;
        if let Some((last, init)) = e.calls.split_last() {
            if last.args.is_none() {
                let v = self.calls(src, v, init)?;
                self.tick()?;
                if let Some(Func::Formatter(f)) = w.funcs.get(&last.name) {
                    self.st.formats += 1;
                    return self.format(src, &last.name, *f, &v, last.span);
                }
                let v = self.apply(src, v, last)?;
                return self.format(src, "", w.default_fmt, &v, e.span);
            }
        }
        let v = self.calls(src, v, &e.calls)?;
        self.format(src, "", w.default_fmt, &v, e.span)
    }

    fn format(&mut self, src: &Source, name: &str, f: Fmt, v: &Val, span: Span) -> R<()> {
        if f.is_recorded() {
            self.events
                .push(Event::Format(name.to_string(), show(&v.v)));
        }
        let mut buf = String::new();
        let r = f.run(&mut buf, &v.v);
        self.out.push_str(&buf);
        match r {
            Ok(()) => Ok(()),
            Err(m) => {
                let fmt_none = m.is_none();
                let mut b = src.err(Kind::Format, span, m);
                if fmt_none {
                    if let Some(f) = &mut b.0 {
                        f.loc = None;
                        f.template = None;
                    }
                }
                Err(b)
            }
        }
    }
}

/// `loop` behaves like a map with three keys.
fn follow_loop(src: &Source, m: Value, rest: &[Seg]) -> R<Val> {
    let mut cur = m;
    for seg in rest {
        cur = match step(src, &cur, seg)? {
            Some(v) => v.clone(),
            None => {
                return Ok(Val::owned(Value::None));
            }
        };
    }
    Ok(Val::owned(cur))
}

pub fn access_text(a: &Access) -> String {
    match a {
        Access::Key(k) => format!("k:{k}"),
        Access::Index(i) => format!("i:{i}"),
    }
}

/// What a parameter of the given type receives, or `None` if it cannot.
fn convert(v: &Val, ty: Ty, receiver: bool) -> Option<Value> {
    let by_ref = matches!(ty, Ty::StrRef | Ty::ListRef | Ty::MapRef | Ty::ValueRef);
    if by_ref && v.owned && !receiver {
        return None;
    }
    fn int<T>(n: i64) -> Option<Value>
    where
        T: TryFrom<i64>,
    {
        T::try_from(n).ok().map(|_| Value::Integer(n))
    }
    match (ty, &*v.v) {
        (Ty::Unit, Value::None) => Some(Value::None),
        (Ty::Bool, Value::Bool(b)) => Some(Value::Bool(*b)),
        (Ty::U8, Value::Integer(n)) => int::<u8>(*n),
        (Ty::U16, Value::Integer(n)) => int::<u16>(*n),
        (Ty::U32, Value::Integer(n)) => int::<u32>(*n),
        (Ty::U64, Value::Integer(n)) => int::<u64>(*n),
        (Ty::U128, Value::Integer(n)) => int::<u128>(*n),
        (Ty::Usize, Value::Integer(n)) => int::<usize>(*n),
        (Ty::I8, Value::Integer(n)) => int::<i8>(*n),
        (Ty::I16, Value::Integer(n)) => int::<i16>(*n),
        (Ty::I32, Value::Integer(n)) => int::<i32>(*n),
        (Ty::I64, Value::Integer(n)) => Some(Value::Integer(*n)),
        (Ty::I128, Value::Integer(n)) => Some(Value::Integer(*n)),
        (Ty::Isize, Value::Integer(n)) => int::<isize>(*n),
        (Ty::F32, Value::Float(x)) => Some(Value::Float(*x as f32 as f64)),
        (Ty::F64, Value::Float(x)) => Some(Value::Float(*x)),
        (Ty::Str | Ty::StrRef, Value::String(s)) => Some(Value::String(s.clone())),
        (Ty::List | Ty::ListRef, Value::List(l)) => Some(Value::List(l.clone())),
        (Ty::Map | Ty::MapRef, Value::Map(m)) => Some(Value::Map(m.clone())),
        (Ty::Value | Ty::ValueRef, v) => Some(v.clone()),
        _ => None,
    }
}
