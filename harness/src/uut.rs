//! Everything that touches the library under test.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use upon::{Engine, Value};

use crate::funcs::{self, Fmt, FuncSet};
use crate::model::{Delims, Fail, Kind, Loc};

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

pub fn last_panic() -> String {
    PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| "panic".into())
}

/// What a user's function panics with on purpose.
pub struct Abandon;

/// Runs library code; a panic becomes a violation, unless it is the user's.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        if p.is::<Abandon>() {
            std::panic::resume_unwind(p);
        }
        format!("{what} panicked: {}", last_panic())
    })
}

/// What a user sees of an error.
#[derive(Clone, Debug, PartialEq)]
pub struct Seen {
    pub kind: Kind,
    pub reason: Option<String>,
    pub pretty: Option<Pretty>,
    pub source: Option<String>,
    pub text: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Pretty {
    pub name: String,
    pub line: usize,
    pub col: usize,
    pub text: String,
    pub under_at: usize,
    pub under_len: usize,
    pub dashes: usize,
    pub reason: String,
}

pub fn see(e: &upon::Error) -> Result<Seen, String> {
    let (plain, alt, dbg) = guard("displaying an error", || {
        let _ = format!("{e:#?}");
        (format!("{e}"), format!("{e:#}"), format!("{e:?}"))
    })?;
    if dbg.is_empty() {
        return Err("empty debug form of an error".into());
    }
    see_texts(plain, alt, std::error::Error::source(e).map(|s| s.to_string()))
}

/// The debug form is what `unwrap` shows.
pub fn debug_form(e: &upon::Error) -> Result<(), String> {
    let (alt, dbg, long) = guard("displaying an error", || (format!("{e:#}"), format!("{e:?}"), format!("{e:#?}")))?;
    if !dbg.starts_with(&alt) {
        return Err(format!("the debug form does not begin with the pretty form: {dbg:?}, {alt:?}"));
    }
    if long.starts_with(&alt) || !long.starts_with("Error") {
        return Err(format!("the alternate debug form is {long:?}"));
    }
    Ok(())
}

/// The same from the short and the long form.
pub fn see_texts(plain: String, alt: String, source: Option<String>) -> Result<Seen, String> {
    let kinds = [
        ("invalid syntax", Kind::Syntax),
        ("render error", Kind::Render),
        ("filter error", Kind::Filter),
        ("format error", Kind::Format),
        ("serialize error", Kind::Serialize),
        ("io error", Kind::Io),
    ];
    let Some((head, kind)) = kinds.iter().find(|(h, _)| plain.starts_with(h)) else {
        return Err(format!("error of no known kind: {plain:?}"));
    };
    let rest = &plain[head.len()..];
    let reason = match rest.strip_prefix(": ") {
        Some(r) => Some(r.to_string()),
        None if rest.is_empty() => None,
        None => return Err(format!("malformed error display: {plain:?}")),
    };
    let pretty = parse_pretty(head, &alt);
    Ok(Seen {
        kind: *kind,
        reason,
        pretty,
        source,
        text: alt,
    })
}

/// Parses the multi-line form; `None` if the error shows no location.
fn parse_pretty(head: &str, alt: &str) -> Option<Pretty> {
    let rest = alt.strip_prefix(head)?;
    let rest = rest.strip_prefix("\n\n ")?;
    let arrow = rest.trim_start_matches(' ').strip_prefix("--> ")?;
    // The name may itself contain line breaks.
    let (name, line, col, bar, rest) = arrow.match_indices('\n').find_map(|(i, _)| {
        let mut it = arrow[..i].rsplitn(3, ':');
        let col: usize = it.next()?.parse().ok()?;
        let line: usize = it.next()?.parse().ok()?;
        let name = it.next()?.to_string();
        let bar = format!(" {:1$} |", "", line.to_string().len());
        let rest = arrow[i + 1..].strip_prefix(&bar)?.strip_prefix('\n')?;
        Some((name, line, col, bar, rest))
    })?;
    let pad = line.to_string().len();
    let mut lines = rest.splitn(2, '\n');
    let text = lines
        .next()?
        .strip_prefix(&format!(" {line} | "))?
        .to_string();
    let tail = lines.next()?;
    let (under, tail) = tail.split_once('\n')?;
    let under = under.strip_prefix(&format!("{bar} "))?;
    let under_at = under.len() - under.trim_start_matches(' ').len();
    let marks = &under[under_at..];
    let under_len = marks.len() - marks.trim_start_matches('^').len();
    let dashes = &marks[under_len..];
    dashes.bytes().all(|b| b == b'-').then_some(())?;
    let (b2, tail) = tail.split_once('\n')?;
    (b2 == bar).then_some(())?;
    let reason = tail
        .strip_prefix(&format!(" {:pad$} = reason: ", ""))?
        .strip_suffix('\n')?
        .to_string();
    Some(Pretty {
        name,
        line,
        col,
        text,
        under_at,
        under_len,
        dashes: dashes.len(),
        reason,
    })
}

/// How closely an error must match the prediction.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Level {
    /// It failed.
    Any,
    /// It failed with an error of the right kind and user message.
    Kind,
    /// It also points at the right place.
    Location,
}

pub fn compare_fail(exp: &Fail, got: &Seen, level: Level) -> Result<(), String> {
    if level == Level::Any {
        return Ok(());
    }
    if exp.kind != got.kind {
        return Err(format!(
            "expected a {:?} error, got {:?}: {}",
            exp.kind, got.kind, got.text
        ));
    }
    match &exp.message {
        Some(m) if !m.is_empty() => {
            if got.reason.as_deref() != Some(m) {
                return Err(format!(
                    "expected the error message {m:?}, got {:?}",
                    got.reason
                ));
            }
        }
        _ => {}
    }
    if let Some(d) = exp.max_depth {
        let ok = got
            .reason
            .as_ref()
            .map_or(false, |r| r.contains("depth") && r.contains(&d.to_string()));
        if !ok {
            return Err(format!(
                "expected an error about the maximum include depth {d}, got {:?}",
                got.reason
            ));
        }
    } else if got.reason.as_ref().map_or(false, |r| {
        r.starts_with("reached maximum include depth")
    }) && exp.message.is_none()
    {
        return Err(format!(
            "unexpected include depth error: {:?}",
            got.reason
        ));
    }
    if level == Level::Location {
        if let Some(loc) = &exp.loc {
            compare_loc(exp.template.as_deref(), loc, got)?;
        }
    }
    Ok(())
}

pub fn compare_loc(template: Option<&str>, loc: &Loc, got: &Seen) -> Result<(), String> {
    let Some(p) = &got.pretty else {
        return Err(format!(
            "expected a location ({loc:?}), but the error shows none: {}",
            got.text
        ));
    };
    let name = template.unwrap_or("<anonymous>");
    if p.name != name {
        return Err(format!(
            "error names template {:?}, the cause is in {name:?}\n{}",
            p.name, got.text
        ));
    }
    if p.line != loc.line {
        return Err(format!(
            "error is at line {}, reported at line {}\n{}",
            loc.line, p.line, got.text
        ));
    }
    if loc.past_end {
        return Ok(());
    }
    if p.col != loc.col {
        return Err(format!(
            "error is at column {}, reported at column {}\n{}",
            loc.col, p.col, got.text
        ));
    }
    if p.text.trim_end_matches('\r') != loc.text.trim_end_matches('\r') {
        return Err(format!(
            "error is in line {:?}, shown is {:?}",
            loc.text, p.text
        ));
    }
    if p.under_at + 1 != loc.col || p.under_len != loc.width {
        return Err(format!(
            "underline at {} of width {}, expected at {} of width {}\n{}",
            p.under_at + 1,
            p.under_len,
            loc.col,
            loc.width,
            got.text
        ));
    }
    if Some(&p.reason) != got.reason.as_ref() {
        return Err(format!(
            "short and long form disagree: {:?} and {:?}",
            got.reason, p.reason
        ));
    }
    Ok(())
}

/// A built engine.
pub fn engine<'a>(
    delims: &'a Delims,
    funcs: &FuncSet,
    default_fmt: Fmt,
    max_depth: Option<usize>,
) -> Result<Engine<'a>, String> {
    guard("building an engine", || {
        let mut e = if *delims == Delims::default() {
            Engine::new()
        } else {
            Engine::with_syntax(delims.to_syntax())
        };
        funcs::register(&mut e, funcs);
        default_fmt.set_default(&mut e);
        if let Some(d) = max_depth {
            e.set_max_include_depth(d);
        }
        e
    })
}

pub fn add_all(e: &mut Engine<'_>, templates: &BTreeMap<String, String>) -> Result<(), String> {
    for (n, t) in templates {
        guard("add_template", || e.add_template(n.clone(), t.clone()))?
            .map_err(|err| format!("template {n:?} = {t:?} was rejected: {err:#}"))?;
    }
    Ok(())
}

/// Prints a value as Rust-like text, for reports.
pub fn dump(v: &Value) -> String {
    crate::model::show(v)
}
