//! A dictionary for the generators, as fuzzers have one: words and numbers
//! which the library's source mentions now and did not mention when the checks
//! were written. What depends on a certain text, name or size is met sooner.
//! Only the generators know of it; what is right is decided without.

use std::collections::BTreeMap;
use std::sync::OnceLock;

const DIR: &str = "/repo/src";
const BASE: &str = include_str!("dict.base");

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Dict {
    pub words: Vec<String>,
    /// At least 3, ascending.
    pub sizes: Vec<u64>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn get() -> &'static Dict {
    // Without it, to tell what it is worth.
    let none = std::env::var_os("VT_NO_DICT").is_some();
    DICT.get_or_init(|| if none { Dict::default() } else { from_counts(&scan_dir(DIR)) })
}

/// Fixes it, before the first use.
pub fn set(d: Dict) {
    let _ = DICT.set(d);
}

impl Dict {
    /// For replay files.
    pub fn text(&self) -> Option<String> {
        if *self == Dict::default() {
            return None;
        }
        let all: Vec<String> = self.words.iter().map(|w| format!("s{w}")).chain(self.sizes.iter().map(|n| format!("n{n}"))).collect();
        Some(format!("dictionary: {}", all.iter().map(|k| line(k)).collect::<Vec<_>>().join("\t")))
    }

    pub fn read(file: &str) -> Dict {
        let mut d = Dict::default();
        for k in file.lines().find_map(|l| l.strip_prefix("dictionary: ")).unwrap_or("").split('\t').filter(|k| !k.is_empty()) {
            let k = unline(k);
            match k.split_at(1) {
                ("s", w) => d.words.push(w.into()),
                (_, n) => d.sizes.extend(n.parse::<u64>().ok()),
            }
        }
        d
    }
}

/// On one line, without tabs.
fn line(k: &str) -> String {
    k.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t")
}

fn unline(k: &str) -> String {
    let mut out = String::new();
    let mut it = k.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => out.push(match it.next() {
                Some('n') => '\n',
                Some('r') => '\r',
                Some('t') => '\t',
                c => c.unwrap_or('\\'),
            }),
            c => out.push(c),
        }
    }
    out
}

/// What the source mentions, each with how often.
pub fn table() -> String {
    scan_dir(DIR).iter().map(|(k, n)| format!("{n} {}\n", line(k))).collect()
}

fn from_counts(now: &BTreeMap<String, u64>) -> Dict {
    let base: BTreeMap<String, u64> = BASE
        .lines()
        .filter_map(|l| {
            let (n, k) = l.split_once(' ')?;
            Some((unline(k), n.parse().ok()?))
        })
        .collect();
    let mut d = Dict::default();
    for (k, n) in now {
        if *n <= base.get(k).copied().unwrap_or(0) {
            continue;
        }
        let (kind, k) = k.split_at(1);
        match kind {
            // Variables with a meaning for C24, which may not be bound again.
            "s" if k.contains("hole") || ["gg", "one", "unused"].contains(&k) => {}
            "s" if !k.is_empty() && k.len() <= 64 && !d.words.iter().any(|w| w == k) => d.words.push(k.into()),
            "n" => d.sizes.extend(k.parse::<u64>().ok()),
            _ => {}
        }
    }
    d.sizes.retain(|n| *n > 2);
    d.sizes.sort();
    d.sizes.dedup();
    d.words.truncate(40);
    d.sizes.truncate(40);
    d
}

fn scan_dir(dir: &str) -> BTreeMap<String, u64> {
    let mut out = BTreeMap::new();
    let mut todo = vec![std::path::PathBuf::from(dir)];
    while let Some(p) = todo.pop() {
        if let Ok(es) = std::fs::read_dir(&p) {
            let mut es: Vec<_> = es.flatten().map(|e| e.path()).collect();
            es.sort();
            todo.extend(es);
        } else if p.extension().map_or(false, |e| e == "rs") {
            if let Ok(t) = std::fs::read_to_string(&p) {
                scan(&t, &mut out);
            }
        }
    }
    out
}

/// Collects the strings and characters (`s…`) and the numbers (`n…`).
fn scan(text: &str, out: &mut BTreeMap<String, u64>) {
    // Unit tests come last.
    let text = text.find("#[cfg(test)]\nmod ").map_or(text, |i| &text[..i]);
    let c: Vec<char> = text.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let word = |x: char| x == '_' || x.is_alphanumeric();
    let mut add = |k: String| *out.entry(k).or_insert(0) += 1;
    let mut last: Option<u64> = None;
    let mut shift = false;
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '/' if at(i + 1) == '/' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if at(i + 1) == '*' => {
                while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                    i += 1;
                }
                i += 2;
            }
            'r' if (at(i + 1) == '"' || (at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#'))) && !(i > 0 && word(c[i - 1]) && c[i - 1] != 'b') => {
                let mut n = 0;
                i += 1;
                while at(i) == '#' {
                    n += 1;
                    i += 1;
                }
                i += 1;
                let mut t = String::new();
                while i < c.len() && !(c[i] == '"' && (1..=n).all(|k| at(i + k) == '#')) {
                    t.push(c[i]);
                    i += 1;
                }
                i += 1 + n;
                add(format!("s{t}"));
            }
            '"' => {
                let mut t = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    t.extend(escape(&c, &mut i));
                }
                i += 1;
                add(format!("s{t}"));
            }
            '\'' if at(i + 1) == '\\' || (at(i + 2) == '\'' && at(i + 1) != '\'') => {
                i += 1;
                let t: String = escape(&c, &mut i).into_iter().collect();
                while i < c.len() && c[i] != '\'' {
                    i += 1;
                }
                i += 1;
                add(format!("s{t}"));
            }
            x if x.is_ascii_digit() => {
                let mut t = String::new();
                while word(at(i)) || (at(i) == '.' && at(i + 1).is_ascii_digit() && !t.contains('.')) {
                    t.push(c[i]);
                    i += 1;
                }
                let t = t.replace('_', "");
                let (radix, body) = match t.get(..2) {
                    Some("0x") => (16, &t[2..]),
                    Some("0o") => (8, &t[2..]),
                    Some("0b") => (2, &t[2..]),
                    _ => (10, &t[..]),
                };
                let mut body = body;
                for suffix in ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64"] {
                    if let Some(b) = body.strip_suffix(suffix) {
                        body = b;
                    }
                }
                let whole = body.split(['.', 'e']).next().filter(|_| radix == 10).unwrap_or(body);
                if whole != body {
                    add(format!("s{body}"));
                }
                let v = u64::from_str_radix(whole, radix).ok();
                if let Some(v) = v {
                    add(format!("n{v}"));
                    if let (true, Some(a)) = (shift, last) {
                        if v < 64 {
                            if let Some(x) = a.checked_mul(1 << v) {
                                add(format!("n{x}"));
                            }
                        }
                    }
                }
                last = v;
                shift = false;
            }
            x if word(x) => {
                let mut t = String::new();
                while word(at(i)) {
                    t.push(c[i]);
                    i += 1;
                }
                // A type has limits.
                match t.as_str() {
                    "u8" => add("n256".into()),
                    "i8" => add("n128".into()),
                    "u16" => add("n65536".into()),
                    "i16" => add("n32768".into()),
                    "u32" => add("n4294967296".into()),
                    "i32" | "f32" => add("n2147483648".into()),
                    _ => {}
                }
                last = None;
            }
            '<' if at(i + 1) == '<' => {
                shift = true;
                i += 2;
            }
            x => {
                if !x.is_whitespace() {
                    last = None;
                    shift = false;
                }
                i += 1;
            }
        }
    }
}

/// Decodes one character of a literal.
fn escape(c: &[char], i: &mut usize) -> Option<char> {
    let x = c[*i];
    *i += 1;
    if x != '\\' {
        return Some(x);
    }
    let e = c.get(*i).copied()?;
    *i += 1;
    match e {
        'n' => Some('\n'),
        't' => Some('\t'),
        'r' => Some('\r'),
        '0' => Some('\0'),
        'x' => {
            let h: String = c[*i..(*i + 2).min(c.len())].iter().collect();
            *i += 2;
            u32::from_str_radix(&h, 16).ok().and_then(char::from_u32)
        }
        'u' => {
            let mut h = String::new();
            while *i < c.len() && c[*i] != '}' {
                if c[*i].is_ascii_hexdigit() {
                    h.push(c[*i]);
                }
                *i += 1;
            }
            *i += 1;
            u32::from_str_radix(&h, 16).ok().and_then(char::from_u32)
        }
        '\n' => {
            while *i < c.len() && c[*i].is_whitespace() {
                *i += 1;
            }
            None
        }
        e => Some(e),
    }
}
