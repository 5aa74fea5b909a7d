//! Generators of values, templates and delimiters.

use std::collections::BTreeMap;

use upon::Value;

use crate::funcs::{Func, FuncSet, Ty};
use crate::model::{is_ident_continue, is_ident_start, Delims, Tag, KEYWORDS};
use crate::src::Src;

// ---------------------------------------------------------------- values

pub const NAMES: &[&str] = &[
    "a", "b", "c", "x", "y", "xs", "m", "名", "iff", "_u1", "é", "not_",
];

/// Template names, and names no template has.
pub const TPLS: &[&str] = &["t0", "t1", "名.html", "a b", "t\"q", "t5", "t6", "t7", "t8", "t9"];
pub const MISSES: &[&str] = &["missing", "T0", " t0", "", "t0 ", "./t0", "t", "t00", "t0.html", "名", "a  b", "t\\\"q"];

/// Draws the names of this case.
pub fn pool(s: &mut Src) {
    if s.odds(1, 3) {
        let n = NAMES.len();
        let chain = s.odds(1, 3);
        let mut v: Vec<String> = vec![];
        for i in 0..n {
            let mut w = match s.below(3) {
                0 if !chain => NAMES[i].to_string(),
                _ if chain && i > 0 => {
                    let b = s.of(&v).clone();
                    near(s, &b)
                }
                _ => ident(s),
            };
            while !is_ident(&w) || w == "loop" || v.contains(&w) {
                w = format!("_{w}{i}").chars().filter(|c| is_ident_continue(*c)).collect();
            }
            v.push(w);
        }
        s.names = v;
    }
    for _ in 0..2 {
        if let Some(w) = s.word(1, 3) {
            let w = if s.odds(1, 4) { near(s, &w) } else { w };
            if is_ident(&w) && w != "loop" && !s.names.contains(&w) {
                let i = s.below(s.names.len());
                s.names[i] = w.clone();
            }
        }
    }
    if s.odds(1, 4) {
        let base = s.pick(&["t0", "a.html", "dir/x", "名", "x", "Ab", "é", "a b", "0"]).to_string();
        let mut all = vec![base.clone()];
        for _ in 0..60 {
            let b = s.of(&all).clone();
            let x = near_name(s, if b.len() > 40 { &base } else { &b });
            if !all.contains(&x) {
                all.push(x);
            }
            if all.len() == 22 {
                break;
            }
        }
        while all.len() < 22 {
            all.push(format!("t{}", all.len()));
        }
        s.misses = all.split_off(10);
        s.tpls = all;
    }
    if let Some(w) = s.word(1, 4) {
        let w = if s.odds(1, 4) { near_name(s, &w) } else { w };
        if !s.tpls.contains(&w) && !s.misses.contains(&w) {
            let i = s.below(s.tpls.len().min(3));
            s.tpls[i] = w;
        }
    }
}

/// An identifier or nearly so.
pub fn ident(s: &mut Src) -> String {
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
    let ascii = |s: &mut Src, n: usize| -> String {
        (0..n).map(|i| A[s.below(if i == 0 { 53 } else { 63 })] as char).collect()
    };
    match s.below(8) {
        0..=3 => {
            let n = s.range(1, 8);
            ascii(s, n)
        }
        4 => {
            let k = s.pick(KEYWORDS).to_string();
            near(s, &k)
        }
        5 => s
            .pick(&[
                "loop1", "Loop", "loops", "_loop", "index", "first", "last", "None", "none", "null", "and", "or", "self", "elif",
                "raw", "set", "is", "e1", "E5", "x1f", "_0x1f", "o7", "b01", "__", "___", "_0", "r2", "inf", "nan", "NaN", "True",
            ])
            .to_string(),
        6 => {
            let n = s.range(1, 4);
            let mut t = s.pick(&["é", "名", "ß", "İ", "ａ", "ℂ", "ªx", "𝒳", "Ω", "ñ", "я", "_é", "a名"]).to_string();
            for _ in 1..n {
                t.push_str(s.pick(&["\u{301}", "1", "·", "前", "_", "é", "x", "٣"]));
            }
            t
        }
        _ => {
            let n = s.size(&[16, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257], 5_000);
            ascii(s, n)
        }
    }
}

/// Something like this word.
pub fn near(s: &mut Src, w: &str) -> String {
    match s.below(10) {
        0 => format!("{w}{}", s.below(10)),
        1 => format!("{w}_"),
        2 => format!("_{w}"),
        3 => w.to_uppercase(),
        4 => {
            let mut c = w.chars();
            c.next().map_or(String::new(), |f| f.to_uppercase().collect::<String>() + c.as_str())
        }
        5 if w.chars().count() > 1 => {
            let mut c = w.chars();
            c.next_back();
            c.as_str().to_string()
        }
        6 => format!("{w}{w}"),
        7 => w.to_lowercase(),
        8 => format!("{w}é"),
        _ => format!("{w}a"),
    }
}

/// A template name like this one.
pub fn near_name(s: &mut Src, n: &str) -> String {
    match s.below(20) {
        0 => format!("./{n}"),
        1 => format!("{n} "),
        2 => format!(" {n}"),
        3 => format!("{n}\n"),
        4 => n.to_uppercase(),
        5 => n.to_lowercase(),
        6 => format!("{n}/"),
        7 => format!("/{n}"),
        8 => format!("{n}.html"),
        9 => n.trim_end_matches(|c| c != '.').trim_end_matches('.').to_string(),
        10 => format!("../{n}"),
        11 => format!("{n}{n}"),
        12 => n.replace('é', "e\u{301}"),
        13 => n.replace('/', "\\"),
        14 => format!("{n}\u{0}"),
        15 => format!("{n}\""),
        16 => n.chars().skip(1).collect(),
        17 => format!("{n}1"),
        18 => n.repeat(40),
        _ => format!("dir/../{n}"),
    }
}

const WORDS: &[&str] = &[
    "", "s", "text", "two words", "名前", "é", "e\u{301}x", "😀", " ", "\n", "  lead", "trail \t", "a\nb",
    "{{ x }}", "{% if %}", "{# c #}", "-}}", "\"q\"", "\\", "1", "true", "<b>&amp;</b>", "\u{a0}", "\u{0}",
];

pub fn int(s: &mut Src) -> i64 {
    if let Some(n) = s.number(1, 4) {
        return n as i64;
    }
    match s.below(4) {
        0 => s.below(10) as i64,
        1 => *s.of(&[
            0, 1, -1, 2, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, -32768, -32769,
        ]),
        2 => *s.of(&[
            i64::MAX,
            i64::MIN,
            i64::MAX - 1,
            i64::MIN + 1,
            i32::MAX as i64,
            i32::MAX as i64 + 1,
            i32::MIN as i64,
            i32::MIN as i64 - 1,
            u32::MAX as i64,
            u32::MAX as i64 + 1,
            1 << 53,
            (1 << 53) + 1,
        ]),
        _ => {
            let k = s.below(64) as u32;
            (s.draw(0) >> k) as i64
        }
    }
}

pub fn float(s: &mut Src) -> f64 {
    if let Some(n) = s.number(1, 8) {
        return if s.coin() { n as f64 } else { n as f64 + 0.5 };
    }
    match s.below(4) {
        0 => s.below(20) as f64 / 4.0,
        1 => *s.of(&[
            0.0,
            -0.0,
            1.0,
            -1.0,
            0.1,
            1e300,
            -1e300,
            1e-320,
            f64::MAX,
            f64::MIN_POSITIVE,
            1e16,
            123456789.125,
            f32::MAX as f64,
            1e21,
        ]),
        2 => *s.of(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN]),
        _ => f64::from_bits(s.draw(0)),
    }
}

pub fn string(s: &mut Src) -> String {
    if let Some(w) = s.word(1, 6) {
        let (a, b) = (s.pick(&["", "", "a", " ", "é"]), s.pick(&["", "", "b", " ", "\n"]));
        return format!("{a}{w}{b}");
    }
    if let Some(n) = s.large(60, 5_000) {
        return s.pick(&["x", "名", "a ", "0", "\n"]).repeat(n);
    }
    match s.below(6) {
        0..=3 => s.pick(WORDS).to_string(),
        _ => {
            let n = s.below(6);
            (0..n).map(|_| ch(s)).collect()
        }
    }
}

/// Any character, common ones first.
pub fn ch(s: &mut Src) -> char {
    if let Some(c) = s.word(1, 10).and_then(|w| w.chars().next()) {
        return c;
    }
    match s.below(8) {
        0..=3 => (b' ' + s.below(95) as u8) as char,
        4 => *s.of(&['\n', '\t', '\r', '\u{b}', '\u{c}', '\u{0}', '\u{7f}', '\u{85}', '\u{a0}']),
        5 => *s.of(&['é', '名', '前', 'ß', 'İ', '\u{301}', '\u{200b}', '\u{2028}', '\u{3000}', 'ａ', '·']),
        6 => *s.of(&['😀', '𝒳', '\u{10ffff}', '\u{feff}', '\u{202e}', '\u{ffff}', '\u{e000}']),
        _ => char::from_u32(s.below(0x110000) as u32).unwrap_or('\u{fffd}'),
    }
}

pub fn scalar(s: &mut Src) -> Value {
    match s.weighted(&[4, 5, 3, 2, 1]) {
        0 => Value::Integer(int(s)),
        1 => Value::String(string(s)),
        2 => Value::Bool(s.coin()),
        3 => Value::Float(float(s)),
        _ => Value::None,
    }
}

pub fn key(s: &mut Src) -> String {
    match s.below(12) {
        0..=9 => {
            let i = s.below(s.names.len());
            s.names[i].clone()
        }
        10 => s.pick(&["", "0", "a b", "loop", "if", "A", "index", "zz"]).to_string(),
        _ => string(s),
    }
}

/// Any value.
pub fn value(s: &mut Src, depth: usize) -> Value {
    let w: &[u32] = if depth == 0 { &[1, 0, 0] } else { &[4, 3, 3] };
    match s.weighted(w) {
        0 => scalar(s),
        1 => Value::List(list(s, depth)),
        _ => Value::Map(map(s, depth)),
    }
}

pub fn list(s: &mut Src, depth: usize) -> Vec<Value> {
    if depth == 1 && s.rare(200) {
        // Long enough to leave any small integer type.
        let n = s.size(&[17, 64, 100, 255, 256, 257, 300], 3_000);
        return (0..n).map(|i| Value::Integer(i as i64 * 7 % 31)).collect();
    }
    let n = len(s);
    // Often of one shape.
    if n > 1 && s.odds(3, 4) {
        let shape = value(s, depth - 1);
        return (0..n)
            .map(|i| if i == 0 { shape.clone() } else { vary(s, &shape) })
            .collect();
    }
    (0..n).map(|_| value(s, depth - 1)).collect()
}

pub fn map(s: &mut Src, depth: usize) -> BTreeMap<String, Value> {
    let n = len(s);
    if depth == 1 && s.rare(1000) {
        let n = s.size(&[17, 64, 100, 255, 256, 257, 300], 3_000);
        return (0..n).map(|i| (format!("k{}", i * 7 % n), Value::Integer(i as i64))).collect();
    }
    if s.odds(1, 12) {
        // Keys of one kind, which somebody might order in another way.
        let family: &[&str] = *s.of(&[
            &["9", "10", "0", "2", "100", "007", "1", "00", "18446744073709551616"][..],
            &["-1", "-2", "1", "-10", "0", "1.5", "1e3", "+1"],
            &["k1", "k10", "k2", "k_1", "K1", "k", "k01"],
            &["a", "B", "A", "b", "aa", "AB", "Z", "_", "z"],
            &["é", "e", "f", "z", "名", "\u{e000}", "😀", "e\u{301}", "ﬀ"],
            &["", " ", "a", " a", "a ", "a b", "a-b", "a.b", "\u{0}"],
        ]);
        return (0..n).map(|_| (s.pick(family).to_string(), value(s, depth - 1))).collect();
    }
    (0..n).map(|_| (key(s), value(s, depth - 1))).collect()
}

fn len(s: &mut Src) -> usize {
    match s.below(10) {
        0 => 0,
        1 | 2 => 1,
        3..=6 => 2,
        7 | 8 => 3,
        _ => s.range(4, 9),
    }
}

/// A value of the same shape.
fn vary(s: &mut Src, v: &Value) -> Value {
    match v {
        Value::None => Value::None,
        Value::Bool(_) => Value::Bool(s.coin()),
        Value::Integer(_) => Value::Integer(int(s)),
        Value::Float(_) => Value::Float(float(s)),
        Value::String(_) => Value::String(string(s)),
        Value::List(l) => Value::List(l.iter().map(|x| vary(s, x)).collect()),
        Value::Map(m) => Value::Map(m.iter().map(|(k, x)| (k.clone(), vary(s, x))).collect()),
    }
}

pub fn a_name(s: &mut Src) -> String {
    let i = s.below(s.names.len());
    s.names[i].clone()
}

/// A global context: a map offering most names.
pub fn context(s: &mut Src) -> Value {
    let mut m = BTreeMap::new();
    for (i, n) in s.names.clone().into_iter().enumerate() {
        let v = match i {
            _ if s.odds(1, 8) => continue,
            0 | 4 | 8 => scalar(s),
            1 => Value::List(list(s, 2)),
            5 => {
                let mut l = list(s, 2);
                if l.is_empty() {
                    l.push(scalar(s));
                }
                Value::List(l)
            }
            6 => {
                let mut m = map(s, 2);
                m.insert(a_name(s), value(s, 1));
                Value::Map(m)
            }
            _ => value(s, 3),
        };
        m.insert(n, v);
    }
    if s.odds(1, 16) {
        m.insert("loop".into(), value(s, 1));
    }
    Value::Map(m)
}

pub fn is_ident(k: &str) -> bool {
    let mut it = k.chars();
    it.next().map_or(false, is_ident_start)
        && it.all(is_ident_continue)
        && !KEYWORDS.contains(&k)
}

// ---------------------------------------------------------------- pieces

#[derive(Clone, Debug)]
pub enum Piece {
    Raw(String),
    Tag {
        tag: Tag,
        lt: bool,
        rt: bool,
        inner: String,
    },
}

pub fn spell(ps: &[Piece], d: &Delims) -> String {
    let mut out = String::new();
    for p in ps {
        match p {
            Piece::Raw(r) => out.push_str(r),
            Piece::Tag { tag, lt, rt, inner } => {
                let (b, e) = d.pair(*tag).expect("generator: tag is configured");
                out.push_str(b);
                if *lt {
                    out.push('-');
                }
                // A delimiter is only recognised where a token could start.
                let first = e.chars().next().unwrap_or('}');
                let inner = match first {
                    ' ' | '\t' if !*rt && *tag != Tag::Comment => inner.trim_end(),
                    _ => inner.as_str(),
                };
                out.push_str(inner);
                if *rt {
                    out.push('-');
                } else if *tag != Tag::Comment
                    && (is_ident_continue(first) || "\"-+.".contains(first))
                    && inner.ends_with(|c: char| is_ident_continue(c) || c == '.')
                {
                    out.push(' ');
                }
                out.push_str(e);
            }
        }
    }
    out
}

/// What templates are made of.
#[derive(Clone, Debug)]
pub struct Prof {
    pub raw: u32,
    pub emit: u32,
    pub cond: u32,
    pub loops: u32,
    pub with: u32,
    pub include: u32,
    pub comment: u32,
    /// Nesting of blocks.
    pub depth: usize,
    /// Statements per body.
    pub len: usize,
    /// Of 16: an expression gets (another) filter.
    pub filter: u64,
    /// Of 16: an emission ends in a formatter.
    pub formatter: u64,
    /// Of 16: a tag side is trimmed.
    pub trim: u64,
    /// Of 1024: something goes wrong at a given opportunity.
    pub fault: u64,
    /// Of 16: text that resembles delimiters.
    pub near: u64,
    /// Of 16: paths have further segments.
    pub deep: u64,
    /// Of 16: a literal instead of a path.
    pub literal: u64,
    /// At most so many templates.
    pub templates: usize,
    /// Of 64: an include refers to any template, also the current one.
    pub cyclic: u64,
    /// Filters that always fail may be used.
    pub boom: bool,
    /// Odd whitespace in tags, of 16.
    pub space: u64,
}

impl Default for Prof {
    fn default() -> Self {
        Prof {
            raw: 4,
            emit: 6,
            cond: 2,
            loops: 2,
            with: 2,
            include: 1,
            comment: 1,
            depth: 3,
            len: 4,
            filter: 4,
            formatter: 2,
            trim: 2,
            fault: 6,
            near: 2,
            deep: 9,
            literal: 3,
            templates: 4,
            cyclic: 0,
            boom: false,
            space: 3,
        }
    }
}

#[derive(Clone)]
enum Layer {
    Globals(std::rc::Rc<Value>),
    Var(String, Option<std::rc::Rc<Value>>),
    Loop,
    Boundary,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Want {
    Any,
    Printable,
    Ty(Ty),
    List,
    Map,
    Iter,
    Container,
}

impl Want {
    pub fn fits(self, v: &Value) -> bool {
        match self {
            Want::Any => true,
            Want::Printable => !matches!(v, Value::List(_) | Value::Map(_)),
            Want::Ty(t) => ty_fits(t, v),
            Want::List => matches!(v, Value::List(_)),
            Want::Map => matches!(v, Value::Map(_)),
            Want::Iter => {
                matches!(v, Value::List(l) if !l.is_empty())
                    || matches!(v, Value::Map(m) if !m.is_empty())
            }
            Want::Container => matches!(v, Value::List(_) | Value::Map(_)),
        }
    }
}

/// Whether a value can become a parameter, leaving ownership aside.
pub fn ty_fits(t: Ty, v: &Value) -> bool {
    match (t, v) {
        (Ty::Value | Ty::ValueRef, _) => true,
        (Ty::Unit, Value::None) | (Ty::Bool, Value::Bool(_)) => true,
        (Ty::Str | Ty::StrRef, Value::String(_)) => true,
        (Ty::List | Ty::ListRef, Value::List(_)) => true,
        (Ty::Map | Ty::MapRef, Value::Map(_)) => true,
        (Ty::F32 | Ty::F64, Value::Float(_)) => true,
        (Ty::U8, Value::Integer(n)) => u8::try_from(*n).is_ok(),
        (Ty::U16, Value::Integer(n)) => u16::try_from(*n).is_ok(),
        (Ty::U32, Value::Integer(n)) => u32::try_from(*n).is_ok(),
        (Ty::U64 | Ty::U128 | Ty::Usize, Value::Integer(n)) => *n >= 0,
        (Ty::I8, Value::Integer(n)) => i8::try_from(*n).is_ok(),
        (Ty::I16, Value::Integer(n)) => i16::try_from(*n).is_ok(),
        (Ty::I32, Value::Integer(n)) => i32::try_from(*n).is_ok(),
        (Ty::I64 | Ty::I128 | Ty::Isize, Value::Integer(_)) => true,
        _ => false,
    }
}

pub struct Gen<'s> {
    pub s: &'s mut Src,
    pub p: Prof,
    pub funcs: &'s FuncSet,
    pub templates: BTreeMap<String, Vec<Piece>>,
    layers: Vec<Layer>,
    /// Remaining statements.
    budget: usize,
    nest: usize,
    stack: Vec<String>,
    /// Which templates were written for an include with a value.
    modes: BTreeMap<String, (bool, Vec<String>)>,
    /// How many pieces of the same kind are still to be added, see `bulk_of`.
    bulk: usize,
    /// How many blocks are to be opened in each other, see `tower`.
    tower: usize,
    fs: std::rc::Rc<Vec<(String, crate::funcs::Filter)>>,
    fmts: std::rc::Rc<Vec<String>>,
}

impl<'s> Gen<'s> {
    pub fn new(s: &'s mut Src, p: Prof, funcs: &'s FuncSet, globals: &Value) -> Self {
        let fs = funcs
            .iter()
            .filter_map(|(n, f)| match f {
                Func::Filter(f) if is_ident(n) => Some((n.clone(), *f)),
                _ => None,
            })
            .collect();
        let fmts = funcs
            .iter()
            .filter(|(n, f)| matches!(f, Func::Formatter(_)) && is_ident(n) && (p.boom || !n.starts_with("ferr")))
            .map(|(n, _)| n.clone())
            .collect();
        // Once in a while a template is far bigger than anybody would write.
        let bulk = match s.rare(3000) {
            true => s.size(&[300, 5_000, 33_000, 33_000, 66_000], 70_000),
            false => 0,
        };
        let tower = match s.rare(400) {
            true => s.size(&[9, 17, 33, 63, 64, 65, 70, 127, 128, 129, 255, 256, 257, 300], 520),
            false => 0,
        };
        Gen {
            bulk,
            tower,
            fs: std::rc::Rc::new(fs),
            fmts: std::rc::Rc::new(fmts),
            s,
            p,
            funcs,
            templates: BTreeMap::new(),
            layers: vec![Layer::Globals(std::rc::Rc::new(globals.clone()))],
            budget: 60,
            nest: 0,
            stack: vec![],
            modes: BTreeMap::new(),
        }
    }

    /// A body in which these variables are bound as well.
    pub fn body_with(&mut self, vars: &[(&str, Value)]) -> Vec<Piece> {
        let n = self.layers.len();
        for (k, v) in vars {
            self.layers.push(Layer::Var(k.to_string(), Some(std::rc::Rc::new(v.clone()))));
        }
        let b = self.body1();
        self.layers.truncate(n);
        b
    }

    fn fault(&mut self) -> bool {
        self.s.odds(self.p.fault, 1024)
    }

    // ------------------------------------------------------------ spacing

    /// Optional whitespace.
    pub fn ws(&mut self) -> &'static str {
        if !self.s.odds(self.p.space, 16) {
            return "";
        }
        *self.s.of(&[" ", "\t", "  ", " \t "])
    }

    pub fn ws1(&mut self) -> &'static str {
        if !self.s.odds(self.p.space, 16) {
            return " ";
        }
        *self.s.of(&["\t", "  ", " \t "])
    }

    fn pad(&mut self) -> &'static str {
        if !self.s.odds(self.p.space, 16) {
            return " ";
        }
        *self.s.of(&["", "\t", "  ", "\t\t "])
    }

    pub fn tag(&mut self, tag: Tag, inner: String) -> Piece {
        let lt = self.s.odds(self.p.trim, 16);
        let rt = self.s.odds(self.p.trim, 16);
        let mut a = self.pad();
        let b = self.pad();
        if a.is_empty() && inner.starts_with('-') {
            a = " ";
        }
        Piece::Tag {
            tag,
            lt,
            rt,
            inner: format!("{a}{inner}{b}"),
        }
    }

    // ------------------------------------------------------------ text

    pub fn raw(&mut self) -> String {
        if let Some(n) = self.s.large(30, 20_000) {
            let c = self.s.pick(&["x", " ", "\n", "x ", "名"]);
            return c.repeat(n / c.chars().count());
        }
        let n = self.s.range(1, 4);
        let mut out = String::new();
        for _ in 0..n {
            if let Some(w) = self.s.word(1, 8) {
                if !w.contains(|c| "{}%#-".contains(c)) || w.chars().count() == 1 {
                    // Never next to what could make a delimiter of it.
                    out.push_str(&format!(".{w}."));
                    continue;
                }
            }
            if self.s.odds(self.p.near, 16) {
                out.push_str(self.s.pick(&[
                    "{.", "}.", "%.", "{ {", "} }", "-.", "{-.", ".-}", "#.", "{ #", "\\{.", "}-", "\"", "'", "|",
                    "<.", "$.", "--", "{\u{301}", "%\n",
                ]));
                continue;
            }
            match self.s.below(10) {
                0..=3 => out.push_str(self.s.pick(&["A", "text", "b c", "Zz.", "0", "名", "é😀"])),
                4..=6 => out.push_str(self.s.pick(&[" ", "\n", "  ", "\t", "\n\n", " \n  ", "\r\n", "\r"])),
                7 => out.push_str(self.s.pick(&["\u{a0}", "\u{2003}", "\u{85}", "\u{b}", "\u{feff}", "\u{200b}", "\u{3000}", "\u{2028}"])),
                8 => {
                    let c = ch(self.s);
                    if "{}%#-".contains(c) {
                        out.push(' ');
                    }
                    out.push(c);
                    out.push('.');
                }
                _ => out.push_str(self.s.pick(&["<p>", "line\nline\n", "tab\tbed", "#", "%", "x-"])),
            }
        }
        out
    }

    pub fn comment_text(&mut self) -> String {
        if let Some(w) = self.s.word(1, 6) {
            return format!(" {w} ").replace("#}", "# }");
        }
        self.s
            .pick(&[
                " c ", "", " ", "\n", "x", "-", " - ", "if x", " endif \n multi\n", "\"", "名é", "{", " }", "% ", "\\",
                " . | : , ", "\u{a0}", "\t#",
            ])
            .to_string()
    }

    // ------------------------------------------------------------ scope

    /// The names of the visible variables, innermost first.
    fn visible(&self) -> (Vec<String>, bool) {
        let mut v: Vec<&String> = vec![];
        let mut in_loop = false;
        for l in self.layers.iter().rev() {
            match l {
                Layer::Boundary => break,
                Layer::Loop => in_loop = true,
                Layer::Var(n, _) => {
                    if v.iter().all(|m| *m != n) {
                        v.push(n);
                    }
                }
                Layer::Globals(g) => {
                    if let Value::Map(m) = &**g {
                        for n in m.keys() {
                            if is_ident(n) && v.iter().all(|m| *m != n) && !(n == "loop" && in_loop) {
                                v.push(n);
                            }
                        }
                    }
                }
            }
        }
        (v.into_iter().cloned().collect(), in_loop)
    }

    fn sample(&self, name: &str) -> Option<std::rc::Rc<Value>> {
        for l in self.layers.iter().rev() {
            match l {
                Layer::Boundary => break,
                Layer::Var(n, v) if n == name => return v.clone(),
                Layer::Globals(g) => {
                    if let Value::Map(m) = &**g {
                        if let Some(v) = m.get(name) {
                            return Some(std::rc::Rc::new(v.clone()));
                        }
                    }
                }
                _ => {}
            }
        }
        None
    }

    /// Paths to values that suit, for when random search fails.
    fn candidates(&self, vis: &[String], want: Want) -> Vec<(String, Value)> {
        fn go(out: &mut Vec<(String, Value)>, path: &str, v: &Value, want: Want, depth: usize) {
            if out.len() > 40 {
                return;
            }
            if want.fits(v) {
                out.push((path.to_string(), v.clone()));
            }
            if depth == 0 {
                return;
            }
            match v {
                Value::List(l) => {
                    for (i, x) in l.iter().enumerate().take(3) {
                        go(out, &format!("{path}.{i}"), x, want, depth - 1);
                    }
                }
                Value::Map(m) => {
                    for (k, x) in m.iter().filter(|(k, _)| is_ident(k)) {
                        go(out, &format!("{path}.{k}"), x, want, depth - 1);
                    }
                }
                _ => {}
            }
        }
        let mut out = vec![];
        for n in vis {
            if let Some(v) = self.sample(n) {
                go(&mut out, n, &v, want, 2);
            }
        }
        out
    }

    fn seg_key(&mut self, k: &str) -> String {
        let q = if self.s.odds(1, 6) { "?." } else { "." };
        let a = if self.s.odds(1, 24) { self.ws() } else { "" };
        let b = if self.s.odds(1, 24) { self.ws() } else { "" };
        format!("{a}{q}{b}{k}")
    }

    /// A path to something, with the value expected there.
    pub fn path(&mut self, want: Want) -> (String, Option<Value>) {
        let (vis, in_loop) = self.visible();
        if self.fault() {
            return self.bad_path(&vis);
        }
        if in_loop && (want == Want::Any || want == Want::Printable) && self.s.odds(1, 6) {
            return match self.s.below(6) {
                0 | 1 => ("loop.index".into(), Some(Value::Integer(0))),
                2 => ("loop.first".into(), Some(Value::Bool(true))),
                3 => ("loop.last".into(), Some(Value::Bool(true))),
                4 => ("loop?.first".into(), Some(Value::Bool(true))),
                _ => {
                    let m = self.s.pick(&["nope", "a", "length"]);
                    let rest = if self.s.coin() { ".x" } else { "" };
                    (format!("loop?.{m}{rest}"), Some(Value::None))
                }
            };
        }
        if vis.is_empty() {
            return self.literal(want);
        }
        for round in 0..3 {
            let mut text = self.s.of(&vis).clone();
            let mut cur = self.sample(&text).map(|v| (*v).clone());
            loop {
                let stop = match &cur {
                    Some(Value::List(l)) if !l.is_empty() => false,
                    Some(Value::Map(m)) if !m.is_empty() => false,
                    _ => true,
                };
                let ok = cur.as_ref().map_or(true, |v| want.fits(v));
                if stop || (ok && !self.s.odds(self.p.deep, 16)) {
                    break;
                }
                match cur.take().unwrap() {
                    Value::List(l) => {
                        let i = self.s.below(l.len());
                        text.push_str(&self.seg_key(&i.to_string()));
                        cur = Some(l[i].clone());
                    }
                    Value::Map(m) => {
                        let keys: Vec<_> = m.keys().filter(|k| is_ident(k)).cloned().collect();
                        if keys.is_empty() {
                            cur = Some(Value::Map(m));
                            break;
                        }
                        let k = self.s.of(&keys).clone();
                        text.push_str(&self.seg_key(&k));
                        cur = Some(m[&k].clone());
                    }
                    _ => unreachable!(),
                }
            }
            if matches!(want, Want::Any | Want::Printable) && self.s.odds(1, 14) {
                // A missing optional member.
                match &cur {
                    Some(Value::List(l)) => {
                        let i = l.len() + self.s.below(3);
                        text.push_str(&format!("?.{i}"));
                        cur = Some(Value::None);
                    }
                    Some(Value::Map(_)) => {
                        text.push_str(self.s.pick(&["?.nope", "?.zzz.q", "?.nope.0?.a", "?.nope?.a.b"]));
                        cur = Some(Value::None);
                    }
                    _ => {}
                }
            }
            let ok = cur.as_ref().map_or(true, |v| want.fits(v));
            if ok || (round == 2 && want == Want::Any) {
                return (text, cur);
            }
        }
        let c = self.candidates(&vis, want);
        if !c.is_empty() {
            let (t, v) = self.s.of(&c).clone();
            return (t, Some(v));
        }
        self.literal(want)
    }

    fn bad_path(&mut self, vis: &[String]) -> (String, Option<Value>) {
        if vis.is_empty() || self.s.odds(1, 4) {
            let n = match self.s.of(&[0, 0, 1]) {
                1 if !vis.is_empty() => {
                    let b = self.s.of(vis).clone();
                    Some(near(self.s, &b)).filter(|n| is_ident(n))
                }
                _ => None,
            };
            let n = n.unwrap_or_else(|| self.s.pick(&["undefined", "zz", "loop", "a", "x", "名前"]).to_string());
            let r = self.s.pick(&["", ".a", ".0", "?.a"]);
            return (format!("{n}{r}"), None);
        }
        let n = self.s.of(vis).clone();
        let n2 = self.s.range(1, 3);
        let keys: Vec<String> = match self.sample(&n).as_deref() {
            Some(Value::Map(m)) => m.keys().cloned().collect(),
            _ => vec![],
        };
        let mut t = n;
        if !keys.is_empty() && self.s.odds(1, 3) {
            let b = self.s.of(&keys).clone();
            let k = near(self.s, &b);
            if is_ident(&k) {
                return (format!("{t}{}{k}", self.s.pick(&[".", "?."])), None);
            }
        }
        for _ in 0..n2 {
            let q = if self.s.coin() { "." } else { "?." };
            let k = self.s.pick(&["a", "b", "0", "1", "nope", "99", "名", "01", "256", "65536", "4294967296", "18446744073709551615"]);
            t.push_str(q);
            t.push_str(k);
        }
        (t, None)
    }

    /// A literal; lists and maps have none, so the type may be missed.
    pub fn literal(&mut self, want: Want) -> (String, Option<Value>) {
        let ty = match want {
            Want::Ty(Ty::Bool) => 0,
            Want::Ty(Ty::Str | Ty::StrRef) => 2,
            Want::Ty(Ty::F32 | Ty::F64) => 3,
            Want::Ty(Ty::U8 | Ty::I8) => 4,
            Want::Ty(Ty::Value | Ty::ValueRef) | Want::Any | Want::Printable => self.s.below(4),
            Want::Ty(_) => 1,
            _ => self.s.below(4),
        };
        match ty {
            0 => {
                let b = self.s.coin();
                (b.to_string(), Some(Value::Bool(b)))
            }
            1 => {
                let n = int(self.s);
                (self.int_text(n), Some(Value::Integer(n)))
            }
            2 => {
                let v = string(self.s);
                (self.str_text(&v), Some(Value::String(v)))
            }
            3 => {
                let f = float(self.s);
                if f.is_finite() && self.s.coin() {
                    let t = match self.s.below(3) {
                        0 => format!("{f:e}"),
                        1 if f.abs() < 1e40 && f.abs() > 1e-40 => format!("{f:.20}"),
                        _ => format!("{f:?}"),
                    };
                    let t = if t.contains(['.', 'e']) { t } else { format!("{t}.0") };
                    let v = t.parse().ok().map(Value::Float);
                    return (t, v);
                }
                let t = self.s.pick(&["1.5", "0.0", "-0.25", "1e3", "+2.5e-3", "100.0", "-1e0", "0.1"]);
                (t.to_string(), t.parse().ok().map(Value::Float))
            }
            _ => {
                let n = self.s.below(7) as i64;
                (n.to_string(), Some(Value::Integer(n)))
            }
        }
    }

    /// One of the spellings of an integer.
    pub fn int_text(&mut self, n: i64) -> String {
        let sign = if n < 0 {
            "-"
        } else if self.s.odds(1, 8) {
            "+"
        } else {
            ""
        };
        let a = n.unsigned_abs();
        let digits = match self.s.below(8) {
            0..=4 => format!("{a}"),
            5 => format!("0x{a:x}"),
            6 => format!("0o{a:o}"),
            _ => format!("0b{a:b}"),
        };
        let digits = if self.s.odds(1, 12) && digits.len() > 4 {
            let k = self.s.range(3, digits.len() - 1);
            format!("{}_{}", &digits[..k], &digits[k..])
        } else {
            digits
        };
        let gap = if !sign.is_empty() && self.s.odds(1, 12) { self.ws() } else { "" };
        format!("{sign}{gap}{digits}")
    }

    /// A spelling of a string.
    pub fn str_text(&mut self, v: &str) -> String {
        let mut t = String::from("\"");
        for c in v.chars() {
            match c {
                '"' => t.push_str("\\\""),
                '\\' => t.push_str("\\\\"),
                '\n' => t.push_str("\\n"),
                '\r' => t.push_str("\\r"),
                '\t' if self.s.coin() => t.push_str("\\t"),
                c => t.push(c),
            }
        }
        t.push('"');
        t
    }

    // ------------------------------------------------------------ expressions

    pub fn base(&mut self, want: Want) -> (String, Option<Value>) {
        let lit = match want {
            Want::List | Want::Map | Want::Iter | Want::Container => false,
            Want::Ty(Ty::List | Ty::ListRef | Ty::Map | Ty::MapRef | Ty::Unit) => false,
            _ => self.s.odds(self.p.literal, 16),
        };
        if lit {
            self.literal(want)
        } else {
            self.path(want)
        }
    }

    /// Appends one filter that suits the value.
    fn call(&mut self, text: &mut String, v: &mut Option<Value>) {
        let fs = self.fs.clone();
        if fs.is_empty() {
            return;
        }
        // 1: unknown name or unsuitable value, 2: arity, 3: unsuitable argument.
        let mode = if self.fault() { *self.s.of(&[1, 1, 2, 3, 3, 3]) } else { 0 };
        let bad = mode == 1;
        let mut chosen = None;
        for _ in 0..6 {
            let (n, f) = self.s.of(&fs).clone();
            if f.result == crate::funcs::Shape::Fails && !self.p.boom {
                continue;
            }
            if mode == 3 && f.params.len() < 2 {
                continue;
            }
            if bad || v.as_ref().map_or(false, |v| ty_fits(f.params[0], v)) {
                chosen = Some((n, f));
                break;
            }
        }
        let Some((name, f)) = chosen else { return };
        let (text0, v0) = (text.len(), v.clone());
        let a = self.pad();
        let b = self.pad();
        text.push_str(&format!("{a}|{b}"));
        if bad && self.s.coin() {
            let n = if self.s.coin() {
                near(self.s, &name)
            } else {
                let w = self.s.word(1, 2);
                w.unwrap_or_else(|| self.s.pick(&["unknown_filter", "show", "名", "ferr"]).to_string())
            };
            text.push_str(if is_ident(&n) { &n } else { "unknown" });
            *v = None;
            return;
        }
        text.push_str(&name);
        let mut n = f.params.len() - 1;
        if mode == 2 {
            n = self.s.below(6);
        }
        let wrong = if mode == 3 { self.s.below(n.max(1)) } else { usize::MAX };
        let mut vals = vec![v.clone()];
        for i in 0..n {
            let sep = if i == 0 { ":" } else { "," };
            let want = match f.params.get(i + 1) {
                Some(_) if i == wrong => Want::Any,
                Some(t) => Want::Ty(*t),
                None => Want::Any,
            };
            let a = self.ws();
            let b = self.pad();
            let (t, v) = if i == wrong && self.s.coin() { self.path(want) } else { self.base(want) };
            text.push_str(&format!("{a}{sep}{b}{t}"));
            vals.push(v);
        }
        let vals: Option<Vec<Value>> = vals.into_iter().collect();
        *v = match vals {
            Some(vals)
                if vals.len() == f.params.len()
                    && vals.iter().zip(f.params).all(|(v, t)| ty_fits(*t, v)) =>
            {
                match (f.run)(&vals) {
                    Ok(v) => Some(v),
                    Err(_) if self.p.boom || self.s.odds(1, 16) => None,
                    Err(_) => {
                        // Would only fail.
                        text.truncate(text0);
                        v0
                    }
                }
            }
            _ => None,
        };
    }

    /// An expression without formatter.
    pub fn expr(&mut self, want: Want) -> (String, Option<Value>) {
        let (mut t, mut v) = if self.s.odds(self.p.filter, 16) {
            self.base(Want::Any)
        } else {
            let (t, v) = self.base(want);
            if v.as_ref().map_or(true, |v| want.fits(v)) {
                return (t, v);
            }
            return self.convert(t, v, want);
        };
        loop {
            self.call(&mut t, &mut v);
            if !self.s.odds(self.p.filter, 16) {
                break;
            }
        }
        self.convert(t, v, want)
    }

    /// Adds a conversion if the value does not suit.
    fn convert(&mut self, mut t: String, mut v: Option<Value>, want: Want) -> (String, Option<Value>) {
        if self.fault() {
            return (t, v);
        }
        let conv = match (&v, want) {
            (Some(v), w) if w.fits(v) => None,
            (Some(_), Want::Printable) => Some("text"),
            (Some(_), Want::List | Want::Iter) => Some("tolist"),
            (Some(_), Want::Map | Want::Container) => Some("tomap"),
            _ => None,
        };
        if let Some(n) = conv {
            if let Some(Func::Filter(f)) = self.funcs.get(n) {
                // The name may be another function's.
                v = v.filter(|v| f.params.len() == 1 && ty_fits(f.params[0], v)).and_then(|v| (f.run)(&[v]).ok());
                t.push_str(&format!(" | {n}"));
            }
        }
        (t, v)
    }

    /// An expression to emit.
    pub fn emission(&mut self) -> String {
        let fmts = self.fmts.clone();
        if !fmts.is_empty() && self.s.odds(self.p.formatter, 16) {
            let (t, v) = self.expr(Want::Any);
            let mut n = self.s.of(&fmts).clone();
            if matches!(v, Some(Value::List(_) | Value::Map(_))) && n == "plainly" && !self.fault() {
                n = "show".into();
            }
            if matches!(v, Some(Value::None)) && n == "some_only" && !self.fault() {
                n = "nothing".into();
            }
            let a = self.pad();
            let b = self.pad();
            if self.fault() {
                let arg = self.base(Want::Any).0;
                return format!("{t}{a}|{b}{n}: {arg}");
            }
            return format!("{t}{a}|{b}{n}");
        }
        self.expr(Want::Printable).0
    }

    // ------------------------------------------------------------ statements

    pub fn body(&mut self) -> Vec<Piece> {
        let n = self.s.range(0, self.p.len);
        let mut out = vec![];
        for _ in 0..n {
            self.stmt(&mut out);
        }
        out
    }

    /// A body that is not empty.
    pub fn body1(&mut self) -> Vec<Piece> {
        let n = self.s.range(1, self.p.len.max(1));
        let mut out = vec![];
        for _ in 0..n {
            self.stmt(&mut out);
        }
        out
    }

    /// A text that renders nothing.
    fn next_to_nothing(&mut self) -> Vec<Piece> {
        let b = |t: &str| Piece::Tag {
            tag: Tag::Block,
            lt: false,
            rt: false,
            inner: format!(" {t} "),
        };
        match self.s.below(5) {
            0 => vec![],
            1 => vec![b("if false"), b("endif")],
            2 => vec![b("with 1 as q"), b("endwith")],
            3 => vec![b("if true"), b("else"), Piece::Raw("no".into()), b("endif")],
            _ if self.p.comment == 0 => vec![],
            _ => (0..self.s.range(1, 2)).map(|_| self.tag(Tag::Comment, "c".into())).collect(),
        }
    }

    pub fn name(&mut self) -> String {
        let n = a_name(self.s);
        match n.as_str() {
            // C24 relies on nothing else being called that.
            "gg" | "one" | "unused" | "hole" => n + "_",
            _ => n,
        }
    }

    pub fn stmt(&mut self, out: &mut Vec<Piece>) {
        if self.budget == 0 {
            out.push(Piece::Raw(".".into()));
            return;
        }
        self.budget -= 1;
        let once = self.stack.is_empty() && !self.layers.iter().any(|l| matches!(l, Layer::Loop));
        if self.bulk > 0 && once && self.s.odds(1, 4) {
            self.bulk_of(out);
        }
        if self.tower > 0 && self.stack.is_empty() && self.s.odds(1, 4) {
            self.tower_of(out);
        }
        let p = &self.p;
        let deep = self.nest < p.depth;
        let z = |w: u32| if deep { w } else { 0 };
        let w = [
            p.raw,
            p.emit,
            z(p.cond),
            z(p.loops),
            z(p.with),
            if p.templates > 0 { p.include } else { 0 },
            p.comment,
        ];
        match self.s.weighted(&w) {
            0 => {
                let r = self.raw();
                out.push(Piece::Raw(r));
            }
            1 => {
                let e = self.emission();
                let t = self.tag(Tag::Expr, e);
                out.push(t);
            }
            2 => self.stmt_if(out),
            3 => self.stmt_for(out),
            4 => self.stmt_with(out),
            5 => self.stmt_include(out),
            _ => {
                let lt = self.s.odds(self.p.trim, 16);
                let rt = self.s.odds(self.p.trim, 16);
                let inner = self.comment_text();
                out.push(Piece::Tag {
                    tag: Tag::Comment,
                    lt,
                    rt,
                    inner,
                });
            }
        }
    }

    /// The same harmless thing very many times.
    fn bulk_of(&mut self, out: &mut Vec<Piece>) {
        let n = std::mem::take(&mut self.bulk);
        let p = &self.p;
        let (emit, cond, with, comment) = (p.emit > 0, p.cond > 0, p.with > 0, p.comment > 0);
        let unit = match self.s.below(7) {
            0 => return out.push(Piece::Raw(".".repeat(n))),
            1 => return out.push(Piece::Raw(".\n".repeat(n))),
            2 if comment => vec![self.tag(Tag::Comment, "c".into()), Piece::Raw(",".into())],
            3 | 4 if emit => vec![self.tag(Tag::Expr, "1".into())],
            5 if cond => vec![self.block("if true".into()), self.block("endif".into())],
            6 if with => vec![self.block("with 1 as x".into()), self.block("endwith".into())],
            _ => vec![Piece::Raw(",".into())],
        };
        out.extend(unit.iter().cycle().take(unit.len() * n).cloned());
    }

    /// Something far longer or deeper than anybody would write.
    fn tower_of(&mut self, out: &mut Vec<Piece>) {
        let n = std::mem::take(&mut self.tower);
        let (emit, cond, with, loops) = (self.p.emit > 0, self.p.cond > 0, self.p.with > 0, self.p.loops > 0);
        let has = |g: &Self, n: &str| g.fs.iter().any(|(m, _)| m == n);
        match self.s.below(8) {
            0 if cond => {
                // Very many alternatives, one of which is taken.
                let hit = self.s.below(n + 2);
                for i in 0..=n {
                    let c = if i == hit { "true" } else { "false" };
                    let t = self.block(format!("{} {c}", if i == 0 { "if" } else { "else if" }));
                    out.push(t);
                    out.push(Piece::Raw(format!("{i}.")));
                    if emit && (i == hit || self.s.odds(1, 16)) {
                        let e = self.emission();
                        let t = self.tag(Tag::Expr, e);
                        out.push(t);
                    }
                }
                if self.s.coin() {
                    let t = self.block("else".into());
                    out.push(t);
                    out.push(Piece::Raw("else.".into()));
                }
                let t = self.block("endif".into());
                out.push(t);
            }
            1 if emit && has(self, "id") => {
                // Very many filters.
                let e = self.base(Want::Printable).0;
                let t = self.tag(Tag::Expr, format!("{e}{}", " | id".repeat(n)));
                out.push(t);
            }
            2 if emit => {
                // A very long path, which ends in nothing.
                let e = self.base(Want::Any).0;
                let more = if self.s.coin() { ".a" } else { "?.a" };
                let t = self.tag(Tag::Expr, format!("{e}?.nope{}", more.repeat(n)));
                out.push(t);
            }
            _ if with => {
                let layers = self.layers.len();
                let nest = self.nest;
                let mut ends: Vec<Vec<Piece>> = vec![];
                let mut bound: Vec<String> = vec![];
                for i in 0..n {
                    let mut kinds = vec![];
                    if with {
                        kinds.extend([0, 0, 0, 1]);
                    }
                    if cond {
                        kinds.extend([2, 3, 4]);
                    }
                    if loops && has(self, "upto") {
                        kinds.extend([5, 6]);
                    }
                    let k = if i == 0 { 0 } else { *self.s.of(&kinds) };
                    let mut end = vec![];
                    match k {
                        0 | 1 => {
                            let name = if k == 0 { format!("z_{i}") } else { self.name() };
                            let (e, v) = if self.s.odds(7, 8) { self.literal(Want::Any) } else { self.base(Want::Any) };
                            let t = self.block(format!("with {e} as {name}"));
                            out.push(t);
                            if k == 0 {
                                bound.push(name.clone());
                            }
                            self.layers.push(Layer::Var(name, v.map(std::rc::Rc::new)));
                            end.push(self.block("endwith".into()));
                        }
                        2..=4 => {
                            let head: &[&str] = match k {
                                2 => &["if true"],
                                3 => &["if false", "else"],
                                _ => &["if false", "else if true"],
                            };
                            for (j, h) in head.iter().enumerate() {
                                if j > 0 {
                                    out.push(Piece::Raw("!".into()));
                                }
                                let t = self.block(h.to_string());
                                out.push(t);
                            }
                            if k != 3 && self.s.odds(1, 4) {
                                end.push(self.block("else".into()));
                                end.push(Piece::Raw("?".into()));
                            }
                            end.push(self.block("endif".into()));
                        }
                        _ => {
                            let name = if k == 5 { format!("z_{i}") } else { self.name() };
                            let t = self.block(format!("for {name} in 1 | upto"));
                            out.push(t);
                            self.layers.push(Layer::Loop);
                            if k == 5 {
                                bound.push(name.clone());
                            }
                            let item = Some(Value::Integer(0));
                            self.layers.push(Layer::Var(name, item.map(std::rc::Rc::new)));
                            end.push(self.block("endfor".into()));
                        }
                    }
                    if self.s.odds(1, 8) {
                        out.push(Piece::Raw(format!("{i}(")));
                        end.push(Piece::Raw(")".into()));
                    }
                    ends.push(end);
                }
                self.nest = self.p.depth.saturating_sub(1);
                out.extend(self.body1());
                self.nest = nest;
                for pick in [0, bound.len() / 2, bound.len() - 1] {
                    if emit {
                        let t = self.tag(Tag::Expr, bound[pick].clone());
                        out.push(t);
                    }
                }
                if emit && self.layers.iter().any(|l| matches!(l, Layer::Loop)) {
                    let t = self.tag(Tag::Expr, "loop.index".into());
                    out.push(t);
                }
                self.layers.truncate(layers);
                for e in ends.into_iter().rev() {
                    out.extend(e);
                }
            }
            _ => {}
        }
    }

    pub fn block(&mut self, inner: String) -> Piece {
        self.tag(Tag::Block, inner)
    }

    pub fn cond(&mut self) -> String {
        let e = match self.s.odds(1, 10) {
            true => self
                .s
                .pick(&[
                    "0", "0.0", "-0.0", "0.5", "-1", "1", "1e-300", "5e-324", "-0", "0x0", "\"\"", "\" \"", "\"0\"", "\"false\"", "true",
                    "false", "2", "256", "4294967296", "-9223372036854775808", "65536", "0.999", "1e300",
                ])
                .to_string(),
            false => self.expr(Want::Any).0,
        };
        if self.s.odds(1, 3) {
            let sp = self.ws1();
            format!("not{sp}{e}")
        } else {
            e
        }
    }

    fn stmt_if(&mut self, out: &mut Vec<Piece>) {
        self.nest += 1;
        let c = self.cond();
        let sp = self.ws1();
        let t = self.block(format!("if{sp}{c}"));
        out.push(t);
        out.extend(self.body());
        let arms = *self.s.of(&[0, 0, 0, 1, 1, 2, 3]);
        for _ in 0..arms {
            let c = self.cond();
            let a = self.ws1();
            let b = self.ws1();
            let t = self.block(format!("else{a}if{b}{c}"));
            out.push(t);
            out.extend(self.body());
        }
        if self.s.coin() {
            let t = self.block("else".into());
            out.push(t);
            out.extend(self.body());
        }
        let t = self.block("endif".into());
        out.push(t);
        self.nest -= 1;
    }

    fn stmt_for(&mut self, out: &mut Vec<Piece>) {
        self.nest += 1;
        let want = if self.s.odds(1, 6) { Want::Container } else { Want::Iter };
        let (e, v) = self.expr(want);
        let a = self.name();
        let mut b = self.name();
        if a == b {
            b = if a == "k" { "v".into() } else { "k".into() };
        }
        let two = match &v {
            Some(Value::Map(_)) => !self.fault(),
            Some(Value::List(_)) => self.fault(),
            _ => self.s.coin(),
        };
        let vars = if two {
            let x = self.ws();
            let y = self.pad();
            format!("{a}{x},{y}{b}")
        } else {
            a.clone()
        };
        let (x, y, z) = (self.ws1(), self.ws1(), self.ws1());
        let t = self.block(format!("for{x}{vars}{y}in{z}{e}"));
        out.push(t);
        let n = self.layers.len();
        self.layers.push(Layer::Loop);
        match v {
            Some(Value::List(l)) if !l.is_empty() => {
                let i = self.s.below(l.len());
                self.layers.push(Layer::Var(a, Some(std::rc::Rc::new(l[i].clone()))));
            }
            Some(Value::Map(m)) if !m.is_empty() => {
                let i = self.s.below(m.len());
                let (k, v) = m.into_iter().nth(i).unwrap();
                self.layers.push(Layer::Var(a, Some(std::rc::Rc::new(Value::String(k)))));
                self.layers.push(Layer::Var(b, Some(std::rc::Rc::new(v))));
            }
            _ => {
                self.layers.push(Layer::Var(a, None));
                if two {
                    self.layers.push(Layer::Var(b, None));
                }
            }
        }
        if !self.s.odds(1, 24) {
            out.extend(self.body1());
        }
        self.layers.truncate(n);
        let t = self.block("endfor".into());
        out.push(t);
        self.nest -= 1;
    }

    fn stmt_with(&mut self, out: &mut Vec<Piece>) {
        self.nest += 1;
        let (e, v) = self.expr(Want::Any);
        let n = if self.s.odds(1, 60) { "loop".to_string() } else { self.name() };
        let (x, y, z) = (self.ws1(), self.ws1(), self.ws1());
        let t = self.block(format!("with{x}{e}{y}as{z}{n}"));
        out.push(t);
        self.layers.push(Layer::Var(n, v.map(std::rc::Rc::new)));
        if !self.s.odds(1, 24) {
            out.extend(self.body1());
        }
        self.layers.pop();
        let t = self.block("endwith".into());
        out.push(t);
        self.nest -= 1;
    }

    fn stmt_include(&mut self, out: &mut Vec<Piece>) {
        let with = self.s.odds(2, 5);
        let (e, v) = if with {
            let want = if self.s.odds(1, 8) { Want::Any } else { Want::Map };
            let (e, v) = self.expr(want);
            (Some(e), v)
        } else {
            (None, None)
        };
        let offers: Vec<String> = match (&v, with) {
            (Some(Value::Map(m)), true) => m.keys().cloned().collect(),
            (_, true) => vec![],
            _ => self.visible().0,
        };
        let fresh = self.templates.len() < self.p.templates && self.stack.len() < 4 && !self.s.odds(1, 6);
        let name = if self.fault() {
            let m = self.s.misses.clone();
            self.s.of(&m).clone()
        } else if fresh {
            let names = &self.s.tpls;
            let name = names[self.templates.len() % names.len()].clone();
            self.templates.insert(name.clone(), vec![]);
            self.modes.insert(name.clone(), (with, offers));
            let n = self.layers.len();
            if with {
                self.layers.push(Layer::Boundary);
                self.layers.push(Layer::Globals(std::rc::Rc::new(v.unwrap_or(Value::None))));
            }
            self.stack.push(name.clone());
            let nest = std::mem::replace(&mut self.nest, 1);
            let b = if self.s.odds(1, 16) { self.next_to_nothing() } else { self.body1() };
            self.nest = nest;
            self.stack.pop();
            self.layers.truncate(n);
            self.templates.insert(name.clone(), b);
            name
        } else {
            let cyc = self.s.odds(self.p.cyclic, 64);
            let suits = self.s.odds(1, 6);
            let names: Vec<String> = self
                .templates
                .keys()
                .filter(|n| cyc || (!self.stack.contains(n) && (suits || self.modes.get(*n).map_or(false, |(w, need)| *w == with && need.iter().all(|k| offers.contains(k))))))
                .cloned()
                .collect();
            if names.is_empty() {
                out.push(Piece::Raw("-no-".into()));
                return;
            }
            self.s.of(&names).clone()
        };
        let x = self.pad();
        let lit = self.str_text(&name);
        let mut t = format!("include{x}{lit}");
        if let Some(e) = e {
            let y = self.pad();
            let z = self.ws1();
            t.push_str(&format!("{y}with{z}{e}"));
        }
        let t = self.block(t);
        out.push(t);
    }
}

// ---------------------------------------------------------------- delimiters

/// Delimiters other than the default; distinct spellings guaranteed.
pub fn delims(s: &mut Src) -> Delims {
    for _ in 0..8 {
        let d = delims_once(s);
        if d.is_unambiguous() && in_domain(&d) {
            return d;
        }
    }
    let p = |a: &str, b: &str| Some((a.to_string(), b.to_string()));
    Delims {
        expr: p("<{", "}>"),
        block: p("<[", "]>"),
        comment: p("<#", "#>"),
    }
}

/// Delimiters that look like words, numbers, strings or whitespace.
pub fn wordy_delims(s: &mut Src) -> Delims {
    let sets: &[[&str; 6]] = &[
        ["BEGIN", "END", "DO", "DONE", "REM", "MER"],
        ["begin", "end", "do", "done", "rem", "mer"],
        ["<expr>", "/expr", "<block>", "/block", "<!--", "-->"],
        ["Ä", "Ö", "ÄÄ", "ÖÖ", "Ü", "ÜÜ"],
        ["<< ", " >>", "<% ", " %>", "<# ", " #>"],
        ["0[", "]0", "0(", ")0", "0#", "#0"],
        ["'", "\"}", "''", "\"%", "'#", "\"#"],
        [".{", ".}", "?{", "?}", ",{", ",}"],
        ["--{", "--}", "-%", "%%", "--#", "#--"],
        ["q", "z", "qq", "zz", "qqq", "zzz"],
        ["_(", "_)", "_[", "_]", "_#", "#_"],
        ["\n@", "@\n", "\n%", "%\n", "\n#", "#\n"],
        ["|", "||", "|%", "%|", "|#", "#|"],
        ["if", "fi", "for", "rof", "in", "ni"],
        ["{{", "END", "{%", "end", "{#", "fin"],
        ["\u{a0}{", "}\u{a0}", "\u{a0}[", "]\u{a0}", "\u{a0}#", "#\u{a0}"],
    ];
    let t = *s.of(sets);
    let mut o = [0usize, 1, 2];
    let (i, j) = (s.below(3), s.below(3));
    o.swap(i, j);
    let p = |i: usize| Some((t[2 * o[i]].to_string(), t[2 * o[i] + 1].to_string()));
    let mut d = Delims {
        expr: p(0),
        block: p(1),
        comment: p(2),
    };
    if s.odds(1, 8) {
        d.comment = None;
    }
    if s.odds(1, 8) {
        d.block = None;
    }
    debug_assert!(d.is_unambiguous());
    d
}

/// Delimiters that start like a token of an expression change how expressions
/// are read; those configurations are outside of what is specified.
pub fn in_domain(d: &Delims) -> bool {
    [&d.expr, &d.block, &d.comment]
        .into_iter()
        .flatten()
        .all(|(b, e)| {
            [b, e].into_iter().all(|x| {
                x.chars().next().map_or(false, |c| {
                    !(is_ident_continue(c) || c.is_whitespace() || "\"-+.,:|?".contains(c))
                })
            })
        })
}

fn delims_once(s: &mut Src) -> Delims {
    let sets: &[[&str; 6]] = &[
        ["<", ">", "<<", ">>", "<!", "!>"],
        ["{", "}", "{{", "}}", "{{{", "}}}"],
        ["${", "}", "$", "$$", "/*", "*/"],
        ["<%=", "%>", "<%", "=%>", "<%#", "#%>"],
        ["«", "»", "<<", ">>", "«#", "#»"],
        ["[[", "]]", "[%", "%]", "[#", "#]"],
        ["{{", "}}", "{%", "%}", "{{!", "!}}"],
        ["%%", "%%%", "{%", "%}", "#", "##"],
        ["(", ")", "((", "))", "(*", "*)"],
        ["<{", "}>", "<[", "]>", "<#", "#>"],
        ["@", ";", "@@", ";;", "@!", "!@"],
        ["#{", "}", "#", "\\", "#-", "-#}"],
        ["★", "☆", "★★", "☆☆", "★☆", "☆★"],
        ["{{", "}}", "{%", "%}", "{#", "#}"],
        ["/", "//", "///", "////", "/*", "*/"],
    ];
    let mut d = if s.odds(2, 3) {
        let t = *s.of(sets);
        let mut o = [0usize, 1, 2];
        if s.coin() {
            let i = s.below(3);
            let j = s.below(3);
            o.swap(i, j);
        }
        let p = |i: usize| Some((t[2 * o[i]].to_string(), t[2 * o[i] + 1].to_string()));
        Delims {
            expr: p(0),
            block: p(1),
            comment: p(2),
        }
    } else {
        let chars = ['{', '}', '<', '>', '%', '#', '$', '!', '[', ']', '*', '«', '★', '-', '='];
        let k = s.range(2, chars.len());
        let mut word = |s: &mut Src| {
            let n = s.range(1, 3);
            (0..n).map(|_| chars[s.below(k)]).collect::<String>()
        };
        let mut p = |s: &mut Src| Some((word(s), word(s)));
        Delims {
            expr: p(s),
            block: p(s),
            comment: p(s),
        }
    };
    if s.odds(1, 6) {
        d.comment = None;
    }
    if s.odds(1, 12) {
        d.block = None;
    }
    if let Some(w) = s.word(1, 6) {
        let all: Vec<&mut (String, String)> = [&mut d.expr, &mut d.block, &mut d.comment].into_iter().flatten().collect();
        let n = all.len();
        let i = s.below(n);
        let p = all.into_iter().nth(i).unwrap();
        let p = if s.coin() { &mut p.0 } else { &mut p.1 };
        match s.below(3) {
            0 => *p = w,
            1 => p.push_str(&w),
            _ => p.insert_str(0, &w),
        }
    }
    if s.odds(1, 12) {
        // Much longer than anybody would choose.
        let one = s.odds(2, 3);
        for p in [&mut d.expr, &mut d.block, &mut d.comment].into_iter().flatten() {
            for t in [&mut p.0, &mut p.1] {
                if !one || s.odds(1, 3) {
                    let k = s.size(&[3, 5, 9, 17, 33, 70, 140], 600);
                    if s.coin() {
                        *t = t.repeat(k);
                    } else {
                        let c = t.chars().last().unwrap();
                        t.extend(std::iter::repeat(c).take(k));
                    }
                }
            }
        }
    } else if s.odds(1, 12) {
        // With characters that nobody would choose.
        for p in [&mut d.expr, &mut d.block, &mut d.comment].into_iter().flatten() {
            for t in [&mut p.0, &mut p.1] {
                if s.odds(1, 3) {
                    let c = ch(s);
                    let at = if s.coin() { 0 } else { t.len() };
                    t.insert(at, c);
                }
            }
        }
    }
    d
}

// ---------------------------------------------------------------- broken texts

fn boundary(t: &str, mut i: usize) -> usize {
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    i
}

const TOKENS: &[&str] = &[
    "{{", "}}", "{%", "%}", "{#", "#}", "{{-", "-}}", "{%-", "-%}", "{#-", "-#}", "-", "if", "else", "endif", "for",
    "endfor", "in", "with", "as", "endwith", "include", "not", "true", "false", "a", "b", "loop", "名", "_", ".", "?.",
    "?", "|", ",", ":", "+", "0", "1", "12", "0x1f", "0xZ", "0b102", "1.5", "1e", "9223372036854775808", "-9223372036854775808",
    "\"s\"", "\"", "\\", "\"\\n\"", "\"\\x\"", " ", " ", " ", "\t", "\n", "\r\n", "text", "{", "}", "%", "#", "é", "\u{301}",
    "a.18446744073709551615", "a.18446744073709551616", "a?.99999999999999999999999999999", "a.0000000000000000000000000", "99999999999999999999",
    "if a", "else if b", "for x in xs", "for k, v in m", "with a as b", "include \"t\"", "{% if a %}", "{% endif %}",
    "{% for x in xs %}", "{% endfor %}", "{{ a }}", "{# c #}", "{% else %}", "elif", "=", "(", "!", "'", "$", "&",
];

pub fn token_soup(s: &mut Src, d: &Delims) -> String {
    let n = s.range(1, 14);
    let mut out = String::new();
    let pats = d.patterns();
    for _ in 0..n {
        if let Some(w) = s.word(1, 6) {
            out.push_str(&w);
        } else if s.odds(1, 3) {
            out.push_str(&s.of(&pats).0.clone());
        } else {
            out.push_str(s.pick(TOKENS));
        }
        if s.coin() {
            out.push(' ');
        }
    }
    out
}

/// A few delimiters and characters, nothing else.
pub fn shorty(s: &mut Src, d: &Delims) -> String {
    let pats = d.patterns();
    let n = s.range(1, 5);
    let mut out = String::new();
    for _ in 0..n {
        match s.below(4) {
            0 | 1 => out.push_str(&s.of(&pats).0.clone()),
            2 => {
                let c: Vec<char> = s.of(&pats).0.chars().collect();
                out.push(c[s.below(c.len())]);
            }
            _ => out.push_str(s.pick(&["a", "b", " ", "\n", "-", "1", "é", "😀", "."])),
        }
    }
    out
}

/// A name, a number, a string or a text far longer than usual.
pub fn lengthy(s: &mut Src, d: &Delims) -> String {
    let n = s.size(&[33, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1025, 4097], 20_000);
    let lead = s.pick(&["", "x", "\n", "名", "\r\n "]).to_string();
    let lead = if s.coin() { lead.repeat(n) } else { lead };
    let (b, e) = d.expr.clone().or(d.block.clone()).or(d.comment.clone()).unwrap();
    let word = s.pick(&["a", "名", "ab_", "é"]).repeat(n);
    let kind = s.below(12);
    // The time taken grows with the number of tokens times the length.
    let n = if (5..=8).contains(&kind) { n.min(4_200) } else { n };
    let inner = match kind {
        0 => word,
        1 => format!("a.{word}"),
        2 => format!("a | {word}"),
        3 => format!("\"{}\"", s.pick(&["a", "名", " ", "\\n", "\\\\", "{{", "😀"]).repeat(n)),
        4 => format!("{}1", s.pick(&["0", "0x0", "0b0", "-0", "+0_"]).to_string() + &"0".repeat(n)),
        5 => format!("a{}", " ".repeat(n)),
        6 => format!("a{}", " | f".repeat(n)),
        7 => format!("a | f: 1{}", ", b".repeat(n)),
        8 => format!("a{}", s.pick(&[".b", "?.0", ".1", "?.c"]).repeat(n)),
        9 => format!("a.{}1", "0".repeat(n)),
        10 => format!("1.{}", "0".repeat(n)),
        _ => "a".to_string(),
    };
    let tail = s.pick(&["", "t", "\n", "é"]);
    let tail = if s.coin() { tail.repeat(n) } else { tail.to_string() };
    let mut t = format!("{lead}{b} {inner} {e}{tail}");
    if s.odds(1, 3) {
        t = mutate(s, &t, d);
    }
    t
}

/// A handful of small edits.
pub fn mutate(s: &mut Src, t: &str, d: &Delims) -> String {
    let mut t = t.to_string();
    let n = s.range(1, 3);
    let pats = d.patterns();
    for _ in 0..n {
        let i = boundary(&t, s.below(t.len() + 1));
        let j = boundary(&t, (i + s.range(1, 4)).min(t.len()));
        match s.below(8) {
            0 | 1 => t.replace_range(i..j, ""),
            2 | 3 => match s.word(1, 4) {
                Some(w) => t.insert_str(i, &w),
                None => t.insert_str(i, s.pick(TOKENS)),
            },
            4 => t.insert_str(i, &s.of(&pats).0.clone()),
            5 => {
                let c = ch(s);
                t.insert(i, c);
            }
            6 => {
                let x = t[i..j].to_string();
                t.insert_str(i, &x);
            }
            _ => t.truncate(i),
        }
    }
    t
}

pub fn junk(s: &mut Src) -> String {
    let n = s.below(24);
    (0..n).map(|_| s.word(1, 8).unwrap_or_else(|| ch(s).to_string())).collect()
}

/// A sequence of block tags, mostly balanced.
pub fn skeleton(s: &mut Src, d: &Delims) -> String {
    let mut open: Vec<char> = vec![];
    let mut out = vec![];
    let n = s.range(1, 14);
    let wild = *s.of(&[0, 1, 3]);
    let mut block = |s: &mut Src, out: &mut Vec<Piece>, inner: &str| {
        out.push(Piece::Tag {
            tag: Tag::Block,
            lt: s.odds(1, 8),
            rt: s.odds(1, 8),
            inner: format!(" {inner} "),
        })
    };
    for i in 0..n {
        let closing = n - i <= open.len() || s.odds(1, 3);
        match open.last().copied() {
            _ if s.odds(wild, 16) => {
                let t = *s.of(&["endif", "endfor", "endwith", "else", "else if a", "if a", "for x in a", "with a as b", "if", "else a"]);
                block(s, &mut out, t)
            }
            Some(c) if closing => {
                open.pop();
                let t = match c {
                    'i' => "endif",
                    'f' => "endfor",
                    _ => "endwith",
                };
                block(s, &mut out, t)
            }
            Some('i') if s.coin() => {
                let t = *s.of(&["else if b", "else", "else if not b"]);
                block(s, &mut out, t)
            }
            _ => match s.below(6) {
                0 | 1 => {
                    open.push('i');
                    let t = *s.of(&["if a", "if not a", "if a | f"]);
                    block(s, &mut out, t)
                }
                2 => {
                    open.push('f');
                    let t = *s.of(&["for x in a", "for k, v in a"]);
                    block(s, &mut out, t)
                }
                3 => {
                    open.push('w');
                    block(s, &mut out, "with a as b")
                }
                4 => block(s, &mut out, "include \"t\""),
                _ => out.push(Piece::Raw("r".into())),
            },
        }
        if s.odds(1, 4) {
            out.push(Piece::Raw(s.pick(&["t", " ", "\n"]).to_string()));
        }
    }
    if s.odds(3, 4) {
        while let Some(c) = open.pop() {
            block(s, &mut out, match c {
                'i' => "endif",
                'f' => "endfor",
                _ => "endwith",
            });
        }
    }
    if d.block.is_none() {
        return spell(&out, &Delims::default());
    }
    spell(&out, d)
}

/// Whole tags are removed, repeated, moved or edited token by token.
pub fn mutate_pieces(s: &mut Src, ps: &mut Vec<Piece>) {
    for _ in 0..s.range(1, 2) {
        if ps.is_empty() {
            return;
        }
        let i = s.below(ps.len());
        match s.below(8) {
            0 => {
                ps.remove(i);
            }
            1 => {
                let p = ps[i].clone();
                let j = s.below(ps.len() + 1);
                ps.insert(j, p);
            }
            2 => {
                let j = s.below(ps.len());
                ps.swap(i, j);
            }
            _ => {
                let tags: Vec<usize> = (0..ps.len()).filter(|&i| matches!(ps[i], Piece::Tag { tag, .. } if tag != Tag::Comment)).collect();
                if tags.is_empty() {
                    continue;
                }
                let i = *s.of(&tags);
                if let Piece::Tag { inner, .. } = &mut ps[i] {
                    *inner = mutate_tokens(s, inner);
                }
            }
        }
    }
}

const INNER: &[&str] = &[
    "a", "b", "x", "if", "not", "else", "endif", "for", "in", "endfor", "with", "as", "endwith", "include", "true", "false",
    "loop", ".", ".", "?.", "?", "|", "|", ",", ",", ":", ":", "+", "-", "0", "1", "2.5", "0x1f", "1e3", "\"s\"", "\"\\n\"", ".0", "?.1",
    ".a", " ", " ", "\t", "None", "=", "(", "_", "é", "\n", "\r", "'", "1_0", "not a", "| f", ": 1", ", 2", "as y", "in a", "with a",
    ".18446744073709551615", ".18446744073709551616", "?.99999999999999999999", ".999999999999999999999999999999", ".007",
    ".00000000000000000000000000001", ".4294967296", "9223372036854775807", "9223372036854775808", "0x7fffffffffffffff",
    "0x8000000000000000", "0b1111111111111111111111111111111111111111111111111111111111111111111", "1e400", "1.5e-9", "-0", "\"\\u\"",
];

/// Edits at the borders of tokens.
fn mutate_tokens(s: &mut Src, t: &str) -> String {
    let mut toks: Vec<String> = vec![];
    let mut quoted = false;
    for c in t.chars() {
        let word = |c: char| c == '_' || c.is_alphanumeric();
        match toks.last_mut() {
            Some(l) if quoted => l.push(c),
            Some(l) if word(c) && l.chars().all(word) => l.push(c),
            Some(l) if l == "?" && c == '.' => l.push(c),
            _ => toks.push(c.to_string()),
        }
        if c == '"' {
            quoted = !quoted;
        }
    }
    for _ in 0..*s.of(&[1, 1, 1, 2, 3]) {
        let n = toks.len();
        match s.below(6) {
            0 if n > 0 => {
                toks.remove(s.below(n));
            }
            1 if n > 0 => {
                let x = toks[s.below(n)].clone();
                let j = s.below(n + 1);
                toks.insert(j, x);
            }
            2 if n > 1 => {
                let j = s.below(n - 1);
                toks.swap(j, j + 1);
            }
            3 if n > 0 => {
                let j = s.below(n);
                toks[j] = s.pick(INNER).to_string();
            }
            _ => {
                let j = s.below(n + 1);
                let pad = s.odds(1, 3);
                let w = s.word(1, 6);
                let x = w.as_deref().unwrap_or_else(|| s.pick(INNER));
                toks.insert(j, if pad { format!(" {x} ") } else { x.to_string() });
            }
        }
    }
    toks.concat()
}
