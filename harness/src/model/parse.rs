//! Reference tokeniser and parser.

use upon::Value;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tag {
    Expr,
    Block,
    Comment,
}

/// A delimiter configuration; a pair that is absent is not configured.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Delims {
    pub expr: Option<(String, String)>,
    pub block: Option<(String, String)>,
    pub comment: Option<(String, String)>,
}

impl Default for Delims {
    fn default() -> Self {
        let p = |a: &str, b: &str| Some((a.to_string(), b.to_string()));
        Self {
            expr: p("{{", "}}"),
            block: p("{%", "%}"),
            comment: p("{#", "#}"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Hit {
    pub tag: Tag,
    pub begin: bool,
    pub trim: bool,
    pub start: usize,
    pub end: usize,
}

impl Delims {
    pub fn pair(&self, tag: Tag) -> Option<&(String, String)> {
        match tag {
            Tag::Expr => self.expr.as_ref(),
            Tag::Block => self.block.as_ref(),
            Tag::Comment => self.comment.as_ref(),
        }
    }

    /// All configured spellings, with what they mean.
    pub fn patterns(&self) -> Vec<(String, Tag, bool, bool)> {
        let mut v = Vec::new();
        for tag in [Tag::Expr, Tag::Block, Tag::Comment] {
            if let Some((b, e)) = self.pair(tag) {
                v.push((b.clone(), tag, true, false));
                v.push((e.clone(), tag, false, false));
                v.push((format!("{b}-"), tag, true, true));
                v.push((format!("-{e}"), tag, false, true));
            }
        }
        v
    }

    /// Distinct, non-empty spellings.
    pub fn is_unambiguous(&self) -> bool {
        let p = self.patterns();
        p.iter().all(|x| !x.0.is_empty())
            && p.iter()
                .enumerate()
                .all(|(i, x)| p[..i].iter().all(|y| y.0 != x.0))
    }

    pub fn to_syntax(&self) -> upon::Syntax<'_> {
        let mut b = upon::Syntax::builder();
        if let Some((x, y)) = &self.expr {
            b.expr(x, y);
        }
        if let Some((x, y)) = &self.block {
            b.block(x, y);
        }
        if let Some((x, y)) = &self.comment {
            b.comment(x, y);
        }
        b.build()
    }
}

pub type Span = (usize, usize);

#[derive(Clone, Debug)]
pub enum Access {
    Key(String),
    Index(usize),
}

#[derive(Clone, Debug)]
pub struct Seg {
    pub optional: bool,
    pub access: Access,
    pub span: Span,
}

#[derive(Clone, Debug)]
pub enum Base {
    Lit(Value, Span),
    Path(Vec<Seg>),
}

impl Base {
    pub fn span(&self) -> Span {
        match self {
            Base::Lit(_, s) => *s,
            Base::Path(p) => (p[0].span.0, p[p.len() - 1].span.1),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Call {
    pub name: String,
    pub span: Span,
    pub args: Option<Vec<Base>>,
}

#[derive(Clone, Debug)]
pub struct Expr {
    pub base: Base,
    pub calls: Vec<Call>,
    pub span: Span,
}

#[derive(Clone, Debug)]
pub struct Arm {
    pub not: bool,
    pub cond: Expr,
    pub body: Vec<Stmt>,
}

#[derive(Clone, Debug)]
pub enum Stmt {
    Raw(Span),
    Emit(Expr),
    If(Vec<Arm>, Option<Vec<Stmt>>),
    For {
        vars: Vec<(String, Span)>,
        iter: Expr,
        body: Vec<Stmt>,
    },
    With {
        expr: Expr,
        name: String,
        body: Vec<Stmt>,
    },
    Include {
        name: String,
        span: Span,
        with: Option<Expr>,
    },
}

#[derive(Clone, Debug)]
pub struct SynErr {
    pub span: Span,
}

#[derive(Clone, Debug)]
pub struct Tpl {
    pub body: Vec<Stmt>,
    /// The text uses something whose meaning is not documented (for example a
    /// decimal integer that does not fit); nothing is claimed about it.
    pub unspecified: bool,
    /// Such a thing, but one that certainly is accepted.
    pub vague: bool,
}

pub const KEYWORDS: &[&str] = &[
    "if", "not", "else", "endif", "for", "in", "endfor", "with", "as", "endwith", "include",
    "true", "false",
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Tok {
    Raw,
    Begin(Tag),
    End(Tag),
    Dot,
    OptDot,
    Pipe,
    Comma,
    Colon,
    Plus,
    Minus,
    Keyword,
    Ident,
    Index,
    Number,
    Str,
}

enum Mode {
    Text,
    Tag { tag: Tag, begin: Span, path: bool },
    Comment { begin: Span },
}

struct Lexer<'a> {
    s: &'a str,
    pats: Vec<(String, Tag, bool, bool)>,
    at: usize,
    mode: Mode,
    ltrim: bool,
    queued: Option<(Tok, Span)>,
}

type R<T> = Result<T, SynErr>;

fn fail<T>(span: Span) -> R<T> {
    Err(SynErr { span })
}

thread_local! {
    /// Identifiers are restricted to ASCII.
    pub static ASCII: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn is_ident_start(c: char) -> bool {
    c == '_' || c.is_ascii_alphabetic() || (!c.is_ascii() && !ASCII.get() && unicode_ident::is_xid_start(c))
}

pub fn is_ident_continue(c: char) -> bool {
    c == '_' || c.is_ascii_alphanumeric() || (!c.is_ascii() && !ASCII.get() && unicode_ident::is_xid_continue(c))
}

impl<'a> Lexer<'a> {
    /// The longest delimiter spelled at exactly `i`.
    fn hit_at(&self, i: usize) -> Option<Hit> {
        let rest = &self.s.as_bytes()[i..];
        let mut best: Option<Hit> = None;
        for (p, tag, begin, trim) in &self.pats {
            if rest.starts_with(p.as_bytes()) && best.map_or(true, |b| p.len() > b.end - b.start) {
                best = Some(Hit {
                    tag: *tag,
                    begin: *begin,
                    trim: *trim,
                    start: i,
                    end: i + p.len(),
                });
            }
        }
        best
    }

    /// The leftmost delimiter at or after `i`.
    fn find(&self, i: usize) -> Option<Hit> {
        (i..self.s.len()).find_map(|j| self.hit_at(j))
    }

    fn next(&mut self) -> R<Option<(Tok, Span)>> {
        loop {
            if let Some(t) = self.queued.take() {
                return Ok(Some(t));
            }
            let i = self.at;
            if i >= self.s.len() {
                return Ok(None);
            }
            match self.mode {
                Mode::Text => return self.text(i).map(Some),
                Mode::Comment { begin } => return self.comment(i, begin).map(Some),
                Mode::Tag { tag, begin, path } => {
                    if let Some(t) = self.tag(i, tag, begin, path)? {
                        return Ok(Some(t));
                    }
                }
            }
        }
    }

    fn text(&mut self, i: usize) -> R<(Tok, Span)> {
        let hit = self.find(i);
        let end = hit.map_or(self.s.len(), |h| h.start);
        if let Some(h) = hit {
            if !h.begin {
                return fail((h.start, h.end));
            }
            let span = (h.start, h.end);
            self.at = h.end;
            self.mode = match h.tag {
                Tag::Comment => Mode::Comment { begin: span },
                tag => Mode::Tag {
                    tag,
                    begin: span,
                    path: false,
                },
            };
            if end == i {
                return Ok((Tok::Begin(h.tag), span));
            }
            self.queued = Some((Tok::Begin(h.tag), span));
        } else {
            self.at = self.s.len();
        }
        let (mut a, mut b) = (i, end);
        if hit.map_or(false, |h| h.trim) {
            while let Some(c) = self.s[a..b].chars().next_back() {
                if !c.is_whitespace() {
                    break;
                }
                b -= c.len_utf8();
            }
        }
        if self.ltrim {
            self.ltrim = false;
            while let Some(c) = self.s[a..b].chars().next() {
                if !c.is_whitespace() {
                    break;
                }
                a += c.len_utf8();
            }
        }
        Ok((Tok::Raw, (a, b)))
    }

    fn comment(&mut self, i: usize, begin: Span) -> R<(Tok, Span)> {
        match self.find(i) {
            None => {
                self.at = self.s.len();
                Ok((Tok::Raw, (i, self.s.len())))
            }
            Some(h) if h.begin => fail(begin),
            Some(h) if h.tag != Tag::Comment => fail((h.start, h.end)),
            Some(h) => {
                self.at = h.end;
                self.mode = Mode::Text;
                self.ltrim = h.trim;
                let end = (Tok::End(Tag::Comment), (h.start, h.end));
                if h.start == i {
                    return Ok(end);
                }
                self.queued = Some(end);
                Ok((Tok::Raw, (i, h.start)))
            }
        }
    }

    fn tag(&mut self, i: usize, tag: Tag, begin: Span, path: bool) -> R<Option<(Tok, Span)>> {
        if let Some(h) = self.hit_at(i) {
            if h.begin {
                return fail(begin);
            }
            if h.tag != tag {
                return fail((h.start, h.end));
            }
            self.at = h.end;
            self.mode = Mode::Text;
            self.ltrim = h.trim;
            return Ok(Some((Tok::End(tag), (h.start, h.end))));
        }
        let s = self.s;
        let rest = &s[i..];
        let c = rest.chars().next().unwrap();
        let run = |pred: &dyn Fn(char) -> bool| -> usize {
            i + rest
                .char_indices()
                .find(|(_, c)| !pred(*c))
                .map_or(rest.len(), |(j, _)| j)
        };
        let mut now_path = path;
        let (tok, end) = match c {
            ' ' | '\t' => {
                self.at = run(&|c| c == ' ' || c == '\t');
                return Ok(None);
            }
            '.' => (Tok::Dot, i + 1),
            '|' => (Tok::Pipe, i + 1),
            ',' => (Tok::Comma, i + 1),
            ':' => (Tok::Colon, i + 1),
            '+' => (Tok::Plus, i + 1),
            '-' => (Tok::Minus, i + 1),
            '?' => match rest[1..].chars().next() {
                Some('.') => (Tok::OptDot, i + 2),
                Some(d) => return fail((i, i + 1 + d.len_utf8())),
                None => return fail((i, s.len())),
            },
            '"' => {
                let mut esc = false;
                let mut end = None;
                for (j, c) in rest.char_indices().skip(1) {
                    if c == '\n' || c == '\r' {
                        return fail((i, i + j));
                    }
                    if esc {
                        esc = false;
                    } else if c == '\\' {
                        esc = true;
                    } else if c == '"' {
                        end = Some(i + j + 1);
                        break;
                    }
                }
                match end {
                    Some(e) => (Tok::Str, e),
                    None => return fail((i, s.len())),
                }
            }
            '0'..='9' if path => (Tok::Index, run(&|c| c.is_ascii_digit())),
            '0'..='9' => {
                let mut j = i;
                for c in rest.chars() {
                    if !(c.is_ascii_alphanumeric() || "_-+.".contains(c)) {
                        break;
                    }
                    if c == '-' && self.hit_at(j).is_some() {
                        break;
                    }
                    j += 1;
                }
                (Tok::Number, j)
            }
            c if is_ident_start(c) => {
                let end = run(&is_ident_continue);
                if KEYWORDS.contains(&&s[i..end]) {
                    now_path = false;
                    (Tok::Keyword, end)
                } else {
                    now_path = true;
                    (Tok::Ident, end)
                }
            }
            c => return fail((i, i + c.len_utf8())),
        };
        if matches!(tok, Tok::Pipe | Tok::Comma | Tok::Colon) {
            now_path = false;
        }
        self.mode = Mode::Tag {
            tag,
            begin,
            path: now_path,
        };
        self.at = end;
        Ok(Some((tok, (i, end))))
    }
}

enum Open {
    If {
        span: Span,
        arms: Vec<Arm>,
        pending: Option<(bool, Expr)>,
        in_else: bool,
    },
    For {
        span: Span,
        vars: Vec<(String, Span)>,
        iter: Expr,
    },
    With {
        span: Span,
        expr: Expr,
        name: String,
    },
}

struct Parser<'a> {
    lx: Lexer<'a>,
    peeked: Option<Option<(Tok, Span)>>,
    unspecified: bool,
    vague: bool,
}

pub fn parse(delims: &Delims, s: &str) -> R<Tpl> {
    let mut p = Parser {
        lx: Lexer {
            s,
            pats: delims.patterns(),
            at: 0,
            mode: Mode::Text,
            ltrim: false,
            queued: None,
        },
        peeked: None,
        unspecified: false,
        vague: false,
    };
    let body = p.template()?;
    Ok(Tpl {
        body,
        unspecified: p.unspecified,
        vague: p.vague,
    })
}

/// Like [`parse`], but also says whether an unspecified construct was met
/// before the syntax error.
pub fn parse_lenient(delims: &Delims, s: &str) -> (R<Tpl>, bool) {
    let mut p = Parser {
        lx: Lexer {
            s,
            pats: delims.patterns(),
            at: 0,
            mode: Mode::Text,
            ltrim: false,
            queued: None,
        },
        peeked: None,
        unspecified: false,
        vague: false,
    };
    let r = p.template();
    let (u, vague) = (p.unspecified, p.vague);
    (
        r.map(|body| Tpl {
            body,
            unspecified: u,
            vague,
        }),
        u || vague,
    )
}

impl<'a> Parser<'a> {
    fn next(&mut self) -> R<Option<(Tok, Span)>> {
        match self.peeked.take() {
            Some(t) => Ok(t),
            None => self.lx.next(),
        }
    }

    fn peek(&mut self) -> R<Option<(Tok, Span)>> {
        if self.peeked.is_none() {
            self.peeked = Some(self.lx.next()?);
        }
        Ok(self.peeked.unwrap())
    }

    fn eof<T>(&self) -> R<T> {
        let n = self.lx.s.len();
        fail((n, n))
    }

    fn any(&mut self) -> R<(Tok, Span)> {
        match self.next()? {
            Some(t) => Ok(t),
            None => self.eof(),
        }
    }

    fn expect(&mut self, tok: Tok) -> R<Span> {
        let (t, s) = self.any()?;
        if t == tok {
            Ok(s)
        } else {
            fail(s)
        }
    }

    fn is(&mut self, tok: Tok) -> R<bool> {
        Ok(matches!(self.peek()?, Some((t, _)) if t == tok))
    }

    fn is_kw(&mut self, kw: &str) -> R<bool> {
        Ok(matches!(self.peek()?, Some((Tok::Keyword, s)) if self.slice(s) == kw))
    }

    fn kw(&mut self, kw: &str) -> R<()> {
        let s = self.expect(Tok::Keyword)?;
        if self.slice(s) == kw {
            Ok(())
        } else {
            fail(s)
        }
    }

    fn slice(&self, s: Span) -> &'a str {
        &self.lx.s[s.0..s.1]
    }

    fn template(&mut self) -> R<Vec<Stmt>> {
        let mut open: Vec<(Open, Vec<Stmt>)> = Vec::new();
        let mut cur: Vec<Stmt> = Vec::new();
        while let Some((tok, sp)) = self.next()? {
            match tok {
                Tok::Raw => cur.push(Stmt::Raw(sp)),
                Tok::Begin(Tag::Comment) => {
                    if self.is(Tok::Raw)? {
                        self.next()?;
                    }
                    self.expect(Tok::End(Tag::Comment))?;
                }
                Tok::Begin(Tag::Expr) => {
                    let e = self.expr()?;
                    self.expect(Tok::End(Tag::Expr))?;
                    cur.push(Stmt::Emit(e));
                }
                Tok::Begin(Tag::Block) => {
                    let kwspan = self.expect(Tok::Keyword)?;
                    match self.slice(kwspan) {
                        "if" => {
                            let c = self.cond()?;
                            let end = self.expect(Tok::End(Tag::Block))?;
                            open.push((
                                Open::If {
                                    span: (sp.0, end.1),
                                    arms: vec![],
                                    pending: Some(c),
                                    in_else: false,
                                },
                                std::mem::take(&mut cur),
                            ));
                        }
                        "else" => {
                            let elif = if self.is_kw("if")? {
                                self.next()?;
                                Some(self.cond()?)
                            } else {
                                None
                            };
                            let end = self.expect(Tok::End(Tag::Block))?;
                            match open.last_mut() {
                                Some((
                                    Open::If {
                                        arms,
                                        pending,
                                        in_else: in_else @ false,
                                        ..
                                    },
                                    _,
                                )) => {
                                    let (not, cond) = pending.take().unwrap();
                                    arms.push(Arm {
                                        not,
                                        cond,
                                        body: std::mem::take(&mut cur),
                                    });
                                    *in_else = elif.is_none();
                                    *pending = elif;
                                }
                                _ => return fail((sp.0, end.1)),
                            }
                        }
                        "endif" => {
                            let end = self.expect(Tok::End(Tag::Block))?;
                            match open.pop() {
                                Some((
                                    Open::If {
                                        mut arms,
                                        pending,
                                        in_else,
                                        ..
                                    },
                                    outer,
                                )) => {
                                    let body = std::mem::replace(&mut cur, outer);
                                    if in_else {
                                        cur.push(Stmt::If(arms, Some(body)));
                                    } else {
                                        let (not, cond) = pending.unwrap();
                                        arms.push(Arm { not, cond, body });
                                        cur.push(Stmt::If(arms, None));
                                    }
                                }
                                _ => return fail((sp.0, end.1)),
                            }
                        }
                        "for" => {
                            let mut vars = vec![self.ident()?];
                            if self.is(Tok::Comma)? {
                                self.next()?;
                                vars.push(self.ident()?);
                                if vars[0].0 == vars[1].0 {
                                    self.unspecified = true;
                                }
                            }
                            if vars.iter().any(|v| v.0 == "loop") {
                                self.vague = true;
                            }
                            self.kw("in")?;
                            let iter = self.expr()?;
                            let end = self.expect(Tok::End(Tag::Block))?;
                            open.push((
                                Open::For {
                                    span: (sp.0, end.1),
                                    vars,
                                    iter,
                                },
                                std::mem::take(&mut cur),
                            ));
                        }
                        "endfor" => {
                            let end = self.expect(Tok::End(Tag::Block))?;
                            match open.pop() {
                                Some((Open::For { vars, iter, .. }, outer)) => {
                                    let body = std::mem::replace(&mut cur, outer);
                                    cur.push(Stmt::For { vars, iter, body });
                                }
                                _ => return fail((sp.0, end.1)),
                            }
                        }
                        "with" => {
                            let expr = self.expr()?;
                            self.kw("as")?;
                            let (name, _) = self.ident()?;
                            let end = self.expect(Tok::End(Tag::Block))?;
                            open.push((
                                Open::With {
                                    span: (sp.0, end.1),
                                    expr,
                                    name,
                                },
                                std::mem::take(&mut cur),
                            ));
                        }
                        "endwith" => {
                            let end = self.expect(Tok::End(Tag::Block))?;
                            match open.pop() {
                                Some((Open::With { expr, name, .. }, outer)) => {
                                    let body = std::mem::replace(&mut cur, outer);
                                    cur.push(Stmt::With { expr, name, body });
                                }
                                _ => return fail((sp.0, end.1)),
                            }
                        }
                        "include" => {
                            let span = self.expect(Tok::Str)?;
                            let name = self.string(span)?;
                            let with = if self.is_kw("with")? {
                                self.next()?;
                                Some(self.expr()?)
                            } else {
                                None
                            };
                            self.expect(Tok::End(Tag::Block))?;
                            cur.push(Stmt::Include { name, span, with });
                        }
                        _ => return fail(kwspan),
                    }
                }
                _ => return fail(sp),
            }
        }
        match open.first() {
            None => Ok(cur),
            Some((o, _)) => match o {
                Open::If { span, .. } | Open::For { span, .. } | Open::With { span, .. } => {
                    // A chain with an `else if` is reported at the first block.
                    fail(*span)
                }
            },
        }
    }

    fn cond(&mut self) -> R<(bool, Expr)> {
        let not = self.is_kw("not")?;
        if not {
            self.next()?;
        }
        Ok((not, self.expr()?))
    }

    fn ident(&mut self) -> R<(String, Span)> {
        let s = self.expect(Tok::Ident)?;
        Ok((self.slice(s).to_string(), s))
    }

    fn expr(&mut self) -> R<Expr> {
        let base = self.base()?;
        let mut span = base.span();
        let mut calls = Vec::new();
        while self.is(Tok::Pipe)? {
            self.next()?;
            let (name, nspan) = self.ident()?;
            span.1 = nspan.1;
            let args = if self.is(Tok::Colon)? {
                self.next()?;
                let mut args = vec![self.base()?];
                while self.is(Tok::Comma)? {
                    self.next()?;
                    args.push(self.base()?);
                }
                span.1 = args.last().unwrap().span().1;
                Some(args)
            } else {
                None
            };
            calls.push(Call {
                name,
                span: nspan,
                args,
            });
        }
        Ok(Expr { base, calls, span })
    }

    fn base(&mut self) -> R<Base> {
        let (tok, sp) = self.any()?;
        match tok {
            Tok::Keyword => match self.slice(sp) {
                "true" => Ok(Base::Lit(Value::Bool(true), sp)),
                "false" => Ok(Base::Lit(Value::Bool(false), sp)),
                _ => fail(sp),
            },
            Tok::Plus | Tok::Minus => {
                let n = self.expect(Tok::Number)?;
                self.number(n, (sp.0, n.1), tok == Tok::Minus)
            }
            Tok::Number => self.number(sp, sp, false),
            Tok::Str => {
                let s = self.string(sp)?;
                Ok(Base::Lit(Value::String(s), sp))
            }
            Tok::Ident => {
                let mut path = vec![Seg {
                    optional: false,
                    access: Access::Key(self.slice(sp).to_string()),
                    span: sp,
                }];
                loop {
                    let (optional, dot) = match self.peek()? {
                        Some((Tok::Dot, s)) => (false, s),
                        Some((Tok::OptDot, s)) => (true, s),
                        _ => break,
                    };
                    self.next()?;
                    let (tok, s) = self.any()?;
                    let access = match tok {
                        Tok::Index => match self.slice(s).parse::<usize>() {
                            Ok(n) => Access::Index(n),
                            Err(_) => return fail(s),
                        },
                        Tok::Ident => Access::Key(self.slice(s).to_string()),
                        _ => return fail(s),
                    };
                    path.push(Seg {
                        optional,
                        access,
                        span: (dot.0, s.1),
                    });
                }
                Ok(Base::Path(path))
            }
            _ => fail(sp),
        }
    }

    fn number(&mut self, tok: Span, span: Span, neg: bool) -> R<Base> {
        let raw = self.slice(tok);
        let (skip, radix) = match raw.get(..2) {
            Some("0b") => (2, 2),
            Some("0o") => (2, 8),
            Some("0x") => (2, 16),
            _ => (0, 10),
        };
        let digits = &raw[skip..];
        let mut n: i128 = 0;
        let mut bad: Option<Span> = None;
        let mut any = false;
        for (j, c) in digits.char_indices() {
            if c == '_' {
                continue;
            }
            any = true;
            match c.to_digit(radix) {
                None => {
                    let at = tok.0 + skip + j;
                    bad = Some((at, at + 1));
                    break;
                }
                Some(d) => {
                    n = n * radix as i128 + d as i128;
                    let v = if neg { -n } else { n };
                    if i64::try_from(v).is_err() {
                        bad = Some(span);
                        break;
                    }
                }
            }
        }
        match bad {
            None => {
                if !any {
                    self.unspecified = true;
                }
                let v = if neg { -n } else { n };
                Ok(Base::Lit(Value::Integer(v as i64), span))
            }
            Some(at) => match raw.parse::<f64>() {
                Ok(f) => {
                    let plain = raw.bytes().all(|b| b.is_ascii_digit());
                    if plain || f.is_infinite() {
                        self.unspecified = true;
                    }
                    Ok(Base::Lit(Value::Float(if neg { -f } else { f }), span))
                }
                Err(_) => {
                    if raw.contains(['.', '-', '+']) {
                        fail(span)
                    } else {
                        fail(at)
                    }
                }
            },
        }
    }

    fn string(&mut self, span: Span) -> R<String> {
        let inner = &self.lx.s[span.0 + 1..span.1 - 1];
        let mut out = String::new();
        let mut it = inner.char_indices();
        while let Some((_, c)) = it.next() {
            if c != '\\' {
                out.push(c);
                continue;
            }
            let (j, e) = it.next().expect("model: escape");
            out.push(match e {
                'n' => '\n',
                'r' => '\r',
                't' => '\t',
                '\\' => '\\',
                '"' => '"',
                _ => {
                    let at = span.0 + 1 + j;
                    return fail((at, at + e.len_utf8()));
                }
            });
        }
        Ok(out)
    }
}

/// Where a span is, as shown to a user.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Loc {
    pub line: usize,
    pub col: usize,
    pub text: String,
    pub width: usize,
    /// The span lies behind the final newline; only the line is specified.
    pub past_end: bool,
    /// The line up to the end of the span is printable ASCII.
    pub plain: bool,
}

pub fn locate(s: &str, span: Span) -> Loc {
    use unicode_width::UnicodeWidthStr;
    let before = &s[..span.0];
    let line = before.matches('\n').count() + 1;
    let start = before.rfind('\n').map_or(0, |i| i + 1);
    let end = s[start..].find('\n').map_or(s.len(), |i| start + i);
    Loc {
        line,
        col: s[start..span.0].width() + 1,
        text: s[start..end].to_string(),
        width: s[span.0..span.1].width().max(1),
        past_end: start == s.len() && !s.is_empty(),
        plain: s[start..span.1.max(start)].bytes().all(|b| (0x20..0x7f).contains(&b)),
    }
}
