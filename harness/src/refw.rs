//! An independent writer of the notation. It chooses freely between the documented ways of writing a
//! value and records the tokens it writes, so that texts can be damaged at chosen places.

use crate::engine::Src;
use crate::model::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Ws,
    /// An identity, with its angle brackets or the colon of its row where it has them.
    Id,
    Field,
    Open,
    Close,
    Comma,
    Eq,
    Colon,
    Num,
    /// A literal made of letters: booleans, infinities, NaN.
    Word,
    Str,
    Bytes,
    Unit,
    /// Punctuation of a header.
    Head,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub k: K,
    pub t: String,
    /// What a scalar or name token stands for.
    pub m: Option<M>,
    /// The token is inside an inline list (or opens one).
    pub inl: bool,
}

pub fn text(toks: &[Tok]) -> String {
    toks.iter().map(|t| t.t.as_str()).collect()
}

#[derive(Clone, Copy)]
pub struct Spell {
    /// Unusual spacing and line breaks are used.
    pub loose: bool,
    /// The TOML-like layout is used for containers where possible.
    pub verbose: bool,
    pub crlf: bool,
    /// Headers are repeated for no field: only collections of one are written under headers.
    pub single: bool,
}

pub fn spell(s: &mut Src) -> Spell {
    Spell { loose: s.flag(), verbose: s.flag(), crlf: s.chance(1, 8), single: false }
}

struct W<'s> {
    s: &'s mut Src,
    o: Spell,
    out: Vec<Tok>,
    inl: bool,
}

/// Characters used as string delimiters. Left out: those that mean something else right after a name
/// (assignment, brackets) and those that could be part of one.
const DELIMS: &[char] = &[
    '\'', '"', '#', '`', '|', '*', '^', '!', '%', '~', '&', '\\', '/', '<', '>', '$', '?', '.', ';', '@', '+', ')', '}', ',', '😀',
    'é', '§', '\u{2028}',
];

impl W<'_> {
    fn tok(&mut self, k: K, t: impl Into<String>) {
        let inl = self.inl;
        self.out.push(Tok { k, t: t.into(), m: None, inl });
    }
    fn scalar(&mut self, k: K, t: String, m: &M) {
        let inl = self.inl;
        self.out.push(Tok { k, t, m: Some(M::new(m.v.clone())), inl });
    }
    fn ws(&mut self, t: impl Into<String>) {
        let t = t.into();
        if !t.is_empty() {
            self.tok(K::Ws, t);
        }
    }
    fn nl(&self) -> &'static str {
        if self.o.crlf {
            "\r\n"
        } else {
            "\n"
        }
    }
    /// Optional inline whitespace, usually as given.
    fn sp(&mut self, usual: &str) {
        let t = if self.o.loose && self.s.chance(1, 3) {
            match self.s.weighted(&[200, 4, 1]) {
                0 => self.s.pick(&["", " ", "  ", "\t", " \t ", "    "]).to_string(),
                1 => " ".repeat(self.s.range(5, 40)),
                _ => self.s.pick(&[" ", "\t"]).repeat(self.s.range(41, 300)),
            }
        } else {
            usual.to_string()
        };
        self.ws(t);
    }
    /// Whitespace with at least one line break, for delimited multi-line layouts.
    fn lines(&mut self, depth: usize) {
        let mut t = String::new();
        if self.o.loose && self.s.chance(1, 3) {
            t.push_str(self.s.pick(&[" ", "\t", "   ", ""]));
        }
        t.push_str(self.nl());
        if self.o.loose {
            let n = match self.s.weighted(&[200, 4, 1]) {
                0 => self.s.below(3),
                1 => self.s.range(3, 40),
                _ => self.s.range(41, 300),
            };
            for _ in 0..n {
                t.push_str(self.s.pick(&["", " ", "\t"]));
                t.push_str(self.nl());
            }
            t.push_str(self.s.pick(&["", " ", "\t", "        "]));
        } else {
            t.push_str(&"    ".repeat(depth));
        }
        self.ws(t);
    }

    fn number(&mut self, n: N) -> (K, String) {
        let small = |x: u128| x < (1 << 53);
        match n {
            N::U(x) => match self.s.below(6) {
                4 if small(x) => (K::Num, format!("{}.0", x)),
                5 if small(x) => (K::Num, format!("{:e}", x as f64)),
                _ => (K::Num, x.to_string()),
            },
            N::I(x) => match self.s.below(6) {
                4 if small(x.unsigned_abs()) => (K::Num, format!("{}.0", x)),
                5 if small(x.unsigned_abs()) => (K::Num, format!("{:e}", x as f64)),
                _ => (K::Num, x.to_string()),
            },
            N::F(x) if x.is_nan() => (K::Word, "NaN".into()),
            N::F(x) if x.is_infinite() => (K::Word, if x > 0.0 { "inf" } else { "-inf" }.into()),
            N::F(x) => match self.s.below(3) {
                0 => (K::Num, format!("{:?}", x)),
                1 => (K::Num, format!("{:e}", x)),
                _ => {
                    let t = format!("{}", x);
                    // without a point it is an integer, which has to be exact
                    (K::Num, if t.contains('.') || x.abs() < (1u64 << 53) as f64 { t } else { format!("{}.0", t) })
                }
            },
        }
    }

    fn string(&mut self, x: &str) -> String {
        let ds: Vec<char> = DELIMS.iter().copied().filter(|d| !x.contains(*d)).collect();
        if !x.contains('"') && (self.s.flag() || ds.is_empty()) {
            return format!("\"{}\"", x);
        }
        let d = if ds.is_empty() {
            (0x1f680u32..).filter_map(char::from_u32).find(|c| !x.contains(*c)).unwrap()
        } else {
            *self.s.pick(&ds)
        };
        format!("str{}{}{}", d, x, d)
    }

    /// A value in delimited form. `inline`: it has to stay on one line.
    fn value(&mut self, m: &M, inline: bool, depth: usize) {
        if m.is_empty_like() {
            match &m.id {
                Some(id) if self.s.flag() => {
                    self.tok(K::Id, id.clone());
                    self.sp(" ");
                    self.tok(K::Open, "(");
                    self.sp("");
                    self.tok(K::Close, ")");
                }
                id => {
                    if let Some(id) = id {
                        self.tok(K::Id, format!("<{}>", id));
                        self.sp(" ");
                    }
                    let t = if self.o.loose && self.s.chance(1, 4) { "(  )" } else { "()" };
                    self.tok(K::Unit, t);
                }
            }
            return;
        }
        let (open, close) = match &m.v {
            MV::Tuple(_) | MV::Cntr(_) => ("(", ")"),
            MV::Seq(_) => ("[", "]"),
            MV::Map(_) => ("{", "}"),
            v => {
                if let Some(id) = &m.id {
                    self.tok(K::Id, format!("<{}>", id));
                    self.sp(" ");
                }
                match v {
                    MV::Bool(b) => self.scalar(K::Word, b.to_string(), m),
                    MV::Num(n) => {
                        let (k, t) = self.number(*n);
                        self.scalar(k, t, m)
                    }
                    MV::Str(x) => {
                        let t = self.string(x);
                        self.scalar(K::Str, t, m)
                    }
                    MV::Barr(b) => self.scalar(K::Bytes, format!("b91'{}'", base91(b)), m),
                    _ => unreachable!(),
                }
                return;
            }
        };
        if let Some(id) = &m.id {
            self.tok(K::Id, id.clone());
            self.sp(" ");
        }
        let concise = !inline && self.s.chance(2, 5);
        let outer = std::mem::replace(&mut self.inl, !concise);
        self.tok(K::Open, open);
        let n = match &m.v {
            MV::Tuple(v) | MV::Seq(v) => v.len(),
            MV::Cntr(v) => v.len(),
            MV::Map(v) => v.len(),
            _ => 0,
        };
        for i in 0..n {
            match (concise, i) {
                (true, _) => self.lines(depth + 1),
                (false, 0) => self.sp(""),
                (false, _) => {
                    self.sp("");
                    self.tok(K::Comma, ",");
                    self.sp(" ");
                }
            }
            match &m.v {
                MV::Tuple(v) | MV::Seq(v) => self.value(&v[i], !concise, depth + 1),
                MV::Cntr(v) => {
                    self.field(&v[i].0);
                    self.sp(" ");
                    self.tok(K::Eq, "=");
                    self.sp(" ");
                    self.value(&v[i].1, !concise, depth + 1);
                }
                MV::Map(v) => {
                    self.value(&v[i].0, !concise, depth + 1);
                    self.sp("");
                    self.tok(K::Colon, ":");
                    self.sp(" ");
                    self.value(&v[i].1, !concise, depth + 1);
                }
                _ => (),
            }
        }
        if concise {
            self.lines(depth);
        } else {
            self.sp("");
        }
        self.tok(K::Close, close);
        self.inl = outer;
    }

    fn field(&mut self, name: &str) {
        let inl = self.inl;
        self.out.push(Tok { k: K::Field, t: name.to_string(), m: Some(M::new(MV::Str(name.to_string()))), inl });
    }

    fn indent(&mut self, n: usize) {
        let mut t = String::new();
        let tabs = self.o.loose && self.s.chance(1, 4);
        for _ in 0..n {
            t.push_str(if tabs || (self.o.loose && self.s.chance(1, 5)) { "\t" } else { "    " });
        }
        if self.o.loose && self.s.chance(1, 5) {
            t.push_str(self.s.pick(&[" ", "  ", "   "]));
        }
        self.ws(t);
    }

    fn blank(&mut self) {
        let mut t = String::new();
        if self.o.loose && self.s.chance(1, 3) {
            let n = match self.s.weighted(&[200, 4, 1]) {
                0 => self.s.range(1, 2),
                1 => self.s.range(3, 40),
                _ => self.s.range(41, 300),
            };
            for _ in 0..n {
                t.push_str(self.s.pick(&["", "  ", "\t", "        "]));
                t.push_str(self.nl());
            }
        }
        self.ws(t);
    }

    fn header(&mut self, name: &str, id: Option<&str>, n: usize) {
        for _ in 0..n {
            self.tok(K::Head, "[");
        }
        self.sp("");
        self.field(name);
        self.sp("");
        if let Some(id) = id {
            self.tok(K::Head, ":");
            self.sp("");
            self.tok(K::Id, id);
            self.sp("");
        }
        for _ in 0..n {
            self.tok(K::Head, "]");
        }
        self.sp("");
        let nl = self.nl();
        self.ws(nl);
    }

    /// The rows of a container in the indented layout. Every row ends with a line break.
    fn rows(&mut self, m: &M, ind: usize, id_row: bool) {
        let MV::Cntr(fields) = &m.v else { unreachable!() };
        // the pieces of each field, in order
        let mut pieces: Vec<Vec<Piece>> = Vec::new();
        if id_row {
            if let Some(id) = &m.id {
                pieces.push(vec![Piece::Id(id)]);
            }
        }
        for (name, v) in fields {
            let several = matches!(&v.v, MV::Seq(x) if x.len() > 1) || matches!(&v.v, MV::Map(x) if x.len() > 1);
            let broad = !v.children().is_empty() && self.s.chance(2, 3) && !(several && self.o.single);
            pieces.push(match &v.v {
                MV::Cntr(_) if broad => vec![Piece::Nested(name, v)],
                MV::Seq(xs) if broad => xs.iter().map(|x| Piece::Entry(name, v.id.as_deref(), None, x)).collect(),
                MV::Map(xs) if broad => xs.iter().map(|(k, x)| Piece::Entry(name, v.id.as_deref(), Some(k), x)).collect(),
                _ => vec![Piece::Direct(name, v)],
            });
        }
        // in any order; the pieces of one field keep theirs
        let mut order: Vec<Piece> = Vec::new();
        let shuffle = self.o.loose && self.s.flag();
        while !pieces.is_empty() {
            let i = if shuffle { self.s.below(pieces.len()) } else { 0 };
            order.push(pieces[i].remove(0));
            if pieces[i].is_empty() {
                pieces.remove(i);
            }
        }
        for p in order {
            self.blank();
            self.indent(ind);
            match p {
                Piece::Id(id) => {
                    self.tok(K::Id, format!(":{}", id));
                    self.end_row();
                }
                Piece::Direct(name, v) => {
                    self.field(name);
                    self.sp(" ");
                    self.tok(K::Eq, "=");
                    self.sp(" ");
                    self.value(v, false, ind);
                    self.end_row();
                }
                Piece::Nested(name, v) => {
                    let in_header = v.id.is_some() && self.s.flag();
                    self.header(name, if in_header { v.id.as_deref() } else { None }, 1);
                    self.rows(v, ind + 1, !in_header);
                }
                Piece::Entry(name, id, key, v) => {
                    self.header(name, id, 2);
                    let rows = matches!(v.v, MV::Cntr(ref f) if !f.is_empty()) && self.s.chance(2, 3);
                    if let Some(k) = key {
                        self.entry_indent(k, ind);
                        self.value(k, false, ind + 1);
                        self.sp("");
                        self.tok(K::Colon, ":");
                        if rows {
                            self.end_row();
                            self.rows(v, ind + 1, true);
                        } else {
                            if self.s.chance(1, 4) {
                                self.end_row();
                                self.entry_indent(v, ind);
                            } else {
                                self.sp(" ");
                            }
                            self.value(v, false, ind + 1);
                            self.end_row();
                        }
                    } else if rows {
                        self.rows(v, ind + 1, true);
                    } else {
                        self.entry_indent(v, ind);
                        self.value(v, false, ind + 1);
                        self.end_row();
                    }
                }
            }
        }
    }

    /// A sequence of one literal looks like a header if it is indented like one.
    fn entry_indent(&mut self, v: &M, ind: usize) {
        let like_header = matches!(&v.v, MV::Seq(x) if x.len() == 1) && v.id.is_none();
        let n = if like_header { ind } else { ind + self.s.below(2) };
        self.indent(n);
    }

    fn end_row(&mut self) {
        self.sp("");
        let nl = self.nl();
        self.ws(nl);
    }
}

enum Piece<'m> {
    Id(&'m str),
    Direct(&'m str, &'m M),
    Nested(&'m str, &'m M),
    Entry(&'m str, Option<&'m str>, Option<&'m M>, &'m M),
}

/// Writes a value in one of the ways the notation allows.
pub fn write(s: &mut Src, m: &M, o: Spell) -> Vec<Tok> {
    let mut w = W { s, o, out: Vec::new(), inl: false };
    let rows = o.verbose && matches!(&m.v, MV::Cntr(v) if !v.is_empty());
    if rows {
        if w.o.loose && w.s.chance(1, 4) {
            let nl = w.nl();
            w.ws(nl);
        }
        w.rows(m, 0, true);
        if w.s.chance(1, 4) {
            // the last line break can be left out, unless it is needed
            if let Some(t) = w.out.last_mut() {
                if t.k == K::Ws && t.t == w.o.nl() {
                    t.t.clear();
                }
            }
        }
    } else {
        w.sp("");
        w.value(m, false, 0);
        if w.o.loose && w.s.chance(1, 3) {
            let t = w.s.pick(&[" ", "\n", "\r\n", "\n\n  ", "\t"]).to_string();
            w.ws(t);
        }
    }
    w.out
}

impl Spell {
    fn nl(&self) -> &'static str {
        if self.crlf {
            "\r\n"
        } else {
            "\n"
        }
    }
}

/// basE91 as published by Joachim Henke.
pub fn base91(data: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!#$%&()*+,./:;<=>?@[]^_`{|}~\"";
    let (mut q, mut n) = (0u32, 0u32);
    let mut out = String::new();
    let at = |v: u32| T[v as usize] as char;
    for b in data {
        q |= (*b as u32) << n;
        n += 8;
        if n > 13 {
            let mut v = q & 8191;
            if v > 88 {
                q >>= 13;
                n -= 13;
            } else {
                v = q & 16383;
                q >>= 14;
                n -= 14;
            }
            out.push(at(v % 91));
            out.push(at(v / 91));
        }
    }
    if n > 0 {
        out.push(at(q % 91));
        if n > 7 || q > 90 {
            out.push(at(q / 91));
        }
    }
    out
}

/// Shuffles fields and entries, so that they are written in any order.
pub fn shuffle(s: &mut Src, m: &mut M) {
    fn mix<T>(s: &mut Src, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = s.below(i + 1);
            v.swap(i, i - j);
        }
    }
    match &mut m.v {
        MV::Tuple(v) | MV::Seq(v) => v.iter_mut().for_each(|x| shuffle(s, x)),
        MV::Cntr(v) => {
            mix(s, v);
            v.iter_mut().for_each(|x| shuffle(s, &mut x.1));
        }
        MV::Map(v) => {
            mix(s, v);
            v.iter_mut().for_each(|(k, x)| {
                shuffle(s, k);
                shuffle(s, x);
            });
        }
        _ => (),
    }
}
