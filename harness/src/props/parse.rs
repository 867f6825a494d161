//! P08, P09, P10, P11, P12: reading text.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::refw::{self, Spell, Tok, K};
use kserd::parse::{parse, Error};

// ------------------------------------------------------------------ texts

const SOUP: &[&str] = &[
    "1", "a", "=", ",", ":", "(", ")", "[", "]", "{", "}", "[[", "]]", "\n", "    ", " ", "\"x\"", "true", "()", "<a>", "<a> ", ":id",
    "\n[a]\n", "\n[[a]]\n", "\n    ", "str'", "'", "\"", "b91'", "-1.5", "inf", "NaN", "a = ", "a: ", "\r\n", "\t", "false", "str", "e",
    "<", ">", "-", "_", "[a:id]", "[[a:id]]", "🙂", "é", "\r", "=1", "(a=1)", "[1, 2]", "{1: 2}", "id (", "\n\n", "#", "1e5", ".", "b",
];

fn soup(s: &mut Src) -> String {
    let n = match s.below(3) {
        0 => s.below(6),
        1 => s.below(20),
        _ => s.below(60),
    };
    (0..n).map(|_| *s.pick(SOUP)).collect()
}

fn mutate_chars(s: &mut Src, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    for _ in 0..s.range(1, 4) {
        let n = v.len();
        match s.below(6) {
            0 if n > 0 => {
                let i = s.below(n);
                v.remove(i);
            }
            1 => {
                let i = s.below(n + 1);
                v.insert(i, char_any(s));
            }
            2 => {
                let i = s.below(n + 1);
                let x = *s.pick(SOUP);
                v.splice(i..i, x.chars());
            }
            3 if n > 0 => {
                let i = s.below(n);
                let j = (i + 1 + s.below(12)).min(n);
                v.drain(i..j);
            }
            4 if n > 0 => {
                let i = s.below(n);
                let j = (i + 1 + s.below(24)).min(n);
                let c: Vec<char> = v[i..j].to_vec();
                let k = s.below(n + 1);
                v.splice(k..k, c);
            }
            _ if n > 1 => {
                let (i, j) = (s.below(n), s.below(n));
                v.swap(i, j);
            }
            _ => (),
        }
    }
    v.into_iter().collect()
}

fn wordy(c: Option<char>) -> bool {
    matches!(c, Some(c) if c.is_ascii_alphanumeric() || "-_.".contains(c))
}

/// Joins tokens, keeping apart those that would grow together.
fn join(toks: &[Tok]) -> String {
    let mut out = String::new();
    for t in toks {
        if wordy(out.chars().last()) && wordy(t.t.chars().next()) {
            out.push(' ');
        }
        out.push_str(&t.t);
    }
    out
}

fn mutate_tokens(s: &mut Src, toks: &mut Vec<Tok>, n: usize) {
    for _ in 0..n {
        let solid: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].k != K::Ws).collect();
        let i = s.below(solid.len());
        match s.below(4) {
            0 => {
                toks.remove(solid[i]);
            }
            1 if i + 1 < solid.len() => toks.swap(solid[i], solid[i + 1]),
            2 => {
                let t = &mut toks[solid[i]];
                if matches!(t.k, K::Open | K::Close | K::Comma | K::Colon | K::Head) {
                    t.t = s.pick(&[",", ":", "(", ")", "[", "]", "{", "}"]).to_string();
                }
            }
            _ => {
                let ws: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].k == K::Ws).collect();
                if !ws.is_empty() {
                    let t = &mut toks[*s.pick(&ws)];
                    t.t = s.pick(&[" ", "\n", "\n    ", "\n        ", "\n\n", "\t"]).to_string();
                }
            }
        }
        if toks.iter().all(|t| t.k == K::Ws) {
            return;
        }
    }
}

fn document(s: &mut Src, o: Opt) -> Vec<Tok> {
    let mut m = value(s, o);
    refw::shuffle(s, &mut m);
    let sp = refw::spell(s);
    refw::write(s, &m, sp)
}

/// Any text, with a bias towards almost valid documents.
fn any_text(s: &mut Src) -> (String, &'static str) {
    let o = Opt { ids: 3, max_nodes: 14 };
    match s.weighted(&[2, 3, 2, 5, 4, 2, 1]) {
        0 => {
            let n = s.below(30);
            ((0..n).map(|_| char_any(s)).collect(), "characters")
        }
        1 => (soup(s), "soup"),
        2 => (refw::text(&document(s, o)), "document"),
        3 => {
            let t = refw::text(&document(s, o));
            (mutate_chars(s, &t), "document, characters changed")
        }
        4 => {
            let mut t = document(s, o);
            let n = s.range(1, 3);
            mutate_tokens(s, &mut t, n);
            (join(&t), "document, tokens changed")
        }
        5 => {
            let a = refw::text(&document(s, o));
            let b = refw::text(&document(s, o));
            let a: Vec<char> = a.chars().collect();
            let b: Vec<char> = b.chars().collect();
            let i = s.below(a.len() + 1);
            let j = s.below(b.len() + 1);
            (a[..i].iter().chain(&b[j..]).collect(), "two documents spliced")
        }
        _ => (string(s), "string"),
    }
}

// ------------------------------------------------------------------ P08

fn check_error(text: &str, e: &Error) -> Result<(), Fail> {
    let n = e.len();
    ensure!(n > 0 && !e.is_empty(), "error without traces", "text {:?}", text);
    let all: Vec<_> = e.iter().collect();
    ensure!(all.len() == n, "iteration length", "text {:?}: {} of {}", text, all.len(), n);
    ensure!(e.get(n).is_none() && e.get(usize::MAX).is_none(), "trace past the end", "text {:?}", text);
    let lines: Vec<&str> = text.lines().collect();
    let mut rendered = Vec::new();
    for (i, t) in all.iter().enumerate() {
        let g = e.get(i);
        ensure!(g.as_ref() == Some(t), "indexed and iterated traces differ", "text {:?} #{}: {:?} {:?}", text, i, g, t);
        let shown = t.to_string();
        rendered.push(format!("#{}: {}", i, shown));
        ensure!(!t.msg.is_empty(), "empty message", "text {:?} #{}", text, i);
        if text.is_empty() {
            ensure!(t.line == 0 && t.col == 0 && t.linestr.is_empty(), "trace of empty input", "{:?}", t);
            continue;
        }
        ensure!(t.line >= 1 && t.line <= lines.len(), "no such line", "text {:?} #{}: {:?}", text, i, t);
        let line = lines[t.line - 1];
        ensure!(t.linestr == line, "wrong line text", "text {:?} #{}: {:?}", text, i, t);
        // columns count bytes; the line ending belongs to the line
        let start = line.as_ptr() as usize - text.as_ptr() as usize;
        let rest = &text[start + line.len()..];
        let ending = if rest.starts_with("\r\n") {
            2
        } else {
            rest.starts_with('\n') as usize
        };
        ensure!(t.col >= 1 && t.col - 1 <= line.len() + ending, "no such column", "text {:?} #{}: {:?}", text, i, t);
        if t.col - 1 <= line.len() {
            ensure!(line.is_char_boundary(t.col - 1), "column inside a character", "text {:?} #{}: {:?}", text, i, t);
        }
        // the rendered form: position, message, line, marker under the column
        let exp = format!("at {}:{} :: {}\n{}\n{}^", t.line, t.col, t.msg, t.linestr, " ".repeat(t.col - 1));
        ensure!(shown == exp, "rendered trace", "text {:?} #{}: {:?}", text, i, shown);
        if let Some(rest) = t.msg.strip_prefix("expected '") {
            let mut it = rest.split("', found '");
            if let (Some(_), Some(f)) = (it.next(), it.next()) {
                let there = line.get(t.col - 1..).and_then(|x| x.chars().next());
                ensure!(there == f.chars().next(), "message names another character", "text {:?} #{}: {:?}", text, i, t);
            }
        }
    }
    let bt = e.backtrace();
    ensure!(bt == rendered.join("\n\n"), "backtrace", "text {:?}: {:?}", text, bt);
    ensure!(format!("{:?}", e) == bt, "debug form", "text {:?}", text);
    Ok(())
}

fn p08_any(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let (text, kind) = any_text(s);
    ctx.label(kind);
    let text = &text[..];
    let r = match guarded(|| parse(text)) {
        Ok(r) => r,
        Err(p) => return fail("panic", format!("text {:?}\n{}", text, p)),
    };
    ctx.sample(|| format!("{} {:?}", if r.is_ok() { "accepted" } else { "refused" }, text));
    ctx.label_if(r.is_ok(), "accepted");
    match r {
        Ok(_) => {
            if text.len() > 2 {
                ctx.nontrivial(hash64(text.as_bytes()));
            }
        }
        Err(e) => {
            match guarded(|| check_error(text, &e)) {
                Ok(r) => r?,
                Err(p) => return fail("panic in the error", format!("text {:?}\n{}", text, p)),
            }
            ctx.label_if(e.len() > 3, "more than 3 traces");
            if text.len() > 2 {
                ctx.nontrivial(hash64(text.as_bytes()));
            }
            // the same text gives the same error
            ensure!(parse(text).as_ref() == Err(&e), "errors differ", "text {:?}", text);
        }
    }
    Ok(())
}

/// Nesting deeper than the stack allows.
fn p08_deep() -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().ok()?;
    let st = std::process::Command::new(exe)
        .args(["deep", "200000"])
        .stderr(std::process::Stdio::null())
        .status()
        .ok()?;
    st.signal().map(|s| format!("parsing 200000 opening parentheses ends the process with signal {}", s))
}

// ------------------------------------------------------------------ P09

/// What surrounds a nested value, per notation: text before, text after.
const NEST: &[(&str, &str)] = &[
    ("(", ")"),
    ("[", "]"),
    ("{", ": 1}"),
    ("{1: ", "}"),
    ("(a = ", ")"),
    ("(a = 1, b = ", ")"),
    ("id (", ")"),
    ("id [", "]"),
    ("id {", ": 1}"),
    ("[1, ", "]"),
    ("[", ", 1]"),
    ("(1, ", ", 2)"),
    ("(\n", "\n)"),
    ("[\n", "\n]"),
    ("{\n", ": 1\n}"),
    ("{\n1: ", "\n}"),
    ("(\na = ", "\n)"),
    ("[\n1\n", "\n]"),
    ("id (\n", "\n)"),
    ("{", ": 1, 2: 3}"),
    ("{[", "]: 1}"),
    ("{(", "): ()}"),
    ("((", "), 1)"),
    ("[[", "]]"),
    ("[\n[\n", "\n]\n]"),
    ("{\n1: 2\n", ": 3\n}"),
];

#[derive(Clone, Copy)]
enum Fam {
    Delim,
    Verbose,
    Both,
    Wide,
}

struct Family {
    fam: Fam,
    units: Vec<usize>,
    vunits: Vec<usize>,
    core: &'static str,
    close: usize,
    lead: &'static str,
    sep: &'static str,
}

impl Family {
    fn gen(s: &mut Src) -> Family {
        let fam = [Fam::Delim, Fam::Verbose, Fam::Both, Fam::Wide][s.weighted(&[5, 3, 3, 2])];
        let k = s.range(1, 3);
        let units = (0..k).map(|_| s.below(NEST.len())).collect();
        let k = s.range(1, 3);
        let vunits = (0..k).map(|_| s.below(7)).collect();
        Family {
            fam,
            units,
            vunits,
            core: s.pick(&["1", "", "x", "()", "\"", ",", "a = 1", "1: 2", "true", "]", "[a]", "str'", "inf", "(a = "]),
            close: s.below(5),
            lead: s.pick(&["", "", "\n", "[[x]]\n", "[[x]]\n    ", "x = ", "[x]\n    ", ":id\n", "[[x]]\n    1: ", "[[x]]\n("]),
            sep: s.pick(&[", ", ",", "\n", " "]),
        }
    }

    fn delim(&self, d: usize) -> String {
        let mut t = String::new();
        for i in 0..d {
            t.push_str(NEST[self.units[i % self.units.len()]].0);
        }
        t.push_str(self.core);
        // closed fully, not at all, up to one, half, or with the wrong bracket
        let upto = match self.close {
            0 => 0,
            1 => d,
            2 => 1,
            3 => d / 2,
            _ => {
                for i in (0..d).rev() {
                    t.push_str(NEST[self.units[i % self.units.len()]].1);
                }
                t.push('!');
                return t;
            }
        };
        for i in (upto..d).rev() {
            t.push_str(NEST[self.units[i % self.units.len()]].1);
        }
        t
    }

    fn verbose(&self, d: usize, end: &str) -> String {
        let mut t = String::new();
        for i in 0..d {
            let ind = "    ".repeat(i);
            t.push_str(&ind);
            t.push_str(match self.vunits[i % self.vunits.len()] {
                0 => "[a]\n",
                1 => "[[a]]\n",
                2 => "[[a:id]]\n",
                3 => "x = 1\n",
                4 => "[[a]]\n",
                5 => "[a:id]\n",
                _ => "[[a]]\n",
            });
            if self.vunits[i % self.vunits.len()] == 3 {
                t.push_str(&ind);
                t.push_str("[a]\n");
            }
            if self.vunits[i % self.vunits.len()] == 4 {
                t.push_str(&ind);
                t.push_str("    1:\n");
            }
            if self.vunits[i % self.vunits.len()] == 6 {
                t.push_str(&ind);
                t.push_str("    {(1, 2): [3]}:\n");
            }
        }
        t.push_str(&"    ".repeat(d));
        t.push_str(end);
        t
    }

    fn text(&self, d: usize) -> String {
        match self.fam {
            Fam::Delim => format!("{}{}", self.lead, self.delim(d)),
            Fam::Verbose => self.verbose(d, self.core),
            Fam::Both => self.verbose(d, &self.delim(d)),
            Fam::Wide => {
                let (a, b) = NEST[self.units[0]];
                let item = format!("{}{}{}", a, self.core, b);
                let (a, b) = NEST[*self.units.last().unwrap()];
                let items: Vec<&str> = (0..d * 4).map(|_| &item[..]).collect();
                format!("{}{}{}{}", self.lead, a, items.join(self.sep), if self.close == 1 { "" } else { b })
            }
        }
    }
}

/// Allocations made by parsing the text, given up when they pass the limit.
fn work(text: &str, limit: u64) -> Option<u64> {
    allocations(|t| drop(parse(t)), text, limit)
}

fn p09_growth(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let f = Family::gen(s);
    // multiples of every period, so that the texts are alike
    let sizes = [6usize, 12, 18, 24, 36, 48];
    let mut seen: Vec<(usize, usize, u64)> = Vec::new();
    for d in sizes {
        let t = f.text(d);
        let earlier = seen.iter().map(|(pd, _, pw)| (d as f64 / *pd as f64).powi(5) * (*pw as f64 + 40.0));
        let limit = earlier.reduce(f64::max).map(|x| (1.2 * x) as u64).unwrap_or(1_000_000);
        match work(&t, limit) {
            Some(w) => seen.push((d, t.len(), w)),
            None => {
                return fail(
                    "work explodes",
                    format!("text of size 6:\n{}\n(size, length, allocations): {:?}, then more than {} for size {}", f.text(6), seen, limit, d),
                )
            }
        }
    }
    let last = f.text(6);
    ctx.label(match f.fam {
        Fam::Delim => "delimited",
        Fam::Verbose => "indented",
        Fam::Both => "indented and delimited",
        Fam::Wide => "wide",
    });
    ctx.label_if(parse(&last).is_ok(), "accepted");
    if seen.last().unwrap().2 > 50 {
        ctx.nontrivial(hash64(last.as_bytes()));
    }
    ctx.sample(|| format!("{:?} for {:?}", seen, f.text(6)));
    Ok(())
}

/// Random documents: the work is bounded by a fixed multiple of length times depth squared.
fn p09_documents(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let (text, kind) = any_text(s);
    ctx.label(kind);
    let n = text.len() as u64 + 4;
    let limit = 60 * n * 4 + n * n;
    let Some(w) = work(&text, limit) else {
        return fail("too much work", format!("more than {} allocations for {} bytes of text:\n{}", limit, n, text));
    };
    if n > 20 {
        ctx.nontrivial(hash64(text.as_bytes()));
    }
    ctx.sample(|| format!("{} allocations for {:?}", w, text));
    Ok(())
}

// ------------------------------------------------------------------ P10

fn p10(s: &mut Src, ctx: &mut Ctx, o: Opt, verbose: bool) -> Result<(), Fail> {
    let m = value(s, o);
    let mut m = M::read(&m.to_kserd());
    if verbose {
        // a container at the root
        if !matches!(m.v, MV::Cntr(ref v) if !v.is_empty()) {
            m = M::new(MV::Cntr(vec![(name(s), m)]));
        }
    }
    let mut w = m.clone();
    refw::shuffle(s, &mut w);
    let mut sp = refw::spell(s);
    sp.verbose |= verbose;
    let toks = refw::write(s, &w, sp);
    let text = refw::text(&toks);
    ctx.sample(|| format!("{:?}", text));
    ctx.label_if(text.contains('\n'), "several lines");
    ctx.label_if(toks.iter().any(|t| t.k == K::Head), "has headers");
    ctx.label_if(sp.crlf && text.contains("\r\n"), "CRLF");
    ctx.label_if(text.contains('\t'), "tabs");
    match parse(&text) {
        Err(e) => fail("documented notation refused", format!("value {}\ntext:\n{}\n{:?}\n{}", m.show(), text, text, e.backtrace())),
        Ok(k) => {
            if let Some(d) = diff(&m, &M::read(&k), TEXT) {
                return fail("read as something else", format!("value {}\ntext:\n{}\n{:?}\n{}", m.show(), text, text, d));
            }
            if !m.children().is_empty() {
                ctx.nontrivial(hash64(text.as_bytes()));
            }
            Ok(())
        }
    }
}

fn p10_any(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    p10(s, ctx, Opt { ids: 3, max_nodes: 20 }, false)
}

fn p10_verbose(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    p10(s, ctx, Opt { ids: 4, max_nodes: 24 }, true)
}

/// Two spellings of one value read as equal values.
fn p10_scalars(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let m = prim(s, Opt { ids: 4, max_nodes: 1 });
    let wrap = s.below(4);
    let m = match wrap {
        0 => m,
        1 => M::new(MV::Seq(vec![m, M::new(MV::Bool(true))])),
        2 => M::new(MV::Cntr(vec![("a".into(), m)])),
        _ => M::new(MV::Map(vec![(m, M::new(MV::Unit))])),
    };
    let sp = refw::spell(s);
    let text = refw::text(&refw::write(s, &m, sp));
    ctx.nontrivial(hash64(text.as_bytes()));
    ctx.sample(|| format!("{:?}", text));
    match parse(&text) {
        Err(e) => fail("documented notation refused", format!("value {}\ntext {:?}\n{}", m.show(), text, e.backtrace())),
        Ok(k) => match diff(&m, &M::read(&k), TEXT) {
            Some(d) => fail("read as something else", format!("value {}\ntext {:?}\n{}", m.show(), text, d)),
            None => Ok(()),
        },
    }
}

// ------------------------------------------------------------------ P11

/// Renames what could be taken for a literal.
fn tame_name(n: &mut String) {
    if ["str", "b91", "true", "false", "inf", "NaN", "nan"].iter().any(|p| n.starts_with(p)) {
        *n = format!("k_{}", n);
    }
}

fn tame(m: &mut M) {
    if let Some(id) = &mut m.id {
        tame_name(id);
    }
    match &mut m.v {
        MV::Tuple(v) | MV::Seq(v) => v.iter_mut().for_each(tame),
        MV::Cntr(v) => {
            let old = std::mem::take(v);
            for (mut k, mut x) in old {
                tame_name(&mut k);
                tame(&mut x);
                push_field(v, k, x);
            }
        }
        MV::Map(v) => v.iter_mut().for_each(|(k, x)| {
            tame(k);
            tame(x);
        }),
        _ => (),
    }
}

/// A character that has no meaning between tokens and is not whitespace of the notation.
fn stray(s: &mut Src) -> char {
    const MARKS: &[char] = &[
        '\0', '\u{1}', '\u{b}', '\u{c}', '\u{1a}', '\u{7f}', '\u{85}', '\u{a0}', '\u{feff}', '\u{200b}', '\u{2003}', '\u{2028}', '\u{3000}', ';', '$', '@', '?', '%', '^', '&', '|', '~',
        '`', '!', '#', '*', '+', '/', '\\',
    ];
    match s.below(8) {
        0 => {
            let c = char_any(s);
            if c.is_ascii() {
                ';'
            } else {
                c
            }
        }
        _ => *s.pick(MARKS),
    }
}

fn p11_broken(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let mut m = value(s, Opt { ids: 3, max_nodes: 14 });
    if m.children().is_empty() {
        m = M::new(MV::Tuple(vec![m]));
    }
    tame(&mut m);
    refw::shuffle(s, &mut m);
    let sp = refw::spell(s);
    let toks = refw::write(s, &m, sp);
    let indented = toks.iter().any(|t| t.k == K::Head) || (sp.verbose && matches!(m.v, MV::Cntr(_)));
    let orig = refw::text(&toks);
    let at = |f: &dyn Fn(usize, &Tok) -> bool| -> Vec<usize> { (0..toks.len()).filter(|i| f(*i, &toks[*i])).collect() };
    let next = |i: usize| toks[i + 1..].iter().find(|t| t.k != K::Ws).map(|t| t.k);
    let prev = |i: usize| toks[..i].iter().rev().find(|t| t.k != K::Ws).map(|t| t.k);
    let mut t2 = toks.clone();
    let plain = |k: Option<K>| matches!(k, Some(K::Num | K::Str | K::Bytes));

    let (what, text): (&'static str, String) = match s.below(10) {
        0 => {
            let nl = !(matches!(m.v, MV::Seq(_)) && m.id.is_none());
            let sep = if indented || (nl && s.flag()) { "\n" } else { " " };
            let extra = *s.pick(&[")", "]", "}", ",", "1", "\"x\"", "true", "(1)", "str'x'", "<a>", "<a> 1", "()", "x", "b91''", "-"]);
            // a sequence of one literal in front of a line break could be a header
            let base = if nl { &orig[..] } else { orig.trim_end() };
            if s.flag() {
                let c = stray(s);
                let close = !indented && base.trim_end().ends_with(|c| ")]}".contains(c));
                if close && s.flag() {
                    ("character after the value", format!("{}{}", base.trim_end(), c))
                } else {
                    ("character after the value", format!("{}{}{}", base, sep, c))
                }
            } else {
                ("text after the value", format!("{}{}{}", base, sep, extra))
            }
        }
        1 => {
            if indented {
                return Ok(());
            }
            let open = toks.iter().position(|t| t.k == K::Open).unwrap();
            let lo = refw::text(&toks[..=open]).len();
            let close = toks.iter().rposition(|t| t.k == K::Close).unwrap();
            let hi = refw::text(&toks[..close]).len();
            let cuts: Vec<usize> = (lo..=hi).filter(|i| orig.is_char_boundary(*i)).collect();
            let c = *s.pick(&cuts);
            ("cut short", orig[..c].to_string())
        }
        2 => {
            let v = at(&|_, t| matches!(t.k, K::Open | K::Close | K::Head) && t.t != ":");
            if v.is_empty() {
                return Ok(());
            }
            t2[*s.pick(&v)].t = " ".into();
            ("bracket removed", refw::text(&t2))
        }
        3 => {
            let v = at(&|_, t| t.k == K::Close);
            if v.is_empty() {
                return Ok(());
            }
            let i = *s.pick(&v);
            let others: Vec<&str> = [")", "]", "}"].into_iter().filter(|c| *c != t2[i].t).collect();
            t2[i].t = s.pick(&others).to_string();
            ("wrong closing bracket", refw::text(&t2))
        }
        4 => {
            let v = at(&|i, t| {
                matches!(t.k, K::Str | K::Bytes) && {
                    let d = t.t.chars().last().unwrap();
                    !toks[i + 1..].iter().any(|x| x.t.contains(d))
                }
            });
            if v.is_empty() {
                return Ok(());
            }
            let i = *s.pick(&v);
            t2[i].t.pop();
            ("unterminated string", refw::text(&t2))
        }
        5 => {
            let v = at(&|i, t| t.k == K::Comma && prev(i) != Some(K::Word));
            if v.is_empty() {
                return Ok(());
            }
            t2[*s.pick(&v)].t = " ".into();
            ("comma removed", refw::text(&t2))
        }
        6 => {
            let v = at(&|i, t| matches!(t.k, K::Eq | K::Colon) && plain(next(i)));
            if v.is_empty() {
                return Ok(());
            }
            t2[*s.pick(&v)].t = " ".into();
            ("assignment removed", refw::text(&t2))
        }
        7 => {
            // a separator too many: after an opener, before a closer, or doubled
            let v = at(&|_, t| matches!(t.k, K::Comma | K::Close) || (t.k == K::Open && t.inl));
            if v.is_empty() {
                return Ok(());
            }
            let i = *s.pick(&v);
            t2[i].t = match t2[i].k {
                K::Close => format!(", {}", t2[i].t),
                _ => format!("{} ,", t2[i].t),
            };
            ("stray comma", refw::text(&t2))
        }
        8 => {
            // between any two tokens
            let i = s.below(toks.len() + 1);
            let (a, b) = (refw::text(&toks[..i]), refw::text(&toks[i..]));
            ("stray character", format!("{}{}{}", a, stray(s), b))
        }
        _ => {
            // a value too many: two values where one belongs
            let v = at(&|i, t| matches!(t.k, K::Str | K::Num) && t.inl && prev(i) != Some(K::Word));
            if v.is_empty() {
                return Ok(());
            }
            let i = *s.pick(&v);
            t2[i].t = format!("{} {}", t2[i].t, s.pick(&["1", "\"x\"", "()", "true", "x"]));
            ("two values in a row", refw::text(&t2))
        }
    };
    ctx.label(what);
    ctx.label_if(indented, "indented");
    ctx.sample(|| format!("{}: {:?}", what, text));
    ctx.nontrivial(hash64(text.as_bytes()));
    if let Ok(k) = parse(&text) {
        return fail(
            "malformed text accepted",
            format!("{}\ntext:\n{}\n{:?}\nread as {}\nfrom valid text\n{}", what, text, text, M::read(&k).show(), orig),
        );
    }
    Ok(())
}

/// Makes every scalar and every name of the value unlike any other.
fn unique(s: &mut Src, m: &mut M, n: &mut u64, plain_keys: bool) {
    *n += 1;
    if m.id.is_some() {
        m.id = Some(format!("t{}", n));
    }
    match &mut m.v {
        MV::Num(x) => {
            *x = match s.below(3) {
                0 => N::U(1000 + *n as u128),
                1 => N::I(-1000 - *n as i128),
                _ => N::F(*n as f64 + 0.5),
            }
        }
        MV::Str(x) => {
            let t: String = x.chars().take(12).collect();
            *x = format!("{}{}", n, t);
        }
        MV::Barr(x) => {
            x.truncate(8);
            x.extend_from_slice(&n.to_le_bytes()[..3]);
        }
        MV::Tuple(v) | MV::Seq(v) => v.iter_mut().for_each(|x| unique(s, x, n, plain_keys)),
        MV::Cntr(v) => v.iter_mut().for_each(|x| {
            *n += 1;
            x.0 = format!("k{}", n);
            unique(s, &mut x.1, n, plain_keys);
        }),
        MV::Map(v) => {
            v.iter_mut().for_each(|(k, x)| {
                let scalar = |m: &M| matches!(m.v, MV::Num(_) | MV::Str(_) | MV::Barr(_));
                if (plain_keys && !scalar(k)) || !k.any(&mut |x| scalar(x)) {
                    k.v = MV::Str("key".into());
                }
                unique(s, k, n, plain_keys);
                unique(s, x, n, plain_keys);
            });
        }
        _ => (),
    }
}

fn scalars(m: &M, out: &mut Vec<M>, names: &mut Vec<String>) {
    if let Some(id) = &m.id {
        names.push(id.clone());
    }
    match &m.v {
        MV::Num(_) | MV::Str(_) | MV::Barr(_) => out.push(M::new(m.v.clone())),
        MV::Cntr(v) => names.extend(v.iter().map(|x| x.0.clone())),
        _ => (),
    }
    for c in m.children() {
        scalars(c, out, names);
    }
}

/// Texts with a few tokens changed: whatever is still accepted accounts for all that is written.
fn p11_account(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let mut m = value(s, Opt { ids: 3, max_nodes: 14 });
    let k = s.range(0, 3);
    let mut n = 0;
    // several changes could make composite keys alike
    unique(s, &mut m, &mut n, k > 1);
    refw::shuffle(s, &mut m);
    let sp = Spell { single: true, ..refw::spell(s) };
    let mut toks = refw::write(s, &m, sp);
    mutate_tokens(s, &mut toks, k);
    let text = join(&toks);
    let Ok(v) = parse(&text) else {
        ctx.label("refused");
        return Ok(());
    };
    ctx.label("accepted");
    ctx.label_if(k > 0, "accepted although changed");
    ctx.sample(|| format!("{:?}", text));
    let v = M::read(&v);
    let mut got = Vec::new();
    let mut names = Vec::new();
    scalars(&v, &mut got, &mut names);
    let show = |what: &str| format!("{}\ntext:\n{}\n{:?}\nread as {}", what, text, text, v.show());
    let mut before = String::new();
    for t in &toks {
        // a name after a colon is an identity, and the last of several identities counts
        let identity = before.trim_end_matches([' ', '\t']).ends_with(':');
        before.push_str(&t.t);
        match (t.k, &t.m) {
            (K::Num | K::Str | K::Bytes, Some(x)) => match got.iter().position(|g| same(g, x, TEXT)) {
                Some(i) => {
                    got.remove(i);
                }
                // the notation reads digits as a field name as well
                None if t.k == K::Num && names.contains(&t.t) => (),
                None => return fail("content dropped", show(&t.t)),
            },
            (K::Field, _) if !identity => {
                ensure!(names.contains(&t.t), "name dropped", "{}", show(&t.t));
            }
            _ => (),
        }
    }
    ensure!(got.is_empty(), "content invented", "{}", show(&got[0].show()));
    if toks.len() > 4 {
        ctx.nontrivial(hash64(text.as_bytes()));
    }
    Ok(())
}

// ------------------------------------------------------------------ P12

fn ordinary(m: &M) -> bool {
    !m.any(&mut |x| {
        let scalar = matches!(x.v, MV::Bool(_) | MV::Num(_) | MV::Str(_) | MV::Barr(_));
        let id = !scalar && matches!(x.id.as_deref(), Some("true" | "false"));
        let names = match &x.v {
            MV::Cntr(v) => v.iter().any(|(k, _)| !k.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')),
            _ => false,
        };
        id || names
    })
}

fn p12_again(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let (text, kind) = any_text(s);
    let Ok(k) = parse(&text) else {
        ctx.label("refused");
        return Ok(());
    };
    ctx.label("accepted");
    ctx.label(kind);
    let m = M::read(&k);
    let again = |w: Option<u16>| -> Result<(), Fail> {
        let out = match guarded(|| k.as_str_with_config(all_ids(w))) {
            Ok(t) => t,
            Err(p) => return fail("formatting fails", format!("text {:?}\nread as {}\n{}", text, m.show(), p)),
        };
        if !ordinary(&m) {
            return Ok(());
        }
        match parse(&out) {
            Err(e) => fail(
                "written text refused",
                format!("text {:?}\nread as {}\nwritten with width {:?}:\n{}\n{}", text, m.show(), w, out, e.backtrace()),
            ),
            Ok(k2) => match diff(&m, &M::read(&k2), TEXT) {
                Some(d) => fail("value changed", format!("text {:?}\nread as {}\nwritten with width {:?}:\n{}\n{}", text, m.show(), w, out, d)),
                None => Ok(()),
            },
        }
    };
    ctx.label_if(!ordinary(&m), "unusual names");
    again(None)?;
    again(Some(0))?;
    again(Some(s.below(80) as u16))?;
    if !m.children().is_empty() {
        ctx.nontrivial(m.fp());
    }
    ctx.sample(|| format!("{:?} -> {}", text, m.show()));
    Ok(())
}

crate::large! {
    p08_large = p08_any, 4200;
    p09_large = p09_documents, 4200;
    p10_large = p10_any, 4200;
    p11_large = p11_broken, 1300;
    p11_large_account = p11_account, 1300;
    p12_large = p12_again, 4200;
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P08",
            rule: "text of more than two bytes; distinct by text",
            assumptions: &["texts of up to a few hundred characters, nested to a bounded depth", "columns count bytes, line endings included"],
            subs: vec![
                Sub { name: "texts", f: p08_any, quick: 4_500_000, thorough: 80_000_000 },
                Sub { name: "large", f: p08_large, quick: 8_000, thorough: 400_000 },
            ],
            known: vec![("deep-nesting", p08_deep)],
        },
        Prop {
            id: "P09",
            rule: "family of texts with more than 50 allocations at the largest size / text of more than 20 bytes; distinct by text",
            assumptions: &["work is measured in allocations made while parsing", "nesting up to 48 levels, up to 200 elements"],
            subs: vec![
                Sub { name: "growth", f: p09_growth, quick: 80_000, thorough: 1_000_000 },
                Sub { name: "documents", f: p09_documents, quick: 2_000_000, thorough: 20_000_000 },
                Sub { name: "large", f: p09_large, quick: 8_000, thorough: 400_000 },
            ],
            known: vec![],
        },
        Prop {
            id: "P10",
            rule: "value has nested values (scalars: every case); distinct by text",
            assumptions: &[
                "string delimiters are characters that mean nothing else right after a name",
                "a sequence of one literal under a header is not indented like a header",
            ],
            subs: vec![
                Sub { name: "any", f: p10_any, quick: 1_200_000, thorough: 40_000_000 },
                Sub { name: "indented", f: p10_verbose, quick: 1_200_000, thorough: 40_000_000 },
                Sub { name: "scalars", f: p10_scalars, quick: 600_000, thorough: 20_000_000 },
                Sub { name: "large", f: p10_large, quick: 8_000, thorough: 400_000 },
            ],
            known: vec![],
        },
        Prop {
            id: "P11",
            rule: "every broken text / every accepted text of more than four tokens; distinct by text",
            assumptions: &[
                "names in broken texts do not start like a literal",
                "names, numbers, strings and byte arrays in accounted texts are all different, so that nothing is replaced by a later duplicate",
            ],
            subs: vec![
                Sub { name: "broken", f: p11_broken, quick: 3_200_000, thorough: 50_000_000 },
                Sub { name: "accounting", f: p11_account, quick: 3_200_000, thorough: 50_000_000 },
                Sub { name: "large", f: p11_large, quick: 4_000, thorough: 200_000 },
                Sub { name: "large-accounting", f: p11_large_account, quick: 4_000, thorough: 200_000 },
            ],
            known: vec![],
        },
        Prop {
            id: "P12",
            rule: "accepted text of a value with nested values; distinct by value",
            assumptions: &["names start with a letter or '_'; identities spelled true or false are on scalars only"],
            subs: vec![
                Sub { name: "again", f: p12_again, quick: 3_600_000, thorough: 50_000_000 },
                Sub { name: "large", f: p12_large, quick: 8_000, thorough: 400_000 },
            ],
            known: vec![],
        },
    ]
}
