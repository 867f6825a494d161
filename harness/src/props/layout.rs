//! P26: the written text has the shape the layouts say.

use super::text::{apply, op, plain, Flat};
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use kserd::fmt::{Fmt, Formatter, Repr};

/// A value as text by itself, on one line.
fn scalar(m: &M, id: bool) -> String {
    let ks = m.to_kserd();
    let mut f = Formatter::new(&ks);
    f.id(0, id).expect("root exists");
    f.write_string(String::new())
}

/// Reference writer: the lines of the text, given where each value starts.
struct Ref<'a> {
    fmts: &'a [Fmt],
    /// Index of the next node, depth first.
    next: usize,
    out: Vec<String>,
}

impl Ref<'_> {
    fn add(&mut self, t: &str) {
        self.out.last_mut().unwrap().push_str(t);
    }

    fn line(&mut self, col: usize) {
        self.out.push(" ".repeat(col));
    }

    fn take(&mut self) -> Fmt {
        self.next += 1;
        self.fmts[self.next - 1]
    }

    fn peek(&self) -> Fmt {
        self.fmts[self.next]
    }

    /// Writes a value that starts at column `col` of the current line.
    fn delimited(&mut self, m: &M, col: usize) {
        let fmt = self.take();
        let id = m.id.as_deref().filter(|_| fmt.id);
        let (space, open, close) = match m.kind() {
            Kind::Prim => {
                let t = scalar(m, fmt.id);
                return self.add(&t);
            }
            Kind::Tuple => ("", "(", ")"),
            Kind::Cntr => (" ", "(", ")"),
            Kind::Seq => (" ", "[", "]"),
            Kind::Map => (" ", "{", "}"),
        };
        if let Some(id) = id {
            self.add(id);
            self.add(space);
        }
        self.add(open);
        let inline = fmt.line == Repr::Inline;
        let pad = inline && m.kind() == Kind::Map && !m.children().is_empty();
        if pad {
            self.add(" ");
        }
        let inner = col + 4;
        let mut first = true;
        let mut start = |me: &mut Self| {
            if inline {
                if !first {
                    me.add(", ");
                }
            } else {
                me.line(inner);
            }
            first = false;
        };
        match &m.v {
            MV::Tuple(v) | MV::Seq(v) => {
                for x in v {
                    start(self);
                    self.delimited(x, inner);
                }
            }
            MV::Cntr(v) => {
                for (n, x) in v {
                    start(self);
                    self.add(n);
                    self.add(" = ");
                    self.delimited(x, inner + n.chars().count() + 3);
                }
            }
            MV::Map(v) => {
                for (k, x) in v {
                    start(self);
                    self.entry(k, x, inner);
                }
            }
            _ => unreachable!(),
        }
        if pad {
            self.add(" ");
        }
        if !inline {
            self.line(col);
        }
        self.add(close);
    }

    /// `key: value`, the key starting at column `col`; the value's column follows the key's last line.
    fn entry(&mut self, k: &M, x: &M, col: usize) {
        let lines = self.out.len();
        let before = self.out.last().unwrap().chars().count();
        self.delimited(k, col);
        let w = if self.out.len() == lines { self.out.last().unwrap().chars().count() - before } else { 1 };
        self.add(": ");
        self.delimited(x, col + w + 2);
    }

    fn heading(&mut self, col: usize, open: &str, name: &str, id: Option<&str>, close: &str) {
        self.line(col);
        self.add(open);
        self.add(name);
        if let Some(id) = id {
            self.add(":");
            self.add(id);
        }
        self.add(close);
    }

    /// Fields of a container on lines of their own, at column `col`.
    fn indented(&mut self, m: &M, col: usize, headed: bool) {
        let fmt = self.take();
        if let Some(id) = m.id.as_deref().filter(|_| fmt.id && !headed) {
            self.line(col);
            self.add(":");
            self.add(id);
        }
        let MV::Cntr(fields) = &m.v else { unreachable!() };
        for (n, x) in fields {
            let f = self.peek();
            let id = x.id.as_deref().filter(|_| f.id);
            match (&x.v, f.line) {
                (MV::Cntr(_), Repr::Verbose) => {
                    self.heading(col, "[", n, id, "]");
                    self.indented(x, col + 4, true);
                }
                (MV::Seq(v), Repr::Verbose) => {
                    self.take();
                    for e in v {
                        self.heading(col, "[[", n, id, "]]");
                        if self.peek().line == Repr::Verbose && e.kind() == Kind::Cntr {
                            self.indented(e, col + 4, false);
                        } else {
                            self.line(col);
                            self.delimited(e, col);
                        }
                    }
                }
                (MV::Map(v), Repr::Verbose) => {
                    self.take();
                    for (k, e) in v {
                        self.heading(col, "[[", n, id, "]]");
                        self.line(col);
                        let at = self.next;
                        if self.fmts[at + k.count()].line == Repr::Verbose {
                            self.delimited(k, col);
                            self.add(":");
                            self.indented(e, col + 4, false);
                        } else {
                            self.entry(k, e, col);
                        }
                    }
                }
                _ => {
                    self.line(col);
                    self.add(n);
                    self.add(" = ");
                    self.delimited(x, col + n.chars().count() + 3);
                }
            }
        }
    }
}

fn reference(m: &M, fmts: &[Fmt]) -> Vec<String> {
    let mut r = Ref { fmts, next: 0, out: vec![] };
    if fmts[0].line == Repr::Verbose {
        r.indented(m, 0, false);
    } else {
        r.line(0);
        r.delimited(m, 0);
    }
    r.out
}

fn p26_shape(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let mut m = value(s, Opt { ids: 3, max_nodes: 20 });
    plain(&mut m);
    let ks = m.to_kserd();
    let m = M::read(&ks);
    let n = Flat::new(&m).nodes.len();
    let mut f = Formatter::new(&ks);
    let mut ops = Vec::new();
    if s.chance(1, 3) {
        f.apply_config(config(s));
    }
    for _ in 0..s.below(1 + n.min(12)) {
        let o = op(s, n);
        let _ = apply(&mut f, o);
        ops.push(o);
    }
    let text = f.write_string(String::new());
    let got: Vec<&str> = text.split('\n').filter(|l| !l.trim().is_empty()).collect();
    let exp = reference(&m, f.fmts());
    ctx.label_if(f.fmts().iter().any(|x| x.line == Repr::Verbose), "indented");
    ctx.label_if(f.fmts().iter().any(|x| x.line == Repr::Concise), "delimited over lines");
    ctx.label_if(text.contains("[["), "repeated headings");
    if got.len() > 2 {
        ctx.nontrivial(hash64(text.as_bytes()));
    }
    ctx.sample(|| text.clone());
    if got != exp {
        return fail(
            "shape",
            format!("value {}\nhistory {:?}\ntext:\n{}\nexpected (blank lines apart):\n{}", m.show(), ops, text, exp.join("\n")),
        );
    }
    Ok(())
}

crate::large! {
    p26_large = p26_shape, 4200;
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P26",
        rule: "the text has more than two lines; distinct by text",
        assumptions: &["strings without control characters, so that a line of the text is a line of the layout", "blank lines are not compared"],
        subs: vec![
            Sub { name: "shape", f: p26_shape, quick: 1_500_000, thorough: 80_000_000 },
            Sub { name: "large", f: p26_large, quick: 4_000, thorough: 200_000 },
        ],
        known: vec![],
    }]
}
