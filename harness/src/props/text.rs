//! P01, P02, P03, P04, P06, P07: writing values as text.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use kserd::fmt::{Fmt, FmtError, Formatter, FormattingConfig, Repr};
use kserd::parse::parse;

/// Parses text that must be accepted.
pub fn must_parse(text: &str, m: &M) -> Result<M, Fail> {
    match parse(text) {
        Ok(k) => Ok(M::read(&k)),
        Err(e) => fail(
            "text does not parse",
            format!("value {}\ntext:\n{}\nerror:\n{}", m.show(), text, e.backtrace()),
        ),
    }
}

fn composite(m: &M) -> bool {
    !m.children().is_empty()
}

fn classify(ctx: &mut Ctx, m: &M, text: &str) {
    ctx.label_if(text.lines().count() > 1, "several lines");
    ctx.label_if(m.depth() >= 4, "depth >= 4");
    ctx.label_if(m.any(&mut |x| matches!(x.v, MV::Map(ref v) if v.iter().any(|(k, _)| composite(k)))), "composite map key");
    ctx.label_if(m.any(&mut |x| matches!(x.v, MV::Map(_))), "has map");
    ctx.label_if(text.contains("[["), "has [[");
    ctx.label_if(m.id.is_some(), "root identity");
}

fn kind_of(m: &M, c: &FormattingConfig) -> u64 {
    m.fp() ^ hash64(format!("{:?}", c).as_bytes())
}

// ------------------------------------------------------------------ P01

fn p01_any(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let c = config(s);
    let m = value(s, VALS);
    let ks = m.to_kserd();
    let m = M::read(&ks);
    let text = ks.as_str_with_config(c);
    classify(ctx, &m, &text);
    if composite(&m) {
        ctx.nontrivial(kind_of(&m, &c));
    }
    ctx.sample(|| format!("{:?} -> {:?}", c.width_limit, text));
    let back = must_parse(&text, &m)?;
    if let Some(d) = diff(&m, &back, TEXT_VAL) {
        return fail("value changed", format!("{}\nconfig {:?}\ntext:\n{}\n{}", m.show(), c, text, d));
    }
    Ok(())
}

/// One value under every width from 0 up to past its one-line width.
fn p01_widths(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let mut c = config(s);
    let m = value(s, Opt { ids: 3, max_nodes: 12 });
    let ks = m.to_kserd();
    let m = M::read(&ks);
    c.width_limit = None;
    let one = ks.as_str_with_config(c).chars().count().min(90);
    let step = 1 + s.below(3);
    let mut seen: Vec<String> = Vec::new();
    for w in (0..one + 4).step_by(step) {
        c.width_limit = Some(w as u16);
        let text = ks.as_str_with_config(c);
        if seen.contains(&text) {
            continue;
        }
        let back = must_parse(&text, &m)?;
        if let Some(d) = diff(&m, &back, TEXT_VAL) {
            return fail("value changed", format!("{}\nconfig {:?}\ntext:\n{}\n{}", m.show(), c, text, d));
        }
        seen.push(text);
    }
    ctx.label_if(seen.len() > 3, "more than 3 layouts");
    if seen.len() > 1 {
        ctx.nontrivial(m.fp());
    }
    ctx.sample(|| format!("{} layouts of {}", seen.len(), m.show()));
    Ok(())
}

/// The default text and `Display`.
fn p01_default(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let m = value(s, Opt { ids: 2, max_nodes: 40 });
    let ks = m.to_kserd();
    let m = M::read(&ks);
    for text in [ks.as_str(), ks.to_string()] {
        let back = must_parse(&text, &m)?;
        if let Some(d) = diff(&m, &back, TEXT_VAL) {
            return fail("value changed", format!("{}\ntext:\n{}\n{}", m.show(), text, d));
        }
        ctx.sample(|| text);
    }
    if composite(&m) {
        ctx.nontrivial(m.fp());
    }
    Ok(())
}

// ------------------------------------------------------------------ P02

fn p02_ids(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let c = config(s);
    let m = value(s, Opt { ids: 6, max_nodes: 20 });
    let ks = m.to_kserd();
    let m = M::read(&ks);
    let exp = displayed(&m, &|_, n| id_shown(&c, n));
    let text = ks.as_str_with_config(c);
    classify(ctx, &m, &text);
    let hidden = m.any(&mut |x| x.id.is_some() && !id_shown(&c, x));
    let shown = m.any(&mut |x| x.id.is_some() && id_shown(&c, x));
    ctx.label_if(hidden, "hidden identities");
    ctx.label_if(shown, "shown identities");
    if (shown || hidden) && composite(&m) {
        ctx.nontrivial(kind_of(&m, &c));
    }
    ctx.sample(|| format!("{:?} -> {:?}", c, text));
    // the text of the value without the hidden identities
    let stripped = exp.to_kserd().as_str_with_config(c);
    ensure!(
        stripped == text,
        "hidden identity shows in the text",
        "value {}\nconfig {:?}\ntext:\n{}\nwithout hidden identities:\n{}",
        m.show(),
        c,
        text,
        stripped
    );
    let back = must_parse(&text, &m)?;
    if let Some(d) = diff(&exp, &back, TEXT) {
        return fail("identities changed", format!("{}\nconfig {:?}\ntext:\n{}\n{}", m.show(), c, text, d));
    }
    Ok(())
}

fn p02_all_shown(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let w = match s.below(4) {
        0 => None,
        1 => Some(0),
        _ => Some(s.below(100) as u16),
    };
    let c = all_ids(w);
    let m = value(s, Opt { ids: 7, max_nodes: 16 });
    let ks = m.to_kserd();
    let m = M::read(&ks);
    let text = ks.as_str_with_config(c);
    classify(ctx, &m, &text);
    if m.any(&mut |x| x.id.is_some()) && composite(&m) {
        ctx.nontrivial(kind_of(&m, &c));
    }
    ctx.sample(|| format!("{:?} -> {:?}", c.width_limit, text));
    let back = must_parse(&text, &m)?;
    if let Some(d) = diff(&m, &back, TEXT) {
        return fail("identities changed", format!("{}\nconfig {:?}\ntext:\n{}\n{}", m.show(), c, text, d));
    }
    Ok(())
}

/// An identity spelled like a boolean in front of a bracket reads as the boolean.
fn p02_true() -> Option<String> {
    let m = M::with("true", MV::Seq(vec![M::new(MV::Num(N::U(1)))]));
    let text = m.to_kserd().as_str_with_config(all_ids(None));
    match parse(&text) {
        Ok(k) if same(&m, &M::read(&k), TEXT) => None,
        r => Some(format!("sequence [1] with identity \"true\" is written as {:?} and reads back as {:?}", text, r.ok().map(|k| M::read(&k).show()))),
    }
}

// ------------------------------------------------------------------ layout histories

#[derive(Debug, Clone, Copy)]
pub enum Op {
    Inline(usize),
    Concise(usize),
    Verbose(usize),
    Id(usize, bool),
    Apply(FormattingConfig),
}

pub fn op(s: &mut Src, n: usize) -> Op {
    let k = s.weighted(&[6, 6, 8, 3, 1]);
    // usually in range, sometimes just outside
    let idx = |s: &mut Src| {
        if s.chance(1, 24) {
            n + s.below(3)
        } else if n > 60 && s.flag() {
            // among many nodes, one of those that hold the others
            s.below(6)
        } else {
            s.below(n)
        }
    };
    match k {
        0 => Op::Inline(idx(s)),
        1 => Op::Concise(idx(s)),
        2 => Op::Verbose(idx(s)),
        3 => {
            let i = idx(s);
            Op::Id(i, s.flag())
        }
        _ => Op::Apply(config(s)),
    }
}

pub fn apply(f: &mut Formatter, o: Op) -> Result<(), FmtError> {
    match o {
        Op::Inline(i) => f.inline(i),
        Op::Concise(i) => f.concise(i),
        Op::Verbose(i) => f.verbose(i),
        Op::Id(i, b) => f.id(i, b),
        Op::Apply(c) => {
            f.apply_config(c);
            Ok(())
        }
    }
}

pub struct Flat<'m> {
    pub nodes: Vec<(&'m M, Option<usize>, bool)>,
}

impl<'m> Flat<'m> {
    /// Depth-first list of nodes with parent index and key status.
    pub fn new(m: &'m M) -> Self {
        fn go<'m>(m: &'m M, parent: Option<usize>, key: bool, out: &mut Vec<(&'m M, Option<usize>, bool)>) {
            let i = out.len();
            out.push((m, parent, key));
            match &m.v {
                MV::Map(v) => {
                    for (k, x) in v {
                        go(k, Some(i), true, out);
                        go(x, Some(i), false, out);
                    }
                }
                _ => {
                    for c in m.children() {
                        go(c, Some(i), false, out);
                    }
                }
            }
        }
        let mut nodes = Vec::new();
        go(m, None, false, &mut nodes);
        Flat { nodes }
    }

    /// The broadest layout the node can take, whatever its parent's layout.
    pub fn max(&self, i: usize) -> Repr {
        let (m, parent, key) = self.nodes[i];
        if m.children().is_empty() {
            return Repr::Inline;
        }
        if key {
            return Repr::Concise;
        }
        match m.kind() {
            Kind::Prim => Repr::Inline,
            Kind::Tuple => Repr::Concise,
            Kind::Cntr => Repr::Verbose,
            Kind::Seq | Kind::Map => match parent {
                Some(p) if self.nodes[p].0.kind() == Kind::Cntr => Repr::Verbose,
                _ => Repr::Concise,
            },
        }
    }

    pub fn is_descendant(&self, mut i: usize, of: usize) -> bool {
        while let Some(p) = self.nodes[i].1 {
            if p == of {
                return true;
            }
            i = p;
        }
        false
    }

    /// Layout of every node at its broadest.
    pub fn broadest(&self) -> Vec<Repr> {
        let mut v: Vec<Repr> = Vec::new();
        for i in 0..self.nodes.len() {
            let m = self.max(i);
            v.push(match self.nodes[i].1 {
                Some(p) => m.min(v[p]),
                None => m,
            });
        }
        v
    }
}

fn p03_histories(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let m = value(s, Opt { ids: 4, max_nodes: 20 });
    let ks = m.to_kserd();
    let m = M::read(&ks);
    let n = m.count();
    let flat = Flat::new(&m);
    let mut f = Formatter::new(&ks);
    let mut ids = vec![true; n];
    let steps = s.below(1 + 2 * n.min(16));
    let mut ops = Vec::new();
    let mut accepted = 0;
    for i in 0..=steps {
        if i == steps || s.chance(1, 6) {
            // look at the text at this point of the history
            let text = f.write_string(String::new());
            let exp = displayed(&m, &|i, _| ids[i]);
            let back = match parse(&text) {
                Ok(k) => M::read(&k),
                Err(e) => {
                    return fail(
                        "text does not parse",
                        format!("value {}\nhistory {:?}\ntext:\n{}\n{}", m.show(), ops, text, e.backtrace()),
                    )
                }
            };
            if let Some(d) = diff(&exp, &back, TEXT) {
                return fail("text means something else", format!("value {}\nhistory {:?}\ntext:\n{}\n{}", m.show(), ops, text, d));
            }
            if i == steps {
                classify(ctx, &m, &text);
                ctx.sample(|| format!("{} ops, {} accepted -> {:?}", ops.len(), accepted, text));
                break;
            }
        }
        let o = op(s, n);
        let r = apply(&mut f, o);
        if r.is_ok() {
            accepted += 1;
            match o {
                Op::Id(i, b) => ids[i] = b,
                Op::Apply(c) => {
                    for (i, id) in ids.iter_mut().enumerate() {
                        *id = id_shown(&c, flat.nodes[i].0);
                    }
                }
                _ => (),
            }
        }
        ops.push(o);
    }
    if accepted > 0 && composite(&m) {
        ctx.nontrivial(m.fp() ^ hash64(format!("{:?}", ops).as_bytes()));
    }
    Ok(())
}

// ------------------------------------------------------------------ P04

fn p04_machine(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let m = value(s, Opt { ids: 2, max_nodes: 20 });
    let ks = m.to_kserd();
    let m = M::read(&ks);
    let flat = Flat::new(&m);
    let n = flat.nodes.len();
    let mut f = Formatter::new(&ks);
    let mut model: Vec<Fmt> = flat.broadest().into_iter().map(|line| Fmt { id: true, line }).collect();
    ensure!(
        f.fmts() == &model[..],
        "initial layout",
        "value {}\ninitial {:?}\nexpected {:?}",
        m.show(),
        f.fmts(),
        model
    );
    let steps = s.below(1 + 3 * n.min(16));
    let mut ops: Vec<Op> = Vec::new();
    let (mut ok, mut refused) = (0, 0);
    for _ in 0..steps {
        let o = op(s, n);
        let before = f.fmts().to_vec();
        let r = apply(&mut f, o);
        ops.push(o);
        let (i, want) = match o {
            Op::Inline(i) => (i, Some(Repr::Inline)),
            Op::Concise(i) => (i, Some(Repr::Concise)),
            Op::Verbose(i) => (i, Some(Repr::Verbose)),
            Op::Id(i, _) => (i, None),
            Op::Apply(c) => {
                // identities are decided by the configuration; layouts only by its width
                let after = f.fmts().to_vec();
                for j in 0..n {
                    ensure!(
                        after[j].id == id_shown(&c, flat.nodes[j].0),
                        "configuration applied wrongly",
                        "value {}\nhistory {:?}\nnode {} has id display {}",
                        m.show(),
                        ops,
                        j,
                        after[j].id
                    );
                }
                invariants(&flat, &after, &m, &ops)?;
                model = after;
                continue;
            }
        };
        // reasons to refuse
        let mut reasons: Vec<FmtError> = Vec::new();
        if i >= n {
            reasons.push(FmtError::IdxOutOfBounds);
        } else if let Some(want) = want {
            if want != model[i].line {
                let max = flat.max(i);
                let nm = |r: Repr| match r {
                    Repr::Inline => "inline",
                    Repr::Concise => "concise",
                    Repr::Verbose => "verbose",
                };
                if want > max {
                    reasons.push(FmtError::RequestTooHigh(nm(max), nm(want)));
                    if i == 0 && want == Repr::Verbose && matches!(flat.nodes[0].0.kind(), Kind::Seq | Kind::Map) {
                        reasons = vec![FmtError::SeqMapAtRoot];
                    }
                }
                if let Some(p) = flat.nodes[i].1 {
                    if want > model[p].line {
                        reasons.push(if model[p].line == Repr::Inline {
                            FmtError::ParentIsInline
                        } else {
                            FmtError::ParentIsConcise
                        });
                    }
                }
            }
        }
        match &r {
            Ok(()) => {
                ensure!(
                    reasons.is_empty(),
                    "request should have been refused",
                    "value {}\nhistory {:?}\nlayouts before the last step {:?}\nexpected one of {:?}",
                    m.show(),
                    ops,
                    before,
                    reasons
                );
                ok += 1;
                match (want, o) {
                    (Some(w), _) => {
                        model[i].line = w;
                        for j in 0..n {
                            if flat.is_descendant(j, i) && model[j].line > w {
                                model[j].line = w;
                            }
                        }
                    }
                    (None, Op::Id(_, b)) => model[i].id = b,
                    _ => unreachable!(),
                }
            }
            Err(e) => {
                ensure!(
                    !reasons.is_empty(),
                    "request should have been accepted",
                    "value {}\nhistory {:?}\nlayouts before the last step {:?}\nrefused with {:?}",
                    m.show(),
                    ops,
                    before,
                    e
                );
                ensure!(
                    reasons.contains(e),
                    "refused with the wrong error",
                    "value {}\nhistory {:?}\nlayouts before the last step {:?}\nrefused with {:?}, expected one of {:?}",
                    m.show(),
                    ops,
                    before,
                    e,
                    reasons
                );
                refused += 1;
            }
        }
        ensure!(
            f.fmts() == &model[..],
            "layouts differ from the model",
            "value {}\nhistory {:?}\nbefore {:?}\nafter {:?}\nexpected {:?}",
            m.show(),
            ops,
            before,
            f.fmts(),
            model
        );
        invariants(&flat, f.fmts(), &m, &ops)?;
    }
    ctx.label_if(refused > 0, "has refused requests");
    ctx.label_if(ok > 0, "has accepted requests");
    if ok > 0 && refused > 0 {
        ctx.nontrivial(m.fp() ^ hash64(format!("{:?}", ops).as_bytes()));
    }
    ctx.sample(|| format!("{} accepted, {} refused on {}", ok, refused, m.show()));
    Ok(())
}

fn invariants(flat: &Flat, fmts: &[Fmt], m: &M, ops: &[Op]) -> Result<(), Fail> {
    for (i, x) in fmts.iter().enumerate() {
        ensure!(x.line <= flat.max(i), "node broader than its kind allows", "value {}\nhistory {:?}\nnode {} {:?}", m.show(), ops, i, x);
        if let Some(p) = flat.nodes[i].1 {
            ensure!(x.line <= fmts[p].line, "node broader than its parent", "value {}\nhistory {:?}\nnode {} {:?} parent {:?}", m.show(), ops, i, x, fmts[p]);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P05

/// Replaces the control characters of strings: how wide they are is not pinned down.
pub fn plain(m: &mut M) {
    if let MV::Str(x) = &mut m.v {
        *x = x.chars().map(|c| if c.is_control() { 'x' } else { c }).collect();
    }
    match &mut m.v {
        MV::Tuple(v) | MV::Seq(v) => v.iter_mut().for_each(plain),
        MV::Cntr(v) => v.iter_mut().for_each(|x| plain(&mut x.1)),
        MV::Map(v) => {
            let old = std::mem::take(v);
            for (mut k, mut x) in old {
                plain(&mut k);
                plain(&mut x);
                push_entry(v, k, x);
            }
        }
        _ => (),
    }
}

fn one_line(m: &M, c: &FormattingConfig) -> String {
    m.to_kserd().as_str_with_config(FormattingConfig { width_limit: None, ..*c })
}

/// The widest line of the value with everything in it laid out concisely.
fn concise_line(m: &M, c: &FormattingConfig) -> Option<usize> {
    if m.any(&mut |x| matches!(&x.v, MV::Map(v) if v.iter().any(|(k, _)| composite(k)))) {
        return None; // keys are counted on one line
    }
    let ks = m.to_kserd();
    let m = M::read(&ks);
    let mut f = Formatter::new(&ks);
    for (i, n) in Flat::new(&m).nodes.iter().enumerate() {
        f.id(i, id_shown(c, n.0)).ok()?;
    }
    f.concise(0).ok()?;
    f.write_string(String::new()).lines().map(|l| l.chars().count()).max()
}

/// Identities so long that the opening line of a value is its widest.
fn long_heads(s: &mut Src, m: &mut M) {
    if composite(m) && s.flag() {
        m.id = Some("i".repeat(s.range(8, 40)));
    }
    match &mut m.v {
        MV::Cntr(v) => v.iter_mut().for_each(|(_, x)| long_heads(s, x)),
        MV::Seq(v) | MV::Tuple(v) => v.iter_mut().for_each(|x| long_heads(s, x)),
        MV::Map(v) => v.iter_mut().for_each(|(_, x)| long_heads(s, x)),
        _ => (),
    }
}

fn p05_width(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let mut c = config(s);
    let mut m = value(s, Opt { ids: 3, max_nodes: 16 });
    plain(&mut m);
    if s.chance(1, 3) {
        long_heads(s, &mut m);
    }
    let ks = m.to_kserd();
    let m = M::read(&ks);
    let flat = Flat::new(&m);
    let n = flat.nodes.len();
    let one: Vec<String> = flat.nodes.iter().map(|x| one_line(x.0, &c)).collect();
    let width: Vec<usize> = one.iter().map(|x| x.chars().count()).collect();

    c.width_limit = None;
    let text = ks.as_str_with_config(c);
    ensure!(!text.contains('\n'), "several lines without a limit", "{}\ntext:\n{}", m.show(), text);
    if s.chance(1, 4) {
        // whatever came before
        let mut f = Formatter::new(&ks);
        let ops: Vec<Op> = (0..s.below(8)).map(|_| op(s, n)).collect();
        for o in &ops {
            apply(&mut f, *o).ok();
        }
        f.apply_config(c);
        let again = f.write_string(String::new());
        ensure!(again == text, "no limit after a history is not the single line", "{}\nhistory {:?}\ntext:\n{}", m.show(), ops, again);
    }

    c.width_limit = Some(0);
    let mut f = Formatter::new(&ks);
    f.apply_config(c);
    let got: Vec<Repr> = f.fmts().iter().map(|x| x.line).collect();
    let exp = flat.broadest();
    ensure!(got == exp, "limit 0 is not the broadest layout", "{}\nlayouts {:?}\nexpected {:?}", m.show(), got, exp);

    // limits around the widths that matter
    let limit = match s.below(5) {
        0 => s.range(1, 90),
        1 => (width[s.below(n)] + s.below(3)).saturating_sub(1),
        4 => {
            let i = if s.flag() { 0 } else { s.below(n) };
            let w = concise_line(flat.nodes[i].0, &c).unwrap_or(20);
            let off = 4 * s.below(2) + s.below(3);
            (w + off).saturating_sub(1)
        }
        2 => (width[s.below(n)] + s.below(40)).saturating_sub(1),
        _ => (width[0] + s.below(12)).saturating_sub(8),
    }
    .clamp(1, u16::MAX as usize);
    c.width_limit = Some(limit as u16);
    let mut f = Formatter::new(&ks);
    f.apply_config(c);
    let lay: Vec<Repr> = f.fmts().iter().map(|x| x.line).collect();
    let text = f.write_string(String::new());
    let lines: Vec<Vec<char>> = text.lines().map(|l| l.chars().collect()).collect();
    ctx.sample(|| format!("limit {} -> {:?}", limit, text));

    // columns: where a node starts (if it is not laid out verbosely), where its lines start if it
    // is, and how much of its column is not counted
    let mut col = vec![0usize; n];
    let mut vcol = vec![0usize; n];
    let mut uncounted = vec![0usize; n];
    let mut prefix_of = vec![0usize; n];
    for i in 0..n {
        let (node, parent, key) = flat.nodes[i];
        let Some(p) = parent else { continue };
        let pm = flat.nodes[p].0;
        let prefix = match &pm.v {
            MV::Cntr(v) => {
                let k = (p + 1..i).filter(|j| flat.nodes[*j].1 == Some(p)).count();
                v[k].0.chars().count() + 3
            }
            MV::Map(_) if !key => {
                let k = (p + 1..i).rev().find(|j| flat.nodes[*j].1 == Some(p)).unwrap();
                2 + if lay[k] == Repr::Inline { width[k] } else { 1 }
            }
            _ => 0,
        };
        prefix_of[i] = prefix;
        uncounted[i] = uncounted[p];
        match lay[p] {
            Repr::Inline => continue,
            Repr::Concise => col[i] = col[p] + 4 + prefix,
            Repr::Verbose => {
                col[i] = vcol[p] + prefix;
                vcol[i] = vcol[p]
                    + match (pm.kind(), node.kind()) {
                        (Kind::Cntr, Kind::Seq | Kind::Map) => 0,
                        _ => 4,
                    };
            }
        }
        if lay[p] == Repr::Concise {
            if let Some(g) = flat.nodes[p].1 {
                if lay[g] == Repr::Verbose && flat.nodes[g].0.kind() == Kind::Cntr {
                    uncounted[i] += prefix_of[p];
                }
            }
        }
    }

    let mut decisions = 0;
    for i in 0..n {
        let (node, parent, _) = flat.nodes[i];
        if parent.map(|p| lay[p] == Repr::Inline).unwrap_or(false) {
            continue;
        }
        let detail = |what: &str| {
            format!(
                "{}: node {} ({}) at column {} with one-line width {} under limit {}, {} columns not counted\nvalue {}\nconfig {:?}\ntext:\n{}",
                what,
                i,
                node.show(),
                col[i],
                width[i],
                limit,
                uncounted[i],
                m.show(),
                c,
                text
            )
        };
        if lay[i] == Repr::Inline {
            // it is in the text, at that column
            let want: Vec<char> = one[i].chars().collect();
            let there = lines.iter().any(|l| l.len() >= col[i] && l[col[i]..].starts_with(&want));
            ensure!(there, "column", "{}", detail("not found in the text"));
        }
        if flat.max(i) == Repr::Inline {
            continue;
        }
        decisions += 1;
        let at = col[i];
        let at_least = col[i] - uncounted[i];
        if at + width[i] <= limit {
            ensure!(lay[i] == Repr::Inline, "value fits but is not on one line", "{}", detail("fits"));
        } else if at_least + width[i] > limit {
            ensure!(lay[i] != Repr::Inline, "value does not fit but is on one line", "{}", detail("does not fit"));
        }
        let pverbose = parent.map(|p| lay[p] == Repr::Verbose).unwrap_or(true);
        let in_seq = parent.map(|p| flat.nodes[p].0.kind() == Kind::Seq).unwrap_or(false);
        if lay[i] != Repr::Inline && flat.max(i) == Repr::Verbose && pverbose && !in_seq {
            if let Some(w) = concise_line(node, &c) {
                let exp = if at + w <= limit { Repr::Concise } else { Repr::Verbose };
                ctx.label_if(exp == Repr::Concise, "concise chosen");
                ctx.label_if(exp == Repr::Verbose, "verbose chosen");
                ensure!(lay[i] == exp, "delimited or indented layout", "{}\nwidest line {} layout {:?}", detail("concise"), w, lay[i]);
            }
        }
        ctx.label_if(at + width[i] == limit, "exactly fits");
        ctx.label_if(at + width[i] == limit + 1, "one too wide");
    }
    if decisions > 1 {
        ctx.nontrivial(kind_of(&m, &c));
    }
    Ok(())
}

// ------------------------------------------------------------------ P06

fn p06_pure(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let c = if s.chance(1, 4) { FormattingConfig::default() } else { config(s) };
    let m = value(s, Opt { ids: 4, max_nodes: 20 });
    let ks = m.to_kserd();
    let text = ks.as_str_with_config(c);
    let show = |what: &str, other: &str| -> Fail {
        Fail {
            sig: "texts differ".into(),
            detail: format!("{}\nvalue {}\nconfig {:?}\ntext:\n{}\nother:\n{}", what, m.show(), c, text, other),
        }
    };
    let same = |what: &str, other: String| -> Result<(), Fail> {
        if other == text {
            Ok(())
        } else {
            Err(show(what, &other))
        }
    };
    same("second call", ks.as_str_with_config(c))?;
    let mut f = Formatter::new(&ks);
    f.apply_config(c);
    same("formatter", f.write_string(String::new()))?;
    same("formatter again", f.write_string(String::new()))?;
    let fmts = f.fmts().to_vec();
    f.apply_config(c);
    ensure!(fmts == f.fmts(), "applying again changes layouts", "value {}\nconfig {:?}\n{:?}\n{:?}", m.show(), c, fmts, f.fmts());
    same("configuration applied twice", f.write_string(String::new()))?;
    let pre = string(s);
    let out = f.write_string(pre.clone());
    ensure!(out.starts_with(&pre), "buffer was changed", "value {}\nbuffer {:?}\nresult {:?}", m.show(), pre, out);
    same("after other text", out[pre.len()..].to_string())?;
    // whatever the buffer's capacity
    let mut roomy = String::with_capacity(4096);
    roomy.push_str(&pre);
    same("roomy buffer", f.write_string(roomy)[pre.len()..].to_string())?;

    if c == FormattingConfig::default() {
        same("as_str", ks.as_str())?;
        // as documented
        let documented = FormattingConfig {
            id_on_primitives: false,
            id_on_tuples: true,
            id_on_containers: true,
            id_on_seqs: false,
            id_on_maps: false,
            width_limit: Some(60),
        };
        same("documented default", ks.as_str_with_config(documented))?;
        same("Display", ks.to_string())?;
        same("Display", format!("{}", ks))?;
        ctx.label("default configuration");
    }
    // ownership
    let mixed = m.build(&mut || s.flag());
    same("mixed ownership", mixed.as_str_with_config(c))?;
    same("clone", ks.clone().as_str_with_config(c))?;
    same("borrowed view", ks.mk_brw().as_str_with_config(c))?;
    same("owned", mixed.into_owned().as_str_with_config(c))?;
    let after = M::read(&ks);
    let orig = M::read(&m.to_kserd());
    if let Some(d) = diff(&orig, &after, EXACT) {
        return fail("formatting changed the value", format!("{}\n{}", m.show(), d));
    }
    if composite(&m) {
        ctx.nontrivial(kind_of(&m, &c));
    }
    ctx.sample(|| format!("{:?} -> {:?}", c.width_limit, text));
    Ok(())
}

/// Configurations on top of a history: applying twice is applying once.
fn p06_history(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let m = value(s, Opt { ids: 3, max_nodes: 16 });
    let ks = m.to_kserd();
    let n = M::read(&ks).count();
    let mut f = Formatter::new(&ks);
    let mut ops = Vec::new();
    for _ in 0..s.below(12) {
        let o = op(s, n);
        let _ = apply(&mut f, o);
        ops.push(o);
    }
    let pre = string(s);
    let a = f.write_string(String::new());
    let b = f.write_string(pre.clone());
    ensure!(
        b.strip_prefix(&pre[..]) == Some(&a[..]),
        "text depends on the buffer",
        "value {}\nhistory {:?}\nbuffer {:?}\nalone:\n{}\nafter buffer:\n{}",
        m.show(),
        ops,
        pre,
        a,
        b
    );
    let c = config(s);
    f.apply_config(c);
    let fm = f.fmts().to_vec();
    let t1 = f.write_string(String::new());
    f.apply_config(c);
    ensure!(fm == f.fmts(), "applying again changes layouts", "value {}\nhistory {:?}\nconfig {:?}\n{:?}\n{:?}", m.show(), ops, c, fm, f.fmts());
    ensure!(t1 == f.write_string(String::new()), "texts differ", "value {}\nhistory {:?}\nconfig {:?}", m.show(), ops, c);
    // the same history on a borrowed view
    let view = ks.mk_brw();
    let mut g = Formatter::new(&view);
    for o in &ops {
        let _ = apply(&mut g, *o);
    }
    ensure!(a == g.write_string(String::new()), "view writes differently", "value {}\nhistory {:?}\n{}", m.show(), ops, a);
    if !ops.is_empty() && n > 1 {
        ctx.nontrivial(m.fp() ^ hash64(format!("{:?}", ops).as_bytes()));
    }
    ctx.sample(|| format!("{} ops -> {:?}", ops.len(), a));
    Ok(())
}

// ------------------------------------------------------------------ P07

/// Puts a value at a position of a larger value. Returns the whole.
fn place(s: &mut Src, x: M) -> (M, &'static str) {
    let o = Opt { ids: 2, max_nodes: 1 };
    let sib = |s: &mut Src| prim(s, o);
    match s.below(9) {
        0 => (x, "alone"),
        1 => {
            let mut v: Vec<M> = (0..s.below(3)).map(|_| sib(s)).collect();
            let i = s.below(v.len() + 1);
            v.insert(i, x);
            (M::new(MV::Tuple(v)), "tuple element")
        }
        2 => {
            let mut v: Vec<M> = (0..s.below(3)).map(|_| sib(s)).collect();
            let i = s.below(v.len() + 1);
            v.insert(i, x);
            (M::new(MV::Seq(v)), "sequence element")
        }
        3 => {
            let mut v = vec![(name(s), x)];
            for _ in 0..s.below(3) {
                let n = name(s);
                let p = sib(s);
                push_field(&mut v, n, p);
            }
            (M::new(MV::Cntr(v)), "field")
        }
        4 => {
            let mut v = vec![];
            let k = sib(s);
            push_entry(&mut v, k, x);
            (M::new(MV::Map(v)), "map value")
        }
        5 => {
            let p = sib(s);
            let mut v = vec![(x, p)];
            for _ in 0..s.below(3) {
                let (k, p) = (sib(s), sib(s));
                push_entry(&mut v, k, p);
            }
            (M::new(MV::Map(v)), "map key")
        }
        6 => {
            let inner = M::new(MV::Seq(vec![x, sib(s)]));
            (M::new(MV::Cntr(vec![(name(s), inner)])), "element of a field")
        }
        7 => {
            let p = sib(s);
            let mut v = vec![(x, p)];
            let (k, p) = (sib(s), sib(s));
            push_entry(&mut v, k, p);
            (M::new(MV::Cntr(vec![(name(s), M::new(MV::Map(v)))])), "key in a field")
        }
        _ => {
            let inner = M::new(MV::Cntr(vec![(name(s), x)]));
            let seq = M::new(MV::Seq(vec![inner, M::new(MV::Cntr(vec![(name(s), sib(s))]))]));
            (M::new(MV::Cntr(vec![(name(s), seq)])), "field of an element of a field")
        }
    }
}

fn p07(s: &mut Src, ctx: &mut Ctx, x: M) -> Result<(), Fail> {
    let c = config(s);
    let (m, pos) = place(s, x.clone());
    ctx.label(pos);
    let ks = m.to_kserd();
    let m = M::read(&ks);
    let text = match guarded(|| ks.as_str_with_config(c)) {
        Ok(t) => t,
        Err(p) => return fail("formatting fails", format!("{}\n{}", m.show(), p)),
    };
    ctx.sample(|| format!("{} -> {:?}", pos, text));
    let back = must_parse(&text, &m)?;
    if let Some(d) = diff(&m, &back, TEXT_VAL) {
        return fail("content changed", format!("{}\nconfig {:?}\ntext:\n{}\n{}", m.show(), c, text, d));
    }
    Ok(())
}

fn p07_str(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let id = if s.flag() { Some(name(s)) } else { None };
    let st = string(s);
    let special = st.chars().any(|c| !c.is_ascii_alphanumeric());
    if special {
        ctx.nontrivial(hash64(st.as_bytes()));
    }
    ctx.label_if(st.contains('"'), "has double quote");
    ctx.label_if(st.contains('"') && st.contains('\''), "has both quotes");
    ctx.label_if(DELIMS.chars().all(|d| st.contains(d)), "has every listed delimiter");
    ctx.label_if(st.contains('\n'), "has newline");
    p07(s, ctx, M { id, v: MV::Str(st) })
}

fn p07_bytes(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let id = if s.flag() { Some(name(s)) } else { None };
    let b = bytes(s);
    if b.len() > 1 {
        ctx.nontrivial(hash64(&b));
    }
    p07(s, ctx, M { id, v: MV::Barr(b) })
}

/// One string after another that forces the writer one step further each time.
fn p07_forced(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let ds: Vec<char> = DELIMS.chars().collect();
    let n = s.below(ds.len() + 1);
    let mut v: Vec<char> = ds[..n].to_vec();
    if n == ds.len() {
        let k = s.below(120);
        v.extend((0u32..k as u32).filter_map(|i| char::from_u32(0x20 + i)));
        let k = s.below(200);
        v.extend((0u32..k as u32).filter_map(|i| char::from_u32(0xa1 + i)));
    }
    for i in (1..v.len()).rev() {
        let j = s.below(i + 1);
        v.swap(i, i - j);
    }
    for _ in 0..s.below(3) {
        let i = s.below(v.len() + 1);
        v.insert(i, *s.pick(&['\n', ' ', 'a', '1', '=', '_', '(']));
    }
    let st: String = v.into_iter().collect();
    ctx.nontrivial(hash64(st.as_bytes()));
    p07(s, ctx, M::new(MV::Str(st)))
}

crate::large! {
    p01_large = p01_any, 4200;
    p02_large = p02_ids, 4200;
    p03_large = p03_histories, 4200;
    p04_large = p04_machine, 4200;
    p05_large = p05_width, 4200;
    p06_large = p06_pure, 4200;
    p07_large_str = p07_str, usize::MAX;
    p07_large_bytes = p07_bytes, usize::MAX;
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P01",
            rule: "value has at least one nested value (for the width sweep: at least two different layouts); distinct by value and configuration",
            assumptions: &[
                "names are made of ASCII letters, digits, '_' and '-' and start with a letter or '_'",
                "values have up to about 300 parts and depth up to about 60, strings up to 9000 bytes",
            ],
            subs: vec![
                Sub { name: "any-config", f: p01_any, quick: 979_999, thorough: 40_000_000 },
                Sub { name: "width-sweep", f: p01_widths, quick: 56_000, thorough: 2_500_000 },
                Sub { name: "default", f: p01_default, quick: 350_000, thorough: 10_000_000 },
                Sub { name: "large", f: p01_large, quick: 8_000, thorough: 400_000 },
            ],
            known: vec![],
        },
        Prop {
            id: "P02",
            rule: "value has an identity and at least one nested value; distinct by value and configuration",
            assumptions: &["identities are made of ASCII letters, digits, '_' and '-' and start with a letter or '_'"],
            subs: vec![
                Sub { name: "switches", f: p02_ids, quick: 900_000, thorough: 25_000_000 },
                Sub { name: "all-shown", f: p02_all_shown, quick: 900_000, thorough: 25_000_000 },
                Sub { name: "large", f: p02_large, quick: 8_000, thorough: 400_000 },
            ],
            known: vec![("identity-true", p02_true)],
        },
        Prop {
            id: "P03",
            rule: "at least one request accepted on a value with nested values; distinct by value and history",
            assumptions: &["histories of up to 32 operations on values of mostly up to 20, at times up to 300 nodes"],
            subs: vec![
                Sub { name: "histories", f: p03_histories, quick: 990_000, thorough: 30_000_000 },
                Sub { name: "large", f: p03_large, quick: 4_000, thorough: 200_000 },
            ],
            known: vec![],
        },
        Prop {
            id: "P04",
            rule: "history has both an accepted and a refused request; distinct by value and history",
            assumptions: &["histories of up to 48 operations on values of mostly up to 20, at times up to 300 nodes"],
            subs: vec![
                Sub { name: "machine", f: p04_machine, quick: 2_700_000, thorough: 30_000_000 },
                Sub { name: "large", f: p04_large, quick: 8_000, thorough: 200_000 },
            ],
            known: vec![],
        },
        Prop {
            id: "P05",
            rule: "more than one breakable value had its layout decided by the limit; distinct by value and configuration",
            assumptions: &[
                "width is counted in characters; strings hold no control characters, whose width is not documented",
                "inside a delimited multi-line field of an indented container the width of the field name is not counted (pinned by the existing tests)",
                "the choice between delimited and indented layout is checked for values without composite map keys",
            ],
            subs: vec![
                Sub { name: "limits", f: p05_width, quick: 1_200_000, thorough: 15_000_000 },
                Sub { name: "large", f: p05_large, quick: 4_000, thorough: 200_000 },
            ],
            known: vec![],
        },
        Prop {
            id: "P06",
            rule: "value has nested values (histories: at least one operation); distinct by value, configuration and history",
            assumptions: &[],
            subs: vec![
                Sub { name: "entry-points", f: p06_pure, quick: 700_000, thorough: 10_000_000 },
                Sub { name: "histories", f: p06_history, quick: 700_000, thorough: 10_000_000 },
                Sub { name: "large", f: p06_large, quick: 4_000, thorough: 200_000 },
            ],
            known: vec![],
        },
        Prop {
            id: "P07",
            rule: "string has a character other than ASCII letters and digits / byte array has two or more bytes; distinct by content",
            assumptions: &["strings up to about 9000 bytes, byte arrays up to 3000 bytes"],
            subs: vec![
                Sub { name: "strings", f: p07_str, quick: 6_400_000, thorough: 40_000_000 },
                Sub { name: "bytes", f: p07_bytes, quick: 1_600_000, thorough: 10_000_000 },
                Sub { name: "forced-delimiters", f: p07_forced, quick: 1_600_000, thorough: 10_000_000 },
                Sub { name: "large", f: p07_large_str, quick: 40_000, thorough: 2_000_000 },
                Sub { name: "large-bytes", f: p07_large_bytes, quick: 10_000, thorough: 500_000 },
            ],
            known: vec![],
        },
    ]
}
