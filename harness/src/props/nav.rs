//! P19: the navigator.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use kserd::nav::*;
use kserd::{Kserd, Value};

/// One node of the reference tree.
struct R<'a> {
    k: &'a Kserd<'a>,
    parent: Option<usize>,
    pos: usize,
    key: bool,
    keys: Vec<usize>,
    vals: Vec<usize>,
}

fn tree<'a>(k: &'a Kserd<'a>, parent: Option<usize>, pos: usize, key: bool, out: &mut Vec<R<'a>>) -> usize {
    let me = out.len();
    out.push(R { k, parent, pos, key, keys: vec![], vals: vec![] });
    let (mut keys, mut vals) = (vec![], vec![]);
    match &k.val {
        Value::Tuple(v) | Value::Seq(v) => {
            for (i, x) in v.iter().enumerate() {
                vals.push(tree(x, Some(me), i, false, out));
            }
        }
        Value::Cntr(v) => {
            for (i, x) in v.values().enumerate() {
                vals.push(tree(x, Some(me), i, false, out));
            }
        }
        Value::Map(v) => {
            for (i, (q, x)) in v.iter().enumerate() {
                keys.push(tree(q, Some(me), i, true, out));
                vals.push(tree(x, Some(me), i, false, out));
            }
        }
        _ => (),
    }
    out[me].keys = keys;
    out[me].vals = vals;
    me
}

fn depth_first(t: &[R], i: usize, out: &mut Vec<usize>) {
    for p in 0..t[i].vals.len() {
        if let Some(&k) = t[i].keys.get(p) {
            out.push(k);
            depth_first(t, k, out);
        }
        let v = t[i].vals[p];
        out.push(v);
        depth_first(t, v, out);
    }
}

fn breadth_first(t: &[R], i: usize) -> Vec<usize> {
    let mut out = Vec::new();
    let mut level = vec![i];
    while !level.is_empty() {
        let mut next = Vec::new();
        for &n in &level {
            next.extend(&t[n].keys);
            next.extend(&t[n].vals);
        }
        out.extend(&next);
        level = next;
    }
    out
}

/// An iterator's items while its length counts down.
macro_rules! drain {
    ($iter:expr, $what:expr, $show:expr) => {{
        let mut it = $iter;
        let n = it.len();
        let mut out = Vec::new();
        loop {
            ensure!(it.len() + out.len() == n, "length of an iterator", "{}: {} + {} of {}\n{}", $what, it.len(), out.len(), n, $show);
            ensure!(it.is_empty() == (it.len() == 0), "emptiness of an iterator", "{}\n{}", $what, $show);
            match it.next() {
                Some(x) => out.push(x),
                None => break,
            }
        }
        ensure!(out.len() == n, "length of an iterator", "{}: gave {} of {}\n{}", $what, out.len(), n, $show);
        ensure!(it.next().is_none(), "iterator goes on", "{}\n{}", $what, $show);
        out
    }};
}

fn p19(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let mut m = match s.below(6) {
        0 => chain(s, Opt { ids: 2, max_nodes: 30 }),
        _ => value(s, Opt { ids: 2, max_nodes: 30 }),
    };
    if s.chance(1, 4) && m.count() < 60 {
        super::value::rename(s, &mut m, true);
    }
    ctx.sample(|| m.show());
    let show = || m.show();
    let k = m.to_kserd();
    let mut t = Vec::new();
    tree(&k, None, 0, false, &mut t);
    let nav = Navigator::new(&k);

    ensure!(nav.len() == t.len(), "number of nodes", "{} expected {}\n{}", nav.len(), t.len(), show());
    ensure!(!nav.is_empty(), "navigator is empty", "{}", show());
    let order: Vec<usize> = nav.nodes().map(|n| n.index()).collect();
    ensure!(order == (0..t.len()).collect::<Vec<_>>(), "nodes", "{:?}\n{}", order, show());
    ensure!(nav.root().index() == 0, "root", "{}", show());
    for past in [t.len(), t.len() + 1, usize::MAX] {
        ensure!(nav.get(past).is_none(), "node out of range", "{}\n{}", past, show());
    }
    for (n, i) in nav.nodes().zip(0..) {
        let r = &t[i];
        // finding the position takes time in proportion to the number of siblings
        if t.len() > 5000 && i > 50 && i + 50 < t.len() && i % 101 != 0 {
            continue;
        }
        ensure!(std::ptr::eq(n.kserd(), r.k), "value of a node", "node {} is {:?}\n{}", i, n.kserd(), show());
        let g = nav.get(i);
        ensure!(g.map_or(false, |g| g == n && g.index() == i), "node by index", "{}\n{}", i, show());
        ensure!(n.parent().map(|p| p.index()) == r.parent, "parent", "of {}: {:?}\n{}", i, n.parent().map(|p| p.index()), show());
        ensure!(n.is_key() == r.key, "key status", "of {}: {}\n{}", i, n.is_key(), show());
        ensure!(n.idx_in_parent() == r.pos, "position", "of {}: {} expected {}\n{}", i, n.idx_in_parent(), r.pos, show());
        ensure!(std::ptr::eq(n.nav(), &nav), "navigator of a node", "{}\n{}", i, show());

        let vals: Vec<usize> = drain!(n.value_children(), "children", show()).iter().map(|x| x.index()).collect();
        ensure!(vals == r.vals, "children", "of {}: {:?} expected {:?}\n{}", i, vals, r.vals, show());
        let keys: Vec<usize> = drain!(n.key_children(), "keys", show()).iter().map(|x| x.index()).collect();
        ensure!(keys == r.keys, "keys", "of {}: {:?} expected {:?}\n{}", i, keys, r.keys, show());

        let got: Vec<usize> = n.descendants_depth().iter().map(|x| x.index()).collect();
        let mut exp = Vec::new();
        depth_first(&t, i, &mut exp);
        ensure!(got == exp, "depth-first descendants", "of {}: {:?} expected {:?}\n{}", i, got, exp, show());
        let got: Vec<usize> = n.descendants_breadth().iter().map(|x| x.index()).collect();
        let exp = breadth_first(&t, i);
        ensure!(got == exp, "breadth-first descendants", "of {}: {:?} expected {:?}\n{}", i, got, exp, show());

        match (n.value(), &r.k.val) {
            (NodeValue::Tuple(it), Value::Tuple(_)) | (NodeValue::Seq(it), Value::Seq(_)) => {
                let got: Vec<usize> = drain!(it, "elements", show()).iter().map(|x| x.index()).collect();
                ensure!(got == r.vals, "elements", "of {}: {:?} expected {:?}\n{}", i, got, r.vals, show());
            }
            (NodeValue::Cntr(it), Value::Cntr(v)) => {
                let got = drain!(it, "fields", show());
                let a: Vec<(&str, usize)> = got.iter().map(|(f, x)| (f.as_str(), x.index())).collect();
                let b: Vec<(&str, usize)> = v.keys().map(|f| f.as_str()).zip(r.vals.iter().copied()).collect();
                ensure!(a == b, "fields", "of {}: {:?} expected {:?}\n{}", i, a, b, show());
            }
            (NodeValue::Map(it), Value::Map(_)) => {
                let got = drain!(it, "entries", show());
                let a: Vec<(usize, usize)> = got.iter().map(|(q, x)| (q.index(), x.index())).collect();
                let b: Vec<(usize, usize)> = r.keys.iter().copied().zip(r.vals.iter().copied()).collect();
                ensure!(a == b, "entries", "of {}: {:?} expected {:?}\n{}", i, a, b, show());
            }
            (NodeValue::Primitive, Value::Tuple(_) | Value::Seq(_) | Value::Cntr(_) | Value::Map(_)) => {
                return fail("kind of a node", format!("{} is primitive\n{}", i, show()))
            }
            (NodeValue::Primitive, _) => (),
            _ => return fail("kind of a node", format!("{}\n{}", i, show())),
        }
        let _ = format!("{:?}", n);
    }
    for (i, a) in nav.nodes().enumerate() {
        for (j, b) in nav.nodes().enumerate().take(6) {
            ensure!((a == b) == (i == j), "equality of nodes", "{} {}\n{}", i, j, show());
        }
    }
    ctx.label_if(t.iter().any(|r| r.key && !r.vals.is_empty()), "composite key");
    ctx.label_if(t.len() > 10, "more than ten nodes");
    if t.len() > 3 && m.depth() > 2 {
        ctx.nontrivial(m.fp());
    }
    Ok(())
}

crate::large! {
    p19_large = p19, usize::MAX;
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P19",
        rule: "values of four or more nodes nested two or more levels; distinct by rendering",
        assumptions: &[],
        subs: vec![
            Sub { name: "navigator", f: p19, quick: 2_400_000, thorough: 30_000_000 },
            Sub { name: "large", f: p19_large, quick: 4_000, thorough: 200_000 },
        ],
        known: vec![],
    }]
}
