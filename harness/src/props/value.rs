//! P16, P17, P18, P20: values.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use kserd::{Barr, Kserd, Kstr, Value};
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

const WIDE: Opt = Opt { ids: 3, max_nodes: 20 };

// ------------------------------------------------------------------ helpers on models

/// The node at a position in depth-first order.
pub fn node_mut<'m>(m: &'m mut M, at: &mut usize) -> Option<&'m mut M> {
    if *at == 0 {
        return Some(m);
    }
    *at -= 1;
    match &mut m.v {
        MV::Tuple(v) | MV::Seq(v) => {
            for x in v {
                if let Some(r) = node_mut(x, at) {
                    return Some(r);
                }
            }
            None
        }
        MV::Cntr(v) => {
            for (_, x) in v {
                if let Some(r) = node_mut(x, at) {
                    return Some(r);
                }
            }
            None
        }
        MV::Map(v) => {
            for (k, x) in v {
                if let Some(r) = node_mut(k, at) {
                    return Some(r);
                }
                if let Some(r) = node_mut(x, at) {
                    return Some(r);
                }
            }
            None
        }
        _ => None,
    }
}

/// Drops entries whose key is equal to an earlier one and orders fields by name.
pub fn normalise(m: &mut M) {
    match &mut m.v {
        MV::Tuple(v) | MV::Seq(v) => v.iter_mut().for_each(normalise),
        MV::Cntr(v) => {
            let old = std::mem::take(v);
            for (n, mut x) in old {
                normalise(&mut x);
                push_field(v, n, x);
            }
        }
        MV::Map(v) => {
            let old = std::mem::take(v);
            for (mut k, mut x) in old {
                normalise(&mut k);
                normalise(&mut x);
                if !v.iter().any(|(k2, _)| req(k2, &k)) {
                    v.push((k, x));
                }
            }
        }
        _ => (),
    }
}

/// Reference equality of values.
pub fn req(a: &M, b: &M) -> bool {
    use MV::*;
    match (&a.v, &b.v) {
        (Unit, Unit) => true,
        (Bool(a), Bool(b)) => a == b,
        (Num(a), Num(b)) => cmp_num(*a, *b) == Ordering::Equal,
        (Str(a), Str(b)) => a == b,
        (Barr(a), Barr(b)) => a == b,
        (Tuple(a), Tuple(b)) | (Seq(a), Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| req(a, b)),
        (Tuple(a), Cntr(b)) => a.is_empty() && b.is_empty(),
        (Cntr(a), Tuple(b)) => a.is_empty() && b.is_empty(),
        (Cntr(a), Cntr(b)) => a.len() == b.len() && a.iter().zip(b).all(|((n, a), (o, b))| n == o && req(a, b)),
        (Map(a), Map(b)) => {
            a.len() == b.len() && a.iter().all(|(k, x)| b.iter().any(|(l, y)| req(k, l) && req(x, y)))
        }
        _ => false,
    }
}

/// The index, depth first, of the node with the most children.
fn widest(m: &M) -> usize {
    fn go(m: &M, n: &mut usize, best: &mut (usize, usize)) {
        let c = m.children();
        if c.len() > best.0 {
            *best = (c.len(), *n);
        }
        *n += 1;
        c.into_iter().for_each(|x| go(x, n, best));
    }
    let mut best = (0, 0);
    go(m, &mut 0, &mut best);
    best.1
}

/// A length below another, often by a round number.
fn shorter(s: &mut Src, len: usize) -> usize {
    match s.below(4) {
        0 => s.below(len + 1),
        1 => len / 2,
        2 => len.saturating_sub(1 << s.below(17)),
        _ => len.saturating_sub(256 * s.range(1, 4)),
    }
}

/// A name that differs little from another.
fn close_name(s: &mut Src, n: &str) -> String {
    match s.below(7) {
        0 => n.to_ascii_lowercase(),
        1 => n.to_ascii_uppercase(),
        2 => n.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        3 => format!("{}{}", n, s.pick(&["_", "-", "0", "s", "a"])),
        4 => format!("_{}", n),
        5 => n.replace('_', "-"),
        _ => {
            let mut v: Vec<char> = n.chars().collect();
            if v.len() > 1 {
                v.pop();
            }
            v.into_iter().collect()
        }
    }
}

/// Says the same with a value of another kind: a number as the text that spells it, a flag as a
/// number, a list for its only entry, a map for a container.
pub fn other_kind(s: &mut Src, n: &mut M) {
    if s.chance(1, 6) {
        let x = M::new(std::mem::replace(&mut n.v, MV::Unit));
        n.v = if s.flag() { MV::Seq(vec![x]) } else { MV::Tuple(vec![x]) };
        return;
    }
    match (&mut n.v, n.id.take()) {
        // the name apart from the value: as a string, or as the only field or key
        (_, Some(id)) if s.chance(1, 4) => {
            let v = M::new(std::mem::replace(&mut n.v, MV::Unit));
            n.v = match s.below(3) {
                0 => MV::Str(id),
                1 => MV::Cntr(vec![(id, v)]),
                _ => MV::Map(vec![(M::new(MV::Str(id)), v)]),
            };
            return;
        }
        // the only element for the list
        (MV::Tuple(v) | MV::Seq(v), id) if v.len() == 1 && s.flag() => {
            n.v = v.pop().expect("one").v;
            n.id = id;
            return;
        }
        (_, id) => n.id = id,
    }
    n.v = match std::mem::replace(&mut n.v, MV::Unit) {
        MV::Unit => match s.below(4) {
            0 => MV::Str(String::new()),
            1 => MV::Str(s.pick(&["null", "()", "None", "nil"]).to_string()),
            2 => MV::Num(N::U(0)),
            _ => MV::Seq(vec![]),
        },
        MV::Bool(b) => match s.below(3) {
            0 => MV::Num(N::U(b as u128)),
            1 => MV::Num(N::F(b as u8 as f64)),
            _ => MV::Str(b.to_string()),
        },
        MV::Num(x) => match s.below(6) {
            0 => MV::Bool(cmp_num(x, N::U(0)) != Ordering::Equal),
            1 => match x {
                N::U(x) if x < 0x11_0000 => MV::Str(char::from_u32(x as u32).map(String::from).unwrap_or_default()),
                _ => MV::Str(x.to_number().to_string()),
            },
            2 => MV::Str(s.pick(&["inf", "-inf", "NaN", "nan", "infinity", "0", "1", "-1", "0x10", "1e3", "1.5"]).to_string()),
            _ => MV::Str(x.to_number().to_string()),
        },
        MV::Str(x) => match (s.below(5), x.parse::<f64>()) {
            (_, Ok(f)) => MV::Num(N::F(f)),
            (0, _) => MV::Barr(x.into_bytes()),
            (1, _) => MV::Seq(x.chars().map(|c| M::new(MV::Str(c.to_string()))).collect()),
            (2, _) => MV::Num(N::U(x.chars().next().map_or(0, |c| c as u128))),
            (3, _) => MV::Str(s.pick(&["inf", "-inf", "NaN", "true", "false", "0", "1", "-1", "1.5", "()"]).to_string()),
            _ => MV::Bool(!x.is_empty()),
        },
        MV::Barr(x) => match s.below(2) {
            0 => MV::Str(String::from_utf8_lossy(&x).into_owned()),
            _ => MV::Seq(x.iter().map(|b| M::new(MV::Num(N::U(*b as u128)))).collect()),
        },
        MV::Tuple(v) => MV::Seq(v),
        MV::Seq(v) => match s.below(3) {
            0 => MV::Map(v.into_iter().enumerate().map(|(i, x)| (M::new(MV::Num(N::U(i as u128))), x)).collect()),
            _ => MV::Tuple(v),
        },
        MV::Cntr(v) => match s.below(3) {
            0 => MV::Seq(v.into_iter().map(|(k, x)| M::new(MV::Tuple(vec![M::new(MV::Str(k)), x]))).collect()),
            _ => MV::Map(v.into_iter().map(|(k, x)| (M::new(MV::Str(k)), x)).collect()),
        },
        MV::Map(v) => {
            if v.iter().all(|(k, _)| matches!(k.v, MV::Str(_))) {
                let mut c = Vec::new();
                for (k, x) in v {
                    if let MV::Str(k) = k.v {
                        push_field(&mut c, k, x);
                    }
                }
                MV::Cntr(c)
            } else {
                MV::Seq(v.into_iter().map(|(k, x)| M::new(MV::Tuple(vec![k, x]))).collect())
            }
        }
    };
}

/// A small change somewhere in a value: of content, kind, identity, or none at all.
pub fn mutate(s: &mut Src, m: &mut M) {
    let mut at = s.below(m.count());
    if m.count() > 60 && s.flag() {
        // the part with the most parts of its own
        at = widest(m);
    }
    let fresh = match s.below(8) {
        0 => Some(value(s, Opt { ids: 2, max_nodes: 4 })),
        _ => None,
    };
    let n = node_mut(m, &mut at).expect("node");
    if let Some(f) = fresh {
        *n = f;
        normalise(m);
        return;
    }
    if s.chance(1, 10) {
        other_kind(s, n);
        normalise(m);
        return;
    }
    if s.chance(1, 8) {
        match &mut n.v {
            MV::Str(x) => *x = x.chars().take(shorter(s, x.chars().count())).collect(),
            MV::Barr(x) => x.truncate(shorter(s, x.len())),
            MV::Tuple(x) | MV::Seq(x) => x.truncate(shorter(s, x.len())),
            MV::Cntr(x) => x.truncate(shorter(s, x.len())),
            MV::Map(x) => x.truncate(shorter(s, x.len())),
            _ => (),
        }
        normalise(m);
        return;
    }
    match s.below(5) {
        0 => {
            n.id = match (s.below(4), n.id.take()) {
                (0, _) => None,
                (1, Some(id)) => Some(close_name(s, &id)),
                _ => Some(name(s)),
            };
            return;
        }
        1 if n.is_empty_like() => {
            n.v = match s.below(3) {
                0 => MV::Unit,
                1 => MV::Tuple(vec![]),
                _ => MV::Cntr(vec![]),
            };
        }
        _ => match &mut n.v {
            MV::Unit => n.v = MV::Tuple(vec![]),
            MV::Bool(b) => *b = !*b,
            MV::Num(x) => *x = near(s, *x),
            MV::Str(x) => match s.below(5) {
                0 => x.push(char_any(s)),
                1 => {
                    x.pop();
                }
                2 => *x = x.to_uppercase(),
                3 => {
                    let b = x.clone().into_bytes();
                    n.v = MV::Barr(b);
                }
                _ => *x = x.chars().rev().collect(),
            },
            MV::Barr(x) => match s.below(4) {
                0 => x.push(s.upto(255) as u8),
                1 => {
                    x.pop();
                }
                2 => x.reverse(),
                _ => {
                    let t = String::from_utf8_lossy(x).into_owned();
                    n.v = MV::Str(t);
                }
            },
            MV::Tuple(v) => match s.below(5) {
                0 => {
                    v.pop();
                }
                1 => v.reverse(),
                2 => n.v = MV::Seq(std::mem::take(v)),
                3 => {
                    let x = prim(s, WIDE);
                    v.push(x);
                }
                _ => {
                    if !v.is_empty() {
                        v.remove(0);
                    }
                }
            },
            MV::Seq(v) => match s.below(5) {
                0 => {
                    v.pop();
                }
                1 => v.reverse(),
                2 => n.v = MV::Tuple(std::mem::take(v)),
                3 => {
                    let x = prim(s, WIDE);
                    v.push(x);
                }
                _ => {
                    if !v.is_empty() {
                        v.remove(0);
                    }
                }
            },
            MV::Cntr(v) => match s.below(5) {
                0 => {
                    v.pop();
                }
                1 => {
                    let f = name(s);
                    let x = prim(s, WIDE);
                    push_field(v, f, x);
                }
                2 => {
                    if !v.is_empty() {
                        let i = s.below(v.len());
                        v[i].0 = if s.flag() { name(s) } else { close_name(s, &v[i].0) };
                    }
                }
                3 => n.v = MV::Tuple(std::mem::take(v).into_iter().map(|x| x.1).collect()),
                _ => {
                    let w = std::mem::take(v);
                    n.v = MV::Map(w.into_iter().map(|(k, x)| (M::new(MV::Str(k)), x)).collect());
                }
            },
            MV::Map(v) => match s.below(4) {
                0 => {
                    v.pop();
                }
                1 => {
                    let (k, x) = (prim(s, WIDE), prim(s, WIDE));
                    push_entry(v, k, x);
                }
                2 => {
                    // exchange the values of two keys
                    if v.len() > 1 {
                        let i = s.below(v.len());
                        let j = s.below(v.len());
                        let t = v[i].1.clone();
                        v[i].1 = std::mem::replace(&mut v[j].1, t);
                    }
                }
                _ => n.v = MV::Seq(std::mem::take(v).into_iter().map(|x| x.1).collect()),
            },
        },
    }
    normalise(m);
}

/// Puts names the notation cannot carry in a few places: a value is built without its checks.
pub fn rename(s: &mut Src, m: &mut M, fields: bool) {
    if m.id.is_some() && s.chance(1, 6) {
        m.id = Some(any_name(s));
    }
    match &mut m.v {
        MV::Tuple(v) | MV::Seq(v) => v.iter_mut().for_each(|x| rename(s, x, fields)),
        MV::Cntr(v) => {
            if fields && !v.is_empty() && s.chance(1, 4) {
                let i = s.below(v.len());
                let n = any_name(s);
                if v.iter().all(|x| x.0 != n) {
                    v[i].0 = n;
                    v.sort_by(|a, b| a.0.cmp(&b.0));
                }
            }
            v.iter_mut().for_each(|x| rename(s, &mut x.1, fields));
        }
        MV::Map(v) => v.iter_mut().for_each(|(k, x)| {
            rename(s, k, false);
            rename(s, x, fields);
        }),
        _ => {}
    }
}

fn any_value(s: &mut Src) -> M {
    let mut m = value(s, WIDE);
    if s.chance(1, 4) && m.count() < 60 {
        rename(s, &mut m, true);
    }
    normalise(&mut m);
    m
}

// ------------------------------------------------------------------ P16

fn compare(a: &M, b: &M, x: &Kserd, y: &Kserd) -> Result<Ordering, Fail> {
    let eq = req(a, b);
    let show = || format!("{}\n{}", a.show(), b.show());
    ensure!((x == y) == eq, "equality", "equal is {}, expected {}\n{}", x == y, eq, show());
    ensure!((y == x) == eq, "equality is not symmetric", "{}", show());
    ensure!((x != y) == !eq, "inequality", "{}", show());
    ensure!((x.val == y.val) == eq, "equality of bare values", "{}", show());
    let c = x.cmp(y);
    ensure!((c == Ordering::Equal) == eq, "order disagrees with equality", "order {:?}, equal {}\n{}", c, eq, show());
    ensure!(y.cmp(x) == c.reverse(), "order is not antisymmetric", "{:?} and {:?}\n{}", c, y.cmp(x), show());
    ensure!(x.partial_cmp(y) == Some(c), "partial order", "{:?} and {:?}\n{}", x.partial_cmp(y), c, show());
    ensure!(x.val.cmp(&y.val) == c && x.val.partial_cmp(&y.val) == Some(c), "order of bare values", "{}", show());
    ensure!((x < y) == (c == Ordering::Less) && (x >= y) == (c != Ordering::Less), "comparison operators", "{}", show());
    Ok(c)
}

fn p16_triples(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let a = any_value(s);
    let mut b = a.clone();
    for _ in 0..s.weighted(&[1, 4, 2, 1]) {
        mutate(s, &mut b);
    }
    let mut c = match s.below(4) {
        0 => any_value(s),
        1 => a.clone(),
        _ => b.clone(),
    };
    for _ in 0..s.weighted(&[1, 4, 1]) {
        mutate(s, &mut c);
    }
    let ms = [a, b, c];
    ctx.sample(|| ms.iter().map(|m| m.show()).collect::<Vec<_>>().join("\n"));
    let ks: Vec<Kserd> = ms.iter().map(|m| m.to_kserd()).collect();
    let mut o = [[Ordering::Equal; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = compare(&ms[i], &ms[j], &ks[i], &ks[j])?;
        }
    }
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                if o[i][j] != Ordering::Greater && o[j][k] != Ordering::Greater {
                    ensure!(
                        o[i][k] != Ordering::Greater,
                        "order is not transitive",
                        "{}\n{}\n{}",
                        ms[i].show(),
                        ms[j].show(),
                        ms[k].show()
                    );
                }
            }
        }
    }
    let eq = o[0][1] == Ordering::Equal;
    ctx.label_if(eq, "equal pair");
    let ids = diff(&ms[0], &ms[1], EXACT).is_some();
    ctx.label_if(eq && ids, "equal pair with a difference that does not count");
    if ms[0].count() > 1 || !eq {
        ctx.nontrivial(hash64(format!("{}|{}|{}", ms[0].show(), ms[1].show(), ms[2].show()).as_bytes()));
    }
    Ok(())
}

fn p16_keys(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let n = s.range(2, 9);
    let mut ms: Vec<M> = Vec::new();
    for _ in 0..n {
        let m = if !ms.is_empty() && s.chance(3, 4) {
            let mut m = s.pick(&ms).clone();
            mutate(s, &mut m);
            m
        } else {
            let mut m = value(s, Opt { ids: 3, max_nodes: 6 });
            normalise(&mut m);
            m
        };
        ms.push(m);
    }
    let show = || ms.iter().map(|m| m.show()).collect::<Vec<_>>().join("\n");
    ctx.sample(|| show());
    let mut model: Vec<(usize, usize)> = Vec::new();
    let mut map: BTreeMap<Kserd, usize> = BTreeMap::new();
    for (i, m) in ms.iter().enumerate() {
        let k = m.to_kserd();
        let old = model.iter().position(|(j, _)| req(&ms[*j], m));
        ensure!(
            map.get(&k).copied() == old.map(|p| model[p].1),
            "lookup in a map",
            "looking up {}\nfound {:?} in\n{}",
            m.show(),
            map.get(&k),
            show()
        );
        if s.chance(1, 5) {
            let r = map.remove(&k);
            ensure!(r == old.map(|p| model[p].1), "removal from a map", "removing {}\nfrom\n{}", m.show(), show());
            if let Some(p) = old {
                model.remove(p);
            }
        } else {
            let r = map.insert(k, i);
            ensure!(r == old.map(|p| model[p].1), "insertion into a map", "inserting {}\ninto\n{}", m.show(), show());
            match old {
                Some(p) => model[p].1 = i,
                None => model.push((i, i)),
            }
        }
        ensure!(map.len() == model.len(), "size of a map", "{} expected {}\n{}", map.len(), model.len(), show());
    }
    // a map value made of the same keys holds each once
    let v = Value::new_map(ms.iter().map(|m| (m.to_kserd(), Kserd::new_unit())));
    let mut distinct: Vec<&M> = Vec::new();
    for m in &ms {
        if !distinct.iter().any(|d| req(d, m)) {
            distinct.push(m);
        }
    }
    let map = v.map().expect("a map");
    ensure!(map.len() == distinct.len(), "keys of a map value", "{} expected {}\n{}", map.len(), distinct.len(), show());
    let keys: Vec<&Kserd> = map.keys().collect();
    ensure!(keys.windows(2).all(|w| w[0] < w[1]), "keys are not in order", "{}", show());
    ensure!(ms.iter().all(|m| map.contains_key(&m.to_kserd())), "key not found", "{}", show());
    ctx.label_if(distinct.len() < ms.len(), "repeated key");
    ctx.nontrivial(hash64(show().as_bytes()));
    Ok(())
}

// ------------------------------------------------------------------ P17

/// None if every string, name and byte array is owned (or borrowed), else what is not.
fn audit(k: &Kserd, owned: bool) -> Option<String> {
    fn st(x: &Kstr, owned: bool, what: &str) -> Option<String> {
        if matches!(x.inner, Cow::Owned(_)) == owned {
            None
        } else {
            Some(format!("{} {:?}", what, x.inner))
        }
    }
    if let Some(id) = &k.id {
        if let Some(e) = st(id, owned, "identity") {
            return Some(e);
        }
    }
    match &k.val {
        Value::Str(x) => st(x, owned, "string"),
        Value::Barr(b) => {
            if matches!(b.inner, Cow::Owned(_)) == owned {
                None
            } else {
                Some(format!("bytes {:?}", b.inner))
            }
        }
        Value::Tuple(v) | Value::Seq(v) => v.iter().find_map(|x| audit(x, owned)),
        Value::Cntr(v) => v.iter().find_map(|(n, x)| st(n, owned, "field name").or_else(|| audit(x, owned))),
        Value::Map(v) => v.iter().find_map(|(n, x)| audit(n, owned).or_else(|| audit(x, owned))),
        _ => None,
    }
}

/// None if a view shares all its content with the original.
fn shares(a: &Kserd, b: &Kserd) -> bool {
    fn st(a: &str, b: &str) -> bool {
        a.is_empty() || (a.as_ptr() == b.as_ptr() && a.len() == b.len())
    }
    let id = match (&a.id, &b.id) {
        (Some(a), Some(b)) => st(a, b),
        (None, None) => true,
        _ => false,
    };
    id && match (&a.val, &b.val) {
        (Value::Str(a), Value::Str(b)) => st(a, b),
        (Value::Barr(a), Value::Barr(b)) => a.is_empty() || a.as_bytes().as_ptr() == b.as_bytes().as_ptr(),
        (Value::Tuple(a), Value::Tuple(b)) | (Value::Seq(a), Value::Seq(b)) => a.iter().zip(b).all(|(a, b)| shares(a, b)),
        (Value::Cntr(a), Value::Cntr(b)) => a.iter().zip(b).all(|((m, a), (n, b))| st(m, n) && shares(a, b)),
        (Value::Map(a), Value::Map(b)) => a.iter().zip(b).all(|((m, a), (n, b))| shares(m, n) && shares(a, b)),
        _ => true,
    }
}

/// Writes all over a value through its mutable accessors.
fn scramble(k: &mut Kserd) {
    k.id = Some(Kstr::brwed("scrambled"));
    if let Some(b) = k.bool_mut() {
        *b = !*b;
    }
    if let Some(n) = k.num_mut() {
        *n = 77u8.into();
    }
    if let Some(x) = k.str_mut() {
        x.insert(0, '!');
    }
    if let Some(x) = k.barr_mut() {
        x.insert(0, 1);
    }
    if let Some(v) = k.tuple_or_seq_mut() {
        v.iter_mut().for_each(scramble);
        v.push(Kserd::new_unit());
    }
    if let Some(mut v) = k.cntr_mut() {
        v.values_mut().for_each(scramble);
        v.insert(Kstr::brwed("zzz"), Kserd::new_unit());
    }
    if let Some(v) = k.map_mut() {
        v.values_mut().for_each(scramble);
        v.insert(Kserd::new_str("zzz"), Kserd::new_unit());
    }
}

fn p17_copies(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let m = any_value(s);
    let mode = s.below(3);
    let picks: Vec<bool> = (0..16).map(|_| s.flag()).collect();
    let mut i = 0;
    let mut own = || {
        i += 1;
        match mode {
            0 => true,
            1 => false,
            _ => picks[i % 16],
        }
    };
    ctx.sample(|| format!("{} {}", mode, m.show()));
    let k = m.build(&mut own);
    let expect = M::read(&k);
    let same = |what: &str, x: &Kserd| -> Result<(), Fail> {
        match diff(&expect, &M::read(x), EXACT) {
            None => Ok(()),
            Some(d) => fail(&format!("{} differs", what), format!("{}\n{}", d, m.show())),
        }
    };
    // clone
    let c = k.clone();
    same("clone", &c)?;
    let v = k.val.clone();
    same("clone of the bare value", &Kserd { id: k.id.clone(), val: v })?;
    // view
    {
        let b = k.mk_brw();
        same("view", &b)?;
        if let Some(e) = audit(&b, false) {
            return fail("view owns something", format!("{} in {}", e, m.show()));
        }
        ensure!(shares(&k, &b), "view does not share the content", "{}", m.show());
        let bv = Kserd { id: None, val: k.val.mk_brw() };
        same("view of the bare value", &Kserd { id: b.id.clone(), val: bv.val.clone() })?;
        // a view of the view, an owned view
        let bb = b.mk_brw();
        same("view of a view", &bb)?;
        let bo = bb.clone().into_owned();
        same("owned view", &bo)?;
        if let Some(e) = audit(&bo, true) {
            return fail("owned view borrows something", format!("{} in {}", e, m.show()));
        }
        // writing to a view leaves the original
        let mut w = k.mk_brw();
        scramble(&mut w);
        same("original after writing to a view", &k)?;
    }
    // owned
    let o = k.clone().into_owned();
    same("owned copy", &o)?;
    if let Some(e) = audit(&o, true) {
        return fail("owned copy borrows something", format!("{} in {}", e, m.show()));
    }
    let ov = k.val.clone().into_owned();
    same("owned bare value", &Kserd { id: k.id.clone(), val: ov })?;
    // writing to copies leaves the original
    let mut w = k.clone();
    scramble(&mut w);
    same("original after writing to a clone", &k)?;
    let mut w = k.clone().into_owned();
    scramble(&mut w);
    same("original after writing to an owned copy", &k)?;
    same("clone after writing to other copies", &c)?;

    ctx.label(["owned", "borrowed", "mixed"][mode]);
    if m.count() > 1 && mode != 0 {
        ctx.nontrivial(m.fp());
    }
    Ok(())
}

fn hh<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// Text that differs little from the given one.
fn close_text(s: &mut Src, a: &str) -> String {
    let mut v: Vec<char> = a.chars().collect();
    let i = s.below(v.len() + 1);
    match s.below(7) {
        0 => v.push(char_any(s)),
        1 => v.push(*s.pick(&[' ', '\0', '\n', '\t', '\u{301}'])),
        2 => {
            v.pop();
        }
        3 if i < v.len() => {
            v[i] = if v[i].is_ascii_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() };
        }
        4 if i < v.len() => v[i] = char_any(s),
        5 if i + 1 < v.len() => v.swap(i, i + 1),
        _ => v.insert(i, char_any(s)),
    }
    v.into_iter().collect()
}

fn p17_text(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let a = string(s);
    let b = match s.below(4) {
        0 => a.clone(),
        1 | 2 => close_text(s, &a),
        _ => string(s),
    };
    ctx.sample(|| format!("{:?} {:?}", a, b));
    let forms = |x: &'_ str| -> [Kstr<'static>; 2] { [Kstr::owned(x.to_string()), Kstr::from(x.to_string())] };
    let fa = [Kstr::brwed(&a), Kstr::from(a.as_str()), forms(&a)[0].clone(), forms(&a)[1].clone().into_owned()];
    let fb = [Kstr::brwed(&b), forms(&b)[0].clone()];
    for x in &fa {
        ensure!(x.as_str() == a && &**x == a.as_str() && AsRef::<str>::as_ref(x) == a, "content of a string", "{:?} {:?}", a, x);
        ensure!(x.to_string() == a && *x == *a.as_str(), "display of a string", "{:?} {:?}", a, x);
        ensure!(hh(x) == hh(a.as_str()), "hash of a string", "{:?} {:?}", a, x);
        ensure!((*x == *b.as_str()) == (a == b), "equality with a native string", "{:?} {:?}", x, b);
        for y in &fb {
            ensure!((x == y) == (a == b), "equality of strings", "{:?} {:?}", x, y);
            ensure!(x.cmp(y) == a.as_str().cmp(b.as_str()), "order of strings", "{:?} {:?}", x, y);
            ensure!(x.partial_cmp(y) == Some(x.cmp(y)), "order of strings", "{:?} {:?}", x, y);
        }
        let mut w = x.clone();
        w.to_mut().push('x');
        ensure!(w.as_str() == format!("{}x", a) && x.as_str() == a, "writing to a string", "{:?} {:?}", x, w);
        ensure!(matches!(x.clone().into_owned().inner, Cow::Owned(t) if t == a), "owned string", "{:?}", x);
    }
    let a = bytes(s);
    let b = match s.below(4) {
        0 => a.clone(),
        1 => bytes(s),
        k => {
            let mut b = a.clone();
            let i = s.below(b.len() + 1);
            match k {
                2 if i < b.len() => b[i] ^= 1 << s.below(8),
                _ => b.insert(i, s.upto(255) as u8),
            }
            b
        }
    };
    let fa = [Barr::brwed(&a), Barr::from(a.as_slice()), Barr::owned(a.clone()), Barr::from(a.clone()).into_owned()];
    let fb = [Barr::brwed(&b), Barr::owned(b.clone())];
    for x in &fa {
        ensure!(x.as_bytes() == a && &**x == a.as_slice() && *x == *a.as_slice(), "content of bytes", "{:?} {:?}", a, x);
        ensure!((*x == *b.as_slice()) == (a == b), "equality with native bytes", "{:?} {:?}", x, b);
        for y in &fb {
            ensure!((x == y) == (a == b), "equality of bytes", "{:?} {:?}", x, y);
            ensure!(x.cmp(y) == a.cmp(&b), "order of bytes", "{:?} {:?}", x, y);
            ensure!(a != b || hh(x) == hh(y), "hash of bytes", "{:?} {:?}", x, y);
        }
        let mut w = x.clone();
        w.to_mut().push(7);
        ensure!(w.as_bytes()[..a.len()] == a[..] && w.len() == a.len() + 1 && x.as_bytes() == a, "writing to bytes", "{:?} {:?}", x, w);
        ensure!(matches!(x.clone().into_owned().inner, Cow::Owned(t) if t == a), "owned bytes", "{:?}", x);
    }
    ctx.nontrivial(hash64(format!("{:?}{:?}", fa[0], b).as_bytes()));
    Ok(())
}

// ------------------------------------------------------------------ P18

const BAD_ID: &str = "(){}[]<> ,./\\=";
const BAD_FIELD: &str = " /\\\"\t'";

/// Characters that character classes disagree about: digits, spaces, letters, cases, controls.
const ODD: &[char] = &['²', '½', '٣', '５', '𝟘', 'Ⅷ', '\u{a0}', '\u{2003}', '\u{3000}', '\u{b}', '\u{c}', '\u{85}', '\u{200b}', '\u{feff}', 'ß', 'İ', '＿', '－', '（', '，', '＝', '／', '·', '\0', '\r', '\n'];

pub fn any_name(s: &mut Src) -> String {
    match s.weighted(&[3, 4, 2, 1]) {
        0 => name(s),
        1 => {
            // a name with one character put in
            let mut v: Vec<char> = name(s).chars().collect();
            let c = match s.below(4) {
                3 => *s.pick(ODD),
                0 => {
                    let t: Vec<char> = BAD_ID.chars().chain(BAD_FIELD.chars()).collect();
                    *s.pick(&t)
                }
                1 => (b'0' + s.below(10) as u8) as char,
                _ => char_any(s),
            };
            let i = s.below(v.len() + 1);
            v.insert(i, c);
            v.into_iter().collect()
        }
        2 => {
            let n = s.below(6);
            (0..n).map(|_| char_any(s)).collect()
        }
        _ => String::new(),
    }
}

fn p18_ids(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let n = any_name(s);
    let m = prim(s, WIDE);
    let ok = !n.chars().any(|c| BAD_ID.contains(c));
    let v = m.to_kserd().val;
    let rs = [
        Kserd::with_id(n.as_str(), v.clone()),
        Kserd::with_id(n.clone(), v.clone()),
        Kserd::with_id(Kstr::brwed(&n), v.clone()),
        Kserd::with_id(Kstr::owned(n.clone()), v.clone()),
    ];
    ctx.sample(|| format!("{:?} {}", n, ok));
    for r in rs {
        ensure!(r.is_ok() == ok, "identity", "{:?} gives {:?}", n, r);
        match r {
            Ok(k) => {
                ensure!(k.id() == Some(n.as_str()), "identity of the value", "{:?} gives {:?}", n, k.id());
                let d = diff(&M { id: None, ..m.clone() }, &M { id: None, ..M::read(&k) }, EXACT);
                ensure!(d.is_none(), "value", "{:?}", d);
            }
            Err(e) => {
                ensure!(e.to_string().contains(n.as_str()), "message does not name the identity", "{:?}: {}", n, e)
            }
        }
    }
    ctx.label(if ok { "accepted" } else { "refused" });
    if n.len() > 1 {
        ctx.nontrivial(hash64(n.as_bytes()));
    }
    Ok(())
}

fn field_ok(n: &str) -> bool {
    !n.is_empty() && !n.as_bytes()[0].is_ascii_digit() && !n.chars().any(|c| BAD_FIELD.contains(c))
}

fn p18_fields(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let n = s.below(6);
    let mut fields: Vec<(String, M)> = Vec::new();
    for _ in 0..n {
        let f = match s.weighted(&[5, 3, 2]) {
            0 => name(s),
            1 => {
                if fields.is_empty() {
                    any_name(s)
                } else {
                    s.pick(&fields).0.clone()
                }
            }
            _ => any_name(s),
        };
        fields.push((f, prim(s, WIDE)));
    }
    if s.chance(1, 64) {
        // many fields besides, before or after
        let n = if s.chance(1, 8) { s.range(60, 1100) } else { s.range(6, 60) };
        let p = name(s);
        for i in 0..n {
            let at = if s.flag() { fields.len() } else { 0 };
            fields.insert(at, (format!("{}{}", p, i), M::new(MV::Unit)));
        }
    }
    let ok = fields.iter().all(|(f, _)| field_ok(f));
    let show = || fields.iter().map(|(f, m)| format!("{:?}={}", f, m.show())).collect::<Vec<_>>().join(", ");
    ctx.sample(show);
    let mut expect: Vec<(String, M)> = Vec::new();
    for (f, m) in &fields {
        expect.retain(|(g, _)| g != f);
        expect.push((f.clone(), m.clone()));
    }
    expect.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
    let expect = M::new(MV::Cntr(expect));
    let rs: [Result<Kserd, _>; 4] = [
        Kserd::new_cntr(fields.iter().map(|(f, m)| (f.as_str(), m.to_kserd()))),
        Kserd::new_cntr(fields.iter().map(|(f, m)| (f.clone(), m.to_kserd()))),
        Value::new_cntr(fields.iter().map(|(f, m)| (f.as_str(), m.to_kserd()))).map(Kserd::new),
        Value::new_cntr(fields.iter().map(|(f, m)| (Kstr::brwed(f), m.to_kserd()))).map(Kserd::new),
    ];
    for r in rs {
        ensure!(r.is_ok() == ok, "container", "{} gives {:?}", show(), r);
        match r {
            Ok(k) => {
                let d = diff(&expect, &M::read(&k), EXACT);
                ensure!(d.is_none(), "fields", "{}: {}", show(), d.unwrap());
            }
            Err(e) => {
                let _ = e.to_string();
            }
        }
    }
    // maps: of equal keys the last value counts
    let ks: Vec<(M, M)> = fields.iter().map(|(f, m)| (M::new(MV::Str(f.clone())), m.clone())).collect();
    let k = Kserd::new_map(ks.iter().map(|(k, m)| (k.to_kserd(), m.to_kserd())));
    let mut exp: Vec<(M, M)> = Vec::new();
    for (a, m) in ks {
        exp.retain(|(b, _)| !req(&a, b));
        exp.push((a, m));
    }
    let map = k.map().expect("map");
    ensure!(map.len() == exp.len(), "entries of a map", "{}", show());
    for (a, m) in &exp {
        let got = map.get(&a.to_kserd()).map(M::read);
        ensure!(got.as_ref().map_or(false, |g| same(m, g, EXACT)), "entry of a map", "{}: {:?}", show(), got.map(|g| g.show()));
    }
    let dup = match &expect.v {
        MV::Cntr(v) => v.len() < fields.len(),
        _ => false,
    };
    ctx.label_if(dup, "repeated field");
    ctx.label(if ok { "accepted" } else { "refused" });
    if n > 0 {
        ctx.nontrivial(hash64(show().as_bytes()));
    }
    Ok(())
}

// ------------------------------------------------------------------ P20

fn list_is(v: &[Kserd], m: &[M]) -> bool {
    v.len() == m.len() && v.iter().zip(m).all(|(k, m)| same(m, &M::read(k), EXACT))
}

/// Every accessor of a value against the model.
fn accessors(k: &mut Kserd, m: &M) -> Result<(), Fail> {
    use MV::*;
    let show = || m.show();
    ensure!(k.id() == m.id.as_deref(), "identity accessor", "{:?} of {}", k.id(), show());
    ensure!(k.unit() == matches!(m.v, Unit), "unit accessor", "{}", show());
    let b = match &m.v {
        Bool(b) => Some(*b),
        _ => None,
    };
    ensure!(k.bool() == b, "bool accessor", "{:?} of {}", k.bool(), show());
    ensure!(k.bool_mut().copied() == b, "mutable bool accessor", "{}", show());
    let st = match &m.v {
        Str(x) => Some(x.as_str()),
        _ => None,
    };
    ensure!(k.str() == st, "string accessor", "{:?} of {}", k.str(), show());
    let ch = st.and_then(|x| {
        let mut i = x.chars();
        match (i.next(), i.next()) {
            (Some(c), None) => Some(c),
            _ => None,
        }
    });
    ensure!(k.ch() == ch, "char accessor", "{:?} of {}", k.ch(), show());
    let ba = match &m.v {
        Barr(x) => Some(x.as_slice()),
        _ => None,
    };
    ensure!(k.barr() == ba, "bytes accessor", "{:?} of {}", k.barr(), show());
    let nu = match &m.v {
        Num(n) => Some(*n),
        _ => None,
    };
    ensure!(k.float().is_some() == nu.is_some(), "float accessor", "{:?} of {}", k.float(), show());
    match nu {
        None => ensure!(k.uint().is_none() && k.int().is_none(), "integer accessor", "{:?} {:?} of {}", k.uint(), k.int(), show()),
        Some(n) => {
            // integers; the rule for floats is the subject of P14
            match n {
                N::U(x) => {
                    ensure!(k.uint() == Some(x) && k.int() == i128::try_from(x).ok(), "integer accessor", "{:?} {:?} of {}", k.uint(), k.int(), show())
                }
                N::I(x) => {
                    ensure!(k.int() == Some(x) && k.uint() == u128::try_from(x).ok(), "integer accessor", "{:?} {:?} of {}", k.uint(), k.int(), show())
                }
                N::F(x) => {
                    let f = k.float().unwrap();
                    ensure!(f.to_bits() == x.to_bits() || (f.is_nan() && x.is_nan()), "float accessor", "{:?} of {}", f, show());
                    ensure!(
                        x.fract() == 0.0 || (x - x.round()).abs() < 2e-10 || k.int().is_none() && k.uint().is_none(),
                        "integer accessor",
                        "{:?} {:?} of {}",
                        k.uint(),
                        k.int(),
                        show()
                    );
                }
            }
            let got = k.num_mut().map(|n| N::from_number(n));
            ensure!(got.map_or(false, |g| same_num(g, n)), "mutable number accessor", "{:?} of {}", got, show());
        }
    }
    ensure!(nu.is_some() || k.num_mut().is_none(), "mutable number accessor", "{}", show());
    ensure!(k.str_mut().is_some() == st.is_some(), "mutable string accessor", "{}", show());
    ensure!(k.barr_mut().is_some() == ba.is_some(), "mutable bytes accessor", "{}", show());
    let tu = match &m.v {
        Tuple(v) => Some(v),
        _ => None,
    };
    let se = match &m.v {
        Seq(v) => Some(v),
        _ => None,
    };
    let is = |x: Option<&Vec<Kserd>>, y: Option<&Vec<M>>| match (x, y) {
        (Some(x), Some(y)) => list_is(x, y),
        (None, None) => true,
        _ => false,
    };
    ensure!(is(k.tuple(), tu), "tuple accessor", "{:?} of {}", k.tuple(), show());
    ensure!(is(k.seq(), se), "sequence accessor", "{:?} of {}", k.seq(), show());
    ensure!(is(k.tuple_or_seq(), tu.or(se)), "tuple or sequence accessor", "{:?} of {}", k.tuple_or_seq(), show());
    ensure!(k.tuple_mut().is_some() == tu.is_some(), "mutable tuple accessor", "{}", show());
    ensure!(k.seq_mut().is_some() == se.is_some(), "mutable sequence accessor", "{}", show());
    ensure!(k.tuple_or_seq_mut().is_some() == (tu.is_some() || se.is_some()), "mutable tuple or sequence accessor", "{}", show());
    let is_map = matches!(m.v, Map(_));
    ensure!(k.map().is_some() == is_map && k.map_mut().is_some() == is_map, "map accessor", "{}", show());
    let is_cntr = matches!(m.v, Cntr(_));
    ensure!(k.cntr().is_some() == is_cntr && k.cntr_mut().is_some() == is_cntr, "container accessor", "{}", show());
    if let Map(v) = &m.v {
        let map = k.map().unwrap();
        ensure!(map.len() == v.len(), "entries", "{}", show());
        for (a, x) in v {
            let got = map.get(&a.to_kserd()).map(M::read);
            ensure!(got.map_or(false, |g| same(x, &g, EXACT)), "map entry", "{} of {}", a.show(), show());
        }
    }
    if let Cntr(v) = &m.v {
        for (f, x) in v {
            fields(k, f, Some(x))?;
        }
        for f in ["", "a", "zz", "a ", "A"] {
            let x = v.iter().find(|(g, _)| g == f).map(|x| &x.1);
            fields(k, f, x)?;
        }
        ensure!(k.cntr().unwrap().len() == v.len(), "fields", "{}", show());
    }
    Ok(())
}

/// The accessors of a named field.
fn fields(k: &mut Kserd, f: &str, m: Option<&M>) -> Result<(), Fail> {
    use MV::*;
    let v = m.map(|m| &m.v);
    let show = || format!("field {:?} is {:?}", f, m.map(|m| m.show()));
    {
        let a = k.cntr().unwrap();
        ensure!(a.get_unit(f).is_some() == matches!(v, Some(Unit)), "unit field", "{}", show());
        ensure!(a.get_bool(f) == v.and_then(|v| if let Bool(b) = v { Some(*b) } else { None }), "bool field", "{}", show());
        let n = a.get_num(f).map(|n| N::from_number(&n));
        let e = v.and_then(|v| if let Num(n) = v { Some(*n) } else { None });
        ensure!(n.is_some() == e.is_some() && (n.is_none() || same_num(n.unwrap(), e.unwrap())), "number field", "{:?} {}", n, show());
        ensure!(a.get_str(f) == v.and_then(|v| if let Str(x) = v { Some(x.as_str()) } else { None }), "string field", "{}", show());
        ensure!(a.get_barr(f) == v.and_then(|v| if let Barr(x) = v { Some(x.as_slice()) } else { None }), "bytes field", "{}", show());
        let l = |x: Option<&Vec<Kserd>>, y: Option<&Vec<M>>| match (x, y) {
            (Some(x), Some(y)) => list_is(x, y),
            (None, None) => true,
            _ => false,
        };
        let t = v.and_then(|v| if let Tuple(x) = v { Some(x) } else { None });
        let s = v.and_then(|v| if let Seq(x) = v { Some(x) } else { None });
        ensure!(l(a.get_tuple(f), t), "tuple field", "{}", show());
        ensure!(l(a.get_seq(f), s), "sequence field", "{}", show());
        ensure!(l(a.get_tuple_or_seq(f), t.or(s)), "tuple or sequence field", "{}", show());
        match (a.get_cntr(f), v) {
            (Some(c), Some(Cntr(x))) => ensure!(
                c.len() == x.len() && c.iter().zip(x).all(|((n, k), (o, m))| n.as_str() == o && same(m, &M::read(k), EXACT)),
                "container field",
                "{}",
                show()
            ),
            (None, x) if !matches!(x, Some(Cntr(_))) => (),
            _ => return fail("container field", show()),
        }
        match (a.get_map(f), v) {
            (Some(c), Some(Map(x))) => ensure!(
                c.len() == x.len() && x.iter().all(|(q, m)| c.get(&q.to_kserd()).map_or(false, |k| same(m, &M::read(k), EXACT))),
                "map field",
                "{}",
                show()
            ),
            (None, x) if !matches!(x, Some(Map(_))) => (),
            _ => return fail("map field", show()),
        }
    }
    let mut a = k.cntr_mut().unwrap();
    ensure!(a.get_bool_mut(f).is_some() == matches!(v, Some(Bool(_))), "mutable bool field", "{}", show());
    ensure!(a.get_num_mut(f).is_some() == matches!(v, Some(Num(_))), "mutable number field", "{}", show());
    ensure!(a.get_str_mut(f).is_some() == matches!(v, Some(Str(_))), "mutable string field", "{}", show());
    ensure!(a.get_barr_mut(f).is_some() == matches!(v, Some(Barr(_))), "mutable bytes field", "{}", show());
    ensure!(a.get_tuple_mut(f).is_some() == matches!(v, Some(Tuple(_))), "mutable tuple field", "{}", show());
    ensure!(a.get_seq_mut(f).is_some() == matches!(v, Some(Seq(_))), "mutable sequence field", "{}", show());
    ensure!(
        a.get_tuple_or_seq_mut(f).is_some() == matches!(v, Some(Tuple(_) | Seq(_))),
        "mutable tuple or sequence field",
        "{}",
        show()
    );
    ensure!(a.get_cntr_mut(f).is_some() == matches!(v, Some(Cntr(_))), "mutable container field", "{}", show());
    ensure!(a.get_map_mut(f).is_some() == matches!(v, Some(Map(_))), "mutable map field", "{}", show());
    // the mutable accessor reads the same
    ensure!(a.get_str(f) == v.and_then(|v| if let Str(x) = v { Some(x.as_str()) } else { None }), "string field, mutable accessor", "{}", show());
    Ok(())
}

fn walk(k: &mut Kserd, m: &M) -> Result<(), Fail> {
    accessors(k, m)?;
    match (&mut k.val, &m.v) {
        (Value::Tuple(v), MV::Tuple(w)) | (Value::Seq(v), MV::Seq(w)) => {
            for (k, m) in v.iter_mut().zip(w) {
                walk(k, m)?;
            }
        }
        (Value::Cntr(v), MV::Cntr(w)) => {
            for (k, m) in v.values_mut().zip(w) {
                walk(k, &m.1)?;
            }
        }
        (Value::Map(v), MV::Map(w)) => {
            for (q, m) in w {
                let k = v.get_mut(&q.to_kserd()).expect("entry");
                walk(k, m)?;
            }
        }
        _ => (),
    }
    Ok(())
}

fn p20_access(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let m = any_value(s);
    let mode = s.below(3);
    let mut flip = false;
    let mut k = m.build(&mut || {
        flip = !flip;
        match mode {
            0 => true,
            1 => false,
            _ => flip,
        }
    });
    ctx.sample(|| m.show());
    walk(&mut k, &m)?;
    // having asked changed nothing
    let d = diff(&M::read(&m.to_kserd()), &M::read(&k), EXACT);
    ensure!(d.is_none(), "reading changed the value", "{} in {}", d.unwrap(), m.show());
    if m.count() > 1 {
        ctx.nontrivial(m.fp());
    }
    Ok(())
}

/// Picks a place reachable by mutation (not inside map keys) as child numbers.
fn path(s: &mut Src, m: &M) -> Vec<usize> {
    let mut p = Vec::new();
    let mut m = m;
    loop {
        let n = match &m.v {
            MV::Tuple(v) | MV::Seq(v) => v.len(),
            MV::Cntr(v) => v.len(),
            MV::Map(v) => v.len(),
            _ => 0,
        };
        if n == 0 || s.chance(1, 3) {
            return p;
        }
        let i = s.below(n);
        p.push(i);
        m = match &m.v {
            MV::Tuple(v) | MV::Seq(v) => &v[i],
            MV::Cntr(v) => &v[i].1,
            MV::Map(v) => &v[i].1,
            _ => unreachable!(),
        };
    }
}

fn at_model<'m>(mut m: &'m mut M, p: &[usize]) -> &'m mut M {
    for &i in p {
        m = match &mut m.v {
            MV::Tuple(v) | MV::Seq(v) => &mut v[i],
            MV::Cntr(v) => &mut v[i].1,
            MV::Map(v) => &mut v[i].1,
            _ => unreachable!(),
        };
    }
    m
}

/// The same place in the value, found through the accessors.
fn at_kserd<'k, 'a>(k: &'k mut Kserd<'a>, m: &M, p: &[usize]) -> &'k mut Kserd<'a> {
    let Some((&i, rest)) = p.split_first() else { return k };
    match (&m.v, &mut k.val) {
        (MV::Tuple(w), Value::Tuple(v)) | (MV::Seq(w), Value::Seq(v)) => at_kserd(&mut v[i], &w[i], rest),
        (MV::Cntr(w), Value::Cntr(v)) => at_kserd(v.get_mut(w[i].0.as_str()).expect("field"), &w[i].1, rest),
        (MV::Map(w), Value::Map(v)) => at_kserd(v.get_mut(&w[i].0.to_kserd()).expect("entry"), &w[i].1, rest),
        _ => unreachable!(),
    }
}

fn sync(m: &mut M) {
    if let MV::Cntr(v) = &mut m.v {
        v.sort_by(|a, b| a.0.cmp(&b.0));
    }
}

/// One mutation of both, through an accessor. Returns what it was.
fn step(s: &mut Src, k: &mut Kserd, m: &mut M) -> Result<&'static str, Fail> {
    let p = path(s, m);
    let before = m.clone();
    let t = at_kserd(k, &before, &p);
    let w = at_model(m, &p);
    let small = Opt { ids: 2, max_nodes: 3 };
    Ok(match s.below(12) {
        0 => {
            if let Some(b) = t.bool_mut() {
                *b = !*b;
            }
            if let MV::Bool(b) = &mut w.v {
                *b = !*b;
            }
            "bool"
        }
        1 => {
            let n = num(s);
            if let Some(x) = t.num_mut() {
                *x = n.to_number();
            }
            if let MV::Num(x) = &mut w.v {
                *x = n;
            }
            "number"
        }
        2 => {
            let c = char_any(s);
            let how = s.below(4);
            let f = |x: &mut String| match how {
                0 => x.push(c),
                1 => {
                    x.pop();
                }
                2 => x.clear(),
                _ => x.insert(0, c),
            };
            if let Some(x) = t.str_mut() {
                f(x);
            }
            if let MV::Str(x) = &mut w.v {
                f(x);
            }
            "string"
        }
        3 => {
            let c = s.upto(255) as u8;
            let how = s.below(3);
            let f = |x: &mut Vec<u8>| match how {
                0 => x.push(c),
                1 => {
                    x.pop();
                }
                _ => x.insert(0, c),
            };
            if let Some(x) = t.barr_mut() {
                f(x);
            }
            if let MV::Barr(x) = &mut w.v {
                f(x);
            }
            "bytes"
        }
        n @ 4..=6 => {
            // lists
            let mut e = value(s, small);
            normalise(&mut e);
            let how = s.below(3);
            let list = match n {
                4 => t.tuple_mut(),
                5 => t.seq_mut(),
                _ => t.tuple_or_seq_mut(),
            };
            if let Some(v) = list {
                match how {
                    0 => v.push(e.to_kserd()),
                    1 => {
                        v.pop();
                    }
                    _ => v.insert(0, e.to_kserd()),
                }
            }
            let hit = match (&w.v, n) {
                (MV::Tuple(_), 4 | 6) => true,
                (MV::Seq(_), 5 | 6) => true,
                _ => false,
            };
            if hit {
                if let MV::Tuple(v) | MV::Seq(v) = &mut w.v {
                    match how {
                        0 => v.push(e),
                        1 => {
                            v.pop();
                        }
                        _ => v.insert(0, e),
                    }
                }
            }
            "list"
        }
        7 => {
            let f = name(s);
            let mut e = value(s, small);
            normalise(&mut e);
            let del = s.chance(1, 3);
            let old = match &w.v {
                MV::Cntr(v) if del && !v.is_empty() => Some(v[s.below(v.len())].0.clone()),
                _ => None,
            };
            if let Some(mut c) = t.cntr_mut() {
                match &old {
                    Some(o) => {
                        c.remove(o.as_str());
                    }
                    None => {
                        c.insert(Kstr::owned(f.clone()), e.to_kserd());
                    }
                }
            }
            if let MV::Cntr(v) = &mut w.v {
                match &old {
                    Some(o) => v.retain(|x| x.0 != *o),
                    None => {
                        v.retain(|x| x.0 != f);
                        v.push((f, e));
                    }
                }
            }
            sync(w);
            "fields"
        }
        8 => {
            let mut q = prim(s, small);
            let e = prim(s, small);
            let how = s.below(3);
            if let MV::Map(v) = &w.v {
                if how > 0 && !v.is_empty() {
                    q = v[s.below(v.len())].0.clone();
                }
            }
            let key = q.to_kserd();
            if let Some(v) = t.map_mut() {
                match how {
                    2 => {
                        v.remove(&key);
                    }
                    _ => {
                        v.insert(key, e.to_kserd());
                    }
                }
            }
            if let MV::Map(v) = &mut w.v {
                let i = v.iter().position(|x| req(&x.0, &q));
                match (how, i) {
                    (2, Some(i)) => {
                        v.remove(i);
                    }
                    (2, None) => (),
                    (_, Some(i)) => v[i].1 = e,
                    (_, None) => v.push((q, e)),
                }
            }
            "map"
        }
        9 => {
            // fields through the typed accessors
            let f = match &w.v {
                MV::Cntr(v) if !v.is_empty() => v[s.below(v.len())].0.clone(),
                _ => "a".to_string(),
            };
            let f = f.as_str();
            let n = num(s);
            let which = s.below(7);
            if let Some(mut c) = t.cntr_mut() {
                match which {
                    0 => {
                        if let Some(b) = c.get_bool_mut(f) {
                            *b = !*b;
                        }
                    }
                    1 => {
                        if let Some(x) = c.get_num_mut(f) {
                            *x = n.to_number();
                        }
                    }
                    2 => {
                        if let Some(x) = c.get_str_mut(f) {
                            x.push('~');
                        }
                    }
                    3 => {
                        if let Some(x) = c.get_barr_mut(f) {
                            x.push(9);
                        }
                    }
                    4 => {
                        if let Some(x) = c.get_tuple_or_seq_mut(f) {
                            x.push(Kserd::new_unit());
                        }
                        if let Some(x) = c.get_tuple_mut(f) {
                            x.push(Kserd::new_unit());
                        }
                        if let Some(x) = c.get_seq_mut(f) {
                            x.push(Kserd::new_unit());
                        }
                    }
                    5 => {
                        if let Some(mut x) = c.get_cntr_mut(f) {
                            x.insert(Kstr::brwed("zz"), Kserd::new_unit());
                        }
                    }
                    _ => {
                        if let Some(x) = c.get_map_mut(f) {
                            x.insert(Kserd::new(Value::new_str("zz")), Kserd::new_unit());
                        }
                    }
                }
            }
            if let MV::Cntr(v) = &mut w.v {
                if let Some((_, x)) = v.iter_mut().find(|x| x.0 == f) {
                    let unit = || M::new(MV::Unit);
                    match (which, &mut x.v) {
                        (0, MV::Bool(b)) => *b = !*b,
                        (1, MV::Num(y)) => *y = n,
                        (2, MV::Str(y)) => y.push('~'),
                        (3, MV::Barr(y)) => y.push(9),
                        (4, MV::Tuple(y)) | (4, MV::Seq(y)) => {
                            y.push(unit());
                            y.push(unit());
                        }
                        (5, MV::Cntr(y)) => {
                            y.retain(|z| z.0 != "zz");
                            y.push(("zz".into(), unit()));
                        }
                        (6, MV::Map(y)) => {
                            let q = M::new(MV::Str("zz".into()));
                            match y.iter().position(|z| req(&z.0, &q)) {
                                Some(i) => y[i].1 = unit(),
                                None => y.push((q, unit())),
                            }
                        }
                        _ => (),
                    }
                    sync(x);
                }
            }
            "typed field"
        }
        10 => {
            let mut e = value(s, small);
            normalise(&mut e);
            **t = e.to_kserd().val;
            w.v = e.v;
            "replace value"
        }
        _ => {
            t.id = Some(Kstr::brwed("renamed"));
            w.id = Some("renamed".into());
            "identity"
        }
    })
}

fn p20_mutate(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let src = any_value(s);
    let mut m = src.clone();
    let own = s.below(3);
    let mut flip = false;
    let mut k = src.build(&mut || {
        flip = !flip;
        match own {
            0 => false,
            1 => true,
            _ => flip,
        }
    });
    let n = s.range(1, 8);
    let mut hist = Vec::new();
    for _ in 0..n {
        let what = step(s, &mut k, &mut m)?;
        hist.push(what);
        let got = M::read(&k);
        let exp = M::read(&m.to_kserd());
        if let Some(d) = diff(&exp, &got, EXACT) {
            return fail("mutation", format!("{}\nafter {:?} on {}", d, hist, src.show()));
        }
    }
    walk(&mut k, &m)?;
    ctx.sample(|| format!("{:?} on {}", hist, src.show()));
    let changed = diff(&src, &m, EXACT).is_some();
    ctx.label_if(!changed, "nothing changed");
    if changed {
        ctx.nontrivial(hash64(format!("{:?}{}{}", hist, src.show(), m.show()).as_bytes()));
    }
    Ok(())
}

crate::large! {
    p16_large = p16_triples, usize::MAX;
    p17_large = p17_copies, usize::MAX;
    p17_large_text = p17_text, usize::MAX;
    p20_large = p20_access, usize::MAX;
    p20_large_mutate = p20_mutate, usize::MAX;
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P16",
            rule: "triples with a composite value or two different values; key sets of two or more; distinct by rendering",
            assumptions: &[],
            subs: vec![
                Sub { name: "triples", f: p16_triples, quick: 2_000_000, thorough: 50_000_000 },
                Sub { name: "keys", f: p16_keys, quick: 1_000_000, thorough: 25_000_000 },
                Sub { name: "large", f: p16_large, quick: 8_000, thorough: 400_000 },
            ],
            known: vec![],
        },
        Prop {
            id: "P17",
            rule: "composite value with borrowed parts; every pair of strings; distinct by rendering",
            assumptions: &[],
            subs: vec![
                Sub { name: "copies", f: p17_copies, quick: 800_000, thorough: 40_000_000 },
                Sub { name: "text", f: p17_text, quick: 1_000_000, thorough: 50_000_000 },
                Sub { name: "large", f: p17_large, quick: 8_000, thorough: 400_000 },
                Sub { name: "large-text", f: p17_large_text, quick: 8_000, thorough: 400_000 },
            ],
            known: vec![],
        },
        Prop {
            id: "P18",
            rule: "names of two or more bytes; field lists that are not empty; distinct by rendering",
            assumptions: &["the forbidden characters are the ones named by the error messages"],
            subs: vec![
                Sub { name: "identities", f: p18_ids, quick: 16_000_000, thorough: 200_000_000 },
                Sub { name: "fields", f: p18_fields, quick: 4_800_000, thorough: 60_000_000 },
            ],
            known: vec![],
        },
        Prop {
            id: "P20",
            rule: "composite values (access); histories that changed the value (mutation); distinct by rendering",
            assumptions: &[],
            subs: vec![
                Sub { name: "access", f: p20_access, quick: 600_000, thorough: 30_000_000 },
                Sub { name: "mutate", f: p20_mutate, quick: 600_000, thorough: 30_000_000 },
                Sub { name: "large", f: p20_large, quick: 8_000, thorough: 400_000 },
                Sub { name: "large-mutate", f: p20_large_mutate, quick: 8_000, thorough: 400_000 },
            ],
            known: vec![],
        },
    ]
}
