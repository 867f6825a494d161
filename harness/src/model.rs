//! An independent model of values: plain owned trees with reference definitions of equality,
//! ordering and number semantics. Nothing here relies on kserd's own comparison or conversion code.

use crate::engine::hash64;
use kserd::{Barr, Kserd, Kstr, Number, Value};
use std::borrow::Cow;
use std::cmp::Ordering;
use std::fmt::Write;

#[derive(Clone, Copy, Debug)]
pub enum N {
    U(u128),
    I(i128),
    F(f64),
}

#[derive(Clone, Debug)]
pub struct M {
    pub id: Option<String>,
    pub v: MV,
}

#[derive(Clone, Debug)]
pub enum MV {
    Unit,
    Bool(bool),
    Num(N),
    Str(String),
    Barr(Vec<u8>),
    Tuple(Vec<M>),
    Cntr(Vec<(String, M)>),
    Seq(Vec<M>),
    Map(Vec<(M, M)>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Prim,
    Tuple,
    Cntr,
    Seq,
    Map,
}

// ------------------------------------------------------------------ exact numbers

/// The exact mathematical value of a number.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Exact {
    NegInf,
    /// (-1)^neg * mant * 2^exp, mant odd unless zero (then neg = false, exp = 0).
    Fin { neg: bool, mant: u128, exp: i32 },
    PosInf,
    NaN,
}

fn norm(neg: bool, mut mant: u128, mut exp: i32) -> Exact {
    if mant == 0 {
        return Exact::Fin { neg: false, mant: 0, exp: 0 };
    }
    let tz = mant.trailing_zeros();
    mant >>= tz;
    exp += tz as i32;
    Exact::Fin { neg, mant, exp }
}

pub fn exact(n: N) -> Exact {
    match n {
        N::U(u) => norm(false, u, 0),
        N::I(i) => norm(i < 0, i.unsigned_abs(), 0),
        N::F(f) => {
            if f.is_nan() {
                return Exact::NaN;
            }
            if f == f64::INFINITY {
                return Exact::PosInf;
            }
            if f == f64::NEG_INFINITY {
                return Exact::NegInf;
            }
            let bits = f.to_bits();
            let neg = bits >> 63 == 1;
            let e = ((bits >> 52) & 0x7ff) as i32;
            let frac = bits & ((1u64 << 52) - 1);
            if e == 0 {
                norm(neg, frac as u128, -1074)
            } else {
                norm(neg, (frac | (1u64 << 52)) as u128, e - 1075)
            }
        }
    }
}

fn cmp_mag(m1: u128, e1: i32, m2: u128, e2: i32) -> Ordering {
    if m1 == 0 || m2 == 0 {
        return m1.cmp(&m2);
    }
    // position of the top bit
    let t1 = e1 as i64 + 127 - m1.leading_zeros() as i64;
    let t2 = e2 as i64 + 127 - m2.leading_zeros() as i64;
    if t1 != t2 {
        return t1.cmp(&t2);
    }
    // same magnitude class: align both to the top of the word and compare
    (m1 << m1.leading_zeros()).cmp(&(m2 << m2.leading_zeros()))
}

/// The documented number line: -inf .. 0 .. +inf, NaN.
pub fn cmp_exact(a: Exact, b: Exact) -> Ordering {
    use Exact::*;
    fn rank(x: &Exact) -> u8 {
        match x {
            NegInf => 0,
            Fin { .. } => 1,
            PosInf => 2,
            NaN => 3,
        }
    }
    match (a, b) {
        (Fin { neg: n1, mant: m1, exp: e1 }, Fin { neg: n2, mant: m2, exp: e2 }) => match (n1, n2) {
            (false, false) => cmp_mag(m1, e1, m2, e2),
            (true, true) => cmp_mag(m2, e2, m1, e1),
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
        },
        _ => rank(&a).cmp(&rank(&b)),
    }
}

pub fn cmp_num(a: N, b: N) -> Ordering {
    cmp_exact(exact(a), exact(b))
}

/// Same representation and same bits (all NaNs alike).
pub fn same_num(a: N, b: N) -> bool {
    match (a, b) {
        (N::U(a), N::U(b)) => a == b,
        (N::I(a), N::I(b)) => a == b,
        (N::F(a), N::F(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
        _ => false,
    }
}

impl N {
    pub fn to_number(self) -> Number {
        match self {
            N::U(x) => Number::Uint(x),
            N::I(x) => Number::Int(x),
            N::F(x) => Number::Float(x),
        }
    }
    pub fn from_number(n: &Number) -> N {
        match n {
            Number::Uint(x) => N::U(*x),
            Number::Int(x) => N::I(*x),
            Number::Float(x) => N::F(*x),
        }
    }
}

// ------------------------------------------------------------------ conversions

impl M {
    pub fn new(v: MV) -> M {
        M { id: None, v }
    }
    pub fn with(id: &str, v: MV) -> M {
        M { id: Some(id.to_string()), v }
    }
    pub fn kind(&self) -> Kind {
        match self.v {
            MV::Tuple(_) => Kind::Tuple,
            MV::Cntr(_) => Kind::Cntr,
            MV::Seq(_) => Kind::Seq,
            MV::Map(_) => Kind::Map,
            _ => Kind::Prim,
        }
    }
    pub fn is_empty_like(&self) -> bool {
        match &self.v {
            MV::Unit => true,
            MV::Tuple(x) => x.is_empty(),
            MV::Cntr(x) => x.is_empty(),
            _ => false,
        }
    }

    /// The value under test, owned throughout.
    pub fn to_kserd(&self) -> Kserd<'static> {
        self.build(&mut || true).into_owned_parts()
    }

    /// The value under test; `own` decides for each string, name and byte array whether it is owned.
    pub fn build<'a>(&'a self, own: &mut dyn FnMut() -> bool) -> Kserd<'a> {
        let mut ks = |s: &'a str| -> Kstr<'a> {
            if own() {
                Kstr { inner: Cow::Owned(s.to_string()) }
            } else {
                Kstr { inner: Cow::Borrowed(s) }
            }
        };
        let id = self.id.as_deref().map(&mut ks);
        let val = match &self.v {
            MV::Unit => Value::Unit,
            MV::Bool(b) => Value::Bool(*b),
            MV::Num(n) => Value::Num(n.to_number()),
            MV::Str(s) => Value::Str(ks(s)),
            MV::Barr(b) => Value::Barr(if own() {
                Barr { inner: Cow::Owned(b.clone()) }
            } else {
                Barr { inner: Cow::Borrowed(b) }
            }),
            MV::Tuple(v) => Value::Tuple(v.iter().map(|x| x.build(own)).collect()),
            MV::Seq(v) => Value::Seq(v.iter().map(|x| x.build(own)).collect()),
            MV::Cntr(v) => Value::Cntr(
                v.iter()
                    .map(|(k, x)| {
                        let k = if own() {
                            Kstr { inner: Cow::Owned(k.clone()) }
                        } else {
                            Kstr { inner: Cow::Borrowed(k.as_str()) }
                        };
                        (k, x.build(own))
                    })
                    .collect(),
            ),
            MV::Map(v) => Value::Map(v.iter().map(|(k, x)| (k.build(own), x.build(own))).collect()),
        };
        Kserd { id, val }
    }

    /// Reads a value under test structurally.
    pub fn read(k: &Kserd) -> M {
        M {
            id: k.id.as_ref().map(|s| s.inner.to_string()),
            v: match &k.val {
                Value::Unit => MV::Unit,
                Value::Bool(b) => MV::Bool(*b),
                Value::Num(n) => MV::Num(N::from_number(n)),
                Value::Str(s) => MV::Str(s.inner.to_string()),
                Value::Barr(b) => MV::Barr(b.inner.to_vec()),
                Value::Tuple(v) => MV::Tuple(v.iter().map(M::read).collect()),
                Value::Seq(v) => MV::Seq(v.iter().map(M::read).collect()),
                Value::Cntr(v) => MV::Cntr(v.iter().map(|(k, x)| (k.inner.to_string(), M::read(x))).collect()),
                Value::Map(v) => MV::Map(v.iter().map(|(k, x)| (M::read(k), M::read(x))).collect()),
            },
        }
    }

    /// Number of nodes, counting map keys.
    pub fn count(&self) -> usize {
        1 + self.children().iter().map(|c| c.count()).sum::<usize>()
    }

    /// Children in depth-first order: map keys directly before their values.
    pub fn children(&self) -> Vec<&M> {
        match &self.v {
            MV::Tuple(v) | MV::Seq(v) => v.iter().collect(),
            MV::Cntr(v) => v.iter().map(|x| &x.1).collect(),
            MV::Map(v) => v.iter().flat_map(|(k, x)| [k, x]).collect(),
            _ => vec![],
        }
    }

    pub fn depth(&self) -> usize {
        1 + self.children().iter().map(|c| c.depth()).max().unwrap_or(0)
    }

    pub fn any(&self, f: &mut dyn FnMut(&M) -> bool) -> bool {
        f(self) || self.children().iter().any(|c| c.any(f))
    }

    /// Compact rendering, identities as `id!`.
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_into(&mut s);
        s
    }

    fn show_into(&self, s: &mut String) {
        if let Some(id) = &self.id {
            let _ = write!(s, "{:?}!", id);
        }
        match &self.v {
            MV::Unit => s.push_str("unit"),
            MV::Bool(b) => {
                let _ = write!(s, "{}", b);
            }
            MV::Num(N::U(x)) => {
                let _ = write!(s, "{}u", x);
            }
            MV::Num(N::I(x)) => {
                let _ = write!(s, "{}i", x);
            }
            MV::Num(N::F(x)) => {
                let _ = write!(s, "{:?}f", x);
            }
            MV::Str(x) => {
                let _ = write!(s, "{:?}", x);
            }
            MV::Barr(x) => {
                let _ = write!(s, "b{:?}", x);
            }
            MV::Tuple(v) => {
                s.push_str("T(");
                for x in v {
                    x.show_into(s);
                    s.push(' ');
                }
                s.push(')');
            }
            MV::Seq(v) => {
                s.push_str("S[");
                for x in v {
                    x.show_into(s);
                    s.push(' ');
                }
                s.push(']');
            }
            MV::Cntr(v) => {
                s.push_str("C(");
                for (k, x) in v {
                    let _ = write!(s, "{:?}=", k);
                    x.show_into(s);
                    s.push(' ');
                }
                s.push(')');
            }
            MV::Map(v) => {
                s.push_str("M{");
                for (k, x) in v {
                    k.show_into(s);
                    s.push_str(" -> ");
                    x.show_into(s);
                    s.push_str("; ");
                }
                s.push('}');
            }
        }
    }

    pub fn fp(&self) -> u64 {
        hash64(self.show().as_bytes())
    }
}

trait IntoOwnedParts {
    fn into_owned_parts(self) -> Kserd<'static>;
}
impl IntoOwnedParts for Kserd<'_> {
    /// Rebuilds an already owned value with a 'static lifetime, not using kserd's conversion.
    fn into_owned_parts(self) -> Kserd<'static> {
        fn s(k: Kstr) -> Kstr<'static> {
            Kstr { inner: Cow::Owned(k.inner.into_owned()) }
        }
        Kserd {
            id: self.id.map(s),
            val: match self.val {
                Value::Unit => Value::Unit,
                Value::Bool(b) => Value::Bool(b),
                Value::Num(n) => Value::Num(n),
                Value::Str(x) => Value::Str(s(x)),
                Value::Barr(b) => Value::Barr(Barr { inner: Cow::Owned(b.inner.into_owned()) }),
                Value::Tuple(v) => Value::Tuple(v.into_iter().map(|x| x.into_owned_parts()).collect()),
                Value::Seq(v) => Value::Seq(v.into_iter().map(|x| x.into_owned_parts()).collect()),
                Value::Cntr(v) => Value::Cntr(v.into_iter().map(|(k, x)| (s(k), x.into_owned_parts())).collect()),
                Value::Map(v) => Value::Map(
                    v.into_iter().map(|(k, x)| (k.into_owned_parts(), x.into_owned_parts())).collect(),
                ),
            },
        }
    }
}

// ------------------------------------------------------------------ comparison

/// How two models are compared.
#[derive(Clone, Copy, Debug)]
pub struct Cmp {
    /// Identities count.
    pub ids: bool,
    /// Unit, empty tuple and empty container are one thing (the notation writes them alike).
    pub empties: bool,
    /// Numbers must have the same representation, not just the same value.
    pub repr: bool,
}

pub const EXACT: Cmp = Cmp { ids: true, empties: false, repr: true };
/// What text can preserve, identities included.
pub const TEXT: Cmp = Cmp { ids: true, empties: true, repr: false };
/// What text can preserve, identities apart.
pub const TEXT_VAL: Cmp = Cmp { ids: false, empties: true, repr: false };

/// None if alike, otherwise a description of the first difference.
pub fn diff(a: &M, b: &M, c: Cmp) -> Option<String> {
    diff_at(a, b, c, "root")
}

/// As `diff(..).is_none()`, without describing.
pub fn same(a: &M, b: &M, c: Cmp) -> bool {
    if c.ids && a.id != b.id {
        return false;
    }
    if c.empties && a.is_empty_like() && b.is_empty_like() {
        return true;
    }
    match (&a.v, &b.v) {
        (MV::Unit, MV::Unit) => true,
        (MV::Bool(x), MV::Bool(y)) => x == y,
        (MV::Num(x), MV::Num(y)) => {
            if c.repr {
                same_num(*x, *y)
            } else {
                cmp_num(*x, *y) == Ordering::Equal
            }
        }
        (MV::Str(x), MV::Str(y)) => x == y,
        (MV::Barr(x), MV::Barr(y)) => x == y,
        (MV::Tuple(x), MV::Tuple(y)) | (MV::Seq(x), MV::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q, c)),
        (MV::Cntr(x), MV::Cntr(y)) => {
            x.len() == y.len() && x.iter().all(|(k, p)| y.iter().find(|(k2, _)| k == k2).is_some_and(|(_, q)| same(p, q, c)))
        }
        (MV::Map(x), MV::Map(y)) => {
            x.len() == y.len()
                && x.iter().enumerate().all(|(i, (k, p))| entry(y, i, k, c).is_some_and(|(k2, q)| (!c.ids || same(k, k2, c)) && same(p, q, c)))
        }
        _ => false,
    }
}

/// The entry with the key, identities apart. It is usually at the same place.
fn entry<'a>(y: &'a [(M, M)], i: usize, k: &M, c: Cmp) -> Option<&'a (M, M)> {
    let kc = Cmp { ids: false, ..c };
    y.get(i).filter(|(k2, _)| same(k, k2, kc)).or_else(|| {
        y.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, e)| e).find(|(k2, _)| same(k, k2, kc))
    })
}

fn diff_at(a: &M, b: &M, c: Cmp, at: &str) -> Option<String> {
    if c.ids && a.id != b.id {
        return Some(format!("at {}: identity {:?} became {:?}", at, a.id, b.id));
    }
    if c.empties && a.is_empty_like() && b.is_empty_like() {
        return None;
    }
    let mism = || Some(format!("at {}: {} became {}", at, a.show(), b.show()));
    match (&a.v, &b.v) {
        (MV::Unit, MV::Unit) => None,
        (MV::Bool(x), MV::Bool(y)) if x == y => None,
        (MV::Num(x), MV::Num(y)) => {
            let ok = if c.repr { same_num(*x, *y) } else { cmp_num(*x, *y) == Ordering::Equal };
            if ok {
                None
            } else {
                mism()
            }
        }
        (MV::Str(x), MV::Str(y)) if x == y => None,
        (MV::Barr(x), MV::Barr(y)) if x == y => None,
        (MV::Tuple(x), MV::Tuple(y)) | (MV::Seq(x), MV::Seq(y)) => {
            if x.len() != y.len() {
                return mism();
            }
            x.iter().zip(y).enumerate().find_map(|(i, (p, q))| diff_at(p, q, c, &format!("{}[{}]", at, i)))
        }
        (MV::Cntr(x), MV::Cntr(y)) => {
            if x.len() != y.len() {
                return mism();
            }
            for (k, p) in x {
                match y.iter().find(|(k2, _)| k == k2) {
                    None => return mism(),
                    Some((_, q)) => {
                        if let Some(d) = diff_at(p, q, c, &format!("{}.{}", at, k)) {
                            return Some(d);
                        }
                    }
                }
            }
            None
        }
        (MV::Map(x), MV::Map(y)) => {
            if x.len() != y.len() {
                return mism();
            }
            for (i, (k, p)) in x.iter().enumerate() {
                match entry(y, i, k, c) {
                    None => return mism(),
                    Some((k2, q)) => {
                        if c.ids {
                            if let Some(d) = diff_at(k, k2, c, &format!("{}{{{}}}<key>", at, i)) {
                                return Some(d);
                            }
                        }
                        if let Some(d) = diff_at(p, q, c, &format!("{}{{{}}}", at, i)) {
                            return Some(d);
                        }
                    }
                }
            }
            None
        }
        _ => mism(),
    }
}

/// What the text of `m` can be expected to read back as, given which identities are displayed.
/// `shown(index, node)` is asked for every node with its depth-first index; unit values always
/// display their identity.
pub fn displayed(m: &M, shown: &dyn Fn(usize, &M) -> bool) -> M {
    fn go(m: &M, next: &mut usize, shown: &dyn Fn(usize, &M) -> bool) -> M {
        let i = *next;
        *next += 1;
        let show = match &m.v {
            MV::Unit => true,
            _ => shown(i, m),
        };
        let id = if show { m.id.clone() } else { None };
        let v = match &m.v {
            MV::Tuple(v) => MV::Tuple(v.iter().map(|x| go(x, next, shown)).collect()),
            MV::Seq(v) => MV::Seq(v.iter().map(|x| go(x, next, shown)).collect()),
            MV::Cntr(v) => MV::Cntr(v.iter().map(|(k, x)| (k.clone(), go(x, next, shown))).collect()),
            MV::Map(v) => MV::Map(
                v.iter()
                    .map(|(k, x)| {
                        let k = go(k, next, shown);
                        (k, go(x, next, shown))
                    })
                    .collect(),
            ),
            other => other.clone(),
        };
        M { id, v }
    }
    let mut n = 0;
    go(m, &mut n, shown)
}
