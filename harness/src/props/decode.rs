//! P23, P24: decoding values that were not encoded from the target type.

use super::encode;
use super::value::mutate;
use crate::dynty::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use kserd::encode::Decoder;
use kserd::{Kserd, Value};
use serde::de::{DeserializeSeed, Deserializer, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::Deserialize;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fmt;

// ------------------------------------------------------------------ P23: what decoding may give

/// What decoding must do.
#[derive(Debug, Clone)]
enum X {
    /// Give this.
    Must(Dv),
    /// Give this or refuse.
    May(Dv),
    /// Refuse.
    Never,
    /// Not to be judged here.
    Free,
}

impl X {
    fn map(self, f: impl FnOnce(Dv) -> Dv) -> X {
        match self {
            X::Must(v) => X::Must(f(v)),
            X::May(v) => X::May(f(v)),
            x => x,
        }
    }

    fn may(self) -> X {
        match self {
            X::Must(v) => X::May(v),
            x => x,
        }
    }

    fn only_if(self, exact: bool) -> X {
        if exact {
            self
        } else {
            self.may()
        }
    }

    /// All of them together.
    fn all(xs: impl IntoIterator<Item = X>) -> Result<(Vec<Dv>, bool), X> {
        let mut out = Vec::new();
        let (mut must, mut free) = (true, false);
        for x in xs {
            match x {
                X::Must(v) => out.push(v),
                X::May(v) => {
                    must = false;
                    out.push(v)
                }
                X::Never => return Err(X::Never),
                X::Free => free = true,
            }
        }
        if free {
            Err(X::Free)
        } else {
            Ok((out, must))
        }
    }
}

fn joined(r: Result<(Vec<Dv>, bool), X>, f: impl FnOnce(Vec<Dv>) -> Dv) -> X {
    match r {
        Ok((v, true)) => X::Must(f(v)),
        Ok((v, false)) => X::May(f(v)),
        Err(x) => x,
    }
}

fn list(ts: &[Ty], vs: &[M]) -> X {
    if ts.len() != vs.len() {
        return X::Never;
    }
    joined(X::all(ts.iter().zip(vs).map(|(t, m)| judge(t, m))), Dv::List)
}

fn by_name(names: &[Name], fs: &[Field], v: &[(String, M)]) -> X {
    joined(
        X::all(names.iter().zip(fs).map(|(n, f)| match v.iter().find(|x| x.0 == *n) {
            Some((_, m)) => judge(&f.ty, m),
            None if matches!(f.ty, Ty::Opt(_)) => X::Must(Dv::None),
            None => X::Never,
        })),
        Dv::List,
    )
}

fn record(names: &[Name], fs: &[Field], m: &M) -> X {
    match &m.v {
        MV::Cntr(v) => by_name(names, fs, v),
        MV::Tuple(v) | MV::Seq(v) if !v.is_empty() || fs.is_empty() => {
            let ts: Vec<Ty> = fs.iter().map(|f| f.ty.clone()).collect();
            list(&ts, v).may()
        }
        MV::Unit | MV::Tuple(_) | MV::Seq(_) => by_name(names, fs, &[]).may(),
        MV::Map(_) => X::Free,
        _ => X::Never,
    }
}

fn int_of_float(i: Int, f: f64) -> X {
    if !f.is_finite() {
        return X::Never;
    }
    let r = f.round();
    let w = if r >= 0.0 {
        if r >= 2f64.powi(128) {
            return X::Never;
        }
        Whole::Pos(r as u128)
    } else {
        if r < -(2f64.powi(127)) {
            return X::Never;
        }
        Whole::Neg(r as i128)
    };
    let off = (f - r).abs();
    if !i.holds(w) || off > 2e-10 {
        X::Never
    } else if off == 0.0 {
        X::Must(Dv::Int(w))
    } else {
        X::May(Dv::Int(w))
    }
}

/// The oracle: what the data denotes as a value of the type, if anything.
fn judge(t: &Ty, m: &M) -> X {
    let named = |n: &str| m.id.as_deref() == Some(n);
    match t {
        Ty::Unit => match &m.v {
            MV::Unit => X::Must(Dv::Unit),
            _ if m.is_empty_like() => X::May(Dv::Unit),
            _ => X::Never,
        },
        Ty::Bool => match &m.v {
            MV::Bool(b) => X::Must(Dv::Bool(*b)),
            _ => X::Never,
        },
        Ty::Int(i) => match &m.v {
            MV::Num(N::U(x)) if i.holds(Whole::Pos(*x)) => X::Must(Dv::Int(Whole::Pos(*x))),
            MV::Num(N::I(x)) => {
                let w = if *x < 0 { Whole::Neg(*x) } else { Whole::Pos(*x as u128) };
                if i.holds(w) {
                    X::Must(Dv::Int(w))
                } else {
                    X::Never
                }
            }
            MV::Num(N::F(f)) => int_of_float(*i, *f),
            _ => X::Never,
        },
        Ty::F64 => match &m.v {
            MV::Num(N::U(x)) => X::Must(Dv::F64(*x as f64)),
            MV::Num(N::I(x)) => X::Must(Dv::F64(*x as f64)),
            MV::Num(N::F(x)) => X::Must(Dv::F64(*x)),
            _ => X::Never,
        },
        Ty::F32 => match &m.v {
            MV::Num(N::U(x)) => X::Must(Dv::F32(*x as f32)),
            MV::Num(N::I(x)) => X::Must(Dv::F32(*x as f32)),
            MV::Num(N::F(x)) => X::Must(Dv::F32(*x as f32)),
            _ => X::Never,
        },
        Ty::Char => match &m.v {
            MV::Str(x) if x.chars().count() == 1 => X::Must(Dv::Char(x.chars().next().unwrap())),
            _ => X::Never,
        },
        Ty::Str => match &m.v {
            MV::Str(x) => X::Must(Dv::Str(x.clone())),
            MV::Barr(x) => match String::from_utf8(x.clone()) {
                Ok(x) => X::May(Dv::Str(x)),
                Err(_) => X::Never,
            },
            _ => X::Never,
        },
        Ty::Bytes => match &m.v {
            MV::Barr(x) => X::Must(Dv::Bytes(x.clone())),
            MV::Str(x) => X::May(Dv::Bytes(x.clone().into_bytes())),
            _ => X::Never,
        },
        Ty::Opt(t) => match &m.v {
            MV::Tuple(v) if v.is_empty() && named("None") => X::Must(Dv::None),
            MV::Tuple(v) if v.len() == 1 && named("Some") => judge(t, &v[0]).map(|v| Dv::Some(Box::new(v))),
            MV::Unit => X::Free,
            _ if m.is_empty_like() && named("None") => X::Free,
            _ => judge(t, m).map(|v| Dv::Some(Box::new(v))).may(),
        },
        Ty::UnitStruct(n) => match &m.v {
            MV::Tuple(v) if v.is_empty() => X::Must(Dv::Unit).only_if(named(n)),
            _ if m.is_empty_like() => X::May(Dv::Unit),
            _ => X::Never,
        },
        Ty::Newtype(n, t) => {
            let one = |v: Dv| Dv::List(vec![v]);
            let x = match &m.v {
                MV::Tuple(v) if v.len() == 1 => judge(t, &v[0]).map(one).only_if(named(n)),
                MV::Seq(v) if v.len() == 1 => judge(t, &v[0]).map(one).may(),
                _ => X::Never,
            };
            match x {
                X::Never => judge(t, m).map(one).may(),
                x => x,
            }
        }
        Ty::TupleStruct(n, ts) => match &m.v {
            MV::Tuple(v) => list(ts, v).only_if(named(n)),
            MV::Seq(v) => list(ts, v).may(),
            MV::Unit | MV::Cntr(_) if ts.is_empty() && m.is_empty_like() => X::May(Dv::List(vec![])),
            _ => X::Never,
        },
        Ty::Tuple(ts) => match &m.v {
            MV::Tuple(v) => list(ts, v).only_if(m.id.is_none()),
            MV::Seq(v) => list(ts, v).may(),
            MV::Unit | MV::Cntr(_) if ts.is_empty() && m.is_empty_like() => X::May(Dv::List(vec![])),
            _ => X::Never,
        },
        Ty::Struct(n, names, fs) => record(names, fs, m).only_if(named(n)),
        Ty::Seq(t, _) => match &m.v {
            MV::Seq(v) => joined(X::all(v.iter().map(|m| judge(t, m))), Dv::List),
            MV::Tuple(v) => joined(X::all(v.iter().map(|m| judge(t, m))), Dv::List).may(),
            _ if m.is_empty_like() => X::May(Dv::List(vec![])),
            _ => X::Never,
        },
        Ty::Map(k, x, _) => {
            let pairs = |v: &[(M, M)]| match (X::all(v.iter().map(|e| judge(k, &e.0))), X::all(v.iter().map(|e| judge(x, &e.1)))) {
                (Ok((a, p)), Ok((b, q))) => {
                    let d = Dv::Map(a.into_iter().zip(b).collect());
                    X::Must(d).only_if(p && q)
                }
                (Err(X::Never), _) | (_, Err(X::Never)) => X::Never,
                _ => X::Free,
            };
            match &m.v {
                MV::Map(v) => pairs(v),
                // a field name may also stand for the unit variant of that name
                MV::Cntr(v) => pairs(
                    &v.iter()
                        .map(|(n, x)| match &**k {
                            Ty::Enum(..) => (M { id: Some(n.clone()), v: MV::Unit }, x.clone()),
                            _ => (M::new(MV::Str(n.clone())), x.clone()),
                        })
                        .collect::<Vec<_>>(),
                )
                .may(),
                _ if m.is_empty_like() => X::May(Dv::Map(vec![])),
                _ => X::Never,
            }
        }
        Ty::Enum(_, names, shapes) => {
            let Some(i) = names.iter().position(|n| named(n)) else { return X::Never };
            let wrap = |x: X| {
                x.map(|d| {
                    Dv::Variant(
                        i,
                        match d {
                            Dv::List(v) => v,
                            _ => unreachable!(),
                        },
                    )
                })
            };
            wrap(match (&shapes[i], &m.v) {
                (Shape::Unit, MV::Unit) => X::Must(Dv::List(vec![])),
                (Shape::Unit, MV::Tuple(v)) if v.is_empty() => X::Must(Dv::List(vec![])),
                (Shape::Unit, _) if m.is_empty_like() => X::May(Dv::List(vec![])),
                (Shape::Newtype(t), MV::Tuple(v)) if v.len() == 1 => judge(t, &v[0]).map(|v| Dv::List(vec![v])),
                (Shape::Tuple(ts), MV::Tuple(v)) => list(ts, v),
                (Shape::Tuple(ts), MV::Seq(v)) => list(ts, v).may(),
                (Shape::Tuple(ts), MV::Unit | MV::Cntr(_)) if ts.is_empty() && m.is_empty_like() => X::May(Dv::List(vec![])),
                (Shape::Struct(n, fs), MV::Cntr(v)) => by_name(n, fs, v),
                (Shape::Struct(n, fs), _) if m.is_empty_like() => by_name(n, fs, &[]).may(),
                (Shape::Struct(..), MV::Map(_)) => X::Free,
                _ => X::Never,
            })
        }
    }
}

/// Equal, allowing single precision floats the rounding of two steps.
fn close(a: &Dv, b: &Dv) -> bool {
    match (a, b) {
        (Dv::F32(a), Dv::F32(b)) => a == b || a.is_nan() && b.is_nan() || (a.to_bits() as i64 - b.to_bits() as i64).abs() <= 1,
        (Dv::Some(a), Dv::Some(b)) => close(a, b),
        (Dv::List(a), Dv::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| close(a, b)),
        (Dv::Variant(i, a), Dv::Variant(j, b)) => i == j && a.len() == b.len() && a.iter().zip(b).all(|(a, b)| close(a, b)),
        (Dv::Map(a), Dv::Map(b)) => a.len() == b.len() && a.iter().all(|a| b.iter().any(|b| close(&a.0, &b.0) && close(&a.1, &b.1))),
        _ => a == b,
    }
}

/// A type close to another.
fn near_ty(s: &mut Src, t: &Ty) -> Ty {
    let shift = |s: &mut Src, table: &'static [Name], v: &'static [Name]| -> &'static [Name] {
        // the same run one place on, so most names stay
        let table = if made().as_ptr_range().contains(&v.as_ptr()) { made() } else { table };
        let at = table.iter().position(|n| v.first() == Some(n)).unwrap_or(0);
        let d = s.below(2);
        let at = (at + d).min(table.len() - v.len());
        &table[at..at + v.len()]
    };
    if s.chance(1, 12) {
        return ty(s, 3);
    }
    match t {
        Ty::Int(_) => match s.below(6) {
            0 => Ty::F64,
            1 => Ty::F32,
            _ => Ty::Int(*s.pick(&INTS)),
        },
        Ty::F32 | Ty::F64 => match s.below(3) {
            0 => Ty::F64,
            1 => Ty::F32,
            _ => Ty::Int(*s.pick(&INTS)),
        },
        Ty::Str => match s.below(3) {
            0 => Ty::Char,
            1 => Ty::Bytes,
            _ => Ty::Str,
        },
        Ty::Char => Ty::Str,
        Ty::Bytes => Ty::Seq(Box::new(Ty::Int(Int::U8)), true),
        Ty::Unit => match s.below(3) {
            0 => Ty::UnitStruct("Foo"),
            1 => Ty::Opt(Box::new(Ty::Unit)),
            _ => Ty::Unit,
        },
        Ty::Bool => Ty::Bool,
        Ty::UnitStruct(n) => match s.below(3) {
            0 => Ty::Unit,
            1 => Ty::TupleStruct(n, vec![]),
            _ => Ty::UnitStruct(n),
        },
        Ty::Opt(t) => match s.below(3) {
            0 => (**t).clone(),
            _ => Ty::Opt(Box::new(near_ty(s, t))),
        },
        Ty::Newtype(n, t) => match s.below(4) {
            0 => (**t).clone(),
            1 => Ty::TupleStruct(n, vec![(**t).clone()]),
            _ => Ty::Newtype(n, Box::new(near_ty(s, t))),
        },
        Ty::TupleStruct(n, ts) => {
            let ts = near_tys(s, ts);
            match s.below(4) {
                0 => Ty::Tuple(ts),
                1 if ts.len() == 1 => Ty::Newtype(n, Box::new(ts[0].clone())),
                _ => Ty::TupleStruct(n, ts),
            }
        }
        Ty::Tuple(ts) => {
            let ts = near_tys(s, ts);
            match s.below(4) {
                0 if !ts.is_empty() => Ty::Seq(Box::new(ts[0].clone()), true),
                1 => Ty::TupleStruct("Foo", ts),
                _ => Ty::Tuple(ts),
            }
        }
        Ty::Struct(n, names, fs) => {
            let names = shift(s, &FIELDS, names);
            let fs = near_fields(s, fs);
            match s.below(4) {
                0 => Ty::Tuple(fs.into_iter().map(|f| f.ty).collect()),
                1 if !fs.is_empty() => Ty::Map(Box::new(Ty::Str), Box::new(fs[0].ty.clone()), true),
                _ => Ty::Struct(n, names, fs),
            }
        }
        Ty::Seq(t, k) => match s.below(4) {
            0 => Ty::Tuple(vec![near_ty(s, t); s.below(4)]),
            _ => Ty::Seq(Box::new(near_ty(s, t)), *k),
        },
        Ty::Map(k, v, e) => match s.below(2) {
            0 => Ty::Map(Box::new(near_ty(s, k)), v.clone(), *e),
            _ => Ty::Map(k.clone(), Box::new(near_ty(s, v)), *e),
        },
        Ty::Enum(n, names, shapes) => {
            let names = shift(s, &VARIANTS, names);
            let shapes = shapes
                .iter()
                .map(|h| match h {
                    Shape::Unit => match s.below(4) {
                        0 => Shape::Tuple(vec![]),
                        1 => Shape::Newtype(Box::new(Ty::Unit)),
                        _ => Shape::Unit,
                    },
                    Shape::Newtype(t) => match s.below(4) {
                        0 => Shape::Tuple(vec![(**t).clone()]),
                        1 => Shape::Unit,
                        _ => Shape::Newtype(Box::new(near_ty(s, t))),
                    },
                    Shape::Tuple(ts) => {
                        let ts = near_tys(s, ts);
                        match s.below(4) {
                            0 if !ts.is_empty() => Shape::Newtype(Box::new(ts[0].clone())),
                            _ => Shape::Tuple(ts),
                        }
                    }
                    Shape::Struct(f, fs) => {
                        let f = shift(s, &FIELDS, f);
                        Shape::Struct(f, near_fields(s, fs))
                    }
                })
                .collect();
            Ty::Enum(n, names, shapes)
        }
    }
}

fn near_tys(s: &mut Src, ts: &[Ty]) -> Vec<Ty> {
    let mut ts: Vec<Ty> = ts.to_vec();
    if !ts.is_empty() && s.flag() {
        let i = s.below(ts.len());
        ts[i] = near_ty(s, &ts[i]);
    }
    match s.below(5) {
        0 => {
            ts.pop();
        }
        1 => {
            let t = ty(s, 1);
            ts.push(t);
        }
        _ => (),
    }
    ts
}

fn near_fields(s: &mut Src, fs: &[Field]) -> Vec<Field> {
    let mut fs = fs.to_vec();
    if !fs.is_empty() && s.flag() {
        let i = s.below(fs.len());
        fs[i].ty = near_ty(s, &fs[i].ty);
    }
    fs
}

fn owner(s: &mut Src) -> impl FnMut() -> bool {
    let mode = s.below(3);
    let bits = s.u128();
    let mut i = 0;
    move || {
        i += 1;
        match mode {
            0 => true,
            1 => false,
            _ => bits >> (i % 64) & 1 == 1,
        }
    }
}

fn decide(t: &Ty, m: &M, own: &mut dyn FnMut() -> bool, ctx: &mut Ctx) -> Result<(), Fail> {
    let x = judge(t, m);
    let r = De(t).deserialize(Decoder(m.build(own)));
    let show = || format!("{}\nas {:?}", m.show(), t);
    match (&x, &r) {
        (X::Must(v), Ok(w)) => {
            ctx.label("accepted as it must");
            ensure!(close(v, w), "decoded to something else", "{}\ngave {:?}\nexpected {:?}", show(), w, v)
        }
        (X::Must(v), Err(e)) => return fail("refused", format!("{}\n{}\nexpected {:?}", e, show(), v)),
        (X::May(v), Ok(w)) => {
            ctx.label("accepted as it may");
            ensure!(close(v, w), "decoded to something else", "{}\ngave {:?}\nexpected {:?} or an error", show(), w, v)
        }
        (X::May(_), Err(_)) => ctx.label("refused as it may"),
        (X::Never, Ok(w)) => return fail("decoded what it should refuse", format!("{}\ngave {:?}", show(), w)),
        (X::Never, Err(e)) => {
            ctx.label("refused as it must");
            ensure!(!e.to_string().is_empty(), "empty message", "{}", show());
        }
        (X::Free, _) => ctx.label("not judged"),
    }
    Ok(())
}

fn p23_near(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let t = ty(s, 6);
    let v = dv(s, &t, 3);
    let mut u = t.clone();
    for _ in 0..s.weighted(&[2, 3, 1]) {
        u = near_ty(s, &u);
    }
    let mut m = match Kserd::enc(&Ser(&t, &v)) {
        Ok(k) => M::read(&k),
        Err(e) => return fail("encoding refused", e.to_string()),
    };
    for _ in 0..s.weighted(&[3, 3, 1]) {
        mutate(s, &mut m);
    }
    ctx.sample(|| format!("{} as {:?}", m.show(), u));
    decide(&u, &m, &mut owner(s), ctx)?;
    ctx.nontrivial(hash64(format!("{}{:?}", m.show(), u).as_bytes()));
    Ok(())
}

fn p23_prims(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let t = ty(s, 0);
    let mut m = match s.below(4) {
        0 => {
            let i = *s.pick(&INTS);
            let w = crate::dynty::int(s, i);
            let n = match w {
                Whole::Pos(x) => N::U(x),
                Whole::Neg(x) => N::I(x),
            };
            M::new(MV::Num(if s.flag() { near(s, n) } else { n }))
        }
        1 => M::new(MV::Num(num(s))),
        _ => prim(s, Opt { ids: 2, max_nodes: 1 }),
    };
    if s.chance(1, 6) {
        super::value::other_kind(s, &mut m);
    }
    ctx.sample(|| format!("{} as {:?}", m.show(), t));
    decide(&t, &m, &mut owner(s), ctx)?;
    ctx.nontrivial(hash64(format!("{}{:?}", m.show(), t).as_bytes()));
    Ok(())
}

fn p23_any(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let t = ty(s, 5);
    let m = value(s, Opt { ids: 3, max_nodes: 10 });
    ctx.sample(|| format!("{} as {:?}", m.show(), t));
    decide(&t, &m, &mut owner(s), ctx)?;
    if m.count() > 1 && weight(&t) > 1 {
        ctx.nontrivial(hash64(format!("{}{:?}", m.show(), t).as_bytes()));
    }
    Ok(())
}

// ------------------------------------------------------------------ P24

/// What a type-agnostic reader sees.
#[derive(Debug)]
enum Pic {
    Unit,
    Bool(bool),
    Num(N),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Pic>),
    New(Box<Pic>),
    List(Vec<Pic>),
    Map(Vec<(Pic, Pic)>),
}

struct PicV;

macro_rules! pic_num {
    ($($f:ident $t:ty => $n:ident as $w:ty;)*) => { $(
        fn $f<E>(self, v: $t) -> Result<Pic, E> {
            Ok(Pic::Num(N::$n(v as $w)))
        }
    )* };
}

impl<'de> Visitor<'de> for PicV {
    type Value = Pic;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    pic_num! {
        visit_u64 u64 => U as u128;
        visit_u128 u128 => U as u128;
        visit_i64 i64 => I as i128;
        visit_i128 i128 => I as i128;
        visit_f64 f64 => F as f64;
    }
    fn visit_bool<E>(self, v: bool) -> Result<Pic, E> {
        Ok(Pic::Bool(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<Pic, E> {
        Ok(Pic::Str(v.into()))
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Pic, E> {
        Ok(Pic::Bytes(v.into()))
    }
    fn visit_unit<E>(self) -> Result<Pic, E> {
        Ok(Pic::Unit)
    }
    fn visit_none<E>(self) -> Result<Pic, E> {
        Ok(Pic::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Pic, D::Error> {
        Ok(Pic::Some(Box::new(d.deserialize_any(PicV)?)))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Pic, D::Error> {
        Ok(Pic::New(Box::new(d.deserialize_any(PicV)?)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Pic, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element::<Pic>()? {
            v.push(x);
        }
        Ok(Pic::List(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Pic, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_entry::<Pic, Pic>()? {
            v.push(x);
        }
        Ok(Pic::Map(v))
    }
}

impl<'de> Deserialize<'de> for Pic {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Pic, D::Error> {
        d.deserialize_any(PicV)
    }
}

fn faithful(m: &M, p: &Pic) -> Option<String> {
    let ok = match (&m.v, p) {
        (MV::Unit, Pic::Unit) => true,
        (MV::Bool(a), Pic::Bool(b)) => a == b,
        (MV::Num(N::F(a)), Pic::Num(N::F(b))) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
        (MV::Num(N::F(_)), Pic::Num(_)) | (MV::Num(_), Pic::Num(N::F(_))) => false,
        (MV::Num(a), Pic::Num(b)) => cmp_num(*a, *b) == std::cmp::Ordering::Equal,
        (MV::Str(a), Pic::Str(b)) => a == b,
        (MV::Barr(a), Pic::Bytes(b)) => a == b,
        (MV::Tuple(a), Pic::Unit) => a.is_empty(),
        (MV::Tuple(a), Pic::None) => a.is_empty() && m.id.as_deref() == Some("None"),
        (MV::Tuple(a), Pic::Some(b)) if a.len() == 1 && m.id.as_deref() == Some("Some") => return faithful(&a[0], b),
        (MV::Tuple(a), Pic::New(b)) if a.len() == 1 => return faithful(&a[0], b),
        (MV::Tuple(a) | MV::Seq(a), Pic::List(b)) if a.len() == b.len() => return a.iter().zip(b).find_map(|(a, b)| faithful(a, b)),
        (MV::Cntr(a), Pic::Map(b)) if a.len() == b.len() => {
            return a.iter().zip(b).find_map(|((n, a), (k, b))| match k {
                Pic::Str(k) if k == n => faithful(a, b),
                _ => Some(format!("field {} seen as {:?}", n, k)),
            })
        }
        (MV::Map(a), Pic::Map(b)) if a.len() == b.len() => {
            return a.iter().zip(b).find_map(|((n, a), (k, b))| faithful(n, k).or_else(|| faithful(a, b)))
        }
        _ => false,
    };
    if ok {
        None
    } else {
        Some(format!("{} seen as {:?}", m.show(), p))
    }
}

fn p24_any(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let m = value(s, VALS);
    let k = m.build(&mut owner(s));
    let m = M::read(&k);
    ctx.sample(|| m.show());
    for (what, k) in [("view", k.mk_brw()), ("owned", k.clone().into_owned()), ("value", k.clone())] {
        match k.clone().decode::<Pic>() {
            Ok(p) => {
                if let Some(d) = faithful(&m, &p) {
                    return fail(&format!("picture of {} differs", what), format!("{}\n{}", d, m.show()));
                }
            }
            Err(e) => return fail(&format!("picture of {} refused", what), format!("{}\n{}", e, m.show())),
        }
        if let Err(e) = k.decode::<IgnoredAny>() {
            return fail("ignoring refused", format!("{}\n{}", e, m.show()));
        }
    }
    if m.count() > 1 {
        ctx.nontrivial(m.fp());
    }
    Ok(())
}

fn shorten(m: &mut M) {
    for i in 0..m.count() {
        let n = super::value::node_mut(m, &mut { i }).unwrap();
        match n.v {
            MV::Num(N::U(x)) => n.v = MV::Num(N::U(x as u64 as u128)),
            MV::Num(N::I(x)) => n.v = MV::Num(N::I(x as i64 as i128)),
            _ => (),
        }
    }
    super::value::normalise(m);
}

/// Adds unknown fields to the containers of an encoded value and drops identities that are not shown
/// in text by default. All containers are structs here.
/// `small` keeps integers of unknown fields within 64 bits, the most that serde itself can buffer.
pub fn extend(s: &mut Src, m: &mut M, n: &mut usize, small: bool) {
    match &mut m.v {
        MV::Tuple(v) => v.iter_mut().for_each(|x| extend(s, x, n, small)),
        MV::Seq(v) => {
            m.id = if s.flag() { None } else { Some("list".into()) };
            v.iter_mut().for_each(|x| extend(s, x, n, small))
        }
        MV::Map(v) => {
            m.id = if s.flag() { None } else { Some("map".into()) };
            // keys are left alone: they decide the order of the entries
            v.iter_mut().for_each(|x| extend(s, &mut x.1, n, small))
        }
        MV::Cntr(v) => {
            v.iter_mut().for_each(|x| extend(s, &mut x.1, n, small));
            for _ in 0..s.weighted(&[2, 2, 1]) {
                let at = *s.pick(&["0extra", "zz_extra", "m_extra", "A_extra", "", "a b"]);
                let mut x = value(s, Opt { ids: 4, max_nodes: 4 });
                if small {
                    shorten(&mut x);
                }
                if push_field(v, at.to_string(), x) {
                    *n += 1;
                }
            }
        }
        _ => {
            if s.flag() {
                m.id = None;
            }
        }
    }
}

fn p24_extra(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let t = ty(s, 8);
    let v = dv(s, &t, 3);
    let mut m = match Kserd::enc(&Ser(&t, &v)) {
        Ok(k) => M::read(&k),
        Err(e) => return fail("encoding refused", e.to_string()),
    };
    let mut n = 0;
    extend(s, &mut m, &mut n, false);
    let k = m.build(&mut owner(s));
    ctx.sample(|| format!("{} as {:?}", m.show(), t));
    for (what, k) in [("view", k.mk_brw()), ("value", k.clone())] {
        match De(&t).deserialize(Decoder(k)) {
            Ok(w) => ensure!(w == v, &format!("decoded {} differs", what), "{}\nas {:?}\ngave {:?}\nexpected {:?}", m.show(), t, w, v),
            Err(e) => return fail(&format!("decoding {} refused", what), format!("{}\n{}\nas {:?}", e, m.show(), t)),
        }
    }
    ctx.label_if(n > 0, "unknown fields");
    if weight(&t) > 1 {
        ctx.nontrivial(hash64(format!("{}{:?}", m.show(), t).as_bytes()));
    }
    Ok(())
}

#[derive(Debug, PartialEq, Deserialize)]
struct Brw<'a> {
    s: &'a str,
    b: &'a [u8],
    o: Option<&'a str>,
    #[serde(borrow)]
    v: Vec<&'a str>,
    #[serde(borrow)]
    t: (&'a str, Inner<'a>),
}

#[derive(Debug, PartialEq, Deserialize)]
struct Inner<'a>(&'a [u8]);

#[derive(Debug, PartialEq, Deserialize)]
struct Lent<'a> {
    #[serde(borrow)]
    s: Cow<'a, str>,
    o: Option<String>,
}

fn p24_borrow(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let (a, b, c, e, f) = (string(s), bytes(s), string(s), string(s), bytes(s));
    let o = if s.flag() { Some(string(s)) } else { None };
    let vs: Vec<String> = (0..s.below(4)).map(|_| string(s)).collect();
    let _ = c;
    let st = |x: &str| M::new(MV::Str(x.into()));
    let named = |n: &str, v: Vec<M>| M { id: Some(n.into()), v: MV::Tuple(v) };
    let opt = |x: &Option<String>| match x {
        Some(x) => named("Some", vec![st(x)]),
        None => named("None", vec![]),
    };
    let mut fields = vec![
        ("s".to_string(), st(&a)),
        ("b".to_string(), M::new(MV::Barr(b.clone()))),
        ("o".to_string(), opt(&o)),
        ("v".to_string(), M::new(MV::Seq(vs.iter().map(|x| st(x)).collect()))),
        ("t".to_string(), M::new(MV::Tuple(vec![st(&e), named("Inner", vec![M::new(MV::Barr(f.clone()))])]))),
    ];
    fields.sort_by(|x, y| x.0.cmp(&y.0));
    let m = M { id: Some("Brw".into()), v: MV::Cntr(fields) };
    ctx.sample(|| m.show());
    let owned = m.build(&mut || true);
    let lent = m.build(&mut || false);
    let exp = || Brw { s: &a, b: &b, o: o.as_deref(), v: vs.iter().map(|x| x.as_str()).collect(), t: (&e, Inner(&f)) };
    for (what, k) in [("view of an owned value", owned.mk_brw()), ("view of a borrowed value", lent.mk_brw()), ("borrowed value", lent.clone())] {
        match k.decode::<Brw>() {
            Ok(w) => ensure!(w == exp(), &format!("{} decodes differently", what), "{:?}\n{}", w, m.show()),
            Err(e) => return fail(&format!("{} refused", what), format!("{}\n{}", e, m.show())),
        }
    }
    // the text is the stored one, not a copy
    {
        let k = lent.mk_brw();
        let there = k.cntr().unwrap().get_str("s").unwrap().as_ptr();
        let w: Brw = k.clone().decode().unwrap();
        ensure!(a.is_empty() || w.s.as_ptr() == there, "borrowed text is elsewhere", "{}", m.show());
    }
    let r = owned.clone().decode::<Brw>();
    ensure!(r.is_err(), "borrowed from an owned value", "{:?}", r.map(|_| ()));
    for k in [owned.clone(), lent.clone(), owned.mk_brw()] {
        match k.clone().decode::<Lent>() {
            Ok(w) => ensure!(w.s == a && w.o == o, "clone-on-write target differs", "{:?}\n{}", w, m.show()),
            Err(e) => return fail("clone-on-write target refused", format!("{}\n{}", e, m.show())),
        }
    }
    ctx.nontrivial(m.fp());
    Ok(())
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Deserialize)]
enum Known {
    A,
    Bb,
    #[serde(rename = "c-c")]
    C,
}

/// Containers and maps decoded to maps: their names and keys follow the same ownership rule as text.
fn p24_names(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let mut want: BTreeMap<String, String> = BTreeMap::new();
    for _ in 0..s.below(6) {
        want.insert(super::value::any_name(s), string(s));
    }
    let st = |x: &String| M::new(MV::Str(x.clone()));
    let cntr = M::new(MV::Cntr(want.iter().map(|(k, v)| (k.clone(), st(v))).collect()));
    let map = M::new(MV::Map(want.iter().map(|(k, v)| (st(k), st(v))).collect()));
    ctx.sample(|| cntr.show());
    for m in [&cntr, &map] {
        let (owned, lent) = (m.build(&mut || true), m.build(&mut || false));
        for (what, k) in [("view of an owned value", owned.mk_brw()), ("view of a borrowed value", lent.mk_brw()), ("borrowed value", lent.clone())] {
            match k.clone().decode::<BTreeMap<&str, &str>>() {
                Ok(w) => {
                    ensure!(w.iter().map(|(k, v)| (*k, *v)).eq(want.iter().map(|(k, v)| (k.as_str(), v.as_str()))), &format!("{} gives other names", what), "{:?}\n{}", w, m.show());
                    if let Value::Cntr(f) = &k.val {
                        ensure!(w.keys().zip(f.keys()).all(|(a, b)| a.is_empty() || a.as_ptr() == b.as_ptr()), "borrowed name is elsewhere", "{}", m.show());
                    }
                }
                Err(e) => return fail(&format!("names of {} refused", what), format!("{}\n{}", e, m.show())),
            }
            match k.decode::<Vec<(IgnoredAny, IgnoredAny)>>() {
                Ok(_) if want.is_empty() => (),
                Ok(_) => return fail("container or map decoded as a list", m.show()),
                Err(_) => (),
            }
        }
        let r = owned.clone().decode::<BTreeMap<&str, IgnoredAny>>();
        ensure!(r.is_ok() == want.is_empty(), "borrowed name of an owned value", "{:?}", r.map(|_| ()));
        for k in [owned.clone(), lent.clone(), owned.mk_brw()] {
            match k.decode::<BTreeMap<String, String>>() {
                Ok(w) => ensure!(w == want, "owned names differ", "{:?}\n{}", w, m.show()),
                Err(e) => return fail("owned names refused", format!("{}\n{}", e, m.show())),
            }
        }
    }
    // names as unit variants
    let all = [("A", Known::A), ("Bb", Known::Bb), ("c-c", Known::C)];
    let some: Vec<_> = all.iter().filter(|_| s.flag()).collect();
    let stray = want.keys().any(|k| all.iter().any(|a| a.0 == k));
    let mut fields: Vec<(String, M)> = some.iter().enumerate().map(|(i, (n, _))| (n.to_string(), M::new(MV::Num(N::U(i as u128))))).collect();
    let unknown = s.below(4) == 3 && !want.is_empty() && !stray;
    if unknown {
        fields.push((want.keys().next().unwrap().clone(), M::new(MV::Num(N::U(9)))));
    }
    fields.sort_by(|x, y| x.0.cmp(&y.0));
    let m = M::new(MV::Cntr(fields));
    let k = m.build(&mut owner(s));
    for k in [k.mk_brw(), k.clone()] {
        match k.decode::<BTreeMap<Known, u8>>() {
            Ok(w) => ensure!(!unknown && w.iter().map(|x| (*x.0, *x.1)).eq(some.iter().enumerate().map(|(i, (_, n))| (*n, i as u8))), "names as variants differ", "{:?}\n{}", w, m.show()),
            Err(e) => ensure!(unknown, "names as variants refused", "{}\n{}", e, m.show()),
        }
    }
    ctx.label_if(unknown, "unknown name");
    if !want.is_empty() {
        ctx.nontrivial(cntr.fp());
    }
    Ok(())
}

crate::large! {
    p23_large = p23_near, usize::MAX;
    p24_large = p24_any, usize::MAX;
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P23",
            rule: "composite value decoded to a composite type, or an encoded value changed or decoded to a changed type, or a primitive decoded to a primitive type; distinct by value and type",
            assumptions: &["how derived code drives a deserialiser, as reproduced by the described types"],
            subs: vec![
                Sub { name: "near", f: p23_near, quick: 7_500_000, thorough: 200_000_000 },
                Sub { name: "primitives", f: p23_prims, quick: 8_000_000, thorough: 200_000_000 },
                Sub { name: "any", f: p23_any, quick: 2_500_000, thorough: 50_000_000 },
                Sub { name: "large", f: p23_large, quick: 20_000, thorough: 1_000_000 },
            ],
            known: vec![],
        },
        Prop {
            id: "P24",
            rule: "composite values (any); types of two or more parts (extra); all others; distinct by rendering",
            assumptions: &["how derived code drives a deserialiser, as reproduced by the described types"],
            subs: vec![
                Sub { name: "any", f: p24_any, quick: 2_500_000, thorough: 50_000_000 },
                Sub { name: "extra", f: p24_extra, quick: 4_000_000, thorough: 80_000_000 },
                Sub { name: "borrow", f: p24_borrow, quick: 1_000_000, thorough: 20_000_000 },
                Sub { name: "names", f: p24_names, quick: 1_000_000, thorough: 20_000_000 },
                Sub { name: "derived", f: encode::p24_derived, quick: 2_000_000, thorough: 40_000_000 },
                Sub { name: "large", f: p24_large, quick: 8_000, thorough: 400_000 },
            ],
            known: vec![],
        },
    ]
}
