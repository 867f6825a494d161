//! P25: direct conversion of Rust values.

use super::encode::Arb;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use kserd::{Kserd, ToKserd, ToKserdErr, Value};
use serde::Serialize;
use std::borrow::Cow;
use std::fmt::Debug;

/// What a value converts to, identities included, or nothing if a part refuses.
trait Model {
    fn model(&self) -> Option<M>;
}

fn named(n: &str, v: MV) -> Option<M> {
    Some(M { id: Some(n.into()), v })
}

macro_rules! nums {
    ($($t:ident : $n:ident as $w:ty;)*) => { $(
        impl Model for $t {
            fn model(&self) -> Option<M> {
                named(stringify!($t), MV::Num(N::$n(*self as $w)))
            }
        }
    )* };
}
nums! {
    u8: U as u128; u16: U as u128; u32: U as u128; u64: U as u128; u128: U as u128; usize: U as u128;
    i8: I as i128; i16: I as i128; i32: I as i128; i64: I as i128; i128: I as i128; isize: I as i128;
    f64: F as f64;
}
impl Model for f32 {
    fn model(&self) -> Option<M> {
        // the shortest decimal form of the number, as for encoding
        named("f32", MV::Num(N::F(self.to_string().parse().unwrap())))
    }
}
impl Model for () {
    fn model(&self) -> Option<M> {
        Some(M::new(MV::Unit))
    }
}
impl Model for bool {
    fn model(&self) -> Option<M> {
        named("bool", MV::Bool(*self))
    }
}
impl Model for char {
    fn model(&self) -> Option<M> {
        named("char", MV::Str(self.to_string()))
    }
}
impl Model for String {
    fn model(&self) -> Option<M> {
        named("String", MV::Str(self.clone()))
    }
}
impl Model for &str {
    fn model(&self) -> Option<M> {
        named("str", MV::Str(self.to_string()))
    }
}
impl<T: Model> Model for Box<T> {
    fn model(&self) -> Option<M> {
        (**self).model()
    }
}
impl<T: Model> Model for Option<T> {
    fn model(&self) -> Option<M> {
        match self {
            Some(x) => x.model(),
            None => named("None", MV::Tuple(vec![])),
        }
    }
}
impl<T: Model, E: Model> Model for Result<T, E> {
    fn model(&self) -> Option<M> {
        match self {
            Ok(x) => named("Ok", MV::Tuple(vec![x.model()?])),
            Err(x) => named("Err", MV::Tuple(vec![x.model()?])),
        }
    }
}
impl<T: Model> Model for Vec<T> {
    fn model(&self) -> Option<M> {
        named("Vec", MV::Seq(self.iter().map(|x| x.model()).collect::<Option<_>>()?))
    }
}
impl<T: Model, const N: usize> Model for [T; N] {
    fn model(&self) -> Option<M> {
        named("array", MV::Seq(self.iter().map(|x| x.model()).collect::<Option<_>>()?))
    }
}
macro_rules! tuples {
    ($(($($t:ident $i:tt)*))*) => { $(
        impl<$($t: Model),*> Model for ($($t,)*) {
            fn model(&self) -> Option<M> {
                Some(M::new(MV::Tuple(vec![$(self.$i.model()?),*])))
            }
        }
    )* };
}
tuples! {
    (A 0) (A 0 B 1) (A 0 B 1 C 2) (A 0 B 1 C 2 D 3) (A 0 B 1 C 2 D 3 E 4) (A 0 B 1 C 2 D 3 E 4 F 5) (A 0 B 1 C 2 D 3 E 4 F 5 G 6)
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7) (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8) (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9)
    (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10) (A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11)
}

/// Converts unless it is told to refuse.
#[derive(Debug, Clone, PartialEq)]
struct Picky {
    name: String,
    n: u32,
}
impl ToKserd<'static> for Picky {
    fn into_kserd(self) -> Result<Kserd<'static>, ToKserdErr> {
        Ok(Kserd::with_id(self.name, self.n.into_kserd()?.val)?)
    }
}
impl Arb for Picky {
    fn arb(s: &mut Src, d: usize) -> Self {
        let name = if s.chance(1, 6) { "not(valid".to_string() } else { name(s) };
        Picky { name, n: Arb::arb(s, d) }
    }
}
impl Model for Picky {
    fn model(&self) -> Option<M> {
        if self.name.contains('(') {
            None
        } else {
            named(&self.name, MV::Num(N::U(self.n as u128)))
        }
    }
}

/// A value is its own conversion.
#[derive(Debug, Clone, PartialEq)]
struct Ready(M2);
#[derive(Clone, PartialEq)]
struct M2(Kserd<'static>);
impl Debug for M2 {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&M::read(&self.0).show())
    }
}
impl ToKserd<'static> for Ready {
    fn into_kserd(self) -> Result<Kserd<'static>, ToKserdErr> {
        self.0 .0.into_kserd()
    }
}
impl Arb for Ready {
    fn arb(s: &mut Src, _: usize) -> Self {
        Ready(M2(value(s, Opt { ids: 4, max_nodes: 6 }).to_kserd().into_owned()))
    }
}
impl Model for Ready {
    fn model(&self) -> Option<M> {
        Some(M::read(&self.0 .0))
    }
}

fn judge(what: &str, m: Option<M>, r: Result<Kserd, ToKserdErr>) -> Result<(), Fail> {
    match (m, r) {
        (Some(m), Ok(k)) => {
            let g = M::read(&k);
            match diff(&m, &g, Cmp { repr: false, ..EXACT }) {
                None => Ok(()),
                Some(d) => fail("converted value", format!("{}\n{}\ngives {}", d, what, g.show())),
            }
        }
        (None, Err(e)) => {
            let own = Picky { name: "not(valid".into(), n: 0 }.into_kserd().unwrap_err();
            ensure!(e.to_string() == own.to_string(), "error replaced", "{}\n{}", e, what);
            Ok(())
        }
        (Some(m), Err(e)) => fail("conversion refused", format!("{}\n{}\nexpected {}", e, what, m.show())),
        (None, Ok(k)) => fail("error lost", format!("{}\ngives {}", what, M::read(&k).show())),
    }
}

fn go<T: Arb + Model + Debug + Clone + ToKserd<'static>>(s: &mut Src, ctx: &mut Ctx, plain: bool) -> Result<(), Fail> {
    let v = T::arb(s, 0);
    let what = format!("{:?}: {}", v, std::any::type_name::<T>());
    ctx.sample(|| what.clone());
    let m = v.model();
    ctx.label_if(m.is_none(), "with a part that refuses");
    judge(&what, m, v.into_kserd())?;
    if plain || what.len() > 20 {
        ctx.nontrivial(hash64(what.as_bytes()));
    }
    Ok(())
}

/// Types whose conversion and encoding are defined alike.
fn both<T: Arb + Model + Debug + Clone + ToKserd<'static> + Serialize>(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let v = T::arb(s, 0);
    let what = format!("{:?}: {}", v, std::any::type_name::<T>());
    ctx.sample(|| what.clone());
    let e = match Kserd::enc(&v) {
        Ok(e) => e,
        Err(e) => return fail("encoding refused", format!("{}\n{}", e, what)),
    };
    let k = match v.clone().into_kserd() {
        Ok(k) => k,
        Err(e) => return fail("conversion refused", format!("{}\n{}", e, what)),
    };
    ensure!(k == e, "conversion and encoding differ", "{}\n{}\n{}", what, M::read(&k).show(), M::read(&e).show());
    judge(&what, v.model(), Ok(k))?;
    ctx.nontrivial(hash64(what.as_bytes()));
    Ok(())
}

fn p25_arrays(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    match s.below(68) {
        0 => go::<[u8; 1]>(s, ctx, false),
        1 => go::<[Box<String>; 1]>(s, ctx, false),
        2 => go::<[u8; 2]>(s, ctx, false),
        3 => go::<[Box<String>; 2]>(s, ctx, false),
        4 => go::<[u8; 3]>(s, ctx, false),
        5 => go::<[Box<String>; 3]>(s, ctx, false),
        6 => go::<[u8; 4]>(s, ctx, false),
        7 => go::<[Box<String>; 4]>(s, ctx, false),
        8 => go::<[u8; 5]>(s, ctx, false),
        9 => go::<[Box<String>; 5]>(s, ctx, false),
        10 => go::<[u8; 6]>(s, ctx, false),
        11 => go::<[Box<String>; 6]>(s, ctx, false),
        12 => go::<[u8; 7]>(s, ctx, false),
        13 => go::<[Box<String>; 7]>(s, ctx, false),
        14 => go::<[u8; 8]>(s, ctx, false),
        15 => go::<[Box<String>; 8]>(s, ctx, false),
        16 => go::<[u8; 9]>(s, ctx, false),
        17 => go::<[Box<String>; 9]>(s, ctx, false),
        18 => go::<[u8; 10]>(s, ctx, false),
        19 => go::<[Box<String>; 10]>(s, ctx, false),
        20 => go::<[u8; 11]>(s, ctx, false),
        21 => go::<[Box<String>; 11]>(s, ctx, false),
        22 => go::<[u8; 12]>(s, ctx, false),
        23 => go::<[Box<String>; 12]>(s, ctx, false),
        24 => go::<[u8; 13]>(s, ctx, false),
        25 => go::<[Box<String>; 13]>(s, ctx, false),
        26 => go::<[u8; 14]>(s, ctx, false),
        27 => go::<[Box<String>; 14]>(s, ctx, false),
        28 => go::<[u8; 15]>(s, ctx, false),
        29 => go::<[Box<String>; 15]>(s, ctx, false),
        30 => go::<[u8; 16]>(s, ctx, false),
        31 => go::<[Box<String>; 16]>(s, ctx, false),
        32 => go::<[u8; 17]>(s, ctx, false),
        33 => go::<[Box<String>; 17]>(s, ctx, false),
        34 => go::<[u8; 18]>(s, ctx, false),
        35 => go::<[Box<String>; 18]>(s, ctx, false),
        36 => go::<[u8; 19]>(s, ctx, false),
        37 => go::<[Box<String>; 19]>(s, ctx, false),
        38 => go::<[u8; 20]>(s, ctx, false),
        39 => go::<[Box<String>; 20]>(s, ctx, false),
        40 => go::<[u8; 21]>(s, ctx, false),
        41 => go::<[Box<String>; 21]>(s, ctx, false),
        42 => go::<[u8; 22]>(s, ctx, false),
        43 => go::<[Box<String>; 22]>(s, ctx, false),
        44 => go::<[u8; 23]>(s, ctx, false),
        45 => go::<[Box<String>; 23]>(s, ctx, false),
        46 => go::<[u8; 24]>(s, ctx, false),
        47 => go::<[Box<String>; 24]>(s, ctx, false),
        48 => go::<[u8; 25]>(s, ctx, false),
        49 => go::<[Box<String>; 25]>(s, ctx, false),
        50 => go::<[u8; 26]>(s, ctx, false),
        51 => go::<[Box<String>; 26]>(s, ctx, false),
        52 => go::<[u8; 27]>(s, ctx, false),
        53 => go::<[Box<String>; 27]>(s, ctx, false),
        54 => go::<[u8; 28]>(s, ctx, false),
        55 => go::<[Box<String>; 28]>(s, ctx, false),
        56 => go::<[u8; 29]>(s, ctx, false),
        57 => go::<[Box<String>; 29]>(s, ctx, false),
        58 => go::<[u8; 30]>(s, ctx, false),
        59 => go::<[Box<String>; 30]>(s, ctx, false),
        60 => go::<[u8; 31]>(s, ctx, false),
        61 => go::<[Box<String>; 31]>(s, ctx, false),
        62 => go::<[u8; 32]>(s, ctx, false),
        63 => go::<[Box<String>; 32]>(s, ctx, false),
        64 => go::<[Picky; 3]>(s, ctx, false),
        65 => go::<[Option<Picky>; 7]>(s, ctx, false),
        66 => go::<[(Picky, bool); 2]>(s, ctx, false),
        _ => go::<[[Vec<i8>; 2]; 5]>(s, ctx, false),
    }
}

fn p25_mixed(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    type T6 = (u8, String, (), char, f32, i64);
    match s.below(24) {
        0 => both::<(u8, u16, u32, u64, u128, usize, f32)>(s, ctx),
        1 => both::<(i8, i16, i32, i64, i128, isize, f64)>(s, ctx),
        2 => both::<(bool, char, String, (), (String,), Box<u8>)>(s, ctx),
        3 => both::<Vec<Vec<(u8, String)>>>(s, ctx),
        4 => both::<Result<Vec<u8>, Result<String, ()>>>(s, ctx),
        5 => both::<(u8, u16, u32, u64, u128, usize, f32, i8)>(s, ctx),
        6 => both::<(u8, u16, u32, u64, u128, usize, f32, i8, T6)>(s, ctx),
        7 => both::<(u8, u16, T6, u64, u128, usize, f32, i8, bool, T6)>(s, ctx),
        8 => both::<(u8, u16, u32, u64, u128, usize, f32, i8, bool, char, String)>(s, ctx),
        9 => both::<(u8, u16, u32, u64, u128, usize, f32, i8, bool, char, String, Vec<()>)>(s, ctx),
        10 => both::<(String, String)>(s, ctx),
        11 => both::<(u8, Box<(u8, (u8,))>, Vec<char>)>(s, ctx),
        12 => both::<(u8, u8, u8, u8)>(s, ctx),
        13 => both::<(String, u8, Vec<String>, char, ())>(s, ctx),
        14 => go::<Option<Option<Vec<Option<u8>>>>>(s, ctx, true),
        15 => go::<Vec<Picky>>(s, ctx, true),
        16 => go::<(Picky, Option<Picky>, Box<Picky>)>(s, ctx, true),
        17 => go::<Result<Picky, Picky>>(s, ctx, true),
        18 => go::<Vec<Result<(Picky, u8), Vec<Picky>>>>(s, ctx, true),
        19 => go::<(u8, u16, u32, u64, u128, usize, f32, i8, bool, char, String, Picky)>(s, ctx, true),
        20 => go::<(Picky, u16, u32, u64, u128, usize, f32, i8, bool, char, Option<Picky>)>(s, ctx, true),
        21 => go::<Vec<(Ready, Option<Ready>)>>(s, ctx, true),
        22 => go::<(Ready, Picky, Ready, Result<Ready, ()>, Box<Ready>)>(s, ctx, true),
        _ => go::<Box<Option<Box<Result<Box<u8>, Option<String>>>>>>(s, ctx, true),
    }
}

fn p25_borrowed(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let strs: Vec<String> = (0..s.range(1, 5)).map(|_| string(s)).collect();
    ctx.sample(|| format!("{:?}", strs));
    let what = format!("{:?}", strs);
    let refs: Vec<&str> = strs.iter().map(|x| x.as_str()).collect();
    let one = refs[0];
    let v = (one, vec![Some(one), None], Box::new(one), Ok::<&str, String>(one), [one, one], refs.clone());
    let k = match v.clone().into_kserd() {
        Ok(k) => k,
        Err(e) => return fail("conversion refused", format!("{}\n{}", e, what)),
    };
    judge(&what, v.model(), Ok(k.clone()))?;
    // all of it borrows from the source
    fn walk(k: &Kserd, src: &[String]) -> bool {
        match &k.val {
            Value::Str(x) => match &x.inner {
                Cow::Borrowed(b) => src.iter().any(|y| y.len() == b.len() && (y.is_empty() || y.as_ptr() == b.as_ptr())),
                Cow::Owned(_) => false,
            },
            Value::Tuple(v) | Value::Seq(v) => v.iter().all(|x| walk(x, src)),
            _ => true,
        }
    }
    ensure!(walk(&k, &strs), "borrowed text was copied", "{}", what);
    ctx.nontrivial(hash64(what.as_bytes()));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P25",
        rule: "values whose rendering with their type is longer than a few characters; distinct by value and type",
        assumptions: &[],
        subs: vec![
            Sub { name: "mixed", f: p25_mixed, quick: 10_000_000, thorough: 200_000_000 },
            Sub { name: "arrays", f: p25_arrays, quick: 2_500_000, thorough: 50_000_000 },
            Sub { name: "borrowed", f: p25_borrowed, quick: 1_500_000, thorough: 30_000_000 },
        ],
        known: vec![],
    }]
}
