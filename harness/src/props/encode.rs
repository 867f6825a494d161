//! P21, P22: encoding Rust data and reading it back, from memory and from text.

use crate::dynty::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use kserd::encode::{Decoder, Encoder};
use kserd::fmt::FormattingConfig;
use kserd::parse::parse;
use kserd::Kserd;
use serde::de::{DeserializeOwned, DeserializeSeed};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, LinkedList, VecDeque};
use std::fmt::Debug;
use std::time::Duration;

// ------------------------------------------------------------------ described types

/// None if the encoded value is as documented.
fn documented(e: &M, g: &M) -> Option<String> {
    let at = |d: Option<String>, what: &str| d.map(|d| format!("{}: {}", what, d));
    if e.id.is_some() && e.id != g.id {
        return Some(format!("named {:?}, expected {:?}", g.id, e.id));
    }
    match (&e.v, &g.v) {
        (MV::Tuple(a), MV::Tuple(b)) | (MV::Seq(a), MV::Seq(b)) => {
            if a.len() != b.len() {
                return Some(format!("{} elements, expected {}", b.len(), a.len()));
            }
            a.iter().zip(b).enumerate().find_map(|(i, (a, b))| at(documented(a, b), &format!("element {}", i)))
        }
        (MV::Cntr(a), MV::Cntr(b)) => {
            let names = |v: &Vec<(String, M)>| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
            if names(a) != names(b) {
                return Some(format!("fields {:?}, expected {:?}", names(b), names(a)));
            }
            a.iter().zip(b).find_map(|((n, a), (_, b))| at(documented(a, b), n))
        }
        (MV::Map(a), MV::Map(b)) => {
            if a.len() != b.len() {
                return Some(format!("{} entries, expected {}", b.len(), a.len()));
            }
            a.iter().find_map(|(k, x)| {
                if b.iter().any(|(l, y)| documented(k, l).is_none() && documented(x, y).is_none()) {
                    None
                } else {
                    Some(format!("no entry {} with {}", k.show(), x.show()))
                }
            })
        }
        (MV::Num(a), MV::Num(b)) => {
            if cmp_num(*a, *b) == std::cmp::Ordering::Equal {
                None
            } else {
                Some(format!("number {:?}, expected {:?}", b, a))
            }
        }
        (MV::Tuple(_) | MV::Seq(_) | MV::Cntr(_) | MV::Map(_), _) => Some(format!("{}, expected {}", g.show(), e.show())),
        _ => diff(&M { id: None, v: e.v.clone() }, &M { id: None, v: g.v.clone() }, EXACT),
    }
}

fn described(s: &mut Src) -> (Ty, Dv) {
    let t = ty(s, 9);
    let v = dv(s, &t, 4);
    (t, v)
}

fn p21_described(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let (t, v) = described(s);
    ctx.sample(|| format!("{:?} of {:?}", v, t));
    let show = || format!("{:?}\nof type {:?}", v, t);
    let k = match Kserd::enc(&Ser(&t, &v)) {
        Ok(k) => k,
        Err(e) => return fail("encoding refused", format!("{}\n{}", e, show())),
    };
    let g = M::read(&k);
    if let Some(d) = documented(&expected(&t, &v), &g) {
        return fail("encoded form", format!("{}\n{}\nencoded {}", d, show(), g.show()));
    }
    let check = |what: &str, k: Kserd| -> Result<(), Fail> {
        match De(&t).deserialize(Decoder(k)) {
            Ok(w) => ensure!(w == v, &format!("decoded {} differs", what), "{}\ndecoded {:?}\nencoded {}", show(), w, g.show()),
            Err(e) => return fail(&format!("decoding {} refused", what), format!("{}\n{}\nencoded {}", e, show(), g.show())),
        }
        Ok(())
    };
    check("view", k.mk_brw())?;
    check("value", k)?;
    let w = weight(&t);
    ctx.label_if(w > 4, "type of more than four parts");
    if w > 1 {
        ctx.nontrivial(hash64(format!("{:?}{:?}", t, v).as_bytes()));
    }
    Ok(())
}

fn full_names(s: &mut Src) -> FormattingConfig {
    let mut c = config(s);
    c.id_on_tuples = true;
    c.id_on_containers = true;
    c
}

fn p22_described(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let c = full_names(s);
    let (t, v) = described(s);
    let show = || format!("{:?}\nof type {:?}", v, t);
    let k = match Kserd::enc(&Ser(&t, &v)) {
        Ok(k) => k,
        Err(e) => return fail("encoding refused", format!("{}\n{}", e, show())),
    };
    let text = k.as_str_with_config(c);
    ctx.sample(|| format!("{:?} -> {}", c.width_limit, text));
    let p = match parse(&text) {
        Ok(p) => p,
        Err(e) => return fail("text does not parse", format!("{}\n{}\n{}", show(), text, e.backtrace())),
    };
    match De(&t).deserialize(Decoder(p)) {
        Ok(w) => ensure!(w == v, "decoded value differs", "{}\ndecoded {:?}\ntext:\n{}", show(), w, text),
        Err(e) => return fail("decoding refused", format!("{}\n{}\ntext:\n{}", e, show(), text)),
    }
    let w = weight(&t);
    ctx.label_if(text.contains('\n'), "several lines");
    if w > 1 {
        ctx.nontrivial(hash64(format!("{:?}{:?}{:?}", t, v, c).as_bytes()));
    }
    Ok(())
}

// ------------------------------------------------------------------ derived types

pub trait Arb: Sized {
    fn arb(s: &mut Src, d: usize) -> Self;
}

macro_rules! arb_int {
    ($($t:ident)*) => { $(
        impl Arb for $t {
            fn arb(s: &mut Src, _: usize) -> Self {
                match s.below(4) {
                    0 => s.below(6) as $t,
                    1 => $t::MAX,
                    2 => $t::MIN,
                    _ => s.u128() as $t,
                }
            }
        }
    )* };
}
arb_int!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

impl Arb for () {
    fn arb(_: &mut Src, _: usize) -> Self {}
}
impl Arb for bool {
    fn arb(s: &mut Src, _: usize) -> Self {
        s.flag()
    }
}
impl Arb for f64 {
    fn arb(s: &mut Src, _: usize) -> Self {
        let f = float(s);
        if f.is_nan() {
            0.5
        } else {
            f
        }
    }
}
impl Arb for f32 {
    fn arb(s: &mut Src, _: usize) -> Self {
        let f = f32_any(s);
        if f.is_nan() {
            0.5
        } else {
            f
        }
    }
}
impl Arb for char {
    fn arb(s: &mut Src, _: usize) -> Self {
        char_any(s)
    }
}
impl Arb for String {
    fn arb(s: &mut Src, _: usize) -> Self {
        string(s)
    }
}
fn many<T: Arb>(s: &mut Src, d: usize) -> Vec<T> {
    let n = if d > 4 { s.below(2) } else { s.below(4) };
    (0..n).map(|_| T::arb(s, d + 1)).collect()
}
macro_rules! arb_coll {
    ($($c:ident : $($b:path),*;)*) => { $(
        impl<T: Arb $(+ $b)*> Arb for $c<T> {
            fn arb(s: &mut Src, d: usize) -> Self {
                many(s, d).into_iter().collect()
            }
        }
    )* };
}
arb_coll! { Vec: ; VecDeque: ; LinkedList: ; BTreeSet: Ord; }
impl<K: Arb + Ord, V: Arb> Arb for BTreeMap<K, V> {
    fn arb(s: &mut Src, d: usize) -> Self {
        many::<(K, V)>(s, d).into_iter().collect()
    }
}
impl<K: Arb + Eq + std::hash::Hash, V: Arb> Arb for HashMap<K, V> {
    fn arb(s: &mut Src, d: usize) -> Self {
        many::<(K, V)>(s, d).into_iter().collect()
    }
}
impl<T: Arb> Arb for Option<T> {
    fn arb(s: &mut Src, d: usize) -> Self {
        if d > 6 || s.flag() {
            None
        } else {
            Some(T::arb(s, d + 1))
        }
    }
}
impl<T: Arb> Arb for Box<T> {
    fn arb(s: &mut Src, d: usize) -> Self {
        Box::new(T::arb(s, d + 1))
    }
}
impl<T: Arb, E: Arb> Arb for Result<T, E> {
    fn arb(s: &mut Src, d: usize) -> Self {
        if s.flag() {
            Ok(T::arb(s, d + 1))
        } else {
            Err(E::arb(s, d + 1))
        }
    }
}
impl Arb for Duration {
    fn arb(s: &mut Src, d: usize) -> Self {
        Duration::new(u64::arb(s, d) >> 1, s.below(1_000_000_000) as u32)
    }
}
impl Arb for std::net::IpAddr {
    fn arb(s: &mut Src, d: usize) -> Self {
        if s.flag() {
            u32::arb(s, d).to_be_bytes().into()
        } else {
            u128::arb(s, d).to_be_bytes().into()
        }
    }
}
impl<T: Arb> Arb for std::ops::Range<T> {
    fn arb(s: &mut Src, d: usize) -> Self {
        T::arb(s, d)..T::arb(s, d)
    }
}
impl<T: Arb> Arb for std::ops::Bound<T> {
    fn arb(s: &mut Src, d: usize) -> Self {
        match s.below(3) {
            0 => std::ops::Bound::Unbounded,
            1 => std::ops::Bound::Included(T::arb(s, d)),
            _ => std::ops::Bound::Excluded(T::arb(s, d)),
        }
    }
}
impl<T> Arb for std::marker::PhantomData<T> {
    fn arb(_: &mut Src, _: usize) -> Self {
        Self
    }
}
impl<T: Arb, const N: usize> Arb for [T; N] {
    fn arb(s: &mut Src, d: usize) -> Self {
        std::array::from_fn(|_| T::arb(s, d + 1))
    }
}
macro_rules! arb_tuple {
    ($(($($t:ident)*))*) => { $(
        impl<$($t: Arb),*> Arb for ($($t,)*) {
            fn arb(s: &mut Src, d: usize) -> Self {
                ($($t::arb(s, d + 1),)*)
            }
        }
    )* };
}
arb_tuple! { (A) (A B) (A B C) (A B C D) (A B C D E) (A B C D E F) (A B C D E F G) (A B C D E F G H)
    (A B C D E F G H I) (A B C D E F G H I J) (A B C D E F G H I J K) (A B C D E F G H I J K L) }

/// Declares a type with its derives and how to make one.
macro_rules! types {
    ($( $(#[$m:meta])* struct $n:ident { $( $(#[$fm:meta])* $f:ident : $ft:ty ),* $(,)? } )*) => { $(
        #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
        $(#[$m])*
        struct $n { $( $(#[$fm])* $f: $ft ),* }
        impl Arb for $n {
            fn arb(s: &mut Src, d: usize) -> Self {
                let _ = (&s, d);
                $n { $( $f: Arb::arb(s, d + 1) ),* }
            }
        }
    )* };
}

types! {
    struct Empty {}
    struct Zoo {
        unit: (),
        boolean: bool,
        ints: (i8, i16, i32, i64, i128, isize),
        uints: (u8, u16, u32, u64, u128, usize),
        f: f32,
        g: f64,
        c: char,
        s: String,
    }
    struct Nested {
        zoo: Option<Box<Zoo>>,
        list: Vec<Zoo>,
        by_name: BTreeMap<String, Vec<Option<u8>>>,
        e: Empty,
        shape: Shape2,
    }
    struct Links {
        next: Option<Box<Links>>,
        label: String,
        items: Vec<Links2>,
    }
    struct Links2 { children: Vec<Links2>, tag: Option<char> }
    #[serde(rename_all = "kebab-case")]
    struct KebabCase { first_field: u8, second_field: Option<String>, third_one: Vec<(u8, bool)> }
    #[serde(rename = "Renamed-Type", rename_all = "SCREAMING_SNAKE_CASE")]
    struct Renamed { first_field: u8, #[serde(rename = "x")] other: String }
    struct Collections {
        set: BTreeSet<String>,
        dq: VecDeque<i32>,
        ll: LinkedList<char>,
        hm: HashMap<i64, String>,
        tk: BTreeMap<(u8, String), Vec<u8>>,
        ok: BTreeMap<Option<u8>, ()>,
        ck: BTreeMap<char, f64>,
        vk: BTreeMap<Vec<u8>, BTreeMap<bool, String>>,
        nk: BTreeMap<Id, Id>,
    }
    struct StdTypes {
        dur: Duration,
        ip: std::net::IpAddr,
        range: std::ops::Range<i32>,
        bound: std::ops::Bound<String>,
        res: Result<u8, String>,
        ph: std::marker::PhantomData<u8>,
        arr: [i16; 3],
        none: [u8; 0],
        big: [bool; 9],
        one: (String,),
    }
    struct Defaults {
        #[serde(default)]
        a: Vec<u8>,
        #[serde(default, skip_serializing_if = "String::is_empty")]
        b: String,
        #[serde(skip_serializing_if = "Option::is_none")]
        c: Option<Vec<Option<bool>>>,
    }
    struct Flat {
        before: u8,
        #[serde(flatten)]
        inner: FlatInner,
        #[serde(flatten)]
        rest: BTreeMap<Word, i64>,
    }
    struct FlatInner { x: i32, y: Option<String>, z: Vec<char> }
    struct Tagged { internal: Internal, adjacent: Adjacent, untagged: Untagged, list: Vec<Internal>, more: Vec<Untagged> }
}

/// Names that are not fields of the struct they are flattened into.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
#[serde(transparent)]
struct Word(String);
impl Arb for Word {
    fn arb(s: &mut Src, _: usize) -> Self {
        Word(format!("w{}", s.below(20)))
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
struct Id(u64);
impl Arb for Id {
    fn arb(s: &mut Src, d: usize) -> Self {
        Id(u64::arb(s, d))
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct UnitS;
impl Arb for UnitS {
    fn arb(_: &mut Src, _: usize) -> Self {
        UnitS
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct Pair(String, Option<Box<Pair>>);
impl Arb for Pair {
    fn arb(s: &mut Src, d: usize) -> Self {
        Pair(Arb::arb(s, d), Arb::arb(s, d + 1))
    }
}

/// A tuple struct of which one element is stored.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct OneStored(u8, #[serde(skip)] u8);
impl Arb for OneStored {
    fn arb(s: &mut Src, d: usize) -> Self {
        OneStored(Arb::arb(s, d), 0)
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
enum Shape2 {
    Unit,
    Newtype(String),
    Opt(Option<u8>),
    Tuple(u8, char, Vec<Shape2>),
    Struct { a: i32, b: Option<Box<Shape2>> },
    NoTuple(),
    NoStruct {},
    UnitIn(()),
    Wrap(Box<Shape2>),
    Map(BTreeMap<String, Shape2>),
}
impl Arb for Shape2 {
    fn arb(s: &mut Src, d: usize) -> Self {
        match s.below(if d > 5 { 8 } else { 10 }) {
            0 => Shape2::Unit,
            1 => Shape2::Newtype(Arb::arb(s, d)),
            2 => Shape2::Opt(Arb::arb(s, d)),
            3 => Shape2::Tuple(Arb::arb(s, d), Arb::arb(s, d), Arb::arb(s, d + 1)),
            4 => Shape2::Struct { a: Arb::arb(s, d), b: Arb::arb(s, d + 1) },
            5 => Shape2::NoTuple(),
            6 => Shape2::NoStruct {},
            7 => Shape2::UnitIn(()),
            8 => Shape2::Wrap(Arb::arb(s, d + 1)),
            _ => Shape2::Map(Arb::arb(s, d + 1)),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "type")]
enum Internal {
    Unit,
    Empty {},
    Struct { a: i32, b: Option<String>, c: Vec<u8>, d: Id },
    Newtype(FlatInner),
}
impl Arb for Internal {
    fn arb(s: &mut Src, d: usize) -> Self {
        match s.below(4) {
            0 => Internal::Unit,
            1 => Internal::Empty {},
            2 => Internal::Struct { a: Arb::arb(s, d), b: Arb::arb(s, d), c: Arb::arb(s, d), d: Arb::arb(s, d) },
            _ => Internal::Newtype(Arb::arb(s, d)),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "kind", content = "val")]
enum Adjacent {
    Unit,
    Newtype(String),
    Tuple(u8, Option<u8>),
    Struct { a: i128, b: Shape2 },
}
impl Arb for Adjacent {
    fn arb(s: &mut Src, d: usize) -> Self {
        match s.below(4) {
            0 => Adjacent::Unit,
            1 => Adjacent::Newtype(Arb::arb(s, d)),
            2 => Adjacent::Tuple(Arb::arb(s, d), Arb::arb(s, d)),
            _ => Adjacent::Struct { a: Arb::arb(s, d), b: Arb::arb(s, d + 1) },
        }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
enum Untagged {
    Flag(bool),
    Whole(i64),
    Text(String),
    Pair(u8, String),
    Struct { first: i32, second: Option<Id> },
    Other { third: BTreeMap<String, f64> },
    List(Vec<bool>),
}
impl Arb for Untagged {
    fn arb(s: &mut Src, d: usize) -> Self {
        match s.below(7) {
            0 => Untagged::Flag(Arb::arb(s, d)),
            1 => Untagged::Whole(Arb::arb(s, d)),
            2 => Untagged::Text(Arb::arb(s, d)),
            3 => Untagged::Pair(Arb::arb(s, d), Arb::arb(s, d)),
            4 => Untagged::Struct { first: Arb::arb(s, d), second: Arb::arb(s, d) },
            5 => Untagged::Other { third: Arb::arb(s, d) },
            _ => Untagged::List(Arb::arb(s, d)),
        }
    }
}

/// One trip of a value: through memory, or through text under a configuration.
fn trip<T: Arb + Serialize + DeserializeOwned + PartialEq + Debug>(name: &'static str, s: &mut Src, ctx: &mut Ctx, c: Option<FormattingConfig>) -> Result<(), Fail> {
    let v = T::arb(s, 0);
    ctx.sample(|| format!("{:?} {:?}", c.map(|c| c.width_limit), v));
    ctx.label(name);
    let k = match Kserd::enc(&v) {
        Ok(k) => k,
        Err(e) => return fail("encoding refused", format!("{}\n{:?}", e, v)),
    };
    let mut out = Vec::new();
    match c {
        None => {
            out.push((k.mk_brw().decode::<T>(), "view"));
            out.push((k.clone().decode::<T>(), "value"));
        }
        Some(c) => {
            let text = k.as_str_with_config(c);
            match parse(&text) {
                Ok(p) => out.push((p.decode::<T>(), "text")),
                Err(e) => return fail("text does not parse", format!("{:?}\n{}\n{}", v, text, e.backtrace())),
            }
        }
    }
    for (r, what) in out {
        match r {
            Ok(w) => ensure!(w == v, &format!("decoded {} differs", what), "{:?}\n{:?}\nencoded {}", v, w, M::read(&k).show()),
            Err(e) => return fail(&format!("decoding {} refused", what), format!("{}\n{:?}\nencoded {}", e, v, M::read(&k).show())),
        }
    }
    ctx.nontrivial(hash64(format!("{:?}{:?}", c, v).as_bytes()));
    Ok(())
}

fn derived(s: &mut Src, ctx: &mut Ctx, c: Option<FormattingConfig>) -> Result<(), Fail> {
    macro_rules! one {
        ($i:expr; $($t:ty),* $(,)?) => {{
            let mut n = 0;
            $( if $i == n { return trip::<$t>(stringify!($t), s, ctx, c); } n += 1; )*
            let _ = n;
            unreachable!()
        }};
    }
    let i = s.below(24);
    one!(i; Zoo, Nested, Links, Links2, KebabCase, Renamed, Collections, StdTypes, Defaults, Flat, Tagged, Internal, Adjacent, Untagged, Empty, UnitS, Pair, OneStored,
        Shape2, Vec<Shape2>, BTreeMap<String, Shape2>, Option<Option<Option<()>>>, (Vec<()>, Vec<Vec<Option<Pair>>>), (UnitS, Empty, (), Result<(), ()>))
}

fn p21_derived(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    derived(s, ctx, None)
}

fn p22_derived(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let c = full_names(s);
    derived(s, ctx, Some(c))
}

/// Attribute-driven targets given data with unknown or missing fields, in any ownership.
pub fn p24_derived(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    fn extended<T: Arb + Serialize + DeserializeOwned + PartialEq + Debug>(name: &'static str, s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
        let v = T::arb(s, 0);
        ctx.label(name);
        let k = match Kserd::enc(&v) {
            Ok(k) => k,
            Err(e) => return fail("encoding refused", format!("{}\n{:?}", e, v)),
        };
        let mut m = M::read(&k);
        let mut n = 0;
        super::decode::extend(s, &mut m, &mut n, true);
        ctx.sample(|| m.show());
        let own = s.flag();
        let k = m.build(&mut || own);
        match k.decode::<T>() {
            Ok(w) => ensure!(w == v, "decoded value differs", "{:?}\n{:?}\nfrom {}", v, w, m.show()),
            Err(e) => return fail("decoding refused", format!("{}\n{:?}\nfrom {}", e, v, m.show())),
        }
        ctx.nontrivial(m.fp());
        Ok(())
    }
    fn field(m: &mut M, f: &str) -> Option<M> {
        match &mut m.v {
            MV::Cntr(v) => v.iter().position(|x| x.0 == f).map(|i| v.remove(i).1),
            _ => None,
        }
    }
    match s.below(9) {
        0 => extended::<Internal>("Internal", s, ctx),
        1 => extended::<Adjacent>("Adjacent", s, ctx),
        2 => extended::<Defaults>("Defaults", s, ctx),
        3 => extended::<KebabCase>("KebabCase", s, ctx),
        4 => extended::<Nested>("Nested", s, ctx),
        5 => extended::<Vec<Internal>>("Vec<Internal>", s, ctx),
        6 => {
            // missing fields with defaults
            let v = Defaults::arb(s, 0);
            let mut m = M::read(&Kserd::enc(&v).map_err(|e| Fail { sig: "encoding refused".into(), detail: e.to_string() })?);
            let mut w = v.clone();
            if s.flag() {
                field(&mut m, "a");
                w.a = vec![];
            }
            if s.flag() {
                field(&mut m, "b");
                w.b = String::new();
            }
            if s.flag() {
                field(&mut m, "c");
                w.c = None;
            }
            ctx.label("missing fields");
            let own = s.flag();
            match m.build(&mut || own).decode::<Defaults>() {
                Ok(x) => ensure!(x == w, "decoded value differs", "{:?}\n{:?}\nfrom {}", w, x, m.show()),
                Err(e) => return fail("decoding refused", format!("{}\nfrom {}", e, m.show())),
            }
            ctx.nontrivial(m.fp());
            Ok(())
        }
        7 => {
            // flattened fields, from a struct rather than from the map the encoder makes of it
            let v = Flat::arb(s, 0);
            let one = |x: M| (x.v, x.id);
            let inner = M::read(&Kserd::enc(&v.inner).map_err(|e| Fail { sig: "encoding refused".into(), detail: e.to_string() })?);
            let mut fields = match one(inner).0 {
                MV::Cntr(f) => f,
                _ => return fail("encoded form", "struct is not a container".to_string()),
            };
            push_field(&mut fields, "before".into(), M::new(MV::Num(N::U(v.before as u128))));
            for (k, x) in &v.rest {
                push_field(&mut fields, k.0.clone(), M::new(MV::Num(N::I(*x as i128))));
            }
            let m = M { id: Some("Flat".into()), v: MV::Cntr(fields) };
            ctx.label("flattened");
            let own = s.flag();
            match m.build(&mut || own).decode::<Flat>() {
                Ok(x) => ensure!(x == v, "decoded value differs", "{:?}\n{:?}\nfrom {}", v, x, m.show()),
                Err(e) => return fail("decoding refused", format!("{}\nfrom {}", e, m.show())),
            }
            ctx.nontrivial(m.fp());
            Ok(())
        }
        _ => {
            // untagged, in any ownership
            let v = Vec::<Untagged>::arb(s, 0);
            let m = M::read(&Kserd::enc(&v).map_err(|e| Fail { sig: "encoding refused".into(), detail: e.to_string() })?);
            ctx.label("untagged");
            let own = s.flag();
            match m.build(&mut || own).decode::<Vec<Untagged>>() {
                Ok(x) => ensure!(x == v, "decoded value differs", "{:?}\n{:?}\nfrom {}", v, x, m.show()),
                Err(e) => return fail("decoding refused", format!("{}\nfrom {}", e, m.show())),
            }
            ctx.nontrivial(m.fp());
            Ok(())
        }
    }
}

/// Map keys that differ in the variant name only are merged (values compare without identities).
fn merged_keys(through_text: bool) -> Option<String> {
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
    enum Color {
        Red,
        Green,
    }
    let m: BTreeMap<Color, u8> = vec![(Color::Red, 1), (Color::Green, 2)].into_iter().collect();
    let k = Kserd::enc(&m).ok()?;
    let got = if through_text {
        let t = k.as_str();
        let b: Result<BTreeMap<Color, u8>, _> = kserd::parse::parse(&t).ok()?.decode();
        b
    } else {
        k.decode()
    };
    match got {
        Ok(b) if b == m => None,
        Ok(b) => Some(format!("a map keyed by unit variants {:?} comes back as {:?}", m, b)),
        Err(e) => Some(format!("a map keyed by unit variants {:?} is refused: {}", m, e)),
    }
}

fn p21_keys() -> Option<String> {
    merged_keys(false)
}
fn p22_keys() -> Option<String> {
    merged_keys(true)
}

// ------------------------------------------------------------------ P27

type EncError = <Encoder as serde::Serializer>::Error;
type DecError = <Decoder<'static> as serde::Deserializer<'static>>::Error;

const REFUSALS: &[&str] = &["this part refuses", "", "weird: {message} \"quoted\"\n", "no", "é"];
const BAD_NAMES: &[&str] = &["<a>", "A<T>", "a(b", "a)b", "a.b", "a/b", "{a", "a}", "a\\b", "a=", "=", "x,y", "(", "Vec<String>"];

/// A fault at one part of the data, while encoding it and while decoding it.
fn p27_faults(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let (t, v) = described(s);
    let show = || format!("{:?}\nof type {:?}", v, t);
    let (r, parts, _) = with_fault(u64::MAX, Fault::None, || Kserd::enc(&Ser(&t, &v)));
    let k = match r {
        Ok(k) => k,
        Err(e) => return fail("encoding refused", format!("{}\n{}", e, show())),
    };
    let at = s.below(parts as usize) as u64;
    let fault = match s.below(3) {
        0 => Fault::Refuse(*s.pick(REFUSALS)),
        1 => Fault::Rename(*s.pick(BAD_NAMES)),
        _ => Fault::NoKey(s.below(4)),
    };
    ctx.sample(|| format!("{:?} at part {} of {:?}", fault, at, v));
    let (r, _, hit) = with_fault(at, fault, || Kserd::enc(&Ser(&t, &v)));
    match (r, hit, fault) {
        (Ok(g), false, _) => {
            if let Some(d) = diff(&M::read(&k), &M::read(&g), EXACT) {
                return fail("encoding again differs", format!("{}\n{}", d, show()));
            }
        }
        (Err(e), true, Fault::Refuse(m)) => {
            let msg = <EncError as serde::ser::Error>::custom(m);
            ensure!(e == msg, "another message", "{:?} at part {}\n{:?}\n{}", fault, at, e, show());
        }
        (Err(e), true, Fault::Rename(n)) => {
            ensure!(e.to_string().contains(n), "another error", "{:?} at part {}\n{}\n{}", fault, at, e, show());
        }
        (Err(_), true, Fault::NoKey(_)) => (),
        (Ok(g), true, _) => {
            return fail("fault swallowed while encoding", format!("{:?} at part {}\n{}\nencoded {}", fault, at, show(), M::read(&g).show()))
        }
        (Err(e), _, _) => return fail("encoding refused", format!("{:?} at part {}\n{}\n{}", fault, at, e, show())),
    }
    ctx.label_if(hit, "fault while encoding");

    let own = s.flag();
    let src = || if own { k.clone() } else { k.mk_brw() };
    let (r, parts, _) = with_fault(u64::MAX, Fault::None, || De(&t).deserialize(Decoder(src())));
    if let Err(e) = r {
        return fail("decoding refused", format!("{}\n{}", e, show()));
    }
    let m = *s.pick(REFUSALS);
    let at = s.below(parts as usize) as u64;
    let (r, _, hit) = with_fault(at, Fault::Refuse(m), || De(&t).deserialize(Decoder(src())));
    match r {
        Ok(w) => ensure!(!hit, "fault swallowed while decoding", "part {}\n{}\ndecoded {:?}", at, show(), w),
        Err(e) => ensure!(e == <DecError as serde::de::Error>::custom(m), "another message", "{:?} at part {}\n{:?}\n{}", m, at, e, show()),
    }
    if parts > 1 {
        ctx.nontrivial(hash64(format!("{:?}{:?}{:?}{}", t, v, fault, at).as_bytes()));
    }
    Ok(())
}

crate::large! {
    p21_large = p21_described, usize::MAX;
    p22_large = p22_described, usize::MAX;
    p27_large = p27_faults, usize::MAX;
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P21",
            rule: "types of two or more parts, or any derived type; distinct by type and value",
            assumptions: &[],
            subs: vec![
                Sub { name: "described", f: p21_described, quick: 8_000_000, thorough: 300_000_000 },
                Sub { name: "derived", f: p21_derived, quick: 4_000_000, thorough: 150_000_000 },
                Sub { name: "large", f: p21_large, quick: 20_000, thorough: 1_000_000 },
            ],
            known: vec![("variant-keys", p21_keys)],
        },
        Prop {
            id: "P22",
            rule: "types of two or more parts, or any derived type; distinct by type, value and configuration",
            assumptions: &[],
            subs: vec![
                Sub { name: "described", f: p22_described, quick: 4_000_000, thorough: 100_000_000 },
                Sub { name: "derived", f: p22_derived, quick: 2_400_000, thorough: 60_000_000 },
                Sub { name: "large", f: p22_large, quick: 20_000, thorough: 1_000_000 },
            ],
            known: vec![("variant-keys", p22_keys)],
        },
        Prop {
            id: "P27",
            rule: "data of two or more parts; distinct by type, value, fault and place",
            assumptions: &["one fault at a time, at any part of the data"],
            subs: vec![
                Sub { name: "faults", f: p27_faults, quick: 3_000_000, thorough: 200_000_000 },
                Sub { name: "large", f: p27_large, quick: 10_000, thorough: 500_000 },
            ],
            known: vec![],
        },
    ]
}
