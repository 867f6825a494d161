//! A universe of Rust data described at run time: types, values of them, and their (de)serialisation
//! the way derived code does it.

use crate::engine::*;
use crate::gen;
use crate::model::*;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Deserialize, Serialize, Serializer};
use std::fmt;

pub type Name = &'static str;

/// Names of types.
pub static NAMES: [Name; 24] = [
    "Foo", "Point", "A", "Config", "T", "_Inner", "Ab1", "X_y", "trueish", "Falsey", "Some2", "NoneLike", "str", "bool", "char", "String", "i32",
    "kebab-name", "b91", "inf", "Very_long_type_name_for_wrapping_lines_at_width", "Unicode", "Err", "Zed",
];

/// Field names, in an order that is not the sorted one. A struct takes a run of these.
pub static FIELDS: [Name; 40] = [
    "x", "name", "a", "value", "b", "id", "_private", "z9", "kebab-field", "type", "true", "false_", "i", "very_long_field_name_for_wrapping_lines_at_width",
    "A", "Inner", "m", "c", "data", "ab", "aa", "None", "Some", "inf", "nan", "q", "ref", "self_", "b91", "str", "count", "k", "v", "key", "y", "e2", "w", "d1",
    "e", "n",
];

/// Variant names. An enum takes a run of these.
pub static VARIANTS: [Name; 24] = [
    "Unit", "B", "None", "Some", "Ok", "Err", "A", "Tuple", "Struct", "Newtype", "Z", "truex", "Red", "green", "_v", "Very_long_variant_name_for_wrapping", "V1",
    "V10", "V2", "kebab-variant", "str", "inf", "Foo", "U",
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Int {
    U8,
    U16,
    U32,
    U64,
    U128,
    I8,
    I16,
    I32,
    I64,
    I128,
}

pub const INTS: [Int; 10] = [Int::U8, Int::U16, Int::U32, Int::U64, Int::U128, Int::I8, Int::I16, Int::I32, Int::I64, Int::I128];

impl Int {
    pub fn signed(self) -> bool {
        matches!(self, Int::I8 | Int::I16 | Int::I32 | Int::I64 | Int::I128)
    }

    pub fn bits(self) -> u32 {
        match self {
            Int::U8 | Int::I8 => 8,
            Int::U16 | Int::I16 => 16,
            Int::U32 | Int::I32 => 32,
            Int::U64 | Int::I64 => 64,
            Int::U128 | Int::I128 => 128,
        }
    }

    /// Whether the number is one of this type's.
    pub fn holds(self, v: Whole) -> bool {
        match (self.signed(), v) {
            (false, Whole::Neg(_)) => false,
            (false, Whole::Pos(x)) => x <= u128::MAX >> (128 - self.bits()),
            (true, Whole::Pos(x)) => x <= (i128::MAX >> (128 - self.bits())) as u128,
            (true, Whole::Neg(x)) => x >= i128::MIN >> (128 - self.bits()),
        }
    }
}

/// A whole number.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Whole {
    Pos(u128),
    Neg(i128),
}

#[derive(Clone, Debug)]
pub struct Field {
    pub ty: Ty,
    /// Left out when it is `None`.
    pub skip: bool,
}

#[derive(Clone, Debug)]
pub enum Shape {
    Unit,
    Newtype(Box<Ty>),
    Tuple(Vec<Ty>),
    Struct(&'static [Name], Vec<Field>),
}

#[derive(Clone, Debug)]
pub enum Ty {
    Unit,
    Bool,
    Int(Int),
    F32,
    F64,
    Char,
    Str,
    Bytes,
    Opt(Box<Ty>),
    UnitStruct(Name),
    Newtype(Name, Box<Ty>),
    TupleStruct(Name, Vec<Ty>),
    Struct(Name, &'static [Name], Vec<Field>),
    Tuple(Vec<Ty>),
    /// The flag is whether the length is announced.
    Seq(Box<Ty>, bool),
    /// The flag is whether entries are written in one go.
    Map(Box<Ty>, Box<Ty>, bool),
    Enum(Name, &'static [Name], Vec<Shape>),
}

#[derive(Clone, Debug)]
pub enum Dv {
    Unit,
    Bool(bool),
    Int(Whole),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Dv>),
    /// Elements of tuples, structs and sequences.
    List(Vec<Dv>),
    Map(Vec<(Dv, Dv)>),
    Variant(usize, Vec<Dv>),
}

impl PartialEq for Dv {
    fn eq(&self, o: &Dv) -> bool {
        match (self, o) {
            (Dv::Unit, Dv::Unit) | (Dv::None, Dv::None) => true,
            (Dv::Bool(a), Dv::Bool(b)) => a == b,
            (Dv::Int(a), Dv::Int(b)) => a == b,
            (Dv::F32(a), Dv::F32(b)) => a == b || a.is_nan() && b.is_nan(),
            (Dv::F64(a), Dv::F64(b)) => a == b || a.is_nan() && b.is_nan(),
            (Dv::Char(a), Dv::Char(b)) => a == b,
            (Dv::Str(a), Dv::Str(b)) => a == b,
            (Dv::Bytes(a), Dv::Bytes(b)) => a == b,
            (Dv::Some(a), Dv::Some(b)) => a == b,
            (Dv::List(a), Dv::List(b)) => a == b,
            (Dv::Variant(i, a), Dv::Variant(j, b)) => i == j && a == b,
            (Dv::Map(a), Dv::Map(b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.iter().any(|(l, y)| k == l && x == y)),
            _ => false,
        }
    }
}

// ------------------------------------------------------------------ generating

/// Names of many shapes. Types need static names, so they are a fixed set.
pub fn made() -> &'static [Name] {
    static TABLE: std::sync::OnceLock<Vec<Name>> = std::sync::OnceLock::new();
    TABLE.get_or_init(|| {
        const START: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
        const REST: &[u8] = b"_-_-_-_-abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
        let mut x = 0x9e37_79b9_7f4a_7c15u64;
        let mut rnd = |n: usize| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 20) as usize % n
        };
        let mut seen = std::collections::BTreeSet::new();
        let mut v: Vec<Name> = Vec::new();
        while v.len() < 1500 {
            let mut n = String::new();
            n.push(START[rnd(START.len())] as char);
            let len = match rnd(40) {
                0 => rnd(300),
                1..=4 => rnd(40),
                5..=19 => rnd(9),
                _ => rnd(4),
            };
            for _ in 0..len {
                n.push(REST[rnd(REST.len())] as char);
            }
            if n != "true" && n != "false" && seen.insert(n.clone()) {
                v.push(Box::leak(n.into_boxed_str()));
            }
        }
        v
    })
}

fn type_name(s: &mut Src) -> Name {
    if s.chance(1, 3) {
        *s.pick(made())
    } else {
        *s.pick(&NAMES)
    }
}

fn run(s: &mut Src, table: &'static [Name], max: usize) -> &'static [Name] {
    if s.chance(1, 3) {
        let table = made();
        let n = s.below(max + 1);
        let at = s.below(table.len() - n + 1);
        return &table[at..at + n];
    }
    let max = if s.chance(1, 16) { table.len() } else { max };
    let n = s.below(max + 1);
    let at = s.below(table.len() - n + 1);
    &table[at..at + n]
}

fn fields(s: &mut Src, names: &[Name], budget: &mut isize) -> Vec<Field> {
    names
        .iter()
        .map(|_| {
            let ty = ty_in(s, budget);
            let skip = matches!(ty, Ty::Opt(_)) && s.flag();
            Field { ty, skip }
        })
        .collect()
}

pub fn ty(s: &mut Src, max: isize) -> Ty {
    let mut budget = max;
    ty_in(s, &mut budget)
}

fn tys(s: &mut Src, n: usize, budget: &mut isize) -> Vec<Ty> {
    (0..n).map(|_| ty_in(s, budget)).collect()
}

fn arity(s: &mut Src) -> usize {
    match s.weighted(&[4, 8, 16, 8, 1]) {
        4 => s.range(4, 16),
        n => n,
    }
}

fn ty_in(s: &mut Src, budget: &mut isize) -> Ty {
    *budget -= 1;
    let prim = *budget <= 0;
    match s.weighted(if prim { &[6, 2, 0] } else { &[2, 1, 9] }) {
        0 => match s.weighted(&[3, 2, 6, 1, 2, 1, 4, 1]) {
            0 => Ty::Int(Int::U8),
            1 => Ty::Bool,
            2 => Ty::Int(*s.pick(&INTS)),
            3 => Ty::F32,
            4 => Ty::F64,
            5 => Ty::Char,
            6 => Ty::Str,
            _ => Ty::Bytes,
        },
        1 => match s.below(2) {
            0 => Ty::Unit,
            _ => Ty::UnitStruct(type_name(s)),
        },
        _ => match s.weighted(&[3, 2, 2, 4, 2, 3, 3, 3]) {
            0 => Ty::Opt(Box::new(ty_in(s, budget))),
            1 => Ty::Newtype(type_name(s), Box::new(ty_in(s, budget))),
            2 => {
                // a tuple struct of one or none is one of several with the others skipped
                let n = arity(s);
                let name = type_name(s);
                Ty::TupleStruct(name, tys(s, n, budget))
            }
            3 => {
                let f = run(s, &FIELDS, 5);
                let name = type_name(s);
                Ty::Struct(name, f, fields(s, f, budget))
            }
            4 => {
                let n = arity(s);
                Ty::Tuple(tys(s, n, budget))
            }
            5 => Ty::Seq(Box::new(ty_in(s, budget)), s.flag()),
            6 => {
                let k = match s.below(3) {
                    0 => Ty::Str,
                    1 => Ty::Int(*s.pick(&INTS)),
                    _ => ty_in(s, budget),
                };
                Ty::Map(Box::new(k), Box::new(ty_in(s, budget)), s.flag())
            }
            _ => {
                let mut v = run(s, &VARIANTS, 5);
                if v.is_empty() {
                    v = &VARIANTS[..1];
                }
                let name = type_name(s);
                let shapes = v
                    .iter()
                    .map(|_| match s.below(4) {
                        0 => Shape::Unit,
                        1 => Shape::Newtype(Box::new(ty_in(s, budget))),
                        2 => {
                            let n = s.weighted(&[1, 1, 4, 2]);
                            Shape::Tuple(tys(s, n, budget))
                        }
                        _ => {
                            let f = run(s, &FIELDS, 3);
                            Shape::Struct(f, fields(s, f, budget))
                        }
                    })
                    .collect();
                Ty::Enum(name, v, shapes)
            }
        },
    }
}

pub fn int(s: &mut Src, i: Int) -> Whole {
    if i.signed() {
        let max = i128::MAX >> (128 - i.bits());
        let min = -max - 1;
        let x = match s.below(4) {
            0 => s.below(11) as i128 - 5,
            1 => min.saturating_add(s.below(3) as i128),
            2 => max - s.below(3) as i128,
            _ => (s.u128() as i128) >> (128 - i.bits()),
        };
        if x < 0 {
            Whole::Neg(x)
        } else {
            Whole::Pos(x as u128)
        }
    } else {
        let max = u128::MAX >> (128 - i.bits());
        Whole::Pos(match s.below(3) {
            0 => s.below(11) as u128,
            1 => max - s.below(3) as u128,
            _ => s.u128() >> (128 - i.bits()),
        })
    }
}

pub fn f32_any(s: &mut Src) -> f32 {
    match s.below(5) {
        0 => s.below(100) as f32 / 4.0,
        1 => gen::float(s) as f32,
        2 => f32::from_bits(s.upto(u32::MAX as u64) as u32),
        3 => *s.pick(&[0.0, -0.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 0.1, 16777216.0, 1e-45]),
        _ => s.below(1_000_000) as f32 / 1000.0,
    }
}

/// Length of a collection: up to `size`, now and then many.
fn length(s: &mut Src, size: usize) -> usize {
    if size >= 2 && gen::take_large() {
        return gen::large_size(s, 300);
    }
    if size >= 2 && s.chance(1, 50) {
        s.range(size, 60)
    } else {
        s.below(size + 1)
    }
}

/// A value of the type. `size` bounds collections.
pub fn dv(s: &mut Src, t: &Ty, size: usize) -> Dv {
    match t {
        Ty::Unit | Ty::UnitStruct(_) => Dv::Unit,
        Ty::Bool => Dv::Bool(s.flag()),
        Ty::Int(i) => Dv::Int(int(s, *i)),
        Ty::F32 => Dv::F32(f32_any(s)),
        Ty::F64 => Dv::F64(gen::float(s)),
        Ty::Char => Dv::Char(gen::char_any(s)),
        Ty::Str => Dv::Str(gen::string(s)),
        Ty::Bytes => Dv::Bytes(gen::bytes(s)),
        Ty::Opt(t) => {
            if s.chance(1, 3) {
                Dv::None
            } else {
                Dv::Some(Box::new(dv(s, t, size)))
            }
        }
        Ty::Newtype(_, t) => Dv::List(vec![dv(s, t, size)]),
        Ty::TupleStruct(_, ts) | Ty::Tuple(ts) => Dv::List(ts.iter().map(|t| dv(s, t, size)).collect()),
        Ty::Struct(_, _, fs) => Dv::List(fs.iter().map(|f| dv(s, &f.ty, size)).collect()),
        Ty::Seq(t, _) => {
            let n = length(s, size);
            Dv::List((0..n).map(|_| dv(s, t, size / 2)).collect())
        }
        Ty::Map(k, v, _) => {
            let n = length(s, size);
            let mut out: Vec<(Dv, Dv)> = Vec::new();
            let mut keys: Vec<M> = Vec::new();
            for _ in 0..n {
                let q = dv(s, k, size / 2);
                let x = dv(s, v, size / 2);
                // keys that are equal as values cannot both be kept: see the known findings
                let m = expected(k, &q);
                if !keys.iter().any(|o| same(o, &m, TEXT_VAL)) {
                    keys.push(m);
                    out.push((q, x));
                }
            }
            Dv::Map(out)
        }
        Ty::Enum(_, _, shapes) => {
            let i = s.below(shapes.len());
            Dv::Variant(
                i,
                match &shapes[i] {
                    Shape::Unit => vec![],
                    Shape::Newtype(t) => vec![dv(s, t, size)],
                    Shape::Tuple(ts) => ts.iter().map(|t| dv(s, t, size)).collect(),
                    Shape::Struct(_, fs) => fs.iter().map(|f| dv(s, &f.ty, size)).collect(),
                },
            )
        }
    }
}

// ------------------------------------------------------------------ the encoded form

fn fields_expected(names: &[Name], fs: &[Field], vs: &[Dv]) -> MV {
    let mut out = Vec::new();
    for ((n, f), v) in names.iter().zip(fs).zip(vs) {
        if !(f.skip && *v == Dv::None) {
            gen::push_field(&mut out, n.to_string(), expected(&f.ty, v));
        }
    }
    MV::Cntr(out)
}

/// How a value is documented to be encoded. Primitives carry no identity here.
pub fn expected(t: &Ty, v: &Dv) -> M {
    let named = |n: &str, v: MV| M { id: Some(n.to_string()), v };
    let list = |ts: &[Ty], vs: &[Dv]| MV::Tuple(ts.iter().zip(vs).map(|(t, v)| expected(t, v)).collect());
    match (t, v) {
        (Ty::Unit, _) => M::new(MV::Unit),
        (Ty::Bool, Dv::Bool(b)) => M::new(MV::Bool(*b)),
        (Ty::Int(_), Dv::Int(Whole::Pos(x))) => M::new(MV::Num(N::U(*x))),
        (Ty::Int(_), Dv::Int(Whole::Neg(x))) => M::new(MV::Num(N::I(*x))),
        (Ty::F32, Dv::F32(f)) => M::new(MV::Num(N::F(f.to_string().parse().unwrap()))),
        (Ty::F64, Dv::F64(f)) => M::new(MV::Num(N::F(*f))),
        (Ty::Char, Dv::Char(c)) => M::new(MV::Str(c.to_string())),
        (Ty::Str, Dv::Str(x)) => M::new(MV::Str(x.clone())),
        (Ty::Bytes, Dv::Bytes(x)) => M::new(MV::Barr(x.clone())),
        (Ty::Opt(_), Dv::None) => named("None", MV::Tuple(vec![])),
        (Ty::Opt(t), Dv::Some(v)) => named("Some", MV::Tuple(vec![expected(t, v)])),
        (Ty::UnitStruct(n), _) => named(n, MV::Tuple(vec![])),
        (Ty::Newtype(n, t), Dv::List(v)) => named(n, MV::Tuple(vec![expected(t, &v[0])])),
        (Ty::TupleStruct(n, ts), Dv::List(v)) => named(n, list(ts, v)),
        (Ty::Struct(n, names, fs), Dv::List(v)) => named(n, fields_expected(names, fs, v)),
        (Ty::Tuple(ts), Dv::List(v)) => M::new(list(ts, v)),
        (Ty::Seq(t, _), Dv::List(v)) => M::new(MV::Seq(v.iter().map(|v| expected(t, v)).collect())),
        (Ty::Map(k, x, _), Dv::Map(v)) => M::new(MV::Map(v.iter().map(|(a, b)| (expected(k, a), expected(x, b))).collect())),
        (Ty::Enum(_, names, shapes), Dv::Variant(i, v)) => {
            let body = match &shapes[*i] {
                Shape::Unit => MV::Tuple(vec![]),
                Shape::Newtype(t) => MV::Tuple(vec![expected(t, &v[0])]),
                Shape::Tuple(ts) => list(ts, v),
                Shape::Struct(f, fs) => fields_expected(f, fs, v),
            };
            named(names[*i], body)
        }
        _ => unreachable!("{:?} {:?}", t, v),
    }
}

// ------------------------------------------------------------------ faults

/// What goes wrong at one part of the data while it is encoded or decoded.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// The part's own code refuses, with this message.
    Refuse(Name),
    /// The part's type or variant has this name instead.
    Rename(Name),
    /// A map gives a value without a key, after this many entries.
    NoKey(usize),
}

#[derive(Clone, Copy, Debug)]
struct Plan {
    at: u64,
    fault: Fault,
    seen: u64,
    hit: bool,
}

const NO_PLAN: Plan = Plan { at: u64::MAX, fault: Fault::None, seen: 0, hit: false };

thread_local! {
    static PLAN: std::cell::Cell<Plan> = const { std::cell::Cell::new(NO_PLAN) };
}

/// Runs `f` with a fault at part number `at`. Gives the number of parts seen and whether the fault happened.
pub fn with_fault<T>(at: u64, fault: Fault, f: impl FnOnce() -> T) -> (T, u64, bool) {
    PLAN.with(|p| p.set(Plan { at, fault, seen: 0, hit: false }));
    let r = f();
    let plan = PLAN.with(|p| p.replace(NO_PLAN));
    (r, plan.seen, plan.hit)
}

/// The fault of the next part.
fn next_part() -> Fault {
    PLAN.with(|p| {
        let mut plan = p.get();
        plan.seen += 1;
        let r = if plan.seen - 1 == plan.at { plan.fault } else { Fault::None };
        plan.hit |= matches!(r, Fault::Refuse(_));
        p.set(plan);
        r
    })
}

fn hit() {
    PLAN.with(|p| p.set(Plan { hit: true, ..p.get() }));
}

fn no_key<Q: SerializeMap>(fault: Fault, done: usize, q: &mut Q) -> Result<(), Q::Error> {
    if fault == Fault::NoKey(done) {
        hit();
        q.serialize_value(&0u8)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ serialising

pub struct Ser<'a>(pub &'a Ty, pub &'a Dv);

impl Serialize for Ser<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let fault = next_part();
        if let Fault::Refuse(msg) = fault {
            return Err(serde::ser::Error::custom(msg));
        }
        let called = |n: Name| match fault {
            Fault::Rename(bad) => {
                hit();
                bad
            }
            _ => n,
        };
        match (self.0, self.1) {
            (Ty::Unit, _) => s.serialize_unit(),
            (Ty::Bool, Dv::Bool(b)) => s.serialize_bool(*b),
            (Ty::Int(i), Dv::Int(w)) => {
                let (u, n) = match *w {
                    Whole::Pos(u) => (u, u as i128),
                    Whole::Neg(n) => (0, n),
                };
                match i {
                    Int::U8 => s.serialize_u8(u as u8),
                    Int::U16 => s.serialize_u16(u as u16),
                    Int::U32 => s.serialize_u32(u as u32),
                    Int::U64 => s.serialize_u64(u as u64),
                    Int::U128 => s.serialize_u128(u),
                    Int::I8 => s.serialize_i8(n as i8),
                    Int::I16 => s.serialize_i16(n as i16),
                    Int::I32 => s.serialize_i32(n as i32),
                    Int::I64 => s.serialize_i64(n as i64),
                    Int::I128 => s.serialize_i128(n),
                }
            }
            (Ty::F32, Dv::F32(x)) => s.serialize_f32(*x),
            (Ty::F64, Dv::F64(x)) => s.serialize_f64(*x),
            (Ty::Char, Dv::Char(x)) => s.serialize_char(*x),
            (Ty::Str, Dv::Str(x)) => s.serialize_str(x),
            (Ty::Bytes, Dv::Bytes(x)) => s.serialize_bytes(x),
            (Ty::Opt(_), Dv::None) => s.serialize_none(),
            (Ty::Opt(t), Dv::Some(v)) => s.serialize_some(&Ser(t, v)),
            (Ty::UnitStruct(n), _) => s.serialize_unit_struct(called(n)),
            (Ty::Newtype(n, t), Dv::List(v)) => s.serialize_newtype_struct(called(n), &Ser(t, &v[0])),
            (Ty::TupleStruct(n, ts), Dv::List(v)) => {
                let mut q = s.serialize_tuple_struct(called(n), ts.len())?;
                for (t, v) in ts.iter().zip(v) {
                    q.serialize_field(&Ser(t, v))?;
                }
                q.end()
            }
            (Ty::Struct(n, names, fs), Dv::List(v)) => {
                let mut q = s.serialize_struct(called(n), fs.len())?;
                for ((name, f), v) in names.iter().zip(fs).zip(v) {
                    if f.skip && *v == Dv::None {
                        q.skip_field(name)?;
                    } else {
                        q.serialize_field(name, &Ser(&f.ty, v))?;
                    }
                }
                q.end()
            }
            (Ty::Tuple(ts), Dv::List(v)) => {
                let mut q = s.serialize_tuple(ts.len())?;
                for (t, v) in ts.iter().zip(v) {
                    q.serialize_element(&Ser(t, v))?;
                }
                q.end()
            }
            (Ty::Seq(t, known), Dv::List(v)) => {
                let mut q = s.serialize_seq(if *known { Some(v.len()) } else { None })?;
                for v in v {
                    q.serialize_element(&Ser(t, v))?;
                }
                q.end()
            }
            (Ty::Map(k, x, entries), Dv::Map(v)) => {
                let mut q = s.serialize_map(if *entries { Some(v.len()) } else { None })?;
                for (i, (a, b)) in v.iter().enumerate() {
                    no_key(fault, i, &mut q)?;
                    if *entries {
                        q.serialize_entry(&Ser(k, a), &Ser(x, b))?;
                    } else {
                        q.serialize_key(&Ser(k, a))?;
                        q.serialize_value(&Ser(x, b))?;
                    }
                }
                no_key(fault, v.len(), &mut q)?;
                q.end()
            }
            (Ty::Enum(n, names, shapes), Dv::Variant(i, v)) => {
                let (at, name) = (*i as u32, called(names[*i]));
                match &shapes[*i] {
                    Shape::Unit => s.serialize_unit_variant(n, at, name),
                    Shape::Newtype(t) => s.serialize_newtype_variant(n, at, name, &Ser(t, &v[0])),
                    Shape::Tuple(ts) => {
                        let mut q = s.serialize_tuple_variant(n, at, name, ts.len())?;
                        for (t, v) in ts.iter().zip(v) {
                            q.serialize_field(&Ser(t, v))?;
                        }
                        q.end()
                    }
                    Shape::Struct(names, fs) => {
                        let mut q = s.serialize_struct_variant(n, at, name, fs.len())?;
                        for ((name, f), v) in names.iter().zip(fs).zip(v) {
                            if f.skip && *v == Dv::None {
                                q.skip_field(name)?;
                            } else {
                                q.serialize_field(name, &Ser(&f.ty, v))?;
                            }
                        }
                        q.end()
                    }
                }
            }
            _ => unreachable!("{:?} {:?}", self.0, self.1),
        }
    }
}

// ------------------------------------------------------------------ deserialising

/// Deserialises a value of the type.
#[derive(Clone, Copy)]
pub struct De<'t>(pub &'t Ty);

macro_rules! native {
    ($d:expr, $t:ty, $e:expr) => {
        <$t>::deserialize($d).map($e)
    };
}

fn whole(x: i128) -> Dv {
    Dv::Int(if x < 0 { Whole::Neg(x) } else { Whole::Pos(x as u128) })
}

impl<'de> DeserializeSeed<'de> for De<'_> {
    type Value = Dv;

    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Dv, D::Error> {
        if let Fault::Refuse(msg) = next_part() {
            return Err(de::Error::custom(msg));
        }
        match self.0 {
            Ty::Unit => native!(d, (), |_| Dv::Unit),
            Ty::Bool => native!(d, bool, Dv::Bool),
            Ty::Int(Int::U8) => native!(d, u8, |x| Dv::Int(Whole::Pos(x as u128))),
            Ty::Int(Int::U16) => native!(d, u16, |x| Dv::Int(Whole::Pos(x as u128))),
            Ty::Int(Int::U32) => native!(d, u32, |x| Dv::Int(Whole::Pos(x as u128))),
            Ty::Int(Int::U64) => native!(d, u64, |x| Dv::Int(Whole::Pos(x as u128))),
            Ty::Int(Int::U128) => native!(d, u128, |x| Dv::Int(Whole::Pos(x))),
            Ty::Int(Int::I8) => native!(d, i8, |x| whole(x as i128)),
            Ty::Int(Int::I16) => native!(d, i16, |x| whole(x as i128)),
            Ty::Int(Int::I32) => native!(d, i32, |x| whole(x as i128)),
            Ty::Int(Int::I64) => native!(d, i64, |x| whole(x as i128)),
            Ty::Int(Int::I128) => native!(d, i128, whole),
            Ty::F32 => native!(d, f32, Dv::F32),
            Ty::F64 => native!(d, f64, Dv::F64),
            Ty::Char => native!(d, char, Dv::Char),
            Ty::Str => native!(d, String, Dv::Str),
            Ty::Bytes => d.deserialize_byte_buf(BytesV),
            Ty::Opt(t) => d.deserialize_option(OptV(t)),
            Ty::UnitStruct(n) => d.deserialize_unit_struct(n, UnitV),
            Ty::Newtype(n, t) => d.deserialize_newtype_struct(n, NewV(t)),
            Ty::TupleStruct(n, ts) => d.deserialize_tuple_struct(n, ts.len(), TupV(ts)),
            Ty::Struct(n, names, fs) => d.deserialize_struct(n, names, StructV(names, fs)),
            Ty::Tuple(ts) => {
                if ts.is_empty() {
                    // an array of no elements
                    native!(d, [u8; 0], |_| Dv::List(vec![]))
                } else {
                    d.deserialize_tuple(ts.len(), TupV(ts))
                }
            }
            Ty::Seq(t, _) => d.deserialize_seq(SeqV(t)),
            Ty::Map(k, v, _) => d.deserialize_map(MapV(k, v)),
            Ty::Enum(n, names, shapes) => d.deserialize_enum(n, names, EnumV(names, shapes)),
        }
    }
}

struct BytesV;

impl<'de> Visitor<'de> for BytesV {
    type Value = Dv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Dv, E> {
        Ok(Dv::Bytes(v.to_vec()))
    }
    fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Dv, E> {
        Ok(Dv::Bytes(v))
    }
}

struct UnitV;

impl<'de> Visitor<'de> for UnitV {
    type Value = Dv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("unit struct")
    }
    fn visit_unit<E>(self) -> Result<Dv, E> {
        Ok(Dv::Unit)
    }
}

struct OptV<'t>(&'t Ty);

impl<'de> Visitor<'de> for OptV<'_> {
    type Value = Dv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("option")
    }
    fn visit_unit<E>(self) -> Result<Dv, E> {
        Ok(Dv::None)
    }
    fn visit_none<E>(self) -> Result<Dv, E> {
        Ok(Dv::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Dv, D::Error> {
        De(self.0).deserialize(d).map(|v| Dv::Some(Box::new(v)))
    }
}

struct NewV<'t>(&'t Ty);

impl<'de> Visitor<'de> for NewV<'_> {
    type Value = Dv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("newtype struct")
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Dv, D::Error> {
        De(self.0).deserialize(d).map(|v| Dv::List(vec![v]))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Dv, A::Error> {
        match a.next_element_seed(De(self.0))? {
            Some(v) => Ok(Dv::List(vec![v])),
            None => Err(de::Error::invalid_length(0, &"newtype struct with 1 element")),
        }
    }
}

struct TupV<'t>(&'t [Ty]);

impl<'de> Visitor<'de> for TupV<'_> {
    type Value = Dv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "tuple of {}", self.0.len())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Dv, A::Error> {
        let mut v = Vec::new();
        for (i, t) in self.0.iter().enumerate() {
            match a.next_element_seed(De(t))? {
                Some(x) => v.push(x),
                None => return Err(de::Error::invalid_length(i, &self)),
            }
        }
        Ok(Dv::List(v))
    }
}

struct SeqV<'t>(&'t Ty);

impl<'de> Visitor<'de> for SeqV<'_> {
    type Value = Dv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("sequence")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Dv, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element_seed(De(self.0))? {
            v.push(x);
        }
        Ok(Dv::List(v))
    }
}

struct MapV<'t>(&'t Ty, &'t Ty);

impl<'de> Visitor<'de> for MapV<'_> {
    type Value = Dv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Dv, A::Error> {
        let mut v = Vec::new();
        while let Some(k) = a.next_key_seed(De(self.0))? {
            v.push((k, a.next_value_seed(De(self.1))?));
        }
        Ok(Dv::Map(v))
    }
}

/// Which of some names; None for one that is not among them.
struct Ident(&'static [Name]);

impl<'de> DeserializeSeed<'de> for Ident {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        d.deserialize_identifier(self)
    }
}

impl<'de> Visitor<'de> for Ident {
    type Value = Option<usize>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("identifier")
    }
    fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E> {
        Ok(if (v as usize) < self.0.len() { Some(v as usize) } else { None })
    }
    fn visit_str<E>(self, v: &str) -> Result<Self::Value, E> {
        Ok(self.0.iter().position(|n| *n == v))
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Self::Value, E> {
        Ok(self.0.iter().position(|n| n.as_bytes() == v))
    }
}

struct StructV<'t>(&'static [Name], &'t [Field]);

impl<'de> Visitor<'de> for StructV<'_> {
    type Value = Dv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "struct with {} fields", self.0.len())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Dv, A::Error> {
        let mut v = Vec::new();
        for (i, f) in self.1.iter().enumerate() {
            match a.next_element_seed(De(&f.ty))? {
                Some(x) => v.push(x),
                None => return Err(de::Error::invalid_length(i, &self)),
            }
        }
        Ok(Dv::List(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Dv, A::Error> {
        let mut v: Vec<Option<Dv>> = vec![None; self.0.len()];
        while let Some(k) = a.next_key_seed(Ident(self.0))? {
            match k {
                Some(i) => {
                    if v[i].is_some() {
                        return Err(de::Error::duplicate_field(self.0[i]));
                    }
                    v[i] = Some(a.next_value_seed(De(&self.1[i].ty))?);
                }
                None => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        let mut out = Vec::new();
        for (i, x) in v.into_iter().enumerate() {
            out.push(match x {
                Some(x) => x,
                None if matches!(self.1[i].ty, Ty::Opt(_)) => Dv::None,
                None => return Err(de::Error::missing_field(self.0[i])),
            });
        }
        Ok(Dv::List(out))
    }
}

struct EnumV<'t>(&'static [Name], &'t [Shape]);

impl<'de> Visitor<'de> for EnumV<'_> {
    type Value = Dv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("enum")
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Dv, A::Error> {
        let (i, v) = a.variant_seed(Ident(self.0))?;
        let Some(i) = i else {
            return Err(de::Error::unknown_variant("?", self.0));
        };
        let list = |d: Dv| match d {
            Dv::List(v) => v,
            _ => unreachable!(),
        };
        Ok(Dv::Variant(
            i,
            match &self.1[i] {
                Shape::Unit => {
                    v.unit_variant()?;
                    vec![]
                }
                Shape::Newtype(t) => vec![v.newtype_variant_seed(De(t))?],
                Shape::Tuple(ts) => list(v.tuple_variant(ts.len(), TupV(ts))?),
                Shape::Struct(names, fs) => list(v.struct_variant(names, StructV(names, fs))?),
            },
        ))
    }
}

/// Number of types in a type.
pub fn weight(t: &Ty) -> usize {
    1 + match t {
        Ty::Opt(t) | Ty::Newtype(_, t) | Ty::Seq(t, _) => weight(t),
        Ty::TupleStruct(_, v) | Ty::Tuple(v) => v.iter().map(weight).sum(),
        Ty::Struct(_, _, f) => f.iter().map(|f| weight(&f.ty)).sum(),
        Ty::Map(a, b, _) => weight(a) + weight(b),
        Ty::Enum(_, _, s) => s
            .iter()
            .map(|s| match s {
                Shape::Unit => 0,
                Shape::Newtype(t) => weight(t),
                Shape::Tuple(v) => v.iter().map(weight).sum(),
                Shape::Struct(_, f) => f.iter().map(|f| weight(&f.ty)).sum(),
            })
            .sum(),
        _ => 0,
    }
}
