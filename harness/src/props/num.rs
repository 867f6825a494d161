//! P13, P14, P15: numbers.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use kserd::{Kserd, Number, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn fp(ns: &[N]) -> u64 {
    hash64(format!("{:?}", ns).as_bytes())
}

fn h(n: &Number) -> u64 {
    let mut s = DefaultHasher::new();
    n.hash(&mut s);
    s.finish()
}

// ------------------------------------------------------------------ P13

fn pair(s: &mut Src) -> (N, N) {
    let a = num(s);
    let b = if s.flag() { near(s, a) } else { num(s) };
    (a, b)
}

fn cmp_all(a: N, b: N) -> Result<Ordering, Fail> {
    let exp = cmp_num(a, b);
    let (x, y) = (a.to_number(), b.to_number());
    let c = x.cmp(&y);
    ensure!(c == exp, "comparison", "{:?} against {:?}: {:?}, exactly {:?}", a, b, c, exp);
    ensure!(x.partial_cmp(&y) == Some(exp), "partial comparison", "{:?} against {:?}: {:?}", a, b, x.partial_cmp(&y));
    ensure!(y.cmp(&x) == exp.reverse(), "comparison is not antisymmetric", "{:?} against {:?}: {:?} and {:?}", a, b, c, y.cmp(&x));
    ensure!((x == y) == (exp == Ordering::Equal), "equality", "{:?} == {:?} gives {}", a, b, x == y);
    ensure!((x != y) == (exp != Ordering::Equal), "inequality", "{:?} != {:?} gives {}", a, b, x != y);
    ensure!((y == x) == (exp == Ordering::Equal), "equality is not symmetric", "{:?} == {:?} gives {}", b, a, y == x);
    ensure!((x < y) == (exp == Ordering::Less), "less than", "{:?} < {:?} gives {}", a, b, x < y);
    ensure!((x <= y) == (exp != Ordering::Greater), "less or equal", "{:?} <= {:?} gives {}", a, b, x <= y);
    ensure!((x > y) == (exp == Ordering::Greater), "greater than", "{:?} > {:?} gives {}", a, b, x > y);
    ensure!((x >= y) == (exp != Ordering::Less), "greater or equal", "{:?} >= {:?} gives {}", a, b, x >= y);
    if exp == Ordering::Equal {
        ensure!(h(&x) == h(&y), "equal numbers hash differently", "{:?} and {:?}", a, b);
    }
    Ok(exp)
}

fn p13_pairs(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let (a, b) = pair(s);
    let o = cmp_all(a, b)?;
    cmp_all(a, a)?;
    ctx.label_if(o == Ordering::Equal, "equal");
    let mixed = std::mem::discriminant(&a) != std::mem::discriminant(&b);
    ctx.label_if(mixed, "different representations");
    ctx.label_if(mixed && o == Ordering::Equal, "equal in different representations");
    if mixed || o == Ordering::Equal {
        ctx.nontrivial(fp(&[a, b]));
    }
    ctx.sample(|| format!("{:?} {:?} {:?}", a, o, b));
    Ok(())
}

fn p13_sets(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let k = s.range(3, 9);
    let mut v: Vec<N> = vec![num(s)];
    while v.len() < k {
        let x = if s.chance(2, 3) {
            let b = *s.pick(&v);
            near(s, b)
        } else {
            num(s)
        };
        v.push(x);
    }
    let mut set = std::collections::BTreeSet::new();
    let mut hs = std::collections::HashSet::new();
    let mut model: Vec<N> = Vec::new();
    for n in &v {
        let new = !model.iter().any(|m| cmp_num(*m, *n) == Ordering::Equal);
        if new {
            model.push(*n);
        }
        let x = n.to_number();
        ensure!(set.contains(&x) != new, "ordered set lookup", "{:?} in {:?}", n, v);
        ensure!(hs.contains(&x) != new, "hash set lookup", "{:?} in {:?}", n, v);
        ensure!(set.insert(x) == new, "ordered set insert", "{:?} in {:?}", n, v);
        ensure!(hs.insert(x) == new, "hash set insert", "{:?} in {:?}", n, v);
    }
    model.sort_by(|a, b| cmp_num(*a, *b));
    let got: Vec<N> = set.iter().map(N::from_number).collect();
    ensure!(
        got.len() == model.len() && got.iter().zip(&model).all(|(a, b)| cmp_num(*a, *b) == Ordering::Equal),
        "order of a set",
        "{:?}: {:?} expected {:?}",
        v,
        got,
        model
    );
    let mut sorted: Vec<Number> = v.iter().map(|n| n.to_number()).collect();
    sorted.sort();
    ensure!(
        sorted.windows(2).all(|w| cmp_num(N::from_number(&w[0]), N::from_number(&w[1])) != Ordering::Greater),
        "sorting",
        "{:?}",
        sorted
    );
    ctx.nontrivial(fp(&v));
    ctx.label_if(model.len() < v.len(), "has equal numbers");
    ctx.sample(|| format!("{:?}", v));
    Ok(())
}

macro_rules! native {
    ($a:expr, $x:expr, $n:expr, $rep:expr) => {{
        let (a, x, n, rep): (N, Number, _, N) = ($a, $x, $n, $rep);
        let t = std::any::type_name_of_val(&n);
        let exp = cmp_num(a, rep);
        ensure!((x == n) == (exp == Ordering::Equal), "equality with a native number", "{:?} == {:?} ({}) gives {}", a, n, t, x == n);
        ensure!(x.partial_cmp(&n) == Some(exp), "comparison with a native number", "{:?} against {:?} ({}) gives {:?}", a, n, t, x.partial_cmp(&n));
        let made = N::from_number(&Number::from(n));
        ensure!(cmp_num(made, rep) == Ordering::Equal, "number made from a native number", "{:?} ({}) became {:?}", n, t, made);
        ensure!(x.cmp(&Number::from(n)) == exp, "comparison with the number made", "{:?} against {:?} ({})", a, n, t);
    }};
}

fn p13_native(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let (a, b) = pair(s);
    let x = a.to_number();
    let u = match b {
        N::U(u) => u,
        N::I(i) => i as u128,
        N::F(f) => f as u128,
    };
    let i = match b {
        N::U(u) => u as i128,
        N::I(i) => i,
        N::F(f) => f as i128,
    };
    let f = match b {
        N::U(u) => u as f64,
        N::I(i) => i as f64,
        N::F(f) => f,
    };
    match s.below(14) {
        0 => native!(a, x, u as u8, N::U(u as u8 as u128)),
        1 => native!(a, x, u as u16, N::U(u as u16 as u128)),
        2 => native!(a, x, u as u32, N::U(u as u32 as u128)),
        3 => native!(a, x, u as u64, N::U(u as u64 as u128)),
        4 => native!(a, x, u, N::U(u)),
        5 => native!(a, x, u as usize, N::U(u as usize as u128)),
        6 => native!(a, x, i as i8, N::I(i as i8 as i128)),
        7 => native!(a, x, i as i16, N::I(i as i16 as i128)),
        8 => native!(a, x, i as i32, N::I(i as i32 as i128)),
        9 => native!(a, x, i as i64, N::I(i as i64 as i128)),
        10 => native!(a, x, i, N::I(i)),
        11 => native!(a, x, i as isize, N::I(i as isize as i128)),
        12 => native!(a, x, f, N::F(f)),
        _ => native!(a, x, f as f32, N::F(decimal(f as f32))),
    }
    ctx.nontrivial(fp(&[a, b]));
    ctx.sample(|| format!("{:?} with {:?}", a, b));
    Ok(())
}

/// The 64-bit float with the shortest decimal form of a 32-bit one.
fn decimal(f: f32) -> f64 {
    if f.is_nan() {
        f64::NAN
    } else {
        format!("{:e}", f).parse().unwrap()
    }
}

// ------------------------------------------------------------------ P14

/// Nearest integer (if the number is finite and below 2^130) and the distance to it.
fn nearest_int(n: N) -> Option<(bool, u128, f64)> {
    match exact(n) {
        Exact::Fin { neg, mant, exp } => {
            if exp >= 0 {
                if mant == 0 {
                    return Some((false, 0, 0.0));
                }
                if exp as u32 > mant.leading_zeros() {
                    return None;
                }
                Some((neg, mant << exp, 0.0))
            } else {
                let e = (-exp) as u32;
                if e >= 120 {
                    // far below one half
                    let x = match n {
                        N::F(f) => f.abs(),
                        _ => unreachable!(),
                    };
                    return Some((neg, 0, x));
                }
                let int = mant >> e;
                let frac = (mant & ((1u128 << e) - 1)) as f64 / 2f64.powi(e as i32);
                if frac < 0.5 {
                    Some((neg, int, frac))
                } else {
                    Some((neg, int + 1, 1.0 - frac))
                }
            }
        }
        _ => None,
    }
}

fn expect_int(n: N, signed: bool) -> (Option<(bool, u128)>, bool) {
    // (expected, gray)
    match nearest_int(n) {
        None => (None, false),
        Some((neg, int, dist)) => {
            let near = dist < 1e-10;
            let edge = (dist - 1e-10).abs() < 1e-18;
            let neg_int = neg && int != 0;
            let fits = if signed {
                if neg_int {
                    int <= 1u128 << 127
                } else {
                    int < 1u128 << 127
                }
            } else {
                !neg_int
            };
            // a negative number that is not zero but next to it: is it in the range of the unsigned?
            let tiny = !signed && neg && int == 0 && dist > 0.0;
            (if near && fits { Some((neg_int, int)) } else { None }, edge || tiny)
        }
    }
}

fn as_int(x: (bool, u128)) -> i128 {
    if x.0 {
        (x.1 as i128).wrapping_neg()
    } else {
        x.1 as i128
    }
}

fn nearest_float(n: N) -> f64 {
    match n {
        N::U(x) => x.to_string().parse().unwrap(),
        N::I(x) => x.to_string().parse().unwrap(),
        N::F(f) => f,
    }
}

fn same_f(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

fn p14_convert(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let n = if s.flag() {
        num(s)
    } else {
        let n = num(s);
        near(s, n)
    };
    let x = n.to_number();
    let (eu, gu) = expect_int(n, false);
    let (ei, gi) = expect_int(n, true);
    let u = x.as_u128().ok();
    let i = x.as_i128().ok();
    if gu {
        ensure!(u.is_none() || u == Some(nearest_int(n).unwrap().1), "unsigned conversion", "{:?} gives {:?}", n, u);
    } else {
        ensure!(u == eu.map(|e| e.1), "unsigned conversion", "{:?} gives {:?}, expected {:?}", n, u, eu);
    }
    if gi {
        ensure!(i.is_none() || i.map(|x| x.unsigned_abs()) == Some(nearest_int(n).unwrap().1), "signed conversion", "{:?} gives {:?}", n, i);
    } else {
        ensure!(i == ei.map(as_int), "signed conversion", "{:?} gives {:?}, expected {:?}", n, i, ei);
    }
    let f = x.as_f64();
    ensure!(same_f(f, nearest_float(n)), "float conversion", "{:?} gives {:?}, nearest is {:?}", n, f, nearest_float(n));

    // the accessors of values
    let v = Value::Num(x);
    ensure!(v.uint() == u, "unsigned accessor", "{:?} gives {:?} but {:?}", n, v.uint(), u);
    ensure!(v.int() == i, "signed accessor", "{:?} gives {:?} but {:?}", n, v.int(), i);
    ensure!(v.float().map(f64::to_bits) == Some(f.to_bits()), "float accessor", "{:?} gives {:?}", n, v.float());
    let k = Kserd::new(v);
    ensure!(k.uint() == u && k.int() == i, "accessor through a value with identity", "{:?}", n);

    ctx.label_if(gu || gi, "edge");
    ctx.label_if(u.is_some() != i.is_some(), "one conversion only");
    let float = matches!(n, N::F(_));
    ctx.label_if(float && u.is_none() && i.is_none(), "float refused");
    ctx.label_if(float && i.is_some(), "float accepted");
    if float || u.is_some() != i.is_some() {
        ctx.nontrivial(fp(&[n]));
    }
    ctx.sample(|| format!("{:?} -> {:?} {:?} {:?}", n, u, i, f));
    Ok(())
}

macro_rules! from_int {
    ($x:expr, $exp:expr) => {{
        let x = $x;
        let n = N::from_number(&Number::from(x));
        ensure!(same_num(n, $exp), "number made from a native number", "{:?} ({}) became {:?}", x, std::any::type_name_of_val(&x), n);
        ensure!(
            Number::from(x).to_string() == x.to_string(),
            "decimal form",
            "{:?} ({}) prints {}",
            x,
            std::any::type_name_of_val(&x),
            Number::from(x)
        );
        // and through a value
        let k = Kserd::new_num(x);
        ensure!(matches!(&k.val, Value::Num(m) if same_num(N::from_number(m), $exp)), "value made from a native number", "{:?}: {:?}", x, k);
        ensure!(k.id() == Some(std::any::type_name_of_val(&x)), "identity of a number", "{:?} ({}): {:?}", x, std::any::type_name_of_val(&x), k.id());
    }};
}

fn p14_from(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let u = uint(s);
    let i = int(s);
    ctx.sample(|| format!("{} {}", u, i));
    ctx.nontrivial(hash64(format!("{}/{}", u, i).as_bytes()));
    from_int!(u as u8, N::U(u as u8 as u128));
    from_int!(u as u16, N::U(u as u16 as u128));
    from_int!(u as u32, N::U(u as u32 as u128));
    from_int!(u as u64, N::U(u as u64 as u128));
    from_int!(u as usize, N::U(u as usize as u128));
    from_int!(u, N::U(u));
    from_int!(i as i8, N::I(i as i8 as i128));
    from_int!(i as i16, N::I(i as i16 as i128));
    from_int!(i as i32, N::I(i as i32 as i128));
    from_int!(i as i64, N::I(i as i64 as i128));
    from_int!(i as isize, N::I(i as isize as i128));
    from_int!(i, N::I(i));
    Ok(())
}

fn p14_from_float(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let f = float(s);
    let n = N::from_number(&Number::from(f));
    ensure!(same_num(n, N::F(f)), "number made from a 64-bit float", "{:?} became {:?}", f, n);
    let g = if s.flag() { f as f32 } else { f32::from_bits(s.upto(u32::MAX as u64) as u32) };
    let n = N::from_number(&Number::from(g));
    let N::F(d) = n else { return fail("number made from a 32-bit float", format!("{:?} became {:?}", g, n)) };
    ensure!(same_f(d, decimal(g)), "decimal form of a 32-bit float", "{:?} became {:?}, expected {:?}", g, d, decimal(g));
    ensure!(g.is_nan() == d.is_nan() && (g.is_nan() || d as f32 == g), "32-bit float changed", "{:?} became {:?}", g, d);
    let k = Kserd::new_num(g);
    ensure!(k.id() == Some("f32") && matches!(&k.val, Value::Num(m) if same_num(N::from_number(m), n)), "value made from a 32-bit float", "{:?}: {:?}", g, k);
    let k = Kserd::new_num(f);
    ensure!(k.id() == Some("f64") && matches!(&k.val, Value::Num(m) if same_num(N::from_number(m), N::F(f))), "value made from a 64-bit float", "{:?}: {:?}", f, k);
    if g.is_finite() && g.fract() != 0.0 {
        ctx.nontrivial(hash64(&g.to_bits().to_le_bytes()));
    }
    ctx.sample(|| format!("{:?} {:?}", f, g));
    Ok(())
}

// ------------------------------------------------------------------ P15

fn p15_print(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let n = num(s);
    let x = n.to_number();
    let t = x.to_string();
    ctx.sample(|| format!("{:?} -> {}", n, t));
    let back = match t.parse::<Number>() {
        Ok(b) => N::from_number(&b),
        Err(_) => return fail("printed number does not read", format!("{:?} prints {:?}", n, t)),
    };
    ensure!(cmp_num(back, n) == Ordering::Equal, "number changed", "{:?} prints {:?} and reads {:?}", n, t, back);
    // as a value, in text
    match kserd::parse::parse(&t) {
        Ok(k) => match &k.val {
            Value::Num(b) if cmp_num(N::from_number(b), n) == Ordering::Equal => (),
            v => return fail("number changed in text", format!("{:?} prints {:?} and reads {:?}", n, t, v)),
        },
        Err(e) => return fail("printed number does not read in text", format!("{:?} prints {:?}\n{}", n, t, e.backtrace())),
    }
    let k = Kserd::new(Value::Num(x)).as_str();
    ensure!(k == t, "text of a number", "{:?} prints {:?} but is written {:?}", n, t, k);
    let big = match n {
        N::U(u) => u > 1 << 53,
        N::I(i) => i.unsigned_abs() > 1 << 53,
        N::F(f) => f.fract() != 0.0 || f.abs() > 1e15 || !f.is_finite(),
    };
    if big {
        ctx.nontrivial(fp(&[n]));
    }
    ctx.label_if(matches!(n, N::F(f) if f.abs() >= 1e15), "large float");
    ctx.label_if(matches!(n, N::F(f) if f.abs() < 1e-5 && f != 0.0), "small float");
    Ok(())
}

/// What a text means as a number.
enum Meaning {
    No,
    /// It is this number; `canonical`: in a form that has to be accepted.
    Yes { n: N, canonical: bool },
}

fn meaning(t: &str) -> Meaning {
    let neg = t.starts_with('-');
    let body = if neg { &t[1..] } else { t };
    if !body.is_empty() && body.bytes().all(|b| b.is_ascii_digit() || b == b'_') {
        let digits: String = body.chars().filter(|c| *c != '_').collect();
        if digits.is_empty() {
            return Meaning::No;
        }
        let mut v: Option<u128> = Some(0);
        for c in digits.bytes() {
            v = v.and_then(|v| v.checked_mul(10)).and_then(|v| v.checked_add((c - b'0') as u128));
        }
        let Some(v) = v else { return Meaning::No };
        if neg && v > 1 << 127 {
            return Meaning::No;
        }
        let n = if neg { N::I((v as i128).wrapping_neg()) } else { N::U(v) };
        let separators = !body.starts_with('_') && !body.ends_with('_') && !body.contains("__");
        let zeros = digits.len() > 1 && digits.starts_with('0');
        return Meaning::Yes { n, canonical: separators && !zeros };
    }
    match t.parse::<f64>() {
        Err(_) => Meaning::No,
        Ok(f) => {
            let (mant, exp) = match body.find(|c| c == 'e' || c == 'E') {
                Some(i) => (&body[..i], Some(&body[i + 1..])),
                None => (body, None),
            };
            let digits = |x: &str| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit());
            let mant_ok = match mant.split_once('.') {
                Some((a, b)) => digits(a) && digits(b),
                None => digits(mant),
            };
            let exp_ok = match exp {
                Some(e) => digits(e.strip_prefix('-').unwrap_or(e)),
                None => true,
            };
            let word = matches!(t, "inf" | "-inf" | "NaN");
            Meaning::Yes { n: N::F(f), canonical: word || (mant_ok && exp_ok && !t.contains('_')) }
        }
    }
}

fn spelled(s: &mut Src) -> String {
    let digits = |s: &mut Src, max: usize| -> String {
        let n = s.range(1, max);
        (0..n).map(|_| (b'0' + s.below(10) as u8) as char).collect()
    };
    let sign = if s.flag() { "-" } else { "" };
    match s.weighted(&[3, 3, 4, 3, 3, 2, 2]) {
        0 => format!("{}{}", sign, uint(s)),
        1 => {
            // separators
            let d: Vec<char> = uint(s).to_string().chars().collect();
            let mut t = sign.to_string();
            for (i, c) in d.iter().enumerate() {
                if i > 0 && s.chance(1, 3) {
                    t.push('_');
                }
                t.push(*c);
            }
            t
        }
        2 => {
            let mut t = format!("{}{}", sign, digits(s, 25));
            if s.flag() {
                t.push('.');
                t.push_str(&digits(s, 25));
            }
            if s.flag() {
                let e = s.below(330);
                t.push_str(&format!("{}{}{}", s.pick(&["e", "e", "E"]), s.pick(&["", "-"]), e));
            }
            t
        }
        3 => {
            // around the ends of the ranges
            let base = s.pick(&[
                "340282366920938463463374607431768211455",
                "170141183460469231731687303715884105727",
                "170141183460469231731687303715884105728",
                "18446744073709551615",
                "9223372036854775807",
            ]);
            let mut d: Vec<u8> = base.bytes().collect();
            let i = d.len() - 1 - s.below(3);
            d[i] = b'0' + s.below(10) as u8;
            let mut t = String::from_utf8(d).unwrap();
            if s.chance(1, 4) {
                t.push((b'0' + s.below(10) as u8) as char);
            }
            format!("{}{}", sign, t)
        }
        4 => {
            // halfway cases of floats
            let f = float(s).abs();
            if f.is_finite() {
                let (m, e) = match exact(N::F(f)) {
                    Exact::Fin { mant, exp, .. } => (mant, exp),
                    _ => (0, 0),
                };
                if (-60..60).contains(&e) && m < 1 << 60 {
                    // the exact decimal of the number plus half a unit
                    let m2 = m * 2 + 1;
                    let e2 = e - 1;
                    if e2 >= 0 {
                        format!("{}{}.0", sign, m2.checked_shl(e2 as u32).unwrap_or(0))
                    } else {
                        format!("{}{:.*}", sign, (-e2) as usize, m2 as f64 * 2f64.powi(e2))
                    }
                } else {
                    format!("{}{:e}", sign, f)
                }
            } else {
                format!("{}inf", sign)
            }
        }
        5 => {
            let f = float(s);
            match s.below(3) {
                0 => format!("{}", f),
                1 => format!("{:e}", f),
                _ => format!("{:?}", f),
            }
        }
        _ => {
            let alphabet: Vec<char> = "0123456789-.einfNa_+E xX".chars().collect();
            let n = s.below(10);
            (0..n).map(|_| *s.pick(&alphabet)).collect()
        }
    }
}

fn p15_read(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let mut t = spelled(s);
    if s.chance(1, 4) {
        // change a character
        let mut v: Vec<char> = t.chars().collect();
        let alphabet: Vec<char> = "0123456789-.einfNa_+E xX,:;\n\u{0}é٣".chars().collect();
        match s.below(3) {
            0 if !v.is_empty() => {
                let i = s.below(v.len());
                v.remove(i);
            }
            1 if !v.is_empty() => {
                let i = s.below(v.len());
                v[i] = *s.pick(&alphabet);
            }
            _ => {
                let i = s.below(v.len() + 1);
                v.insert(i, *s.pick(&alphabet));
            }
        }
        t = v.into_iter().collect();
    }
    let got = t.parse::<Number>().ok().map(|n| N::from_number(&n));
    ctx.sample(|| format!("{:?} -> {:?}", t, got));
    let text_got = kserd::parse::parse(&t).ok();
    let plain = t.bytes().all(|b| b.is_ascii_digit() || b"-.einfNa".contains(&b));
    match meaning(&t) {
        Meaning::No => {
            ctx.label("not a number");
            ensure!(got.is_none(), "not a number but read as one", "{:?} reads as {:?}", t, got);
            if let Some(k) = &text_got {
                let trimmed = t.trim_matches(|c| " \t\r\n".contains(c));
                let sub = matches!(meaning(trimmed), Meaning::Yes { .. });
                ensure!(sub || !matches!(k.val, Value::Num(_)), "not a number but read as one in text", "{:?} reads as {:?}", t, k);
            }
        }
        Meaning::Yes { n, canonical } => {
            ctx.label(if canonical { "number" } else { "unusual spelling" });
            match got {
                None => ensure!(!canonical, "number refused", "{:?}", t),
                Some(g) => {
                    ensure!(cmp_num(g, n) == Ordering::Equal, "number misread", "{:?} reads as {:?}, expected {:?}", t, g, n);
                    if canonical {
                        ensure!(
                            std::mem::discriminant(&g) == std::mem::discriminant(&n),
                            "number of another kind",
                            "{:?} reads as {:?}, expected {:?}",
                            t,
                            g,
                            n
                        );
                    }
                }
            }
            match &text_got {
                Some(k) => match &k.val {
                    Value::Num(g) => {
                        let g = N::from_number(g);
                        ensure!(cmp_num(g, n) == Ordering::Equal, "number misread in text", "{:?} reads as {:?}, expected {:?}", t, g, n)
                    }
                    v => return fail("number read as something else", format!("{:?} reads as {:?}", t, v)),
                },
                None => ensure!(!(canonical && plain), "number refused in text", "{:?}", t),
            }
        }
    }
    if t.len() > 1 {
        ctx.nontrivial(hash64(t.as_bytes()));
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P13",
            rule: "pairs of different representation or equal value, every set of three or more numbers, every native comparison; distinct by numbers",
            assumptions: &[],
            subs: vec![
                Sub { name: "pairs", f: p13_pairs, quick: 8_000_000, thorough: 400_000_000 },
                Sub { name: "sets", f: p13_sets, quick: 1_200_000, thorough: 60_000_000 },
                Sub { name: "native", f: p13_native, quick: 3_000_000, thorough: 150_000_000 },
            ],
            known: vec![],
        },
        Prop {
            id: "P14",
            rule: "floats and numbers that fit one integer type only (conversions), every case (from integers), fractional 32-bit floats; distinct by number",
            assumptions: &[
                "a float at exactly the tolerance, and a negative float closer to zero than the tolerance converted to unsigned, may be accepted or refused",
            ],
            subs: vec![
                Sub { name: "convert", f: p14_convert, quick: 9_000_000, thorough: 300_000_000 },
                Sub { name: "from-integers", f: p14_from, quick: 900_000, thorough: 30_000_000 },
                Sub { name: "from-floats", f: p14_from_float, quick: 6_000_000, thorough: 200_000_000 },
            ],
            known: vec![],
        },
        Prop {
            id: "P15",
            rule: "number beyond 2^53, fractional or not finite / text of two or more bytes; distinct by number or text",
            assumptions: &["spellings the documentation does not mention (leading zeros, unusual separators, plus signs) may be refused, but are not misread"],
            subs: vec![
                Sub { name: "print", f: p15_print, quick: 4_000_000, thorough: 200_000_000 },
                Sub { name: "read", f: p15_read, quick: 6_000_000, thorough: 300_000_000 },
            ],
            known: vec![],
        },
    ]
}
