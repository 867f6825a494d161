//! P28: what constructors give.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use kserd::ds::NumberType;
use kserd::{Barr, Kserd, Kstr, Number, Value};
use std::borrow::Cow;

const WIDE: Opt = Opt { ids: 2, max_nodes: 6 };

/// A number of a native type: the identity is the type's name, the value is kept.
fn native<T: NumberType + Copy + std::fmt::Debug>(x: T, name: &str, expect: N) -> Result<(), Fail> {
    ensure!(x.identity() == name, "identity of a number type", "{:?} has {}", x, x.identity());
    let n: Number = x.into();
    ensure!(same_num(N::from_number(&n), expect), "number", "{} {:?} gives {:?}", name, x, n);
    let v = Value::new_num(x);
    ensure!(matches!(&v, Value::Num(m) if same_num(N::from_number(m), expect)), "number value", "{} {:?} gives {:?}", name, x, v);
    let k = Kserd::new_num(x);
    ensure!(k.id() == Some(name), "identity of a number", "{} {:?} gives {:?}", name, x, k);
    ensure!(matches!(&k.val, Value::Num(m) if same_num(N::from_number(m), expect)), "number", "{} {:?} gives {:?}", name, x, k);
    Ok(())
}

fn p28_numbers(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let (u, i, f) = (uint(s), int(s), float(s));
    ctx.sample(|| format!("{} {} {:?}", u, i, f));
    native(u as u8, "u8", N::U(u as u8 as u128))?;
    native(u as u16, "u16", N::U(u as u16 as u128))?;
    native(u as u32, "u32", N::U(u as u32 as u128))?;
    native(u as u64, "u64", N::U(u as u64 as u128))?;
    native(u as usize, "usize", N::U(u as usize as u128))?;
    native(u, "u128", N::U(u))?;
    native(i as i8, "i8", N::I(i as i8 as i128))?;
    native(i as i16, "i16", N::I(i as i16 as i128))?;
    native(i as i32, "i32", N::I(i as i32 as i128))?;
    native(i as i64, "i64", N::I(i as i64 as i128))?;
    native(i as isize, "isize", N::I(i as isize as i128))?;
    native(i, "i128", N::I(i))?;
    native(f, "f64", N::F(f))?;
    let g = f as f32;
    // the shortest decimal form is kept, see P14
    let wide: f64 = g.to_string().parse().expect("a float");
    native(g, "f32", N::F(wide))?;
    ctx.label_if(u > u64::MAX as u128, "beyond 64 bits");
    ctx.nontrivial(hash64(format!("{} {} {:?}", u, i, f.to_bits()).as_bytes()));
    Ok(())
}

fn p28_values(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    let k = Kserd::new_unit();
    ensure!(k.id().is_none() && matches!(k.val, Value::Unit), "unit", "{:?}", k);
    let b = s.flag();
    let k = Kserd::new_bool(b);
    ensure!(k.id() == Some("bool") && matches!(k.val, Value::Bool(x) if x == b), "bool", "{:?}", k);

    let t = string(s);
    let (p, n) = (t.as_ptr(), t.len());
    let is_view = |k: &Kstr| matches!(&k.inner, Cow::Borrowed(x) if x.as_ptr() == p && x.len() == n);
    let k = Kserd::new_str(&t);
    ensure!(k.id() == Some("str"), "identity of a str", "{:?}", k);
    ensure!(matches!(&k.val, Value::Str(x) if is_view(x)), "a str is borrowed as it is", "{:?} {:?}", t, k);
    ensure!(matches!(&Value::new_str(&t), Value::Str(x) if is_view(x)), "a str is borrowed as it is", "{:?}", t);
    ensure!(is_view(&Kstr::brwed(&t)) && is_view(&Kstr::from(t.as_str())), "a str is borrowed as it is", "{:?}", t);
    for (k, id) in [(Kserd::new_string(t.clone()), Some("String")), (Kserd::new(Value::new_string(t.clone())), None)] {
        ensure!(k.id() == id, "identity of a String", "{:?}", k);
        ensure!(matches!(&k.val, Value::Str(x) if matches!(&x.inner, Cow::Owned(y) if *y == t)), "a String is owned as it is", "{:?} {:?}", t, k);
    }

    let d = bytes(s);
    let (p, n) = (d.as_ptr(), d.len());
    let is_view = |k: &Barr| matches!(&k.inner, Cow::Borrowed(x) if x.as_ptr() == p && x.len() == n);
    let k = Kserd::new_barr(&d);
    ensure!(k.id() == Some("barr"), "identity of bytes", "{:?}", k);
    ensure!(matches!(&k.val, Value::Barr(x) if is_view(x)), "bytes are borrowed as they are", "{:?} {:?}", d, k);
    ensure!(matches!(&Value::new_barr(&d), Value::Barr(x) if is_view(x)), "bytes are borrowed as they are", "{:?}", d);
    ensure!(is_view(&Barr::brwed(&d)) && is_view(&Barr::from(d.as_slice())), "bytes are borrowed as they are", "{:?}", d);
    for (k, id) in [(Kserd::new_barrv(d.clone()), Some("ByteVec")), (Kserd::new(Value::new_barrv(d.clone())), None)] {
        ensure!(k.id() == id, "identity of a byte vector", "{:?}", k);
        ensure!(matches!(&k.val, Value::Barr(x) if matches!(&x.inner, Cow::Owned(y) if *y == d)), "a byte vector is owned as it is", "{:?} {:?}", d, k);
    }

    // containers and maps have no identity of their own and keep those inside
    let parts: Vec<M> = (0..s.below(8)).map(|_| value(s, WIDE)).collect();
    let mut fields: Vec<(String, M)> = Vec::new();
    let mut entries: Vec<(M, M)> = Vec::new();
    for m in &parts {
        push_field(&mut fields, name(s), m.clone());
        push_entry(&mut entries, value(s, WIDE), m.clone());
    }
    let show = || M::new(MV::Map(entries.clone())).show();
    let k = Kserd::new_cntr(fields.iter().map(|(f, m)| (f.as_str(), m.to_kserd())));
    match &k {
        Ok(k) => {
            let e = M::new(MV::Cntr(fields.clone()));
            let d = diff(&e, &M::read(k), EXACT);
            ensure!(d.is_none(), "container", "{}: {}", e.show(), d.unwrap());
        }
        Err(e) => ensure!(false, "container", "{}: {}", show(), e),
    }
    for k in [
        Kserd::new_map(entries.iter().map(|(q, m)| (q.to_kserd(), m.to_kserd()))),
        Kserd::new(Value::new_map(entries.iter().map(|(q, m)| (q.to_kserd(), m.to_kserd())))),
    ] {
        let e = M::read(&Kserd::new(Value::Map(entries.iter().map(|(q, m)| (q.to_kserd(), m.to_kserd())).collect())));
        let d = diff(&e, &M::read(&k), EXACT);
        ensure!(d.is_none() && k.map().map(|m| m.len()) == Some(entries.len()), "map", "{}: {:?}", show(), d);
    }
    let list: Vec<Kserd> = parts.iter().map(|m| m.to_kserd()).collect();
    let k = Kserd::new(Value::Seq(list));
    ensure!(k.id().is_none(), "a plain value has no identity", "{:?}", k);
    ctx.sample(|| format!("{:?} {:?} {}", t, d, show()));
    ctx.label_if(t.is_empty() || d.is_empty(), "empty text or bytes");
    if t.len() > 1 || d.len() > 1 {
        ctx.nontrivial(hash64(format!("{:?} {:?} {}", t, d, show()).as_bytes()));
    }
    Ok(())
}

crate::large! {
    p28_large = p28_values, usize::MAX;
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P28",
        rule: "every set of numbers / text or bytes longer than one; distinct by rendering",
        assumptions: &[],
        subs: vec![
            Sub { name: "numbers", f: p28_numbers, quick: 2_000_000, thorough: 100_000_000 },
            Sub { name: "values", f: p28_values, quick: 600_000, thorough: 20_000_000 },
                Sub { name: "large", f: p28_large, quick: 4_000, thorough: 200_000 },
        ],
        known: vec![],
    }]
}
