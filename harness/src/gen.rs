//! Generators. Smaller choices always give simpler cases.

use crate::engine::Src;
use crate::model::*;
use kserd::fmt::FormattingConfig;

// ------------------------------------------------------------------ names

/// Names that look like something else in the notation.
pub const ODD_NAMES: &[&str] = &[
    "a", "true", "false", "inf", "NaN", "str", "b91", "e", "None", "Some", "trueish", "falsey", "true-", "_", "__",
    "a-b", "A1", "n", "i", "infx", "NaNa", "inf-", "strx", "str1", "b91x", "e1", "E", "x-", "nan", "b", "f64", "t",
    "id", "Ok", "Err",
];

/// Names of types and kinds of values, which code could take as understood.
pub const TYPE_NAMES: &[&str] = &[
    "bool", "char", "str", "String", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32",
    "f64", "array", "Vec", "ByteVec", "ByteArray", "barr", "Barr", "bytes", "BTreeMap", "HashMap", "map", "Map", "Option", "Result",
    "Box", "Cow", "Seq", "seq", "list", "tuple", "Tuple", "Unit", "unit", "null", "nil", "none", "cntr", "Cntr", "struct", "enum",
    "Num", "num", "number", "Kserd", "Value", "self", "Self", "default", "type", "key", "value", "infinity", "NAN", "INF", "True",
    "False", "TRUE", "FALSE",
];

const NAME_START: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
const NAME_REST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789-";

/// A name the notation can carry: ASCII letters, digits, '_' and '-', starting with a letter or '_'.
pub fn name(s: &mut Src) -> String {
    match s.weighted(&[6, 5, 3, 1]) {
        0 => (NAME_START[s.below(6)] as char).to_string(),
        1 if s.chance(1, 3) => s.pick(TYPE_NAMES).to_string(),
        1 => s.pick(ODD_NAMES).to_string(),
        2 => {
            let mut n = String::new();
            n.push(NAME_START[s.below(NAME_START.len())] as char);
            for _ in 0..s.below(8) {
                n.push(NAME_REST[s.below(NAME_REST.len())] as char);
            }
            n
        }
        _ => {
            let mut n = String::from("n");
            let len = if s.chance(1, 12) { s.below(400) } else { s.below(40) };
            for _ in 0..len {
                n.push(NAME_REST[s.below(NAME_REST.len())] as char);
            }
            n
        }
    }
}

// ------------------------------------------------------------------ strings and bytes

/// Every character the writer or reader treats specially.
pub const DELIMS: &str = "\"'#`=|*^!%~&_\\/:<>()";
pub const SYNTAX: &str = "\"'#`=|*^!%~&_\\/:<>()[]{},;.+-@$? \t\r\n";
const SNIPPETS: &[&str] = &[
    "a = 1", "[a]", "[[a]]", "\n[a]\n", "\n[[a]]\n", ":id", "str'", "str\"", "b91'", "()", "(a = 1)", "<a> ", "\n    b = 2", "str",
    "\"", "'", "\r\n", "true", "inf", "NaN", "1", "-1.5", ": ", ", ", " = ", "{", "}", "]]", "\n\n", "//", "#",
];

pub fn char_any(s: &mut Src) -> char {
    match s.weighted(&[6, 6, 2, 2, 1]) {
        0 => (b'a' + s.below(26) as u8) as char,
        1 => {
            let v: Vec<char> = SYNTAX.chars().collect();
            *s.pick(&v)
        }
        2 => s.below(128) as u8 as char,
        3 => *s.pick(&[
            '\u{a0}', '\u{85}', '\u{2028}', '\u{2029}', '\u{feff}', 'é', 'ß', '😀', '\u{301}', '\u{0}', '\u{7f}', '¡', '¢', '£', '…',
            '\u{10ffff}', '“', '”', '‘', '。', '\u{b}', '\u{c}', '\u{1680}', '\u{3000}',
        ]),
        _ => loop {
            if let Some(c) = char::from_u32(s.upto(0x10ffff) as u32) {
                break c;
            }
        },
    }
}

pub fn string(s: &mut Src) -> String {
    if take_large() {
        return large_string(s);
    }
    match s.weighted(&[80, 40, 40, 40, 20, 10, 1]) {
        0 => {
            let n = s.below(6);
            (0..n).map(|_| (b'a' + s.below(4) as u8) as char).collect()
        }
        1 => {
            let n = s.below(10);
            (0..n).map(|_| char_any(s)).collect()
        }
        2 => {
            let n = s.range(1, 4);
            (0..n).map(|_| *s.pick(SNIPPETS)).collect::<Vec<_>>().concat()
        }
        3 => {
            // a prefix of the delimiters, in order, so that later ones are forced
            let ds: Vec<char> = DELIMS.chars().collect();
            let n = s.range(1, ds.len());
            let mut v: Vec<char> = ds[..n].to_vec();
            // drop one of them, add other text
            if s.flag() {
                let i = s.below(v.len());
                v.remove(i);
            }
            for _ in 0..s.below(4) {
                let i = s.below(v.len() + 1);
                v.insert(i, char_any(s));
            }
            if s.flag() {
                v.reverse();
            }
            v.into_iter().collect()
        }
        4 => {
            // all printable ASCII, possibly with part of what follows
            let mut v: String = (0x20u8..0x7f).map(|b| b as char).collect();
            let lo = [0x80u32, 0xa0, 0xa1, 0xc0, 0x2500, 0x1f600][s.below(6)];
            for i in 0..s.below(200) as u32 {
                if let Some(c) = char::from_u32(lo + i) {
                    v.push(c);
                }
            }
            if s.flag() {
                v.push_str(&string(s));
            }
            v
        }
        5 => {
            let n = s.below(120);
            (0..n).map(|_| char_any(s)).collect()
        }
        _ => {
            // long
            let n = if s.chance(1, 10) { s.below(9000) } else { s.below(1200) };
            let unit = [string_unit(s), string_unit(s)];
            let mut v = String::new();
            while v.len() < n {
                v.push_str(&unit[s.weighted(&[9, 1])]);
            }
            v
        }
    }
}

fn string_unit(s: &mut Src) -> String {
    match s.below(3) {
        0 => "a".to_string(),
        1 => s.pick(SNIPPETS).to_string(),
        _ => format!("{} ", char_any(s)),
    }
}

pub fn bytes(s: &mut Src) -> Vec<u8> {
    if take_large() {
        return large_bytes(s);
    }
    let n = match s.weighted(&[60, 30, 10, 1]) {
        0 => s.below(5),
        1 => s.below(20),
        2 => s.below(200),
        _ => s.below(3000),
    };
    match s.below(3) {
        0 => (0..n).map(|_| s.upto(255) as u8).collect(),
        1 => {
            let b = *s.pick(&[0u8, 255, 39, 34, 128]);
            vec![b; n]
        }
        _ => (0..n).map(|_| *s.pick(&[0u8, 1, 254, 255, 39, 34, 92, 10, 13, 91])).collect(),
    }
}

// ------------------------------------------------------------------ numbers

pub fn float(s: &mut Src) -> f64 {
    let x = match s.weighted(&[4, 4, 4, 3, 3, 3, 3, 2, 2]) {
        0 => s.below(20) as f64,
        1 => s.below(1000) as f64 / [2.0, 4.0, 10.0, 100.0, 1000.0][s.below(5)],
        2 => *s.pick(&[
            0.0,
            f64::INFINITY,
            f64::NAN,
            f64::MIN_POSITIVE,
            f64::MAX,
            f64::EPSILON,
            5e-324,
            1e15,
            1e16,
            1e17,
            1e21,
            1e22,
            1e38,
            1e39,
            3.4e38,
            1e-5,
            1e-7,
            1e-11,
            1e-10,
            9.9e-11,
            1.1e-10,
            1e300,
            0.1,
            1.0 / 3.0,
        ]),
        3 => {
            // powers of two and their neighbours
            let e = s.below(140) as i32;
            let x = 2f64.powi(e);
            f64::from_bits((x.to_bits() as i64 + s.below(5) as i64 - 2) as u64)
        }
        4 => {
            // just off an integer
            let k = s.below(1 << 20) as f64;
            let d = *s.pick(&[1e-9, 1e-10, 9e-11, 1.1e-10, 1e-11, 1e-12, 1e-13, 0.5, 0.25, 1e-6]);
            if s.flag() {
                k + d
            } else {
                k - d
            }
        }
        5 => f64::from_bits(s.upto(u64::MAX)),
        6 => (s.upto(u64::MAX)) as f64,
        7 => (s.u128()) as f64,
        _ => {
            let e = s.below(617) as i32 - 308;
            format!("{}e{}", s.below(1000), e).parse().unwrap()
        }
    };
    if s.flag() {
        -x
    } else {
        x
    }
}

pub fn uint(s: &mut Src) -> u128 {
    match s.weighted(&[5, 3, 5, 2, 2]) {
        0 => s.below(20) as u128,
        1 => s.below(100_000) as u128,
        2 => {
            let e = s.below(129) as u32;
            let x = if e == 128 { u128::MAX } else { 1u128 << e };
            x.wrapping_add(s.below(5) as u128).wrapping_sub(2)
        }
        3 => s.upto(u64::MAX) as u128,
        _ => s.u128(),
    }
}

pub fn int(s: &mut Src) -> i128 {
    let u = uint(s);
    match s.below(3) {
        0 => (u >> 1) as i128,
        1 => -((u >> 1) as i128),
        _ => u as i128,
    }
}

pub fn num(s: &mut Src) -> N {
    match s.below(3) {
        0 => N::U(uint(s)),
        1 => N::I(int(s)),
        _ => N::F(float(s)),
    }
}

/// A number close to (often exactly equal to, in another representation) a given one.
pub fn near(s: &mut Src, n: N) -> N {
    let tweak_f = |s: &mut Src, f: f64| -> f64 {
        if !f.is_finite() {
            return f;
        }
        let d = s.below(7) as i64 - 3;
        f64::from_bits((f.to_bits() as i64).wrapping_add(d) as u64)
    };
    let d = s.below(5) as i128 - 2;
    match (n, s.below(3)) {
        (N::U(u), 0) => N::U(u.wrapping_add(d as u128)),
        (N::U(u), 1) => N::I((u as i128).wrapping_add(d)),
        (N::U(u), _) => N::F(tweak_f(s, u as f64)),
        (N::I(i), 0) => N::U(i.unsigned_abs().wrapping_add(d as u128)),
        (N::I(i), 1) => N::I(i.wrapping_add(d)),
        (N::I(i), _) => N::F(tweak_f(s, i as f64)),
        (N::F(f), 0) => N::U((f as u128).wrapping_add(d as u128)),
        (N::F(f), 1) => N::I((f as i128).wrapping_add(d)),
        (N::F(f), _) => N::F(tweak_f(s, f)),
    }
}

// ------------------------------------------------------------------ values

#[derive(Clone, Copy)]
pub struct Opt {
    /// Chance in 8 that a value has an identity.
    pub ids: u64,
    pub max_nodes: usize,
}

pub const VALS: Opt = Opt { ids: 3, max_nodes: 24 };

/// A value all of whose names the notation can carry.
pub fn value(s: &mut Src, o: Opt) -> M {
    if take_large() {
        return large(s, o);
    }
    match s.weighted(&[80, 8, if o.max_nodes >= 10 { 2 } else { 0 }]) {
        1 => return chain(s, o),
        2 => return wide(s, o),
        _ => {}
    }
    let mut budget = s.below(o.max_nodes) as isize;
    let root_cntr = s.flag();
    let m = node(s, o, &mut budget, 0, root_cntr);
    m
}

/// A value with an identity. The words `true` and `false` are not identities the notation can carry
/// in front of a bracket (known finding of P02), so they are used on scalars only.
fn identified(id: Option<String>, v: MV) -> M {
    let scalar = matches!(v, MV::Bool(_) | MV::Num(_) | MV::Str(_) | MV::Barr(_));
    let id = match id.as_deref() {
        Some("true") if !scalar => Some("truer".into()),
        Some("false") if !scalar => Some("falser".into()),
        _ => id,
    };
    M { id, v }
}

fn ident(s: &mut Src, o: Opt) -> Option<String> {
    if s.chance(o.ids, 8) {
        Some(name(s))
    } else {
        None
    }
}

pub fn prim(s: &mut Src, o: Opt) -> M {
    let id = ident(s, o);
    let v = match s.weighted(&[3, 2, 2, 4, 1]) {
        0 => MV::Num(num(s)),
        1 => MV::Unit,
        2 => MV::Bool(s.flag()),
        3 => MV::Str(string(s)),
        _ => MV::Barr(bytes(s)),
    };
    identified(id, v)
}

/// Adds an entry unless an entry with that key (identity apart) is there already.
pub fn push_entry(v: &mut Vec<(M, M)>, k: M, x: M) -> bool {
    if v.iter().any(|(k2, _)| same(k2, &k, TEXT_VAL)) {
        false
    } else {
        v.push((k, x));
        true
    }
}

pub fn push_field(v: &mut Vec<(String, M)>, n: String, x: M) -> bool {
    if v.iter().any(|(n2, _)| *n2 == n) {
        false
    } else {
        v.push((n, x));
        v.sort_by(|a, b| a.0.cmp(&b.0));
        true
    }
}

fn node(s: &mut Src, o: Opt, budget: &mut isize, depth: usize, want_cntr: bool) -> M {
    *budget -= 1;
    if (*budget < 0 || depth > 7) && !want_cntr {
        return prim(s, o);
    }
    let k = if want_cntr {
        4
    } else {
        s.weighted(&[3, 0, 2, 3, 3, 2])
    };
    if k == 0 {
        return prim(s, o);
    }
    let id = ident(s, o);
    let n = s.weighted(&[1, 5, 5, 3, 2, 1]);
    let v = match k {
        2 => MV::Tuple((0..n).map(|_| node(s, o, budget, depth + 1, false)).collect()),
        3 => MV::Seq((0..n).map(|_| node(s, o, budget, depth + 1, false)).collect()),
        4 => {
            let mut v = Vec::new();
            for _ in 0..n {
                let f = name(s);
                let x = node(s, o, budget, depth + 1, false);
                push_field(&mut v, f, x);
            }
            MV::Cntr(v)
        }
        _ => {
            let mut v = Vec::new();
            for _ in 0..n {
                let k = if s.chance(1, 2) {
                    node(s, o, budget, depth + 1, false)
                } else {
                    prim(s, o)
                };
                let x = node(s, o, budget, depth + 1, false);
                push_entry(&mut v, k, x);
            }
            MV::Map(v)
        }
    };
    identified(id, v)
}

/// A value with many parts, perhaps inside a few others.
fn wide(s: &mut Src, o: Opt) -> M {
    let n = match s.weighted(&[12, 6, 1]) {
        0 => s.range(6, 20),
        1 => s.range(20, 70),
        _ => s.range(70, 300),
    };
    let kind = s.below(4);
    let flavour = s.below(4);
    let part = |s: &mut Src| match flavour {
        0 => M { id: None, v: MV::Num(N::U(s.below(1000) as u128)) },
        1 => prim(s, o),
        2 => {
            let mut budget = 2;
            node(s, o, &mut budget, 5, false)
        }
        _ => M { id: ident(s, o).filter(|_| n < 70), v: MV::Str("ab".repeat(s.below(8))) },
    };
    let id = ident(s, o);
    let v = match kind {
        0 => MV::Seq((0..n).map(|_| part(s)).collect()),
        1 => MV::Tuple((0..n).map(|_| part(s)).collect()),
        2 => {
            let plain = s.flag();
            let mut v: Vec<(String, M)> = Vec::new();
            for i in 0..n {
                let f = if plain { format!("f{}", i) } else { name(s) };
                let x = part(s);
                push_field(&mut v, f, x);
            }
            MV::Cntr(v)
        }
        _ => {
            let keys = s.below(3);
            let mut v = Vec::new();
            for i in 0..n {
                let k = match keys {
                    0 => M { id: None, v: MV::Num(N::U(i as u128)) },
                    1 => M { id: None, v: MV::Str(format!("k{}", i)) },
                    _ => part(s),
                };
                let x = part(s);
                push_entry(&mut v, k, x);
            }
            MV::Map(v)
        }
    };
    let layers = s.below(3);
    wrap(s, o, identified(id, v), layers)
}

/// A deep value: one composite per level, with a few primitive siblings.
pub fn chain(s: &mut Src, o: Opt) -> M {
    let depth = if s.chance(1, 20) { s.range(15, 60) } else { s.range(3, 14) };
    let m = prim(s, o);
    wrap(s, o, m, depth)
}

fn wrap(s: &mut Src, o: Opt, mut m: M, depth: usize) -> M {
    let bias = s.below(6);
    // every level of the same kind
    let pure = s.chance(1, 3);
    for _ in 0..depth {
        let id = ident(s, o);
        let k = if bias < 5 && (pure || s.flag()) { bias } else { s.below(5) };
        let sib = s.below(3);
        let v = match k {
            0 => {
                let mut v = vec![(name(s), m)];
                for _ in 0..sib {
                    let n = name(s);
                    let p = prim(s, o);
                    push_field(&mut v, n, p);
                }
                MV::Cntr(v)
            }
            1 => {
                let mut v = vec![m];
                for _ in 0..sib {
                    v.push(prim(s, o));
                }
                MV::Seq(v)
            }
            2 => {
                let mut v = vec![m];
                for _ in 0..sib {
                    v.insert(0, prim(s, o));
                }
                MV::Tuple(v)
            }
            3 => {
                let mut v = Vec::new();
                let k = prim(s, o);
                push_entry(&mut v, k, m);
                for _ in 0..sib {
                    let (k, p) = (prim(s, o), prim(s, o));
                    push_entry(&mut v, k, p);
                }
                MV::Map(v)
            }
            _ => {
                let mut v = Vec::new();
                let p = prim(s, o);
                push_entry(&mut v, m, p);
                for _ in 0..sib {
                    let (k, p) = (prim(s, o), prim(s, o));
                    push_entry(&mut v, k, p);
                }
                MV::Map(v)
            }
        };
        m = identified(id, v);
    }
    m
}

// ------------------------------------------------------------------ large values

thread_local! {
    static LARGE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LARGEST: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

/// Runs a check with the first thing it generates a large one.
pub fn with_large<T>(most: usize, f: impl FnOnce() -> T) -> T {
    LARGE.with(|l| l.set(true));
    LARGEST.with(|l| l.set(most));
    let r = f();
    LARGE.with(|l| l.set(false));
    r
}

pub fn take_large() -> bool {
    LARGE.with(|l| l.replace(false))
}

/// A size about a place where fixed-size buffers and counters end.
pub fn large_size(s: &mut Src, max: usize) -> usize {
    let n = match s.weighted(&[4, 6, 3, 4, 2, 4, 3]) {
        0 => 64,
        1 => 128,
        2 => 256,
        3 => 1024,
        4 => 4096,
        5 => return s.range(60, 1400).min(max),
        _ => {
            if s.chance(1, 8) {
                65536
            } else {
                512
            }
        }
    };
    let n = if n > max { 256 } else { n };
    (n - 2 + s.below(6)).min(max)
}

pub fn large_string(s: &mut Src) -> String {
    let n = large_size(s, usize::MAX);
    let unit: &str = match s.below(4) {
        0 => "a",
        1 => " ",
        2 => s.pick(SNIPPETS),
        _ => s.pick(&["é", "😀", "\n", "ab ", "a\n    ", "\t"]),
    };
    let mut v: Vec<char> = unit.chars().cycle().take(n).collect();
    for _ in 0..s.below(4) {
        let c = char_any(s);
        let at = match s.below(4) {
            0 => v.len(),
            1 => v.len().saturating_sub(1 + s.below(4)),
            2 => s.below(4).min(v.len()),
            _ => s.below(v.len() + 1),
        };
        v.insert(at, c);
    }
    v.into_iter().collect()
}

pub fn large_bytes(s: &mut Src) -> Vec<u8> {
    let n = large_size(s, 5000);
    let (a, b) = (s.upto(255) as u8, s.upto(255) as u8);
    let mut v: Vec<u8> = (0..n).map(|i| a.wrapping_add(b.wrapping_mul(i as u8))).collect();
    for _ in 0..s.below(4) {
        let at = s.below(v.len() + 1);
        v.insert(at, s.upto(255) as u8);
    }
    v
}

fn large_name(s: &mut Src) -> String {
    let n = large_size(s, 5000);
    let a = s.below(NAME_REST.len());
    std::iter::once('n').chain((1..n).map(|i| NAME_REST[(a + i * 7) % NAME_REST.len()] as char)).collect()
}

/// A value large in one respect.
pub fn large(s: &mut Src, o: Opt) -> M {
    let id = ident(s, o);
    let m = match s.weighted(&[5, 2, 3, 2, 3, 2, 2, 1, 2]) {
        0 => identified(id, MV::Str(large_string(s))),
        1 => identified(id, MV::Barr(large_bytes(s))),
        k @ (2 | 3) => {
            let n = large_size(s, LARGEST.with(|l| l.get()));
            let mut part = parts(s, o);
            if n > 5000 {
                part = vec![prim(s, Opt { ids: 0, ..o })];
            }
            let v = (0..n).map(|i| part[i % part.len()].clone()).collect();
            identified(id, if k == 2 { MV::Seq(v) } else { MV::Tuple(v) })
        }
        4 => {
            // the library compares fields pairwise in debug builds
            let n = large_size(s, 1100);
            let part = parts(s, o);
            let odd = name(s);
            let f = |i: usize| if i % 5 == 4 { format!("{}{}", odd, i) } else { format!("f{}", i) };
            identified(id, MV::Cntr((0..n).map(|i| (f(i), part[i % part.len()].clone())).collect()))
        }
        5 => {
            let n = large_size(s, 1100);
            let part = parts(s, o);
            let keys = s.below(3);
            let key = |i: usize| match keys {
                0 => MV::Num(N::U(i as u128)),
                1 => MV::Str(format!("k{:05}", i)),
                _ => MV::Tuple(vec![M::new(MV::Num(N::U((i / 7) as u128))), M::new(MV::Num(N::U((i % 7) as u128)))]),
            };
            identified(id, MV::Map((0..n).map(|i| (M::new(key(i)), part[i % part.len()].clone())).collect()))
        }
        6 => {
            let f = large_name(s);
            let m = prim(s, o);
            identified(id, MV::Cntr(vec![(f, m)]))
        }
        7 => {
            let m = if s.flag() { prim(s, o).v } else { MV::Seq(vec![prim(s, o)]) };
            M { id: Some(large_name(s)), v: m }
        }
        _ => {
            let depth = large_size(s, 200);
            let m = prim(s, o);
            // no identities or siblings: the nesting alone
            let kind = s.below(5);
            (0..depth).fold(m, |m, _| {
                M::new(match kind {
                    0 => MV::Cntr(vec![("a".into(), m)]),
                    1 => MV::Seq(vec![m]),
                    2 => MV::Tuple(vec![m]),
                    3 => MV::Map(vec![(M::new(MV::Bool(true)), m)]),
                    _ => MV::Map(vec![(m, M::new(MV::Unit))]),
                })
            })
        }
    };
    let outside = s.below(3);
    wrap(s, o, m, outside)
}

/// Some parts to fill a large value with.
fn parts(s: &mut Src, o: Opt) -> Vec<M> {
    let n = s.range(1, 3);
    let simple = s.flag();
    (0..n)
        .map(|_| {
            if simple {
                prim(s, o)
            } else {
                let mut budget = 2;
                node(s, o, &mut budget, 5, false)
            }
        })
        .collect()
}

// ------------------------------------------------------------------ configurations

pub fn config(s: &mut Src) -> FormattingConfig {
    let width_limit = match s.weighted(&[3, 4, 3, 4, 2, 1]) {
        0 => None,
        1 => Some(0),
        2 => Some(s.below(20) as u16),
        3 => Some(s.below(140) as u16),
        4 => Some(60),
        _ => Some(s.upto(u16::MAX as u64) as u16),
    };
    FormattingConfig {
        id_on_primitives: s.flag(),
        id_on_tuples: s.flag(),
        id_on_containers: s.flag(),
        id_on_seqs: s.flag(),
        id_on_maps: s.flag(),
        width_limit,
    }
}

pub fn all_ids(width_limit: Option<u16>) -> FormattingConfig {
    FormattingConfig {
        id_on_primitives: true,
        id_on_tuples: true,
        id_on_containers: true,
        id_on_seqs: true,
        id_on_maps: true,
        width_limit,
    }
}

pub fn id_shown(c: &FormattingConfig, m: &M) -> bool {
    match m.kind() {
        Kind::Prim => c.id_on_primitives,
        Kind::Tuple => c.id_on_tuples,
        Kind::Cntr => c.id_on_containers,
        Kind::Seq => c.id_on_seqs,
        Kind::Map => c.id_on_maps,
    }
}
