//! Bounded universes of type terms and untyped values

use amplify::num::{i1024, u1024};
use indexmap::IndexMap;
use strict_types::value::{Blob, EnumTag, StrictNum};
use strict_types::StrictVal;

use crate::model::*;

pub const MAX8: u64 = 0xFF;
pub const MAX16: u64 = 0xFFFF;
pub const MAX24: u64 = 0xFF_FFFF;
pub const MAX32: u64 = 0xFFFF_FFFF;
pub const MAX64: u64 = u64::MAX;

pub fn small_enum() -> M { enm(&[("alpha", 0), ("beta", 1), ("gamma", 5)]) }
pub fn char_enum() -> M { enm(&[("one", 0x31), ("a", 0x61), ("b", 0x62)]) }

/// Every primitive the schema language defines
pub fn all_prims() -> Vec<M> {
    let mut v: Vec<u8> = vec![UNIT, BYTE];
    v.extend(1..=16);
    v.extend([0x20, 0x22, 0x26, 0x3F]);
    v.extend(0x41..=0x50);
    v.extend([0x60, 0x62, 0x66, 0x7F]);
    v.into_iter().map(M::Prim).collect()
}

pub fn floats() -> Vec<M> { [0xC0u8, 0xC2, 0xC4, 0xC8, 0xCA, 0xD0, 0xE0].into_iter().map(M::Prim).collect() }

pub fn leaves() -> Vec<M> {
    vec![
        unit(),
        prim(U8),
        prim(BYTE),
        prim(U16),
        prim(I8),
        small_enum(),
        char_enum(),
        M::Uni,
        named("Num", prim(U8)),
        named("Bool", enm(&[("false", 0), ("true", 1)])),
    ]
}

pub fn sizings() -> Vec<(u64, u64)> {
    vec![
        (0, 0),
        (0, 1),
        (0, 2),
        (1, 1),
        (1, 3),
        (2, 2),
        (0, MAX8),
        (1, MAX8),
        (0, 256),
        (2, MAX16),
        (0, MAX16),
        (0, MAX16 + 1),
        (1, MAX24),
        (0, MAX24 + 1),
        (1, MAX32),
        (0, MAX32 + 1),
        (0, MAX64),
        (1, MAX64),
    ]
}

pub fn few_sizings() -> Vec<(u64, u64)> { vec![(0, MAX8), (1, 2), (0, MAX16), (2, 2)] }

/// Types with one hole
pub fn contexts() -> Vec<(&'static str, fn(M) -> M)> {
    vec![
        ("option", |m| option(m)),
        ("newtype", |m| tuple(vec![m])),
        ("tuple-first", |m| tuple(vec![m, prim(U8)])),
        ("tuple-last", |m| tuple(vec![prim(U8), m])),
        ("struct1", |m| strct(&[("x", m)])),
        ("struct-first", |m| strct(&[("x", m), ("y", prim(U8))])),
        ("struct-last", |m| strct(&[("y", prim(U8)), ("x", m)])),
        ("union-first", |m| union(&[("x", 0, m), ("y", 1, prim(U8))])),
        ("union-last", |m| union(&[("y", 2, unit()), ("x", 7, m)])),
        ("union1", |m| union(&[("x", 3, m)])),
        ("array0", |m| array(m, 0)),
        ("array1", |m| array(m, 1)),
        ("array2", |m| array(m, 2)),
        ("list8", |m| list(m, 0, MAX8)),
        ("list12", |m| list(m, 1, 2)),
        ("list22", |m| list(m, 2, 2)),
        ("list16", |m| list(m, 0, MAX16)),
        ("set8", |m| set(m, 0, MAX8)),
        ("set12", |m| set(m, 1, 2)),
        ("mapkey", |m| map(m, prim(U8), 0, MAX8)),
        ("mapval", |m| map(prim(U8), m, 0, MAX8)),
        ("mapval12", |m| map(small_enum(), m, 1, 2)),
        ("named", |m| named("Def", m)),
    ]
}

pub fn rstrings() -> Vec<M> {
    let az = char_enum();
    let mut v = vec![];
    for (min, max) in [(0u64, 2u64), (0, MAX8 - 1), (0, MAX8), (1, 2), (2, 2), (0, MAX16 - 1), (0, MAX16)] {
        v.push(tuple(vec![enm(&[("a", 0x61)]), list(az.clone(), min, max)]));
    }
    v.push(named("Ident", tuple(vec![az.clone(), list(named("Rest", az.clone()), 0, 3)])));
    v.push(tuple(vec![az.clone(), named("RestStr", list(az.clone(), 0, 3))]));
    v.push(tuple(vec![named("First", enm(&[("b", 0x62)])), list(az, 0, 3)]));
    v
}

/// Names which differ by case, by a prefix or by underscores, or have a meaning in text formats
const SIMILAR: [&str; 20] = [
    "mb", "mB", "mbit", "mBit", "mbi", "m", "_mb", "mb_", "_", "__", "mb1", "mb01", "_1", "null", "yes", "true", "nan",
    "e1", "none", "some",
];

/// Types with names of parts which are easily confused, in an order which isn't the one of the names
pub fn similar() -> Vec<M> {
    let tag = |i: usize| 3 * i as u8 + 1;
    let n = |i: usize| SIMILAR[i].to_string();
    let two = |i: usize, j: usize| {
        vec![
            M::Enum(vec![(n(i), 0), (n(j), 1)]),
            M::Union(vec![(n(i), 0, prim(U8)), (n(j), 1, prim(U16))]),
            M::Struct(vec![(n(i), prim(U8)), (n(j), prim(U16))]),
        ]
    };
    let all = 0..SIMILAR.len();
    let mut v = vec![
        M::Enum(all.clone().map(|i| (n(i), tag(i))).collect()),
        M::Union(all.clone().map(|i| (n(i), tag(i), if i % 2 == 0 { prim(U8) } else { unit() })).collect()),
        M::Struct(all.clone().map(|i| (n(i), if i % 3 == 0 { prim(U16) } else { prim(U8) })).collect()),
    ];
    for (i, j) in [(0, 1), (1, 0), (3, 2), (0, 6), (7, 0), (8, 9), (10, 11), (13, 14), (15, 16), (18, 19), (19, 18)] {
        v.extend(two(i, j));
    }
    v
}

/// Leaves, and every constructor over the leaves
pub fn depth2() -> Vec<M> {
    let l = leaves();
    let mut t = l.clone();
    for (_, c) in contexts() {
        for m in &l {
            t.push(c(m.clone()));
        }
    }
    for m in &l {
        for (a, b) in sizings() {
            t.push(list(m.clone(), a, b));
        }
    }
    for m in [prim(U8), small_enum(), M::Uni, prim(U16)] {
        for (a, b) in sizings() {
            t.push(set(m.clone(), a, b));
            t.push(map(m.clone(), prim(I8), a, b));
        }
    }
    for m in [prim(U8), prim(U16), char_enum(), M::Uni] {
        for n in [3u16, 4, 255, 256, 300] {
            t.push(array(m.clone(), n));
        }
    }
    for a in &l {
        for b in &l {
            t.push(tuple(vec![a.clone(), b.clone()]));
            t.push(strct(&[("x", a.clone()), ("y", b.clone())]));
            t.push(union(&[("left", 1, a.clone()), ("right", 4, b.clone())]));
        }
    }
    for a in [prim(U8), small_enum(), M::Uni] {
        for b in &l {
            t.push(map(a.clone(), b.clone(), 0, 2));
        }
    }
    t.extend(rstrings());
    t.push(tuple(vec![prim(U8), prim(U8), prim(U16)]));
    t.push(strct(&[("a", prim(U8)), ("b", small_enum()), ("c", M::Uni)]));
    t.push(union(&[("a", 0, unit()), ("b", 1, prim(U8)), ("c", 2, prim(U16)), ("d", 255, M::Uni)]));
    // almost optional
    t.push(union(&[("none", 0, unit()), ("some", 2, prim(U8))]));
    t.push(union(&[("none", 1, unit()), ("some", 2, prim(U8))]));
    t.push(union(&[("nil", 0, unit()), ("some", 1, prim(U8))]));
    t.push(union(&[("none", 0, prim(U8)), ("some", 1, prim(U8))]));
    t.push(enm(&[("zero", 0)]));
    t.push(enm(&[("max", 255)]));
    t.push(enm(&[("sp", 32), ("del", 127)]));
    t.push(enm(&[("ctl", 31), ("a", 97)]));
    t.push(enm(&[("a", 97), ("hi", 128)]));
    t.extend(similar());
    let mut seen = std::collections::BTreeSet::new();
    t.retain(|m| well_formed(m) && seen.insert(m.clone()));
    t
}

/// A definition can't be a bare reference to another one
fn well_formed(m: &M) -> bool {
    match m {
        M::Named(_, m) => !matches!(**m, M::Named(..)) && well_formed(m),
        M::Prim(_) | M::Uni | M::Enum(_) => true,
        M::Union(v) => v.iter().all(|x| well_formed(&x.2)),
        M::Tuple(f) => f.iter().all(well_formed),
        M::Struct(f) => f.iter().all(|x| well_formed(&x.1)),
        M::Array(m, _) | M::List(m, ..) | M::Set(m, ..) => well_formed(m),
        M::Map(k, m, ..) => well_formed(k) && well_formed(m),
    }
}

/// Representatives of each constructor at depth 2, used as content of deeper types
pub fn depth2_few() -> Vec<M> {
    let mut v = vec![
        option(prim(U8)),
        option(unit()),
        option(M::Uni),
        tuple(vec![prim(U8)]),
        tuple(vec![prim(U16), prim(I8)]),
        tuple(vec![small_enum(), unit()]),
        strct(&[("x", prim(U8))]),
        strct(&[("x", small_enum()), ("z", prim(U16))]),
        union(&[("left", 1, prim(U8)), ("right", 4, unit())]),
        union(&[("x", 0, M::Uni)]),
        array(prim(U8), 2),
        array(prim(U16), 2),
        array(M::Uni, 2),
        array(char_enum(), 2),
        list(prim(U8), 0, MAX8),
        list(prim(U8), 1, 2),
        list(prim(U16), 0, MAX8),
        list(prim(U16), 1, 2),
        list(M::Uni, 0, MAX8),
        list(M::Uni, 2, 3),
        list(char_enum(), 0, MAX8),
        list(char_enum(), 1, 2),
        list(small_enum(), 0, MAX16),
        list(unit(), 0, MAX8),
        set(prim(U8), 0, MAX8),
        set(small_enum(), 1, 2),
        map(prim(U8), prim(U8), 0, MAX8),
        map(small_enum(), M::Uni, 1, 2),
        tuple(vec![char_enum(), list(char_enum(), 0, 2)]),
        named("Nt", tuple(vec![prim(U8)])),
        named("Str", list(M::Uni, 0, MAX8)),
        named("Bytes", list(prim(U8), 0, MAX16)),
        named("Opt", option(prim(U16))),
    ];
    v.extend(leaves());
    v
}

pub fn depth3() -> Vec<M> {
    let mut t = vec![];
    for (_, c) in contexts() {
        for m in depth2_few() {
            t.push(c(m));
        }
    }
    t.retain(well_formed);
    t
}

pub fn depth4() -> Vec<M> {
    let mut t = vec![];
    for (na, a) in contexts() {
        for (nb, b) in contexts() {
            if na == "named" || (na == "named" && nb == "named") {
                continue;
            }
            for m in depth2_few() {
                t.push(a(b(m)));
            }
        }
    }
    t.retain(well_formed);
    t
}

// ------------------------------------------------------------------------------------------------ untyped values

pub fn uint(n: u64) -> StrictVal { StrictVal::Number(StrictNum::Uint(n)) }
pub fn int(n: i64) -> StrictVal { StrictVal::Number(StrictNum::Int(n)) }
pub fn sstr(s: &str) -> StrictVal { StrictVal::String(s.to_string()) }
pub fn sbytes(b: &[u8]) -> StrictVal { StrictVal::Bytes(Blob(b.to_vec())) }
pub fn sname(s: &str) -> StrictVal { StrictVal::Enum(EnumTag::Name(vname(s))) }
pub fn sord(t: u8) -> StrictVal { StrictVal::Enum(EnumTag::Ord(t)) }
pub fn sunion(s: &str, v: StrictVal) -> StrictVal { StrictVal::Union(EnumTag::Name(vname(s)), Box::new(v)) }
pub fn sunion_ord(t: u8, v: StrictVal) -> StrictVal { StrictVal::Union(EnumTag::Ord(t), Box::new(v)) }
pub fn sstruct(f: &[(&str, StrictVal)]) -> StrictVal {
    StrictVal::Struct(f.iter().map(|(n, v)| (fname(n), v.clone())).collect::<IndexMap<_, _>>())
}

pub fn scalars() -> Vec<StrictVal> {
    let mut v = vec![StrictVal::Unit];
    for n in [
        0u64, 1, 2, 5, 7, 0x31, 0x61, 127, 128, 255, 256, 32767, 32768, 65535, 65536, MAX24, MAX24 + 1, 0x7FFF_FFFF,
        0x8000_0000, MAX32, MAX32 + 1, (1 << 40) - 1, 1 << 40, (1 << 48) - 1, 1 << 48, (1 << 56) - 1, 1 << 56,
        i64::MAX as u64, 1 << 63, u64::MAX,
    ] {
        v.push(uint(n));
    }
    for n in [
        0i64, 1, 127, 128, -1, -128, -129, 32767, 32768, -32768, -32769, 0x7FFF_FFFF, 0x8000_0000, -0x8000_0000,
        -0x8000_0001, 8388607, 8388608, -8388608, -8388609, (1 << 39) - 1, 1 << 39, -(1 << 39), -(1 << 39) - 1,
        (1 << 47) - 1, 1 << 47, -(1 << 47), -(1 << 47) - 1, (1 << 55) - 1, 1 << 55, -(1 << 55), -(1 << 55) - 1,
        i64::MAX, i64::MIN,
    ] {
        v.push(int(n));
    }
    for bit in [0usize, 63, 64, 71, 72, 127, 128, 255, 256, 1023] {
        let mut b = [0u8; 128];
        b[bit / 8] = 1 << (bit % 8);
        v.push(StrictVal::Number(StrictNum::BigUint(u1024::from_le_bytes(b))));
        v.push(StrictVal::Number(StrictNum::BigInt(i1024::from_le_bytes(b))));
        let mut b = [0u8; 128];
        for x in b.iter_mut().skip(bit / 8) {
            *x = 0xFF;
        }
        v.push(StrictVal::Number(StrictNum::BigUint(u1024::from_le_bytes(b))));
        v.push(StrictVal::Number(StrictNum::BigInt(i1024::from_le_bytes(b))));
        let mut b = [0u8; 128];
        for (i, x) in b.iter_mut().enumerate().take(bit / 8 + 1) {
            *x = if i < bit / 8 { 0xFF } else { ((1u16 << (bit % 8)) - 1) as u8 };
        }
        v.push(StrictVal::Number(StrictNum::BigUint(u1024::from_le_bytes(b))));
        v.push(StrictVal::Number(StrictNum::BigInt(i1024::from_le_bytes(b))));
    }
    for s in [
        "", "a", "b", "z", "1", "A", "ab", "ba", "a1b", "aab1", "alpha", "gamma", "none", "some", "nope", "one", "true", "é",
        "éa", "😀", "\0", "a b", "\u{7f}", "ab1ab1", "x", "y",
    ] {
        v.push(sstr(s));
    }
    for b in [&[][..], &[0], &[0x61], &[0xFF], &[0, 1], &[0x61, 0x62], &[1, 2, 3], &[0xC3, 0xA9]] {
        v.push(sbytes(b));
    }
    for n in ["alpha", "gamma", "none", "some", "a", "nope", "true"] {
        v.push(sname(n));
    }
    for t in [0u8, 1, 2, 5, 0x31, 0x61, 255] {
        v.push(sord(t));
    }
    v
}

pub fn scalars_few() -> Vec<StrictVal> {
    vec![
        StrictVal::Unit,
        uint(0),
        uint(1),
        uint(0x61),
        uint(256),
        int(-1),
        int(0),
        sstr(""),
        sstr("a"),
        sstr("ab"),
        sstr("alpha"),
        sstr("none"),
        sstr("some"),
        sstr("é"),
        sbytes(&[]),
        sbytes(&[0x61]),
        sname("alpha"),
        sname("nope"),
        sord(1),
        sord(77),
    ]
}

/// Containers over a set of items
pub fn containers(items: &[StrictVal]) -> Vec<StrictVal> {
    let mut v = vec![];
    let mut seqs: Vec<Vec<StrictVal>> = vec![vec![]];
    for a in items {
        seqs.push(vec![a.clone()]);
        for b in items {
            seqs.push(vec![a.clone(), b.clone()]);
        }
    }
    for a in items {
        seqs.push(vec![a.clone(), a.clone(), a.clone()]);
        seqs.push(vec![items[0].clone(), items[1].clone(), a.clone()]);
        seqs.push(vec![uint(0), uint(1), uint(2), a.clone()]);
    }
    for s in &seqs {
        v.push(StrictVal::List(s.clone()));
        v.push(StrictVal::Tuple(s.clone()));
        v.push(StrictVal::Set(s.clone()));
        if s.len() == 2 {
            v.push(StrictVal::Map(vec![(s[0].clone(), s[1].clone())]));
            v.push(sstruct(&[("x", s[0].clone()), ("y", s[1].clone())]));
            v.push(sstruct(&[("y", s[0].clone()), ("x", s[1].clone())]));
            v.push(StrictVal::Map(vec![(sstr("x"), s[0].clone()), (sstr("y"), s[1].clone())]));
            v.push(StrictVal::Map(vec![(sstr("x"), s[0].clone()), (sstr("x"), s[1].clone())]));
            v.push(StrictVal::Map(vec![(s[0].clone(), uint(0)), (s[1].clone(), uint(1))]));
        }
        if s.len() == 1 {
            v.push(sstruct(&[("x", s[0].clone())]));
            v.push(sstruct(&[("z", s[0].clone())]));
            v.push(StrictVal::Map(vec![(sstr("x"), s[0].clone())]));
            v.push(StrictVal::Map(vec![(sstr("not a name"), s[0].clone())]));
            for n in ["none", "some", "left", "right", "x", "y", "nope"] {
                v.push(sunion(n, s[0].clone()));
            }
            for t in [0u8, 1, 2, 3, 4, 7, 255] {
                v.push(sunion_ord(t, s[0].clone()));
            }
        }
    }
    v.push(StrictVal::Struct(IndexMap::new()));
    v.push(StrictVal::Map(vec![]));
    v
}

/// Every notation of a member of a type (a bounded part of the product for composites)
pub fn notations(m: &M, v: &V, cap: usize) -> Vec<StrictVal> {
    let mut res = vec![to_strict(m, v)];
    if m.rstring().is_some() {
        return res;
    }
    let combos = |parts: Vec<Vec<StrictVal>>| -> Vec<Vec<StrictVal>> {
        let longest = parts.iter().map(|p| p.len()).max().unwrap_or(1).min(cap);
        (0..longest).map(|i| parts.iter().map(|p| p[i % p.len()].clone()).collect()).collect()
    };
    match (m.strip(), v) {
        (_, V::Unit) => res.extend([
            StrictVal::Tuple(vec![]),
            StrictVal::List(vec![]),
            StrictVal::Map(vec![]),
            StrictVal::Struct(IndexMap::new()),
        ]),
        (_, V::Int(n)) if *n >= 0 => res.push(uint(*n as u64)),
        (M::Enum(vars), V::Enum(t)) => {
            let n = &vars.iter().find(|x| x.1 == *t).unwrap().0;
            res.extend([sord(*t), sstr(n), uint(*t as u64)]);
            if m.is_char_enum() {
                res.push(sstr(&(*t as char).to_string()));
            }
        }
        (M::Union(vars), V::Union(t, inner)) => {
            let (n, _, im) = vars.iter().find(|x| x.1 == *t).unwrap();
            for i in notations(im, inner, cap) {
                res.push(sunion(n, i.clone()));
                res.push(sunion_ord(*t, i.clone()));
                if m.is_option() && *t == 1 {
                    res.push(i.clone());
                    res.push(StrictVal::Tuple(vec![sstr("some"), i]));
                }
            }
            if m.is_option() && *t == 0 {
                res.push(StrictVal::Unit);
                res.push(StrictVal::Tuple(vec![sstr("none"), StrictVal::Unit]));
            }
        }
        (M::Tuple(f), V::Seq(vs)) => {
            for c in combos(f.iter().zip(vs).map(|(m, v)| notations(m, v, cap)).collect()) {
                res.push(StrictVal::List(c.clone()));
                if c.len() == 1 {
                    res.push(c[0].clone());
                }
                res.push(StrictVal::Tuple(c));
            }
        }
        (M::Struct(f), V::Seq(vs)) => {
            for c in combos(f.iter().zip(vs).map(|((_, m), v)| notations(m, v, cap)).collect()) {
                let st: Vec<_> = f.iter().map(|x| x.0.clone()).zip(c).collect();
                res.push(StrictVal::Map(st.iter().map(|(n, v)| (sstr(n), v.clone())).collect()));
                res.push(StrictVal::Struct(st.iter().map(|(n, v)| (fname(n), v.clone())).collect()));
                res.push(StrictVal::Struct(st.iter().rev().map(|(n, v)| (fname(n), v.clone())).collect()));
            }
        }
        (M::Array(im, _) | M::List(im, ..), V::List(vs)) => {
            for c in combos(vs.iter().map(|v| notations(im, v, cap)).collect()) {
                res.push(StrictVal::List(c));
            }
            if im.is_byte() {
                let b: Vec<u8> = vs.iter().map(|v| if let V::Uint(b) = v { *b as u8 } else { panic!() }).collect();
                res.push(sbytes(&b));
                if let Ok(s) = String::from_utf8(b) {
                    res.push(sstr(&s));
                }
            }
            if im.is_uni() || im.is_char_enum() {
                let t: String = vs
                    .iter()
                    .map(|v| match v {
                        V::Char(c) => *c,
                        V::Enum(t) => *t as char,
                        _ => panic!(),
                    })
                    .collect();
                res.push(sstr(&t));
            }
        }
        (M::Set(im, ..), V::List(vs)) => {
            for c in combos(vs.iter().map(|v| notations(im, v, cap)).collect()) {
                res.push(StrictVal::Set(c.clone()));
                res.push(StrictVal::List(c));
            }
        }
        (M::Map(k, im, ..), V::Map(vs)) => {
            let keys = combos(vs.iter().map(|v| notations(k, &v.0, cap)).collect());
            let vals = combos(vs.iter().map(|v| notations(im, &v.1, cap)).collect());
            for i in 0..keys.len().max(vals.len()) {
                res.push(StrictVal::Map(
                    keys[i % keys.len()].iter().cloned().zip(vals[i % vals.len()].iter().cloned()).collect(),
                ));
            }
        }
        _ => {}
    }
    let mut out: Vec<StrictVal> = vec![];
    for r in res {
        if out.len() >= cap.max(4) * 4 {
            break;
        }
        if !out.contains(&r) {
            out.push(r);
        }
    }
    out
}

/// Names which are easily taken for the given one
fn alike(n: &str) -> Vec<String> {
    let mut res = vec![format!("_{n}"), format!("{n}_"), format!("{}{}", &n[..1], n[1..].to_uppercase()), format!("{n}0")];
    if n.len() > 1 {
        res.push(n[..n.len() - 1].to_string());
    }
    res.retain(|x| x != n && x.len() < 255 && x.starts_with(|c: char| c.is_ascii_lowercase() || c == '_'));
    res
}

/// Every value which differs from the given one by a single edit
pub fn neighbours(sv: &StrictVal, subst: &[StrictVal]) -> Vec<StrictVal> {
    let mut res: Vec<StrictVal> = subst.to_vec();
    fn seq_edits(s: &[StrictVal], subst: &[StrictVal]) -> Vec<Vec<StrictVal>> {
        let mut res = vec![];
        for i in 0..s.len().min(4) {
            let mut t = s.to_vec();
            t.remove(i);
            res.push(t);
            let mut t = s.to_vec();
            t.push(s[i].clone());
            res.push(t);
            if i + 1 < s.len() {
                let mut t = s.to_vec();
                t.swap(i, i + 1);
                res.push(t);
                let mut t = s.to_vec();
                t[i + 1] = t[i].clone();
                res.push(t);
            }
            for n in neighbours(&s[i], subst) {
                let mut t = s.to_vec();
                t[i] = n;
                res.push(t);
            }
        }
        let mut t = s.to_vec();
        t.push(StrictVal::Unit);
        res.push(t);
        let mut t = s.to_vec();
        t.push(uint(0));
        res.push(t);
        res
    }
    match sv {
        StrictVal::List(s) | StrictVal::Tuple(s) | StrictVal::Set(s) => {
            for (i, k) in [StrictVal::List, StrictVal::Tuple, StrictVal::Set].into_iter().enumerate() {
                let mine = matches!((i, sv), (0, StrictVal::List(_)) | (1, StrictVal::Tuple(_)) | (2, StrictVal::Set(_)));
                if !mine {
                    res.push(k(s.clone()));
                } else {
                    res.extend(seq_edits(s, subst).into_iter().map(k));
                }
            }
        }
        StrictVal::Union(tag, v) => {
            for n in neighbours(v, subst) {
                res.push(StrictVal::Union(tag.clone(), Box::new(n)));
            }
            for t in [0u8, 1, 2, 99] {
                res.push(StrictVal::Union(EnumTag::Ord(t), v.clone()));
            }
            for t in ["none", "some", "x", "nope"] {
                res.push(StrictVal::Union(EnumTag::Name(vname(t)), v.clone()));
            }
            if let EnumTag::Name(n) = tag {
                res.extend(alike(n.as_str()).iter().map(|n| StrictVal::Union(EnumTag::Name(vname(n)), v.clone())));
            }
            res.push(v.as_ref().clone());
        }
        StrictVal::Struct(f) => {
            let keys: Vec<_> = f.keys().cloned().collect();
            for (i, k) in keys.iter().enumerate().take(4) {
                let mut g = f.clone();
                g.shift_remove(k);
                res.push(StrictVal::Struct(g.clone()));
                for alike in alike(k.as_str()).into_iter().chain([s!("other")]).filter(|n| !f.contains_key(&fname(n))) {
                    let mut g = g.clone();
                    g.insert(fname(&alike), f[k].clone());
                    res.push(StrictVal::Struct(g));
                    // beside the proper one
                    let mut g = f.clone();
                    g.insert(fname(&alike), f[k].clone());
                    res.push(StrictVal::Struct(g));
                }
                if i + 1 < keys.len() {
                    let mut g = f.clone();
                    g.swap_indices(i, i + 1);
                    res.push(StrictVal::Struct(g));
                }
                for n in neighbours(&f[k], subst) {
                    let mut g = f.clone();
                    g[k] = n;
                    res.push(StrictVal::Struct(g));
                }
            }
            for n in ["other", "_", "_other", "none", "z0"] {
                let mut g = f.clone();
                g.insert(fname(n), StrictVal::Unit);
                res.push(StrictVal::Struct(g));
            }
            res.push(StrictVal::Tuple(f.values().cloned().collect()));
        }
        StrictVal::Map(items) => {
            for i in 0..items.len().min(4) {
                let mut t = items.clone();
                t.remove(i);
                res.push(StrictVal::Map(t));
                let mut t = items.clone();
                t.push(items[i].clone());
                res.push(StrictVal::Map(t));
                if i + 1 < items.len() {
                    let mut t = items.clone();
                    t[i + 1].0 = t[i].0.clone();
                    res.push(StrictVal::Map(t));
                }
                for n in neighbours(&items[i].0, subst) {
                    let mut t = items.clone();
                    t[i].0 = n;
                    res.push(StrictVal::Map(t));
                }
                for n in neighbours(&items[i].1, subst) {
                    let mut t = items.clone();
                    t[i].1 = n;
                    res.push(StrictVal::Map(t));
                }
            }
            let mut t = items.clone();
            t.push((sstr("other"), StrictVal::Unit));
            res.push(StrictVal::Map(t));
        }
        StrictVal::Enum(EnumTag::Name(n)) => {
            res.extend(alike(n.as_str()).iter().map(|n| StrictVal::Enum(EnumTag::Name(vname(n)))));
        }
        StrictVal::String(s) => {
            res.push(StrictVal::String(format!("{s}a")));
            res.push(StrictVal::String(format!("{s}é")));
            res.push(StrictVal::String(format!("{s}~")));
            res.push(StrictVal::String(format!("b{s}")));
            let mut t = s.clone();
            if t.pop().is_some() {
                res.push(StrictVal::String(t));
            }
            res.push(sbytes(s.as_bytes()));
        }
        StrictVal::Bytes(b) => {
            let mut t = b.0.clone();
            t.push(0);
            res.push(sbytes(&t));
            let mut t = b.0.clone();
            if t.pop().is_some() {
                res.push(sbytes(&t));
            }
            res.push(StrictVal::List(b.0.iter().take(8).map(|b| uint(*b as u64)).collect()));
        }
        StrictVal::Number(StrictNum::Uint(n)) => {
            res.push(uint(n.wrapping_add(1)));
            res.push(uint(n.wrapping_sub(1)));
        }
        StrictVal::Number(StrictNum::Int(n)) => {
            res.push(int(n.wrapping_add(1)));
            res.push(int(n.wrapping_sub(1)));
        }
        _ => {}
    }
    res
}

// ------------------------------------------------------------------------------------------------ wide types

/// Sizes at which implementations like to change their behaviour
pub fn widths(thorough: bool) -> Vec<usize> {
    if thorough {
        (1..=255).collect()
    } else {
        vec![3, 4, 7, 8, 9, 15, 16, 17, 32, 33, 64, 65, 128, 129, 254, 255]
    }
}

/// Types with many parts, and members of them
pub fn wide_types(n: usize) -> Vec<(M, Vec<V>)> {
    let kinds = [prim(U8), prim(U16), small_enum(), M::Uni, option(prim(U8)), list(prim(U8), 0, MAX8)];
    let part = |i: usize| kinds[(i * 5 + i / 6) % kinds.len()].clone();
    let name = |i: usize| format!("f{i}");
    let mut res: Vec<(M, Vec<V>)> = vec![];
    let mut add = |m: M, cap: usize| {
        let v = values(&m, cap);
        res.push((m, v));
    };
    add(M::Tuple((0..n).map(|_| prim(U16)).collect()), 2);
    add(M::Tuple((0..n).map(part).collect()), 3);
    add(M::Struct((0..n).map(|i| (name(i), prim(U8))).collect()), 2);
    add(M::Struct((0..n).map(|i| (name(i), part(i))).collect()), 3);
    // the order of names isn't the order of fields
    add(M::Struct((0..n).map(|i| (name(n - i), part(i))).collect()), 2);
    for (from, step) in [(0, 1), (256 - n, 1), (1, 3)] {
        if from + (n - 1) * step > 255 {
            continue;
        }
        add(M::Enum((0..n).map(|i| (name(i), (from + i * step) as u8)).collect()), 256);
        add(M::Enum((0..n).map(|i| (name(n - i), (from + i * step) as u8)).collect()), 256);
        add(M::Union((0..n).map(|i| (name(i), (from + i * step) as u8, part(i))).collect()), 256);
        add(M::Union((0..n).map(|i| (name(n - i), (from + i * step) as u8, part(n - i))).collect()), 256);
    }
    // items of collections: distinct and repeated
    let items = |m: &M, n: usize| -> Vec<V> {
        match m {
            M::Prim(U8) => (0..n).map(|i| V::Uint(i as u64 & 0xFF)).collect(),
            M::Prim(_) => (0..n).map(|i| V::Uint(i as u64 * 7)).collect(),
            M::Uni => (0..n).map(|i| V::Char(char::from_u32(0x61 + i as u32 * 3).unwrap())).collect(),
            M::Tuple(_) => (0..n).map(|i| V::Seq(vec![V::Uint(i as u64 & 0xFF), V::Uint(7 * i as u64)])).collect(),
            M::List(..) => (0..n).map(|i| V::List(vec![V::Uint(i as u64 & 0xFF); i % 3])).collect(),
            m => {
                let v = values(m, 9);
                (0..n).map(|i| v[i % v.len()].clone()).collect()
            }
        }
    };
    for m in [prim(U8), prim(U16), small_enum(), tuple(vec![prim(U8), prim(U16)]), list(prim(U8), 0, MAX8), option(prim(U8))] {
        let it = items(&m, n);
        res.push((array(m.clone(), n as u16), vec![V::List(it.clone())]));
        for max in [MAX8, MAX16, MAX24] {
            res.push((list(m.clone(), 0, max), vec![V::List(it.clone())]));
        }
        res.push((list(m, n as u64, n as u64), vec![V::List(it)]));
    }
    let chars = items(&M::Uni, n);
    res.push((list(M::Uni, 0, MAX16), vec![V::List(chars.clone())]));
    res.push((set(M::Uni, 0, MAX8), vec![V::List(chars.clone())]));
    for m in [prim(U8), prim(U16), tuple(vec![prim(U8), prim(U16)])] {
        for max in [MAX8, MAX16] {
            res.push((set(m.clone(), 0, max), vec![V::List(items(&m, n)), V::List(items(&m, n).into_iter().rev().collect())]));
            let val: Vec<V> = items(&small_enum(), n);
            let kv = items(&m, n).into_iter().zip(val).collect();
            res.push((map(m.clone(), small_enum(), 0, max), vec![V::Map(kv)]));
        }
    }
    let rs = tuple(vec![char_enum(), list(char_enum(), 0, MAX8 - 1)]);
    let mut word = items(&char_enum(), n);
    let first = word.remove(0);
    res.push((rs, vec![V::Seq(vec![first, V::List(word)])]));
    // nesting
    if n <= 33 {
        let wraps: [fn(M) -> M; 6] = [
            |m| tuple(vec![m]),
            |m| strct(&[("x", m)]),
            |m| union(&[("x", 3, m)]),
            |m| array(m, 1),
            |m| list(m, 0, 2),
            |m| tuple(vec![m, prim(U8)]),
        ];
        for k in 0..=wraps.len() {
            if k == 0 && n > 12 {
                // the reference tries both readings of each layer
                continue;
            }
            let mut m = prim(U16);
            for i in 0..n {
                m = if k < wraps.len() { wraps[k](m) } else { wraps[i % wraps.len()](m) };
            }
            let v = values(&m, 2);
            res.push((m, v));
        }
    }
    res
}

/// Collections of lengths at which the width of counters changes, and around powers of two
pub fn long_types(thorough: bool) -> Vec<(M, Vec<V>)> {
    let mut res: Vec<(M, Vec<V>)> = vec![];
    let mut lens = vec![1000usize, 4097, 32767, 32768, 65535];
    if thorough {
        lens.extend([257, 511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 8192, 10000, 16383, 16384, 16385, 32769, 65534]);
    }
    let pair = tuple(vec![prim(U8), prim(U16)]);
    let item = |m: &M, i: usize| -> V {
        match m {
            M::Prim(U8) => V::Uint((i * 31 % 251) as u64),
            M::Prim(U16) => V::Uint((i & 0xFFFF) as u64),
            M::Prim(_) => V::Uint(i as u64 * 3),
            M::Uni => V::Char(char::from_u32(0x61 + (i % 26) as u32).unwrap()),
            M::Enum(v) => V::Enum(v[i % v.len()].1),
            _ => V::Seq(vec![V::Uint((i >> 16 & 0xFF) as u64), V::Uint((i & 0xFFFF) as u64)]),
        }
    };
    let all = |m: &M, n: usize| -> V { V::List((0..n).map(|i| item(m, i)).collect()) };
    for n in &lens {
        for m in [prim(U8), prim(U16), prim(U32), small_enum(), char_enum(), pair.clone()] {
            res.push((array(m.clone(), *n as u16), vec![all(&m, *n)]));
        }
    }
    lens.extend([65536, 70000]);
    for n in lens {
        for m in [prim(U8), prim(U16), M::Uni, small_enum(), char_enum(), pair.clone()] {
            for max in [MAX16, MAX24] {
                if n as u64 <= max {
                    res.push((list(m.clone(), 0, max), vec![all(&m, n)]));
                }
            }
        }
        for m in [prim(U16), pair.clone()] {
            if n > 65536 && m == prim(U16) {
                continue;
            }
            let max = if n <= 65535 { MAX16 } else { MAX24 };
            let V::List(keys) = all(&m, n) else { unreachable!() };
            res.push((set(m.clone(), 0, max), vec![V::List(keys.clone())]));
            res.push((
                map(m, prim(U8), 0, max),
                vec![V::Map(keys.into_iter().enumerate().map(|(i, k)| (k, V::Uint(i as u64 * 7 % 256))).collect())],
            ));
        }
    }
    res
}
