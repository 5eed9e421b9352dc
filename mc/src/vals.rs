//! C23: constructors and accessors of values; C25: conversion of documents; C26: text notation; C28: versions

use std::collections::BTreeMap;

use amplify::confinement::TinyVec;
use amplify::num::{i1024, u1024, u24, u40, u48, u56};
use indexmap::IndexMap;
use strict_encoding::{Ident, StrictDecode, StrictEncode, StrictType};
use strict_types::value::{Blob, EnumTag, StrictNum};
use strict_types::{BuildFragment, PreFragment, SemVer, StrictVal};

use crate::core::*;
use crate::libs::{bytes, from_bytes};
use crate::model::*;
use crate::sysb::*;
use crate::universe::*;

// ------------------------------------------------------------------------------------------------------------ C23

#[cfg(not(feature = "no-macros"))]
use strict_types::{ston, sv, svbytes, svenum, svlist, svnewtype, svnone, svnum, svset, svsome, svstr, svtable};

/// Stand for the notation macros if a use of them does not compile
#[cfg(feature = "no-macros")]
mod shims {
    macro_rules! shim {
        ($d:tt $($n:ident)*) => { $(macro_rules! $n { ($d($d t:tt)*) => { StrictVal::Unit }; })* };
    }
    pub(crate) use shim;
}
#[cfg(feature = "no-macros")]
shims::shim!($ sv svnum svstr svbytes svnewtype svenum svnone svsome svlist svset svtable ston);

#[derive(Clone, PartialEq, Debug)]
pub enum X {
    Unit,
    U(u64),
    I(i64),
    BigU(u1024),
    BigI(i1024),
    Str(String),
    Bytes(Vec<u8>),
    Tuple(Vec<X>),
    Struct(Vec<(&'static str, X)>),
    EnumN(&'static str),
    EnumO(u8),
    UnionN(&'static str, Box<X>),
    UnionO(u8, Box<X>),
    List(Vec<X>),
    Set(Vec<X>),
    Map(Vec<(X, X)>),
}

/// The value by the definition of the data type
pub fn direct(x: &X) -> StrictVal {
    let all = |v: &[X]| v.iter().map(direct).collect::<Vec<_>>();
    match x {
        X::Unit => StrictVal::Unit,
        X::U(n) => StrictVal::Number(StrictNum::Uint(*n)),
        X::I(n) => StrictVal::Number(StrictNum::Int(*n)),
        X::BigU(n) => StrictVal::Number(StrictNum::BigUint(*n)),
        X::BigI(n) => StrictVal::Number(StrictNum::BigInt(*n)),
        X::Str(s) => StrictVal::String(s.clone()),
        X::Bytes(b) => StrictVal::Bytes(Blob(b.clone())),
        X::Tuple(v) => StrictVal::Tuple(all(v)),
        X::Struct(v) => {
            let mut m = IndexMap::new();
            for (n, x) in v {
                m.insert(fname(n), direct(x));
            }
            StrictVal::Struct(m)
        }
        X::EnumN(n) => StrictVal::Enum(EnumTag::Name(vname(n))),
        X::EnumO(t) => StrictVal::Enum(EnumTag::Ord(*t)),
        X::UnionN(n, x) => StrictVal::Union(EnumTag::Name(vname(n)), Box::new(direct(x))),
        X::UnionO(t, x) => StrictVal::Union(EnumTag::Ord(*t), Box::new(direct(x))),
        X::List(v) => StrictVal::List(all(v)),
        X::Set(v) => StrictVal::Set(all(v)),
        X::Map(v) => StrictVal::Map(v.iter().map(|(k, x)| (direct(k), direct(x))).collect()),
    }
}

/// The values produced by each of the public constructors, macros and conversions for it
fn built(x: &X) -> Vec<(&'static str, StrictVal)> {
    let one = |x: &X| built(x).pop().expect("constructors").1;
    let all = |v: &[X]| v.iter().map(one).collect::<Vec<_>>();
    let mut r: Vec<(&'static str, StrictVal)> = vec![];
    match x {
        X::Unit => r.push(("from(())", StrictVal::from(()))),
        X::U(n) => {
            r.push(("from u64", StrictVal::from(*n)));
            if let Ok(n) = u8::try_from(*n) {
                r.extend([("from u8", StrictVal::from(n)), ("num u8", StrictVal::num(n)), ("svnum u8", svnum!(n))]);
            }
            if let Ok(n) = u16::try_from(*n) {
                r.extend([("from u16", StrictVal::from(n)), ("num u16", StrictVal::num(n))]);
            }
            if *n < 1 << 24 {
                let n = u24::try_from(*n as u32).unwrap();
                r.extend([("from u24", StrictVal::from(n)), ("num u24", StrictVal::num(n))]);
            }
            if let Ok(n) = u32::try_from(*n) {
                r.extend([("from u32", StrictVal::from(n)), ("num u32", StrictVal::num(n))]);
            }
            if *n < 1 << 40 {
                let n = u40::try_from(*n).unwrap();
                r.extend([("from u40", StrictVal::from(n)), ("num u40", StrictVal::num(n))]);
            }
            if *n < 1 << 48 {
                let n = u48::try_from(*n).unwrap();
                r.extend([("from u48", StrictVal::from(n)), ("num u48", StrictVal::num(n))]);
            }
            if *n < 1 << 56 {
                let n = u56::try_from(*n).unwrap();
                r.extend([("from u56", StrictVal::from(n)), ("num u56", StrictVal::num(n))]);
            }
            r.extend([("num u64", StrictVal::num(*n)), ("sv!", sv!(*n)), ("ston!", ston!(*n))]);
        }
        X::I(n) => {
            if let Ok(n) = i8::try_from(*n) {
                r.extend([("from i8", StrictVal::from(n)), ("num i8", StrictVal::num(n))]);
            }
            if let Ok(n) = i16::try_from(*n) {
                r.extend([("from i16", StrictVal::from(n)), ("num i16", StrictVal::num(n))]);
            }
            if let Ok(n) = i32::try_from(*n) {
                r.extend([("from i32", StrictVal::from(n)), ("num i32", StrictVal::num(n))]);
            }
            r.extend([("from i64", StrictVal::from(*n)), ("num i64", StrictVal::num(*n)), ("ston!", ston!(*n))]);
        }
        X::BigU(n) => r.extend([("num u1024", StrictVal::num(*n))]),
        X::BigI(n) => r.extend([("num i1024", StrictVal::num(*n))]),
        X::Str(s) => r.extend([
            ("str", StrictVal::str(s)),
            ("from String", StrictVal::from(s.clone())),
            ("from &str", StrictVal::from(s.as_str())),
            ("svstr!", svstr!(s)),
            ("sv!", sv!(s.as_str())),
            ("ston!", ston!(s.as_str())),
        ]),
        X::Bytes(b) => r.extend([
            ("bytes", StrictVal::bytes(b)),
            ("svbytes!", svbytes!(b)),
            ("from Blob", StrictVal::from(Blob(b.clone()))),
        ]),
        X::Tuple(v) => {
            r.push(("tuple", StrictVal::tuple(all(v))));
            match &v[..] {
                [a] => {
                    r.push(("newtype", StrictVal::newtype(one(a))));
                    r.push(("svnewtype!", svnewtype!(one(a))));
                }
                [a, b] => r.push(("ston!(a, b)", ston!(one(a), one(b)))),
                [a, b, c] => r.push(("ston!(a, b, c)", ston!(one(a), one(b), one(c)))),
                _ => {}
            }
        }
        X::Struct(v) => {
            r.push(("struc", StrictVal::struc(v.iter().map(|(n, x)| (*n, one(x))))));
            match &v[..] {
                [("a", a), ("b", b)] => r.push(("ston!(a x, b y)", ston!(a one(a), b one(b)))),
                [("a", a), ("b", b), ("c", c)] => {
                    r.push(("ston!(a x, b y, c z)", ston!(a one(a), b one(b), c one(c))))
                }
                _ => {}
            }
        }
        X::EnumN(n) => {
            r.push(("enumer name", StrictVal::enumer(vname(n))));
            r.push(("enumer &str", StrictVal::enumer(*n)));
            r.push(("from EnumTag", StrictVal::from(EnumTag::from(*n))));
            r.push(("from EnumTag::Name", StrictVal::from(EnumTag::from(vname(n)))));
            if *n == "beta" {
                r.push(("svenum!(beta)", svenum!(beta)));
            }
        }
        X::EnumO(t) => {
            r.push(("enumer u8", StrictVal::enumer(*t)));
            r.push(("from EnumTag::Ord", StrictVal::from(EnumTag::from(*t))));
            match t {
                0 => r.push(("bool", StrictVal::bool(false))),
                1 => r.extend([("bool", StrictVal::bool(true)), ("svenum!(1)", svenum!(1))]),
                _ => {}
            }
        }
        X::UnionN(n, x) => {
            r.push(("union name", StrictVal::union(vname(n), one(x))));
            r.push(("union &str", StrictVal::union(*n, one(x))));
            match (*n, &**x) {
                ("none", X::Unit) => r.extend([
                    ("none", StrictVal::none()),
                    ("svnone!", svnone!()),
                    ("ston!(~)", ston!(~)),
                    ("from None", StrictVal::from(None::<u8>)),
                ]),
                ("some", x) => r.extend([
                    ("some", StrictVal::some(one(x))),
                    ("svsome!", svsome!(one(x))),
                    ("from Some", StrictVal::from(Some(one(x)))),
                    ("ston!(some x)", ston!(some one(x))),
                    ("ston!(\"some\" x)", ston!("some" one(x))),
                ]),
                _ => {}
            }
        }
        X::UnionO(t, x) => {
            r.push(("union u8", StrictVal::union(*t, one(x))));
            if *t == 1 {
                r.push(("ston!(1 x)", ston!(1 one(x))));
            }
        }
        X::List(v) => r.extend([("list", StrictVal::list(all(v))), ("svlist!", svlist!(all(v)))]),
        X::Set(v) => r.extend([("set", StrictVal::set(all(v))), ("svset!", svset!(all(v)))]),
        X::Map(v) => {
            let m = || v.iter().map(|(k, x)| (one(k), one(x)));
            r.push(("map", StrictVal::map(m())));
            r.push(("svtable!", svtable!(m())));
        }
    }
    r.push(("from &StrictVal", StrictVal::from(&r[0].1)));
    r
}

fn skip(x: &X) -> &X {
    match x {
        X::Tuple(v) if v.len() == 1 => skip(&v[0]),
        x => x,
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, Default, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "Vals", tags = repr, into_u8, try_from_u8)]
#[repr(u8)]
enum Greek {
    #[default]
    Alpha = 0,
    Beta = 1,
    Omega = 24,
}

fn dbg(x: &impl std::fmt::Debug) -> String { format!("{x:?}") }

/// Content, or nothing if the value is of another kind (the accessor has to panic)
fn accessors(x: &X) -> Vec<(String, Option<String>)> {
    let mut r: Vec<(String, Option<String>)> = vec![];
    let d = |x: &X| dbg(&direct(x));
    r.push((s!("skip_wrapper"), Some(d(x))));
    let uint = if let X::U(n) = x { Some(*n) } else { None };
    r.push((
        s!("num"),
        match x {
            X::U(_) | X::I(_) | X::BigU(_) | X::BigI(_) => {
                let StrictVal::Number(n) = direct(x) else { unreachable!() };
                Some(dbg(&n))
            }
            _ => None,
        },
    ));
    r.push((s!("u8"), uint.and_then(|n| u8::try_from(n).ok()).map(|n| dbg(&n))));
    r.push((s!("u16"), uint.and_then(|n| u16::try_from(n).ok()).map(|n| dbg(&n))));
    r.push((s!("u32"), uint.and_then(|n| u32::try_from(n).ok()).map(|n| dbg(&n))));
    r.push((s!("u64"), uint.map(|n| dbg(&n))));
    r.push((s!("u128"), uint.map(|n| dbg(&n))));
    r.push((s!("i8"), uint.and_then(|n| i8::try_from(n).ok()).map(|n| dbg(&n))));
    r.push((s!("i64"), uint.and_then(|n| i64::try_from(n).ok()).map(|n| dbg(&n))));
    r.push((
        s!("option"),
        match x {
            X::UnionN("none", c) if **c == X::Unit => Some(s!("None")),
            X::UnionO(0, c) if **c == X::Unit => Some(s!("None")),
            X::UnionN("some", c) | X::UnionO(1, c) => Some(format!("Some({})", d(c))),
            _ => None,
        },
    ));
    r.push((
        s!("string"),
        match x {
            X::Str(s) => Some(dbg(s)),
            X::Bytes(b) => String::from_utf8(b.clone()).ok().map(|s| dbg(&s)),
            X::List(v) => {
                let tags: Option<Vec<u8>> = v.iter().map(|x| if let X::EnumO(t) = x { Some(*t) } else { None }).collect();
                tags.and_then(|t| String::from_utf8(t).ok()).map(|s| dbg(&s))
            }
            _ => None,
        },
    ));
    r.push((s!("bytes"), if let X::Bytes(b) = x { Some(dbg(b)) } else { None }));
    for no in [0u16, 1, 2, 3, 255, 256, 65535] {
        r.push((
            format!("tuple {no}"),
            if let X::Tuple(v) = x { v.get(no as usize).map(d) } else { None },
        ));
        r.push((
            format!("pos {no}"),
            match x {
                X::List(v) | X::Set(v) => v.get(no as usize).map(d),
                _ => None,
            },
        ));
    }
    for f in ["a", "b", "c", "alpha", "none"] {
        r.push((
            format!("struct {f}"),
            if let X::Struct(v) = x { v.iter().find(|y| y.0 == f).map(|y| d(&y.1)) } else { None },
        ));
    }
    r.push((
        s!("tag"),
        match x {
            X::EnumN(n) => Some(dbg(&EnumTag::Name(vname(n)))),
            X::EnumO(t) => Some(dbg(&EnumTag::Ord(*t))),
            _ => None,
        },
    ));
    r.push((s!("ord"), if let X::EnumO(t) = x { Some(dbg(t)) } else { None }));
    r.push((
        s!("enum"),
        match x {
            X::EnumN("alpha") | X::EnumO(0) => Some(s!("Alpha")),
            X::EnumN("beta") | X::EnumO(1) => Some(s!("Beta")),
            X::EnumN("omega") | X::EnumO(24) => Some(s!("Omega")),
            _ => None,
        },
    ));
    r.push((
        s!("union"),
        match x {
            X::UnionN(n, c) => Some(format!("({:?}, {})", EnumTag::Name(vname(n)), d(c))),
            X::UnionO(t, c) => Some(format!("({:?}, {})", EnumTag::Ord(*t), d(c))),
            _ => None,
        },
    ));
    for (i, k) in keys().iter().enumerate() {
        r.push((
            format!("key {i}"),
            if let X::Map(v) = x { v.iter().find(|y| y.0 == *k).map(|y| d(&y.1)) } else { None },
        ));
    }
    r
}

fn keys() -> Vec<X> {
    vec![
        X::U(1),
        X::I(1),
        X::Str(s!("a")),
        X::EnumN("beta"),
        X::EnumO(1),
        X::Bytes(vec![1]),
        X::Tuple(vec![X::U(1)]),
        X::Tuple(vec![X::U(1), X::U(2)]),
        X::Unit,
    ]
}

fn access(v: &StrictVal, what: &str) -> Option<String> {
    let (name, arg) = what.split_once(' ').unwrap_or((what, "0"));
    let r = guard(|| match name {
        "skip_wrapper" => dbg(v.skip_wrapper()),
        "num" => dbg(v.unwrap_num()),
        "u8" => dbg(&v.unwrap_uint::<u8>()),
        "u16" => dbg(&v.unwrap_uint::<u16>()),
        "u32" => dbg(&v.unwrap_uint::<u32>()),
        "u64" => dbg(&v.unwrap_uint::<u64>()),
        "u128" => dbg(&v.unwrap_uint::<u128>()),
        "i8" => dbg(&v.unwrap_uint::<i8>()),
        "i64" => dbg(&v.unwrap_num().unwrap_uint::<i64>()),
        "option" => dbg(&v.unwrap_option()),
        "string" => dbg(&v.unwrap_string()),
        "bytes" => dbg(&v.unwrap_bytes().to_vec()),
        "tuple" => dbg(v.unwrap_tuple(arg.parse().unwrap())),
        "pos" => dbg(v.unwrap_pos(arg.parse().unwrap())),
        "struct" => dbg(v.unwrap_struct(match arg {
            "a" => "a",
            "b" => "b",
            "c" => "c",
            "alpha" => "alpha",
            _ => "none",
        })),
        "tag" => dbg(v.unwrap_enum_tag()),
        "ord" => dbg(&v.unwrap_enum_tag().unwrap_ord()),
        "enum" => dbg(&v.unwrap_enum::<Greek>()),
        "union" => {
            let (t, c) = v.unwrap_union();
            format!("({t:?}, {c:?})")
        }
        "key" => dbg(v.unwrap_key(direct(&keys()[arg.parse::<usize>().unwrap()]))),
        _ => unreachable!(),
    });
    r.ok()
}

pub fn scalars_x() -> Vec<X> {
    let mut v = vec![X::Unit];
    for n in [0u64, 1, 127, 128, 255, 256, 65535, 65536, (1 << 24) - 1, 1 << 24, u32::MAX as u64, 1 << 32, 1 << 40, (1 << 48) - 1, 1 << 48, 1 << 56, i64::MAX as u64, 1 << 63, u64::MAX] {
        v.push(X::U(n));
    }
    for n in [0i64, 1, -1, 127, -128, 128, 32767, -32768, i32::MAX as i64, i32::MIN as i64, i64::MAX, i64::MIN] {
        v.push(X::I(n));
    }
    v.extend([X::BigU(u1024::ZERO), X::BigU(u1024::MAX), X::BigU(u1024::from(5u64)), X::BigI(i1024::MIN), X::BigI(i1024::MAX)]);
    for s in ["", "a", "beta", "none", "some", "é", "a\"b", "long text \u{1F600}"] {
        v.push(X::Str(s.to_string()));
    }
    for b in [&[][..], &[0], &[1], &[0x61, 0x62], &[0xFF, 0xFE], &[0xC3, 0xA9]] {
        v.push(X::Bytes(b.to_vec()));
    }
    v.extend(["alpha", "beta", "omega", "none", "some", "zed"].map(X::EnumN));
    v.extend([0, 1, 2, 24, 0x61, 128, 255].map(X::EnumO));
    v
}

pub fn few_x() -> Vec<X> {
    vec![X::Unit, X::U(1), X::I(1), X::Str(s!("a")), X::Bytes(vec![1]), X::EnumN("beta"), X::EnumO(1), X::EnumO(0x61)]
}

pub fn compounds(items: &[X], full: bool) -> Vec<X> {
    let mut v = vec![X::Tuple(vec![]), X::Struct(vec![]), X::List(vec![]), X::Set(vec![]), X::Map(vec![])];
    for a in items {
        let bx = || Box::new(a.clone());
        v.push(X::Tuple(vec![a.clone()]));
        v.push(X::List(vec![a.clone()]));
        v.push(X::Set(vec![a.clone()]));
        v.push(X::Struct(vec![("a", a.clone())]));
        for t in ["none", "some", "alpha"] {
            v.push(X::UnionN(t, bx()));
        }
        for t in [0, 1, 2, 255] {
            v.push(X::UnionO(t, bx()));
        }
        for k in keys() {
            v.push(X::Map(vec![(k, a.clone())]));
        }
        if full {
            for b in items {
                v.push(X::Tuple(vec![a.clone(), b.clone()]));
                v.push(X::List(vec![a.clone(), b.clone()]));
                v.push(X::Set(vec![b.clone(), a.clone()]));
                v.push(X::Struct(vec![("a", a.clone()), ("b", b.clone())]));
                v.push(X::Struct(vec![("b", a.clone()), ("alpha", b.clone())]));
                v.push(X::Map(vec![(X::U(1), a.clone()), (X::I(1), b.clone())]));
                v.push(X::Map(vec![(X::EnumO(1), a.clone()), (X::EnumN("beta"), b.clone())]));
                for c in items.iter().take(3) {
                    v.push(X::Tuple(vec![a.clone(), b.clone(), c.clone()]));
                    v.push(X::List(vec![a.clone(), b.clone(), c.clone()]));
                    v.push(X::Struct(vec![("a", a.clone()), ("b", b.clone()), ("c", c.clone())]));
                    v.push(X::Map(vec![(X::Tuple(vec![X::U(1)]), a.clone()), (X::Unit, b.clone()), (X::Str(s!("a")), c.clone())]));
                }
            }
        }
    }
    v
}

pub fn c23(ctx: &mut Ctx) {
    #[cfg(feature = "no-macros")]
    if ctx.mine() {
        ctx.fail("macros", "the notation macros can't be used, since a use of them doesn't compile", "sv!, ston!, svtable! and others");
        return;
    }
    let mut pool = scalars_x();
    pool.extend(compounds(&scalars_x(), false));
    let two = compounds(&few_x(), true);
    pool.extend(two.clone());
    let step = ctx.by_tier(7, 1);
    let inner: Vec<X> = two.iter().step_by(step).cloned().collect();
    pool.extend(compounds(&inner, false));
    if ctx.thorough() {
        let three: Vec<X> = compounds(&inner, false).into_iter().step_by(9).collect();
        pool.extend(compounds(&three, false));
        pool.extend(compounds(&two.iter().step_by(23).cloned().collect::<Vec<_>>(), true));
    }
    // strings of character tags
    for a in [0u8, 0x20, 0x41, 0x61, 0x7F, 0x80, 0xC3, 0xFF] {
        for b in [0x41u8, 0x80, 0xA9] {
            pool.push(X::List(vec![X::EnumO(a), X::EnumO(b)]));
            pool.push(X::Set(vec![X::EnumO(a), X::EnumO(b)]));
            pool.push(X::List(vec![X::EnumO(a), X::U(b as u64)]));
        }
    }
    pool.push(X::Tuple((0..300).map(X::U).collect()));
    pool.push(X::List((0..300).map(X::U).collect()));
    pool.push(X::List((0..65536).map(X::U).collect()));
    for x in &pool {
        if !ctx.mine() {
            continue;
        }
        ctx.state();
        let show = short(&dbg(x), 300);
        let want = dbg(&direct(x));
        ctx.case(|| format!("construction of {show}"));
        match guard(|| built(x)) {
            Err(e) => ctx.fail(format!("construct {show}"), format!("constructor panics: {e}"), &show),
            Ok(all) => {
                for (how, v) in all {
                    ctx.transition();
                    ctx.trace();
                    if dbg(&v) != want || v != direct(x) {
                        ctx.fail(format!("construct {how} {show}"), format!("{how} gives {}", short(&dbg(&v), 300)), &show);
                    }
                }
            }
        }
        for layers in 0..=3usize {
            if x == skip(x) || layers == 0 {
                let mut v = direct(x);
                for _ in 0..layers {
                    v = StrictVal::newtype(v);
                }
                for (what, expected) in accessors(skip(x)) {
                    ctx.case(|| format!("{what} of {show} in {layers} newtypes"));
                    ctx.transition();
                    ctx.trace();
                    let got = access(&v, &what);
                    if got != expected {
                        ctx.fail(
                            format!("access {what} {layers} {show}"),
                            format!("{what} gives {}, expected {}", short(&dbg(&got), 200), short(&dbg(&expected), 200)),
                            &show,
                        );
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------------------ C25

#[derive(Clone, PartialEq, Debug)]
enum Doc {
    Null,
    Bool(bool),
    U(u64),
    I(i64),
    F(f64),
    Str(String),
    Arr(Vec<Doc>),
    Obj(Vec<(String, Doc)>),
}

fn json(d: &Doc) -> serde_json::Value {
    use serde_json::Value;
    match d {
        Doc::Null => Value::Null,
        Doc::Bool(b) => Value::Bool(*b),
        Doc::U(n) => Value::from(*n),
        Doc::I(n) => Value::from(*n),
        Doc::F(n) => Value::from(*n),
        Doc::Str(s) => Value::String(s.clone()),
        Doc::Arr(v) => Value::Array(v.iter().map(json).collect()),
        Doc::Obj(v) => Value::Object(v.iter().map(|(k, d)| (k.clone(), json(d))).collect()),
    }
}

fn yaml(d: &Doc) -> serde_yaml::Value {
    use serde_yaml::Value;
    match d {
        Doc::Null => Value::Null,
        Doc::Bool(b) => Value::Bool(*b),
        Doc::U(n) => Value::from(*n),
        Doc::I(n) => Value::from(*n),
        Doc::F(n) => Value::from(*n),
        Doc::Str(s) => Value::String(s.clone()),
        Doc::Arr(v) => Value::Sequence(v.iter().map(yaml).collect()),
        Doc::Obj(v) => Value::Mapping(v.iter().map(|(k, d)| (Value::String(k.clone()), yaml(d))).collect()),
    }
}

fn toml_doc(d: &Doc) -> Option<toml::Value> {
    use toml::Value;
    Some(match d {
        Doc::Null => return None,
        Doc::Bool(b) => Value::Boolean(*b),
        Doc::U(n) => Value::Integer(i64::try_from(*n).ok()?),
        Doc::I(n) => Value::Integer(*n),
        Doc::F(n) => Value::Float(*n),
        Doc::Str(s) => Value::String(s.clone()),
        Doc::Arr(v) => Value::Array(v.iter().map(toml_doc).collect::<Option<Vec<_>>>()?),
        Doc::Obj(v) => {
            let mut t = toml::map::Map::new();
            for (k, d) in v {
                t.insert(k.clone(), toml_doc(d)?);
            }
            Value::Table(t)
        }
    })
}

/// Numbers as numeric values, since formats don't distinguish signed and unsigned ones
fn faithful(d: &Doc, v: &StrictVal) -> bool {
    match (d, v) {
        (Doc::Null, StrictVal::Unit) => true,
        (Doc::Bool(b), StrictVal::Enum(EnumTag::Ord(t))) => *b as u8 == *t,
        (Doc::Bool(b), StrictVal::Enum(EnumTag::Name(n))) => n.as_str() == if *b { "true" } else { "false" },
        (Doc::U(n), StrictVal::Number(m)) => num(m) == Some(*n as i128),
        (Doc::I(n), StrictVal::Number(m)) => num(m) == Some(*n as i128),
        (Doc::Str(a), StrictVal::String(b)) => a == b,
        (Doc::Arr(a), StrictVal::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| faithful(a, b)),
        (Doc::Obj(a), StrictVal::Map(b)) => {
            a.len() == b.len()
                && a.iter().all(|(k, d)| {
                    let hits: Vec<_> = b.iter().filter(|(k2, _)| matches!(k2, StrictVal::String(s) if s == k)).collect();
                    hits.len() == 1 && faithful(d, &hits[0].1)
                })
        }
        _ => false,
    }
}

fn num(n: &StrictNum) -> Option<i128> {
    match n {
        StrictNum::Uint(n) => Some(*n as i128),
        StrictNum::Int(n) => Some(*n as i128),
        _ => None,
    }
}

fn doc_scalars() -> Vec<Doc> {
    let mut v = vec![Doc::Null, Doc::Bool(true), Doc::Bool(false)];
    for n in [0u64, 1, 255, 256, u32::MAX as u64, 1 << 32, (1 << 53) + 1, i64::MAX as u64, 1 << 63, u64::MAX] {
        v.push(Doc::U(n));
    }
    for n in [-1i64, -128, -129, i32::MIN as i64, -(1 << 53) - 1, i64::MIN, i64::MIN + 1] {
        v.push(Doc::I(n));
    }
    for s in ["", "a", "null", "true", "1", "1.5", "~", "é\u{1F600}", "with \"quotes\"", "line\nbreak", " x "] {
        v.push(Doc::Str(s.to_string()));
    }
    v
}

fn doc_compounds(items: &[Doc], full: bool) -> Vec<Doc> {
    let keys = ["", "a", "b", "key with space", "1", "true", "é"];
    let mut v = vec![Doc::Arr(vec![]), Doc::Obj(vec![])];
    for (i, a) in items.iter().enumerate() {
        v.push(Doc::Arr(vec![a.clone()]));
        v.push(Doc::Obj(vec![(keys[i % keys.len()].to_string(), a.clone())]));
        v.push(Doc::Arr(vec![a.clone(), a.clone()]));
        if full {
            for (j, b) in items.iter().enumerate() {
                v.push(Doc::Arr(vec![a.clone(), b.clone()]));
                let (k, l) = (i % keys.len(), (i + 1 + j % (keys.len() - 1)) % keys.len());
                v.push(Doc::Obj(vec![(keys[k].to_string(), a.clone()), (keys[l].to_string(), b.clone())]));
                v.push(Doc::Arr(vec![b.clone(), a.clone(), Doc::U(7)]));
            }
        }
    }
    v
}

fn convert(ctx: &mut Ctx, d: &Doc) {
    let show = short(&dbg(d), 300);
    ctx.state();
    let mut judge = |what: &str, r: Result<StrictVal, String>| {
        ctx.case(|| format!("{what}: {show}"));
        ctx.transition();
        ctx.trace();
        match r {
            Err(e) => ctx.fail(format!("{what} {show}"), format!("conversion panics: {e}"), &show),
            Ok(v) if !faithful(d, &v) => ctx.fail(format!("{what} {show}"), format!("becomes {v:?}"), &show),
            Ok(_) => {}
        }
    };
    judge("json", guard(|| StrictVal::from(json(d))));
    let text = serde_json::to_string(&json(d)).unwrap();
    judge("json text", guard(|| StrictVal::from(serde_json::from_str::<serde_json::Value>(&text).unwrap())));
    judge("yaml", guard(|| StrictVal::from(yaml(d))));
    if let Ok(text) = serde_yaml::to_string(&yaml(d)) {
        if let Ok(v) = serde_yaml::from_str::<serde_yaml::Value>(&text) {
            if v == yaml(d) {
                judge("yaml text", guard(|| StrictVal::from(v)));
            }
        }
    }
    if let Some(t) = toml_doc(d) {
        judge("toml", guard(|| StrictVal::from(t.clone())));
        if let Doc::Obj(_) = d {
            if let Ok(text) = toml::to_string(&t) {
                // the parser has a limit on nesting
                if let Some(v) = toml::from_str::<toml::Value>(&text).ok().filter(|v| *v == t) {
                    judge("toml text", guard(|| StrictVal::from(v)));
                }
            }
        }
    }
}

pub fn c25(ctx: &mut Ctx) {
    let s = doc_scalars();
    let mut pool = s.clone();
    let two = doc_compounds(&s, true);
    pool.extend(two.clone());
    let inner: Vec<Doc> = two.iter().step_by(ctx.by_tier(11, 2)).cloned().collect();
    let mut three = doc_compounds(&inner, false);
    // all kinds of parts, empty ones among them, at all places
    let a = || s!("a");
    let few = [
        Doc::Null,
        Doc::Bool(false),
        Doc::U(0),
        Doc::Str(s!("")),
        Doc::Arr(vec![]),
        Doc::Obj(vec![]),
        Doc::Arr(vec![Doc::Null]),
        Doc::Obj(vec![(s!(""), Doc::Null)]),
        Doc::Obj(vec![(a(), Doc::Obj(vec![]))]),
        Doc::Arr(vec![Doc::Arr(vec![]), Doc::Obj(vec![])]),
    ];
    for n in 1..=ctx.by_tier(3usize, 4) {
        for k in 0..few.len().pow(n as u32) {
            let parts: Vec<Doc> = (0..n).map(|i| few[k / few.len().pow(i as u32) % few.len()].clone()).collect();
            let names = ["b", "", "a", "0"];
            let arr = Doc::Arr(parts.clone());
            let obj = Doc::Obj(parts.into_iter().enumerate().map(|(i, d)| (names[i].to_string(), d)).collect());
            if k % 5 == 0 {
                three.push(Doc::Arr(vec![arr.clone(), obj.clone()]));
                three.push(Doc::Obj(vec![(a(), obj.clone()), (s!("b"), arr.clone())]));
            }
            three.push(arr);
            three.push(obj);
        }
    }
    // many parts, long strings and long keys
    for n in crate::libs::sizes(ctx.thorough()).into_iter().chain([1000, 65535, 65536]) {
        pool.push(Doc::Str("x".repeat(n)));
        pool.push(Doc::Obj(vec![("k".repeat(n), Doc::U(n as u64))]));
        if n <= 1000 {
            pool.push(Doc::Arr((0..n).map(|i| Doc::U(i as u64)).collect()));
            pool.push(Doc::Obj((0..n).map(|i| (format!("k{i}"), Doc::U(i as u64))).collect()));
        }
    }
    pool.extend(three.clone());
    pool.extend(doc_compounds(&three.iter().step_by(ctx.by_tier(29, 3)).cloned().collect::<Vec<_>>(), false));
    pool.extend(doc_compounds(&two.iter().step_by(ctx.by_tier(61, 17)).cloned().collect::<Vec<_>>(), true));
    for d in &pool {
        if ctx.mine() {
            convert(ctx, d);
        }
    }
    if ctx.first() {
        // deep nesting
        let (mut a, mut o) = (Doc::U(1), Doc::U(1));
        for _ in 0..100 {
            a = Doc::Arr(vec![a]);
            o = Doc::Obj(vec![(s!("k"), o)]);
        }
        convert(ctx, &a);
        convert(ctx, &o);
        // keys of other kinds and tagged values, which only YAML has
        for k in doc_scalars() {
            for tagged in [false, true] {
                let mut m = serde_yaml::Mapping::new();
                m.insert(yaml(&k), serde_yaml::Value::from(5));
                let mut v = serde_yaml::Value::Mapping(m);
                if tagged {
                    v = serde_yaml::Value::Tagged(Box::new(serde_yaml::value::TaggedValue {
                        tag: serde_yaml::value::Tag::new("sometag"),
                        value: v,
                    }));
                }
                ctx.case(|| format!("yaml {v:?}"));
                ctx.trace();
                let show = dbg(&v);
                match guard(|| StrictVal::from(v)) {
                    Ok(StrictVal::Map(m)) if m.len() == 1 && faithful(&k, &m[0].0) && num_of(&m[0].1) == Some(5) => {}
                    Ok(v) => ctx.fail(format!("yaml-key {show}"), format!("becomes {v:?}"), &show),
                    Err(e) => ctx.fail(format!("yaml-key {show}"), format!("panic: {e}"), &show),
                }
            }
        }
        // what has no counterpart among strict values
        let floats = [0.0, -0.0, 1.5, -1e300, f64::MIN_POSITIVE, 1e20, 18446744073709551616.0, f64::INFINITY, f64::NAN];
        for f in floats {
            let d = Doc::F(f);
            for (i, d) in [d.clone(), Doc::Arr(vec![d.clone()]), Doc::Obj(vec![(s!("a"), d)])].iter().enumerate() {
                ctx.case(|| format!("float {f} at {i}"));
                ctx.transitions(3);
                let panics = "conversion of floating point numbers isn't implemented and panics";
                if f.is_finite() && guard(|| StrictVal::from(json(d))).is_err() {
                    ctx.fail("json float", panics, format!("{f} at {i}"));
                }
                if guard(|| StrictVal::from(yaml(d))).is_err() {
                    ctx.fail("yaml float", panics, format!("{f} at {i}"));
                }
                if guard(|| StrictVal::from(toml_doc(d).unwrap())).is_err() {
                    ctx.fail("toml float", panics, format!("{f} at {i}"));
                }
            }
        }
        for t in ["1979-05-27T07:32:00Z", "1979-05-27", "07:32:00", "1979-05-27T00:32:00.999999-07:00"] {
            ctx.case(|| format!("toml date {t}"));
            ctx.transition();
            let v: toml::Value = toml::from_str(&format!("d = {t}")).unwrap();
            if guard(|| StrictVal::from(v)).is_err() {
                ctx.fail("toml datetime", "conversion of dates isn't implemented and panics", t);
            }
        }
    }
}

fn num_of(v: &StrictVal) -> Option<i128> {
    if let StrictVal::Number(n) = v {
        num(n)
    } else {
        None
    }
}

// ------------------------------------------------------------------------------------------------------------ C26

/// Pieces which have to be found in the text, in order
fn pieces(v: &StrictVal, out: &mut Vec<String>) {
    match v {
        // whatever the empty element is written as, it is written
        StrictVal::Unit => out.push(v.to_string()),
        StrictVal::Number(n) => out.push(match n {
            StrictNum::Uint(n) => n.to_string(),
            StrictNum::Int(n) => n.to_string(),
            StrictNum::BigUint(n) => n.to_string(),
            StrictNum::BigInt(n) => n.to_string(),
            _ => s!(""),
        }),
        // escaping is up to the implementation
        StrictVal::String(s) => out.extend(s.split(|c: char| !c.is_alphanumeric()).map(|s| s.to_string())),
        StrictVal::Bytes(b) => out.push(b.0.iter().map(|x| format!("{x:02x}")).collect()),
        StrictVal::Enum(t) => out.push(tag(t)),
        StrictVal::Union(t, c) => {
            if **c == StrictVal::Unit && (*t == EnumTag::Ord(0) || tag(t) == "none") {
                out.push(v.to_string());
            } else {
                pieces(c, out);
                out.push(tag(t));
            }
        }
        StrictVal::Tuple(v) | StrictVal::List(v) | StrictVal::Set(v) => v.iter().for_each(|v| pieces(v, out)),
        StrictVal::Struct(v) => {
            for (n, v) in v {
                out.push(n.to_string());
                pieces(v, out);
            }
        }
        StrictVal::Map(v) => {
            for (k, v) in v {
                pieces(k, out);
                pieces(v, out);
            }
        }
    }
}

fn tag(t: &EnumTag) -> String {
    match t {
        EnumTag::Name(n) => n.to_string(),
        EnumTag::Ord(t) => t.to_string(),
    }
}

/// Texts made of what the notation itself consists of
fn nasty() -> Vec<&'static str> {
    vec![
        "", "a", "ab", "\"", "\\", "\\\"", "\", \"", "a\", \"b", "\\\\", "\", \"\\", "\", a \"", "\"]", "\"], [\"", "]", "}", "(,)",
        "~", "0x00", "\".some", ".some", "\" -> \"", "1", "\n", "a\".x", "\\n", "\\u{22}", "\t", "\u{1F600}", "'",
    ]
}

fn v_str(s: &str) -> V { V::List(s.chars().map(V::Char).collect()) }

/// Values of the types built of strings, with all strings
fn strings_of(m: &M, strs: &[&str], cap: usize) -> Vec<V> {
    let mut r = match m.strip() {
        M::List(x, ..) if x.is_uni() => strs.iter().map(|s| v_str(s)).collect(),
        M::Uni => strs.iter().filter(|s| s.chars().count() == 1).map(|s| V::Char(s.chars().next().unwrap())).collect(),
        M::Tuple(f) => product(&f.iter().map(|m| strings_of(m, strs, cap)).collect::<Vec<_>>(), cap).into_iter().map(V::Seq).collect(),
        M::Struct(f) => {
            product(&f.iter().map(|m| strings_of(&m.1, strs, cap)).collect::<Vec<_>>(), cap).into_iter().map(V::Seq).collect()
        }
        M::Union(vars) => {
            let mut r = vec![];
            for (_, t, m) in vars {
                r.extend(strings_of(m, strs, cap).into_iter().map(|v| V::Union(*t, Box::new(v))));
            }
            r
        }
        M::Array(x, n) => {
            product(&vec![strings_of(x, strs, cap); *n as usize], cap).into_iter().map(V::List).collect()
        }
        M::List(x, ..) => {
            let items = strings_of(x, strs, cap);
            let mut r = vec![V::List(vec![])];
            for n in 1..=3 {
                r.extend(product(&vec![items.clone(); n], cap).into_iter().map(V::List));
            }
            r
        }
        M::Set(x, ..) => {
            let items = strings_of(x, strs, cap);
            let mut r = vec![V::List(vec![])];
            for (i, a) in items.iter().enumerate() {
                if r.len() >= cap {
                    break;
                }
                r.push(V::List(vec![a.clone()]));
                for b in &items[i + 1..] {
                    r.push(V::List(vec![a.clone(), b.clone()]));
                }
            }
            r
        }
        M::Map(k, x, ..) => {
            let (ks, xs) = (strings_of(k, strs, cap), strings_of(x, strs, cap));
            let mut r = vec![V::Map(vec![])];
            for (i, k) in ks.iter().enumerate() {
                if r.len() >= cap {
                    break;
                }
                for x in &xs {
                    r.push(V::Map(vec![(k.clone(), x.clone())]));
                }
                for k2 in &ks[i + 1..] {
                    for x in xs.iter().take(4) {
                        r.push(V::Map(vec![(k.clone(), x.clone()), (k2.clone(), xs[i % xs.len()].clone())]));
                    }
                }
            }
            r
        }
        m => values(m, 4),
    };
    r.truncate(cap);
    r
}

fn texts(ctx: &mut Ctx, m: &M, vals: &[V], notes: usize) {
    let s = match guard(|| mk_sys(m)) {
        Ok(s) => s,
        Err(e) => {
            ctx.fail(format!("link {}", m.show()), e, m.show());
            return;
        }
    };
    ctx.state();
    let mut seen: BTreeMap<String, (V, String)> = BTreeMap::new();
    let m = &s.m;
    for v in vals {
        for sv in notations(m, v, notes) {
            let D::Yes(meant) = denote(m, &sv) else { continue };
            let show = format!("{} as {}", short(&dbg(&sv), 300), short(&m.show(), 200));
            // values of a type are what the type checker returns
            let Ok(Ok(typed)) = guard(|| s.sys.typify(sv.clone(), s.id)) else { continue };
            ctx.case(|| format!("text of {show}"));
            ctx.transition();
            ctx.trace();
            let val = typed.as_val();
            let text = match guard(|| val.to_string()) {
                Ok(t) => t,
                Err(e) => {
                    ctx.fail(format!("render {show}"), format!("panic: {e}"), &show);
                    continue;
                }
            };
            let mut all = vec![];
            pieces(val, &mut all);
            let mut rest = &text[..];
            for p in &all {
                match rest.find(p.as_str()) {
                    Some(i) => rest = &rest[i + p.len()..],
                    None => {
                        ctx.fail(format!("piece {show}"), format!("`{text}` has no {p} at its place"), &show);
                        break;
                    }
                }
            }
            match seen.get(&text) {
                Some((other, how)) if *other != meant => {
                    // `~` is written both for the name `none` and for the ordinal 0
                    let bare = |t: &str| t.replace("Union(Ord(0), Unit)", "Union(Name(VariantName(\"none\")), Unit)");
                    if bare(how) == bare(&dbg(&val)) && how.len() < 200 {
                        let msg = format!("`{text}` is the text of {how} and of {}", dbg(&val));
                        ctx.fail("ambiguous ~ of ordinal 0 and none", msg, &show);
                        continue;
                    }
                    let msg = format!("`{}` is the text of {how} and of {}", short(&text, 200), short(&dbg(&val), 200));
                    ctx.fail(format!("ambiguous {}: {}", short(&m.show(), 120), short(&text, 120)), msg, &show);
                }
                Some(_) => {}
                None => {
                    seen.insert(text, (meant, short(&dbg(&val), 200)));
                }
            }
        }
    }
    ctx.count("distinct_texts", seen.len() as u64);
}

pub fn c26(ctx: &mut Ctx) {
    let mut pool = depth2();
    pool.extend(depth3());
    pool.extend(depth4().into_iter().step_by(ctx.by_tier(5, 1)));
    for a in [0u8, 1, 2] {
        for b in [0u8, 1, 2] {
            if a < b {
                for (x, y) in [("none", "some"), ("some", "none"), ("x", "none"), ("none", "x"), ("x", "y")] {
                    pool.push(union(&[(x, a, unit()), (y, b, unit())]));
                    pool.push(union(&[(x, a, unit()), (y, b, prim(U8))]));
                    pool.push(union(&[(x, a, option(unit())), (y, b, unit())]));
                    pool.push(list(union(&[(x, a, option(unit())), (y, b, option(prim(U8)))]), 0, 4));
                }
            }
        }
    }
    for m in &pool {
        if m.decodable() && ctx.mine() {
            let vals = values(m, ctx.by_tier(24, 64));
            texts(ctx, m, &vals, 3);
        }
    }
    // special parts at every position of longer definitions
    let parts = || {
        vec![unit(), prim(U8), option(prim(U8)), option(unit()), list(prim(U8), 0, 3), tuple(vec![unit(), prim(U8)]), M::Uni, enm(&[("a", 0), ("none", 1)])]
    };
    for n in 1..=ctx.by_tier(3usize, 4) {
        for k in 0..parts().len().pow(n as u32) {
            if !ctx.mine() {
                continue;
            }
            let ps = parts();
            let f: Vec<M> = (0..n).map(|i| ps[k / ps.len().pow(i as u32) % ps.len()].clone()).collect();
            let names = ["a", "b", "none", "some"];
            for m in [
                M::Tuple(f.clone()),
                M::Struct(f.iter().enumerate().map(|(i, m)| (names[i].to_string(), m.clone())).collect()),
                M::Union(f.iter().enumerate().map(|(i, m)| (names[3 - i].to_string(), i as u8, m.clone())).collect()),
                list(M::Tuple(f.clone()), 0, 3),
            ] {
                if m.decodable() {
                    let vals = values(&m, 24);
                    texts(ctx, &m, &vals, 2);
                }
            }
        }
    }
    // many parts
    for n in crate::libs::sizes(ctx.thorough()) {
        if n > 255 || !ctx.mine() {
            continue;
        }
        let f = |i: usize| if i % 7 == 3 { unit() } else { prim(U8) };
        for m in [
            M::Tuple((0..n).map(f).collect()),
            M::Struct((0..n).map(|i| (format!("f{i}"), f(i))).collect()),
            list(prim(U8), n as u64, n as u64),
            set(prim(U16), n as u64, n as u64),
            array(option(unit()), n as u16),
            map(prim(U8), unit(), n as u64, n as u64),
            list(M::Uni, n as u64, n as u64),
        ] {
            if m.decodable() {
                let vals = values(&m, 6);
                texts(ctx, &m, &vals, 1);
            }
        }
    }
    // strings which look like parts of the notation
    let st = || list(M::Uni, 0, MAX16);
    let strs = nasty();
    let some: Vec<&str> = strs.iter().copied().take(18).collect();
    let sym = || enm(&[("a", 0x61), ("quote", 0x22), ("back", 0x5C), ("comma", 0x2C), ("sp", 0x20), ("dot", 0x2E)]);
    let tys = vec![
        st(),
        M::Uni,
        tuple(vec![st(), st()]),
        tuple(vec![st(), st(), st()]),
        tuple(vec![tuple(vec![st()]), tuple(vec![st(), st()])]),
        strct(&[("a", st()), ("b", st())]),
        strct(&[("a", option(st())), ("b", list(st(), 0, 5))]),
        option(st()),
        option(option(st())),
        union(&[("a", 0, st()), ("some", 1, tuple(vec![st(), st()])), ("b", 2, list(st(), 0, 5))]),
        list(st(), 0, 5),
        list(tuple(vec![st(), st()]), 0, 5),
        list(list(st(), 0, 5), 0, 5),
        list(option(st()), 0, 5),
        list(union(&[("a", 0, st()), ("b", 1, list(st(), 0, 5))]), 0, 5),
        set(st(), 0, 5),
        set(tuple(vec![st(), st()]), 0, 5),
        map(st(), st(), 0, 5),
        map(tuple(vec![st(), st()]), st(), 0, 5),
        map(st(), tuple(vec![st(), st()]), 0, 5),
        map(strct(&[("a", st()), ("b", st())]), list(st(), 0, 3), 0, 5),
        map(union(&[("a", 0, st()), ("b", 1, unit())]), option(st()), 0, 5),
        array(st(), 2),
    ];
    for m in &tys {
        if ctx.mine() {
            let vals = strings_of(m, &some, ctx.by_tier(4000, 40000));
            texts(ctx, m, &vals, 1);
            let vals = strings_of(m, &strs, ctx.by_tier(1000, 40000));
            texts(ctx, m, &vals, 1);
        }
    }
    // strings of restricted character sets
    for m in [list(list(sym(), 0, 9), 0, 5), tuple(vec![list(sym(), 0, 9), list(sym(), 0, 9)]), set(list(sym(), 0, 9), 0, 5)] {
        if ctx.mine() {
            let words: Vec<V> = ["", "a", "\"", "\\", "\", \"", "a\", \"a", "\\\"", ".a", "\"."]
                .iter()
                .map(|s| V::List(s.bytes().map(V::Enum).collect()))
                .collect();
            let mut vals = vec![];
            let tuple = matches!(m, M::Tuple(_));
            for a in &words {
                if !tuple {
                    vals.push(V::List(vec![a.clone()]));
                }
                for b in &words {
                    if tuple {
                        vals.push(V::Seq(vec![a.clone(), b.clone()]));
                    } else if a != b || matches!(m, M::List(..)) {
                        vals.push(V::List(vec![a.clone(), b.clone()]));
                    }
                }
            }
            texts(ctx, &m, &vals, 1);
        }
    }
}

// ------------------------------------------------------------------------------------------------------------ C28

pub fn c28(ctx: &mut Ctx) {
    let nums = [0u16, 1, 9, 10, 65535];
    let id = |s: &str| Ident::from(s.to_string().leak() as &'static str);
    let pres: Vec<PreFragment> = vec![
        PreFragment::Digits(0),
        PreFragment::Digits(7),
        PreFragment::Digits(u64::MAX as u128 + 1),
        PreFragment::Digits(u128::MAX),
        PreFragment::Ident(id("alpha")),
        PreFragment::Ident(id("beta")),
        PreFragment::Ident(id("rc1")),
    ];
    let builds: Vec<BuildFragment> = vec![
        BuildFragment::Ident(id("alpha")),
        BuildFragment::Ident(id("linux")),
        BuildFragment::Digits(id("alpha")),
        BuildFragment::Digits(id("b001")),
    ];
    fn seqs<T: Clone>(items: &[T], max: usize) -> Vec<Vec<T>> {
        let mut all = vec![vec![]];
        let mut last: Vec<Vec<T>> = vec![vec![]];
        for _ in 0..max {
            let mut next = vec![];
            for s in &last {
                for i in items {
                    let mut t = s.clone();
                    t.push(i.clone());
                    next.push(t);
                }
            }
            all.extend(next.clone());
            last = next;
        }
        all
    }
    let mut pre = seqs(&pres, ctx.by_tier(2, 3));
    let mut build = seqs(&builds, ctx.by_tier(2, 3));
    pre.push((0..255).map(|i| PreFragment::Digits(i)).collect());
    build.push(vec![builds[1].clone(); 255]);
    let frag_p = |p: &PreFragment| match p {
        PreFragment::Ident(i) => i.to_string(),
        PreFragment::Digits(n) => n.to_string(),
    };
    let frag_b = |b: &BuildFragment| match b {
        BuildFragment::Ident(i) | BuildFragment::Digits(i) => i.to_string(),
    };
    let raw_id = |s: &str, out: &mut Vec<u8>| {
        out.push(s.len() as u8);
        out.extend(s.as_bytes());
    };
    let mut seen = std::collections::BTreeMap::new();
    for n in 0..125usize {
        let (ma, mi, pa) = (nums[n / 25], nums[n / 5 % 5], nums[n % 5]);
        let full = ma <= 1 && mi == 9 && pa == 10;
        for p in if full { &pre[..] } else { &pre[..3] } {
            if !ctx.mine() {
                continue;
            }
            for b in if full { &build[..] } else { &build[..3] } {
                let mut v = SemVer::new(ma, mi, pa);
                v.pre = TinyVec::try_from(p.clone()).unwrap();
                v.build = TinyVec::try_from(b.clone()).unwrap();
                let mut text = format!("{ma}.{mi}.{pa}");
                if !p.is_empty() {
                    text += &format!("-{}", p.iter().map(frag_p).collect::<Vec<_>>().join("."));
                }
                if !b.is_empty() {
                    text += &format!("+{}", b.iter().map(frag_b).collect::<Vec<_>>().join("."));
                }
                let show = short(&dbg(&v), 300);
                ctx.case(|| show.clone());
                ctx.state();
                ctx.transitions(3);
                ctx.trace();
                match guard(|| v.to_string()) {
                    Ok(t) if t == text => {}
                    t => ctx.fail(format!("text {}", short(&text, 100)), format!("prints {t:?}, expected {text}"), &show),
                }
                let mut raw = vec![];
                for n in [ma, mi, pa] {
                    raw.extend(n.to_le_bytes());
                }
                raw.push(p.len() as u8);
                for f in p {
                    match f {
                        PreFragment::Ident(i) => {
                            raw.push(0);
                            raw_id(i.as_str(), &mut raw);
                        }
                        PreFragment::Digits(n) => {
                            raw.push(1);
                            raw.extend(n.to_le_bytes());
                        }
                    }
                }
                raw.push(b.len() as u8);
                for f in b {
                    match f {
                        BuildFragment::Ident(i) => {
                            raw.push(0);
                            raw_id(i.as_str(), &mut raw);
                        }
                        BuildFragment::Digits(i) => {
                            raw.push(1);
                            raw_id(i.as_str(), &mut raw);
                        }
                    }
                }
                let enc = bytes(&v);
                if enc != raw {
                    ctx.fail(format!("bytes {}", short(&text, 100)), format!("encodes to {}, expected {}", hex(&enc), hex(&raw)), &show);
                }
                match guard(|| from_bytes::<SemVer>(&enc)) {
                    Ok(Ok(w)) if w == v && dbg(&w) == dbg(&v) => {}
                    w => ctx.fail(format!("decode {}", short(&text, 100)), format!("decodes to {w:?}"), &show),
                }
                if let Some(other) = seen.insert(enc, show.clone()) {
                    ctx.fail(format!("same-bytes {show}"), format!("has the encoding of {other}"), &show);
                }
            }
        }
    }
}
