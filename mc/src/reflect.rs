//! C01, C07: Rust types reflected into libraries. Every Rust type comes with its own reference description (type
//! term, definitions of the named types it is composed of, and values), which is written down independently of the
//! reflection machinery.

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::Hash;
use std::io;
use std::sync::atomic::AtomicUsize;
use std::sync::atomic::Ordering::Relaxed;

use amplify::ascii::AsciiString;
use amplify::confinement::Confined;
use amplify::num::{i1024, i256, i512, u1, u1024, u2, u24, u256, u3, u4, u40, u48, u5, u512, u56, u6, u7};
use strict_encoding::stl::{
    Alpha, AlphaCaps, AlphaCapsDash, AlphaCapsDot, AlphaCapsLodash, AlphaCapsNum, AlphaDash, AlphaDot, AlphaLodash,
    AlphaNum, AlphaNumDash, AlphaNumDot, AlphaNumLodash, AlphaSmall, AlphaSmallDash, AlphaSmallDot, AlphaSmallLodash,
    AsciiPrintable, AsciiSym, Bool, Dec, DecDot, HexDecCaps, HexDecSmall, U1, U2, U3, U4, U5, U6, U7,
};
use strict_encoding::{
    DecodeError, RString, ReadTuple, RestrictedCharSet, StrictDecode, StrictDumb, StrictEncode, StrictProduct,
    StrictSum, StrictTuple, StrictType, TypeName, TypedRead, TypedWrite, WriteTuple,
};
use strict_types::typelib::{SymbolicLib, TranspileError};
use strict_types::{Dependency, LibBuilder, SemId, SystemBuilder, TypeLib};

use crate::core::*;
use crate::ids::permutations;
use crate::libs::*;
use crate::model::*;
use crate::sysb::*;
use crate::values::sv_show;

fn st(x: &str) -> String { x.to_string() }

#[derive(Clone, Default)]
pub struct DefMap(pub BTreeMap<(String, String), M>);

pub trait Rt: StrictEncode + StrictDecode + Clone + 'static {
    fn named() -> Option<(String, String)> { None }
    fn body(cur: &str, d: &mut DefMap) -> M;
    fn rf(cur: &str, d: &mut DefMap) -> M {
        match Self::named() {
            None => Self::body(cur, d),
            Some((lib, name)) => {
                let key = (lib.clone(), name.clone());
                if !d.0.contains_key(&key) {
                    d.0.insert(key.clone(), unit());
                    let body = Self::body(&lib, d);
                    d.0.insert(key, body);
                }
                if lib == cur {
                    r(&name)
                } else {
                    r(&format!("{lib}.{name}"))
                }
            }
        }
    }
    /// Arrays and lists of `u8` are made of bytes
    fn item(cur: &str, d: &mut DefMap) -> M { Self::rf(cur, d) }
    fn vals() -> Vec<(Self, V)>;
}

/// All combinations of the choices if there are not too many, otherwise all pairs of deviations from the first one
fn combos(sizes: &[usize], cap: usize) -> Vec<Vec<usize>> {
    let total = sizes.iter().try_fold(1usize, |a, b| a.checked_mul(*b)).unwrap_or(usize::MAX);
    if total <= cap {
        let mut res = vec![vec![]];
        for n in sizes {
            res = res
                .into_iter()
                .flat_map(|p: Vec<usize>| {
                    (0..*n).map(move |i| {
                        let mut p = p.clone();
                        p.push(i);
                        p
                    })
                })
                .collect();
        }
        return res;
    }
    let base = vec![0; sizes.len()];
    let mut res = vec![base.clone()];
    for a in 0..sizes.len() {
        for i in 1..sizes[a] {
            let mut v = base.clone();
            v[a] = i;
            res.push(v.clone());
            for b in a + 1..sizes.len() {
                for j in 1..sizes[b] {
                    if res.len() < 4 * cap {
                        let mut w = v.clone();
                        w[b] = j;
                        res.push(w);
                    }
                }
            }
        }
    }
    res
}

/// Bound of the number of combinations of field values
static CAP: AtomicUsize = AtomicUsize::new(64);
fn cap() -> usize { CAP.load(Relaxed) }

macro_rules! rt_uint {
    ($($ty:ident $code:expr;)+) => {$(
        impl Rt for $ty {
            fn body(_: &str, _: &mut DefMap) -> M { prim($code) }
            fn vals() -> Vec<(Self, V)> {
                let max = u64::MAX >> (64 - $ty::BITS);
                [0, 1, max / 2, max / 2 + 1, max].into_iter().map(|n| {
                    let b = n.to_le_bytes();
                    ($ty::from_le_bytes(b[..$ty::BITS as usize / 8].try_into().unwrap()), V::Uint(n))
                }).collect()
            }
        }
    )+}
}
impl Rt for u8 {
    fn body(_: &str, _: &mut DefMap) -> M { prim(U8) }
    fn item(_: &str, _: &mut DefMap) -> M { prim(BYTE) }
    fn vals() -> Vec<(Self, V)> { [0u8, 1, 65, 255].into_iter().map(|n| (n, V::Uint(n as u64))).collect() }
}
rt_uint! { u16 U16; u24 U24; u32 U32; u40 U40; u48 U48; u56 U56; u64 U64; }
macro_rules! rt_int {
    ($($ty:ident $code:expr;)+) => {$(
        impl Rt for $ty {
            fn body(_: &str, _: &mut DefMap) -> M { prim($code) }
            fn vals() -> Vec<(Self, V)> {
                [0, 1, -1, $ty::MIN, $ty::MAX].into_iter().map(|n| (n, V::Int(n as i64))).collect()
            }
        }
    )+}
}
rt_int! { i8 I8; i16 I16; i32 I32; i64 I64; }
macro_rules! rt_wide {
    ($($ty:ident $code:expr;)+) => {$(
        impl Rt for $ty {
            fn body(_: &str, _: &mut DefMap) -> M { prim($code) }
            fn vals() -> Vec<(Self, V)> {
                vec![($ty::default(), V::Wide(vec![0; $ty::BITS as usize / 8]))]
            }
        }
    )+}
}
rt_wide! { u128 U128; u256 U256; u512 0x22; u1024 U1024; i128 I128; i256 I256; i512 0x62; i1024 I1024; }

impl Rt for () {
    fn body(_: &str, _: &mut DefMap) -> M { unit() }
    fn vals() -> Vec<(Self, V)> { vec![((), V::Unit)] }
}

fn enum_body<T: StrictSum>() -> M {
    let mut v: Vec<_> = T::ALL_VARIANTS.iter().map(|(t, n)| (n.to_string(), *t)).collect();
    v.sort_by_key(|x| x.1);
    M::Enum(v)
}
/// Enums of the Std library: their variants are data of another crate
macro_rules! rt_std {
    ($($ty:ident)+) => {$(
        impl Rt for $ty {
            fn named() -> Option<(String, String)> { Some((s!("Std"), $ty::strict_name().unwrap().to_string())) }
            fn body(_: &str, _: &mut DefMap) -> M { enum_body::<$ty>() }
            fn vals() -> Vec<(Self, V)> {
                let all = $ty::ALL_VARIANTS;
                let pick = |i: usize| {
                    let t = all[i].0;
                    ($ty::try_from(t).unwrap(), V::Enum(t))
                };
                if all.len() < 6 { (0..all.len()).map(pick).collect() } else {
                    [0, 1, all.len() / 2, all.len() - 1].into_iter().map(pick).collect()
                }
            }
        }
    )+}
}
rt_std! { Alpha AlphaCaps AlphaCapsDash AlphaCapsDot AlphaCapsLodash AlphaCapsNum AlphaDash AlphaDot AlphaLodash
AlphaNum AlphaNumDash AlphaNumDot AlphaNumLodash AlphaSmall AlphaSmallDash AlphaSmallDot AlphaSmallLodash
AsciiPrintable AsciiSym Dec DecDot HexDecCaps HexDecSmall Bool U1 U2 U3 U4 U5 U6 U7 }

impl Rt for bool {
    fn named() -> Option<(String, String)> { Some((s!("Std"), s!("Bool"))) }
    fn body(_: &str, _: &mut DefMap) -> M { enm(&[("false", 0), ("true", 1)]) }
    fn vals() -> Vec<(Self, V)> { vec![(false, V::Enum(0)), (true, V::Enum(1))] }
}
macro_rules! rt_small {
    ($($ty:ident $name:literal $bits:literal;)+) => {$(
        impl Rt for $ty {
            fn named() -> Option<(String, String)> { Some((s!("Std"), st($name))) }
            fn body(_: &str, _: &mut DefMap) -> M {
                M::Enum((0..1u16 << $bits).map(|i| (format!("_{i}"), i as u8)).collect())
            }
            fn vals() -> Vec<(Self, V)> {
                let max = ((1u16 << $bits) - 1) as u8;
                let mut v = vec![0, 1, max / 2, max];
                v.dedup();
                v.into_iter().collect::<BTreeSet<_>>().into_iter()
                    .map(|n| ($ty::try_from(n).unwrap(), V::Enum(n))).collect()
            }
        }
    )+}
}
rt_small! { u1 "U1" 1; u2 "U2" 2; u3 "U3" 3; u4 "U4" 4; u5 "U5" 5; u6 "U6" 6; u7 "U7" 7; }

fn opt_body(m: M) -> M { M::Union(vec![(s!("none"), 0, unit()), (s!("some"), 1, tuple(vec![m]))]) }

impl<T: Rt + StrictDumb> Rt for Option<T> {
    fn body(cur: &str, d: &mut DefMap) -> M { opt_body(T::rf(cur, d)) }
    fn vals() -> Vec<(Self, V)> {
        let mut res = vec![(None, V::Union(0, Box::new(V::Unit)))];
        res.extend(T::vals().into_iter().map(|(x, v)| (Some(x), V::Union(1, Box::new(V::Seq(vec![v]))))));
        res
    }
}
impl<A: Rt + Default, B: Rt + Default> Rt for (A, B) {
    fn body(cur: &str, d: &mut DefMap) -> M { tuple(vec![A::rf(cur, d), B::rf(cur, d)]) }
    fn vals() -> Vec<(Self, V)> {
        let (a, b) = (A::vals(), B::vals());
        combos(&[a.len(), b.len()], cap())
            .into_iter()
            .map(|c| {
                ((a[c[0]].0.clone(), b[c[1]].0.clone()), V::Seq(vec![a[c[0]].1.clone(), b[c[1]].1.clone()]))
            })
            .collect()
    }
}
impl<A: Rt + Default, B: Rt + Default, C: Rt + Default> Rt for (A, B, C) {
    fn body(cur: &str, d: &mut DefMap) -> M { tuple(vec![A::rf(cur, d), B::rf(cur, d), C::rf(cur, d)]) }
    fn vals() -> Vec<(Self, V)> {
        let (a, b, c) = (A::vals(), B::vals(), C::vals());
        combos(&[a.len(), b.len(), c.len()], cap())
            .into_iter()
            .map(|i| {
                let (a, b, c) = (&a[i[0]], &b[i[1]], &c[i[2]]);
                (
                    (a.0.clone(), b.0.clone(), c.0.clone()),
                    V::Seq(vec![a.1.clone(), b.1.clone(), c.1.clone()]),
                )
            })
            .collect()
    }
}
impl<T: Rt + Copy + StrictDumb, const LEN: usize> Rt for [T; LEN]
{
    fn body(cur: &str, d: &mut DefMap) -> M { array(T::item(cur, d), LEN as u16) }
    fn vals() -> Vec<(Self, V)> {
        let v = T::vals();
        let mut res: Vec<(Self, V)> = vec![];
        for off in 0..v.len() {
            for step in 0..2 {
                let pick = |i: usize| &v[(off + i * step) % v.len()];
                let val = V::List((0..LEN).map(|i| pick(i).1.clone()).collect());
                if !res.iter().any(|x| x.1 == val) {
                    res.push((std::array::from_fn(|i| pick(i).0), val));
                }
            }
        }
        res
    }
}

fn lens(min: usize, max: usize) -> Vec<usize> {
    let mut l: Vec<usize> = vec![min, min + 1, min + 2];
    l.retain(|x| *x <= max);
    if max <= 300 {
        l.push(max);
    }
    l.dedup();
    l
}
/// Sequences of values of the chosen lengths
fn seqs<T: Clone>(v: &[(T, V)], min: usize, max: usize) -> Vec<Vec<(T, V)>> {
    let mut res: Vec<Vec<(T, V)>> = vec![];
    for len in lens(min, max) {
        for off in 0..v.len().min(6) {
            for step in 0..2 {
                let s: Vec<_> = (0..len).map(|i| v[(off + i * step) % v.len()].clone()).collect();
                if !res.iter().any(|x| x.len() == s.len() && x.iter().zip(&s).all(|(a, b)| a.1 == b.1)) {
                    res.push(s);
                }
            }
        }
    }
    res
}

impl<T: Rt + StrictDumb, const MIN: usize, const MAX: usize> Rt for Confined<Vec<T>, MIN, MAX>
{
    fn body(cur: &str, d: &mut DefMap) -> M { list(T::item(cur, d), MIN as u64, MAX as u64) }
    fn vals() -> Vec<(Self, V)> {
        seqs(&T::vals(), MIN, MAX)
            .into_iter()
            .map(|s| {
                let (a, b): (Vec<T>, Vec<V>) = s.into_iter().unzip();
                (Confined::try_from(a).unwrap(), V::List(b))
            })
            .collect()
    }
}
impl<T: Rt + StrictDumb + Ord, const MIN: usize, const MAX: usize> Rt for Confined<BTreeSet<T>, MIN, MAX>
{
    fn body(cur: &str, d: &mut DefMap) -> M { set(T::rf(cur, d), MIN as u64, MAX as u64) }
    fn vals() -> Vec<(Self, V)> {
        subsets(T::vals(), MIN, MAX)
            .into_iter()
            .map(|s| {
                let m: BTreeMap<T, V> = s.into_iter().collect();
                let v = V::List(m.values().cloned().collect());
                (Confined::try_from(m.into_keys().collect::<BTreeSet<_>>()).unwrap(), v)
            })
            .collect()
    }
}
fn subsets<T: Clone>(v: Vec<(T, V)>, min: usize, max: usize) -> Vec<Vec<(T, V)>> {
    let v = &v[..v.len().min(5)];
    (0..1usize << v.len())
        .filter(|b| (min..=max).contains(&(b.count_ones() as usize)))
        .map(|b| (0..v.len()).filter(|i| b >> i & 1 == 1).map(|i| v[i].clone()).collect())
        .collect()
}
impl<K: Rt + StrictDumb + Ord + Hash, T: Rt + StrictDumb, const MIN: usize, const MAX: usize> Rt for Confined<BTreeMap<K, T>, MIN, MAX>
{
    fn body(cur: &str, d: &mut DefMap) -> M {
        let k = K::rf(cur, d);
        map(k, T::rf(cur, d), MIN as u64, MAX as u64)
    }
    fn vals() -> Vec<(Self, V)> {
        let vs = T::vals();
        let mut res = vec![];
        for keys in subsets(K::vals(), MIN, MAX) {
            for off in 0..2.min(vs.len()) {
                let mut m = BTreeMap::new();
                for (i, (k, kv)) in keys.iter().enumerate() {
                    let (x, xv) = &vs[(i + off) % vs.len()];
                    m.insert(k.clone(), (kv.clone(), x.clone(), xv.clone()));
                }
                let v = V::Map(m.values().map(|x| (x.0.clone(), x.2.clone())).collect());
                let m: BTreeMap<K, T> = m.into_iter().map(|(k, x)| (k, x.1)).collect();
                if !res.iter().any(|x: &(Self, V)| x.1 == v) {
                    res.push((Confined::try_from(m).unwrap(), v));
                }
            }
        }
        res
    }
}
fn texts(alphabet: &[&str], min: usize, max: usize) -> Vec<String> {
    let mut res = vec![];
    for len in lens(min, max) {
        for off in 0..alphabet.len() {
            let mut s = String::new();
            let mut i = off;
            while s.len() < len {
                let c = alphabet[i % alphabet.len()];
                s.push_str(if s.len() + c.len() <= len { c } else { alphabet[0] });
                i += 1;
            }
            if s.len() == len && !res.contains(&s) {
                res.push(s);
            }
        }
    }
    res
}
impl<const MIN: usize, const MAX: usize> Rt for Confined<String, MIN, MAX>
{
    fn body(_: &str, _: &mut DefMap) -> M { list(M::Uni, MIN as u64, MAX as u64) }
    fn vals() -> Vec<(Self, V)> {
        texts(&["a", "\0", "é", "€", "𝄞"], MIN, MAX)
            .into_iter()
            .map(|s| (Confined::try_from(s.clone()).unwrap(), V::List(s.chars().map(V::Char).collect())))
            .collect()
    }
}
impl<const MIN: usize, const MAX: usize> Rt for Confined<AsciiString, MIN, MAX>
{
    fn body(cur: &str, d: &mut DefMap) -> M { list(AsciiSym::rf(cur, d), MIN as u64, MAX as u64) }
    fn vals() -> Vec<(Self, V)> {
        texts(&["a", "\u{1}", "~"], MIN, MAX)
            .into_iter()
            .map(|s| {
                let v = V::List(s.bytes().map(V::Enum).collect());
                (Confined::try_from(AsciiString::from_ascii(s).unwrap()).unwrap(), v)
            })
            .collect()
    }
}
impl<C1, C, const MIN: usize, const MAX: usize> Rt for RString<C1, C, MIN, MAX>
where
    C1: RestrictedCharSet + Rt + StrictSum,
    C: RestrictedCharSet + Rt + StrictSum,
{
    fn body(cur: &str, d: &mut DefMap) -> M {
        let c1 = C1::rf(cur, d);
        tuple(vec![c1, list(C::rf(cur, d), MIN as u64 - 1, MAX as u64 - 1)])
    }
    fn vals() -> Vec<(Self, V)> {
        let tags = |a: &'static [(u8, &'static str)]| -> Vec<u8> {
            let n = a.len();
            [0, n / 2, n - 1].into_iter().map(|i| a[i].0).collect()
        };
        let (first, rest) = (tags(C1::ALL_VARIANTS), tags(C::ALL_VARIANTS));
        let mut res: Vec<(Self, V)> = vec![];
        for len in lens(MIN, MAX) {
            for (i, f) in first.iter().enumerate() {
                let b: Vec<u8> =
                    std::iter::once(*f).chain((1..len).map(|j| rest[(i + j) % rest.len()])).collect();
                let v = V::Seq(vec![V::Enum(b[0]), V::List(b[1..].iter().map(|t| V::Enum(*t)).collect())]);
                if !res.iter().any(|x| x.1 == v) {
                    res.push((RString::try_from(b).unwrap(), v));
                }
            }
        }
        res
    }
}

// --------------------------------------------------------------------------------------- named types of three libs

macro_rules! rt_struct {
    ($lib:literal $name:ident { $($f:ident $fname:literal : $t:ty),+ $(,)? }) => {
        impl Rt for $name {
            fn named() -> Option<(String, String)> { Some((st($lib), st(stringify!($name)))) }
            fn body(cur: &str, d: &mut DefMap) -> M {
                M::Struct(vec![$( (st($fname), <$t>::rf(cur, d)) ),+])
            }
            fn vals() -> Vec<(Self, V)> {
                $( let $f = <$t>::vals(); )+
                combos(&[$($f.len()),+], cap()).into_iter().map(|c| {
                    let mut c = c.into_iter();
                    let mut seq = vec![];
                    let x = rt_struct!(@new $name c seq $($f)+);
                    (x, V::Seq(seq))
                }).collect()
            }
        }
    };
    (@new $name:ident $c:ident $seq:ident $($f:ident)+) => {{
        $( let $f = { let i = $c.next().unwrap(); $seq.push($f[i].1.clone()); $f[i].0.clone() }; )+
        #[allow(clippy::needless_update)]
        $name { $($f,)+ ..$name::strict_dumb() }
    }};
}
macro_rules! rt_tuple {
    ($lib:literal $name:ident ( $($f:ident : $t:ty),+ $(,)? )) => {
        impl Rt for $name {
            fn named() -> Option<(String, String)> { Some((st($lib), st(stringify!($name)))) }
            fn body(cur: &str, d: &mut DefMap) -> M { M::Tuple(vec![$( <$t>::rf(cur, d) ),+]) }
            fn vals() -> Vec<(Self, V)> {
                $( let $f = <$t>::vals(); )+
                combos(&[$($f.len()),+], cap()).into_iter().map(|c| {
                    let mut c = c.into_iter();
                    let mut seq = vec![];
                    $( let $f = { let i = c.next().unwrap(); seq.push($f[i].1.clone()); $f[i].0.clone() }; )+
                    ($name( $($f),+ ), V::Seq(seq))
                }).collect()
            }
        }
    };
}
macro_rules! rt_enum {
    ($lib:literal $name:ident { $($v:ident $vname:literal $tag:literal),+ $(,)? }) => {
        impl Rt for $name {
            fn named() -> Option<(String, String)> { Some((st($lib), st(stringify!($name)))) }
            fn body(_: &str, _: &mut DefMap) -> M { enm(&[$(($vname, $tag)),+]) }
            fn vals() -> Vec<(Self, V)> { vec![$(($name::$v, V::Enum($tag))),+] }
        }
    };
}

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "LibA", tags = repr, into_u8, try_from_u8)]
#[repr(u8)]
pub enum Color {
    #[default]
    Red = 1,
    Green = 2,
    DarkBlue = 200,
}
rt_enum!("LibA" Color { Red "red" 1, Green "green" 2, DarkBlue "darkBlue" 200 });

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "LibA", tags = repr, into_u8, try_from_u8)]
#[repr(u8)]
pub enum Order {
    First,
    #[default]
    Second,
    #[strict_type(rename = "last")]
    Third,
}
rt_enum!("LibA" Order { First "first" 0, Second "second" 1, Third "last" 2 });

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "LibA")]
pub struct Id(u32);
rt_tuple!("LibA" Id(a: u32));

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "LibA")]
pub struct Hash32([u8; 32]);
rt_tuple!("LibA" Hash32(a: [u8; 32]));

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "LibA")]
pub struct Pair(u8, i16);
rt_tuple!("LibA" Pair(a: u8, b: i16));

#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "LibA")]
pub struct Rec {
    pub the_id: Id,
    #[strict_type(rename = "colour")]
    pub color: Option<Color>,
    #[strict_type(skip)]
    pub cache: u64,
    pub flag: bool,
}
rt_struct!("LibA" Rec { the_id "theId": Id, color "colour": Option<Color>, flag "flag": bool });

#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = "LibA", tags = order, dumb = Self::Ping)]
pub enum Message {
    Init(u8),
    Ping,
    Both(Id, u16),
    Connect { host: Option<Id>, port_no: u16 },
    Nested(Option<Rec>),
}
impl Rt for Message {
    fn named() -> Option<(String, String)> { Some((s!("LibA"), s!("Message"))) }
    fn body(cur: &str, d: &mut DefMap) -> M {
        let rec = Rec::rf(cur, d);
        union(&[
            ("init", 0, tuple(vec![prim(U8)])),
            ("ping", 1, unit()),
            ("both", 2, tuple(vec![Id::rf(cur, d), prim(U16)])),
            ("connect", 3, strct(&[("host", opt_body(Id::rf(cur, d))), ("portNo", prim(U16))])),
            ("nested", 4, tuple(vec![opt_body(rec)])),
        ])
    }
    fn vals() -> Vec<(Self, V)> {
        let u = |t: u8, v: Vec<V>| V::Union(t, Box::new(V::Seq(v)));
        let mut res = vec![(Message::Ping, V::Union(1, Box::new(V::Unit)))];
        res.extend(u8::vals().into_iter().map(|(x, v)| (Message::Init(x), u(0, vec![v]))));
        for (x, v) in <(Id, u16)>::vals() {
            let V::Seq(s) = v else { unreachable!() };
            res.push((Message::Both(x.0, x.1), u(2, s)));
        }
        for (x, v) in Option::<Id>::vals() {
            for (p, pv) in u16::vals() {
                res.push((Message::Connect { host: x, port_no: p }, u(3, vec![v.clone(), pv])));
            }
        }
        res.extend(Option::<Rec>::vals().into_iter().map(|(x, v)| (Message::Nested(x), u(4, vec![v]))));
        res
    }
}

#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "LibA", tags = custom)]
pub enum Custom {
    #[strict_type(tag = 9)]
    Big { val: u64 },
    #[strict_type(tag = 3)]
    Tiny(u8),
    #[strict_type(tag = 255)]
    Other(Pair),
}
impl Default for Custom {
    fn default() -> Self { Custom::Tiny(0) }
}
impl Rt for Custom {
    fn named() -> Option<(String, String)> { Some((s!("LibA"), s!("Custom"))) }
    fn body(cur: &str, d: &mut DefMap) -> M {
        union(&[
            ("big", 9, strct(&[("val", prim(U64))])),
            ("tiny", 3, tuple(vec![prim(U8)])),
            ("other", 255, tuple(vec![Pair::rf(cur, d)])),
        ])
    }
    fn vals() -> Vec<(Self, V)> {
        let u = |t: u8, v: V| V::Union(t, Box::new(V::Seq(vec![v])));
        let mut res = vec![];
        res.extend(u64::vals().into_iter().map(|(x, v)| (Custom::Big { val: x }, u(9, v))));
        res.extend(u8::vals().into_iter().map(|(x, v)| (Custom::Tiny(x), u(3, v))));
        res.extend(Pair::vals().into_iter().map(|(x, v)| (Custom::Other(x), u(255, v))));
        res
    }
}

#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = "LibA")]
pub struct Name(RString<AlphaCaps, AlphaNum, 1, 8>);
rt_tuple!("LibA" Name(a: RString<AlphaCaps, AlphaNum, 1, 8>));

#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = "LibA")]
pub struct Ticker(RString<AlphaSmallLodash, AlphaSmallLodash, 2, 4>);
rt_tuple!("LibA" Ticker(a: RString<AlphaSmallLodash, AlphaSmallLodash, 2, 4>));

#[derive(Clone, Eq, PartialEq, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "LibA")]
pub struct Wide {
    pub big: u128,
    pub huge: Option<i1024>,
}
rt_struct!("LibA" Wide { big "big": u128, huge "huge": Option<i1024> });

/// Tags of the variants are codes of characters
#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "LibA", tags = repr, into_u8, try_from_u8)]
#[repr(u8)]
pub enum Grade {
    #[default]
    A = 0x41,
    B = 0x42,
}
rt_enum!("LibA" Grade { A "a" 0x41, B "b" 0x42 });

#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "LibA")]
pub struct Grades(Grade, Confined<Vec<Grade>, 0, 0xFF>);
rt_tuple!("LibA" Grades(a: Grade, b: Confined<Vec<Grade>, 0, 0xFF>));

/// Reaches everything else of the library
#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = "LibA")]
pub struct Everything {
    pub recs: Confined<Vec<Rec>, 0, 0xFFFF>,
    pub msgs: Confined<BTreeMap<Color, Message>, 0, 0xFF>,
    pub name: Name,
    pub custom: Option<Custom>,
    pub hashes: Confined<BTreeSet<Hash32>, 0, 3>,
}
rt_struct!("LibA" Everything {
    recs "recs": Confined<Vec<Rec>, 0, 0xFFFF>,
    msgs "msgs": Confined<BTreeMap<Color, Message>, 0, 0xFF>,
    name "name": Name,
    custom "custom": Option<Custom>,
    hashes "hashes": Confined<BTreeSet<Hash32>, 0, 3>
});

#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = "LibB")]
pub struct Entry {
    pub key: Name,
    pub rec: Rec,
    pub level: u5,
}
rt_struct!("LibB" Entry { key "key": Name, rec "rec": Rec, level "level": u5 });

#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = "LibB", tags = custom, dumb = Self::Nothing)]
pub enum Choice {
    #[strict_type(tag = 7)]
    Nothing,
    #[strict_type(tag = 2)]
    Msg(Message),
    #[strict_type(tag = 0x80)]
    Pairs { list: Confined<Vec<Pair>, 0, 3>, map: Confined<BTreeMap<u8, Color>, 0, 0xFFFFFF> },
}
impl Rt for Choice {
    fn named() -> Option<(String, String)> { Some((s!("LibB"), s!("Choice"))) }
    fn body(cur: &str, d: &mut DefMap) -> M {
        let msg = Message::rf(cur, d);
        let pair = Pair::rf(cur, d);
        let color = Color::rf(cur, d);
        union(&[
            ("nothing", 7, unit()),
            ("msg", 2, tuple(vec![msg])),
            ("pairs", 0x80, strct(&[("list", list(pair, 0, 3)), ("map", map(prim(U8), color, 0, 0xFFFFFF))])),
        ])
    }
    fn vals() -> Vec<(Self, V)> {
        let u = |t: u8, v: Vec<V>| V::Union(t, Box::new(V::Seq(v)));
        let mut res = vec![(Choice::Nothing, V::Union(7, Box::new(V::Unit)))];
        res.extend(Message::vals().into_iter().map(|(x, v)| (Choice::Msg(x), u(2, vec![v]))));
        let a = Confined::<Vec<Pair>, 0, 3>::vals();
        let b = Confined::<BTreeMap<u8, Color>, 0, 0xFFFFFF>::vals();
        for c in combos(&[a.len(), b.len()], cap()) {
            let (x, y) = (&a[c[0]], &b[c[1]]);
            res.push((
                Choice::Pairs { list: x.0.clone(), map: y.0.clone() },
                u(0x80, vec![x.1.clone(), y.1.clone()]),
            ));
        }
        res
    }
}

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "LibB")]
pub struct Plain(u64);
rt_tuple!("LibB" Plain(a: u64));

/// The same name as in LibA
pub mod same {
    use super::*;
    #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, Default)]
    #[derive(StrictType, StrictEncode, StrictDecode)]
    #[strict_type(lib = "LibB")]
    pub struct Pair(super::Pair, super::Color);
    rt_tuple!("LibB" Pair(a: super::Pair, b: super::Color));
}

#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = "LibC")]
pub struct Table {
    pub rows: Confined<BTreeMap<Confined<String, 0, 0xFF>, Entry>, 0, 0xFFFF>,
    pub choices: Confined<Vec<Option<Choice>>, 0, 0xFF>,
    pub same: same::Pair,
}
rt_struct!("LibC" Table {
    rows "rows": Confined<BTreeMap<Confined<String, 0, 0xFF>, Entry>, 0, 0xFFFF>,
    choices "choices": Confined<Vec<Option<Choice>>, 0, 0xFF>,
    same "same": same::Pair
});

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "LibC")]
pub struct Small {
    pub color: Color,
    pub plain: Plain,
}
rt_struct!("LibC" Small { color "color": Color, plain "plain": Plain });

/// Numbered wrapper, which gives any type a name in LibA (`L = 0`) or LibB
#[derive(Clone, Debug)]
pub struct W<const L: usize, const N: usize, T>(T);
impl<const L: usize, const N: usize, T: Rt> StrictType for W<L, N, T> {
    const STRICT_LIB_NAME: &'static str = if L == 0 { "LibA" } else { "LibB" };
    fn strict_name() -> Option<TypeName> { Some(TypeName::try_from(format!("Wrap{N}")).unwrap()) }
}
impl<const L: usize, const N: usize, T: Rt> StrictDumb for W<L, N, T> {
    fn strict_dumb() -> Self { W(T::vals().swap_remove(0).0) }
}
impl<const L: usize, const N: usize, T: Rt> StrictProduct for W<L, N, T> {}
impl<const L: usize, const N: usize, T: Rt> StrictTuple for W<L, N, T> {
    const FIELD_COUNT: u8 = 1;
}
impl<const L: usize, const N: usize, T: Rt> StrictEncode for W<L, N, T> {
    fn strict_encode<Wr: TypedWrite>(&self, writer: Wr) -> io::Result<Wr> {
        writer.write_tuple::<Self>(|w| Ok(w.write_field(&self.0)?.complete()))
    }
}
impl<const L: usize, const N: usize, T: Rt> StrictDecode for W<L, N, T> {
    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
        reader.read_tuple(|r| Ok(W(r.read_field()?)))
    }
}
impl<const L: usize, const N: usize, T: Rt> Rt for W<L, N, T> {
    fn named() -> Option<(String, String)> { Some((st(Self::STRICT_LIB_NAME), format!("Wrap{N}"))) }
    fn body(cur: &str, d: &mut DefMap) -> M { tuple(vec![T::rf(cur, d)]) }
    fn vals() -> Vec<(Self, V)> { T::vals().into_iter().map(|(x, v)| (W(x), V::Seq(vec![v]))).collect() }
}

// ------------------------------------------------------------------------------------------------------- catalogue

pub struct Item {
    pub lib: String,
    pub name: String,
    pub transpile: fn(LibBuilder) -> LibBuilder,
    pub define: fn(&mut DefMap),
    pub vals: fn() -> Vec<(Vec<u8>, V)>,
}

fn item<T: Rt + StrictDumb>() -> Item {
    let (lib, name) = T::named().unwrap();
    Item {
        lib,
        name,
        transpile: |b| b.transpile::<T>(),
        define: |d| {
            T::rf("", d);
        },
        vals: || T::vals().into_iter().map(|(x, v)| (bytes(&x), v)).collect(),
    }
}

macro_rules! items { ($($t:ty),+ $(,)?) => { vec![$(item::<$t>()),+] } }
macro_rules! wraps {
    ($l:literal; $($n:literal $t:ty;)+) => { vec![$(item::<W<$l, $n, $t>>()),+] }
}
type Tiny<T> = Confined<Vec<T>, 0, 0xFF>;
type Small16<T> = Confined<Vec<T>, 0, 0xFFFF>;
type Large<T> = Confined<Vec<T>, 0, 0xFFFFFFFF>;
type Str<const A: usize, const B: usize> = Confined<String, A, B>;
type Set<T, const A: usize, const B: usize> = Confined<BTreeSet<T>, A, B>;
type Map<K, T, const A: usize, const B: usize> = Confined<BTreeMap<K, T>, A, B>;

pub fn std_items() -> Vec<Item> {
    items![
        bool, U1, U2, U3, U4, U5, U6, U7, AsciiSym, AsciiPrintable, Alpha, AlphaDot, AlphaDash, AlphaLodash,
        AlphaCaps, AlphaCapsDot, AlphaCapsDash, AlphaCapsLodash, AlphaSmall, AlphaSmallDot, AlphaSmallDash,
        AlphaSmallLodash, Dec, DecDot, HexDecCaps, HexDecSmall, AlphaNum, AlphaCapsNum, AlphaNumDot, AlphaNumDash,
        AlphaNumLodash
    ]
}

pub fn named_items() -> Vec<Item> {
    items![
        Color, Order, Grade, Grades, Id, Hash32, Pair, Rec, Message, Custom, Name, Ticker, Wide, Everything, Entry, Choice, Plain,
        same::Pair, Table, Small
    ]
}

pub fn wrapped_items() -> Vec<Item> {
    let mut v = wraps! { 0;
        0 (); 1 u8; 2 u16; 3 u24; 4 u32; 5 u40; 6 u48; 7 u56; 8 u64;
        9 i8; 10 i16; 11 i32; 12 i64; 13 bool; 14 u3; 15 AlphaCapsDash;
        16 u128; 17 u256; 18 u512; 19 u1024; 20 i128; 21 i256; 22 i512; 23 i1024;
        24 Option<u8>; 25 Option<()>; 26 Option<Option<u16>>; 27 Option<Color>; 28 Option<Rec>;
        29 (u8, u16); 30 (u8, (u16, i8), bool); 31 [u8; 4]; 32 [u16; 3]; 33 [Color; 2]; 34 [u8; 0]; 35 [[u8; 2]; 2];
        36 Tiny<u8>; 37 Small16<u8>; 38 Confined<Vec<u8>, 1, 3>; 39 Large<u8>; 40 Confined<Vec<u8>, 0, 0xFFFFFF>;
        41 Confined<Vec<u8>, 0, {usize::MAX}>; 42 Confined<Vec<u8>, 0, 256>;
        43 Tiny<u16>; 44 Tiny<Tiny<u8>>; 45 Tiny<Rec>; 46 Tiny<Option<Message>>; 47 Confined<Vec<bool>, 2, 4>;
        48 Confined<Vec<u24>, 0, 0x1_0000>; 49 Tiny<()>; 50 Large<Pair>;
        51 Str<0, 0xFF>; 52 Str<1, 4>; 53 Str<0, 0xFFFF>; 54 Str<3, 3>;
        55 Confined<AsciiString, 0, 0xFF>; 56 Confined<AsciiString, 1, 3>;
        57 RString<AlphaCaps, AlphaNum, 1, 8>; 58 RString<AlphaSmall, AlphaNumDash, 1, 0xFF>;
        59 RString<Dec, Dec, 3, 3>; 60 RString<AsciiPrintable, AsciiPrintable, 1, 0x100>;
        61 RString<Alpha, AlphaNumLodash, 1, 1>; 62 RString<AsciiSym, AsciiSym, 1, 4>;
        63 Set<u8, 0, 0xFF>; 64 Set<u16, 1, 2>; 65 Set<Color, 0, 0xFFFF>; 66 Set<Tiny<u8>, 0, 0xFF>;
        67 Set<Rec, 0, 0xFF>; 68 Set<Option<u8>, 0, 3>; 69 Set<(u8, bool), 2, 2>;
        70 Map<u8, u8, 0, 0xFF>; 71 Map<Color, Rec, 0, 0xFFFF>; 72 Map<Str<0, 0xFF>, Option<u16>, 0, 0xFF>;
        73 Map<u16, Map<u8, bool, 0, 3>, 1, 2>; 74 Map<Name, Tiny<Custom>, 0, 0xFF>; 75 Map<(u8, u16), (), 0, 0xFFFFFF>;
        76 Map<Option<Color>, [u8; 2], 0, 0xFF>; 77 Name; 78 Message; 79 Custom; 80 Option<Tiny<u8>>;
        81 Option<Name>; 82 Option<[u8; 32]>; 83 Tiny<Str<0, 0xFF>>; 84 Tiny<Confined<AsciiString, 0, 3>>;
        85 (Tiny<u8>, Option<u8>); 86 Option<(u8, Color)>; 87 Set<[u8; 2], 0, 0xFF>; 88 Map<[u8; 2], Str<0, 3>, 0, 3>;
        89 W<0, 90, u8>; 91 W<0, 92, W<0, 93, Option<W<0, 94, u16>>>>; 95 Option<RString<AlphaCaps, AlphaNum, 1, 8>>;
        96 Tiny<RString<AlphaSmallLodash, AlphaSmallLodash, 2, 4>>; 97 Option<Map<u8, Id, 0, 3>>;
        98 Tiny<(u8, [u8; 2])>; 99 [Option<u8>; 2];
        100 Map<u8, u8, 2, 9>; 101 Set<u16, 3, 200>; 102 Confined<Vec<u8>, 2, 9>; 103 Confined<Vec<Rec>, 3, 70000>;
        104 Map<Color, u8, 2, 3>; 105 Set<Color, 1, 3>; 106 Str<2, 9>; 107 Confined<AsciiString, 2, 9>;
        108 RString<AlphaCaps, AlphaNum, 2, 9>; 109 Map<u16, u16, 3, 0x1_0000>; 110 Set<u8, 2, 0xFFFFFF>;
        111 Map<u8, Tiny<u8>, 1, 0x1_0000_0000>; 112 Set<u8, 0, {usize::MAX}>; 113 Str<0, 0x100>; 114 Str<5, 0xFFFFFF>;
        115 Confined<Vec<u8>, 255, 256>; 116 Confined<Vec<u16>, 4, 0xFFFF_FFFF>;
        117 [u8; 255]; 118 [u8; 256]; 119 [u16; 1]; 120 [bool; 33];
    };
    v.extend(wraps! { 1;
        0 Color; 1 Rec; 2 Option<Message>; 3 Tiny<Custom>; 4 Map<Id, Name, 0, 0xFF>; 5 Set<Hash32, 0, 0xFF>;
        6 Everything; 7 (u8, Order); 8 [Pair; 3]; 9 W<0, 1, u8>; 10 Option<Tiny<Ticker>>; 11 same::Pair; 12 Wide;
        13 (same::Pair, Pair); 14 RString<AlphaCaps, AlphaNum, 1, 8>; 15 Map<Color, W<1, 16, Option<Color>>, 0, 0xFF>;
        17 u8;
    });
    v
}

const LIBS: [&str; 4] = ["Std", "LibA", "LibB", "LibC"];

fn builder(lib: &str, deps: &[&TypeLib]) -> LibBuilder {
    LibBuilder::with(strict_types::LibName::try_from(lib.to_string()).unwrap(), deps.iter().map(|l| l.to_dependency_types()))
}

/// Definition of the library from the reference descriptions of the types
fn lib_def(lib: &str, d: &DefMap) -> LibDef {
    let types: Vec<_> =
        d.0.iter().filter(|((l, _), _)| l == lib).map(|((_, n), m)| (n.clone(), m.clone())).collect();
    let mut deps = BTreeSet::new();
    let mut todo: Vec<(String, String)> = types.iter().map(|t| (lib.to_string(), t.0.clone())).collect();
    let mut seen = BTreeSet::new();
    while let Some((l, n)) = todo.pop() {
        if !seen.insert((l.clone(), n.clone())) {
            continue;
        }
        let mut rs = BTreeSet::new();
        refs(&d.0[&(l.clone(), n)], &mut rs);
        for x in rs {
            let (l2, n2) = x.split_once('.').map(|(a, b)| (st(a), st(b))).unwrap_or((l.clone(), x.clone()));
            if l2 != lib {
                deps.insert(l2.clone());
            }
            todo.push((l2, n2));
        }
    }
    LibDef { name: st(lib), deps: deps.into_iter().collect(), types }
}

/// External types which are met when the library is reflected: (library, type)
fn reached(lib: &str, d: &DefMap) -> BTreeSet<(String, String)> {
    d.0.keys().filter(|k| k.0 != lib).cloned().collect()
}

/// Reference term with the definitions put in place of the references
fn resolve(lib: &str, m: &M, d: &DefMap) -> M {
    let f = |m: &M| resolve(lib, m, d);
    match m {
        M::Prim(_) | M::Uni | M::Enum(_) => m.clone(),
        M::Union(v) => M::Union(v.iter().map(|(n, t, m)| (n.clone(), *t, f(m))).collect()),
        M::Tuple(v) => M::Tuple(v.iter().map(f).collect()),
        M::Struct(v) => M::Struct(v.iter().map(|(n, m)| (n.clone(), f(m))).collect()),
        M::Array(m, n) => array(f(m), *n),
        M::List(m, a, b) => list(f(m), *a, *b),
        M::Set(m, a, b) => set(f(m), *a, *b),
        M::Map(k, m, a, b) => map(f(k), f(m), *a, *b),
        M::Named(n, _) => {
            let (l, t) = n.split_once('.').unwrap_or((lib, n));
            named(n, resolve(l, &d.0[&(st(l), st(t))], d))
        }
    }
}

pub struct Catalogue {
    pub items: Vec<Item>,
    pub world: World,
    pub defs: DefMap,
    pub libs: BTreeMap<String, TypeLib>,
}

pub fn catalogue() -> Catalogue {
    let mut items = std_items();
    items.extend(named_items());
    items.extend(wrapped_items());
    let mut defs = DefMap::default();
    // types which the library format can't hold
    items.retain(|i| {
        let mut d = DefMap::default();
        (i.define)(&mut d);
        d.0.values().all(|m| inline_depth(m) <= 3)
    });
    for i in &items {
        (i.define)(&mut defs);
    }
    let world = World::new(&LIBS.iter().map(|l| lib_def(l, &defs)).collect::<Vec<_>>());
    let mut libs = BTreeMap::<String, TypeLib>::new();
    for l in LIBS {
        let deps: Vec<&TypeLib> = libs.values().collect();
        let mut b = builder(l, &deps);
        for i in items.iter().filter(|i| i.lib == l) {
            b = (i.transpile)(b);
        }
        let lib = b.compile().unwrap_or_else(|e| panic!("full library {l} doesn't compile: {e}"));
        libs.insert(st(l), lib);
    }
    Catalogue { items, world, defs, libs }
}

/// The compiled library against the reference: definitions, dependencies, id, external types
fn check_lib(ctx: &mut Ctx, got: &TypeLib, world: &World, def: &LibDef, defs: &DefMap, case: &str) {
    let key = |k: &str| format!("{k} {case}");
    let expected = world.type_lib(def);
    if got.name != expected.name {
        ctx.fail(key("name"), format!("library is called {}", got.name), case);
    }
    let g: BTreeSet<_> = got.types.keys().map(|k| k.to_string()).collect();
    let e: BTreeSet<_> = expected.types.keys().map(|k| k.to_string()).collect();
    if g != e {
        let lost: Vec<_> = e.difference(&g).collect();
        let extra: Vec<_> = g.difference(&e).collect();
        ctx.fail(key("types"), format!("types which are missing: {lost:?}, which shouldn't be there: {extra:?}"), case);
        return;
    }
    for (n, ty) in got.types.iter() {
        let ex = expected.types.get(n).unwrap();
        if bytes(ty) != bytes(ex) {
            ctx.fail(key(&format!("definition {n}")), format!("{n} is defined as `{ty}` instead of `{ex}`"), case);
        }
    }
    if bytes(&got.dependencies) != bytes(&expected.dependencies) {
        ctx.fail(
            key("dependencies"),
            format!("dependencies are {:?} instead of {:?}", got.dependencies, expected.dependencies),
            case,
        );
    }
    let id = world.lib_ids[&def.name];
    match guard(|| got.id()) {
        Ok(i) if i == lid(id) => {}
        Ok(i) => ctx.fail(key("id"), format!("library id is {i} instead of {}", lid(id)), case),
        Err(p) => ctx.fail(key("id-panic"), p, case),
    }
    // external types: at least the ones which are mentioned, at most the ones which were met
    let have: BTreeMap<(String, String), SemId> = got
        .extern_types
        .iter()
        .flat_map(|(l, t)| t.iter().map(move |(id, n)| ((l.to_string(), n.to_string()), *id)))
        .collect();
    let reached = reached(&def.name, defs);
    let mut direct = BTreeSet::new();
    def.types.iter().for_each(|t| refs(&t.1, &mut direct));
    for n in direct.iter().filter_map(|n| n.split_once('.')) {
        if !have.contains_key(&(st(n.0), st(n.1))) {
            ctx.fail(key("extern-lost"), format!("external type {}.{} isn't recorded", n.0, n.1), case);
        }
    }
    for ((l, n), id) in &have {
        if !reached.contains(&(l.clone(), n.clone())) || *id != sid(world.id(l, n)) {
            ctx.fail(key("extern-wrong"), format!("external type {l}.{n} with id {id} is wrong"), case);
        }
    }
}

/// Values of the type through the system against the bytes of the Rust type
fn check_values(
    ctx: &mut Ctx,
    sys: &strict_types::SymbolicSys,
    id: SemId,
    m: &M,
    vals: &[(Vec<u8>, V)],
    what: &str,
) {
    let types = sys.as_types();
    let mut seen = BTreeMap::<String, usize>::new();
    for (i, (data, v)) in vals.iter().enumerate() {
        let case = || format!("{what} value {} = {}", short(&format!("{v:?}"), 300), hex(data));
        ctx.case(case);
        ctx.trace();
        ctx.transitions(2);
        let key = |k: &str| format!("{k} {what} {}", hex(data));
        let mut expected = vec![];
        encode(m, v, &mut expected);
        if expected != *data {
            // The definition alone doesn't tell the layout: a tuple of a character and a list of characters stands
            // for a restricted string and for a plain tuple, and these are laid out differently
            assert!(has_text_pair(m), "harness: {what}: {v:?} encodes to {} and not {}", hex(data), hex(&expected));
            let ok = matches!(guard(|| types.strict_deserialize_type(id, data).ok()
                .and_then(|t| types.strict_serialize_value::<{ usize::MAX }>(&t).ok())), Ok(Some(b)) if b.as_slice() == data.as_slice());
            ctx.count("ambiguous_layout", 1);
            if !ok {
                let name = what.split(' ').next().unwrap();
                ctx.fail(format!("layout {name}"), "data of the Rust type doesn't pass through the schema", case());
            }
            continue;
        }
        match guard(|| types.strict_deserialize_type(id, data)) {
            Err(p) => ctx.fail(key("panic"), format!("decoding panicked: {p}"), case()),
            Ok(Err(e)) => {
                if m.decodable() {
                    ctx.fail(key("refused"), format!("data of the Rust type is refused: {e}"), case());
                } else {
                    ctx.count("unsupported_types_reported", 1);
                }
            }
            Ok(Ok(t)) => {
                ctx.state();
                if !means(m, t.as_val(), v) {
                    ctx.fail(key("value"), format!("decoded to {}", sv_show(t.as_val())), case());
                }
                if let Some(j) = seen.insert(format!("{:?}", t.as_val()), i) {
                    if vals[j].0 != *data {
                        ctx.fail(key("same"), format!("same schema value as of {}", hex(&vals[j].0)), case());
                    }
                }
                match guard(|| types.strict_serialize_value::<{ usize::MAX }>(&t)) {
                    Ok(Ok(b)) if b.as_slice() == data.as_slice() => {}
                    Ok(Ok(b)) => ctx.fail(key("reencode"), format!("encodes to {}", hex(&b)), case()),
                    Ok(Err(e)) => ctx.fail(key("reencode-error"), format!("doesn't encode: {e}"), case()),
                    Err(p) => ctx.fail(key("reencode-panic"), p, case()),
                }
            }
        }
    }
}

/// Is there a tuple of an enum and a list of an enum?
fn has_text_pair(m: &M) -> bool {
    match m.strip() {
        M::Tuple(f) => {
            f.len() == 2
                && matches!(f[0].strip(), M::Enum(_))
                && matches!(f[1].strip(), M::List(x, ..) if matches!(x.strip(), M::Enum(_)))
                || f.iter().any(has_text_pair)
        }
        M::Struct(f) => f.iter().any(|x| has_text_pair(&x.1)),
        M::Union(v) => v.iter().any(|x| has_text_pair(&x.2)),
        M::Array(m, _) | M::List(m, ..) | M::Set(m, ..) => has_text_pair(m),
        M::Map(k, m, ..) => has_text_pair(k) || has_text_pair(m),
        _ => false,
    }
}

pub fn c01(ctx: &mut Ctx) {
    CAP.store(ctx.by_tier(100, 2000), Relaxed);
    let cat = catalogue();
    let full = {
        let mut b = SystemBuilder::new();
        for l in cat.libs.values() {
            b = b.import(l.clone()).expect("import");
        }
        match b.finalize() {
            Ok(s) => s,
            Err(e) => {
                ctx.case(|| s!("link the full libraries"));
                ctx.fail("link", format!("reflected libraries don't link: {e:?}"), "link the full libraries");
                return;
            }
        }
    };
    for it in &cat.items {
        if !ctx.mine() {
            continue;
        }
        ctx.count("types", 1);
        let name = format!("{}.{}", it.lib, it.name);
        let m = resolve(&it.lib, &cat.defs.0[&(it.lib.clone(), it.name.clone())], &cat.defs);
        let vals = (it.vals)();
        let id = sid(cat.world.id(&it.lib, &it.name));
        let what = format!("{name} (all libraries)");
        ctx.case(|| what.clone());
        match full.resolve(strict_types::typesys::TypeFqn::with(lname(&it.lib), tname(&it.name))) {
            Some(i) if *i == id => {}
            i => ctx.fail(format!("resolve {name}"), format!("{name} resolves to {i:?} instead of {id}"), what.clone()),
        }
        check_values(ctx, &full, id, &m, &vals, &what);
        // the type alone
        let deps: Vec<&TypeLib> = cat.libs.iter().filter(|(n, _)| **n != it.lib).map(|x| x.1).collect();
        let what = format!("{name} (reflected alone)");
        ctx.case(|| what.clone());
        let lib = match guard(|| (it.transpile)(builder(&it.lib, &deps)).compile()) {
            Ok(Ok(l)) => l,
            e => {
                ctx.fail(format!("alone {name}"), format!("{e:?}"), what);
                continue;
            }
        };
        let mut b = SystemBuilder::new().import(lib.clone()).expect("import");
        let mut todo: Vec<String> = lib.dependencies.iter().map(|d| d.name.to_string()).collect();
        let mut done = BTreeSet::new();
        while let Some(n) = todo.pop() {
            if done.insert(n.clone()) {
                todo.extend(cat.libs[&n].dependencies.iter().map(|d| d.name.to_string()));
                b = b.import(cat.libs[&n].clone()).expect("import");
            }
        }
        match b.finalize() {
            Ok(sys) => check_values(ctx, &sys, id, &m, &vals, &what),
            Err(e) => ctx.fail(format!("alone-link {name}"), format!("{e:?}"), what),
        }
    }
}

/// All sequences over the pool up to the length
fn sequences(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut res: Vec<Vec<usize>> = vec![];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..len {
        last = last
            .iter()
            .flat_map(|p| {
                (0..n).map(move |i| {
                    let mut p = p.clone();
                    p.push(i);
                    p
                })
            })
            .collect();
        res.extend(last.iter().cloned());
    }
    res
}

/// Rust types which have the same names and different definitions: no library can have both
mod clash {
    macro_rules! types {
        ($m:ident $item:ty) => {
            pub mod $m {
                use super::super::*;
                #[derive(Clone, Eq, PartialEq, Default, Debug, StrictType, StrictEncode, StrictDecode)]
                #[strict_type(lib = "LibClash")]
                pub struct Rec(pub $item);
                #[derive(Clone, Eq, PartialEq, Debug, StrictDumb, StrictType, StrictEncode, StrictDecode)]
                #[strict_type(lib = "LibClash", tags = order, dumb = { Kind::First(0) })]
                pub enum Kind {
                    First(u8),
                    Second($item),
                }
            }
        };
    }
    types!(a u8);
    types!(b u16);
    use super::*;
    macro_rules! users {
        ($($name:ident { $($f:ident : $t:ty),+ })+) => {$(
            #[derive(Clone, Eq, PartialEq, Debug, StrictDumb, StrictType, StrictEncode, StrictDecode)]
            #[strict_type(lib = "LibClash")]
            pub struct $name { $(pub $f: $t),+ }
        )+};
    }
    users! {
        FieldA { x: a::Rec }
        FieldB { y: b::Rec, z: u8 }
        ListA { x: Confined<Vec<a::Rec>, 0, 5> }
        ListB { y: Confined<Vec<b::Rec>, 0, 5> }
        OptB { y: Option<b::Rec> }
        BoxB { y: Box<b::Rec> }
        UnionA { x: a::Kind }
        UnionB { y: b::Kind, x: u16 }
        Both { x: a::Rec, y: b::Rec }
    }
    pub type Add = fn(LibBuilder) -> LibBuilder;
    /// Name, what of `a` and of `b` it brings in, how to add it
    pub fn pool() -> Vec<(&'static str, &'static [&'static str], Add)> {
        vec![
            ("a::Rec", &["a::Rec"], |l| l.transpile::<a::Rec>()),
            ("b::Rec", &["b::Rec"], |l| l.transpile::<b::Rec>()),
            ("FieldA", &["a::Rec"], |l| l.transpile::<FieldA>()),
            ("FieldB", &["b::Rec"], |l| l.transpile::<FieldB>()),
            ("ListA", &["a::Rec"], |l| l.transpile::<ListA>()),
            ("ListB", &["b::Rec"], |l| l.transpile::<ListB>()),
            ("OptB", &["b::Rec"], |l| l.transpile::<OptB>()),
            ("BoxB", &["b::Rec"], |l| l.transpile::<BoxB>()),
            ("a::Kind", &["a::Kind"], |l| l.transpile::<a::Kind>()),
            ("b::Kind", &["b::Kind"], |l| l.transpile::<b::Kind>()),
            ("UnionA", &["a::Kind"], |l| l.transpile::<UnionA>()),
            ("UnionB", &["b::Kind"], |l| l.transpile::<UnionB>()),
            ("Both", &["a::Rec", "b::Rec"], |l| l.transpile::<Both>()),
        ]
    }
}

fn clashes(ctx: &mut Ctx, len: usize) {
    let pool = clash::pool();
    for seq in sequences(pool.len(), len) {
        if seq.is_empty() || !ctx.mine() {
            continue;
        }
        let names: Vec<&str> = seq.iter().map(|i| pool[*i].0).collect();
        let brings: BTreeSet<&str> = seq.iter().flat_map(|i| pool[*i].1.iter().copied()).collect();
        let bad = ["Rec", "Kind"].iter().any(|n| ["a", "b"].iter().all(|m| brings.contains(format!("{m}::{n}").as_str())));
        let case = format!("LibClash: transpile {}", names.join(", "));
        ctx.case(|| case.clone());
        ctx.state();
        ctx.trace();
        ctx.transitions(seq.len() as u64);
        match guard(|| seq.iter().fold(builder("LibClash", &[]), |l, i| (pool[*i].2)(l)).compile()) {
            Ok(Ok(l)) if bad => {
                ctx.fail(format!("clash {case}"), format!("a library without one of two types with the same name: {l}"), case)
            }
            Ok(Ok(_)) => ctx.count("no_clash", 1),
            Ok(Err(_)) | Err(_) if bad => ctx.count("clash_refused", 1),
            e => ctx.fail(format!("no-clash {case}"), format!("{e:?}"), case),
        }
    }
}

/// Pairs of Rust types with the same name whose definitions differ in a single detail
mod twins {
    use super::*;
    pub type Add = super::clash::Add;
    pub type Twin = (&'static str, [Vec<Add>; 2]);
    macro_rules! twins {
        ($($m:ident: { $($a:tt)* } { $($b:tt)* })+) => {
            $(pub mod $m {
                twins!(@one a { $($a)* });
                twins!(@one b { $($b)* });
            })+
            pub fn pool() -> Vec<Twin> { vec![$((stringify!($m), [$m::a::adds(), $m::b::adds()])),+] }
        };
        (@one $m:ident { $($item:tt)* }) => {
            pub mod $m {
                use super::super::super::*;
                #[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, StrictDumb, StrictType, StrictEncode, StrictDecode)]
                #[strict_type(lib = "LibTwin")]
                $($item)*
                #[derive(Clone, Eq, PartialEq, Debug, StrictDumb, StrictType, StrictEncode, StrictDecode)]
                #[strict_type(lib = "LibTwin")]
                pub struct UserField { pub twin: Twin }
                #[derive(Clone, Eq, PartialEq, Debug, StrictDumb, StrictType, StrictEncode, StrictDecode)]
                #[strict_type(lib = "LibTwin")]
                pub struct UserOpt(Option<Twin>, Confined<Vec<Twin>, 0, 5>);
                pub fn adds() -> Vec<super::super::Add> {
                    vec![
                        |l| l.transpile::<Twin>(),
                        |l| l.transpile::<UserField>(),
                        |l| l.transpile::<Confined<Vec<Twin>, 0, 0xFF>>(),
                        |l| l.transpile::<Option<Twin>>(),
                        |l| l.transpile::<UserOpt>(),
                    ]
                }
            }
        };
    }
    twins! {
        enum_tag:
            { #[strict_type(tags = repr, into_u8, try_from_u8)] #[derive(Copy)] #[repr(u8)] pub enum Twin { #[strict_type(dumb)] Slow = 0, Fast = 1 } }
            { #[strict_type(tags = repr, into_u8, try_from_u8)] #[derive(Copy)] #[repr(u8)] pub enum Twin { #[strict_type(dumb)] Slow = 0, Fast = 2 } }
        enum_name:
            { #[strict_type(tags = repr, into_u8, try_from_u8)] #[derive(Copy)] #[repr(u8)] pub enum Twin { #[strict_type(dumb)] Slow = 0, Fast = 1 } }
            { #[strict_type(tags = repr, into_u8, try_from_u8)] #[derive(Copy)] #[repr(u8)] pub enum Twin { #[strict_type(dumb)] Slow = 0, Quick = 1 } }
        enum_swap:
            { #[strict_type(tags = repr, into_u8, try_from_u8)] #[derive(Copy)] #[repr(u8)] pub enum Twin { #[strict_type(dumb)] Slow = 0, Fast = 1 } }
            { #[strict_type(tags = repr, into_u8, try_from_u8)] #[derive(Copy)] #[repr(u8)] pub enum Twin { #[strict_type(dumb)] Slow = 1, Fast = 0 } }
        enum_more:
            { #[strict_type(tags = repr, into_u8, try_from_u8)] #[derive(Copy)] #[repr(u8)] pub enum Twin { #[strict_type(dumb)] Slow = 0, Fast = 1 } }
            { #[strict_type(tags = repr, into_u8, try_from_u8)] #[derive(Copy)] #[repr(u8)] pub enum Twin { #[strict_type(dumb)] Slow = 0, Fast = 1, Last = 2 } }
        union_tag:
            { #[strict_type(tags = custom, dumb = { Twin::One(0) })] pub enum Twin { #[strict_type(tag = 0)] One(u8), #[strict_type(tag = 1)] Two(u8) } }
            { #[strict_type(tags = custom, dumb = { Twin::One(0) })] pub enum Twin { #[strict_type(tag = 0)] One(u8), #[strict_type(tag = 200)] Two(u8) } }
        union_name:
            { #[strict_type(tags = order, dumb = { Twin::One(0) })] pub enum Twin { One(u8), Two(u8) } }
            { #[strict_type(tags = order, dumb = { Twin::One(0) })] pub enum Twin { One(u8), Three(u8) } }
        union_type:
            { #[strict_type(tags = order, dumb = { Twin::One(0) })] pub enum Twin { One(u8), Two(u8) } }
            { #[strict_type(tags = order, dumb = { Twin::One(0) })] pub enum Twin { One(u8), Two(i8) } }
        union_unit:
            { #[strict_type(tags = order, dumb = { Twin::One(0) })] pub enum Twin { One(u8), Two } }
            { #[strict_type(tags = order, dumb = { Twin::One(0) })] pub enum Twin { One(u8), Two(u8) } }
        field_name:
            { pub struct Twin { pub one: u8, pub two: u8 } }
            { pub struct Twin { pub one: u8, pub three: u8 } }
        field_order:
            { pub struct Twin { pub one: u8, pub two: u8 } }
            { pub struct Twin { pub two: u8, pub one: u8 } }
        field_more:
            { pub struct Twin { pub one: u8, pub two: u8 } }
            { pub struct Twin { pub one: u8, pub two: u8, pub three: u8 } }
        named_unnamed:
            { pub struct Twin { pub one: u8, pub two: u8 } }
            { pub struct Twin(pub u8, pub u8); }
        array_len:
            { pub struct Twin(pub [u8; 4]); }
            { pub struct Twin(pub [u8; 5]); }
        list_max:
            { pub struct Twin(pub Confined<Vec<u8>, 0, 0xFF>); }
            { pub struct Twin(pub Confined<Vec<u8>, 0, 0xFFFF>); }
        list_min:
            { #[strict_type(dumb = { Twin(Confined::from_checked(vec![0, 0])) })] pub struct Twin(pub Confined<Vec<u8>, 2, 0xFF>); }
            { #[strict_type(dumb = { Twin(Confined::from_checked(vec![0, 0])) })] pub struct Twin(pub Confined<Vec<u8>, 1, 0xFF>); }
        list_set:
            { pub struct Twin(pub Confined<Vec<u8>, 0, 0xFF>); }
            { pub struct Twin(pub Confined<BTreeSet<u8>, 0, 0xFF>); }
        map_key:
            { pub struct Twin(pub Confined<BTreeMap<u8, u16>, 0, 0xFF>); }
            { pub struct Twin(pub Confined<BTreeMap<u16, u8>, 0, 0xFF>); }
        option:
            { pub struct Twin(pub u8); }
            { pub struct Twin(pub Option<u8>); }
        string:
            { pub struct Twin(pub Confined<String, 0, 0xFF>); }
            { pub struct Twin(pub Confined<Vec<u8>, 0, 0xFF>); }
        inner_end:
            { pub struct Twin(pub (u8, u8), pub u16); }
            { pub struct Twin(pub (u8, u8, u16)); }
        inner_start:
            { pub struct Twin(pub u8, pub (u8, u16)); }
            { pub struct Twin(pub (u8, u8), pub u16); }
        inner_none:
            { pub struct Twin(pub (u8, u8), pub u16); }
            { pub struct Twin(pub u8, pub u8, pub u16); }
        inner_array:
            { pub struct Twin(pub [(u8, u8); 3]); }
            { pub struct Twin(pub [[u8; 2]; 3]); }
        arrays_swap:
            { pub struct Twin(pub [[u8; 2]; 3]); }
            { pub struct Twin(pub [[u8; 3]; 2]); }
        map_inner:
            { pub struct Twin(pub Confined<BTreeMap<(u8, u8), u16>, 0, 0xFF>); }
            { pub struct Twin(pub Confined<BTreeMap<u8, (u8, u16)>, 0, 0xFF>); }
        option_place:
            { pub struct Twin(pub Option<u8>, pub u8); }
            { pub struct Twin(pub u8, pub Option<u8>); }
        same:
            { pub struct Twin { pub one: u8, pub two: u8 } }
            { pub struct Twin { pub one: u8, pub two: u8 } }
    }
}

fn twins_clash(ctx: &mut Ctx) {
    for (name, adds) in twins::pool() {
        let n = adds[0].len();
        // the same pieces from one of the types, from both, in both orders, with a third piece
        for code in 0..(2 * n).pow(3) {
            if !ctx.mine() {
                continue;
            }
            let seq: Vec<(usize, usize)> = [code % (2 * n), code / (2 * n) % (2 * n), code / (2 * n).pow(2)].iter().map(|c| (c / n, c % n)).collect();
            let bad = name != "same" && seq.iter().any(|s| s.0 == 0) && seq.iter().any(|s| s.0 == 1);
            let case = format!("LibTwin: {name} {seq:?}");
            ctx.case(|| case.clone());
            ctx.state();
            ctx.trace();
            ctx.transitions(3);
            match guard(|| seq.iter().fold(builder("LibTwin", &[]), |l, (i, j)| (adds[*i][*j])(l)).compile()) {
                Ok(Ok(l)) if bad => {
                    ctx.fail(format!("twins {case}"), format!("a library without one of two different types with the same name: {l}"), case)
                }
                Ok(Ok(_)) => ctx.count("no_clash", 1),
                Ok(Err(_)) | Err(_) if bad => ctx.count("clash_refused", 1),
                e => ctx.fail(format!("no-clash {case}"), format!("{e:?}"), case),
            }
        }
    }
}

pub fn c07(ctx: &mut Ctx) {
    let cat = catalogue();
    let by_name = |lib: &str, name: &str| cat.items.iter().find(|i| i.lib == lib && i.name == name).unwrap();
    // 1. the full libraries
    if ctx.first() {
        for l in LIBS {
            let case = format!("all types of {l}");
            ctx.case(|| case.clone());
            ctx.state();
            let def = cat.world.libs.iter().find(|x| x.name == l).unwrap().clone();
            let mut d = DefMap::default();
            cat.items.iter().filter(|i| i.lib == l).for_each(|i| (i.define)(&mut d));
            check_lib(ctx, &cat.libs[l], &cat.world, &def, &d, &case);
        }
    }
    clashes(ctx, ctx.by_tier(3, 4));
    twins_clash(ctx);
    // 2. every type alone, added once, twice and three times
    for it in &cat.items {
        if ctx.mine() {
            for times in 1..=3 {
                one(ctx, &cat, &it.lib, &vec![it; times], None);
            }
        }
    }
    // 3. all sequences of types, and all orders of the dependencies
    let pools: Vec<(&str, Vec<&str>)> = vec![
        ("LibA", vec!["Color", "Rec", "Message", "Everything", "Wrap27"]),
        ("LibA", vec!["Id", "Custom", "Wrap91", "Wrap74", "Wide"]),
        ("LibB", vec!["Entry", "Choice", "Pair", "Plain", "Wrap13"]),
        ("LibB", vec!["Wrap0", "Wrap6", "Wrap15", "Wrap17", "Choice"]),
        ("LibC", vec!["Table", "Small"]),
        ("Std", vec!["Bool", "U3", "AlphaCaps", "Ascii"]),
    ];
    let len = ctx.by_tier(4, 6);
    for (lib, pool) in &pools {
        let pool: Vec<&Item> = pool.iter().map(|n| by_name(lib, n)).collect();
        for seq in sequences(pool.len(), len) {
            if ctx.mine() {
                one(ctx, &cat, lib, &seq.iter().map(|i| pool[*i]).collect::<Vec<_>>(), None);
            }
        }
        let others: Vec<&str> = LIBS.into_iter().filter(|l| l != lib).collect();
        for deps in permutations(&others) {
            for mask in 1..1usize << pool.len() {
                if ctx.mine() {
                    let seq: Vec<&Item> = (0..pool.len()).filter(|i| mask >> i & 1 == 1).map(|i| pool[i]).collect();
                    one(ctx, &cat, lib, &seq, Some(&deps));
                    // a dependency may be given twice
                    let mut twice = deps.clone();
                    twice.push(deps[0]);
                    one(ctx, &cat, lib, &seq, Some(&twice));
                }
            }
        }
    }
}

/// One build of a library from a sequence of types
fn one(ctx: &mut Ctx, cat: &Catalogue, lib: &str, seq: &[&Item], deps: Option<&[&str]>) {
    let names: Vec<&str> = seq.iter().map(|i| i.name.as_str()).collect();
    let case = format!(
        "{lib}: transpile {}{}",
        names.join(", "),
        deps.map(|d| format!(" with dependencies {}", d.join(", "))).unwrap_or_default()
    );
    ctx.case(|| case.clone());
    ctx.trace();
    ctx.transitions(seq.len() as u64);
    let mut defs = DefMap::default();
    seq.iter().for_each(|i| (i.define)(&mut defs));
    let def = lib_def(lib, &defs);
    // the dependencies are complete libraries
    let mut libs: Vec<LibDef> = cat.world.libs.iter().filter(|l| l.name != lib).cloned().collect();
    libs.retain(|l| !l.deps.contains(&st(lib)));
    libs.push(def.clone());
    let mut world = cat.world.clone();
    world.libs = libs;
    // only the id of this library is different
    let w2 = World::new(&world.libs);
    let others: Vec<&TypeLib> = match deps {
        Some(d) => d.iter().map(|n| &cat.libs[*n]).collect(),
        None => cat.libs.values().filter(|l| l.name.as_str() != lib).collect(),
    };
    let build = || seq.iter().fold(builder(lib, &others), |b, i| (i.transpile)(b));
    let compiled = match guard(|| build().compile()) {
        Ok(Ok(l)) => l,
        e => {
            ctx.fail(format!("compile {case}"), format!("{e:?}"), case.clone());
            return;
        }
    };
    ctx.state();
    check_lib(ctx, &compiled, &w2, &def, &defs, &case);
    match guard(|| build().compile_symbols()) {
        Ok(Ok(sym)) => {
            // the same set of types gives the same bytes: compare with the canonical order
            let mut canon: Vec<&Item> = seq.to_vec();
            canon.sort_by(|a, b| a.name.cmp(&b.name));
            canon.dedup_by(|a, b| a.name == b.name);
            let dd: Vec<&TypeLib> = cat.libs.values().filter(|l| l.name.as_str() != lib).collect();
            let other =
                guard(|| canon.iter().fold(builder(lib, &dd), |b, i| (i.transpile)(b)).compile_symbols());
            match other {
                Ok(Ok(o)) => {
                    if bytes(&o) != bytes(&sym) {
                        ctx.fail(format!("symbolic {case}"), "symbolic library depends on the order", case.clone());
                    }
                    match guard(|| o.compile()) {
                        Ok(Ok(c)) if bytes(&c) == bytes(&compiled) => {}
                        Ok(Ok(_)) => ctx.fail(format!("bytes {case}"), "compiled library depends on the order", case),
                        e => ctx.fail(format!("compile-symbols {case}"), format!("{e:?}"), case),
                    }
                }
                e => ctx.fail(format!("canonical {case}"), format!("{e:?}"), case),
            }
        }
        e => ctx.fail(format!("symbolic-error {case}"), format!("{e:?}"), case),
    }
}

// ------------------------------------------------------------------------------------------------------------ C33

/// Builds a library of one type against dependencies of which each declares the given types
fn build_with(it: &Item, deps: Vec<(Dependency, HashSet<SemId>)>) -> Result<Result<SymbolicLib, TranspileError>, String> {
    let name = strict_types::LibName::try_from(it.lib.clone()).unwrap();
    guard(|| (it.transpile)(LibBuilder::with(name, deps)).compile_symbols())
}

/// Libraries built against complete, incomplete, outdated and excessive dependencies
/// Library names which are easily confused with the given one
fn like(l: &str) -> Vec<String> {
    let mut v = vec![l.to_uppercase(), format!("{}{}", &l[..1], l[1..].to_uppercase()), format!("{}{}", &l[..1], l[1..].to_lowercase())];
    v.extend([format!("{l}A"), format!("{l}0"), format!("{l}_")]);
    if l.len() > 1 {
        v.push(l[..l.len() - 1].to_string());
    }
    v.retain(|x| x != l);
    v.dedup();
    v
}

pub fn c33(ctx: &mut Ctx) {
    let cat = catalogue();
    let junk = |n: usize| -> HashSet<SemId> { (0..n as u32).map(|i| sid(tagged(b"junk", &i.to_le_bytes()))).collect() };
    let crowds = ctx.by_tier(vec![0, 1, 31, 100, 255, 256, 3000], vec![0, 1, 2, 7, 8, 31, 32, 64, 99, 100, 101, 255, 256, 1000, 3000, 70000]);
    let crowds: Vec<(usize, HashSet<SemId>)> = crowds.into_iter().map(|n| (n, junk(n))).collect();
    for it in &cat.items {
        if !ctx.mine() {
            continue;
        }
        let mut defs = DefMap::default();
        (it.define)(&mut defs);
        let def = lib_def(&it.lib, &defs);
        let mut all: Vec<LibDef> = cat.world.libs.iter().filter(|l| l.name != it.lib).cloned().collect();
        all.retain(|l| !l.deps.contains(&it.lib));
        all.push(def.clone());
        let world = World::new(&all);
        let mut direct = BTreeSet::new();
        def.types.iter().for_each(|t| refs(&t.1, &mut direct));
        let direct: BTreeSet<(String, String)> =
            direct.iter().filter_map(|n| n.split_once('.')).map(|(l, t)| (st(l), st(t))).collect();
        let reached = reached(&it.lib, &defs);
        let id_of = |x: &(String, String)| sid(cat.world.id(&x.0, &x.1));
        let libs: BTreeSet<String> = reached.iter().map(|x| x.0.clone()).collect();
        let uses: BTreeSet<String> = direct.iter().map(|x| x.0.clone()).collect();
        let what = format!("{}.{}", it.lib, it.name);
        // dependencies with the types which are met and some other ones, without some types
        let deps = |without: &BTreeSet<&(String, String)>, more: &HashSet<SemId>| -> Vec<(Dependency, HashSet<SemId>)> {
            libs.iter()
                .map(|l| {
                    let mut s: HashSet<SemId> =
                        reached.iter().filter(|x| x.0 == *l && !without.contains(x)).map(id_of).collect();
                    s.extend(more.iter().copied());
                    (cat.world.dep(l), s)
                })
                .collect()
        };
        let mut run = |ctx: &mut Ctx, how: String, given: Vec<(Dependency, HashSet<SemId>)>, without: &BTreeSet<&(String, String)>| {
            let case = format!("{what}, {how}");
            ctx.case(|| case.clone());
            ctx.state();
            ctx.trace();
            ctx.transition();
            let must_fail = without.iter().any(|x| direct.contains(x));
            match build_with(it, given) {
                Err(p) => ctx.fail(format!("panic {case}"), p, &case),
                Ok(Ok(_)) if must_fail => {
                    let d = format!("a dependency without {without:?}, which is used, is accepted");
                    ctx.fail(format!("accepted {case}"), d, &case)
                }
                Ok(Ok(sym)) => {
                    ctx.count("builds", 1);
                    let have: BTreeSet<String> = sym.dependencies().iter().map(|d| d.name.to_string()).collect();
                    let wrong: Vec<_> = sym.dependencies().iter().filter(|d| d.id != lid(cat.world.lib_ids[d.name.as_str()])).collect();
                    if !uses.is_subset(&have) || !have.is_subset(&libs) || !wrong.is_empty() {
                        ctx.fail(format!("dependencies {case}"), format!("{:?}", sym.dependencies()), &case);
                    }
                    match guard(|| sym.compile()) {
                        Ok(Ok(l)) => check_lib(ctx, &l, &world, &def, &defs, &case),
                        e => ctx.fail(format!("compile {case}"), format!("{e:?}"), &case),
                    }
                }
                Ok(Err(TranspileError::DependencyMissesType(l, id, n))) => {
                    let x = (l.to_string(), n.to_string());
                    if without.contains(&x) && id_of(&x) == id {
                        ctx.count("incomplete_refused", 1);
                    } else {
                        ctx.fail(format!("refused {case}"), format!("{l}.{n} {id} is said to be missing"), &case);
                    }
                }
                Ok(Err(e)) => ctx.fail(format!("refused {case}"), e.to_string(), &case),
            }
        };
        let none = BTreeSet::new();
        for (n, junk) in &crowds {
            run(ctx, format!("complete dependencies with {n} more types"), deps(&none, junk), &none);
            for x in &reached {
                let without = [x].into();
                run(ctx, format!("{}.{} is missing among {n} more types", x.0, x.1), deps(&without, junk), &without);
            }
            for l in &libs {
                let without = reached.iter().filter(|x| x.0 == *l).collect();
                run(ctx, format!("{l} has only {n} other types"), deps(&without, junk), &without);
            }
        }
        if reached.len() <= 8 {
            let all: Vec<_> = reached.iter().collect();
            for mask in 1..1usize << all.len() {
                let without = (0..all.len()).filter(|i| mask >> i & 1 == 1).map(|i| all[i]).collect();
                run(ctx, format!("without {without:?}"), deps(&without, &crowds[1].1), &without);
            }
        }
        // types declared by another of the dependencies
        if libs.len() > 1 {
            for x in &reached {
                let without = [x].into();
                let mut given = deps(&without, &crowds[0].1);
                given.iter_mut().filter(|d| d.0.name.as_str() != x.0).for_each(|d| {
                    d.1.insert(id_of(x));
                });
                run(ctx, format!("{}.{} is provided by other dependencies", x.0, x.1), given, &without);
            }
        }
        // dependencies which aren't used
        for n in ctx.by_tier(vec![1, 3, 300], vec![1, 2, 3, 10, 254, 255, 256, 300, 1000]) {
            let extra: Vec<_> = (0..n as u32)
                .map(|i| (Dependency::with(lid(tagged(b"extra", &i.to_le_bytes())), lname(&format!("Extra{i}"))), crowds[2].1.clone()))
                .collect();
            let mut given = deps(&none, &crowds[0].1);
            given.extend(extra.iter().cloned());
            run(ctx, format!("{n} unused dependencies"), given, &none);
            let mut given = extra;
            given.extend(deps(&none, &crowds[0].1));
            run(ctx, format!("{n} unused dependencies before"), given, &none);
        }
        // dependencies with names similar to the used ones
        for l in &libs {
            for name in like(l) {
                for (k, other) in [crowds[1].1.clone(), reached.iter().map(id_of).collect(), HashSet::new()].iter().enumerate() {
                    for b in [0u8, 0xFF] {
                        let extra = (Dependency::with(lid([b; 32]), lname(&name)), other.clone());
                        let mut given = deps(&none, &crowds[0].1);
                        given.push(extra.clone());
                        run(ctx, format!("{name} beside of {l}, case {k} {b}"), given, &none);
                        let without = reached.iter().filter(|x| x.0 == *l).collect();
                        let mut given = deps(&without, &crowds[0].1);
                        given.push(extra);
                        run(ctx, format!("{name} instead of {l}, case {k} {b}"), given, &without);
                    }
                }
            }
        }
        // two versions of one dependency: whatever is chosen, it is the same for all orders and runs
        for l in &libs {
            for other in [crowds[1].1.clone(), reached.iter().map(id_of).collect(), HashSet::new()] {
                for b in [0u8, 0xFF] {
                    let old = (Dependency::with(lid([b; 32]), lname(l)), other.clone());
                    let case = format!("{what}, two versions of {l}, of which one has {} types", old.1.len());
                    ctx.case(|| case.clone());
                    ctx.state();
                    let mut results = BTreeSet::new();
                    for turn in 0..6 {
                        let mut given = deps(&none, &crowds[0].1);
                        if turn % 2 == 0 {
                            given.push(old.clone());
                        } else {
                            given.insert(0, old.clone());
                        }
                        ctx.transition();
                        results.insert(format!("{:?}", build_with(it, given)));
                    }
                    if results.len() > 1 {
                        let r: Vec<_> = results.iter().map(|x| short(x, 150)).collect();
                        ctx.fail(format!("versions {case}"), format!("different results: {}", r.join(" and ")), &case);
                    }
                }
            }
        }
    }
}
