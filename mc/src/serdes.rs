//! C24: typed values through the text formats of serde

use strict_types::typesys::TypeSystem;
use strict_types::value::{EnumTag, StrictNum};
use strict_types::{SemId, StrictVal, VariantName};

use crate::core::*;
use crate::model::*;
use crate::sysb::*;
use crate::universe::*;

const FORMATS: [&str; 2] = ["json", "yaml"];

fn write(format: &str, v: &StrictVal) -> Result<String, String> {
    match format {
        "json" => serde_json::to_string(v).map_err(|e| e.to_string()),
        _ => serde_yaml::to_string(v).map_err(|e| e.to_string()),
    }
}

fn read(format: &str, s: &str) -> Result<StrictVal, String> {
    match format {
        "json" => serde_json::from_str(s).map_err(|e| e.to_string()),
        _ => serde_yaml::from_str(s).map_err(|e| e.to_string()),
    }
}

/// Is the text of the value a possible tag of a union
fn tag_like(v: &StrictVal) -> bool {
    match v {
        StrictVal::Number(StrictNum::Uint(n)) => *n <= 255,
        StrictVal::Number(StrictNum::Int(n)) => (0..=255).contains(n),
        StrictVal::String(s) => VariantName::try_from(s.clone()).is_ok(),
        StrictVal::Enum(_) => true,
        _ => false,
    }
}

/// Values which the notation distinguishes from all others
fn distinct(v: &StrictVal) -> bool {
    match v {
        StrictVal::Unit | StrictVal::Enum(_) => true,
        // the text of a number of 1024 bits
        StrictVal::String(s) => !(s.len() == 256 && s.bytes().all(|b| b.is_ascii_hexdigit())),
        StrictVal::Number(n) => matches!(n, StrictNum::Uint(_) | StrictNum::Int(_)),
        StrictVal::Union(_, v) => distinct(v),
        StrictVal::Tuple(l) | StrictVal::List(l) => !(l.len() == 2 && tag_like(&l[0])) && l.iter().all(distinct),
        StrictVal::Struct(f) => f.values().all(distinct),
        _ => false,
    }
}

/// The value with byte strings replaced by the text of their hexadecimal form
fn hexed(v: &StrictVal) -> StrictVal {
    match v {
        StrictVal::Bytes(b) => StrictVal::String(b.0.iter().map(|b| format!("{b:02x}")).collect()),
        StrictVal::Union(t, v) => StrictVal::Union(t.clone(), Box::new(hexed(v))),
        StrictVal::Tuple(l) => StrictVal::Tuple(l.iter().map(hexed).collect()),
        StrictVal::List(l) => StrictVal::List(l.iter().map(hexed).collect()),
        StrictVal::Set(l) => StrictVal::Set(l.iter().map(hexed).collect()),
        StrictVal::Map(l) => StrictVal::Map(l.iter().map(|(k, v)| (hexed(k), hexed(v))).collect()),
        StrictVal::Struct(f) => StrictVal::Struct(f.iter().map(|(k, v)| (k.clone(), hexed(v))).collect()),
        v => v.clone(),
    }
}

fn has_bytes(v: &StrictVal) -> bool { hexed(v) != *v }

/// A variant named by one letter which is the tag of another variant: the text of the name stands for both
fn perverse(m: &M) -> bool {
    let clash = |v: &[(String, u8)]| {
        v.iter().any(|(n, t)| n.len() == 1 && v.iter().any(|(o, x)| o != n && x != t && *x == n.as_bytes()[0]))
    };
    match m {
        M::Named(_, m) | M::Array(m, _) | M::List(m, ..) | M::Set(m, ..) => perverse(m),
        M::Enum(v) => clash(v),
        M::Union(v) => {
            clash(&v.iter().map(|(n, t, _)| (n.clone(), *t)).collect::<Vec<_>>()) || v.iter().any(|x| perverse(&x.2))
        }
        M::Tuple(f) => f.iter().any(perverse),
        M::Struct(f) => f.iter().any(|x| perverse(&x.1)),
        M::Map(k, v, ..) => perverse(k) || perverse(v),
        _ => false,
    }
}

fn bytes_of(types: &TypeSystem, v: &strict_types::typify::TypedVal) -> Result<Vec<u8>, String> {
    guard(|| types.strict_serialize_value::<{ usize::MAX }>(v).map(|d| d.release()).map_err(|e| e.to_string()))?
}

fn check(ctx: &mut Ctx, m: &M, types: &TypeSystem, id: SemId, v: StrictVal, data: Option<&[u8]>) {
    let typed = match guard(|| match data {
        Some(d) => types.strict_deserialize_type(id, d).map_err(|e| e.to_string()),
        None => types.typify(v.clone(), id).map_err(|e| e.to_string()),
    }) {
        Ok(Ok(t)) => t,
        // codec and type checker are the subject of other properties
        _ => return ctx.count("not_typed", 1),
    };
    let Ok(data) = bytes_of(types, &typed) else { return ctx.count("not_serialized", 1) };
    let val = typed.as_val();
    for format in FORMATS {
        ctx.trace();
        let case = || format!("{format}: {} of {}", short(&format!("{val:?}"), 200), short(&m.show(), 200));
        ctx.case(case);
        let must = distinct(val);
        ctx.count(if must { "must_come_back" } else { "may_be_refused" }, 1);
        let text = match guard(|| write(format, val)) {
            Ok(Ok(t)) => t,
            Ok(Err(_)) if !must => {
                ctx.count("not_written", 1);
                continue;
            }
            Ok(Err(e)) | Err(e) => {
                ctx.fail("write", format!("the value can't be written: {e}"), case());
                continue;
            }
        };
        let back = match guard(|| read(format, &text)) {
            Ok(Ok(b)) => b,
            Ok(Err(_)) if !must => {
                ctx.count("not_read", 1);
                continue;
            }
            Ok(Err(e)) | Err(e) => {
                ctx.fail("read", format!("the text `{}` can't be read back: {e}", short(&text, 200)), case());
                continue;
            }
        };
        let again = match guard(|| types.typify(back.clone(), id).map_err(|e| e.to_string())) {
            Ok(Ok(t)) => t,
            Ok(Err(_)) if !must => {
                ctx.count("refused", 1);
                continue;
            }
            Ok(Err(e)) | Err(e) => {
                ctx.fail("refused", format!("`{}` was read as {back:?} which is refused: {e}", short(&text, 200)), case());
                continue;
            }
        };
        let got = bytes_of(types, &again);
        if got.as_ref() == Ok(&data) {
            ctx.count("same", 1);
            continue;
        }
        let known = has_bytes(val)
            && matches!(guard(|| types.typify(hexed(val), id)), Ok(Ok(w)) if bytes_of(types, &w) == got);
        let key = match known {
            true => "hex of bytes read as text".to_string(),
            false => format!("other {}", m.show()),
        };
        ctx.fail(
            key,
            format!(
                "the value encoded as {} was written as `{}` and read back as the value encoded as {}",
                short(&hex(&data), 200),
                short(&text, 200),
                got.map(|g| short(&hex(&g), 200)).unwrap_or_else(|e| e)
            ),
            case(),
        );
    }
}

pub fn c24(ctx: &mut Ctx) {
    let (nv, nn) = ctx.by_tier((12, 4), (60, 16));
    let mut pool: Vec<(M, usize, usize)> = depth2().into_iter().map(|m| (m, nv, nn)).collect();
    let (nv, nn) = ctx.by_tier((5, 2), (20, 6));
    pool.extend(depth3().into_iter().map(|m| (m, nv, nn)));
    let (nv, nn) = ctx.by_tier((2, 1), (8, 3));
    pool.extend(depth4().into_iter().map(|m| (m, nv, nn)));
    for (m, nv, nn) in pool {
        if !ctx.mine() || perverse(&m) {
            continue;
        }
        let s = mk_sys(&m);
        let types = s.sys.as_types();
        ctx.count("types", 1);
        for v in values(&s.m, nv) {
            ctx.state();
            if s.m.decodable() {
                check(ctx, &s.m, types, s.id, StrictVal::Unit, Some(&encoded(&s.m, &v)));
            }
            for sv in notations(&s.m, &v, nn) {
                ctx.transition();
                check(ctx, &s.m, types, s.id, sv, None);
            }
        }
    }
    for n in widths(ctx.thorough()) {
        for (m, vals) in wide_types(n) {
            if !ctx.mine() || perverse(&m) {
                continue;
            }
            let s = mk_sys(&m);
            let types = s.sys.as_types();
            ctx.count("wide_types", 1);
            for v in vals {
                ctx.state();
                check(ctx, &s.m, types, s.id, StrictVal::Unit, Some(&encoded(&s.m, &v)));
                for sv in notations(&s.m, &v, 2) {
                    ctx.transition();
                    check(ctx, &s.m, types, s.id, sv, None);
                }
            }
        }
    }
    // texts of all kinds in strings, names and members
    for c in texts(ctx.thorough()) {
        if !ctx.mine() {
            continue;
        }
        let l = list(M::Uni, 0, MAX16);
        let tys = [
            l.clone(),
            strct(&[("a", l.clone()), ("b", prim(U8))]),
            union(&[("a", 0, l.clone()), ("b", 1, prim(U8))]),
            option(l.clone()),
            list(l.clone(), 0, MAX8),
            array(l.clone(), 3),
            named("Inner", l.clone()),
        ];
        let sv = sstr(&c);
        let vals = [
            sv.clone(),
            sstruct(&[("a", sv.clone()), ("b", uint(1))]),
            sunion("a", sv.clone()),
            sunion("some", sv.clone()),
            StrictVal::List(vec![sv.clone(); 3]),
            StrictVal::List(vec![sv.clone(); 3]),
            sv.clone(),
        ];
        for (m, v) in tys.into_iter().zip(vals) {
            let s = mk_sys(&m);
            ctx.state();
            check(ctx, &s.m, s.sys.as_types(), s.id, v, None);
        }
    }
    if ctx.first() {
        // numbers
        for code in [U8, U16, U24, U32, U40, U48, U56, U64, I8, I16, I32, I64] {
            let (lo, hi) = int_range(code).unwrap();
            let s = mk_sys(&prim(code));
            let mut nums = vec![lo, lo + 1, hi, hi - 1, 0, 1, -1, 127, 128, 255, 256];
            nums.extend((0..64).flat_map(|b| [1i128 << b, (1 << b) - 1, -(1i128 << b), -(1i128 << b) + 1]));
            for n in nums {
                if n < lo || n > hi {
                    continue;
                }
                let sv = match n {
                    n if n < 0 => int(n as i64),
                    n => uint(n as u64),
                };
                ctx.state();
                check(ctx, &s.m, s.sys.as_types(), s.id, sv, None);
                if n >= 0 && n <= i64::MAX as i128 {
                    check(ctx, &s.m, s.sys.as_types(), s.id, int(n as i64), None);
                }
            }
        }
        // all tags of enums and unions, by name and by number
        let all = |r: std::ops::RangeInclusive<u8>| {
            let e = M::Enum(r.clone().map(|t| (format!("var{t}"), t)).collect());
            let u = M::Union(r.clone().map(|t| (format!("var{t}"), t, prim(U8))).collect());
            [(e, false, r.clone()), (u, true, r)]
        };
        for (m, un, r) in all(0..=254).into_iter().chain(all(1..=255)) {
            let s = mk_sys(&m);
            for t in r {
                for tag in [EnumTag::Ord(t), EnumTag::Name(vname(&format!("var{t}")))] {
                    let sv = match un {
                        false => StrictVal::Enum(tag),
                        true => StrictVal::Union(tag, Box::new(uint(7))),
                    };
                    ctx.state();
                    check(ctx, &s.m, s.sys.as_types(), s.id, sv, None);
                }
            }
        }
    }
}

/// Texts over an alphabet of characters and words which have a meaning in the formats
fn texts(thorough: bool) -> Vec<String> {
    let mut l: Vec<String> = ["", "null", "~", "true", "no", "y", "1", "-1", "0x10", "1e3", ".inf", "1_000", "2001-01-01", "---", "...", "!!str", "<<", "=", "\u{feff}"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    l.extend((0u32..0x180).filter_map(char::from_u32).map(|c| c.to_string()));
    l.extend(['\u{85}', '\u{2028}', '\u{d7ff}', '\u{e000}', '\u{fffe}', '\u{ffff}', '\u{1f600}', '\u{10ffff}'].map(|c| c.to_string()));
    let abc = ['a', ' ', '\n', ':', '#', '"', '\\', '-', '1', '\t', '\'', '{', '[', ',', '\r', '\0', 'é'];
    let n = if thorough { 3 } else { 2 };
    let mut layer: Vec<String> = abc.iter().map(|c| c.to_string()).collect();
    for _ in 1..n {
        layer = layer.iter().flat_map(|s| abc.iter().map(move |c| format!("{s}{c}"))).collect();
        l.extend(layer.iter().cloned());
    }
    l
}
