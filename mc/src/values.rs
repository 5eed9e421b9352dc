//! C02, C03, C04: schema-driven decoding, type checking and encoding

use strict_types::{SemId, StrictVal, TypeSystem};

use crate::core::*;
use crate::model::*;
use crate::sysb::*;
use crate::universe::*;

pub fn sv_show(sv: &StrictVal) -> String { short(&format!("{sv:?}"), 300) }

/// Could decoding read absurdly many elements out of few bytes? (elements which take no space)
pub fn zero_size(m: &M) -> bool {
    match m.strip() {
        M::Prim(c) => M::prim_size(*c) == 0,
        M::Uni | M::Enum(_) | M::Union(_) | M::List(..) | M::Set(..) | M::Map(..) => false,
        M::Tuple(f) => m.rstring().is_none() && f.iter().all(zero_size),
        M::Struct(f) => f.iter().all(|x| zero_size(&x.1)),
        M::Array(m, n) => *n == 0 || zero_size(m),
        M::Named(..) => unreachable!(),
    }
}
fn huge_lists_of_nothing(m: &M) -> bool {
    match m.strip() {
        M::Prim(_) | M::Uni | M::Enum(_) => false,
        M::Union(v) => v.iter().any(|x| huge_lists_of_nothing(&x.2)),
        M::Tuple(f) => f.iter().any(huge_lists_of_nothing),
        M::Struct(f) => f.iter().any(|x| huge_lists_of_nothing(&x.1)),
        M::Array(m, _) => huge_lists_of_nothing(m),
        M::List(i, _, max) => (zero_size(i) && *max > 0x200) || huge_lists_of_nothing(i),
        M::Set(i, ..) => huge_lists_of_nothing(i),
        M::Map(k, i, ..) => huge_lists_of_nothing(k) || huge_lists_of_nothing(i),
        M::Named(..) => unreachable!(),
    }
}

/// One decoding compared with the reference. Returns the reference verdict
fn decode_case(ctx: &mut Ctx, s: &Sys, data: &[u8]) -> Result<V, Rej> {
    let types = s.sys.as_types();
    let expected = decode(&s.m, data);
    let case = || format!("decode {} as {}", hex(data), s.m.show());
    ctx.case(case);
    ctx.trace();
    let got = guard(|| types.strict_deserialize_type(s.id, data));
    let key = |what: &str| format!("{what} {} {}", s.m.show(), hex(data));
    match (&expected, got) {
        (_, Err(p)) => ctx.fail(key("panic"), format!("decoding panicked: {p}"), case()),
        (Ok(v), Ok(Ok(t))) => {
            if !means(&s.m, t.as_val(), v) {
                let msg = format!("decoded to {} but the bytes stand for {v:?}", sv_show(t.as_val()));
                ctx.fail(key("value"), msg, case());
            } else {
                match guard(|| types.strict_serialize_value::<{ usize::MAX }>(&t)) {
                    Err(p) => ctx.fail(key("reencode-panic"), format!("encoding the decoded value panicked: {p}"), case()),
                    Ok(Err(e)) => ctx.fail(key("reencode"), format!("decoded value doesn't encode: {e}"), case()),
                    Ok(Ok(b)) => {
                        if b.as_slice() != data {
                            ctx.fail(key("reencode"), format!("decoded value encodes to {}", hex(&b)), case());
                        }
                    }
                }
            }
        }
        (Ok(v), Ok(Err(e))) => {
            if s.m.decodable() {
                ctx.fail(key("refused"), format!("a well-formed encoding of {v:?} is refused: {e}"), case())
            } else {
                ctx.count("unsupported_types_reported", 1);
            }
        }
        (Err(why), Ok(Ok(t))) => {
            let msg = format!("malformed data ({why:?}) is accepted as {}", sv_show(t.as_val()));
            ctx.fail(key("accepted"), msg, case())
        }
        (Err(_), Ok(Err(_))) => ctx.count("malformed_refused", 1),
    }
    expected
}

const ALPHABET: [u8; 22] = [
    0, 1, 2, 3, 4, 5, 7, 0x20, 0x31, 0x61, 0x62, 0x63, 0x7F, 0x80, 0xA9, 0xBF, 0xC3, 0xE2, 0xF0, 0xF5, 0xFE, 0xFF,
];

/// All byte strings, as a tree: continues below a string only while the reference can still accept an extension
fn explore(ctx: &mut Ctx, s: &Sys, max_depth: usize, cap: usize) {
    let mut layer: Vec<Vec<u8>> = vec![vec![]];
    let mut nodes = 0;
    for depth in 0..=max_depth {
        let mut next = vec![];
        for data in &layer {
            nodes += 1;
            ctx.state();
            let verdict = decode_case(ctx, s, data);
            if verdict == Err(Rej::Incomplete) {
                let full = depth == 0 || (depth == 1 && layer.len() <= 24);
                let sub: &[u8] = if full { &BYTES } else { &ALPHABET };
                for b in sub {
                    let mut d = data.clone();
                    d.push(*b);
                    next.push(d);
                }
                ctx.transitions(sub.len() as u64);
            } else {
                // an extension of a finished or broken string is never accepted
                for tail in [&[0u8][..], &[0xFF], &[0, 0, 0, 0, 0, 0, 0, 0], &[0x61, 0x61]] {
                    let d = [data, tail].concat();
                    decode_case(ctx, s, &d);
                    ctx.transition();
                }
            }
            if nodes >= cap {
                ctx.count("types_with_capped_prefix_tree", 1);
                return;
            }
        }
        layer = next;
    }
}

static BYTES: [u8; 256] = {
    let mut a = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        a[i] = i as u8;
        i += 1;
    }
    a
};

/// Valid encodings, all their truncations, and all single-byte changes
fn perturb(ctx: &mut Ctx, s: &Sys, nvals: usize) {
    for v in values(&s.m, nvals) {
        let data = encoded(&s.m, &v);
        ctx.state();
        let r = decode_case(ctx, s, &data);
        assert_eq!(r.as_ref(), Ok(&v), "harness: reference codec is not consistent for {}", s.m.show());
        let n = data.len();
        let cuts: Vec<usize> = if n <= 64 { (0..n).collect() } else { (0..8).chain(n - 8..n).collect() };
        for i in &cuts {
            decode_case(ctx, s, &data[..*i]);
            ctx.transition();
        }
        for i in &cuts {
            let subst: &[u8] = if n <= 16 { &ALPHABET } else { &ALPHABET[..6] };
            for b in subst.iter().copied().chain([data[*i] ^ 1, data[*i].wrapping_add(1), data[*i] ^ 0x80]) {
                let mut d = data.clone();
                d[*i] = b;
                decode_case(ctx, s, &d);
                ctx.transition();
            }
        }
        for t in [0u8, 0xFF] {
            let d = [&data[..], &[t]].concat();
            decode_case(ctx, s, &d);
        }
    }
}

/// Collections at the limits of the width of the length field
fn limits(ctx: &mut Ctx) {
    let items = [prim(U8), M::Uni, char_enum(), small_enum(), prim(U16), unit()];
    let mut bounds = vec![(0, MAX8), (0, 254), (0, 256), (0, MAX16), (0, 65534), (255, 256), (0, MAX16 + 1), (3, MAX24), (0, MAX32)];
    bounds.extend([(256, MAX64), (65536, MAX24), (0, MAX24 + 1), (0, MAX32 + 1)]);
    for m in items {
        for (a, b) in &bounds {
            if !ctx.mine() {
                continue;
            }
            let mut lens = vec![254u64, 255, 256, 257, 65534, 65535, 65536, 65537];
            if ctx.thorough() && m.is_byte() {
                lens.extend([MAX24, MAX24 + 1]);
            }
            let mut tys = vec![list(m.clone(), *a, *b)];
            if m == char_enum() {
                tys.push(tuple(vec![char_enum(), list(m.clone(), *a, *b)]));
            }
            for ty in tys {
                let s = mk_sys(&ty);
                for len in &lens {
                    let w = match s.m.rstring() {
                        Some((_, _, _, max)) => width(max),
                        None => width(*b),
                    };
                    if w < 8 && *len >= 1 << (8 * w) {
                        continue;
                    }
                    let mut data = len.to_le_bytes()[..w].to_vec();
                    let mut one = vec![];
                    encode(&m, &values(&m, 1)[0], &mut one);
                    for _ in 0..*len {
                        data.extend_from_slice(&one);
                    }
                    ctx.state();
                    decode_case(ctx, &s, &data);
                    if !data.is_empty() && !one.is_empty() {
                        decode_case(ctx, &s, &data[..data.len() - 1]);
                    }
                }
            }
        }
    }
}

/// Length prefixes announcing much more data than there is
fn announced(ctx: &mut Ctx) {
    for m in [prim(U8), prim(U16), M::Uni, char_enum(), small_enum(), tuple(vec![prim(U8), prim(U8)])] {
        for max in [MAX8, MAX16, MAX24, MAX32, MAX64] {
            for ty in [
                list(m.clone(), 0, max),
                set(m.clone(), 0, max),
                map(m.clone(), prim(U8), 0, max),
                tuple(vec![char_enum(), list(char_enum(), 0, max)]),
            ] {
                if !ctx.mine() {
                    continue;
                }
                let s = mk_sys(&ty);
                let w = match s.m.rstring() {
                    Some((_, _, _, max)) => width(max),
                    None => width(max),
                };
                for len in [0x10u64, 0xFF, 0xFFFF, 0x10_0000, 0xFF_FFFF, 0x7FFF_FFFF, MAX32, 1 << 40, i64::MAX as u64, MAX64] {
                    if w < 8 && len >= 1 << (8 * w) {
                        continue;
                    }
                    for tail in [0usize, 1, 3] {
                        let mut data = len.to_le_bytes()[..w].to_vec();
                        data.extend(vec![0x61u8; tail]);
                        ctx.state();
                        decode_case(ctx, &s, &data);
                    }
                }
            }
        }
    }
}

/// Types with many parts
fn wide_data(ctx: &mut Ctx) {
    for n in widths(ctx.thorough()) {
        for (m, vals) in wide_types(n) {
            if !ctx.mine() {
                continue;
            }
            let s = mk_sys(&m);
            ctx.count("wide_types", 1);
            for v in vals {
                let data = encoded(&s.m, &v);
                ctx.state();
                let r = decode_case(ctx, &s, &data);
                assert_eq!(r.as_ref(), Ok(&v), "harness: reference codec is not consistent for {}", s.m.show());
                let n = data.len();
                let mut at: Vec<usize> = if n <= 24 { (0..n).collect() } else { (0..4).chain(n - 4..n).collect() };
                at.extend([n / 4, n / 2, n / 2 + 1, 3 * n / 4]);
                for i in at {
                    if i >= n {
                        continue;
                    }
                    decode_case(ctx, &s, &data[..i]);
                    ctx.transition();
                    for b in [data[i] ^ 1, data[i].wrapping_add(1), data[i] ^ 0x80, 0xFF] {
                        let mut d = data.clone();
                        d[i] = b;
                        decode_case(ctx, &s, &d);
                        ctx.transition();
                    }
                }
                decode_case(ctx, &s, &[&data[..], &[0]].concat());
            }
            if let M::Enum(_) | M::Union(_) = s.m.strip() {
                for t in 0..=255u8 {
                    for tail in [&[][..], &[0], &[1], &[0, 0], &[0x61]] {
                        decode_case(ctx, &s, &[&[t], tail].concat());
                    }
                }
            }
            // repeated items at all distances
            if let M::Set(i, _, max) | M::Map(i, _, _, max) = s.m.strip() {
                if let M::Prim(U16) = i.strip() {
                    let map = matches!(s.m.strip(), M::Map(..));
                    for (a, b) in [(0, 1), (0, n - 1), (n / 2, n - 1), (n - 2, n - 1), (0, n / 2)] {
                        if a >= b {
                            continue;
                        }
                        let mut data = n.to_le_bytes()[..width(*max)].to_vec();
                        for i in 0..n {
                            data.extend((if i == b { a } else { i } as u16).to_le_bytes());
                            if map {
                                data.push(5);
                            }
                        }
                        decode_case(ctx, &s, &data);
                    }
                }
            }
        }
    }
}

/// Long collections of differing items
fn long_data(ctx: &mut Ctx) {
    for (m, vals) in long_types(ctx.thorough()) {
        if !ctx.mine() {
            continue;
        }
        let s = mk_sys(&m);
        ctx.count("long_collections", 1);
        for v in vals {
            let data = encoded(&s.m, &v);
            let n = data.len();
            ctx.state();
            let r = decode_case(ctx, &s, &data);
            assert!(r.as_ref() == Ok(&v), "harness: reference codec is not consistent for {}", s.m.show());
            for i in [n / 2, n - 1] {
                decode_case(ctx, &s, &data[..i]);
                let mut d = data.clone();
                d[i] ^= 0xF0;
                decode_case(ctx, &s, &d);
                ctx.transitions(2);
            }
            decode_case(ctx, &s, &[&data[..], &[0]].concat());
        }
    }
}

pub fn c02(ctx: &mut Ctx) {
    announced(ctx);
    long_data(ctx);
    limits(ctx);
    wide_data(ctx);
    let (depth, cap, nv) = ctx.by_tier((6, 4000, 12), (9, 60000, 40));
    for m in depth2() {
        if !ctx.mine() || huge_lists_of_nothing(&m) {
            continue;
        }
        let s = mk_sys(&m);
        ctx.count("types", 1);
        explore(ctx, &s, depth, cap);
        perturb(ctx, &s, nv);
    }
    for m in all_prims().into_iter().chain(floats()) {
        for c in [|m| m, |m| tuple(vec![m, prim(U8)]), |m| list(m, 0, 2)] {
            if !ctx.mine() {
                continue;
            }
            let m: M = c(m.clone());
            if huge_lists_of_nothing(&m) {
                continue;
            }
            let s = mk_sys(&m);
            ctx.count("types", 1);
            explore(ctx, &s, 3, 600);
            perturb(ctx, &s, nv);
        }
    }
    let (cap3, nv3) = ctx.by_tier((800, 6), (8000, 16));
    for m in depth3() {
        if !ctx.mine() || huge_lists_of_nothing(&m) {
            continue;
        }
        let s = mk_sys(&m);
        ctx.count("types", 1);
        explore(ctx, &s, depth, cap3);
        perturb(ctx, &s, nv3);
    }
    let (step, cap4, nv4) = ctx.by_tier((7, 100, 3), (1, 800, 6));
    for (i, m) in depth4().into_iter().enumerate() {
        if !ctx.mine() || i % step != 0 || huge_lists_of_nothing(&m) || !ctx.time_left() {
            continue;
        }
        let s = mk_sys(&m);
        ctx.count("types", 1);
        explore(ctx, &s, 5, cap4);
        perturb(ctx, &s, nv4);
    }
}

// --------------------------------------------------------------------------------------------------- C03, C04

#[derive(Clone, Copy, PartialEq, Eq)]
enum What {
    Encoding,
    Checking,
}

fn typify(types: &TypeSystem, sv: &StrictVal, id: SemId) -> Result<Result<strict_types::typify::TypedVal, String>, String> {
    guard(|| types.typify(sv.clone(), id).map_err(|e| short(&e.to_string(), 200)))
}

fn check_value(ctx: &mut Ctx, s: &Sys, sv: &StrictVal, what: What) {
    let types = s.sys.as_types();
    let case = || format!("typify {} as {}", sv_show(sv), s.m.show());
    ctx.case(case);
    ctx.state();
    let expected = denote(&s.m, sv);
    let key = |what: &str| format!("{what} {} <- {}", s.m.show(), sv_show(sv));
    let got = typify(types, sv, s.id);
    ctx.trace();
    let t = match (got, &expected) {
        (Err(p), _) => {
            if what == What::Checking {
                ctx.fail(key("panic"), format!("the type checker panicked: {p}"), case());
            }
            return;
        }
        (Ok(Err(_)), D::No) => {
            ctx.count("refused", 1);
            return;
        }
        (Ok(Err(_)), D::Unspec) => return,
        (Ok(Err(e)), D::Yes(v)) => {
            if what == What::Checking {
                ctx.fail(key("refused"), format!("a member of the type ({v:?}) is refused: {e}"), case());
            }
            return;
        }
        (Ok(Ok(t)), D::No) => {
            if what == What::Checking {
                ctx.fail(key("accepted"), format!("not a member, but accepted as {}", sv_show(t.as_val())), case());
                return;
            }
            t
        }
        (Ok(Ok(t)), _) => t,
    };
    ctx.count("accepted", 1);
    if t.as_orig().id != s.id {
        ctx.fail(key("origin"), format!("the checked value says it is of the type {}", t.as_orig()), case());
    }
    if what == What::Checking {
        // the checked value stands for the same member and checks to itself
        if let D::Yes(v) = &expected {
            if !means(&s.m, t.as_val(), v) {
                let msg = format!("the value stands for {v:?} but is turned into {}", sv_show(t.as_val()));
                ctx.fail(key("meaning"), msg, case());
                return;
            }
        }
        ctx.transition();
        match typify(types, t.as_val(), s.id) {
            Ok(Ok(t2)) if t2 == t => {}
            Ok(Ok(t2)) => {
                let msg = format!("checked value {} checks to another {}", sv_show(t.as_val()), sv_show(t2.as_val()));
                ctx.fail(key("idempotence"), msg, case());
            }
            Ok(Err(e)) => {
                let msg = format!("checked value {} is refused when checked again: {e}", sv_show(t.as_val()));
                ctx.fail(key("idempotence"), msg, case())
            }
            Err(p) => ctx.fail(key("idempotence"), format!("second check panicked: {p}"), case()),
        }
        return;
    }
    ctx.transition();
    let bytes = match guard(|| types.strict_serialize_value::<{ usize::MAX }>(&t)) {
        Err(p) => return ctx.fail(key("encode-panic"), format!("accepted as {}, encoding panicked: {p}", sv_show(t.as_val())), case()),
        Ok(Err(e)) => return ctx.fail(key("encode-error"), format!("accepted as {}, doesn't encode: {e}", sv_show(t.as_val())), case()),
        Ok(Ok(b)) => b.release(),
    };
    let by_decode = match decode(&s.m, &bytes) {
        Ok(v) => v,
        Err(e) => {
            let msg = format!("accepted as {}, encodes to {} which isn't an encoding of the type: {e:?}", sv_show(t.as_val()), hex(&bytes));
            return ctx.fail(key("encoding"), msg, case());
        }
    };
    if let D::Yes(v) = &expected {
        if by_decode != *v {
            let msg = format!("denotes {v:?} but encodes to {} which denotes {by_decode:?}", hex(&bytes));
            return ctx.fail(key("encoding"), msg, case());
        }
    }
    ctx.transition();
    match guard(|| types.strict_deserialize_type(s.id, &bytes)) {
        Err(p) => ctx.fail(key("decode-panic"), format!("encodes to {}; decoding it panicked: {p}", hex(&bytes)), case()),
        Ok(Err(e)) => {
            if s.m.decodable() {
                ctx.fail(key("decode"), format!("encodes to {} which doesn't decode: {e}", hex(&bytes)), case())
            }
        }
        Ok(Ok(d)) => match guard(|| types.strict_serialize_value::<{ usize::MAX }>(&d)) {
            Ok(Ok(b)) if *b == bytes => {}
            r => {
                let r = r.map(|x| x.map(|b| hex(&b)).map_err(|e| e.to_string()));
                ctx.fail(key("reencode"), format!("bytes {} decode to {} which encodes to {r:?}", hex(&bytes), sv_show(d.as_val())), case())
            }
        },
    }
}

/// Values which come from the schema decoder check to themselves
fn check_decoded(ctx: &mut Ctx, s: &Sys, nvals: usize) {
    let types = s.sys.as_types();
    if !s.m.decodable() {
        return;
    }
    for v in values(&s.m, nvals) {
        let data = encoded(&s.m, &v);
        let case = || format!("typify the value decoded from {} as {}", hex(&data), s.m.show());
        ctx.case(case);
        ctx.state();
        let Ok(Ok(t)) = guard(|| types.strict_deserialize_type(s.id, &data)) else { continue };
        ctx.trace();
        let key = format!("decoded {} {}", s.m.show(), hex(&data));
        match typify(types, t.as_val(), s.id) {
            Ok(Ok(t2)) if t2 == t => {}
            Ok(Ok(t2)) => ctx.fail(key, format!("decoded {} checks to {}", sv_show(t.as_val()), sv_show(t2.as_val())), case()),
            Ok(Err(e)) => ctx.fail(key, format!("decoded {} is refused: {e}", sv_show(t.as_val())), case()),
            Err(p) => ctx.fail(key, format!("checking decoded {} panicked: {p}", sv_show(t.as_val())), case()),
        }
    }
}

/// Long collections and strings, at the bounds
fn long_values(ctx: &mut Ctx, what: What) {
    for m in [prim(U8), M::Uni, char_enum(), small_enum(), prim(U16)] {
        for (a, b) in [(0, 254), (0, MAX8), (0, 256), (256, 300), (0, MAX16), (0, MAX16 + 1), (255, MAX24), (0, MAX32), (0, MAX64)] {
            if !ctx.mine() {
                continue;
            }
            let mut tys = vec![list(m.clone(), a, b)];
            if m == char_enum() {
                tys.push(tuple(vec![char_enum(), list(m.clone(), a, b)]));
            }
            for n in [254u16, 255, 256, 257, 65535] {
                tys.push(array(m.clone(), n));
            }
            for ty in tys {
                let s = mk_sys(&ty);
                for len in [253usize, 254, 255, 256, 257, 300, 65534, 65535, 65536, 65537] {
                    let mut cands = vec![StrictVal::String("a".repeat(len)), sbytes(&vec![0x61; len])];
                    if len <= 300 || ctx.thorough() {
                        cands.push(StrictVal::List(vec![uint(0x61); len]));
                        cands.push(StrictVal::List(vec![sname("alpha"); len]));
                        cands.push(StrictVal::List(vec![sstr("a"); len]));
                    }
                    if len % 2 == 0 {
                        cands.push(StrictVal::String("é".repeat(len / 2)));
                        cands.push(StrictVal::String("é".repeat(len)));
                    }
                    for sv in cands {
                        check_value(ctx, &s, &sv, what);
                    }
                }
            }
        }
    }
}

/// Types with many parts: all notations of members, and edits at the ends and in the middle
fn wide_values(ctx: &mut Ctx, what: What) {
    let bad = [StrictVal::Unit, uint(70000), sstr("nope"), sname("nope"), sord(254)];
    for n in widths(ctx.thorough()) {
        for (m, vals) in wide_types(n) {
            if !ctx.mine() {
                continue;
            }
            let s = mk_sys(&m);
            ctx.count("wide_types", 1);
            for v in vals {
                for (i, sv) in notations(&s.m, &v, 3).into_iter().enumerate() {
                    check_value(ctx, &s, &sv, what);
                    if i >= 4 {
                        continue;
                    }
                    let edits = |l: &[StrictVal], sub: &[StrictVal]| -> Vec<Vec<StrictVal>> {
                        let mut res = vec![l[..l.len().saturating_sub(1)].to_vec(), l[l.len().min(1)..].to_vec()];
                        let mut at = vec![0, 1, l.len() / 2, l.len().saturating_sub(2), l.len().saturating_sub(1)];
                        at.retain(|i| *i < l.len());
                        at.dedup();
                        for i in &at {
                            for b in sub {
                                let mut l = l.to_vec();
                                l[*i] = b.clone();
                                res.push(l);
                            }
                            for j in &at {
                                let mut l = l.to_vec();
                                l[*i] = l[*j].clone();
                                res.push(l);
                            }
                            let mut l = l.to_vec();
                            l.push(l[*i].clone());
                            res.push(l);
                        }
                        res
                    };
                    let more: Vec<StrictVal> = match &sv {
                        StrictVal::List(l) => edits(l, &bad).into_iter().map(StrictVal::List).collect(),
                        StrictVal::Tuple(l) => edits(l, &bad).into_iter().map(StrictVal::Tuple).collect(),
                        StrictVal::Set(l) => edits(l, &bad).into_iter().map(StrictVal::Set).collect(),
                        StrictVal::Map(l) => {
                            let (k, w): (Vec<_>, Vec<_>) = l.iter().cloned().unzip();
                            let zip = |k: Vec<StrictVal>, w: &[StrictVal]| {
                                StrictVal::Map(k.into_iter().enumerate().map(|(i, k)| (k, w[i % w.len()].clone())).collect())
                            };
                            let mut r: Vec<_> = edits(&k, &bad).into_iter().map(|k| zip(k, &w)).collect();
                            r.extend(edits(&w, &bad).into_iter().filter(|x| x.len() == k.len()).map(|w| zip(k.clone(), &w)));
                            r
                        }
                        StrictVal::Struct(f) => {
                            let vals: Vec<_> = f.values().cloned().collect();
                            let mut keys: Vec<_> = f.keys().cloned().collect();
                            keys.push(fname("other"));
                            let mut r: Vec<_> = edits(&vals, &bad)
                                .into_iter()
                                .map(|v| StrictVal::Struct(keys.iter().cloned().zip(v).collect()))
                                .collect();
                            keys.rotate_right(1);
                            r.push(StrictVal::Struct(keys.iter().cloned().zip(vals).collect()));
                            r
                        }
                        _ => vec![],
                    };
                    for sv in more {
                        check_value(ctx, &s, &sv, what);
                    }
                }
            }
            if let M::Enum(_) | M::Union(_) = s.m.strip() {
                for t in 0..=256u64 {
                    for sv in [uint(t), sord(t as u8), sunion_ord(t as u8, uint(1)), sunion(&format!("f{t}"), sstr("a"))] {
                        check_value(ctx, &s, &sv, what);
                    }
                    for sv in [sstr(&format!("f{t}")), sname(&format!("f{t}"))] {
                        check_value(ctx, &s, &sv, what);
                    }
                }
            }
            if what == What::Checking {
                check_decoded(ctx, &s, 3);
            }
            if ctx.many_violations() {
                return;
            }
        }
    }
}

/// Long collections of differing items
fn long_collections(ctx: &mut Ctx, what: What) {
    for (m, vals) in long_types(ctx.thorough()) {
        if !ctx.mine() {
            continue;
        }
        let s = mk_sys(&m);
        ctx.count("long_collections", 1);
        for v in vals {
            for sv in notations(&s.m, &v, 1) {
                check_value(ctx, &s, &sv, what);
                let edit = |l: &[StrictVal]| -> Vec<Vec<StrictVal>> {
                    let mut same = l.to_vec();
                    same[l.len() - 1] = l[0].clone();
                    let mut bad = l.to_vec();
                    bad[l.len() - 1] = sstr("nope");
                    vec![l[1..].to_vec(), [l, &l[..1]].concat(), same, bad]
                };
                let more: Vec<StrictVal> = match &sv {
                    StrictVal::List(l) => edit(l).into_iter().map(StrictVal::List).collect(),
                    StrictVal::Set(l) => edit(l).into_iter().map(StrictVal::Set).collect(),
                    StrictVal::Map(l) => {
                        let k: Vec<_> = l.iter().map(|x| x.0.clone()).collect();
                        edit(&k).into_iter().map(|k| StrictVal::Map(k.into_iter().map(|k| (k, uint(7))).collect())).collect()
                    }
                    _ => vec![],
                };
                for sv in more {
                    check_value(ctx, &s, &sv, what);
                }
            }
        }
    }
}

fn typecheck(ctx: &mut Ctx, what: What) {
    long_collections(ctx, what);
    wide_values(ctx, what);
    let scal = scalars();
    let few = scalars_few();
    let cont = containers(&few);
    let deep: Vec<StrictVal> = {
        // containers of containers
        let inner = vec![
            StrictVal::Unit,
            uint(1),
            StrictVal::List(vec![]),
            StrictVal::List(vec![uint(1)]),
            StrictVal::Tuple(vec![uint(1)]),
            StrictVal::Tuple(vec![uint(1), uint(2)]),
            StrictVal::Tuple(vec![sstr("some"), uint(1)]),
            StrictVal::Tuple(vec![sstr("none"), StrictVal::Unit]),
            StrictVal::Tuple(vec![sstr("some"), uint(1), uint(1)]),
            StrictVal::Tuple(vec![sstr("none"), StrictVal::Unit, StrictVal::Unit]),
            StrictVal::Set(vec![uint(1)]),
            sstruct(&[("x", uint(1))]),
            sunion("some", uint(1)),
            sstr("ab"),
        ];
        containers(&inner)
    };
    for m in depth2().into_iter().chain(all_prims()).chain(floats()) {
        if !ctx.mine() {
            continue;
        }
        let s = mk_sys(&m);
        ctx.count("types", 1);
        for sv in scal.iter().chain(&cont).chain(&deep) {
            check_value(ctx, &s, sv, what);
        }
        for v in values(&s.m, ctx.by_tier(12, 40)) {
            for n in notations(&s.m, &v, 6) {
                check_value(ctx, &s, &n, what);
                for n in neighbours(&n, &[StrictVal::Unit, uint(1), sstr("a")]) {
                    check_value(ctx, &s, &n, what);
                }
            }
        }
        if what == What::Checking {
            check_decoded(ctx, &s, ctx.by_tier(12, 40));
        }
        if ctx.many_violations() {
            return;
        }
    }
    long_values(ctx, what);
    let (step, nv, nn) = ctx.by_tier((1, 4, 4), (1, 12, 8));
    let subst: Vec<StrictVal> = vec![StrictVal::Unit, uint(1), uint(300), sstr("a"), sstr("zz"), StrictVal::List(vec![]), sname("nope")];
    let d3 = depth3().into_iter().enumerate().filter(|(i, _)| i % step == 0).map(|x| x.1);
    let step4 = ctx.by_tier(5, 1);
    let d4 = depth4().into_iter().enumerate().filter(|(i, _)| i % step4 == 0).map(|x| x.1);
    for (level, m) in d3.map(|m| (3, m)).chain(d4.map(|m| (4, m))) {
        if !ctx.mine() || !ctx.time_left() {
            continue;
        }
        let s = mk_sys(&m);
        ctx.count("types", 1);
        let n = if level == 3 { nv } else { nv / 2 };
        for v in values(&s.m, n) {
            let ns = notations(&s.m, &v, nn);
            for (i, sv) in ns.iter().enumerate() {
                check_value(ctx, &s, sv, what);
                if i < 2 || level == 3 && ctx.thorough() {
                    for sv in neighbours(sv, &subst) {
                        check_value(ctx, &s, &sv, what);
                    }
                }
            }
        }
        for sv in &few {
            check_value(ctx, &s, sv, what);
        }
        if what == What::Checking {
            check_decoded(ctx, &s, n);
        }
        if ctx.many_violations() {
            return;
        }
    }
}

pub fn c03(ctx: &mut Ctx) { typecheck(ctx, What::Encoding) }
pub fn c04(ctx: &mut Ctx) { typecheck(ctx, What::Checking) }
