//! C05, C06, C22: ids of types, libraries and systems

use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

use amplify::ByteArray;
use armor::{AsciiArmor, StrictArmor};
use baid64::DisplayBaid64;
use strict_types::typelib::{InlineRef, InlineRef1, InlineRef2};
use strict_types::{LibRef, SemId, TranspileRef, Ty, TypeLib, TypeLibId, TypeSysId, TypeSystem, Urn};

use crate::core::*;
use crate::libs::*;
use crate::model::*;
use crate::sysb::*;
use crate::universe::*;

pub fn rf(n: &str, m: &M) -> Rf { Rf::Named(sid(nested_id(Some(n), m))) }

pub fn has_named(m: &M) -> bool {
    let mut s = BTreeSet::new();
    refs(m, &mut s);
    !s.is_empty()
}

pub fn transpile(m: &M) -> TranspileRef {
    TranspileRef::Embedded(Box::new(ty_with(m, &mut |m| transpile(m))))
}

/// Single-edit neighbours of a definition
pub fn edits(m: &M) -> Vec<M> {
    let mut res = vec![];
    fn sub(items: &[M], res: &mut Vec<M>, mk: &dyn Fn(Vec<M>) -> M) {
        for (i, m) in items.iter().enumerate() {
            for e in edits(m) {
                let mut v = items.to_vec();
                v[i] = e;
                res.push(mk(v));
            }
        }
    }
    let sizings = |a: u64, b: u64| -> Vec<(u64, u64)> {
        let mut v = vec![];
        for bit in [0u32, 1, 7, 8, 15, 16, 23, 24, 31, 32, 40, 48, 63] {
            v.push((a ^ (1u64 << bit), b));
            v.push((a, b ^ (1u64 << bit)));
        }
        v.push((b, a));
        v.retain(|x| *x != (a, b));
        v
    };
    let names = |n: &str| -> Vec<String> {
        let mut v = vec![format!("{n}x"), format!("a{n}")];
        if n.len() > 1 {
            v.push(n[..n.len() - 1].to_string());
        }
        v.push(n.to_uppercase().to_lowercase() + "_1");
        v
    };
    match m {
        M::Prim(c) => {
            for p in [UNIT, U8, U16, U32, BYTE, I8, I16, 0xC0] {
                if p != *c {
                    res.push(M::Prim(p));
                }
            }
            res.push(M::Uni);
        }
        M::Uni => res.extend([prim(U8), unit()]),
        M::Enum(v) if v.len() <= 8 => {
            for i in 0..v.len() {
                for n in names(&v[i].0) {
                    let mut w = v.clone();
                    w[i].0 = n;
                    res.push(M::Enum(w));
                }
                for t in 0..=255u8 {
                    if !v.iter().any(|x| x.1 == t) && (t < 12 || t > 250 || t % 32 == 0) {
                        let mut w = v.clone();
                        w[i].1 = t;
                        w.sort_by_key(|x| x.1);
                        res.push(M::Enum(w));
                    }
                }
                if v.len() > 1 {
                    let mut w = v.clone();
                    w.remove(i);
                    res.push(M::Enum(w));
                }
                if i + 1 < v.len() {
                    let mut w = v.clone();
                    let t = w[i].0.clone();
                    w[i].0 = w[i + 1].0.clone();
                    w[i + 1].0 = t;
                    res.push(M::Enum(w));
                }
            }
            res.push(M::Union(v.iter().map(|(n, t)| (n.clone(), *t, unit())).collect()));
        }
        M::Enum(_) => {}
        M::Union(v) => {
            for i in 0..v.len() {
                for n in names(&v[i].0) {
                    let mut w = v.clone();
                    w[i].0 = n;
                    res.push(M::Union(w));
                }
                for t in [0u8, 1, 2, 3, 9, 128, 255] {
                    if !v.iter().any(|x| x.1 == t) {
                        let mut w = v.clone();
                        w[i].1 = t;
                        w.sort_by_key(|x| x.1);
                        res.push(M::Union(w));
                    }
                }
                if v.len() > 1 {
                    let mut w = v.clone();
                    w.remove(i);
                    res.push(M::Union(w));
                }
                if i + 1 < v.len() {
                    let mut w = v.clone();
                    let t = w[i].2.clone();
                    w[i].2 = w[i + 1].2.clone();
                    w[i + 1].2 = t;
                    res.push(M::Union(w));
                }
            }
            let keys: Vec<_> = v.iter().map(|x| (x.0.clone(), x.1)).collect();
            let items: Vec<_> = v.iter().map(|x| x.2.clone()).collect();
            sub(&items, &mut res, &|w| {
                M::Union(keys.iter().zip(w).map(|((n, t), m)| (n.clone(), *t, m)).collect())
            });
        }
        M::Tuple(f) => {
            for i in 0..f.len() {
                if f.len() > 1 {
                    let mut w = f.clone();
                    w.remove(i);
                    res.push(M::Tuple(w));
                }
                if i + 1 < f.len() {
                    let mut w = f.clone();
                    w.swap(i, i + 1);
                    res.push(M::Tuple(w));
                }
                let mut w = f.clone();
                w.insert(i, f[i].clone());
                res.push(M::Tuple(w));
            }
            res.push(M::Struct(f.iter().enumerate().map(|(i, m)| (format!("f{i}"), m.clone())).collect()));
            sub(f, &mut res, &|w| M::Tuple(w));
        }
        M::Struct(f) => {
            for i in 0..f.len() {
                for n in names(&f[i].0) {
                    let mut w = f.clone();
                    w[i].0 = n;
                    res.push(M::Struct(w));
                }
                if f.len() > 1 {
                    let mut w = f.clone();
                    w.remove(i);
                    res.push(M::Struct(w));
                }
                if i + 1 < f.len() {
                    let mut w = f.clone();
                    w.swap(i, i + 1);
                    res.push(M::Struct(w));
                    let mut w = f.clone();
                    let t = w[i].0.clone();
                    w[i].0 = w[i + 1].0.clone();
                    w[i + 1].0 = t;
                    res.push(M::Struct(w));
                }
            }
            res.push(M::Tuple(f.iter().map(|x| x.1.clone()).collect()));
            let keys: Vec<_> = f.iter().map(|x| x.0.clone()).collect();
            let items: Vec<_> = f.iter().map(|x| x.1.clone()).collect();
            sub(&items, &mut res, &|w| M::Struct(keys.iter().cloned().zip(w).collect()));
        }
        M::Array(m, n) => {
            for bit in 0..16 {
                res.push(M::Array(m.clone(), n ^ (1 << bit)));
            }
            res.push(M::List(m.clone(), *n as u64, *n as u64));
            sub(&[(**m).clone()], &mut res, &|w| array(w[0].clone(), *n));
        }
        M::List(m, a, b) => {
            for (a, b) in sizings(*a, *b) {
                res.push(M::List(m.clone(), a, b));
            }
            res.push(M::Set(m.clone(), *a, *b));
            sub(&[(**m).clone()], &mut res, &|w| list(w[0].clone(), *a, *b));
        }
        M::Set(m, a, b) => {
            for (a, b) in sizings(*a, *b) {
                res.push(M::Set(m.clone(), a, b));
            }
            res.push(M::List(m.clone(), *a, *b));
            sub(&[(**m).clone()], &mut res, &|w| set(w[0].clone(), *a, *b));
        }
        M::Map(k, m, a, b) => {
            for (a, b) in sizings(*a, *b) {
                res.push(M::Map(k.clone(), m.clone(), a, b));
            }
            res.push(M::Map(m.clone(), k.clone(), *a, *b));
            sub(&[(**k).clone(), (**m).clone()], &mut res, &|w| map(w[0].clone(), w[1].clone(), *a, *b));
        }
        M::Named(n, m) => {
            res.push(M::Named(format!("{n}X"), m.clone()));
            for e in edits(m).into_iter().take(3) {
                if !matches!(e, M::Named(..)) {
                    res.push(M::Named(n.clone(), Box::new(e)));
                }
            }
        }
    }
    res.retain(|e| e != m && well_formed(e));
    res
}

/// Names and tags of members are unique
fn well_formed(m: &M) -> bool {
    fn unique<T: Ord>(i: impl Iterator<Item = T>) -> bool {
        let mut s = BTreeSet::new();
        i.into_iter().all(|x| s.insert(x))
    }
    match m {
        M::Enum(v) => unique(v.iter().map(|x| &x.0)) && unique(v.iter().map(|x| x.1)),
        M::Union(v) => unique(v.iter().map(|x| &x.0)) && unique(v.iter().map(|x| x.1)),
        M::Struct(f) => unique(f.iter().map(|x| &x.0)),
        _ => true,
    }
}

/// Definitions in which an inline type without a length mark is followed by more data: the published commitment
/// doesn't separate all of these, see the known findings
pub fn ambiguous(m: &M) -> bool {
    fn open(m: &M) -> bool { matches!(m, M::Tuple(_) | M::Struct(_) | M::Union(_) | M::Enum(_)) }
    let sub = |m: &M| open(m) || ambiguous(m);
    match m {
        M::Prim(_) | M::Uni | M::Enum(_) | M::Named(..) => false,
        M::Union(v) => v.iter().any(|x| sub(&x.2)),
        M::Tuple(f) => f.iter().any(sub),
        M::Struct(f) => f.iter().any(|x| sub(&x.1)),
        M::Array(m, _) | M::List(m, ..) | M::Set(m, ..) => ambiguous(m),
        M::Map(k, m, ..) => sub(k) || sub(m),
    }
}

fn ambiguous_pairs() -> Vec<(M, M)> {
    let u8_ = || prim(U8);
    vec![
        (tuple(vec![tuple(vec![u8_(), u8_()]), u8_()]), tuple(vec![tuple(vec![u8_(), u8_(), u8_()])])),
        (tuple(vec![tuple(vec![u8_()]), u8_()]), tuple(vec![tuple(vec![u8_(), u8_()])])),
        (
            strct(&[("x", strct(&[("a", u8_()), ("b", u8_())]))]),
            strct(&[("x", strct(&[("a", u8_())])), ("b", u8_())]),
        ),
        (
            strct(&[("x", enm(&[("a", 0), ("b", 1)]))]),
            strct(&[("x", enm(&[("a", 0)])), ("b", M::Uni)]),
        ),
        (
            union(&[("a", 0, union(&[("p", 0, u8_()), ("q", 1, u8_())]))]),
            union(&[("a", 0, union(&[("p", 0, u8_())])), ("q", 1, u8_())]),
        ),
        (
            map(tuple(vec![u8_(), tuple(vec![u8_()])]), u8_(), 0, 1),
            map(tuple(vec![u8_()]), tuple(vec![u8_(), u8_()]), 0, 1),
        ),
    ]
}

fn check_id(ctx: &mut Ctx, how: &str, got: SemId, want: Id, m: &M, name: Option<&str>) {
    ctx.trace();
    if got != sid(want) {
        ctx.fail(
            format!("id:{how}:{}:{}", name.unwrap_or("-"), m.show()),
            format!("id of the definition ({how}) is {got}, the commitment scheme gives {}", sid(want)),
            format!("{} = {}", name.unwrap_or("<unnamed>"), m.show()),
        );
    }
}

fn ids_of(ctx: &mut Ctx, m: &M, full: bool) {
    let d = inline_depth(m);
    if d > 3 {
        return;
    }
    ctx.case(|| format!("ids of {}", m.show()));
    ctx.state();
    let names: &[&str] = if full { &["A", "Ab", "Abc_1", "VeryLongNameOfATypeWhichIsAllowed"] } else { &["A", "Top"] };
    let top: Ty<LibRef> = ty_with(m, &mut |m| LibRef::lk(&rf, m));
    let res = guard(|| {
        let mut v: Vec<(&'static str, Option<&str>, SemId)> = vec![];
        for n in names {
            v.push(("library", Some(n), top.sem_id_named(&tname(n))));
        }
        v.push(("library", None, top.sem_id_unnamed()));
        if full {
            let again: Ty<LibRef> = from_bytes(&bytes(&top)).expect("decoding of a definition");
            for n in names {
                v.push(("decoded", Some(n), again.sem_id_named(&tname(n))));
            }
            v.push(("decoded", None, again.sem_id_unnamed()));
            let js: Ty<LibRef> = serde_json::from_str(&serde_json::to_string(&top).unwrap()).expect("json");
            v.push(("json", Some(names[0]), js.sem_id_named(&tname(names[0]))));
        }
        if d <= 2 {
            let ty: Ty<InlineRef> = ty_with(m, &mut |m| Lk::lk(&rf, m));
            v.push(("inline at level 1", Some(names[0]), ty.sem_id_named(&tname(names[0]))));
            v.push(("inline at level 1", None, ty.sem_id_unnamed()));
        }
        if d <= 1 {
            let ty: Ty<InlineRef1> = ty_with(m, &mut |m| Lk::lk(&rf, m));
            v.push(("inline at level 2", Some(names[0]), ty.sem_id_named(&tname(names[0]))));
            v.push(("inline at level 2", None, ty.sem_id_unnamed()));
        }
        if d == 0 {
            let ty: Ty<InlineRef2> = ty_with(m, &mut |m| Lk::lk(&rf, m));
            v.push(("inline at level 3", None, ty.sem_id_unnamed()));
            let ty: Ty<SemId> = ty_with(m, &mut |m| match m {
                M::Named(n, m) => sid(nested_id(Some(n), m)),
                _ => unreachable!(),
            });
            v.push(("linked", None, ty.sem_id_unnamed()));
        }
        if !has_named(m) {
            let ty: Ty<TranspileRef> = ty_with(m, &mut |m| transpile(m));
            v.push(("symbolic", Some(names[0]), ty.sem_id_named(&tname(names[0]))));
            v.push(("symbolic", None, TranspileRef::Embedded(Box::new(ty)).id()));
        }
        v
    });
    match res {
        Err(p) => ctx.fail(format!("id-panic:{}", m.show()), format!("panic: {p}"), m.show()),
        Ok(v) => {
            for (how, name, id) in v {
                ctx.transition();
                check_id(ctx, how, id, nested_id(name, m), m, name);
            }
        }
    }
}

pub fn c05(ctx: &mut Ctx) {
    // the exact commitment of every definition
    let mut uni: Vec<M> = all_prims();
    uni.extend(floats());
    uni.extend(depth2());
    uni.extend(depth3());
    if ctx.thorough() {
        uni.extend(depth4());
    } else {
        uni.extend(depth4().into_iter().step_by(7));
    }
    for n in [2usize, 127, 128, 254, 255] {
        uni.push(M::Enum((0..n).map(|i| (format!("v{i}"), i as u8)).collect()));
        uni.push(M::Union((0..n).map(|i| (format!("v{i}"), 255 - (n - 1 - i) as u8, prim(U8))).collect()));
        uni.push(M::Tuple((0..n).map(|i| if i % 2 == 0 { prim(U8) } else { M::Uni }).collect()));
        uni.push(M::Struct((0..n).map(|i| (format!("f{i}"), prim(U16))).collect()));
    }
    let anon = |m: &M| match m {
        M::Named(_, m) => normalize(m),
        m => normalize(m),
    };
    for m in &uni {
        if ctx.mine() {
            ids_of(ctx, &anon(m), true);
        }
    }
    // found under that id once linked
    for m in &uni {
        if ctx.mine() {
            ctx.case(|| format!("linking of {}", m.show()));
            let res = guard(|| {
                let sys = mk_sys(m);
                let name = match m { M::Named(n, _) => n.as_str(), _ => "Top" };
                let want = sid(nested_id(Some(name), &sys.m));
                let fqn = strict_types::typesys::TypeFqn::with(lname("TestLib"), tname(name));
                (want, sys.sys.resolve(fqn).copied(), sys.sys.as_types().get(want).cloned(), sys.m.clone())
            });
            ctx.transition();
            match res {
                Err(p) => ctx.fail(format!("link-panic:{}", m.show()), p, m.show()),
                Ok((want, found, ty, nm)) => {
                    ctx.trace();
                    let ty_ok = ty.is_some_and(|t| {
                        bytes(&t) == bytes(&ty_with(&nm, &mut |m| match m {
                            M::Named(n, m) => sid(nested_id(Some(n), m)),
                            m => sid(nested_id(None, m)),
                        }))
                    });
                    if found != Some(want) || !ty_ok {
                        ctx.fail(
                            format!("linked:{}", m.show()),
                            format!("the linked type has id {found:?} instead of {want}, or another definition"),
                            m.show(),
                        );
                    }
                }
            }
        }
    }
    // separation: no two definitions share an id. Each worker takes the ids which fall into its share of the id
    // space, so that together they compare all pairs
    let mut seeds: Vec<M> = depth2();
    seeds.extend(ctx.by_tier(depth2_few(), depth3()));
    let mut all: BTreeSet<M> = BTreeSet::new();
    for m in seeds.iter().map(anon) {
        for e in edits(&m) {
            if !ambiguous(&e) && inline_depth(&e) <= 3 {
                all.insert(e);
            }
        }
        if !ambiguous(&m) {
            all.insert(m);
        }
    }
    // two edits away from the smaller ones
    for m in depth2_few().iter().map(anon) {
        for e in edits(&m).into_iter().step_by(ctx.by_tier(5, 1)) {
            for e in edits(&e).into_iter().step_by(ctx.by_tier(3, 1)) {
                if !ambiguous(&e) && inline_depth(&e) <= 3 {
                    all.insert(e);
                }
            }
        }
    }
    ctx.count("separated_definitions", if ctx.first() { all.len() as u64 } else { 0 });
    let mut seen: BTreeMap<SemId, (usize, usize)> = BTreeMap::new();
    let names = [Some("A"), Some("B"), Some("Ab"), None];
    let all: Vec<M> = all.into_iter().collect();
    let (shard, n) = (ctx.shard, ctx.nshards);
    for (i, m) in all.iter().enumerate() {
        for (j, name) in names.iter().enumerate() {
            // cheap model-side hash decides the owner; implementation ids are compared within and, because the
            // implementation id has to equal the model id, across the shares
            let want = nested_id(*name, m);
            if want[0] as u64 % n != shard {
                continue;
            }
            ctx.case(|| format!("id of {} = {}", name.unwrap_or("-"), m.show()));
            ctx.state();
            ctx.transition();
            let got = match guard(|| {
                let ty: Ty<LibRef> = ty_with(m, &mut |m| LibRef::lk(&rf, m));
                match name {
                    Some(n) => ty.sem_id_named(&tname(n)),
                    None => ty.sem_id_unnamed(),
                }
            }) {
                Ok(id) => id,
                Err(p) => {
                    ctx.fail(format!("id-panic:{}", m.show()), p, m.show());
                    continue;
                }
            };
            check_id(ctx, "library", got, want, m, *name);
            if let Some((pi, pj)) = seen.insert(got, (i, j)) {
                let prev = format!("{} = {}", names[pj].unwrap_or("-"), all[pi].show());
                let this = format!("{} = {}", name.unwrap_or("-"), m.show());
                ctx.fail(
                    format!("collision:{prev} ~ {this}"),
                    format!("different definitions have the same id {got}"),
                    format!("{prev} and {this}"),
                );
            }
        }
    }
    if ctx.first() {
        for (a, b) in ambiguous_pairs() {
            ctx.case(|| format!("ids of {} and {}", a.show(), b.show()));
            let id = |m: &M| {
                let ty: Ty<LibRef> = ty_with(m, &mut |m| LibRef::lk(&rf, m));
                ty.sem_id_named(&tname("A"))
            };
            if id(&a) == id(&b) {
                ctx.fail(
                    format!("ambiguous:{} ~ {}", a.show(), b.show()),
                    "different definitions have the same id",
                    format!("{} and {}", a.show(), b.show()),
                );
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------------------ C06

pub fn permutations<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut res = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut p in permutations(&rest) {
            p.insert(0, x.clone());
            res.push(p);
        }
    }
    res
}

/// References without content
pub fn plain_refs(m: &M) -> M {
    let f = |m: &M| plain_refs(m);
    match m {
        M::Prim(_) | M::Uni | M::Enum(_) => m.clone(),
        M::Union(v) => M::Union(v.iter().map(|(n, t, m)| (n.clone(), *t, f(m))).collect()),
        M::Tuple(v) => M::Tuple(v.iter().map(f).collect()),
        M::Struct(v) => M::Struct(v.iter().map(|(n, m)| (n.clone(), f(m))).collect()),
        M::Array(m, n) => array(f(m), *n),
        M::List(m, a, b) => list(f(m), *a, *b),
        M::Set(m, a, b) => set(f(m), *a, *b),
        M::Map(k, m, a, b) => map(f(k), f(m), *a, *b),
        M::Named(n, _) => r(n),
    }
}

/// Worlds which differ from the given one in one place of its last library
pub fn lib_edits(w: &World, step: usize) -> Vec<World> {
    let last = w.libs.last().unwrap();
    let mut res = vec![];
    let mut push = |l: LibDef| {
        if l.types.is_empty() {
            return;
        }
        let mut rs = BTreeSet::new();
        l.types.iter().for_each(|t| refs(&t.1, &mut rs));
        let ok = rs.iter().all(|n| match n.split_once('.') {
            Some((lib, ty)) => {
                l.deps.contains(&lib.to_string())
                    && w.libs.iter().any(|x| x.name == lib && x.types.iter().any(|t| t.0 == ty))
            }
            None => l.types.iter().any(|t| t.0 == *n),
        });
        let shallow = l.types.iter().all(|t| inline_depth(&t.1) <= 3);
        if ok && shallow {
            let mut libs = w.libs.clone();
            *libs.last_mut().unwrap() = l;
            res.push(World::new(&libs));
        }
    };
    for n in ["Other", "LibX"] {
        push(LibDef { name: n.to_string(), ..last.clone() });
    }
    for d in &last.deps {
        let mut l = last.clone();
        l.deps.retain(|x| x != d);
        push(l);
    }
    for x in &w.libs[..w.libs.len() - 1] {
        if !last.deps.contains(&x.name) {
            let mut l = last.clone();
            l.deps.push(x.name.clone());
            push(l);
        }
    }
    for i in 0..last.types.len() {
        let mut l = last.clone();
        l.types.remove(i);
        push(l);
        let mut l = last.clone();
        l.types[i].0 += "X";
        push(l);
        for e in edits(&last.types[i].1).into_iter().step_by(step) {
            let mut l = last.clone();
            l.types[i].1 = plain_refs(&e);
            push(l);
        }
    }
    let mut l = last.clone();
    l.types.push((s!("Added"), prim(U8)));
    push(l);
    res
}

fn check_lib_id(ctx: &mut Ctx, how: &str, got: TypeLibId, w: &World, l: &LibDef) {
    ctx.trace();
    ctx.transition();
    let want = lid(w.lib_ids[&l.name]);
    if got != want {
        ctx.fail(
            format!("lib-id:{how}:{}", short(&l.show(), 1000)),
            format!("id of the library ({how}) is {got}, the commitment scheme gives {want}"),
            short(&w.show(), 2000),
        );
    }
}

pub fn c06(ctx: &mut Ctx) {
    let mut ws = worlds();
    ws.extend(shapes().into_iter().step_by(ctx.by_tier(5, 1)));
    let mut all: Vec<World> = vec![];
    for w in &ws {
        all.push(w.clone());
    }
    for w in worlds().iter().chain(shapes().iter().step_by(ctx.by_tier(100, 10))) {
        all.extend(lib_edits(w, ctx.by_tier(3, 1)));
    }
    // one part of many
    for n in sizes(ctx.thorough()) {
        let ws = wide(n);
        for w in &ws {
            let last = w.libs.last().unwrap();
            for spot in [0, last.deps.len() / 2, last.deps.len().saturating_sub(1)] {
                if spot < last.deps.len() && last.name == "DepsUnused" {
                    let mut l = last.clone();
                    l.deps.remove(spot);
                    let mut libs = w.libs.clone();
                    *libs.last_mut().unwrap() = l;
                    all.push(World::new(&libs));
                }
            }
        }
        all.extend(ws);
    }
    let mut by_id: BTreeMap<Id, (LibDef, Vec<Id>)> = BTreeMap::new();
    for w in &all {
        for l in &w.libs {
            // libraries are the same if all they are made of is the same, down to the dependencies
            let mut def = l.clone();
            // ambiguities of single types belong to C05
            if def.types.iter().any(|t| ambiguous(&t.1)) {
                continue;
            }
            def.types.sort();
            def.deps.sort();
            let deep: Vec<Id> = def.deps.iter().map(|d| w.lib_ids[d]).collect();
            let id = w.lib_ids[&l.name];
            match by_id.get(&id) {
                Some(x) if *x != (def.clone(), deep.clone()) && ctx.first() => {
                    ctx.fail(format!("lib-collision:{}", l.show()), "two libraries with the same id", w.show())
                }
                _ => {
                    by_id.insert(id, (def, deep));
                }
            }
        }
    }
    if ctx.first() {
        ctx.count("different_libraries", by_id.len() as u64);
    }
    let mut done = BTreeSet::new();
    for (wi, w) in all.iter().enumerate() {
        if !ctx.mine() {
            continue;
        }
        for l in &w.libs {
            if !done.insert(w.lib_ids[&l.name]) {
                continue;
            }
            ctx.case(|| format!("library id: {} in {}", l.name, short(&w.show(), 600)));
            ctx.state();
            let full = wi < ws.len();
            let res = guard(|| {
                let lib = w.type_lib(l);
                let mut v = vec![(s!("built"), lib.id())];
                v.push((s!("dependency"), lib.to_dependency().id));
                v.push((s!("armor"), lib.armor_id()));
                let again: TypeLib = from_bytes(&bytes(&lib)).expect("decoding");
                v.push((s!("decoded"), again.id()));
                if full {
                    let js: TypeLib = serde_json::from_str(&serde_json::to_string(&lib).unwrap()).expect("json");
                    v.push((s!("json"), js.id()));
                    let ar = TypeLib::from_ascii_armored_str(&lib.to_ascii_armored_string()).expect("armor");
                    v.push((s!("armored"), ar.id()));
                    let sym = lib.to_symbolic().expect("symbolic").compile().expect("compile");
                    v.push((s!("symbolic"), sym.id()));
                    let sym = w.symbolic(l).compile().expect("compile");
                    v.push((s!("compiled"), sym.id()));
                    // any order of additions
                    if l.types.len() <= 5 {
                        for (i, p) in permutations(&l.types).into_iter().enumerate() {
                            let mut lib2 = TypeLib {
                                name: lib.name.clone(),
                                dependencies: none!(),
                                extern_types: lib.extern_types.clone(),
                                types: amplify::confinement::Confined::with_key_value(
                                    tname(&p[0].0),
                                    lib.types.get(&tname(&p[0].0)).unwrap().clone(),
                                ),
                            };
                            for t in &p[1..] {
                                lib2.populate(tname(&t.0), lib.types.get(&tname(&t.0)).unwrap().clone())
                                    .expect("populate");
                            }
                            let deps = permutations(&l.deps);
                            for d in &deps[i % deps.len()] {
                                lib2.import(w.dep(d)).expect("import");
                            }
                            v.push((format!("added in order {p:?}"), lib2.id()));
                        }
                    }
                }
                v
            });
            match res {
                Err(p) => ctx.fail(format!("lib-id-panic:{}", l.show()), p, w.show()),
                Ok(v) => {
                    for (how, id) in v {
                        check_lib_id(ctx, &how, id, w, l);
                    }
                }
            }
        }
    }
    crowds_c06(ctx);
    // systems: subsets of the types of a linked system, put together in different orders
    for w in worlds() {
        if !ctx.mine() {
            continue;
        }
        let libs: Vec<&LibDef> = w.libs.iter().collect();
        let e = w.expected(&libs);
        let full = system(&e.types);
        let keys: Vec<SemId> = e.types.keys().copied().collect();
        let mut ids: BTreeMap<TypeSysId, BTreeSet<SemId>> = BTreeMap::new();
        let mut subsets: Vec<Vec<SemId>> = vec![vec![], keys.clone()];
        for i in 0..keys.len() {
            subsets.push(vec![keys[i]]);
            let mut k = keys.clone();
            k.remove(i);
            subsets.push(k);
            for j in i + 1..keys.len() {
                subsets.push(vec![keys[i], keys[j]]);
            }
        }
        for sub in subsets {
            let set: BTreeSet<SemId> = sub.iter().copied().collect();
            ctx.case(|| format!("system of {} types of {}", set.len(), w.show()));
            ctx.state();
            let mut data = (set.len() as u32).to_le_bytes()[..3].to_vec();
            for id in &set {
                data.extend(id.to_byte_array());
            }
            let want = TypeSysId::from_byte_array(tagged(SYS_TAG, &data));
            let part = |rev: bool| {
                let mut sys = TypeSystem::new();
                let mut order = sub.clone();
                if rev {
                    order.reverse();
                }
                for id in order {
                    sys.extend(system(&BTreeMap::from([(id, e.types[&id].clone())]))).unwrap();
                }
                sys
            };
            let res = guard(|| {
                let a = part(false);
                let b = part(true);
                let c: TypeSystem = from_bytes(&bytes(&a)).expect("decoding");
                let d: TypeSystem = serde_json::from_str(&serde_json::to_string(&a).unwrap()).expect("json");
                let e2 = TypeSystem::from_ascii_armored_str(&a.to_ascii_armored_string()).expect("armor");
                let f = system(&set.iter().map(|id| (*id, e.types[id].clone())).collect());
                let _ = &full;
                vec![a.id(), b.id(), c.id(), d.id(), e2.id(), f.id(), a.armor_id()]
            });
            match res {
                Err(p) => ctx.fail(format!("sys-panic:{set:?}"), p, w.show()),
                Ok(v) => {
                    for (i, id) in v.into_iter().enumerate() {
                        ctx.transition();
                        ctx.trace();
                        if id != want {
                            ctx.fail(
                                format!("sys-id:{i}:{}:{}", set.len(), w.show()),
                                format!("system id {id} (way {i}), the commitment scheme gives {want}"),
                                format!("{set:?} of {}", w.show()),
                            );
                        }
                    }
                }
            }
            if let Some(prev) = ids.insert(want, set.clone()) {
                if prev != set {
                    ctx.fail(format!("sys-collision:{set:?}"), "two systems with the same id", w.show());
                }
            }
        }
    }
}

/// Numbers of types of libraries and systems: on both sides of the lengths of the counters
pub const CROWDS: [usize; 7] = [255, 256, 257, 4095, 32768, 65534, 65535];
pub const CROWDED: [usize; 4] = [65535, 65536, 65537, 131_072];

pub fn crowd(n: usize) -> World {
    let types = (0..n).map(|i| (format!("Type{i}"), array(prim(U8), i as u16))).collect();
    World::new(&[LibDef { name: s!("LibCrowd"), deps: vec![], types }])
}

pub fn crowded_system(n: usize) -> TypeSystem {
    let types = (0..n).map(|i| {
        let m = array(prim(if i > 65535 { U16 } else { U8 }), i as u16);
        (sid(nested_id(None, &m)), ty_with::<SemId>(&m, &mut |m| sid(nested_id(None, m))))
    });
    system(&types.collect())
}

fn crowds_c06(ctx: &mut Ctx) {
    for n in CROWDS {
        if !ctx.mine() {
            continue;
        }
        let w = crowd(n);
        let l = &w.libs[0];
        ctx.case(|| format!("library of {n} types"));
        ctx.state();
        match guard(|| {
            let lib = w.type_lib(l);
            let again: TypeLib = from_bytes(&bytes(&lib)).expect("decoding");
            [lib.id(), again.id(), w.symbolic(l).compile().expect("compile").id()]
        }) {
            Ok(v) => v.into_iter().for_each(|id| check_lib_id(ctx, "crowd", id, &w, l)),
            Err(p) => ctx.fail(format!("crowd {n}"), p, format!("library of {n} types")),
        }
    }
    for n in CROWDED {
        if !ctx.mine() {
            continue;
        }
        let sys = crowded_system(n);
        ctx.case(|| format!("system of {n} types"));
        ctx.state();
        ctx.transition();
        let mut data = (n as u32).to_le_bytes()[..3].to_vec();
        for id in sys.iter() {
            data.extend(id.0.to_byte_array());
        }
        let want = TypeSysId::from_byte_array(tagged(SYS_TAG, &data));
        let got = guard(|| (sys.id(), from_bytes::<TypeSystem>(&bytes(&sys)).map(|s| s.id()), sys.count_types().to_string()));
        if got != Ok((want, Ok(want), n.to_string())) {
            ctx.fail(format!("crowded system {n}"), format!("id is {got:?}, the commitment scheme gives {want}"), format!("system of {n} types"));
        }
    }
}

/// A type system put together by hand
pub fn system(types: &BTreeMap<SemId, Ty<SemId>>) -> TypeSystem {
    TypeSystem::from(amplify::confinement::MediumOrdMap::try_from(types.clone()).unwrap())
}

// ------------------------------------------------------------------------------------------------------------ C22

const ALPHABET: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_~";

fn base64(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..c.len() + 1 {
            s.push(ALPHABET[(n >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    s
}

fn checksum(hri: &str, id: Id) -> [u8; 4] {
    use sha2::{Digest, Sha256};
    let key = Sha256::digest(hri.as_bytes());
    let mut h = Sha256::new();
    h.update(key);
    h.update(id);
    let h = h.finalize();
    [h[0], h[1], h[1], h[2]]
}

trait TextId: Copy + Eq + FromStr + std::fmt::Display + std::fmt::Debug + DisplayBaid64 + Ord {
    fn from_id(id: Id) -> Self;
    fn id(self) -> Id;
    const PFX: &'static str;
}
macro_rules! text_id {
    ($t:ty, $p:literal) => {
        impl TextId for $t {
            fn from_id(id: Id) -> Self { Self::from_byte_array(id) }
            fn id(self) -> Id { self.to_byte_array() }
            const PFX: &'static str = $p;
        }
    };
}
text_id!(SemId, "semid");
text_id!(TypeLibId, "stl");
text_id!(TypeSysId, "sts");

/// Parser of the reference: `[hri:]base64 with dashes[#mnemonic]`
fn parse<T: TextId>(s: &str) -> Option<Id> {
    let mut s = s;
    if let Some((hri, rest)) = s.rsplit_once(':') {
        if hri != T::PFX {
            return None;
        }
        s = rest;
    }
    let mut ck = None;
    if let Some((rest, sfx)) = s.split_once('#') {
        let mut v = vec![];
        mnemonic::decode(sfx, &mut v).ok()?;
        if v.len() != 4 {
            return None;
        }
        ck = Some(v);
        s = rest;
    }
    let core: Vec<u8> = s.bytes().filter(|b| *b != b'-').collect();
    if core.len() != 43 && core.len() != 48 {
        return None;
    }
    let mut bits: Vec<u8> = vec![];
    for c in &core {
        let v = ALPHABET.iter().position(|x| x == c)? as u8;
        for i in (0..6).rev() {
            bits.push(v >> i & 1);
        }
    }
    let n = bits.len() / 8;
    let data: Vec<u8> = bits.chunks(8).take(n).map(|c| c.iter().fold(0, |a, b| a << 1 | b)).collect();
    if bits[n * 8..].iter().any(|b| *b != 0) {
        return None;
    }
    let id: Id = data[..32].try_into().unwrap();
    // an embedded checksum takes precedence
    if data.len() == 36 {
        ck = Some(data[32..].to_vec());
    }
    if ck.is_some_and(|c| c != checksum(T::PFX, id)) {
        return None;
    }
    Some(id)
}

fn textual<T: TextId>(ctx: &mut Ctx)
where <T as FromStr>::Err: std::fmt::Debug {
    let mut ids: Vec<Id> = vec![];
    for b in [0u8, 1, 0x55, 0x7F, 0x80, 0xFB, 0xFF] {
        ids.push([b; 32]);
    }
    for bit in 0..256usize {
        let mut a = [0u8; 32];
        a[bit / 8] = 1 << (bit % 8);
        ids.push(a);
        let mut a = [0xFFu8; 32];
        a[bit / 8] ^= 1 << (bit % 8);
        ids.push(a);
    }
    for i in 0..ctx.by_tier(64u32, 1000) {
        ids.push(tagged(b"sample", &i.to_le_bytes()));
    }
    let mut texts: BTreeMap<String, Id> = BTreeMap::new();
    for id in &ids {
        let x = T::from_id(*id);
        let Ok(forms) = guard(|| {
            vec![
                format!("{x}"),
                format!("{x:#}"),
                format!("{x:-}"),
                format!("{x:-#}"),
                format!("{x:+}"),
                format!("{x:+#}"),
                x.to_baid64_string(),
                x.display_baid64().embed_checksum().to_string(),
            ]
        }) else {
            ctx.fail(format!("display-panic:{}", hex(id)), "panic", hex(id));
            continue;
        };
        for f in forms {
            if let Some(prev) = texts.insert(f.clone(), *id) {
                if prev != *id {
                    ctx.fail(format!("same-text:{f}"), "two ids have the same text", f.clone());
                }
            }
        }
    }
    let all: Vec<(String, Id)> = texts.into_iter().collect();
    for (i, (text, id)) in all.iter().enumerate() {
        if !ctx.mine() {
            continue;
        }
        ctx.state();
        probe::<T>(ctx, text, Some(*id));
        let core = text.rsplit(':').next().unwrap().split('#').next().unwrap().replace('-', "");
        if core != base64(id) && core.len() != 48 {
            ctx.fail(format!("text-form:{text}"), "the text isn't the encoding of the id", text);
        }
        // every edit of one character
        if i % ctx.by_tier(97, 11) != 0 {
            continue;
        }
        let cs: Vec<char> = text.chars().collect();
        for p in 0..=cs.len() {
            if p < cs.len() {
                let mut t = cs.clone();
                t.remove(p);
                probe::<T>(ctx, &t.iter().collect::<String>(), None);
                for c in ALPHABET.iter().map(|b| *b as char).chain("-#:=+/ é\0".chars()) {
                    if c != cs[p] {
                        let mut t = cs.clone();
                        t[p] = c;
                        probe::<T>(ctx, &t.iter().collect::<String>(), None);
                    }
                }
                if p + 1 < cs.len() && cs[p] != cs[p + 1] {
                    let mut t = cs.clone();
                    t.swap(p, p + 1);
                    probe::<T>(ctx, &t.iter().collect::<String>(), None);
                }
                probe::<T>(ctx, &cs[..p].iter().collect::<String>(), None);
                probe::<T>(ctx, &cs[p..].iter().collect::<String>(), None);
            }
            for c in "Aa0-#:~ ".chars() {
                let mut t = cs.clone();
                t.insert(p, c);
                probe::<T>(ctx, &t.iter().collect::<String>(), None);
            }
        }
        for pfx in ["semid:", "stl:", "sts:", "STL:", ":", "x:"] {
            let rest = text.rsplit(':').next().unwrap();
            probe::<T>(ctx, &format!("{pfx}{rest}"), None);
        }
    }
    if ctx.first() {
        // short texts over a small alphabet
        let mut cur = vec![s!("")];
        for _ in 0..ctx.by_tier(4, 6) {
            let mut next = vec![];
            for s in &cur {
                for c in ["A", "-", "#", ":", "stl", "alpha"] {
                    next.push(format!("{s}{c}"));
                }
            }
            for s in &next {
                probe::<T>(ctx, s, None);
            }
            cur = next;
        }
    }
}

fn probe<T: TextId>(ctx: &mut Ctx, text: &str, origin: Option<Id>)
where <T as FromStr>::Err: std::fmt::Debug {
    ctx.case(|| format!("{} from `{text}`", T::PFX));
    ctx.transition();
    ctx.trace();
    let want = parse::<T>(text);
    match guard(|| T::from_str(text).map(|x| x.id()).ok()) {
        Err(p) => ctx.fail(format!("parse-panic:{text}"), format!("panic: {p}"), text),
        Ok(got) => {
            if let Some(o) = origin {
                if got != Some(o) {
                    ctx.fail(format!("no-round-trip:{}:{text}", T::PFX), format!("parsed as {got:?}"), text);
                }
            }
            if got != want {
                ctx.fail(
                    format!("parse:{}:{text}", T::PFX),
                    format!("parsed as {:?}, the text stands for {:?}", got.map(|x| hex(&x)), want.map(|x| hex(&x))),
                    text,
                );
            }
        }
    }
}

pub fn c22(ctx: &mut Ctx) {
    textual::<SemId>(ctx);
    textual::<TypeLibId>(ctx);
    textual::<TypeSysId>(ctx);
    // resource names: a prefix which tells the kind of the id, and its text
    for i in 0..ctx.by_tier(300u32, 3000) {
        if !ctx.mine() {
            continue;
        }
        let id = if i < 256 { [i as u8; 32] } else { tagged(b"urn", &i.to_le_bytes()) };
        ctx.case(|| format!("resource names of {}", hex(&id)));
        ctx.state();
        ctx.trace();
        let (l, t) = (Urn::from(lid(id)), Urn::from(sid(id)));
        if (l, t) != (Urn::Lib(lid(id)), Urn::Type(sid(id))) {
            ctx.fail(format!("urn-kind {}", hex(&id)), format!("{l:?} {t:?}"), hex(&id));
        }
        for (text, alt) in [(format!("{l}"), false), (format!("{l:#}"), true)] {
            ctx.transition();
            let rest = text.strip_prefix("urn:sten:lib:").and_then(|s| TypeLibId::from_str(s).ok());
            if rest != Some(lid(id)) {
                ctx.fail(format!("urn lib {text}"), format!("`{text}` isn't the name of {}", lid(id)), alt);
            }
        }
        for (text, alt) in [(format!("{t}"), false), (format!("{t:#}"), true)] {
            ctx.transition();
            if text.strip_prefix("urn:sten:id:").and_then(|s| SemId::from_str(s).ok()) != Some(sid(id)) {
                ctx.fail(format!("urn type {text}"), format!("`{text}` isn't the name of {}", sid(id)), alt);
            }
        }
    }
}
