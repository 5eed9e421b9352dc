//! C34: equality, order and hashes of the crate's data

use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

use amplify::confinement::{TinyBlob, TinyString, TinyVec};
use amplify::ByteArray;
use strict_encoding::Ident;
use strict_types::ast::{self, ItemCase};
use strict_types::typelib::{ExternRef, InlineRef, InlineRef1};
use strict_types::typesys::TypeFqn;
use strict_types::value::{self, EnumTag, KeyStep, StrictNum};
use strict_types::{
    BuildFragment, Dependency, LibRef, PreFragment, SemId, SemVer, StlFormat, SymbolRef, TranspileRef, Ty, TypeLibId,
    TypeSymbol, TypeSysId, Urn,
};

use crate::core::*;
use crate::ids::{ambiguous, edits, has_named, lib_edits, plain_refs, rf, transpile};
use crate::libs::*;
use crate::link::link;
use crate::model::*;
use crate::sysb::*;
use crate::universe::*;
use crate::vals::{compounds, direct, few_x, scalars_x, X};

/// Things with a description of their content, made without the crate
type Pool<T> = Vec<(T, String)>;

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn show<T: Debug>(x: &T) -> String { short(&format!("{x:?}"), 200) }

fn pairs<T: Eq + Debug>(ctx: &mut Ctx, what: &str, pool: &Pool<T>, more: impl Fn(&T, &T, bool) -> Option<&'static str>) {
    for (a, ka) in pool {
        if !ctx.mine() {
            continue;
        }
        for (b, kb) in pool {
            let case = || format!("{what}: {} and {}", show(a), show(b));
            ctx.case(case);
            ctx.state();
            ctx.transition();
            let same = ka == kb;
            let eq = guard(|| (a == b, b == a, a != b));
            let mut bad = |k: &str, msg: String| ctx.fail(format!("{k} {what} {} ~ {}", short(ka, 150), short(kb, 150)), msg, case());
            match eq {
                Err(p) => bad("panic", p),
                Ok((x, y, z)) if x != y || x == z => bad("asymmetric", format!("a == b is {x}, b == a is {y}, a != b is {z}")),
                Ok((x, ..)) if x != same => bad("equality", format!("have {} content, but a == b is {x}", if same { "the same" } else { "different" })),
                _ => {
                    if let Some(msg) = more(a, b, same) {
                        bad("consistency", msg.to_string())
                    }
                }
            }
            ctx.trace();
        }
    }
}

fn hashed<T: Hash>(a: &T, b: &T, same: bool) -> Option<&'static str> {
    (same && hash(a) != hash(b)).then_some("equal things have different hashes")
}

fn ordered<T: Ord>(a: &T, b: &T, same: bool) -> Option<&'static str> {
    let (x, y) = (a.cmp(b), b.cmp(a));
    if x != y.reverse() {
        return Some("the order of a and b isn't the reverse of the order of b and a");
    }
    if (x == Ordering::Equal) != same {
        return Some("the order disagrees with equality");
    }
    if a.partial_cmp(b) != Some(x) || (a < b) != (x == Ordering::Less) || (a >= b) != (x != Ordering::Less) {
        return Some("the partial order disagrees with the total one");
    }
    None
}

/// The order is linear: there is an arrangement of all things with which each comparison of two of them agrees
fn linear<T: Ord + Debug>(ctx: &mut Ctx, what: &str, pool: &Pool<T>) {
    if !ctx.first() {
        return;
    }
    // the number of smaller things gives the place in a linear order
    let place: Vec<usize> = pool.iter().map(|a| pool.iter().filter(|b| b.0 < a.0).count()).collect();
    for (i, a) in pool.iter().enumerate() {
        for (j, b) in pool.iter().enumerate() {
            ctx.transition();
            if a.0.cmp(&b.0) != place[i].cmp(&place[j]) {
                let case = format!("{what}: {} and {}", show(&a.0), show(&b.0));
                ctx.fail(format!("linear {what} {} ~ {}", short(&a.1, 150), short(&b.1, 150)), "the order isn't transitive", case);
            }
        }
    }
}

fn eqs<T: Eq + Debug>(ctx: &mut Ctx, what: &str, pool: &Pool<T>) { pairs(ctx, what, pool, |_, _, _| None) }
fn keys<T: Ord + Hash + Debug>(ctx: &mut Ctx, what: &str, pool: &Pool<T>) {
    pairs(ctx, what, pool, |a, b, s| hashed(a, b, s).or_else(|| ordered(a, b, s)));
    linear(ctx, what, pool);
}
fn hashes<T: Eq + Hash + Debug>(ctx: &mut Ctx, what: &str, pool: &Pool<T>) { pairs(ctx, what, pool, hashed) }
fn orders<T: Ord + Debug>(ctx: &mut Ctx, what: &str, pool: &Pool<T>) {
    pairs(ctx, what, pool, ordered);
    linear(ctx, what, pool);
}

/// Ids which differ in one byte or one bit, at each of the places
fn arrays() -> Vec<[u8; 32]> {
    let mut res = vec![[0u8; 32], [0u8; 32], [0xFF; 32]];
    for i in 0..32 {
        for x in [1, 0x80, 0xFF] {
            let mut a = [0u8; 32];
            a[i] = x;
            res.push(a);
        }
    }
    for i in 0..32u8 {
        let mut a: [u8; 32] = std::array::from_fn(|i| i as u8);
        a.swap(i as usize, (i as usize + 7) % 32);
        res.push(a);
    }
    res
}

fn few_arrays() -> Vec<[u8; 32]> {
    let mut res = vec![[0u8; 32]];
    for i in [0, 3, 4, 7, 8, 15, 16, 30, 31] {
        let mut a = [0u8; 32];
        a[i] = 1;
        res.push(a);
    }
    res
}

const NAMES: [&str; 12] = ["Lib", "LIB", "Lib1", "Lib_", "L", "Li", "Libr", "Aib", "Lic", "B", "A_B", "AB"];
const PARTS: [&str; 10] = ["a", "b", "ab", "aB", "a_b", "a1", "none", "some", "_a", "a_"];

fn hexa(a: &[u8; 32]) -> String { a.iter().map(|b| format!("{b:02x}")).collect() }
fn key<T: Debug>(x: &T) -> String { format!("{x:?}") }

/// The definition in all kinds of references which can state it
fn definitions(ctx: &mut Ctx, what: &str, all: &[M]) {
    let all: Vec<&M> = all.iter().filter(|m| !matches!(m, M::Named(..)) && inline_depth(m) <= 3).collect();
    let lk = |m: &M| -> Ty<LibRef> { ty_with(m, &mut |m| LibRef::lk(&rf, m)) };
    let pool: Pool<Ty<LibRef>> = all.iter().map(|m| (lk(m), key(m))).collect();
    eqs(ctx, &format!("{what}, library"), &pool);
    let pool: Pool<LibRef> = all.iter().filter(|m| inline_depth(m) <= 2).map(|m| (LibRef::lk(&rf, m), key(m))).collect();
    eqs(ctx, &format!("{what}, reference"), &pool);
    let pool: Pool<Ty<InlineRef>> =
        all.iter().filter(|m| inline_depth(m) <= 2).map(|m| (ty_with(m, &mut |m| Lk::lk(&rf, m)), key(m))).collect();
    eqs(ctx, &format!("{what}, inline"), &pool);
    let pool: Pool<Ty<InlineRef1>> =
        all.iter().filter(|m| inline_depth(m) <= 1).map(|m| (ty_with(m, &mut |m| Lk::lk(&rf, m)), key(m))).collect();
    eqs(ctx, &format!("{what}, inline at level 2"), &pool);
    let pool: Pool<Ty<TranspileRef>> =
        all.iter().filter(|m| !has_named(m)).map(|m| (ty_with(m, &mut |m| transpile(m)), key(m))).collect();
    eqs(ctx, &format!("{what}, symbolic"), &pool);
    // in a system: parts are ids
    let mut sys: Pool<Ty<SemId>> = vec![];
    for m in &all {
        let ty = ty_with(m, &mut |m| match m {
            M::Named(n, m) => sid(nested_id(Some(n), m)),
            m => sid(nested_id(None, m)),
        });
        sys.push((ty, key(m)));
    }
    // equal ids are equal parts, whatever stands behind them
    let sys: Pool<Ty<SemId>> = sys.into_iter().map(|(t, _)| { let k = key(&t); (t, k) }).collect();
    eqs(ctx, &format!("{what}, system"), &sys);
    macro_rules! parts {
        ($name:literal, $pat:pat => $x:expr) => {{
            let p: Vec<_> = sys.iter().filter_map(|(t, k)| if let $pat = t { Some(($x.clone(), k.clone())) } else { None }).collect();
            orders(ctx, &format!("{what}, {}", $name), &p);
        }};
    }
    parts!("variants of an enum", Ty::Enum(v) => v);
    parts!("variants of a union", Ty::Union(v) => v);
    parts!("named fields", Ty::Struct(v) => v);
    parts!("unnamed fields", Ty::Tuple(v) => v);
    let fields: Pool<ast::Field<SemId>> = sys
        .iter()
        .filter_map(|(t, _)| if let Ty::Struct(v) = t { Some(v.iter().cloned().map(|f| { let k = key(&f); (f, k) }).collect::<Vec<_>>()) } else { None })
        .flatten()
        .take(300)
        .collect();
    orders(ctx, &format!("{what}, field"), &fields);
}

fn libraries(ctx: &mut Ctx, w: &World, step: usize) {
    let mut all = vec![w.clone()];
    all.extend(lib_edits(w, step));
    all.push(w.clone());
    if all.len() > ctx.by_tier(400, 1200) {
        all = all.into_iter().step_by(3).collect();
    }
    // ids which don't tell apart some definitions are the business of C05
    all.retain(|w| !w.libs.iter().any(|l| l.types.iter().any(|t| ambiguous(&t.1))));
    let what = short(&w.show(), 200);
    let last = |w: &World| w.libs.last().unwrap().clone();
    // the content: the definition and what it stands for in the other libraries
    let content = |w: &World| {
        let l = last(w);
        let deps: BTreeMap<_, _> = l.deps.iter().map(|d| (d.clone(), w.lib_ids[d])).collect();
        let mut types = l.types.clone();
        types.sort();
        format!("{} {deps:?} {types:?}", l.name)
    };
    let pool: Pool<_> = all.iter().map(|w| (w.type_lib(&last(w)), content(w))).collect();
    eqs(ctx, &format!("libraries like {what}"), &pool);
    let pool: Pool<_> = all.iter().map(|w| (w.symbolic(&last(w)), content(w))).collect();
    eqs(ctx, &format!("symbolic libraries like {what}"), &pool);
    let mut systems = vec![];
    let mut symbolic = vec![];
    let mut names = vec![];
    for w in &all {
        let libs: Vec<_> = w.libs.iter().collect();
        let e = w.expected(&libs);
        if e.clash {
            continue;
        }
        let tl: Vec<_> = w.libs.iter().map(|l| w.type_lib(l)).collect();
        let Ok(Ok(s)) = guard(|| link(tl.iter())) else { continue };
        let t = format!("{:?}", e.types.iter().map(|x| x.0.to_byte_array()).collect::<Vec<_>>());
        let n = format!("{:?} {:?}", w.libs.iter().map(|l| w.lib_ids[&l.name]).collect::<std::collections::BTreeSet<_>>(), e.names);
        systems.push((s.as_types().clone(), t.clone()));
        names.push((s.as_symbols().clone(), n.clone()));
        symbolic.push((s, format!("{t} {n}")));
    }
    eqs(ctx, &format!("systems like {what}"), &systems);
    eqs(ctx, &format!("symbols like {what}"), &names);
    eqs(ctx, &format!("symbolic systems like {what}"), &symbolic);
}

/// Structures are equal whatever the order of their fields
fn sorted(x: &X) -> String {
    let all = |v: &[X]| v.iter().map(sorted).collect::<Vec<_>>().join(",");
    match x {
        X::Tuple(v) => format!("T({})", all(v)),
        X::List(v) => format!("L({})", all(v)),
        X::Set(v) => format!("S({})", all(v)),
        X::Struct(v) => {
            let m: BTreeMap<_, _> = v.iter().map(|(n, x)| (n, sorted(x))).collect();
            format!("R{m:?}")
        }
        X::UnionN(n, x) => format!("UN{n}({})", sorted(x)),
        X::UnionO(n, x) => format!("UO{n}({})", sorted(x)),
        X::Map(v) => format!("M({})", v.iter().map(|(k, x)| format!("{}={}", sorted(k), sorted(x))).collect::<Vec<_>>().join(",")),
        x => format!("{x:?}"),
    }
}

pub fn c34(ctx: &mut Ctx) {
    // ids
    let arr = arrays();
    keys(ctx, "semantic ids", &arr.iter().map(|a| (sid(*a), hexa(a))).collect());
    keys(ctx, "library ids", &arr.iter().map(|a| (lid(*a), hexa(a))).collect());
    keys(ctx, "system ids", &arr.iter().map(|a| (TypeSysId::from_byte_array(*a), hexa(a))).collect());
    let urns = few_arrays().iter().flat_map(|a| [(Urn::Lib(lid(*a)), format!("lib {}", hexa(a))), (Urn::Type(sid(*a)), format!("type {}", hexa(a)))]).collect();
    keys(ctx, "resource names", &urns);
    // names and references
    let few = few_arrays();
    let fqns: Pool<TypeFqn> = NAMES
        .iter()
        .flat_map(|l| NAMES.iter().map(move |n| (TypeFqn::with(lname(l), tname(n)), format!("{l}.{n}"))))
        .collect();
    keys(ctx, "qualified names", &fqns);
    let symbols: Pool<TypeSymbol> = few
        .iter()
        .flat_map(|a| {
            let f = fqns.iter().step_by(17).map(|(f, k)| (TypeSymbol::with(sid(*a), f.clone()), format!("{a:?} {k}")));
            f.chain([(TypeSymbol::unnamed(sid(*a)), format!("{a:?}"))]).collect::<Vec<_>>()
        })
        .collect();
    keys(ctx, "symbols", &symbols);
    // the id of a library commits to its name: dependencies with one id have one name
    let deps: Pool<Dependency> =
        arr.iter().enumerate().map(|(i, a)| (Dependency::with(lid(*a), lname(if *a == [0; 32] { "Lib" } else { NAMES[i % 5] })), hexa(a))).collect();
    keys(ctx, "dependencies", &deps);
    let exts: Pool<ExternRef> =
        few.iter().flat_map(|a| few.iter().map(move |b| (ExternRef::with(lid(*a), sid(*b)), format!("{a:?} {b:?}")))).collect();
    eqs(ctx, "external references", &exts);
    eqs(ctx, "references", &exts.iter().map(|(e, k)| (LibRef::Extern(e.clone()), k.clone())).chain(few.iter().map(|a| (LibRef::Named(sid(*a)), key(a)))).collect());
    let mut syms: Pool<SymbolRef> = vec![];
    for a in &few[..4] {
        for b in &few[..4] {
            for (f, k) in fqns.iter().step_by(13) {
                syms.push((SymbolRef::with(f.lib.clone(), f.name.clone(), lid(*a), sid(*b)), format!("{a:?} {b:?} {k}")));
            }
        }
    }
    eqs(ctx, "symbolic references", &syms);
    let mut refs: Pool<TranspileRef> = syms.iter().step_by(5).map(|(s, k)| (TranspileRef::Extern(s.clone()), k.clone())).collect();
    refs.extend(NAMES.iter().map(|n| (TranspileRef::Named(tname(n)), n.to_string())));
    eqs(ctx, "transpiled references", &refs);
    keys(ctx, "formats", &[StlFormat::Source, StlFormat::Binary, StlFormat::Armored].into_iter().map(|f| (f, key(&f))).collect());
    // definitions
    let mut all = depth2();
    if ctx.thorough() {
        all.extend(depth3());
    }
    let step = ctx.by_tier(5, 1);
    let pool: Vec<M> = all.iter().step_by(step).take(ctx.by_tier(2500, 9000)).cloned().collect();
    definitions(ctx, "definitions", &pool);
    for m in &all {
        if !ctx.mine() {
            continue;
        }
        let mut family = vec![m.clone()];
        family.extend(edits(m).into_iter().take(60));
        ctx.alone(|ctx| definitions(ctx, &format!("neighbours of {}", m.show()), &family));
    }
    // all enums and unions over two names and three tags, with one to three variants
    let mut enums = vec![];
    let mut unions = vec![];
    let mut structs = vec![];
    let names = ["a", "b", "none", "some"];
    for n in 1..=3usize {
        for t in [[0u8, 1, 2], [0, 2, 3], [1, 2, 255], [0, 1, 255], [5, 6, 7]] {
            for code in 0..names.len().pow(n as u32) {
                let ns: Vec<&str> = (0..n).map(|i| names[code / names.len().pow(i as u32) % names.len()]).collect();
                if (0..n).any(|i| ns[..i].contains(&ns[i])) {
                    continue;
                }
                let v: Vec<(&str, u8)> = ns.iter().copied().zip(t).collect();
                enums.push(enm(&v));
                for tys in [[U8, U8, U8], [U8, U16, U8], [0, U8, U8]] {
                    unions.push(M::Union(v.iter().zip(tys).map(|((n, t), c)| (n.to_string(), *t, prim(c))).collect()));
                    structs.push(M::Struct(ns.iter().zip(tys).map(|(n, c)| (n.to_string(), prim(c))).collect()));
                    structs.push(M::Tuple(tys[..n].iter().map(|c| prim(*c)).collect()));
                }
            }
        }
    }
    definitions(ctx, "enums", &enums);
    definitions(ctx, "unions", &unions.into_iter().step_by(ctx.by_tier(2, 1)).collect::<Vec<_>>());
    structs.sort();
    structs.dedup();
    definitions(ctx, "structs", &structs);
    // libraries and systems
    for w in worlds().into_iter().chain(shapes()) {
        if ctx.mine() {
            ctx.alone(|ctx| libraries(ctx, &w, ctx.by_tier(9, 1)));
        }
    }
    // paths
    let blob = |b: &[u8]| KeyStep::TinyBlob(TinyBlob::try_from(b.to_vec()).unwrap());
    let text = |t: &str| KeyStep::TinyString(TinyString::try_from(t.to_string()).unwrap());
    let mut ks: Pool<KeyStep> = vec![];
    for n in [0u128, 1, 97, 255, 256, u32::MAX as u128, u64::MAX as u128, u64::MAX as u128 + 1, 1 << 127, u128::MAX] {
        ks.push((KeyStep::Number(n), format!("n{n}")));
    }
    for b in [&b""[..], b"a", b"ab", b"b", b"\0", b"\0\0", b"61", b"0", b"1"] {
        ks.push((blob(b), format!("b{b:?}")));
        ks.push((text(std::str::from_utf8(b).unwrap()), format!("t{b:?}")));
    }
    for n in [254usize, 255] {
        for c in ["a", "b"] {
            ks.push((blob(c.repeat(n).as_bytes()), format!("b{c}{n}")));
            ks.push((text(&c.repeat(n)), format!("t{c}{n}")));
        }
    }
    keys(ctx, "keys", &ks);
    let mut steps: Pool<value::Step> = PARTS.iter().map(|n| (value::Step::NamedField(fname(n)), format!("f{n}"))).collect();
    steps.extend([0u8, 1, 2, 97, 127, 128, 255].map(|i| (value::Step::UnnamedField(i), format!("u{i}"))));
    steps.extend([0u32, 1, 2, 97, 255, 256, 1 << 16, 1 << 31, u32::MAX].map(|i| (value::Step::Index(i), format!("i{i}"))));
    steps.extend(ks.iter().map(|(k, n)| (value::Step::Key(k.clone()), format!("k{n}"))));
    keys(ctx, "steps", &steps);
    let few: Vec<_> = steps.iter().step_by(ctx.by_tier(9, 6)).cloned().collect();
    let mut paths: Pool<value::Path> = vec![(value::Path::new(), s!(""))];
    let mut last = paths.clone();
    for _ in 0..3 {
        let next: Pool<value::Path> = last
            .iter()
            .flat_map(|(p, k)| {
                few.iter().map(move |(s, n)| {
                    let mut p = p.clone();
                    p.push(s.clone()).unwrap();
                    (p, format!("{k}/{n}"))
                })
            })
            .collect();
        paths.extend(next.clone());
        last = next;
    }
    paths.truncate(ctx.by_tier(1200, 6000));
    keys(ctx, "paths", &paths);
    let mut tsteps: Pool<ast::Step> = PARTS.iter().flat_map(|n| [(ast::Step::NamedField(fname(n)), format!("f{n}")), (ast::Step::Variant(vname(n)), format!("v{n}"))]).collect();
    tsteps.extend((0..=255u8).map(|i| (ast::Step::UnnamedField(i), format!("u{i}"))));
    tsteps.extend([ast::Step::Index, ast::Step::List, ast::Step::Set, ast::Step::MapKey, ast::Step::MapValue].map(|s| { let k = key(&s); (s, k) }));
    keys(ctx, "steps in types", &tsteps);
    let few: Vec<_> = tsteps.iter().step_by(ctx.by_tier(31, 21)).cloned().collect();
    let mut paths: Pool<ast::Path> = vec![(ast::Path::new(), s!(""))];
    for (a, ka) in &few {
        paths.push((ast::Path::with(a.clone()), ka.clone()));
        for (b, kb) in &few {
            let mut p = ast::Path::with(a.clone());
            p.push(b.clone()).unwrap();
            paths.push((p, format!("{ka}/{kb}")));
        }
    }
    keys(ctx, "paths in types", &paths);
    let mut items: Pool<ItemCase> = vec![];
    for i in [0u8, 1, 2, 255] {
        items.push((ItemCase::UnnamedField(i), format!("u{i}")));
        for n in PARTS {
            items.push((ItemCase::NamedField(i, fname(n)), format!("f{i}{n}")));
            items.push((ItemCase::UnionVariant(i, vname(n)), format!("v{i}{n}")));
        }
    }
    items.extend([ItemCase::ArrayItem, ItemCase::ListItem, ItemCase::SetItem, ItemCase::MapKey, ItemCase::MapValue].map(|s| { let k = key(&s); (s, k) }));
    hashes(ctx, "parts of types", &items);
    // versions
    let id = |s: &str| Ident::from(s.to_string().leak() as &'static str);
    let mut vers: Pool<SemVer> = vec![];
    let pres = [None, Some(PreFragment::Digits(0)), Some(PreFragment::Digits(1 << 64)), Some(PreFragment::Ident(id("a"))), Some(PreFragment::Ident(id("b")))];
    let builds = [None, Some(BuildFragment::Ident(id("a"))), Some(BuildFragment::Ident(id("b"))), Some(BuildFragment::Digits(id("a")))];
    for n in 0..27 {
        let num = |i: u32| [0u16, 1, 256][n / 3usize.pow(i) % 3];
        for (i, p) in pres.iter().enumerate() {
            for (j, b) in builds.iter().enumerate() {
                let mut v = SemVer::new(num(2), num(1), num(0));
                v.pre = TinyVec::try_from(p.iter().cloned().collect::<Vec<_>>()).unwrap();
                v.build = TinyVec::try_from(b.iter().cloned().collect::<Vec<_>>()).unwrap();
                vers.push((v, format!("{n} {i} {j}")));
            }
        }
    }
    hashes(ctx, "versions", &vers);
    // values
    let mut nums: Pool<StrictNum> = vec![];
    let mut tags: Pool<EnumTag> = PARTS.iter().map(|n| (EnumTag::Name(vname(n)), format!("n{n}"))).collect();
    tags.extend((0..=255u8).map(|t| (EnumTag::Ord(t), format!("o{t}"))));
    hashes(ctx, "tags", &tags);
    let scalars = scalars_x();
    for x in &scalars {
        if let strict_types::StrictVal::Number(n) = direct(x) {
            nums.push((n, key(x)));
        }
    }
    keys(ctx, "numbers", &nums);
    let mut vals = scalars.clone();
    vals.extend(compounds(&few_x(), true));
    vals.extend(compounds(&compounds(&few_x()[..2], false), false).into_iter().step_by(ctx.by_tier(7, 1)));
    vals.push(X::Struct(vec![("a", X::U(1)), ("b", X::U(2))]));
    vals.push(X::Struct(vec![("b", X::U(2)), ("a", X::U(1))]));
    vals.truncate(ctx.by_tier(1500, 9000));
    let vals: Pool<strict_types::StrictVal> = vals.iter().map(|x| (direct(x), sorted(x))).collect();
    eqs(ctx, "values", &vals);
}
