//! C16, C17, C18: paths in values, paths in types, introspection of definitions




use amplify::confinement::{TinyBlob, TinyString};
use indexmap::IndexMap;
use strict_types::ast::{self, ItemCase};
use strict_types::typelib::{InlineRef, InlineRef1, InlineRef2};
use strict_types::value::{EnumTag, KeyStep, Path, PathError, Step, StrictNum};
use strict_types::{Cls, LibRef, SemId, StrictVal, TranspileRef, Ty, TypeRef};

use crate::core::*;
use crate::libs::*;
use crate::model::*;
use crate::sysb::*;
use crate::universe::*;

// ------------------------------------------------------------------------------------------------------------ C16

fn key_means(k: &KeyStep, v: &StrictVal) -> bool {
    match (k, v) {
        (KeyStep::Number(n), StrictVal::Number(StrictNum::Uint(m))) => *n == *m as u128,
        (KeyStep::Number(n), StrictVal::Enum(EnumTag::Ord(m))) => *n == *m as u128,
        (KeyStep::TinyBlob(b), StrictVal::Bytes(c)) => b.as_slice() == &c.0[..],
        (KeyStep::TinyString(s), StrictVal::String(c)) => s.as_str() == c.as_str(),
        _ => false,
    }
}

/// The meaning of a single step
fn value_step<'a>(v: &'a StrictVal, s: &Step) -> Result<&'a StrictVal, PathError> {
    match s {
        Step::UnnamedField(n) => {
            if let StrictVal::Tuple(f) = v {
                return if (*n as usize) < f.len() { Ok(&f[*n as usize]) } else { Err(PathError::FieldNoOutOfBounds(*n, f.len())) };
            }
        }
        Step::NamedField(n) => {
            if let StrictVal::Struct(f) = v {
                for (k, x) in f {
                    if k.as_str() == n.as_str() {
                        return Ok(x);
                    }
                }
                return Err(PathError::UnknownFieldName(n.clone()));
            }
        }
        Step::Index(n) => {
            let items = match v {
                StrictVal::List(i) => Some(i),
                StrictVal::Set(i) => Some(i),
                _ => None,
            };
            if let Some(i) = items {
                return if (*n as u64) < i.len() as u64 {
                    Ok(&i[*n as usize])
                } else {
                    Err(PathError::CollectionIndexOutOfBounds(*n, i.len()))
                };
            }
        }
        Step::Key(k) => {
            if let StrictVal::Map(m) = v {
                for (key, x) in m {
                    if key_means(k, key) {
                        return Ok(x);
                    }
                }
                return Err(PathError::UnknownKey(k.clone()));
            }
        }
    }
    Err(PathError::TypeMismatch(s.clone(), v.clone()))
}

fn blob(b: &[u8]) -> KeyStep { KeyStep::TinyBlob(TinyBlob::try_from(b.to_vec()).unwrap()) }
fn text(t: &str) -> KeyStep { KeyStep::TinyString(TinyString::try_from(t.to_string()).unwrap()) }

fn value_steps(wide: bool) -> Vec<Step> {
    let mut s = vec![
        Step::NamedField(fname("a")),
        Step::NamedField(fname("b")),
        Step::NamedField(fname("zz")),
        Step::UnnamedField(0),
        Step::UnnamedField(1),
        Step::UnnamedField(3),
        Step::Index(0),
        Step::Index(1),
        Step::Index(3),
        Step::Key(KeyStep::Number(0)),
        Step::Key(KeyStep::Number(1)),
        Step::Key(KeyStep::Number(7)),
        Step::Key(text("a")),
        Step::Key(text("1")),
        Step::Key(blob(b"a")),
        Step::Key(blob(&[1])),
    ];
    if wide {
        s.extend([
            Step::UnnamedField(2),
            Step::UnnamedField(254),
            Step::UnnamedField(255),
            Step::Index(2),
            Step::Index(255),
            Step::Index(256),
            Step::Index(u32::MAX),
            Step::Index(0x8000_0000),
            Step::Key(KeyStep::Number(u64::MAX as u128)),
            Step::Key(KeyStep::Number(u64::MAX as u128 + 1)),
            Step::Key(KeyStep::Number(u64::MAX as u128 + 2)),
            Step::Key(KeyStep::Number(u128::MAX)),
            Step::Key(KeyStep::Number(256)),
            Step::Key(text("")),
            Step::Key(text("A")),
            Step::Key(blob(&[])),
            Step::Key(blob(&[0])),
            Step::NamedField(fname("aA")),
            Step::NamedField(fname("_")),
        ]);
    }
    s
}

fn keys() -> Vec<StrictVal> {
    vec![
        uint(0),
        uint(1),
        uint(u64::MAX),
        int(1),
        int(-1),
        sord(0),
        sord(1),
        sname("a"),
        sstr("a"),
        sstr("1"),
        sstr(""),
        sbytes(b"a"),
        sbytes(&[1]),
        sbytes(&[]),
        StrictVal::Unit,
        StrictVal::Tuple(vec![uint(1)]),
    ]
}

fn composites(pool: &[StrictVal], all_pairs: bool) -> Vec<StrictVal> {
    let mut res = vec![
        StrictVal::Tuple(vec![]),
        StrictVal::List(vec![]),
        StrictVal::Set(vec![]),
        StrictVal::Map(vec![]),
        StrictVal::Struct(IndexMap::new()),
    ];
    for (i, a) in pool.iter().enumerate() {
        res.push(StrictVal::Tuple(vec![a.clone()]));
        res.push(StrictVal::List(vec![a.clone()]));
        res.push(StrictVal::Set(vec![a.clone()]));
        res.push(sstruct(&[("a", a.clone())]));
        res.push(sstruct(&[("b", a.clone())]));
        res.push(StrictVal::Map(vec![(uint(1), a.clone())]));
        res.push(StrictVal::Map(vec![(sstr("a"), a.clone())]));
        res.push(StrictVal::Map(vec![(a.clone(), uint(5))]));
        res.push(sunion("a", a.clone()));
        res.push(sunion_ord(1, a.clone()));
        for (j, b) in pool.iter().enumerate() {
            if !all_pairs && (i + 1) % pool.len() != j {
                continue;
            }
            res.push(StrictVal::Tuple(vec![a.clone(), b.clone()]));
            res.push(StrictVal::List(vec![a.clone(), b.clone()]));
            res.push(StrictVal::Set(vec![a.clone(), b.clone()]));
            res.push(sstruct(&[("a", a.clone()), ("b", b.clone())]));
            res.push(sstruct(&[("b", a.clone()), ("a", b.clone())]));
            res.push(StrictVal::Map(vec![(uint(0), a.clone()), (sstr("1"), b.clone())]));
            res.push(StrictVal::Map(vec![(sbytes(b"a"), a.clone()), (sord(1), b.clone())]));
            res.push(StrictVal::Map(vec![(uint(1), a.clone()), (sord(1), b.clone()), (uint(1), a.clone())]));
            res.push(StrictVal::Tuple(vec![a.clone(), b.clone(), a.clone(), b.clone()]));
            res.push(StrictVal::List(vec![b.clone(), a.clone(), a.clone(), b.clone()]));
        }
    }
    res
}

fn check_value_path(ctx: &mut Ctx, v: &StrictVal, path: &[Step], want: &Result<&StrictVal, PathError>) {
    let show = || format!("{} at {}", short(&format!("{v:?}"), 200), path.iter().map(|s| s.to_string()).collect::<String>());
    ctx.case(show);
    ctx.transition();
    ctx.trace();
    let mut steps = Path::new();
    for s in path {
        steps.push(s.clone()).expect("short path");
    }
    let by_slice = guard(|| v.at_path(path));
    let by_path = guard(|| v.at_path(&steps));
    for (how, got) in [("slice", by_slice), ("path", by_path)] {
        let ok = match (&got, want) {
            (Ok(Ok(x)), Ok(y)) => std::ptr::eq(*x, *y),
            (Ok(Err(x)), Err(y)) => x == y,
            _ => false,
        };
        if !ok {
            ctx.fail(show(), format!("{how}: got {}, expected {}", short(&format!("{got:?}"), 400), short(&format!("{want:?}"), 400)), show());
        }
    }
    if steps.to_string() != path.iter().map(|s| s.to_string()).collect::<String>() || steps.iter().ne(path.iter()) {
        ctx.fail(format!("display {}", show()), "path is displayed differently than its steps", show());
    }
}

/// All paths up to a length; paths which leave the value are extended with one more step
fn walk_value<'a>(ctx: &mut Ctx, root: &'a StrictVal, cur: &'a StrictVal, path: &mut Vec<Step>, steps: &[Step], len: usize) {
    ctx.state();
    check_value_path(ctx, root, path, &Ok(cur));
    if path.len() == len {
        return;
    }
    for (i, s) in steps.iter().enumerate() {
        let next = value_step(cur, s);
        path.push(s.clone());
        match next {
            Ok(x) => walk_value(ctx, root, x, path, steps, len),
            Err(e) => {
                let e = Err(e);
                check_value_path(ctx, root, path, &e);
                // no later step brings the path back
                for t in [&steps[(i + 3) % steps.len()], s] {
                    path.push(t.clone());
                    check_value_path(ctx, root, path, &e);
                    path.pop();
                }
            }
        }
        path.pop();
    }
}

pub fn c16(ctx: &mut Ctx) {
    let leaves = [StrictVal::Unit, uint(1), sstr("a"), sbytes(b"a"), sord(1), sname("a"), int(-1)];
    let one = composites(&leaves[..3], true);
    let wide = value_steps(true);
    let few = value_steps(false);
    for v in leaves.iter().chain(&one).chain(&composites(&leaves, true)) {
        if ctx.mine() {
            walk_value(ctx, v, v, &mut vec![], &wide, 3);
        }
    }
    // all kinds of keys
    for k in keys() {
        for l in keys() {
            if ctx.mine() {
                let v = StrictVal::Map(vec![(k.clone(), sstr("first")), (l, StrictVal::Tuple(vec![uint(2)]))]);
                walk_value(ctx, &v, &v, &mut vec![], &wide, 2);
            }
        }
    }
    // keys which are easily confused
    let texts = ["a", " a", "a ", "a\n", "\ta", "A", "aa", "a\0", "\0", "\"a\"", "\u{e4}", "a\u{308}", "\u{c4}", "0x61", "61", "\\a", "ab", "b", "ba", "", " "];
    let numbers: Vec<u64> = [0u32, 8, 16, 31, 32, 48, 63].iter().flat_map(|s| [1u64 << s, (1 << s) - 1, (1 << s) + 1]).collect();
    let steps: Vec<Step> = texts
        .iter()
        .flat_map(|t| [text(t), blob(t.as_bytes())])
        .chain(texts.iter().map(|t| blob(&t.bytes().rev().collect::<Vec<_>>())))
        .chain(numbers.iter().flat_map(|n| [KeyStep::Number(*n as u128), KeyStep::Number(*n as u128 | 1 << 64)]))
        .map(Step::Key)
        .collect();
    let keys: Vec<StrictVal> = texts
        .iter()
        .flat_map(|t| [sstr(t), sbytes(t.as_bytes())])
        .chain(numbers.iter().flat_map(|n| [uint(*n), sord(*n as u8), int(*n as i64)]))
        .collect();
    for (i, k) in keys.iter().enumerate() {
        if !ctx.mine() {
            continue;
        }
        for l in [&keys[(i + 1) % keys.len()], &keys[(i + 2) % keys.len()], &keys[(i * 7 + 3) % keys.len()]] {
            let v = StrictVal::Map(vec![(k.clone(), sstr("first")), (l.clone(), uint(2))]);
            walk_value(ctx, &v, &v, &mut vec![], &steps, 1);
        }
    }
    // two levels
    let pool: Vec<StrictVal> = one.iter().step_by(ctx.by_tier(4, 1)).cloned().collect();
    let two = composites(&pool, false);
    for v in &two {
        if ctx.mine() {
            walk_value(ctx, v, v, &mut vec![], if ctx.thorough() { &wide } else { &few }, 4);
        }
    }
    // three and four levels
    let pool: Vec<StrictVal> = two.iter().step_by(ctx.by_tier(23, 5)).cloned().collect();
    let three = composites(&pool, false);
    for v in &three {
        if ctx.mine() {
            walk_value(ctx, v, v, &mut vec![], &few, 5);
        }
    }
    let pool: Vec<StrictVal> = three.iter().step_by(ctx.by_tier(61, 17)).cloned().collect();
    for v in composites(&pool, false) {
        if ctx.mine() {
            walk_value(ctx, &v, &v, &mut vec![], &few, 6);
        }
    }
    // many items
    for n in [254usize, 255, 256, 257, 300, 65536, 65537] {
        if !ctx.mine() {
            continue;
        }
        let items: Vec<StrictVal> = (0..n as u64).map(|i| StrictVal::Tuple(vec![uint(i)])).collect();
        for v in [
            StrictVal::Tuple(items.clone()),
            StrictVal::List(items.clone()),
            StrictVal::Set(items.clone()),
            StrictVal::Map(items.iter().enumerate().map(|(i, v)| (uint(i as u64), v.clone())).collect()),
        ] {
            ctx.state();
            let mut at: Vec<usize> = vec![0, 1, 127, 128, 253, 254, 255, 256, 299, 65534, 65535, 65536, n - 1, n, n + 1];
            at.dedup();
            for i in at {
                for s in [Step::UnnamedField(i as u8), Step::Index(i as u32), Step::Key(KeyStep::Number(i as u128))] {
                    let want = value_step(&v, &s);
                    check_value_path(ctx, &v, &[s.clone()], &want);
                    if let Ok(x) = want {
                        for t in [0, 1] {
                            let t = Step::UnnamedField(t);
                            check_value_path(ctx, &v, &[s.clone(), t.clone()], &value_step(x, &t));
                        }
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------------------ C17

fn embedded(m: &M) -> TranspileRef {
    match m {
        M::Named(n, _) => TranspileRef::Named(tname(n)),
        m => TranspileRef::Embedded(Box::new(inline_ty(m))),
    }
}
fn inline_ty(m: &M) -> Ty<TranspileRef> { ty_with(m, &mut |m| embedded(m)) }

/// The meaning of a single step: both in the model and in the definition
fn type_step<'a>(m: &'a M, ty: &'a Ty<TranspileRef>, s: &ast::Step) -> Option<(&'a M, &'a TranspileRef)> {
    use ast::Step as S;
    match (m, ty, s) {
        (M::Struct(f), Ty::Struct(g), S::NamedField(n)) => {
            let i = f.iter().position(|x| x.0 == n.as_str())?;
            Some((&f[i].1, &g.iter().nth(i)?.ty))
        }
        (M::Struct(f), Ty::Struct(g), S::UnnamedField(i)) => Some((&f.get(*i as usize)?.1, &g.iter().nth(*i as usize)?.ty)),
        (M::Tuple(f), Ty::Tuple(g), S::UnnamedField(i)) => Some((f.get(*i as usize)?, g.iter().nth(*i as usize)?)),
        (M::Union(f), Ty::Union(g), S::Variant(n)) => {
            let x = f.iter().find(|x| x.0 == n.as_str())?;
            Some((&x.2, g.iter().find(|(v, _)| v.name == *n)?.1))
        }
        (M::Union(f), Ty::Union(g), S::UnnamedField(t)) => {
            let x = f.iter().find(|x| x.1 == *t)?;
            Some((&x.2, g.iter().find(|(v, _)| v.tag == *t)?.1))
        }
        (M::Array(m, _), Ty::Array(r, _), S::Index) => Some((m, r)),
        (M::List(m, ..), Ty::List(r, _), S::List) => Some((m, r)),
        (M::Set(m, ..), Ty::Set(r, _), S::Set) => Some((m, r)),
        (M::Map(k, ..), Ty::Map(r, _, _), S::MapKey) => Some((k, r)),
        (M::Map(_, m, ..), Ty::Map(_, r, _), S::MapValue) => Some((m, r)),
        _ => None,
    }
}

fn type_steps(m: &M) -> Vec<ast::Step> {
    use ast::Step as S;
    let mut names: std::collections::BTreeSet<String> = ["zz".to_string(), "some".to_string(), "x".to_string()].into();
    let mut tags: std::collections::BTreeSet<u8> = [0, 1, 2, 5, 255].into();
    fn collect(m: &M, names: &mut std::collections::BTreeSet<String>, tags: &mut std::collections::BTreeSet<u8>) {
        match m {
            M::Struct(f) => f.iter().for_each(|x| {
                names.insert(x.0.clone());
                collect(&x.1, names, tags)
            }),
            M::Union(f) => f.iter().for_each(|x| {
                names.insert(x.0.clone());
                tags.insert(x.1);
                collect(&x.2, names, tags)
            }),
            M::Enum(v) => v.iter().for_each(|x| {
                names.insert(x.0.clone());
                tags.insert(x.1);
            }),
            M::Tuple(f) => f.iter().for_each(|x| collect(x, names, tags)),
            M::Array(m, _) | M::List(m, ..) | M::Set(m, ..) => collect(m, names, tags),
            M::Map(k, m, ..) => {
                collect(k, names, tags);
                collect(m, names, tags)
            }
            _ => {}
        }
    }
    collect(m, &mut names, &mut tags);
    let mut res = vec![S::Index, S::List, S::Set, S::MapKey, S::MapValue];
    for n in names.iter().take(24) {
        res.push(S::NamedField(fname(n)));
        res.push(S::Variant(vname(n)));
    }
    res.extend(tags.iter().take(16).map(|t| S::UnnamedField(*t)));
    res
}

fn check_type_path(
    ctx: &mut Ctx,
    root_m: &M,
    root: &Ty<TranspileRef>,
    path: &[ast::Step],
    want: Result<(&M, &Ty<TranspileRef>), usize>,
) {
    let show = || format!("{} at {}", short(&root_m.show(), 300), path.iter().map(|s| s.to_string()).collect::<String>());
    ctx.case(show);
    ctx.transition();
    ctx.trace();
    let mut steps = ast::Path::new();
    for s in path {
        steps.push(s.clone()).expect("short path");
    }
    let ok = match (guard(|| root.at_path(&steps)), want) {
        (Ok(Ok(t)), Ok((m, u))) => {
            std::ptr::eq(t, u) && {
                let same = *t == inline_ty(m);
                assert!(same, "harness: model and definition are out of step");
                same
            }
        }
        (Ok(Err(e)), Err(n)) => e.path.iter().eq(path[..n].iter()) && *e.ty == *root,
        _ => false,
    };
    if !ok {
        let got = guard(|| root.at_path(&steps).map_err(|e| (e.path.to_string(), e.to_string())));
        let want = want.map(|x| x.0.show());
        ctx.fail(show(), format!("got {}, expected {want:?}", short(&format!("{got:?}"), 500)), show());
    }
}

fn walk_type(
    ctx: &mut Ctx,
    root_m: &M,
    root: &Ty<TranspileRef>,
    cur_m: &M,
    cur: &Ty<TranspileRef>,
    path: &mut Vec<ast::Step>,
    steps: &[ast::Step],
    len: usize,
) {
    ctx.state();
    check_type_path(ctx, root_m, root, path, Ok((cur_m, cur)));
    if path.len() == len {
        return;
    }
    for (i, s) in steps.iter().enumerate() {
        path.push(s.clone());
        let next = type_step(cur_m, cur, s).and_then(|(m, r)| match r {
            TranspileRef::Embedded(t) => Some((m, &**t)),
            _ => None,
        });
        match next {
            Some((m, t)) => walk_type(ctx, root_m, root, m, t, path, steps, len),
            None => {
                let n = path.len();
                check_type_path(ctx, root_m, root, path, Err(n));
                for t in [&steps[(i + 1) % steps.len()], &steps[(i * 7 + 2) % steps.len()], s] {
                    path.push(t.clone());
                    check_type_path(ctx, root_m, root, path, Err(n));
                    path.pop();
                }
            }
        }
        path.pop();
    }
}

pub fn c17(ctx: &mut Ctx) {
    let mut pool = depth2();
    pool.extend(depth3().into_iter().step_by(ctx.by_tier(2, 1)));
    pool.extend(depth4().into_iter().step_by(ctx.by_tier(9, 1)));
    // deeper ones, with each pair of composites next to each other
    let c = contexts();
    for (i, a) in c.iter().enumerate() {
        for (j, b) in c.iter().enumerate() {
            let m = strct(&[("n", prim(U8)), ("o", option(enm(&[("x", 3)])))]);
            for k in [&c[(i + j) % c.len()], &c[(i * 3 + j * 5 + 1) % c.len()]] {
                pool.push(a.1(b.1(k.1(a.1(m.clone())))));
            }
        }
    }
    // many members with sparse tags
    for n in [12usize, 127, 255] {
        pool.push(M::Struct((0..n).map(|i| (format!("f{i}"), array(prim(U8), i as u16))).collect()));
        pool.push(M::Tuple((0..n).map(|i| array(prim(U8), i as u16)).collect()));
        pool.push(M::Union((0..n).map(|i| (format!("v{}", n - i), (255 - n + i) as u8, array(prim(U8), i as u16))).collect()));
    }
    for m in &pool {
        if !ctx.mine() || matches!(m, M::Named(..)) {
            continue;
        }
        let ty = inline_ty(m);
        let steps = type_steps(m);
        walk_type(ctx, m, &ty, m, &ty, &mut vec![], &steps, 5);
        if let M::Union(_) | M::Struct(_) | M::Tuple(_) = m {
            for t in 0..=255u8 {
                let s = ast::Step::UnnamedField(t);
                let want = match type_step(m, &ty, &s) {
                    Some((m, TranspileRef::Embedded(t))) => Ok((m, &**t)),
                    _ => Err(1),
                };
                check_type_path(ctx, m, &ty, &[s], want);
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------------------ C18

/// Labels and definitions of all members
fn members(m: &M) -> Vec<(ItemCase, M)> {
    match m {
        M::Prim(_) | M::Uni | M::Enum(_) => vec![],
        M::Union(f) => f.iter().map(|(n, t, m)| (ItemCase::UnionVariant(*t, vname(n)), m.clone())).collect(),
        M::Struct(f) => f.iter().enumerate().map(|(i, (n, m))| (ItemCase::NamedField(i as u8, fname(n)), m.clone())).collect(),
        M::Tuple(f) => f.iter().enumerate().map(|(i, m)| (ItemCase::UnnamedField(i as u8), m.clone())).collect(),
        M::Array(m, _) => vec![(ItemCase::ArrayItem, (**m).clone())],
        M::List(m, ..) => vec![(ItemCase::ListItem, (**m).clone())],
        M::Set(m, ..) => vec![(ItemCase::SetItem, (**m).clone())],
        M::Map(k, m, ..) => vec![(ItemCase::MapKey, (**k).clone()), (ItemCase::MapValue, (**m).clone())],
        M::Named(..) => unreachable!(),
    }
}

fn cls(m: &M) -> Cls {
    match m {
        M::Prim(_) => Cls::Primitive,
        M::Uni => Cls::Unicode,
        M::Enum(_) => Cls::Enum,
        M::Union(_) => Cls::Union,
        M::Struct(_) => Cls::Struct,
        M::Tuple(_) => Cls::Tuple,
        M::Array(..) => Cls::Array,
        M::List(..) => Cls::List,
        M::Set(..) => Cls::Set,
        M::Map(..) => Cls::Map,
        M::Named(..) => unreachable!(),
    }
}

trait Build: TypeRef {
    const INLINE: bool;
    fn build(m: &M) -> Self;
    /// Are the contents of inline members visible through the reference?
    fn visible(m: &M) -> bool { Self::INLINE && !matches!(m, M::Named(..)) }
    fn byte(m: &M) -> bool { Self::visible(m) && m.is_byte() }
    fn uni(m: &M) -> bool { Self::visible(m) && m.is_uni() }
}
impl Build for SemId {
    const INLINE: bool = false;
    fn build(m: &M) -> Self {
        match m {
            M::Named(n, m) => sid(nested_id(Some(n), m)),
            m => sid(nested_id(None, m)),
        }
    }
    fn byte(m: &M) -> bool { m.is_byte() }
    fn uni(m: &M) -> bool { m.is_uni() }
}
impl Build for TranspileRef {
    const INLINE: bool = true;
    fn build(m: &M) -> Self { embedded(m) }
}
fn resolve(n: &str, m: &M) -> Rf { Rf::Named(sid(nested_id(Some(n), m))) }
impl Build for LibRef {
    const INLINE: bool = true;
    fn build(m: &M) -> Self { Lk::lk(&resolve, m) }
}
impl Build for InlineRef {
    const INLINE: bool = true;
    fn build(m: &M) -> Self { Lk::lk(&resolve, m) }
}
impl Build for InlineRef1 {
    const INLINE: bool = true;
    fn build(m: &M) -> Self { Lk::lk(&resolve, m) }
}
impl Build for InlineRef2 {
    const INLINE: bool = false;
    fn build(m: &M) -> Self { Lk::lk(&resolve, m) }
}

fn compound(m: &M) -> bool {
    match m {
        M::Enum(_) | M::Union(_) => true,
        M::Tuple(f) => f.len() > 1,
        M::Struct(f) => f.len() > 1,
        _ => false,
    }
}

fn char_enum_of<R: Build>(m: &M, deep: bool) -> bool {
    match m {
        M::Enum(v) => v.iter().all(|x| x.1 >= 32 && x.1 <= 127),
        // a newtype over an inline enum
        M::Tuple(f) if f.len() == 1 && deep && !matches!(f[0], M::Named(..)) => char_enum_of::<R>(&f[0], deep),
        _ => false,
    }
}

fn introspect<R: Build + 'static>(ctx: &mut Ctx, kind: &str, m: &M) {
    let show = || format!("{kind} {}", short(&m.show(), 300));
    ctx.case(show);
    ctx.state();
    ctx.trace();
    let ty: Ty<R> = ty_with(m, &mut |m| R::build(m));
    let list = members(m);
    let refs: Vec<R> = list.iter().map(|x| R::build(&x.1)).collect();
    let mut bad: Vec<String> = vec![];
    let mut eq = |what: &str, ok: bool| {
        if !ok {
            bad.push(what.to_string());
        }
    };
    let res = guard(|| {
        // iteration
        let want: Vec<(&R, Option<ItemCase>)> = refs.iter().zip(list.iter().map(|x| Some(x.0.clone()))).collect();
        eq("iter", ty.iter().collect::<Vec<_>>() == want);
        eq("type_refs", ty.type_refs().collect::<Vec<_>>() == want);
        eq("into_iter by reference", (&ty).into_iter().collect::<Vec<_>>() == want);
        eq("into_iter by value", ty.clone().into_iter().collect::<Vec<_>>() == refs);
        let mut it = ty.iter();
        for _ in 0..want.len() {
            eq("iter ends early", it.next().is_some());
        }
        for _ in 0..600 {
            eq("iter goes on", it.next().is_none());
        }
        eq("count_type_refs", ty.count_type_refs() as usize == list.len());
        for p in 0..=255u8 {
            eq("ty_at", ty.ty_at(p) == refs.get(p as usize));
            eq("case_at", ty.case_at(p).as_ref() == list.get(p as usize).map(|x| &x.0));
        }
        eq("cls", ty.cls() == cls(m));
        // lookups
        let names: Vec<String> = match m {
            M::Enum(v) => v.iter().map(|x| x.0.clone()).collect(),
            M::Union(v) => v.iter().map(|x| x.0.clone()).collect(),
            M::Struct(v) => v.iter().map(|x| x.0.clone()).collect(),
            _ => vec![],
        };
        let names: Vec<String> = names.into_iter().chain(["unknownName".to_string(), "somE".to_string()]).collect();
        match (&ty, m) {
            (Ty::Enum(e), M::Enum(v)) => {
                eq("enum len", e.len() == v.len());
                eq("enum iteration", e.iter().map(|x| (x.name.to_string(), x.tag)).eq(v.iter().cloned()));
                eq("enum iteration by reference", (&*e).into_iter().map(|x| (x.name.to_string(), x.tag)).eq(v.iter().cloned()));
                eq("enum iteration by value", e.clone().into_iter().map(|x| (x.name.to_string(), x.tag)).eq(v.iter().cloned()));
                eq("enum inner", e.clone().into_inner().into_iter().map(|x| (x.name.to_string(), x.tag)).eq(v.iter().cloned()));
                for t in 0..=255u8 {
                    let x = v.iter().find(|x| x.1 == t);
                    eq("enum has_tag", e.has_tag(t) == x.is_some());
                    eq("enum name_by_tag", e.name_by_tag(t).map(|n| n.as_str()) == x.map(|x| x.0.as_str()));
                    eq("enum by_tag", e.by_tag(t).map(|x| (x.name.as_str(), x.tag)) == x.map(|x| (x.0.as_str(), x.1)));
                }
                for n in &names {
                    let x = v.iter().find(|x| x.0 == *n);
                    let n = vname(n);
                    eq("enum has_name", e.has_name(&n) == x.is_some());
                    eq("enum tag_by_name", e.tag_by_name(&n) == x.map(|x| x.1));
                    eq("enum by_name", e.by_name(&n).map(|x| (x.name.as_str(), x.tag)) == x.map(|x| (x.0.as_str(), x.1)));
                }
            }
            (Ty::Union(u), M::Union(v)) => {
                let v: Vec<(&str, u8, &R)> = v.iter().zip(&refs).map(|(x, r)| (x.0.as_str(), x.1, r)).collect();
                eq("union len", u.len() == v.len());
                eq("union iteration", u.iter().map(|(x, r)| (x.name.as_str(), x.tag, r)).eq(v.iter().cloned()));
                eq("union iteration by reference", (&*u).into_iter().map(|(x, r)| (x.name.as_str(), x.tag, r)).eq(v.iter().cloned()));
                let own: Vec<_> = u.clone().into_iter().collect();
                eq("union iteration by value", own.iter().map(|(x, r)| (x.name.as_str(), x.tag, r)).eq(v.iter().cloned()));
                let own = u.clone().into_inner();
                eq("union inner", own.iter().map(|(x, r)| (x.name.as_str(), x.tag, r)).eq(v.iter().cloned()));
                eq("union keys", u.clone().into_keys().map(|x| (x.name.to_string(), x.tag)).eq(v.iter().map(|x| (x.0.to_string(), x.1))));
                eq("union values", u.clone().into_values().eq(refs.iter().cloned()));
                let name = |x: &strict_encoding::Variant| (x.name.to_string(), x.tag);
                eq("union first", name(u.unwrap_first()) == (v[0].0.to_string(), v[0].1));
                eq("union last", name(u.unwrap_last()) == (v[v.len() - 1].0.to_string(), v[v.len() - 1].1));
                for t in 0..=255u8 {
                    let x = v.iter().find(|x| x.1 == t).copied();
                    eq("union has_tag", u.has_tag(t) == x.is_some());
                    eq("union by_tag", u.by_tag(t).map(|(a, r)| (a.name.as_str(), a.tag, r)) == x);
                    eq("union ty_by_tag", u.ty_by_tag(t) == x.map(|x| x.2));
                    eq("union name_by_tag", u.name_by_tag(t).map(|n| n.as_str()) == x.map(|x| x.0));
                    let p = v.get(t as usize).copied();
                    eq("union ty_by_pos", u.ty_by_pos(t) == p.map(|x| x.2));
                    eq("union name_by_pos", u.name_by_pos(t).map(|n| n.as_str()) == p.map(|x| x.0));
                }
                for n in &names {
                    let x = v.iter().find(|x| x.0 == *n).copied();
                    let n = vname(n);
                    eq("union by_name", u.by_name(&n).map(|(a, r)| (a.name.as_str(), a.tag, r)) == x);
                    eq("union ty_by_name", u.ty_by_name(&n) == x.map(|x| x.2));
                    eq("union tag_by_name", u.tag_by_name(&n) == x.map(|x| x.1));
                }
            }
            (Ty::Struct(s), M::Struct(v)) => {
                let v: Vec<(&str, &R)> = v.iter().zip(&refs).map(|(x, r)| (x.0.as_str(), r)).collect();
                eq("struct len", s.len() == v.len());
                eq("struct iteration", s.iter().map(|f| (f.name.as_str(), &f.ty)).eq(v.iter().cloned()));
                eq("struct iteration by reference", (&*s).into_iter().map(|f| (f.name.as_str(), &f.ty)).eq(v.iter().cloned()));
                let own: Vec<_> = s.clone().into_iter().collect();
                eq("struct iteration by value", own.iter().map(|f| (f.name.as_str(), &f.ty)).eq(v.iter().cloned()));
                eq("struct inner", s.clone().into_inner() == own);
                for p in 0..=255u8 {
                    eq("struct ty_by_pos", s.ty_by_pos(p) == v.get(p as usize).map(|x| x.1));
                }
                for n in &names {
                    eq("struct ty_by_name", s.ty_by_name(&fname(n)) == v.iter().find(|x| x.0 == n).map(|x| x.1));
                }
            }
            (Ty::Tuple(t), M::Tuple(_)) => {
                eq("tuple len", t.len() == refs.len());
                eq("tuple iteration", t.iter().eq(refs.iter()));
                eq("tuple iteration by reference", (&*t).into_iter().eq(refs.iter()));
                eq("tuple iteration by value", t.clone().into_iter().eq(refs.iter().cloned()));
                eq("tuple inner", t.clone().into_inner() == refs);
                for p in 0..=255u8 {
                    eq("tuple ty_by_pos", t.ty_by_pos(p) == refs.get(p as usize));
                }
            }
            _ => {}
        }
        // classification
        let some = match m {
            M::Union(v) if m.is_option() => {
                assert_eq!(v.len(), 2);
                Some(&refs[1])
            }
            _ => None,
        };
        eq("is_option", ty.is_option() == some.is_some());
        eq("as_some", ty.as_some() == some);
        eq("is_newtype", ty.is_newtype() == matches!(m, M::Tuple(f) if f.len() == 1));
        eq("is_byte_array", ty.is_byte_array() == matches!(m, M::Array(x, _) if R::byte(x)));
        eq("is_char_enum", ty.is_char_enum() == char_enum_of::<R>(m, refs.first().is_some_and(|r| r.as_ty().is_some())));
        eq("is_collection", ty.is_collection() == matches!(m, M::Array(..) | M::List(..) | M::Set(..) | M::Map(..)));
        eq("is_primitive", ty.is_primitive() == matches!(m, M::Prim(_) | M::Uni));
        eq("is_compound", ty.is_compound() == compound(m));
        eq("is_byte", ty.is_byte() == m.is_byte());
        eq("is_unicode_char", ty.is_unicode_char() == m.is_uni());
        for (r, (_, x)) in refs.iter().zip(&list) {
            eq("member is_byte", r.is_byte() == R::byte(x));
            eq("member is_unicode_char", r.is_unicode_char() == R::uni(x));
            eq("member is_compound", r.is_compound() == (R::visible(x) && compound(x)));
        }
    });
    ctx.transitions(1 + list.len() as u64);
    if let Err(p) = res {
        bad.push(p);
    }
    if !bad.is_empty() {
        bad.sort();
        bad.dedup();
        ctx.fail(format!("{} {}", bad.join(","), show()), bad.join(", "), show());
    }
}

/// What can be seen through references with inline definitions
fn through(ctx: &mut Ctx, m: &M) {
    let show = || format!("references to {}", short(&m.show(), 300));
    ctx.case(show);
    ctx.state();
    ctx.trace();
    ctx.transition();
    let r = embedded(m);
    let list = if matches!(m, M::Named(..)) { vec![] } else { members(m) };
    let refs: Vec<TranspileRef> = list.iter().map(|x| embedded(&x.1)).collect();
    let want: Vec<_> = refs.iter().zip(list.iter().map(|x| Some(x.0.clone()))).collect();
    let res = guard(|| {
        let ty = match m {
            M::Named(..) => None,
            m => Some(inline_ty(m)),
        };
        let mut bad = vec![];
        if r.as_ty() != ty.as_ref() {
            bad.push("as_ty");
        }
        if r.type_refs().collect::<Vec<_>>() != want {
            bad.push("type_refs");
        }
        if let (Some(ty), M::Tuple(f)) = (&ty, m) {
            let inner = match &f[..] {
                [M::Named(..)] => None,
                [x] => Some(inline_ty(x)),
                _ => None,
            };
            if ty.as_wrapped_ty() != inner.as_ref() {
                bad.push("as_wrapped_ty");
            }
        } else if let Some(ty) = &ty {
            if ty.as_wrapped_ty().is_some() {
                bad.push("as_wrapped_ty");
            }
        }
        bad.join(", ")
    });
    match res {
        Ok(b) if b.is_empty() => {}
        b => ctx.fail(format!("{b:?} {}", show()), format!("{b:?}"), show()),
    }
}

fn kinds(ctx: &mut Ctx, m: &M) {
    if matches!(m, M::Named(..)) {
        return;
    }
    introspect::<SemId>(ctx, "system", m);
    introspect::<TranspileRef>(ctx, "symbolic", m);
    let d = inline_depth(m);
    if d <= 3 {
        introspect::<LibRef>(ctx, "library", m);
    }
    if d <= 2 {
        introspect::<InlineRef>(ctx, "inline", m);
    }
    if d <= 1 {
        introspect::<InlineRef1>(ctx, "inline1", m);
    }
    if d == 0 {
        introspect::<InlineRef2>(ctx, "inline2", m);
    }
    through(ctx, m);
}

pub fn c18(ctx: &mut Ctx) {
    let mut pool = depth2();
    pool.extend(depth3());
    pool.extend(depth4().into_iter().step_by(ctx.by_tier(5, 1)));
    for m in depth2_few() {
        pool.push(tuple(vec![tuple(vec![tuple(vec![m.clone()])])]));
        pool.push(tuple(vec![m.clone(), prim(U8)]));
        pool.push(tuple(vec![prim(U8), m.clone()]));
        pool.push(named("Nm", m));
    }
    for m in &pool {
        if ctx.mine() {
            kinds(ctx, m);
        }
    }
    // all small assignments of tags and names: each order of names against each set of tags
    let tags = [0u8, 1, 2, 31, 32, 127, 128, 254, 255];
    let names = ["none", "some", "a", "zed"];
    let mem = [unit(), prim(U8), named("Own", prim(U16)), tuple(vec![prim(U8)])];
    for n in 1..=ctx.by_tier(3, 4) {
        let mut sets: Vec<Vec<u8>> = vec![];
        combos(&tags, n, &mut vec![], 0, &mut sets);
        let mut words: Vec<Vec<usize>> = vec![];
        arrangements(names.len(), n, &mut vec![], &mut words);
        for ts in &sets {
            if !ctx.mine() {
                continue;
            }
            for w in &words {
                let e: Vec<(String, u8)> = w.iter().zip(ts).map(|(i, t)| (names[*i].to_string(), *t)).collect();
                kinds(ctx, &M::Enum(e.clone()));
                let u = e.iter().enumerate().map(|(i, (n, t))| (n.clone(), *t, mem[i].clone())).collect();
                kinds(ctx, &M::Union(u));
                let u = e.iter().enumerate().map(|(i, (n, t))| (n.clone(), *t, mem[3 - i].clone())).collect();
                kinds(ctx, &M::Union(u));
                let s: Vec<(String, M)> = e.iter().enumerate().map(|(i, (n, _))| (n.clone(), mem[i].clone())).collect();
                kinds(ctx, &M::Struct(s));
            }
        }
    }
    // numbers of members up to the limit
    for n in 1..=255usize {
        if !ctx.mine() {
            continue;
        }
        let m = |i: usize| array(prim(U8), i as u16);
        kinds(ctx, &M::Tuple((0..n).map(m).collect()));
        kinds(ctx, &M::Struct((0..n).map(|i| (format!("f{}", n - i), m(i))).collect()));
        for shift in [0, 255 - n, 256 - n] {
            let v: Vec<(String, u8)> = (0..n).map(|i| (format!("v{}", n - i), (i + shift) as u8)).collect();
            kinds(ctx, &M::Enum(v.clone()));
            kinds(ctx, &M::Union(v.into_iter().enumerate().map(|(i, (n, t))| (n, t, m(i))).collect()));
        }
    }
    // single tags and character sets around the limits
    if ctx.mine() {
        for t in 0..=255u8 {
            kinds(ctx, &enm(&[("v", t)]));
            kinds(ctx, &tuple(vec![enm(&[("v", t)])]));
            kinds(ctx, &union(&[("v", t, prim(U8))]));
            if t != 65 {
                kinds(ctx, &enm(&[("v", t), ("w", 65)]));
            }
        }
        for c in 0..=255u8 {
            if Primitive::from_code(c) == Primitive::RESERVED {
                continue;
            }
            for m in [prim(c), array(prim(c), 2), tuple(vec![prim(c)]), list(prim(c), 0, 5)] {
                kinds(ctx, &m);
            }
        }
    }

}

use strict_encoding::Primitive;

fn combos(items: &[u8], n: usize, cur: &mut Vec<u8>, from: usize, out: &mut Vec<Vec<u8>>) {
    if cur.len() == n {
        out.push(cur.clone());
        return;
    }
    for i in from..items.len() {
        cur.push(items[i]);
        combos(items, n, cur, i + 1, out);
        cur.pop();
    }
}

fn arrangements(k: usize, n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if cur.len() == n {
        out.push(cur.clone());
        return;
    }
    for i in 0..k {
        if !cur.contains(&i) {
            cur.push(i);
            arrangements(k, n, cur, out);
            cur.pop();
        }
    }
}
