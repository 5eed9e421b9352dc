//! C31: the data of the crate itself against its published schema library; C32: paths in binary and text forms

use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

use amplify::confinement::{Confined, TinyBlob, TinyString};
use serde::de::DeserializeOwned;
use serde::Serialize;
use strict_encoding::{Ident, Sizing, StrictDecode, StrictEncode};
use strict_types::ast::{self, ItemCase};
use strict_types::typelib::{ExternRef, InlineRef, InlineRef1, InlineRef2};
use strict_types::typesys::{NestedCase, SystemBuilder, TypeFqn, TypeInfo, TypeSymbol, TypeSysId};
use strict_types::value::{self, KeyStep};
use strict_types::{Cls, Dependency, LibRef, SemId, StrictVal, SymbolRef, SymbolicSys, Ty, TypeLib, TypeLibId, TypeRef, TypeSystem};

use crate::codec::{mutate, probe, round};
use crate::core::*;
use crate::libs::*;
use crate::model::*;
use crate::sysb::*;
use crate::universe::*;

// ------------------------------------------------------------------------------------------------------------ C31

type Sv = StrictVal;

fn one(v: Sv) -> Sv { StrictVal::Tuple(vec![v]) }
fn rec(f: Vec<(&str, Sv)>) -> Sv { sstruct(&f) }
fn var(n: &str, v: Sv) -> Sv { sunion(n, v) }
fn var1(n: &str, v: Sv) -> Sv { var(n, one(v)) }
fn opt<T>(v: &Option<T>, f: impl Fn(&T) -> Sv) -> Sv {
    match v {
        None => var("none", StrictVal::Unit),
        Some(x) => var1("some", f(x)),
    }
}
fn name(n: &impl ToString) -> Sv { one(sstr(&n.to_string())) }
fn sem(i: &SemId) -> Sv { one(sbytes(i.as_slice())) }
fn libid(i: &TypeLibId) -> Sv { one(sbytes(i.as_slice())) }
fn sysid(i: &TypeSysId) -> Sv { one(sbytes(i.as_slice())) }
fn fqn(f: &TypeFqn) -> Sv { rec(vec![("lib", name(&f.lib)), ("name", name(&f.name))]) }
fn dep(d: &Dependency) -> Sv { rec(vec![("id", libid(&d.id)), ("name", name(&d.name))]) }
fn symbol(s: &TypeSymbol) -> Sv { rec(vec![("id", sem(&s.id)), ("fqn", opt(&s.fqn, fqn))]) }
fn sizing(s: &Sizing) -> Sv { rec(vec![("min", uint(s.min)), ("max", uint(s.max))]) }
fn ext(e: &ExternRef) -> Sv { rec(vec![("libId", libid(&e.lib_id)), ("semId", sem(&e.sem_id))]) }
fn symref(s: &SymbolRef) -> Sv {
    rec(vec![
        ("libName", name(&s.lib_name)),
        ("tyName", name(&s.ty_name)),
        ("libId", libid(&s.lib_id)),
        ("semId", sem(&s.sem_id)),
    ])
}

fn ty<R: TypeRef>(t: &Ty<R>, rf: &dyn Fn(&R) -> Sv) -> Sv {
    let tup = StrictVal::Tuple;
    match t {
        Ty::Primitive(p) => var1("primitive", one(uint(p.into_code() as u64))),
        Ty::UnicodeChar => var("unicode", StrictVal::Unit),
        Ty::Enum(v) => var1("enum",
            one(StrictVal::Set(
                v.iter().map(|x| rec(vec![("name", name(&x.name)), ("tag", uint(x.tag as u64))])).collect(),
            )),
        ),
        Ty::Union(v) => var1("union",
            one(StrictVal::Map(
                v.iter()
                    .map(|(x, r)| (uint(x.tag as u64), rec(vec![("name", name(&x.name)), ("ty", rf(r))])))
                    .collect(),
            )),
        ),
        Ty::Tuple(f) => var1("tuple", one(StrictVal::List(f.iter().map(rf).collect()))),
        Ty::Struct(f) => var1("struct",
            one(StrictVal::List(
                f.iter().map(|x| rec(vec![("name", name(&x.name)), ("ty", rf(&x.ty))])).collect(),
            )),
        ),
        Ty::Array(r, n) => var("array", tup(vec![rf(r), uint(*n as u64)])),
        Ty::List(r, s) => var("list", tup(vec![rf(r), sizing(s)])),
        Ty::Set(r, s) => var("set", tup(vec![rf(r), sizing(s)])),
        Ty::Map(k, r, s) => var("map", tup(vec![rf(k), rf(r), sizing(s)])),
    }
}
fn libref(r: &LibRef) -> Sv {
    match r {
        LibRef::Inline(t) => var1("inline", ty(t, &inline)),
        LibRef::Named(i) => var1("named", sem(i)),
        LibRef::Extern(e) => var1("extern", ext(e)),
    }
}
fn inline(r: &InlineRef) -> Sv {
    match r {
        InlineRef::Inline(t) => var1("inline", ty(t, &inline1)),
        InlineRef::Named(i) => var1("named", sem(i)),
        InlineRef::Extern(e) => var1("extern", ext(e)),
    }
}
fn inline1(r: &InlineRef1) -> Sv {
    match r {
        InlineRef1::Inline(t) => var1("inline", ty(t, &inline2)),
        InlineRef1::Named(i) => var1("named", sem(i)),
        InlineRef1::Extern(e) => var1("extern", ext(e)),
    }
}
fn inline2(r: &InlineRef2) -> Sv {
    match r {
        InlineRef2::Named(i) => var1("named", sem(i)),
        InlineRef2::Extern(e) => var1("extern", ext(e)),
    }
}
fn library(l: &TypeLib) -> Sv {
    rec(vec![
        ("name", name(&l.name)),
        ("dependencies", StrictVal::Set(l.dependencies.iter().map(dep).collect())),
        (
            "externTypes",
            StrictVal::Map(
                l.extern_types
                    .iter()
                    .map(|(n, m)| (name(n), StrictVal::Map(m.iter().map(|(i, n)| (sem(i), name(n))).collect())))
                    .collect(),
            ),
        ),
        ("types", StrictVal::Map(l.types.iter().map(|(n, t)| (name(n), ty(t, &libref))).collect())),
    ])
}
fn types(s: &TypeSystem) -> Sv { one(StrictVal::Map(s.iter().map(|(i, t)| (sem(i), ty(t, &sem))).collect())) }
fn item(i: &ItemCase) -> Sv {
    match i {
        ItemCase::UnnamedField(n) => var1("unnamedField", uint(*n as u64)),
        ItemCase::NamedField(n, f) => var("namedField", StrictVal::Tuple(vec![uint(*n as u64), name(f)])),
        ItemCase::UnionVariant(t, v) => var("unionVariant", StrictVal::Tuple(vec![uint(*t as u64), name(v)])),
        ItemCase::ArrayItem => var("arrayItem", StrictVal::Unit),
        ItemCase::ListItem => var("listItem", StrictVal::Unit),
        ItemCase::SetItem => var("setItem", StrictVal::Unit),
        ItemCase::MapKey => var("mapKey", StrictVal::Unit),
        ItemCase::MapValue => var("mapValue", StrictVal::Unit),
    }
}
fn nested(n: &NestedCase) -> Sv {
    let o = |f: &Option<TypeFqn>| opt(f, fqn);
    match n {
        NestedCase::NewType(f) => var1("newType", o(f)),
        NestedCase::Option => var("option", StrictVal::Unit),
        NestedCase::ByteStr => var("byteStr", StrictVal::Unit),
        NestedCase::AsciiStr(f) => var1("asciiStr", o(f)),
        NestedCase::UniStr => var("uniStr", StrictVal::Unit),
        NestedCase::RStr(a, b, s) => var("rStr", StrictVal::Tuple(vec![o(a), o(b), sizing(s)])),
    }
}
fn info(i: &TypeInfo) -> Sv {
    rec(vec![
        ("depth", uint(i.depth as u64)),
        ("ty", ty(&i.ty, &sem)),
        ("fqn", opt(&i.fqn, fqn)),
        ("item", opt(&i.item, item)),
        ("nested", StrictVal::List(i.nested.iter().map(nested).collect())),
    ])
}

struct Own {
    sys: SymbolicSys,
    /// Hashes of the objects which were seen already
    seen: RefCell<HashSet<u64>>,
}

impl Own {
    fn new() -> Own {
        let sys = SystemBuilder::new()
            .import(strict_types::stl::std_stl())
            .and_then(|b| b.import(strict_types::stl::strict_types_stl()))
            .expect("standard libraries")
            .finalize()
            .expect("standard system");
        Own { sys, seen: RefCell::default() }
    }

    /// The bytes of the object through the schema of the type
    fn check<T: StrictEncode>(&self, ctx: &mut Ctx, ty: &str, what: &str, v: &T, expect: &Sv) {
        let b = bytes(v);
        let mut h = DefaultHasher::new();
        (ty, &b).hash(&mut h);
        if !self.seen.borrow_mut().insert(h.finish()) {
            ctx.count("objects_met_again", 1);
            return;
        }
        let what = short(what, 300);
        ctx.count(&format!("objects_{ty}"), 1);
        ctx.case(|| format!("{ty} {what}"));
        ctx.state();
        ctx.transitions(3);
        ctx.trace();
        let f = TypeFqn::with(lname("StrictTypes"), tname(ty));
        let Some(id) = self.sys.resolve(f).copied() else {
            ctx.fail(format!("absent {ty}"), format!("the library StrictTypes has no type {ty}"), &what);
            return;
        };
        let key = format!("{ty} {}", short(&what, 200));
        match guard(|| self.sys.strict_deserialize_type(id, &b).map_err(|e| e.to_string())) {
            Ok(Ok(t)) => {
                if t.as_val() != expect {
                    ctx.fail(
                        format!("content {key}"),
                        format!("is {} by the schema, expected {}", diff(t.as_val(), expect), diff(expect, t.as_val())),
                        &what,
                    );
                }
                match guard(|| self.sys.as_types().strict_serialize_value::<0xFFFFFF>(&t).map(|x| x.to_vec()).map_err(|e| e.to_string())) {
                    Ok(Ok(x)) if x == b => {}
                    Ok(Ok(x)) => ctx.fail(format!("again {key}"), format!("{} is written as {}", hex(&b), hex(&x)), &what),
                    e => ctx.fail(format!("again {key}"), format!("{:?}", e.map(|r| r.map(|_| ()))), &what),
                }
            }
            e => ctx.fail(
                format!("schema {key}"),
                format!("{} isn't read by the schema: {:?}", hex(&b), e.map(|r| r.map(|_| ()))),
                &what,
            ),
        }
        // the description of the object, checked against the schema, is the same object
        match guard(|| {
            let t = self.sys.typify(expect.clone(), id).map_err(|e| e.to_string())?;
            self.sys.as_types().strict_serialize_value::<0xFFFFFF>(&t).map(|x| x.to_vec()).map_err(|e| e.to_string())
        }) {
            Ok(Ok(x)) if x == b => {}
            Ok(Ok(x)) => ctx.fail(format!("typed {key}"), format!("{} is written as {}", hex(&b), hex(&x)), &what),
            Ok(Err(e)) => ctx.fail(format!("typed {key}"), e, &what),
            Err(e) => ctx.fail(format!("typed {key}"), e, &what),
        }
    }
}

/// The innermost place of a difference
fn diff(a: &Sv, b: &Sv) -> String {
    use StrictVal::*;
    let sub = |x: &[Sv], y: &[Sv]| {
        if x.len() != y.len() {
            return None;
        }
        x.iter().zip(y).find(|(p, q)| p != q).map(|(p, q)| diff(p, q))
    };
    let d = match (a, b) {
        (Tuple(x), Tuple(y)) | (List(x), List(y)) | (Set(x), Set(y)) => sub(x, y),
        (Union(t, x), Union(u, y)) if t == u => Some(diff(x, y)),
        (Struct(x), Struct(y)) if x.keys().eq(y.keys()) => {
            x.iter().zip(y).find(|(p, q)| p.1 != q.1).map(|(p, q)| format!("{}: {}", p.0, diff(p.1, q.1)))
        }
        (Map(x), Map(y)) if x.len() == y.len() => {
            x.iter().zip(y).find(|(p, q)| p != q).map(|(p, q)| {
                if p.0 != q.0 {
                    diff(&p.0, &q.0)
                } else {
                    diff(&p.1, &q.1)
                }
            })
        }
        _ => None,
    };
    d.unwrap_or_else(|| short(&dbg(a), 300))
}

fn dbg<T: Debug>(x: &T) -> String { format!("{x:?}") }

fn symbols_of(w: &World, s: &SymbolicSys) -> Sv {
    // the content of the private fields, from the reference
    let e = w.expected(&w.libs.iter().collect::<Vec<_>>());
    let mut libs: Vec<Dependency> = w.libs.iter().map(|l| w.dep(&l.name)).collect();
    libs.sort_by_key(|d| d.id);
    let mut all: Vec<TypeSymbol> = vec![];
    for id in e.types.keys() {
        let f = e.fqns(*id);
        if f.is_empty() {
            all.push(TypeSymbol::unnamed(*id));
        }
        all.extend(f.into_iter().map(|f| TypeSymbol::with(*id, f)));
    }
    all.sort();
    let syms = rec(vec![
        ("libs", StrictVal::Set(libs.iter().map(dep).collect())),
        ("symbols", StrictVal::Set(all.iter().map(symbol).collect())),
    ]);
    rec(vec![("symbols", syms), ("types", types(s.as_types()))])
}

fn world_own(ctx: &mut Ctx, own: &Own, w: &World) {
    let show = short(&w.show(), 200);
    let mut b = SystemBuilder::new();
    for l in &w.libs {
        let lib = w.type_lib(l);
        own.check(ctx, "TypeLib", &format!("{} of {show}", l.name), &lib, &library(&lib));
        own.check(ctx, "Dependency", &l.name, &w.dep(&l.name), &dep(&w.dep(&l.name)));
        for (n, t) in &lib.types {
            own.check(ctx, "TyLibRef", &format!("{n} of {show}"), t, &ty(t, &libref));
        }
        b = b.import(lib).expect("import");
    }
    let Ok(sys) = b.finalize() else { return };
    own.check(ctx, "SymbolicSys", &show, &sys, &symbols_of(w, &sys));
    own.check(ctx, "TypeSystem", &show, sys.as_types(), &types(sys.as_types()));
    own.check(ctx, "TypeSysId", &show, &sys.id(), &sysid(&sys.id()));
    let e = w.expected(&w.libs.iter().collect::<Vec<_>>());
    for (id, t) in e.types.iter() {
        let f = e.fqns(*id).into_iter().next();
        let s = TypeSymbol { id: *id, fqn: f.clone() };
        own.check(ctx, "TypeSymbol", &dbg(&f), &s, &symbol(&s));
        own.check(ctx, "TySemId", &show, t, &ty(t, &sem));
        let Some(tree) = sys.type_tree(*id) else { continue };
        let infos: Vec<TypeInfo> = tree.iter().collect();
        if infos.iter().any(|i| i.nested.len() > 200) || infos.len() > ctx.by_tier(400, 2000) {
            continue;
        }
        let layout = rec(vec![("items", StrictVal::List(infos.iter().map(info).collect()))]);
        own.check(ctx, "MemoryLayout", &format!("{f:?} of {show}"), &tree.to_layout(), &layout);
        // they were part of the layout
        for i in infos.iter().filter(|_| ctx.thorough()).collect::<Vec<_>>() {
            own.check(ctx, "TypeInfo", &dbg(&i.item), i, &info(i));
        }
    }
}

pub fn c31(ctx: &mut Ctx) {
    let own = Own::new();
    for n in sizes(ctx.thorough()) {
        if n > 130 && !ctx.thorough() {
            continue;
        }
        for w in wide(n) {
            if ctx.mine() {
                world_own(ctx, &own, &w);
            }
        }
    }
    for w in worlds().iter().chain(&shapes()) {
        if ctx.mine() {
            world_own(ctx, &own, w);
        }
    }
    if ctx.mine() {
        world_own(ctx, &own, &crate::reflect::catalogue().world);
    }
    if ctx.first() {
        for l in [strict_types::stl::std_stl(), strict_types::stl::strict_types_stl()] {
            own.check(ctx, "TypeLib", &format!("standard library {}", l.name), &l, &library(&l));
            for (n, t) in &l.types {
                own.check(ctx, "TyLibRef", &format!("{n} of {}", l.name), t, &ty(t, &libref));
            }
        }
        own.check(ctx, "TypeSystem", "standard", own.sys.as_types(), &types(own.sys.as_types()));
        own.check(ctx, "TypeSystem", "empty", &TypeSystem::new(), &types(&TypeSystem::new()));
    }
    // definitions of all shapes
    let id = |n: u8| sid([n; 32]);
    let mut pool = depth2();
    pool.extend((0..=255u8).map(prim));
    for n in [0u64, 1, 0xFF, 0x100, 0xFFFF, 0x1_0000, 0xFF_FFFF, 0x100_0000, 0xFFFF_FFFF, 0x1_0000_0000, u64::MAX - 1, u64::MAX] {
        for min in [0, 1, n / 2, n] {
            pool.extend([list(unit(), min, n), set(unit(), min, n), map(unit(), unit(), min, n)]);
        }
        pool.push(array(unit(), n.min(0xFFFF) as u16));
    }
    for t in 0..=255u8 {
        pool.push(enm(&[("a", t)]));
        pool.push(union(&[("a", t, unit())]));
    }
    for n in [2usize, 16, 17, 127, 128, 254, 255] {
        pool.push(M::Enum((0..n).map(|i| (format!("v{i}"), i as u8)).collect()));
        pool.push(M::Union((0..n).map(|i| (format!("v{i}"), i as u8, unit())).collect()));
        pool.push(M::Tuple(vec![unit(); n]));
        pool.push(M::Struct((0..n).map(|i| (format!("f{i}"), unit())).collect()));
    }
    for m in pool {
        if !ctx.mine() {
            continue;
        }
        let m = if let M::Named(_, m) = m { *m } else { m };
        let mut n = 0;
        let t: Ty<SemId> = ty_with(&m, &mut |_| {
            n = n % 250 + 1;
            id(n)
        });
        own.check(ctx, "TySemId", &m.show(), &t, &ty(&t, &sem));
        let i = TypeInfo { depth: 0, ty: t, fqn: None, item: None, nested: Default::default() };
        own.check(ctx, "TypeInfo", &m.show(), &i, &info(&i));
        let t: Ty<LibRef> = ty_with(&m, &mut |_| {
            n = n % 250 + 1;
            match n % 3 {
                0 => LibRef::Named(id(n)),
                1 => LibRef::Extern(ExternRef::with(lid([n; 32]), id(n + 1))),
                _ => LibRef::Inline(Ty::Array(InlineRef::Inline(Ty::Array(InlineRef1::Named(id(n)), 7)), 3)),
            }
        });
        own.check(ctx, "TyLibRef", &m.show(), &t, &ty(&t, &libref));
        let t: Ty<InlineRef2> = ty_with(&m, &mut |_| {
            n = n % 250 + 1;
            if n % 2 == 0 { InlineRef2::Named(id(n)) } else { InlineRef2::Extern(ExternRef::with(lid([n; 32]), id(n + 1))) }
        });
        own.check(ctx, "TyInlineRef2", &m.show(), &t, &ty(&t, &inline2));
    }
    // entries of trees
    if ctx.first() {
        let f = |a: &str, b: &str| Some(TypeFqn::with(lname(a), tname(b)));
        let items = [
            ItemCase::UnnamedField(0),
            ItemCase::UnnamedField(255),
            ItemCase::NamedField(0, fname("a")),
            ItemCase::NamedField(254, fname("someLongName")),
            ItemCase::UnionVariant(0, vname("none")),
            ItemCase::UnionVariant(255, vname("last")),
            ItemCase::ArrayItem,
            ItemCase::ListItem,
            ItemCase::SetItem,
            ItemCase::MapKey,
            ItemCase::MapValue,
        ];
        let nests = [
            NestedCase::NewType(None),
            NestedCase::NewType(f("Lib", "Type")),
            NestedCase::Option,
            NestedCase::ByteStr,
            NestedCase::AsciiStr(None),
            NestedCase::AsciiStr(f("Std", "Alpha")),
            NestedCase::UniStr,
            NestedCase::RStr(None, None, Sizing::new(0, 0)),
            NestedCase::RStr(f("A", "B"), None, Sizing::new(1, u64::MAX)),
            NestedCase::RStr(None, f("C", "D"), Sizing::new(u64::MAX, u64::MAX)),
            NestedCase::RStr(f("A", "B"), f("C", "D"), Sizing::new(255, 65535)),
        ];
        for i in &items {
            own.check(ctx, "ItemCase", &dbg(i), i, &item(i));
        }
        for n in &nests {
            own.check(ctx, "NestedCase", &dbg(n), n, &nested(n));
        }
        for depth in [0u32, 1, 255, 256, 65536, u32::MAX] {
            for i in items.iter().map(Some).chain([None]) {
                for n in [0usize, 1, 2, 11, 255] {
                    for fq in [None, f("Lib", "Type")] {
                        let t = TypeInfo {
                            depth,
                            ty: Ty::UNICODE,
                            fqn: fq,
                            item: i.cloned(),
                            nested: Confined::try_from(nests.iter().cycle().take(n).cloned().collect::<Vec<_>>()).unwrap(),
                        };
                        own.check(ctx, "TypeInfo", &dbg(&(depth, i, n)), &t, &info(&t));
                    }
                }
            }
        }
        for n in ["A", "_", "Ab0_", &"X".repeat(100)] {
            own.check(ctx, "TypeName", n, &tname(n), &name(&n));
            own.check(ctx, "LibName", n, &lname(n), &name(&n));
            own.check(ctx, "Ident", n, &Ident::try_from(n.to_string()).unwrap(), &name(&n));
            let low = n.to_lowercase();
            own.check(ctx, "FieldName", &low, &fname(&low), &name(&low));
            own.check(ctx, "VariantName", &low, &vname(&low), &name(&low));
            for c in [0u8, 1, 127, 128, 255] {
                let r = SymbolRef::with(lname(n), tname(n), lid([c; 32]), sid([c ^ 0x55; 32]));
                own.check(ctx, "SymbolRef", n, &r, &symref(&r));
                let e = ExternRef::with(lid([c; 32]), sid([c ^ 0x55; 32]));
                own.check(ctx, "ExternRef", n, &e, &ext(&e));
                let e = TypeFqn::with(lname(n), tname(n));
                own.check(ctx, "TypeFqn", n, &e, &fqn(&e));
            }
        }
        for a in [0u64, 1, 255, 256, 65535, u32::MAX as u64, u64::MAX] {
            for b in [0u64, 1, 255, 256, 65535, u32::MAX as u64, u64::MAX] {
                let s = Sizing::new(a, b);
                own.check(ctx, "Sizing", &dbg(&s), &s, &sizing(&s));
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------------------ C32

fn put_text(s: &str, out: &mut Vec<u8>) {
    out.push(s.len() as u8);
    out.extend(s.as_bytes());
}

fn key_bytes(k: &KeyStep, out: &mut Vec<u8>) {
    match k {
        KeyStep::Number(n) => {
            out.push(0);
            out.extend(n.to_le_bytes());
        }
        KeyStep::TinyBlob(b) => {
            out.extend([1, b.len() as u8]);
            out.extend(b.iter());
        }
        KeyStep::TinyString(t) => {
            out.push(2);
            put_text(t.as_str(), out);
        }
        _ => unreachable!("harness: no such key"),
    }
}

fn step_bytes(s: &value::Step, out: &mut Vec<u8>) {
    match s {
        value::Step::NamedField(n) => {
            out.push(0);
            put_text(n.as_str(), out);
        }
        value::Step::UnnamedField(n) => out.extend([1, *n]),
        value::Step::Index(n) => {
            out.push(2);
            out.extend(n.to_le_bytes());
        }
        value::Step::Key(k) => {
            out.push(3);
            key_bytes(k, out);
        }
    }
}

fn type_step_bytes(s: &ast::Step, out: &mut Vec<u8>) {
    match s {
        ast::Step::NamedField(n) => {
            out.push(0);
            put_text(n.as_str(), out);
        }
        ast::Step::UnnamedField(n) => out.extend([1, *n]),
        ast::Step::Variant(n) => {
            out.push(2);
            put_text(n.as_str(), out);
        }
        ast::Step::Index => out.push(3),
        ast::Step::List => out.push(4),
        ast::Step::Set => out.push(5),
        ast::Step::MapKey => out.push(6),
        ast::Step::MapValue => out.push(7),
    }
}

fn raw<T: StrictEncode + StrictDecode + Debug>(ctx: &mut Ctx, what: &str, v: &T, expect: &[u8]) {
    round(ctx, what, v);
    let b = bytes(v);
    if b != expect {
        ctx.fail(
            format!("layout {}", short(what, 300)),
            format!("{what} is encoded as {}, expected {}", hex(&b), hex(expect)),
            what,
        );
    }
}

/// JSON text always works; YAML has no nested enums and no numbers of 128 bits
fn texts<T: Serialize + DeserializeOwned + Debug + PartialEq>(ctx: &mut Ctx, what: &str, v: &T) {
    ctx.case(|| format!("{what}: text"));
    ctx.state();
    ctx.trace();
    ctx.transitions(2);
    match guard(|| {
        let s = serde_json::to_string(v).map_err(|e| e.to_string())?;
        serde_json::from_str::<T>(&s).map_err(|e| format!("{e}: {s}"))
    }) {
        Ok(Ok(x)) if &x == v => {}
        e => ctx.fail(format!("json {}", short(what, 300)), format!("json: {}", short(&format!("{e:?}"), 500)), what),
    }
    match guard(|| serde_yaml::to_string(v)) {
        Ok(Err(_)) => ctx.count("not_representable_in_yaml", 1),
        Ok(Ok(s)) => match guard(|| serde_yaml::from_str::<T>(&s).map_err(|e| format!("{e}: {s}"))) {
            Ok(Ok(x)) if &x == v => ctx.count("yaml_read_back", 1),
            e => ctx.fail(format!("yaml {}", short(what, 300)), format!("yaml: {}", short(&format!("{e:?}"), 500)), what),
        },
        Err(e) => ctx.fail(format!("yaml {}", short(what, 300)), e, what),
    }
}

fn path_of(steps: &[value::Step]) -> value::Path {
    let mut p = value::Path::new();
    for s in steps {
        p.push(s.clone()).expect("harness: path");
    }
    p
}

pub fn c32(ctx: &mut Ctx) {
    let blob = |n: usize, c: u8| KeyStep::TinyBlob(TinyBlob::try_from(vec![c; n]).unwrap());
    let text = |t: &str| KeyStep::TinyString(TinyString::try_from(t.to_string()).unwrap());
    let mut keys: Vec<KeyStep> = [0u128, 1, 127, 128, 255, 256, 65535, u32::MAX as u128, i64::MAX as u128, u64::MAX as u128]
        .into_iter()
        .chain([u64::MAX as u128 + 1, i128::MAX as u128, u128::MAX - 1, u128::MAX])
        .map(KeyStep::Number)
        .collect();
    for n in [0usize, 1, 2, 16, 127, 128, 254, 255] {
        for c in [0u8, 0x41, 0x7F, 0xFF] {
            keys.push(blob(n, c));
        }
        for t in ["a", "\"", " ", "\n", "0", "~", "\\", ":"] {
            keys.push(text(&t.repeat(n)));
        }
    }
    for t in ["true", "null", "1.5", "0x10", "- a", "{a: b}", "\u{e9}", "\u{0}", "\u{1F600}", "#", "no", "1e5", "|", "!!int 1", "key"] {
        keys.push(text(t));
    }
    let mut steps: Vec<value::Step> = ["a", "_", "longName_0", "true", "null", "none"]
        .into_iter()
        .map(|n| value::Step::NamedField(fname(n)))
        .collect();
    steps.push(value::Step::NamedField(fname(&"x".repeat(100))));
    steps.extend((0..=255u8).map(value::Step::UnnamedField));
    steps.extend([0u32, 1, 255, 256, 65535, 65536, i32::MAX as u32, u32::MAX].map(value::Step::Index));
    steps.extend(keys.iter().cloned().map(value::Step::Key));
    for k in &keys {
        let what = format!("key {}", short(&dbg(k), 100));
        let mut e = vec![];
        key_bytes(k, &mut e);
        if ctx.mine() {
            raw(ctx, &what, k, &e);
            texts(ctx, &what, k);
        }
        mutate(ctx, &what, k, ctx.thorough(), false);
    }
    for s in &steps {
        let what = format!("step {}", short(&dbg(s), 100));
        let mut e = vec![];
        step_bytes(s, &mut e);
        if ctx.mine() {
            raw(ctx, &what, s, &e);
            texts(ctx, &what, s);
        }
        if e.len() < 24 {
            mutate(ctx, &what, s, ctx.thorough(), false);
        }
    }
    // paths: all of short lengths over a few steps of each kind
    let few: Vec<value::Step> = vec![
        value::Step::NamedField(fname("a")),
        value::Step::UnnamedField(0),
        value::Step::UnnamedField(255),
        value::Step::Index(0),
        value::Step::Index(u32::MAX),
        value::Step::Key(KeyStep::Number(u128::MAX)),
        value::Step::Key(blob(2, 0xFF)),
        value::Step::Key(text("b")),
        value::Step::Key(text("")),
    ];
    let max = ctx.by_tier(3, 4);
    let mut all: Vec<Vec<value::Step>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = all.len();
        for i in from..to {
            for s in &few {
                let mut p = all[i].clone();
                p.push(s.clone());
                all.push(p);
            }
        }
        from = to;
    }
    all.extend(steps.iter().map(|s| vec![s.clone()]));
    for n in [16usize, 127, 128, 255, 256, 257, 1000, 65535] {
        all.push(few.iter().cycle().take(n).cloned().collect());
        all.push(vec![few[1].clone(); n]);
    }
    for steps in &all {
        if !ctx.mine() {
            continue;
        }
        let p = path_of(steps);
        let what = format!("path of {}: {}", steps.len(), short(&dbg(&p), 200));
        let mut e = (steps.len() as u16).to_le_bytes().to_vec();
        steps.iter().for_each(|s| step_bytes(s, &mut e));
        raw(ctx, &what, &p, &e);
        texts(ctx, &what, &p);
        if steps.len() == 2 {
            let n = e.len();
            for i in 0..n {
                probe::<value::Path>(ctx, &what, &e[..i]);
                for c in [0u8, 1, 2, 3, 4, 0x7F, 0xFF, e[i].wrapping_add(1), e[i].wrapping_sub(1)] {
                    let mut x = e.clone();
                    x[i] = c;
                    probe::<value::Path>(ctx, &what, &x);
                }
            }
        }
    }
    // steps of type paths
    let mut tsteps: Vec<ast::Step> = vec![ast::Step::Index, ast::Step::List, ast::Step::Set, ast::Step::MapKey, ast::Step::MapValue];
    tsteps.extend((0..=255u8).map(ast::Step::UnnamedField));
    for n in ["a", "_", "longName_0", &"x".repeat(100)] {
        tsteps.push(ast::Step::NamedField(fname(n)));
        tsteps.push(ast::Step::Variant(vname(n)));
    }
    for s in &tsteps {
        let what = format!("type step {}", short(&dbg(s), 100));
        let mut e = vec![];
        type_step_bytes(s, &mut e);
        if ctx.mine() {
            raw(ctx, &what, s, &e);
        }
        mutate(ctx, &what, s, true, false);
    }
    // classes, entries and references which stand alone
    if ctx.first() {
        let classes = [
            Cls::Primitive, Cls::Unicode, Cls::AsciiStr, Cls::Enum, Cls::Union, Cls::Struct, Cls::Tuple, Cls::Array, Cls::List,
            Cls::Set, Cls::Map,
        ];
        for (i, c) in classes.into_iter().enumerate() {
            raw(ctx, &format!("class {c}"), &c, &[i as u8]);
        }
        for a in 0..=255u8 {
            probe::<Cls>(ctx, "class", &[a]);
            probe::<ItemCase>(ctx, "item", &[a]);
            probe::<NestedCase>(ctx, "nested", &[a]);
            probe::<ast::Step>(ctx, "type step", &[a]);
            for b in 0..=255u8 {
                probe::<ItemCase>(ctx, "item", &[a, b]);
                probe::<NestedCase>(ctx, "nested", &[a, b]);
                probe::<ast::Step>(ctx, "type step", &[a, b]);
                probe::<value::Step>(ctx, "step", &[a, b]);
                probe::<KeyStep>(ctx, "key", &[a, b]);
                probe::<value::Path>(ctx, "path", &[a, b]);
            }
        }
    }
}
