//! C19, C20: the tree of a type and its memory layout

use amplify::confinement::{Confined, LargeVec};
use strict_encoding::{Primitive, Sizing};
use strict_types::ast::ItemCase;
use strict_types::layout::MemoryLayout;
use strict_types::typesys::{NestedCase, TypeFqn, TypeInfo, TypeTree};
use strict_types::{SemId, SymbolicSys, Ty};

use crate::core::*;
use crate::libs::*;
use crate::model::*;
use crate::sysb::*;
use crate::universe::*;

fn mid(m: &M) -> SemId {
    sid(match m {
        M::Named(n, m) => nested_id(Some(n), m),
        m => nested_id(None, m),
    })
}

/// One part of a type
struct Part {
    depth: u32,
    m: M,
    fqn: Option<TypeFqn>,
    item: Option<ItemCase>,
    nested: Vec<NestedCase>,
}

fn sorted(v: &[(String, u8, M)]) -> Vec<(String, u8, M)> {
    let mut v = v.to_vec();
    v.sort_by_key(|x| x.1);
    v
}

type Fq<'a> = &'a dyn Fn(&M) -> Option<TypeFqn>;

/// The parts of a type by its definition
fn walk(m: &M, depth: u32, item: Option<ItemCase>, nested: Vec<NestedCase>, fq: Fq, out: &mut Vec<Part>) {
    let mut nested = nested;
    let def = m.strip();
    match def {
        M::Tuple(f) if f.len() == 1 => {
            nested.push(NestedCase::NewType(fq(m)));
            return walk(&f[0], depth, item, nested, fq, out);
        }
        M::Union(v) if m.is_option() && v[0].2.strip() == &unit() => {
            nested.push(NestedCase::Option);
            return walk(&v[1].2, depth, item, nested, fq, out);
        }
        _ => {}
    }
    let mut members: Vec<(Option<ItemCase>, M)> = vec![];
    let wrapped = |m: &M| matches!(m, M::Tuple(f) if f.len() == 1);
    match def {
        M::Tuple(f) if def.rstring().is_some() && !wrapped(f[0].strip()) => {
            let (_, _, min, max) = def.rstring().unwrap();
            let M::List(rest, ..) = f[1].strip() else { unreachable!() };
            nested.push(NestedCase::RStr(fq(&f[0]), fq(rest), Sizing::new(min, max)));
        }
        M::List(x, ..) if x.is_char_enum() => nested.push(NestedCase::AsciiStr(fq(x))),
        M::List(x, ..) if x.strip().is_byte() => nested.push(NestedCase::ByteStr),
        M::List(x, ..) if x.strip().is_uni() => nested.push(NestedCase::UniStr),
        M::Array(x, _) if x.is_byte() => {}
        M::Prim(_) | M::Uni | M::Enum(_) => {}
        M::Union(v) => {
            for (n, t, m) in sorted(v) {
                members.push((Some(ItemCase::UnionVariant(t, vname(&n))), m));
            }
        }
        M::Tuple(f) => {
            for (i, m) in f.iter().enumerate() {
                members.push((Some(ItemCase::UnnamedField(i as u8)), m.clone()));
            }
        }
        M::Struct(f) => {
            for (i, (n, m)) in f.iter().enumerate() {
                members.push((Some(ItemCase::NamedField(i as u8, fname(n))), m.clone()));
            }
        }
        M::Array(m, _) => members.push((Some(ItemCase::ArrayItem), (**m).clone())),
        M::List(m, ..) => members.push((Some(ItemCase::ListItem), (**m).clone())),
        M::Set(m, ..) => members.push((Some(ItemCase::SetItem), (**m).clone())),
        M::Map(k, m, ..) => {
            members.push((Some(ItemCase::MapKey), (**k).clone()));
            members.push((Some(ItemCase::MapValue), (**m).clone()));
        }
        M::Named(..) => unreachable!(),
    }
    out.push(Part { depth, m: def.clone(), fqn: fq(m), item, nested });
    for (item, m) in members {
        walk(&m, depth + 1, item, vec![], fq, out);
    }
}

impl Part {
    fn info(&self) -> TypeInfo {
        TypeInfo {
            depth: self.depth,
            ty: ty_with(&self.m, &mut mid),
            fqn: self.fqn.clone(),
            item: self.item.clone(),
            nested: Confined::try_from(self.nested.clone()).expect("harness: nested"),
        }
    }
}

fn roots(m: &M, out: &mut Vec<M>) {
    if !out.contains(m) {
        out.push(m.clone());
        match m.strip() {
            M::Prim(_) | M::Uni | M::Enum(_) => {}
            M::Union(v) => v.iter().for_each(|x| roots(&x.2, out)),
            M::Tuple(f) => f.iter().for_each(|x| roots(x, out)),
            M::Struct(f) => f.iter().for_each(|x| roots(&x.1, out)),
            M::Array(m, _) | M::List(m, ..) | M::Set(m, ..) => roots(m, out),
            M::Map(k, m, ..) => {
                roots(k, out);
                roots(m, out)
            }
            M::Named(..) => unreachable!(),
        }
    }
}

type Judge = fn(&mut Ctx, &TypeTree, &[Part], &str);

fn show_info(i: &TypeInfo) -> String {
    format!("{} {:?} fqn {:?} item {:?} nested {:?}", i.depth, i.ty.cls(), i.fqn, i.item, i.nested)
}

fn judge_tree(ctx: &mut Ctx, tree: &TypeTree, parts: &[Part], show: &str) {
    let expected: Vec<TypeInfo> = parts.iter().map(|p| p.info()).collect();
    ctx.case(|| format!("tree of {show}"));
    ctx.state();
    ctx.transitions(expected.len() as u64);
    let got = match guard(|| tree.iter().collect::<Vec<TypeInfo>>()) {
        Ok(x) => x,
        Err(e) => {
            ctx.fail(format!("walk {show}"), format!("walking the tree panics: {e}"), show);
            return;
        }
    };
    ctx.trace();
    let a: Vec<Vec<u8>> = got.iter().map(bytes).collect();
    let b: Vec<Vec<u8>> = expected.iter().map(bytes).collect();
    if a != b {
        let i = (0..).find(|i| a.get(*i) != b.get(*i)).unwrap();
        let msg = format!(
            "part {i} of {} (of {} expected) is {}, expected {}",
            a.len(),
            b.len(),
            got.get(i).map(show_info).unwrap_or_else(|| s!("missing")),
            expected.get(i).map(show_info).unwrap_or_else(|| s!("nothing")),
        );
        ctx.fail(format!("tree {show}"), msg, show);
        return;
    }
    let all = bytes(&LargeVec::try_from(expected).unwrap());
    for (what, l) in [
        ("to_layout", guard(|| tree.to_layout())),
        ("From<TypeTree>", guard(|| MemoryLayout::from(*tree))),
        ("From<&TypeTree>", guard(|| MemoryLayout::from(tree))),
    ] {
        match l {
            Err(e) => ctx.fail(format!("layout {show}"), format!("{what} panics: {e}"), show),
            Ok(l) => {
                if bytes(&l) != all {
                    ctx.fail(format!("layout {show}"), format!("{what} differs from the entries of the tree"), show);
                } else if from_bytes::<MemoryLayout>(&all).as_ref() != Ok(&l) {
                    ctx.fail(format!("layout-decode {show}"), "encoded layout decodes to something else", show);
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------------- C20

fn attr_text(attrs: &[String], indent: &str, out: &mut String) {
    let many = attrs.len() > 8;
    if many {
        out.push_str(&format!(" {{\n{indent}  "));
    } else if !attrs.is_empty() {
        out.push_str(", ");
    }
    for (i, a) in attrs.iter().enumerate() {
        if i == 1 || (i > 0 && i % 8 != 1) {
            out.push_str(", ");
        }
        out.push_str(a);
        if i > 0 && i % 8 == 0 {
            out.push_str(&format!("\n{indent}  "));
        }
    }
    if many {
        out.push_str(&format!("\n{indent}}}"));
    }
}

fn range(min: u64, max: u64) -> String {
    let max = match max {
        MAX8 => s!("MAX8"),
        MAX16 => s!("MAX16"),
        MAX24 => s!("MAX24"),
        MAX32 => s!("MAX32"),
        MAX64 => s!("MAX64"),
        n => n.to_string(),
    };
    format!("len {min}..{max}")
}

fn render(parts: &[Part]) -> String {
    let mut out = String::new();
    for p in parts {
        let indent = "  ".repeat(p.depth as usize);
        let name = p.fqn.as_ref().map(|f| f.name.to_string());
        let mut attrs: Vec<String> = vec![];
        let subject = match &p.item {
            None | Some(ItemCase::ArrayItem) => name.unwrap_or_else(|| s!("_")),
            Some(ItemCase::UnnamedField(i)) => name.unwrap_or_else(|| format!("_{i}")),
            Some(ItemCase::ListItem) | Some(ItemCase::SetItem) => name.unwrap_or_else(|| s!("element")),
            Some(ItemCase::NamedField(_, n)) => {
                attrs.extend(name);
                n.to_string()
            }
            Some(ItemCase::UnionVariant(_, n)) => {
                attrs.extend(name);
                n.to_string()
            }
            Some(ItemCase::MapKey) => {
                attrs.extend(name);
                s!("key")
            }
            Some(ItemCase::MapValue) => {
                attrs.extend(name);
                s!("value")
            }
        };
        let mut class = match &p.m {
            M::Prim(c) => {
                attrs.push(if *c == UNIT { s!("Unit") } else { Primitive::from_code(*c).to_string() });
                "is"
            }
            M::Uni => "str",
            M::Enum(_) if p.m.is_char_enum() => "char",
            M::Enum(_) => "enum",
            M::Union(_) => "union",
            M::Struct(_) => "rec",
            M::Tuple(_) => "tuple",
            M::Array(m, n) => {
                attrs.push(format!("len {n}"));
                if m.is_byte() {
                    "bytes"
                } else {
                    "array"
                }
            }
            M::List(_, a, b) => {
                attrs.push(range(*a, *b));
                "list"
            }
            M::Set(_, a, b) => {
                attrs.push(range(*a, *b));
                "set"
            }
            M::Map(_, _, a, b) => {
                attrs.push(range(*a, *b));
                "map"
            }
            M::Named(..) => unreachable!(),
        };
        for n in &p.nested {
            match n {
                NestedCase::NewType(None) => attrs.push(s!("wrapped")),
                NestedCase::NewType(Some(f)) => attrs.push(format!("aka {}", f.name)),
                NestedCase::Option => attrs.push(s!("option")),
                NestedCase::ByteStr => class = "bytes",
                NestedCase::UniStr => class = "str",
                NestedCase::AsciiStr(f) => {
                    class = "ascii";
                    attrs.extend(f.as_ref().map(|f| format!("charset {}", f.name)));
                }
                NestedCase::RStr(first, rest, s) => {
                    class = "ascii";
                    attrs.extend(first.as_ref().map(|f| format!("first {}", f.name)));
                    attrs.extend(rest.as_ref().map(|f| format!("rest {}", f.name)));
                    attrs.push(range(s.min, s.max));
                }
            }
        }
        if let M::Enum(v) = &p.m {
            let mut v = v.clone();
            v.sort_by_key(|x| x.1);
            attrs.extend(v.iter().map(|(n, t)| format!("{n} {t}")));
        }
        if let Some(ItemCase::UnionVariant(t, _)) = &p.item {
            attrs.push(format!("tag {t}"));
        }
        out.push_str(&format!("{indent}{class} {subject}"));
        attr_text(&attrs, &indent, &mut out);
        out.push('\n');
    }
    out
}

fn judge_text(ctx: &mut Ctx, tree: &TypeTree, parts: &[Part], show: &str) {
    ctx.case(|| format!("text of the layout of {show}"));
    ctx.state();
    ctx.transitions(parts.len() as u64);
    let expected = render(parts);
    for (what, got) in [
        ("text of the tree", guard(|| tree.to_string())),
        ("text of the layout", guard(|| tree.to_layout().to_string())),
        ("text of the expression", guard(|| tree.to_layout().to_vesper().display().to_string())),
    ] {
        ctx.trace();
        match got {
            Err(e) => ctx.fail(format!("render {show}"), format!("{what}: panic {e}"), show),
            Ok(got) if got != expected => {
                let i = (0..).find(|i| got.lines().nth(*i) != expected.lines().nth(*i)).unwrap();
                let line = |s: &str| short(s.lines().nth(i).unwrap_or("<nothing>"), 300);
                ctx.fail(
                    format!("text {show}"),
                    format!("{what}, line {i}: `{}`, expected `{}`", line(&got), line(&expected)),
                    show,
                );
            }
            Ok(_) => {}
        }
    }
}

// ------------------------------------------------------------------------------------------------------ driver

fn run(ctx: &mut Ctx, m: &M, judge: Judge) {
    let s = match guard(|| mk_sys(m)) {
        Ok(s) => s,
        Err(e) => {
            ctx.fail(format!("link {}", m.show()), e, m.show());
            return;
        }
    };
    let top = match m {
        M::Named(n, _) => M::Named(n.clone(), Box::new(s.m.clone())),
        _ => named("Top", s.m.clone()),
    };
    let fq = |m: &M| match m {
        M::Named(n, _) => Some(TypeFqn::with(lname("TestLib"), tname(n))),
        _ => None,
    };
    let mut all = vec![];
    roots(&top, &mut all);
    if all.len() > 12 {
        all.truncate(12);
    }
    for r in all {
        let show = if r == top { m.show() } else { format!("{} in {}", r.show(), m.show()) };
        judge_roots(ctx, &s.sys, &r, &fq, judge, &show);
    }
}

fn judge_roots(ctx: &mut Ctx, sys: &SymbolicSys, r: &M, fq: Fq, judge: Judge, show: &str) {
    let show = short(show, 400);
    let mut parts = vec![];
    walk(r, 0, None, vec![], fq, &mut parts);
    match sys.type_tree(mid(r)) {
        Some(t) => {
            let ty: Ty<SemId> = ty_with(r.strip(), &mut mid);
            if guard(|| bytes(t.get())) != Ok(bytes(&ty)) {
                ctx.fail(format!("root {show}"), "the tree is of another type", &show);
            }
            judge(ctx, &t, &parts, &show)
        }
        None => ctx.fail(format!("no-tree {show}"), "there is no tree for a type of the system", &show),
    }
    if let Some(f) = fq(r) {
        let name: &'static str = Box::leak(f.to_string().into_boxed_str());
        match sys.type_tree(name) {
            Some(t) => judge(ctx, &t, &parts, &format!("{name}: {show}")),
            None => ctx.fail(format!("no-tree {show}"), "there is no tree for a type given by name", &show),
        }
    }
}

fn pool(ctx: &Ctx) -> Vec<M> {
    let mut pool = depth2();
    pool.extend(depth3());
    pool.extend(depth4().into_iter().step_by(ctx.by_tier(3, 1)));
    // transparent layers in each order, in each position
    let layers: Vec<fn(M) -> M> = vec![
        |m| tuple(vec![m]),
        |m| option(m),
        |m| named("Layer", tuple(vec![m])),
        |m| named("Opt", option(m)),
        |m| union(&[("none", 0, prim(U8)), ("some", 1, m)]),
    ];
    let cores = vec![
        prim(U16),
        list(prim(U8), 0, MAX16),
        list(char_enum(), 1, 5),
        list(named("Sym", char_enum()), 1, 5),
        list(M::Uni, 0, MAX8),
        list(named("Chr", M::Uni), 0, MAX8),
        list(named("Byt", prim(U8)), 0, MAX8),
        array(named("Byt", prim(U8)), 3),
        array(prim(BYTE), 3),
        tuple(vec![named("First", char_enum()), list(named("Sym", char_enum()), 1, 5)]),
        tuple(vec![named("First", char_enum()), named("RestStr", list(named("Sym", char_enum()), 1, MAX64))]),
        tuple(vec![named("First", tuple(vec![char_enum()])), list(named("Sym", char_enum()), 1, 5)]),
        tuple(vec![char_enum(), list(char_enum(), 1, 5), prim(U8)]),
        strct(&[("a", named("Own", option(prim(U8)))), ("b", named("Own", option(prim(U8))))]),
        union(&[("none", 0, unit()), ("some", 1, prim(U8)), ("more", 2, named("Cls", enm(&[("x", 3)])))]),
        map(named("K", prim(U8)), named("V", strct(&[("q", unit())])), 0, 5),
        set(named("K", prim(U8)), 0, 5),
        named("E", enm(&[("b", 0), ("a", 1)])),
    ];
    for c in &cores {
        pool.push(c.clone());
        for (i, a) in layers.iter().enumerate() {
            for (j, b) in layers.iter().enumerate() {
                if i == j && i >= 2 {
                    continue;
                }
                let x = a(b(c.clone()));
                pool.push(x.clone());
                pool.push(strct(&[("f", x.clone()), ("g", x.clone()), ("h", prim(I8))]));
                pool.push(tuple(vec![x.clone(), option(prim(U8)), option(unit())]));
                pool.push(union(&[("none", 0, unit()), ("u", 5, x.clone()), ("w", 9, option(prim(U8)))]));
                if ctx.thorough() {
                    for (k, d) in layers.iter().enumerate() {
                        if (k == i || k == j) && k >= 2 {
                            continue;
                        }
                        let y = d(x.clone());
                        pool.push(y.clone());
                        pool.push(list(y.clone(), 0, 9));
                        pool.push(map(prim(U8), y.clone(), 0, 9));
                        pool.push(strct(&[("f", y.clone()), ("g", prim(U8))]));
                    }
                }
            }
        }
    }
    for n in [1usize, 2, 7, 8, 9, 10, 16, 17, 18, 254, 255] {
        let e: Vec<(String, u8)> = (0..n).rev().map(|i| (format!("v{i}"), (255 - i) as u8)).collect();
        pool.push(M::Enum(e.clone()));
        pool.push(strct(&[("e", M::Enum(e.clone())), ("o", option(M::Enum(e)))]));
        pool.push(M::Union((0..n).rev().map(|i| (format!("v{i}"), (255 - i) as u8, option(prim(U8)))).collect()));
        if n > 1 {
            pool.push(M::Tuple((0..n).map(|i| if i % 2 == 0 { option(prim(U8)) } else { prim(U16) }).collect()));
        }
        pool.push(M::Struct((0..n).map(|i| (format!("f{i}"), tuple(vec![prim(U8)]))).collect()));
    }
    for c in 0..=255u8 {
        if Primitive::from_code(c) != Primitive::RESERVED {
            pool.push(strct(&[("p", prim(c)), ("a", array(prim(c), 3))]));
        }
    }
    pool
}

fn long_chain(n: usize, opt: bool) -> M {
    let mut m = prim(U16);
    for i in 0..n {
        m = named(&format!("Chain{i}"), if opt { option(m) } else { tuple(vec![m]) });
    }
    m
}

fn explore(ctx: &mut Ctx, judge: Judge) {
    let mut seen = std::collections::BTreeSet::new();
    for m in pool(ctx) {
        if seen.insert(m.clone()) && ctx.mine() {
            run(ctx, &m, judge);
        }
    }
    // deep chains of transparent layers
    for n in [2usize, 100, 254, 255] {
        for opt in [false, true] {
            if ctx.mine() {
                let m = long_chain(n, opt);
                let s = mk_sys(&m);
                let fq = |m: &M| match m {
                    M::Named(n, _) => Some(TypeFqn::with(lname("TestLib"), tname(n))),
                    _ => None,
                };
                judge_roots(ctx, &s.sys, &m, &fq, judge, &format!("chain of {n} {}", if opt { "options" } else { "newtypes" }));
            }
        }
    }
    if ctx.mine() {
        let m = long_chain(256, false);
        let s = mk_sys(&m);
        ctx.case(|| s!("chain of 256 newtypes"));
        if guard(|| s.sys.type_tree(mid(&m)).unwrap().to_string()).is_err() {
            ctx.fail("chain 256", "the tree of a chain of 256 newtypes panics", "chain of 256 newtypes");
        }
    }
    // all types of the linked systems, in their own libraries
    let mut worlds = worlds();
    worlds.extend(shapes().into_iter().step_by(ctx.by_tier(7, 1)));
    let mut worlds: Vec<Box<dyn Fn() -> Vec<World>>> = worlds.into_iter().map(|w| Box::new(move || vec![w.clone()]) as Box<dyn Fn() -> Vec<World>>).collect();
    for n in sizes(ctx.thorough()) {
        worlds.push(Box::new(move || wide(n)));
    }
    for mk in worlds {
        if !ctx.mine() {
            continue;
        }
        for w in &mk() {
        let libs: Vec<_> = w.libs.iter().map(|l| w.type_lib(l)).collect();
        let sys = match guard(|| crate::link::link(libs.iter())) {
            Ok(Ok(sys)) => sys,
            _ => {
                ctx.fail(format!("link {}", w.show()), "linking fails", w.show());
                continue;
            }
        };
        let e = w.expected(&w.libs.iter().collect::<Vec<_>>());
        let fq = |m: &M| {
            // one of the names, if a definition has several
            let names = e.fqns(mid(m));
            let l = sys.lookup(mid(m)).cloned();
            names.into_iter().find(|n| Some(n) == l.as_ref())
        };
        for l in &w.libs {
            for (i, (n, m)) in l.types.iter().enumerate() {
                // of the many types which are alike, the first and the last ones
                if l.types.len() > 40 && i > 3 && i + 10 < l.types.len() && i % 16 > 1 {
                    continue;
                }
                let top = named(n, crate::link::expand(w, &l.name, m));
                judge_roots(ctx, &sys, &top, &fq, judge, &format!("{}.{n} in {}", l.name, w.show()));
            }
        }
        let absent = sid([7; 32]);
        if sys.type_tree(absent).is_some() || sys.type_tree("Nowhere.Type").is_some() {
            ctx.fail("absent", "tree of an absent type", w.show());
        }
        }
    }
}

pub fn c19(ctx: &mut Ctx) { explore(ctx, judge_tree) }
pub fn c20(ctx: &mut Ctx) { explore(ctx, judge_text) }
