//! C08, C09: compilation of symbolic libraries and conversion between the compiled and the symbolic form

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::{Confined, SmallOrdMap, TinyOrdMap, TinyOrdSet};
use amplify::ByteArray;
use strict_types::typelib::{CompileError, ExternRef, ExternTypes, SymbolError, SymbolicLib};
use strict_types::{Dependency, LibRef, SemId, SymbolRef, TranspileRef, Ty, TypeLib};

use crate::core::*;
use crate::libs::*;
use crate::model::*;
use crate::sysb::*;

/// External references of the raw libraries
struct Table {
    refs: BTreeMap<String, SymbolRef>,
    world: World,
}

fn table() -> Table {
    let world = World::new(&[
        lib("LibBase", &[], &[("Byte", tuple(vec![prim(U8)])), ("Text", list(M::Uni, 0, 0xFF))]),
        lib("LibOther", &[], &[("Thing", tuple(vec![prim(U16)]))]),
    ]);
    let good = |n: &str| {
        let (l, t) = n.split_once('.').unwrap();
        SymbolRef::with(lname(l), tname(t), lid(world.lib_ids[l]), sid(world.ids[n]))
    };
    let mut refs = BTreeMap::new();
    for n in ["LibBase.Byte", "LibBase.Text", "LibOther.Thing"] {
        refs.insert(n.to_string(), good(n));
    }
    // a type which the dependency doesn't have
    let mut x = good("LibBase.Byte");
    x.sem_id = sid([0x11; 32]);
    refs.insert(s!("LibBase.Missing"), x);
    // name and id belong to different types
    let mut x = good("LibBase.Byte");
    x.ty_name = tname("Text");
    refs.insert(s!("LibBase.Renamed"), x);
    // a type of another library
    let mut x = good("LibOther.Thing");
    x.lib_name = lname("LibBase");
    x.lib_id = lid(world.lib_ids["LibBase"]);
    refs.insert(s!("LibBase.Thing"), x);
    // another version of the dependency
    let mut x = good("LibBase.Byte");
    x.lib_id = lid([0x22; 32]);
    refs.insert(s!("LibBase.Version"), x);
    // a library which is not a dependency, under the id of one which is
    let mut x = good("LibBase.Byte");
    x.lib_name = lname("LibFake");
    refs.insert(s!("LibFake.Byte"), x);
    Table { refs, world }
}

impl Table {
    fn tref(&self, m: &M) -> TranspileRef {
        match m {
            M::Named(n, _) => match self.refs.get(n) {
                Some(r) => TranspileRef::Extern(r.clone()),
                None => TranspileRef::Named(tname(n)),
            },
            m => TranspileRef::Embedded(Box::new(ty_with(m, &mut |m| self.tref(m)))),
        }
    }
}

#[derive(Clone)]
struct Raw {
    types: Vec<(String, M)>,
    deps: Vec<&'static str>,
    externs: Vec<&'static str>,
}

impl Raw {
    fn show(&self) -> String {
        format!(
            "deps [{}] externs [{}] {}",
            self.deps.join(","),
            self.externs.join(","),
            self.types.iter().map(|(n, m)| format!("{n} = {}", show_refs(m))).collect::<Vec<_>>().join("; ")
        )
    }
    fn extern_types(&self, t: &Table) -> ExternTypes {
        let mut res: BTreeMap<_, BTreeMap<_, _>> = BTreeMap::new();
        for e in &self.externs {
            let r = &t.refs[*e];
            res.entry(r.lib_name.clone()).or_default().insert(r.sem_id, r.ty_name.clone());
        }
        TinyOrdMap::try_from(
            res.into_iter().map(|(n, m)| (n, SmallOrdMap::try_from(m).unwrap())).collect::<BTreeMap<_, _>>(),
        )
        .unwrap()
    }
    fn deps(&self, t: &Table) -> BTreeSet<Dependency> { self.deps.iter().map(|d| t.world.dep(d)).collect() }
    fn build(&self, t: &Table) -> SymbolicLib {
        symbolic_lib(
            "LibTest",
            self.deps(t),
            self.extern_types(t),
            self.types.iter().map(|(n, m)| (tname(n), ty_with(m, &mut |m| t.tref(m)))).collect(),
        )
    }
}

/// What is wrong with the library
#[derive(Default, Debug)]
struct Defects {
    /// (unknown name, definitions which mention it)
    unknown: BTreeMap<String, BTreeSet<String>>,
    libs: BTreeSet<String>,
    missing: BTreeSet<(String, SemId, String)>,
    deep: BTreeSet<String>,
}
impl Defects {
    fn none(&self) -> bool {
        self.unknown.is_empty() && self.libs.is_empty() && self.missing.is_empty() && self.deep.is_empty()
    }
}

fn defects(raw: &Raw, t: &Table) -> Defects {
    let mut d = Defects::default();
    let used: BTreeMap<&String, BTreeSet<String>> = raw
        .types
        .iter()
        .map(|(n, m)| {
            let mut rs = BTreeSet::new();
            refs(m, &mut rs);
            (n, rs)
        })
        .collect();
    let deps = raw.deps(t);
    let externs = raw.extern_types(t);
    for rs in used.values() {
        for n in rs {
            let Some(r) = t.refs.get(n) else { continue };
            if !deps.iter().any(|d| d.name == r.lib_name && d.id == r.lib_id) {
                d.libs.insert(r.lib_name.to_string());
            } else if externs.get(&r.lib_name).and_then(|x| x.get(&r.sem_id)) != Some(&r.ty_name) {
                d.missing.insert((r.lib_name.to_string(), r.sem_id, r.ty_name.to_string()));
            }
        }
    }
    for l in externs.keys() {
        if !deps.iter().any(|d| d.name == *l) {
            d.libs.insert(l.to_string());
        }
    }
    // definitions which may be completed one after another
    let mut done: BTreeSet<&String> = BTreeSet::new();
    loop {
        let next: Vec<_> = used
            .iter()
            .filter(|(n, rs)| !done.contains(*n) && rs.iter().all(|r| t.refs.contains_key(r) || done.contains(r)))
            .map(|x| *x.0)
            .collect();
        if next.is_empty() {
            break;
        }
        done.extend(next);
    }
    for (n, rs) in &used {
        for r in rs {
            if !t.refs.contains_key(r) && !done.contains(r) {
                d.unknown.entry(r.clone()).or_default().insert((*n).clone());
            }
        }
    }
    for (n, m) in &raw.types {
        if inline_depth(m) > 3 {
            d.deep.insert(n.clone());
        }
    }
    d
}

fn compile_case(ctx: &mut Ctx, t: &Table, raw: &Raw) {
    let case = || raw.show();
    ctx.case(case);
    ctx.trace();
    ctx.state();
    ctx.transitions(raw.types.len() as u64);
    let d = defects(raw, t);
    let sym = raw.build(t);
    let key = |k: &str| format!("{k} {}", raw.show());
    let within = |unknown: &str, ty: &Ty<TranspileRef>| {
        d.unknown.get(unknown).is_some_and(|s| {
            s.iter().any(|n| {
                let m = &raw.types.iter().find(|x| x.0 == *n).unwrap().1;
                bytes(&ty_with(m, &mut |m| t.tref(m))) == bytes(ty)
            })
        })
    };
    match guard(|| sym.clone().compile()) {
        Err(p) => ctx.fail(key("panic"), format!("compilation panicked: {p}"), case()),
        Ok(Ok(got)) if d.none() => {
            let mut w = t.world.clone();
            for (n, r) in &t.refs {
                w.ids.insert(n.clone(), r.sem_id.to_byte_array());
            }
            let l = LibDef {
                name: s!("LibTest"),
                deps: raw.deps.iter().map(|d| d.to_string()).collect(),
                types: raw.types.clone(),
            };
            w.add_lib(&l);
            let mut expected = w.type_lib(&l);
            expected.extern_types = raw.extern_types(t);
            if bytes(&got) != bytes(&expected) {
                ctx.fail(key("result"), format!("compiled to {got:?} instead of {expected:?}"), case());
            }
            ctx.count("compiled", 1);
        }
        Ok(Ok(_)) => ctx.fail(key("accepted"), format!("compiled in spite of {d:?}"), case()),
        Ok(Err(e)) if d.none() => ctx.fail(key("refused"), format!("refused: {e}"), case()),
        Ok(Err(e)) => {
            let precise = match &e {
                CompileError::UnknownType { unknown, within: ty } => within(unknown.as_str(), ty),
                CompileError::UnknownLib(l) => d.libs.contains(l.as_str()),
                CompileError::DependencyMissesType(l, id, n) => {
                    d.missing.contains(&(l.to_string(), *id, n.to_string()))
                }
                CompileError::NestedInline(n, ..) => d.deep.contains(n.as_str()),
                _ => false,
            };
            if !precise {
                ctx.fail(key("imprecise"), format!("error `{e}` isn't about any of the defects {d:?}"), case());
            }
            if guard(|| e.to_string()).is_err() {
                ctx.fail(key("display"), "printing the error panicked", case());
            }
            ctx.count("refused", 1);
        }
    }
}

pub type Cx = fn(M) -> M;
pub fn contexts() -> Vec<Cx> {
    vec![
        |m| tuple(vec![m]),
        |m| strct(&[("a", prim(U8)), ("b", m)]),
        |m| union(&[("a", 0, unit()), ("b", 2, m)]),
        |m| array(m, 4),
        |m| list(m, 0, 0xFF),
        |m| set(m, 1, 0xFFFF),
        |m| map(m, prim(U8), 0, 7),
        |m| map(prim(U8), m, 0, 7),
    ]
}

pub fn nest(c: &[Cx], m: M) -> M { c.iter().rev().fold(m, |m, c| c(m)) }

/// All chains of contexts up to a length
pub fn chains(depth: usize) -> Vec<Vec<Cx>> {
    let cx = contexts();
    let mut chains: Vec<Vec<Cx>> = vec![];
    let mut last: Vec<Vec<Cx>> = vec![vec![]];
    for _ in 0..depth {
        last = last
            .iter()
            .flat_map(|p| cx.iter().map(move |c| p.iter().copied().chain([*c]).collect::<Vec<_>>()))
            .collect();
        chains.extend(last.iter().cloned());
    }
    chains
}

pub fn c08(ctx: &mut Ctx) {
    let t = table();
    let both = |types: Vec<(String, M)>| Raw { types, deps: vec!["LibBase"], externs: vec!["LibBase.Byte"] };
    let cx = contexts();
    // 1. one type: every reference in every context at every depth
    let leaves: Vec<M> = vec![
        prim(U8), M::Uni, enm(&[("x", 1)]), r("Ghost"), r("Main"), r("Helper"), r("LibBase.Byte"), r("LibBase.Text"),
        r("LibOther.Thing"), r("LibBase.Missing"), r("LibBase.Renamed"), r("LibBase.Thing"), r("LibBase.Version"),
        r("LibFake.Byte"),
    ];
    for ch in &chains(ctx.by_tier(4, 5)) {
        if !ctx.mine() {
            continue;
        }
        for l in &leaves {
            let m = nest(ch, l.clone());
            compile_case(ctx, &t, &both(vec![(s!("Helper"), tuple(vec![prim(U32)])), (s!("Main"), m)]));
        }
    }
    // 2. declarations of dependencies and external types
    let names = ["LibBase", "LibOther"];
    let ext: [&'static str; 6] =
        ["LibBase.Byte", "LibBase.Text", "LibOther.Thing", "LibBase.Missing", "LibBase.Thing", "LibFake.Byte"];
    let uses: Vec<M> = leaves.iter().filter(|m| matches!(m, M::Named(n, _) if n.contains('.'))).cloned().collect();
    for dm in 0..4usize {
        for em in 0..1usize << ext.len() {
            if !ctx.mine() {
                continue;
            }
            for u in &uses {
                for body in [tuple(vec![u.clone()]), option(list(u.clone(), 0, 1)), prim(U8)] {
                    let raw = Raw {
                        types: vec![(s!("Main"), body)],
                        deps: (0..2).filter(|i| dm >> i & 1 == 1).map(|i| names[i]).collect(),
                        externs: (0..ext.len()).filter(|i| em >> i & 1 == 1).map(|i| ext[i]).collect(),
                    };
                    compile_case(ctx, &t, &raw);
                }
            }
        }
    }
    // 3. all reference graphs over n types: every type has up to two references out of all names, at some depth
    let graph = |ctx: &mut Ctx, n: usize, depths: &[usize]| {
        let mut targets: Vec<Option<M>> = vec![None];
        for i in 0..n {
            targets.push(Some(r(&format!("Ty{i}"))));
        }
        targets.push(Some(r("Ghost")));
        targets.push(Some(r("LibBase.Byte")));
        let wrap = |d: usize, m: M| nest(&cx[1..][..d.min(2)], if d > 2 { option(m) } else { m });
        let mut bodies: Vec<M> = vec![];
        for a in 0..targets.len() {
            for b in a..targets.len() {
                for d in depths {
                    let f = |x: &Option<M>| x.clone().map(|m| wrap(*d, m)).unwrap_or(prim(U16));
                    bodies.push(tuple(vec![f(&targets[a]), f(&targets[b])]));
                    if a == 0 && b == 0 {
                        break;
                    }
                }
            }
        }
        let mut idx = vec![0usize; n];
        loop {
            if ctx.mine() {
                let types = (0..n).map(|i| (format!("Ty{i}"), bodies[idx[i]].clone())).collect();
                compile_case(ctx, &t, &both(types));
            }
            let mut i = 0;
            while i < n {
                idx[i] += 1;
                if idx[i] < bodies.len() {
                    break;
                }
                idx[i] = 0;
                i += 1;
            }
            if i == n || ctx.many_violations() {
                break;
            }
        }
        ctx.count("reference_graph_bodies", bodies.len() as u64);
    };
    graph(ctx, 1, &[0, 1, 2, 3]);
    graph(ctx, 2, &[0, 1, 2, 3]);
    graph(ctx, 3, &[0]);
    if ctx.thorough() {
        graph(ctx, 3, &[0, 3]);
        graph(ctx, 4, &[0]);
    }
    // 4. long chains in the best and in the worst order, deep nesting
    for n in [2, 10, 100, 600] {
        for kind in 0..4 {
            if !ctx.mine() {
                continue;
            }
            let name = |i: usize| format!("Ty{:05}", if kind % 2 == 0 { i } else { n - i });
            let mut types: Vec<(String, M)> = (0..n).map(|i| (name(i), tuple(vec![r(&name(i + 1))]))).collect();
            types.push((name(n), if kind < 2 { prim(U8) } else { tuple(vec![r(&name(0))]) }));
            compile_case(ctx, &t, &both(types));
        }
        if ctx.mine() {
            let m = (0..n).fold(r("Ghost"), |m, i| if i % 2 == 0 { option(m) } else { list(m, 0, 1) });
            compile_case(ctx, &t, &both(vec![(s!("Main"), m)]));
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------

fn conversions(ctx: &mut Ctx, w: &World) {
    for l in &w.libs {
        let compiled = w.type_lib(l);
        let symbolic = w.symbolic(l);
        let case = || l.show();
        ctx.case(case);
        ctx.trace();
        ctx.state();
        ctx.transitions(4);
        let key = |k: &str| format!("{k} {}", l.show());
        match guard(|| compiled.to_symbolic()) {
            Ok(Ok(s)) => {
                if bytes(&s) != bytes(&symbolic) {
                    ctx.fail(key("symbolic"), format!("converts to {s:?}, expected {symbolic:?}"), case());
                }
                match guard(|| s.compile()) {
                    Ok(Ok(c)) => {
                        if bytes(&c) != bytes(&compiled) || c.id() != compiled.id() {
                            ctx.fail(key("back"), format!("comes back as {c:?}"), case());
                        }
                    }
                    e => ctx.fail(key("back-error"), format!("{e:?}"), case()),
                }
            }
            e => ctx.fail(key("symbolic-error"), format!("{e:?}"), case()),
        }
        match guard(|| symbolic.clone().compile()) {
            Ok(Ok(c)) => {
                if bytes(&c) != bytes(&compiled) || c.id() != lid(w.lib_ids[&l.name]) {
                    ctx.fail(key("compiled"), format!("compiles to {c:?}, expected {compiled:?}"), case());
                }
                match guard(|| c.to_symbolic()) {
                    Ok(Ok(s)) => {
                        if bytes(&s) != bytes(&symbolic) {
                            ctx.fail(key("again"), format!("comes back as {s:?}"), case());
                        }
                    }
                    e => ctx.fail(key("again-error"), format!("{e:?}"), case()),
                }
            }
            e => ctx.fail(key("compile-error"), format!("{e:?}"), case()),
        }
    }
}

/// Libraries with one reference which resolves nowhere
fn dangling(ctx: &mut Ctx) {
    let w = &worlds()[0];
    let user = lib("LibUser", &["LibBase", "LibMid"], &[
        ("Local", tuple(vec![prim(U8)])),
        ("Uses", tuple(vec![r("LibBase.Byte"), r("LibMid.Pair"), r("Local")])),
    ]);
    let mut libs = w.libs[..2].to_vec();
    libs.push(user.clone());
    let w = World::new(&libs);
    let base = w.type_lib(&user);
    let byte = sid(w.ids["LibBase.Byte"]);
    let pair = sid(w.ids["LibMid.Pair"]);
    let (lb, lm) = (lid(w.lib_ids["LibBase"]), lid(w.lib_ids["LibMid"]));
    let local = sid(w.ids["LibUser.Local"]);
    // (what it is, reference, is it good?)
    let cases: Vec<(&str, Box<dyn Fn() -> Rf>, bool)> = vec![
        ("own type", Box::new(move || Rf::Named(local)), true),
        ("type of LibBase", Box::new(move || Rf::Extern(ExternRef::with(lb, byte))), true),
        ("type of LibMid", Box::new(move || Rf::Extern(ExternRef::with(lm, pair))), true),
        ("unknown id", Box::new(|| Rf::Named(sid([7; 32]))), false),
        ("foreign id as own", Box::new(move || Rf::Named(byte)), false),
        ("type of the wrong library", Box::new(move || Rf::Extern(ExternRef::with(lm, byte))), false),
        ("own type as external", Box::new(move || Rf::Extern(ExternRef::with(lb, local))), false),
        ("unknown external id", Box::new(move || Rf::Extern(ExternRef::with(lb, sid([8; 32])))), false),
        ("unknown library", Box::new(move || Rf::Extern(ExternRef::with(lid([9; 32]), byte))), false),
    ];
    for ch in chains(4) {
        if !ctx.mine() {
            continue;
        }
        for (what, rf, good) in &cases {
            let m = nest(&ch, r("Spot"));
            if inline_depth(&m) > 3 {
                continue;
            }
            let ty: Ty<LibRef> = ty_with(&m, &mut |m| LibRef::lk(&|_, _| rf(), m));
            let mut types: BTreeMap<_, _> = base.types.iter().map(|(n, t)| (n.clone(), t.clone())).collect();
            types.insert(tname("Subject"), ty);
            let lib = TypeLib { types: Confined::try_from(types).unwrap(), ..base.clone() };
            let case = || format!("{what} as the spot of {}", show_refs(&m));
            ctx.case(case);
            ctx.trace();
            ctx.state();
            ctx.transition();
            let key = |k: &str| format!("{k} {what} {}", show_refs(&m));
            match (guard(|| lib.to_symbolic()), good) {
                (Ok(Ok(_)), true) => ctx.count("converted", 1),
                (Ok(Ok(s)), false) => {
                    ctx.fail(key("invented"), format!("{what} was given a name: {:?}", s.types().get(&tname("Subject"))), case())
                }
                (Ok(Err(e)), false) => {
                    let ok = match (&e, rf()) {
                        (SymbolError::UnknownType(id), Rf::Named(x)) => *id == x,
                        (SymbolError::UnknownType(id), Rf::Extern(x)) => *id == x.sem_id,
                        (SymbolError::UnknownLib(id), Rf::Extern(x)) => *id == x.lib_id,
                        _ => false,
                    };
                    if !ok {
                        ctx.fail(key("imprecise"), format!("{e}"), case());
                    }
                    ctx.count("refused", 1)
                }
                (e, _) => ctx.fail(key("error"), format!("{e:?}"), case()),
            }
        }
    }
    // dependencies or external types which are lost
    if ctx.first() {
        for dep in [Some("LibBase"), Some("LibMid"), None] {
            for ext in [Some("LibBase"), Some("LibMid"), None] {
                if dep.is_none() && ext.is_none() {
                    continue;
                }
                let deps: BTreeSet<Dependency> =
                    base.dependencies.iter().filter(|d| Some(d.name.as_str()) != dep).cloned().collect();
                let externs: BTreeMap<_, _> = base
                    .extern_types
                    .iter()
                    .filter(|(l, _)| Some(l.as_str()) != ext)
                    .map(|(l, t)| (l.clone(), t.clone()))
                    .collect();
                let lib = TypeLib {
                    dependencies: TinyOrdSet::try_from(deps).unwrap(),
                    extern_types: TinyOrdMap::try_from(externs).unwrap(),
                    ..base.clone()
                };
                let case = || format!("library without dependency {dep:?} and external types of {ext:?}");
                ctx.case(case);
                ctx.state();
                ctx.transition();
                match guard(|| lib.to_symbolic()) {
                    Ok(Err(SymbolError::UnknownLib(_) | SymbolError::UnknownType(_))) => {}
                    e => ctx.fail(format!("lost {dep:?} {ext:?}"), format!("{e:?}"), case()),
                }
            }
        }
    }
}

pub fn c09(ctx: &mut Ctx) {
    for w in worlds().into_iter().chain(shapes()) {
        if ctx.mine() {
            conversions(ctx, &w);
        }
    }
    for n in sizes(ctx.thorough()) {
        if ctx.mine() {
            wide(n).iter().for_each(|w| conversions(ctx, w));
        }
    }
    // the standard libraries and everything reflected
    let cat = crate::reflect::catalogue();
    if ctx.mine() {
        conversions(ctx, &cat.world);
    }
    if ctx.mine() {
        for (name, l, s) in [
            ("Std", strict_types::stl::std_stl(), strict_types::stl::std_sym()),
            ("StrictTypes", strict_types::stl::strict_types_stl(), strict_types::stl::strict_types_sym()),
        ] {
            ctx.case(|| name.to_string());
            ctx.state();
            ctx.transitions(2);
            match guard(|| l.to_symbolic()) {
                Ok(Ok(x)) if bytes(&x) == bytes(&s) => {}
                e => ctx.fail(format!("std-symbolic {name}"), short(&format!("{e:?}"), 500), name),
            }
            match guard(|| s.clone().compile()) {
                Ok(Ok(x)) if bytes(&x) == bytes(&l) => {}
                e => ctx.fail(format!("std-compile {name}"), short(&format!("{e:?}"), 500), name),
            }
        }
    }
    dangling(ctx);
    // libraries with two types over one another, at every pair of shapes
    if ctx.thorough() {
        let cx = contexts();
        for a in &cx {
            for b in &cx {
                for c in &cx {
                    for d in &cx {
                        if !ctx.mine() {
                            continue;
                        }
                        let w = World::new(&[
                            lib("LibBase", &[], &[("Byte", tuple(vec![prim(U8)]))]),
                            lib("LibUser", &["LibBase"], &[
                                ("One", a(b(r("LibBase.Byte")))),
                                ("Two", c(d(r("One")))),
                                ("Three", d(a(b(r("Two"))))),
                            ]),
                        ]);
                        conversions(ctx, &w);
                    }
                }
            }
        }
    }
}
