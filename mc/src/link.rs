//! C10, C11, C12: linking of libraries, resolution of names, extracts and merges of type systems

use std::collections::{BTreeMap, BTreeSet};

use amplify::ByteArray;
use strict_encoding::StreamReader;
use strict_types::typesys::{Error, SystemBuilder, TypeFqn, TypeSystem};
use strict_types::{SemId, SymbolicSys, Ty, TypeLib};

use crate::core::*;
use crate::ids::system;
use crate::libs::*;
use crate::model::*;
use crate::symb::{chains, nest};
use crate::sysb::*;

pub fn link<'l>(libs: impl IntoIterator<Item = &'l TypeLib>) -> Result<SymbolicSys, Vec<Error>> {
    let mut b = SystemBuilder::new();
    for l in libs {
        b = b.import(l.clone()).map_err(|e| vec![e])?;
    }
    b.finalize()
}

/// Adds a library the references of which do not have to resolve
struct Linked {
    w: World,
    libs: Vec<TypeLib>,
}

impl Linked {
    fn new(w: World) -> Linked {
        let libs = w.libs.iter().map(|l| w.type_lib(l)).collect();
        Linked { w, libs }
    }

    /// Expected errors of the finalization: (absent dependencies, (unknown type, known type))
    fn errors(&self, set: &BTreeSet<usize>) -> (BTreeSet<String>, BTreeSet<(SemId, SemId)>) {
        let imported: BTreeSet<Id> = set.iter().map(|i| self.w.own[*i]).collect();
        let mut deps = BTreeSet::new();
        for i in set {
            for d in &self.w.libs[*i].deps {
                if !imported.contains(&self.w.lib_ids[d]) {
                    deps.insert(d.clone());
                }
            }
        }
        let e = self.w.expected(&set.iter().map(|i| &self.w.libs[*i]).collect::<Vec<_>>());
        let mut types = BTreeSet::new();
        for (id, ty) in &e.types {
            for r in refs_of(ty) {
                if !e.types.contains_key(&r) {
                    types.insert((r, *id));
                }
            }
        }
        (deps, types)
    }
}

/// Ids a definition refers to
fn refs_of(ty: &Ty<SemId>) -> Vec<SemId> {
    match ty {
        Ty::Primitive(_) | Ty::UnicodeChar | Ty::Enum(_) => vec![],
        Ty::Union(v) => v.values().copied().collect(),
        Ty::Tuple(f) => f.as_unconfined().to_vec(),
        Ty::Struct(f) => f.as_unconfined().iter().map(|f| f.ty).collect(),
        Ty::Array(t, _) | Ty::List(t, _) | Ty::Set(t, _) => vec![*t],
        Ty::Map(k, t, _) => vec![*k, *t],
    }
}

fn seqs(n: usize, len: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(n: usize, len: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        f(cur);
        if cur.len() < len {
            for i in 0..n {
                cur.push(i);
                go(n, len, cur, f);
                cur.pop();
            }
        }
    }
    go(n, len, &mut vec![], f)
}

fn import_order(ctx: &mut Ctx, l: &Linked, len: usize) {
    let mut all = vec![];
    seqs(l.libs.len(), len, &mut |s| all.push(s.to_vec()));
    import_orders(ctx, l, all);
}

/// Worlds of many libraries: all of them in different orders, all but one
fn many(ctx: &mut Ctx, l: &Linked) {
    let n = l.libs.len();
    if n <= 3 {
        return import_order(ctx, l, n);
    }
    let whole: Vec<usize> = (0..n).collect();
    let mut all = vec![whole.clone(), whole.iter().rev().copied().collect(), whole.iter().chain(&whole).copied().collect()];
    for gone in (0..n).filter(|i| n <= 34 || *i < 2 || *i > n - 4 || i % 16 <= 1) {
        all.push(whole.iter().copied().filter(|i| *i != gone).collect());
    }
    import_orders(ctx, l, all);
}

fn import_orders(ctx: &mut Ctx, l: &Linked, all: Vec<Vec<usize>>) {
    // what the first order gave
    let mut first: BTreeMap<BTreeSet<usize>, Vec<u8>> = BTreeMap::new();
    for s in all {
        let set: BTreeSet<usize> = s.iter().copied().collect();
        let names: Vec<_> = s.iter().map(|i| l.w.libs[*i].name.as_str()).collect();
        let case = || format!("import {} of {}", names.join(", "), l.w.show());
        let key = |k: &str| format!("{k} {} {}", names.join(","), short(&l.w.show(), 400));
        ctx.case(case);
        ctx.state();
        ctx.trace();
        ctx.transitions(s.len() as u64 + 1);
        let (deps, types) = l.errors(&set);
        let got = guard(|| link(s.iter().map(|i| &l.libs[*i])));
        match got {
            Err(p) => ctx.fail(key("panic"), format!("linking panicked: {p}"), case()),
            Ok(Ok(_)) if !(deps.is_empty() && types.is_empty()) => ctx.fail(
                key("accepted"),
                format!("the system is accepted, while dependencies {deps:?} and types (unknown, used by) {types:?} are missing"),
                case(),
            ),
            Ok(Ok(sys)) => {
                let e = l.w.expected(&set.iter().map(|i| &l.w.libs[*i]).collect::<Vec<_>>());
                assert!(!e.clash, "harness: ambiguous ids");
                if bytes(sys.as_types()) != bytes(&system(&e.types)) || bytes(&sys.clone().into_type_system()) != bytes(sys.as_types()) {
                    ctx.fail(key("types"), format!("the types are {:?}, expected {:?}", sys.as_types(), e.types), case());
                }
                for ((lib, name), id) in &e.names {
                    if sys.resolve(TypeFqn::with(lname(lib), tname(name))) != Some(id) {
                        ctx.fail(key("name"), format!("{lib}.{name} doesn't resolve to its definition"), case());
                    }
                }
                let b = bytes(&sys);
                let f = first.entry(set.clone()).or_insert_with(|| b.clone());
                if *f != b {
                    ctx.fail(key("order"), "the system differs from the one linked in another order", case());
                }
                ctx.count("complete", 1);
            }
            Ok(Err(errs)) => {
                let mut d = BTreeSet::new();
                let mut t = BTreeSet::new();
                for e in errs {
                    match e {
                        Error::AbsentImport(dep)
                            if l.w.lib_ids.get(dep.name.as_str()) == Some(&dep.id.to_byte_array()) =>
                        {
                            d.insert(dep.name.to_string());
                        }
                        Error::InnerTypeAbsent { unknown, known } => {
                            t.insert((unknown, known));
                        }
                        e => ctx.fail(key("error"), format!("unexpected error {e}"), case()),
                    }
                }
                if d != deps || t != types {
                    ctx.fail(
                        key("errors"),
                        format!("reported dependencies {d:?} and types {t:?}, while missing are {deps:?} and {types:?}"),
                        case(),
                    );
                }
                ctx.count("refused", 1);
            }
        }
    }
}

/// A world with a library which has references at all places, some of them to nowhere
fn dangling_worlds(depth: usize) -> Vec<World> {
    let base = worlds()[0].libs[..2].to_vec();
    let mut res = vec![];
    let probe = World::new(&base);
    let spots: Vec<(&str, Id)> = vec![
        ("Spot", [7; 32]),
        ("Spot", probe.ids["LibBase.Byte"]),
        ("Spot", SemId::unit().to_byte_array()),
        ("LibBase.Ghost", [8; 32]),
        ("LibBase.Ghost", probe.ids["LibMid.Pair"]),
        ("LibMid.Ghost", probe.ids["LibBase.Byte"]),
        ("LibGhost.Byte", probe.ids["LibBase.Byte"]),
        ("LibGhost.Other", [9; 32]),
    ];
    for ch in chains(depth) {
        for (name, id) in &spots {
            let m = nest(&ch, r(name));
            if inline_depth(&m) > 3 {
                continue;
            }
            let mut w = World::new(&base);
            w.ids.insert(if name.contains('.') { name.to_string() } else { format!("LibUser.{name}") }, *id);
            w.lib_ids.insert(s!("LibGhost"), [0x33; 32]);
            w.add_lib(&lib("LibUser", &["LibBase"], &[("Subject", m), ("Fine", tuple(vec![prim(U8)]))]));
            res.push(w);
        }
    }
    // dependencies: absent, of another version, indirect
    for deps in [vec!["LibGhost"], vec!["LibMid"], vec!["LibMid", "LibGhost"], vec![]] {
        let mut w = World::new(&base);
        w.lib_ids.insert(s!("LibGhost"), [0x33; 32]);
        w.add_lib(&lib("LibUser", &deps, &[("Fine", tuple(vec![prim(U8)]))]));
        res.push(w);
    }
    let old = World::new(&base[..1]);
    let mut newer = base[..1].to_vec();
    newer[0].types.push((s!("Added"), tuple(vec![prim(U64)])));
    let mut w = World::new(&newer);
    w.lib_ids.insert(s!("LibBase"), old.lib_ids["LibBase"]);
    w.add_lib(&lib("LibUser", &["LibBase"], &[("Fine", tuple(vec![r("LibBase.Byte")]))]));
    res.push(w);
    res
}

pub fn c10(ctx: &mut Ctx) {
    for w in worlds() {
        let len = match w.libs.len() {
            4 => ctx.by_tier(5, 7),
            3 => ctx.by_tier(5, 8),
            _ => ctx.by_tier(5, 10),
        };
        if ctx.mine() {
            import_order(ctx, &Linked::new(w), len);
        }
    }
    for w in shapes() {
        if ctx.mine() {
            import_order(ctx, &Linked::new(w), ctx.by_tier(3, 4));
        }
    }
    for w in dangling_worlds(ctx.by_tier(3, 4)) {
        if ctx.mine() {
            import_order(ctx, &Linked::new(w), 3);
        }
    }
    for n in sizes(ctx.thorough()) {
        if ctx.mine() {
            wide(n).into_iter().for_each(|w| many(ctx, &Linked::new(w)));
        }
    }
    for n in crate::ids::CROWDS {
        if !ctx.mine() || n > 5000 {
            continue;
        }
        let w = crate::ids::crowd(n);
        ctx.case(|| format!("linking of a library of {n} types"));
        ctx.state();
        ctx.transition();
        let e = w.expected(&[&w.libs[0]]);
        match guard(|| link(&[w.type_lib(&w.libs[0])])) {
            Ok(Ok(sys)) => {
                let ok = bytes(sys.as_types()) == bytes(&system(&e.types))
                    && e.names.iter().all(|((l, n), id)| sys.resolve(TypeFqn::with(lname(l), tname(n))) == Some(id));
                if !ok {
                    ctx.fail(format!("crowd {n}"), "wrong types or names", format!("library of {n} types"));
                }
            }
            e => ctx.fail(format!("crowd {n}"), short(&format!("{e:?}"), 300), format!("library of {n} types")),
        }
    }
    let cat = crate::reflect::catalogue();
    let l = Linked::new(cat.world);
    if ctx.mine() {
        import_order(ctx, &l, ctx.by_tier(3, 4));
    }
    let n = l.libs.len();
    if ctx.mine() {
        // all orders of everything
        for p in crate::ids::permutations(&(0..n).collect::<Vec<_>>()) {
            let whole: BTreeSet<usize> = (0..n).collect();
            if l.errors(&whole) != Default::default() {
                panic!("harness: incomplete catalogue");
            }
            ctx.case(|| format!("all libraries in the order {p:?}"));
            ctx.state();
            ctx.transitions(n as u64);
            match guard(|| link(p.iter().map(|i| &l.libs[*i]))) {
                Ok(Ok(sys)) => {
                    let e = l.w.expected(&l.w.libs.iter().collect::<Vec<_>>());
                    if bytes(sys.as_types()) != bytes(&system(&e.types)) {
                        ctx.fail(format!("catalogue {p:?}"), "types differ", "catalogue");
                    }
                }
                e => ctx.fail(format!("catalogue {p:?}"), short(&format!("{e:?}"), 300), "catalogue"),
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------------------ C11

/// The term with all references expanded
pub fn expand(w: &World, lib: &str, m: &M) -> M {
    let go = |m: &M| expand(w, lib, m);
    match m {
        M::Prim(_) | M::Uni | M::Enum(_) => m.clone(),
        M::Union(v) => M::Union(v.iter().map(|(n, t, m)| (n.clone(), *t, go(m))).collect()),
        M::Tuple(f) => M::Tuple(f.iter().map(go).collect()),
        M::Struct(f) => M::Struct(f.iter().map(|(n, m)| (n.clone(), go(m))).collect()),
        M::Array(m, n) => M::Array(Box::new(go(m)), *n),
        M::List(m, a, b) => M::List(Box::new(go(m)), *a, *b),
        M::Set(m, a, b) => M::Set(Box::new(go(m)), *a, *b),
        M::Map(k, m, a, b) => M::Map(Box::new(go(k)), Box::new(go(m)), *a, *b),
        M::Named(n, _) => {
            let (l, t) = n.split_once('.').unwrap_or((lib, n));
            let l = w.libs.iter().find(|x| x.name == l).expect("harness: library");
            let m = &l.types.iter().find(|x| x.0 == t).expect("harness: type").1;
            M::Named(t.to_string(), Box::new(expand(w, &l.name, m)))
        }
    }
}

fn dbg(x: &impl std::fmt::Debug) -> String { format!("{x:?}") }

fn names(ctx: &mut Ctx, w: &World, cap: usize) {
    let libs: Vec<TypeLib> = w.libs.iter().map(|l| w.type_lib(l)).collect();
    let e = w.expected(&w.libs.iter().collect::<Vec<_>>());
    let show = short(&w.show(), 400);
    // every import order gives names which have to agree
    let orders = if libs.len() <= 4 { crate::ids::permutations(&(0..libs.len()).collect::<Vec<_>>()) } else { vec![(0..libs.len()).collect()] };
    for order in orders {
        let sys = match guard(|| link(order.iter().map(|i| &libs[*i]))) {
            Ok(Ok(sys)) => sys,
            e => {
                ctx.fail(format!("link {show}"), short(&dbg(&e), 300), &show);
                return;
            }
        };
        ctx.trace();
        let key = |k: &str, n: &str| format!("{k} {n} {order:?} {show}");
        for ((lib, name), id) in &e.names {
            let full = format!("{lib}.{name}");
            ctx.case(|| format!("{full} in {show}, order {order:?}"));
            ctx.state();
            ctx.transitions(8);
            let fqn = TypeFqn::with(lname(lib), tname(name));
            let leaked: &'static str = Box::leak(full.clone().into_boxed_str());
            let mut bad = |what: &str| ctx.fail(key(what, &full), format!("{what} of {full} is wrong"), &show);
            if sys.resolve(fqn.clone()) != Some(id) || sys.as_symbols().get(fqn.clone()) != Some(id) {
                bad("resolve");
            }
            if sys.resolve(leaked) != Some(id) || sys.to_sem_id(leaked) != Some(*id) || guard(|| sys.as_symbols()[leaked]).ok() != Some(*id) {
                bad("resolve-str");
            }
            if sys.to_sem_id(fqn.clone()) != Some(*id) || sys.to_sem_id(*id) != Some(*id) {
                bad("to_sem_id");
            }
            match sys.lookup(*id) {
                None => bad("lookup"),
                Some(back) => {
                    if sys.resolve(back.clone()) != Some(id) || !e.fqns(*id).contains(back) || sys.as_symbols().lookup(*id) != Some(back) {
                        bad("lookup-back");
                    }
                }
            }
            let want = &e.types[id];
            if sys.get(fqn.clone()).map(bytes) != Some(bytes(want)) || sys.get(*id).map(bytes) != Some(bytes(want)) {
                bad("get");
            }
            let tree = |spec: strict_types::typify::TypeSpec| {
                guard(|| sys.type_tree(spec).map(|t| { let v: Vec<_> = t.iter().collect(); (dbg(&v), t.to_layout().to_string()) }))
            };
            let (a, b) = (tree(fqn.clone().into()), tree((*id).into()));
            if a != b || matches!(a, Ok(None)) {
                bad("type_tree");
            }
            let ldef = w.libs.iter().find(|l| l.name == *lib).unwrap();
            let m = expand(w, lib, &ldef.types.iter().find(|t| t.0 == *name).unwrap().1);
            if !m.decodable() {
                continue;
            }
            for v in values(&m, cap) {
                ctx.transition();
                let data = encoded(&m, &v);
                let mut inputs = vec![data.clone(), data[..data.len().saturating_sub(1)].to_vec()];
                let mut x = data.clone();
                x.push(0);
                inputs.push(x);
                for d in inputs {
                    let by_name = guard(|| dbg(&sys.strict_deserialize_type(fqn.clone(), &d)));
                    let by_id = guard(|| dbg(&sys.strict_deserialize_type(*id, &d)));
                    let direct = guard(|| dbg(&sys.as_types().strict_deserialize_type(*id, &d)));
                    let read = |spec: strict_types::typify::TypeSpec| {
                        guard(|| {
                            let mut c = StreamReader::cursor::<0xFFFF_FFFF>(&d[..]);
                            let r = dbg(&sys.strict_read_type(spec, &mut c));
                            (r, c.unconfine().position())
                        })
                    };
                    if by_name != by_id || by_id != direct || read(fqn.clone().into()) != read((*id).into()) {
                        ctx.fail(key("decode", &full), format!("{by_name:?} by name, {by_id:?} by id"), &show);
                    }
                }
                let sv = to_strict(&m, &v);
                let by_name = guard(|| sys.typify(sv.clone(), fqn.clone()));
                let by_id = guard(|| sys.typify(sv.clone(), *id));
                let by_str = guard(|| sys.typify(sv.clone(), leaked));
                if dbg(&by_name) != dbg(&by_id) || dbg(&by_str) != dbg(&by_id) || !matches!(by_name, Ok(Ok(_))) {
                    ctx.fail(key("typify", &full), format!("{by_name:?} by name, {by_id:?} by id"), &show);
                }
            }
        }
        // ids without names
        for id in e.types.keys() {
            ctx.transition();
            if e.fqns(*id).is_empty() && sys.lookup(*id).is_some() {
                ctx.fail(key("unnamed", &id.to_string()), "an inline type has got a name", &show);
            }
            for i in [0usize, 13, 31] {
                let mut x = id.to_byte_array();
                x[i] ^= 1;
                let x = sid(x);
                if sys.lookup(x).is_some() || sys.get(x).is_some() || sys.type_tree(x).is_some() {
                    ctx.fail(key("unknown-id", &x.to_string()), "an unknown id is known", &show);
                }
            }
        }
        // unknown names
        let all: BTreeSet<&String> = e.names.keys().map(|x| &x.1).collect();
        let ghosts = [s!("Ghost")];
        for lib in w.libs.iter().map(|l| &l.name).chain(&ghosts) {
            for name in all.iter().copied().chain(&ghosts) {
                if e.names.contains_key(&(lib.clone(), name.clone())) {
                    continue;
                }
                ctx.transition();
                ctx.state();
                let fqn = TypeFqn::with(lname(lib), tname(name));
                if sys.resolve(fqn.clone()).is_some()
                    || sys.get(fqn.clone()).is_some()
                    || sys.type_tree(fqn.clone()).is_some()
                    || sys.to_sem_id(fqn.clone()).is_some()
                    || sys.typify(strict_types::StrictVal::Unit, fqn.clone()).is_ok()
                    || sys.strict_deserialize_type(fqn.clone(), &[0]).is_ok()
                {
                    ctx.fail(key("unknown-name", &fqn.to_string()), format!("{fqn} isn't defined, but known"), &show);
                }
            }
        }
    }
}

pub fn c11(ctx: &mut Ctx) {
    for w in worlds().into_iter().chain(shapes()) {
        if ctx.mine() {
            names(ctx, &w, ctx.by_tier(3, 30));
        }
    }
    let cat = crate::reflect::catalogue();
    if ctx.mine() {
        names(ctx, &cat.world, ctx.by_tier(3, 10));
    }
    for n in sizes(ctx.thorough()) {
        if ctx.mine() {
            wide(n).iter().for_each(|w| names(ctx, w, 2));
        }
    }
    // libraries which share names and structures in all combinations
    let bodies = [tuple(vec![prim(U8)]), tuple(vec![prim(U16)]), strct(&[("a", prim(U8))])];
    let ns = ["Alpha", "Beta", "Gamma"];
    let mut lib_defs: Vec<Vec<(&str, M)>> = vec![];
    for k in 0..4usize.pow(3) {
        let types: Vec<_> = (0..3).filter(|i| k / 4usize.pow(*i) % 4 > 0).map(|i| (ns[i as usize], bodies[k / 4usize.pow(i) % 4 - 1].clone())).collect();
        if !types.is_empty() {
            lib_defs.push(types);
        }
    }
    for a in &lib_defs {
        for b in &lib_defs {
            if !ctx.mine() {
                continue;
            }
            if ctx.thorough() {
                for c in &lib_defs[..ctx.by_tier(0, 16)] {
                    names(ctx, &World::new(&[lib("LibA", &[], a), lib("LibB", &[], b), lib("LibC", &[], c)]), 1);
                }
            }
            names(ctx, &World::new(&[lib("LibA", &[], a), lib("LibB", &[], b)]), 1);
        }
    }
}

// ------------------------------------------------------------------------------------------------------------ C12

fn closure(types: &BTreeMap<SemId, Ty<SemId>>, ids: &[SemId]) -> Result<BTreeMap<SemId, Ty<SemId>>, BTreeSet<SemId>> {
    let mut res = BTreeMap::new();
    let mut missing = BTreeSet::new();
    let mut todo = ids.to_vec();
    while let Some(id) = todo.pop() {
        match types.get(&id) {
            None => {
                missing.insert(id);
            }
            Some(ty) => {
                if res.insert(id, ty.clone()).is_none() {
                    todo.extend(refs_of(ty));
                }
            }
        }
    }
    if missing.is_empty() { Ok(res) } else { Err(missing) }
}

fn extraction(ctx: &mut Ctx, what: &str, types: &BTreeMap<SemId, Ty<SemId>>, sys: &TypeSystem, ids: &[SemId]) -> Option<TypeSystem> {
    let case = || format!("extract {} of {what}", ids.iter().map(|i| format!("{i:-}")).collect::<Vec<_>>().join(", "));
    ctx.case(case);
    ctx.state();
    ctx.trace();
    ctx.transition();
    let key = |k: &str| format!("{k} {}", short(&case(), 400));
    match (guard(|| sys.extract(ids.iter().copied())), closure(types, ids)) {
        (Ok(Ok(x)), Ok(want)) => {
            if bytes(&x) != bytes(&system(&want)) {
                ctx.fail(key("extract"), format!("extracted {x:?}, expected {want:?}"), case());
            }
            ctx.count("extracted", 1);
            return Some(x);
        }
        (Ok(Err(e)), Err(missing)) => {
            if !missing.iter().any(|id| e.to_string().contains(&id.to_string())) {
                ctx.fail(key("imprecise"), format!("{e}, while missing are {missing:?}"), case());
            }
            ctx.count("refused", 1);
        }
        (got, want) => ctx.fail(
            key("verdict"),
            format!("{}, expected {}", short(&dbg(&got), 300), short(&dbg(&want), 300)),
            case(),
        ),
    }
    None
}

fn subsets<T: Clone>(v: &[T], k: usize) -> Vec<Vec<T>> {
    let mut res = vec![vec![]];
    let mut last: Vec<(usize, Vec<T>)> = vec![(0, vec![])];
    for _ in 0..k {
        let mut next = vec![];
        for (from, s) in &last {
            for i in *from..v.len() {
                let mut x = s.clone();
                x.push(v[i].clone());
                res.push(x.clone());
                next.push((i + 1, x));
            }
        }
        last = next;
    }
    res
}

fn extracts(ctx: &mut Ctx, w: &World, k: usize, missing: usize) {
    let e = w.expected(&w.libs.iter().collect::<Vec<_>>());
    let libs: Vec<TypeLib> = w.libs.iter().map(|l| w.type_lib(l)).collect();
    let Ok(Ok(sym)) = guard(|| link(&libs)) else {
        ctx.fail(format!("link {}", short(&w.show(), 300)), "linking failed", w.show());
        return;
    };
    let what = short(&w.show(), 300);
    let whole = sym.as_types();
    let ids: Vec<SemId> = e.types.keys().copied().collect();
    let ghost = sid([0x55; 32]);
    // of a large world, a few types: those of the last library and those most of the others refer to
    let last: Vec<SemId> = e
        .names
        .iter()
        .filter(|((l, n), _)| *l == w.libs.last().unwrap().name && !n.starts_with("Type") || ["Type0", "Type16", "Type64", "Link0"].contains(&n.as_str()))
        .map(|x| *x.1)
        .take(16)
        .collect();
    for set in subsets(&ids, k) {
        extraction(ctx, &what, &e.types, whole, &set);
        if set.len() < k {
            // repeated and unknown ids
            let mut x = set.clone();
            x.push(ghost);
            extraction(ctx, &what, &e.types, whole, &x);
            let mut x = set.clone();
            x.extend(set.iter().rev().copied().collect::<Vec<_>>());
            extraction(ctx, &what, &e.types, whole, &x);
        }
    }
    extraction(ctx, &what, &e.types, whole, &ids);
    // incomplete systems
    let gone = subsets(&ids, missing).into_iter().filter(|g| ids.len() <= 40 || g.iter().all(|g| last.contains(g)));
    for gone in gone {
        let part: BTreeMap<_, _> = e.types.iter().filter(|x| !gone.contains(x.0)).map(|(i, t)| (*i, t.clone())).collect();
        let sys = system(&part);
        let what = format!("{what} without {}", gone.iter().map(|i| format!("{i:-}")).collect::<Vec<_>>().join(", "));
        for id in ids.iter().filter(|id| ids.len() <= 40 || last.contains(id)) {
            extraction(ctx, &what, &part, &sys, &[*id]);
        }
        extraction(ctx, &what, &part, &sys, &ids);
    }
    // values
    for ((lib, name), id) in &e.names {
        if ids.len() > 40 && !last.contains(id) {
            continue;
        }
        let ldef = w.libs.iter().find(|l| l.name == *lib).unwrap();
        let m = expand(w, lib, &ldef.types.iter().find(|t| t.0 == *name).unwrap().1);
        if !m.decodable() {
            continue;
        }
        let Some(part) = extraction(ctx, &what, &e.types, whole, &[*id]) else { continue };
        for v in values(&m, 20) {
            ctx.transitions(4);
            let d = encoded(&m, &v);
            // all prefixes, of long data the first and last ones
            for n in (0..=d.len()).filter(|n| d.len() <= 60 || *n < 8 || *n + 8 > d.len()) {
                let a = guard(|| dbg(&whole.strict_deserialize_type(*id, &d[..n])));
                let b = guard(|| dbg(&part.strict_deserialize_type(*id, &d[..n])));
                if a != b {
                    ctx.fail(format!("decode {lib}.{name} {v:?}"), format!("{a:?} in the whole, {b:?} in the extract"), &what);
                }
            }
            let sv = to_strict(&m, &v);
            let run = |s: &TypeSystem| {
                guard(|| {
                    let t = s.typify(sv.clone(), *id).map_err(|e| e.to_string())?;
                    let b = s.strict_serialize_value::<0xFFFFFF>(&t).map_err(|e| e.to_string())?;
                    Ok::<_, String>((dbg(&t), b.to_vec()))
                })
            };
            let (a, b) = (run(whole), run(&part));
            if a != b || !matches!(&a, Ok(Ok((_, x))) if *x == d) {
                ctx.fail(format!("typify {lib}.{name} {v:?}"), format!("{a:?} in the whole, {b:?} in the extract"), &what);
            }
        }
    }
}

fn merges(ctx: &mut Ctx, w: &World, k: usize, three: bool) {
    let e = w.expected(&w.libs.iter().collect::<Vec<_>>());
    let ids: Vec<SemId> = e.types.keys().copied().collect();
    let part = |s: &BTreeSet<SemId>| -> BTreeMap<SemId, Ty<SemId>> { s.iter().map(|i| (*i, e.types[i].clone())).collect() };
    let mut family: BTreeSet<BTreeSet<SemId>> = subsets(&ids, k).into_iter().map(|s| s.into_iter().collect()).collect();
    for id in &ids {
        family.insert(closure(&e.types, &[*id]).unwrap().into_keys().collect());
        family.insert(ids.iter().filter(|x| *x != id).copied().collect());
    }
    family.insert(ids.iter().copied().collect());
    let family: Vec<_> = family.into_iter().collect();
    let what = short(&w.show(), 300);
    for a in &family {
        for b in &family {
            if !ctx.mine() {
                continue;
            }
            let mut rest = vec![None];
            if three {
                rest.extend(family[..family.len().min(12)].iter().map(Some));
            }
            for c in rest {
                let case = || format!("merge {a:?} {b:?} {c:?} of {what}");
                ctx.case(case);
                ctx.state();
                ctx.trace();
                ctx.transition();
                let mut sys = system(&part(a));
                let mut want = a.clone();
                let mut ok = guard(|| sys.extend(system(&part(b))).is_ok());
                want.extend(b);
                if let Some(c) = c {
                    ok = ok.and(guard(|| sys.extend(system(&part(c))).is_ok()));
                    want.extend(c);
                }
                if ok != Ok(true) {
                    ctx.fail(short(&format!("merge-failed {}", case()), 500), format!("{ok:?}"), case());
                }
                let want = system(&part(&want));
                if bytes(&sys) != bytes(&want) || sys.id() != want.id() || sys.count_types() != want.count_types() {
                    ctx.fail(short(&format!("merged {}", case()), 500), "wrong types in the merged system", case());
                }
            }
        }
    }
}

pub fn c12(ctx: &mut Ctx) {
    let k = ctx.by_tier(2, 3);
    for w in worlds() {
        if ctx.mine() {
            extracts(ctx, &w, k, ctx.by_tier(1, 2));
        }
        merges(ctx, &w, 1, ctx.thorough());
    }
    for w in shapes() {
        if ctx.mine() {
            extracts(ctx, &w, k, ctx.by_tier(2, 3));
        }
    }
    for n in sizes(ctx.thorough()) {
        if ctx.mine() {
            wide(n).iter().for_each(|w| extracts(ctx, w, 1, 1));
        }
    }
    let cat = crate::reflect::catalogue();
    if ctx.mine() {
        extracts(ctx, &cat.world, 1, 0);
    }
    if ctx.thorough() {
        merges(ctx, &worlds()[3], 3, false);
    }
    merges(ctx, &worlds()[4], 2, false);
}
