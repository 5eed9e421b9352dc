//! Reference model of libraries: definitions with references by name, the commitment scheme of ids, and builders
//! which turn a world of library definitions into the objects of the implementation.
//!
//! In the terms of this module `M::Named(name, _)` is a reference (`Name` to the same library, `Lib.Name` to
//! another one) and its content is ignored.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::{Confined, SmallOrdMap, TinyOrdMap, TinyOrdSet};
use amplify::ByteArray;
use sha2::{Digest, Sha256};
use strict_encoding::{StrictDecode, StrictEncode, StrictReader, StrictWriter};
use strict_types::typelib::{ExternRef, ExternTypes, InlineRef, InlineRef1, InlineRef2, LibSubref, SymbolicLib};
use strict_types::{
    Dependency, LibName, LibRef, SemId, SymbolRef, TranspileRef, Ty, TypeLib, TypeLibId, TypeName,
};

use strict_types::typesys::TypeFqn;

use crate::model::*;
use crate::sysb::*;

pub type Id = [u8; 32];

pub fn r(name: &str) -> M { named(name, unit()) }

pub fn tagged(tag: &[u8], data: &[u8]) -> Id {
    let t = Sha256::digest(tag);
    let mut h = Sha256::new();
    h.update(t);
    h.update(t);
    h.update(data);
    h.finalize().into()
}

fn put_name(name: &str, out: &mut Vec<u8>) {
    out.push(name.len() as u8);
    out.extend(name.as_bytes());
}

/// What a definition commits to (the published scheme)
pub fn commit(m: &M, ids: &dyn Fn(&str, &M) -> Id, out: &mut Vec<u8>) {
    fn sizing(a: u64, b: u64, out: &mut Vec<u8>) {
        out.extend(a.to_le_bytes());
        out.extend(b.to_le_bytes());
    }
    match m {
        M::Prim(c) => out.extend([0, *c]),
        M::Uni => out.push(1),
        M::Enum(v) => {
            out.push(3);
            for (n, t) in v {
                put_name(n, out);
                out.push(*t);
            }
        }
        M::Union(v) => {
            out.push(4);
            for (n, t, m) in v {
                put_name(n, out);
                out.push(*t);
                commit(m, ids, out);
            }
        }
        M::Struct(f) => {
            out.push(5);
            for (n, m) in f {
                put_name(n, out);
                commit(m, ids, out);
            }
        }
        M::Tuple(f) => {
            out.push(6);
            for m in f {
                commit(m, ids, out);
            }
        }
        M::Array(m, n) => {
            out.push(7);
            commit(m, ids, out);
            out.extend(n.to_le_bytes());
        }
        M::List(m, a, b) => {
            out.push(8);
            commit(m, ids, out);
            sizing(*a, *b, out);
        }
        M::Set(m, a, b) => {
            out.push(9);
            commit(m, ids, out);
            sizing(*a, *b, out);
        }
        M::Map(k, m, a, b) => {
            out.push(10);
            commit(k, ids, out);
            commit(m, ids, out);
            sizing(*a, *b, out);
        }
        M::Named(n, m) => out.extend(ids(n, m)),
    }
}

pub fn preimage(name: Option<&str>, m: &M, ids: &dyn Fn(&str, &M) -> Id) -> Vec<u8> {
    let mut out = vec![];
    if let Some(n) = name {
        put_name(n, &mut out);
    }
    commit(m, ids, &mut out);
    out
}

pub const TYP_TAG: &[u8] = b"urn:ubideco:strict-types:typ:v01";
pub const LIB_TAG: &[u8] = b"urn:ubideco:strict-types:lib:v01";
pub const SYS_TAG: &[u8] = b"urn:ubideco:strict-types:sys:v01";

pub fn sem_id(name: Option<&str>, m: &M, ids: &dyn Fn(&str, &M) -> Id) -> Id {
    tagged(TYP_TAG, &preimage(name, m, ids))
}

/// Id of a definition whose references carry their content (the convention of `sysb`)
pub fn nested_id(name: Option<&str>, m: &M) -> Id { sem_id(name, m, &|n, m| nested_id(Some(n), m)) }

pub fn sid(id: Id) -> SemId { SemId::from_byte_array(id) }
pub fn lid(id: Id) -> TypeLibId { TypeLibId::from_byte_array(id) }

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct LibDef {
    pub name: String,
    pub deps: Vec<String>,
    pub types: Vec<(String, M)>,
}

pub fn lib(name: &str, deps: &[&str], types: &[(&str, M)]) -> LibDef {
    LibDef {
        name: name.to_string(),
        deps: deps.iter().map(|d| d.to_string()).collect(),
        types: types.iter().map(|(n, m)| (n.to_string(), m.clone())).collect(),
    }
}

impl LibDef {
    pub fn show(&self) -> String {
        format!(
            "lib {}{} {{ {} }}",
            self.name,
            if self.deps.is_empty() { s!("") } else { format!(" uses {}", self.deps.join(",")) },
            self.types
                .iter()
                .map(|(n, m)| format!("{n} = {}", show_refs(m)))
                .collect::<Vec<_>>()
                .join("; ")
        )
    }
}

pub fn show_refs(m: &M) -> String { m.show().replace("=()", "") }

/// All references of a term, at any depth
pub fn refs(m: &M, out: &mut BTreeSet<String>) {
    match m {
        M::Prim(_) | M::Uni | M::Enum(_) => {}
        M::Union(v) => v.iter().for_each(|x| refs(&x.2, out)),
        M::Tuple(f) => f.iter().for_each(|x| refs(x, out)),
        M::Struct(f) => f.iter().for_each(|x| refs(&x.1, out)),
        M::Array(m, _) | M::List(m, ..) | M::Set(m, ..) => refs(m, out),
        M::Map(k, m, ..) => {
            refs(k, out);
            refs(m, out);
        }
        M::Named(n, _) => {
            out.insert(n.clone());
        }
    }
}

/// Levels of nesting of inline definitions below the top one
pub fn inline_depth(m: &M) -> usize {
    let d = |m: &M| match m {
        M::Named(..) => 0,
        m => 1 + inline_depth(m),
    };
    match m {
        M::Prim(_) | M::Uni | M::Enum(_) | M::Named(..) => 0,
        M::Union(v) => v.iter().map(|x| d(&x.2)).max().unwrap_or(0),
        M::Tuple(f) => f.iter().map(d).max().unwrap_or(0),
        M::Struct(f) => f.iter().map(|x| d(&x.1)).max().unwrap_or(0),
        M::Array(m, _) | M::List(m, ..) | M::Set(m, ..) => d(m),
        M::Map(k, m, ..) => d(k).max(d(m)),
    }
}

#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub struct World {
    pub libs: Vec<LibDef>,
    pub ids: BTreeMap<String, Id>,
    pub lib_ids: BTreeMap<String, Id>,
    /// Ids of the libraries in their order
    pub own: Vec<Id>,
}

impl World {
    pub fn show(&self) -> String { self.libs.iter().map(|l| l.show()).collect::<Vec<_>>().join(" | ") }

    /// The libraries have to be given after their dependencies; every reference has to resolve
    pub fn new(libs: &[LibDef]) -> World {
        let mut w = World::default();
        for l in libs {
            w.add_lib(l);
        }
        w
    }

    /// Adds a library over the libraries and ids which are there already
    pub fn add_lib(&mut self, l: &LibDef) {
        for (n, m) in &l.types {
            self.id_of(l, n, Some(m), &mut vec![]);
        }
        let mut data = vec![];
        put_name(&l.name, &mut data);
        let mut deps: Vec<Id> = l.deps.iter().map(|d| self.lib_ids[d]).collect();
        deps.sort();
        data.push(deps.len() as u8);
        data.extend(deps.concat());
        data.extend((l.types.len() as u16).to_le_bytes());
        let mut names: Vec<_> = l.types.iter().map(|t| t.0.clone()).collect();
        names.sort();
        for n in names {
            data.extend(self.ids[&format!("{}.{n}", l.name)]);
        }
        self.own.push(tagged(LIB_TAG, &data));
        self.lib_ids.insert(l.name.clone(), tagged(LIB_TAG, &data));
        self.libs.push(l.clone());
    }

    fn id_of(&mut self, l: &LibDef, name: &str, known: Option<&M>, stack: &mut Vec<String>) -> Id {
        let full = if name.contains('.') { name.to_string() } else { format!("{}.{name}", l.name) };
        if let Some(id) = self.ids.get(&full) {
            return *id;
        }
        assert!(!stack.contains(&full), "harness: cyclic definition {full}");
        stack.push(full.clone());
        let m = known.unwrap_or_else(|| {
            &l.types.iter().find(|t| t.0 == name).unwrap_or_else(|| panic!("harness: unknown {full}")).1
        });
        let mut rs = BTreeSet::new();
        refs(m, &mut rs);
        let sub: BTreeMap<String, Id> = rs.into_iter().map(|n| (n.clone(), self.id_of(l, &n, None, stack))).collect();
        stack.pop();
        let id = sem_id(Some(name), m, &|n, _| sub[n]);
        self.ids.insert(full, id);
        id
    }

    pub fn id(&self, lib: &str, name: &str) -> Id {
        if name.contains('.') { self.ids[name] } else { self.ids[&format!("{lib}.{name}")] }
    }

    pub fn dep(&self, name: &str) -> Dependency { Dependency::with(lid(self.lib_ids[name]), lname(name)) }

    fn extern_types(&self, l: &LibDef) -> ExternTypes {
        let mut rs = BTreeSet::new();
        l.types.iter().for_each(|t| refs(&t.1, &mut rs));
        let mut res: BTreeMap<LibName, BTreeMap<SemId, TypeName>> = BTreeMap::new();
        for n in rs {
            if let Some((lib, ty)) = n.split_once('.') {
                res.entry(lname(lib)).or_default().insert(sid(self.ids[&n]), tname(ty));
            }
        }
        TinyOrdMap::try_from(
            res.into_iter().map(|(n, m)| (n, SmallOrdMap::try_from(m).unwrap())).collect::<BTreeMap<_, _>>(),
        )
        .unwrap()
    }

    fn rf(&self, l: &LibDef, n: &str) -> Rf {
        let id = sid(self.id(&l.name, n));
        match n.split_once('.') {
            Some((lib, _)) => Rf::Extern(ExternRef::with(lid(self.lib_ids[lib]), id)),
            None => Rf::Named(id),
        }
    }

    /// The compiled library, put together by hand from the reference ids
    pub fn type_lib(&self, l: &LibDef) -> TypeLib {
        let types: BTreeMap<TypeName, Ty<LibRef>> = l
            .types
            .iter()
            .map(|(n, m)| (tname(n), ty_with(m, &mut |m| LibRef::lk(&|n, _| self.rf(l, n), m))))
            .collect();
        TypeLib {
            name: lname(&l.name),
            dependencies: TinyOrdSet::try_from(l.deps.iter().map(|d| self.dep(d)).collect::<BTreeSet<_>>()).unwrap(),
            extern_types: self.extern_types(l),
            types: Confined::try_from(types).unwrap(),
        }
    }

    pub fn transpile_ref(&self, l: &LibDef, m: &M) -> TranspileRef {
        match m {
            M::Named(n, _) => match n.split_once('.') {
                Some((lib, ty)) => TranspileRef::Extern(SymbolRef::with(
                    lname(lib),
                    tname(ty),
                    lid(self.lib_ids[lib]),
                    sid(self.ids[n]),
                )),
                None => TranspileRef::Named(tname(n)),
            },
            m => TranspileRef::Embedded(Box::new(ty_with(m, &mut |m| self.transpile_ref(l, m)))),
        }
    }

    pub fn symbolic(&self, l: &LibDef) -> SymbolicLib {
        symbolic_lib(
            &l.name,
            l.deps.iter().map(|d| self.dep(d)).collect(),
            self.extern_types(l),
            l.types
                .iter()
                .map(|(n, m)| (tname(n), ty_with(m, &mut |m| self.transpile_ref(l, m))))
                .collect(),
        )
    }

    /// Id of an inline definition of the library
    pub fn inline_id(&self, l: &LibDef, m: &M) -> Id { sem_id(None, m, &|n, _| self.id(&l.name, n)) }

    pub fn member_id(&self, l: &LibDef, m: &M) -> Id {
        match m {
            M::Named(n, _) => self.id(&l.name, n),
            m => self.inline_id(l, m),
        }
    }

    /// What linking the given libraries has to put into the system
    pub fn expected(&self, libs: &[&LibDef]) -> Expected {
        let mut e = Expected::default();
        for l in libs {
            for (n, m) in &l.types {
                let id = sid(self.id(&l.name, n));
                self.add(l, m, id, &mut e);
                e.names.insert((l.name.clone(), n.clone()), id);
            }
        }
        e
    }

    fn add(&self, l: &LibDef, m: &M, id: SemId, e: &mut Expected) {
        let ty: Ty<SemId> = ty_with(m, &mut |m| {
            let id = sid(self.member_id(l, m));
            if !matches!(m, M::Named(..)) {
                self.add(l, m, id, e);
            }
            id
        });
        if let Some(prev) = e.types.get(&id) {
            if *prev != ty {
                e.clash = true;
            }
        }
        e.types.insert(id, ty);
    }
}

#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub struct Expected {
    pub types: BTreeMap<SemId, Ty<SemId>>,
    pub names: BTreeMap<(String, String), SemId>,
    pub clash: bool,
}

impl Expected {
    pub fn fqns(&self, id: SemId) -> Vec<TypeFqn> {
        self.names
            .iter()
            .filter(|x| *x.1 == id)
            .map(|((l, n), _)| TypeFqn::with(lname(l), tname(n)))
            .collect()
    }
}

pub enum Rf {
    Named(SemId),
    Extern(ExternRef),
}

/// Library-level references with names resolved by a function
pub trait Lk: LibSubref {
    fn lk(res: &dyn Fn(&str, &M) -> Rf, m: &M) -> Self;
}
macro_rules! lk {
    ($ty:ident) => {
        impl Lk for $ty {
            fn lk(res: &dyn Fn(&str, &M) -> Rf, m: &M) -> Self {
                match m {
                    M::Named(n, m) => match res(n, m) {
                        Rf::Named(id) => $ty::Named(id),
                        Rf::Extern(e) => $ty::Extern(e),
                    },
                    m => $ty::Inline(ty_with(m, &mut |m| Lk::lk(res, m))),
                }
            }
        }
    };
}
lk!(LibRef);
lk!(InlineRef);
lk!(InlineRef1);
impl Lk for InlineRef2 {
    fn lk(res: &dyn Fn(&str, &M) -> Rf, m: &M) -> Self {
        match m {
            M::Named(n, m) => match res(n, m) {
                Rf::Named(id) => InlineRef2::Named(id),
                Rf::Extern(e) => InlineRef2::Extern(e),
            },
            m => panic!("harness: nested too deep: {}", m.show()),
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------

/// The fields of a symbolic library are private: it is put together through its binary form
pub fn symbolic_lib(
    name: &str,
    deps: BTreeSet<Dependency>,
    extern_types: ExternTypes,
    types: BTreeMap<TypeName, Ty<TranspileRef>>,
) -> SymbolicLib {
    let mut b = bytes(&lname(name));
    b.extend(bytes(&TinyOrdSet::try_from(deps).unwrap()));
    b.extend(bytes(&extern_types));
    let types: Confined<BTreeMap<_, _>, 1, { usize::MAX }> = Confined::try_from(types).unwrap();
    b.extend(bytes(&types));
    from_bytes::<SymbolicLib>(&b).expect("harness: symbolic library")
}

pub fn bytes<T: StrictEncode>(v: &T) -> Vec<u8> {
    let w = StrictWriter::in_memory::<0xFF_FFFF>();
    v.strict_encode(w).expect("in-memory encoding").unbox().unconfine()
}

/// Reads the object and requires the data to be over
pub fn from_bytes<T: StrictDecode>(b: &[u8]) -> Result<T, String> {
    let mut rd = StrictReader::in_memory::<0xFF_FFFF>(b);
    let v = T::strict_decode(&mut rd).map_err(|e| e.to_string())?;
    let used = rd.into_cursor().position();
    if used != b.len() as u64 {
        return Err(format!("{} bytes are left over", b.len() as u64 - used));
    }
    Ok(v)
}

// ------------------------------------------------------------------------------------------ universes of libraries

fn t(m: M) -> M { m }

/// Worlds of libraries for the checks of linking and of the conversions
pub fn worlds() -> Vec<World> {
    let base = lib("LibBase", &[], &[
        ("Byte", tuple(vec![prim(U8)])),
        ("Color", enm(&[("red", 0), ("green", 1), ("blue", 7)])),
        ("Text", list(M::Uni, 0, 0xFF)),
        ("Sym", enm(&[("a", 0x61), ("b", 0x62)])),
        ("Word", tuple(vec![r("Sym"), list(r("Sym"), 0, 10)])),
    ]);
    let mid = lib("LibMid", &["LibBase"], &[
        ("Pair", tuple(vec![r("LibBase.Byte"), r("LibBase.Color")])),
        ("Rec", strct(&[("name", r("LibBase.Text")), ("opt", option(r("LibBase.Byte"))), ("pair", r("Pair"))])),
        ("Choice", union(&[("left", 1, r("Pair")), ("right", 5, list(option(r("LibBase.Color")), 1, 3))])),
    ]);
    let top = lib("LibTop", &["LibBase", "LibMid"], &[
        ("All", strct(&[
            ("recs", map(r("LibBase.Word"), r("LibMid.Rec"), 0, 0xFFFF)),
            ("chs", set(r("LibMid.Choice"), 0, 0xFF)),
        ])),
        ("Deep", list(list(list(r("LibMid.Pair"), 0, 1), 0, 2), 0, 3)),
    ]);
    let side = lib("LibSide", &["LibBase"], &[
        ("Other", array(r("LibBase.Color"), 3)),
        ("Nested", strct(&[("inl", tuple(vec![prim(U16), option(r("Other"))])), ("x", unit())])),
    ]);
    let lone = lib("LibLone", &[], &[("Alone", strct(&[("a", prim(U32)), ("b", list(prim(BYTE), 0, 0xFFFF))]))]);
    // types of the same structure and name in two libraries
    let twin_a = lib("TwinA", &[], &[("Same", tuple(vec![prim(U8)])), ("OnlyA", tuple(vec![r("Same"), prim(U8)]))]);
    let twin_b = lib("TwinB", &[], &[("Same", tuple(vec![prim(U8)])), ("OnlyB", strct(&[("s", r("Same"))]))]);
    let twin_user = lib("TwinUser", &["TwinA", "TwinB"], &[("Both", tuple(vec![r("TwinA.Same"), r("TwinB.OnlyB")]))]);
    // the same inline type in two libraries
    let inl_a = lib("InlA", &[], &[("First", strct(&[("x", option(list(prim(U8), 0, 5)))]))]);
    let inl_b = lib("InlB", &[], &[("Second", tuple(vec![option(list(prim(U8), 0, 5)), list(prim(U8), 0, 5)]))]);
    // a dependency which isn't used
    let unused = lib("LibUnused", &["LibLone"], &[("Own", prim(U8))]);
    let indirect = lib("LibIndirect", &["LibUnused"], &[("Far", option(r("LibUnused.Own")))]);
    // names which differ by the case of a letter, or of which one begins another
    let alike = |name: &str, deps: &[&str], n: u16| {
        let mut l = lib(name, deps, &[
            ("Item", array(prim(U8), n)),
            ("ITEM", array(prim(U8), n + 1)),
            ("ItEm", strct(&[("a", r("Item")), ("A1".to_lowercase().as_str(), r("ITEM"))])),
            ("Ite", union(&[("name", 0, r("ItEm")), ("names", 1, r("Item")), ("nAmes", 2, r("ITEM"))])),
            ("Items", array(r("Ite"), n)),
            ("Same", array(prim(U16), 9)),
        ]);
        for d in deps {
            l.types.push((format!("Of{d}"), tuple(vec![r(&format!("{d}.Item")), r(&format!("{d}.ITEM")), r("Item")])));
        }
        l
    };
    let similar = [
        alike("Lib", &[], 3),
        alike("LIB", &["Lib"], 20),
        alike("Li", &["LIB", "Lib"], 40),
        alike("LiB", &["Li", "Lib", "LIB"], 60),
    ];
    vec![
        World::new(&[base.clone(), mid.clone(), top.clone(), side.clone()]),
        World::new(&[base.clone(), mid.clone(), lone.clone()]),
        World::new(&[base.clone(), side.clone(), lone.clone()]),
        World::new(&[twin_a, twin_b, twin_user]),
        World::new(&[inl_a, inl_b]),
        World::new(&[lone, unused, indirect]),
        World::new(&[base, mid, top]),
        World::new(&similar),
    ]
    .into_iter()
    .collect()
}

/// Many single libraries over one dependency: every shape of definition in which a reference may stand
pub fn shapes() -> Vec<World> {
    let base = lib("LibBase", &[], &[("Byte", tuple(vec![prim(U8)])), ("Sym", enm(&[("a", 0x61), ("b", 0x62)]))]);
    let mut res = vec![];
    let members = || {
        vec![
            t(r("LibBase.Byte")),
            r("Local"),
            prim(U16),
            M::Uni,
            enm(&[("x", 0), ("y", 3)]),
            option(r("Local")),
            tuple(vec![r("LibBase.Sym"), prim(U8)]),
        ]
    };
    type Cx = Box<dyn Fn(M) -> M>;
    let contexts = || -> Vec<Cx> {
        vec![
            Box::new(|m| tuple(vec![m])),
            Box::new(|m| tuple(vec![m, prim(U8)])),
            Box::new(|m| strct(&[("a", prim(U8)), ("b", m)])),
            Box::new(|m| union(&[("a", 0, unit()), ("b", 2, m)])),
            Box::new(|m| option(m)),
            Box::new(|m| array(m, 4)),
            Box::new(|m| list(m, 0, 0xFF)),
            Box::new(|m| set(m, 1, 0xFFFF)),
            Box::new(|m| map(m, prim(U8), 0, 7)),
            Box::new(|m| map(prim(U8), m, 0, 7)),
        ]
    };
    let mk = |m: M| {
        let mut rs = BTreeSet::new();
        refs(&m, &mut rs);
        let deps: &[&str] = if rs.iter().any(|x| x.starts_with("LibBase")) { &["LibBase"] } else { &[] };
        World::new(&[
            base.clone(),
            lib("LibUser", deps, &[("Local", strct(&[("v", prim(U32))])), ("Subject", m)]),
        ])
    };
    for m in members() {
        for a in contexts() {
            let am = a(m.clone());
            res.push(mk(am.clone()));
            for b in contexts() {
                let bm = b(am.clone());
                res.push(mk(bm.clone()));
                for c in contexts() {
                    let cm = c(bm.clone());
                    if inline_depth(&cm) <= 3 {
                        res.push(mk(cm));
                    }
                }
            }
        }
    }
    res
}

/// Numbers of parts and lengths of names for the worlds of `wide`
pub fn sizes(thorough: bool) -> Vec<usize> {
    if thorough {
        return (1..=260).chain([300, 511, 512, 513]).collect();
    }
    (1..=17).chain([24, 31, 32, 33, 48, 63, 64, 65, 99, 100, 127, 128, 129, 192, 200, 254, 255, 256, 257]).collect()
}

/// Worlds in which one thing is there `n` times (or is `n` long): dependencies, types, external types, members of
/// all kinds of definitions, links of a chain of definitions, characters of names
pub fn wide(n: usize) -> Vec<World> {
    let few = n.min(255);
    let ns = 0..few;
    let mut res = vec![];
    if n <= 255 {
        let mut libs: Vec<LibDef> =
            ns.clone().map(|i| lib(&format!("Dep{i}"), &[], &[("Item", array(prim(U8), i as u16))])).collect();
        let deps: Vec<String> = libs.iter().map(|l| l.name.clone()).collect();
        let deps: Vec<&str> = deps.iter().map(|s| s.as_str()).collect();
        let user = M::Struct(ns.clone().map(|i| (format!("f{i}"), r(&format!("Dep{i}.Item")))).collect());
        let last = list(r(&format!("Dep{}.Item", n - 1)), 0, 7);
        libs.push(lib("ManyDeps", &deps, &[("Uses", user), ("Last", last)]));
        libs.push(lib("DepsUnused", &deps, &[("Own", prim(U8))]));
        res.push(World::new(&libs));
    }
    let mut types: Vec<(String, M)> = (0..n).map(|i| (format!("Type{i}"), array(prim(U8), i as u16))).collect();
    let base = LibDef { name: s!("LibBase"), deps: vec![], types: types.clone() };
    let all = |pre: &str, mk: &dyn Fn(usize, M) -> M| -> Vec<M> {
        ns.clone().map(|i| mk(i, r(&format!("{pre}Type{i}")))).collect()
    };
    let plain = |_: usize, m: M| m;
    let inl = |i: usize, _: M| list(prim(U8), 0, i as u64 + 1);
    let us = |v: Vec<M>| M::Union(v.into_iter().enumerate().map(|(i, m)| (format!("v{i}"), i as u8, m)).collect());
    let st = |v: Vec<M>| M::Struct(v.into_iter().enumerate().map(|(i, m)| (format!("f{i}"), m)).collect());
    types.push((s!("AllTuple"), M::Tuple(all("", &plain))));
    types.push((s!("AllStruct"), st(all("", &plain))));
    types.push((s!("AllUnion"), us(all("", &plain))));
    types.push((s!("AllEnum"), M::Enum(ns.clone().map(|i| (format!("v{i}"), i as u8)).collect())));
    types.push((s!("InlTuple"), M::Tuple(all("", &inl))));
    types.push((s!("InlStruct"), st(all("", &inl))));
    types.push((s!("InlUnion"), us(all("", &inl))));
    types.push((s!("InlInner"), tuple(vec![us(all("", &inl)), prim(U8)])));
    let own = LibDef { name: s!("LibOwn"), deps: vec![], types };
    let ext = LibDef {
        name: s!("LibExt"),
        deps: vec![s!("LibBase")],
        types: vec![
            (s!("ExtTuple"), M::Tuple(all("LibBase.", &plain))),
            (s!("ExtStruct"), st(all("LibBase.", &plain))),
            (s!("ExtUnion"), us(all("LibBase.", &plain))),
            (s!("ExtLast"), option(r(&format!("LibBase.Type{}", n - 1)))),
            (s!("ExtInner"), tuple(vec![prim(U8), us(all("LibBase.", &plain))])),
        ],
    };
    res.push(World::new(&[own]));
    res.push(World::new(&[base, ext]));
    if n <= 255 {
        // chains of definitions, within a library and over libraries
        let links: Vec<(String, M)> = (0..n)
            .map(|i| (format!("Link{i}"), tuple(vec![prim(U8), if i == 0 { prim(U16) } else { r(&format!("Link{}", i - 1)) }])))
            .collect();
        res.push(World::new(&[LibDef { name: s!("LibChain"), deps: vec![], types: links }]));
        if n <= 64 {
            let libs: Vec<LibDef> = (0..n)
                .map(|i| match i {
                    0 => lib("Lib0", &[], &[("Link", array(prim(U16), 3))]),
                    i => lib(&format!("Lib{i}"), &[&format!("Lib{}", i - 1)], &[("Link", option(r(&format!("Lib{}.Link", i - 1))))]),
                })
                .collect();
            res.push(World::new(&libs));
        }
    }
    if n <= 100 {
        let long = |first: char, c: char| -> String { std::iter::once(first).chain(std::iter::repeat(c)).take(n).collect() };
        let (l, t) = (long('L', 'i'), long('T', 'y'));
        let (f, g) = (long('f', 'x'), long('g', '_'));
        let base = lib(&l, &[], &[(&t, tuple(vec![prim(U8)])), (&long('E', '0'), enm(&[(&f, 3), (&g, 250)]))]);
        let full = format!("{l}.{t}");
        res.push(World::new(&[base, lib(&long('U', 'z'), &[&l], &[
            (&t, strct(&[(&f, r(&full)), (&g, option(r(&full)))])),
            (&long('V', 'v'), union(&[(&f, 1, r(&t)), (&g, 2, tuple(vec![r(&full), prim(U8)]))])),
        ])]));
    }
    res
}
