//! From type terms of the reference model to libraries and linked systems of the implementation.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use strict_encoding::{Primitive, Sizing, Variant};
use strict_types::ast::{EnumVariants, Field, NamedFields, UnionVariants, UnnamedFields};
use strict_types::typelib::{InlineRef, InlineRef1, InlineRef2, LibSubref};
use strict_types::{LibName, LibRef, SemId, SymbolicSys, SystemBuilder, Ty, TypeLib, TypeName, TypeRef};

use crate::model::*;

pub fn tname(s: &str) -> TypeName { TypeName::try_from(s.to_string()).expect("type name") }
pub fn lname(s: &str) -> LibName { LibName::try_from(s.to_string()).expect("lib name") }

/// Library references nest at most three levels deep: composites at the third level get their own definition
pub fn normalize(m: &M) -> M {
    fn composite(m: &M) -> bool { !matches!(m, M::Prim(_) | M::Uni | M::Enum(_)) }
    type Done = BTreeMap<M, M>;
    fn go(m: &M, level: usize, n: &mut usize, done: &mut Done) -> M {
        if level == 3 && composite(m) && !matches!(m, M::Named(..)) {
            if let Some(x) = done.get(m) {
                return x.clone();
            }
            let inner = go(m, 0, n, done);
            let name = format!("Auto{n}");
            *n += 1;
            let x = M::Named(name, Box::new(inner));
            done.insert(m.clone(), x.clone());
            return x;
        }
        let mut sub = |m: &M| go(m, level + 1, n, done);
        match m {
            M::Prim(_) | M::Uni | M::Enum(_) => m.clone(),
            M::Union(v) => M::Union(v.iter().map(|(a, t, m)| (a.clone(), *t, sub(m))).collect()),
            M::Tuple(f) => M::Tuple(f.iter().map(sub).collect()),
            M::Struct(f) => M::Struct(f.iter().map(|(a, m)| (a.clone(), sub(m))).collect()),
            M::Array(m, l) => M::Array(Box::new(sub(m)), *l),
            M::List(m, a, b) => M::List(Box::new(sub(m)), *a, *b),
            M::Set(m, a, b) => M::Set(Box::new(sub(m)), *a, *b),
            M::Map(k, m, a, b) => M::Map(Box::new(sub(k)), Box::new(sub(m)), *a, *b),
            M::Named(name, x) => {
                if let Some(x) = done.get(m) {
                    return x.clone();
                }
                let x = M::Named(name.clone(), Box::new(go(x, 0, n, done)));
                done.insert(m.clone(), x.clone());
                x
            }
        }
    }
    go(m, 0, &mut 0, &mut Done::new())
}

#[derive(Default)]
pub struct Defs {
    pub types: BTreeMap<TypeName, Ty<LibRef>>,
    pub ids: BTreeMap<String, SemId>,
}

impl Defs {
    pub fn define(&mut self, name: &str, m: &M) -> SemId {
        let ty: Ty<LibRef> = mk_ty(self, m);
        let id = ty.sem_id_named(&tname(name));
        if let Some(prev) = self.types.get(&tname(name)) {
            assert!(*prev == ty, "harness: two definitions of {name}");
        }
        self.types.insert(tname(name), ty);
        self.ids.insert(name.to_string(), id);
        id
    }
}

pub trait Mk: LibSubref {
    fn mk(d: &mut Defs, m: &M) -> Self;
}
impl Mk for LibRef {
    fn mk(d: &mut Defs, m: &M) -> Self {
        match m {
            M::Named(n, m) => LibRef::Named(d.define(n, m)),
            m => LibRef::Inline(mk_ty(d, m)),
        }
    }
}
impl Mk for InlineRef {
    fn mk(d: &mut Defs, m: &M) -> Self {
        match m {
            M::Named(n, m) => InlineRef::Named(d.define(n, m)),
            m => InlineRef::Inline(mk_ty(d, m)),
        }
    }
}
impl Mk for InlineRef1 {
    fn mk(d: &mut Defs, m: &M) -> Self {
        match m {
            M::Named(n, m) => InlineRef1::Named(d.define(n, m)),
            m => InlineRef1::Inline(mk_ty(d, m)),
        }
    }
}
impl Mk for InlineRef2 {
    fn mk(d: &mut Defs, m: &M) -> Self {
        match m {
            M::Named(n, m) => InlineRef2::Named(d.define(n, m)),
            m => panic!("harness: type is nested too deep: {}", m.show()),
        }
    }
}

pub fn variant(n: &str, t: u8) -> Variant { Variant::named(t, vname(n)) }

pub fn enum_variants(v: &[(String, u8)]) -> EnumVariants {
    EnumVariants::try_from(v.iter().map(|(n, t)| variant(n, *t)).collect::<BTreeSet<_>>()).expect("variants")
}
pub fn union_variants<R: TypeRef>(v: Vec<(String, u8, R)>) -> UnionVariants<R> {
    let n = v.len();
    let m = v.into_iter().map(|(n, t, r)| (variant(&n, t), r)).collect::<BTreeMap<_, _>>();
    assert_eq!(n, m.len(), "harness: repeated variants");
    UnionVariants::try_from(m).expect("variants")
}
pub fn named_fields<R: TypeRef>(v: Vec<(String, R)>) -> NamedFields<R> {
    NamedFields::try_from(v.into_iter().map(|(n, ty)| Field { name: fname(&n), ty }).collect::<Vec<_>>())
        .expect("fields")
}
pub fn unnamed_fields<R: TypeRef>(v: Vec<R>) -> UnnamedFields<R> { UnnamedFields::try_from(v).expect("fields") }

pub fn mk_ty<R: Mk>(d: &mut Defs, m: &M) -> Ty<R> { ty_with(m, &mut |m| R::mk(d, m)) }

/// The definition with its direct members translated by a function
pub fn ty_with<R: TypeRef>(m: &M, f: &mut impl FnMut(&M) -> R) -> Ty<R> {
    match m {
        M::Prim(c) => Ty::Primitive(Primitive::from_code(*c)),
        M::Uni => Ty::UnicodeChar,
        M::Enum(v) => Ty::Enum(enum_variants(v)),
        M::Union(v) => Ty::Union(union_variants(v.iter().map(|(n, t, m)| (n.clone(), *t, f(m))).collect())),
        M::Tuple(v) => Ty::Tuple(unnamed_fields(v.iter().map(f).collect())),
        M::Struct(v) => Ty::Struct(named_fields(v.iter().map(|(n, m)| (n.clone(), f(m))).collect())),
        M::Array(m, l) => Ty::Array(f(m), *l),
        M::List(m, a, b) => Ty::List(f(m), Sizing::new(*a, *b)),
        M::Set(m, a, b) => Ty::Set(f(m), Sizing::new(*a, *b)),
        M::Map(k, m, a, b) => {
            let k = f(k);
            Ty::Map(k, f(m), Sizing::new(*a, *b))
        }
        M::Named(..) => panic!("harness: reference at the top level of a definition"),
    }
}

/// A library without dependencies
pub fn mk_lib(name: &str, defs: &[(&str, M)]) -> TypeLib {
    let mut d = Defs::default();
    for (n, m) in defs {
        d.define(n, m);
    }
    TypeLib {
        name: lname(name),
        dependencies: none!(),
        extern_types: none!(),
        types: Confined::try_from(d.types).unwrap(),
    }
}

pub struct Sys {
    pub m: M,
    pub sys: SymbolicSys,
    pub id: SemId,
}

/// Links a system which has the type as its top definition
pub fn mk_sys(m: &M) -> Sys {
    let (name, inner) = match m {
        M::Named(n, m) => (n.clone(), normalize(m)),
        m => (s!("Top"), normalize(m)),
    };
    let mut d = Defs::default();
    let id = d.define(&name, &inner);
    let lib = TypeLib {
        name: lname("TestLib"),
        dependencies: none!(),
        extern_types: none!(),
        types: Confined::try_from(d.types).unwrap(),
    };
    let sys = SystemBuilder::new().import(lib).expect("import").finalize().expect("finalize");
    Sys { m: inner, sys, id }
}
