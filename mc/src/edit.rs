//! C21: editing of libraries

use std::collections::{BTreeMap, BTreeSet, VecDeque};

use amplify::confinement::Confined;
use strict_types::typelib::CompileError;
use strict_types::{Dependency, LibRef, Ty, TypeLib};

use crate::core::*;
use crate::libs::*;
use crate::model::*;
use crate::sysb::*;

/// Content of the library: everything which a user sees in it
type State = (BTreeMap<[u8; 32], String>, BTreeMap<String, Vec<u8>>);

#[derive(Clone)]
enum Op {
    Import(u8, &'static str),
    Populate(&'static str, M),
}

impl Op {
    fn show(&self) -> String {
        match self {
            Op::Import(i, n) => format!("import({n}#{i})"),
            Op::Populate(n, m) => format!("populate({n}: {})", m.show()),
        }
    }
}

fn ty(m: &M) -> Ty<LibRef> { mk_ty(&mut Defs::default(), m) }

fn observe(l: &TypeLib) -> State {
    (
        l.dependencies.iter().map(|d| (d.id.to_byte_array(), d.name.to_string())).collect(),
        l.types.iter().map(|(n, t)| (n.to_string(), bytes(t))).collect(),
    )
}

fn id(i: u8) -> [u8; 32] { [i; 32] }

pub fn c21(ctx: &mut Ctx) {
    let names: &[&str] = &["LibA", "LibB", "LibC"];
    let mut ops = vec![];
    for i in 1..=ctx.by_tier(3u8, 4) {
        for n in names {
            ops.push(Op::Import(i, n));
        }
    }
    let defs = [prim(U8), tuple(vec![prim(U8), prim(U16)]), enm(&[("a", 0)])];
    let tnames: &[&'static str] = if ctx.thorough() { &["Base", "Aa", "Zz", "Mm"] } else { &["Base", "Aa", "Zz"] };
    for n in tnames {
        for d in &defs {
            ops.push(Op::Populate(n, d.clone()));
        }
    }
    // all reachable states: the pools are finite and nothing is ever removed
    if ctx.mine() {
        let start = mk_lib("Edited", &[("Base", prim(U32))]);
        let mut seen = BTreeSet::new();
        let mut queue = VecDeque::new();
        seen.insert(observe(&start));
        queue.push_back((start, vec![]));
        while let Some((lib, history)) = queue.pop_front() {
            ctx.state();
            let before = observe(&lib);
            let raw = bytes(&lib);
            for op in &ops {
                ctx.transition();
                let mut next = lib.clone();
                let mut h: Vec<String> = history.clone();
                h.push(op.show());
                let show = h.join(", ");
                ctx.case(|| show.clone());
                let (res, free, expected_err) = match op {
                    Op::Import(i, n) => {
                        let dep = Dependency::with(lid(id(*i)), lname(n));
                        (
                            guard(|| next.import(dep.clone())),
                            !before.0.contains_key(&id(*i)),
                            CompileError::DuplicatedDependency(dep),
                        )
                    }
                    Op::Populate(n, m) => (
                        guard(|| next.populate(tname(n), ty(m))),
                        !before.1.contains_key(*n),
                        CompileError::DuplicateName(tname(n)),
                    ),
                };
                ctx.trace();
                let mut expected = before.clone();
                if free {
                    match op {
                        Op::Import(i, n) => drop(expected.0.insert(id(*i), n.to_string())),
                        Op::Populate(n, m) => drop(expected.1.insert(n.to_string(), bytes(&ty(m)))),
                    }
                }
                match &res {
                    Err(p) => ctx.fail(format!("panic {}", op.show()), p, &show),
                    Ok(Ok(())) if !free => ctx.fail(format!("accepted {show}"), "a clashing item was accepted", &show),
                    Ok(Err(e)) if free => ctx.fail(format!("refused {show}"), format!("refused: {e}"), &show),
                    Ok(Err(e)) if format!("{e:?}") != format!("{expected_err:?}") => {
                        ctx.fail(format!("error {show}"), format!("error {e:?}, expected {expected_err:?}"), &show)
                    }
                    _ => {}
                }
                let after = observe(&next);
                if after != expected {
                    ctx.fail(format!("state {show}"), format!("library became {after:?}, expected {expected:?}"), &show);
                    continue;
                }
                if !free && bytes(&next) != raw {
                    ctx.fail(format!("refused-change {show}"), "a refused addition changed the library", &show);
                }
                if next.name != lib.name || next.extern_types != lib.extern_types {
                    ctx.fail(format!("other {show}"), "something else was changed", &show);
                }
                if seen.insert(after) {
                    queue.push_back((next, h));
                }
            }
        }
        ctx.count("reachable_libraries", seen.len() as u64);
    }
    // limits
    if ctx.mine() {
        let mut lib = mk_lib("Full", &[("Base", prim(U32))]);
        for i in 0..=300usize {
            let mut raw = [0u8; 32];
            raw[..2].copy_from_slice(&(i as u16).to_le_bytes());
            let dep = Dependency::with(lid(raw), lname(&format!("Lib{i}")));
            ctx.case(|| format!("import {i} of a library with {} dependencies", lib.dependencies.len()));
            ctx.transition();
            let before = bytes(&lib);
            let n = lib.dependencies.len();
            let res = guard(|| lib.import(dep.clone()));
            let ok = if n < 255 {
                res == Ok(Ok(())) && lib.dependencies.len() == n + 1
            } else {
                matches!(res, Ok(Err(CompileError::TooManyDependencies))) && bytes(&lib) == before
            };
            if !ok {
                ctx.fail(format!("limit-dep {n}"), format!("import into {n} dependencies: {res:?}"), format!("{n}"));
                break;
            }
            let before = bytes(&lib);
            let first = lib.dependencies.iter().next().cloned().unwrap();
            let res = guard(|| lib.import(first));
            if !matches!(res, Ok(Err(CompileError::DuplicatedDependency(_)))) || bytes(&lib) != before {
                ctx.fail(format!("dup-dep {n}"), format!("repeated import with {n} dependencies: {res:?}"), format!("{n}"));
                break;
            }
        }
    }
    if ctx.mine() {
        let mut map: BTreeMap<_, _> = (0..65533usize).map(|i| (tname(&format!("T{i}")), ty(&prim(U8)))).collect();
        map.insert(tname("Base"), ty(&prim(U32)));
        let mut lib = mk_lib("Full", &[("Base", prim(U32))]);
        lib.types = Confined::try_from(map).unwrap();
        for i in 0..4usize {
            let n = lib.types.len();
            ctx.case(|| format!("populate a library of {n} types"));
            ctx.transition();
            let before = bytes(&lib);
            let res = guard(|| lib.populate(tname(&format!("New{i}")), ty(&prim(U16))));
            let ok = if n < 65535 {
                res == Ok(Ok(())) && lib.types.len() == n + 1 && lib.types.get(&tname(&format!("New{i}"))) == Some(&ty(&prim(U16)))
            } else {
                matches!(res, Ok(Err(CompileError::TooManyTypes))) && bytes(&lib) == before
            };
            if !ok {
                ctx.fail(format!("limit-types {n}"), format!("populating a library of {n} types: {res:?}"), format!("{n}"));
            }
            let before = bytes(&lib);
            let res = guard(|| lib.populate(tname("Base"), ty(&prim(U16))));
            if !matches!(res, Ok(Err(CompileError::DuplicateName(_)))) || bytes(&lib) != before {
                ctx.fail(format!("dup-type {n}"), format!("repeated name with {n} types: {res:?}"), format!("{n}"));
            }
        }
    }
}
