//! C13, C14, C15: serialized forms of libraries, systems and definitions

use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Debug;


use serde::de::DeserializeOwned;
use serde::Serialize;
use strict_encoding::{StrictDecode, StrictEncode, StrictReader};
use strict_types::ast::{EnumVariants, NamedFields, UnionVariants};
use strict_types::typelib::SymbolicLib;
use strict_types::typesys::{SymTy, Symbols, SystemBuilder, TypeFqn, TypeSymbol, TypeSysId};
use strict_types::{
    Dependency, LibRef, SemId, SymbolRef, SymbolicSys, TranspileRef, Ty, TypeLib, TypeLibId, TypeSystem,
};

use crate::core::*;
use crate::ids::system;
use crate::libs::*;
use crate::model::*;
use crate::sysb::*;

/// The objects under test
pub enum Obj {
    Lib(TypeLib),
    Sym(SymbolicLib),
    Sys(TypeSystem),
    Ssys(SymbolicSys),
}

pub fn world_objects(w: &World) -> Vec<(String, Obj)> {
    let show = short(&w.show(), 300);
    let mut res = vec![];
    let mut b = SystemBuilder::new();
    for l in &w.libs {
        let lib = w.type_lib(l);
        b = b.import(lib.clone()).expect("import");
        res.push((format!("library {} of {show}", l.name), Obj::Lib(lib)));
        res.push((format!("symbolic library {} of {show}", l.name), Obj::Sym(w.symbolic(l))));
    }
    let e = w.expected(&w.libs.iter().collect::<Vec<_>>());
    res.push((format!("type system of {show}"), Obj::Sys(system(&e.types))));
    if let Ok(s) = b.finalize() {
        res.push((format!("symbolic system of {show}"), Obj::Ssys(s)));
    }
    res
}

/// Objects with one thing many times, without the many libraries which are all alike
fn wide_objects(n: usize) -> Vec<(String, Obj)> {
    let mut res: Vec<(String, Obj)> = wide(n)
        .iter()
        .flat_map(|w| {
            let mut v = world_objects(w);
            let skip = v.len().saturating_sub(6);
            v.drain(..skip);
            v
        })
        .collect();
    for (what, _) in &mut res {
        *what = short(&format!("{n}: {what}"), 200);
    }
    res
}

fn crowded_objects(ctx: &mut Ctx, f: &mut dyn FnMut(&mut Ctx, String, Obj)) {
    for n in [257, 4095, 65535] {
        for k in 0..3 {
            if !ctx.mine() {
                continue;
            }
            let w = crate::ids::crowd(n);
            let lib = w.type_lib(&w.libs[0]);
            match k {
                0 => f(ctx, format!("library of {n} types"), Obj::Lib(lib)),
                1 => f(ctx, format!("symbolic library of {n} types"), Obj::Sym(w.symbolic(&w.libs[0]))),
                _ => {
                    if let Ok(s) = crate::link::link(&[lib]) {
                        f(ctx, format!("symbolic system of {n} types"), Obj::Ssys(s))
                    }
                }
            }
        }
    }
    for n in crate::ids::CROWDED {
        if ctx.mine() {
            f(ctx, format!("system of {n} types"), Obj::Sys(crate::ids::crowded_system(n)));
        }
    }
}

fn std_objects() -> Vec<(String, Obj)> {
    let mut b = SystemBuilder::new();
    let mut res = vec![];
    for (n, l, s) in [
        ("Std", strict_types::stl::std_stl(), strict_types::stl::std_sym()),
        ("StrictTypes", strict_types::stl::strict_types_stl(), strict_types::stl::strict_types_sym()),
    ] {
        b = b.import(l.clone()).expect("import");
        res.push((format!("standard library {n}"), Obj::Lib(l)));
        res.push((format!("standard symbolic library {n}"), Obj::Sym(s)));
    }
    let s = b.finalize().expect("standard system");
    res.push((s!("standard type system"), Obj::Sys(s.as_types().clone())));
    res.push((s!("standard symbolic system"), Obj::Ssys(s)));
    res.push((s!("empty type system"), Obj::Sys(TypeSystem::new())));
    res.push((s!("empty symbolic system"), Obj::Ssys(SystemBuilder::new().finalize().expect("empty"))));
    res
}

// ------------------------------------------------------------------------------------------------------------ C13

pub enum Verdict {
    Same,
    Refused,
    Short,
    Bad(String),
    Panic(String),
}

/// Decodes and, when something is accepted, encodes again
fn verdict<T: StrictEncode + StrictDecode + Debug>(b: &[u8]) -> Verdict {
    let res = guard(|| {
        let mut rd = StrictReader::in_memory::<0xFF_FFFF>(b);
        match T::strict_decode(&mut rd) {
            Err(e) => {
                let e = e.to_string();
                if e.contains("unexpected end") || e.contains("fill whole buffer") || e.contains("UnexpectedEof") {
                    Verdict::Short
                } else {
                    Verdict::Refused
                }
            }
            Ok(v) => {
                if rd.into_cursor().position() != b.len() as u64 {
                    return Verdict::Refused;
                }
                let again = bytes(&v);
                if again == b {
                    Verdict::Same
                } else {
                    Verdict::Bad(format!("{} is accepted as {} and encodes to {}", hex(b), short(&format!("{v:?}"), 500), hex(&again)))
                }
            }
        }
    });
    match res {
        Ok(v) => v,
        Err(p) => Verdict::Panic(p),
    }
}

pub fn probe<T: StrictEncode + StrictDecode + Debug>(ctx: &mut Ctx, what: &str, b: &[u8]) -> Verdict {
    ctx.case(|| format!("{what}: {}", hex(b)));
    ctx.state();
    ctx.transition();
    let v = verdict::<T>(b);
    match &v {
        Verdict::Same => ctx.count("accepted", 1),
        Verdict::Bad(m) => ctx.fail(format!("canonical {}", short(&hex(b), 300)), format!("{what}: {m}"), hex(b)),
        Verdict::Panic(p) => ctx.fail(format!("panic {}", short(&hex(b), 300)), format!("{what}: {p}"), hex(b)),
        _ => ctx.count("refused", 1),
    }
    v
}

/// An encoding which names a member of a definition twice
fn refused<T: StrictEncode + StrictDecode + Debug>(ctx: &mut Ctx, what: &str, b: &[u8]) {
    if let Verdict::Same = probe::<T>(ctx, what, b) {
        ctx.fail(format!("repeated {}", short(&hex(b), 300)), format!("{what}: decodes with two members of one name"), hex(b));
    }
}

pub fn round<T: StrictEncode + StrictDecode + Debug>(ctx: &mut Ctx, what: &str, v: &T) {
    let b = bytes(v);
    ctx.case(|| format!("{what}: round trip"));
    ctx.state();
    ctx.trace();
    ctx.transition();
    match guard(|| from_bytes::<T>(&b)) {
        Ok(Ok(x)) => {
            if format!("{x:?}") != format!("{v:?}") || bytes(&x) != b {
                ctx.fail(format!("round {}", short(what, 300)), format!("decodes to {x:?} instead of {v:?}"), what);
            }
        }
        e => ctx.fail(format!("round {}", short(what, 300)), format!("{e:?}"), what),
    }
}

/// All truncations and replacements of single bytes
pub fn mutate<T: StrictEncode + StrictDecode + Debug>(ctx: &mut Ctx, what: &str, v: &T, all: bool, double: bool) {
    let b = bytes(v);
    for n in 0..b.len() {
        if ctx.mine() {
            probe::<T>(ctx, what, &b[..n]);
        }
    }
    let mut x = b.clone();
    let subst = |old: u8| -> Vec<u8> {
        if all {
            (0..=255).filter(|c| *c != old).collect()
        } else {
            let s: BTreeSet<u8> = [0, 1, 2, 3, 8, 0x41, 0x61, 0x7F, 0x80, 0xFF, old ^ 1, old.wrapping_add(1), old.wrapping_sub(1), old ^ 0x20]
                .into_iter()
                .filter(|c| *c != old)
                .collect();
            s.into_iter().collect()
        }
    };
    for i in 0..b.len() {
        if !ctx.mine() {
            continue;
        }
        for c in subst(b[i]) {
            x[i] = c;
            probe::<T>(ctx, what, &x);
            if double {
                for j in i + 1..b.len() {
                    for d in [0, 1, b[j].wrapping_add(1), b[j].wrapping_sub(1), b[i]] {
                        if d != b[j] {
                            x[j] = d;
                            probe::<T>(ctx, what, &x);
                        }
                    }
                    x[j] = b[j];
                }
            }
        }
        x[i] = b[i];
    }
    // bytes inserted, removed and exchanged with the next one
    for i in 0..b.len() {
        if !ctx.mine() {
            continue;
        }
        let mut y = b.clone();
        y.remove(i);
        probe::<T>(ctx, what, &y);
        for c in [0u8, 1, b[i], 0xFF] {
            let mut y = b.clone();
            y.insert(i, c);
            probe::<T>(ctx, what, &y);
        }
        if i + 1 < b.len() && b[i] != b[i + 1] {
            let mut y = b.clone();
            y.swap(i, i + 1);
            probe::<T>(ctx, what, &y);
        }
    }
}

/// Explores the strings which are built out of tokens, as long as the decoder asks for more
fn tree<T: StrictEncode + StrictDecode + Debug>(ctx: &mut Ctx, what: &str, start: Vec<u8>, tokens: &[Vec<u8>], cap: usize) {
    let mut queue = VecDeque::from([start]);
    let mut n = 0;
    while let Some(b) = queue.pop_front() {
        n += 1;
        if let Verdict::Short = probe::<T>(ctx, what, &b) {
            if n + queue.len() < cap {
                for t in tokens {
                    let mut x = b.clone();
                    x.extend(t);
                    queue.push_back(x);
                }
            } else {
                ctx.count("cut_by_node_cap", 1);
            }
        }
    }
}

fn words<T: Clone>(alphabet: &[T], len: usize, f: &mut dyn FnMut(&[T])) {
    fn go<T: Clone>(a: &[T], len: usize, cur: &mut Vec<T>, f: &mut dyn FnMut(&[T])) {
        f(cur);
        if cur.len() < len {
            for x in a {
                cur.push(x.clone());
                go(a, len, cur, f);
                cur.pop();
            }
        }
    }
    go(alphabet, len, &mut vec![], f)
}

fn counted(len: usize, wide: usize, parts: &[Vec<u8>]) -> Vec<u8> {
    let mut b = len.to_le_bytes()[..wide].to_vec();
    parts.iter().for_each(|p| b.extend(p));
    b
}

/// Collections in all orders and with all repetitions, together with wrong numbers of items
fn raw_words<T: StrictEncode + StrictDecode + Debug>(
    ctx: &mut Ctx,
    what: &str,
    pre: &[u8],
    post: &[u8],
    wide: usize,
    alphabet: &[Vec<u8>],
    len: usize,
) {
    if !ctx.mine() {
        return;
    }
    let mut all = vec![];
    words(alphabet, len, &mut |w| all.push(w.to_vec()));
    for w in all {
        for n in [w.len(), w.len() + 1, w.len().saturating_sub(1)] {
            let mut b = pre.to_vec();
            b.extend(counted(n, wide, &w));
            b.extend(post);
            probe::<T>(ctx, what, &b);
        }
    }
}

fn raw(ctx: &mut Ctx) {
    let q = ctx.by_tier(3, 4);
    let id = |n: u8| vec![n; 32];
    let name = |s: &str| [vec![s.len() as u8], s.as_bytes().to_vec()].concat();
    let vars: Vec<Vec<u8>> =
        ["a", "b", "c"].iter().flat_map(|n| (0..3u8).map(|t| [name(n), vec![t]].concat())).collect();
    // enums
    raw_words::<EnumVariants>(ctx, "enum variants", &[], &[], 1, &vars, q + 1);
    raw_words::<Ty<SemId>>(ctx, "enum", &[3], &[], 1, &vars, q);
    // unions
    let fields: Vec<Vec<u8>> = ["a", "b"]
        .iter()
        .flat_map(|n| (0..3u8).flat_map(move |t| [5u8, 6].map(|i| [vec![t], name(n), id(i)].concat())))
        .collect();
    raw_words::<UnionVariants<SemId>>(ctx, "union variants", &[], &[], 1, &fields, q);
    raw_words::<Ty<SemId>>(ctx, "union", &[4], &[], 1, &fields, q);
    // long enums and unions with one repeated name or tag
    for n in [11usize, 12, 30, 100, 255] {
        for i in 0..n {
            for j in 0..n {
                if i == j || (n > 30 && (i % 7 != 0 || j % 5 != 0)) || !ctx.mine() {
                    continue;
                }
                for kind in 0..2 {
                    let v: Vec<(String, u8)> = (0..n)
                        .map(|k| {
                            let k2 = if k == j { i } else { k };
                            if kind == 0 { (format!("v{k2}"), k as u8) } else { (format!("v{k}"), k2 as u8) }
                        })
                        .collect();
                    let e: Vec<_> = v.iter().map(|(s, t)| [name(s), vec![*t]].concat()).collect();
                    probe::<EnumVariants>(ctx, "long enum", &counted(n, 1, &e));
                    let u: Vec<_> = v.iter().enumerate().map(|(k, (s, t))| [vec![*t], name(s), id(k as u8)].concat()).collect();
                    probe::<UnionVariants<SemId>>(ctx, "long union", &counted(n, 1, &u));
                }
            }
        }
    }
    // structs and tuples
    let f: Vec<Vec<u8>> = ["a", "b", "_", "A1"].iter().flat_map(|n| [5u8, 6].map(|i| [name(n), id(i)].concat())).collect();
    raw_words::<NamedFields<SemId>>(ctx, "named fields", &[], &[], 1, &f, q);
    raw_words::<Ty<SemId>>(ctx, "struct", &[6], &[], 1, &f, q);
    if ctx.mine() {
        let f: Vec<Vec<u8>> = ["a", "b", "a1"].iter().flat_map(|n| [5u8, 6].map(|i| [name(n), vec![1], id(i)].concat())).collect();
        let mut all = vec![];
        words(&f, q, &mut |w| all.push(w.to_vec()));
        for w in all {
            let names: BTreeSet<_> = w.iter().map(|f| f[..f.len() - 33].to_vec()).collect();
            let cut: Vec<_> = w.iter().map(|f| [&f[..f.len() - 33], &f[f.len() - 32..]].concat()).collect();
            let (lib, sys) = ([vec![6], counted(w.len(), 1, &w)].concat(), [vec![6], counted(w.len(), 1, &cut)].concat());
            if names.len() < w.len() {
                refused::<Ty<SemId>>(ctx, "struct with a repeated name", &sys);
                refused::<Ty<LibRef>>(ctx, "library struct with a repeated name", &lib);
                refused::<LibRef>(ctx, "inline struct with a repeated name", &[vec![0], lib.clone()].concat());
                refused::<Ty<LibRef>>(ctx, "struct in a tuple with a repeated name", &[vec![5, 1, 0], lib.clone()].concat());
            } else {
                probe::<Ty<SemId>>(ctx, "struct", &sys);
                probe::<Ty<LibRef>>(ctx, "library struct", &lib);
            }
        }
    }
    raw_words::<Ty<SemId>>(ctx, "tuple", &[5], &[], 1, &[id(1), id(2)], 4);
    // long structs with one repeated name
    for n in [2usize, 3, 11, 12, 30, 100, 255] {
        for i in 0..n {
            for j in 0..n {
                if i == j || (n > 30 && (i % 7 != 0 || j % 5 != 0)) || !ctx.mine() {
                    continue;
                }
                let w: Vec<_> =
                    (0..n).map(|k| [name(&format!("f{}", if k == j { i } else { k })), id(k as u8)].concat()).collect();
                let l: Vec<_> = (0..n)
                    .map(|k| [name(&format!("f{}", if k == j { i } else { k })), vec![1], id(k as u8)].concat())
                    .collect();
                let b = counted(n, 1, &w);
                refused::<NamedFields<SemId>>(ctx, "long fields", &b);
                let b = [vec![6], b].concat();
                refused::<Ty<SemId>>(ctx, "long struct", &b);
                refused::<TypeSystem>(ctx, "long struct of a system", &[vec![1, 0, 0], id(9), b].concat());
                let b = counted(n, 1, &l);
                refused::<NamedFields<LibRef>>(ctx, "long library fields", &b);
                let b = [vec![6], b].concat();
                refused::<Ty<LibRef>>(ctx, "long library struct", &b);
                refused::<LibRef>(ctx, "long inline struct", &[vec![0], b.clone()].concat());
                let t = [name("LibTest"), vec![0, 0, 1, 0], name("Type"), b].concat();
                refused::<TypeLib>(ctx, "long struct of a library", &t);
            }
        }
    }
    // references of libraries
    let lref: Vec<Vec<u8>> = vec![
        [vec![1], id(5)].concat(),
        [vec![2], id(5), id(6)].concat(),
        vec![0, 0, 0x40],
        vec![0, 1],
        vec![3],
        [vec![0, 8, 1], id(5), vec![0; 16]].concat(),
        vec![0, 7, 0, 7, 0, 7, 0, 1, 1, 0, 2, 0, 3, 0],
    ];
    let lu: Vec<Vec<u8>> =
        lref.iter().flat_map(|r| [[vec![0], name("a"), r.clone()].concat(), [vec![1], name("b"), r.clone()].concat()]).collect();
    raw_words::<Ty<LibRef>>(ctx, "library union", &[4], &[], 1, &lu, q);
    raw_words::<Ty<LibRef>>(ctx, "library tuple", &[5], &[], 1, &lref, q);
    let sref: Vec<Vec<u8>> = vec![
        vec![0, 1],
        vec![0, 0, 1],
        [vec![1], name("Name")].concat(),
        [vec![2], name("Lib"), name("Name"), id(5), id(6)].concat(),
        vec![0, 8, 0, 8, 0, 8, 0, 8, 0, 1].into_iter().chain([0; 64]).collect(),
        vec![0, 7, 0, 7, 0, 7, 0, 7, 0, 1, 1, 0, 2, 0, 3, 0, 4, 0],
        vec![3],
    ];
    raw_words::<Ty<TranspileRef>>(ctx, "symbolic tuple", &[5], &[], 1, &sref, q);
    // all tags, codes and sizes
    if ctx.mine() {
        for a in 0..=255u8 {
            for b in 0..=255u8 {
                probe::<Ty<SemId>>(ctx, "two bytes", &[a, b]);
                probe::<Ty<LibRef>>(ctx, "two bytes", &[a, b]);
                probe::<Ty<TranspileRef>>(ctx, "two bytes", &[a, b]);
                probe::<Ty<SemId>>(ctx, "array", &[vec![7], id(5), vec![a, b]].concat());
                probe::<LibRef>(ctx, "reference", &[a, b, 1]);
            }
            probe::<Ty<SemId>>(ctx, "one byte", &[a]);
        }
        let sizes = [0u64, 1, 2, 0xFF, 0x100, 0xFFFF, 0x10000, 0xFF_FFFF, 0xFFFF_FFFF, u64::MAX];
        for a in sizes {
            for b in sizes {
                let s = [a.to_le_bytes(), b.to_le_bytes()].concat();
                probe::<Ty<SemId>>(ctx, "list", &[vec![8], id(5), s.clone()].concat());
                probe::<Ty<SemId>>(ctx, "set", &[vec![9], id(5), s.clone()].concat());
                probe::<Ty<SemId>>(ctx, "map", &[vec![10], id(5), id(6), s].concat());
            }
        }
    }
    // systems and symbols
    let defs: Vec<Vec<u8>> = (1..4u8).flat_map(|i| [[id(i), vec![0, 1]].concat(), [id(i), vec![1]].concat()]).collect();
    raw_words::<TypeSystem>(ctx, "type system", &[], &[], 3, &defs, q);
    let fqn = |l: &str, t: &str| [name(l), name(t)].concat();
    let syms: Vec<Vec<u8>> = (1..3u8)
        .flat_map(|i| {
            [
                [id(i), vec![0]].concat(),
                [id(i), vec![1], fqn("Lib", "A")].concat(),
                [id(i), vec![1], fqn("Lib", "B")].concat(),
                [id(i), vec![1], fqn("Kib", "B")].concat(),
                [id(i), vec![2]].concat(),
            ]
        })
        .collect();
    raw_words::<Symbols>(ctx, "symbols", &[0, 0], &[], 3, &syms, q);
    let deps: Vec<Vec<u8>> = (1..4u8).flat_map(|i| ["LibA", "LibB"].map(|n| [id(i), name(n)].concat())).collect();
    raw_words::<Symbols>(ctx, "libraries of symbols", &[], &[0, 0, 0], 2, &deps, q);
    raw_words::<SymbolicSys>(ctx, "symbolic system", &[1, 0], &[deps[0].clone(), vec![0, 0, 0, 0, 0, 0]].concat(), 0, &[], 0);
    // parts of libraries
    let head = name("LibTest");
    let ty = [vec![1, 0], name("Type"), vec![0, 1]].concat();
    raw_words::<TypeLib>(ctx, "dependencies", &head, &[vec![0], ty.clone()].concat(), 1, &deps, q);
    let index: Vec<Vec<u8>> = vec![
        counted(0, 2, &[]),
        counted(1, 2, &[[id(1), name("A")].concat()]),
        counted(2, 2, &[[id(1), name("A")].concat(), [id(2), name("A")].concat()]),
        counted(2, 2, &[[id(2), name("A")].concat(), [id(1), name("B")].concat()]),
        counted(2, 2, &[[id(1), name("A")].concat(), [id(1), name("B")].concat()]),
    ];
    let externs: Vec<Vec<u8>> = ["LibA", "LibB", "libA"].iter().flat_map(|n| index.iter().map(|i| [name(n), i.clone()].concat())).collect();
    raw_words::<TypeLib>(ctx, "external types", &[head.clone(), vec![0]].concat(), &ty, 1, &externs, q);
    raw_words::<SymbolicLib>(ctx, "symbolic external types", &[head.clone(), vec![0]].concat(), &ty, 1, &externs, q);
    let types: Vec<Vec<u8>> =
        ["A", "B", "Ab", "a", "_"].iter().flat_map(|n| [[name(n), vec![0, 1]].concat(), [name(n), vec![1]].concat()]).collect();
    raw_words::<TypeLib>(ctx, "types", &[head.clone(), vec![0, 0]].concat(), &[], 2, &types, q);
    raw_words::<SymbolicLib>(ctx, "symbolic types", &[head, vec![0, 0]].concat(), &[], 2, &types, q);
    // names: all strings over an alphabet with letters of all classes
    let chars: Vec<Vec<u8>> = [b'a', b'Z', b'0', b'_', b'-', b' ', 0, 0x7F, 0x80, 0xC3].iter().map(|c| vec![*c]).collect();
    raw_words::<strict_types::TypeName>(ctx, "type name", &[], &[], 1, &chars, q);
    raw_words::<strict_types::LibName>(ctx, "library name", &[], &[], 1, &chars, q);
    raw_words::<strict_types::VariantName>(ctx, "variant name", &[], &[], 1, &chars, q);
    raw_words::<strict_types::FieldName>(ctx, "field name", &[], &[], 1, &chars, q);
    raw_words::<TypeFqn>(ctx, "qualified name", &name("Lib"), &[], 1, &chars, q);
}

fn trees(ctx: &mut Ctx) {
    let cap = ctx.by_tier(6_000, 60_000);
    let mut tokens: Vec<Vec<u8>> = (0..=11u8).map(|b| vec![b]).collect();
    tokens.extend([vec![b'a'], vec![b'B'], vec![b'_'], vec![0x40], vec![0x80], vec![0xFF], vec![5; 32], vec![0; 16], vec![1, b'A'], vec![1, b'b']]);
    for t in 0..=11u8 {
        if ctx.mine() {
            tree::<Ty<SemId>>(ctx, "definition", vec![t], &tokens, cap);
        }
        if ctx.mine() {
            tree::<Ty<LibRef>>(ctx, "library definition", vec![t], &tokens, cap);
        }
        if ctx.mine() {
            tree::<Ty<TranspileRef>>(ctx, "symbolic definition", vec![t], &tokens, cap);
        }
    }
    if ctx.mine() {
        tree::<TypeLib>(ctx, "library", vec![], &tokens, cap);
    }
    if ctx.mine() {
        tree::<TypeLib>(ctx, "library", vec![1, b'A', 0, 0], &tokens, cap);
    }
    if ctx.mine() {
        tree::<TypeLib>(ctx, "library", vec![1, b'A', 0], &tokens, cap);
    }
    if ctx.mine() {
        tree::<SymbolicLib>(ctx, "symbolic library", vec![1, b'A', 0, 0], &tokens, cap);
    }
    if ctx.mine() {
        tree::<SymbolicSys>(ctx, "symbolic system", vec![], &tokens, cap);
    }
    if ctx.mine() {
        tree::<TypeSystem>(ctx, "type system", vec![], &tokens, cap);
    }
    if ctx.mine() {
        tree::<SymTy>(ctx, "symbolic type", vec![], &tokens, cap);
        tree::<TypeSymbol>(ctx, "type symbol", vec![], &tokens, cap);
        tree::<Dependency>(ctx, "dependency", vec![], &tokens, cap);
        tree::<SymbolRef>(ctx, "symbol reference", vec![], &tokens, cap);
    }
}

/// Runs in a process of its own: decodes a library with a definition of the given depth of nesting
pub fn nested(depth: usize) {
    let mut b = vec![1, b'A', 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, b'T'];
    for _ in 0..depth {
        b.extend([8, 0]);
    }
    b.push(1);
    b.resize(b.len() + 16 * depth, 0);
    let cut = b.len().min(0xFF_FFFF);
    let got = from_bytes::<SymbolicLib>(&b[..cut]);
    assert!(got.is_ok() == (cut == b.len()), "wrong verdict: {:?}", got.err());
    std::mem::forget(got);
}

fn nesting(ctx: &mut Ctx) {
    for depth in [1usize, 10, 100, 500, 100_000, 1_000_000] {
        if !ctx.mine() {
            continue;
        }
        ctx.case(|| format!("symbolic library with {depth} levels of nested definitions"));
        ctx.state();
        ctx.transition();
        let out = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["--nested", &depth.to_string()])
            .output()
            .expect("probe");
        if !out.status.success() {
            ctx.fail(
                format!("nesting {depth}"),
                format!("decoding ends with {}: {}", out.status, short(&String::from_utf8_lossy(&out.stderr), 200)),
                format!("{depth} levels"),
            );
        }
    }
}

pub fn c13(ctx: &mut Ctx) {
    let all = ctx.thorough();
    crowded_objects(ctx, &mut |ctx, what, o| match &o {
        Obj::Lib(x) => round(ctx, &what, x),
        Obj::Sym(x) => round(ctx, &what, x),
        Obj::Sys(x) => round(ctx, &what, x),
        Obj::Ssys(x) => round(ctx, &what, x),
    });
    for n in sizes(all) {
        if ctx.mine() {
            for (what, o) in wide_objects(n) {
                match &o {
                    Obj::Lib(x) => round(ctx, &what, x),
                    Obj::Sym(x) => round(ctx, &what, x),
                    Obj::Sys(x) => round(ctx, &what, x),
                    Obj::Ssys(x) => round(ctx, &what, x),
                }
            }
        }
    }
    for (i, w) in worlds().iter().chain(&shapes()).enumerate() {
        let deep = i < 7 || i % ctx.by_tier(397, 61) == 0;
        let mine = ctx.mine();
        if !mine && !deep {
            continue;
        }
        for l in &w.libs {
            if !mine {
                break;
            }
            for (n, m) in &l.types {
                round(ctx, &format!("definition {n} = {}", show_refs(m)), &w.type_lib(l).types[&tname(n)]);
            }
        }
        for (what, o) in world_objects(w) {
            if mine {
                match &o {
                    Obj::Lib(x) => round(ctx, &what, x),
                    Obj::Sym(x) => round(ctx, &what, x),
                    Obj::Sys(x) => round(ctx, &what, x),
                    Obj::Ssys(x) => round(ctx, &what, x),
                }
            }
            if deep {
                match &o {
                    Obj::Lib(x) => mutate(ctx, &what, x, all, false),
                    Obj::Sym(x) => mutate(ctx, &what, x, all, false),
                    Obj::Sys(x) => mutate(ctx, &what, x, all, false),
                    Obj::Ssys(x) => mutate(ctx, &what, x, all, false),
                }
            }
        }
    }
    for (what, o) in std_objects() {
        if ctx.mine() {
            match &o {
                Obj::Lib(x) => round(ctx, &what, x),
                Obj::Sym(x) => round(ctx, &what, x),
                Obj::Sys(x) => round(ctx, &what, x),
                Obj::Ssys(x) => round(ctx, &what, x),
            }
        }
        if all {
            match &o {
                Obj::Lib(x) => mutate(ctx, &what, x, false, false),
                Obj::Sym(x) => mutate(ctx, &what, x, false, false),
                _ => {}
            }
        }
    }
    // pairs of changes in small libraries
    for m in [enm(&[("a", 0), ("b", 1)]), union(&[("a", 0, r("Own")), ("b", 1, prim(U8))]), strct(&[("a", r("Own"))])] {
        let w = World::new(&[lib("L", &[], &[("Own", prim(U8)), ("T", m)])]);
        for (what, o) in world_objects(&w) {
            {
                match &o {
                    Obj::Lib(x) => mutate(ctx, &what, x, all, true),
                    Obj::Sym(x) => mutate(ctx, &what, x, all, true),
                    Obj::Sys(x) => mutate(ctx, &what, x, all, false),
                    Obj::Ssys(x) => mutate(ctx, &what, x, all, false),
                }
            }
        }
    }
    let cat = crate::reflect::catalogue();
    for (what, o) in world_objects(&cat.world) {
        if ctx.mine() {
            match &o {
                Obj::Lib(x) => round(ctx, &what, x),
                Obj::Sym(x) => round(ctx, &what, x),
                Obj::Sys(x) => round(ctx, &what, x),
                Obj::Ssys(x) => round(ctx, &what, x),
            }
        }
    }
    raw(ctx);
    trees(ctx);
    nesting(ctx);
}

// ------------------------------------------------------------------------------------------------------------ C14

use armor::AsciiArmor;
use baid64::DisplayBaid64;

fn armored<T: AsciiArmor + StrictEncode + Debug>(ctx: &mut Ctx, what: &str, v: &T, id: &dyn Fn(&T) -> String, deep: bool, all: bool)
where T::Err: Debug {
    let want = bytes(v);
    let text = v.to_ascii_armored_string();
    let key = |k: &str, t: &str| format!("{k} {} {}", short(what, 200), short(t, 200));
    ctx.case(|| format!("{what}: armor"));
    ctx.state();
    ctx.trace();
    ctx.transition();
    match guard(|| T::from_ascii_armored_str(&text)) {
        Ok(Ok(x)) => {
            if bytes(&x) != want || format!("{x:?}") != format!("{v:?}") || id(&x) != id(v) {
                ctx.fail(key("round", ""), format!("armor is parsed as {x:?}"), what);
            }
        }
        e => ctx.fail(key("round", ""), short(&format!("{e:?}"), 500), what),
    }
    if text != v.to_ascii_armored_string() || text != format!("{}", v.display_ascii_armored()) {
        ctx.fail(key("stable", ""), "armor isn't stable", what);
    }
    if !deep {
        return;
    }
    let damaged = |ctx: &mut Ctx, how: String, t: &str| {
        ctx.case(|| format!("{what}: {how}"));
        ctx.state();
        ctx.transition();
        match guard(|| T::from_ascii_armored_str(t)) {
            Err(p) => ctx.fail(key("panic", &how), format!("{how}: {p}"), t),
            Ok(Err(_)) => ctx.count("refused", 1),
            Ok(Ok(x)) if bytes(&x) != want => {
                ctx.fail(key("different", &how), format!("{how}: another object is accepted: {x:?}"), t)
            }
            Ok(Ok(_)) => ctx.count("identical", 1),
        }
    };
    // all replacements of single characters
    let chars: Vec<char> = text.chars().collect();
    const BASE85: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~";
    let extra = [' ', '\n', ':', ',', '/', '"', '\t', '\u{e9}', '\0'];
    for i in 0..chars.len() {
        let subst: Vec<char> = if all {
            BASE85.chars().chain(extra).collect()
        } else {
            let k = BASE85.find(chars[i]).unwrap_or(0);
            let n = BASE85.len();
            [1, 2, n / 2, n - 1].iter().map(|d| BASE85.as_bytes()[(k + d) % n] as char).chain(extra).chain(['0', '~']).collect()
        };
        for c in subst {
            if c == chars[i] {
                continue;
            }
            let mut x = chars.clone();
            x[i] = c;
            damaged(ctx, format!("character {i} becomes {c:?}"), &x.into_iter().collect::<String>());
        }
        let mut x = chars.clone();
        x.remove(i);
        damaged(ctx, format!("character {i} is lost"), &x.into_iter().collect::<String>());
        if i + 1 < chars.len() && chars[i] != chars[i + 1] {
            let mut x = chars.clone();
            x.swap(i, i + 1);
            damaged(ctx, format!("characters {i} and {} are exchanged", i + 1), &x.into_iter().collect::<String>());
        }
    }
    for i in 0..=chars.len() {
        damaged(ctx, format!("cut after {i} characters"), &chars[..i].iter().collect::<String>());
        damaged(ctx, format!("first {i} characters are lost"), &chars[i..].iter().collect::<String>());
    }
    // lines lost, repeated and moved
    let lines: Vec<&str> = text.lines().collect();
    let n = lines.len();
    let join = |l: &[&str]| l.iter().map(|s| format!("{s}\n")).collect::<String>();
    for i in 0..n {
        for j in i..n {
            let mut l = lines.clone();
            l.drain(i..=j);
            damaged(ctx, format!("lines {i}-{j} are lost"), &join(&l));
            if j > i {
                let mut l = lines.clone();
                l.remove(j);
                l.remove(i);
                damaged(ctx, format!("lines {i} and {j} are lost"), &join(&l));
                for k in j + 1..n {
                    let mut l = lines.clone();
                    l.remove(k);
                    l.remove(j);
                    l.remove(i);
                    damaged(ctx, format!("lines {i}, {j} and {k} are lost"), &join(&l));
                }
                let mut l = lines.clone();
                l.swap(i, j);
                damaged(ctx, format!("lines {i} and {j} are exchanged"), &join(&l));
            }
        }
        let mut l = lines.clone();
        l.insert(i, lines[i]);
        damaged(ctx, format!("line {i} is repeated"), &join(&l));
    }
}

/// The lines before the data name the object
fn headers(ctx: &mut Ctx, what: &str, text: &str, want: &[(&str, Vec<String>)]) {
    let head: Vec<&str> = text.lines().skip(1).take_while(|l| !l.is_empty()).collect();
    ctx.transition();
    for (k, vals) in want {
        let got: Vec<&str> = head.iter().filter_map(|l| l.strip_prefix(k)?.strip_prefix(": ")).flat_map(|l| l.split(", ")).collect();
        if &got != vals {
            ctx.fail(format!("header {k} {}", short(what, 200)), format!("{k} is {got:?}, expected {vals:?}"), what);
        }
    }
}

fn armored_obj(ctx: &mut Ctx, what: &str, o: &Obj, deep: bool, all: bool) {
    match o {
        Obj::Lib(x) => {
            armored(ctx, what, x, &|x| x.id().to_string(), deep, all);
            let deps = x.dependencies.iter().map(|d| format!("{}#{}", d.name, d.id.to_baid64_mnemonic())).collect();
            headers(ctx, what, &x.to_ascii_armored_string(), &[
                ("Id", vec![x.id().to_string()]),
                ("Name", vec![x.name.to_string()]),
                ("Dependencies", deps),
            ]);
        }
        Obj::Sys(x) => {
            armored(ctx, what, x, &|x| x.id().to_string(), deep, all);
            headers(ctx, what, &x.to_ascii_armored_string(), &[("Id", vec![x.id().to_string()])]);
        }
        Obj::Ssys(x) => {
            armored(ctx, what, x, &|x| x.id().to_string(), deep, all);
            headers(ctx, what, &x.to_ascii_armored_string(), &[("Id", vec![x.id().to_string()])]);
        }
        Obj::Sym(_) => {}
    }
}

pub fn c14(ctx: &mut Ctx) {
    let all = ctx.thorough();
    for n in sizes(all) {
        if ctx.mine() {
            for (what, o) in wide_objects(n) {
                armored_obj(ctx, &what, &o, false, false);
            }
        }
    }
    for (i, w) in worlds().iter().chain(&shapes()).enumerate() {
        let deep = i < 7 || i % ctx.by_tier(499, 29) == 0;
        if !deep {
            if ctx.mine() {
                for (what, o) in world_objects(w) {
                    armored_obj(ctx, &what, &o, false, false);
                }
            }
        } else {
            for (what, o) in world_objects(w) {
                if ctx.mine() {
                    armored_obj(ctx, &what, &o, true, all);
                }
            }
        }
    }
    crowded_objects(ctx, &mut |ctx, what, o| armored_obj(ctx, &what, &o, false, false));
    for (what, o) in std_objects() {
        if ctx.mine() {
            armored_obj(ctx, &what, &o, what.starts_with("empty"), all);
        }
    }
    let cat = crate::reflect::catalogue();
    for (what, o) in world_objects(&cat.world) {
        if ctx.mine() {
            armored_obj(ctx, &what, &o, false, false);
        }
    }
    // texts which are not armors of the object at all
    if ctx.mine() {
        let w = &worlds()[0];
        let objs = world_objects(w);
        let texts: Vec<(String, String, Vec<u8>)> = objs
            .iter()
            .filter_map(|(n, o)| match o {
                Obj::Lib(x) => Some((n.clone(), x.to_ascii_armored_string(), bytes(x))),
                Obj::Sys(x) => Some((n.clone(), x.to_ascii_armored_string(), bytes(x))),
                Obj::Ssys(x) => Some((n.clone(), x.to_ascii_armored_string(), bytes(x))),
                Obj::Sym(_) => None,
            })
            .collect();
        // parts of two armors put together
        for (na, a, ba) in &texts {
            for (nb, b, bb) in &texts {
                let la: Vec<&str> = a.lines().collect();
                let lb: Vec<&str> = b.lines().collect();
                for i in 0..=la.len().min(8) {
                    for j in 0..=lb.len().min(8) {
                        let t = la[..i].iter().chain(&lb[j..]).map(|s| format!("{s}\n")).collect::<String>();
                        ctx.case(|| format!("{i} lines of {na} and all but {j} lines of {nb}"));
                        ctx.state();
                        ctx.transition();
                        let r = guard(|| {
                            (
                                TypeLib::from_ascii_armored_str(&t).map(|x| bytes(&x)).ok(),
                                TypeSystem::from_ascii_armored_str(&t).map(|x| bytes(&x)).ok(),
                                SymbolicSys::from_ascii_armored_str(&t).map(|x| bytes(&x)).ok(),
                            )
                        });
                        let ok = match &r {
                            Ok((x, y, z)) => [x, y, z].into_iter().flatten().all(|x| x == ba || x == bb),
                            Err(_) => false,
                        };
                        if !ok {
                            ctx.fail(format!("mixed {i} {na} {j} {nb}"), "an object which is none of the two is accepted", &t);
                        }
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------------------ C15

pub fn formats<T: Serialize + DeserializeOwned + Debug>(
    ctx: &mut Ctx,
    what: &str,
    v: &T,
    same: &dyn Fn(&T, &T) -> bool,
    yaml_may_fail: bool,
) {
    ctx.case(|| format!("{what}: serde"));
    ctx.state();
    ctx.trace();
    let key = |f: &str| format!("{f} {}", short(what, 300));
    let check = |ctx: &mut Ctx, f: &str, r: Result<Result<T, String>, String>| {
        ctx.transition();
        match r {
            Ok(Ok(x)) if same(v, &x) => ctx.count("read_back", 1),
            Ok(Ok(x)) => ctx.fail(key(f), format!("{f} is read back as {x:?} instead of {v:?}"), what),
            e => ctx.fail(key(f), format!("{f}: {}", short(&format!("{e:?}"), 500)), what),
        }
    };
    check(ctx, "json", guard(|| {
        let s = serde_json::to_string(v).map_err(|e| e.to_string())?;
        serde_json::from_str(&s).map_err(|e| format!("{e}: {s}"))
    }));
    check(ctx, "pretty json", guard(|| {
        let s = serde_json::to_string_pretty(v).map_err(|e| e.to_string())?;
        serde_json::from_str(&s).map_err(|e| format!("{e}: {s}"))
    }));
    check(ctx, "json reader", guard(|| {
        let s = serde_json::to_vec(v).map_err(|e| e.to_string())?;
        serde_json::from_reader(&s[..]).map_err(|e| e.to_string())
    }));
    check(ctx, "json value", guard(|| {
        let s = serde_json::to_value(v).map_err(|e| e.to_string())?;
        serde_json::from_value(s).map_err(|e| e.to_string())
    }));
    match guard(|| serde_yaml::to_string(v)) {
        Ok(Err(_)) if yaml_may_fail => ctx.count("not_representable_in_yaml", 1),
        Ok(Ok(s)) => {
            check(ctx, "yaml", guard(|| serde_yaml::from_str(&s).map_err(|e| format!("{e}: {s}"))));
        }
        e => check(ctx, "yaml", Ok(Err(format!("{e:?}")))),
    }
}

fn same_bytes<T: StrictEncode + Debug>(a: &T, b: &T) -> bool { bytes(a) == bytes(b) && format!("{a:?}") == format!("{b:?}") }

fn formats_obj(ctx: &mut Ctx, what: &str, o: &Obj) {
    match o {
        Obj::Lib(x) => formats(ctx, what, x, &|a, b| same_bytes(a, b) && a.id() == b.id(), true),
        Obj::Sym(x) => formats(ctx, what, x, &same_bytes, true),
        Obj::Sys(x) => formats(ctx, what, x, &|a, b| same_bytes(a, b) && a.id() == b.id(), false),
        Obj::Ssys(x) => formats(ctx, what, x, &|a, b| same_bytes(a, b) && a.id() == b.id(), false),
    }
}

pub fn c15(ctx: &mut Ctx) {
    for n in sizes(ctx.thorough()) {
        if ctx.mine() {
            for (what, o) in wide_objects(n) {
                formats_obj(ctx, &what, &o);
            }
        }
    }
    for w in worlds().iter().chain(&shapes()) {
        if !ctx.mine() {
            continue;
        }
        for (what, o) in world_objects(w) {
            formats_obj(ctx, &what, &o);
        }
        for l in &w.libs {
            for (n, m) in &l.types {
                let id = sid(w.id(&l.name, n));
                formats(ctx, &format!("id of {n}"), &id, &|a: &SemId, b| a == b, false);
                let ty = &w.type_lib(l).types[&tname(n)];
                formats(ctx, &format!("definition {}", show_refs(m)), ty, &same_bytes, true);
            }
            formats(ctx, "dependency", &w.dep(&l.name), &same_bytes, false);
        }
        let e = w.expected(&w.libs.iter().collect::<Vec<_>>());
        for (id, ty) in &e.types {
            formats(ctx, &format!("semantic definition {id:-}"), ty, &same_bytes, false);
            let fqn = e.fqns(*id).into_iter().next();
            formats(ctx, "symbol", &TypeSymbol { id: *id, fqn: fqn.clone() }, &same_bytes, false);
            formats(ctx, "symbolic type", &SymTy { orig: fqn, ty: ty.clone() }, &same_bytes, false);
        }
    }
    crowded_objects(ctx, &mut |ctx, what, o| {
        if what.contains("257") || what.contains("4095") || what == "system of 65536 types" {
            formats_obj(ctx, &what, &o)
        }
    });
    for (what, o) in std_objects() {
        if ctx.mine() {
            formats_obj(ctx, &what, &o);
        }
    }
    let cat = crate::reflect::catalogue();
    for (what, o) in world_objects(&cat.world) {
        if ctx.mine() {
            formats_obj(ctx, &what, &o);
        }
    }
    // definitions of all shapes with all kinds of leaves, as they stand in type systems
    let id = |n: u8| sid([n; 32]);
    for m in crate::universe::depth2() {
        if !ctx.mine() {
            continue;
        }
        let Some(ty) = top_ty(&m, &id) else { continue };
        formats(ctx, &format!("semantic definition {}", m.show()), &ty, &same_bytes, false);
        let sys = system(&BTreeMap::from([(id(1), ty)]));
        formats(ctx, &format!("system of {}", m.show()), &sys, &|a: &TypeSystem, b| same_bytes(a, b) && a.id() == b.id(), false);
    }
    // ids with all byte values at all places
    for i in 0..32 {
        if !ctx.mine() {
            continue;
        }
        for c in 0..=255u8 {
            let mut x = [0x5Au8; 32];
            x[i] = c;
            formats(ctx, &format!("type id {i} {c}"), &sid(x), &|a: &SemId, b| a == b, false);
            formats(ctx, &format!("library id {i} {c}"), &lid(x), &|a: &TypeLibId, b| a == b, false);
            formats(ctx, &format!("system id {i} {c}"), &TypeSysId::from(x), &|a: &TypeSysId, b| a == b, false);
        }
    }
    // single primitives, tags and sizes at their limits
    if ctx.mine() {
        for c in 0..=255u8 {
            formats(ctx, &format!("primitive {c}"), &ty_with::<SemId>(&prim(c), &mut |_| id(1)), &same_bytes, false);
            let e = enm(&[("first", 0), ("v", c.max(1))]);
            formats(ctx, &format!("enum with tag {c}"), &ty_with::<SemId>(&e, &mut |_| id(1)), &same_bytes, false);
            let u = union(&[("first", 0, unit()), ("v", c.max(1), unit())]);
            formats(ctx, &format!("union with tag {c}"), &ty_with::<SemId>(&u, &mut |_| id(1)), &same_bytes, false);
        }
        for a in [0u64, 1, 0xFF, 0xFFFF, 0xFF_FFFF, 0xFFFF_FFFF, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX] {
            for b in [0u64, 1, 0xFF, 0xFFFF, 0xFFFF_FFFF, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX] {
                for m in [list(unit(), a, b), set(unit(), a, b), map(unit(), unit(), a, b)] {
                    formats(ctx, &format!("collection {a}..{b}"), &ty_with::<SemId>(&m, &mut |_| id(1)), &same_bytes, false);
                }
            }
        }
        let many: Vec<(String, u8)> = (0..=254u8).map(|i| (format!("v{i}"), i)).collect();
        formats(ctx, "255 variants", &ty_with::<SemId>(&M::Enum(many.clone()), &mut |_| id(1)), &same_bytes, false);
        let u = M::Union(many.into_iter().map(|(n, t)| (n, t, unit())).collect());
        formats(ctx, "255 union variants", &ty_with::<SemId>(&u, &mut |_| id(1)), &same_bytes, false);
    }
}

fn top_ty(m: &M, id: &dyn Fn(u8) -> SemId) -> Option<Ty<SemId>> {
    let mut n = 1;
    match m {
        M::Named(_, m) => top_ty(m, id),
        m => Some(ty_with(m, &mut |_| {
            n += 1;
            id(n)
        })),
    }
}
