//! C29: source text of libraries and type systems, read back by a reader of the notation

use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

use baid64::DisplayBaid64;
use strict_encoding::Sizing;
use strict_types::typelib::{ExternRef, InlineRef, InlineRef1, InlineRef2, SymbolRef, TranspileRef};
use strict_types::{LibRef, SemId, SymbolicLib, SymbolicSys, Ty, TypeLib, TypeLibId, TypeRef, TypeSymbol, TypeSystem};

use crate::core::*;
use crate::libs::*;
use crate::model::*;
use crate::sysb::*;
use crate::universe::*;

/// What is written in a definition
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum F {
    /// name, id or primitive type
    Atom(String),
    Enum(Vec<(String, u8)>),
    Union(Vec<(String, u8, F)>),
    Struct(Vec<(String, F)>),
    Tuple(Vec<F>),
    /// written as its content
    New(Box<F>),
    Option(Box<F>),
    /// arrays, and lists of a fixed length
    Array(Box<F>, u64),
    List(Box<F>, u64, u64),
    Set(Box<F>, u64, u64),
    Map(Box<F>, Box<F>, u64, u64),
}

#[derive(Clone, PartialEq, Debug)]
enum Tok {
    Word(String),
    Punct(char),
    Arrow,
    Empty,
}

fn tokens(s: &str) -> Vec<Tok> {
    let mut r = vec![];
    let mut w = String::new();
    let s = s.replace("(|)", " \u{1} ").replace(" -> ", " \u{2} ").replace(" ->", " \u{2} ");
    // the unit type
    let s = s.replace("()", " \u{3} ");
    for c in s.chars() {
        let p = match c {
            '\u{3}' => Some(Tok::Word(s!("()"))),
            '\u{1}' => Some(Tok::Empty),
            '\u{2}' => Some(Tok::Arrow),
            '[' | ']' | '{' | '}' | '(' | ')' | '|' | ',' | '?' | '^' => Some(Tok::Punct(c)),
            _ => None,
        };
        if p.is_some() || c.is_whitespace() {
            if !w.is_empty() {
                r.push(Tok::Word(std::mem::take(&mut w)));
            }
        } else {
            w.push(c);
        }
        r.extend(p);
    }
    if !w.is_empty() {
        r.push(Tok::Word(w));
    }
    r
}

/// Ids are written with or without the prefix and the mnemonic
fn canonical(w: &str) -> String {
    let one = |p: &str| {
        SemId::from_str(p)
            .map(|id| id.to_string())
            .or_else(|_| TypeLibId::from_str(p).map(|id| id.to_string()))
            .unwrap_or(p.to_string())
    };
    if w.len() < 40 { w.to_string() } else { w.split('.').map(one).collect::<Vec<_>>().join(".") }
}

struct Reader<'a> {
    t: &'a [Tok],
    i: usize,
}

type R<T> = Result<T, String>;

fn number(s: &str) -> R<u64> {
    match s.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16),
        None => s.parse(),
    }
    .map_err(|e| format!("number `{s}`: {e}"))
}

impl Reader<'_> {
    fn peek(&self) -> Option<&Tok> { self.t.get(self.i) }
    fn next(&mut self) -> R<Tok> {
        let t = self.peek().cloned().ok_or("unexpected end")?;
        self.i += 1;
        Ok(t)
    }
    fn is(&self, c: char) -> bool { self.peek() == Some(&Tok::Punct(c)) }
    fn eat(&mut self, c: char) -> bool {
        let r = self.is(c);
        self.i += r as usize;
        r
    }
    fn expect(&mut self, c: char) -> R<()> { if self.eat(c) { Ok(()) } else { Err(format!("no `{c}` at {:?}", self.peek())) } }
    fn word(&mut self) -> R<String> {
        match self.next()? {
            Tok::Word(w) => Ok(w),
            t => Err(format!("{t:?} instead of a word")),
        }
    }

    /// `^ 5`, `^ ..0xFF`, `^ 1..`, `^ 1..0xFF` or nothing
    fn sizing(&mut self) -> R<(u64, u64)> {
        if !self.eat('^') {
            return Ok((0, 0xFFFF));
        }
        let w = self.word()?;
        match w.split_once("..") {
            None => number(&w).map(|n| (n, n)),
            Some(("", b)) => Ok((0, number(b)?)),
            Some((a, "")) => Ok((number(a)?, 0xFFFF)),
            Some((a, b)) => Ok((number(a)?, number(b)?)),
        }
    }

    fn ty(&mut self) -> R<F> {
        let mut f = match self.next()? {
            Tok::Word(w) => F::Atom(canonical(&w)),
            Tok::Punct('(') => {
                let f = self.def()?;
                self.expect(')')?;
                f
            }
            Tok::Punct('[') => {
                let x = self.ty()?;
                let (a, b) = self.sizing()?;
                self.expect(']')?;
                if a == b {
                    F::Array(Box::new(x), a)
                } else {
                    F::List(Box::new(x), a, b)
                }
            }
            Tok::Punct('{') => {
                let x = self.ty()?;
                let arrow = self.peek() == Some(&Tok::Arrow);
                self.i += arrow as usize;
                let (a, b) = self.sizing()?;
                let f = if arrow {
                    let y = self.ty()?;
                    F::Map(Box::new(x), Box::new(y), a, b)
                } else {
                    F::Set(Box::new(x), a, b)
                };
                self.expect('}')?;
                f
            }
            t => return Err(format!("{t:?} instead of a type")),
        };
        while self.eat('?') {
            f = F::Option(Box::new(f));
        }
        Ok(f)
    }

    fn starts_type(&self) -> bool { matches!(self.peek(), Some(Tok::Word(_)) | Some(Tok::Punct('[' | '{' | '('))) }

    fn def(&mut self) -> R<F> {
        // fields or variants, each either one type or a name and a type
        let mut items: Vec<(Option<String>, F)> = vec![];
        let mut sep = None;
        loop {
            if self.peek() == Some(&Tok::Empty) {
                self.i += 1;
            } else {
                let f = self.ty()?;
                if self.starts_type() {
                    let F::Atom(name) = f else { return Err(format!("{f:?} instead of a name")) };
                    let f = self.ty()?;
                    items.push((Some(name), f));
                } else {
                    items.push((None, f));
                }
            }
            match self.peek() {
                Some(Tok::Punct(c @ (',' | '|'))) => {
                    if sep.is_some_and(|s| s != *c) {
                        return Err(s!("mixed separators"));
                    }
                    sep = Some(*c);
                    self.i += 1;
                }
                _ => break,
            }
        }
        let named = items.iter().filter(|i| i.0.is_some()).count();
        if named != 0 && named != items.len() {
            return Err(s!("items with and without names"));
        }
        if sep == Some('|') {
            let mut last = -1i32;
            let mut tag = |n: &str| -> R<(String, u8)> {
                let (n, t) = match n.split_once('#') {
                    Some((n, t)) => (n, number(t)? as i32),
                    None => (n, last + 1),
                };
                last = t;
                Ok((n.to_string(), u8::try_from(t).map_err(|e| format!("tag {t}: {e}"))?))
            };
            return if named > 0 {
                let mut v = vec![];
                for (n, f) in items {
                    let (n, t) = tag(&n.unwrap())?;
                    v.push((n, t, f));
                }
                Ok(F::Union(v))
            } else {
                let mut v = vec![];
                for (_, f) in items {
                    let F::Atom(n) = f else { return Err(format!("{f:?} instead of a variant")) };
                    v.push(tag(&n)?);
                }
                Ok(F::Enum(v))
            };
        }
        if named > 0 {
            return Ok(F::Struct(items.into_iter().map(|(n, f)| (n.unwrap(), f)).collect()));
        }
        Ok(newtype(items.into_iter().map(|i| i.1).collect()))
    }
}

/// Definitions with a single part are written as that part
fn newtype(mut v: Vec<F>) -> F { if v.len() == 1 { v.remove(0) } else { F::Tuple(v) } }

fn read(s: &str) -> R<F> {
    let t = tokens(s);
    let mut r = Reader { t: &t, i: 0 };
    let f = r.def()?;
    if r.i != t.len() {
        return Err(format!("the rest {:?} is not a part of the definition {f:?}", &t[r.i..]));
    }
    Ok(f)
}

/// How a reference stands in the text
trait Flat: TypeRef {
    fn flat(&self, alt: bool) -> F;
}

impl Flat for SemId {
    fn flat(&self, _: bool) -> F { F::Atom(self.to_string()) }
}
impl Flat for TypeSymbol {
    fn flat(&self, _: bool) -> F {
        F::Atom(match &self.fqn {
            Some(f) => format!("{}.{}", f.lib, f.name),
            None => self.id.to_string(),
        })
    }
}
fn ext(e: &ExternRef) -> F { F::Atom(format!("{}.{}", e.lib_id, e.sem_id)) }
impl Flat for InlineRef2 {
    fn flat(&self, alt: bool) -> F {
        match self {
            InlineRef2::Named(id) => id.flat(alt),
            InlineRef2::Extern(e) => ext(e),
        }
    }
}
impl Flat for InlineRef1 {
    fn flat(&self, alt: bool) -> F {
        match self {
            InlineRef1::Named(id) => id.flat(alt),
            InlineRef1::Extern(e) => ext(e),
            InlineRef1::Inline(t) => flat(t, alt),
        }
    }
}
impl Flat for InlineRef {
    fn flat(&self, alt: bool) -> F {
        match self {
            InlineRef::Named(id) => id.flat(alt),
            InlineRef::Extern(e) => ext(e),
            InlineRef::Inline(t) => flat(t, alt),
        }
    }
}
impl Flat for LibRef {
    fn flat(&self, alt: bool) -> F {
        match self {
            LibRef::Named(id) => id.flat(alt),
            LibRef::Extern(e) => ext(e),
            LibRef::Inline(t) => flat(t, alt),
        }
    }
}
impl Flat for TranspileRef {
    fn flat(&self, alt: bool) -> F {
        match self {
            TranspileRef::Named(n) => F::Atom(n.to_string()),
            TranspileRef::Extern(SymbolRef { lib_name, ty_name, sem_id, .. }) if alt => {
                F::Atom(format!("{lib_name}.{ty_name}#{sem_id:#}"))
            }
            TranspileRef::Extern(SymbolRef { lib_name, ty_name, .. }) => F::Atom(format!("{lib_name}.{ty_name}")),
            TranspileRef::Embedded(t) => flat(t, alt),
        }
    }
}

/// What has to be read from the text of a type
fn flat<Ref: Flat>(t: &Ty<Ref>, alt: bool) -> F {
    let b = |r: &Ref| Box::new(r.flat(alt));
    let size = |s: &Sizing| (s.min, s.max);
    match t {
        Ty::Primitive(p) => F::Atom(p.to_string()),
        Ty::UnicodeChar => F::Atom(s!("Unicode")),
        Ty::Enum(v) => F::Enum(v.iter().map(|v| (v.name.to_string(), v.tag)).collect()),
        Ty::Union(v) => {
            let v: Vec<_> = v.iter().map(|(v, r)| (v.name.to_string(), v.tag, r.flat(alt))).collect();
            match &v[..] {
                [(n, 0, _), (s, 1, f)] if n == "none" && s == "some" => F::Option(Box::new(f.clone())),
                _ => F::Union(v),
            }
        }
        Ty::Struct(v) => F::Struct(v.iter().map(|f| (f.name.to_string(), f.ty.flat(alt))).collect()),
        Ty::Tuple(v) if v.len() == 1 => F::New(b(&v[0])),
        Ty::Tuple(v) => F::Tuple(v.iter().map(|r| r.flat(alt)).collect()),
        Ty::Array(r, n) => F::Array(b(r), *n as u64),
        Ty::List(r, s) if s.min == s.max => F::Array(b(r), s.min),
        Ty::List(r, s) => F::List(b(r), size(s).0, size(s).1),
        Ty::Set(r, s) => F::Set(b(r), size(s).0, size(s).1),
        Ty::Map(k, r, s) => F::Map(b(k), b(r), size(s).0, size(s).1),
    }
}

/// Inline definitions with fields or variants are written without parentheses, which is ambiguous
fn plain(f: &F) -> bool {
    let inner = |f: &F| !matches!(f, F::Enum(_) | F::Union(_) | F::Struct(_) | F::Tuple(_)) && plain(f);
    match f {
        F::Atom(_) | F::Enum(_) => true,
        // definitions with several parts are in parentheses
        F::Union(v) => v.iter().all(|v| match &v.2 {
            F::Struct(f) if f.len() > 1 => plain(&v.2),
            F::Enum(_) | F::Union(_) | F::Tuple(_) => plain(&v.2),
            f => inner(f),
        }),
        F::Struct(v) => v.iter().all(|v| inner(&v.1)),
        F::Tuple(v) => v.iter().all(inner),
        F::Option(x) | F::Array(x, _) | F::List(x, ..) | F::Set(x, ..) | F::New(x) => inner(x),
        F::Map(k, x, ..) => inner(k) && inner(x),
    }
}

fn written(f: &F) -> F {
    let b = |f: &F| Box::new(written(f));
    match f {
        F::New(x) => written(x),
        F::Atom(_) | F::Enum(_) => f.clone(),
        F::Union(v) => F::Union(v.iter().map(|x| (x.0.clone(), x.1, written(&x.2))).collect()),
        F::Struct(v) => F::Struct(v.iter().map(|x| (x.0.clone(), written(&x.1))).collect()),
        F::Tuple(v) => F::Tuple(v.iter().map(written).collect()),
        F::Option(x) => F::Option(b(x)),
        F::Array(x, n) => F::Array(b(x), *n),
        F::List(x, m, n) => F::List(b(x), *m, *n),
        F::Set(x, m, n) => F::Set(b(x), *m, *n),
        F::Map(k, x, m, n) => F::Map(b(k), b(x), *m, *n),
    }
}

/// Bodies of the definitions: name, text between the name and the next definition
fn data(text: &str) -> R<(String, Vec<(String, String)>)> {
    let mut head = String::new();
    let mut defs: Vec<(String, String)> = vec![];
    for line in text.lines() {
        if let Some(d) = line.strip_prefix("data ") {
            // names of type systems are ids, which have a colon inside
            let i = d.find(": ").ok_or_else(|| format!("no definition in `{line}`"))?;
            defs.push((d[..i].trim().to_string(), d[i + 2..].to_string()));
        } else if line.starts_with('@') || line.starts_with("--") || defs.is_empty() {
            head.push_str(line);
            head.push('\n');
        } else {
            let last = defs.last_mut().unwrap();
            last.1.push('\n');
            last.1.push_str(line);
        }
    }
    Ok((head, defs))
}

/// Checks the definitions of a text
fn defs<Ref: Flat>(ctx: &mut Ctx, what: &str, show: &str, text: &str, expected: &[(String, Ty<Ref>)]) -> Option<String> {
    let (head, found) = match data(text) {
        Ok(x) => x,
        Err(e) => {
            ctx.fail(format!("{what} {show}"), e, show);
            return None;
        }
    };
    let names: Vec<_> = found.iter().map(|d| canonical(&d.0)).collect();
    let wanted: Vec<_> = expected.iter().map(|d| canonical(&d.0)).collect();
    if names != wanted {
        ctx.fail(format!("{what} names {show}"), format!("defines {names:?}, expected {wanted:?}"), show);
        return None;
    }
    for ((name, body), (_, ty)) in found.iter().zip(expected) {
        ctx.transition();
        let want = flat(ty, what.ends_with("alternate"));
        if !plain(&want) {
            ctx.count("definitions_not_read_back", 1);
            continue;
        }
        let want = written(&want);
        ctx.trace();
        match read(body) {
            Ok(got) if got == want => {}
            got => ctx.fail(
                format!("{what} {name} {}", short(&show, 200)),
                format!("the definition `{}` reads as {got:?}, expected {want:?}", short(body, 400)),
                show,
            ),
        }
    }
    Some(head)
}

fn rendered(ctx: &mut Ctx, what: &str, show: &str, f: impl FnOnce() -> String) -> Option<String> {
    ctx.case(|| format!("{what} of {}", short(show, 300)));
    ctx.transition();
    match guard(f) {
        Ok(s) => Some(s),
        Err(e) => {
            ctx.fail(format!("{what} panic {}", short(show, 200)), format!("rendering panics: {e}"), show);
            None
        }
    }
}

fn head_lines(ctx: &mut Ctx, what: &str, show: &str, head: &str, start: &str, expected: &[String]) {
    let lines: Vec<&str> = head.lines().map(|l| l.trim_end()).collect();
    if !lines.iter().any(|l| *l == start) {
        ctx.fail(format!("{what} head {show}"), format!("no line `{start}` in `{}`", short(head, 300)), show);
    }
    let imports: Vec<String> = lines
        .iter()
        .filter(|l| l.starts_with("import") || l.trim_start().starts_with("use ") || l.starts_with("@mnemonic"))
        .map(|l| l.to_string())
        .collect();
    if imports != expected {
        ctx.fail(format!("{what} imports {show}"), format!("lines {imports:?}, expected {expected:?}"), show);
    }
    if expected.iter().all(|l| !l.starts_with("import")) != head.contains("-- no dependencies") {
        ctx.fail(format!("{what} no-deps {show}"), format!("`{}`", short(head, 300)), show);
    }
}

fn library(ctx: &mut Ctx, l: &TypeLib, show: &str) {
    ctx.state();
    let show = format!("library {} of {}", l.name, show);
    let expected: Vec<_> = l.types.iter().map(|(n, t)| (n.to_string(), t.clone())).collect();
    let imports: Vec<String> =
        l.dependencies.iter().map(|d| format!("import {}#{}", d.name, d.id.to_baid64_mnemonic())).collect();
    for width in [None, Some(1), Some(40)] {
        let text = rendered(ctx, "type library", &show, || match width {
            None => l.to_string(),
            Some(w) => format!("{l:w$}"),
        });
        let Some(text) = text else { continue };
        if let Some(head) = defs(ctx, "type library", &show, &text, &expected) {
            head_lines(ctx, "type library", &show, &head, &format!("typelib {} -- {}", l.name, l.id()), &imports);
        }
    }
}

fn symbolic(ctx: &mut Ctx, l: &SymbolicLib, show: &str, id: &dyn Fn(&str) -> Id) {
    ctx.state();
    let show = format!("symbolic library {} of {}", l.name(), show);
    let expected: Vec<_> = l.types().iter().map(|(n, t)| (n.to_string(), t.clone())).collect();
    for alt in [false, true] {
        for width in [None, Some(40)] {
            let text = rendered(ctx, "symbolic library", &show, || match (width, alt) {
                (None, false) => l.to_string(),
                (None, true) => format!("{l:#}"),
                (Some(w), false) => format!("{l:w$}"),
                (Some(w), true) => format!("{l:#w$}"),
            });
            let Some(text) = text else { continue };
            let what = if alt { "symbolic library alternate" } else { "symbolic library" };
            let Some(head) = defs(ctx, what, &show, &text, &expected) else { continue };
            let mut lines = vec![];
            for d in l.dependencies() {
                lines.push(format!("import {}#{}", d.name, d.id.to_baid64_mnemonic()));
                if let Some(x) = l.extern_types().get(&d.name) {
                    for (sem_id, name) in x {
                        lines.push(format!("  use {name}#{}", sem_id.to_baid64_mnemonic()));
                    }
                }
            }
            if !alt {
                for (n, t) in &expected {
                    let wanted = sid(id(n)).to_baid64_mnemonic();
                    let printed = t.sem_id_named(&tname(n)).to_baid64_mnemonic();
                    if printed != wanted && !no_refs(t) {
                        let msg = format!("`{n}` is annotated with {printed}, its id has {wanted}");
                        ctx.fail("mnemonic of a definition with references", msg, &show);
                        lines.push(format!("@mnemonic({printed})"));
                    } else {
                        lines.push(format!("@mnemonic({wanted})"));
                    }
                }
            }
            head_lines(ctx, "symbolic library", &show, &head, &format!("typelib {}", l.name()), &lines);
        }
    }
}

fn no_refs(t: &Ty<TranspileRef>) -> bool {
    let ok = |r: &TranspileRef| match r {
        TranspileRef::Embedded(t) => no_refs(t),
        TranspileRef::Named(_) => false,
        TranspileRef::Extern(_) => true,
    };
    match t {
        Ty::Primitive(_) | Ty::UnicodeChar | Ty::Enum(_) => true,
        Ty::Union(v) => v.values().all(ok),
        Ty::Struct(v) => v.iter().all(|f| ok(&f.ty)),
        Ty::Tuple(v) => v.iter().all(ok),
        Ty::Array(r, _) | Ty::List(r, _) | Ty::Set(r, _) => ok(r),
        Ty::Map(k, r, _) => ok(k) && ok(r),
    }
}

fn type_system(ctx: &mut Ctx, s: &TypeSystem, show: &str) {
    ctx.state();
    let show = format!("type system of {show}");
    let expected: Vec<_> = s.iter().map(|(id, t)| (format!("{id:-}"), t.clone())).collect();
    let Some(text) = rendered(ctx, "type system", &show, || s.to_string()) else { return };
    if let Some(head) = defs(ctx, "type system", &show, &text, &expected) {
        let line = format!("typesys -- {}", s.id());
        if !head.lines().any(|l| l == line) {
            ctx.fail(format!("type system head {show}"), format!("no `{line}`"), &show);
        }
    }
}

fn symbolic_system(ctx: &mut Ctx, s: &SymbolicSys, show: &str, names: &BTreeMap<SemId, BTreeSet<String>>) {
    ctx.state();
    let show = format!("symbolic system of {show}");
    let Some(text) = rendered(ctx, "symbolic system", &show, || s.to_string()) else { return };
    // each type under one of its names
    let fqn = |id: SemId| s.lookup(id).map(|f| format!("{}.{}", f.lib, f.name));
    let mut expected = vec![];
    for (id, ty) in s.as_types().iter() {
        let name = fqn(*id);
        match (&name, names.get(id)) {
            (None, None) => {}
            (Some(n), Some(all)) if all.contains(n) => {}
            (n, all) => ctx.fail(format!("symbolic name {show}"), format!("{id} is named {n:?}, expected {all:?}"), &show),
        }
        expected.push((name.unwrap_or_else(|| format!("{id:-}")), named(ty, &fqn)));
    }
    if let Some(head) = defs(ctx, "symbolic system", &show, &text, &expected) {
        let line = format!("typesys -- {:+}", s.id());
        if !head.lines().any(|l| l == line) {
            ctx.fail(format!("symbolic head {show}"), format!("no `{line}`"), &show);
        }
        let ids: Vec<_> = head.lines().filter(|l| l.starts_with("-- ")).map(|l| l[3..].to_string()).collect();
        let want: Vec<_> = s.as_types().keys().filter(|id| fqn(**id).is_some()).map(|id| format!("{id:-}")).collect();
        if ids != want {
            ctx.fail(format!("symbolic ids {show}"), format!("ids {ids:?}, expected {want:?}"), &show);
        }
    }
    // the table of names
    let Some(text) = rendered(ctx, "symbols", &show, || s.as_symbols().to_string()) else { return };
    let mut got: Vec<String> = text.lines().filter(|l| l.contains(" => ")).map(|l| l.trim().to_string()).collect();
    got.sort();
    let mut want: Vec<String> =
        names.iter().flat_map(|(id, n)| n.iter().map(move |n| format!("{n} => {id}"))).collect();
    want.sort();
    if got != want {
        ctx.fail(format!("symbols {show}"), format!("table {got:?}, expected {want:?}"), &show);
    }
}

/// The type with names in place of ids
fn named(t: &Ty<SemId>, fqn: &dyn Fn(SemId) -> Option<String>) -> Ty<TypeSymbol> {
    let sym = |id: &SemId| match fqn(*id) {
        Some(n) => {
            let (lib, name) = n.split_once('.').expect("qualified name");
            TypeSymbol::named(*id, lname(lib), tname(name))
        }
        None => TypeSymbol::unnamed(*id),
    };
    match t {
        Ty::Primitive(p) => Ty::Primitive(*p),
        Ty::UnicodeChar => Ty::UnicodeChar,
        Ty::Enum(v) => Ty::Enum(v.clone()),
        Ty::Union(v) => Ty::Union(union_variants(v.iter().map(|(v, r)| (v.name.to_string(), v.tag, sym(r))).collect())),
        Ty::Struct(v) => Ty::Struct(named_fields(v.iter().map(|f| (f.name.to_string(), sym(&f.ty))).collect())),
        Ty::Tuple(v) => Ty::Tuple(unnamed_fields(v.iter().map(sym).collect())),
        Ty::Array(r, n) => Ty::Array(sym(r), *n),
        Ty::List(r, s) => Ty::List(sym(r), *s),
        Ty::Set(r, s) => Ty::Set(sym(r), *s),
        Ty::Map(k, r, s) => Ty::Map(sym(k), sym(r), *s),
    }
}

fn world(ctx: &mut Ctx, w: &World) {
    let show = short(&w.show(), 400);
    let libs: Vec<TypeLib> = w.libs.iter().map(|l| w.type_lib(l)).collect();
    for (d, l) in w.libs.iter().zip(&libs) {
        library(ctx, l, &show);
        symbolic(ctx, &w.symbolic(d), &show, &|n| w.id(&d.name, n));
        if let Ok(Ok(s)) = guard(|| l.to_symbolic()) {
            symbolic(ctx, &s, &show, &|n| w.id(&d.name, n));
        }
    }
    let mut names: BTreeMap<SemId, BTreeSet<String>> = BTreeMap::new();
    for l in &w.libs {
        for (n, _) in &l.types {
            names.entry(sid(w.id(&l.name, n))).or_default().insert(format!("{}.{n}", l.name));
        }
    }
    if let Ok(Ok(s)) = guard(|| crate::link::link(&libs)) {
        type_system(ctx, s.as_types(), &show);
        symbolic_system(ctx, &s, &show, &names);
    }
}

/// Definitions which differ in details: tags, lengths, bounds, numbers and kinds of parts
fn details(ctx: &Ctx) -> Vec<M> {
    let mut v = vec![];
    let tags: &[u8] = ctx.by_tier(&[0, 1, 2, 3, 254, 255], &[0, 1, 2, 3, 4, 127, 128, 253, 254, 255]);
    let names = ["a", "bee", "c3", "none", "some", "x_y", "semid", "data", "zed", "last"];
    for set in 1u32..1 << tags.len() {
        if set.count_ones() > ctx.by_tier(5, 10) {
            continue;
        }
        let tags: Vec<u8> = (0..tags.len()).filter(|i| set >> i & 1 == 1).map(|i| tags[i]).collect();
        let list: Vec<(&str, u8)> = tags.iter().enumerate().map(|(i, t)| (names[i], *t)).collect();
        v.push(enm(&list));
        let rot: Vec<(&str, u8)> = tags.iter().enumerate().map(|(i, t)| (names[(i + 3) % names.len()], *t)).collect();
        v.push(enm(&rot));
        for shift in 0..3 {
            let m = |i: usize| [unit(), prim(U8), tuple(vec![prim(U8), prim(U16)])][(i + shift) % 3].clone();
            v.push(union(&list.iter().enumerate().map(|(i, x)| (x.0, x.1, m(i))).collect::<Vec<_>>()));
            v.push(union(&rot.iter().enumerate().map(|(i, x)| (x.0, x.1, m(i))).collect::<Vec<_>>()));
        }
    }
    for n in (1..=ctx.by_tier(24usize, 60)).chain([255]) {
        let names: Vec<String> = (0..n).map(|i| format!("v{i}")).collect();
        for step in [1usize, 2] {
            if n * step <= 256 {
                let l: Vec<(&str, u8)> = names.iter().enumerate().map(|(i, n)| (n.as_str(), (i * step) as u8)).collect();
                v.push(enm(&l));
                v.push(union(&l.iter().map(|(n, t)| (*n, *t, prim(U8))).collect::<Vec<_>>()));
            }
        }
        v.push(tuple((0..n).map(|i| prim([U8, U16][i % 2])).collect()));
        v.push(strct(&names.iter().enumerate().map(|(i, n)| (n.as_str(), prim([U8, U16, U32][i % 3]))).collect::<Vec<_>>()));
    }
    let bounds = [0u64, 1, 2, 9, 10, 16, 255, 256, 65534, 65535, 65536, (1 << 24) - 1, 1 << 32, u64::MAX];
    for (i, a) in bounds.iter().enumerate() {
        for b in &bounds[i..] {
            v.push(list(prim(U8), *a, *b));
            v.push(list(option(prim(U8)), *a, *b));
            v.push(set(prim(U8), *a, *b));
            v.push(map(prim(U8), prim(U16), *a, *b));
            v.push(map(M::Uni, option(prim(U16)), *a, *b));
        }
        if *a <= 65535 {
            v.push(array(prim(U8), *a as u16));
            v.push(array(tuple(vec![prim(U8), prim(U8)]), *a as u16));
        }
    }
    v
}

/// All named parts of a definition
fn members(m: &M, out: &mut BTreeMap<String, M>) {
    match m {
        M::Prim(_) | M::Uni | M::Enum(_) => {}
        M::Union(v) => v.iter().for_each(|x| members(&x.2, out)),
        M::Struct(v) => v.iter().for_each(|x| members(&x.1, out)),
        M::Tuple(v) => v.iter().for_each(|x| members(x, out)),
        M::Array(x, _) | M::List(x, ..) | M::Set(x, ..) => members(x, out),
        M::Map(k, x, ..) => {
            members(k, out);
            members(x, out);
        }
        M::Named(n, m) => {
            members(m, out);
            out.insert(n.clone(), (**m).clone());
        }
    }
}

/// A library of a single definition, its symbolic form and the systems made of it
fn single(ctx: &mut Ctx, m: &M) {
    let m = normalize(match m {
        M::Named(_, m) => m,
        m => m,
    });
    let show = short(&m.show(), 300);
    let mut all = BTreeMap::new();
    members(&m, &mut all);
    all.insert(s!("Top"), m.clone());
    let ids: BTreeMap<String, Id> = all.iter().map(|(n, m)| (n.clone(), nested_id(Some(n), m))).collect();
    let l = mk_lib("TestLib", &[("Top", m.clone())]);
    library(ctx, &l, &show);
    match guard(|| l.to_symbolic()) {
        Ok(Ok(s)) => symbolic(ctx, &s, &show, &|n| ids[n]),
        e => ctx.fail(format!("symbolic {show}"), format!("{:?}", e.map(|r| r.is_ok())), &show),
    }
    match guard(|| crate::link::link([&l])) {
        Ok(Ok(s)) => {
            let mut names: BTreeMap<SemId, BTreeSet<String>> = BTreeMap::new();
            for (n, id) in &ids {
                names.entry(sid(*id)).or_default().insert(format!("TestLib.{n}"));
            }
            type_system(ctx, s.as_types(), &show);
            symbolic_system(ctx, &s, &show, &names);
        }
        e => ctx.fail(format!("link {show}"), format!("{:?}", e.map(|r| r.is_ok())), &show),
    }
}

/// Different definitions have to be written differently
fn distinct(ctx: &mut Ctx, key: &str, a: &M, b: &M) {
    let text = |m: &M| data(&mk_lib("TestLib", &[("Top", m.clone())]).to_string()).map(|d| d.1);
    ctx.transition();
    if text(a) == text(b) {
        ctx.fail(key, format!("{} and {} are both written as {:?}", a.show(), b.show(), text(a)), a.show());
    }
}

pub fn c29(ctx: &mut Ctx) {
    if ctx.first() {
        for m in [prim(U8), prim(U16), list(prim(U8), 0, 5)] {
            for n in [unit(), prim(U8), tuple(vec![prim(U8), prim(U8)])] {
                let u = union(&[("none", 0, n.clone()), ("some", 1, m.clone())]);
                if n != unit() {
                    distinct(ctx, "option with data in `none`", &u, &option(m.clone()));
                }
                for (x, y) in [(0, 2), (1, 2), (2, 3), (0, 255)] {
                    distinct(ctx, "option of other tags", &union(&[("none", x, n.clone()), ("some", y, m.clone())]), &u);
                }
                distinct(ctx, "option in another order", &union(&[("some", 0, m.clone()), ("none", 1, n.clone())]), &u);
            }
            for n in [0u16, 1, 5, 65535] {
                distinct(ctx, "array and list of a fixed length", &array(m.clone(), n), &list(m.clone(), n as u64, n as u64));
                distinct(ctx, "list and set", &set(m.clone(), n as u64, 65536), &list(m.clone(), n as u64, 65536));
            }
        }
    }
    for w in worlds() {
        if ctx.mine() {
            world(ctx, &w);
        }
    }
    for w in &shapes() {
        if ctx.mine() {
            world(ctx, w);
        }
    }
    for n in sizes(ctx.thorough()) {
        if ctx.mine() {
            wide(n).iter().for_each(|w| world(ctx, w));
        }
    }
    let mut pool = details(ctx);
    pool.extend(depth2());
    pool.extend(depth3());
    if ctx.thorough() {
        pool.extend(depth4());
    }
    for m in pool {
        if ctx.mine() {
            single(ctx, &m);
        }
    }
}
