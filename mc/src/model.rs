//! Reference model: type terms, values, the strict encoding grammar, and the meaning of untyped values.
//! Written from the strict encoding rules, independently of the implementation.

use std::collections::HashSet;

use amplify::num::{i1024, u1024};
use indexmap::IndexMap;
use strict_types::value::{Blob, EnumTag, StrictNum};
use strict_types::{FieldName, StrictVal, VariantName};

/// Type term
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum M {
    Prim(u8),
    Uni,
    Enum(Vec<(String, u8)>),
    Union(Vec<(String, u8, M)>),
    Tuple(Vec<M>),
    Struct(Vec<(String, M)>),
    Array(Box<M>, u16),
    List(Box<M>, u64, u64),
    Set(Box<M>, u64, u64),
    Map(Box<M>, Box<M>, u64, u64),
    /// A definition which has its own name in a library
    Named(String, Box<M>),
}

pub const UNIT: u8 = 0;
pub const BYTE: u8 = 0x40;
pub const U8: u8 = 1;
pub const U16: u8 = 2;
pub const U24: u8 = 3;
pub const U32: u8 = 4;
pub const U40: u8 = 5;
pub const U48: u8 = 6;
pub const U56: u8 = 7;
pub const U64: u8 = 8;
pub const U128: u8 = 16;
pub const U256: u8 = 0x20;
pub const U1024: u8 = 0x26;
pub const I8: u8 = 0x41;
pub const I16: u8 = 0x42;
pub const I32: u8 = 0x44;
pub const I64: u8 = 0x48;
pub const I128: u8 = 0x50;
pub const I256: u8 = 0x60;
pub const I1024: u8 = 0x66;

/// Value of a type, structurally. Byte strings are lists of numbers, restricted strings are tuples.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum V {
    Unit,
    Uint(u64),
    Int(i64),
    /// numbers wider than 8 bytes: two's complement, little endian, type width
    Wide(Vec<u8>),
    Char(char),
    Enum(u8),
    Union(u8, Box<V>),
    /// tuples and structs (fields in declaration order)
    Seq(Vec<V>),
    /// arrays, lists, sets
    List(Vec<V>),
    Map(Vec<(V, V)>),
}

pub fn prim(code: u8) -> M { M::Prim(code) }
pub fn unit() -> M { M::Prim(UNIT) }
pub fn list(m: M, min: u64, max: u64) -> M { M::List(Box::new(m), min, max) }
pub fn set(m: M, min: u64, max: u64) -> M { M::Set(Box::new(m), min, max) }
pub fn map(k: M, m: M, min: u64, max: u64) -> M { M::Map(Box::new(k), Box::new(m), min, max) }
pub fn array(m: M, len: u16) -> M { M::Array(Box::new(m), len) }
pub fn option(m: M) -> M { M::Union(vec![("none".into(), 0, unit()), ("some".into(), 1, m)]) }
pub fn named(n: &str, m: M) -> M { M::Named(n.to_string(), Box::new(m)) }
pub fn enm(vars: &[(&str, u8)]) -> M {
    let mut v: Vec<_> = vars.iter().map(|(n, t)| (n.to_string(), *t)).collect();
    v.sort_by_key(|x| x.1);
    M::Enum(v)
}
pub fn union(vars: &[(&str, u8, M)]) -> M {
    let mut v: Vec<_> = vars.iter().map(|(n, t, m)| (n.to_string(), *t, m.clone())).collect();
    v.sort_by_key(|x| x.1);
    M::Union(v)
}
pub fn tuple(f: Vec<M>) -> M { M::Tuple(f) }
pub fn strct(f: &[(&str, M)]) -> M { M::Struct(f.iter().map(|(n, m)| (n.to_string(), m.clone())).collect()) }
/// enum of ASCII characters
pub fn chars(cs: &str) -> M {
    let mut v: Vec<_> = cs.chars().map(|c| (char_name(c), c as u8)).collect();
    v.sort_by_key(|x| x.1);
    M::Enum(v)
}
fn char_name(c: char) -> String {
    match c {
        'a'..='z' => format!("low{}", c.to_ascii_uppercase()),
        'A'..='Z' => format!("up{c}"),
        c => format!("sym{}", c as u32),
    }
}

impl M {
    pub fn strip(&self) -> &M {
        match self {
            M::Named(_, m) => m.strip(),
            m => m,
        }
    }
    /// Byte items have a special value representation only if the type is the plain byte type
    pub fn is_byte(&self) -> bool { matches!(self, M::Prim(U8) | M::Prim(BYTE)) }
    pub fn is_uni(&self) -> bool { matches!(self, M::Uni) }
    pub fn is_char_enum(&self) -> bool {
        matches!(self.strip(), M::Enum(v) if v.iter().all(|(_, t)| (32..=127).contains(t)))
    }
    pub fn is_option(&self) -> bool {
        matches!(self.strip(), M::Union(v) if v.len() == 2
            && v[0].0 == "none" && v[0].1 == 0 && v[1].0 == "some" && v[1].1 == 1)
    }
    /// First char type, rest char type and length bounds if the type is a restricted string
    pub fn rstring(&self) -> Option<(&M, &M, u64, u64)> {
        let M::Tuple(f) = self.strip() else { return None };
        if f.len() != 2 {
            return None;
        }
        let M::List(rest, min, max) = f[1].strip() else { return None };
        if f[0].is_char_enum() && rest.is_char_enum() {
            Some((f[0].strip(), rest.strip(), min.saturating_add(1), max.saturating_add(1)))
        } else {
            None
        }
    }
    pub fn prim_size(code: u8) -> usize {
        match code {
            BYTE => 1,
            0xC0 => 2,
            c if c & 0x20 == 0 => (c & 0x1F) as usize,
            c => 16 * ((c & 0x1F) as usize + 2),
        }
    }
    /// The decoder reports widths it doesn't support with an error
    pub fn prim_decodable(code: u8) -> bool {
        matches!(code, UNIT | BYTE | U8 | U16 | U24 | U32 | U40 | U48 | U56 | U64 | I8 | I16 | I32 | I64)
    }
    pub fn decodable(&self) -> bool {
        match self {
            M::Prim(c) => M::prim_decodable(*c),
            M::Uni | M::Enum(_) => true,
            M::Union(v) => v.iter().all(|x| x.2.decodable()),
            M::Tuple(f) => f.iter().all(|x| x.decodable()),
            M::Struct(f) => f.iter().all(|x| x.1.decodable()),
            M::Array(m, n) => *n == 0 || m.decodable(),
            M::List(m, ..) | M::Set(m, ..) => m.decodable(),
            M::Map(k, m, ..) => k.decodable() && m.decodable(),
            M::Named(_, m) => m.decodable(),
        }
    }
    pub fn show(&self) -> String {
        fn sz(min: u64, max: u64) -> String {
            let mx = match max {
                0xFF => s!("MAX8"),
                0xFFFF => s!("MAX16"),
                0xFF_FFFF => s!("MAX24"),
                0xFFFF_FFFF => s!("MAX32"),
                u64::MAX => s!("MAX64"),
                m => m.to_string(),
            };
            format!("{min}..{mx}")
        }
        match self {
            M::Prim(0) => s!("()"),
            M::Prim(0x40) => s!("Byte"),
            M::Prim(c) => {
                let n = M::prim_size(*c) * 8;
                let k = match c >> 6 { 0 => "U", 1 => "I", 2 => "N", _ => "F" };
                format!("{k}{n}")
            }
            M::Uni => s!("Unicode"),
            M::Enum(v) => {
                if v.len() > 6 {
                    format!("enum[{} variants]", v.len())
                } else {
                    format!("enum[{}]", v.iter().map(|(n, t)| format!("{n}#{t}")).collect::<Vec<_>>().join("|"))
                }
            }
            M::Union(v) if v.len() > 6 => format!("union[{} variants]", v.len()),
            M::Union(v) => format!(
                "union[{}]",
                v.iter().map(|(n, t, m)| format!("{n}#{t} {}", m.show())).collect::<Vec<_>>().join("|")
            ),
            M::Tuple(f) if f.len() > 6 => format!("tuple[{} fields]", f.len()),
            M::Struct(f) if f.len() > 6 => format!("struct[{} fields]", f.len()),
            M::Tuple(f) => format!("({})", f.iter().map(|m| m.show()).collect::<Vec<_>>().join(",")),
            M::Struct(f) => {
                format!("{{{}}}", f.iter().map(|(n, m)| format!("{n} {}", m.show())).collect::<Vec<_>>().join(","))
            }
            M::Array(m, n) => format!("[{}^{n}]", m.show()),
            M::List(m, a, b) => format!("List[{}^{}]", m.show(), sz(*a, *b)),
            M::Set(m, a, b) => format!("Set[{}^{}]", m.show(), sz(*a, *b)),
            M::Map(k, m, a, b) => format!("Map[{}->{}^{}]", k.show(), m.show(), sz(*a, *b)),
            M::Named(n, m) => format!("{n}={}", m.show()),
        }
    }
}

// ------------------------------------------------------------------------------------------------ encoding grammar

pub fn width(max: u64) -> usize {
    if max < 1 << 8 {
        1
    } else if max < 1 << 16 {
        2
    } else if max < 1 << 24 {
        3
    } else if max < 1 << 32 {
        4
    } else {
        8
    }
}

fn put_len(len: u64, max: u64, out: &mut Vec<u8>) { out.extend_from_slice(&len.to_le_bytes()[..width(max)]); }

/// Canonical encoding of a value (which must be of the type)
pub fn encode(m: &M, v: &V, out: &mut Vec<u8>) {
    if let Some((_, _, _, max)) = m.rstring() {
        let V::Seq(parts) = v else { panic!("model: {m:?} {v:?}") };
        let V::List(rest) = &parts[1] else { panic!() };
        put_len(rest.len() as u64 + 1, max, out);
        encode(&enm(&[]), &parts[0], out);
        for r in rest {
            encode(&enm(&[]), r, out);
        }
        return;
    }
    match (m.strip(), v) {
        (M::Prim(UNIT), V::Unit) => {}
        (M::Prim(c), V::Uint(n)) => out.extend_from_slice(&n.to_le_bytes()[..M::prim_size(*c)]),
        (M::Prim(c), V::Int(n)) => out.extend_from_slice(&n.to_le_bytes()[..M::prim_size(*c)]),
        (M::Prim(_), V::Wide(b)) => out.extend_from_slice(b),
        (M::Uni, V::Char(c)) => out.extend_from_slice(c.to_string().as_bytes()),
        (M::Enum(_), V::Enum(t)) => out.push(*t),
        (M::Union(vars), V::Union(t, v)) => {
            out.push(*t);
            let (_, _, m) = vars.iter().find(|x| x.1 == *t).unwrap();
            encode(m, v, out);
        }
        (M::Tuple(f), V::Seq(vs)) => f.iter().zip(vs).for_each(|(m, v)| encode(m, v, out)),
        (M::Struct(f), V::Seq(vs)) => f.iter().zip(vs).for_each(|((_, m), v)| encode(m, v, out)),
        (M::Array(m, _), V::List(vs)) => vs.iter().for_each(|v| encode(m, v, out)),
        (M::List(m, _, max), V::List(vs)) if m.is_uni() => {
            let s: String = vs.iter().map(|v| if let V::Char(c) = v { *c } else { panic!() }).collect();
            put_len(s.len() as u64, *max, out);
            out.extend_from_slice(s.as_bytes());
        }
        (M::List(m, _, max) | M::Set(m, _, max), V::List(vs)) => {
            put_len(vs.len() as u64, *max, out);
            vs.iter().for_each(|v| encode(m, v, out));
        }
        (M::Map(k, m, _, max), V::Map(vs)) => {
            put_len(vs.len() as u64, *max, out);
            for (key, val) in vs {
                encode(k, key, out);
                encode(m, val, out);
            }
        }
        (m, v) => panic!("model: value {v:?} is not of type {m:?}"),
    }
}

pub fn encoded(m: &M, v: &V) -> Vec<u8> {
    let mut out = vec![];
    encode(m, v, &mut out);
    out
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rej {
    /// every extension of the data is possibly accepted
    Incomplete,
    /// no extension of the data is accepted
    Malformed(&'static str),
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], Rej> {
        if self.0.len() < n {
            self.0 = &[];
            return Err(Rej::Incomplete);
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn num(&mut self, n: usize) -> Result<u64, Rej> {
        let mut buf = [0u8; 8];
        buf[..n].copy_from_slice(self.take(n)?);
        Ok(u64::from_le_bytes(buf))
    }
    fn len(&mut self, min: u64, max: u64) -> Result<u64, Rej> {
        let len = self.num(width(max))?;
        if len < min {
            return Err(Rej::Malformed("length below minimum"));
        }
        if len > max {
            return Err(Rej::Malformed("length above maximum"));
        }
        Ok(len)
    }
    fn char(&mut self) -> Result<char, Rej> {
        let b0 = self.take(1)?[0];
        let n = match b0 {
            0..=0x7F => 0,
            0xC2..=0xDF => 1,
            0xE0..=0xEF => 2,
            0xF0..=0xF4 => 3,
            _ => return Err(Rej::Malformed("utf-8")),
        };
        let mut buf = vec![b0];
        for i in 0..n {
            let b = self.take(1)?[0];
            buf.push(b);
            let ok = match (i, b0) {
                (0, 0xE0) => (0xA0..=0xBF).contains(&b),
                (0, 0xED) => (0x80..=0x9F).contains(&b),
                (0, 0xF0) => (0x90..=0xBF).contains(&b),
                (0, 0xF4) => (0x80..=0x8F).contains(&b),
                _ => (0x80..=0xBF).contains(&b),
            };
            if !ok {
                return Err(Rej::Malformed("utf-8"));
            }
        }
        Ok(std::str::from_utf8(&buf).map_err(|_| Rej::Malformed("utf-8"))?.chars().next().unwrap())
    }
}

pub fn int_range(code: u8) -> Option<(i128, i128)> {
    let n = M::prim_size(code) as u32 * 8;
    if n == 0 || n > 64 {
        return None;
    }
    match code {
        BYTE => Some((0, 255)),
        c if c < 0x40 => Some((0, (1i128 << n) - 1)),
        c if c < 0x80 => Some((-(1i128 << (n - 1)), (1i128 << (n - 1)) - 1)),
        _ => None,
    }
}

fn dec(m: &M, r: &mut Rd) -> Result<V, Rej> {
    if let Some((first, rest, min, max)) = m.rstring() {
        let len = r.len(min, max)?;
        // all characters have to be there before any of them may be judged: but a wrong one makes the data malformed
        let f = dec(first, r)?;
        let mut items = vec![];
        for _ in 1..len {
            items.push(dec(rest, r)?);
        }
        return Ok(V::Seq(vec![f, V::List(items)]));
    }
    Ok(match m.strip() {
        M::Prim(UNIT) => V::Unit,
        M::Prim(c) => {
            let n = M::prim_size(*c);
            if n > 8 || *c >= 0x80 {
                V::Wide(r.take(n)?.to_vec())
            } else if *c >= 0x41 {
                let v = r.num(n)?;
                let shift = 64 - 8 * n as u32;
                V::Int(((v << shift) as i64) >> shift)
            } else {
                V::Uint(r.num(n)?)
            }
        }
        M::Uni => V::Char(r.char()?),
        M::Enum(vars) => {
            let t = r.take(1)?[0];
            if !vars.iter().any(|x| x.1 == t) {
                return Err(Rej::Malformed("unknown enum tag"));
            }
            V::Enum(t)
        }
        M::Union(vars) => {
            let t = r.take(1)?[0];
            let Some((_, _, m)) = vars.iter().find(|x| x.1 == t) else {
                return Err(Rej::Malformed("unknown union tag"));
            };
            V::Union(t, Box::new(dec(m, r)?))
        }
        M::Tuple(f) => V::Seq(f.iter().map(|m| dec(m, r)).collect::<Result<_, _>>()?),
        M::Struct(f) => V::Seq(f.iter().map(|(_, m)| dec(m, r)).collect::<Result<_, _>>()?),
        M::Array(m, n) => V::List((0..*n).map(|_| dec(m, r)).collect::<Result<_, _>>()?),
        M::List(m, min, max) if m.is_uni() => {
            let len = r.len(*min, *max)?;
            let avail = r.0.len() as u64;
            let head = &r.0[..len.min(avail) as usize];
            let mut sub = Rd(head);
            let mut items = vec![];
            while !sub.0.is_empty() {
                match sub.char() {
                    Ok(c) => items.push(V::Char(c)),
                    // a character which crosses the end of a complete string is malformed
                    Err(Rej::Incomplete) if len <= avail => return Err(Rej::Malformed("utf-8")),
                    Err(e) => return Err(e),
                }
            }
            r.take(len.min(usize::MAX as u64) as usize)?;
            V::List(items)
        }
        M::List(m, min, max) => {
            let len = r.len(*min, *max)?;
            let mut items = vec![];
            for _ in 0..len {
                items.push(dec(m, r)?);
            }
            V::List(items)
        }
        M::Set(m, min, max) => {
            let len = r.len(*min, *max)?;
            let mut items = vec![];
            let mut seen = HashSet::new();
            for _ in 0..len {
                let i = dec(m, r)?;
                if !seen.insert(i.clone()) {
                    return Err(Rej::Malformed("repeated element"));
                }
                items.push(i);
            }
            V::List(items)
        }
        M::Map(k, m, min, max) => {
            let len = r.len(*min, *max)?;
            let mut items: Vec<(V, V)> = vec![];
            let mut seen = HashSet::new();
            for _ in 0..len {
                let key = dec(k, r)?;
                if !seen.insert(key.clone()) {
                    return Err(Rej::Malformed("repeated key"));
                }
                items.push((key, dec(m, r)?));
            }
            V::Map(items)
        }
        M::Named(..) => unreachable!(),
    })
}

/// Decodes a value from the start of the data, returning the number of consumed bytes
pub fn decode_prefix(m: &M, data: &[u8]) -> Result<(V, usize), Rej> {
    let mut r = Rd(data);
    let v = dec(m, &mut r)?;
    Ok((v, data.len() - r.0.len()))
}

pub fn decode(m: &M, data: &[u8]) -> Result<V, Rej> {
    let (v, n) = decode_prefix(m, data)?;
    if n != data.len() {
        return Err(Rej::Malformed("trailing data"));
    }
    Ok(v)
}

// --------------------------------------------------------------------------------- meaning of untyped schema values

/// What an untyped value means for a type
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum D {
    Yes(V),
    No,
    /// the notation is not specified: the implementation may accept it or not
    Unspec,
}

macro_rules! yes {
    ($e:expr) => {
        match $e {
            D::Yes(v) => v,
            other => return other,
        }
    };
}

fn wide_unsigned(n: &u1024, size: usize) -> Option<Vec<u8>> {
    let mut b = n.to_le_bytes().to_vec();
    b.resize(b.len().max(size), 0);
    if b[size..].iter().any(|x| *x != 0) {
        return None;
    }
    b.truncate(size);
    Some(b)
}

fn wide_signed(n: &i1024, size: usize) -> Option<Vec<u8>> {
    let mut b = n.to_le_bytes().to_vec();
    let ext = if b[127] & 0x80 != 0 { 0xFF } else { 0 };
    b.resize(b.len().max(size), ext);
    let neg = b[size - 1] & 0x80 != 0;
    let ext = if neg { 0xFF } else { 0 };
    if b[size..].iter().any(|x| *x != ext) {
        return None;
    }
    Some(b[..size].to_vec())
}

pub fn denote_tag(vars: &[(String, u8)], tag: &EnumTag) -> Option<u8> {
    match tag {
        EnumTag::Name(n) => vars.iter().find(|x| x.0 == n.as_str()).map(|x| x.1),
        EnumTag::Ord(t) => vars.iter().find(|x| x.1 == *t).map(|x| x.1),
    }
}

fn in_bounds(len: usize, min: u64, max: u64) -> bool { len as u64 >= min && len as u64 <= max }

fn denote_all(m: &M, items: &[StrictVal]) -> Result<Vec<V>, D> {
    let mut res = vec![];
    for i in items {
        match denote(m, i) {
            D::Yes(v) => res.push(v),
            other => return Err(other),
        }
    }
    Ok(res)
}

fn char_items(m: &M, s: &str) -> Option<Vec<V>> {
    let M::Enum(vars) = m.strip() else { return None };
    s.chars()
        .map(|c| {
            let t = u8::try_from(c as u32).ok()?;
            if !c.is_ascii() {
                return None;
            }
            vars.iter().any(|x| x.1 == t).then_some(V::Enum(t))
        })
        .collect()
}

/// The member of the type a value stands for, including all shorthands
pub fn denote(m: &M, sv: &StrictVal) -> D {
    if let Some((first, rest, min, max)) = m.rstring() {
        return match sv {
            StrictVal::String(s) => {
                if s.is_empty() || !in_bounds(s.len(), min, max) || !s.is_ascii() {
                    return D::No;
                }
                match (char_items(first, &s[..1]), char_items(rest, &s[1..])) {
                    (Some(mut f), Some(r)) => D::Yes(V::Seq(vec![f.remove(0), V::List(r)])),
                    _ => D::No,
                }
            }
            StrictVal::Tuple(_) | StrictVal::List(_) => D::Unspec,
            _ => D::No,
        };
    }
    match m.strip() {
        M::Prim(UNIT) => match sv {
            StrictVal::Unit => D::Yes(V::Unit),
            StrictVal::Tuple(v) if v.is_empty() => D::Yes(V::Unit),
            StrictVal::Struct(v) if v.is_empty() => D::Yes(V::Unit),
            StrictVal::List(v) if v.is_empty() => D::Yes(V::Unit),
            StrictVal::Map(v) if v.is_empty() => D::Yes(V::Unit),
            _ => D::No,
        },
        M::Prim(c) => {
            let StrictVal::Number(n) = sv else { return D::No };
            let size = M::prim_size(*c);
            match (n, int_range(*c)) {
                (StrictNum::Uint(v), Some((min, max))) => {
                    if (*v as i128) < min || *v as i128 > max {
                        D::No
                    } else if min < 0 {
                        D::Yes(V::Int(*v as i64))
                    } else {
                        D::Yes(V::Uint(*v))
                    }
                }
                (StrictNum::Int(v), Some((min, max))) if min < 0 => {
                    if (*v as i128) < min || *v as i128 > max {
                        D::No
                    } else {
                        D::Yes(V::Int(*v))
                    }
                }
                (StrictNum::BigUint(v), None) if *c < 0x40 => {
                    wide_unsigned(v, size).map(|b| D::Yes(V::Wide(b))).unwrap_or(D::No)
                }
                (StrictNum::BigInt(v), None) if (0x40..0x80).contains(c) => {
                    wide_signed(v, size).map(|b| D::Yes(V::Wide(b))).unwrap_or(D::No)
                }
                // small notation of a wide number, or the other way round, is not specified
                (StrictNum::Uint(_) | StrictNum::Int(_), None) if *c < 0x80 => D::Unspec,
                (StrictNum::BigUint(v), Some((min, max))) => {
                    // must not be accepted if the number is out of range
                    match wide_unsigned(v, 8) {
                        Some(b) => {
                            let x = u64::from_le_bytes(b.try_into().unwrap()) as i128;
                            if x >= min && x <= max { D::Unspec } else { D::No }
                        }
                        None => D::No,
                    }
                }
                (StrictNum::Int(v), Some((min, max))) => {
                    if (*v as i128) < min || *v as i128 > max { D::No } else { D::Unspec }
                }
                (StrictNum::BigInt(v), Some((min, max))) => match wide_signed(v, 16) {
                    Some(b) => {
                        let x = i128::from_le_bytes(b.try_into().unwrap());
                        if x >= min && x <= max { D::Unspec } else { D::No }
                    }
                    None => D::No,
                },
                _ => D::No,
            }
        }
        M::Uni => match sv {
            StrictVal::String(s) if s.chars().count() == 1 => D::Yes(V::Char(s.chars().next().unwrap())),
            _ => D::No,
        },
        M::Enum(vars) => {
            let t = match sv {
                StrictVal::Enum(tag) => denote_tag(vars, tag),
                StrictVal::String(s) => {
                    let by_name = vars.iter().find(|x| x.0 == *s).map(|x| x.1);
                    let by_char = (s.len() == 1)
                        .then(|| vars.iter().find(|x| x.1 == s.as_bytes()[0]).map(|x| x.1))
                        .flatten();
                    match (by_name, by_char) {
                        (Some(a), Some(b)) if a != b => return D::Unspec,
                        (Some(a), _) | (_, Some(a)) => Some(a),
                        _ => None,
                    }
                }
                StrictVal::Number(StrictNum::Uint(n)) => vars.iter().find(|x| x.1 as u64 == *n).map(|x| x.1),
                _ => None,
            };
            t.map(|t| D::Yes(V::Enum(t))).unwrap_or(D::No)
        }
        M::Union(vars) => {
            if let StrictVal::Union(tag, inner) = sv {
                let names: Vec<_> = vars.iter().map(|x| (x.0.clone(), x.1)).collect();
                let Some(t) = denote_tag(&names, tag) else { return D::No };
                let (_, _, m) = vars.iter().find(|x| x.1 == t).unwrap();
                return D::Yes(V::Union(t, Box::new(yes!(denote(m, inner)))));
            }
            if !m.is_option() {
                return D::No;
            }
            let none = || D::Yes(V::Union(0, Box::new(yes!(denote(&vars[0].2, &StrictVal::Unit)))));
            let some = |v: &StrictVal| D::Yes(V::Union(1, Box::new(yes!(denote(&vars[1].2, v)))));
            match sv {
                StrictVal::Unit => none(),
                StrictVal::Tuple(t) if t.len() == 2 => match &t[0] {
                    StrictVal::String(s) if s == "none" && t[1] == StrictVal::Unit => none(),
                    StrictVal::String(s) if s == "some" => some(&t[1]),
                    // a pair which is not a tag with a content: bare content is ambiguous here
                    _ => match denote(&vars[1].2, sv) {
                        D::No => D::No,
                        _ => D::Unspec,
                    },
                },
                v => some(v),
            }
        }
        M::Tuple(f) => match sv {
            StrictVal::Tuple(items) => {
                if items.len() != f.len() {
                    // a newtype over a tuple given without the wrapper
                    return if f.len() == 1 && denote(&f[0], sv) != D::No { D::Unspec } else { D::No };
                }
                let mut res = vec![];
                for (m, i) in f.iter().zip(items) {
                    match denote(m, i) {
                        D::Yes(v) => res.push(v),
                        D::Unspec => return D::Unspec,
                        D::No => {
                            return if f.len() == 1 && denote(&f[0], sv) != D::No { D::Unspec } else { D::No }
                        }
                    }
                }
                D::Yes(V::Seq(res))
            }
            StrictVal::List(items) if f.len() != 1 => {
                if items.len() != f.len() {
                    return D::No;
                }
                let mut res = vec![];
                for (m, i) in f.iter().zip(items) {
                    res.push(yes!(denote(m, i)));
                }
                D::Yes(V::Seq(res))
            }
            StrictVal::List(items) => {
                // either the list of the fields or the list which is wrapped
                let as_fields = if items.len() == 1 { denote(&f[0], &items[0]) } else { D::No };
                let as_inner = denote(&f[0], sv);
                match (as_fields, as_inner) {
                    (D::Yes(v), D::No) | (D::No, D::Yes(v)) => D::Yes(V::Seq(vec![v])),
                    (D::No, D::No) => D::No,
                    _ => D::Unspec,
                }
            }
            v if f.len() == 1 => D::Yes(V::Seq(vec![yes!(denote(&f[0], v))])),
            _ => D::No,
        },
        M::Struct(f) => {
            let mut got: IndexMap<String, &StrictVal> = IndexMap::new();
            match sv {
                StrictVal::Struct(fields) => {
                    for (n, v) in fields {
                        got.insert(n.to_string(), v);
                    }
                }
                StrictVal::Map(items) => {
                    for (k, v) in items {
                        let StrictVal::String(k) = k else { return D::No };
                        if got.insert(k.clone(), v).is_some() {
                            return D::No;
                        }
                    }
                }
                _ => return D::No,
            }
            if got.len() != f.len() || f.iter().any(|(n, _)| !got.contains_key(n)) {
                return D::No;
            }
            let mut res = vec![];
            let mut unspec = false;
            for (n, m) in f {
                match denote(m, got[n]) {
                    D::Yes(v) => res.push(v),
                    D::No => return D::No,
                    D::Unspec => unspec = true,
                }
            }
            if unspec { D::Unspec } else { D::Yes(V::Seq(res)) }
        }
        M::Array(m, n) => {
            let n = *n as usize;
            let check = |v: Vec<V>| if v.len() == n { D::Yes(V::List(v)) } else { D::No };
            match sv {
                StrictVal::List(items) => {
                    if items.len() != n {
                        return D::No;
                    }
                    match denote_all(m, items) {
                        Ok(v) => check(v),
                        Err(e) => e,
                    }
                }
                StrictVal::Bytes(b) if m.is_byte() => check(b.0.iter().map(|b| V::Uint(*b as u64)).collect()),
                StrictVal::String(s) if m.is_byte() => {
                    if !s.is_ascii() && s.len() == n {
                        return D::Unspec;
                    }
                    check(s.bytes().map(|b| V::Uint(b as u64)).collect())
                }
                StrictVal::String(s) if m.is_uni() => check(s.chars().map(V::Char).collect()),
                StrictVal::String(s) if m.is_char_enum() => char_items(m, s).map(check).unwrap_or(D::No),
                _ => D::No,
            }
        }
        M::List(m, min, max) => {
            let check = |v: Vec<V>| {
                let len = if m.is_uni() {
                    v.iter().map(|c| if let V::Char(c) = c { c.len_utf8() } else { 0 }).sum()
                } else {
                    v.len()
                };
                if in_bounds(len, *min, *max) { D::Yes(V::List(v)) } else { D::No }
            };
            match sv {
                StrictVal::List(items) => match denote_all(m, items) {
                    Ok(v) => check(v),
                    Err(e) => e,
                },
                StrictVal::Bytes(b) if m.is_byte() => check(b.0.iter().map(|b| V::Uint(*b as u64)).collect()),
                StrictVal::String(s) if m.is_byte() => check(s.bytes().map(|b| V::Uint(b as u64)).collect()),
                StrictVal::String(s) if m.is_uni() => check(s.chars().map(V::Char).collect()),
                StrictVal::String(s) if m.is_char_enum() => char_items(m, s).map(check).unwrap_or(D::No),
                _ => D::No,
            }
        }
        M::Set(m, min, max) => match sv {
            StrictVal::Set(items) => match denote_all(m, items) {
                Ok(v) => {
                    let dup = v.iter().collect::<HashSet<_>>().len() < v.len();
                    if dup || !in_bounds(v.len(), *min, *max) { D::No } else { D::Yes(V::List(v)) }
                }
                Err(e) => e,
            },
            StrictVal::List(items) => match denote_all(m, items) {
                Ok(v) => {
                    let dup = v.iter().collect::<HashSet<_>>().len() < v.len();
                    if dup || !in_bounds(v.len(), *min, *max) { D::No } else { D::Unspec }
                }
                Err(e) => e,
            },
            _ => D::No,
        },
        M::Map(k, m, min, max) => match sv {
            StrictVal::Map(items) => {
                let mut res: Vec<(V, V)> = vec![];
                let mut seen = HashSet::new();
                let mut unspec = false;
                for (key, val) in items {
                    let key = match denote(k, key) {
                        D::Yes(v) => v,
                        D::No => return D::No,
                        D::Unspec => {
                            unspec = true;
                            continue;
                        }
                    };
                    let val = match denote(m, val) {
                        D::Yes(v) => v,
                        D::No => return D::No,
                        D::Unspec => {
                            unspec = true;
                            continue;
                        }
                    };
                    if !seen.insert(key.clone()) {
                        return D::No;
                    }
                    res.push((key, val));
                }
                if !in_bounds(items.len(), *min, *max) {
                    D::No
                } else if unspec {
                    D::Unspec
                } else {
                    D::Yes(V::Map(res))
                }
            }
            _ => D::No,
        },
        M::Named(..) => unreachable!(),
    }
}

// -------------------------------------------------------------------------------------- canonical schema value of V

pub fn vname(s: &str) -> VariantName { VariantName::try_from(s.to_string()).expect("variant name") }
pub fn fname(s: &str) -> FieldName { FieldName::try_from(s.to_string()).expect("field name") }

fn text(vs: &[V]) -> String {
    vs.iter()
        .map(|v| match v {
            V::Enum(t) => *t as char,
            V::Char(c) => *c,
            v => panic!("model: {v:?}"),
        })
        .collect()
}

/// The value in the notation the schema-driven decoder uses
pub fn to_strict(m: &M, v: &V) -> StrictVal {
    if m.rstring().is_some() {
        let V::Seq(p) = v else { panic!() };
        let V::List(rest) = &p[1] else { panic!() };
        return StrictVal::String(format!("{}{}", text(&p[..1]), text(rest)));
    }
    match (m.strip(), v) {
        (_, V::Unit) => StrictVal::Unit,
        (_, V::Uint(n)) => StrictVal::Number(StrictNum::Uint(*n)),
        (_, V::Int(n)) => StrictVal::Number(StrictNum::Int(*n)),
        (M::Prim(c), V::Wide(b)) if *c < 0x40 => {
            let mut buf = [0u8; 128];
            let n = b.len().min(128);
            buf[..n].copy_from_slice(&b[..n]);
            StrictVal::Number(StrictNum::BigUint(u1024::from_le_bytes(buf)))
        }
        (M::Prim(_), V::Wide(b)) => {
            let mut buf = [if b[b.len() - 1] & 0x80 != 0 { 0xFF } else { 0 }; 128];
            let n = b.len().min(128);
            buf[..n].copy_from_slice(&b[..n]);
            StrictVal::Number(StrictNum::BigInt(i1024::from_le_bytes(buf)))
        }
        (_, V::Char(c)) => StrictVal::String(c.to_string()),
        (M::Enum(vars), V::Enum(t)) => {
            StrictVal::Enum(EnumTag::Name(vname(&vars.iter().find(|x| x.1 == *t).unwrap().0)))
        }
        (M::Union(vars), V::Union(t, v)) => {
            let (n, _, m) = vars.iter().find(|x| x.1 == *t).unwrap();
            StrictVal::Union(EnumTag::Name(vname(n)), Box::new(to_strict(m, v)))
        }
        (M::Tuple(f), V::Seq(vs)) => StrictVal::Tuple(f.iter().zip(vs).map(|(m, v)| to_strict(m, v)).collect()),
        (M::Struct(f), V::Seq(vs)) => {
            StrictVal::Struct(f.iter().zip(vs).map(|((n, m), v)| (fname(n), to_strict(m, v))).collect())
        }
        (M::Array(m, _), V::List(vs)) | (M::List(m, _, 0..=0xFFFF_FFFF), V::List(vs)) if m.is_byte() => {
            StrictVal::Bytes(Blob(vs.iter().map(|v| if let V::Uint(b) = v { *b as u8 } else { panic!() }).collect()))
        }
        (M::List(m, ..), V::List(vs)) if m.is_uni() || m.is_char_enum() => StrictVal::String(text(vs)),
        (M::List(m, ..) | M::Array(m, ..), V::List(vs)) => {
            StrictVal::List(vs.iter().map(|v| to_strict(m, v)).collect())
        }
        (M::Set(m, ..), V::List(vs)) => StrictVal::Set(vs.iter().map(|v| to_strict(m, v)).collect()),
        (M::Map(k, m, ..), V::Map(vs)) => {
            StrictVal::Map(vs.iter().map(|(a, b)| (to_strict(k, a), to_strict(m, b))).collect())
        }
        (m, v) => panic!("model: {m:?} {v:?}"),
    }
}

/// Does a schema value match the value of the type in any of the notations?
pub fn means(m: &M, sv: &StrictVal, v: &V) -> bool { denote(m, sv) == D::Yes(v.clone()) }

/// Sample values of a type: boundary values, every variant, lengths at the bounds. Bounded by `cap` per node.
pub fn values(m: &M, cap: usize) -> Vec<V> {
    let mut res: Vec<V> = match m.strip() {
        M::Prim(UNIT) => vec![V::Unit],
        M::Prim(c) => match int_range(*c) {
            Some((min, max)) => {
                let mut v: Vec<i128> = vec![0, 1, max, min, max - 1, max / 2 + 1, -1, 0x61, 0x41, 0x80];
                v.retain(|x| *x >= min && *x <= max);
                let mut seen = vec![];
                for x in v {
                    if !seen.contains(&x) {
                        seen.push(x);
                    }
                }
                seen.into_iter().map(|x| if min < 0 { V::Int(x as i64) } else { V::Uint(x as u64) }).collect()
            }
            None => {
                let n = M::prim_size(*c);
                let mut v = vec![vec![0u8; n], vec![0xFF; n]];
                let mut one = vec![0u8; n];
                one[0] = 1;
                v.push(one);
                let mut top = vec![0u8; n];
                top[n - 1] = 0x80;
                v.push(top);
                let mut mid = vec![0xFFu8; n];
                mid[n - 1] = 0x7F;
                v.push(mid);
                if n > 128 {
                    // untyped values hold at most 1024 bits
                    v.retain(|b| {
                        let ext = if *c >= 0x40 && b[127] & 0x80 != 0 { 0xFF } else { 0 };
                        b[128..].iter().all(|x| *x == ext)
                    });
                }
                v.into_iter().map(V::Wide).collect()
            }
        },
        M::Uni => vec![V::Char('a'), V::Char('é'), V::Char('\u{1F600}'), V::Char('\0'), V::Char('"'), V::Char('€')],
        M::Enum(vars) => {
            let mut v: Vec<V> = vars.iter().map(|x| V::Enum(x.1)).collect();
            if v.len() > cap && v.len() > 2 {
                let last = v.pop().unwrap();
                v.insert(1, last);
            }
            v
        }
        M::Union(vars) => {
            let mut per: Vec<Vec<V>> = vars
                .iter()
                .map(|(_, t, m)| values(m, cap).into_iter().map(|v| V::Union(*t, Box::new(v))).collect())
                .collect();
            interleave(&mut per)
        }
        M::Tuple(f) => product(&f.iter().map(|m| values(m, cap)).collect::<Vec<_>>(), cap).into_iter().map(V::Seq).collect(),
        M::Struct(f) => {
            product(&f.iter().map(|(_, m)| values(m, cap)).collect::<Vec<_>>(), cap).into_iter().map(V::Seq).collect()
        }
        M::Array(m, n) => lists(&values(m, cap), &[*n as usize], cap, false).into_iter().map(V::List).collect(),
        M::List(m, min, max) => {
            let u = m.is_uni();
            lists(&values(m, cap), &lens(*min, *max), cap, false)
                .into_iter()
                .filter(|l| {
                    !u || {
                        let n: usize = l.iter().map(|c| if let V::Char(c) = c { c.len_utf8() } else { 0 }).sum();
                        in_bounds(n, *min, *max)
                    }
                })
                .map(V::List)
                .collect()
        }
        M::Set(m, min, max) => {
            lists(&values(m, cap.max(4)), &lens(*min, *max), cap, true).into_iter().map(V::List).collect()
        }
        M::Map(k, m, min, max) => {
            let keys = lists(&values(k, cap.max(4)), &lens(*min, *max), cap, true);
            let vals = values(m, cap);
            if vals.is_empty() {
                if *min == 0 { vec![V::Map(vec![])] } else { vec![] }
            } else {
                let mut res = vec![];
                for (i, ks) in keys.into_iter().enumerate() {
                    res.push(V::Map(
                        ks.into_iter().enumerate().map(|(j, k)| (k, vals[(i + j) % vals.len()].clone())).collect(),
                    ));
                }
                res
            }
        }
        M::Named(..) => unreachable!(),
    };
    if res.len() > 1 {
        let mut seen = std::collections::BTreeSet::new();
        res.retain(|v| seen.insert(v.clone()));
    }
    res.truncate(cap);
    res
}

fn lens(min: u64, max: u64) -> Vec<usize> {
    let mut l = vec![min, min.saturating_add(1), min.saturating_add(2)];
    if max <= 4 {
        l.push(max);
    }
    l.retain(|x| *x <= max && *x <= 300);
    l.sort();
    l.dedup();
    l.into_iter().map(|x| x as usize).collect()
}

fn interleave(per: &mut [Vec<V>]) -> Vec<V> {
    let mut res = vec![];
    let mut i = 0;
    loop {
        let mut any = false;
        for p in per.iter() {
            if let Some(v) = p.get(i) {
                res.push(v.clone());
                any = true;
            }
        }
        if !any {
            return res;
        }
        i += 1;
    }
}

pub fn product(per: &[Vec<V>], cap: usize) -> Vec<Vec<V>> {
    if per.iter().any(|p| p.is_empty()) {
        return vec![];
    }
    let total: usize = per.iter().map(|p| p.len()).fold(1usize, |a, b| a.saturating_mul(b));
    let mut res = vec![];
    if total <= cap {
        for mut i in 0..total {
            let mut row = vec![];
            for p in per {
                row.push(p[i % p.len()].clone());
                i /= p.len();
            }
            res.push(row);
        }
    } else {
        // each value of each field at least once (as far as the cap allows), fields rotating against each other
        let longest = per.iter().map(|p| p.len()).max().unwrap();
        for i in 0..longest.max(cap) {
            res.push(per.iter().enumerate().map(|(j, p)| p[(i + j * (i / p.len())) % p.len()].clone()).collect());
        }
        res.dedup();
        res.truncate(cap);
    }
    res
}

fn lists(items: &[V], lens: &[usize], cap: usize, distinct: bool) -> Vec<Vec<V>> {
    let mut res = vec![];
    for len in lens {
        if *len == 0 {
            res.push(vec![]);
            continue;
        }
        if items.is_empty() || (distinct && *len > items.len()) {
            continue;
        }
        let rot = if *len == 1 { items.len() } else { items.len().min(3) };
        for r in 0..rot.min(cap) {
            res.push((0..*len).map(|i| items[(i + r) % items.len()].clone()).collect());
        }
        if !distinct && *len == 2 {
            res.push(vec![items[0].clone(), items[0].clone()]);
        }
    }
    if res.len() > cap {
        // keep a spread
        let step = res.len() as f64 / cap as f64;
        res = (0..cap).map(|i| res[(i as f64 * step) as usize].clone()).collect();
    }
    res
}
