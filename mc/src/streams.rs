//! C30: typed values in streams: every chunking of the stream and a failure at every point

use std::io;

use amplify::confinement::Confined;
use strict_encoding::{StreamReader, StrictEncode, StrictWriter};
use strict_types::typify::TypedVal;
use strict_types::value::decode::Error;

use crate::core::*;
use crate::model::*;
use crate::sysb::*;
use crate::universe::*;

/// What a stream does: sizes of the portions (cyclically, 0 is an interruption) and a failure after a number of bytes
#[derive(Clone, Debug)]
struct Script {
    portions: Vec<usize>,
    fault: Option<(usize, Fault)>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Fault {
    /// the end of the stream, or no more space in it
    End,
    Error(io::ErrorKind),
}

struct Stream {
    data: Vec<u8>,
    pos: usize,
    calls: usize,
    script: Script,
}
impl Stream {
    fn new(data: &[u8], script: &Script) -> Self { Stream { data: data.to_vec(), pos: 0, calls: 0, script: script.clone() } }

    /// How many bytes of `n` are transferred now
    fn portion(&mut self, n: usize) -> io::Result<usize> {
        let p = self.script.portions[self.calls % self.script.portions.len()];
        self.calls += 1;
        if let Some((at, fault)) = self.script.fault {
            if self.pos >= at && n > 0 {
                return match fault {
                    Fault::End => Ok(0),
                    Fault::Error(kind) => Err(io::Error::new(kind, "injected")),
                };
            }
            if p == 0 {
                return Err(io::ErrorKind::Interrupted.into());
            }
            return Ok(n.min(p).min(at - self.pos));
        }
        if p == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        Ok(n.min(p))
    }
}
impl io::Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.portion(buf.len())?.min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl io::Write for Stream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.portion(buf.len())?;
        self.data.extend_from_slice(&buf[..n]);
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn portions() -> Vec<Vec<usize>> {
    vec![vec![usize::MAX], vec![1], vec![2], vec![3, 1], vec![0, 1], vec![0, 0, 7], vec![5, 0, 2, 1]]
}

const FAULTS: [Fault; 4] = [
    Fault::End,
    Fault::Error(io::ErrorKind::WouldBlock),
    Fault::Error(io::ErrorKind::BrokenPipe),
    Fault::Error(io::ErrorKind::UnexpectedEof),
];
const KINDS: [io::ErrorKind; 20] = [
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::StorageFull,
    io::ErrorKind::WriteZero,
    io::ErrorKind::TimedOut,
    io::ErrorKind::Other,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Unsupported,
    io::ErrorKind::FileTooLarge,
    io::ErrorKind::QuotaExceeded,
];

/// The faults of one offset: all of them for short data, else four which take turns with the offset
fn faults(at: usize, len: usize) -> Vec<Fault> {
    if len <= 10 {
        return [Fault::End].into_iter().chain(KINDS.map(Fault::Error)).collect();
    }
    let mut res = vec![Fault::End];
    res.extend((0..3).map(|j| Fault::Error(KINDS[(at * 3 + len + j * 7) % KINDS.len()])));
    res
}

fn kind_of(f: Fault, end: io::ErrorKind) -> io::ErrorKind {
    match f {
        Fault::End => end,
        Fault::Error(k) => k,
    }
}

fn points(n: usize) -> Vec<usize> {
    if n <= 40 {
        (0..n).collect()
    } else {
        (0..12).chain([n / 2]).chain(n - 12..n).collect()
    }
}

/// Several values one after another
fn sequence(ctx: &mut Ctx, s: &Sys, vals: &[V], tail: &[u8]) {
    let types = s.sys.as_types();
    let enc: Vec<Vec<u8>> = vals.iter().map(|v| encoded(&s.m, v)).collect();
    let all: Vec<u8> = enc.concat();
    let stream: Vec<u8> = [&all[..], tail].concat();
    let show = || format!("{} values of {} in a stream {}", vals.len(), s.m.show(), hex(&stream));
    for (i, p) in portions().into_iter().enumerate() {
        let script = Script { portions: p, fault: None };
        let case = || format!("read {} in portions {:?}", show(), script.portions);
        ctx.case(case);
        ctx.state();
        ctx.trace();
        let key = |what: &str| format!("{what} {} {} {:?}", s.m.show(), hex(&stream), script.portions);
        // reading
        let mut reader = StreamReader::new::<{ usize::MAX }>(Stream::new(&stream, &script));
        let mut typed: Vec<TypedVal> = vec![];
        for (v, e) in vals.iter().zip(&enc) {
            ctx.transition();
            let got = guard(|| match i % 3 {
                0 => types.strict_read_type(s.id, &mut reader),
                1 => s.sys.strict_read_type(s.id, &mut reader),
                _ => match s.sys.lookup(s.id) {
                    Some(fqn) => s.sys.strict_read_type(fqn.clone(), &mut reader),
                    None => s.sys.strict_read_type(s.id, &mut reader),
                },
            });
            match got {
                Ok(Ok(t)) if means(&s.m, t.as_val(), v) => {
                    // equal to what is read from the bytes alone
                    let alone = guard(|| types.strict_deserialize_type(s.id, e));
                    if !matches!(&alone, Ok(Ok(a)) if *a == t) {
                        ctx.fail(key("alone"), format!("{t:?} is read from the stream, {alone:?} from the bytes"), case());
                    }
                    typed.push(t)
                }
                Ok(Ok(t)) => return ctx.fail(key("value"), format!("{t:?} is read instead of {v:?}"), case()),
                Ok(Err(e)) => return ctx.fail(key("refused"), format!("value {v:?} can't be read: {e}"), case()),
                Err(p) => return ctx.fail(key("panic"), format!("reading panicked: {p}"), case()),
            }
        }
        let end = reader.unconfine().pos;
        if end != all.len() {
            ctx.fail(key("position"), format!("{end} bytes are read while the values have {}", all.len()), case());
        }
        // writing
        let mut writer = Stream::new(&[], &script);
        for t in &typed {
            ctx.transition();
            let r = guard(|| types.strict_write_value(t, &mut writer));
            if !matches!(r, Ok(Ok(()))) {
                return ctx.fail(key("write"), format!("{t:?} isn't written: {r:?}"), case());
            }
        }
        if writer.data != all {
            ctx.fail(key("written"), format!("{} is written", hex(&writer.data)), case());
        }
        #[allow(deprecated)]
        {
            let mut writer = Stream::new(&[], &script);
            for t in &typed {
                let r = guard(|| types.strict_write_type(t, &mut writer));
                if !matches!(r, Ok(Ok(()))) {
                    return ctx.fail(key("write-type"), format!("{t:?} isn't written: {r:?}"), case());
                }
            }
            if writer.data != all {
                ctx.fail(key("written-type"), format!("{} is written", hex(&writer.data)), case());
            }
        }
    }
    // a failure after each number of bytes
    for at in points(all.len()) {
        for (j, fault) in faults(at, all.len()).into_iter().enumerate() {
            let p = portions();
            let script = Script { portions: p[(at + j) % p.len()].clone(), fault: Some((at, fault)) };
            let case = || format!("{fault:?} after {at} bytes of {}, portions {:?}", show(), script.portions);
            ctx.case(case);
            ctx.state();
            ctx.trace();
            let key = |what: &str| format!("{what} {} {} at {at} {fault:?}", s.m.show(), hex(&stream));
            let mut reader = StreamReader::new::<{ usize::MAX }>(Stream::new(&stream, &script));
            let mut done = 0;
            for (v, e) in vals.iter().zip(&enc) {
                ctx.transition();
                let got = guard(|| types.strict_read_type(s.id, &mut reader));
                if done + e.len() <= at {
                    match got {
                        Ok(Ok(t)) if means(&s.m, t.as_val(), v) => {}
                        r => return ctx.fail(key("before"), format!("value before the failure: {r:?}"), case()),
                    }
                    done += e.len();
                    continue;
                }
                match got {
                    Ok(Err(Error::Decode(strict_encoding::DecodeError::Io(e)))) => {
                        let want = kind_of(fault, io::ErrorKind::UnexpectedEof);
                        if e.kind() != want {
                            ctx.fail(key("kind"), format!("{want:?} is reported as {e:?}"), case());
                        }
                    }
                    Ok(Err(e)) => ctx.fail(key("error"), format!("the failure of the stream is reported as {e}"), case()),
                    Ok(Ok(t)) => ctx.fail(key("unnoticed"), format!("{t:?} is read from a part of its data"), case()),
                    Err(p) => ctx.fail(key("panic"), format!("reading panicked: {p}"), case()),
                }
                break;
            }
            // writing
            let mut writer = Stream::new(&[], &script);
            let mut done = 0;
            for e in &enc {
                let Ok(Ok(t)) = guard(|| types.strict_deserialize_type(s.id, e)) else { break };
                ctx.transition();
                let got = guard(|| types.strict_write_value(&t, &mut writer));
                if done + e.len() <= at {
                    if !matches!(got, Ok(Ok(()))) {
                        ctx.fail(key("write-before"), format!("value before the failure: {got:?}"), case());
                    }
                    done += e.len();
                    continue;
                }
                match got {
                    Ok(Err(e)) => {
                        let want = kind_of(fault, io::ErrorKind::WriteZero);
                        if e.kind() != want {
                            ctx.fail(key("write-kind"), format!("{want:?} is reported as {e:?}"), case());
                        }
                    }
                    Ok(Ok(())) => ctx.fail(key("write-unnoticed"), "success is reported though writing failed", case()),
                    Err(p) => ctx.fail(key("write-panic"), format!("writing panicked: {p}"), case()),
                }
                break;
            }
            if !all.starts_with(&writer.data) || writer.data.len() != at.min(all.len()) {
                ctx.fail(key("write-data"), format!("{} is written before the failure", hex(&writer.data)), case());
            }
        }
    }
}

/// Serialization with a limit of the length
fn limited(ctx: &mut Ctx, s: &Sys, v: &V) {
    let types = s.sys.as_types();
    let data = encoded(&s.m, v);
    let Ok(Ok(t)) = guard(|| types.strict_deserialize_type(s.id, &data)) else { return };
    macro_rules! limit {
        ($($max:literal)+) => {$({
            let case = || format!("serialize {} of {} into at most {} bytes", hex(&data), s.m.show(), $max);
            ctx.case(case);
            ctx.state();
            ctx.trace();
            let key = |what: &str| format!("{what} {} {} max {}", s.m.show(), hex(&data), $max);
            match guard(|| types.strict_serialize_value::<$max>(&t).map(Confined::release)) {
                Ok(Ok(b)) if b == data && data.len() <= $max => {}
                Ok(Err(_)) if data.len() > $max => {}
                r => ctx.fail(key("limit"), format!("the result is {r:?}"), case()),
            }
            #[allow(deprecated)]
            let r = guard(|| {
                types.strict_serialize_type::<$max>(&t).map(|st| {
                    let w = StrictWriter::in_memory::<{ usize::MAX }>();
                    st.strict_encode(w).map(|w| w.unbox().unconfine())
                })
            });
            match r {
                Ok(Ok(Ok(b))) if b == data && data.len() <= $max => {}
                Ok(Err(_)) if data.len() > $max => {}
                r => ctx.fail(key("limit-type"), format!("the result is {r:?}"), case()),
            }
        })+};
    }
    limit!(0 1 2 3 4 5 6 7 8 12 16 20 64 254 255 256 257 300 1000 65535 65536);
}

pub fn c30(ctx: &mut Ctx) {
    let run = |ctx: &mut Ctx, m: &M, nv: usize| {
        let s = mk_sys(m);
        if !s.m.decodable() {
            return;
        }
        ctx.count("types", 1);
        let vals = values(&s.m, nv);
        for (i, v) in vals.iter().enumerate() {
            limited(ctx, &s, v);
            let next = &vals[(i + 1) % vals.len()];
            for tail in [&[][..], &[0xFF, 0, 1]] {
                sequence(ctx, &s, &[v.clone(), next.clone()], tail);
            }
            if ctx.thorough() {
                let third = &vals[(i * 3 + 2) % vals.len()];
                sequence(ctx, &s, &[v.clone(), next.clone(), third.clone(), v.clone()], &[0]);
            }
        }
    };
    for m in depth2().into_iter().chain(all_prims()) {
        if ctx.mine() {
            run(ctx, &m, ctx.by_tier(5, 12));
        }
    }
    for m in depth3().into_iter().step_by(ctx.by_tier(2, 1)) {
        if ctx.mine() && ctx.time_left() {
            run(ctx, &m, ctx.by_tier(3, 8));
        }
    }
    for m in depth4().into_iter().step_by(ctx.by_tier(29, 2)) {
        if ctx.mine() && ctx.time_left() {
            run(ctx, &m, ctx.by_tier(2, 4));
        }
    }
    for n in ctx.by_tier(vec![3, 16, 17, 64, 255], widths(true)) {
        for (m, vals) in wide_types(n) {
            if !ctx.mine() || !ctx.time_left() {
                continue;
            }
            let s = mk_sys(&m);
            ctx.count("wide_types", 1);
            for w in vals.chunks(2).take(2) {
                sequence(ctx, &s, w, &[7]);
                limited(ctx, &s, &w[0]);
            }
        }
    }
    for (m, vals) in long_types(ctx.thorough()).into_iter().step_by(ctx.by_tier(13, 1)) {
        if ctx.mine() {
            let s = mk_sys(&m);
            long(ctx, &s, &vals[0]);
        }
    }
    // data longer than the portions in which byte strings are read
    for max in [MAX16, MAX24, MAX32] {
        for len in [65534u64, 65535, 65536, 131070, 131071, 131072, 200000] {
            for item in [prim(U8), M::Uni, char_enum()] {
                if !ctx.mine() || len > max {
                    continue;
                }
                let m = list(item.clone(), 0, max);
                let s = mk_sys(&m);
                let one = match item {
                    M::Prim(_) => V::Uint(0x61),
                    M::Uni => V::Char('a'),
                    _ => V::Enum(0x61),
                };
                let v = V::List(vec![one; len as usize]);
                limited(ctx, &s, &v);
                long(ctx, &s, &v);
            }
        }
    }
}

fn long(ctx: &mut Ctx, s: &Sys, v: &V) {
    let types = s.sys.as_types();
    let data = encoded(&s.m, v);
    let n = data.len();
    let stream = [&data[..], &data[..], &[1]].concat();
    let mut scripts = vec![None];
    for at in [0, 1, 2, n / 3, 65535, 65537, 65538, 131072, n - 1, n, n + 1, 2 * n - 1] {
        if at < 2 * n {
            scripts.push(Some((at, FAULTS[at % 4])));
        }
    }
    for fault in scripts {
        for p in [usize::MAX, 4096, 65535, 65536] {
            let script = Script { portions: vec![p], fault };
            let case = || format!("two values of {} of {n} bytes, {fault:?}, portions of {p}", s.m.show());
            ctx.case(case);
            ctx.state();
            ctx.trace();
            let key = |what: &str| format!("{what} {} long {n} {fault:?} {p}", s.m.show());
            let mut reader = StreamReader::new::<{ usize::MAX }>(Stream::new(&stream, &script));
            let mut writer = Stream::new(&[], &script);
            for i in 1..=2 {
                let ok = fault.map(|(at, _)| at >= i * n).unwrap_or(true);
                let got = guard(|| types.strict_read_type(s.id, &mut reader));
                match &got {
                    Ok(Ok(t)) if ok && means(&s.m, t.as_val(), v) => {}
                    Ok(Err(_)) if !ok => {}
                    r => return ctx.fail(key("read"), format!("value {i}: {}", short(&format!("{r:?}"), 200)), case()),
                }
                let Ok(Ok(t)) = guard(|| types.strict_deserialize_type(s.id, &data)) else { return };
                let w = guard(|| types.strict_write_value(&t, &mut writer));
                match w {
                    Ok(Ok(())) if ok => {}
                    Ok(Err(_)) if !ok => {}
                    r => return ctx.fail(key("write"), format!("value {i}: {r:?}"), case()),
                }
                if !ok {
                    break;
                }
            }
            if fault.is_none() {
                let pos = reader.unconfine().pos;
                if pos != 2 * n {
                    ctx.fail(key("position"), format!("{pos} bytes are read instead of {}", 2 * n), case());
                }
            }
            let want = fault.map(|(at, _)| at).unwrap_or(2 * n);
            if writer.data != stream[..want] {
                ctx.fail(key("data"), format!("{} bytes are written", writer.data.len()), case());
            }
        }
    }
}
