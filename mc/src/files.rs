//! C27: library files

use std::ffi::OsString;
use std::fs;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use armor::AsciiArmor;
use strict_types::{parse_args, StlFormat, SymbolicLib, TypeLib};

use crate::core::*;
use crate::libs::*;
use crate::model::*;
use crate::sysb::*;

const VERSIONS: [&str; 3] = ["0.1.0", "10.2.33-beta.2+linux.7", ""];
const HEADERS: [Option<&str>; 4] = [None, Some(" \n\n  Note: blank lines around  \n \n"), Some("\n  Description: some text"), Some("\n  Author: A <b@c>\n  Note: @{-}")];
const FORMATS: [StlFormat; 3] = [StlFormat::Binary, StlFormat::Armored, StlFormat::Source];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Lib(StlFormat),
    Symbolic,
}

const KINDS: [Kind; 4] =
    [Kind::Lib(StlFormat::Binary), Kind::Lib(StlFormat::Armored), Kind::Lib(StlFormat::Source), Kind::Symbolic];

impl Kind {
    fn ext(self) -> &'static str {
        match self {
            Kind::Lib(StlFormat::Binary) => "stl",
            Kind::Lib(StlFormat::Armored) => "sta",
            Kind::Lib(StlFormat::Source) | Kind::Symbolic => "sty",
        }
    }
}

struct Item {
    lib: TypeLib,
    symbolic: SymbolicLib,
}

impl Item {
    fn new(lib: TypeLib) -> Item { Item { symbolic: lib.to_symbolic().expect("symbolic library"), lib } }

    fn write(&self, kind: Kind, dir: Option<&Path>, ver: &'static str, header: Option<&'static str>) -> std::io::Result<()> {
        match kind {
            Kind::Lib(f) => self.lib.serialize(f, dir, ver, header),
            Kind::Symbolic => self.symbolic.serialize(dir, ver, header),
        }
    }

    /// What is wrong with the content
    fn judge(&self, kind: Kind, content: &[u8], ver: &str, header: Option<&str>) -> Option<String> {
        let text = || String::from_utf8(content.to_vec()).map_err(|e| format!("content isn't a text: {e}"));
        let r = || -> Result<(), String> {
            match kind {
                Kind::Lib(StlFormat::Binary) => {
                    let l = from_bytes::<TypeLib>(content).map_err(|e| format!("can't be loaded: {e}"))?;
                    if l != self.lib || bytes(&l) != content || format!("{l:?}") != format!("{:?}", self.lib) {
                        return Err(s!("a different library is loaded"));
                    }
                }
                Kind::Lib(StlFormat::Armored) => {
                    let t = text()?;
                    let l = TypeLib::from_ascii_armored_str(t.trim_end()).map_err(|e| format!("can't be loaded: {e}"))?;
                    if l != self.lib || format!("{l:?}") != format!("{:?}", self.lib) {
                        return Err(s!("a different library is loaded"));
                    }
                    if !t.starts_with("-----BEGIN") || !t.trim_end().ends_with("-----") {
                        return Err(s!("something besides of the armor is in the file"));
                    }
                }
                Kind::Lib(StlFormat::Source) | Kind::Symbolic => {
                    let t = text()?;
                    let body = self.symbolic.to_string();
                    let Some(head) = t.trim_end().strip_suffix(body.trim_end()) else {
                        return Err(s!("the text does not end with the source of the library"));
                    };
                    let mut parts =
                        vec![format!("Name: {}", self.lib.name), format!("Version: {ver}{}", header.unwrap_or_default())];
                    if kind != Kind::Symbolic {
                        parts.push(format!("Id: {:+}", self.lib.id()));
                    }
                    for p in parts {
                        if !head.contains(&p) {
                            return Err(format!("no `{p}` in the header `{head}`"));
                        }
                    }
                }
            }
            Ok(())
        };
        r().err()
    }
}

/// A folder of its own, which is removed afterwards
struct Scratch(PathBuf);

impl Scratch {
    fn new(n: u64) -> Scratch {
        let p = std::env::temp_dir().join(format!("verif-files-{}-{n}", std::process::id()));
        fs::create_dir(&p).expect("harness: scratch folder");
        Scratch(p)
    }
    fn list(&self) -> Vec<String> {
        let mut v: Vec<_> =
            fs::read_dir(&self.0).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect();
        v.sort();
        v
    }
}

impl Drop for Scratch {
    fn drop(&mut self) { fs::remove_dir_all(&self.0).ok(); }
}

fn file_name(name: &str, ver: &str, kind: Kind) -> String { format!("{name}@{ver}.{}", kind.ext()) }

/// Libraries of the same name and of different sizes, and others
fn items(full: bool) -> Vec<Item> {
    let mut v: Vec<TypeLib> = vec![
        mk_lib("Same", &[("Base", prim(U8))]),
        mk_lib("Same", &[("Base", prim(U16))]),
        mk_lib("Same", &[("Base", prim(U8)), ("Other", strct(&[("a", prim(U8)), ("b", list(prim(U16), 0, 0xFFFF))]))]),
        mk_lib("Same", &[("Names", enm(&(0..=254u8).map(|i| (leak(format!("variant{i}")), i)).collect::<Vec<_>>()))]),
    ];
    let big: Vec<(String, M)> = (0..400).map(|i| (format!("Type{i}"), tuple(vec![prim(U8), prim(U32), M::Uni]))).collect();
    v.push(mk_lib("Same", &big.iter().map(|(n, m)| (n.as_str(), m.clone())).collect::<Vec<_>>()));
    v.push(mk_lib("Lonely_Name1", &[("Base", prim(U8))]));
    if full {
        for w in worlds() {
            v.extend(w.libs.iter().map(|l| w.type_lib(l)));
        }
    }
    v.into_iter().map(Item::new).collect()
}

fn leak(s: String) -> &'static str { s.leak() }

/// Limits the size of files written by this process
fn limited<T>(n: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut old: libc::rlimit = std::mem::zeroed();
        assert_eq!(libc::getrlimit(libc::RLIMIT_FSIZE, &mut old), 0);
        let new = libc::rlimit { rlim_cur: n, rlim_max: old.rlim_max };
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &new), 0);
        let r = f();
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &old), 0);
        r
    }
}

/// Runs in a process of its own, which writes to its standard output
pub fn child() -> Option<i32> {
    if std::env::var_os("VERIF_ARGS_PROBE").is_some() {
        let (format, dir) = parse_args();
        println!("{format:?} {dir:?}");
        return Some(0);
    }
    let spec = std::env::var("VERIF_EMIT").ok()?;
    let n: Vec<usize> = spec.split(',').map(|s| s.parse().unwrap()).collect();
    let items = items(true);
    if n.get(4).is_some() {
        // the rest of the output of the process comes before
        print!("text of the caller");
    }
    Some(match items[n[0]].write(KINDS[n[1]], None, VERSIONS[n[2]], HEADERS[n[3]]) {
        Ok(()) => 0,
        Err(_) => 3,
    })
}

fn run_child(spec: &str, out: Stdio, limit: Option<u64>) -> std::process::Output {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.env("VERIF_EMIT", spec).stdout(out).stderr(Stdio::null()).stdin(Stdio::null());
    if let Some(n) = limit {
        unsafe {
            c.pre_exec(move || {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let r = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_FSIZE, &r);
                Ok(())
            });
        }
    }
    c.output().expect("harness: child process")
}

pub fn c27(ctx: &mut Ctx) {
    let all = items(true);
    let shard = ctx.number();
    let mut scratch_no = shard * 1_000_000;
    let mut scratch = || {
        scratch_no += 1;
        Scratch::new(scratch_no)
    };

    // every configuration into an empty folder
    for (i, item) in all.iter().enumerate() {
        for kind in KINDS {
            if !ctx.mine() {
                continue;
            }
            for ver in VERSIONS {
                for header in HEADERS {
                    let show = format!("library #{i} {} as {kind:?}, version `{ver}`, header {header:?}", item.lib.name);
                    ctx.case(|| show.clone());
                    ctx.state();
                    ctx.transition();
                    ctx.trace();
                    let s = scratch();
                    match guard(|| item.write(kind, Some(&s.0), ver, header)) {
                        Ok(Ok(())) => {}
                        r => {
                            ctx.fail(format!("write {show}"), format!("{r:?}"), &show);
                            continue;
                        }
                    }
                    let name = file_name(item.lib.name.as_str(), ver, kind);
                    if s.list() != [name.clone()] {
                        ctx.fail(format!("name {show}"), format!("files {:?}, expected {name}", s.list()), &show);
                        continue;
                    }
                    if let Some(e) = item.judge(kind, &fs::read(s.0.join(&name)).unwrap(), ver, header) {
                        ctx.fail(format!("content {show}"), e, &show);
                    }
                }
            }
        }
    }

    // histories of writes into one folder
    let pool: Vec<(usize, Kind, usize)> = {
        let mut p = vec![];
        for i in 0..6 {
            for k in KINDS {
                for v in 0..ctx.by_tier(1, 2) {
                    p.push((i, k, v));
                }
            }
        }
        p
    };
    let depth = ctx.by_tier(2, 3);
    let mut history: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth {
        history = history.iter().flat_map(|h| (0..pool.len()).map(|n| [&h[..], &[n]].concat())).collect();
    }
    for h in &history {
        // in the middle of a longer history the same kind of library is of interest
        if h.len() > 2 && !h.windows(2).all(|w| pool[w[0]].1.ext() == pool[w[1]].1.ext()) {
            continue;
        }
        if !ctx.mine() {
            continue;
        }
        let show = h.iter().map(|n| format!("{:?}", pool[*n])).collect::<Vec<_>>().join(", ");
        ctx.case(|| format!("writes {show}"));
        ctx.state();
        let s = scratch();
        fs::write(s.0.join("bystander.stl"), b"not touched").unwrap();
        let mut expected: std::collections::BTreeMap<String, (usize, Kind, usize)> = Default::default();
        let mut ok = true;
        for n in h {
            let (i, kind, v) = pool[*n];
            ctx.transition();
            match guard(|| all[i].write(kind, Some(&s.0), VERSIONS[v], None)) {
                Ok(Ok(())) => {}
                r => {
                    ctx.fail(format!("rewrite {show}"), format!("{r:?}"), &show);
                    ok = false;
                    break;
                }
            }
            expected.insert(file_name(all[i].lib.name.as_str(), VERSIONS[v], kind), pool[*n]);
        }
        if !ok {
            continue;
        }
        ctx.trace();
        let mut names: Vec<String> = expected.keys().cloned().collect();
        names.push(s!("bystander.stl"));
        names.sort();
        if s.list() != names || fs::read(s.0.join("bystander.stl")).unwrap() != b"not touched" {
            ctx.fail(format!("rewrite {show}"), format!("files {:?}, expected {names:?}", s.list()), &show);
            continue;
        }
        for (name, (i, kind, v)) in expected {
            if let Some(e) = all[i].judge(kind, &fs::read(s.0.join(&name)).unwrap(), VERSIONS[v], None) {
                ctx.fail(format!("rewrite {show}"), format!("{name}: {e}"), &show);
            }
        }
    }

    // folders and files which can't be written
    for (i, item) in all.iter().take(6).enumerate() {
        for kind in KINDS {
            if !ctx.mine() {
                continue;
            }
            let name = file_name(item.lib.name.as_str(), VERSIONS[0], kind);
            for place in ["missing folder", "file in place of the folder", "folder in place of the file", "full device"] {
                let show = format!("library #{i} as {kind:?} into {place}");
                ctx.case(|| show.clone());
                ctx.state();
                ctx.transition();
                ctx.trace();
                let s = scratch();
                let dir = match place {
                    "missing folder" => s.0.join("missing"),
                    "file in place of the folder" => {
                        fs::write(s.0.join("file"), b"x").unwrap();
                        s.0.join("file")
                    }
                    "folder in place of the file" => {
                        fs::create_dir(s.0.join(&name)).unwrap();
                        s.0.clone()
                    }
                    _ => {
                        std::os::unix::fs::symlink("/dev/full", s.0.join(&name)).unwrap();
                        s.0.clone()
                    }
                };
                let before = s.list();
                match guard(|| item.write(kind, Some(&dir), VERSIONS[0], None)) {
                    Ok(Err(_)) => {}
                    r => ctx.fail(format!("unwritable {show}"), format!("returned {r:?}, expected an error"), &show),
                }
                if s.list() != before {
                    ctx.fail(format!("unwritable {show}"), format!("files {:?}, expected {before:?}", s.list()), &show);
                }
            }
        }
    }

    // the device gets full after each number of bytes
    for (i, item) in all.iter().take(6).enumerate() {
        for kind in KINDS {
            let s = scratch();
            let name = file_name(item.lib.name.as_str(), VERSIONS[0], kind);
            if item.write(kind, Some(&s.0), VERSIONS[0], None).is_err() {
                continue;
            }
            let full = fs::read(s.0.join(&name)).unwrap();
            let len = full.len() as u64;
            let step = (len / ctx.by_tier(400, 20_000)).max(1);
            for room in (0..=len).step_by(step as usize).chain([len - 1, len]) {
                if !ctx.mine() {
                    continue;
                }
                let show = format!("library #{i} as {kind:?} with room for {room} bytes of {len}");
                ctx.case(|| show.clone());
                ctx.state();
                ctx.transition();
                ctx.trace();
                fs::remove_file(s.0.join(&name)).ok();
                let r = guard(|| limited(room, || item.write(kind, Some(&s.0), VERSIONS[0], None)));
                let left = fs::read(s.0.join(&name)).unwrap_or_default();
                match r {
                    Ok(Err(_)) if room < len => {}
                    Ok(Ok(())) if room == len && left == full => {}
                    r => ctx.fail(
                        format!("room {show}"),
                        format!("returned {r:?} with {} bytes written", left.len()),
                        &show,
                    ),
                }
            }
        }
    }

    // standard output
    for (i, item) in all.iter().enumerate().take(ctx.by_tier(8, 100)) {
        for (k, kind) in KINDS.iter().enumerate() {
            if !ctx.mine() {
                continue;
            }
            for (v, h) in [(0usize, 0usize), (1, 1)] {
                let spec = format!("{i},{k},{v},{h}");
                let show = format!("library #{i} as {kind:?} to the standard output ({spec})");
                ctx.case(|| show.clone());
                ctx.state();
                ctx.transitions(2);
                ctx.trace();
                let o = run_child(&spec, Stdio::piped(), None);
                if o.status.code() != Some(0) {
                    ctx.fail(format!("stdout {show}"), format!("ended with {:?}", o.status), &show);
                } else if let Some(e) = item.judge(*kind, &o.stdout, VERSIONS[v], HEADERS[h]) {
                    ctx.fail(format!("stdout {show}"), e, &show);
                }
                let o = run_child(&spec, Stdio::from(fs::OpenOptions::new().write(true).open("/dev/full").unwrap()), None);
                if o.status.code() != Some(3) {
                    ctx.fail(
                        format!("stdout-full {show}"),
                        format!("writing to a full device ended with {:?}, expected an error", o.status),
                        &show,
                    );
                }
            }
        }
    }
    for (i, item) in all.iter().enumerate().take(ctx.by_tier(1, 3)) {
        for (k, kind) in KINDS.iter().enumerate() {
            let s = scratch();
            if item.write(*kind, Some(&s.0), VERSIONS[0], None).is_err() {
                continue;
            }
            let len = fs::metadata(s.0.join(file_name(item.lib.name.as_str(), VERSIONS[0], *kind))).unwrap().len();
            for room in 0..=len {
                if !ctx.mine() {
                    continue;
                }
                let show = format!("library #{i} as {kind:?} to the standard output with room for {room} bytes of {len}");
                ctx.case(|| show.clone());
                ctx.state();
                ctx.transition();
                ctx.trace();
                let out = s.0.join("stdout");
                let o = run_child(&format!("{i},{k},0,0"), Stdio::from(fs::File::create(&out).unwrap()), Some(room));
                let code = if room < len { 3 } else { 0 };
                let left = fs::metadata(&out).unwrap().len();
                if o.status.code() != Some(code) || (code == 0 && left != len) {
                    ctx.fail(format!("stdout-room {show}"), format!("ended with {:?}, {left} bytes written", o.status), &show);
                }
            }
        }
    }

    // names of formats and the arguments of the programs
    if ctx.mine() {
        for f in FORMATS {
            ctx.transition();
            let name = f.to_string();
            if name != Kind::Lib(f).ext() || name.parse::<StlFormat>() != Ok(f) {
                ctx.fail(format!("format {f:?}"), format!("named {name}, which is {:?}", name.parse::<StlFormat>()), &name);
            }
        }
        for bad in ["", "s", "st", "stll", "STL", "Sty", ".stl", "stl ", "toml"] {
            ctx.transition();
            if bad.parse::<StlFormat>().is_ok() {
                ctx.fail(format!("format `{bad}`"), "is accepted", bad);
            }
        }
        let mut cases: Vec<(Vec<&str>, Option<(StlFormat, Option<&str>)>)> = vec![
            (vec![], Some((StlFormat::Source, None))),
            (vec!["--bad"], None),
            (vec![""], None),
            (vec!["--stl", "a", "b"], None),
            (vec!["dir", "--stl"], None),
        ];
        for f in FORMATS {
            for dash in ["--", ""] {
                let a = leak(format!("{dash}{f}"));
                cases.push((vec![a], Some((f, Some("stl")))));
                for d in ["some/dir", "stl", "", "--stl", "."] {
                    cases.push((vec![a, d], Some((f, Some(d)))));
                }
                cases.push((vec![a, "x", "y"], None));
            }
        }
        for (args, expected) in cases {
            ctx.case(|| format!("arguments {args:?}"));
            ctx.state();
            ctx.transition();
            ctx.trace();
            let o = Command::new(std::env::current_exe().unwrap())
                .env("VERIF_ARGS_PROBE", "1")
                .args(args.iter().map(OsString::from))
                .stdin(Stdio::null())
                .output()
                .unwrap();
            let got = o.status.success().then(|| String::from_utf8_lossy(&o.stdout).trim_end().to_string());
            let want = expected.map(|(f, d)| format!("{f:?} {:?}", d.map(|d| d.to_string())));
            if got != want {
                ctx.fail(format!("arguments {args:?}"), format!("understood as {got:?}, expected {want:?}"), format!("{args:?}"));
            }
        }
    }
}
