//! Exploration driver: counting, sharding, crash isolation, violation and evidence reporting.
//!
//! A check is a deterministic function `fn(&mut Ctx)` which enumerates cases. Every case is announced with
//! `ctx.case(..)`, which assigns it the next number. The exploration runs in worker processes (one per shard);
//! the current case number lives in a shared memory page, so that when a worker dies (abort, stack overflow,
//! memory limit) or stops making progress, the parent knows the case and confirms it by running it again.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

pub type Check = fn(&mut Ctx);

pub struct Prop {
    pub id: &'static str,
    pub check: Check,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub msg: String,
    pub case: String,
    pub number: u64,
    pub shard: u64,
}

pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub shard: u64,
    pub nshards: u64,
    number: u64,
    target: Option<u64>,
    desc: String,
    page: *mut AtomicU64,
    states: u64,
    transitions: u64,
    traces: u64,
    counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    next_sample: u64,
    violations: Vec<Violation>,
    keys: BTreeSet<String>,
    work: u64,
    trace_out: Option<String>,
    started: Instant,
    budget: Duration,
    cut: bool,
}

const MAX_VIOLATIONS: usize = 200;

impl Ctx {
    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }

    /// A bound which depends on the tier
    pub fn by_tier<T>(&self, quick: T, thorough: T) -> T { if self.thorough() { thorough } else { quick } }

    /// Deterministic sharding over top-level work items: true if this worker has to process the next item
    pub fn mine(&mut self) -> bool {
        let m = self.work % self.nshards == self.shard;
        self.work += 1;
        m
    }

    /// Runs a work item of this worker as a whole, without sharding inside of it
    pub fn alone<R>(&mut self, f: impl FnOnce(&mut Ctx) -> R) -> R {
        let (shard, nshards, work) = (self.shard, self.nshards, self.work);
        (self.shard, self.nshards) = (0, 1);
        let res = f(self);
        (self.shard, self.nshards, self.work) = (shard, nshards, work);
        res
    }

    /// Parts which are not sharded are run by the first worker only
    pub fn first(&self) -> bool { self.shard == 0 }

    /// Thorough runs extend their bounds in rounds until the time budget is over
    pub fn time_left(&mut self) -> bool {
        let left = self.started.elapsed() < self.budget;
        if !left {
            self.cut = true;
        }
        left
    }

    pub fn is_cut(&self) -> bool { self.cut }

    /// Announces an execution of the code under test.
    pub fn case(&mut self, desc: impl FnOnce() -> String) {
        self.number += 1;
        unsafe { (*self.page).store(self.number, Ordering::Relaxed) };
        let want_sample = self.number == self.next_sample;
        if want_sample || self.target == Some(self.number) {
            let d = desc();
            if want_sample && self.samples.len() < 12 {
                self.samples.push(json!({"case": self.number, "shard": self.shard, "execution": d}));
                self.next_sample = self.next_sample * 5 + 1;
            }
            if self.target == Some(self.number) {
                if let Some(path) = &self.trace_out {
                    std::fs::write(path, &d).ok();
                }
            }
        }
    }

    pub fn number(&self) -> u64 { self.number }

    pub fn state(&mut self) { self.states += 1; }
    pub fn states(&mut self, n: u64) { self.states += n; }
    pub fn transition(&mut self) { self.transitions += 1; }
    pub fn transitions(&mut self, n: u64) { self.transitions += n; }
    /// A model execution was replayed on the implementation and compared
    pub fn trace(&mut self) { self.traces += 1; }
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    pub fn desc(&mut self, d: impl ToString) { self.desc = d.to_string(); }

    /// Reports a violation. The key identifies the failing input, call site or history.
    pub fn fail(&mut self, key: impl ToString, msg: impl ToString, case: impl ToString) {
        let key = key.to_string().replace('\n', " ");
        self.count("violating_executions", 1);
        if self.violations.len() >= MAX_VIOLATIONS || !self.keys.insert(key.clone()) {
            return;
        }
        self.violations.push(Violation {
            key,
            msg: msg.to_string(),
            case: case.to_string(),
            number: self.number,
            shard: self.shard,
        });
    }

    pub fn many_violations(&self) -> bool { self.violations.len() >= MAX_VIOLATIONS }

    pub fn check_eq<T: PartialEq + Debug>(
        &mut self,
        got: &T,
        expected: &T,
        key: impl FnOnce() -> String,
        what: &str,
        case: impl FnOnce() -> String,
    ) -> bool {
        if got != expected {
            let msg = format!("{what}: got {got:?}, expected {expected:?}");
            self.fail(key(), msg, case());
            return false;
        }
        true
    }
}

/// Runs the code under test, turning panics into `Err(message)`
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let msg = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                s!("unknown panic")
            };
            Err(short(&msg, 300))
        }
    }
}

pub fn short(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{t}...")
    }
}

pub fn hex(b: &[u8]) -> String {
    if b.len() > 80 {
        return format!("{}..[{} bytes]", hex(&b[..64]), b.len());
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}

// ---------------------------------------------------------------------------------------------------------------

fn map_page(path: &str) -> *mut AtomicU64 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len(4096).unwrap();
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut AtomicU64
}

fn root() -> String { std::env::var("VERIF_ROOT").unwrap_or_else(|_| s!("/verif")) }

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn budget(tier: Tier) -> Duration {
    let d = match tier {
        Tier::Quick => 120,
        Tier::Thorough => 3600,
    };
    Duration::from_secs(std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(d))
}

fn worker(prop: &Prop, shard: u64, nshards: u64, scratch: &str, target: Option<u64>) {
    // memory cap: a runaway allocation must fail in this process only
    let cap: u64 = 6 << 30;
    let lim = libc::rlimit { rlim_cur: cap, rlim_max: cap };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
    let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &nocore) };
    std::panic::set_hook(Box::new(|_| {}));
    let page = map_page(&format!("{scratch}/page.{shard}"));
    let tier = tier();
    let mut ctx = Ctx {
        prop: prop.id,
        tier,
        shard,
        nshards,
        number: 0,
        target,
        desc: s!(""),
        page,
        states: 0,
        transitions: 0,
        traces: 0,
        counters: BTreeMap::new(),
        samples: vec![],
        next_sample: 1,
        violations: vec![],
        keys: BTreeSet::new(),
        work: 0,
        trace_out: target.map(|_| format!("{scratch}/trace.{shard}")),
        started: Instant::now(),
        budget: budget(tier),
        cut: false,
    };
    let check = prop.check;
    // run on a thread with a generous but fixed stack
    let ctx_ptr = &mut ctx as *mut Ctx as usize;
    let res = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let ctx = unsafe { &mut *(ctx_ptr as *mut Ctx) };
            catch_unwind(AssertUnwindSafe(|| check(ctx))).map_err(|e| {
                e.downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default()
            })
        })
        .unwrap()
        .join();
    let harness_error = match res {
        Ok(Ok(())) => None,
        Ok(Err(m)) => Some(m),
        Err(_) => Some(s!("worker thread died")),
    };
    let out = json!({
        "executions": ctx.number,
        "states": ctx.states,
        "transitions": ctx.transitions,
        "traces": ctx.traces,
        "counters": ctx.counters,
        "samples": ctx.samples,
        "cut": ctx.cut,
        "desc": ctx.desc,
        "harness_error": harness_error,
        "violations": ctx.violations.iter().map(|v| json!({
            "key": v.key, "msg": v.msg, "case": v.case, "number": v.number, "shard": v.shard
        })).collect::<Vec<_>>(),
    });
    std::fs::write(format!("{scratch}/out.{shard}.tmp"), serde_json::to_vec(&out).unwrap()).unwrap();
    std::fs::rename(format!("{scratch}/out.{shard}.tmp"), format!("{scratch}/out.{shard}")).unwrap();
}

enum End {
    Done(Value),
    Crash { number: u64, how: String },
}

fn spawn(prop: &Prop, shard: u64, nshards: u64, scratch: &str, target: Option<u64>) -> std::process::Child {
    let exe = std::env::current_exe().unwrap();
    let mut cmd = std::process::Command::new(exe);
    cmd.arg("--worker").arg(prop.id).arg(shard.to_string()).arg(nshards.to_string()).arg(scratch);
    if let Some(t) = target {
        cmd.arg(t.to_string());
    }
    cmd.stdout(std::process::Stdio::null());
    cmd.stderr(if std::env::var_os("MC_STDERR").is_some() {
        std::process::Stdio::inherit()
    } else {
        std::process::Stdio::null()
    });
    cmd.spawn().unwrap()
}

fn cpu_ticks(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    // utime, stime are fields 14 and 15 counted from 1; `rest` starts at field 3
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}

/// Waits for workers, watching their progress
fn supervise(mut running: Vec<(u64, std::process::Child)>, scratch: &str, stall_cpu_s: u64) -> BTreeMap<u64, End> {
    let mut ends = BTreeMap::new();
    let mut last: BTreeMap<u64, (u64, u64)> = BTreeMap::new();
    while !running.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < running.len() {
            let (shard, child) = &mut running[i];
            let shard = *shard;
            let page = map_page(&format!("{scratch}/page.{shard}"));
            let number = unsafe { (*page).load(Ordering::Relaxed) };
            unsafe { libc::munmap(page as *mut _, 4096) };
            match child.try_wait().unwrap() {
                Some(status) => {
                    let out = std::fs::read(format!("{scratch}/out.{shard}"))
                        .ok()
                        .and_then(|b| serde_json::from_slice::<Value>(&b).ok());
                    let end = match out {
                        Some(v) if status.success() => End::Done(v),
                        _ => End::Crash { number, how: format!("process died: {status}") },
                    };
                    ends.insert(shard, end);
                    running.remove(i);
                    continue;
                }
                None => {
                    // CPU time is used and not wall time: the machine may be loaded
                    let cpu = cpu_ticks(child.id());
                    let e = last.entry(shard).or_insert((number, cpu));
                    if e.0 != number {
                        *e = (number, cpu);
                    } else if cpu.saturating_sub(e.1) > stall_cpu_s * 100 {
                        child.kill().ok();
                        child.wait().ok();
                        ends.insert(shard, End::Crash {
                            number,
                            how: format!("no result after {stall_cpu_s} s of CPU time"),
                        });
                        running.remove(i);
                        continue;
                    }
                }
            }
            i += 1;
        }
    }
    ends
}

struct KnownFinding {
    key: String,
    what: String,
}

fn known_findings(prop: &str) -> Vec<KnownFinding> {
    // lines: `known: property=C05 key=<key> :: <what fails>`; `fixed:` lines suppress nothing
    let text = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    let mut res = vec![];
    for line in text.lines() {
        let Some(rest) = line.strip_prefix("known: ") else { continue };
        let Some(rest) = rest.strip_prefix(&format!("property={prop} key=")) else { continue };
        let (key, what) = rest.split_once(" :: ").unwrap_or((rest, ""));
        res.push(KnownFinding { key: key.trim().to_string(), what: what.to_string() });
    }
    res
}

fn parent(prop: &Prop) -> i32 {
    let t0 = Instant::now();
    let tier = tier();
    let scratch = format!("{}/target/scratch/{}.{}", root(), prop.id, std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    let nshards: u64 = std::env::var("VERIF_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let running = (0..nshards).map(|s| (s, spawn(prop, s, nshards, &scratch, None))).collect::<Vec<_>>();
    let stall = match tier { Tier::Quick => 20, Tier::Thorough => 60 };
    let ends = supervise(running, &scratch, stall);

    let mut violations: Vec<Violation> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut sums = BTreeMap::<&str, u64>::new();
    let mut counters = BTreeMap::<String, u64>::new();
    let mut samples: Vec<Value> = vec![];
    let mut cut = false;
    for (shard, end) in ends {
        match end {
            End::Done(v) => {
                for k in ["executions", "states", "transitions", "traces"] {
                    *sums.entry(k).or_default() += v[k].as_u64().unwrap();
                }
                for (k, n) in v["counters"].as_object().unwrap() {
                    *counters.entry(k.clone()).or_default() += n.as_u64().unwrap();
                }
                cut |= v["cut"].as_bool().unwrap();
                samples.extend(v["samples"].as_array().unwrap().iter().take(if shard == 0 { 6 } else { 2 }).cloned());
                if let Some(e) = v["harness_error"].as_str() {
                    errors.push(format!("shard {shard}: {e}"));
                }
                for x in v["violations"].as_array().unwrap() {
                    violations.push(Violation {
                        key: x["key"].as_str().unwrap().into(),
                        msg: x["msg"].as_str().unwrap().into(),
                        case: x["case"].as_str().unwrap().into(),
                        number: x["number"].as_u64().unwrap(),
                        shard,
                    });
                }
            }
            End::Crash { number, how } => {
                if number == 0 {
                    errors.push(format!("shard {shard} ended before its first case: {how}"));
                    continue;
                }
                // confirm: the same case has to fail again in a fresh process, running alone
                std::fs::remove_file(format!("{scratch}/out.{shard}")).ok();
                let child = spawn(prop, shard, nshards, &scratch, Some(number));
                let mut again = supervise(vec![(shard, child)], &scratch, stall);
                match again.remove(&shard) {
                    Some(End::Crash { number: n2, how: how2 }) if n2 == number => {
                        let desc = std::fs::read_to_string(format!("{scratch}/trace.{shard}")).unwrap_or_default();
                        violations.push(Violation {
                            key: format!("crash:{}", short(&desc, 200)),
                            msg: format!("execution did not survive ({how2}; reproduced in a fresh process)"),
                            case: desc,
                            number,
                            shard,
                        });
                    }
                    _ => errors.push(format!("shard {shard} case {number}: {how}; not reproducible")),
                }
            }
        }
    }
    std::fs::remove_dir_all(&scratch).ok();

    // classify
    let known = known_findings(prop.id);
    let mut seen_known = BTreeMap::<usize, String>::new();
    let mut new: Vec<Violation> = vec![];
    let mut keys = BTreeSet::new();
    for v in violations {
        if let Some(i) = known.iter().position(|k| k.key == v.key) {
            seen_known.entry(i).or_insert_with(|| v.case.clone());
        } else if keys.insert(v.key.clone()) {
            new.push(v);
        }
    }
    for (i, _) in &seen_known {
        println!("KNOWN-FINDING: property={} {}: {}", prop.id, known[*i].key, known[*i].what);
    }
    let replay_dir = format!("{}/evidence/replay", root());
    std::fs::create_dir_all(&replay_dir).ok();
    for e in std::fs::read_dir(&replay_dir).into_iter().flatten().flatten() {
        if e.file_name().to_string_lossy().starts_with(&format!("{}-", prop.id)) {
            std::fs::remove_file(e.path()).ok();
        }
    }
    new.sort_by_key(|v| (v.case.len(), v.key.clone()));
    for (i, v) in new.iter().enumerate() {
        if i >= 25 {
            println!("... and {} more", new.len() - i);
            break;
        }
        let path = format!("{replay_dir}/{}-{}.json", prop.id, i);
        std::fs::write(
            &path,
            serde_json::to_string_pretty(&json!({
                "property": prop.id, "key": v.key, "what": v.msg, "case": v.case,
                "shard": v.shard, "nshards": nshards, "number": v.number,
                "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
                "how_to_replay": "./run.sh <property> --replay <this file>: the exploration is deterministic; runs the shard and prints this execution"
            }))
            .unwrap(),
        )
        .ok();
        println!("VIOLATION property={} replay={}", prop.id, path);
        println!("  key:  {}", short(&v.key, 300));
        println!("  what: {}", short(&v.msg, 600));
        println!("  case: {}", short(&v.case, 600));
    }

    let g = |k: &str| sums.get(k).copied().unwrap_or(0);
    let mut coverage = json!({
        "states": g("states"),
        "transitions": g("transitions"),
        "traces_validated_against_impl": g("traces"),
        "executions": g("executions"),
        "exhaustive": !cut && errors.is_empty(),
        "bound_cut_by_time": cut,
        "rule": prop.rule,
        "samples": samples.iter().take(20).cloned().collect::<Vec<_>>(),
    });
    for (k, n) in &counters {
        coverage[k] = json!(n);
    }
    coverage["known_findings_seen"] =
        json!(seen_known.iter().map(|(i, c)| json!({"key": known[*i].key, "case": short(c, 400)})).collect::<Vec<_>>());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0);
    let evidence = json!({
        "property": prop.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": prop.assumptions,
        "violations": new.len(),
        "wall_s": t0.elapsed().as_secs_f64(),
    });
    let ev = format!("{}/evidence/{}.json", root(), prop.id);
    std::fs::create_dir_all(format!("{}/evidence", root())).ok();
    std::fs::write(&ev, serde_json::to_string_pretty(&evidence).unwrap()).unwrap();
    println!(
        "{}: {} executions, {} states, {} transitions, {} traces compared, {} violation(s), {} known finding(s), {:.1} s",
        prop.id, g("executions"), g("states"), g("transitions"), g("traces"), new.len(), seen_known.len(),
        t0.elapsed().as_secs_f64()
    );
    for e in &errors {
        println!("ERROR: {e}");
    }
    if !new.is_empty() {
        1
    } else if !errors.is_empty() {
        2
    } else if g("executions") == 0 {
        println!("ERROR: nothing was explored");
        2
    } else {
        0
    }
}

fn replay(prop: &Prop, file: &str) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
    let scratch = format!("{}/target/scratch/replay.{}", root(), std::process::id());
    std::fs::create_dir_all(&scratch).unwrap();
    std::env::set_var("VERIF_TIER", v["tier"].as_str().unwrap());
    let (shard, n) = (v["shard"].as_u64().unwrap(), v["nshards"].as_u64().unwrap());
    let child = spawn(prop, shard, n, &scratch, Some(v["number"].as_u64().unwrap()));
    let end = supervise(vec![(shard, child)], &scratch, 60).remove(&shard);
    let desc = std::fs::read_to_string(format!("{scratch}/trace.{shard}")).unwrap_or_default();
    println!("execution: {desc}");
    let hit = match end {
        Some(End::Done(out)) => out["violations"].as_array().unwrap().iter().any(|x| {
            let h = x["key"] == v["key"];
            if h {
                println!("reproduced: {}", x["msg"].as_str().unwrap());
            }
            h
        }),
        Some(End::Crash { how, .. }) => {
            println!("reproduced: {how}");
            true
        }
        None => false,
    };
    std::fs::remove_dir_all(&scratch).ok();
    if hit { 1 } else { println!("not reproduced"); 0 }
}

pub fn main(props: &[Prop]) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| props.iter().find(|p| p.id == id);
    match args.get(1).map(|s| s.as_str()) {
        Some("--worker") => {
            let p = find(&args[2]).expect("unknown property");
            worker(p, args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5], args.get(6).map(|s| s.parse().unwrap()));
            0
        }
        Some("--list") => {
            for p in props {
                println!("{}", p.id);
            }
            0
        }
        Some(id) => match find(id) {
            Some(p) => match args.get(2).map(|s| s.as_str()) {
                Some("--replay") => replay(p, &args[3]),
                _ => parent(p),
            },
            None => {
                println!("unknown property {id}");
                2
            }
        },
        None => {
            println!("usage: mc <property> [--replay file]");
            2
        }
    }
}
