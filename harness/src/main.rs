//! Generated-input checks of the kserd properties. See /verif/DESIGN.md.

mod dynty;
mod engine;
mod gen;
mod model;
mod props;
mod refw;

use engine::*;
use serde_json::json;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;

const SLOT: usize = 16;

struct FileProgress {
    slots: std::fs::File,
    id: &'static str,
    found: PathBuf,
}

impl Progress for FileProgress {
    fn start(&self, thread: usize, sub: usize, case: u64) {
        let mut b = [0u8; SLOT];
        b[..8].copy_from_slice(&(sub as u64).to_le_bytes());
        b[8..].copy_from_slice(&case.to_le_bytes());
        let _ = self.slots.write_all_at(&b, (thread * SLOT) as u64);
    }
    fn found(&self, f: &Failure) {
        let _ = std::fs::write(&self.found, failure_json(self.id, f).to_string());
    }
}

fn failure_json(id: &str, f: &Failure) -> serde_json::Value {
    json!({
        "property": id, "sub": f.sub, "seed": env_u64("VERIF_SEED", 1), "case": f.case,
        "choices": f.choices, "kind": f.fail.sig, "detail": clip(&f.fail.detail, 200_000),
        "shrink_execs": f.shrink_execs,
    })
}

fn home() -> PathBuf {
    PathBuf::from(std::env::var("KVERIF_HOME").unwrap_or_else(|_| "/verif".into()))
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

fn scale() -> f64 {
    std::env::var("KVERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}

fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

fn find(id: &str) -> Prop {
    props::all()
        .into_iter()
        .find(|p| p.id == id)
        .unwrap_or_else(|| {
            eprintln!("unknown property {}", id);
            exit(2)
        })
}

fn write_evidence(id: &str, rule: &str, assumptions: &[&str], rep: Option<&Report>, wall: f64, violations: u64, note: &str) {
    let dir = home().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut cov = json!({
        "evaluations": rep.map(|r| r.evaluations).unwrap_or(0),
        "distinct_nontrivial": rep.map(|r| r.distinct_nontrivial).unwrap_or(0),
        "rule": rule,
        "samples": rep.map(|r| r.samples.clone()).unwrap_or_default(),
    });
    if let Some(r) = rep {
        cov["classes"] = json!(r.labels);
        cov["sub_checks"] = json!(r
            .per_sub
            .iter()
            .map(|(n, e, d, t)| json!({"name": n, "cases": e, "distinct_nontrivial": d, "slowest_case_ms": t}))
            .collect::<Vec<_>>());
    }
    if !note.is_empty() {
        cov["note"] = json!(note);
    }
    let v = json!({
        "property": id,
        "tier": if thorough() { "thorough" } else { "quick" },
        "seed": env_u64("VERIF_SEED", 1),
        "level": "exploration",
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violations,
    });
    let path = dir.join(format!("{}.json", id));
    let tmp = dir.join(format!(".{}.json.tmp", id));
    std::fs::write(&tmp, serde_json::to_string_pretty(&v).unwrap() + "\n").expect("write evidence");
    std::fs::rename(&tmp, &path).expect("write evidence");
}

fn write_replay(id: &str, v: serde_json::Value) -> PathBuf {
    let dir = home().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", id));
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n").expect("write replay");
    path
}

/// Known findings listed in the committed file, for one property: (name, description).
fn listed_findings(id: &str) -> Vec<String> {
    let text = std::fs::read_to_string(home().join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter(|l| l.split_whitespace().next() == Some(&format!("property={}", id)))
        .filter_map(|l| l.split_whitespace().nth(1).and_then(|w| w.strip_prefix("input=")).map(String::from))
        .collect()
}

/// Runs the whole check of a property in this process. Returns the exit code.
fn worker(id: &str, progress_path: &Path) -> i32 {
    let prop = find(id);
    let seed = env_u64("VERIF_SEED", 1);
    let t0 = Instant::now();
    limit_memory();
    let prog = FileProgress {
        slots: std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(progress_path).expect("progress file"),
        id: prop.id,
        found: progress_path.with_extension("found"),
    };

    // Probes of specific inputs: listed ones are known findings, unlisted ones are violations.
    let listed = listed_findings(id);
    for (name, probe) in &prop.known {
        let r = guarded(probe).unwrap_or_else(|p| Some(format!("panicked: {}", p)));
        if let Some(what) = r {
            if listed.iter().any(|l| l == name) {
                println!("KNOWN-FINDING: property={} {}: {}", id, name, shown(&what).replace('\n', " "));
            } else {
                let path = write_replay(id, json!({"property": id, "probe": name, "detail": what}));
                write_evidence(id, prop.rule, prop.assumptions, None, t0.elapsed().as_secs_f64(), 1, "failed on a fixed probe input");
                println!("{}", shown(&what));
                println!("VIOLATION property={} replay={}", id, path.display());
                return 1;
            }
        }
    }

    let rep = campaign(&prop, seed, thorough(), scale(), threads(), &prog);
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(id, prop.rule, prop.assumptions, Some(&rep), wall, rep.failure.is_some() as u64, "");
    match &rep.failure {
        None => {
            println!(
                "OK property={} cases={} distinct_nontrivial={} seed={} wall={:.1}s",
                id, rep.evaluations, rep.distinct_nontrivial, seed, wall
            );
            0
        }
        Some(f) => {
            let path = write_replay(id, failure_json(id, f));
            println!("property {} failed in sub-check {} (case {}): {}\n{}", id, f.sub, f.case, f.fail.sig, shown(&f.fail.detail));
            println!("VIOLATION property={} replay={}", id, path.display());
            1
        }
    }
}

fn run_with_limit(mut cmd: Command, limit: Duration) -> Option<std::process::ExitStatus> {
    let mut child = cmd.spawn().expect("spawn worker");
    let t0 = Instant::now();
    let mut nap = 2;
    loop {
        match child.try_wait().expect("wait") {
            Some(s) => return Some(s),
            None if t0.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                return None;
            }
            None => std::thread::sleep(Duration::from_millis(nap)),
        }
        nap = (nap * 2).min(50);
    }
}

fn is_crash(s: &std::process::ExitStatus) -> bool {
    matches!(s.signal(), Some(4 | 6 | 7 | 8 | 11))
}

/// Memory that grows without bound is to end in an abort of the worker, not of the sandbox.
fn limit_memory() {
    #[repr(C)]
    struct RLimit {
        cur: u64,
        max: u64,
    }
    extern "C" {
        fn setrlimit(resource: i32, limit: *const RLimit) -> i32;
    }
    const RLIMIT_AS: i32 = 9;
    let l = RLimit { cur: 20 << 30, max: 20 << 30 };
    unsafe {
        setrlimit(RLIMIT_AS, &l);
    }
}

/// A case that takes this long is looked at on its own. Cases take microseconds to milliseconds.
const STUCK: Duration = Duration::from_secs(60);

/// The parent's side of a run: what it knows of the worker's progress.
struct Watch {
    prop: Prop,
    exe: PathBuf,
    progress: PathBuf,
    t0: Instant,
}

impl Watch {
    fn slots(&self) -> Vec<(u64, u64)> {
        let data = std::fs::read(&self.progress).unwrap_or_default();
        let num = |b: &[u8]| u64::from_le_bytes(b.try_into().unwrap());
        data.chunks_exact(SLOT).map(|c| (num(&c[..8]), num(&c[8..]))).collect()
    }

    /// Runs one case alone: `None` when it does not finish in time.
    fn alone(&self, sub: &str, case: u64) -> Option<std::process::ExitStatus> {
        let mut cmd = Command::new(&self.exe);
        cmd.arg("one").arg(self.prop.id).arg(sub).arg(case.to_string()).stdout(std::process::Stdio::null());
        run_with_limit(cmd, STUCK)
    }

    fn violation(&self, sub: &str, case: u64, kind: &str) -> i32 {
        let v = json!({"property": self.prop.id, "sub": sub, "seed": env_u64("VERIF_SEED", 1), "case": case, "kind": kind});
        self.report(v, &format!("the process under test did not survive: {}", kind))
    }

    fn report(&self, v: serde_json::Value, note: &str) -> i32 {
        let p = &self.prop;
        println!("property {} failed in sub-check {} (case {}): {}", p.id, v["sub"], v["case"], v["kind"]);
        if let Some(d) = v["detail"].as_str() {
            println!("{}", shown(d));
        }
        let path = write_replay(p.id, v);
        write_evidence(p.id, p.rule, p.assumptions, None, self.t0.elapsed().as_secs_f64(), 1, note);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        1
    }

    /// A failure the worker found but did not live to shrink.
    fn unshrunk(&self) -> Option<i32> {
        let text = std::fs::read_to_string(self.progress.with_extension("found")).ok()?;
        let v = serde_json::from_str(&text).ok()?;
        Some(self.report(v, "found, but shrinking it did not end"))
    }

    /// What the worker was doing when it died; `None` when no single case explains it.
    fn crashed(&self) -> Option<i32> {
        for (sub, case) in self.slots() {
            let Some(sc) = self.prop.subs.get(sub as usize) else { continue };
            if let Some(s) = self.alone(sc.name, case) {
                if is_crash(&s) {
                    return Some(self.violation(sc.name, case, &format!("process crash, signal {:?}", s.signal())));
                }
            }
        }
        self.unshrunk()
    }

    /// Waits for the worker, looking for cases that do not finish.
    fn wait(&self, mut child: std::process::Child, limit: Duration) -> i32 {
        let mut since: Vec<((u64, u64), Instant)> = Vec::new();
        let mut nap = 2;
        let mut looked = Instant::now();
        let end = |child: &mut std::process::Child| {
            let _ = child.kill();
            let _ = child.wait();
        };
        loop {
            if let Some(s) = child.try_wait().expect("wait") {
                if let Some(c @ (0 | 1)) = s.code() {
                    return c;
                }
                let found = if is_crash(&s) { self.crashed() } else { self.unshrunk() };
                return found.unwrap_or_else(|| {
                    eprintln!("worker ended with {:?}, which no single case explains; no verdict", s);
                    2
                });
            }
            if self.t0.elapsed() > limit {
                end(&mut child);
                return self.unshrunk().unwrap_or_else(|| {
                    eprintln!("time limit reached; no verdict");
                    2
                });
            }
            if looked.elapsed() > Duration::from_secs(1) {
                looked = Instant::now();
                let slots = self.slots();
                since.resize(slots.len(), ((u64::MAX, u64::MAX), looked));
                for (slot, old) in slots.iter().zip(since.iter_mut()) {
                    if *slot != old.0 {
                        *old = (*slot, looked);
                    }
                }
                let stuck = since.iter_mut().find(|x| x.0 .0 != u64::MAX && x.1.elapsed() > STUCK);
                if let Some(((sub, case), t)) = stuck {
                    if let Some(sc) = self.prop.subs.get(*sub as usize) {
                        let (name, at, case) = (sc.name, (*sub, *case), *case);
                        match self.alone(name, case) {
                            // it may have ended meanwhile after all
                            None if self.slots().contains(&at) && child.try_wait().expect("wait").is_none() => {
                                end(&mut child);
                                return self.violation(name, case, "the case does not finish");
                            }
                            _ => *t = Instant::now(),
                        }
                    }
                }
                // shrinking: every thread is done and a failure is on file
                let idle = since.iter().all(|x| x.0 .0 == u64::MAX && x.1.elapsed() > 2 * STUCK);
                if idle && !since.is_empty() && self.progress.with_extension("found").exists() {
                    end(&mut child);
                    if let Some(c) = self.unshrunk() {
                        return c;
                    }
                    return 2;
                }
            }
            std::thread::sleep(Duration::from_millis(nap));
            nap = (nap * 2).min(50);
        }
    }
}

/// Parent: runs the worker in a child process, so that a crash of the code under test (stack
/// overflow, abort) or a case that does not finish is attributed to the case that was running.
fn check(id: &str) -> i32 {
    let work = home().join("work").join(format!("{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&work).expect("work dir");
    let progress = work.join("progress");
    let exe = std::env::current_exe().expect("exe");
    let limit = Duration::from_secs(env_u64("KVERIF_LIMIT_S", if thorough() { 6 * 3600 } else { 780 }));
    let child = Command::new(&exe).arg("worker").arg(id).arg(&progress).spawn().expect("spawn worker");
    let watch = Watch { prop: find(id), exe, progress, t0: Instant::now() };
    let code = watch.wait(child, limit);
    let _ = std::fs::remove_file(&watch.progress);
    let _ = std::fs::remove_file(watch.progress.with_extension("found"));
    let _ = std::fs::remove_dir(&work);
    code
}

fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}

/// Runs a recorded failure again, without the random generator or the shrinker.
fn replay(path: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("read replay")).expect("json");
    let prop = find(v["property"].as_str().expect("property"));
    if let Some(name) = v["probe"].as_str() {
        let (_, f) = prop.known.iter().find(|(n, _)| *n == name).expect("probe");
        return match guarded(f).unwrap_or_else(Some) {
            Some(w) => {
                println!("{}\nVIOLATION property={} replay={}", w, prop.id, path);
                1
            }
            None => 0,
        };
    }
    let sub = prop.subs.iter().find(|s| Some(s.name) == v["sub"].as_str()).expect("sub");
    let f = sub.f;
    let mut src = match v["choices"].as_array() {
        Some(c) => Src::replay(c.iter().map(|x| x.as_u64().unwrap()).collect()),
        None => Src::random(case_seed(v["seed"].as_u64().unwrap(), prop.id, sub.name, v["case"].as_u64().unwrap())),
    };
    match on_big_stack(move || run_one(f, &mut src, &mut Ctx::default())) {
        Ok(()) => {
            println!("replay passes");
            0
        }
        Err(e) => {
            println!("{}\n{}\nVIOLATION property={} replay={}", e.sig, shown(&e.detail), prop.id, path);
            1
        }
    }
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", id] => check(id),
        ["worker", id, p] => worker(id, Path::new(p)),
        ["one", id, sub, case] => {
            limit_memory();
            let prop = find(id);
            let s = prop.subs.iter().find(|s| s.name == *sub).expect("sub");
            let f = s.f;
            let mut src = Src::random(case_seed(env_u64("VERIF_SEED", 1), prop.id, s.name, case.parse().unwrap()));
            match on_big_stack(move || run_one(f, &mut src, &mut Ctx::default())) {
                Ok(()) => 0,
                Err(e) => {
                    println!("{}\n{}", e.sig, shown(&e.detail));
                    1
                }
            }
        }
        ["deep", n] => {
            let _ = kserd::parse::parse(&"(".repeat(n.parse().unwrap()));
            0
        }
        ["replay", path] => replay(path),
        ["list"] => {
            for p in props::all() {
                println!("{} {}", p.id, p.subs.iter().map(|s| format!("{}({})", s.name, s.quick)).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: kverif check ID | replay FILE | list");
            2
        }
    };
    exit(code)
}
