//! A small property-based testing engine.
//!
//! Every random decision of a case is drawn through [`Src`], which records it. A case is therefore
//! a sequence of choices: failures are shrunk by editing that sequence (deleting blocks, lowering
//! values) and re-running the check, and a shrunk sequence is a complete replay of the failure.
//! All generators are written so that smaller choices mean simpler cases.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Mutex;

// ---------------------------------------------------------------- counting allocator

pub struct CountingAlloc;

thread_local! {
    static ALLOC_BYTES: Cell<u64> = const { Cell::new(0) };
    static ALLOC_COUNT: Cell<u64> = const { Cell::new(0) };
    /// Allocations after which this thread is given up.
    static ALLOC_LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static GIVE_UP: RefCell<Option<Sender<Result<Option<u64>, String>>>> = const { RefCell::new(None) };
}

fn count(bytes: usize) {
    let _ = ALLOC_BYTES.try_with(|c| c.set(c.get() + bytes as u64));
    let over = ALLOC_COUNT
        .try_with(|c| {
            c.set(c.get() + 1);
            c.get() > ALLOC_LIMIT.with(|l| l.get())
        })
        .unwrap_or(false);
    if over {
        give_up();
    }
}

/// Reports that the limit was passed and never returns: the thread sleeps from here on.
#[cold]
fn give_up() {
    ALLOC_LIMIT.with(|l| l.set(u64::MAX));
    GIVE_UP.with(|g| {
        if let Some(tx) = &*g.borrow() {
            let _ = tx.send(Ok(None));
        }
    });
    loop {
        std::thread::sleep(std::time::Duration::from_secs(3600));
    }
}

unsafe impl std::alloc::GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        count(n);
        std::alloc::System.realloc(p, l, n)
    }
}

/// Number of allocations made by this thread so far: a deterministic measure of work.
pub fn alloc_count() -> u64 {
    ALLOC_COUNT.with(|c| c.get())
}

struct Helper {
    jobs: Sender<(fn(&str), String, u64)>,
    results: Receiver<Result<Option<u64>, String>>,
}

thread_local! {
    static HELPER: RefCell<Option<Helper>> = const { RefCell::new(None) };
}

fn helper() -> Helper {
    let (jobs, work) = channel::<(fn(&str), String, u64)>();
    let (tx, results) = channel();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            GIVE_UP.with(|g| *g.borrow_mut() = Some(tx.clone()));
            while let Ok((f, text, limit)) = work.recv() {
                let a = alloc_count();
                ALLOC_LIMIT.with(|l| l.set(a.saturating_add(limit)));
                let r = guarded(|| {
                    f(&text);
                    alloc_count() - a
                });
                ALLOC_LIMIT.with(|l| l.set(u64::MAX));
                let _ = tx.send(r.map(Some));
            }
        })
        .expect("spawn");
    Helper { jobs, results }
}

/// The number of allocations `f` makes on the text, or `None` as soon as they pass the limit. It
/// runs on a thread of its own, which is abandoned where it stands when the limit is passed.
///
/// Only so many threads can be abandoned. After that (that is, well into the shrinking of a
/// failure) everything passes.
pub fn allocations(f: fn(&str), text: &str, limit: u64) -> Option<u64> {
    static ABANDONED: AtomicU64 = AtomicU64::new(0);
    if ABANDONED.load(Ordering::Relaxed) > 150 {
        return Some(0);
    }
    HELPER.with(|h| {
        let mut h = h.borrow_mut();
        let k = h.get_or_insert_with(helper);
        k.jobs.send((f, text.to_string(), limit)).expect("helper");
        match k.results.recv().expect("helper") {
            Ok(Some(n)) => Some(n),
            Ok(None) => {
                *h = None;
                ABANDONED.fetch_add(1, Ordering::Relaxed);
                None
            }
            Err(p) => {
                drop(h);
                panic!("{}", p)
            }
        }
    })
}

// ---------------------------------------------------------------- rng and choice source

#[derive(Clone)]
struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
        ])
    }
    fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub fn hash64(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    let mut x = h;
    splitmix(&mut x)
}

/// The source of all choices of one case.
pub struct Src {
    prefix: Vec<u64>,
    rng: Option<Rng>,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            prefix: Vec::new(),
            rng: Some(Rng::new(seed)),
            rec: Vec::new(),
        }
    }
    /// Replays the choices; past their end every choice is the simplest one.
    pub fn replay(choices: Vec<u64>) -> Self {
        Src {
            prefix: choices,
            rng: None,
            rec: Vec::new(),
        }
    }
    /// A choice in `0..=max`; 0 is the simplest.
    pub fn upto(&mut self, max: u64) -> u64 {
        let i = self.rec.len();
        let v = if i < self.prefix.len() {
            self.prefix[i].min(max)
        } else if let Some(r) = &mut self.rng {
            if max == u64::MAX {
                r.next()
            } else {
                let n = max + 1;
                ((r.next() as u128 * n as u128) >> 64) as u64
            }
        } else {
            0
        };
        self.rec.push(v);
        v
    }
    /// A choice in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        self.upto(n as u64 - 1) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.upto((hi - lo) as u64) as usize
    }
    /// True with probability `num / den`; false is simpler.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.upto(den - 1) >= den - num
    }
    pub fn flag(&mut self) -> bool {
        self.upto(1) == 1
    }
    pub fn pick<'x, T>(&mut self, xs: &'x [T]) -> &'x T {
        &xs[self.below(xs.len())]
    }
    /// An index drawn with the given weights; earlier indices are simpler.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.upto(total - 1);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        unreachable!()
    }
    pub fn u128(&mut self) -> u128 {
        let lo = self.upto(u64::MAX) as u128;
        let hi = self.upto(u64::MAX) as u128;
        (hi << 64) | lo
    }
}

// ---------------------------------------------------------------- checks

#[derive(Debug, Clone)]
pub struct Fail {
    /// A short stable description of what kind of disagreement was seen.
    pub sig: String,
    /// The concrete case and what was observed.
    pub detail: String,
}

pub fn fail<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.into(),
        detail: detail.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($fmt:tt)*) => {
        if !($c) { return Err($crate::engine::Fail { sig: ($sig).to_string(), detail: format!($($fmt)*) }); }
    };
}

/// Makes a variant of a check whose first generated value is a large one, up to the given size.
#[macro_export]
macro_rules! large {
    ($($name:ident = $f:path, $most:expr;)*) => {$(
        fn $name(s: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
            $crate::gen::with_large($most, || $f(s, ctx))
        }
    )*};
}

/// Per-case bookkeeping filled in by a check.
#[derive(Default)]
pub struct Ctx {
    labels: Vec<&'static str>,
    nontrivial: bool,
    fp: u64,
    want_sample: bool,
    sample: Option<String>,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l);
        }
    }
    /// Declares the case non-trivial (by the rule of the property) with this content fingerprint.
    pub fn nontrivial(&mut self, fingerprint: u64) {
        self.nontrivial = true;
        self.fp = fingerprint;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.sample = Some(f());
        }
    }
}

pub type CheckFn = fn(&mut Src, &mut Ctx) -> Result<(), Fail>;

pub struct Sub {
    pub name: &'static str,
    pub f: CheckFn,
    pub quick: u64,
    pub thorough: u64,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    /// Probes for known findings: each returns a description while the finding is still present.
    pub known: Vec<(&'static str, fn() -> Option<String>)>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

/// Runs code under test, turning a panic into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

pub fn run_one(f: CheckFn, src: &mut Src, ctx: &mut Ctx) -> Result<(), Fail> {
    match guarded(|| f(src, ctx)) {
        Ok(r) => r,
        Err(p) => fail("panic", format!("panicked: {}", p)),
    }
}

// ---------------------------------------------------------------- shrinking

/// Shrinks a failing choice sequence. Bounded by a number of executions, not by time.
pub fn shrink(f: CheckFn, start: Vec<u64>, first: Fail, max_execs: usize) -> (Vec<u64>, Fail, usize) {
    let mut best = start;
    let mut best_fail = first;
    let mut execs = 0usize;

    let attempt = |cand: &[u64], best: &mut Vec<u64>, bf: &mut Fail, execs: &mut usize| -> bool {
        if *execs >= max_execs {
            return false;
        }
        *execs += 1;
        let mut s = Src::replay(cand.to_vec());
        let mut c = Ctx::default();
        match run_one(f, &mut s, &mut c) {
            Ok(()) => false,
            Err(e) => {
                let mut rec = s.rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                let smaller = rec.len() < best.len() || (rec.len() == best.len() && rec < *best);
                if smaller {
                    *best = rec;
                    *bf = e;
                }
                smaller
            }
        }
    };

    loop {
        let before = best.clone();
        // delete blocks
        let mut k = 64usize.min(best.len().max(1));
        while k >= 1 {
            let mut i = best.len();
            while i > 0 {
                i -= 1;
                if i + k <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + k);
                    attempt(&c, &mut best, &mut best_fail, &mut execs);
                }
                // also: lower an earlier length-like choice while deleting
                if i + 1 + k <= best.len() && best[i] > 0 {
                    let mut c = best.clone();
                    c[i] -= 1;
                    c.drain(i + 1..i + 1 + k);
                    attempt(&c, &mut best, &mut best_fail, &mut execs);
                }
                i = i.min(best.len());
            }
            k /= 2;
        }
        // zero blocks
        let mut k = 16usize.min(best.len().max(1));
        while k >= 1 {
            let mut i = 0;
            while i + k <= best.len() {
                if best[i..i + k].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..i + k].iter_mut().for_each(|x| *x = 0);
                    attempt(&c, &mut best, &mut best_fail, &mut execs);
                }
                i += k;
            }
            k /= 2;
        }
        // lower single values by bisection
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt(&c, &mut best, &mut best_fail, &mut execs) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || execs >= max_execs {
            return (best, best_fail, execs);
        }
    }
}

// ---------------------------------------------------------------- campaigns

pub struct Report {
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// Name, cases, distinct non-trivial cases, milliseconds of the slowest case.
    pub per_sub: Vec<(String, u64, u64, u64)>,
    pub failure: Option<Failure>,
}

pub struct Failure {
    pub sub: &'static str,
    pub case: u64,
    pub choices: Vec<u64>,
    pub fail: Fail,
    pub shrink_execs: usize,
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, case: u64) -> u64 {
    let s = format!("{}/{}/{}/{}", seed, prop, sub, case);
    hash64(s.as_bytes())
}

pub trait Progress: Sync {
    fn start(&self, thread: usize, sub: usize, case: u64);
    /// A failure was found and is about to be shrunk.
    fn found(&self, _failure: &Failure) {}
}

/// Runs all sub-checks of a property. The outcome is a pure function of seed and case counts,
/// whatever the number of threads: the failure with the lowest case index is the one reported.
pub fn campaign(
    prop: &Prop,
    seed: u64,
    thorough: bool,
    scale: f64,
    threads: usize,
    progress: &dyn Progress,
) -> Report {
    let mut rep = Report {
        evaluations: 0,
        distinct_nontrivial: 0,
        labels: BTreeMap::new(),
        samples: Vec::new(),
        per_sub: Vec::new(),
        failure: None,
    };
    let mut distinct: HashSet<u64> = HashSet::new();

    // for work on one sub-check only
    let only = std::env::var("KVERIF_SUB").ok();
    for (si, sub) in prop.subs.iter().enumerate() {
        if only.as_ref().is_some_and(|o| !sub.name.starts_with(o.as_str())) {
            continue;
        }
        let n = ((if thorough { sub.thorough } else { sub.quick }) as f64 * scale).ceil() as u64;
        let n = n.max(1);
        let next = AtomicU64::new(0);
        let slowest = AtomicU64::new(0);
        let lowest_fail = AtomicU64::new(u64::MAX);
        let fails: Mutex<Vec<(u64, Vec<u64>, Fail)>> = Mutex::new(Vec::new());
        let merged: Mutex<(u64, HashSet<u64>, BTreeMap<&'static str, u64>, Vec<(u64, String)>)> =
            Mutex::new((0, HashSet::new(), BTreeMap::new(), Vec::new()));

        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, lowest_fail, fails, merged, slowest) = (&next, &lowest_fail, &fails, &merged, &slowest);
                let id = prop.id;
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        let mut evals = 0u64;
                        let mut seen: HashSet<u64> = HashSet::new();
                        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                        let mut samples = Vec::new();
                        const CHUNK: u64 = 32;
                        'outer: loop {
                            let lo = next.fetch_add(CHUNK, Ordering::Relaxed);
                            if lo >= n || lo > lowest_fail.load(Ordering::Relaxed) {
                                break;
                            }
                            for case in lo..(lo + CHUNK).min(n) {
                                progress.start(t, si, case);
                                let mut src = Src::random(case_seed(seed, id, sub.name, case));
                                let mut ctx = Ctx {
                                    want_sample: case % (n / 3).max(1) == 0 || case == 7,
                                    ..Default::default()
                                };
                                let t0 = std::time::Instant::now();
                                let r = run_one(sub.f, &mut src, &mut ctx);
                                slowest.fetch_max(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                                evals += 1;
                                for l in &ctx.labels {
                                    *labels.entry(l).or_insert(0) += 1;
                                }
                                if ctx.nontrivial {
                                    seen.insert(ctx.fp);
                                }
                                if let Some(s) = ctx.sample {
                                    samples.push((case, s));
                                }
                                if let Err(e) = r {
                                    lowest_fail.fetch_min(case, Ordering::Relaxed);
                                    fails.lock().unwrap().push((case, src.rec, e));
                                    break 'outer;
                                }
                            }
                        }
                        progress.start(t, usize::MAX, 0);
                        let mut m = merged.lock().unwrap();
                        m.0 += evals;
                        m.1.extend(seen);
                        for (k, v) in labels {
                            *m.2.entry(k).or_insert(0) += v;
                        }
                        m.3.extend(samples);
                    })
                    .expect("spawn");
            }
        });

        let (evals, seen, labels, mut samples) = merged.into_inner().unwrap();
        rep.evaluations += evals;
        rep.per_sub
            .push((sub.name.to_string(), evals, seen.len() as u64, slowest.into_inner()));
        let h = hash64(sub.name.as_bytes());
        distinct.extend(seen.into_iter().map(|x| x ^ h));
        for (k, v) in labels {
            *rep.labels.entry(format!("{}: {}", sub.name, k)).or_insert(0) += v;
        }
        samples.sort();
        rep.samples.extend(
            samples
                .into_iter()
                .take(4)
                .map(|(c, s)| format!("[{} #{}] {}", sub.name, c, clip(&s, 1500))),
        );

        let mut fails = fails.into_inner().unwrap();
        fails.sort_by_key(|x| x.0);
        if let Some((case, choices, e)) = fails.into_iter().next() {
            progress.found(&Failure {
                sub: sub.name,
                case,
                choices: choices.clone(),
                fail: e.clone(),
                shrink_execs: 0,
            });
            // shrink on a big stack as well
            let f = sub.f;
            let (c, e, x) = std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || shrink(f, choices, e, 6000))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            rep.failure = Some(Failure {
                sub: sub.name,
                case,
                choices: c,
                fail: e,
                shrink_execs: x,
            });
            break;
        }
    }
    rep.distinct_nontrivial = distinct.len() as u64;
    rep
}

/// The text, cut to its first `n` characters where it is longer.
pub fn clip(s: &str, n: usize) -> String {
    match s.char_indices().nth(n) {
        Some((i, _)) => format!("{}... ({} bytes in all)", &s[..i], s.len()),
        None => s.to_string(),
    }
}

/// The text as it can be printed: cut to a readable length, without control characters.
pub fn shown(s: &str) -> String {
    clip(s, 20_000)
        .chars()
        .map(|c| if c.is_control() && c != '\n' && c != '\t' { '\u{fffd}' } else { c })
        .collect()
}
