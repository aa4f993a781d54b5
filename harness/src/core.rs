//! Runner: proptest-driven generated checks with coverage accounting, shrinking, replay files and evidence.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Per-case coverage marks.
#[derive(Default)]
pub struct Cov {
    marks: std::collections::BTreeSet<&'static str>,
    nontrivial: bool,
    pub trace: Option<Vec<String>>,
}
impl Cov {
    pub fn hit(&mut self, l: &'static str) {
        self.marks.insert(l);
    }
    pub fn hit_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.hit(l)
        }
    }
    pub fn has(&self, l: &'static str) -> bool {
        self.marks.contains(l)
    }
    /// Marks the case as non-trivial by the sub-check's stated rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn tr(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            uncounted(|| t.push(f()))
        }
    }
}

pub type R = Result<(), String>;

/// Allocator that counts the bytes in use per thread.
pub struct Counting;
thread_local! {
    static NET: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = NET.try_with(|n| n.set(n.get() + l.size() as i64));
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let _ = NET.try_with(|n| n.set(n.get() - l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, new: usize) -> *mut u8 {
        let _ = NET.try_with(|n| n.set(n.get() + new as i64 - l.size() as i64));
        std::alloc::System.realloc(p, l, new)
    }
}
/// Bytes allocated on this thread and not freed on it.
pub fn net_bytes() -> i64 {
    NET.with(|n| n.get())
}
/// Runs `f` without counting what it allocates.
pub fn uncounted<T>(f: impl FnOnce() -> T) -> T {
    let n = net_bytes();
    let r = f();
    NET.with(|c| c.set(n));
    r
}
/// Judges the bytes in use after each of a series of equal cycles: do they keep growing?
pub fn growing(b: &[i64]) -> bool {
    let m = b.len();
    // growth between each pair of consecutive eighths-to-quarters, so one late resize is no leak
    let part = |i: usize, j: usize| (*b[m * i / 16..m * j / 16].iter().min().unwrap(), *b[m * i / 16..m * j / 16].iter().max().unwrap());
    let (p1, p2, p3, p4) = (part(1, 2), part(3, 4), part(7, 8), part(15, 16));
    p2.0 > p1.1 && p3.0 > p2.1 && p4.0 > p3.1 && p4.0 - p1.1 >= 4 * m as i64
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub trait Case: Debug + Clone + Serialize + DeserializeOwned + Send + Sync + 'static {}
impl<T: Debug + Clone + Serialize + DeserializeOwned + Send + Sync + 'static> Case for T {}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
}

pub struct Failure {
    pub sub: String,
    pub message: String,
    pub case: Value,
}

pub enum Outcome {
    Held,
    Failed(Failure),
    /// harness error
    Broken(String),
}

pub trait SubDyn: Send + Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn run(&self, prop: &str, tier: Tier, seed: u64, scale: f64) -> (Stats, Outcome);
    fn replay(&self, case: &Value, trace: bool) -> Result<(R, Vec<String>), String>;
    /// The same histories for another property: only failures that concern it (by their message) count.
    fn focus(self: Box<Self>, name: &'static str, quick: u32, keep: fn(&str) -> bool) -> Box<dyn SubDyn>;
}

pub struct Sub<C: Case> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strategy: Box<dyn Fn() -> BoxedStrategy<C> + Send + Sync>,
    pub run: fn(&C, &mut Cov) -> R,
    pub keep: Option<fn(&str) -> bool>,
}
impl<C: Case> Sub<C> {
    fn judge(&self, case: &C, cov: &mut Cov) -> R {
        let r = guarded(|| (self.run)(case, cov));
        match (r, self.keep) {
            (Err(m), Some(k)) if !k(&m) => {
                cov.hit("failed in a way another property describes");
                Ok(())
            }
            (r, _) => r,
        }
    }
}

/// A sub-check: `quick` is the number of cases of the quick tier.
pub fn sub<C: Case, S>(
    name: &'static str,
    rule: &'static str,
    quick: u32,
    strategy: impl Fn() -> S + Send + Sync + 'static,
    run: fn(&C, &mut Cov) -> R,
) -> Box<dyn SubDyn>
where
    S: Strategy<Value = C> + 'static,
{
    Box::new(Sub {
        name,
        rule,
        quick,
        thorough: quick.saturating_mul(20),
        strategy: Box::new(move || strategy().boxed()),
        run,
        keep: None,
    })
}

pub struct Prop {
    pub id: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Box<dyn SubDyn>>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
    static CAPTURE: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

pub fn install_panic_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if CAPTURE.with(|c| c.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            PANIC.with(|p| {
                let mut p = p.borrow_mut();
                if p.is_none() {
                    *p = Some(format!("panic at {loc}: {msg}"));
                }
            });
        } else {
            prev(info)
        }
    }));
}

/// Takes the message of a panic that happened on this thread (also inside a spawned task) since the last call.
pub fn take_panic() -> Option<String> {
    PANIC.with(|p| p.borrow_mut().take())
}

/// Runs `f`, which may panic legitimately: `None` if it did.
pub fn or_panic<T>(f: impl FnOnce() -> T) -> Option<T> {
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    if r.is_none() {
        take_panic();
    }
    r
}

/// Runs `f`, turning any panic on this thread, also one caught by the runtime, into an error.
pub fn guarded(f: impl FnOnce() -> R) -> R {
    CAPTURE.with(|c| c.set(true));
    take_panic();
    let r = catch_unwind(AssertUnwindSafe(f));
    CAPTURE.with(|c| c.set(false));
    let p = take_panic();
    match (r, p) {
        (Err(_), p) => Err(p.unwrap_or_else(|| "panic".into())),
        (Ok(Err(e)), Some(p)) => Err(format!("{e} (and {p})")),
        (Ok(Err(e)), None) => Err(e),
        (Ok(Ok(())), Some(p)) => Err(format!("background {p}")),
        (Ok(Ok(())), None) => Ok(()),
    }
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn seed_bytes(parts: &[&str], a: u64, b: u64) -> [u8; 32] {
    // splitmix over a string hash; independent of std's hasher keys (DefaultHasher::new is fixed-key)
    let mut x = a ^ (b.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    for p in parts {
        for c in p.bytes() {
            x = (x ^ c as u64).wrapping_mul(0x100_0000_01B3).rotate_left(17);
        }
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        out[i * 8..i * 8 + 8].copy_from_slice(&z.to_le_bytes());
    }
    out
}

const SHARDS: u32 = 8;

impl<C: Case> SubDyn for Sub<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn run(&self, prop: &str, tier: Tier, seed: u64, scale: f64) -> (Stats, Outcome) {
        let total = match tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        } as f64
            * scale;
        let per = ((total / SHARDS as f64).ceil() as u32).max(1);
        let stop = Arc::new(AtomicBool::new(false));
        let results: Mutex<(Stats, Vec<(u32, Failure)>, Vec<String>)> = Default::default();
        std::thread::scope(|s| {
            for shard in 0..SHARDS {
                let stop = stop.clone();
                let results = &results;
                s.spawn(move || {
                    let cfg = Config {
                        cases: per,
                        failure_persistence: None,
                        max_shrink_iters: 400_000,
                        max_global_rejects: 1_000_000,
                        ..Config::default()
                    };
                    let rng = TestRng::from_seed(
                        RngAlgorithm::ChaCha,
                        &seed_bytes(&[prop, self.name], seed, shard as u64),
                    );
                    let mut runner = TestRunner::new_with_rng(cfg, rng);
                    let strat = (self.strategy)();
                    let stats = RefCell::new(Stats::default());
                    let failed = std::cell::Cell::new(false);
                    let shrink_start: std::cell::Cell<Option<Instant>> = std::cell::Cell::new(None);
                    let res = runner.run(&strat, |case| {
                        if stop.load(Ordering::Relaxed) && !failed.get() {
                            return Ok(());
                        }
                        // bound shrinking in time: a smaller case is a convenience, not part of the verdict
                        if let Some(t) = shrink_start.get() {
                            if t.elapsed().as_secs() > 20 {
                                return Ok(());
                            }
                        }
                        let mut cov = Cov::default();
                        let r = self.judge(&case, &mut cov);
                        if !failed.get() {
                            let mut st = stats.borrow_mut();
                            st.evals += 1;
                            for l in &cov.marks {
                                *st.labels.entry(l).or_default() += 1;
                            }
                            if cov.nontrivial {
                                let js = serde_json::to_string(&case).unwrap();
                                if st.nontrivial.insert(hash_str(&js))
                                    && st.samples.len() < 2
                                    && js.len() < 4000
                                {
                                    st.samples.push(serde_json::to_value(&case).unwrap());
                                }
                            }
                        }
                        match r {
                            Ok(()) => Ok(()),
                            Err(m) => {
                                if !failed.get() {
                                    shrink_start.set(Some(Instant::now()));
                                }
                                failed.set(true);
                                stop.store(true, Ordering::Relaxed);
                                Err(TestCaseError::fail(m))
                            }
                        }
                    });
                    let mut out = results.lock().unwrap();
                    let st = stats.into_inner();
                    out.0.evals += st.evals;
                    out.0.nontrivial.extend(st.nontrivial);
                    for (k, v) in st.labels {
                        *out.0.labels.entry(k).or_default() += v;
                    }
                    if out.0.samples.len() < 2 {
                        out.0.samples.extend(st.samples);
                    }
                    match res {
                        Ok(()) => {}
                        Err(TestError::Fail(reason, case)) => {
                            let f = Failure {
                                sub: self.name.to_string(),
                                message: reason.to_string(),
                                case: serde_json::to_value(&case).unwrap(),
                            };
                            out.1.push((shard, f));
                        }
                        Err(TestError::Abort(reason)) => out.2.push(reason.to_string()),
                    }
                });
            }
        });
        let (stats, mut fails, aborts) = results.into_inner().unwrap();
        fails.sort_by_key(|(s, f)| (f.case.to_string().len(), *s));
        let outcome = if let Some((_, f)) = fails.into_iter().next() {
            Outcome::Failed(f)
        } else if let Some(a) = aborts.into_iter().next() {
            Outcome::Broken(format!("{}: generator aborted: {a}", self.name))
        } else {
            Outcome::Held
        };
        (stats, outcome)
    }
    fn replay(&self, case: &Value, trace: bool) -> Result<(R, Vec<String>), String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        let mut cov = Cov::default();
        if trace {
            cov.trace = Some(vec![]);
        }
        let r = std::thread::scope(|s| {
            s.spawn(|| self.judge(&c, &mut cov))
                .join()
                .map_err(|_| "replay thread died".to_string())
        })?;
        Ok((r, cov.trace.take().unwrap_or_default()))
    }
    fn focus(mut self: Box<Self>, name: &'static str, quick: u32, keep: fn(&str) -> bool) -> Box<dyn SubDyn> {
        self.name = name;
        self.quick = quick;
        self.thorough = quick.saturating_mul(20);
        self.keep = Some(keep);
        self
    }
}

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| std::env::current_dir().unwrap())
}

/// Known findings: lines `known: property=<id> sub=<sub> match=<substring of the failure message> :: <what fails>`.
fn known_findings(prop: &str) -> Vec<(String, String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root().join("known-findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                let (head, what) = rest.split_once(" :: ").unwrap_or((rest, ""));
                let get = |k: &str| {
                    head.split_once(&format!("{k}="))
                        .map(|(_, r)| r.split(" ").next().unwrap_or("").to_string())
                };
                let m = head.split_once("match=").map(|x| x.1.to_string());
                if get("property").as_deref() == Some(prop) {
                    v.push((get("sub").unwrap_or_default(), m.unwrap_or_default(), what.to_string()));
                }
            }
        }
    }
    v
}

fn write_replay(prop: &str, f: &Failure, seed: u64) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{}-{seed}.json", f.sub));
    let v = json!({"property": prop, "sub": f.sub, "message": f.message, "case": f.case});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).ok();
    path
}

pub fn replay_file(props: &[Prop], path: &Path, trace: bool) -> i32 {
    let v: Value = match std::fs::read_to_string(path)
        .map_err(|e| e.to_string())
        .and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string()))
    {
        Ok(v) => v,
        Err(e) => {
            eprintln!("cannot read {path:?}: {e}");
            return 2;
        }
    };
    let id = v["property"].as_str().unwrap_or("");
    let sname = v["sub"].as_str().unwrap_or("");
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let Some(s) = p.subs.iter().find(|s| s.name() == sname) else {
        eprintln!("unknown sub-check {sname}");
        return 2;
    };
    match s.replay(&v["case"], trace) {
        Err(e) => {
            eprintln!("replay error: {e}");
            2
        }
        Ok((r, tr)) => {
            for l in tr {
                println!("  {l}");
            }
            match r {
                Ok(()) => {
                    println!("held");
                    0
                }
                Err(m) => {
                    println!("{m}");
                    println!("VIOLATION property={id} replay={}", path.display());
                    1
                }
            }
        }
    }
}

pub fn run_prop(p: &Prop, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let scale: f64 = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let only = std::env::var("VERIF_SUB").ok();
    // regression cases
    let mut regress = 0u64;
    let mut violation: Option<(String, PathBuf)> = None;
    let dir = root().join("regress").join(p.id);
    let mut files: Vec<PathBuf> = std::fs::read_dir(&dir)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    for f in files.iter().filter(|f| f.extension().map_or(false, |e| e == "json")) {
        let Ok(v) = std::fs::read_to_string(f).map_err(|_| ()).and_then(|s| serde_json::from_str::<Value>(&s).map_err(|_| ())) else {
            eprintln!("bad regression file {f:?}");
            return 2;
        };
        let sname = v["sub"].as_str().unwrap_or("");
        let Some(s) = p.subs.iter().find(|s| s.name() == sname) else {
            eprintln!("regression file {f:?} names unknown sub-check {sname}");
            return 2;
        };
        match s.replay(&v["case"], false) {
            Err(e) => {
                eprintln!("regression file {f:?}: {e}");
                return 2;
            }
            Ok((Ok(()), _)) => regress += 1,
            Ok((Err(m), _)) => {
                regress += 1;
                violation = Some((format!("[{sname}] {m}"), f.clone()));
                break;
            }
        }
    }
    let known = known_findings(p.id);
    let mut evals = regress;
    let mut nontrivial = 0u64;
    let mut samples = vec![];
    let mut per_sub = serde_json::Map::new();
    let mut broken = None;
    let mut rules = vec![];
    if violation.is_none() {
        for s in &p.subs {
            if let Some(o) = &only {
                if o != s.name() {
                    continue;
                }
            }
            let ts = Instant::now();
            let (st, out) = s.run(p.id, tier, seed, scale);
            evals += st.evals;
            nontrivial += st.nontrivial.len() as u64;
            for x in st.samples.iter().take(2) {
                samples.push(json!({"check": s.name(), "case": x}));
            }
            rules.push(format!("{}: {}", s.name(), s.rule()));
            per_sub.insert(
                s.name().to_string(),
                json!({"evaluations": st.evals, "distinct_nontrivial": st.nontrivial.len(),
                       "labels": st.labels, "wall_s": ts.elapsed().as_secs_f64()}),
            );
            match out {
                Outcome::Held => {}
                Outcome::Broken(m) => {
                    broken = Some(m);
                    break;
                }
                Outcome::Failed(f) => {
                    if let Some(k) = known
                        .iter()
                        .find(|(sb, m, _)| *sb == f.sub && !m.is_empty() && f.message.contains(m.as_str()))
                    {
                        println!("KNOWN-FINDING: property={} {}", p.id, k.2);
                        continue;
                    }
                    let path = write_replay(p.id, &f, seed);
                    violation = Some((format!("[{}] {}", f.sub, f.message), path));
                    break;
                }
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nontrivial,
            "rule": format!("cases are generated by proptest strategies from VERIF_SEED (a case = configuration + operation history); non-trivial per sub-check: {}", rules.join(" | ")),
            "samples": samples,
            "regression_cases": regress,
            "per_check": per_sub,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    let edir = root().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    if let Err(e) = std::fs::write(
        edir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap(),
    ) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    if let Some((m, path)) = violation {
        println!("{m}");
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    if let Some(b) = broken {
        eprintln!("ERROR {b}");
        return 2;
    }
    println!("{}: held on {evals} cases ({nontrivial} distinct non-trivial) in {wall:.1}s", p.id);
    0
}

/// Weighted union that skips options of weight zero.
pub fn weighted<T: Debug + 'static>(opts: Vec<(u32, BoxedStrategy<T>)>) -> BoxedStrategy<T> {
    proptest::strategy::Union::new_weighted(opts.into_iter().filter(|(w, _)| *w > 0).collect()).boxed()
}

/// Operation histories: mostly independent draws (up to `max`), sometimes short patterns repeated many times, which
/// reach states that need a long run of the same steps (full queues, wrapped counters, many periods).
pub fn hist<T: Debug + Clone + 'static>(op: impl Strategy<Value = T> + 'static, max: usize) -> BoxedStrategy<Vec<T>> {
    let op = op.boxed();
    let reps = proptest::prop_oneof![8 => proptest::strategy::Just(1u8), 4 => 2u8..10, 2 => 10u8..90];
    let segs = proptest::collection::vec((proptest::collection::vec(op.clone(), 1..5), reps), 1..10);
    proptest::prop_oneof![
        14 => proptest::collection::vec(op, 1..max),
        1 => segs.prop_map(|s| {
            let mut out = vec![];
            for (p, n) in s {
                for _ in 0..n {
                    if out.len() >= 400 {
                        break;
                    }
                    out.extend(p.iter().cloned());
                }
            }
            out
        }),
    ]
    .boxed()
}
/// Usually a small number, sometimes a large one.
pub fn size(small: std::ops::Range<u8>, large: std::ops::Range<u8>) -> BoxedStrategy<u8> {
    proptest::prop_oneof![12 => small, 1 => large].boxed()
}
