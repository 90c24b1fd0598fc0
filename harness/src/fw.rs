//! Small driver around proptest: sharded deterministic runs, shrinking, replay files, evidence.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a check observed about one case.
#[derive(Default)]
pub struct Obs {
    /// The case is non-trivial by the rule stated for the test.
    pub nontrivial: bool,
    pub classes: Vec<String>,
    /// The case lies outside the domain (e.g. exact value does not fit); not counted as evaluated.
    pub discard: bool,
}
impl Obs {
    pub fn class(&mut self, c: impl Into<String>) {
        self.classes.push(c.into());
    }
    pub fn class_if(&mut self, b: bool, c: &str) {
        if b {
            self.classes.push(c.to_string());
        }
    }
}

pub type Check<C> = fn(&C, &mut Obs) -> Result<(), String>;

pub struct Test<C> {
    pub name: &'static str,
    /// Number of generated cases: quick, thorough.
    pub cases: (u32, u32),
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub strat: fn(Tier) -> BoxedStrategy<C>,
    pub check: Check<C>,
    /// Number of parallel shards (also the split of the case budget).
    pub shards: u32,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub discarded: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violation: Option<(Value, String)>,
    pub errors: Vec<String>,
}

pub trait AnyTest: Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn run(&self, prop: &str, seed: u64, tier: Tier, wd: &Watchdog) -> Report;
    fn replay(&self, case: &Value) -> Result<Obs, String>;
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}

/// Run `f`, turning a panic into `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

/// Marks a defect of the harness itself: never reported as a violation.
pub const HARNESS: &str = "HARNESS-ERROR";

/// Marks a watchdog-style limit hit in a subprocess: never reported as a violation.
pub const INCONCLUSIVE: &str = "INCONCLUSIVE";

fn run_check<C: Serialize>(check: Check<C>, case: &C) -> (Obs, Result<(), String>) {
    let mut obs = Obs::default();
    let r = guarded(|| check(case, &mut obs));
    let r = match r {
        Ok(r) => r,
        Err(p) => Err(p),
    };
    // Rational coefficients whose exact values leave the machine word are outside the domain.
    if let Err(e) = &r {
        if e.starts_with("panic at") && e.contains("attempt to") && e.contains("overflow") {
            let js = serde_json::to_string(case).unwrap_or_default();
            if js.contains("\"field\":\"Q\"") {
                obs.discard = true;
                return (obs, Ok(()));
            }
        }
    }
    // keep reports of large cases readable
    let r = r.map_err(|e| if e.len() > 4000 { format!("{} ... ({} characters)", e.chars().take(4000).collect::<String>(), e.len()) } else { e });
    (obs, r)
}

fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn splitmix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn rng_for(prop: &str, test: &str, seed: u64, shard: u64) -> TestRng {
    let mut s = fnv(format!("{prop}/{test}/{shard}").as_bytes()) ^ splitmix(seed);
    let mut bytes = [0u8; 32];
    for c in bytes.chunks_mut(8) {
        s = splitmix(s);
        c.copy_from_slice(&s.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

impl<C> AnyTest for Test<C>
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }

    fn run(&self, prop: &str, seed: u64, tier: Tier, wd: &Watchdog) -> Report {
        let total = match tier {
            Tier::Quick => self.cases.0,
            Tier::Thorough => self.cases.1,
        };
        let scale: f64 = std::env::var("PBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let total = ((total as f64) * scale).ceil() as u32;
        let shards = self.shards.max(1).min(total.max(1));
        let merged = Mutex::new(Report::default());
        let violations: Mutex<BTreeMap<u32, (Value, String)>> = Mutex::new(BTreeMap::new());
        let stop = AtomicBool::new(false);
        std::thread::scope(|sc| {
            for shard in 0..shards {
                let merged = &merged;
                let violations = &violations;
                let stop = &stop;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let slot = wd.slot();
                        let cases = total / shards + u32::from(shard < total % shards);
                        let config = Config {
                            cases,
                            failure_persistence: None,
                            max_shrink_iters: 3000,
                            max_global_rejects: 1_000_000,
                            max_shrink_time: 60_000,
                            ..Config::default()
                        };
                        let mut runner =
                            TestRunner::new_with_rng(config, rng_for(prop, self.name, seed, shard as u64));
                        let strat = (self.strat)(tier);
                        let rep = RefCell::new(Report::default());
                        let failed = RefCell::new(false);
                        let result = runner.run(&strat, |case| {
                            if stop.load(Ordering::Relaxed) && !*failed.borrow() {
                                // another shard found a violation already
                                return Ok(());
                            }
                            let js = serde_json::to_string(&case).unwrap();
                            wd.begin(slot, self.name, &js);
                            let (obs, r) = run_check(self.check, &case);
                            wd.end(slot);
                            if !*failed.borrow() {
                                let mut rep = rep.borrow_mut();
                                if obs.discard && r.is_ok() {
                                    rep.discarded += 1;
                                } else {
                                    rep.evaluations += 1;
                                    for c in obs.classes.iter() {
                                        *rep.classes.entry(c.clone()).or_default() += 1;
                                    }
                                    if obs.nontrivial {
                                        let fresh = rep.distinct.insert(fnv(js.as_bytes()));
                                        if fresh && rep.samples.len() < 2 && js.len() < 1500 {
                                            rep.samples.push(
                                                json!({"test": self.name, "case": serde_json::from_str::<Value>(&js).unwrap()}),
                                            );
                                        }
                                    }
                                }
                            }
                            match r {
                                Ok(()) => Ok(()),
                                Err(e) if e.contains(HARNESS) || e.contains(INCONCLUSIVE) => {
                                    let mut rep = rep.borrow_mut();
                                    if rep.errors.len() < 5 {
                                        rep.errors.push(format!("{}: {e}; case {js}", self.name));
                                    }
                                    Ok(())
                                }
                                Err(e) => {
                                    *failed.borrow_mut() = true;
                                    Err(TestCaseError::fail(e))
                                }
                            }
                        });
                        match result {
                            Ok(()) => {}
                            Err(TestError::Fail(_, case)) => {
                                stop.store(true, Ordering::Relaxed);
                                let (_o, r) = run_check(self.check, &case);
                                let msg = match r {
                                    Err(m) => m,
                                    Ok(()) => "not reproducible from the shrunk case".to_string(),
                                };
                                violations
                                    .lock()
                                    .unwrap()
                                    .insert(shard, (serde_json::to_value(&case).unwrap(), msg));
                            }
                            Err(TestError::Abort(r)) => {
                                rep.borrow_mut().errors.push(format!("{}: aborted: {r}", self.name));
                            }
                        }
                        let rep = rep.into_inner();
                        let mut m = merged.lock().unwrap();
                        m.evaluations += rep.evaluations;
                        m.discarded += rep.discarded;
                        m.distinct.extend(rep.distinct);
                        for (k, v) in rep.classes {
                            *m.classes.entry(k).or_default() += v;
                        }
                        if m.samples.len() < 3 {
                            m.samples.extend(rep.samples);
                        }
                        m.errors.extend(rep.errors);
                    })
                    .unwrap();
            }
        });
        let mut rep = merged.into_inner().unwrap();
        rep.samples.truncate(3);
        rep.violation = violations.into_inner().unwrap().into_iter().next().map(|x| x.1);
        rep
    }

    fn replay(&self, case: &Value) -> Result<Obs, String> {
        let case: C = serde_json::from_value(case.clone()).map_err(|e| format!("{HARNESS}: bad replay case: {e}"))?;
        let (obs, r) = run_check(self.check, &case);
        r.map(|()| obs)
    }
}

/// A finite list of cases that is enumerated completely.
pub struct Enum<C> {
    pub name: &'static str,
    pub rule: &'static str,
    pub cases: fn(Tier) -> Vec<C>,
    pub check: Check<C>,
    pub shards: u32,
}
impl<C> AnyTest for Enum<C>
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + Sync + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn run(&self, _prop: &str, _seed: u64, tier: Tier, wd: &Watchdog) -> Report {
        let cases = (self.cases)(tier);
        let merged = Mutex::new(Report::default());
        let violations: Mutex<BTreeMap<usize, (Value, String)>> = Mutex::new(BTreeMap::new());
        let shards = self.shards.max(1) as usize;
        std::thread::scope(|sc| {
            for shard in 0..shards {
                let (merged, violations, cases) = (&merged, &violations, &cases);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let slot = wd.slot();
                        let mut rep = Report::default();
                        for (i, case) in cases.iter().enumerate() {
                            if i % shards != shard {
                                continue;
                            }
                            if violations.lock().unwrap().keys().next().is_some_and(|k| *k < i) {
                                break;
                            }
                            let js = serde_json::to_string(case).unwrap();
                            wd.begin(slot, self.name, &js);
                            let (obs, r) = run_check(self.check, case);
                            wd.end(slot);
                            rep.evaluations += 1;
                            for c in obs.classes.iter() {
                                *rep.classes.entry(c.clone()).or_default() += 1;
                            }
                            if obs.nontrivial {
                                rep.distinct.insert(fnv(js.as_bytes()));
                                if rep.samples.is_empty() {
                                    rep.samples.push(json!({"test": self.name, "case": serde_json::to_value(case).unwrap()}));
                                }
                            }
                            if let Err(e) = r {
                                if e.contains(HARNESS) || e.contains(INCONCLUSIVE) {
                                    rep.errors.push(format!("{}: {e}; case {js}", self.name));
                                } else {
                                    violations.lock().unwrap().insert(i, (serde_json::to_value(case).unwrap(), e));
                                }
                            }
                        }
                        let mut m = merged.lock().unwrap();
                        m.evaluations += rep.evaluations;
                        m.distinct.extend(rep.distinct);
                        for (k, v) in rep.classes {
                            *m.classes.entry(k).or_default() += v;
                        }
                        m.samples.extend(rep.samples);
                        m.errors.extend(rep.errors);
                    })
                    .unwrap();
            }
        });
        let mut rep = merged.into_inner().unwrap();
        rep.samples.truncate(2);
        rep.violation = violations.into_inner().unwrap().into_iter().next().map(|x| x.1);
        rep
    }
    fn replay(&self, case: &Value) -> Result<Obs, String> {
        let case: C = serde_json::from_value(case.clone()).map_err(|e| format!("{HARNESS}: bad replay case: {e}"))?;
        let (obs, r) = run_check(self.check, &case);
        r.map(|()| obs)
    }
}

/// Per-case watchdog: a case that normally takes milliseconds and burns `cpu_limit` seconds of its
/// thread's processor time, or drives the process over the memory limit, does not terminate.
pub struct Watchdog {
    start: Instant,
    slots: Mutex<Vec<std::sync::Arc<Slot>>>,
    pub cpu_limit: f64,
    pub mem_limit: u64,
    /// Prefix of the files that hold the current cases.
    pub trace: Option<String>,
}
struct Slot {
    /// Milliseconds since `start` plus one, 0 when idle.
    began: AtomicU64,
    /// Processor time of the thread when the case began.
    cpu0: AtomicU64,
    tid: AtomicU64,
    case: Mutex<(String, String)>,
    /// Holds the current case, for the parent process to find after a crash.
    file: Option<std::fs::File>,
}
fn thread_cpu_ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?)
}
fn own_tid() -> u64 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0)
}
pub fn rss_bytes() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096
}
pub struct Overrun {
    pub test: String,
    pub case: String,
    pub why: String,
}
impl Watchdog {
    pub fn new(cpu_limit: f64, mem_limit: u64, trace: Option<String>) -> Self {
        Watchdog { start: Instant::now(), slots: Mutex::new(vec![]), cpu_limit, mem_limit, trace }
    }
    pub fn slot(&self) -> usize {
        let mut s = self.slots.lock().unwrap();
        let k = s.len();
        s.push(std::sync::Arc::new(Slot {
            began: AtomicU64::new(0),
            cpu0: AtomicU64::new(u64::MAX),
            tid: AtomicU64::new(own_tid()),
            case: Mutex::new(Default::default()),
            file: self.trace.as_ref().and_then(|p| std::fs::File::create(format!("{p}{k}")).ok()),
        }));
        s.len() - 1
    }
    pub fn begin(&self, slot: usize, name: &str, js: &str) {
        let s = self.slots.lock().unwrap()[slot].clone();
        *s.case.lock().unwrap() = (name.to_string(), js.to_string());
        if let Some(f) = s.file.as_ref() {
            use std::os::unix::fs::FileExt;
            let body = format!("{name}\n{js}");
            let _ = f.write_all_at(format!("{:010}\n{body}", body.len()).as_bytes(), 0);
        }
        s.cpu0.store(u64::MAX, Ordering::SeqCst);
        s.began.store(self.start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
    }
    pub fn end(&self, slot: usize) {
        let s = self.slots.lock().unwrap()[slot].clone();
        s.began.store(0, Ordering::SeqCst);
    }
    /// Poll from a separate thread; returns a case that overran.
    pub fn poll(&self) -> Option<Overrun> {
        let slots: Vec<_> = self.slots.lock().unwrap().clone();
        let mut longest: Option<(u64, usize)> = None;
        for (k, s) in slots.iter().enumerate() {
            let t = s.began.load(Ordering::SeqCst);
            if t == 0 {
                continue;
            }
            if longest.is_none_or(|(b, _)| t < b) {
                longest = Some((t, k));
            }
            let Some(now) = thread_cpu_ticks(s.tid.load(Ordering::SeqCst)) else { continue };
            // the first poll that sees the case fixes its base line
            let base = s.cpu0.load(Ordering::SeqCst);
            if base == u64::MAX {
                s.cpu0.store(now, Ordering::SeqCst);
                continue;
            }
            let used = now.saturating_sub(base) as f64 / 100.0;
            if used > self.cpu_limit && s.began.load(Ordering::SeqCst) == t {
                let c = s.case.lock().unwrap().clone();
                return Some(Overrun { test: c.0, case: c.1, why: format!("the case did not finish within {used:.0} s of processor time") });
            }
        }
        let rss = rss_bytes();
        if rss > self.mem_limit {
            if let Some((_, k)) = longest {
                let c = slots[k].case.lock().unwrap().clone();
                return Some(Overrun { test: c.0, case: c.1, why: format!("the process reached {} MB during the case", rss >> 20) });
            }
        }
        None
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

pub fn boxed<S>(s: S) -> BoxedStrategy<S::Value>
where
    S: Strategy + 'static,
{
    s.boxed()
}
