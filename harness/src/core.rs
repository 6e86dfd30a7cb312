//! Case runner: generation, sharding, shrinking, replay and evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a passing case tells us
#[derive(Default, Debug, Clone)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}

impl Info {
    pub fn new(nontrivial: bool) -> Self {
        Info { nontrivial, labels: vec![] }
    }
    pub fn label(mut self, c: bool, l: &str) -> Self {
        if c {
            self.labels.push(l.to_string());
        }
        self
    }
    pub fn tag(mut self, l: impl Into<String>) -> Self {
        self.labels.push(l.into());
        self
    }
}

pub type Outcome = Result<Info, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !$c { return Err(format!($($arg)*)); }
    };
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub part: String,
    pub message: String,
    pub replay: PathBuf,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub shards: usize,
    pub replay_dir: PathBuf,
    pub replay: Option<(String, serde_json::Value)>,
    pub replay_matched: bool,
    pub only: Option<String>,
    pub violations: Vec<Violation>,
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub parts: Vec<serde_json::Value>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = format!("{info}");
        if std::env::var_os("CRESV_VERBOSE").is_some() {
            eprintln!("panic: {s}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(s));
    }));
}

pub fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "unknown panic payload".to_string()
    }
}

/// Run `f`, turning a panic into Err(message)
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        let detail = LAST_PANIC.with(|p| p.borrow_mut().take());
        detail.unwrap_or_else(|| payload_str(p.as_ref()))
    })
}

/// Reports cases which do not end
pub mod watch {
    use super::*;
    use std::sync::{Arc, OnceLock};
    use std::time::{Duration, Instant};

    pub struct Conf {
        pub prop: String,
        pub replay_dir: PathBuf,
        pub out: Option<PathBuf>,
        pub limit: Duration,
    }

    type Running = Mutex<BTreeMap<u64, (Instant, String, Arc<str>)>>;
    static CONF: OnceLock<Conf> = OnceLock::new();
    static RUNNING: Running = Mutex::new(BTreeMap::new());
    static NEXT: AtomicU64 = AtomicU64::new(0);
    static LONGEST: AtomicU64 = AtomicU64::new(0);

    pub struct Entry(u64, Instant);

    pub fn enter(part: &str, json: &Arc<str>) -> Entry {
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        let t = Instant::now();
        RUNNING.lock().unwrap().insert(n, (t, part.to_string(), json.clone()));
        Entry(n, t)
    }

    impl Drop for Entry {
        fn drop(&mut self) {
            RUNNING.lock().unwrap().remove(&self.0);
            LONGEST.fetch_max(self.1.elapsed().as_millis() as u64, Ordering::Relaxed);
        }
    }

    /// longest time of a case since the last call
    pub fn longest() -> f64 {
        LONGEST.swap(0, Ordering::Relaxed) as f64 / 1000.
    }

    pub fn start(conf: Conf) {
        let conf = CONF.get_or_init(|| conf);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let late = RUNNING.lock().unwrap().values().find(|(t, _, _)| t.elapsed() > conf.limit).cloned();
            let Some((_, part, case)) = late else { continue };
            let case: serde_json::Value = serde_json::from_str(&case).unwrap();
            let message = format!("the case does not end within {} s", conf.limit.as_secs());
            let replay = conf.replay_dir.join(format!("{}-{part}.json", conf.prop));
            let doc = serde_json::json!({
                "property": conf.prop, "part": part, "message": message, "case": case,
                "how": "python3 check.py <property> --replay <this file>",
            });
            println!("part {part}: {message}");
            if let Some(out) = &conf.out {
                std::fs::write(&replay, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
                let doc = serde_json::json!({
                    "property": conf.prop,
                    "build": if cfg!(feature = "multi") { "multiweight" } else { "single-weight" },
                    "evaluations": NEXT.load(Ordering::Relaxed),
                    "distinct_nontrivial": 1,
                    "rule": "a case did not end",
                    "samples": [shorten(&case, 1500)],
                    "violations": [{"part": part, "message": message, "replay": replay}],
                });
                std::fs::write(out, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
            }
            std::process::exit(1);
        });
    }
}

fn hash64(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn seed_bytes(seed: u64, part: &str, shard: u64) -> [u8; 32] {
    // splitmix-style expansion, independent of std's hasher
    let mut x = seed
        .wrapping_mul(0x9E3779B97F4A7C15)
        .wrapping_add(shard.wrapping_mul(0xD1B54A32D192ED03));
    for b in part.bytes() {
        x = (x ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut out = [0u8; 32];
    for chunk in out.chunks_mut(8) {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        chunk.copy_from_slice(&z.to_le_bytes());
    }
    out
}

fn shorten(v: &serde_json::Value, max: usize) -> serde_json::Value {
    let s = v.to_string();
    if s.len() <= max {
        v.clone()
    } else {
        let mut cut = max;
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        serde_json::Value::String(format!("{}... ({} bytes)", &s[..cut], s.len()))
    }
}

struct Shared {
    evals: AtomicU64,
    stop: AtomicBool,
    nontrivial: Mutex<HashSet<u64>>,
    labels: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<serde_json::Value>>,
    failure: Mutex<Option<(String, serde_json::Value)>>,
}

impl Ctx {
    /// number of cases for the current tier
    pub fn n(&self, quick: u32, thorough: u32) -> u32 {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }

    pub fn replaying(&self) -> bool {
        self.replay.is_some()
    }

    /// Run one generated check. `mk` builds the strategy.
    pub fn part<C, F>(
        &mut self,
        name: &str,
        cases: u32,
        mk: impl Fn() -> BoxedStrategy<C> + Sync,
        check: F,
    ) where
        C: Serialize + DeserializeOwned + Debug + Clone + 'static,
        F: Fn(&C) -> Outcome + Sync,
    {
        self.part_sharded(name, cases, self.shards, mk, check)
    }

    /// Same with only one shard at a time (for checks which use all cores themselves)
    pub fn part_seq<C, F>(
        &mut self,
        name: &str,
        cases: u32,
        mk: impl Fn() -> BoxedStrategy<C> + Sync,
        check: F,
    ) where
        C: Serialize + DeserializeOwned + Debug + Clone + 'static,
        F: Fn(&C) -> Outcome + Sync,
    {
        self.part_sharded(name, cases, 1, mk, check)
    }

    pub fn part_sharded<C, F>(
        &mut self,
        name: &str,
        cases: u32,
        shards: usize,
        mk: impl Fn() -> BoxedStrategy<C> + Sync,
        check: F,
    ) where
        C: Serialize + DeserializeOwned + Debug + Clone + 'static,
        F: Fn(&C) -> Outcome + Sync,
    {
        let guarded = |c: &C| -> Outcome {
            let json: std::sync::Arc<str> = serde_json::to_string(c).unwrap().into();
            let _entry = watch::enter(name, &json);
            match no_panic(|| check(c)) {
                Ok(r) => r,
                Err(p) => Err(format!("panic: {p}")),
            }
        };
        if let Some((part, case)) = &self.replay {
            if part != name {
                return;
            }
            self.replay_matched = true;
            let case: C = serde_json::from_value(case.clone()).expect("replay file does not match the part");
            self.evaluations += 1;
            let repeat: usize = std::env::var("CRESV_REPEAT").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let t0 = std::time::Instant::now();
            let mut res = guarded(&case);
            for _ in 1..repeat {
                if res.is_err() || t0.elapsed().as_secs() > 120 {
                    break;
                }
                res = guarded(&case);
            }
            match res {
                Ok(info) => println!("replay of {name}: holds ({info:?})"),
                Err(msg) => {
                    println!("replay of {name}: {msg}");
                    self.violations.push(Violation {
                        part: name.to_string(),
                        message: msg,
                        replay: PathBuf::new(),
                    });
                }
            }
            return;
        }
        if !self.violations.is_empty() {
            return;
        }
        if let Some(only) = &self.only {
            if !name.starts_with(only.as_str()) {
                return;
            }
        }
        let t0 = std::time::Instant::now();
        let shared = Shared {
            evals: AtomicU64::new(0),
            stop: AtomicBool::new(false),
            nontrivial: Default::default(),
            labels: Default::default(),
            samples: Default::default(),
            failure: Default::default(),
        };
        let shards = shards.max(1).min(cases.max(1) as usize);
        std::thread::scope(|s| {
            for shard in 0..shards {
                let n = cases / shards as u32 + u32::from((shard as u32) < cases % shards as u32);
                let shared = &shared;
                let mk = &mk;
                let guarded = &guarded;
                let seed = seed_bytes(self.seed, name, shard as u64);
                let inflight = self.replay_dir.join(format!("inflight-{}-{name}-{shard}.json", self.prop));
                let prop = self.prop.clone();
                std::thread::Builder::new()
                    .name(format!("shard{shard}"))
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let strategy = mk();
                        let config = Config {
                            cases: n,
                            failure_persistence: None,
                            max_shrink_iters: 3000,
                            max_shrink_time: 30_000,
                            max_global_rejects: 1 << 20,
                            ..Config::default()
                        };
                        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
                        let mut runner = TestRunner::new_with_rng(config, rng);
                        let failed = std::cell::Cell::new(false);
                        let res = runner.run(&strategy, |case| {
                            if !failed.get() && shared.stop.load(Ordering::Relaxed) {
                                return Ok(());
                            }
                            let json = serde_json::to_string(&case).unwrap();
                            let _ = std::fs::write(
                                &inflight,
                                format!("{{\"property\":\"{prop}\",\"part\":\"{name}\",\"case\":{json}}}"),
                            );
                            let out = guarded(&case);
                            if !failed.get() {
                                shared.evals.fetch_add(1, Ordering::Relaxed);
                            }
                            match out {
                                Ok(info) => {
                                    if !failed.get() {
                                        let mut labels = shared.labels.lock().unwrap();
                                        for l in &info.labels {
                                            *labels.entry(format!("{name}:{l}")).or_default() += 1;
                                        }
                                        drop(labels);
                                        if info.nontrivial {
                                            let fresh = shared.nontrivial.lock().unwrap().insert(hash64(&json));
                                            if fresh {
                                                let mut samples = shared.samples.lock().unwrap();
                                                if samples.len() < 2 {
                                                    samples.push(serde_json::from_str(&json).unwrap());
                                                }
                                            }
                                        }
                                    }
                                    Ok(())
                                }
                                Err(msg) => {
                                    failed.set(true);
                                    Err(TestCaseError::fail(msg))
                                }
                            }
                        });
                        let _ = std::fs::remove_file(&inflight);
                        match res {
                            Ok(()) => {}
                            Err(TestError::Fail(reason, case)) => {
                                shared.stop.store(true, Ordering::Relaxed);
                                // message of the minimal case
                                let msg = match guarded(&case) {
                                    Err(m) => m,
                                    Ok(_) => format!("{reason} (not reproduced by one more execution, so schedule dependent)"),
                                };
                                let mut f = shared.failure.lock().unwrap();
                                if f.is_none() {
                                    *f = Some((msg, serde_json::to_value(&case).unwrap()));
                                }
                            }
                            Err(TestError::Abort(r)) => {
                                eprintln!("ERROR: part {name} aborted: {r}");
                                std::process::exit(3);
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let evals = shared.evals.load(Ordering::Relaxed);
        let nontrivial = shared.nontrivial.into_inner().unwrap();
        self.evaluations += evals;
        self.parts.push(serde_json::json!({
            "part": name, "cases": evals, "distinct_nontrivial": nontrivial.len(),
            "wall_s": t0.elapsed().as_secs_f64(), "longest_case_s": watch::longest(),
        }));
        self.nontrivial.extend(nontrivial.iter().map(|h| h ^ hash64(name)));
        for (k, v) in shared.labels.into_inner().unwrap() {
            *self.labels.entry(k).or_default() += v;
        }
        for s in shared.samples.into_inner().unwrap() {
            self.samples.push(serde_json::json!({"part": name, "case": shorten(&s, 1500)}));
        }
        if let Some((msg, case)) = shared.failure.into_inner().unwrap() {
            let replay = self.replay_dir.join(format!("{}-{}.json", self.prop, name));
            let doc = serde_json::json!({
                "property": self.prop, "part": name, "message": msg, "case": case,
                "how": "python3 check.py <property> --replay <this file>",
            });
            std::fs::write(&replay, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
            println!("part {name}: {msg}");
            self.violations.push(Violation { part: name.to_string(), message: msg, replay });
        }
    }
}

/// Is this among the known findings?
pub fn known(prop: &str, what: &str) -> bool {
    static LIST: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    let list = LIST.get_or_init(|| {
        let root = std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| "/verif".into());
        std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt")).unwrap_or_default()
    });
    let start = format!("KNOWN-FINDING: property={prop} ");
    list.lines().any(|l| l.starts_with(&start) && l.contains(what))
}

/// One value of a strategy from a fixed seed (for known findings etc.)
#[allow(dead_code)]
pub fn one<C: Debug>(s: &BoxedStrategy<C>, seed: u64) -> C {
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, "one", 0));
    let mut r = TestRunner::new_with_rng(Config::default(), rng);
    s.new_tree(&mut r).unwrap().current()
}

/// A scratch directory removed on drop
pub struct Scratch(pub PathBuf);

static SCRATCH_NO: AtomicU64 = AtomicU64::new(0);

impl Scratch {
    pub fn new() -> Self {
        let n = SCRATCH_NO.fetch_add(1, Ordering::Relaxed);
        let base = std::env::var_os("CRESV_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let p = base.join(format!("cresv-{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
    pub fn join(&self, p: impl AsRef<Path>) -> PathBuf {
        self.0.join(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// |a - b| small compared to `scale`
pub fn close(a: f64, b: f64, scale: f64, rel: f64) -> bool {
    if a == b {
        return true;
    }
    (a - b).abs() <= rel * scale.abs().max(a.abs()).max(b.abs()) + 1e-300
}
