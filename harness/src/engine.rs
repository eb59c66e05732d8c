//! Case generation (proptest strategies), parallel execution, shrinking,
//! replay files and evidence. Every random choice is made by a proptest RNG seeded
//! from (VERIF_SEED, property, suite, case index).

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

/// Why a case did not pass.
#[derive(Debug, Clone)]
pub enum Fail {
    /// The property is broken: the text says what was observed.
    V(String),
    /// A listed known finding was met (signature, details).
    K(String, String),
    /// The environment or the harness failed; says nothing about the property.
    E(String),
}
pub type R<T> = Result<T, Fail>;

#[macro_export]
macro_rules! viol { ($($a:tt)*) => { return Err($crate::engine::Fail::V(format!($($a)*))) } }
#[macro_export]
macro_rules! err { ($($a:tt)*) => { return Err($crate::engine::Fail::E(format!($($a)*))) } }
#[macro_export]
macro_rules! want { ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::engine::Fail::V(format!($($a)*))) } } }

impl From<std::io::Error> for Fail {
    fn from(e: std::io::Error) -> Self {
        Fail::E(format!("harness I/O: {e}\n{}", std::backtrace::Backtrace::force_capture()))
    }
}

/// What a passing case reports about itself.
#[derive(Default, Debug, Clone)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: BTreeMap<String, u64>,
    pub note: String,
}
impl Info {
    pub fn hit(&mut self, l: &str) {
        self.add(l, 1)
    }
    pub fn add(&mut self, l: &str, n: u64) {
        *self.labels.entry(l.to_string()).or_default() += n;
    }
}

pub struct Env {
    pub tier: Tier,
    pub seed: u64,
    pub scratch: PathBuf,
    pub bin: PathBuf,
    pub next: AtomicU64,
    pub known: Vec<String>,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Suite<C> {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub threads: usize,
    pub strat: Box<dyn Fn() -> BoxedStrategy<C> + Send + Sync>,
    pub run: Box<dyn Fn(&C, &Env) -> R<Info> + Send + Sync>,
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, (u64, String)>,
    pub violation: Option<(String, Value)>, // message, case
    pub errors: Vec<String>,
    pub truncated: bool,
}

pub trait AnySuite: Send + Sync {
    fn name(&self) -> &'static str;
    fn go(&self, prop: &str, env: &Env, deadline: Instant) -> Report;
    fn replay(&self, env: &Env, case: &Value) -> R<Info>;
}

fn case_rng(seed: u64, prop: &str, suite: &str, idx: usize) -> TestRng {
    let mut h = Sha256::new();
    h.update(format!("{seed}/{prop}/{suite}/{idx}").as_bytes());
    let d: [u8; 32] = h.finalize().into();
    TestRng::from_seed(RngAlgorithm::ChaCha, &d)
}

fn clip(v: Value) -> Value {
    let s = v.to_string();
    if s.len() > 1500 {
        let mut cut = 1500;
        while !s.is_char_boundary(cut) { cut -= 1 }
        Value::String(format!("{}... ({} bytes)", &s[..cut], s.len()))
    } else {
        v
    }
}

fn run_caught<C>(s: &Suite<C>, c: &C, env: &Env) -> R<Info> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.run)(c, env))) {
        Ok(r) => r,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(Fail::E(format!("harness panic: {m}")))
        }
    }
}

impl<C: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static> AnySuite for Suite<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn replay(&self, env: &Env, case: &Value) -> R<Info> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| Fail::E(format!("bad replay: {e}")))?;
        run_caught(self, &c, env)
    }
    fn go(&self, prop: &str, env: &Env, deadline: Instant) -> Report {
        let total = match env.tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let total = match std::env::var("VH_CASES") {
            Ok(n) => n.parse().unwrap_or(total),
            _ => total,
        };
        let next = AtomicUsize::new(std::env::var("VH_FROM").ok().and_then(|n| n.parse().ok()).unwrap_or(0));
        let stop = AtomicBool::new(false);
        let rep = Mutex::new(Report::default());
        let seen: Mutex<HashSet<[u8; 32]>> = Mutex::new(HashSet::new());
        let label_seen: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
        std::thread::scope(|sc| {
            for _ in 0..self.threads.max(1) {
                sc.spawn(|| {
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            return;
                        }
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        if idx >= total {
                            return;
                        }
                        if Instant::now() > deadline {
                            rep.lock().unwrap().truncated = true;
                            return;
                        }
                        let mut runner = TestRunner::new_with_rng(
                            Config { failure_persistence: None, max_shrink_iters: 0, ..Config::default() },
                            case_rng(env.seed, prop, self.name, idx),
                        );
                        let mut tree = match (self.strat)().new_tree(&mut runner) {
                            Ok(t) => t,
                            Err(e) => {
                                rep.lock().unwrap().errors.push(format!("generator: {e}"));
                                stop.store(true, Ordering::Relaxed);
                                return;
                            }
                        };
                        let case = tree.current();
                        let res = run_caught(self, &case, env);
                        match res {
                            Ok(info) => {
                                let js = serde_json::to_value(&case).unwrap();
                                let h: [u8; 32] = Sha256::digest(js.to_string().as_bytes()).into();
                                let newcase = seen.lock().unwrap().insert(h);
                                let mut r = rep.lock().unwrap();
                                r.evaluations += 1;
                                let mut fresh_label = false;
                                for (k, v) in &info.labels {
                                    *r.labels.entry(k.clone()).or_default() += v;
                                    if label_seen.lock().unwrap().insert(k.clone()) {
                                        fresh_label = true
                                    }
                                }
                                if info.nontrivial && newcase {
                                    r.distinct_nontrivial += 1;
                                    if r.samples.len() < 3 || (fresh_label && r.samples.len() < 6) {
                                        r.samples.push(json!({"suite": self.name, "index": idx, "note": info.note, "case": clip(js)}));
                                    }
                                }
                            }
                            Err(Fail::K(sig, det)) => {
                                let mut r = rep.lock().unwrap();
                                r.evaluations += 1;
                                let e = r.known.entry(sig).or_insert((0, det));
                                e.0 += 1;
                            }
                            Err(Fail::E(e)) => {
                                let mut r = rep.lock().unwrap();
                                r.errors.push(format!("[{} #{idx}] {e}\ncase {}", self.name, clip(serde_json::to_value(&case).unwrap())));
                                if r.errors.len() > 3 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            Err(Fail::V(msg)) => {
                                if stop.swap(true, Ordering::SeqCst) {
                                    return; // somebody else is already shrinking
                                }
                                let (best, bmsg, iters) = shrink(self, env, &mut *tree, case, msg, idx);
                                let mut r = rep.lock().unwrap();
                                r.evaluations += 1;
                                r.violation = Some((
                                    format!("{bmsg}\n(suite {}, case {idx}, shrunk in {iters} runs)", self.name),
                                    json!({"property": prop, "suite": self.name, "seed": env.seed, "index": idx,
                                           "case": serde_json::to_value(&best).unwrap(), "message": bmsg}),
                                ));
                                return;
                            }
                        }
                    }
                });
            }
        });
        rep.into_inner().unwrap()
    }
}

fn shrink<C: Clone + Debug + Serialize>(
    s: &Suite<C>,
    env: &Env,
    tree: &mut dyn ValueTree<Value = C>,
    first: C,
    msg: String,
    idx: usize,
) -> (C, String, usize) {
    eprintln!("[{} #{idx}] failing: {msg}\n  shrinking...", s.name);
    let t0 = Instant::now();
    let budget = Duration::from_secs(if env.tier == Tier::Quick { 40 } else { 120 });
    let (mut best, mut bmsg) = (first, msg);
    let mut iters = 0;
    let mut ok = tree.simplify();
    while ok && iters < 400 && t0.elapsed() < budget {
        iters += 1;
        let c = tree.current();
        match run_caught(s, &c, env) {
            Err(Fail::V(m)) => {
                best = c;
                bmsg = m;
                ok = tree.simplify();
            }
            _ => ok = tree.complicate(),
        }
    }
    (best, bmsg, iters)
}

/// Split a u32 pick into an index.
pub fn pick(p: u32, n: usize) -> usize {
    (p as usize) % n.max(1)
}

pub fn boxed<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value>
where
    S::Value: 'static,
{
    s.boxed()
}
