//! Deterministic generated-input engine: every check is a set of "subs", each a proptest strategy
//! (sharded over 8 fixed, independently seeded runners) or a finite enumeration, plus an oracle
//! over a serialisable case. Failures are shrunk by proptest and written as replay files.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SHARDS: usize = 8;
const MAX_SHRINK: u32 = 3000;
const SHRINK_SECS: u64 = 60;
/// Normal cases take microseconds to a few seconds. One that has burnt this much processor time of
/// its own thread (so a loaded machine does not matter) does not end: that is reported as a failure.
const CASE_CPU_LIMIT: Duration = Duration::from_secs(120);
/// A case that sits this long without using the processor leaves the run without an answer.
const CASE_WALL_LIMIT: Duration = Duration::from_secs(600);

/// bytes that serialise as hex
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct B(pub Vec<u8>);
impl Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "0x{}", hex(&self.0))
    }
}
pub fn hex(b: &[u8]) -> String {
    const H: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(H[(x >> 4) as usize] as char);
        s.push(H[(x & 15) as usize] as char);
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
impl Serialize for B {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        unhex(&s).map(B).ok_or_else(|| serde::de::Error::custom("bad hex"))
    }
}

/// What one passing evaluation was.
#[derive(Default, Clone)]
pub struct Out {
    pub nontrivial: bool,
    pub classes: Vec<String>,
}
pub type R = Result<Out, String>;
pub fn ok(nontrivial: bool) -> R {
    Ok(Out { nontrivial, classes: vec![] })
}
pub fn okc<S: Into<String>>(nontrivial: bool, classes: Vec<S>) -> R {
    Ok(Out { nontrivial, classes: classes.into_iter().map(Into::into).collect() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !($c) { return Err(format!($($a)+)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)+) => {{
        match (&$a, &$b) {
            (a, b) => if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)+), a, b)); }
        }
    }};
}

pub struct Env {
    pub seed: u64,
    pub thorough: bool,
}

#[derive(Default)]
pub struct ShardStats {
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
}

pub struct Failure {
    pub sub: String,
    pub case: serde_json::Value,
    pub message: String,
    pub shrinks: u32,
}

pub struct SubReport {
    pub name: String,
    pub kind: &'static str,
    pub evals: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub failure: Option<Failure>,
    pub secs: f64,
}

pub trait Sub: Send + Sync {
    fn name(&self) -> &str;
    fn run(&self, env: &Env) -> SubReport;
    fn replay(&self, case: &serde_json::Value) -> Result<(), String>;
}

// ---- panic capture -------------------------------------------------------------------------
thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        if !QUIET.with(|q| q.get()) {
            default(info);
        }
    }));
}
/// Runs `f`; a panic becomes Err(message).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}
fn guarded<C>(check: &(dyn Fn(&C) -> R + Send + Sync), c: &C) -> R {
    match no_panic(|| check(c)) {
        Ok(r) => r,
        Err(m) => Err(m),
    }
}
/// As `guarded`, with the watchdog informed; with HARNESS_TRACE=<dir> the case is on disk while it
/// runs, so that a run killed by it (abort, stack overflow, hang) can be traced to the case.
fn evaluate<C: Serialize + Clone + Send + 'static>(sub: &str, shard: usize, check: &(dyn Fn(&C) -> R + Send + Sync), c: &C) -> R {
    let trace = TRACE.get_or_init(|| std::env::var("HARNESS_TRACE").ok()).as_ref().map(|d| format!("{d}/{shard}.json"));
    if let Some(p) = &trace {
        let body = serde_json::json!({"sub": sub, "message": "the process died or hung on this case", "case": c});
        let part = format!("{p}.part");
        let _ = std::fs::write(&part, serde_json::to_string_pretty(&body).unwrap_or_default()).and_then(|_| std::fs::rename(&part, p));
    }
    let copy = c.clone();
    beat(shard, sub, Box::new(move || serde_json::to_value(&copy).unwrap_or(serde_json::Value::Null)));
    let r = guarded(check, c);
    unbeat(shard);
    if let Some(p) = &trace {
        let _ = std::fs::remove_file(p);
    }
    r
}
static TRACE: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();

// ---- watchdog ------------------------------------------------------------------------------
struct Running {
    sub: String,
    since: Instant,
    clock: i32,
    cpu: Duration,
    case: Box<dyn Fn() -> serde_json::Value + Send>,
}
static RUNNING: [Mutex<Option<Running>>; SHARDS] = [const { Mutex::new(None) }; SHARDS];
#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
fn cpu_time(clock: i32) -> Duration {
    let mut t = Timespec { sec: 0, nsec: 0 };
    if unsafe { clock_gettime(clock, &mut t) } != 0 {
        return Duration::ZERO;
    }
    Duration::new(t.sec as u64, t.nsec as u32)
}
thread_local! {
    static CLOCK: i32 = {
        let mut c = 0;
        unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
        c
    };
}
fn beat(shard: usize, sub: &str, case: Box<dyn Fn() -> serde_json::Value + Send>) {
    let clock = CLOCK.with(|c| *c);
    *RUNNING[shard].lock().unwrap() = Some(Running { sub: sub.into(), since: Instant::now(), clock, cpu: cpu_time(clock), case });
}
fn unbeat(shard: usize) {
    *RUNNING[shard].lock().unwrap() = None;
}
pub fn start_watchdog(total_limit: Duration, report: fn(&Failure)) {
    let start = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        if start.elapsed() > total_limit {
            eprintln!("INCONCLUSIVE: total time limit reached");
            std::process::exit(3);
        }
        for (i, r) in RUNNING.iter().enumerate() {
            let g = r.lock().unwrap();
            if let Some(r) = g.as_ref() {
                if cpu_time(r.clock).saturating_sub(r.cpu) > CASE_CPU_LIMIT {
                    let message = format!("the case did not end within {CASE_CPU_LIMIT:?} of processor time");
                    report(&Failure { sub: r.sub.clone(), case: (r.case)(), message, shrinks: 0 });
                    std::process::exit(1);
                }
                if r.since.elapsed() > CASE_WALL_LIMIT {
                    eprintln!("INCONCLUSIVE: a case on shard {i} is stuck");
                    std::process::exit(3);
                }
            }
        }
    });
}
/// Runs a replay under the same limit.
pub fn replay_beat(sub: &str) {
    beat(0, sub, Box::new(|| serde_json::Value::Null));
}

fn hash64<T: Hash>(t: &T) -> u64 {
    // SipHash with fixed keys: deterministic
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn sub_seed(seed: u64, name: &str, shard: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        out[(i as usize) * 8..][..8].copy_from_slice(&hash64(&(seed, name, shard as u64, i)).to_le_bytes());
    }
    out
}

const SAMPLE_CHARS: usize = 600;
fn sample_json<C: Serialize>(c: &C) -> serde_json::Value {
    let s = serde_json::to_string(c).unwrap_or_default();
    if s.len() <= SAMPLE_CHARS {
        serde_json::from_str(&s).unwrap_or(serde_json::Value::Null)
    } else {
        let cut: String = s.chars().take(SAMPLE_CHARS).collect();
        serde_json::Value::String(format!("{cut}... ({} chars)", s.len()))
    }
}

impl ShardStats {
    fn record<C: Serialize>(&mut self, c: &C, out: &Out) {
        self.evals += 1;
        for k in &out.classes {
            let full = self.classes.len() >= 2000 && !self.classes.contains_key(k);
            *self.classes.entry(if full { "(others)".into() } else { k.clone() }).or_default() += 1;
        }
        if out.nontrivial {
            self.nontrivial += 1;
            let s = serde_json::to_vec(c).unwrap_or_default();
            if self.distinct.insert(hash64(&s)) && self.samples.len() < 2 && self.distinct.len() % 7 == 1 {
                self.samples.push(sample_json(c));
            }
        }
    }
}

fn merge(name: &str, kind: &'static str, shards: Vec<(ShardStats, Option<Failure>)>, t: Instant) -> SubReport {
    let mut r = SubReport {
        name: name.into(),
        kind,
        evals: 0,
        nontrivial: 0,
        distinct: 0,
        classes: BTreeMap::new(),
        samples: vec![],
        failure: None,
        secs: 0.0,
    };
    let mut all: HashSet<u64> = HashSet::new();
    for (s, f) in shards {
        r.evals += s.evals;
        r.nontrivial += s.nontrivial;
        all.extend(s.distinct);
        for (k, v) in s.classes {
            *r.classes.entry(k).or_default() += v;
        }
        if r.samples.len() < 2 {
            r.samples.extend(s.samples.into_iter().take(1));
        }
        if r.failure.is_none() {
            r.failure = f;
        }
    }
    r.distinct = all.len() as u64;
    r.secs = t.elapsed().as_secs_f64();
    r
}

// ---- generated subs ------------------------------------------------------------------------
struct Prop<C> {
    name: String,
    quick: u32,
    thorough: u32,
    strat: Box<dyn Fn() -> BoxedStrategy<C> + Send + Sync>,
    check: Box<dyn Fn(&C) -> R + Send + Sync>,
}

impl<C: Serialize + DeserializeOwned + Debug + Clone + Send + 'static> Sub for Prop<C> {
    fn name(&self) -> &str {
        &self.name
    }
    fn run(&self, env: &Env) -> SubReport {
        let t = Instant::now();
        let total = if env.thorough { self.thorough } else { self.quick };
        let stop = AtomicBool::new(false);
        let shards: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..SHARDS)
                .map(|i| {
                    let stop = &stop;
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || self.shard(env, i, (total as usize).div_ceil(SHARDS), stop))
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        merge(&self.name, "generated", shards, t)
    }
    fn replay(&self, case: &serde_json::Value) -> Result<(), String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("cannot decode replay case: {e}"))?;
        guarded(&*self.check, &c).map(|_| ())
    }
}
impl<C: Serialize + DeserializeOwned + Debug + Clone + Send + 'static> Prop<C> {
    fn shard(&self, env: &Env, shard: usize, cases: usize, stop: &AtomicBool) -> (ShardStats, Option<Failure>) {
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &sub_seed(env.seed, &self.name, shard));
        let cfg = Config { failure_persistence: None, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let strat = (self.strat)();
        let mut st = ShardStats::default();
        for _ in 0..cases {
            if stop.load(Ordering::Relaxed) {
                break;
            }
            let mut tree = match strat.new_tree(&mut runner) {
                Ok(t) => t,
                Err(e) => {
                    eprintln!("generator {} rejected: {e}", self.name);
                    std::process::exit(3);
                }
            };
            let c = tree.current();
            let r = evaluate(&self.name, shard, &*self.check, &c);
            match r {
                Ok(out) => st.record(&c, &out),
                Err(msg) => {
                    st.evals += 1;
                    // shrink
                    let mut best = (c, msg);
                    let mut n = 0;
                    let t0 = Instant::now();
                    let mut go = tree.simplify();
                    while go && n < MAX_SHRINK && t0.elapsed().as_secs() < SHRINK_SECS {
                        n += 1;
                        let c = tree.current();
                        let r = evaluate(&self.name, shard, &*self.check, &c);
                        go = match r {
                            Err(m) => {
                                best = (c, m);
                                tree.simplify()
                            }
                            Ok(_) => tree.complicate(),
                        };
                    }
                    stop.store(true, Ordering::Relaxed);
                    let f = Failure {
                        sub: self.name.clone(),
                        case: serde_json::to_value(&best.0).unwrap_or(serde_json::Value::Null),
                        message: best.1,
                        shrinks: n,
                    };
                    return (st, Some(f));
                }
            }
        }
        (st, None)
    }
}

pub fn prop<C, S, G, K>(name: &str, quick: u32, thorough: u32, strat: G, check: K) -> Box<dyn Sub>
where
    C: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
    S: Strategy<Value = C> + 'static,
    G: Fn() -> S + Send + Sync + 'static,
    K: Fn(&C) -> R + Send + Sync + 'static,
{
    Box::new(Prop {
        name: name.into(),
        quick,
        thorough,
        strat: Box::new(move || strat().boxed()),
        check: Box::new(check),
    })
}

// ---- finite enumerations --------------------------------------------------------------------
struct Enum<C> {
    name: String,
    iter: Box<dyn Fn(&Env) -> Box<dyn Iterator<Item = C>> + Send + Sync>,
    check: Box<dyn Fn(&C) -> R + Send + Sync>,
}
impl<C: Serialize + DeserializeOwned + Debug + Clone + Send + 'static> Sub for Enum<C> {
    fn name(&self) -> &str {
        &self.name
    }
    fn run(&self, env: &Env) -> SubReport {
        let t = Instant::now();
        let shards: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..SHARDS)
                .map(|i| {
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            let mut st = ShardStats::default();
                            for c in (self.iter)(env).skip(i).step_by(SHARDS) {
                                let r = evaluate(&self.name, i, &*self.check, &c);
                                match r {
                                    Ok(out) => st.record(&c, &out),
                                    Err(message) => {
                                        st.evals += 1;
                                        let case = serde_json::to_value(&c).unwrap_or(serde_json::Value::Null);
                                        let f = Failure { sub: self.name.clone(), case, message, shrinks: 0 };
                                        return (st, Some(f));
                                    }
                                }
                            }
                            (st, None)
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        merge(&self.name, "enumerated", shards, t)
    }
    fn replay(&self, case: &serde_json::Value) -> Result<(), String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("cannot decode replay case: {e}"))?;
        guarded(&*self.check, &c).map(|_| ())
    }
}
pub fn each<C, I, G, K>(name: &str, iter: G, check: K) -> Box<dyn Sub>
where
    C: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
    I: Iterator<Item = C> + 'static,
    G: Fn(&Env) -> I + Send + Sync + 'static,
    K: Fn(&C) -> R + Send + Sync + 'static,
{
    Box::new(Enum { name: name.into(), iter: Box::new(move |e| Box::new(iter(e))), check: Box::new(check) })
}

/// A single fixed input recorded as a known finding; see known_findings.txt.
pub struct Probe {
    pub key: &'static str,
    pub run: fn() -> Result<(), String>,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub subs: Vec<Box<dyn Sub>>,
    pub probes: Vec<Probe>,
}
