//! Check engine: generation (proptest), sharding, shrinking, replay files, evidence,
//! allocation budget (turns runaway growth into a reported violation) and watchdog.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub type R = Result<(), String>;

/// The check's own standard output. The code under test may print too (`print_status`); `split_stdout`
/// sends that to /dev/null.
pub static OUT: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
#[macro_export]
macro_rules! out {
    ($($a:tt)*) => {{
        let line = format!("{}\n", format!($($a)*));
        let ok = match $crate::engine::OUT.get() {
            Some(mut f) => std::io::Write::write_all(&mut f, line.as_bytes()),
            None => std::io::Write::write_all(&mut std::io::stdout(), line.as_bytes()),
        };
        let _ = ok;
    }};
}
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(from: i32, to: i32) -> i32;
}
pub fn split_stdout() {
    use std::os::fd::{AsRawFd, FromRawFd};
    let Ok(null) = std::fs::OpenOptions::new().write(true).open("/dev/null") else { return };
    unsafe {
        let own = dup(1);
        if own >= 0 && OUT.set(std::fs::File::from_raw_fd(own)).is_ok() {
            dup2(null.as_raw_fd(), 1);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one evaluation of a case observed.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub cpu: f64,
}
impl Obs {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, b: bool, l: &'static str) {
        if b {
            self.label(l);
        }
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        if b {
            self.nontrivial = true;
        }
    }
}

pub trait Case: Clone + Debug + Serialize + DeserializeOwned + Send + 'static {}
impl<T: Clone + Debug + Serialize + DeserializeOwned + Send + 'static> Case for T {}

pub struct SubDef<C: Case> {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strategy: fn() -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Obs) -> R,
}

pub struct Failure {
    pub message: String,
    pub case_json: serde_json::Value,
}

#[derive(Default)]
pub struct ShardStats {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<serde_json::Value>,
    /// CPU seconds of the most expensive case
    pub slowest: f64,
}

pub trait DynSub: Sync + Send {
    fn name(&self) -> &'static str;
    fn cases(&self, t: Tier) -> u64;
    fn run_shard(&self, prop: &str, seed: u64, shard: u64, n: u64, stop: &AtomicBool) -> (ShardStats, Option<Failure>);
    fn replay(&self, prop: &str, case: &serde_json::Value) -> Result<R, String>;
    /// Drive one generation from raw bytes (fuzzing entry).
    fn show(&self, seed: u64, n: usize);
}

pub fn sub<C: Case>(
    name: &'static str,
    quick: u64,
    thorough: u64,
    strategy: fn() -> BoxedStrategy<C>,
    check: fn(&C, &mut Obs) -> R,
) -> Box<dyn DynSub> {
    Box::new(SubDef { name, quick, thorough, strategy, check })
}

// ---------------------------------------------------------------- allocation budget
pub struct BudgetAlloc;
const NO_BUDGET: usize = usize::MAX;
/// Largest single allocation any case may need: far above what the generators' domains require.
pub const CASE_BUDGET: usize = 512 << 20;

struct Current {
    case: *const (),
    ser: fn(*const ()) -> String,
    prop: *const str,
    sub: &'static str,
}
thread_local! {
    static BUDGET: Cell<usize> = const { Cell::new(NO_BUDGET) };
    static CURRENT: Cell<Option<Current>> = const { Cell::new(None) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static GUARDED: Cell<u32> = const { Cell::new(0) };
}
#[cold]
fn over_budget(size: usize) {
    let cur = CURRENT.with(|c| c.take());
    BUDGET.with(|b| b.set(NO_BUDGET));
    if let Some(cur) = cur {
        let prop = unsafe { &*cur.prop }.to_string();
        let json = (cur.ser)(cur.case);
        let msg = format!("runaway memory: a single allocation of {size} bytes was requested (case budget {CASE_BUDGET})");
        let val: serde_json::Value = serde_json::from_str(&json).unwrap_or(serde_json::Value::Null);
        let path = write_replay(&prop, cur.sub, &Failure { message: msg.clone(), case_json: val });
        emergency_exit(&prop, cur.sub, &msg, &path);
    }
}
fn emergency_exit(prop: &str, sub: &str, msg: &str, path: &Path) -> ! {
    static ONCE: Mutex<()> = Mutex::new(());
    let _g = ONCE.lock();
    write_min_evidence(prop, sub, msg);
    out!("{prop}/{sub}: {msg}");
    out!("VIOLATION property={prop} replay={}", path.display());
    std::process::exit(1);
}
/// Largest allocation of the running sub-check's cases, of those over 64 MB.
static LARGEST: AtomicUsize = AtomicUsize::new(0);
fn large(size: usize) {
    let budget = BUDGET.with(|b| b.get());
    if size > budget {
        over_budget(size);
    } else if budget != NO_BUDGET {
        LARGEST.fetch_max(size, Ordering::Relaxed);
    }
}
unsafe impl GlobalAlloc for BudgetAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > (64 << 20) {
            large(l.size());
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > (64 << 20) {
            large(l.size());
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > (64 << 20) {
            large(n);
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

// ---------------------------------------------------------------- panics
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if GUARDED.with(|g| g.get()) > 0 {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            let mut full = format!("{m}{loc}");
            if full.len() > 600 {
                let mut k = 600;
                while !full.is_char_boundary(k) {
                    k -= 1;
                }
                full.truncate(k);
            }
            PANIC_MSG.with(|p| *p.borrow_mut() = Some(full));
        } else {
            default(info);
        }
    }));
}
/// Runs f; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(|_| PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}
/// Runs f, reporting a panic of the code under test as a failure of the property.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    guard(f).map_err(|m| format!("{what} panicked: {m}"))
}
pub fn must_panic<T>(what: &str, f: impl FnOnce() -> T) -> R {
    match guard(f) {
        Ok(_) => Err(format!("{what} was accepted but must be rejected")),
        Err(_) => Ok(()),
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !($c) { return Err(format!($($a)+)); } };
}

fn hash64(parts: &[&[u8]]) -> u64 {
    // FNV-1a, then a finalizer: stable across runs and toolchains.
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in p.iter() {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^ (h >> 33)
}

struct FxWrite(std::collections::hash_map::DefaultHasher);
impl std::io::Write for FxWrite {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        b.hash(&mut self.0);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn case_hash<C: Serialize>(c: &C) -> u64 {
    let mut w = FxWrite(std::collections::hash_map::DefaultHasher::new());
    let _ = serde_json::to_writer(&mut w, c);
    w.0.finish()
}

fn ser_case<C: Serialize>(p: *const ()) -> String {
    let c: &C = unsafe { &*(p as *const C) };
    serde_json::to_string(c).unwrap_or_else(|_| "null".into())
}

// ---------------------------------------------------------------- hang detection
/// A case normally takes milliseconds. One that has burnt this much CPU time on its own thread is
/// reported as a violation (non-termination); the CPU clock makes this immune to a loaded machine.
const HANG_CPU_S: f64 = 120.0;
#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, clk: *mut i32) -> i32;
    fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32;
}
fn cpu_time(clk: i32) -> Option<f64> {
    let mut t = Timespec { s: 0, ns: 0 };
    let r = unsafe { clock_gettime(clk, &mut t) };
    if r == 0 {
        Some(t.s as f64 + t.ns as f64 * 1e-9)
    } else {
        None
    }
}
struct Running {
    cur: Current,
    since: f64,
}
unsafe impl Send for Running {}
struct Slot {
    clk: i32,
    run: Mutex<Option<Running>>,
}
static SLOTS: Mutex<Vec<std::sync::Arc<Slot>>> = Mutex::new(vec![]);
thread_local! {
    static SLOT: std::sync::Arc<Slot> = {
        let mut clk = -1;
        unsafe { pthread_getcpuclockid(pthread_self(), &mut clk) };
        let s = std::sync::Arc::new(Slot { clk, run: Mutex::new(None) });
        SLOTS.lock().unwrap().push(s.clone());
        s
    };
}
fn check_hangs() {
    for s in SLOTS.lock().unwrap().iter() {
        let g = s.run.lock().unwrap();
        if let Some(r) = g.as_ref() {
            if let Some(now) = cpu_time(s.clk) {
                if now - r.since > HANG_CPU_S {
                    let prop = unsafe { &*r.cur.prop }.to_string();
                    let val = serde_json::from_str(&(r.cur.ser)(r.cur.case)).unwrap_or(serde_json::Value::Null);
                    let msg = format!("does not terminate: one case has used {:.0} s of CPU time", now - r.since);
                    let path = write_replay(&prop, r.cur.sub, &Failure { message: msg.clone(), case_json: val });
                    emergency_exit(&prop, r.cur.sub, &msg, &path);
                }
            }
        }
    }
}

/// A shard runs its cases in blocks, each with a random generator of its own.
const BLOCK: u64 = 4096;
/// Distinct non-trivial cases remembered per shard; further ones are run but not counted.
const DISTINCT_CAP: usize = 600_000;
/// A run gives its answer in time on any machine: past this many seconds no further case is started.
const TIME_CAP: u64 = 780;
static STARTED: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn out_of_time() -> bool {
    STARTED.get_or_init(Instant::now).elapsed().as_secs() >= TIME_CAP
}

impl<C: Case> SubDef<C> {
    fn eval(&self, prop: &str, c: &C, obs: &mut Obs) -> R {
        let p: *const str = unsafe { std::mem::transmute::<&str, &'static str>(prop) };
        CURRENT.with(|k| k.set(Some(Current { case: c as *const C as *const (), ser: ser_case::<C>, prop: p, sub: self.name })));
        SLOT.with(|s| {
            let cur = Current { case: c as *const C as *const (), ser: ser_case::<C>, prop: p, sub: self.name };
            *s.run.lock().unwrap() = cpu_time(s.clk).map(|since| Running { cur, since });
        });
        BUDGET.with(|b| b.set(CASE_BUDGET));
        let r = guard(|| (self.check)(c, obs));
        BUDGET.with(|b| b.set(NO_BUDGET));
        CURRENT.with(|k| k.set(None));
        SLOT.with(|s| {
            if let (Some(r), Some(now)) = (s.run.lock().unwrap().take(), cpu_time(s.clk)) {
                obs.cpu = now - r.since;
            }
        });
        match r {
            Ok(r) => r,
            Err(m) => Err(format!("panicked: {m}")),
        }
    }
}

fn clip(v: serde_json::Value) -> serde_json::Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        v
    } else {
        let mut k = 1500;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        serde_json::Value::String(format!("{}... ({} bytes of JSON)", &s[..k], s.len()))
    }
}

impl<C: Case> DynSub for SubDef<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn cases(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            self.quick
        } else {
            self.thorough
        }
    }
    fn run_shard(&self, prop: &str, seed: u64, shard: u64, n: u64, stop: &AtomicBool) -> (ShardStats, Option<Failure>) {
        let strat = (self.strategy)();
        let stats = RefCell::new(ShardStats::default());
        let last_msg = RefCell::new(String::new());
        let failed = Cell::new(false);
        let mut res = Ok(());
        for block in 0..n.div_ceil(BLOCK) {
            if stop.load(Ordering::Relaxed) || out_of_time() || res.is_err() {
                break;
            }
            let mut key = [0u8; 32];
            for i in 0..4u64 {
                let h = hash64(&[prop.as_bytes(), self.name.as_bytes(), &seed.to_le_bytes(), &(shard + SHARDS * block).to_le_bytes(), &i.to_le_bytes()]);
                key[(i as usize) * 8..][..8].copy_from_slice(&h.to_le_bytes());
            }
            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &key);
            let mut cfg = Config::default();
            cfg.cases = BLOCK.min(n - block * BLOCK) as u32;
            cfg.failure_persistence = None;
            cfg.max_shrink_iters = 3000;
            cfg.max_shrink_time = 30_000;
            cfg.max_global_rejects = u32::MAX;
            cfg.max_local_rejects = 1_000_000;
            cfg.source_file = None;
            cfg.verbose = 0;
            let mut runner = TestRunner::new_with_rng(cfg, rng);
            res = runner.run(&strat, |c| {
            if stop.load(Ordering::Relaxed) && !failed.get() {
                return Ok(());
            }
            if !failed.get() && out_of_time() {
                return Ok(());
            }
            HEART.fetch_add(1, Ordering::Relaxed);
            let mut obs = Obs::default();
            let r = self.eval(prop, &c, &mut obs);
            if !failed.get() {
                let mut s = stats.borrow_mut();
                s.evals += 1;
                s.slowest = s.slowest.max(obs.cpu);
                for l in &obs.labels {
                    *s.labels.entry(l).or_insert(0) += 1;
                }
                if obs.nontrivial {
                    if s.nontrivial.len() < DISTINCT_CAP {
                        s.nontrivial.insert(case_hash(&c));
                    }
                    if shard == 0 && s.samples.len() < 2 {
                        s.samples.push(clip(serde_json::to_value(&c).unwrap_or_default()));
                    }
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(m) => {
                    failed.set(true);
                    stop.store(true, Ordering::Relaxed);
                    *last_msg.borrow_mut() = m.clone();
                    Err(TestCaseError::fail(m))
                }
            }
            });
        }
        let fail = match res {
            Ok(()) => None,
            Err(TestError::Fail(_, c)) => {
                let mut obs = Obs::default();
                let msg = match self.eval(prop, &c, &mut obs) {
                    Err(m) => m,
                    Ok(()) => last_msg.borrow().clone(),
                };
                Some(Failure { message: msg, case_json: serde_json::to_value(&c).unwrap_or_default() })
            }
            Err(TestError::Abort(r)) => {
                eprintln!("{prop}/{}: generator aborted: {r}", self.name);
                std::process::exit(3);
            }
        };
        (stats.into_inner(), fail)
    }
    fn replay(&self, prop: &str, case: &serde_json::Value) -> Result<R, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("replay case does not parse: {e}"))?;
        let mut obs = Obs::default();
        Ok(self.eval(prop, &c, &mut obs))
    }
    fn show(&self, seed: u64, n: usize) {
        use proptest::strategy::ValueTree;
        let mut key = [7u8; 32];
        key[..8].copy_from_slice(&seed.to_le_bytes());
        let mut cfg = Config::default();
        cfg.failure_persistence = None;
        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &key));
        let strat = (self.strategy)();
        for _ in 0..n {
            out!("{}", serde_json::to_string(&strat.new_tree(&mut runner).unwrap().current()).unwrap());
        }
    }
}

// ---------------------------------------------------------------- files
pub fn verif_dir() -> PathBuf {
    std::env::var("KCHECK_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

#[derive(Serialize, Deserialize)]
pub struct ReplayFile {
    pub property: String,
    pub sub: String,
    pub message: String,
    pub case: serde_json::Value,
}

pub fn write_replay(prop: &str, sub: &str, f: &Failure) -> PathBuf {
    let rf = ReplayFile { property: prop.into(), sub: sub.into(), message: f.message.clone(), case: f.case_json.clone() };
    let body = serde_json::to_string_pretty(&rf).unwrap();
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let h = hash64(&[f.case_json.to_string().as_bytes()]);
    let path = dir.join(format!("{prop}-{sub}-{:08x}.json", h as u32));
    let _ = std::fs::write(&path, body);
    path
}

fn write_min_evidence(prop: &str, sub: &str, msg: &str) {
    let v = serde_json::json!({
        "property": prop, "tier": tier_name(), "seed": env_seed(), "level": "exploration",
        "coverage": {"evaluations": HEART.load(Ordering::Relaxed), "distinct_nontrivial": 0,
            "rule": "run ended early by a resource violation", "samples": [format!("{sub}: {msg}")]},
        "wall_s": 0.0, "violations": 1 });
    let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
    let _ = std::fs::write(verif_dir().join("evidence").join(format!("{prop}.json")), v.to_string());
}

pub fn env_seed() -> u64 {
    match std::env::var("VERIF_SEED") {
        Ok(s) => s.trim().parse::<u64>().unwrap_or_else(|_| hash64(&[s.as_bytes()])),
        Err(_) => 1,
    }
}
pub fn tier_name() -> &'static str {
    if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
        "thorough"
    } else {
        "quick"
    }
}

// ---------------------------------------------------------------- runner
static HEART: AtomicU64 = AtomicU64::new(0);
pub const SHARDS: u64 = 64;

pub struct PropDef {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Box<dyn DynSub>>,
}

pub fn start_watchdog() {
    std::thread::spawn(|| {
        let mut last = 0;
        let mut still = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(5));
            check_hangs();
            let h = HEART.load(Ordering::Relaxed);
            if h == last {
                still += 5;
            } else {
                still = 0;
            }
            last = h;
            if still >= 180 {
                eprintln!("INCONCLUSIVE: no case finished for {still} s (watchdog)");
                std::process::exit(3);
            }
        }
    });
}

/// Known findings: lines "KNOWN property=<id> sub=<sub> case=<json>"; fixed entries are ignored.
fn known_findings(prop: &str) -> Vec<(String, serde_json::Value, String)> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.jsonl")) {
        for l in s.lines() {
            if let Ok(v) = serde_json::from_str::<serde_json::Value>(l) {
                if v["property"] == prop && v["status"] == "known" {
                    out.push((v["sub"].as_str().unwrap_or("").into(), v["case"].clone(), v["what"].as_str().unwrap_or("").into()));
                }
            }
        }
    }
    out
}

pub fn run_property(p: &PropDef, tier: Tier, scale: f64, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    out_of_time(); // starts the clock
    let seed = env_seed();
    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut breakdown = vec![];
    let mut failure: Option<(String, Failure)> = None;

    for (sub, case, what) in known_findings(p.id) {
        if let Some(s) = p.subs.iter().find(|s| s.name() == sub) {
            if let Ok(Err(_)) = s.replay(p.id, &case) {
                out!("KNOWN-FINDING: property={} {}", p.id, what);
            }
        }
    }
    // Regression tier: saved inputs, re-run without generation.
    let mut replayed = 0u64;
    let rdir = verif_dir().join("regress").join(p.id);
    if let Ok(rd) = std::fs::read_dir(&rdir) {
        let mut files: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
        files.sort();
        for f in files {
            let Ok(s) = std::fs::read_to_string(&f) else { continue };
            let Ok(rf) = serde_json::from_str::<ReplayFile>(&s) else {
                eprintln!("bad regression file {}", f.display());
                return 3;
            };
            let Some(sd) = p.subs.iter().find(|s| s.name() == rf.sub) else { continue };
            HEART.fetch_add(1, Ordering::Relaxed);
            match sd.replay(p.id, &rf.case) {
                Ok(Ok(())) => replayed += 1,
                Ok(Err(m)) => {
                    failure = Some((rf.sub.clone(), Failure { message: m, case_json: rf.case.clone() }));
                    break;
                }
                Err(e) => {
                    eprintln!("{}: {e}", f.display());
                    return 3;
                }
            }
        }
    }

    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    for s in &p.subs {
        if failure.is_some() {
            break;
        }
        if let Some(o) = only {
            if o != s.name() {
                continue;
            }
        }
        let ts = Instant::now();
        let total = ((s.cases(tier) as f64 * scale) as u64).max(SHARDS);
        let per = total.div_ceil(SHARDS);
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let results: Mutex<Vec<(u64, ShardStats, Option<Failure>)>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, || loop {
                        let i = next.fetch_add(1, Ordering::Relaxed) as u64;
                        if i >= SHARDS || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let (st, f) = s.run_shard(p.id, seed, i, per, &stop);
                        results.lock().unwrap().push((i, st, f));
                    })
                    .unwrap();
            }
        });
        let mut rs = results.into_inner().unwrap();
        rs.sort_by_key(|r| r.0);
        let mut all = HashSet::new();
        let mut e = 0;
        let largest = LARGEST.swap(0, Ordering::Relaxed);
        let mut slowest = 0f64;
        let mut sublabels: BTreeMap<&str, u64> = BTreeMap::new();
        for (_, st, f) in rs {
            e += st.evals;
            slowest = slowest.max(st.slowest);
            all.extend(st.nontrivial);
            for (l, n) in st.labels {
                *sublabels.entry(l).or_insert(0) += n;
                *labels.entry(format!("{}:{}", s.name(), l)).or_insert(0) += n;
            }
            for smp in st.samples {
                samples.push(serde_json::json!({"sub": s.name(), "case": smp}));
            }
            if failure.is_none() {
                if let Some(f) = f {
                    failure = Some((s.name().to_string(), f));
                }
            }
        }
        evals += e;
        nontrivial += all.len() as u64;
        out!("{}/{}: {} cases, {} distinct non-trivial, {:.1}s, slowest case {:.3}s CPU{} {:?}", p.id, s.name(), e, all.len(), ts.elapsed().as_secs_f64(), slowest, if largest > 0 { format!(", largest allocation {} MB", largest >> 20) } else { String::new() }, sublabels);
        breakdown.push(serde_json::json!({"sub": s.name(), "evaluations": e, "distinct_nontrivial": all.len(), "wall_s": ts.elapsed().as_secs_f64(), "slowest_case_cpu_s": slowest, "largest_allocation_over_64_mb": largest}));
    }
    if samples.is_empty() {
        samples.push(serde_json::json!("no non-trivial case in shard 0 before the run ended"));
    }
    let v = serde_json::json!({
        "property": p.id, "tier": if tier == Tier::Quick {"quick"} else {"thorough"}, "seed": seed,
        "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": nontrivial, "rule": p.rule, "samples": samples,
            "distinct_counting_cap_per_sub_check": DISTINCT_CAP as u64 * SHARDS, "cut_short_by_time": out_of_time(),
            "regression_inputs_replayed": replayed, "sub_checks": breakdown, "classes": labels,
            "exhaustive": false},
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if failure.is_some() {1} else {0}});
    let _ = std::fs::create_dir_all(verif_dir().join("evidence"));
    if let Err(e) = std::fs::write(verif_dir().join("evidence").join(format!("{}.json", p.id)), serde_json::to_string_pretty(&v).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        return 3;
    }
    if let Some((s, f)) = failure {
        for (ks, kc, what) in known_findings(p.id) {
            if ks == s && kc == f.case_json {
                out!("KNOWN-FINDING: property={} {}", p.id, what);
                return 0;
            }
        }
        let path = write_replay(p.id, &s, &f);
        out!("{}/{}: {}", p.id, s, f.message);
        out!("minimal case: {}", clip(f.case_json.clone()));
        out!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    out!("{}: held on {} cases ({} distinct non-trivial), {:.1}s", p.id, evals, nontrivial, t0.elapsed().as_secs_f64());
    0
}

pub fn boxed<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
    s.boxed()
}
