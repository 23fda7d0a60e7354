//! Drives generated cases, shrinks failures, writes replays and evidence.
use crate::util::{hash64, splitmix};
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
/// What a passing case was worth.
#[derive(Default, Debug)]
pub struct Outcome {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
}
impl Outcome {
    pub fn new(nontrivial: bool, classes: Vec<&'static str>) -> Self {
        Outcome { nontrivial, classes }
    }
}
pub type CaseResult = Result<Outcome, String>;

pub enum Exec {
    Pass(Outcome),
    Fail(String),
    Harness(String),
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static IS_CASE: RefCell<bool> = const { RefCell::new(false) };
}
/// Panics on threads the code under test started.
pub static BACKGROUND_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// Fails when a thread of the code under test panicked since the last call.
pub fn background_panics() -> Result<(), String> {
    let first = BACKGROUND_PANICS.lock().unwrap().drain(..).next();
    match first {
        Some(m) => Err(format!("in a background thread: {m}")),
        None => Ok(()),
    }
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        if IS_CASE.with(|c| *c.borrow()) {
            LAST_PANIC.with(|l| *l.borrow_mut() = Some((loc, msg)));
        } else if loc.contains(&format!("{}/", crate::util::repo())) || !loc.starts_with("src/") {
            BACKGROUND_PANICS.lock().unwrap().push(format!("panic at {loc}: {msg}"));
        } else {
            eprintln!("harness thread panic at {loc}: {msg}");
        }
    }));
}

/// A panic with this payload is a verdict of the harness, not a defect of it.
pub struct Spin(pub String);
pub fn spin(msg: impl Into<String>) -> ! {
    std::panic::panic_any(Spin(msg.into()))
}

fn panic_to_exec(p: Box<dyn Any + Send>) -> Exec {
    if let Some(s) = p.downcast_ref::<Spin>() {
        return Exec::Fail(s.0.clone());
    }
    let (loc, msg) = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
    if loc.starts_with("src/") {
        Exec::Harness(format!("harness panic at {loc}: {msg}"))
    } else {
        Exec::Fail(format!("panic at {loc}: {msg}"))
    }
}

/// Seconds of processor time no quick case comes near.
const SPIN: u64 = 150;
/// Seconds asleep, without a wake-up, no case comes near.
const STUCK: u32 = 90;
const WATCHDOG: Duration = Duration::from_secs(400);
const WATCHDOG_THOROUGH: Duration = Duration::from_secs(6000);
pub static THOROUGH: AtomicBool = AtomicBool::new(false);
/// A case does not end: its threads remain, so nothing else is run.
static HUNG: AtomicBool = AtomicBool::new(false);

fn gettid() -> i32 {
    extern "C" {
        fn gettid() -> i32;
    }
    unsafe { gettid() }
}
thread_local! {
    /// Where the watchdog finds the thread that works for this thread's case.
    static WORKING: RefCell<Arc<AtomicI32>> = RefCell::new(Arc::default());
}
/// Processor time in clock ticks, context switches, and whether the thread sleeps.
fn thread_state(tid: i32) -> Option<(u64, u64, bool)> {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let f: Vec<&str> = stat[stat.rfind(')')? + 2..].split(' ').collect();
    let cpu = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    let status = std::fs::read_to_string(format!("/proc/self/task/{tid}/status")).ok()?;
    let switches = status.lines().filter(|l| l.contains("ctxt_switches")).filter_map(|l| l.split_whitespace().last()?.parse::<u64>().ok()).sum();
    Some((cpu, switches, f[0] == "S"))
}
/// Waits for the case; ends with a verdict when it spins or sleeps forever. Time is counted
/// in processor time or in this thread's own wake-ups, so a slow machine changes nothing.
fn wait_for(rx: &mpsc::Receiver<Exec>, tid: &AtomicI32) -> Option<Exec> {
    let thorough = THOROUGH.load(Ordering::Relaxed);
    let limit = if thorough { WATCHDOG_THOROUGH } else { WATCHDOG };
    let (t0, mut asleep, mut last) = (Instant::now(), 0, None);
    loop {
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok(r) => return Some(r),
            Err(mpsc::RecvTimeoutError::Disconnected) => return None,
            Err(mpsc::RecvTimeoutError::Timeout) => {}
        }
        let now = thread_state(tid.load(Ordering::SeqCst));
        asleep = if now.is_some_and(|n| n.2) && now == last { asleep + 1 } else { 0 };
        last = now;
        if asleep >= STUCK {
            HUNG.store(true, Ordering::SeqCst);
            return Some(Exec::Fail("an operation never returns: it waits for something that does not happen".into()));
        }
        if !thorough && now.is_some_and(|n| n.0 > SPIN * 100) {
            HUNG.store(true, Ordering::SeqCst);
            return Some(Exec::Fail("an operation never returns: it runs without end".into()));
        }
        if t0.elapsed() > limit {
            HUNG.store(true, Ordering::SeqCst);
            return None;
        }
    }
}

/// Runs part of a case in another fresh thread with its own entropy.
pub fn sub_thread<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    let working = WORKING.with(|w| w.borrow().clone());
    let before = working.load(Ordering::SeqCst);
    let replay = crate::abort::current();
    let r = std::thread::scope(|s| {
        let working = working.clone();
        s.spawn(move || {
            IS_CASE.with(|x| *x.borrow_mut() = true);
            WORKING.with(|w| *w.borrow_mut() = working.clone());
            working.store(gettid(), Ordering::SeqCst);
            crate::abort::set(replay);
            getrandom::seed_thread(seed);
            catch_unwind(AssertUnwindSafe(f)).map_err(|p| (p, LAST_PANIC.with(|l| l.borrow_mut().take())))
        })
        .join()
        .expect("joins")
    });
    working.store(before, Ordering::SeqCst);
    match r {
        Ok(t) => t,
        Err((p, l)) => {
            LAST_PANIC.with(|x| *x.borrow_mut() = l);
            std::panic::resume_unwind(p)
        }
    }
}

/// Runs parts of a case at the same time, in threads with their own entropy. The watchdog
/// keeps an eye on the calling thread, which waits.
pub fn in_threads<'a, T: Send>(seed: u64, fs: Vec<Box<dyn FnOnce() -> T + Send + 'a>>) -> Vec<T> {
    let replay = crate::abort::current();
    type Panicked = (Box<dyn Any + Send>, Option<(String, String)>);
    let all: Vec<Result<T, Panicked>> = std::thread::scope(|s| {
        let hs: Vec<_> = fs
            .into_iter()
            .enumerate()
            .map(|(k, f)| {
                s.spawn(move || {
                    IS_CASE.with(|x| *x.borrow_mut() = true);
                    crate::abort::set(replay);
                    getrandom::seed_thread(seed ^ (k as u64 + 1) << 40);
                    let r = catch_unwind(AssertUnwindSafe(f));
                    let l = LAST_PANIC.with(|l| l.borrow_mut().take());
                    match (r, l) {
                        (Ok(_), Some((loc, msg))) if !loc.starts_with("src/") => Err((Box::new(msg.clone()) as Box<dyn Any + Send>, Some((loc, msg)))),
                        (Ok(t), _) => Ok(t),
                        (Err(p), l) => Err((p, l)),
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("joins")).collect()
    });
    let mut out = Vec::new();
    for r in all {
        match r {
            Ok(t) => out.push(t),
            Err((p, l)) => {
                LAST_PANIC.with(|x| *x.borrow_mut() = l);
                std::panic::resume_unwind(p)
            }
        }
    }
    out
}
/// Gives the threads of a runtime their entropy.
#[cfg(feature = "std")]
pub fn seed_workers(b: &mut tokio::runtime::Builder, seed: u64) {
    let next = AtomicU64::new(0);
    let replay = Mutex::new(crate::abort::current());
    b.on_thread_start(move || {
        crate::abort::set(*replay.lock().unwrap());
        getrandom::seed_thread(seed ^ next.fetch_add(1, Ordering::Relaxed) << 48);
    });
}

/// Runs one case in a fresh thread whose entropy is a function of the case.
pub fn exec_case<C: Clone + Send + 'static>(name: &str, f: fn(&C) -> CaseResult, case: &C, json: &str) -> Exec {
    if HUNG.load(Ordering::SeqCst) {
        return Exec::Pass(Outcome::default());
    }
    let seed = case_seed(json);
    let replay = crate::abort::Replay::new(name, json);
    let at = replay.at();
    let (tx, rx) = mpsc::sync_channel(1);
    let c = case.clone();
    let tid: Arc<AtomicI32> = Arc::default();
    let working = tid.clone();
    let h = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            working.store(gettid(), Ordering::SeqCst);
            WORKING.with(|w| *w.borrow_mut() = working);
            crate::abort::set(at);
            IS_CASE.with(|x| *x.borrow_mut() = true);
            getrandom::seed_thread(seed);
            let r = match catch_unwind(AssertUnwindSafe(|| f(&c))) {
                Ok(Ok(o)) => match LAST_PANIC.with(|l| l.borrow_mut().take()) {
                    // A task of the code under test panicked on this thread.
                    Some((loc, msg)) if !loc.starts_with("src/") => Exec::Fail(format!("panic in a background task at {loc}: {msg}")),
                    _ => Exec::Pass(o),
                },
                Ok(Err(m)) => match m.strip_prefix("HARNESS:") {
                    Some(m) => Exec::Harness(m.to_string()),
                    None => Exec::Fail(m),
                },
                Err(p) => panic_to_exec(p),
            };
            let _ = tx.send(r);
        })
        .expect("spawn");
    let r = wait_for(&rx, &tid);
    if HUNG.load(Ordering::SeqCst) {
        // The thread of the case may still point to it.
        std::mem::forget(replay);
    } else {
        let _ = h.join();
    }
    r.unwrap_or_else(|| Exec::Harness("watchdog: case did not finish".into()))
}

#[derive(Default)]
pub struct Collector {
    pub evaluations: AtomicU64,
    pub distinct: Mutex<HashSet<u64>>,
    pub classes: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<serde_json::Value>>,
    pub per_family: Mutex<BTreeMap<String, (u64, u64)>>,
    pub harness_errors: Mutex<Vec<String>>,
}
impl Collector {
    fn note(&self, family: &str, json: &str, o: &Outcome) {
        self.evaluations.fetch_add(1, Ordering::Relaxed);
        let mut fresh = false;
        if o.nontrivial {
            fresh = self.distinct.lock().unwrap().insert(hash64(format!("{family}{json}").as_bytes()));
        }
        {
            let mut pf = self.per_family.lock().unwrap();
            let e = pf.entry(family.to_string()).or_default();
            e.0 += 1;
            if fresh {
                e.1 += 1;
                if e.1 <= 2 {
                    let text = if json.len() > 1500 { format!("{}... ({} chars)", &json[..1500], json.len()) } else { json.to_string() };
                    let v = serde_json::from_str(&text).unwrap_or(serde_json::Value::String(text));
                    self.samples.lock().unwrap().push(serde_json::json!({"family": family, "case": v}));
                }
            }
        }
        let mut cl = self.classes.lock().unwrap();
        for c in &o.classes {
            *cl.entry(format!("{family}/{c}")).or_default() += 1;
        }
    }
}

pub struct Failure {
    pub family: &'static str,
    pub case: serde_json::Value,
    pub message: String,
}

pub struct Family {
    pub name: &'static str,
    pub racy: bool,
    pub run: Box<dyn Fn(Tier, u64, &Arc<Collector>) -> Option<Failure>>,
    pub replay: Box<dyn Fn(&serde_json::Value) -> Exec>,
}

fn case_seed(json: &str) -> u64 {
    hash64(json.as_bytes())
}

fn run_one<C: Clone + Send + Serialize + 'static>(
    name: &str, f: fn(&C) -> CaseResult, c: &C, col: &Collector, count: bool,
) -> Result<(), String> {
    let json = serde_json::to_string(c).expect("case serialises");
    match exec_case(name, f, c, &json) {
        Exec::Pass(o) => {
            if count {
                col.note(name, &json, &o);
            }
            Ok(())
        }
        Exec::Fail(m) => {
            if count {
                col.evaluations.fetch_add(1, Ordering::Relaxed);
            }
            Err(m)
        }
        Exec::Harness(m) => {
            let mut h = col.harness_errors.lock().unwrap();
            if h.len() < 5 {
                h.push(format!("{name}: {m} in case {json}"));
            }
            Ok(())
        }
    }
}

const WORKERS: u32 = 8;

/// The build without debug assertions and overflow checks. It is run after the other one.
const SHIP: bool = !cfg!(debug_assertions);
/// A build other than the main one runs a share of the cases, and others than that one.
const PART: bool = SHIP || cfg!(not(feature = "std"));
const SHARE: u32 = 4;
/// How this binary was built: replay files name it.
pub fn build() -> String {
    format!("{}{}", if cfg!(feature = "std") { "std" } else { "no-std" }, if SHIP { "-ship" } else { "" })
}

/// A family of randomly generated cases.
pub fn family<C>(
    name: &'static str, quick: u32, thorough: u32, strat: fn(Tier) -> BoxedStrategy<C>, f: fn(&C) -> CaseResult,
) -> Family
where
    C: Clone + Debug + Send + Serialize + DeserializeOwned + 'static,
{
    let run = move |tier: Tier, seed: u64, col: &Arc<Collector>| -> Option<Failure> {
        let total = if tier == Tier::Quick { quick } else { thorough };
        let total = if PART { total.div_ceil(SHARE).max(total.min(8)) } else { total };
        let seed = seed ^ if SHIP { 0x7368_6970_0000 } else { 0 } ^ if PART { 0x6261_7265 } else { 0 };
        let workers = WORKERS.min(total.max(1));
        let stop = Arc::new(AtomicBool::new(false));
        let found: Arc<Mutex<Option<Failure>>> = Arc::new(Mutex::new(None));
        let mut hs = Vec::new();
        for w in 0..workers {
            let cases = total / workers + u32::from(w < total % workers);
            let (stop, found, col) = (stop.clone(), found.clone(), col.clone());
            hs.push(std::thread::spawn(move || {
                let mut st = seed ^ hash64(name.as_bytes()).rotate_left(17) ^ ((w as u64) << 56);
                let mut key = [0u8; 32];
                for c in key.chunks_mut(8) {
                    c.copy_from_slice(&splitmix(&mut st).to_le_bytes());
                }
                let cfg = Config {
                    cases,
                    failure_persistence: None,
                    max_shrink_iters: 1500,
                    max_shrink_time: 60_000,
                    max_global_rejects: cases.saturating_mul(20).max(1000),
                    max_local_rejects: 200_000,
                    source_file: None,
                    ..Config::default()
                };
                let mut r = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &key));
                let failing = std::cell::Cell::new(false);
                let strat = strat(tier);
                let res = r.run(&strat, |c: C| {
                    if !failing.get() && stop.load(Ordering::Relaxed) {
                        return Ok(());
                    }
                    match run_one(name, f, &c, &col, !failing.get()) {
                        Ok(()) => Ok(()),
                        Err(m) => {
                            failing.set(true);
                            stop.store(true, Ordering::Relaxed);
                            Err(TestCaseError::fail(m))
                        }
                    }
                });
                match res {
                    Ok(()) => {}
                    Err(TestError::Fail(reason, c)) => {
                        let mut g = found.lock().unwrap();
                        if g.is_none() {
                            *g = Some(Failure { family: name, case: serde_json::to_value(&c).unwrap(), message: reason.message().to_string() });
                        }
                    }
                    Err(TestError::Abort(r)) => {
                        col.harness_errors.lock().unwrap().push(format!("{name}: generation aborted: {r}"));
                    }
                }
            }));
        }
        for h in hs {
            if h.join().is_err() {
                col.harness_errors.lock().unwrap().push(format!("{name}: worker panicked"));
            }
        }
        let r = found.lock().unwrap().take();
        r
    };
    Family { name, racy: false, run: Box::new(run), replay: replay_fn(name, f) }
}

fn replay_fn<C>(name: &'static str, f: fn(&C) -> CaseResult) -> Box<dyn Fn(&serde_json::Value) -> Exec>
where
    C: Clone + Send + Serialize + DeserializeOwned + 'static,
{
    Box::new(move |v| match serde_json::from_value::<C>(v.clone()) {
        Ok(c) => {
            let json = serde_json::to_string(&c).unwrap();
            exec_case(name, f, &c, &json)
        }
        Err(e) => Exec::Harness(format!("cannot decode case: {e}")),
    })
}

/// A family that enumerates a fixed list of cases completely.
pub fn enumerate<C>(name: &'static str, list: fn(Tier) -> Vec<C>, f: fn(&C) -> CaseResult) -> Family
where
    C: Clone + Debug + Send + Sync + Serialize + DeserializeOwned + 'static,
{
    let run = move |tier: Tier, seed: u64, col: &Arc<Collector>| -> Option<Failure> {
        let mut cases = list(tier);
        if PART && cases.len() >= 8 {
            cases = cases.into_iter().skip((seed as usize + SHIP as usize) % SHARE as usize).step_by(SHARE as usize).collect();
        }
        let cases = Arc::new(cases);
        let next = Arc::new(AtomicU64::new(0));
        let found: Arc<Mutex<Option<(usize, Failure)>>> = Arc::new(Mutex::new(None));
        let hs: Vec<_> = (0..WORKERS)
            .map(|_| {
                let (cases, next, found, col) = (cases.clone(), next.clone(), found.clone(), col.clone());
                std::thread::spawn(move || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                    if i >= cases.len() || found.lock().unwrap().is_some() {
                        return;
                    }
                    if let Err(m) = run_one(name, f, &cases[i], &col, true) {
                        let mut g = found.lock().unwrap();
                        if g.as_ref().map(|(j, _)| *j > i).unwrap_or(true) {
                            *g = Some((i, Failure { family: name, case: serde_json::to_value(&cases[i]).unwrap(), message: m }));
                        }
                        return;
                    }
                })
            })
            .collect();
        for h in hs {
            if h.join().is_err() {
                col.harness_errors.lock().unwrap().push(format!("{name}: worker panicked"));
            }
        }
        let r = found.lock().unwrap().take().map(|x| x.1);
        r
    };
    Family { name, racy: false, run: Box::new(run), replay: replay_fn(name, f) }
}

impl Family {
    pub fn racy(mut self) -> Self {
        self.racy = true;
        self
    }
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub families: Vec<Family>,
}

fn write_file(path: &str, text: &str) {
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if let Err(e) = std::fs::write(path, text) {
        eprintln!("cannot write {path}: {e}");
        std::process::exit(2);
    }
}

pub fn verif_dir() -> String {
    std::env::var("VP_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Returns the process exit code.
pub fn check(p: &Property, tier: Tier, seed: u64) -> i32 {
    THOROUGH.store(tier == Tier::Thorough, Ordering::Relaxed);
    let t0 = Instant::now();
    let col = Arc::new(Collector::default());
    let dir = verif_dir();
    crate::abort::install(p.id, &dir);
    let mut failure: Option<(Failure, Option<String>)> = None;

    // Saved regressions first: plain replays, without the generators.
    let mut regressions = 0u64;
    let rdir = format!("{dir}/regressions/{}", p.id);
    let mut files: Vec<_> = std::fs::read_dir(&rdir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap_or_default();
        let v: serde_json::Value = match serde_json::from_str(&text) {
            Ok(v) => v,
            Err(e) => {
                col.harness_errors.lock().unwrap().push(format!("{}: {e}", f.display()));
                continue;
            }
        };
        regressions += 1;
        match replay_value(p, &v) {
            Exec::Pass(o) => {
                let fam = v["family"].as_str().unwrap_or("regression");
                col.note(fam, &v["case"].to_string(), &o);
            }
            Exec::Fail(m) => {
                let fam = p.families.iter().find(|x| Some(x.name) == v["family"].as_str()).map(|x| x.name).unwrap_or("?");
                failure = Some((Failure { family: fam, case: v["case"].clone(), message: m }, Some(f.display().to_string())));
                break;
            }
            Exec::Harness(m) => col.harness_errors.lock().unwrap().push(format!("{}: {m}", f.display())),
        }
    }
    let only = std::env::var("VP_FAMILY").ok();
    if failure.is_none() {
        for fam in &p.families {
            if only.as_deref().map(|o| o != fam.name).unwrap_or(false) {
                continue;
            }
            let t = Instant::now();
            let r = (fam.run)(tier, seed, &col);
            let n = col.per_family.lock().unwrap().get(fam.name).copied().unwrap_or_default();
            println!("{} {:<28} {:>8} cases {:>8} non-trivial {:>7.1}s{}", p.id, fam.name, n.0, n.1, t.elapsed().as_secs_f64(), if r.is_some() { "  FAILED" } else { "" });
            if let Some(f) = r {
                failure = Some((f, None));
                break;
            }
            if !col.harness_errors.lock().unwrap().is_empty() {
                break;
            }
        }
    }
    let errs = col.harness_errors.lock().unwrap().clone();
    let wall = t0.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": p.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": p.level,
        "coverage": {
            "evaluations": col.evaluations.load(Ordering::Relaxed),
            "distinct_nontrivial": col.distinct.lock().unwrap().len(),
            "rule": p.rule,
            "samples": *col.samples.lock().unwrap(),
            "classes": *col.classes.lock().unwrap(),
            "families": col.per_family.lock().unwrap().iter().map(|(k, v)| (k.clone(), serde_json::json!({"cases": v.0, "nontrivial": v.1}))).collect::<BTreeMap<_, _>>(),
            "regressions_replayed": regressions,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": u64::from(failure.is_some()),
    });
    let at = format!("{dir}/evidence/{}.json", p.id);
    let ev = match std::fs::read_to_string(&at).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok()) {
        // The other build ran before: its evidence stays, with what this one adds.
        Some(mut first) if SHIP && first["seed"] == ev["seed"] && first["tier"] == ev["tier"] => {
            let mut c = ev["coverage"].clone();
            c.as_object_mut().unwrap().retain(|k, _| ["evaluations", "distinct_nontrivial", "families"].contains(&k.as_str()));
            c["build"] = build().into();
            c["wall_s"] = wall.into();
            first["coverage"]["without_debug_assertions"] = c;
            first["wall_s"] = (first["wall_s"].as_f64().unwrap_or(0.0) + wall).into();
            first["violations"] = ev["violations"].clone();
            first
        }
        _ => ev,
    };
    write_file(&at, &(serde_json::to_string_pretty(&ev).unwrap() + "\n"));
    if let Some((f, path)) = failure {
        let path = path.unwrap_or_else(|| {
            let body = serde_json::json!({"property": p.id, "family": f.family, "case": f.case, "message": f.message, "build": build()});
            let text = serde_json::to_string_pretty(&body).unwrap() + "\n";
            let path = format!("{dir}/replays/{}-{}-{:08x}.json", p.id, f.family, hash64(f.case.to_string().as_bytes()) as u32);
            write_file(&path, &text);
            path
        });
        println!("{} {}: {}", p.id, f.family, f.message);
        println!("VIOLATION property={} replay={}", p.id, path);
        return 1;
    }
    if !errs.is_empty() {
        for e in errs {
            eprintln!("HARNESS ERROR {e}");
        }
        return 2;
    }
    println!("{} held on {} cases ({} distinct non-trivial) in {:.1}s ({})", p.id, col.evaluations.load(Ordering::Relaxed), col.distinct.lock().unwrap().len(), wall, build());
    0
}

pub fn replay_value(p: &Property, v: &serde_json::Value) -> Exec {
    let fam = v["family"].as_str().unwrap_or("");
    match p.families.iter().find(|f| f.name == fam) {
        // Schedules of real threads are not part of a case: try again.
        Some(f) => {
            let mut r = (f.replay)(&v["case"]);
            for _ in 0..24 {
                if !matches!(r, Exec::Pass(_)) || !f.racy {
                    break;
                }
                r = (f.replay)(&v["case"]);
            }
            r
        }
        None => Exec::Harness(format!("unknown family {fam}")),
    }
}
