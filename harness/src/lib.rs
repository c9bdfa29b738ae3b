//! Shared machinery of the runtime monitors: episode loop, seeded randomness, schedule perturbation,
//! violation and coverage collection, quiescence detection and the hang watchdog.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, MutexGuard, OnceLock};
use std::time::{Duration, Instant};

pub use serde_json::json;
pub use serde_json::Value;

pub mod alloc;
pub mod net;
pub mod sup;

// ---------------------------------------------------------------------------------------------
// Randomness
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x5851_F42D_4C95_7F2D);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in `lo..=hi`.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.usize(items.len())]
    }
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            items.swap(i, self.usize(i + 1));
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn string(&mut self, n: usize) -> String {
        (0..n)
            .map(|_| match self.below(12) {
                0 => '\u{e9}',
                1 => '\u{1F600}',
                2 => '\0',
                _ => (b'a' + self.below(26) as u8) as char,
            })
            .collect()
    }
}

pub fn hash_of<T: Hash>(value: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    value.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------------------------------------
// Report
// ---------------------------------------------------------------------------------------------

#[derive(Default)]
struct Report {
    violations: BTreeMap<String, (u64, Value)>,
    inconclusive: BTreeMap<String, u64>,
    evaluations: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    sampled: BTreeMap<String, u64>,
    scenario: String,
    index: u64,
}

static REPORT: OnceLock<Mutex<Report>> = OnceLock::new();
static OPTIONS: OnceLock<Options> = OnceLock::new();
static EPISODE_STARTED: Mutex<Option<Instant>> = Mutex::new(None);
static EPISODE_LIMIT: AtomicU64 = AtomicU64::new(120);
static ALLOWED_PANICS: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
static IGNORE_PANICS: AtomicBool = AtomicBool::new(false);

fn report() -> MutexGuard<'static, Report> {
    match REPORT.get_or_init(Default::default).lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    }
}

#[derive(Clone, Debug)]
pub struct Options {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub budget: Duration,
    pub out: Option<String>,
    pub only: Option<(String, u64)>,
    pub worker: u64,
    pub scenarios: Option<Vec<String>>,
}

pub fn options() -> &'static Options {
    OPTIONS.get().expect("options")
}

/// Records a violation. `sig` identifies the kind of failure (stable across runs), `detail` the witness.
pub fn violation<S: Into<String>>(sig: S, detail: Value) {
    let sig = sig.into();
    let mut r = report();
    let at = json!({"scenario": r.scenario, "index": r.index});
    let entry = r
        .violations
        .entry(sig.clone())
        .or_insert_with(|| (0, json!({"at": at, "detail": detail})));
    entry.0 += 1;
    if entry.0 == 1 {
        eprintln!("violation {sig}: {}", entry.1);
    }
}

/// Records that something could not be decided.
pub fn inconclusive<S: Into<String>>(why: S) {
    *report().inconclusive.entry(why.into()).or_default() += 1;
}

pub fn count(name: &str, n: u64) {
    *report().counters.entry(name.to_string()).or_default() += n;
}

/// Marks one distinct, non-trivial observed behaviour.
pub fn cover<T: Hash>(key: &T) {
    let h = hash_of(key);
    report().distinct.insert(h);
}

pub fn evaluated(n: u64) {
    report().evaluations += n;
}

/// Keeps up to two samples per kind.
pub fn sample(kind: &str, value: impl FnOnce() -> Value) {
    {
        let mut r = report();
        let n = r.sampled.entry(kind.to_string()).or_default();
        *n += 1;
        if *n > 2 {
            return;
        }
    }
    let value = value();
    report().samples.push(json!({"kind": kind, "case": value}));
}

/// Checks `cond`, recording a violation when it is false.
pub fn check(cond: bool, sig: &str, detail: impl FnOnce() -> Value) -> bool {
    if !cond {
        violation(sig, detail());
    }
    cond
}

/// Permits panics raised inside hydra whose message contains `text` (documented panics).
pub fn allow_panic(text: &str) {
    ALLOWED_PANICS.lock().unwrap().insert(text.to_string());
}

pub fn ignore_panics(yes: bool) {
    IGNORE_PANICS.store(yes, Ordering::SeqCst);
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let file = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        let line = info.location().map(|l| l.line()).unwrap_or_default();
        let payload = info.payload();
        let message = payload
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| payload.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let verbose = std::env::var("HV_PANICS").is_ok();
        if verbose {
            eprintln!("panic at {file}:{line}: {message}");
        }
        // A panic raised by hydra itself.
        let inside = (file.contains("/hydra/src/") || file.contains("/hydra-websockets/src/"))
            && !file.contains("/.cargo/");
        if inside {
            if IGNORE_PANICS.load(Ordering::SeqCst) {
                return;
            }
            let allowed = ALLOWED_PANICS
                .lock()
                .map(|set| set.iter().any(|text| message.contains(text.as_str()) || (text.starts_with("/") && file.contains(text.as_str()))))
                .unwrap_or(true);
            if !allowed {
                let base = file.rsplit('/').next().unwrap_or("").to_string();
                let head: String = message.chars().take(60).filter(|c| !c.is_ascii_digit()).collect();
                violation(
                    format!("internal-panic:{base}:{head}"),
                    json!({"file": file, "line": line, "message": message}),
                );
            }
        } else if file.contains("src/bin/") || file.contains("harness/src") || file.starts_with("src/") {
            if !message.starts_with("[expected]") && !IGNORE_PANICS.load(Ordering::SeqCst) {
                eprintln!("harness panic at {file}:{line}: {message}");
                *report().inconclusive.entry(format!("harness panic: {file}:{line}: {message}")).or_default() += 1;
            }
        }
    }));
}

/// Panics with a message the panic monitor knows to be intended by the workload.
pub fn expected_panic(text: &str) -> ! {
    std::panic::panic_any(format!("[expected]{text}"))
}

pub fn write_result(hang: bool) {
    let r = report();
    let violations: Vec<Value> = r
        .violations
        .iter()
        .map(|(sig, (n, detail))| json!({"sig": sig, "count": n, "witness": detail}))
        .collect();
    let value = json!({
        "violations": violations,
        "inconclusive": r.inconclusive,
        "evaluations": r.evaluations,
        "distinct": r.distinct.iter().map(|h| format!("{h:016x}")).collect::<Vec<_>>(),
        "counters": r.counters,
        "samples": r.samples,
        "hang": hang,
        "scenario": r.scenario,
        "index": r.index,
        "chaos_points": dashmap::chaos::PASSED.load(Ordering::Relaxed),
        "chaos_perturbed": dashmap::chaos::PERTURBED.load(Ordering::Relaxed),
    });
    let text = serde_json::to_string(&value).unwrap();
    match OPTIONS.get().and_then(|o| o.out.clone()) {
        Some(path) => {
            let tmp = format!("{path}.tmp");
            std::fs::write(&tmp, text).unwrap();
            std::fs::rename(&tmp, &path).unwrap();
        }
        None => {
            let mut short = value;
            let n = short["distinct"].as_array().map(|a| a.len());
            short["distinct"] = json!(n);
            println!("{}", serde_json::to_string_pretty(&short).unwrap());
        }
    }
}

pub fn violations_so_far() -> usize {
    report().violations.len()
}

// ---------------------------------------------------------------------------------------------
// Episode loop
// ---------------------------------------------------------------------------------------------

pub struct Ep {
    pub rng: Rng,
    pub index: u64,
}

pub struct Scenario {
    pub name: &'static str,
    pub weight: u32,
    pub run: fn(&mut Ep),
}

pub fn scenario(name: &'static str, weight: u32, run: fn(&mut Ep)) -> Scenario {
    Scenario { name, weight, run }
}

pub fn parse_options(prop: &str) -> Options {
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str| {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1))
            .cloned()
    };
    let seed = get("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let thorough = get("--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .map(|t| t == "thorough")
        .unwrap_or(false);
    let only = get("--only").and_then(|s| {
        let (a, b) = s.split_once(':')?;
        Some((a.to_string(), b.parse().ok()?))
    });
    Options {
        prop: prop.to_string(),
        seed,
        thorough,
        budget: Duration::from_secs_f64(get("--budget").and_then(|s| s.parse().ok()).unwrap_or(10.0)),
        out: get("--out"),
        only,
        worker: get("--worker").and_then(|s| s.parse().ok()).unwrap_or(0),
        scenarios: get("--scenarios").map(|s| s.split(',').map(|x| x.to_string()).collect()),
    }
}

/// Runs the scenarios for the time budget and writes the result.
pub fn run(prop: &str, scenarios: &[Scenario]) {
    let options = parse_options(prop);
    OPTIONS.set(options.clone()).ok();
    install_panic_hook();

    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        let started = *EPISODE_STARTED.lock().unwrap();
        if let Some(started) = started {
            if started.elapsed() > Duration::from_secs(EPISODE_LIMIT.load(Ordering::Relaxed)) {
                eprintln!("hang: {:?}", report().scenario);
                write_result(true);
                std::process::exit(7);
            }
        }
    });

    let mut weighted: Vec<usize> = Vec::new();
    let most = scenarios.iter().map(|s| s.weight).max().unwrap_or(1);
    for round in 0..most {
        for (i, s) in scenarios.iter().enumerate() {
            let wanted = options
                .scenarios
                .as_ref()
                .map(|list| list.iter().any(|n| n == s.name))
                .unwrap_or(true);
            if round < s.weight && wanted {
                weighted.push(i);
            }
        }
    }

    let start = Instant::now();
    let mut indices = vec![0u64; scenarios.len()];
    let mut turn = 0usize;
    let mut done: BTreeMap<&str, u64> = BTreeMap::new();

    loop {
        let (which, index) = if let Some((name, index)) = &options.only {
            if turn >= 1 {
                break;
            }
            let Some(which) = scenarios.iter().position(|s| s.name == name) else {
                panic!("no such scenario");
            };
            (which, *index)
        } else {
            if turn >= weighted.len() && start.elapsed() >= options.budget {
                break;
            }
            let which = weighted[turn % weighted.len()];
            let index = indices[which];
            indices[which] += 1;
            (which, index)
        };
        turn += 1;

        let s = &scenarios[which];
        {
            let mut r = report();
            r.scenario = s.name.to_string();
            r.index = index;
        }
        let seed = hash_of(&(options.seed, s.name, index, options.worker));
        let mut ep = Ep { rng: Rng::new(seed), index };
        *EPISODE_STARTED.lock().unwrap() = Some(Instant::now());
        let t0 = Instant::now();
        (s.run)(&mut ep);
        if std::env::var("HV_TRACE").is_ok() {
            eprintln!("{}:{} {:?}", s.name, index, t0.elapsed());
        }
        chaos_off();
        *EPISODE_STARTED.lock().unwrap() = None;
        *done.entry(s.name).or_default() += 1;

        // Enough witnesses; keep the run short on a broken tree.
        if violations_so_far() >= 8 {
            break;
        }
    }
    for (name, n) in done {
        count(&format!("episodes.{name}"), n);
    }
    write_result(false);
    // Not a return: leftover runtimes and threads must not delay the end.
    std::process::exit(0);
}

pub fn episode_limit(seconds: u64) {
    EPISODE_LIMIT.store(seconds, Ordering::Relaxed);
}

// ---------------------------------------------------------------------------------------------
// Schedules
// ---------------------------------------------------------------------------------------------

/// Randomly configures the perturbation of every shared table access.
pub fn chaos(rng: &mut Rng) -> u32 {
    let (prob, us) = *rng.pick(&[
        (0u32, 1u32),
        (2000, 100),
        (8000, 50),
        (8000, 300),
        (20000, 100),
        (35000, 40),
        (6000, 1500),
    ]);
    dashmap::chaos::configure(rng.next(), prob, us);
    prob
}

pub fn chaos_set(rng: &mut Rng, prob: u32, us: u32) {
    dashmap::chaos::configure(rng.next(), prob, us);
}

pub fn chaos_off() {
    dashmap::chaos::configure(1, 0, 1);
}

/// A random multi threaded (or, sometimes, single threaded) runtime.
pub fn runtime(rng: &mut Rng) -> tokio::runtime::Runtime {
    match rng.below(10) {
        0 => tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap(),
        n => runtime_threads(match n {
            1 => 1,
            2..=4 => 2,
            5..=7 => 4,
            _ => 8,
        }),
    }
}

pub fn runtime_threads(n: usize) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread()
        .worker_threads(n)
        .enable_all()
        .build()
        .unwrap()
}

/// Runs `f` on a single threaded runtime with virtual time: timers fire, in order, only when nothing
/// else can run, so "nothing happened within an hour" is an exact statement about quiescence.
pub fn virtual_time<F: Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .build()
        .unwrap();
    pingora_timeout::fast_timeout::VIRTUAL.store(true, Ordering::SeqCst);
    let result = rt.block_on(f);
    drop(rt);
    pingora_timeout::fast_timeout::VIRTUAL.store(false, Ordering::SeqCst);
    result
}

/// Lets everything that can run on a paused clock run.
pub async fn quiesce() {
    tokio::time::sleep(Duration::from_millis(1)).await;
}

/// Waits until `cond` holds. Gives up only after the runtime has shown, many times over and for
/// seconds, that it schedules newly spawned work promptly: bounded progress rather than a deadline.
pub async fn eventually<F: FnMut() -> bool>(mut cond: F) -> bool {
    let start = Instant::now();
    let mut rounds = 0u32;
    loop {
        if cond() {
            return true;
        }
        // A round trip through the runtime, and through a fresh hydra process.
        let (tx, rx) = tokio::sync::oneshot::channel();
        hydra::Process::spawn(async move {
            tokio::task::yield_now().await;
            let _ = tx.send(());
        });
        let _ = rx.await;
        rounds += 1;
        if rounds > 20 {
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        if rounds > 400 && start.elapsed() > Duration::from_secs(4) {
            chaos_off();
            // A last, long look.
            for _ in 0..200 {
                if cond() {
                    return true;
                }
                tokio::time::sleep(Duration::from_millis(10)).await;
            }
            return cond();
        }
    }
}

/// Shared append-only event log.
pub struct Log<T>(Arc<Mutex<Vec<T>>>);

impl<T> Clone for Log<T> {
    fn clone(&self) -> Self {
        Log(self.0.clone())
    }
}
impl<T> Default for Log<T> {
    fn default() -> Self {
        Log(Arc::new(Mutex::new(Vec::new())))
    }
}
impl<T: Clone> Log<T> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn push(&self, value: T) -> usize {
        let mut v = self.0.lock().unwrap_or_else(|e| e.into_inner());
        v.push(value);
        v.len() - 1
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn snapshot(&self) -> Vec<T> {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).clone()
    }
    pub fn take(&self) -> Vec<T> {
        std::mem::take(&mut *self.0.lock().unwrap_or_else(|e| e.into_inner()))
    }
    pub fn any<F: FnMut(&T) -> bool>(&self, f: F) -> bool {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).iter().any(f)
    }
    pub fn count<F: FnMut(&&T) -> bool>(&self, f: F) -> usize {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).iter().filter(f).count()
    }
}

static CLOCK: AtomicU64 = AtomicU64::new(1);
/// A strictly increasing logical clock for call / return stamps.
pub fn tick() -> u64 {
    CLOCK.fetch_add(1, Ordering::SeqCst)
}

/// A process that parks until told to end.
pub fn gate() -> (Arc<tokio::sync::Notify>, Arc<tokio::sync::Notify>) {
    let n = Arc::new(tokio::sync::Notify::new());
    (n.clone(), n)
}

pub fn reason_str(r: &hydra::ExitReason) -> String {
    format!("{r:?}")
}

/// What a program compares a destination or a reason with has to agree with what it is.
pub fn check_compares(dest: Option<&hydra::Dest>, reason: Option<&hydra::ExitReason>) {
    use hydra::{Dest, ExitReason, Pid, Reference};
    if let Some(dest) = dest {
        static OTHERS: std::sync::OnceLock<(Pid, Reference)> = std::sync::OnceLock::new();
        let (pid, reference) = OTHERS.get_or_init(|| (hydra::Process::spawn(async {}), Reference::new()));
        let by_pid = |x: &Pid| dest == x && x == dest;
        let by_ref = |x: &Reference| dest == x && x == dest;
        let by_name = |x: &str| *dest == x && x == *dest;
        let some = |x: &Pid| dest == x || x == dest;
        let right = match dest {
            Dest::Pid(p) => by_pid(p) && (p == pid || !some(pid)) && *dest != *reference && *reference != *dest && *dest != "x" && "x" != *dest,
            Dest::Alias(r) => by_ref(r) && !(dest == reference || reference == dest) && !some(pid) && *dest != "x" && "x" != *dest,
            Dest::Named(n, _) => by_name(n) && *dest != "no such name" && "no such name" != *dest && !some(pid) && *dest != *reference && *reference != *dest,
        };
        check(right, "destination-compares-wrongly", || json!({"dest": format!("{dest:?}")}));
    }
    if let Some(reason) = reason {
        let right = match reason {
            ExitReason::Custom(text) => *reason == text.as_str() && text.as_str() == *reason && *reason != "no such reason" && "no such reason" != *reason && reason.is_custom(),
            _ => ["normal", "kill", "ignore", ""].iter().all(|t| *reason != *t && *t != *reason) && !reason.is_custom(),
        };
        let kinds = [reason.is_normal(), reason.is_kill(), reason.is_ignore(), reason.is_custom()].iter().filter(|x| **x).count();
        let kind = match reason {
            ExitReason::Normal => reason.is_normal(),
            ExitReason::Kill => reason.is_kill(),
            ExitReason::Ignore => reason.is_ignore(),
            ExitReason::Custom(_) => reason.is_custom(),
        };
        check(right && kind && kinds == 1, "reason-compares-wrongly", || json!({"reason": format!("{reason:?}")}));
    }
}

/// Random exit reason.
pub fn random_reason(rng: &mut Rng) -> hydra::ExitReason {
    match rng.below(6) {
        0 => hydra::ExitReason::Normal,
        1 => hydra::ExitReason::Kill,
        2 => hydra::ExitReason::Ignore,
        3 => hydra::ExitReason::Custom(String::new()),
        4 => hydra::ExitReason::Custom((*rng.pick(&["kill", "shutdown", "normal", "ignore", "killed", "timeout"])).into()),
        _ => hydra::ExitReason::Custom(format!("r{}", rng.below(1000))),
    }
}

/// Runs `f` inside a hydra process and returns its output, or `None` if that process died.
pub async fn in_process<F, T>(f: F) -> Option<T>
where
    F: Future<Output = T> + Send + 'static,
    T: Send + 'static,
{
    let (tx, rx) = tokio::sync::oneshot::channel();
    hydra::Process::spawn(async move {
        let value = f.await;
        tx.send(value).ok();
    });
    rx.await.ok()
}

/// Receives the next message of type `T` (or system message), giving up only after bounded progress.
pub async fn next_message<T: hydra::Receivable>() -> Option<hydra::Message<T>> {
    let start = Instant::now();
    let mut rounds = 0;
    loop {
        let fut = hydra::Process::receiver().for_message::<T>().receive();
        if let Ok(m) = tokio::time::timeout(Duration::from_millis(if rounds == 0 { 50 } else { 10 }), fut).await {
            return Some(m);
        }
        let (tx, rx) = tokio::sync::oneshot::channel();
        hydra::Process::spawn(async move {
            tx.send(()).ok();
        });
        let _ = rx.await;
        rounds += 1;
        if rounds > 300 && start.elapsed() > Duration::from_secs(5) {
            return None;
        }
    }
}

/// Receives whatever of type `T` is already in the mailbox.
pub async fn ready_message<T: hydra::Receivable>() -> Option<hydra::Message<T>> {
    let fut = hydra::Process::receiver().for_message::<T>().receive();
    tokio::pin!(fut);
    std::future::poll_fn(|cx| match fut.as_mut().poll(cx) {
        std::task::Poll::Ready(v) => std::task::Poll::Ready(Some(v)),
        std::task::Poll::Pending => std::task::Poll::Ready(None),
    })
    .await
}

/// Ends a process from outside any process.
pub fn kill(pid: hydra::Pid) {
    hydra::Process::spawn(async move {
        hydra::Process::exit(pid, hydra::ExitReason::Kill);
    });
}

pub async fn forever() {
    std::future::pending::<()>().await
}
