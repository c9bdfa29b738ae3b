//! C20: applications. Each one runs in an operating system process of its own, which reports what happens
//! inside; this process sends it signals and judges the reports.
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};

use hv::*;
use hydra::*;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
enum End {
    Normal,
    Shutdown,
    Custom,
    Panic,
    Kill,
    Ignore,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
enum Main {
    /// Ends by itself after some milliseconds.
    Finish(u64, End),
    /// Runs until a signal ends it.
    Plain,
    /// Traps exits; ends this long after being told to shut down.
    Trap(u64, End),
    Stubborn,
    /// A supervisor with children that take this long to shut down, the last one first.
    Tree(Vec<u64>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
enum Begin {
    Ok,
    Slow(u64),
    Err(End),
    Panic,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
struct Spec {
    main: Main,
    begin: Begin,
    graceful: bool,
    timeout: u64,
    /// Other processes linked to the application end meanwhile.
    noise: bool,
    tracing: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Job {
    /// `run`, `test` or `macro`.
    mode: String,
    specs: Vec<Spec>,
}

// ---------------------------------------------------------------------------------------------
// Inside
// ---------------------------------------------------------------------------------------------

fn begun() -> Instant {
    static T: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    *T.get_or_init(Instant::now)
}

fn ev(text: &str) {
    let mut out = std::io::stdout().lock();
    let _ = writeln!(out, "EV {} {text}", begun().elapsed().as_micros());
    let _ = out.flush();
}

struct Guard(usize, &'static str);
impl Drop for Guard {
    fn drop(&mut self) {
        ev(&format!("{} {}-gone", self.0, self.1));
    }
}

fn leave(end: &End) {
    match end {
        End::Normal => {}
        End::Shutdown => Process::exit(Process::current(), ExitReason::from("shutdown")),
        End::Custom => Process::exit(Process::current(), ExitReason::from("custom")),
        End::Panic => expected_panic("main"),
        End::Kill => Process::exit(Process::current(), ExitReason::Kill),
        End::Ignore => Process::exit(Process::current(), ExitReason::Ignore),
    }
}

fn reason(end: &End) -> ExitReason {
    match end {
        End::Normal => ExitReason::Normal,
        End::Shutdown => ExitReason::from("shutdown"),
        End::Custom | End::Panic => ExitReason::from("custom"),
        End::Kill => ExitReason::Kill,
        End::Ignore => ExitReason::Ignore,
    }
}

struct App(usize, Spec);

struct Leaf(usize, usize, u64);
impl GenServer for Leaf {
    type Message = ();
    async fn init(&mut self) -> Result<(), ExitReason> {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
        Ok(())
    }
    async fn terminate(&mut self, reason: ExitReason) {
        ev(&format!("{} leaf-told {} {}", self.0, self.1, reason_str(&reason)));
        Process::sleep(Duration::from_millis(self.2)).await;
        ev(&format!("{} leaf-ended {}", self.0, self.1));
    }
}

async fn body(n: usize, main: Main) {
    let _guard = Guard(n, "main");
    if matches!(main, Main::Trap(..) | Main::Stubborn) {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
    }
    ev(&format!("{n} main-up"));
    match main {
        Main::Finish(ms, end) => {
            Process::sleep(Duration::from_millis(ms)).await;
            ev(&format!("{n} main-end"));
            leave(&end);
        }
        Main::Plain => forever().await,
        Main::Trap(ms, end) => {
            let m = Process::receiver().for_message::<()>().receive().await;
            if let Message::System(SystemMessage::Exit(_, r)) = m {
                ev(&format!("{n} main-told {}", reason_str(&r)));
            }
            let until = Instant::now() + Duration::from_millis(ms);
            while Instant::now() < until {
                let rest = until.saturating_duration_since(Instant::now());
                if let Ok(Message::System(SystemMessage::Exit(_, r))) = tokio::time::timeout(rest, Process::receiver().for_message::<()>().receive()).await {
                    ev(&format!("{n} main-told {}", reason_str(&r)));
                }
            }
            ev(&format!("{n} main-end"));
            leave(&end);
        }
        Main::Stubborn => loop {
            if let Message::System(SystemMessage::Exit(_, r)) = Process::receiver().for_message::<()>().receive().await {
                ev(&format!("{n} main-told {}", reason_str(&r)));
            }
        },
        Main::Tree(_) => unreachable!(),
    }
}

impl Application for App {
    fn config() -> ApplicationConfig {
        let spec = CURRENT.lock().unwrap().clone();
        let mut c = ApplicationConfig::new().with_tracing_subscribe(false).with_tracing_panics(false);
        if let Some(spec) = spec {
            c = c
                .with_graceful_shutdown(spec.graceful)
                .with_graceful_shutdown_timeout(Duration::from_millis(spec.timeout))
                .with_tracing_panics(spec.tracing);
        }
        c
    }

    async fn start(&self) -> Result<Pid, ExitReason> {
        let (n, spec) = (self.0, self.1.clone());
        ev(&format!("{n} start"));
        if spec.noise {
            let _ = Process::spawn_link(async { leave(&End::Custom) });
            let _ = Process::spawn_link(async {});
            let _ = Process::spawn_link(async {
                Process::sleep(Duration::from_millis(30)).await;
                leave(&End::Shutdown);
            });
        }
        match spec.begin {
            Begin::Ok => {}
            Begin::Slow(ms) => Process::sleep(Duration::from_millis(ms)).await,
            Begin::Err(end) => return Err(reason(&end)),
            Begin::Panic => expected_panic("start"),
        }
        // Something that would be seen to run on if the application did not really end.
        Process::spawn(async move {
            let _guard = Guard(n, "other");
            loop {
                Process::sleep(Duration::from_millis(5)).await;
                if RETURNED[n.min(9)].load(Ordering::SeqCst) {
                    ev(&format!("{n} runs-on"));
                }
            }
        });
        if let Main::Tree(times) = spec.main {
            let specs: Vec<ChildSpec> = times
                .iter()
                .enumerate()
                .map(|(i, ms)| {
                    let ms = *ms;
                    ChildSpec::new(format!("leaf{i}")).start(move || Leaf(n, i, ms).start_link(GenServerOptions::new())).shutdown(Shutdown::Infinity)
                })
                .collect();
            let pid = Supervisor::with_children(specs).start_link(SupervisorOptions::new()).await?;
            ev(&format!("{n} main-up"));
            Ok(pid)
        } else {
            Ok(Process::spawn_link(body(n, spec.main)))
        }
    }
}

static CURRENT: std::sync::Mutex<Option<Spec>> = std::sync::Mutex::new(None);
static RETURNED: [AtomicBool; 10] = [const { AtomicBool::new(false) }; 10];
static HOOKED: AtomicBool = AtomicBool::new(false);

#[hydra::main]
async fn macro_main() {
    let spec = CURRENT.lock().unwrap().clone().unwrap();
    body(0, spec.main).await;
}

/// A test made by the macro, as an ordinary function.
mod macro_tests {
    use super::*;
    use keep::test;

    #[hydra::test]
    async fn macro_test() {
        let spec = CURRENT.lock().unwrap().clone().unwrap();
        body(0, spec.main).await;
    }

    pub fn call() {
        macro_test();
    }
}

fn inside(job: Job) {
    begun();
    std::panic::set_hook(Box::new(|_| HOOKED.store(true, Ordering::SeqCst)));
    match job.mode.as_str() {
        "run" => {
            for (n, spec) in job.specs.into_iter().enumerate() {
                *CURRENT.lock().unwrap() = Some(spec.clone());
                ev(&format!("{n} run"));
                App(n, spec).run();
                RETURNED[n].store(true, Ordering::SeqCst);
                ev(&format!("{n} returned"));
            }
            std::thread::sleep(Duration::from_millis(40));
            HOOKED.store(false, Ordering::SeqCst);
            let _ = std::panic::catch_unwind(|| panic!("probe"));
            ev(&format!("0 hook {}", HOOKED.load(Ordering::SeqCst)));
        }
        "macro" => {
            *CURRENT.lock().unwrap() = Some(job.specs[0].clone());
            ev("0 run");
            macro_main();
            RETURNED[0].store(true, Ordering::SeqCst);
            ev("0 returned");
            HOOKED.store(false, Ordering::SeqCst);
            let _ = std::panic::catch_unwind(|| panic!("probe"));
            ev(&format!("0 hook {}", HOOKED.load(Ordering::SeqCst)));
        }
        "macrotest" => {
            *CURRENT.lock().unwrap() = Some(job.specs[0].clone());
            ev("0 run");
            let failed = std::panic::catch_unwind(macro_tests::call).is_err();
            RETURNED[0].store(true, Ordering::SeqCst);
            ev(&format!("0 returned {}", if failed { "failed" } else { "passed" }));
            std::thread::sleep(Duration::from_millis(30));
        }
        _ => {
            let threads: Vec<_> = job
                .specs
                .into_iter()
                .enumerate()
                .map(|(n, spec)| {
                    std::thread::spawn(move || {
                        ev(&format!("{n} run"));
                        let failed = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| App(n, spec).test())).is_err();
                        RETURNED[n.min(9)].store(true, Ordering::SeqCst);
                        ev(&format!("{n} returned {}", if failed { "failed" } else { "passed" }));
                    })
                })
                .collect();
            for t in threads {
                let _ = t.join();
            }
            std::thread::sleep(Duration::from_millis(30));
        }
    }
    ev("9 done");
    std::process::exit(0);
}

// ---------------------------------------------------------------------------------------------
// Outside
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct Report {
    at: u64,
    app: usize,
    what: String,
    detail: String,
}

/// Whether the process has a handler for the signal.
fn catches(pid: u32, signal: i32) -> bool {
    let Ok(text) = std::fs::read_to_string(format!("/proc/{pid}/status")) else { return false };
    text.lines()
        .find_map(|l| l.strip_prefix("SigCgt:"))
        .and_then(|m| u64::from_str_radix(m.trim(), 16).ok())
        .is_some_and(|m| m & (1 << (signal - 1)) != 0)
}

struct Outcome {
    reports: Vec<Report>,
    status: Option<std::process::ExitStatus>,
    sent: Vec<(usize, i32)>,
    /// A signal was due but no handler ever appeared.
    unhandled: bool,
    /// There was no reaction to the first signal within seconds and it was sent again.
    resent: bool,
}

/// Runs the job; `plan` says for each application after how long from its being up which signals are sent.
fn execute(job: &Job, plan: &[Vec<(u64, i32)>]) -> Option<Outcome> {
    let exe = std::env::current_exe().ok()?;
    let mut child = Command::new(exe)
        .arg("--app")
        .arg(serde_json::to_string(job).ok()?)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let pid = child.id();
    let reader = BufReader::new(child.stdout.take()?);
    let (tx, rx) = std::sync::mpsc::channel();
    let reading = std::thread::spawn(move || {
        for line in reader.lines().map_while(Result::ok) {
            let Some(rest) = line.strip_prefix("EV ") else { continue };
            let mut parts = rest.splitn(4, ' ');
            let (Some(at), Some(app), Some(what)) = (parts.next(), parts.next(), parts.next()) else { continue };
            let _ = tx.send(Report {
                at: at.parse().unwrap_or(0),
                app: app.parse().unwrap_or(9),
                what: what.to_string(),
                detail: parts.next().unwrap_or("").to_string(),
            });
        }
    });
    let mut reports = Vec::new();
    let mut sent = Vec::new();
    let mut unhandled = false;
    let mut resent = false;
    let mut waiting: Option<(Instant, usize, i32)> = None;
    let deadline = Instant::now() + Duration::from_secs(40);
    // (when, application, signal)
    let mut due: Vec<(Instant, usize, i32)> = Vec::new();
    let mut first_for: Vec<usize> = Vec::new();
    let mut finished = false;
    loop {
        let wait = due.iter().map(|d| d.0).min().unwrap_or(deadline).saturating_duration_since(Instant::now()).min(Duration::from_millis(200));
        match rx.recv_timeout(wait.max(Duration::from_millis(1))) {
            Ok(r) => {
                if r.what == "main-up" && !first_for.contains(&r.app) {
                    first_for.push(r.app);
                    if let Some(p) = plan.get(r.app) {
                        for (ms, sig) in p {
                            due.push((Instant::now() + Duration::from_millis(*ms), r.app, *sig));
                        }
                    }
                }
                if r.what == "returned" {
                    due.retain(|d| d.1 != r.app);
                }
                if !matches!(r.what.as_str(), "main-up" | "other-gone") && waiting.is_some_and(|w| w.1 == r.app) {
                    waiting = None;
                }
                finished |= r.what == "done";
                reports.push(r);
            }
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => break,
            Err(_) => {}
        }
        let now = Instant::now();
        due.sort_by_key(|d| d.0);
        while due.first().is_some_and(|d| d.0 <= now) {
            let (_, app, sig) = due.remove(0);
            if job.specs[app].graceful && !sent.iter().any(|s: &(usize, i32)| s.0 == app) {
                let limit = Instant::now() + Duration::from_secs(15);
                while !catches(pid, sig) && Instant::now() < limit && child.try_wait().ok().flatten().is_none() {
                    std::thread::sleep(Duration::from_millis(2));
                }
                unhandled |= !catches(pid, sig) && child.try_wait().ok().flatten().is_none();
                // The handler has been installed; give its listener a moment to be there.
                std::thread::sleep(Duration::from_millis(if app == 0 { 15 } else { 60 }));
            }
            if child.try_wait().ok().flatten().is_some() {
                break;
            }
            unsafe { libc::kill(pid as i32, sig) };
            if job.specs[app].graceful && !sent.iter().any(|s: &(usize, i32)| s.0 == app) {
                waiting = Some((Instant::now(), app, sig));
            }
            sent.push((app, sig));
        }
        // On a very busy machine the first may have come before its listener was there.
        if let Some((since, _, sig)) = waiting {
            if since.elapsed() > Duration::from_secs(8) && !resent {
                resent = true;
                unsafe { libc::kill(pid as i32, sig) };
            }
        }
        if finished || Instant::now() > deadline {
            break;
        }
    }
    let mut status = None;
    for _ in 0..500 {
        status = child.try_wait().ok().flatten();
        if status.is_some() {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    if status.is_none() {
        let _ = child.kill();
        let _ = child.wait();
    }
    let _ = reading.join();
    reports.extend(rx.try_iter());
    Some(Outcome { reports, status, sent, unhandled, resent })
}

fn random_end(rng: &mut Rng) -> End {
    rng.pick(&[End::Normal, End::Shutdown, End::Custom, End::Panic, End::Kill, End::Ignore]).clone()
}

fn random_begin(rng: &mut Rng) -> Begin {
    match rng.below(10) {
        0 => Begin::Slow(rng.range(1, 60)),
        1 => Begin::Err(random_end(rng)),
        2 => Begin::Panic,
        _ => Begin::Ok,
    }
}

fn is_up(b: &Begin) -> bool {
    matches!(b, Begin::Ok | Begin::Slow(_))
}

fn judge_run(job: &Job, plan: &[Vec<(u64, i32)>], o: &Outcome) {
    let detail = || {
        json!({"job": format!("{job:?}"), "plan": format!("{plan:?}"), "sent": format!("{:?}", o.sent), "status": format!("{:?}", o.status),
               "reports": o.reports.iter().map(|r| format!("{} {} {} {}", r.at, r.app, r.what, r.detail)).collect::<Vec<_>>()})
    };
    if o.unhandled {
        violation("no-handler-for-termination-request", detail());
        return;
    }
    if o.resent {
        static IGNORED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        if IGNORED.fetch_add(1, Ordering::SeqCst) >= 2 {
            violation("termination-request-ignored", detail());
        }
        inconclusive("a signal had no effect");
        return;
    }
    for (n, spec) in job.specs.iter().enumerate() {
        evaluated(1);
        let mine: Vec<&Report> = o.reports.iter().filter(|r| r.app == n).collect();
        let at = |what: &str| mine.iter().find(|r| r.what == what).map(|r| r.at);
        let signalled = o.sent.iter().any(|s| s.0 == n);
        if signalled && !spec.graceful {
            // Nobody listens: the system ends the program.
            check(o.status.is_some_and(|s| s.signal().is_some()), "ungraceful-survives", detail);
            return;
        }
        let Some(returned) = at("returned") else {
            violation("run-does-not-return", detail());
            return;
        };
        if !check(!mine.iter().any(|r| r.what == "runs-on"), "runs-on-after-return", detail) {
            return;
        }
        if !is_up(&spec.begin) {
            check(at("main-up").is_none(), "main-despite-failed-start", detail);
            check(returned - at("start").unwrap_or(0) < 10_000_000, "failed-start-is-slow", detail);
            cover(&("start", spec.begin.clone(), n));
            continue;
        }
        let told: Vec<&&Report> = mine.iter().filter(|r| r.what == "main-told").collect();
        match &spec.main {
            Main::Finish(..) => {
                // Not before the main process ended by itself, unless it was told to shut down.
                if !signalled {
                    check(at("main-end").is_some_and(|e| e <= returned), "returned-before-main-ended", detail);
                }
            }
            Main::Plain => {
                check(signalled, "returned-while-main-runs", detail);
                if let Some(e) = at("main-gone") {
                    check(returned.saturating_sub(e) < 10_000_000, "slow-to-return", detail);
                }
            }
            Main::Trap(ms, _) => {
                if !check(signalled, "returned-while-main-runs", detail) {
                    return;
                }
                check(told.len() == 1 && told[0].detail == reason_str(&ExitReason::from("shutdown")), "told-to-shut-down-once", detail);
                let t = told.first().map(|r| r.at).unwrap_or(0);
                let end = at("main-end");
                if ms + 100 < spec.timeout {
                    // In time, unless the machine was very slow.
                    let lasted = returned.saturating_sub(t);
                    if lasted + 3_000 < spec.timeout * 1000 || end.is_some() {
                        check(end.is_some(), "killed-within-grace-time", detail);
                    } else {
                        inconclusive("slow machine");
                    }
                } else if spec.timeout + 100 < *ms && end.is_some() {
                    let took = end.unwrap() - t;
                    check(took < spec.timeout * 1000 + 8_000_000, "not-killed-after-grace-time", detail);
                    if took >= ms * 1000 {
                        // It should have been killed long before.
                        violation("not-killed-after-grace-time", detail());
                    }
                }
                if end.is_none() {
                    check(returned.saturating_sub(t) + 3_000 >= spec.timeout * 1000, "killed-within-grace-time", detail);
                }
            }
            Main::Stubborn => {
                if !check(signalled, "returned-while-main-runs", detail) {
                    return;
                }
                check(told.len() == 1 && told[0].detail == reason_str(&ExitReason::from("shutdown")), "told-to-shut-down-once", detail);
                let took = returned.saturating_sub(told.first().map(|r| r.at).unwrap_or(0));
                check(took + 3_000 >= spec.timeout * 1000, "killed-within-grace-time", detail);
                check(took < spec.timeout * 1000 + 10_000_000, "not-killed-after-grace-time", detail);
            }
            Main::Tree(times) => {
                if !check(signalled, "returned-while-main-runs", detail) {
                    return;
                }
                let events: Vec<(String, String)> = mine
                    .iter()
                    .filter(|r| r.what.starts_with("leaf-"))
                    .map(|r| (r.what.clone(), r.detail.clone()))
                    .collect();
                if times.iter().sum::<u64>() + 150 < spec.timeout {
                    let mut want = Vec::new();
                    for i in (0..times.len()).rev() {
                        want.push(("leaf-told".to_string(), format!("{i} {}", reason_str(&ExitReason::from("shutdown")))));
                        want.push(("leaf-ended".to_string(), i.to_string()));
                    }
                    let first = mine.iter().find(|r| r.what == "leaf-told").map(|r| r.at).unwrap_or(0);
                    if events == want || returned.saturating_sub(first) + 3_000 < spec.timeout * 1000 {
                        check(events == want, "tree-not-shut-down-in-order", detail);
                    } else {
                        inconclusive("slow machine");
                    }
                }
            }
        }
        let outline: Vec<&str> = mine.iter().map(|r| r.what.as_str()).collect();
        cover(&(spec.main.clone(), spec.graceful, spec.noise, outline.join(","), n));
    }
    if let Some(r) = o.reports.iter().find(|r| r.what == "hook") {
        check(r.detail == "true", "panic-hook-not-restored", detail);
    }
    check(o.reports.iter().any(|r| r.what == "done"), "run-does-not-return", detail);
}

fn judge_test(job: &Job, o: &Outcome) {
    let detail = || {
        json!({"job": format!("{job:?}"), "status": format!("{:?}", o.status),
               "reports": o.reports.iter().map(|r| format!("{} {} {} {}", r.at, r.app, r.what, r.detail)).collect::<Vec<_>>()})
    };
    for (n, spec) in job.specs.iter().enumerate() {
        evaluated(1);
        let mine: Vec<&Report> = o.reports.iter().filter(|r| r.app == n).collect();
        let Some(returned) = mine.iter().find(|r| r.what == "returned") else {
            violation("test-does-not-return", detail());
            return;
        };
        let clean = |e: &End| matches!(e, End::Normal | End::Shutdown);
        let want = match (&spec.begin, &spec.main) {
            (Begin::Panic, _) => false,
            (Begin::Err(e), _) => clean(e),
            (_, Main::Finish(_, e)) => clean(e),
            _ => true,
        };
        if !check((returned.detail == "passed") == want, if want { "test-fails-wrongly" } else { "test-passes-wrongly" }, || {
            json!({"app": n, "spec": format!("{spec:?}"), "got": returned.detail})
        }) {
            return;
        }
        if is_up(&spec.begin) {
            let ended = mine.iter().find(|r| r.what == "main-end").map(|r| r.at);
            check(ended.is_some_and(|e| e <= returned.at), "test-returned-before-main-ended", detail);
        }
        check(!mine.iter().any(|r| r.what == "runs-on"), "test-runs-on", detail);
        cover(&("test", spec.main.clone(), spec.begin.clone(), want));
    }
}

fn together<F: Fn(&mut Rng) + Send + Sync + 'static>(ep: &mut Ep, n: usize, f: F) {
    let f = std::sync::Arc::new(f);
    let threads: Vec<_> = (0..n)
        .map(|_| {
            let mut rng = ep.rng.fork();
            let f = f.clone();
            std::thread::spawn(move || f(&mut rng))
        })
        .collect();
    for t in threads {
        if t.join().is_err() {
            inconclusive("controller thread panicked");
        }
    }
}

fn running(ep: &mut Ep) {
    together(ep, 6, |rng| {
        let mut specs = Vec::new();
        let mut plan = Vec::new();
        let apps = rng.range(1, 2);
        for app in 1..=apps {
            let timeout = *rng.pick(&[0u64, 120, 250, 600]);
            let main = match rng.below(8) {
                0..=1 => Main::Finish(rng.range(0, 80), random_end(rng)),
                2 => Main::Plain,
                3..=4 => Main::Trap(*rng.pick(&[0, 20, 60, 400, 900]), random_end(rng)),
                5 => Main::Stubborn,
                _ => Main::Tree((0..rng.range(1, 3)).map(|_| rng.range(0, 40)).collect()),
            };
            let needs = !matches!(main, Main::Finish(..));
            let spec = Spec {
                begin: random_begin(rng),
                graceful: needs || rng.bool(),
                timeout: if matches!(main, Main::Tree(_)) { 4000 } else { timeout },
                noise: rng.bool(),
                tracing: rng.bool(),
                main,
            };
            let mut signals = Vec::new();
            if needs {
                let after = rng.below(40);
                // A second one could be left over for the next application.
                for i in 0..if app < apps { 1 } else { rng.range(1, 3) } {
                    signals.push((after + i * rng.range(1, 40), *rng.pick(&[libc::SIGTERM, libc::SIGINT])));
                }
            }
            specs.push(spec);
            plan.push(signals);
        }
        // One in which nobody listens for signals ends the program, so it comes last.
        if rng.chance(1, 6) {
            specs.push(Spec { main: Main::Plain, begin: Begin::Ok, graceful: false, timeout: 100, noise: false, tracing: false });
            if specs.len() == 1 || specs[..specs.len() - 1].iter().all(|s| !s.graceful || !is_up(&s.begin)) {
                plan.push(vec![(10, libc::SIGTERM)]);
            } else {
                // Handlers stay installed once they were, so the signal would go nowhere.
                specs.pop();
            }
        }
        let job = Job { mode: "run".into(), specs };
        match execute(&job, &plan) {
            Some(o) => {
                hv::count("signals sent", o.sent.len() as u64);
                hv::count("reports", o.reports.len() as u64);
                sample("run", || json!({"job": format!("{job:?}"), "reports": o.reports.iter().map(|r| format!("{} {} {} {}", r.at, r.app, r.what, r.detail)).collect::<Vec<_>>()}));
                judge_run(&job, &plan, &o);
            }
            None => inconclusive("could not start a program"),
        }
    });
}

fn testing(ep: &mut Ep) {
    together(ep, 2, |rng| {
        let specs = (0..rng.range(1, 9))
            .map(|_| Spec {
                main: Main::Finish(rng.range(0, 30), random_end(rng)),
                begin: random_begin(rng),
                graceful: false,
                timeout: 0,
                noise: rng.bool(),
                tracing: false,
            })
            .collect();
        let job = Job { mode: "test".into(), specs };
        match execute(&job, &[]) {
            Some(o) => {
                hv::count("reports", o.reports.len() as u64);
                judge_test(&job, &o);
            }
            None => inconclusive("could not start a program"),
        }
    });
}

/// The entry points made by the macros, with the default configuration.
fn entry(ep: &mut Ep) {
    together(ep, 3, |rng| {
        if rng.chance(1, 3) {
            let main = Main::Finish(rng.range(0, 60), random_end(rng));
            let job = Job { mode: "macrotest".into(), specs: vec![Spec { main, begin: Begin::Ok, graceful: false, timeout: 0, noise: false, tracing: false }] };
            match execute(&job, &[]) {
                Some(o) => judge_test(&job, &o),
                None => inconclusive("could not start a program"),
            }
            return;
        }
        let main = match rng.below(3) {
            0 => Main::Finish(rng.range(0, 60), random_end(rng)),
            1 => Main::Plain,
            _ => Main::Trap(rng.range(0, 200), End::Normal),
        };
        let needs = !matches!(main, Main::Finish(..));
        let plan = vec![if needs { vec![(rng.below(30), *rng.pick(&[libc::SIGTERM, libc::SIGINT]))] } else { vec![] }];
        let job = Job { mode: "macro".into(), specs: vec![Spec { main, begin: Begin::Ok, graceful: true, timeout: 10_000, noise: false, tracing: true }] };
        match execute(&job, &plan) {
            Some(o) => {
                hv::count("signals sent", o.sent.len() as u64);
                judge_run(&job, &plan, &o);
            }
            None => inconclusive("could not start a program"),
        }
    });
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|a| a.as_str()) == Some("--app") {
        inside(serde_json::from_str(&args[2]).unwrap());
        return;
    }
    run("C20", &[scenario("running", 3, running), scenario("testing", 2, testing), scenario("entry", 1, entry)]);
}
