//! C21: tasks and semaphores.
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use hv::*;
use hydra::*;

// ---------------------------------------------------------------------------------------------
// Semaphores
// ---------------------------------------------------------------------------------------------

#[derive(Clone)]
enum Sem {
    Shared(&'static Semaphore),
    Owned(&'static OwnedSemaphore),
}

enum Permit {
    #[allow(dead_code)]
    A(SemaphorePermit<'static>),
    #[allow(dead_code)]
    B(OwnedSemaphorePermit),
}

impl Sem {
    fn new(rng: &mut Rng, n: usize) -> Sem {
        if rng.bool() {
            Sem::Shared(Box::leak(Box::new(Semaphore::new(n))))
        } else {
            Sem::Owned(Box::leak(Box::new(OwnedSemaphore::new(n))))
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Sem::Shared(_) => "shared",
            Sem::Owned(_) => "owned",
        }
    }
    /// `how` chooses among the equivalent calls.
    async fn acquire(&self, n: u32, how: u64) -> Permit {
        match self {
            Sem::Shared(s) if n == 1 && how % 2 == 0 => Permit::A(s.acquire().await),
            Sem::Shared(s) => Permit::A(s.acquire_many(n).await),
            Sem::Owned(s) => match (n, how % 4) {
                (1, 0) => Permit::A(s.acquire().await),
                (1, 1) => Permit::B(s.acquire_owned().await),
                (_, 0 | 2) => Permit::A(s.acquire_many(n).await),
                _ => Permit::B(s.acquire_many_owned(n).await),
            },
        }
    }
    fn try_acquire(&self, how: u64) -> Option<Permit> {
        match self {
            Sem::Shared(s) => s.try_acquire().ok().map(Permit::A),
            Sem::Owned(s) if how % 2 == 0 => s.try_acquire().ok().map(Permit::A),
            Sem::Owned(s) => s.try_acquire_owned().ok().map(Permit::B),
        }
    }
}

enum Vessel {
    Process(Pid),
    Task(Option<TaskHandle<()>>),
}

struct Request {
    n: u32,
    how: u64,
    vessel: Vessel,
    release: Option<tokio::sync::oneshot::Sender<u8>>,
    granted: Arc<AtomicBool>,
    /// Over, from the point of view of the model.
    over: bool,
}

impl Request {
    fn held(&self) -> bool {
        !self.over && self.granted.load(SeqCst)
    }
    fn waiting(&self) -> bool {
        !self.over && !self.granted.load(SeqCst)
    }
}

fn request(sem: &Sem, rng: &mut Rng, n: u32) -> Request {
    let (tx, rx) = tokio::sync::oneshot::channel::<u8>();
    let granted = Arc::new(AtomicBool::new(false));
    let how = rng.next();
    let body = {
        let (sem, granted) = (sem.clone(), granted.clone());
        async move {
            let permit = sem.acquire(n, how).await;
            granted.store(true, SeqCst);
            match rx.await {
                Ok(0) => drop(permit),
                Ok(1) => expected_panic("holder"),
                Ok(2) => {
                    // Passed on to somebody else, who drops it.
                    Process::spawn(async move { drop(permit) });
                }
                Ok(3) => {
                    let _ = Task::spawn_blocking(move || drop(permit)).await;
                }
                _ => std::future::pending().await,
            }
        }
    };
    let vessel = if rng.chance(1, 3) { Vessel::Task(Some(Task::spawn(body))) } else { Vessel::Process(Process::spawn(body)) };
    Request { n, how, vessel, release: Some(tx), granted, over: false }
}

/// Ends a request, held or waiting; returns how.
async fn end(r: &mut Request, rng: &mut Rng) -> &'static str {
    let held = r.held();
    let way = rng.below(if held { 6 } else { 2 });
    r.over = true;
    match way {
        0 | 1 => match &mut r.vessel {
            Vessel::Process(pid) => {
                kill(*pid);
                if held { "kill-holder" } else { "kill-waiter" }
            }
            Vessel::Task(handle) => {
                let result = Task::shutdown(handle.take().unwrap()).await;
                check(result.is_err(), "ended-task-has-a-value", || json!({"how": r.how}));
                if held { "shutdown-holder" } else { "shutdown-waiter" }
            }
        },
        n => {
            let code = (n - 2) as u8;
            let _ = r.release.take().unwrap().send(code);
            // Blocking threads are outside the paused clock's sight.
            if code == 3 {
                tokio::time::sleep(Duration::from_millis(1)).await;
                std::thread::sleep(Duration::from_millis(2));
            }
            ["drop", "panic", "pass-on", "drop-elsewhere"][code as usize]
        }
    }
}

fn semaphore_model(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    virtual_time(async move {
        let total = *rng.pick(&[0u64, 1, 1, 2, 3, 5, 9]) as usize;
        let sem = Sem::new(&mut rng, total);
        let mut requests: Vec<Request> = Vec::new();
        let mut history: Vec<String> = Vec::new();
        let many = rng.bool();
        for _ in 0..rng.range(4, 40) {
            let mut settle = true;
            let live: Vec<usize> = (0..requests.len()).filter(|i| !requests[*i].over).collect();
            match rng.below(10) {
                0..=3 => {
                    let extra = u64::from(rng.chance(1, 4));
                    let n = if many { rng.range(0, total as u64 + extra) as u32 } else { 1 };
                    requests.push(request(&sem, &mut rng, n));
                    history.push(format!("request {n}"));
                    settle = rng.chance(3, 4);
                }
                4..=6 if !live.is_empty() => {
                    let i = *rng.pick(&live);
                    let mut r = std::mem::replace(&mut requests[i], Request { n: 0, how: 0, vessel: Vessel::Task(None), release: None, granted: Default::default(), over: true });
                    let what = end(&mut r, &mut rng).await;
                    history.push(format!("{what} #{i} {}", r.n));
                    cover(&("end", what, sem.name(), r.n.min(3)));
                    requests[i] = r;
                    settle = rng.chance(3, 4);
                }
                7 => {
                    // A limited wait for what may not come.
                    let how = rng.next();
                    let s = sem.clone();
                    let n = if many { rng.range(1, total as u64 + 1) as u32 } else { 1 };
                    let got = tokio::time::timeout(Duration::from_millis(rng.below(3)), s.acquire(n, how)).await;
                    let outcome = got.is_ok();
                    if outcome {
                        // Held at this instant.
                        let others: u64 = requests.iter().filter(|r| r.held()).map(|r| r.n as u64).sum();
                        check(others + n as u64 <= total as u64, "over-admitted", || json!({"history": history, "permits": total, "others": others, "got": n}));
                    }
                    drop(got);
                    history.push(format!("limited {n} {outcome}"));
                    cover(&("limited", outcome, n.min(3), sem.name()));
                }
                _ => {
                    quiesce().await;
                    let held: u64 = requests.iter().filter(|r| r.held()).map(|r| r.n as u64).sum();
                    let waiting = requests.iter().any(|r| r.waiting());
                    let got = sem.try_acquire(rng.next());
                    let free = total as u64 - held.min(total as u64);
                    if got.is_some() {
                        check(free >= 1, "try-over-admits", || json!({"history": history, "permits": total, "held": held}));
                    } else if !waiting {
                        check(free == 0, "try-refuses-a-free-permit", || json!({"history": history, "permits": total, "held": held}));
                    }
                    history.push(format!("try {}", got.is_some()));
                    cover(&("try", got.is_some(), free.min(3), waiting, sem.name()));
                    evaluated(1);
                }
            }
            if !settle {
                continue;
            }
            quiesce().await;
            quiesce().await;
            evaluated(1);
            let held: u64 = requests.iter().filter(|r| r.held()).map(|r| r.n as u64).sum();
            if !check(held <= total as u64, "over-admitted", || json!({"history": history, "permits": total, "held": held})) {
                return;
            }
            let free = total as u64 - held;
            if let Some(first) = requests.iter().find(|r| r.waiting()) {
                let n = first.n;
                // Threads that drop a permit are not in the clock's sight.
                if (n as u64) <= free {
                    for _ in 0..300 {
                        if !requests.iter().any(|r| r.waiting() && r.n as u64 <= free) {
                            break;
                        }
                        std::thread::sleep(Duration::from_millis(2));
                        quiesce().await;
                    }
                    let held: u64 = requests.iter().filter(|r| r.held()).map(|r| r.n as u64).sum();
                    let stuck = requests.iter().find(|r| r.waiting()).is_some_and(|r| r.n as u64 + held <= total as u64);
                    if !check(!stuck, "waiting-request-not-served", || json!({"history": history, "permits": total, "held": held})) {
                        return;
                    }
                }
            }
            cover(&("state", total.min(5), held.min(5), requests.iter().filter(|r| r.waiting()).count().min(4), sem.name()));
        }
        // Everybody leaves, in any order; everything is there again.
        let mut left: Vec<usize> = (0..requests.len()).filter(|i| !requests[*i].over).collect();
        rng.shuffle(&mut left);
        for i in left {
            quiesce().await;
            let mut r = std::mem::replace(&mut requests[i], Request { n: 0, how: 0, vessel: Vessel::Task(None), release: None, granted: Default::default(), over: true });
            let what = end(&mut r, &mut rng).await;
            history.push(format!("{what} #{i}"));
            requests[i] = r;
        }
        quiesce().await;
        quiesce().await;
        let mut back = Vec::new();
        for _ in 0..300 {
            while let Some(p) = sem.try_acquire(rng.next()) {
                back.push(p);
                if back.len() > total {
                    break;
                }
            }
            if back.len() >= total {
                break;
            }
            std::thread::sleep(Duration::from_millis(2));
            quiesce().await;
        }
        evaluated(1);
        check(back.len() == total, if back.len() < total { "permits-lost" } else { "permits-made-up" }, || json!({"history": history, "permits": total, "free": back.len()}));
        drop(back);
        sample("semaphore", || json!({"permits": total, "kind": sem.name(), "history": history}));
    });
}

/// Many holders on several threads; the number inside is counted by the holders themselves.
fn semaphore_stress(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let rt = runtime(&mut rng);
    let total = rng.range(1, 6) as i64;
    let sem = Sem::new(&mut rng, total as usize);
    static INSIDE: AtomicI64 = AtomicI64::new(0);
    static MOST: AtomicI64 = AtomicI64::new(0);
    static GRANTS: AtomicU64 = AtomicU64::new(0);
    INSIDE.store(0, SeqCst);
    MOST.store(0, SeqCst);
    GRANTS.store(0, SeqCst);
    struct Inside(i64, #[allow(dead_code)] Permit);
    impl Drop for Inside {
        fn drop(&mut self) {
            // Fields are dropped after this, so the count never runs ahead of the permits.
            INSIDE.fetch_sub(self.0, SeqCst);
        }
    }
    fn enter(n: i64, p: Permit) -> Inside {
        let now = INSIDE.fetch_add(n, SeqCst) + n;
        MOST.fetch_max(now, SeqCst);
        GRANTS.fetch_add(1, SeqCst);
        Inside(n, p)
    }
    let actors = rng.range(2, 24);
    let seeds: Vec<Rng> = (0..actors).map(|_| rng.fork()).collect();
    let mut krng = rng.fork();
    let (finished, all) = (Arc::new(AtomicUsize::new(0)), Arc::new(Mutex::new(Vec::new())));
    rt.block_on(async {
        for mut r in seeds {
            let (sem, finished) = (sem.clone(), finished.clone());
            struct Done(Arc<AtomicUsize>);
            impl Drop for Done {
                fn drop(&mut self) {
                    self.0.fetch_add(1, SeqCst);
                }
            }
            let done = Done(finished);
            let body = async move {
                let _done = done;
                for _ in 0..r.range(1, 30) {
                    let n = if r.chance(1, 4) { r.range(1, total as u64) } else { 1 };
                    match r.below(6) {
                        0 => {
                            if let Some(p) = sem.try_acquire(r.next()) {
                                let inside = enter(1, p);
                                tokio::task::yield_now().await;
                                drop(inside);
                            }
                        }
                        1 => {
                            let limit = Duration::from_micros(r.below(800));
                            if let Ok(p) = tokio::time::timeout(limit, sem.acquire(n as u32, r.next())).await {
                                let inside = enter(n as i64, p);
                                tokio::task::yield_now().await;
                                drop(inside);
                            }
                        }
                        2 => {
                            let p = sem.acquire(n as u32, r.next()).await;
                            let inside = enter(n as i64, p);
                            // Held by somebody else from now on.
                            Process::spawn(async move {
                                tokio::task::yield_now().await;
                                drop(inside);
                            });
                        }
                        3 if r.chance(1, 10) => {
                            let p = sem.acquire(n as u32, r.next()).await;
                            let _inside = enter(n as i64, p);
                            expected_panic("holder");
                        }
                        _ => {
                            let p = sem.acquire(n as u32, r.next()).await;
                            let inside = enter(n as i64, p);
                            for _ in 0..r.below(4) {
                                tokio::task::yield_now().await;
                            }
                            drop(inside);
                        }
                    }
                }
            };
            all.lock().unwrap().push(Process::spawn(body));
        }
        // Some are killed at any moment.
        for _ in 0..krng.below(actors) {
            let pid = *krng.pick(&all.lock().unwrap());
            if krng.bool() {
                tokio::time::sleep(Duration::from_micros(krng.below(400))).await;
            }
            kill(pid);
        }
        let f = finished.clone();
        let served = eventually(move || f.load(SeqCst) as u64 == actors).await;
        evaluated(1);
        check(served, "waiting-request-not-served", || json!({"permits": total, "inside": INSIDE.load(SeqCst), "finished": finished.load(SeqCst), "of": actors}));
        check(MOST.load(SeqCst) <= total, "over-admitted", || json!({"permits": total, "most": MOST.load(SeqCst)}));
        let back = Arc::new(Mutex::new(Vec::new()));
        let (b, s, mut r) = (back.clone(), sem.clone(), krng.fork());
        let whole = eventually(move || {
            let mut b = b.lock().unwrap();
            while b.len() <= total as usize {
                match s.try_acquire(r.next()) {
                    Some(p) => b.push(p),
                    None => break,
                }
            }
            b.len() >= total as usize
        })
        .await;
        let n = back.lock().unwrap().len() as i64;
        check(whole && n == total, if n < total { "permits-lost" } else { "permits-made-up" }, || json!({"permits": total, "free": n}));
        hv::count("grants", GRANTS.load(SeqCst));
        cover(&("stress", total, MOST.load(SeqCst), actors.min(8), sem.name()));
    });
    rt.shutdown_timeout(Duration::from_secs(2));
}

// ---------------------------------------------------------------------------------------------
// Tasks
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Work {
    Value,
    /// Returns after some milliseconds.
    Late(u64),
    Panic,
    LatePanic(u64),
    Never,
    Blocking(u64),
    BlockingPanic,
}

#[derive(Default)]
struct Seen {
    started: AtomicUsize,
    finished: AtomicUsize,
    dropped: AtomicUsize,
    beats: AtomicUsize,
}

struct Gone(Arc<Seen>);
impl Drop for Gone {
    fn drop(&mut self) {
        self.0.dropped.fetch_add(1, SeqCst);
    }
}

fn launch(work: Work, value: String) -> (TaskHandle<String>, Arc<Seen>) {
    let seen = Arc::new(Seen::default());
    let s = seen.clone();
    let gone = Gone(seen.clone());
    let handle = match work {
        Work::Blocking(ms) => Task::spawn_blocking(move || {
            let _gone = gone;
            s.started.fetch_add(1, SeqCst);
            std::thread::sleep(Duration::from_millis(ms));
            s.finished.fetch_add(1, SeqCst);
            value
        }),
        Work::BlockingPanic => Task::spawn_blocking(move || {
            let _gone = gone;
            s.started.fetch_add(1, SeqCst);
            expected_panic("blocking task")
        }),
        _ => Task::spawn(async move {
            let _gone = gone;
            s.started.fetch_add(1, SeqCst);
            match work {
                Work::Late(ms) | Work::LatePanic(ms) => {
                    for _ in 0..ms {
                        tokio::time::sleep(Duration::from_millis(1)).await;
                        s.beats.fetch_add(1, SeqCst);
                    }
                }
                Work::Never => loop {
                    tokio::time::sleep(Duration::from_millis(1)).await;
                    s.beats.fetch_add(1, SeqCst);
                },
                _ => {}
            }
            if matches!(work, Work::Panic | Work::LatePanic(_)) {
                expected_panic("task");
            }
            s.finished.fetch_add(1, SeqCst);
            value
        }),
    };
    (handle, seen)
}

fn random_work(rng: &mut Rng, never: bool) -> Work {
    match rng.below(if never { 9 } else { 8 }) {
        0 | 1 => Work::Value,
        2 | 3 => Work::Late(rng.range(1, 6)),
        4 => Work::Panic,
        5 => Work::LatePanic(rng.range(1, 6)),
        6 => Work::Blocking(rng.below(3)),
        7 => Work::BlockingPanic,
        _ => Work::Never,
    }
}

fn good(w: Work) -> bool {
    matches!(w, Work::Value | Work::Late(_) | Work::Blocking(_))
}

async fn pause(rng: &mut Rng) {
    match rng.below(4) {
        0 => {}
        1 => tokio::task::yield_now().await,
        2 => tokio::time::sleep(Duration::from_millis(rng.below(4))).await,
        _ => tokio::time::sleep(Duration::from_millis(8)).await,
    }
}

async fn array<const N: usize>(list: Vec<TaskHandle<String>>) -> Result<Vec<String>, TaskError> {
    let list: [TaskHandle<String>; N] = list.try_into().ok().unwrap();
    Task::await_many(list).await
}

fn tasks(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let rt = runtime(&mut rng);
    rt.block_on(async move {
        for _ in 0..6 {
            let value = rng.string(6);
            match rng.below(5) {
                // Awaited, at any time after it was started, possibly by somebody else.
                0 => {
                    let work = random_work(&mut rng, false);
                    let (handle, seen) = launch(work, value.clone());
                    pause(&mut rng).await;
                    let elsewhere = rng.bool();
                    let result = if elsewhere {
                        match in_process(async move { handle.await }).await {
                            Some(r) => r,
                            None => {
                                violation("await-kills-the-process", json!({"work": format!("{work:?}")}));
                                return;
                            }
                        }
                    } else {
                        handle.await
                    };
                    evaluated(1);
                    match &result {
                        Ok(v) => check(good(work) && *v == value, "wrong-task-result", || json!({"work": format!("{work:?}"), "got": v, "want": value})),
                        Err(e) => check(!good(work), "task-result-lost", || json!({"work": format!("{work:?}"), "error": e.0})),
                    };
                    check(seen.started.load(SeqCst) == 1, "task-runs-once", || json!({"work": format!("{work:?}"), "started": seen.started.load(SeqCst)}));
                    cover(&("await", work, elsewhere, result.is_ok()));
                }
                // Shut down.
                1 | 2 => {
                    let work = random_work(&mut rng, true);
                    let (handle, seen) = launch(work, value.clone());
                    pause(&mut rng).await;
                    let before = (seen.finished.load(SeqCst), seen.dropped.load(SeqCst));
                    let result = tokio::time::timeout(Duration::from_secs(60), Task::shutdown(handle)).await;
                    evaluated(1);
                    let Ok(result) = result else {
                        violation("shutdown-does-not-return", json!({"work": format!("{work:?}")}));
                        return;
                    };
                    let beats = seen.beats.load(SeqCst);
                    let d = || json!({"work": format!("{work:?}"), "result": format!("{result:?}"), "finished": seen.finished.load(SeqCst), "dropped": seen.dropped.load(SeqCst)});
                    // It is over when shutdown returns.
                    check(seen.dropped.load(SeqCst) == 1, "task-survives-shutdown", d);
                    match &result {
                        Ok(v) => {
                            check(*v == value && seen.finished.load(SeqCst) == 1, "wrong-task-result", d);
                        }
                        Err(_) => {
                            check(seen.finished.load(SeqCst) == 0, "finished-task-reported-dead", d);
                        }
                    }
                    if before.0 == 1 && before.1 == 1 {
                        check(result.is_ok(), "finished-task-reported-dead", d);
                    }
                    if rng.chance(1, 4) {
                        tokio::time::sleep(Duration::from_millis(4)).await;
                        check(seen.beats.load(SeqCst) == beats, "task-survives-shutdown", d);
                    }
                    cover(&("shutdown", work, before.0, result.is_ok(), beats.min(6)));
                }
                // Not waited for.
                3 => {
                    let work = random_work(&mut rng, false);
                    let (mut handle, seen) = launch(work, value.clone());
                    let way = rng.below(3);
                    match way {
                        0 => drop(handle),
                        1 => {
                            // The wait is given up; the task goes on, and a later wait still gets the value.
                            let early = tokio::time::timeout(Duration::from_millis(rng.below(3)), &mut handle).await;
                            let result = match early {
                                Ok(r) => r,
                                Err(_) => handle.await,
                            };
                            evaluated(1);
                            check(result.is_ok() == good(work) && result.as_ref().map(|v| *v == value).unwrap_or(true), "wait-given-up-loses-the-result", || json!({"work": format!("{work:?}"), "result": format!("{result:?}")}));
                        }
                        _ => {
                            // The process that waits is killed.
                            let pid = Process::spawn(async move {
                                let _ = handle.await;
                            });
                            pause(&mut rng).await;
                            kill(pid);
                        }
                    }
                    let s = seen.clone();
                    let over = eventually(move || s.dropped.load(SeqCst) == 1).await;
                    evaluated(1);
                    check(over && seen.started.load(SeqCst) == 1 && (seen.finished.load(SeqCst) == 1) == good(work), "unattended-task-does-not-run-to-its-end", || json!({"work": format!("{work:?}"), "way": way, "started": seen.started.load(SeqCst), "finished": seen.finished.load(SeqCst)}));
                    cover(&("unattended", work, way));
                }
                // Many at once.
                _ => {
                    let n = rng.range(0, 5) as usize;
                    let all_good = rng.chance(2, 3);
                    let mut works = Vec::new();
                    let mut handles = Vec::new();
                    let mut seens = Vec::new();
                    for i in 0..n {
                        let work = loop {
                            let w = random_work(&mut rng, false);
                            if !all_good || good(w) {
                                break w;
                            }
                        };
                        let (h, s) = launch(work, format!("{i}{value}"));
                        works.push(work);
                        handles.push(h);
                        seens.push(s);
                    }
                    // One that never ends, after one that fails: the failure is reported all the same.
                    let endless = rng.chance(1, 2) && works.iter().position(|w| !good(*w)).is_some_and(|i| i + 1 < n);
                    if endless {
                        let failing = works.iter().position(|w| !good(*w)).unwrap();
                        let at = rng.range(failing as u64 + 1, n as u64 - 1) as usize;
                        let (h, _) = launch(Work::Never, String::new());
                        handles[at] = h;
                    }
                    let waiting = tokio::spawn(async move {
                        match n {
                            0 => array::<0>(handles).await,
                            1 => array::<1>(handles).await,
                            2 => array::<2>(handles).await,
                            3 => array::<3>(handles).await,
                            4 => array::<4>(handles).await,
                            _ => array::<5>(handles).await,
                        }
                    });
                    let answered = eventually(|| waiting.is_finished()).await;
                    evaluated(1);
                    if !check(answered, "await-many-keeps-waiting", || json!({"works": format!("{works:?}"), "endless": endless})) {
                        return;
                    }
                    let result = waiting.await.unwrap();
                    let want: Vec<String> = (0..n).map(|i| format!("{i}{value}")).collect();
                    let fine = works.iter().all(|w| good(*w));
                    match &result {
                        Ok(got) => check(fine && *got == want, "await-many-results", || json!({"works": format!("{works:?}"), "got": got, "want": want})),
                        Err(e) => check(!fine, "await-many-results", || json!({"works": format!("{works:?}"), "error": e.0})),
                    };
                    // Even those not waited for any more finish.
                    let list = seens.clone();
                    let over = eventually(move || list.iter().all(|s| s.dropped.load(SeqCst) == 1)).await;
                    check(over && seens.iter().zip(&works).all(|(s, w)| s.started.load(SeqCst) == 1 && (s.finished.load(SeqCst) == 1) == good(*w)), "task-runs-once", || json!({"works": format!("{works:?}")}));
                    cover(&("many", works.clone(), endless, result.is_ok()));
                }
            }
        }
    });
    rt.shutdown_timeout(Duration::from_secs(2));
}

/// Tasks and holders of permits that take their time: nothing has a limit of its own. On the real clock (blocking
/// tasks and such that keep their thread for long) some seconds, on a virtual one hours.
fn lengthy(ep: &mut Ep) {
    if ep.rng.chance(1, 3) {
        let rt = runtime_threads(4);
        let mut rng = ep.rng.fork();
        rt.block_on(lengthy_all(&mut rng, true));
        rt.shutdown_timeout(Duration::from_secs(2));
    } else {
        for _ in 0..20 {
            let mut rng = ep.rng.fork();
            virtual_time(async move { lengthy_all(&mut rng, false).await });
        }
    }
}

async fn lengthy_all(rng: &mut Rng, real: bool) {
    let unit = if real { 1 } else { 3000 };
    // Up to three and a half seconds, or three hours; short ones more often than long ones.
    let span = |rng: &mut Rng| {
        let most = 1 << rng.range(4, 12);
        Duration::from_millis(unit * rng.below(most).min(3500))
    };
    let mut joins = Vec::new();
    for i in 0..rng.range(8, 24) {
        let takes = span(rng);
        let after = if rng.bool() { Duration::from_millis(rng.below(20)) } else { span(rng) };
        let kind = if real { rng.below(7) } else { rng.range(3, 6) };
        let value = format!("v{i}");
        let want = value.clone();
        let over = Arc::new(AtomicUsize::new(0));
        let o = over.clone();
        let d = move |what: &str| json!({"what": what, "takes": format!("{takes:?}"), "after": format!("{after:?}"), "kind": kind, "real": real});
        count("lengthy", 1);
        cover(&("lengthy", kind, real, takes.as_millis().checked_ilog2(), after < takes));
        match kind {
            // A blocking one is shut down while it runs: over only when it is, and its value isn't lost.
            0 | 1 => {
                joins.push(tokio::spawn(async move {
                    let started = Arc::new(AtomicUsize::new(0));
                    let s = started.clone();
                    let task = Task::spawn_blocking(move || {
                        s.store(1, SeqCst);
                        std::thread::sleep(takes);
                        o.store(1, SeqCst);
                        value
                    });
                    if kind == 0 {
                        eventually(|| started.load(SeqCst) == 1).await;
                    } else {
                        tokio::time::sleep(after).await;
                    }
                    let began = started.load(SeqCst) == 1;
                    let result = Task::shutdown(task).await;
                    evaluated(1);
                    check(started.load(SeqCst) == over.load(SeqCst), "task-survives-shutdown", || d("blocking"));
                    match result {
                        Ok(v) => check(v == want, "wrong-task-result", || d("blocking")),
                        Err(_) => check(!began, "finished-task-reported-dead", || d("blocking")),
                    };
                }));
            }
            // One that keeps its thread for long within one step.
            2 => {
                let takes = takes / 8;
                joins.push(tokio::spawn(async move {
                    let task = Task::spawn(async move {
                        let _gone = Counted(o);
                        loop {
                            std::thread::sleep(takes);
                            tokio::task::yield_now().await;
                            tokio::time::sleep(Duration::from_millis(1)).await;
                        }
                        #[allow(unreachable_code)]
                        value
                    });
                    tokio::time::sleep(after / 8).await;
                    let result = Task::shutdown(task).await;
                    evaluated(1);
                    check(over.load(SeqCst) == 1, "task-survives-shutdown", || d("busy"));
                    check(result.is_err(), "wrong-task-result", || d("busy"));
                }));
            }
            // Waited for, alone or with others, by somebody who was there before or came later.
            3 | 4 => {
                let work = async move {
                    tokio::time::sleep(takes).await;
                    o.store(1, SeqCst);
                    value
                };
                let task = Task::spawn(work);
                let alone = kind == 3;
                joins.push(tokio::spawn(async move {
                    tokio::time::sleep(after).await;
                    let got = if alone {
                        task.await
                    } else {
                        let quick = Task::spawn(async { "q".to_string() });
                        Task::await_many([quick, task]).await.map(|mut v| v.pop().unwrap())
                    };
                    evaluated(1);
                    check(got.is_ok_and(|v| v == want), "task-result-lost", || d("awaited"));
                }));
            }
            // Nobody waits: it comes to its end.
            5 => {
                drop(Task::spawn(async move {
                    tokio::time::sleep(takes).await;
                    o.store(1, SeqCst);
                }));
                joins.push(tokio::spawn(async move {
                    tokio::time::sleep(takes + Duration::from_millis(20)).await;
                    evaluated(1);
                    check(eventually(|| over.load(SeqCst) == 1).await, "unattended-task-does-not-run-to-its-end", || d("left"));
                }));
            }
            // Permits held for long, waited for patiently.
            _ => {
                let total = rng.range(1, 3) as u32;
                let sem = Arc::new(Semaphore::new(total as usize));
                let held = Arc::new(AtomicUsize::new(0));
                let served: Log<usize> = Log::new();
                let n = total as usize + 3;
                for k in 0..n {
                    let (sem, held, served) = (sem.clone(), held.clone(), served.clone());
                    let hold = takes / if real { 4 } else { 1 };
                    Process::spawn(async move {
                        let permit = sem.acquire().await;
                        let at = held.fetch_add(1, SeqCst) + 1;
                        check(at <= total as usize, "too-many-permits", || d("permit"));
                        if k % 2 == 0 {
                            Process::sleep(hold).await;
                        }
                        check(held.load(SeqCst) <= total as usize, "too-many-permits", || d("permit"));
                        held.fetch_sub(1, SeqCst);
                        drop(permit);
                        served.push(k);
                    });
                }
                joins.push(tokio::spawn(async move {
                    tokio::time::sleep(takes * n as u32).await;
                    evaluated(1);
                    check(eventually(|| served.len() == n).await, "waiting-request-not-served", || d("permit"));
                }));
            }
        }
    }
    for j in joins {
        if j.await.is_err() {
            violation("lengthy-panics", json!(real));
        }
    }
}

struct Counted(Arc<AtomicUsize>);
impl Drop for Counted {
    fn drop(&mut self) {
        self.0.fetch_add(1, SeqCst);
    }
}

/// What a task may do besides computing: send to processes and cast to servers; results come home by message.
fn task_messages(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let rt = runtime(&mut rng);
    rt.block_on(async move {
        let n = rng.range(1, 20);
        let blocking = rng.bool();
        let got = in_process(async move {
            let me = Process::current();
            let mut handles = Vec::new();
            for i in 0..n {
                if blocking {
                    handles.push(Task::spawn_blocking(move || Process::send(me, i)));
                } else {
                    handles.push(Task::spawn(async move { Process::send(me, i) }));
                }
            }
            let mut seen = Vec::new();
            for _ in 0..n {
                match next_message::<u64>().await {
                    Some(Message::User(i)) => seen.push(i),
                    _ => break,
                }
            }
            for h in handles {
                if let Err(e) = h.await {
                    violation("sending-task-failed", json!({"error": e.0}));
                }
            }
            seen
        })
        .await;
        evaluated(1);
        let mut got = got.unwrap_or_default();
        got.sort();
        check(got == (0..n).collect::<Vec<_>>(), "messages-of-tasks", || json!({"got": got, "of": n, "blocking": blocking}));
        cover(&("messages", n, blocking));
    });
    rt.shutdown_timeout(Duration::from_secs(2));
}

fn main() {
    run(
        "C21",
        &[
            scenario("semaphore_model", 6, semaphore_model),
            scenario("semaphore_stress", 3, semaphore_stress),
            scenario("tasks", 4, tasks),
            scenario("task_messages", 1, task_messages),
            scenario("lengthy", 2, lengthy),
        ],
    );
}
