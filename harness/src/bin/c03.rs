//! C03: process lifecycle. Registered from spawn to death, gone afterwards, one honest exit reason,
//! unique ids, and no process takes another one down by failing.
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use hv::*;
use hydra::*;

static PIDS: Mutex<Option<HashSet<String>>> = Mutex::new(None);
static EPISODE: AtomicU64 = AtomicU64::new(0);

fn unique(pid: Pid) {
    let mut set = PIDS.lock().unwrap();
    let fresh = set.get_or_insert_with(HashSet::new).insert(format!("{pid:?}"));
    check(fresh, "pid-reused", || json!(format!("{pid:?}")));
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum End {
    Return,
    Yields(u8),
    Sleep(u8),
    PanicStr,
    PanicString,
    PanicAny,
    /// A text of some length and content.
    PanicText(u8),
    PanicNested,
    PanicLate,
    ExitSelf(u8),
    ExitSelfReturn(u8),
    ExitSelfFirst(u8),
    Killed,
    KilledBusy,
    KilledAtOnce,
    ExitOther,
    ExitNormalThenKill,
    Register,
}

fn reason(k: u8) -> ExitReason {
    match k {
        0 => ExitReason::Normal,
        1 => ExitReason::Kill,
        2 => ExitReason::Ignore,
        3 => ExitReason::from("shutdown"),
        4 => ExitReason::from("normal"),
        _ => ExitReason::Custom(format!("why {k}")),
    }
}

/// Empty, long, of several lines, of characters of several bytes at every alignment.
fn panic_text(k: u8) -> String {
    match k {
        0 => String::new(),
        1 => "\0".into(),
        2 => "[expected]\nseveral\nlines".into(),
        3 => "normal".into(),
        4 => "x".repeat(100_000),
        _ => format!("{}{}", "x".repeat(k as usize % 4), "\u{1F525}\u{e9}".repeat(40usize << (2 * (k as usize - 5)).min(10))),
    }
}

fn random_end(rng: &mut Rng) -> End {
    match rng.below(18) {
        16 => End::PanicText(rng.below(12) as u8),
        0 => End::Return,
        1 => End::Yields(rng.below(5) as u8),
        2 => End::Sleep(rng.below(4) as u8),
        3 => End::PanicStr,
        4 => End::PanicString,
        5 => End::PanicAny,
        6 => End::PanicNested,
        7 => End::PanicLate,
        8 => End::ExitSelf(rng.below(5) as u8),
        9 => End::ExitSelfReturn(rng.below(5) as u8),
        10 => End::ExitSelfFirst(rng.below(5) as u8),
        11 => End::Killed,
        12 => End::KilledBusy,
        13 => End::KilledAtOnce,
        14 => End::ExitOther,
        15 => End::ExitNormalThenKill,
        _ => End::Register,
    }
}

fn expected(end: &End) -> ExitReason {
    match end {
        End::Return | End::Yields(_) | End::Sleep(_) | End::Register => ExitReason::Normal,
        End::PanicStr | End::PanicString | End::PanicNested | End::PanicLate => "[expected]boom".into(),
        End::PanicAny => "Unknown error!".into(),
        End::PanicText(k) => panic_text(*k).into(),
        End::ExitSelf(k) | End::ExitSelfReturn(k) | End::ExitSelfFirst(k) => reason(*k),
        End::Killed | End::KilledBusy | End::KilledAtOnce | End::ExitNormalThenKill => ExitReason::Kill,
        End::ExitOther => "other".into(),
    }
}

struct Dropped(Arc<AtomicU64>);
impl Drop for Dropped {
    fn drop(&mut self) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

async fn nested(n: u8) {
    tokio::task::yield_now().await;
    if n == 0 {
        expected_panic("boom");
    }
    Box::pin(nested(n - 1)).await;
}

fn lives(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let rt = runtime(rng);
    chaos(rng);
    let mut fork = rng.fork();
    let episode = EPISODE.fetch_add(1, Ordering::Relaxed);
    rt.block_on(async move {
        let ok = in_process(async move {
            let mut rng = fork;
            let n = rng.range(4, 24);
            let mut watch = Vec::new();
            for i in 0..n {
                let end = random_end(&mut rng);
                let name = format!("c03-{episode}-{i}");
                let e = end.clone();
                let drops = Arc::new(AtomicU64::new(0));
                let guard = Dropped(drops.clone());
                let started = Arc::new(AtomicBool::new(false));
                let after_exit = Arc::new(AtomicBool::new(false));
                let (s, a, nm) = (started.clone(), after_exit.clone(), name.clone());
                let body = async move {
                    let _guard = guard;
                    if let End::ExitSelfFirst(k) = e {
                        Process::exit(Process::current(), reason(k));
                        tokio::task::yield_now().await;
                        a.store(true, Ordering::SeqCst);
                        return;
                    }
                    // From its very first instruction the process is a full citizen.
                    let me = Process::current();
                    let fine = Process::alive(me)
                        && Process::info(me).is_some()
                        && Process::list().contains(&me)
                        && Process::flags() == ProcessFlags::empty();
                    // Being killed at once makes `alive` false legitimately.
                    if e != End::KilledAtOnce {
                        check(fine, "not-registered-at-start", || {
                            json!({"end": format!("{e:?}"), "alive": Process::alive(me),
                                   "info": format!("{:?}", Process::info(me)), "listed": Process::list().contains(&me)})
                        });
                        Process::set_flags(ProcessFlags::TRAP_EXIT);
                        check(Process::flags() == ProcessFlags::TRAP_EXIT, "flags-lost", || json!(format!("{e:?}")));
                        Process::set_flags(ProcessFlags::empty());
                        let r = Process::register(me, nm.clone());
                        check(r.is_ok(), "register-at-start", || json!(format!("{r:?}")));
                        check(Process::whereis(&nm) == Some(me), "whereis-at-start", || json!(nm));
                    }
                    s.store(true, Ordering::SeqCst);
                    match e {
                        End::Return | End::Register | End::ExitSelfFirst(_) => {}
                        End::Yields(k) => {
                            for _ in 0..k {
                                tokio::task::yield_now().await;
                            }
                        }
                        End::Sleep(k) => Process::sleep(Duration::from_millis(k as u64)).await,
                        End::PanicStr => std::panic::panic_any("[expected]boom"),
                        End::PanicString => expected_panic("boom"),
                        End::PanicAny => {
                            ignore_unit();
                        }
                        End::PanicText(k) => std::panic::resume_unwind(Box::new(panic_text(k))),
                        End::PanicNested => nested(3).await,
                        End::PanicLate => {
                            Process::sleep(Duration::from_millis(1)).await;
                            expected_panic("boom")
                        }
                        End::ExitSelf(k) => {
                            Process::exit(me, reason(k));
                            forever().await;
                        }
                        End::ExitSelfReturn(k) => {
                            Process::exit(me, reason(k));
                        }
                        End::KilledBusy => loop {
                            std::hint::black_box((0..100).sum::<u64>());
                            tokio::task::yield_now().await;
                        },
                        End::Killed | End::KilledAtOnce | End::ExitOther | End::ExitNormalThenKill => {
                            forever().await
                        }
                    }
                };
                let (pid, monitor) = match rng.below(2) {
                    0 => Process::spawn_monitor(body),
                    _ => {
                        let (tx, rx) = tokio::sync::oneshot::channel::<()>();
                        // Monitored before it may end.
                        let pid = Process::spawn(async move {
                            let _ = rx.await;
                            body.await
                        });
                        // It waits, so it has to be registered right now.
                        check(Process::alive(pid), "not-alive-after-spawn", || json!(format!("{pid:?}")));
                        check(Process::list().contains(&pid), "not-listed-after-spawn", || json!(format!("{pid:?}")));
                        check(Process::info(pid).is_some(), "no-info-after-spawn", || json!(format!("{pid:?}")));
                        let monitor = Process::monitor(pid);
                        tx.send(()).ok();
                        (pid, monitor)
                    }
                };
                unique(pid);
                match end {
                    End::KilledAtOnce => Process::exit(pid, ExitReason::Kill),
                    End::Killed | End::KilledBusy | End::ExitOther | End::ExitNormalThenKill => {
                        let mut rng = rng.fork();
                        let end = end.clone();
                        let started = started.clone();
                        Process::spawn(async move {
                            if rng.bool() {
                                eventually(|| started.load(Ordering::SeqCst)).await;
                            } else {
                                // Registration inside the process must not be disturbed.
                                while !started.load(Ordering::SeqCst) {
                                    tokio::task::yield_now().await;
                                }
                            }
                            match end {
                                End::ExitOther => Process::exit(pid, "other"),
                                End::ExitNormalThenKill => {
                                    // Normal and ignore signals of others do not end it.
                                    Process::exit(pid, ExitReason::Normal);
                                    Process::exit(pid, ExitReason::Ignore);
                                    tokio::task::yield_now().await;
                                    check(Process::alive(pid), "killed-by-normal", || json!(format!("{pid:?}")));
                                    Process::exit(pid, ExitReason::Kill);
                                }
                                _ => Process::exit(pid, ExitReason::Kill),
                            }
                        });
                    }
                    _ => {}
                }
                watch.push((pid, monitor, end, name, drops, started, after_exit));
            }

            let mut pending: HashSet<Reference> = watch.iter().map(|w| w.1).collect();
            while !pending.is_empty() {
                match next_message::<()>().await {
                    Some(Message::System(SystemMessage::ProcessDown(_, r, why))) => {
                        let w = watch.iter().find(|w| w.1 == r);
                        if !check(pending.remove(&r), "down-unexpected", || json!(format!("{r:?}"))) {
                            continue;
                        }
                        let (pid, _, end, name, drops, started, after) = w.unwrap();
                        // The reason may be anything legal when the kill overtakes the start.
                        let want = expected(end);
                        check(why == want, "exit-reason", || {
                            json!({"end": format!("{end:?}"), "expected": reason_str(&want), "got": reason_str(&why)})
                        });
                        check(!Process::alive(*pid), "alive-after-down", || json!(format!("{end:?}")));
                        check(Process::info(*pid).is_none(), "info-after-down", || json!(format!("{end:?}")));
                        check(!Process::list().contains(pid), "listed-after-down", || json!(format!("{end:?}")));
                        check(Process::whereis(name).is_none(), "name-after-down", || json!(format!("{end:?}")));
                        let d = drops.load(Ordering::SeqCst);
                        check(d == 1, "state-not-dropped", || json!({"end": format!("{end:?}"), "drops": d}));
                        check(!after.load(Ordering::SeqCst), "ran-past-exit", || json!(format!("{end:?}")));
                        if *end != End::KilledAtOnce && !matches!(end, End::ExitSelfFirst(_)) {
                            check(started.load(Ordering::SeqCst), "never-ran", || json!(format!("{end:?}")));
                        }
                        cover(&("end", end.clone()));
                        count("deaths", 1);
                    }
                    Some(m) => violation("unexpected-message", json!(format!("{m:?}"))),
                    None => {
                        let left: Vec<String> = watch
                            .iter()
                            .filter(|w| pending.contains(&w.1))
                            .map(|w| {
                                format!("{:?} {:?} alive={} info={:?}", w.0, w.2, Process::alive(w.0), Process::info(w.0))
                            })
                            .collect();
                        violation("never-down", json!(left));
                        break;
                    }
                }
            }
            sample("lives", || json!(watch.iter().map(|w| format!("{:?}", w.2)).collect::<Vec<_>>()));
            cover(&("mix", hash_of(&watch.iter().map(|w| w.2.clone()).collect::<Vec<_>>())));
        })
        .await;
        check(ok.is_some(), "watcher-died", || json!("a process died although only others failed"));
        let settled = eventually(|| {
            let l = Process::list();
            l.len() <= 1
        })
        .await;
        check(settled, "zombie-process", || {
            json!(Process::list().iter().map(|p| format!("{p:?}")).collect::<Vec<_>>())
        });
        evaluated(1);
    });
    drop(rt);
    let left = Process::list();
    check(left.is_empty(), "process-outlives-runtime", || json!(format!("{left:?}")));
}

fn ignore_unit() {
    std::panic::resume_unwind(Box::new(42u32));
}

/// Spawning from many places at once, with observers walking the process list.
fn burst(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let rt = runtime_threads(*rng.pick(&[2, 4, 8]));
    chaos(rng);
    let mut fork = rng.fork();
    rt.block_on(async move {
        let rng = &mut fork;
        let gate = Arc::new(tokio::sync::Semaphore::new(0));
        let spawners = rng.range(2, 6);
        let per = rng.range(3, 20);
        let mut tasks = Vec::new();
        for _ in 0..spawners {
            let gate = gate.clone();
            let mut rng = rng.fork();
            tasks.push(tokio::spawn(async move {
                let mut mine = Vec::new();
                for _ in 0..per {
                    let g = gate.clone();
                    let pid = Process::spawn(async move {
                        let p = g.acquire().await;
                        if let Ok(p) = p {
                            p.forget();
                        }
                    });
                    check(Process::alive(pid), "not-alive-after-spawn", || json!(format!("{pid:?}")));
                    unique(pid);
                    mine.push(pid);
                    // Everything this spawner made so far is still waiting, so it must be listed.
                    if rng.chance(1, 3) {
                        let list: HashSet<Pid> = Process::list().into_iter().collect();
                        check(mine.iter().all(|p| list.contains(p)), "missing-from-list", || {
                            json!({"mine": format!("{mine:?}"), "list": list.len()})
                        });
                    }
                }
                mine
            }));
        }
        let mut all = Vec::new();
        for t in tasks {
            all.extend(t.await.unwrap());
        }
        let list = Process::list();
        let set: HashSet<Pid> = list.iter().copied().collect();
        check(set.len() == list.len(), "duplicate-in-list", || json!(format!("{list:?}")));
        check(all.iter().all(|p| set.contains(p) && Process::alive(*p)), "missing-from-list", || json!("all"));
        gate.add_permits(all.len());
        let gone = eventually(|| all.iter().all(|p| !Process::alive(*p) && Process::info(*p).is_none())).await;
        check(gone, "never-down", || json!("burst"));
        let settled = eventually(|| Process::list().len() <= 1).await;
        check(settled, "zombie-process", || json!(format!("{:?}", Process::list())));
        count("deaths", all.len() as u64);
        cover(&("burst", spawners, per));
        evaluated(1);
    });
}

/// A runtime that goes away takes its processes with it, whatever they were doing.
fn shutdown(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let rt = runtime(rng);
    chaos(rng);
    let mut fork = rng.fork();
    rt.block_on(async {
        let rng = &mut fork;
        let mut prev: Option<Pid> = None;
        for i in 0..rng.range(2, 12) {
            let link = prev;
            let trap = rng.bool();
            let spawning = rng.bool();
            prev = Some(Process::spawn(async move {
                if trap {
                    Process::set_flags(ProcessFlags::TRAP_EXIT);
                }
                if let Some(p) = link {
                    Process::link(p);
                    Process::monitor(p);
                }
                Process::alias(false);
                Process::register(Process::current(), format!("shutdown-{i}")).ok();
                while spawning {
                    Process::spawn(async { tokio::task::yield_now().await });
                    Process::sleep(Duration::from_micros(200)).await;
                }
                forever().await
            }));
        }
        if rng.bool() {
            tokio::time::sleep(Duration::from_millis(rng.below(4))).await;
        }
    });
    if ep.rng.bool() {
        rt.shutdown_timeout(Duration::from_secs(30));
    } else {
        drop(rt);
    }
    let left = Process::list();
    check(left.is_empty(), "process-outlives-runtime", || json!(format!("{left:?}")));
    let names = Process::registered();
    check(names.is_empty(), "name-outlives-runtime", || json!(format!("{names:?}")));
    cover(&("shutdown", ep.rng.below(4)));
    evaluated(1);
}

fn main() {
    run(
        "C03",
        &[scenario("lives", 6, lives), scenario("burst", 2, burst), scenario("shutdown", 1, shutdown)],
    );
}
