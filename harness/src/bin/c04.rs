//! C04: exit signals. What a signal does to its target is decided by the reason, by who sent it, by
//! whether it travelled over a link, and by whether the target traps exits; checked against a table.
use std::time::Duration;

use hv::*;
use hydra::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Cmd {
    Trap(bool),
    Exit(Pid, ExitReason),
    ExitSelf(ExitReason),
    Link(Pid),
    Die(ExitReason),
    Panic,
    Return,
    Note(u64),
}

#[derive(Clone, Debug, PartialEq)]
enum Seen {
    Exit(Pid, ExitReason),
    Note(u64),
}

async fn actor(log: Log<Seen>) {
    loop {
        match Process::receive::<Cmd>().await {
            Message::User(Cmd::Trap(on)) => {
                let want = if on { ProcessFlags::TRAP_EXIT } else { ProcessFlags::empty() };
                Process::set_flags(want);
                check(Process::flags() == want, "flags", || json!(format!("{want:?}")));
            }
            Message::User(Cmd::Exit(pid, reason)) => Process::exit(pid, reason),
            Message::User(Cmd::ExitSelf(reason)) | Message::User(Cmd::Die(reason)) => {
                Process::exit(Process::current(), reason)
            }
            Message::User(Cmd::Link(pid)) => Process::link(pid),
            Message::User(Cmd::Panic) => expected_panic("boom"),
            Message::User(Cmd::Return) => return,
            Message::User(Cmd::Note(n)) => {
                log.push(Seen::Note(n));
            }
            Message::System(SystemMessage::Exit(from, reason)) => {
                log.push(Seen::Exit(from, reason));
            }
            Message::System(s) => violation("unexpected-system-message", json!(format!("{s:?}"))),
        }
    }
}

/// What the table says: does the target die, and with which reason, or does it see a message?
enum Effect {
    Nothing,
    Seen,
    Dies(ExitReason),
}

fn direct(reason: &ExitReason, own: bool, trap: bool) -> Effect {
    match reason {
        ExitReason::Kill => Effect::Dies(ExitReason::Kill),
        r if own => Effect::Dies(r.clone()),
        _ if trap => Effect::Seen,
        ExitReason::Normal | ExitReason::Ignore => Effect::Nothing,
        r => Effect::Dies(r.clone()),
    }
}

fn linked(reason: &ExitReason, trap: bool) -> Effect {
    if trap {
        Effect::Seen
    } else if *reason == ExitReason::Normal {
        Effect::Nothing
    } else {
        Effect::Dies(reason.clone())
    }
}

fn table(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let steps: Log<String> = Log::new();
    let trace = steps.clone();
    virtual_time(async move {
        let done = in_process(async move {
            let log: Log<Seen> = Log::new();
            let (target, monitor) = Process::spawn_monitor(actor(log.clone()));
            let (bystander, _) = Process::spawn_monitor(actor(Log::new()));
            let mut trap = false;
            // Processes linked to the target for good: their signals are no different from those of others.
            let mut friends: Vec<Pid> = Vec::new();
            let mut want: Vec<Seen> = Vec::new();
            let mut dead: Option<ExitReason> = None;
            for step in 0..rng.range(3, 25) {
                let reason = random_reason(&mut rng);
                let what = rng.below(10);
                let (from, effect, text) = match what {
                    0 => {
                        trap = rng.bool();
                        Process::send(target, Cmd::Trap(trap));
                        (None, Effect::Nothing, format!("trap {trap}"))
                    }
                    1 => {
                        Process::send(target, Cmd::Note(step));
                        want.push(Seen::Note(step));
                        (None, Effect::Nothing, format!("note {step}"))
                    }
                    2 | 3 => {
                        let peer = Process::spawn(actor(Log::new()));
                        Process::send(peer, Cmd::Exit(target, reason.clone()));
                        (Some(peer), direct(&reason, false, trap), format!("peer exits target {reason:?} trap={trap}"))
                    }
                    4 => {
                        // From this very process.
                        Process::exit(target, reason.clone());
                        if matches!(direct(&reason, false, trap), Effect::Dies(_)) && rng.bool() {
                            // It is dead from now on, even before anybody else had a turn.
                            check(!Process::alive(target), "signal-life", || json!({"history": trace.snapshot(), "just": reason_str(&reason)}));
                            for _ in 0..rng.range(1, 3) {
                                Process::exit(target, random_reason(&mut rng));
                            }
                            count("signals-to-the-dead", 1);
                        }
                        (
                            Some(Process::current()),
                            direct(&reason, false, trap),
                            format!("exit target {reason:?} trap={trap}"),
                        )
                    }
                    5 => {
                        // Rarely, or no history gets long.
                        if rng.chance(1, 4) {
                            Process::send(target, Cmd::ExitSelf(reason.clone()));
                            (Some(target), direct(&reason, true, trap), format!("target exits itself {reason:?} trap={trap}"))
                        } else {
                            (None, Effect::Nothing, "nothing".into())
                        }
                    }
                    6 if friends.len() < 3 => {
                        // A friend traps exits, so that it survives the target and its own exits.
                        let friend = Process::spawn(actor(Log::new()));
                        Process::send(friend, Cmd::Trap(true));
                        match rng.below(3) {
                            0 => Process::send(target, Cmd::Link(friend)),
                            _ => Process::send(friend, Cmd::Link(target)),
                        }
                        friends.push(friend);
                        (None, Effect::Nothing, "a friend links".into())
                    }
                    6 | 7 if !friends.is_empty() => {
                        let peer = *rng.pick(&friends);
                        Process::send(peer, Cmd::Exit(target, reason.clone()));
                        (Some(peer), direct(&reason, false, trap), format!("friend exits target {reason:?} trap={trap}"))
                    }
                    _ => {
                        let peer = Process::spawn(actor(Log::new()));
                        Process::send(target, Cmd::Link(peer));
                        quiesce().await;
                        let (r, how) = match rng.below(3) {
                            0 => {
                                Process::send(peer, Cmd::Return);
                                (ExitReason::Normal, "returns")
                            }
                            1 => {
                                Process::send(peer, Cmd::Panic);
                                ("[expected]boom".into(), "panics")
                            }
                            _ => {
                                Process::send(peer, Cmd::Die(reason.clone()));
                                (reason.clone(), "exits")
                            }
                        };
                        (Some(peer), linked(&r, trap), format!("linked peer {how} {r:?} trap={trap}"))
                            .pipe(|(p, e, t)| {
                                if let Effect::Seen = e {
                                    want.push(Seen::Exit(p.unwrap(), r));
                                    (None, Effect::Nothing, t)
                                } else {
                                    (p, e, t)
                                }
                            })
                    }
                };
                trace.push(text.clone());
                cover(&(what, trap, format!("{reason:?}").chars().take(6).collect::<String>()));
                quiesce().await;
                match effect {
                    Effect::Nothing => {}
                    Effect::Seen => want.push(Seen::Exit(from.unwrap(), reason)),
                    Effect::Dies(r) => dead = Some(r),
                }
                let got = log.snapshot();
                if !check(got == want, "signal-messages", || {
                    json!({"history": trace.snapshot(), "expected": format!("{want:?}"), "got": format!("{got:?}")})
                }) {
                    return;
                }
                let alive = Process::alive(target);
                if !check(alive == dead.is_none(), "signal-life", || {
                    json!({"history": trace.snapshot(), "alive": alive, "expected": dead.is_none()})
                }) {
                    return;
                }
                check(Process::alive(bystander), "bystander-died", || json!(trace.snapshot()));
                let flag = Process::info(target).map(|i| i.trap_exit);
                check(flag.is_none() || flag == Some(trap), "trap-flag", || json!(trace.snapshot()));
                let down = ready_message::<()>().await;
                match (&dead, down) {
                    (None, None) => {}
                    (Some(r), Some(Message::System(SystemMessage::ProcessDown(_, m, got)))) if m == monitor => {
                        check(got == *r, "signal-reason", || {
                            json!({"history": trace.snapshot(), "expected": reason_str(r), "got": reason_str(&got)})
                        });
                    }
                    (d, g) => violation(
                        "signal-down",
                        json!({"history": trace.snapshot(), "expected": format!("{d:?}"), "got": format!("{g:?}")}),
                    ),
                }
                if dead.is_some() {
                    // Signals to the dead do nothing at all.
                    Process::exit(target, "again");
                    Process::exit(target, ExitReason::Kill);
                    quiesce().await;
                    check(log.snapshot() == want && !Process::alive(target), "signal-after-death", || {
                        json!(trace.snapshot())
                    });
                    break;
                }
            }
            count("signals", trace.len() as u64);
        })
        .await;
        check(done.is_some(), "driver-died", || json!("the observing process died"));
    });
    sample("history", || json!(steps.snapshot()));
    cover(&hash_of(&steps.snapshot()));
    evaluated(1);
}

trait Pipe: Sized {
    fn pipe<R>(self, f: impl FnOnce(Self) -> R) -> R {
        f(self)
    }
}
impl<T> Pipe for T {}

/// Many signals at once: a trapping target sees each exactly once, in per-sender order, and only kill
/// ends it; a target that does not trap dies exactly once, of a reason somebody sent.
fn storm(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let rt = runtime(rng);
    chaos(rng);
    let mut fork = rng.fork();
    rt.block_on(async move {
        let done = in_process(async move {
            let mut rng = fork;
            let trap = rng.chance(2, 3);
            let log: Log<Seen> = Log::new();
            let l = log.clone();
            let (tx, rx) = tokio::sync::oneshot::channel();
            let (target, monitor) = Process::spawn_monitor(async move {
                if trap {
                    Process::set_flags(ProcessFlags::TRAP_EXIT);
                }
                tx.send(()).ok();
                actor(l).await
            });
            rx.await.ok();
            let senders = rng.range(1, 5);
            let per = rng.range(1, 12);
            let mut want: Vec<(Pid, Vec<ExitReason>)> = Vec::new();
            let mut tasks = Vec::new();
            for s in 0..senders {
                let mut reasons = Vec::new();
                for i in 0..per {
                    reasons.push(match rng.below(4) {
                        0 => ExitReason::Normal,
                        1 => ExitReason::Ignore,
                        _ => ExitReason::Custom(format!("{s}-{i}")),
                    });
                }
                let list = reasons.clone();
                let by_link = trap && rng.bool();
                let last = format!("last {s}");
                let final_reason = last.clone();
                let (tx, rx) = tokio::sync::oneshot::channel();
                let pid = Process::spawn(async move {
                    if by_link {
                        Process::link(target);
                    }
                    for (i, r) in list.into_iter().enumerate() {
                        Process::exit(target, r);
                        if i % 3 == 2 {
                            tokio::task::yield_now().await;
                        }
                    }
                    tx.send(()).ok();
                    if by_link {
                        Process::exit(Process::current(), final_reason);
                        forever().await;
                    }
                });
                if by_link {
                    reasons.push(last.into());
                }
                want.push((pid, reasons));
                tasks.push(rx);
            }
            for t in tasks {
                let _ = t.await;
            }
            let total: usize = want.iter().map(|w| w.1.len()).sum();
            count("signals", total as u64);
            if trap {
                let l = log.clone();
                let ok = eventually(|| l.len() >= total).await;
                let seen = log.snapshot();
                check(ok, "signal-lost", || json!({"expected": total, "got": format!("{seen:?}")}));
                for (pid, reasons) in &want {
                    let got: Vec<ExitReason> = seen
                        .iter()
                        .filter_map(|s| match s {
                            Seen::Exit(p, r) if p == pid => Some(r.clone()),
                            _ => None,
                        })
                        .collect();
                    check(got == *reasons, "signal-order", || {
                        json!({"expected": format!("{reasons:?}"), "got": format!("{got:?}")})
                    });
                }
                check(Process::alive(target), "trapping-target-died", || json!(format!("{want:?}")));
                Process::exit(target, ExitReason::Kill);
            }
            let deadly = trap || want.iter().any(|w| w.1.iter().any(|r| r.is_custom()));
            if deadly {
                match next_message::<()>().await {
                    Some(Message::System(SystemMessage::ProcessDown(_, m, why))) => {
                        check(m == monitor, "signal-down", || json!("other monitor"));
                        let legal = if trap {
                            why == ExitReason::Kill
                        } else {
                            want.iter().any(|w| w.1.iter().find(|r| r.is_custom()) == Some(&why))
                        };
                        check(legal, "signal-reason", || json!(reason_str(&why)));
                    }
                    other => violation("signal-no-death", json!({"got": format!("{other:?}"), "trap": trap})),
                }
            } else {
                check(Process::alive(target), "killed-by-normal", || json!(format!("{want:?}")));
                Process::exit(target, ExitReason::Kill);
                let gone = eventually(|| !Process::alive(target)).await;
                check(gone, "signal-no-death", || json!("kill"));
            }
            cover(&("storm", trap, senders, per, deadly));
            Process::sleep(Duration::from_micros(1)).await;
            check(ready_down().await.is_none() || !deadly, "second-down", || json!("two down messages"));
        })
        .await;
        check(done.is_some(), "driver-died", || json!("the observing process died"));
        evaluated(1);
    });
}

/// Signals to a process that is busy and cannot be interrupted: the first that ends it gives the reason, whatever the
/// process does until it notices, and it gets no further than to where it would wait next.
fn busy(ep: &mut Ep) {
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    use std::sync::Arc;
    let mut rng = ep.rng.fork();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
    rt.block_on(async move {
        let done = in_process(async move {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            let trap = rng.chance(1, 3);
            let (going, go, passed) = (Arc::new(AtomicBool::new(false)), Arc::new(AtomicBool::new(false)), Arc::new(AtomicBool::new(false)));
            let own: Vec<ExitReason> = (0..rng.below(3)).map(|_| random_reason(&mut rng)).collect();
            let end = rng.below(4);
            let (a, b, c, list) = (going.clone(), go.clone(), passed.clone(), own.clone());
            let body = async move {
                if trap {
                    Process::set_flags(ProcessFlags::TRAP_EXIT);
                }
                a.store(true, SeqCst);
                let begun = std::time::Instant::now();
                while !b.load(SeqCst) && begun.elapsed() < Duration::from_secs(20) {
                    std::thread::sleep(Duration::from_micros(50));
                }
                for r in list {
                    Process::exit(Process::current(), r);
                }
                match end {
                    0 => {}
                    1 => expected_panic("boom"),
                    2 => {
                        tokio::task::yield_now().await;
                        c.store(true, SeqCst);
                    }
                    _ => {
                        let (_tx, rx) = tokio::sync::oneshot::channel::<()>();
                        drop(_tx);
                        let _ = rx.await;
                        tokio::task::yield_now().await;
                        c.store(true, SeqCst);
                        expected_panic("late");
                    }
                }
            };
            let with_link = rng.bool();
            let (target, monitor) = if with_link {
                let pid = Process::spawn_link(body);
                (pid, Process::monitor(pid))
            } else {
                Process::spawn_monitor(body)
            };
            let begun = std::time::Instant::now();
            while !going.load(SeqCst) && begun.elapsed() < Duration::from_secs(20) {
                tokio::time::sleep(Duration::from_micros(100)).await;
            }
            let sent: Vec<ExitReason> = (0..rng.below(4)).map(|_| random_reason(&mut rng)).collect();
            let mut first: Option<ExitReason> = None;
            for r in &sent {
                Process::exit(target, r.clone());
                if let (None, Effect::Dies(r)) = (&first, direct(r, false, trap)) {
                    first = Some(r);
                }
                check(Process::alive(target) == first.is_none(), "signal-life", || json!({"sent": format!("{sent:?}"), "at": reason_str(r), "trap": trap}));
            }
            if first.is_none() {
                first = own.first().cloned();
            }
            let ended = first.is_some();
            let want = first.unwrap_or_else(|| match end {
                1 => ExitReason::from("boom"),
                3 => ExitReason::from("late"),
                _ => ExitReason::Normal,
            });
            go.store(true, SeqCst);
            let what = || json!({"sent": format!("{sent:?}"), "own": format!("{own:?}"), "trap": trap, "end": end, "wanted": reason_str(&want)});
            let mut told = Vec::new();
            for _ in 0..1 + with_link as usize {
                match next_message::<()>().await {
                    Some(Message::System(SystemMessage::ProcessDown(_, m, why))) if m == monitor => told.push(("down", why)),
                    Some(Message::System(SystemMessage::Exit(pid, why))) if pid == target => told.push(("exit", why)),
                    other => violation("signal-no-death", json!({"got": format!("{other:?}"), "what": what()})),
                }
            }
            // (Its own panic text may come with where it happened, never with another reason.)
            let same = |why: &ExitReason| *why == want || !ended && matches!(end, 1 | 3) && format!("{why:?}").contains(if end == 1 { "boom" } else { "late" });
            check(told.iter().all(|t| same(&t.1)), "signal-reason", || json!({"told": format!("{told:?}"), "what": what()}));
            check(!(ended && passed.load(SeqCst)), "body-runs-on", what);
            cover(&("busy", trap, sent.len(), own.len(), end, with_link, ended));
            evaluated(1);
        })
        .await;
        check(done.is_some(), "driver-died", || json!("the observing process died"));
    });
    rt.shutdown_timeout(Duration::from_secs(2));
}

async fn ready_down() -> Option<Message<()>> {
    ready_message::<()>().await
}

fn main() {
    run("C04", &[scenario("table", 6, table), scenario("storm", 3, storm), scenario("busy", 3, busy)]);
}
