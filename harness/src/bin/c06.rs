//! C06: monitors. Exactly one down message per monitor, the right reference, target and reason, after the
//! target's own messages, never after a removal; monitor aliases.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;

use hv::*;
use hydra::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Cmd {
    // For watchers.
    MonitorPid(Pid),
    MonitorName(String),
    MonitorAlias(Pid, bool),
    MonitorAliasName(String, bool),
    SpawnMonitor,
    Demonitor(Reference),
    Unalias(Reference),
    /// Looks at everything in the mailbox but takes only a `Note` that is not there.
    Skim,
    Drain,
    // For targets.
    Say(Dest, u64),
    Die(ExitReason),
    Panic,
    Return,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Note(u64);

#[derive(Clone, Debug, PartialEq, Eq)]
enum Got {
    Note(u64),
    Down(Reference, Dest, ExitReason),
    Other(String),
}

enum Answer {
    Ref(Reference),
    Spawned(Pid, Reference),
    Drained(Vec<Got>),
    Flag(bool),
    Done,
}

async fn target() {
    loop {
        match Process::receiver().for_message::<Cmd>().receive().await {
            Message::User(Cmd::Say(dest, n)) => Process::send(vec![dest], Note(n)),
            Message::User(Cmd::Die(reason)) => {
                Process::exit(Process::current(), reason);
                forever().await;
            }
            Message::User(Cmd::Panic) => expected_panic("boom"),
            Message::User(Cmd::Return) => return,
            Message::User(c) => violation("harness", json!(format!("{c:?}"))),
            Message::System(s) => violation("unexpected-system-message", json!(format!("{s:?}"))),
        }
    }
}

async fn drain() -> Vec<Got> {
    let mut out = Vec::new();
    while let Some(m) = ready_message::<Note>().await {
        out.push(match m {
            Message::User(Note(n)) => Got::Note(n),
            Message::System(SystemMessage::ProcessDown(dest, reference, reason)) => {
                check_compares(Some(&dest), Some(&reason));
                Got::Down(reference, dest, reason)
            }
            Message::System(s) => Got::Other(format!("{s:?}")),
        });
    }
    out
}

/// Takes orders only through a channel, so that its mailbox holds nothing but what is under test.
async fn watcher(mut orders: tokio::sync::mpsc::UnboundedReceiver<(Cmd, tokio::sync::oneshot::Sender<Answer>)>) {
    while let Some((cmd, tx)) = orders.recv().await {
        let answer = match cmd {
            Cmd::MonitorPid(pid) => Answer::Ref(Process::monitor(pid)),
            Cmd::MonitorName(name) => Answer::Ref(Process::monitor(name)),
            Cmd::MonitorAlias(pid, reply) => Answer::Ref(Process::monitor_alias(pid, reply)),
            Cmd::MonitorAliasName(name, reply) => Answer::Ref(Process::monitor_alias(name, reply)),
            Cmd::SpawnMonitor => {
                let (pid, r) = Process::spawn_monitor(target());
                Answer::Spawned(pid, r)
            }
            Cmd::Demonitor(r) => {
                Process::demonitor(r);
                Answer::Done
            }
            Cmd::Unalias(r) => Answer::Flag(Process::unalias(r)),
            Cmd::Skim => {
                let fut = Process::receiver()
                    .for_message::<Note>()
                    .select(|m| matches!(m, Message::User(Note(u64::MAX))));
                tokio::pin!(fut);
                std::future::poll_fn(|cx| {
                    use std::future::Future;
                    let _ = fut.as_mut().poll(cx);
                    std::task::Poll::Ready(())
                })
                .await;
                Answer::Done
            }
            Cmd::Drain => Answer::Drained(drain().await),
            _ => return,
        };
        tx.send(answer).ok();
    }
}

struct Mon {
    watcher: usize,
    target: Option<usize>,
    dest: Dest,
    reference: Reference,
    active: bool,
    /// Some(reply) while the alias works.
    alias: Option<bool>,
}

struct W {
    pid: Pid,
    tx: tokio::sync::mpsc::UnboundedSender<(Cmd, tokio::sync::oneshot::Sender<Answer>)>,
    mailbox: Vec<Got>,
    alive: bool,
}

impl W {
    async fn ask(&self, cmd: Cmd) -> Option<Answer> {
        let (tx, rx) = tokio::sync::oneshot::channel();
        self.tx.send((cmd, tx)).ok()?;
        rx.await.ok()
    }
}

static EPISODE: AtomicU64 = AtomicU64::new(0);

/// Random programs of monitors, one operation at a time, against the model.
fn model(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let steps: Log<String> = Log::new();
    let trace = steps.clone();
    let episode = EPISODE.fetch_add(1, Ordering::SeqCst);
    virtual_time(async move {
        let mut watchers: Vec<W> = Vec::new();
        for _ in 0..rng.range(1, 3) {
            let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
            watchers.push(W { pid: Process::spawn(watcher(rx)), tx, mailbox: vec![], alive: true });
        }
        struct T {
            pid: Pid,
            alive: bool,
            name: Option<String>,
        }
        let mut targets: Vec<T> = Vec::new();
        for i in 0..rng.range(1, 4) {
            let pid = Process::spawn(target());
            let name = rng.bool().then(|| format!("c06-{episode}-{i}"));
            if let Some(name) = &name {
                Process::register(pid, name.clone()).unwrap();
            }
            targets.push(T { pid, alive: true, name });
        }
        quiesce().await;
        let mut mons: Vec<Mon> = Vec::new();
        let mut note = 0u64;
        for _ in 0..rng.range(5, 60) {
            let w = rng.usize(watchers.len());
            let t = rng.usize(targets.len());
            let noproc = |mons: &mut Vec<Mon>, watchers: &mut Vec<W>, dest: Dest, reference: Reference| {
                watchers[w].mailbox.push(Got::Down(reference, dest.clone(), "noproc".into()));
                mons.push(Mon { watcher: w, target: None, dest, reference, active: false, alias: None });
            };
            match rng.below(18) {
                0..=2 => {
                    let pid = targets[t].pid;
                    let alias = match rng.below(3) {
                        0 => Some(rng.bool()),
                        _ => None,
                    };
                    let cmd = match alias {
                        Some(reply) => Cmd::MonitorAlias(pid, reply),
                        None => Cmd::MonitorPid(pid),
                    };
                    let Some(Answer::Ref(reference)) = watchers[w].ask(cmd).await else { continue };
                    trace.push(format!("w{w} monitors t{t} {alias:?} alive {}: {reference:?}", targets[t].alive));
                    cover(&("monitor", targets[t].alive, alias));
                    if targets[t].alive {
                        mons.push(Mon { watcher: w, target: Some(t), dest: pid.into(), reference, active: true, alias });
                    } else {
                        noproc(&mut mons, &mut watchers, pid.into(), reference);
                    }
                }
                3 | 4 => {
                    let name = if rng.chance(1, 5) {
                        format!("c06-nobody-{episode}")
                    } else {
                        match &targets[t].name {
                            Some(n) => n.clone(),
                            None => continue,
                        }
                    };
                    let alias = match rng.below(3) {
                        0 => Some(rng.bool()),
                        _ => None,
                    };
                    let cmd = match alias {
                        Some(reply) => Cmd::MonitorAliasName(name.clone(), reply),
                        None => Cmd::MonitorName(name.clone()),
                    };
                    let Some(Answer::Ref(reference)) = watchers[w].ask(cmd).await else { continue };
                    let dest = Dest::from(name.clone());
                    let alive = targets[t].name.as_ref() == Some(&name) && targets[t].alive;
                    trace.push(format!("w{w} monitors {name} {alias:?} alive {alive}: {reference:?}"));
                    cover(&("monitor name", alive, alias));
                    if alive {
                        mons.push(Mon { watcher: w, target: Some(t), dest, reference, active: true, alias });
                    } else {
                        noproc(&mut mons, &mut watchers, dest, reference);
                    }
                }
                5 => {
                    if targets.len() < 8 {
                        let Some(Answer::Spawned(pid, reference)) = watchers[w].ask(Cmd::SpawnMonitor).await else { continue };
                        trace.push(format!("w{w} spawn_monitors t{}: {reference:?}", targets.len()));
                        mons.push(Mon {
                            watcher: w,
                            target: Some(targets.len()),
                            dest: pid.into(),
                            reference,
                            active: true,
                            alias: None,
                        });
                        targets.push(T { pid, alive: true, name: None });
                    }
                }
                6 | 7 => {
                    if mons.is_empty() {
                        continue;
                    }
                    // Usually an own one, sometimes someone else's.
                    let m = rng.usize(mons.len());
                    let by = if rng.chance(4, 5) { mons[m].watcher } else { w };
                    let reference = mons[m].reference;
                    if watchers[by].ask(Cmd::Demonitor(reference)).await.is_none() {
                        continue;
                    }
                    trace.push(format!("w{by} demonitors {reference:?}"));
                    if by == mons[m].watcher {
                        let before = watchers[by].mailbox.len();
                        watchers[by].mailbox.retain(|g| !matches!(g, Got::Down(r, _, _) if *r == reference));
                        cover(&("demonitor", mons[m].active, before - watchers[by].mailbox.len(), mons[m].alias));
                        mons[m].active = false;
                        mons[m].alias = None;
                    }
                }
                8 => {
                    // A message over a monitor's reference, from a target or from outside.
                    if mons.is_empty() {
                        continue;
                    }
                    let m = rng.usize(mons.len());
                    note += 1;
                    trace.push(format!("note {note} to alias {:?}", mons[m].reference));
                    match rng.below(3) {
                        0 => Process::send(mons[m].reference, Note(note)),
                        1 => Process::send(vec![Dest::from(mons[m].reference)], Note(note)),
                        _ => {
                            if !targets[t].alive {
                                continue;
                            }
                            Process::send(targets[t].pid, Cmd::Say(mons[m].reference.into(), note));
                        }
                    }
                    let watcher = mons[m].watcher;
                    cover(&("alias send", mons[m].alias, mons[m].active));
                    match mons[m].alias {
                        Some(true) => {
                            mons[m].alias = None;
                            watchers[watcher].mailbox.push(Got::Note(note));
                        }
                        Some(false) => watchers[watcher].mailbox.push(Got::Note(note)),
                        None => {}
                    }
                }
                9 => {
                    if mons.is_empty() {
                        continue;
                    }
                    let m = rng.usize(mons.len());
                    let by = mons[m].watcher;
                    let reference = mons[m].reference;
                    let Some(Answer::Flag(was)) = watchers[by].ask(Cmd::Unalias(reference)).await else { continue };
                    trace.push(format!("w{by} unaliases {reference:?} -> {was}"));
                    check(was == mons[m].alias.is_some(), "monitor-unalias-result", || {
                        json!({"said": was, "expected": mons[m].alias.is_some(), "history": trace.snapshot()})
                    });
                    // The monitor stays.
                    mons[m].alias = None;
                }
                10 => {
                    // Some note straight into a watcher's mailbox.
                    note += 1;
                    if targets[t].alive {
                        Process::send(targets[t].pid, Cmd::Say(watchers[w].pid.into(), note));
                        if watchers[w].alive {
                            watchers[w].mailbox.push(Got::Note(note));
                        }
                        trace.push(format!("t{t} notes {note} to w{w}"));
                    }
                }
                11 => {
                    watchers[w].ask(Cmd::Skim).await;
                    trace.push(format!("w{w} skims"));
                    cover(&("skim", watchers[w].mailbox.len().min(6)));
                }
                12 => {
                    if let Some(Answer::Drained(got)) = watchers[w].ask(Cmd::Drain).await {
                        trace.push(format!("w{w} drains {}", got.len()));
                        compare(&got, &watchers[w].mailbox, &trace);
                        watchers[w].mailbox.clear();
                    }
                }
                13 | 14 => {
                    let (cmd, reason) = match rng.below(5) {
                        0 => (Cmd::Return, ExitReason::Normal),
                        1 => (Cmd::Panic, "[expected]boom".into()),
                        _ => {
                            let r = random_reason(&mut rng);
                            (Cmd::Die(r.clone()), r)
                        }
                    };
                    // Last words, which must come before the notification.
                    let mut words = Vec::new();
                    if targets[t].alive && rng.bool() {
                        note += 1;
                        Process::send(targets[t].pid, Cmd::Say(watchers[w].pid.into(), note));
                        words.push((w, note));
                    }
                    trace.push(format!("t{t} dies {reason:?} {words:?}"));
                    Process::send(targets[t].pid, cmd);
                    if targets[t].alive {
                        targets[t].alive = false;
                        for (w, n) in words {
                            if watchers[w].alive {
                                watchers[w].mailbox.push(Got::Note(n));
                            }
                        }
                        let mut fired = 0;
                        let mut at: BTreeMap<usize, Vec<Got>> = BTreeMap::new();
                        for m in &mut mons {
                            if m.active && m.target == Some(t) {
                                m.active = false;
                                m.alias = None;
                                fired += 1;
                                at.entry(m.watcher).or_default().push(Got::Down(
                                    m.reference,
                                    m.dest.clone(),
                                    reason.clone(),
                                ));
                            }
                        }
                        for (w, downs) in at {
                            if watchers[w].alive {
                                watchers[w].mailbox.extend(downs);
                            }
                        }
                        cover(&("death", fired, reason_kind(&reason)));
                    }
                }
                15 | 16 => {
                    // A name is released, or moves on to another process: monitors stay with the process.
                    let Some(name) = targets[t].name.take() else { continue };
                    if targets[t].alive {
                        Process::unregister(name.clone());
                    }
                    let to = (0..targets.len()).filter(|i| *i != t && targets[*i].alive && targets[*i].name.is_none());
                    let to: Vec<usize> = to.collect();
                    if !to.is_empty() && rng.chance(3, 4) {
                        let to = *rng.pick(&to);
                        check(Process::register(targets[to].pid, name.clone()).is_ok(), "monitor-name-free", || json!(trace.snapshot()));
                        trace.push(format!("t{t} gives {name} to t{to}"));
                        targets[to].name = Some(name);
                    } else {
                        trace.push(format!("t{t} gives up {name}"));
                    }
                    let moved = mons.iter().any(|m| m.active && m.target == Some(t) && matches!(m.dest, Dest::Named(..)));
                    cover(&("name moves", targets[t].alive, moved));
                }
                _ => {
                    if rng.chance(1, 6) && watchers[w].alive {
                        trace.push(format!("w{w} dies"));
                        kill(watchers[w].pid);
                        quiesce().await;
                        watchers[w].alive = false;
                        watchers[w].mailbox.clear();
                        for m in &mut mons {
                            if m.watcher == w {
                                m.active = false;
                                m.alias = None;
                            }
                        }
                    }
                }
            }
            quiesce().await;
            for (i, t) in targets.iter().enumerate() {
                if !check(Process::alive(t.pid) == t.alive, "monitor-target-life", || {
                    json!({"target": i, "history": trace.snapshot()})
                }) {
                    return;
                }
                if t.alive {
                    let mut got: Vec<Pid> = Process::info(t.pid).map(|i| i.monitored_by).unwrap_or_default();
                    got.sort();
                    let mut want: Vec<Pid> = mons
                        .iter()
                        .filter(|m| m.active && m.target == Some(i))
                        .map(|m| watchers[m.watcher].pid)
                        .collect();
                    want.sort();
                    if !check(got == want, "monitored-by", || {
                        json!({"target": i, "got": format!("{got:?}"), "want": format!("{want:?}"), "history": trace.snapshot()})
                    }) {
                        return;
                    }
                }
            }
        }
        for w in &watchers {
            if let Some(Answer::Drained(got)) = w.ask(Cmd::Drain).await {
                compare(&got, &w.mailbox, &trace);
            }
        }
        count("operations", trace.len() as u64);
    });
    sample("history", || json!(steps.snapshot()));
    evaluated(1);
}

fn reason_kind(r: &ExitReason) -> u8 {
    match r {
        ExitReason::Normal => 0,
        ExitReason::Kill => 1,
        ExitReason::Ignore => 2,
        ExitReason::Custom(_) => 3,
    }
}

/// The order among the down messages of one death is not promised, everything else is.
fn compare(got: &[Got], want: &[Got], trace: &Log<String>) -> bool {
    let canon = |list: &[Got]| {
        let mut out: Vec<Vec<String>> = Vec::new();
        let mut downs = false;
        for g in list {
            let down = matches!(g, Got::Down(..));
            if !(down && downs) {
                out.push(Vec::new());
            }
            out.last_mut().unwrap().push(format!("{g:?}"));
            downs = down;
        }
        for block in &mut out {
            block.sort();
        }
        out
    };
    check(canon(got) == canon(want), "monitor-mailbox", || {
        json!({"got": format!("{got:?}"), "want": format!("{want:?}"), "history": trace.snapshot()})
    })
}

/// Concurrent installation, removal, last words and death.
fn race(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let rt = runtime_threads(*rng.pick(&[2, 4, 8]));
    chaos(rng);
    let mut fork = rng.fork();
    let episode = EPISODE.fetch_add(1, Ordering::SeqCst);
    rt.block_on(async move {
        let rng = &mut fork;
        let go = Arc::new(AtomicBool::new(false));
        let killing = Arc::new(AtomicU64::new(u64::MAX));
        let reason: ExitReason = match rng.below(4) {
            0 => ExitReason::Normal,
            1 => ExitReason::Kill,
            2 => ExitReason::Ignore,
            _ => "bye".into(),
        };
        let name = format!("c06-race-{episode}");
        let nw = rng.range(1, 5) as usize;
        // The watchers say where last words go.
        let roster: Arc<std::sync::Mutex<Vec<Pid>>> = Default::default();
        let (g, k, r, ros) = (go.clone(), killing.clone(), reason.clone(), roster.clone());
        let spin = rng.below(3000);
        let last_words = rng.below(4);
        let returns = rng.bool();
        let victim = Process::spawn(async move {
            while !g.load(Ordering::SeqCst) {
                tokio::task::yield_now().await;
            }
            for _ in 0..spin {
                std::hint::spin_loop();
            }
            let to = ros.lock().unwrap().clone();
            for n in 0..last_words {
                for pid in &to {
                    Process::send(*pid, Note(n));
                }
            }
            k.store(tick(), Ordering::SeqCst);
            if r == ExitReason::Normal && returns {
                return;
            }
            Process::exit(Process::current(), r);
            forever().await;
        });
        Process::register(victim, name.clone()).unwrap();

        struct Out {
            /// reference, dest, call stamp, return stamp, removed
            mons: Vec<(Reference, Dest, u64, u64, bool)>,
            got: Vec<Got>,
        }
        let mut waits = Vec::new();
        // Monitors still owing a message, and watchers still installing.
        let open = Arc::new(AtomicU64::new(0));
        let waiting = Arc::new(AtomicU64::new(nw as u64));
        for _ in 0..nw {
            let (tx, rx) = tokio::sync::oneshot::channel::<Out>();
            let g = go.clone();
            let delay = rng.below(3000);
            let count = rng.range(1, 4);
            let before = rng.chance(1, 3);
            let mut kinds: Vec<(u64, bool, u64)> = Vec::new();
            for _ in 0..count {
                kinds.push((rng.below(5), rng.chance(1, 4), rng.below(500)));
            }
            let name = name.clone();
            let stop = Arc::new(AtomicBool::new(false));
            let s = stop.clone();
            let (op, wt) = (open.clone(), waiting.clone());
            let pid = Process::spawn(async move {
                let mut mons = Vec::new();
                let mut install = |mons: &mut Vec<(Reference, Dest, u64, u64, bool)>, kind: u64| {
                    let t0 = tick();
                    let (reference, dest) = match kind {
                        0 | 1 => (Process::monitor(victim), Dest::from(victim)),
                        2 => (Process::monitor(name.clone()), Dest::from(name.clone())),
                        3 => (Process::monitor_alias(victim, true), Dest::from(victim)),
                        _ => (Process::monitor_alias(name.clone(), false), Dest::from(name.clone())),
                    };
                    mons.push((reference, dest, t0, tick(), false));
                };
                if before {
                    for (kind, _, _) in &kinds {
                        install(&mut mons, *kind);
                    }
                }
                while !g.load(Ordering::SeqCst) {
                    tokio::task::yield_now().await;
                }
                for _ in 0..delay {
                    std::hint::spin_loop();
                }
                if !before {
                    for (kind, _, _) in &kinds {
                        install(&mut mons, *kind);
                    }
                }
                let mut got = Vec::new();
                for (i, (_, remove, wait)) in kinds.iter().enumerate() {
                    for _ in 0..*wait {
                        std::hint::spin_loop();
                    }
                    if *remove {
                        if i % 2 == 1 {
                            // Pull what is there into the skipped queue first.
                            let fut = Process::receiver()
                                .for_message::<Note>()
                                .select(|m| matches!(m, Message::User(Note(u64::MAX))));
                            let _ = tokio::time::timeout(std::time::Duration::ZERO, fut).await;
                        }
                        Process::demonitor(mons[i].0);
                        mons[i].4 = true;
                    }
                }
                let expect: BTreeSet<Reference> = mons.iter().filter(|m| !m.4).map(|m| m.0).collect();
                let mut seen = BTreeSet::new();
                op.fetch_add(expect.len() as u64, Ordering::SeqCst);
                wt.fetch_sub(1, Ordering::SeqCst);
                loop {
                    match tokio::time::timeout(std::time::Duration::from_millis(3), Process::receiver().for_message::<Note>().receive()).await {
                        Ok(Message::User(Note(n))) => got.push(Got::Note(n)),
                        Ok(Message::System(SystemMessage::ProcessDown(dest, reference, why))) => {
                            if expect.contains(&reference) && seen.insert(reference) {
                                op.fetch_sub(1, Ordering::SeqCst);
                            }
                            got.push(Got::Down(reference, dest, why));
                        }
                        Ok(Message::System(x)) => got.push(Got::Other(format!("{x:?}"))),
                        Err(_) => {
                            if s.load(Ordering::SeqCst) {
                                // The victim is long gone: whatever was to come has come.
                                break;
                            }
                        }
                    }
                }
                tx.send(Out { mons, got }).ok();
                forever().await;
            });
            roster.lock().unwrap().push(pid);
            waits.push((pid, rx, stop));
        }
        go.store(true, Ordering::SeqCst);
        let gone = eventually(|| !Process::list().contains(&victim)).await;
        check(gone, "monitor-victim-stays", || json!({"reason": reason_str(&reason)}));
        // A watcher that is killed in between must not disturb the others: covered by `model`.
        let (op, wt) = (open.clone(), waiting.clone());
        eventually(|| wt.load(Ordering::SeqCst) == 0 && op.load(Ordering::SeqCst) == 0).await;
        // Some more room for what should not come.
        if rng.chance(1, 4) {
            tokio::time::sleep(std::time::Duration::from_millis(3)).await;
        }
        for (_, _, stop) in &waits {
            stop.store(true, Ordering::SeqCst);
        }
        let killed_at = killing.load(Ordering::SeqCst);
        let mut shape = Vec::new();
        for (pid, rx, _) in waits {
            let Ok(out) = rx.await else {
                violation("watcher-died", json!({}));
                continue;
            };
            // Late arrivals get another chance to be seen before anything is called lost.
            let mut missing: Vec<Reference> = Vec::new();
            for (reference, dest, called, returned, removed) in &out.mons {
                let downs: Vec<(usize, &Dest, &ExitReason)> = out
                    .got
                    .iter()
                    .enumerate()
                    .filter_map(|(i, g)| match g {
                        Got::Down(r, d, why) if r == reference => Some((i, d, why)),
                        _ => None,
                    })
                    .collect();
                let detail = || {
                    json!({"got": format!("{:?}", out.got), "monitors": format!("{:?}", out.mons), "reference": format!("{reference:?}"),
                           "killed_at": killed_at, "reason": reason_str(&reason)})
                };
                if *removed {
                    check(downs.is_empty(), "down-after-demonitor", detail);
                } else {
                    if downs.is_empty() {
                        missing.push(*reference);
                    }
                    check(downs.len() <= 1, "down-duplicated", detail);
                }
                for (at, d, why) in downs {
                    check(d == dest, "down-target", detail);
                    let noproc = *why == ExitReason::from("noproc");
                    check(*why == reason || noproc, "down-reason", detail);
                    check(!(noproc && *returned < killed_at), "noproc-for-living", detail);
                    if *why == reason {
                        // Everything the victim said was said before.
                        let after = out.got[at..].iter().any(|g| matches!(g, Got::Note(_)));
                        check(!after, "down-before-last-words", detail);
                    }
                    shape.push((noproc, *called < killed_at, *returned < killed_at));
                }
            }
            if !missing.is_empty() {
                violation("down-lost", json!({"missing": format!("{missing:?}"), "got": format!("{:?}", out.got),
                    "monitors": format!("{:?}", out.mons), "reason": reason_str(&reason), "killed_at": killed_at}));
            }
            let notes: Vec<u64> = out.got.iter().filter_map(|g| if let Got::Note(n) = g { Some(*n) } else { None }).collect();
            check(notes == (0..last_words).collect::<Vec<_>>(), "last-words", || json!({"notes": notes, "sent": last_words}));
            check(!out.got.iter().any(|g| matches!(g, Got::Other(_))), "unexpected-system-message", || json!(format!("{:?}", out.got)));
            kill(pid);
            count("monitors", out.mons.len() as u64);
        }
        cover(&(shape, reason_kind(&reason), last_words));
        evaluated(1);
    });
    rt.shutdown_background();
}

/// Messages over a monitor's alias while the target dies.
fn alias(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let rt = runtime_threads(*rng.pick(&[2, 4, 8]));
    chaos(rng);
    let mut fork = rng.fork();
    rt.block_on(async move {
        let rng = &mut fork;
        let reply = rng.bool();
        let nsend = rng.range(1, 4);
        let per = rng.range(1, 30);
        let die_at = rng.below(20000);
        let go = Arc::new(AtomicBool::new(false));
        let downed = Arc::new(AtomicBool::new(false));
        let g = go.clone();
        let victim = Process::spawn(async move {
            while !g.load(Ordering::SeqCst) {
                tokio::task::yield_now().await;
            }
            for _ in 0..die_at {
                std::hint::spin_loop();
            }
        });
        let (rtx, rrx) = tokio::sync::oneshot::channel();
        let got: Log<Got> = Log::new();
        let (l, d) = (got.clone(), downed.clone());
        let how = rng.below(3);
        let (dtx, drx) = tokio::sync::oneshot::channel();
        let watcher = Process::spawn(async move {
            let reference = Process::monitor_alias(victim, reply);
            rtx.send(reference).ok();
            let mut dtx = Some(dtx);
            let mut seen = 0;
            loop {
                match Process::receiver().for_message::<Note>().receive().await {
                    Message::User(Note(n)) => {
                        l.push(Got::Note(n));
                        seen += 1;
                        if how == 1 && seen == 1 {
                            // Removed in the middle of the traffic.
                            Process::demonitor(reference);
                            d.store(true, Ordering::SeqCst);
                            dtx.take().map(|t| t.send(()));
                        }
                    }
                    Message::System(SystemMessage::ProcessDown(dest, reference, why)) => {
                        d.store(true, Ordering::SeqCst);
                        dtx.take().map(|t| t.send(()));
                        l.push(Got::Down(reference, dest, why));
                    }
                    Message::System(s) => {
                        l.push(Got::Other(format!("{s:?}")));
                    }
                }
            }
        });
        let reference = rrx.await.unwrap();
        let late: Log<u64> = Log::new();
        let mut joins = Vec::new();
        for s in 0..nsend {
            let (g, d, late) = (go.clone(), downed.clone(), late.clone());
            let many = rng.bool();
            joins.push(tokio::spawn(async move {
                while !g.load(Ordering::SeqCst) {
                    tokio::task::yield_now().await;
                }
                for i in 0..per {
                    let n = s * 1000 + i;
                    // Sent strictly after the watcher had its down message (or had removed the monitor).
                    if d.load(Ordering::SeqCst) {
                        late.push(n);
                    }
                    if many {
                        Process::send(vec![Dest::from(reference)], Note(n));
                    } else {
                        Process::send(reference, Note(n));
                    }
                }
            }));
        }
        go.store(true, Ordering::SeqCst);
        for j in joins {
            let _ = j.await;
        }
        if how != 1 {
            let _ = drx.await;
        } else {
            let _ = tokio::time::timeout(std::time::Duration::from_millis(30), drx).await;
        }
        if downed.load(Ordering::SeqCst) {
            late.push(999_999);
            Process::send(reference, Note(999_999));
        }
        Process::send(watcher, Note(777_777));
        let l = got.clone();
        let done = eventually(|| l.any(|g| *g == Got::Note(777_777))).await;
        check(done, "watcher-stuck", || json!({}));
        let events = got.snapshot();
        let over: Vec<u64> = events
            .iter()
            .filter_map(|g| match g {
                Got::Note(n) if *n != 777_777 => Some(*n),
                _ => None,
            })
            .collect();
        let late = late.snapshot();
        let detail = || json!({"events": format!("{events:?}"), "late": late, "reply": reply, "how": how});
        check(!over.iter().any(|n| late.contains(n)), "alias-after-down", detail);
        if reply {
            check(over.len() <= 1, "reply-alias-twice", detail);
        } else {
            for s in 0..nsend {
                let mine: Vec<u64> = over.iter().copied().filter(|n| n / 1000 == s).collect();
                // A prefix of what that sender sent.
                check(mine.iter().enumerate().all(|(i, n)| *n == s * 1000 + i as u64), "alias-order", detail);
            }
        }
        let downs = events.iter().filter(|g| matches!(g, Got::Down(..))).count();
        check(downs <= 1, "down-duplicated", detail);
        if how != 1 {
            check(downs == 1, "down-lost", detail);
        }
        cover(&(reply, how, nsend, over.len().min(12), late.len().min(12)));
        count("alias messages", over.len() as u64);
        evaluated(1);
        kill(watcher);
    });
    rt.shutdown_background();
}

fn main() {
    run("C06", &[scenario("model", 3, model), scenario("race", 3, race), scenario("alias", 2, alias)]);
}
