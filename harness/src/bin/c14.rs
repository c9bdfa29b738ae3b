//! C14: process registries.
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use serde::{Deserialize, Serialize};

use hv::*;
use hydra::*;

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
enum Order {
    Finish,
    Crash,
    Ping(u64),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Kind {
    Plain,
    /// Traps exits, ends this many milliseconds after being told to shut down.
    Trap(u64),
    /// Traps exits and never ends of itself.
    Stubborn,
    /// Ends by itself at once.
    Quick,
    Fail,
    Decline,
    /// Takes this long to start.
    Slow(u64),
}

#[derive(Debug, Clone)]
struct Inst {
    id: usize,
    pid: Pid,
    ready: bool,
    kind: Kind,
    registry: String,
    key: RegistryKey,
    started: u64,
    /// Exit messages a trapping one received.
    exits: Vec<(Pid, ExitReason)>,
    pings: Vec<u64>,
    down: Option<(ExitReason, u64)>,
}

#[derive(Clone, Default)]
struct World {
    insts: Arc<Mutex<Vec<Inst>>>,
    plan: Arc<Mutex<BTreeMap<String, Kind>>>,
    starts: Arc<AtomicU64>,
}

impl World {
    fn inst(&self, id: usize) -> Inst {
        self.insts.lock().unwrap()[id].clone()
    }
    fn all(&self) -> Vec<Inst> {
        self.insts.lock().unwrap().clone()
    }
}

/// The start routine of every registry here: starts a linked process as planned for the registry.
async fn begin(world: World, registry: String, key: RegistryKey) -> Result<Pid, ExitReason> {
    world.starts.fetch_add(1, Ordering::SeqCst);
    let kind = world.plan.lock().unwrap().get(&registry).copied().unwrap_or(Kind::Plain);
    match kind {
        Kind::Fail => return Err(ExitReason::from("nope")),
        Kind::Decline => return Err(ExitReason::Ignore),
        Kind::Slow(ms) => Process::sleep(Duration::from_millis(ms)).await,
        _ => {}
    }
    let id = {
        let mut all = world.insts.lock().unwrap();
        let id = all.len();
        all.push(Inst {
            id,
            pid: Process::current(),
            ready: false,
            kind,
            registry: registry.clone(),
            key: key.clone(),
            started: tick(),
            exits: Vec::new(),
            pings: Vec::new(),
            down: None,
        });
        id
    };
    let inner = world.clone();
    let (tx, rx) = tokio::sync::oneshot::channel::<()>();
    let pid = Process::spawn_link(async move {
        let traps = matches!(kind, Kind::Trap(_) | Kind::Stubborn);
        if traps {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
        }
        let _ = tx.send(());
        if kind == Kind::Quick {
            return;
        }
        loop {
            match Process::receiver().for_message::<Order>().receive().await {
                Message::User(Order::Finish) => return,
                Message::User(Order::Crash) => Process::exit(Process::current(), ExitReason::from("crash")),
                Message::User(Order::Ping(n)) => inner.insts.lock().unwrap()[id].pings.push(n),
                Message::System(SystemMessage::Exit(from, reason)) => {
                    inner.insts.lock().unwrap()[id].exits.push((from, reason));
                    if let Kind::Trap(ms) = kind {
                        Process::sleep(Duration::from_millis(ms)).await;
                        Process::exit(Process::current(), ExitReason::from("tidy"));
                    }
                }
                _ => {}
            }
        }
    });
    {
        let mut all = world.insts.lock().unwrap();
        all[id].pid = pid;
        all[id].ready = true;
    }
    let inner = world.clone();
    let (wtx, wrx) = tokio::sync::oneshot::channel::<()>();
    Process::spawn(async move {
        let _monitor = Process::monitor(pid);
        let _ = wtx.send(());
        if let Message::System(SystemMessage::ProcessDown(_, _, reason)) = Process::receiver().for_message::<Order>().receive().await {
            inner.insts.lock().unwrap()[id].down = Some((reason, tick()));
        }
    });
    let _ = rx.await;
    let _ = wrx.await;
    Ok(pid)
}

fn registry(world: &World, name: &str, shutdown: Shutdown) -> Registry {
    let world = world.clone();
    let owned = name.to_string();
    Registry::new(name).with_shutdown(shutdown).with_start(move |key| begin(world.clone(), owned.clone(), key))
}

static EPISODE: AtomicU64 = AtomicU64::new(0);

fn random_key(rng: &mut Rng, n: u64) -> RegistryKey {
    // Equal numbers of different types are different keys.
    let v = rng.below(n);
    match rng.below(7) {
        0 => RegistryKey::from(v as i32),
        1 => RegistryKey::from(v as i64),
        2 => RegistryKey::from(v as i128),
        3 => RegistryKey::from(v as u32),
        4 => RegistryKey::from(v),
        5 => RegistryKey::from(v as u128),
        _ => RegistryKey::from(v.to_string()),
    }
}

fn destination(rng: &mut Rng, name: &str, pid: Pid) -> (Dest, bool) {
    if rng.bool() {
        (Dest::from(name.to_string()), true)
    } else {
        (Dest::from(pid), false)
    }
}

fn policy(rng: &mut Rng) -> Shutdown {
    match rng.below(3) {
        0 => Shutdown::BrutalKill,
        1 => Shutdown::Duration(Duration::from_millis(rng.range(20, 200))),
        _ => Shutdown::Infinity,
    }
}

fn class(s: Shutdown) -> u8 {
    match s {
        Shutdown::BrutalKill => 0,
        Shutdown::Duration(_) => 1,
        Shutdown::Infinity => 2,
    }
}

struct Model {
    name: String,
    pid: Pid,
    shutdown: Shutdown,
    table: BTreeMap<RegistryKey, usize>,
}

/// What an operation answered.
#[derive(Debug, Clone, PartialEq)]
enum Answer {
    Pid(Pid),
    Nothing,
    Already(Pid),
    NotFound,
    Failed(ExitReason),
    Unsupported,
    Call(String),
    Count(usize),
    List(BTreeMap<RegistryKey, Pid>),
    Ok,
}

fn failure(e: RegistryError) -> Answer {
    match e {
        RegistryError::CallError(e) => Answer::Call(format!("{e:?}")),
        RegistryError::StartError(r) => Answer::Failed(r),
        RegistryError::StartNotSupported => Answer::Unsupported,
        RegistryError::AlreadyStarted(p) => Answer::Already(p),
        RegistryError::NotFound => Answer::NotFound,
    }
}

async fn lookup(d: Dest, k: RegistryKey) -> Answer {
    Registry::lookup(d, k, None).await.map(|p| p.map(Answer::Pid).unwrap_or(Answer::Nothing)).unwrap_or_else(failure)
}
async fn lookup_or_start(d: Dest, k: RegistryKey) -> Answer {
    Registry::lookup_or_start(d, k, None).await.map(Answer::Pid).unwrap_or_else(failure)
}
async fn start_process(d: Dest, k: RegistryKey) -> Answer {
    Registry::start_process(d, k, None).await.map(Answer::Pid).unwrap_or_else(failure)
}
async fn stop_process(d: Dest, k: RegistryKey) -> Answer {
    Registry::stop_process(d, k, None).await.map(|_| Answer::Ok).unwrap_or_else(failure)
}
async fn remove(d: Dest, k: RegistryKey) -> Answer {
    Registry::remove(d, k, None).await.map(|p| p.map(Answer::Pid).unwrap_or(Answer::Nothing)).unwrap_or_else(failure)
}
async fn count(d: Dest) -> Answer {
    Registry::count(d, None).await.map(Answer::Count).unwrap_or_else(failure)
}
async fn list(d: Dest) -> Answer {
    match Registry::list(d, None).await {
        Ok(l) => {
            let n = l.len();
            let map: BTreeMap<_, _> = l.into_iter().collect();
            if map.len() == n {
                Answer::List(map)
            } else {
                Answer::Call("a key is listed twice".into())
            }
        }
        Err(e) => failure(e),
    }
}

/// Random programs over several registries against a model, on virtual time.
fn model(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let episode = EPISODE.fetch_add(1, Ordering::SeqCst);
    virtual_time(async move {
        let done = in_process(model_episode(rng.fork(), episode)).await;
        if done.is_none() {
            inconclusive("model client died");
        }
    });
}

async fn model_episode(mut rng: Rng, episode: u64) {
    let rng = &mut rng;
    let world = World::default();
    let n = rng.range(1, 3) as usize;
    let mut regs: Vec<Model> = Vec::new();
    let mut templates = Vec::new();
    for i in 0..n {
        let name = format!("c14-{episode}-{i}");
        let shutdown = policy(rng);
        // Now and then a registry that is given its name through the options instead.
        let (template, options) = if rng.chance(1, 4) {
            (registry_named(&world, &format!("c14-{episode}-base"), &name, shutdown), RegistryOptions::new().name(name.clone()))
        } else {
            (registry(&world, &name, shutdown), RegistryOptions::new())
        };
        templates.push((template.clone(), options.clone()));
        match template.start(options).await {
            Ok(pid) => regs.push(Model { name, pid, shutdown, table: BTreeMap::new() }),
            Err(e) => {
                violation("registry-does-not-start", json!({"reason": reason_str(&e)}));
                return;
            }
        }
    }
    // Now and then many keys.
    let big = rng.chance(1, 5);
    let keys: Vec<RegistryKey> = if big {
        (0..rng.range(15, 60)).map(|_| random_key(rng, 15)).collect()
    } else {
        (0..rng.range(2, 5)).map(|_| random_key(rng, 3)).collect()
    };
    let mut loose: Vec<usize> = Vec::new();
    let mut pings = 0u64;
    let mut history: Vec<String> = Vec::new();
    for _ in 0..if big { rng.range(60, 160) } else { rng.range(10, 40) } {
        evaluated(1);
        let r = rng.usize(n);
        let key = rng.pick(&keys).clone();
        let (dest, named) = destination(rng, &regs[r].name, regs[r].pid);
        let kind = match rng.below(12) {
            0..=4 => Kind::Plain,
            5..=6 => Kind::Trap(rng.range(1, 150)),
            7 => Kind::Stubborn,
            8 => Kind::Quick,
            9 => Kind::Fail,
            10 => Kind::Decline,
            _ => Kind::Slow(rng.range(1, 50)),
        };
        world.plan.lock().unwrap().insert(regs[r].name.clone(), kind);
        let starts = world.starts.load(Ordering::SeqCst);
        let known = world.all().len();
        let present = regs[r].table.get(&key).copied();
        let what = if big && rng.chance(2, 3) { rng.range(2, 7) } else { rng.below(20) };
        let mut expect_starts = 0;
        let (op, got, want): (String, Answer, Option<Answer>) = match what {
            0..=1 => ("lookup".into(), lookup(dest, key.clone()).await, Some(present.map(|i| Answer::Pid(world.inst(i).pid)).unwrap_or(Answer::Nothing))),
            2..=7 => {
                let or = what < 5;
                let got = if or { lookup_or_start(dest, key.clone()).await } else { start_process(dest, key.clone()).await };
                let want = match present {
                    Some(i) if or => Answer::Pid(world.inst(i).pid),
                    Some(i) => Answer::Already(world.inst(i).pid),
                    None => {
                        expect_starts = 1;
                        match kind {
                            Kind::Fail => Answer::Failed(ExitReason::from("nope")),
                            Kind::Decline => Answer::Failed(ExitReason::Ignore),
                            _ => {
                                let fresh = world.all();
                                if fresh.len() != known + 1 {
                                    violation("start-did-not-start-one", json!({"history": history, "started": fresh.len() - known, "got": format!("{got:?}")}));
                                    return;
                                }
                                if kind != Kind::Quick {
                                    regs[r].table.insert(key.clone(), known);
                                }
                                Answer::Pid(fresh[known].pid)
                            }
                        }
                    }
                };
                (format!("{} {kind:?}", if or { "lookup_or_start" } else { "start" }), got, Some(want))
            }
            8..=9 => {
                let got = stop_process(dest, key.clone()).await;
                let want = match present {
                    Some(i) => {
                        regs[r].table.remove(&key);
                        quiesce().await;
                        let inst = world.inst(i);
                        match inst.kind {
                            Kind::Trap(_) | Kind::Stubborn => {
                                let wanted = vec![(regs[r].pid, ExitReason::from("shutdown"))];
                                check(inst.exits == wanted, "stop-signal", || json!({"history": history, "exits": format!("{:?}", inst.exits)}));
                                if inst.kind == Kind::Stubborn {
                                    loose.push(i);
                                }
                            }
                            _ => {
                                check(inst.down.as_ref().map(|d| &d.0) == Some(&ExitReason::from("shutdown")), "stop-reason", || {
                                    json!({"history": history, "down": format!("{:?}", inst.down)})
                                });
                            }
                        }
                        Answer::Ok
                    }
                    None => Answer::NotFound,
                };
                ("stop".into(), got, Some(want))
            }
            10 => {
                let got = remove(dest, key.clone()).await;
                let want = match present {
                    Some(i) => {
                        regs[r].table.remove(&key);
                        loose.push(i);
                        Answer::Pid(world.inst(i).pid)
                    }
                    None => Answer::Nothing,
                };
                ("remove".into(), got, Some(want))
            }
            11 => ("count".into(), count(dest).await, Some(Answer::Count(regs[r].table.len()))),
            12 => (
                "list".into(),
                list(dest).await,
                Some(Answer::List(regs[r].table.iter().map(|(k, i)| (k.clone(), world.inst(*i).pid)).collect())),
            ),
            13..=14 => {
                // A registered process ends by itself.
                if let Some(i) = present {
                    let inst = world.inst(i);
                    let how = rng.below(3);
                    match how {
                        0 => Process::send(inst.pid, Order::Finish),
                        1 => Process::send(inst.pid, Order::Crash),
                        _ => Process::exit(inst.pid, ExitReason::Kill),
                    }
                    regs[r].table.remove(&key);
                    quiesce().await;
                    check(!Process::alive(inst.pid), "child-does-not-end", || json!({"history": history}));
                    (format!("child-ends {how}"), Answer::Ok, None)
                } else {
                    ("nothing".into(), Answer::Ok, None)
                }
            }
            15 => {
                // Other instances of the same registry, never started or refused, change nothing.
                let (template, options) = templates[r].clone();
                let how = rng.below(3);
                match how {
                    0 => drop(template),
                    1 => drop(template.child_spec(options)),
                    _ => {
                        let got = template.start(options).await;
                        check(got == Err(ExitReason::from("already_started")), "second-instance-started", || {
                            json!({"history": history, "got": format!("{got:?}")})
                        });
                    }
                }
                (format!("other-instance {how}"), Answer::Ok, None)
            }
            16 => {
                // A signal or message that concerns no child.
                match rng.below(3) {
                    0 => Process::exit(regs[r].pid, ExitReason::from("shutdown")),
                    1 => Process::exit(regs[r].pid, ExitReason::Normal),
                    _ => {
                        if let Some(i) = loose.last() {
                            Process::send(world.inst(*i).pid, Order::Finish);
                            loose.pop();
                        }
                    }
                }
                ("foreign-signal".into(), Answer::Ok, None)
            }
            17 => {
                // The whole registry ends, and comes back empty under the same name.
                if !end_registry(rng, &world, &mut regs[r], &history).await {
                    return;
                }
                let (template, options) = templates[r].clone();
                match template.start(options).await {
                    Ok(pid) => regs[r].pid = pid,
                    Err(e) => {
                        violation("registry-does-not-come-back", json!({"history": history, "reason": reason_str(&e)}));
                        return;
                    }
                }
                ("registry-ends".into(), Answer::Ok, None)
            }
            18 => {
                // A client that gives up early does not disturb the start.
                if present.is_none() && matches!(kind, Kind::Slow(_)) {
                    let got = Registry::lookup_or_start(dest, key.clone(), Some(Duration::from_micros(10))).await;
                    expect_starts = 1;
                    Process::sleep(Duration::from_millis(100)).await;
                    regs[r].table.insert(key.clone(), known);
                    check(matches!(got, Err(RegistryError::CallError(CallError::Timeout(_)))), "no-timeout", || {
                        json!({"history": history, "got": format!("{got:?}")})
                    });
                    // The late reply is not for anybody.
                    Process::receiver().for_message::<()>().remove(|_| true);
                }
                ("impatient".into(), Answer::Ok, None)
            }
            _ => {
                // Two at once, from two processes.
                let (d2, _) = destination(rng, &regs[r].name, regs[r].pid);
                let k2 = key.clone();
                let (tx, rx) = tokio::sync::oneshot::channel();
                Process::spawn(async move {
                    let _ = tx.send(lookup_or_start(d2, k2).await);
                });
                let one = lookup_or_start(dest, key.clone()).await;
                let two = rx.await.unwrap_or(Answer::Nothing);
                match present {
                    Some(i) => {
                        let w = Answer::Pid(world.inst(i).pid);
                        check(one == w && two == w, "twin-lookup", || json!({"history": history, "one": format!("{one:?}"), "two": format!("{two:?}")}));
                    }
                    None => match kind {
                        // Each fails by itself.
                        Kind::Fail | Kind::Decline => expect_starts = 2,
                        Kind::Quick => expect_starts = u64::MAX,
                        _ => {
                            expect_starts = 1;
                            regs[r].table.insert(key.clone(), known);
                            check(one == two && matches!(one, Answer::Pid(_)), "twin-start", || {
                                json!({"history": history, "one": format!("{one:?}"), "two": format!("{two:?}")})
                            });
                        }
                    },
                }
                (format!("twin {kind:?}"), Answer::Ok, None)
            }
        };
        history.push(format!("{r} {op} {key:?} {} -> {got:?}", if named { "named" } else { "pid" }));
        if let Some(want) = want {
            if !check(got == want, &format!("answer:{}", op.split(' ').next().unwrap()), || json!({"history": history, "want": format!("{want:?}")})) {
                return;
            }
        }
        let started = world.starts.load(Ordering::SeqCst) - starts;
        if expect_starts != u64::MAX && !check(started == expect_starts, "number-of-starts", || json!({"history": history, "started": started, "want": expect_starts})) {
            return;
        }
        cover(&(op, named, present.is_some(), present.map(|i| world.inst(i).kind), regs[r].table.len(), class(regs[r].shutdown)));
        quiesce().await;
        // Every registry, by both ways of asking.
        for m in &regs {
            let want: BTreeMap<RegistryKey, Pid> = m.table.iter().map(|(k, i)| (k.clone(), world.inst(*i).pid)).collect();
            for (way, d) in [("named", Dest::from(m.name.clone())), ("pid", Dest::from(m.pid))] {
                let got = list(d.clone()).await;
                if !check(got == Answer::List(want.clone()), "table", || {
                    json!({"history": history, "way": way, "registry": m.name, "got": format!("{got:?}"), "want": format!("{want:?}")})
                }) {
                    return;
                }
            }
            for (k, i) in &m.table {
                let inst = world.inst(*i);
                if !check(Process::alive(inst.pid) && inst.down.is_none(), "registered-process-died", || {
                    json!({"history": history, "key": format!("{k:?}"), "down": format!("{:?}", inst.down)})
                }) {
                    return;
                }
                pings += 1;
                Process::send(inst.pid, Order::Ping(pings));
            }
        }
        quiesce().await;
        for i in &loose {
            let inst = world.inst(*i);
            if !check(Process::alive(inst.pid), "removed-process-died", || json!({"history": history, "down": format!("{:?}", inst.down)})) {
                return;
            }
        }
        for m in &regs {
            for i in m.table.values() {
                let inst = world.inst(*i);
                if inst.kind == Kind::Stubborn && !check(inst.exits.is_empty(), "stray-signal", || json!({"history": history, "exits": format!("{:?}", inst.exits)})) {
                    return;
                }
            }
        }
    }
    for m in &mut regs {
        if !end_registry(rng, &world, m, &history).await {
            return;
        }
    }
    // Processes let go of earlier are untouched by the end of their registry.
    quiesce().await;
    for i in loose {
        let inst = world.inst(i);
        check(Process::alive(inst.pid) && inst.exits.iter().all(|(_, r)| *r == ExitReason::from("shutdown")), "removed-process-died-with-registry", || {
            json!({"history": history, "down": format!("{:?}", inst.down), "exits": format!("{:?}", inst.exits)})
        });
        kill(inst.pid);
    }
    hv::count("operations", history.len() as u64);
    sample("program", || json!(history.iter().take(12).collect::<Vec<_>>()));
}

/// A registry whose name is given when it is started.
fn registry_named(world: &World, base: &str, name: &str, shutdown: Shutdown) -> Registry {
    let world = world.clone();
    let owned = name.to_string();
    Registry::new(base).with_shutdown(shutdown).with_start(move |key| begin(world.clone(), owned.clone(), key))
}

/// Ends a registry in one of several ways and judges what becomes of its processes. Takes virtual time.
async fn end_registry(rng: &mut Rng, world: &World, m: &mut Model, history: &[String]) -> bool {
    let children: Vec<Inst> = m.table.values().map(|i| world.inst(*i)).collect();
    let endless = matches!(m.shutdown, Shutdown::Infinity) && children.iter().any(|i| i.kind == Kind::Stubborn);
    let killed = rng.chance(1, 3);
    let begin = tokio::time::Instant::now();
    let (tx, rx) = tokio::sync::oneshot::channel();
    let pid = m.pid;
    let (gtx, grx) = tokio::sync::oneshot::channel::<()>();
    Process::spawn(async move {
        let _monitor = Process::monitor(pid);
        let _ = gtx.send(());
        if let Message::System(SystemMessage::ProcessDown(_, _, reason)) = Process::receiver().for_message::<Order>().receive().await {
            let _ = tx.send((reason, tick(), tokio::time::Instant::now()));
        }
    });
    let _ = grx.await;
    let reason = ExitReason::from(format!("end{}", rng.below(100)));
    let how = if killed {
        Process::exit(pid, ExitReason::Kill);
        "kill"
    } else {
        let reason = reason.clone();
        Process::spawn(async move {
            let _ = <Registry as GenServer>::stop(pid, reason, None).await;
        });
        "stop"
    };
    if endless && !killed {
        // Waits for ever for the one that will not go.
        Process::sleep(Duration::from_secs(600)).await;
        if !check(Process::alive(pid), "infinity-gave-up", || json!({"history": history})) {
            return false;
        }
        let empty = list(Dest::from(m.name.clone())).await;
        hv::count("endless shutdowns", 1);
        let _ = empty;
        for c in &children {
            if c.kind == Kind::Stubborn {
                check(Process::alive(c.pid), "infinity-killed-child", || json!({"history": history}));
                Process::exit(c.pid, ExitReason::Kill);
            }
        }
    }
    let Ok((got, at, when)) = rx.await else {
        violation("registry-does-not-end", json!({"history": history, "how": how}));
        return false;
    };
    let want = if killed { ExitReason::Kill } else { reason };
    if !check(got == want, "registry-end-reason", || json!({"history": history, "got": reason_str(&got), "want": reason_str(&want)})) {
        return false;
    }
    quiesce().await;
    let waited = when.duration_since(begin);
    let brutal = killed || m.shutdown == Shutdown::BrutalKill;
    for c in children {
        let c = world.inst(c.id);
        let detail = || json!({"history": history, "how": how, "policy": format!("{:?}", m.shutdown), "child": format!("{c:?}"), "waited": format!("{waited:?}")});
        let Some((reason, died)) = &c.down else {
            violation("orphan", detail());
            return false;
        };
        let traps = matches!(c.kind, Kind::Trap(_) | Kind::Stubborn);
        if brutal {
            if !check(*reason == ExitReason::Kill, "not-killed", detail) {
                return false;
            }
            if !check(c.exits.is_empty(), "brutal-kill-signalled", detail) {
                return false;
            }
        } else {
            if !check(*died < at, "registry-gone-before-its-process", detail) {
                return false;
            }
            let limit = match m.shutdown {
                Shutdown::Duration(d) => Some(d),
                _ => None,
            };
            if traps {
                let ok = !c.exits.is_empty() && c.exits.iter().all(|e| *e == (m.pid, ExitReason::from("shutdown")));
                if !check(ok, "no-shutdown-signal", detail) {
                    return false;
                }
                let fits = match (c.kind, limit) {
                    (Kind::Trap(_), None) => true,
                    (Kind::Trap(ms), Some(d)) => Duration::from_millis(ms + 2) < d,
                    _ => false,
                };
                if fits && !check(*reason == ExitReason::from("tidy"), "killed-within-its-time", detail) {
                    return false;
                }
                if c.kind == Kind::Stubborn {
                    if !check(*reason == ExitReason::Kill, "stubborn-not-killed", detail) {
                        return false;
                    }
                    if let Some(d) = limit {
                        if !check(waited + Duration::from_millis(1) >= d, "killed-early", detail) {
                            return false;
                        }
                    }
                }
            } else if !check(*reason == ExitReason::from("shutdown"), "shutdown-reason", detail) {
                return false;
            }
        }
    }
    if let Shutdown::Duration(d) = m.shutdown {
        let limit = (d + Duration::from_millis(5)) * (m.table.len() as u32 + 1);
        check(endless || waited <= limit, "shutdown-too-slow", || json!({"history": history, "waited": format!("{waited:?}")}));
    }
    let left = list(Dest::from(m.name.clone())).await;
    check(left == Answer::List(BTreeMap::new()), "entries-left-by-ended-registry", || json!({"history": history, "left": format!("{left:?}")}));
    let gone = lookup_or_start(Dest::from(m.name.clone()), RegistryKey::from(1i32)).await;
    check(matches!(gone, Answer::Call(_)), "ended-registry-answers", || json!({"history": history, "got": format!("{gone:?}")}));
    cover(&("end", how, class(m.shutdown), m.table.len(), endless));
    m.table.clear();
    true
}

/// A registry without a start routine only reports that.
fn unsupported(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let episode = EPISODE.fetch_add(1, Ordering::SeqCst);
    virtual_time(async move {
        in_process(async move {
            let name = format!("c14-{episode}-plain");
            let pid = Registry::new(name.clone()).start(RegistryOptions::new()).await.unwrap();
            for _ in 0..rng.range(1, 6) {
                evaluated(1);
                let key = random_key(&mut rng, 3);
                let (dest, named) = destination(&mut rng, &name, pid);
                let (op, got, want) = match rng.below(6) {
                    0 => ("lookup", lookup(dest, key).await, Answer::Nothing),
                    1 => ("lookup_or_start", lookup_or_start(dest, key).await, Answer::Unsupported),
                    2 => ("start", start_process(dest, key).await, Answer::Unsupported),
                    3 => ("stop", stop_process(dest, key).await, Answer::NotFound),
                    4 => ("remove", remove(dest, key).await, Answer::Nothing),
                    _ => ("count", count(dest).await, Answer::Count(0)),
                };
                check(got == want, &format!("unsupported:{op}"), || json!({"got": format!("{got:?}"), "want": format!("{want:?}")}));
                cover(&("unsupported", op, named));
                if !check(Process::alive(pid), "unsupported-ended-registry", || json!({"op": op})) {
                    return;
                }
            }
            Process::exit(pid, ExitReason::Kill);
        })
        .await;
    });
}

/// As a supervisor's child: every restart is a fresh, empty registry, and nothing of the old one lives on.
fn supervised(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let episode = EPISODE.fetch_add(1, Ordering::SeqCst);
    virtual_time(async move {
        in_process(async move {
            let world = World::default();
            let name = format!("c14-{episode}-sup");
            let shutdown = policy(&mut rng);
            let spec = registry(&world, &name, shutdown).child_spec(RegistryOptions::new());
            let sup = match Supervisor::with_children([spec]).max_restarts(100).start(SupervisorOptions::new()).await {
                Ok(pid) => pid,
                Err(e) => {
                    violation("supervised-registry-does-not-start", json!({"reason": reason_str(&e)}));
                    return;
                }
            };
            for round in 0..rng.range(1, 4) {
                evaluated(1);
                let Some(reg) = Process::whereis(name.as_str()) else {
                    violation("supervised-registry-missing", json!({"round": round}));
                    return;
                };
                let mut pids = Vec::new();
                for k in 0..rng.range(0, 4) as i32 {
                    let kind = *rng.pick(&[Kind::Plain, Kind::Trap(5), Kind::Plain]);
                    world.plan.lock().unwrap().insert(name.clone(), kind);
                    if let Answer::Pid(p) = lookup_or_start(Dest::from(name.clone()), RegistryKey::from(k)).await {
                        pids.push(p);
                    } else {
                        violation("supervised-registry-start", json!({"round": round}));
                    }
                }
                let how = rng.below(3);
                match how {
                    0 => Process::exit(reg, ExitReason::Kill),
                    1 => {
                        let _ = <Registry as GenServer>::stop(reg, ExitReason::from("bye"), None).await;
                    }
                    _ => {
                        // The child is started again by hand.
                        let _ = Supervisor::terminate_child(sup, "Registry").await;
                        let _ = Supervisor::restart_child(sup, "Registry").await;
                    }
                }
                Process::sleep(Duration::from_millis(500)).await;
                let again = Process::whereis(name.as_str());
                check(again.is_some() && again != Some(reg), "supervised-registry-not-restarted", || json!({"round": round, "how": how}));
                check(pids.iter().all(|p| !Process::alive(*p)), "orphan-of-restarted-registry", || json!({"round": round, "how": how}));
                let left = list(Dest::from(name.clone())).await;
                check(left == Answer::List(BTreeMap::new()), "restarted-registry-not-empty", || json!({"round": round, "left": format!("{left:?}")}));
                cover(&("supervised", how, pids.len(), class(shutdown)));
            }
            // The end of the supervisor ends everything.
            let reg = Process::whereis(name.as_str());
            let p = lookup_or_start(Dest::from(name.clone()), RegistryKey::from("last")).await;
            if rng.bool() {
                Process::exit(sup, ExitReason::Kill);
            } else {
                let _ = <Supervisor as GenServer>::stop(sup, ExitReason::from("shutdown"), None).await;
            }
            Process::sleep(Duration::from_millis(500)).await;
            if let (Some(reg), Answer::Pid(p)) = (reg, p) {
                check(!Process::alive(reg), "registry-outlives-supervisor", || json!({}));
                check(!Process::alive(p), "registered-process-outlives-supervisor", || json!({}));
            }
        })
        .await;
    });
}

// ---------------------------------------------------------------------------------------------
// Concurrent histories
// ---------------------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq)]
enum Op {
    Lookup(Option<Pid>),
    LookupOrStart(Pid),
    Start(Pid),
    Already(Pid),
    Stop(bool),
    Remove(Option<Pid>),
    /// The process ended by itself; its key becomes free.
    Death(Pid),
}

#[derive(Debug, Clone)]
struct Event {
    call: u64,
    ret: u64,
    op: Op,
}

/// One key as a register holding at most one process; `fresh` processes are installed once.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
struct Slot {
    now: Option<Pid>,
    used: Vec<Pid>,
}

fn step(s: &Slot, op: &Op) -> Option<Slot> {
    let mut n = s.clone();
    let install = |n: &mut Slot, p: Pid| {
        if n.used.contains(&p) {
            return false;
        }
        n.used.push(p);
        n.used.sort();
        n.now = Some(p);
        true
    };
    match op {
        Op::Lookup(p) => (s.now == *p).then_some(n),
        Op::LookupOrStart(p) => match s.now {
            Some(q) => (q == *p).then_some(n),
            None => install(&mut n, *p).then_some(n),
        },
        Op::Start(p) => (s.now.is_none() && install(&mut n, *p)).then_some(n),
        Op::Already(p) => (s.now == Some(*p)).then_some(n),
        Op::Stop(found) => {
            n.now = None;
            (s.now.is_some() == *found).then_some(n)
        }
        Op::Remove(p) => {
            n.now = None;
            (s.now == *p).then_some(n)
        }
        Op::Death(p) => {
            if s.now == Some(*p) {
                n.now = None;
                Some(n)
            } else if s.used.contains(p) {
                // Stopped or removed before; the end changes nothing.
                Some(n)
            } else {
                None
            }
        }
    }
}

fn linearizable(events: &[Event]) -> Option<bool> {
    let full = (1u64 << events.len()) - 1;
    let mut seen: HashSet<(u64, Slot)> = HashSet::new();
    let mut stack = vec![(0u64, Slot { now: None, used: Vec::new() })];
    let mut visited = 0u64;
    while let Some((mask, slot)) = stack.pop() {
        if mask == full {
            return Some(true);
        }
        if !seen.insert((mask, slot.clone())) {
            continue;
        }
        visited += 1;
        if visited > 400_000 {
            return None;
        }
        let horizon = events.iter().enumerate().filter(|(i, _)| mask & (1 << i) == 0).map(|(_, e)| e.ret).min().unwrap();
        for (i, e) in events.iter().enumerate() {
            if mask & (1 << i) == 0 && e.call <= horizon {
                if let Some(next) = step(&slot, &e.op) {
                    stack.push((mask | (1 << i), next));
                }
            }
        }
    }
    Some(false)
}

/// Many clients on few keys; each key's history must have an order a register allows.
fn concurrent(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let rt = runtime(&mut rng);
    chaos(&mut rng);
    let episode = EPISODE.fetch_add(1, Ordering::SeqCst);
    rt.block_on(async move {
        let world = World::default();
        let nr = rng.range(1, 2) as usize;
        let names: Vec<String> = (0..nr).map(|i| format!("c14-{episode}-c{i}")).collect();
        let mut pids = Vec::new();
        for n in &names {
            let kind = *rng.pick(&[Kind::Plain, Kind::Plain, Kind::Slow(1)]);
            world.plan.lock().unwrap().insert(n.clone(), kind);
            let r = registry(&world, n, Shutdown::BrutalKill);
            pids.push(in_process(async move { r.start(RegistryOptions::new()).await.unwrap() }).await.unwrap());
        }
        let keys: Vec<RegistryKey> = (0..rng.range(1, 3)).map(|i| RegistryKey::from(i as i32)).collect();
        let events: Log<(usize, usize, Event)> = Log::new();
        let clients = rng.range(2, 6);
        let each = rng.range(3, 9);
        let deaths = rng.bool();
        let barrier = Arc::new(tokio::sync::Barrier::new(clients as usize));
        let mut waits = Vec::new();
        for _ in 0..clients {
            let (names, pids, keys, events, world, barrier) = (names.clone(), pids.clone(), keys.clone(), events.clone(), world.clone(), barrier.clone());
            let mut rng = rng.fork();
            waits.push(in_process(async move {
                barrier.wait().await;
                for _ in 0..each {
                    let r = rng.usize(names.len());
                    let k = rng.usize(keys.len());
                    let (dest, _) = destination(&mut rng, &names[r], pids[r]);
                    let key = keys[k].clone();
                    let what = rng.below(if deaths { 12 } else { 10 });
                    if what >= 10 {
                        // Kill whoever is there now.
                        let all = world.all();
                        if let Some(i) = all.iter().rev().find(|i| i.registry == names[r] && i.key == key && i.ready && i.down.is_none()) {
                            Process::exit(i.pid, ExitReason::Kill);
                        }
                        continue;
                    }
                    let call = tick();
                    let op = match what {
                        0..=1 => match lookup(dest, key).await {
                            Answer::Pid(p) => Op::Lookup(Some(p)),
                            Answer::Nothing => Op::Lookup(None),
                            other => return Some(format!("lookup {other:?}")),
                        },
                        2..=4 => match lookup_or_start(dest, key).await {
                            Answer::Pid(p) => Op::LookupOrStart(p),
                            other => return Some(format!("lookup_or_start {other:?}")),
                        },
                        5..=6 => match start_process(dest, key).await {
                            Answer::Pid(p) => Op::Start(p),
                            Answer::Already(p) => Op::Already(p),
                            other => return Some(format!("start {other:?}")),
                        },
                        7..=8 => match stop_process(dest, key).await {
                            Answer::Ok => Op::Stop(true),
                            Answer::NotFound => Op::Stop(false),
                            other => return Some(format!("stop {other:?}")),
                        },
                        _ => match remove(dest, key).await {
                            Answer::Pid(p) => Op::Remove(Some(p)),
                            Answer::Nothing => Op::Remove(None),
                            other => return Some(format!("remove {other:?}")),
                        },
                    };
                    events.push((r, k, Event { call, ret: tick(), op }));
                    if rng.chance(1, 4) {
                        tokio::task::yield_now().await;
                    }
                }
                None
            }));
        }
        let mut bad = Vec::new();
        for w in futures_util::future::join_all(waits).await {
            match w {
                Some(None) => {}
                Some(Some(text)) => bad.push(text),
                None => inconclusive("concurrent client died"),
            }
        }
        if !check(bad.is_empty(), "unexpected-answer", || json!(bad)) {
            return;
        }
        // Settle: every end has been noticed by its registry.
        let reg = pids.clone();
        let nms = names.clone();
        let w2 = world.clone();
        chaos_off();
        let mut tables: Vec<BTreeMap<RegistryKey, Pid>> = Vec::new();
        let settled = {
            let mut ok = false;
            for _ in 0..400 {
                let (reg, nms) = (reg.clone(), nms.clone());
                tables = in_process(async move {
                    let mut t = Vec::new();
                    for (p, n) in reg.iter().zip(&nms) {
                        let a = list(Dest::from(*p)).await;
                        let b = list(Dest::from(n.clone())).await;
                        let c = count(Dest::from(*p)).await;
                        if let (Answer::List(a), Answer::List(b), Answer::Count(c)) = (a, b, c) {
                            if a == b && a.len() == c {
                                t.push(a);
                            }
                        }
                    }
                    t
                })
                .await
                .unwrap_or_default();
                if tables.len() == pids.len() && tables.iter().all(|t| t.values().all(|p| Process::alive(*p))) {
                    ok = true;
                    break;
                }
                tokio::time::sleep(Duration::from_millis(10)).await;
            }
            ok
        };
        if !check(settled, "table-never-settles", || json!({"tables": format!("{tables:?}"), "alive": w2.all().iter().map(|i| (format!("{:?}", i.key), Process::alive(i.pid))).collect::<Vec<_>>()})) {
            return;
        }
        let end = tick();
        let evs = events.snapshot();
        for r in 0..nr {
            for (k, key) in keys.iter().enumerate() {
                let mut h: Vec<Event> = evs.iter().filter(|(a, b, _)| *a == r && *b == k).map(|(_, _, e)| e.clone()).collect();
                if h.is_empty() {
                    continue;
                }
                // Ends of processes: some time between their start and now.
                for i in world.all().iter().filter(|i| i.registry == names[r] && &i.key == key) {
                    if !Process::alive(i.pid) {
                        h.push(Event { call: i.started, ret: end, op: Op::Death(i.pid) });
                    }
                }
                // What is listed now is what the history must end with.
                h.push(Event { call: end + 1, ret: end + 2, op: Op::Lookup(tables[r].get(key).copied()) });
                if h.len() > 60 {
                    hv::count("histories too long", 1);
                    continue;
                }
                evaluated(1);
                match linearizable(&h) {
                    Some(true) => {}
                    Some(false) => violation(
                        "not-linearizable",
                        json!({"key": k, "events": h.iter().map(|e| format!("{}..{} {:?}", e.call, e.ret, e.op)).collect::<Vec<_>>()}),
                    ),
                    None => inconclusive("search gave up"),
                }
                let overlaps = h.iter().enumerate().any(|(i, a)| h.iter().skip(i + 1).any(|b| a.call < b.ret && b.call < a.ret));
                if overlaps {
                    let mut order = h.clone();
                    order.sort_by_key(|e| e.ret);
                    cover(&order.iter().map(|e| (std::mem::discriminant(&e.op), matches!(e.op, Op::Lookup(None) | Op::Remove(None) | Op::Stop(false)))).collect::<Vec<_>>());
                    hv::count("overlapping histories", 1);
                }
                // Every live process of this key not registered any more was let go by a removal.
                let removed: Vec<Pid> = h.iter().filter_map(|e| if let Op::Remove(Some(p)) = e.op { Some(p) } else { None }).collect();
                for i in world.all().iter().filter(|i| i.registry == names[r] && &i.key == key && Process::alive(i.pid)) {
                    let ok = tables[r].get(key) == Some(&i.pid) || removed.contains(&i.pid);
                    check(ok, "two-live-processes-for-a-key", || json!({"key": k, "events": h.iter().map(|e| format!("{}..{} {:?}", e.call, e.ret, e.op)).collect::<Vec<_>>()}));
                }
            }
        }
        hv::count("processes started", world.all().len() as u64);
        for p in pids {
            kill(p);
        }
        // Nothing registered outlives its registry.
        let registered: Vec<Pid> = tables.iter().flat_map(|t| t.values().copied()).collect();
        let gone = eventually(|| registered.iter().all(|p| !Process::alive(*p))).await;
        check(gone, "orphans-of-killed-registry", || json!({}));
        for i in world.all() {
            kill(i.pid);
        }
    });
}

fn main() {
    run(
        "C14",
        &[
            scenario("model", 6, model),
            scenario("unsupported", 1, unsupported),
            scenario("supervised", 1, supervised),
            scenario("concurrent", 4, concurrent),
        ],
    );
}
