//! C05: links. Bidirectional, deduplicated, removable from either side, signalled exactly once, and a
//! failure spreads over the link graph to exactly the processes it should reach.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

use hv::*;
use hydra::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Cmd {
    Trap(bool),
    Link(Pid),
    Unlink(Pid),
    SpawnLink(u64),
    Die(ExitReason),
    Panic,
    Return,
}

type Seen = (Pid, ExitReason);

struct Node {
    pid: Pid,
    log: Log<Seen>,
    trap: bool,
    alive: bool,
    want: BTreeMap<(Pid, String), u32>,
}

async fn actor(log: Log<Seen>, made: Log<(u64, Pid, Log<Seen>)>) {
    loop {
        match Process::receive::<Cmd>().await {
            Message::User(Cmd::Trap(on)) => {
                Process::set_flags(if on { ProcessFlags::TRAP_EXIT } else { ProcessFlags::empty() })
            }
            Message::User(Cmd::Link(pid)) => Process::link(pid),
            Message::User(Cmd::Unlink(pid)) => Process::unlink(pid),
            Message::User(Cmd::SpawnLink(tag)) => {
                let l = Log::new();
                let pid = Process::spawn_link(Box::pin(actor_boxed(l.clone(), made.clone())));
                made.push((tag, pid, l));
            }
            Message::User(Cmd::Die(reason)) => {
                Process::exit(Process::current(), reason);
                forever().await;
            }
            Message::User(Cmd::Panic) => expected_panic("boom"),
            Message::User(Cmd::Return) => return,
            Message::System(SystemMessage::Exit(from, reason)) => {
                log.push((from, reason));
            }
            Message::System(s) => violation("unexpected-system-message", json!(format!("{s:?}"))),
        }
    }
}

fn actor_boxed(
    log: Log<Seen>,
    made: Log<(u64, Pid, Log<Seen>)>,
) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>> {
    Box::pin(actor(log, made))
}

struct Model {
    nodes: Vec<Node>,
    edges: BTreeSet<(usize, usize)>,
}

impl Model {
    fn key(a: usize, b: usize) -> (usize, usize) {
        (a.min(b), a.max(b))
    }
    fn neighbours(&self, x: usize) -> Vec<usize> {
        self.edges
            .iter()
            .filter_map(|&(a, b)| if a == x { Some(b) } else if b == x { Some(a) } else { None })
            .collect()
    }
    /// A signal over a link (or of a failed link attempt) reaches `x`.
    fn signal(&mut self, x: usize, from: Pid, reason: &ExitReason, queue: &mut Vec<usize>) {
        let n = &mut self.nodes[x];
        if !n.alive {
            return;
        }
        if n.trap {
            *n.want.entry((from, format!("{reason:?}"))).or_default() += 1;
        } else if *reason != ExitReason::Normal {
            n.alive = false;
            queue.push(x);
        }
    }
    /// Everything that dies, dies of the same reason, because only abnormal reasons spread.
    fn cascade(&mut self, mut queue: Vec<usize>, reason: &ExitReason) -> usize {
        let mut deaths = 0;
        while let Some(x) = queue.pop() {
            deaths += 1;
            let around = self.neighbours(x);
            let from = self.nodes[x].pid;
            for y in around {
                self.edges.remove(&Self::key(x, y));
                // Both ends of a link may die of a third process; whether the second still signals the
                // first does not matter, the first is dead.
                self.signal(y, from, reason, &mut queue);
            }
        }
        deaths
    }
}

/// Random link graphs, one operation at a time, against the model.
fn graph(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let steps: Log<String> = Log::new();
    let trace = steps.clone();
    virtual_time(async move {
        let made: Log<(u64, Pid, Log<Seen>)> = Log::new();
        let mut model = Model { nodes: Vec::new(), edges: BTreeSet::new() };
        for _ in 0..rng.range(2, 7) {
            let log = Log::new();
            let pid = Process::spawn(actor(log.clone(), made.clone()));
            model.nodes.push(Node { pid, log, trap: false, alive: true, want: BTreeMap::new() });
        }
        let mut unsure = false;
        for step in 0..rng.range(5, 40) {
            let n = model.nodes.len();
            let x = rng.usize(n);
            let y = rng.usize(n);
            let living = model.nodes[x].alive;
            let pid = model.nodes[x].pid;
            match rng.below(11) {
                0 | 1 => {
                    let trap = rng.chance(2, 3);
                    Process::send(pid, Cmd::Trap(trap));
                    if living {
                        model.nodes[x].trap = trap;
                    }
                    trace.push(format!("{x} trap {trap}"));
                }
                2..=5 => {
                    Process::send(pid, Cmd::Link(model.nodes[y].pid));
                    trace.push(format!("{x} links {y}"));
                    if living && x != y {
                        if model.nodes[y].alive {
                            model.edges.insert(Model::key(x, y));
                        } else {
                            let reason = ExitReason::from("noproc");
                            let from = model.nodes[y].pid;
                            let mut queue = Vec::new();
                            model.signal(x, from, &reason, &mut queue);
                            model.cascade(queue, &reason);
                            cover(&("noproc", model.nodes[x].trap));
                        }
                    }
                }
                6 | 7 => {
                    Process::send(pid, Cmd::Unlink(model.nodes[y].pid));
                    trace.push(format!("{x} unlinks {y}"));
                    if living {
                        let had = model.edges.remove(&Model::key(x, y));
                        cover(&("unlink", had, x < y));
                    }
                }
                8 => {
                    if living && n < 12 {
                        Process::send(pid, Cmd::SpawnLink(step));
                        trace.push(format!("{x} spawn_links {n}"));
                        quiesce().await;
                        match made.take().pop() {
                            Some((_, pid, log)) => {
                                model.nodes.push(Node { pid, log, trap: false, alive: true, want: BTreeMap::new() });
                                model.edges.insert(Model::key(x, n));
                            }
                            None => {
                                violation("spawn-link", json!(trace.snapshot()));
                                return;
                            }
                        }
                    }
                }
                _ => {
                    if rng.bool() {
                        // Deaths are rarer, so that graphs grow.
                        let (cmd, reason) = match rng.below(4) {
                            0 => (Cmd::Return, ExitReason::Normal),
                            1 => (Cmd::Panic, "[expected]boom".into()),
                            _ => {
                                let r = random_reason(&mut rng);
                                (Cmd::Die(r.clone()), r)
                            }
                        };
                        trace.push(format!("{x} dies {reason:?}"));
                        Process::send(pid, cmd);
                        if living {
                            model.nodes[x].alive = false;
                            // Links between two processes that both die in this cascade are the only
                            // place where the number of signals to a trapping process could depend on
                            // order, and it cannot: a trapping process does not die of them.
                            let deaths = model.cascade(vec![x], &reason);
                            cover(&("cascade", deaths, model.edges.len(), reason.is_normal()));
                        }
                    }
                }
            }
            quiesce().await;
            for (i, node) in model.nodes.iter().enumerate() {
                let alive = Process::alive(node.pid);
                if !check(alive == node.alive, "link-life", || {
                    json!({"process": i, "alive": alive, "expected": node.alive, "history": trace.snapshot()})
                }) {
                    unsure = true;
                    break;
                }
                let mut got: BTreeMap<(Pid, String), u32> = BTreeMap::new();
                for (from, r) in node.log.snapshot() {
                    *got.entry((from, format!("{r:?}"))).or_default() += 1;
                }
                if !check(got == node.want, "link-signals", || {
                    json!({"process": i, "expected": format!("{:?}", node.want), "got": format!("{got:?}"),
                           "history": trace.snapshot()})
                }) {
                    unsure = true;
                    break;
                }
                if node.alive {
                    let info = Process::info(node.pid);
                    let mut links: Vec<Pid> = info.map(|i| i.links).unwrap_or_default();
                    links.sort();
                    let mut want: Vec<Pid> = model.neighbours(i).iter().map(|j| model.nodes[*j].pid).collect();
                    want.sort();
                    if !check(links == want, "link-info", || {
                        json!({"process": i, "expected": format!("{want:?}"), "got": format!("{links:?}"),
                               "history": trace.snapshot()})
                    }) {
                        unsure = true;
                        break;
                    }
                }
            }
            if unsure {
                break;
            }
        }
        count("operations", trace.len() as u64);
    });
    sample("history", || json!(steps.snapshot()));
    cover(&hash_of(&steps.snapshot()));
    evaluated(1);
}

/// Linking to a process that is ending right now: exactly one signal, never none.
fn race(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let rt = runtime_threads(*rng.pick(&[2, 4, 8]));
    chaos(rng);
    let mut fork = rng.fork();
    rt.block_on(async move {
        let rng = &mut fork;
        let reason = match rng.below(3) {
            0 => ExitReason::Normal,
            1 => ExitReason::Kill,
            _ => "bye".into(),
        };
        let go = Arc::new(AtomicBool::new(false));
        let r = reason.clone();
        let g = go.clone();
        let spin = rng.below(400);
        let style = rng.below(2);
        let target = Process::spawn(async move {
            while !g.load(Ordering::SeqCst) {
                tokio::task::yield_now().await;
            }
            for _ in 0..spin {
                std::hint::spin_loop();
            }
            if style == 0 && r == ExitReason::Normal {
                return;
            }
            Process::exit(Process::current(), r);
            forever().await;
        });
        let n = rng.range(1, 6) as usize;
        let mut linkers = Vec::new();
        for _ in 0..n {
            let trap = rng.chance(3, 4);
            let twice = rng.chance(1, 4);
            let mutual = rng.chance(1, 4);
            let unlink = rng.chance(1, 8);
            let log: Log<Seen> = Log::new();
            let l = log.clone();
            let g = go.clone();
            let delay = rng.below(600);
            let (tx, rx) = tokio::sync::oneshot::channel();
            let pid = Process::spawn(async move {
                if trap {
                    Process::set_flags(ProcessFlags::TRAP_EXIT);
                }
                while !g.load(Ordering::SeqCst) {
                    tokio::task::yield_now().await;
                }
                for _ in 0..delay {
                    std::hint::spin_loop();
                }
                Process::link(target);
                if twice && !unlink {
                    // The second may find the target dead after the first saw it alive.
                    Process::link(target);
                }
                if unlink {
                    Process::unlink(target);
                }
                tx.send(()).ok();
                loop {
                    if let Message::System(SystemMessage::Exit(from, why)) = Process::receive::<()>().await {
                        l.push((from, why));
                    }
                }
            });
            linkers.push((pid, trap, twice, unlink, mutual, log, rx));
        }
        go.store(true, Ordering::SeqCst);
        let mut outcome = Vec::new();
        for (pid, trap, twice, unlink, _, log, rx) in linkers {
            let _ = rx.await;
            if trap && !unlink {
                let l = log.clone();
                let ok = eventually(|| l.len() >= 1).await;
                check(ok, "link-signal-lost", || json!({"reason": reason_str(&reason), "twice": twice}));
            }
            if !trap && !unlink && !reason.is_normal() {
                let ok = eventually(|| !Process::alive(pid)).await;
                check(ok, "linked-process-survived", || json!(reason_str(&reason)));
            }
            outcome.push((pid, trap, twice, unlink, log));
        }
        eventually(|| !Process::alive(target) && Process::info(target).is_none()).await;
        for _ in 0..20 {
            tokio::task::yield_now().await;
        }
        for (pid, trap, twice, unlink, log) in outcome {
            let seen = log.snapshot();
            for (from, why) in &seen {
                check(*from == target && (*why == reason || *why == "noproc"), "link-signal-wrong", || {
                    json!({"expected": reason_str(&reason), "got": reason_str(why)})
                });
            }
            if trap && !twice && !unlink {
                check(seen.len() == 1, "link-signal-duplicated", || json!(format!("{seen:?}")));
                if let Some((_, why)) = seen.first() {
                    cover(&("race", reason_str(&reason), *why == "noproc", n));
                }
            }
            check(seen.len() <= 2, "link-signal-duplicated", || json!(format!("{seen:?}")));
            if Process::alive(pid) && trap {
                let links = Process::info(pid).map(|i| i.links).unwrap_or_default();
                check(!links.contains(&target), "link-to-dead-listed", || json!(format!("{links:?}")));
            }
            kill(pid);
        }
        count("race-links", n as u64);
        evaluated(1);
    });
}

/// The process that made a link ends right after; the other side must hear of it, exactly once.
fn quitters(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let rt = runtime(rng);
    chaos(rng);
    let mut fork = rng.fork();
    rt.block_on(async move {
        let rng = &mut fork;
        let log: Log<Seen> = Log::new();
        let l = log.clone();
        let (tx, rx) = tokio::sync::oneshot::channel();
        let n = rng.range(1, 12) as usize;
        let children = rng.range(0, 6);
        let kids: Log<(Pid, ExitReason)> = Log::new();
        let k = kids.clone();
        let mut r2 = rng.fork();
        let hub = Process::spawn(async move {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            for i in 0..children {
                let why = match r2.below(3) {
                    0 => ExitReason::Normal,
                    1 => ExitReason::Kill,
                    _ => ExitReason::Custom(format!("child {i}")),
                };
                let w = why.clone();
                let delay = r2.below(3);
                let pid = Process::spawn_link(async move {
                    for _ in 0..delay {
                        tokio::task::yield_now().await;
                    }
                    if !w.is_normal() {
                        Process::exit(Process::current(), w);
                        forever().await;
                    }
                });
                k.push((pid, why));
            }
            tx.send(()).ok();
            loop {
                if let Message::System(SystemMessage::Exit(from, why)) = Process::receive::<()>().await {
                    l.push((from, why));
                }
            }
        });
        rx.await.ok();
        let mut want: Vec<Seen> = kids.snapshot();
        for i in 0..n {
            let reason: ExitReason = match rng.below(3) {
                0 => ExitReason::Normal,
                1 => ExitReason::Kill,
                _ => ExitReason::Custom(format!("q{i}")),
            };
            let r = reason.clone();
            let both = rng.bool();
            let pause = rng.chance(1, 3);
            let pid = Process::spawn(async move {
                Process::link(hub);
                if both {
                    Process::link(hub);
                }
                if pause {
                    tokio::task::yield_now().await;
                }
                if !r.is_normal() {
                    Process::exit(Process::current(), r);
                    forever().await;
                }
            });
            want.push((pid, reason));
        }
        let l = log.clone();
        let total = want.len();
        let ok = eventually(|| l.len() >= total).await;
        for _ in 0..20 {
            tokio::task::yield_now().await;
        }
        let mut got = log.snapshot();
        check(ok, "link-signal-lost", || json!({"expected": total, "got": got.len()}));
        got.sort_by_key(|g| g.0);
        want.sort_by_key(|g| g.0);
        check(got == want, "link-signal-wrong", || {
            json!({"expected": format!("{want:?}"), "got": format!("{got:?}")})
        });
        check(Process::alive(hub), "trapping-hub-died", || json!(format!("{want:?}")));
        let links = Process::info(hub).map(|i| i.links).unwrap_or_default();
        check(links.is_empty(), "link-to-dead-listed", || json!(format!("{links:?}")));
        cover(&("quitters", n, children));
        cover(&("order", hash_of(&log.snapshot().iter().map(|s| format!("{s:?}")).collect::<Vec<_>>())));
        count("race-links", total as u64);
        kill(hub);
        evaluated(1);
    });
}

/// Two processes of a link ending at the same time, chains and rings ending as a whole.
fn collapse(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let rt = runtime(rng);
    chaos(rng);
    let mut fork = rng.fork();
    rt.block_on(async move {
        let rng = &mut fork;
        let n = rng.range(2, 14) as usize;
        let trapper: Log<Seen> = Log::new();
        let mut pids: Vec<Pid> = Vec::new();
        let shape = rng.below(4);
        let mut acks = Vec::new();
        for i in 0..n {
            let before: Vec<Pid> = match shape {
                0 => pids.last().copied().into_iter().collect(),
                1 => pids.first().copied().into_iter().collect(),
                2 => pids.clone(),
                _ => {
                    let mut v: Vec<Pid> = pids.last().copied().into_iter().collect();
                    if i == n - 1 {
                        v.extend(pids.first());
                    }
                    v
                }
            };
            let (tx, rx) = tokio::sync::oneshot::channel();
            acks.push(rx);
            pids.push(Process::spawn(async move {
                for p in before {
                    Process::link(p);
                }
                tx.send(()).ok();
                forever().await
            }));
        }
        for a in acks {
            let _ = a.await;
        }
        let t = trapper.clone();
        let list = pids.clone();
        let (tx, rx) = tokio::sync::oneshot::channel();
        let watcher = Process::spawn(async move {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            for p in &list {
                Process::link(*p);
            }
            tx.send(()).ok();
            loop {
                if let Message::System(SystemMessage::Exit(from, why)) = Process::receive::<()>().await {
                    t.push((from, why));
                }
            }
        });
        let _ = rx.await;
        let loner = Process::spawn(forever());
        let victims = rng.range(1, 2);
        for _ in 0..victims {
            let v = *rng.pick(&pids);
            Process::spawn(async move { Process::exit(v, "collapse") });
        }
        let l = trapper.clone();
        let ok = eventually(|| l.len() >= n).await;
        for _ in 0..20 {
            tokio::task::yield_now().await;
        }
        let got = trapper.snapshot();
        check(ok, "collapse-incomplete", || json!({"shape": shape, "processes": n, "got": format!("{got:?}")}));
        let set: BTreeSet<Pid> = got.iter().map(|g| g.0).collect();
        check(set.len() == got.len(), "link-signal-duplicated", || json!(format!("{got:?}")));
        check(got.iter().all(|g| g.1 == "collapse"), "link-signal-wrong", || json!(format!("{got:?}")));
        check(pids.iter().all(|p| !Process::alive(*p)), "linked-process-survived", || json!(shape));
        check(Process::alive(loner) && Process::alive(watcher), "unlinked-process-died", || json!(shape));
        cover(&("collapse", shape, n, victims));
        kill(loner);
        kill(watcher);
        count("race-links", n as u64);
        evaluated(1);
    });
}

fn main() {
    run(
        "C05",
        &[
            scenario("graph", 6, graph),
            scenario("race", 4, race),
            scenario("quitters", 2, quitters),
            scenario("collapse", 2, collapse),
        ],
    );
}
