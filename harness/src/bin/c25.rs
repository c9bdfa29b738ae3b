//! C25: what is reported about processes, nodes and the program is what is there: the listings and the
//! information of one process, asked directly or through the console of an application, here or from
//! another node.
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::io::{BufRead, BufReader, Write};
use std::pin::Pin;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use hv::net::fresh_address;
use hv::*;
use hydra::*;
use serde::{Deserialize, Serialize};
use tokio::sync::{mpsc, oneshot};

#[derive(Serialize, Deserialize)]
struct Word {
    c25_word: u64,
}

type Boxed = Pin<Box<dyn Future<Output = bool> + Send>>;
type Job = Box<dyn FnOnce() -> Boxed + Send>;

async fn actor(mut rx: mpsc::UnboundedReceiver<Job>) {
    while let Some(job) = rx.recv().await {
        if !job().await {
            return;
        }
    }
    forever().await
}

#[derive(Clone, Default, Debug)]
struct Life {
    alive: bool,
    name: Option<String>,
    trap: bool,
    /// Messages delivered since it last looked through its messages, and those it has looked at and left.
    queued: usize,
    left: usize,
    links: BTreeSet<usize>,
    /// Who watches it, with which reference.
    watched: Vec<(usize, Reference)>,
}

struct World {
    lives: Vec<Life>,
    pids: Vec<Pid>,
    jobs: Vec<mpsc::UnboundedSender<Job>>,
    tag: u64,
    names: u64,
    log: Vec<String>,
}

fn is_normal(r: &ExitReason) -> bool {
    r.is_normal()
}

impl World {
    fn new() -> World {
        static TAG: AtomicU64 = AtomicU64::new(0);
        World { lives: vec![], pids: vec![], jobs: vec![], tag: TAG.fetch_add(1, Ordering::Relaxed), names: 0, log: vec![] }
    }

    fn spawn(&mut self) -> usize {
        let (tx, rx) = mpsc::unbounded_channel();
        self.pids.push(Process::spawn(actor(rx)));
        self.jobs.push(tx);
        self.lives.push(Life { alive: true, ..Life::default() });
        self.lives.len() - 1
    }

    /// Runs `f` in the process and returns what it returned, or `None` if the process ended meanwhile.
    async fn inside<T: Send + 'static, F: Future<Output = T> + Send + 'static>(&self, who: usize, f: F) -> Option<T> {
        let (tx, rx) = oneshot::channel();
        let job: Job = Box::new(move || {
            Box::pin(async move {
                let _ = tx.send(f.await);
                true
            })
        });
        self.jobs[who].send(job).ok()?;
        rx.await.ok()
    }

    fn living(&self) -> Vec<usize> {
        (0..self.lives.len()).filter(|i| self.lives[*i].alive).collect()
    }

    /// What the death of one means for everybody.
    fn dies(&mut self, who: usize, reason: ExitReason) {
        let mut dying = vec![(who, reason)];
        while let Some((who, reason)) = dying.pop() {
            if !self.lives[who].alive {
                continue;
            }
            let life = std::mem::take(&mut self.lives[who]);
            for other in life.links {
                let o = &mut self.lives[other];
                if !o.links.remove(&who) {
                    continue;
                }
                if o.trap {
                    o.queued += 1;
                } else if !is_normal(&reason) {
                    // Killing is passed on under another name.
                    dying.push((other, ExitReason::from("from a link")));
                }
            }
            for (by, _) in life.watched {
                if self.lives[by].alive {
                    self.lives[by].queued += 1;
                }
            }
            for other in self.lives.iter_mut() {
                other.watched.retain(|(by, _)| *by != who);
            }
        }
    }

    fn dead_get_nothing(&mut self) {
        for l in self.lives.iter_mut().filter(|l| !l.alive) {
            *l = Life::default();
        }
    }

    /// One random step; `false` if the step could not be done.
    async fn step(&mut self, rng: &mut Rng) {
        let living = self.living();
        if living.len() < 2 {
            self.spawn();
            return;
        }
        let a = *rng.pick(&living);
        // Now and then one that has ended already.
        let b = if rng.chance(1, 8) { rng.usize(self.lives.len()) } else { *rng.pick(&living) };
        let pb = self.pids[b];
        let mut ended = false;
        let what = rng.below(16);
        match what {
            0 => {
                self.spawn();
                self.log.push(format!("spawn {}", self.lives.len() - 1));
                return;
            }
            1..=3 if a != b => {
                self.log.push(format!("link {a} {b}"));
                if self.lives[b].alive {
                    self.inside(a, async move { Process::link(pb) }).await;
                    self.lives[a].links.insert(b);
                    self.lives[b].links.insert(a);
                } else if self.lives[a].trap {
                    self.inside(a, async move { Process::link(pb) }).await;
                    self.lives[a].queued += 1;
                } else {
                    let _ = self.inside(a, async move {
                        Process::link(pb);
                        forever().await
                    })
                    .await;
                    self.dies(a, ExitReason::from("noproc"));
                    ended = true;
                }
            }
            4 if a != b => {
                self.log.push(format!("unlink {a} {b}"));
                self.inside(a, async move { Process::unlink(pb) }).await;
                self.lives[a].links.remove(&b);
                self.lives[b].links.remove(&a);
            }
            5..=6 if a != b => {
                let name = self.lives[b].name.clone().filter(|_| rng.bool());
                self.log.push(format!("monitor {a} {b} {name:?}"));
                let dest: Dest = match name {
                    Some(n) => n.into(),
                    None => pb.into(),
                };
                if let Some(r) = self.inside(a, async move { Process::monitor(dest) }).await {
                    if self.lives[b].alive {
                        self.lives[b].watched.push((a, r));
                    } else {
                        self.lives[a].queued += 1;
                    }
                }
            }
            7 => {
                let Some((b, i)) = (0..self.lives.len())
                    .flat_map(|b| (0..self.lives[b].watched.len()).map(move |i| (b, i)))
                    .find(|(b, i)| self.lives[*b].watched[*i].0 == a)
                else {
                    return;
                };
                let (_, r) = self.lives[b].watched.remove(i);
                self.log.push(format!("demonitor {a} {b}"));
                self.inside(a, async move { Process::demonitor(r) }).await;
            }
            8 => {
                if self.lives[b].name.is_none() && self.lives[b].alive {
                    self.names += 1;
                    let name = format!("c25-{}-{}", self.tag, self.names);
                    self.log.push(format!("register {a} {b}"));
                    let n = name.clone();
                    let done = self.inside(a, async move { Process::register(pb, n).is_ok() }).await;
                    check(done == Some(true), "name-not-given", || json!({"history": self.log}));
                    self.lives[b].name = Some(name);
                }
            }
            9 => {
                if let Some(name) = self.lives[b].name.take() {
                    self.log.push(format!("unregister {b}"));
                    self.inside(a, async move { Process::unregister(name) }).await;
                }
            }
            10 => {
                let on = rng.bool();
                self.log.push(format!("trap {a} {on}"));
                self.inside(a, async move { Process::set_flags(if on { ProcessFlags::TRAP_EXIT } else { ProcessFlags::empty() }) }).await;
                self.lives[a].trap = on;
            }
            11..=12 => {
                let n = rng.range(1, 4);
                self.log.push(format!("send {a} {b} {n}"));
                self.inside(a, async move {
                    for i in 0..n {
                        Process::send(pb, Word { c25_word: i });
                    }
                })
                .await;
                if self.lives[b].alive {
                    self.lives[b].queued += n as usize;
                }
            }
            13 => {
                // Takes one, or looks through all and leaves them.
                let l = self.lives[a].clone();
                if rng.bool() && l.left + l.queued > 0 {
                    self.log.push(format!("receive {a}"));
                    self.inside(a, async move {
                        let _ = Process::receiver().for_message::<Word>().select(|_| true).await;
                    })
                    .await;
                    let l = &mut self.lives[a];
                    if l.left > 0 {
                        l.left -= 1;
                    } else {
                        l.queued -= 1;
                    }
                } else {
                    self.log.push(format!("look {a}"));
                    self.inside(a, async move {
                        Process::send(Process::current(), Word { c25_word: 1 << 60 });
                        let _ = Process::receiver()
                            .for_message::<Word>()
                            .select(|m| matches!(m, Message::User(w) if w.c25_word == 1 << 60))
                            .await;
                    })
                    .await;
                    let l = &mut self.lives[a];
                    l.left += std::mem::take(&mut l.queued);
                }
            }
            14 => {
                let reason = match rng.below(3) {
                    0 => ExitReason::Normal,
                    1 => ExitReason::from("custom"),
                    _ => ExitReason::Kill,
                };
                self.log.push(format!("end {b} {reason:?}"));
                if self.lives[b].alive {
                    ended = true;
                    if a == b {
                        // On oneself it always works.
                        let r = reason.clone();
                        let _ = self.inside(a, async move {
                            Process::exit(pb, r);
                            forever().await
                        })
                        .await;
                        self.dies(b, reason);
                    } else if rng.bool() && is_normal(&reason) {
                        // By returning.
                        let _ = self.jobs[b].send(Box::new(|| Box::pin(async { false })));
                        self.dies(b, reason);
                    } else {
                        let r = reason.clone();
                        let _ = self.inside(a, async move { Process::exit(pb, r) }).await;
                        match reason {
                            ExitReason::Normal => {
                                if self.lives[b].trap {
                                    self.lives[b].queued += 1;
                                }
                            }
                            ExitReason::Kill => self.dies(b, reason),
                            _ if self.lives[b].trap => self.lives[b].queued += 1,
                            _ => self.dies(b, reason),
                        }
                    }
                }
            }
            _ => return,
        }
        self.dead_get_nothing();
        if ended {
            // Ends are noticed in their own time; everything else is there at once.
            self.settle().await;
        }
    }

    async fn settle(&self) {
        eventually(|| {
            (0..self.lives.len()).all(|i| {
                let l = &self.lives[i];
                match Process::info(self.pids[i]) {
                    None => !l.alive,
                    Some(info) => {
                        l.alive && info.message_queue_len == l.queued && info.links.len() == l.links.len() && info.monitored_by.len() == l.watched.len()
                    }
                }
            })
            // The name of a process that ended goes just after the process.
            && Process::registered().iter().filter(|n| n.starts_with(&format!("c25-{}-", self.tag))).all(|n| {
                Process::whereis(n.clone()).is_none_or(|p| (0..self.lives.len()).any(|i| self.lives[i].alive && self.pids[i] == p))
            })
        })
        .await;
    }

    fn judge_one(&self, i: usize, info: &Option<ProcessInfo>, others: &dyn Fn(&Pid) -> String) -> Option<Value> {
        let l = &self.lives[i];
        let want = l.alive.then(|| {
            let mut links: Vec<String> = l.links.iter().map(|j| others(&self.pids[*j])).collect();
            let mut by: Vec<String> = l.watched.iter().map(|(j, _)| others(&self.pids[*j])).collect();
            links.sort();
            by.sort();
            (l.name.clone(), l.queued, l.trap, links, by)
        });
        let got = info.as_ref().map(|info| {
            let mut links: Vec<String> = info.links.iter().map(others).collect();
            let mut by: Vec<String> = info.monitored_by.iter().map(others).collect();
            links.sort();
            by.sort();
            (info.registered_name.clone(), info.message_queue_len, info.trap_exit, links, by)
        });
        (want != got).then(|| json!({"process": i, "want": format!("{want:?}"), "got": format!("{got:?}"), "history": self.log.iter().rev().take(25).rev().collect::<Vec<_>>()}))
    }

    fn index(&self) -> impl Fn(&Pid) -> String {
        let map: BTreeMap<Pid, usize> = self.pids.iter().enumerate().map(|(i, p)| (*p, i)).collect();
        move |p| map.get(p).map(|i| i.to_string()).unwrap_or_else(|| format!("{p:?}"))
    }

    /// Everything that is reported now, compared with what there is.
    fn judge(&self) {
        let others = self.index();
        for i in 0..self.lives.len() {
            evaluated(1);
            let info = Process::info(self.pids[i]);
            if let Some(detail) = self.judge_one(i, &info, &others) {
                violation("wrong-info", detail);
            }
            check(Process::alive(self.pids[i]) == self.lives[i].alive, "wrong-alive", || json!({"process": i, "alive": self.lives[i].alive, "history": self.log}));
            let l = &self.lives[i];
            cover(&("info", l.alive, l.name.is_some(), l.trap, l.queued.min(6), l.left.min(3), l.links.len(), l.watched.len()));
        }
        self.judge_list(&Process::list());
        let mut names: Vec<String> = Process::registered().into_iter().filter(|n| n.starts_with(&format!("c25-{}-", self.tag))).collect();
        let mut want: Vec<String> = self.lives.iter().filter_map(|l| l.name.clone()).collect();
        names.sort();
        want.sort();
        check(names == want, "wrong-names", || json!({"want": want, "got": names}));
        for (i, l) in self.lives.iter().enumerate() {
            if let Some(n) = &l.name {
                check(Process::whereis(n) == Some(self.pids[i]), "wrong-whereis", || json!({"name": n}));
            }
        }
    }

    fn judge_list(&self, list: &[Pid]) {
        let mut times: BTreeMap<Pid, usize> = BTreeMap::new();
        for p in list {
            *times.entry(*p).or_default() += 1;
        }
        check(times.values().all(|n| *n == 1), "listed-twice", || json!({"list": format!("{list:?}")}));
        for (i, l) in self.lives.iter().enumerate() {
            check(times.contains_key(&self.pids[i]) == l.alive, if l.alive { "living-not-listed" } else { "dead-listed" }, || {
                json!({"process": i, "history": self.log})
            });
        }
    }

    fn end_all(&self) {
        let pids = self.pids.clone();
        Process::spawn(async move {
            for p in pids {
                Process::exit(p, ExitReason::Kill);
            }
        });
    }
}

/// A random history, everything reported compared after each step.
fn histories(ep: &mut Ep) {
    let rt = runtime(&mut ep.rng);
    chaos(&mut ep.rng);
    let mut rng = ep.rng.fork();
    rt.block_on(async move {
        let mut world = World::new();
        let start = rng.range(2, 6);
        for _ in 0..start {
            world.spawn();
        }
        world.judge();
        for _ in 0..rng.range(10, 60) {
            world.step(&mut rng).await;
            world.judge();
            if violations_so_far() > 0 {
                break;
            }
        }
        count("steps", world.log.len() as u64);
        sample("history", || json!({"steps": world.log, "living": world.living().len()}));
        world.end_all();
    });
    drop(rt);
}

// ---------------------------------------------------------------------------------------------
// While things change
// ---------------------------------------------------------------------------------------------

struct Passing {
    pid: Pid,
    /// Set before its end is brought about.
    ending: AtomicBool,
    /// Set once it was seen to be dead.
    dead: AtomicBool,
}

/// Observers ask while processes come and go; what stays must be reported exactly, what was there before
/// and after must be listed, what was dead before must not be.
fn changing(ep: &mut Ep) {
    let rt = runtime_threads(ep.rng.range(2, 8) as usize);
    chaos(&mut ep.rng);
    let mut rng = ep.rng.fork();
    rt.block_on(async move {
        let mut world = World::new();
        for _ in 0..rng.range(3, 6) {
            world.spawn();
        }
        let base = world.lives.len();
        for _ in 0..30 {
            // Only steps after which they all live.
            let (a, b) = (rng.usize(base), rng.usize(base));
            if a == b {
                continue;
            }
            let pb = world.pids[b];
            match rng.below(5) {
                0..=1 => {
                    world.inside(a, async move { Process::link(pb) }).await;
                    world.lives[a].links.insert(b);
                    world.lives[b].links.insert(a);
                }
                2 => {
                    if let Some(r) = world.inside(a, async move { Process::monitor(pb) }).await {
                        world.lives[b].watched.push((a, r));
                    }
                }
                3 if world.lives[b].name.is_none() => {
                    let n = format!("c25-{}-{}", world.tag, b);
                    world.lives[b].name = Some(n.clone());
                    world.inside(a, async move { Process::register(pb, n).ok() }).await;
                }
                _ => {
                    world.inside(a, async { Process::set_flags(ProcessFlags::TRAP_EXIT) }).await;
                    world.lives[a].trap = true;
                }
            }
        }
        world.judge();
        let world = Arc::new(world);
        let passing: Arc<Mutex<Vec<Arc<Passing>>>> = Arc::default();
        let stop = Arc::new(AtomicBool::new(false));
        // One that reads nothing, and how much it was sent.
        let quiet = Process::spawn(forever());
        let sent = Arc::new((AtomicUsize::new(0), AtomicUsize::new(0)));
        let mut tasks = Vec::new();
        let rounds = rng.range(40, 200);
        for _ in 0..rng.range(1, 4) {
            let (mut rng, passing, stop, sent, world) = (rng.fork(), passing.clone(), stop.clone(), sent.clone(), world.clone());
            tasks.push(tokio::spawn(async move {
                in_process(async move {
                    for _ in 0..rounds {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let gate = Arc::new(tokio::sync::Notify::new());
                        let g = gate.clone();
                        let neighbour = world.pids[rng.usize(world.pids.len())];
                        let ties = rng.below(4);
                        let kill = rng.bool();
                        let pid = Process::spawn(async move {
                            // A monitor and a name that come and go beside those that stay.
                            if ties == 1 {
                                let r = Process::monitor(Process::spawn(async {}));
                                Process::demonitor(r);
                            } else if ties == 2 {
                                let _ = Process::register(Process::current(), format!("c25x-{:?}", Process::current()));
                            } else if ties == 3 {
                                let _ = Process::whereis("c25x");
                                let _ = neighbour;
                            }
                            if kill {
                                forever().await
                            }
                            g.notified().await;
                        });
                        let p = Arc::new(Passing { pid, ending: AtomicBool::new(false), dead: AtomicBool::new(false) });
                        passing.lock().unwrap().push(p.clone());
                        sent.0.fetch_add(1, Ordering::SeqCst);
                        Process::send(quiet, Word { c25_word: 0 });
                        sent.1.fetch_add(1, Ordering::SeqCst);
                        if rng.bool() {
                            tokio::task::yield_now().await;
                        }
                        p.ending.store(true, Ordering::SeqCst);
                        if kill {
                            Process::exit(pid, ExitReason::Kill);
                        } else {
                            gate.notify_one();
                        }
                        if rng.bool() && eventually(|| Process::info(pid).is_none()).await {
                            p.dead.store(true, Ordering::SeqCst);
                        }
                    }
                })
                .await;
            }));
        }
        let watching = Arc::new(AtomicBool::new(true));
        let observers: Vec<_> = (0..rng.range(1, 3))
            .map(|n| {
                let (passing, world, sent, watching) = (passing.clone(), world.clone(), sent.clone(), watching.clone());
                std::thread::spawn(move || {
                    let mut looks = 0u64;
                    while (watching.load(Ordering::SeqCst) || looks < 3) && looks < 400 && violations_so_far() < 4 {
                        looks += 1;
                        let before: Vec<(Arc<Passing>, bool)> =
                            passing.lock().unwrap().iter().rev().take(200).map(|p| (p.clone(), p.dead.load(Ordering::SeqCst))).collect();
                        let least = sent.1.load(Ordering::SeqCst);
                        match (looks + n) % 2 {
                            0 => {
                                let list = Process::list();
                                let set: BTreeSet<Pid> = list.iter().copied().collect();
                                check(set.len() == list.len(), "listed-twice", || json!({"listed": list.len(), "different": set.len()}));
                                for p in &world.pids {
                                    check(set.contains(p), "living-not-listed", || json!({"among": list.len()}));
                                }
                                let mut through = 0;
                                for (p, dead) in &before {
                                    if *dead {
                                        check(!set.contains(&p.pid), "dead-listed", || json!({"pid": format!("{:?}", p.pid)}));
                                    } else if !p.ending.load(Ordering::SeqCst) {
                                        through += 1;
                                        check(set.contains(&p.pid), "living-not-listed", || json!({"pid": format!("{:?}", p.pid), "passing": true}));
                                    }
                                }
                                count("lists compared", 1);
                                cover(&("list", set.len().min(40) / 4, through.min(4)));
                            }
                            _ => {
                                let others = world.index();
                                for i in 0..world.lives.len() {
                                    if let Some(d) = world.judge_one(i, &Process::info(world.pids[i]), &others) {
                                        violation("wrong-info-meanwhile", d);
                                    }
                                }
                                for (p, dead) in before.iter().take(20) {
                                    let info = Process::info(p.pid);
                                    if *dead {
                                        check(info.is_none() && !Process::alive(p.pid), "dead-reported", || json!({"info": format!("{info:?}")}));
                                    } else if !p.ending.load(Ordering::SeqCst) {
                                        check(info.is_some(), "living-not-reported", || json!({"pid": format!("{:?}", p.pid)}));
                                    }
                                }
                                let len = Process::info(quiet).map(|i| i.message_queue_len);
                                let most = sent.0.load(Ordering::SeqCst);
                                check(len.is_some_and(|n| n >= least && n <= most), "wrong-queue-length", || json!({"got": len, "least": least, "most": most}));
                                count("infos compared", world.lives.len() as u64);
                                cover(&("meanwhile", before.len().min(20), len.unwrap_or(0).min(64) / 8));
                            }
                        }
                        evaluated(1);
                    }
                })
            })
            .collect();
        for t in tasks {
            let _ = t.await;
        }
        watching.store(false, Ordering::SeqCst);
        stop.store(true, Ordering::SeqCst);
        let _ = tokio::task::spawn_blocking(move || {
            for o in observers {
                if o.join().is_err() {
                    violation("asking-panics", json!({}));
                }
            }
        })
        .await;
        // All is still as it was.
        world.judge();
        world.end_all();
        kill(quiet);
    });
    drop(rt);
}

// ---------------------------------------------------------------------------------------------
// The console of an application
// ---------------------------------------------------------------------------------------------

struct App<F>(F);

impl<F: Fn() -> Boxed + Send + Sync + 'static> Application for App<F> {
    fn config() -> ApplicationConfig {
        ApplicationConfig::new().with_tracing_subscribe(false).with_tracing_panics(false).with_graceful_shutdown(false)
    }
    async fn start(&self) -> Result<Pid, ExitReason> {
        let body = (self.0)();
        Ok(Process::spawn_link(async move {
            body.await;
        }))
    }
}

async fn console_of<T: Into<Node>>(node: T) -> Option<Pid> {
    match ConsoleServer::connect(node).await {
        Ok(pid) => Some(pid),
        Err(_) => None,
    }
}

/// The console's answers about the world, compared with what there is.
async fn judge_console(world: &World, console: Pid, rng: &mut Rng) {
    evaluated(1);
    match ConsoleServer::list_processes(console).await {
        Ok(list) => {
            world.judge_list(&list);
            let now: BTreeSet<Pid> = Process::list().into_iter().collect();
            check(list.iter().copied().collect::<BTreeSet<_>>() == now, "console-lists-others", || json!({"console": list.len(), "really": now.len()}));
        }
        Err(e) => violation("console-does-not-answer", json!({"error": format!("{e:?}"), "asked": "list"})),
    }
    // In the order asked, also for the dead and those asked for twice.
    let asked: Vec<usize> = (0..rng.below(2 * world.pids.len() as u64 + 1)).map(|_| rng.usize(world.pids.len())).collect();
    match ConsoleServer::processes_info(console, asked.iter().map(|i| world.pids[*i]).collect()).await {
        Ok(infos) => {
            if check(infos.len() == asked.len(), "console-infos-missing", || json!({"asked": asked.len(), "got": infos.len()})) {
                let others = world.index();
                for (i, info) in asked.iter().zip(&infos) {
                    if let Some(d) = world.judge_one(*i, info, &others) {
                        violation("console-wrong-info", d);
                    }
                }
            }
            cover(&("console", asked.len(), infos.iter().filter(|i| i.is_none()).count()));
        }
        Err(e) => violation("console-does-not-answer", json!({"error": format!("{e:?}"), "asked": "infos"})),
    }
    match ConsoleServer::runtime_info(console).await {
        Ok(info) => {
            let cpus = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(0);
            let workers = tokio::runtime::Handle::current().metrics().num_workers();
            let n = Process::list().len();
            check(
                info.processes == n && info.logical_cpus == cpus && info.worker_threads == workers && !info.system_version.is_empty(),
                "console-wrong-runtime",
                || json!({"processes": [info.processes, n], "cpus": [info.logical_cpus, cpus], "workers": [info.worker_threads, workers], "version": info.system_version}),
            );
            let (real, most) = memory();
            // Within a factor: it changes from moment to moment.
            check(
                info.physical_memory > 0 && info.physical_memory <= info.virtual_memory && info.physical_memory < real * 3 && info.physical_memory > real / 3 && info.virtual_memory < most * 3 && info.virtual_memory > most / 3,
                "console-wrong-memory",
                || json!({"physical": [info.physical_memory, real], "virtual": [info.virtual_memory, most]}),
            );
        }
        Err(e) => violation("console-does-not-answer", json!({"error": format!("{e:?}"), "asked": "runtime"})),
    }
    for state in [NodeState::Current, NodeState::Known, NodeState::Connected] {
        match ConsoleServer::list_nodes(console, state).await {
            Ok(nodes) => {
                let mut got: Vec<String> = nodes.iter().map(|n| format!("{n:?}")).collect();
                let mut want: Vec<String> = Node::list_by_state(state).iter().map(|n| format!("{n:?}")).collect();
                got.sort();
                want.sort();
                check(got == want, "console-wrong-nodes", || json!({"state": format!("{state:?}"), "got": got, "want": want}));
            }
            Err(e) => violation("console-does-not-answer", json!({"error": format!("{e:?}"), "asked": "nodes"})),
        }
    }
    count("console answers", 6);
}

/// The resident and the whole memory of this program, in bytes.
fn memory() -> (usize, usize) {
    let text = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    let mut n = text.split(' ').filter_map(|n| n.parse::<usize>().ok());
    let all = n.next().unwrap_or(1) * 4096;
    (n.next().unwrap_or(1) * 4096, all)
}

/// An application with its console in this program: it answers truly, comes back when it dies, and neither
/// keeps the application from ending nor ends it.
fn console(ep: &mut Ep) {
    chaos(&mut ep.rng);
    let seed = ep.rng.next();
    let ended = Arc::new(AtomicBool::new(false));
    let (mark, extra) = (ended.clone(), ep.rng.chance(1, 3));
    App(move || {
        let ended = mark.clone();
        let body: Boxed = Box::pin(async move {
            let mut rng = Rng::new(seed);
            let Some(mut console) = console_of(Node::current()).await else {
                violation("no-console", json!({}));
                return true;
            };
            check(Process::whereis("$hydra_console") == Some(console), "wrong-console", || json!({}));
            let mut world = World::new();
            for _ in 0..rng.range(2, 5) {
                world.spawn();
            }
            for _ in 0..rng.range(2, 8) {
                for _ in 0..rng.range(1, 8) {
                    world.step(&mut rng).await;
                }
                judge_console(&world, console, &mut rng).await;
                if rng.chance(1, 3) {
                    let reason = if rng.bool() { ExitReason::Kill } else { ExitReason::from("custom") };
                    count("consoles ended", 1);
                    cover(&("console ended", format!("{reason:?}")));
                    Process::exit(console, reason);
                    let old = console;
                    if !eventually(|| Process::whereis("$hydra_console").is_some_and(|p| p != old)).await {
                        violation("console-not-restarted", json!({}));
                        return true;
                    }
                    match console_of(Node::current()).await {
                        Some(new) => {
                            check(new != old && !Process::alive(old), "wrong-console", || json!({}));
                            console = new;
                        }
                        None => {
                            violation("console-not-restarted", json!({}));
                            return true;
                        }
                    }
                    evaluated(1);
                }
                if violations_so_far() > 0 {
                    break;
                }
            }
            world.end_all();
            eventually(|| world.pids.iter().all(|p| !Process::alive(*p))).await;
            if extra {
                // The console and the main process end at the same time.
                Process::exit(console, ExitReason::Kill);
            }
            ended.store(true, Ordering::SeqCst);
            true
        });
        body
    })
    .run();
    check(ended.load(Ordering::SeqCst), "application-ended-early", || json!({}));
    evaluated(1);
}

// ---------------------------------------------------------------------------------------------
// Asked from another node
// ---------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize)]
struct Expected {
    /// By name: trapping, queued, links and watchers by name.
    lives: BTreeMap<String, (bool, usize, Vec<String>, Vec<String>)>,
}

fn say(text: &str) {
    let mut out = std::io::stdout().lock();
    let _ = writeln!(out, "C25 {text}");
    let _ = out.flush();
}

/// The program that is asked: an application with a node and a world of named processes.
fn served(name: String, address: String, seed: u64) {
    let lines = Arc::new(Mutex::new({
        let (tx, rx) = std::sync::mpsc::channel::<String>();
        std::thread::spawn(move || {
            for line in std::io::stdin().lines().map_while(Result::ok) {
                let _ = tx.send(line);
            }
            std::process::exit(0);
        });
        rx
    }));
    App(move || {
        let (name, address, lines) = (name.clone(), address.clone(), lines.clone());
        let body: Boxed = Box::pin(async move {
            let mut rng = Rng::new(seed);
            Node::start(name.as_str(), NodeOptions::new().listen_address(address.parse::<std::net::SocketAddr>().unwrap()).broadcast_address(address.parse::<std::net::SocketAddr>().unwrap()));
            let mut world = World::new();
            for _ in 0..rng.range(2, 6) {
                world.spawn();
            }
            loop {
                let line = lines.lock().unwrap().try_recv();
                match line {
                    Ok(l) if l == "step" => {
                        for _ in 0..rng.range(1, 20) {
                            world.step(&mut rng).await;
                        }
                        // Everybody has a name, so that both sides talk about the same ones.
                        for i in world.living() {
                            if world.lives[i].name.is_none() {
                                world.names += 1;
                                let n = format!("c25-{}-{}", world.tag, world.names);
                                let _ = Process::register(world.pids[i], n.clone());
                                world.lives[i].name = Some(n);
                            }
                        }
                        let called = |i: &usize| world.lives[*i].name.clone().unwrap_or_default();
                        let lives = world
                            .living()
                            .into_iter()
                            .map(|i| {
                                let l = &world.lives[i];
                                let mut links: Vec<String> = l.links.iter().map(called).collect();
                                let mut by: Vec<String> = l.watched.iter().map(|(j, _)| called(j)).collect();
                                links.sort();
                                by.sort();
                                (called(&i), (l.trap, l.queued, links, by))
                            })
                            .collect();
                        let e = Expected { lives };
                        say(&serde_json::to_string(&e).unwrap());
                    }
                    Ok(l) if l == "kill" => {
                        let old = Process::whereis("$hydra_console");
                        if let Some(old) = old {
                            Process::exit(old, ExitReason::Kill);
                        }
                        eventually(|| Process::whereis("$hydra_console").is_some_and(|p| Some(p) != old)).await;
                        say("killed");
                    }
                    Ok(_) => break,
                    Err(_) => Process::sleep(Duration::from_millis(2)).await,
                }
            }
            true
        });
        body
    })
    .run();
    say("returned");
    std::process::exit(0);
}

fn remote(ep: &mut Ep) {
    static ME: std::sync::OnceLock<(String, std::net::SocketAddr, tokio::runtime::Runtime)> = std::sync::OnceLock::new();
    // How the process of a connection ends when the other program has ended.
    allow_panic("/node_remote");
    // The node of this program stays for all episodes.
    let (me, my_address, rt) = ME.get_or_init(|| {
        let rt = runtime_threads(4);
        let address = fresh_address();
        let me = format!("viewer{}", std::process::id());
        let n = me.clone();
        rt.block_on(in_process(async move {
            Node::start(n.as_str(), NodeOptions::new().listen_address(address).broadcast_address(address));
        }));
        (me, address, rt)
    });
    let mut rng = ep.rng.fork();
    let (address, name) = (fresh_address(), format!("served{}", ep.index));
    let exe = std::env::current_exe().unwrap();
    let Ok(mut child) = Command::new(exe)
        .args(["--served", &name, &address.to_string(), &rng.next().to_string()])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    else {
        inconclusive("could not start a program");
        return;
    };
    let mut input = child.stdin.take().unwrap();
    let (tx, answers) = std::sync::mpsc::channel();
    let out = child.stdout.take().unwrap();
    std::thread::spawn(move || {
        for line in BufReader::new(out).lines().map_while(Result::ok) {
            if let Some(rest) = line.strip_prefix("C25 ") {
                let _ = tx.send(rest.to_string());
            }
        }
    });
    let me_dest = format!("{me}@{my_address}");
    let there = Node::from((name.clone(), address));
    let rounds = rng.range(1, 4);
    let mut ended_well = true;
    for round in 0..rounds {
        if writeln!(input, "step").and_then(|_| input.flush()).is_err() {
            ended_well = false;
            break;
        }
        let Some(expected) = answers.recv_timeout(Duration::from_secs(30)).ok().and_then(|l| serde_json::from_str::<Expected>(&l).ok()) else {
            inconclusive("the program did not answer");
            ended_well = false;
            break;
        };
        let (node, my_node, fork) = (there.clone(), me_dest.clone(), rng.fork());
        rt.block_on(async move {
            in_process(view(expected, node, my_node, fork)).await;
        });
        if rng.bool() && ended_well && round + 1 < rounds {
            let _ = writeln!(input, "kill").and_then(|_| input.flush());
            check(answers.recv_timeout(Duration::from_secs(30)).is_ok_and(|l| l == "killed"), "console-not-restarted", || json!({"remote": true}));
        }
        if violations_so_far() > 0 {
            break;
        }
    }
    if ended_well {
        let _ = writeln!(input, "end").and_then(|_| input.flush());
        check(answers.recv_timeout(Duration::from_secs(30)).is_ok_and(|l| l == "returned"), "application-does-not-end", || json!({}));
    }
    let _ = child.kill();
    let _ = child.wait();
    let gone = there.clone();
    rt.block_on(in_process(async move { Node::forget(gone) }));
}

async fn view(expected: Expected, node: Node, my_node: String, mut rng: Rng) {
    evaluated(1);
    let mut console = None;
    for _ in 0..20 {
        console = console_of(node.clone()).await;
        if console.is_some() {
            break;
        }
        tokio::time::sleep(Duration::from_millis(100)).await;
    }
    let Some(console) = console else {
        violation("no-remote-console", json!({"node": format!("{node:?}")}));
        return;
    };
    check(console.is_remote(), "remote-console-is-local", || json!({"console": format!("{console:?}")}));
    let before: BTreeSet<Pid> = Process::list().into_iter().collect();
    let Ok(list) = ConsoleServer::list_processes(console).await else {
        violation("console-does-not-answer", json!({"remote": true}));
        return;
    };
    check(list.iter().all(|p| p.is_remote()), "remote-process-is-local", || json!({"list": format!("{list:?}")}));
    check(list.iter().all(|p| !before.contains(p)), "remote-process-is-ours", || json!({}));
    check(list.iter().collect::<BTreeSet<_>>().len() == list.len(), "listed-twice", || json!({"remote": true}));
    check(list.len() >= expected.lives.len(), "living-not-listed", || json!({"remote": true, "listed": list.len(), "really": expected.lives.len()}));
    // Ties of our own, from here.
    let mut asked = list.clone();
    rng.shuffle(&mut asked);
    let mut ours: Option<(String, Pid)> = None;
    for turn in 0..2 {
        let Ok(infos) = ConsoleServer::processes_info(console, asked.clone()).await else {
            violation("console-does-not-answer", json!({"remote": true}));
            return;
        };
        if !check(infos.len() == asked.len(), "console-infos-missing", || json!({"asked": asked.len(), "got": infos.len()})) {
            return;
        }
        let names: BTreeMap<Pid, String> =
            asked.iter().zip(&infos).filter_map(|(p, i)| Some((*p, i.as_ref()?.registered_name.clone()?))).collect();
        let mine = Process::current();
        let called = |p: &Pid| if *p == mine { "viewer".to_string() } else { names.get(p).cloned().unwrap_or_else(|| format!("{p:?}")) };
        let mut seen = BTreeSet::new();
        for info in infos.iter().flatten() {
            let Some(name) = &info.registered_name else { continue };
            let Some((trap, queued, links, by)) = expected.lives.get(name) else { continue };
            check(seen.insert(name.clone()), "listed-twice", || json!({"name": name}));
            let (mut links, mut by) = (links.clone(), by.clone());
            if turn == 1 && ours.as_ref().is_some_and(|o| o.0 == *name) {
                links.push("viewer".into());
                by.push("viewer".into());
            }
            let mut got = (info.trap_exit, info.message_queue_len, info.links.iter().map(called).collect::<Vec<_>>(), info.monitored_by.iter().map(called).collect::<Vec<_>>());
            let mut want = (*trap, *queued, links, by);
            for l in [&mut got.2, &mut got.3, &mut want.2, &mut want.3] {
                l.sort();
            }
            check(got == want, "remote-wrong-info", || json!({"name": name, "turn": turn, "got": format!("{got:?}"), "want": format!("{want:?}")}));
            cover(&("remote", want.0, want.1.min(6), want.2.len(), want.3.len(), turn));
            evaluated(1);
        }
        check(seen.len() == expected.lives.len(), "living-not-listed", || json!({"remote": true, "found": seen.len(), "really": expected.lives.len()}));
        count("remote infos compared", seen.len() as u64);
        if turn == 0 {
            // In order on the same connection, so the next question finds them.
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            if let Some((pid, name)) = names.iter().find(|(_, n)| expected.lives.contains_key(*n)) {
                Process::link(*pid);
                let _ = Process::monitor(*pid);
                ours = Some((name.clone(), *pid));
            }
        }
    }
    if let Some((_, pid)) = ours {
        Process::unlink(pid);
    }
    for (state, want) in [(NodeState::Connected, true), (NodeState::Known, false)] {
        match ConsoleServer::list_nodes(console, state).await {
            Ok(nodes) => {
                let here = nodes.iter().filter(|n| n.is_local() || format!("{n:?}") == my_node || **n == Node::from(my_node.as_str())).count();
                check((here == 1) == want, "remote-wrong-nodes", || json!({"state": format!("{state:?}"), "nodes": format!("{nodes:?}"), "me": my_node}));
            }
            Err(e) => violation("console-does-not-answer", json!({"error": format!("{e:?}"), "remote": true})),
        }
    }
    match ConsoleServer::list_nodes(console, NodeState::Current).await {
        Ok(nodes) => {
            check(nodes == [node.clone()], "remote-wrong-nodes", || json!({"state": "Current", "nodes": format!("{nodes:?}"), "want": format!("{node:?}")}));
        }
        Err(e) => violation("console-does-not-answer", json!({"error": format!("{e:?}"), "remote": true})),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|a| a.as_str()) == Some("--served") {
        served(args[2].clone(), args[3].clone(), args[4].parse().unwrap());
        return;
    }
    run("C25", &[scenario("histories", 4, histories), scenario("changing", 3, changing), scenario("console", 3, console), scenario("remote", 1, remote)]);
}
