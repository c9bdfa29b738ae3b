//! An executable model of a supervisor, driven next to the real one on virtual time.
use std::collections::{HashMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use hydra::*;
use serde::{Deserialize, Serialize};

use crate::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Cmd {
    Return,
    Panic(String),
    ExitSelf(ExitReasonKind),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum ExitReasonKind {
    Normal,
    Kill,
    Ignore,
    Custom(String),
}

impl ExitReasonKind {
    pub fn reason(&self) -> ExitReason {
        match self {
            Self::Normal => ExitReason::Normal,
            Self::Kill => ExitReason::Kill,
            Self::Ignore => ExitReason::Ignore,
            Self::Custom(s) => ExitReason::Custom(s.clone()),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    /// Ends at the first exit signal.
    Plain,
    /// Traps exits, winds down for so many milliseconds and then ends with the reason.
    Obedient(u64, Option<String>),
    /// Traps exits and ignores them.
    Stubborn,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Ok,
    Err(String),
    Ignore,
}

#[derive(Clone, Debug)]
pub struct Attempt {
    pub outcome: Outcome,
    pub gated: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Policy {
    Default,
    Brutal,
    Millis(u64),
    Infinity,
}

#[derive(Clone, Debug)]
pub struct Child {
    pub id: String,
    pub restart: Restart,
    pub policy: Policy,
    pub supervisor: bool,
    pub significant: bool,
    pub kind: Kind,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    /// The start routine of a child ran for the nth time.
    Attempt(String, u64),
    Stopped(String, u64),
}

/// What the real children recorded.
#[derive(Default)]
pub struct World {
    pub log: Log<(Ev, u64)>,
    pub script: Mutex<HashMap<String, VecDeque<Attempt>>>,
    pub attempts: Mutex<HashMap<String, u64>>,
    pub pids: Mutex<HashMap<(String, u64), Pid>>,
    pub reasons: Mutex<HashMap<(String, u64), ExitReason>>,
    pub waiting: AtomicBool,
    pub gate: tokio::sync::Notify,
    pub entered: tokio::sync::Notify,
    pub start: Mutex<Option<tokio::time::Instant>>,
    pub twice: AtomicU64,
}

impl World {
    pub fn new() -> Arc<World> {
        let w = Arc::new(World::default());
        *w.start.lock().unwrap() = Some(tokio::time::Instant::now());
        w
    }
    pub fn now(&self) -> u64 {
        let start = self.start.lock().unwrap().unwrap();
        start.elapsed().as_millis() as u64
    }
    pub fn pid(&self, id: &str, n: u64) -> Option<Pid> {
        self.pids.lock().unwrap().get(&(id.to_string(), n)).copied()
    }
}

struct Stop {
    world: Arc<World>,
    id: String,
    n: u64,
}

impl Drop for Stop {
    fn drop(&mut self) {
        let now = self.world.now();
        self.world.log.push((Ev::Stopped(self.id.clone(), self.n), now));
    }
}

async fn body(kind: Kind) {
    if kind != Kind::Plain {
        Process::set_flags(ProcessFlags::TRAP_EXIT);
    }
    loop {
        match Process::receive::<Cmd>().await {
            Message::User(Cmd::Return) => return,
            Message::User(Cmd::Panic(s)) => expected_panic(&s),
            Message::User(Cmd::ExitSelf(k)) => {
                Process::exit(Process::current(), k.reason());
                forever().await;
            }
            Message::System(SystemMessage::Exit(..)) => {
                if let Kind::Obedient(ms, reason) = &kind {
                    tokio::time::sleep(Duration::from_millis(*ms)).await;
                    if let Some(r) = reason {
                        Process::exit(Process::current(), r.clone());
                        forever().await;
                    }
                    return;
                }
            }
            _ => {}
        }
    }
}

impl Child {
    pub fn spec(&self, world: &Arc<World>) -> ChildSpec {
        let (world, me) = (world.clone(), self.clone());
        let mut spec = ChildSpec::new(self.id.clone())
            .start(move || {
                let (world, me) = (world.clone(), me.clone());
                async move {
                    let n = {
                        let mut a = world.attempts.lock().unwrap();
                        let n = a.entry(me.id.clone()).or_default();
                        *n += 1;
                        *n
                    };
                    let next = world.script.lock().unwrap().get_mut(&me.id).and_then(|q| q.pop_front());
                    world.log.push((Ev::Attempt(me.id.clone(), n), world.now()));
                    let next = next.unwrap_or(Attempt { outcome: Outcome::Ok, gated: false });
                    if next.gated {
                        world.waiting.store(true, Ordering::SeqCst);
                        world.entered.notify_one();
                        world.gate.notified().await;
                    }
                    match next.outcome {
                        Outcome::Err(s) => Err(ExitReason::from(s)),
                        Outcome::Ignore => Err(ExitReason::Ignore),
                        Outcome::Ok => {
                            let guard = Stop { world: world.clone(), id: me.id.clone(), n };
                            let kind = me.kind.clone();
                            let pid = Process::spawn_link(async move {
                                let _guard = guard;
                                body(kind).await
                            });
                            world.pids.lock().unwrap().insert((me.id.clone(), n), pid);
                            let (w, id) = (world.clone(), me.id.clone());
                            let (watching, ready) = tokio::sync::oneshot::channel();
                            Process::spawn(async move {
                                let _ = Process::monitor(pid);
                                watching.send(()).ok();
                                if let Message::System(SystemMessage::ProcessDown(_, _, r)) = Process::receive::<()>().await {
                                    if w.reasons.lock().unwrap().insert((id, n), r).is_some() {
                                        w.twice.fetch_add(1, Ordering::SeqCst);
                                    }
                                }
                            });
                            ready.await.ok();
                            Ok(pid)
                        }
                    }
                }
            })
            .restart(self.restart)
            .child_type(if self.supervisor { ChildType::Supervisor } else { ChildType::Worker });
        spec = match self.policy {
            Policy::Default => spec,
            Policy::Brutal => spec.shutdown(Shutdown::BrutalKill),
            Policy::Millis(ms) => spec.shutdown(Duration::from_millis(ms)),
            Policy::Infinity => spec.shutdown(Shutdown::Infinity),
        };
        if self.restart != Restart::Permanent {
            spec = spec.significant(self.significant);
        }
        spec
    }
    fn effective(&self) -> Policy {
        match self.policy {
            Policy::Default if self.supervisor => Policy::Infinity,
            Policy::Default => Policy::Millis(5000),
            p => p,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Req {
    Which,
    Count,
    Start(Child),
    Terminate(String),
    Restart(String),
    Delete(String),
}

#[derive(Clone, Debug)]
pub enum Item {
    /// A child ends: which (by position among the running ones) and how.
    Crash(u64, Cmd),
    Kill(u64),
    Req(Req),
}

#[derive(Clone, Debug)]
enum Mail {
    Exit(String, u64, ExitReason),
    TryAgain(String),
    Req(usize, Req),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Answer {
    Ok,
    Pid(Option<(String, u64)>),
    Error(String),
    Children(Vec<(String, Option<(String, u64)>, bool, bool)>),
    Counts(usize, usize, usize, usize),
    Down(ExitReason),
}

#[derive(Clone, Debug)]
struct Slot {
    child: Child,
    n: Option<u64>,
    restarting: bool,
}

#[derive(Clone, Debug)]
pub struct Settings {
    pub strategy: SupervisionStrategy,
    pub auto: AutoShutdown,
    pub max: usize,
}

/// The specified behaviour of a supervisor.
pub struct Model {
    settings: Settings,
    slots: Vec<Slot>,
    restarts: usize,
    mailbox: VecDeque<Mail>,
    pub now: u64,
    pub events: Vec<(Ev, u64)>,
    pub alive: HashMap<(String, u64), Child>,
    pub reasons: HashMap<(String, u64), ExitReason>,
    pub attempts: HashMap<String, u64>,
    pub script: HashMap<String, VecDeque<Attempt>>,
    pub answers: Vec<Option<Answer>>,
    /// Items to take effect while the next gated start is waiting.
    pub inject: Vec<Item>,
    /// What was running just before each of them.
    pub targets: Vec<Vec<(String, u64)>>,
    pub ended: Option<ExitReason>,
    pub restarted: u64,
}

impl Model {
    pub fn new(settings: Settings, children: &[Child], script: HashMap<String, VecDeque<Attempt>>) -> Model {
        Model {
            settings,
            slots: children.iter().map(|c| Slot { child: c.clone(), n: None, restarting: false }).collect(),
            restarts: 0,
            mailbox: VecDeque::new(),
            now: 0,
            events: Vec::new(),
            alive: HashMap::new(),
            reasons: HashMap::new(),
            attempts: HashMap::new(),
            script,
            answers: Vec::new(),
            inject: Vec::new(),
            targets: Vec::new(),
            ended: None,
            restarted: 0,
        }
    }

    pub fn ids(&self) -> Vec<String> {
        self.slots.iter().map(|s| s.child.id.clone()).collect()
    }
    pub fn running(&self) -> Vec<(String, u64)> {
        let mut v: Vec<_> = self.slots.iter().filter_map(|s| s.n.map(|n| (s.child.id.clone(), n))).filter(|k| self.alive.contains_key(k)).collect();
        v.sort();
        v
    }

    fn dies(&mut self, id: &str, n: u64, reason: ExitReason) {
        let key = (id.to_string(), n);
        if self.alive.remove(&key).is_some() {
            self.events.push((Ev::Stopped(id.to_string(), n), self.now));
            self.reasons.insert(key, reason);
        }
    }

    /// An outside event: the child ends at once and its exit is mailed to the supervisor.
    pub fn outside(&mut self, id: &str, n: u64, reason: ExitReason) {
        self.dies(id, n, reason.clone());
        self.mailbox.push_back(Mail::Exit(id.to_string(), n, reason));
    }

    pub fn request(&mut self, req: Req) -> usize {
        let k = self.answers.len();
        self.answers.push(None);
        self.mailbox.push_back(Mail::Req(k, req));
        k
    }

    fn attempt(&mut self, index: usize) -> Result<Option<u64>, String> {
        let id = self.slots[index].child.id.clone();
        let n = self.attempts.entry(id.clone()).or_default();
        *n += 1;
        let n = *n;
        self.events.push((Ev::Attempt(id.clone(), n), self.now));
        let next = self.script.get_mut(&id).and_then(|q| q.pop_front()).unwrap_or(Attempt { outcome: Outcome::Ok, gated: false });
        if next.gated {
            for item in std::mem::take(&mut self.inject) {
                self.targets.push(self.running());
                self.apply(item);
            }
        }
        match next.outcome {
            Outcome::Ok => {
                self.alive.insert((id, n), self.slots[index].child.clone());
                Ok(Some(n))
            }
            Outcome::Err(s) => Err(s),
            Outcome::Ignore => Ok(None),
        }
    }

    /// Resolves an item against the present state and lets it happen.
    pub fn apply(&mut self, item: Item) {
        match item {
            Item::Crash(which, cmd) => {
                let running = self.running();
                if running.is_empty() {
                    return;
                }
                let (id, n) = running[which as usize % running.len()].clone();
                let reason = match &cmd {
                    Cmd::Return => ExitReason::Normal,
                    Cmd::Panic(s) => ExitReason::from(format!("[expected]{s}")),
                    Cmd::ExitSelf(k) => k.reason(),
                };
                self.outside(&id, n, reason);
            }
            Item::Kill(which) => {
                let running = self.running();
                if running.is_empty() {
                    return;
                }
                let (id, n) = running[which as usize % running.len()].clone();
                self.outside(&id, n, ExitReason::Kill);
            }
            Item::Req(req) => {
                self.request(req);
            }
        }
    }

    fn stop(&mut self, index: usize) {
        self.slots[index].restarting = false;
        let Some(n) = self.slots[index].n.take() else { return };
        let child = self.slots[index].child.clone();
        if !self.alive.contains_key(&(child.id.clone(), n)) {
            return;
        }
        let own = |r: &Option<String>| r.clone().map_or(ExitReason::Normal, ExitReason::from);
        match (child.effective(), &child.kind) {
            (Policy::Brutal, _) => self.dies(&child.id, n, ExitReason::Kill),
            (_, Kind::Plain) => self.dies(&child.id, n, ExitReason::from("shutdown")),
            (Policy::Millis(t), Kind::Obedient(d, _)) if *d > t => {
                self.now += t;
                self.dies(&child.id, n, ExitReason::Kill);
            }
            (_, Kind::Obedient(d, r)) => {
                self.now += d;
                self.dies(&child.id, n, own(r));
            }
            (Policy::Millis(t), Kind::Stubborn) => {
                self.now += t;
                self.dies(&child.id, n, ExitReason::Kill);
            }
            (_, Kind::Stubborn) => unreachable!("never generated"),
        }
    }

    fn stop_all(&mut self) {
        for i in (0..self.slots.len()).rev() {
            self.stop(i);
        }
    }

    /// The supervisor starts its initial children.
    pub fn init(&mut self) -> Result<(), ExitReason> {
        for i in 0..self.slots.len() {
            match self.attempt(i) {
                Ok(n) => self.slots[i].n = n,
                Err(_) => {
                    self.stop_all();
                    self.ended = Some(ExitReason::from("failed_to_start_child"));
                    return Err(ExitReason::from("failed_to_start_child"));
                }
            }
        }
        self.slots.retain(|s| s.n.is_some() || s.child.restart != Restart::Temporary);
        Ok(())
    }

    fn end(&mut self, reason: ExitReason) {
        self.stop_all();
        self.slots.clear();
        self.ended = Some(reason.clone());
        for m in std::mem::take(&mut self.mailbox) {
            if let Mail::Req(k, _) = m {
                self.answers[k] = Some(Answer::Down(reason.clone()));
            }
        }
    }

    pub fn shut_down(&mut self, reason: ExitReason) {
        self.end(reason);
    }

    /// False: too many restarts.
    fn may_restart(&mut self) -> bool {
        self.restarts += 1;
        self.restarts <= self.settings.max
    }

    fn restart(&mut self, index: usize) {
        self.restarted += 1;
        let (from, to) = match self.settings.strategy {
            SupervisionStrategy::OneForOne => (index, index + 1),
            SupervisionStrategy::RestForOne => (index, self.slots.len()),
            SupervisionStrategy::OneForAll => (0, self.slots.len()),
        };
        let me = self.slots[index].child.id.clone();
        let affected: Vec<String> = self.slots[from..to].iter().map(|s| s.child.id.clone()).collect();
        for id in affected.iter().rev() {
            if *id == me {
                continue;
            }
            let i = self.slots.iter().position(|s| s.child.id == *id).unwrap();
            self.stop(i);
            if self.slots[i].child.restart == Restart::Temporary {
                self.slots.remove(i);
            }
        }
        for id in affected {
            let Some(i) = self.slots.iter().position(|s| s.child.id == id) else { continue };
            match self.attempt(i) {
                Ok(n) => {
                    self.slots[i].n = n;
                    self.slots[i].restarting = false;
                }
                Err(_) => {
                    self.slots[i].n = None;
                    self.slots[i].restarting = true;
                    self.mailbox.push_back(Mail::TryAgain(id));
                    return;
                }
            }
        }
    }

    fn ended_by_itself(&mut self, index: usize) {
        let gone = self.slots.remove(index);
        if !gone.child.significant {
            return;
        }
        let end = match self.settings.auto {
            AutoShutdown::Never => false,
            AutoShutdown::AnySignificant => true,
            AutoShutdown::AllSignificant => !self.slots.iter().any(|s| s.child.significant && (s.n.is_some() || s.restarting)),
        };
        if end {
            self.end(ExitReason::from("shutdown"));
        }
    }

    /// Handles everything in the mailbox.
    pub fn settle(&mut self) {
        while self.ended.is_none() {
            let Some(mail) = self.mailbox.pop_front() else { break };
            match mail {
                Mail::Exit(id, n, reason) => {
                    let Some(i) = self.slots.iter().position(|s| s.child.id == id && s.n == Some(n)) else { continue };
                    let ordinary = reason == ExitReason::Normal || reason == ExitReason::from("shutdown");
                    let again = match self.slots[i].child.restart {
                        Restart::Permanent => true,
                        Restart::Transient => !ordinary,
                        Restart::Temporary => false,
                    };
                    if !again {
                        self.ended_by_itself(i);
                    } else if self.may_restart() {
                        self.restart(i);
                    } else {
                        self.end(ExitReason::from("shutdown"));
                    }
                }
                Mail::TryAgain(id) => {
                    let Some(i) = self.slots.iter().position(|s| s.child.id == id) else { continue };
                    if !self.slots[i].restarting {
                        continue;
                    }
                    if self.may_restart() {
                        self.restart(i);
                    } else {
                        self.end(ExitReason::from("shutdown"));
                    }
                }
                Mail::Req(k, req) => {
                    let answer = self.handle(req);
                    self.answers[k] = Some(answer);
                }
            }
        }
        if let Some(r) = self.ended.clone() {
            // Requests that come too late.
            let _ = r;
            for m in std::mem::take(&mut self.mailbox) {
                if let Mail::Req(k, _) = m {
                    self.answers[k] = Some(Answer::Down(ExitReason::from("noproc")));
                }
            }
        }
    }

    fn handle(&mut self, req: Req) -> Answer {
        let find = |me: &Self, id: &str| me.slots.iter().position(|s| s.child.id == id);
        let error = |s: &str| Answer::Error(s.to_string());
        match req {
            Req::Which => Answer::Children(
                self.slots
                    .iter()
                    .map(|s| (s.child.id.clone(), s.n.map(|n| (s.child.id.clone(), n)), s.child.supervisor, s.restarting))
                    .collect(),
            ),
            Req::Count => Answer::Counts(
                self.slots.len(),
                self.slots.iter().filter(|s| s.n.is_some()).count(),
                self.slots.iter().filter(|s| s.child.supervisor).count(),
                self.slots.iter().filter(|s| !s.child.supervisor).count(),
            ),
            Req::Start(child) => {
                if let Some(i) = find(self, &child.id) {
                    return error(if self.slots[i].n.is_some() { "AlreadyStarted" } else { "AlreadyPresent" });
                }
                let temporary = child.restart == Restart::Temporary;
                let id = child.id.clone();
                self.slots.push(Slot { child, n: None, restarting: false });
                let i = self.slots.len() - 1;
                match self.attempt(i) {
                    Ok(n) => {
                        self.slots[i].n = n;
                        if n.is_none() && temporary {
                            self.slots.remove(i);
                        }
                        Answer::Pid(n.map(|n| (id, n)))
                    }
                    Err(s) => Answer::Error(format!("StartError(Custom({s:?}))")),
                }
            }
            Req::Terminate(id) => {
                let Some(i) = find(self, &id) else { return error("NotFound") };
                self.stop(i);
                if self.slots[i].child.restart == Restart::Temporary {
                    self.slots.remove(i);
                }
                Answer::Ok
            }
            Req::Restart(id) => {
                let Some(i) = find(self, &id) else { return error("NotFound") };
                if self.slots[i].restarting {
                    return error("Restarting");
                }
                if self.slots[i].n.is_some() {
                    return error("Running");
                }
                match self.attempt(i) {
                    Ok(n) => {
                        self.slots[i].n = n;
                        Answer::Pid(n.map(|n| (id, n)))
                    }
                    Err(s) => Answer::Error(format!("StartError(Custom({s:?}))")),
                }
            }
            Req::Delete(id) => {
                let Some(i) = find(self, &id) else { return error("NotFound") };
                if self.slots[i].restarting {
                    return error("Restarting");
                }
                if self.slots[i].n.is_some() {
                    return error("Running");
                }
                self.slots.remove(i);
                Answer::Ok
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// The real side
// ---------------------------------------------------------------------------------------------

#[derive(Deserialize)]
struct Info {
    id: String,
    child: Option<Pid>,
    child_type: ChildType,
    restarting: bool,
}

fn who(world: &World, pid: Pid) -> Option<(String, u64)> {
    world.pids.lock().unwrap().iter().find(|(_, p)| **p == pid).map(|(k, _)| k.clone())
}

fn failed(e: SupervisorError) -> Answer {
    match e {
        SupervisorError::CallError(CallError::ServerDown(r)) => Answer::Down(r),
        SupervisorError::CallError(e) => Answer::Error(format!("{e:?}")),
        e => Answer::Error(format!("{e:?}")),
    }
}

/// Carries out a request against the real supervisor. Must run in a process.
pub async fn ask(world: Arc<World>, sup: Pid, req: Req) -> Answer {
    // A supervisor with a name is asked by it now and then.
    static TURN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let sup: Dest = match Process::info(sup).and_then(|i| i.registered_name) {
        Some(name) if TURN.fetch_add(1, Ordering::Relaxed) % 2 == 0 => name.into(),
        _ => sup.into(),
    };
    let pid = |r: Option<Pid>| match r {
        None => Answer::Pid(None),
        Some(p) => Answer::Pid(Some(who(&world, p).unwrap_or_else(|| (format!("unknown {p:?}"), 0)))),
    };
    match req {
        Req::Which => match Supervisor::which_children(sup).await {
            Ok(list) => Answer::Children(
                list.iter()
                    .map(|i| {
                        let i: Info = serde_json::from_value(serde_json::to_value(i).unwrap()).unwrap();
                        let child = i.child.map(|p| who(&world, p).unwrap_or_else(|| (format!("unknown {p:?}"), 0)));
                        (i.id, child, matches!(i.child_type, ChildType::Supervisor), i.restarting)
                    })
                    .collect(),
            ),
            Err(e) => failed(e),
        },
        Req::Count => match Supervisor::count_children(sup).await {
            Ok(c) => Answer::Counts(c.specs, c.active, c.supervisors, c.workers),
            Err(e) => failed(e),
        },
        Req::Start(child) => match Supervisor::start_child(sup, child.spec(&world)).await {
            Ok(p) => pid(p),
            Err(e) => failed(e),
        },
        Req::Terminate(id) => match Supervisor::terminate_child(sup, id).await {
            Ok(()) => Answer::Ok,
            Err(e) => failed(e),
        },
        Req::Restart(id) => match Supervisor::restart_child(sup, id).await {
            Ok(p) => pid(p),
            Err(e) => failed(e),
        },
        Req::Delete(id) => match Supervisor::delete_child(sup, id).await {
            Ok(()) => Answer::Ok,
            Err(e) => failed(e),
        },
    }
}

/// What kind of episodes to make.
#[derive(Clone, Copy)]
pub struct Focus {
    /// Weights: exits, requests, start failures (of 8), gated starts.
    pub crash: u64,
    pub request: u64,
    pub fail: u64,
    pub gate: u64,
    pub auto: bool,
    pub slow_stops: bool,
    pub tight: bool,
    pub initial_failures: bool,
}

fn child(rng: &mut Rng, id: String, focus: &Focus) -> Child {
    let restart = *rng.pick(&[Restart::Permanent, Restart::Transient, Restart::Temporary]);
    let (kind, policy) = if focus.slow_stops {
        let kind = match rng.below(4) {
            0 => Kind::Plain,
            1 => Kind::Stubborn,
            _ => Kind::Obedient(*rng.pick(&[0, 40, 110]), if rng.bool() { Some("own".into()) } else { None }),
        };
        let policy = match rng.below(5) {
            0 => Policy::Brutal,
            1 | 2 => Policy::Millis(*rng.pick(&[20, 75, 150])),
            3 if kind != Kind::Stubborn => Policy::Infinity,
            _ => Policy::Millis(*rng.pick(&[20, 75])),
        };
        (kind, policy)
    } else {
        (Kind::Plain, *rng.pick(&[Policy::Default, Policy::Default, Policy::Brutal, Policy::Infinity, Policy::Millis(30)]))
    };
    let supervisor = rng.chance(1, 3) && !(kind == Kind::Stubborn && policy == Policy::Default);
    Child { id, restart, policy, supervisor, significant: restart != Restart::Permanent && focus.auto && rng.chance(2, 3), kind }
}

fn crash(rng: &mut Rng) -> Item {
    let which = rng.below(64);
    match rng.below(9) {
        0 | 1 => Item::Crash(which, Cmd::Return),
        2 => Item::Crash(which, Cmd::Panic(format!("p{}", rng.below(3)))),
        3 => Item::Kill(which),
        4 => Item::Crash(which, Cmd::ExitSelf(ExitReasonKind::Custom("shutdown".into()))),
        5 => Item::Crash(which, Cmd::ExitSelf(ExitReasonKind::Ignore)),
        6 => Item::Crash(which, Cmd::ExitSelf(ExitReasonKind::Normal)),
        7 => Item::Crash(which, Cmd::ExitSelf(ExitReasonKind::Kill)),
        _ => Item::Crash(which, Cmd::ExitSelf(ExitReasonKind::Custom(format!("c{}", rng.below(3))))),
    }
}

fn request(rng: &mut Rng, ids: &[String], fresh: &mut u64, focus: &Focus) -> Req {
    let any = |rng: &mut Rng| {
        if ids.is_empty() || rng.chance(1, 10) {
            "nobody".to_string()
        } else {
            rng.pick(ids).clone()
        }
    };
    match rng.below(12) {
        0 => Req::Which,
        1 => Req::Count,
        2..=4 => {
            let id = if rng.chance(1, 3) { any(rng) } else { *fresh += 1; format!("x{fresh}") };
            Req::Start(child(rng, id, focus))
        }
        5..=7 => Req::Terminate(any(rng)),
        8 | 9 => Req::Restart(any(rng)),
        _ => Req::Delete(any(rng)),
    }
}

fn failures(rng: &mut Rng, focus: &Focus) -> VecDeque<Attempt> {
    (0..rng.below(4))
        .map(|_| Attempt {
            outcome: match rng.below(8) {
                n if n < focus.fail => {
                    if rng.chance(1, 4) {
                        Outcome::Ignore
                    } else {
                        Outcome::Err(format!("e{}", rng.below(3)))
                    }
                }
                _ => Outcome::Ok,
            },
            gated: rng.chance(focus.gate, 8),
        })
        .collect()
}

/// One supervisor, one random history, compared with the model after each step.
pub fn history(ep: &mut Ep, focus: Focus) {
    let mut rng = ep.rng.fork();
    let steps: Log<String> = Log::new();
    let trace = steps.clone();
    virtual_time(async move {
        let rng = &mut rng;
        let settings = Settings {
            strategy: *rng.pick(&[SupervisionStrategy::OneForOne, SupervisionStrategy::OneForAll, SupervisionStrategy::RestForOne]),
            auto: if focus.auto { *rng.pick(&[AutoShutdown::Never, AutoShutdown::AnySignificant, AutoShutdown::AllSignificant, AutoShutdown::AllSignificant]) } else { AutoShutdown::Never },
            max: if focus.tight { rng.below(6) as usize } else { 100_000 },
        };
        let children: Vec<Child> = (0..rng.below(6)).map(|i| child(rng, format!("c{i}"), &focus)).collect();
        let world = World::new();
        let mut script: HashMap<String, VecDeque<Attempt>> = HashMap::new();
        if focus.initial_failures && rng.chance(1, 3) && !children.is_empty() {
            let c = rng.usize(children.len());
            let outcome = if rng.bool() { Outcome::Err("first".into()) } else { Outcome::Ignore };
            script.insert(children[c].id.clone(), VecDeque::from([Attempt { outcome, gated: false }]));
        }
        trace.push(format!("{settings:?} {children:?} {script:?}"));
        *world.script.lock().unwrap() = script.clone();
        let mut model = Model::new(settings.clone(), &children, script);

        // A trapping parent, linked to the supervisor.
        let mut sup = Supervisor::new().strategy(settings.strategy).auto_shutdown(settings.auto).max_restarts(settings.max).max_duration(
            // Far longer than any episode; sometimes longer than the machine has been up.
            *rng.pick(&[Duration::from_secs(3600), Duration::from_secs(1 << 40), Duration::MAX]),
        );
        for c in &children {
            sup = sup.add_child(c.spec(&world));
        }
        let mut options = SupervisorOptions::new();
        if rng.chance(1, 3) {
            static NAMES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
            options = options.name(format!("history-{}", NAMES.fetch_add(1, Ordering::Relaxed)));
        }
        let (tx, rx) = tokio::sync::oneshot::channel();
        let exit: Log<(Pid, ExitReason)> = Log::new();
        let exit2 = exit.clone();
        let shutdown_now = Arc::new(tokio::sync::Notify::new());
        let shutdown2 = shutdown_now.clone();
        let parent = Process::spawn(async move {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            let r = sup.start_link(options).await;
            let pid = r.as_ref().ok().copied();
            tx.send(r).ok();
            loop {
                tokio::select! {
                    _ = shutdown2.notified() => Process::exit(pid.unwrap(), ExitReason::from("shutdown")),
                    m = Process::receive::<()>() => if let Message::System(SystemMessage::Exit(p, r)) = m {
                        exit2.push((p, r));
                    },
                }
            }
        });
        let started = rx.await.unwrap();
        let expected = model.init();
        let ok = match (&started, &expected) {
            (Ok(_), Ok(())) => true,
            (Err(a), Err(b)) => a == b,
            _ => false,
        };
        check(ok, "supervisor-start", || json!({"started": format!("{started:?}"), "expected": format!("{expected:?}"), "history": trace.snapshot()}));
        if !ok {
            return;
        }
        quiesce().await;
        let mut seen = 0usize;
        let mut fresh = 0u64;
        let rounds = rng.range(1, 14);
        for round in 0..=rounds {
            // Compare.
            let got = world.log.snapshot();
            let bad = compare(&got, &model.events, seen);
            if !check(bad.is_none(), "supervisor-history", || {
                json!({"where": bad, "real": render(&got[seen.min(got.len())..]), "model": render(&model.events[seen.min(model.events.len())..]), "history": trace.snapshot()})
            }) {
                return;
            }
            // Align the clocks.
            seen = got.len();
            for (k, r) in &model.reasons {
                let real = world.reasons.lock().unwrap().get(k).cloned();
                check(real.as_ref() == Some(r), "child-exit-reason", || {
                    json!({"child": format!("{k:?}"), "real": format!("{real:?}"), "expected": format!("{r:?}"), "history": trace.snapshot()})
                });
            }
            check(world.twice.load(Ordering::SeqCst) == 0, "child-died-twice", || json!(null));
            if let Some(reason) = model.ended.clone() {
                let got = exit.snapshot();
                let Ok(pid) = started else {
                    check(got.len() == 1 && got[0].1 == reason, "supervisor-exit", || json!({"got": format!("{got:?}"), "history": trace.snapshot()}));
                    break;
                };
                check(!Process::alive(pid) && got == vec![(pid, reason.clone())], "supervisor-exit", || {
                    json!({"alive": Process::alive(pid), "got": format!("{got:?}"), "expected": format!("{reason:?}"), "history": trace.snapshot()})
                });
                let orphans: Vec<String> = world.pids.lock().unwrap().iter().filter(|(_, p)| Process::alive(**p)).map(|(k, _)| format!("{k:?}")).collect();
                check(orphans.is_empty(), "orphans", || json!({"orphans": orphans, "history": trace.snapshot()}));
                cover(&("ended", reason_str(&reason), rounds));
                break;
            }
            let sup = *started.as_ref().unwrap();
            check(Process::alive(sup) && exit.is_empty(), "supervisor-died", || {
                json!({"exit": format!("{:?}", exit.snapshot()), "history": trace.snapshot()})
            });
            for req in [Req::Which, Req::Count] {
                let k = model.request(req.clone());
                model.settle();
                let want = model.answers[k].clone().unwrap();
                let w = world.clone();
                let got = in_process(ask(w, sup, req)).await;
                check(got.as_ref() == Some(&want), "supervisor-listing", || {
                    json!({"got": format!("{got:?}"), "expected": format!("{want:?}"), "history": trace.snapshot()})
                });
            }
            let alive: Vec<_> = model.running();
            for k in &alive {
                check(world.pid(&k.0, k.1).is_some_and(Process::alive), "child-not-alive", || json!({"child": format!("{k:?}"), "history": trace.snapshot()}));
            }
            if round == rounds {
                break;
            }
            // Next step.
            let ids = model.ids();
            let gen = |rng: &mut Rng, fresh: &mut u64| {
                if rng.below(focus.crash + focus.request) < focus.crash {
                    crash(rng)
                } else {
                    Item::Req(request(rng, &ids, fresh, &focus))
                }
            };
            if rng.chance(1, 24) {
                trace.push("parent shuts it down".into());
                shutdown_now.notify_one();
                model.shut_down(ExitReason::from("shutdown"));
                tokio::time::sleep(Duration::from_secs(60)).await;
                continue;
            }
            if focus.fail > 0 && rng.bool() {
                for id in ids.iter().chain([&format!("x{}", fresh + 1)]) {
                    if rng.bool() {
                        let f = failures(rng, &focus);
                        trace.push(format!("{id} will {:?}", f.iter().map(|a| format!("{:?}{}", a.outcome, if a.gated { " gated" } else { "" })).collect::<Vec<_>>()));
                        world.script.lock().unwrap().insert(id.clone(), f.clone());
                        model.script.insert(id.clone(), f);
                    }
                }
            }
            let first = gen(rng, &mut fresh);
            let inject: Vec<Item> = (0..rng.below(5)).map(|_| gen(rng, &mut fresh)).collect();
            trace.push(format!("{first:?}, and when gated {inject:?}"));
            let results: Log<(usize, Answer)> = Log::new();
            let base = model.answers.len();
            let mut plan = Plan { world: world.clone(), sup, results: results.clone(), next: base };
            plan.send(&first, &model.running()).await;
            model.targets.clear();
            model.inject = inject.clone();
            model.apply(first);
            model.settle();
            model.inject.clear();
            let asked = model.answers.len() - base;
            let mut pending = Some(inject);
            loop {
                tokio::select! {
                    _ = world.entered.notified() => {}
                    _ = tokio::time::sleep(Duration::from_secs(20)) => {}
                }
                if !world.waiting.swap(false, Ordering::SeqCst) {
                    break;
                }
                if let Some(items) = pending.take() {
                    for (item, targets) in items.iter().zip(&model.targets) {
                        plan.send(item, targets).await;
                        quiesce().await;
                    }
                    cover(&("gated", format!("{:?}", settings.strategy), items.len()));
                }
                world.gate.notify_one();
            }
            let got = results.snapshot();
            for k in base..base + asked {
                let want = model.answers[k].clone();
                let real = got.iter().find(|(i, _)| *i == k).map(|(_, a)| a.clone());
                let same = match (&want, &real) {
                    (Some(Answer::Down(_)), Some(Answer::Down(_))) => true,
                    (w, r) => w == r,
                };
                check(same, "supervisor-answer", || {
                    json!({"got": format!("{real:?}"), "expected": format!("{want:?}"), "request": k - base, "history": trace.snapshot()})
                });
                if let Some(w) = &want {
                    cover(&("answer", std::mem::discriminant(w), match w { Answer::Error(s) => s.clone(), _ => String::new() }, format!("{:?}", settings.strategy)));
                }
            }
        }
        count("restarts", model.restarted);
        count("model_events", model.events.len() as u64);
        let sig: Vec<_> = model.events.iter().map(|(e, _)| match e {
            Ev::Attempt(i, n) => (i.clone(), *n, true),
            Ev::Stopped(i, n) => (i.clone(), *n, false),
        }).collect();
        cover(&hash_of(&sig));
        // Tear down: a killed supervisor takes ordinary children along; the rest is killed here.
        if let Ok(pid) = started {
            kill(pid);
        }
        kill(parent);
        quiesce().await;
        for p in world.pids.lock().unwrap().values() {
            if Process::alive(*p) {
                kill(*p);
            }
        }
        quiesce().await;
    });
    sample("history", || json!(steps.snapshot()));
    evaluated(1);
}

/// Sends items to the real children and supervisor.
struct Plan {
    world: Arc<World>,
    sup: Pid,
    results: Log<(usize, Answer)>,
    next: usize,
}

impl Plan {
    async fn send(&mut self, item: &Item, running: &[(String, u64)]) {
        match item {
            Item::Crash(which, cmd) => {
                if running.is_empty() {
                    return;
                }
                let (id, n) = &running[*which as usize % running.len()];
                if let Some(pid) = self.world.pid(id, *n) {
                    Process::send(pid, cmd.clone());
                }
            }
            Item::Kill(which) => {
                if running.is_empty() {
                    return;
                }
                let (id, n) = &running[*which as usize % running.len()];
                if let Some(pid) = self.world.pid(id, *n) {
                    kill(pid);
                }
            }
            Item::Req(req) => {
                let k = self.next;
                self.next += 1;
                let (world, sup, req, results) = (self.world.clone(), self.sup, req.clone(), self.results.clone());
                Process::spawn(async move {
                    let a = ask(world, sup, req).await;
                    results.push((k, a));
                });
            }
        }
    }
}

fn render(events: &[(Ev, u64)]) -> Vec<String> {
    events.iter().map(|e| format!("{e:?}")).collect()
}

/// The first difference, from position `seen` on. Times are compared relative to the first event.
fn compare(got: &[(Ev, u64)], want: &[(Ev, u64)], seen: usize) -> Option<String> {
    if got.len() != want.len() {
        return Some(format!("{} events, expected {}", got.len(), want.len()));
    }
    for i in seen..got.len() {
        if got[i].0 != want[i].0 {
            return Some(format!("event {i}: {:?}, expected {:?}", got[i].0, want[i].0));
        }
        if i > seen {
            let (a, b) = (got[i].1 - got[i - 1].1, want[i].1 - want[i - 1].1);
            // Gated starts let time pass that the model does not know of: only stops are timed.
            if let (Ev::Stopped(..), Ev::Stopped(..)) = (&got[i].0, &got[i - 1].0) {
                if a < b.saturating_sub(1) || a > b + 12 {
                    return Some(format!("event {i} took {a} ms, expected {b} ms"));
                }
            }
        }
    }
    None
}
