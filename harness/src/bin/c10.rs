//! C10: generic servers: order, exactly once handling, call matching, start and stop outcomes.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use hv::*;
use hydra::*;
use serde::{Deserialize, Serialize};

static EPISODE: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum How {
    Now,
    /// Reply when the next `Flush` is handled.
    Later,
    /// Another process replies.
    Elsewhere(u64),
    Never,
    /// The handler takes its time.
    Slow(u64),
    Fail(String),
    Panic(String),
    KillSelf,
    ExitSelf(String),
    Flush,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum M {
    Work { client: u64, seq: u64, how: How, pad: String },
    Reply { client: u64, seq: u64, pad: String },
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Ev {
    Init,
    InitDone,
    Cast(u64, u64),
    Call(u64, u64),
    Info(String),
    Terminate(ExitReason),
    Overlap,
}

#[derive(Clone)]
enum Start {
    Ok,
    Err(ExitReason),
    Slow(Duration),
    Panic,
    Killed,
    Forever,
}

struct Srv {
    log: Log<Ev>,
    start: Start,
    trap: bool,
    busy: Arc<AtomicBool>,
    later: Vec<(hydra::From, M)>,
    terminate_takes: u64,
}

impl Srv {
    fn new(log: &Log<Ev>) -> Self {
        Srv { log: log.clone(), start: Start::Ok, trap: false, busy: Default::default(), later: Vec::new(), terminate_takes: 0 }
    }
    fn enter(&self) {
        if self.busy.swap(true, Ordering::SeqCst) {
            self.log.push(Ev::Overlap);
        }
    }
    fn leave(&self) {
        self.busy.store(false, Ordering::SeqCst);
    }
    async fn act(&mut self, how: &How) -> Result<(), ExitReason> {
        match how {
            How::Slow(ms) => {
                Process::sleep(Duration::from_millis(*ms)).await;
                Ok(())
            }
            How::Fail(s) => Err(if s == "normal" { ExitReason::Normal } else { ExitReason::from(s.clone()) }),
            How::Panic(s) => expected_panic(s),
            How::KillSelf => {
                Process::exit(Process::current(), ExitReason::Kill);
                forever().await;
                Ok(())
            }
            How::ExitSelf(s) => {
                Process::exit(Process::current(), s.clone());
                forever().await;
                Ok(())
            }
            How::Flush => {
                for (from, m) in self.later.drain(..) {
                    Srv::reply(from, m);
                }
                Ok(())
            }
            _ => {
                tokio::task::yield_now().await;
                Ok(())
            }
        }
    }
}

/// Who is making which call.
static CALLERS: std::sync::Mutex<std::collections::BTreeMap<(u64, u64), Pid>> = std::sync::Mutex::new(std::collections::BTreeMap::new());

impl GenServer for Srv {
    type Message = M;

    async fn init(&mut self) -> Result<(), ExitReason> {
        self.log.push(Ev::Init);
        if self.trap {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
        }
        match self.start.clone() {
            Start::Ok => {}
            Start::Err(r) => return Err(r),
            Start::Slow(d) => Process::sleep(d).await,
            Start::Panic => expected_panic("init"),
            Start::Killed => {
                Process::exit(Process::current(), ExitReason::Kill);
                forever().await;
            }
            Start::Forever => forever().await,
        }
        self.log.push(Ev::InitDone);
        Ok(())
    }

    async fn terminate(&mut self, reason: ExitReason) {
        self.enter();
        self.log.push(Ev::Terminate(reason));
        if self.terminate_takes > 0 {
            Process::sleep(Duration::from_millis(self.terminate_takes)).await;
        }
        self.leave();
    }

    async fn handle_cast(&mut self, message: M) -> Result<(), ExitReason> {
        self.enter();
        let M::Work { client, seq, how, .. } = message else { panic!("reply as cast") };
        self.log.push(Ev::Cast(client, seq));
        let r = self.act(&how).await;
        self.leave();
        r
    }

    async fn handle_info(&mut self, info: Message<M>) -> Result<(), ExitReason> {
        self.enter();
        self.log.push(Ev::Info(format!("{info:?}")));
        self.leave();
        if let Message::System(SystemMessage::Exit(_, ExitReason::Custom(s))) = &info {
            if s == "info-fails" {
                return Err(ExitReason::from("because of info"));
            }
        }
        Ok(())
    }

    async fn handle_call(&mut self, message: M, from: hydra::From) -> Result<Option<M>, ExitReason> {
        self.enter();
        let M::Work { client, seq, how, pad } = message else { panic!("reply as call") };
        if let Some(pid) = CALLERS.lock().unwrap().get(&(client, seq)) {
            check(from.pid() == *pid, "wrong-caller", || json!({"from": format!("{from:?}"), "caller": format!("{pid:?}")}));
        }
        self.log.push(Ev::Call(client, seq));
        let reply = M::Reply { client, seq, pad };
        let r = self.act(&how).await;
        self.leave();
        r?;
        Ok(match how {
            How::Later => {
                self.later.push((from, reply));
                None
            }
            How::Elsewhere(ms) => {
                Process::spawn(async move {
                    if ms > 0 {
                        Process::sleep(Duration::from_millis(ms)).await;
                    }
                    // Whom to answer can be handed on in any form.
                    let copy: Option<hydra::From> = if ms % 2 == 0 {
                        rmp_serde::to_vec(&from).ok().and_then(|b| rmp_serde::from_slice(&b).ok())
                    } else {
                        serde_json::to_vec(&from).ok().and_then(|b| serde_json::from_slice(&b).ok())
                    };
                    let copy = copy.unwrap_or(from);
                    check(copy.pid() == from.pid() && copy.tag() == from.tag() && copy.is_alias() == from.is_alias(), "caller-changed", || {
                        json!({"from": format!("{from:?}"), "copy": format!("{copy:?}")})
                    });
                    Srv::reply(copy, reply);
                });
                None
            }
            How::Never => None,
            _ => Some(reply),
        })
    }
}

#[derive(Clone, Debug)]
enum Out {
    Reply(bool),
    Timeout,
    Down(ExitReason),
    /// Casts have no outcome.
    Cast(u64),
}

#[derive(Clone, Debug)]
struct Op {
    client: u64,
    seq: u64,
    how: How,
    limit_ms: u64,
    out: Out,
}

fn outcome(r: Result<M, CallError>, client: u64, seq: u64, pad: &str) -> Out {
    match r {
        Ok(m) => {
            let right = m == M::Reply { client, seq, pad: pad.to_string() };
            if !right {
                violation("call-wrong-reply", json!({"client": client, "seq": seq, "got": format!("{m:?}")}));
            }
            Out::Reply(right)
        }
        Err(CallError::Timeout(_)) => Out::Timeout,
        Err(CallError::ServerDown(r)) => Out::Down(r),
    }
}

const LONG: u64 = 30_000;

fn traffic(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let rt = runtime(&mut rng);
    chaos(&mut rng);
    let episode = EPISODE.fetch_add(1, Ordering::SeqCst);
    rt.block_on(async move {
        let log: Log<Ev> = Log::new();
        let name = format!("c10-{episode}");
        let srv = Srv::new(&log);
        let pid = srv.start(GenServerOptions::new().name(name.clone())).await.unwrap();
        let end: Arc<Mutex<Option<ExitReason>>> = Default::default();
        let end2 = end.clone();
        let ready = Arc::new(tokio::sync::Notify::new());
        let ready2 = ready.clone();
        let watcher = Process::spawn(async move {
            let _m = Process::monitor(pid);
            ready2.notify_one();
            if let Message::System(SystemMessage::ProcessDown(_, _, r)) = Process::receive::<()>().await {
                *end2.lock().unwrap() = Some(r);
            }
        });
        ready.notified().await;
        let clients = rng.range(1, 6);
        let deadly = rng.chance(2, 5);
        let stopper = if !deadly && rng.chance(1, 3) { Some(rng.below(clients)) } else { None };
        let ops: Log<Op> = Log::new();
        let mut done = Vec::new();
        for client in 0..clients {
            let mut rng = rng.fork();
            let (name, ops) = (name.clone(), ops.clone());
            let (tx, rx) = tokio::sync::oneshot::channel::<()>();
            done.push((client, rx));
            Process::spawn(async move {
                let n = rng.range(3, 25);
                let fatal_at = if deadly && client == 0 { Some(rng.below(n)) } else { None };
                let mut later = 0u32;
                // What else the client has to do with must not be taken for an answer, nor get lost.
                let mut watched: BTreeMap<String, ExitReason> = BTreeMap::new();
                let mut notes = 0u64;
                let busy_client = rng.bool();
                for seq in 0..n {
                    if busy_client && rng.bool() {
                        let (us, reason) = (rng.below(3000), ExitReason::from(format!("other{seq}")));
                        let other = Process::spawn(async move {
                            Process::sleep(Duration::from_micros(us)).await;
                            Process::exit(Process::current(), ExitReason::from(format!("other{seq}")));
                            forever().await;
                        });
                        watched.insert(format!("{:?}", Process::monitor(other)), reason);
                    }
                    if busy_client && rng.chance(1, 4) {
                        Process::send(Process::current(), notes);
                        notes += 1;
                    }
                    let dest: Dest = if rng.bool() { pid.into() } else { name.clone().into() };
                    let pad = { let k = rng.usize(20); rng.string(k) };
                    let mut limit_ms = LONG;
                    let how = if fatal_at == Some(seq) {
                        match rng.below(5) {
                            0 => How::Fail("oops".into()),
                            1 => How::Panic("oops".into()),
                            2 => How::KillSelf,
                            3 => How::ExitSelf("left".into()),
                            _ => How::Fail("normal".into()),
                        }
                    } else {
                        match rng.below(12) {
                            0 => How::Never,
                            1 => How::Elsewhere(rng.below(4)),
                            2 => How::Elsewhere(0),
                            3 => How::Slow(rng.below(3)),
                            4 => {
                                later += 1;
                                How::Later
                            }
                            _ => How::Now,
                        }
                    };
                    let cast = rng.chance(2, 5) && !matches!(how, How::Later | How::Never | How::Elsewhere(_));
                    if cast {
                        let m = M::Work { client, seq, how: how.clone(), pad };
                        let entries = match rng.below(8) {
                            0 => {
                                Srv::cast(vec![Dest::from(pid), Dest::from(name.clone())], m);
                                2
                            }
                            1 => {
                                Srv::cast(vec![Dest::from(pid), Dest::from(format!("{name}-nobody"))], m);
                                1
                            }
                            _ => {
                                Srv::cast(dest, m);
                                1
                            }
                        };
                        ops.push(Op { client, seq, how, limit_ms: 0, out: Out::Cast(entries) });
                        continue;
                    }
                    match how {
                        How::Never => limit_ms = rng.range(0, 3),
                        How::Elsewhere(ms) if rng.bool() => limit_ms = rng.range(0, ms + 1),
                        How::Slow(ms) if rng.bool() => limit_ms = rng.range(0, ms + 1),
                        How::Now if rng.chance(1, 8) => limit_ms = 0,
                        How::Later => limit_ms = rng.range(1, 3),
                        _ => {}
                    }
                    // Another process flushes deferred replies, at about the time of the limit or well within it.
                    if how == How::Later {
                        let after = rng.below(4);
                        if rng.bool() {
                            limit_ms = LONG;
                        }
                        // A number of its own: flushes are not part of this client's order.
                        Process::spawn(async move {
                            let flush = || M::Work { client: 1000 + client, seq: 0, how: How::Flush, pad: String::new() };
                            for _ in 0..200 {
                                Process::sleep(Duration::from_millis(after + 1)).await;
                                Srv::cast(pid, flush());
                            }
                        });
                    }
                    let limit = if limit_ms == LONG && rng.chance(1, 8) && !matches!(how, How::Later) {
                        // The default limit is five seconds: never reached by a working server.
                        None
                    } else {
                        Some(Duration::from_millis(limit_ms))
                    };
                    CALLERS.lock().unwrap().insert((client, seq), Process::current());
                    let r = Srv::call(dest, M::Work { client, seq, how: how.clone(), pad: pad.clone() }, limit).await;
                    CALLERS.lock().unwrap().remove(&(client, seq));
                    let out = outcome(r, client, seq, &pad);
                    cover(&(how.clone(), limit_ms.min(10), std::mem::discriminant(&out)));
                    ops.push(Op { client, seq, how, limit_ms: limit.map_or(5000, |_| limit_ms), out });
                }
                let _ = later;
                if stopper == Some(client) {
                    let r = Srv::stop(pid, ExitReason::from("stopped"), None).await;
                    check(r.is_ok() , "stop-result", || json!({"result": format!("{r:?}")}));
                }
                let detail = |got: String| json!({"client": client, "got": got, "watched": format!("{watched:?}"), "notes": notes});
                let (mut seen, mut next) = (BTreeMap::new(), 0u64);
                for _ in 0..watched.len() as u64 + notes {
                    match Process::timeout(Duration::from_secs(30), Process::receive::<u64>()).await {
                        Ok(Message::User(k)) => {
                            check(k == next, "call-disturbs-messages", || detail(format!("note {k} instead of {next}")));
                            next += 1;
                        }
                        Ok(Message::System(SystemMessage::ProcessDown(_, m, r))) => {
                            seen.insert(format!("{m:?}"), r);
                        }
                        other => {
                            violation("call-takes-messages", detail(format!("{other:?} after {seen:?} and {next} notes")));
                            break;
                        }
                    }
                }
                check(seen == watched, "call-takes-messages", || detail(format!("{seen:?}")));
                count("other messages kept", seen.len() as u64 + next);
                nothing_left("leftover-of-a-call").await;
                tx.send(()).ok();
            });
        }
        for (client, rx) in done {
            check(rx.await.is_ok(), "client-died", || json!({"client": client, "log": format!("{:?}", log.snapshot())}));
        }
        if deadly || stopper.is_some() {
            let ok = eventually(|| end.lock().unwrap().is_some()).await;
            check(ok, "server-did-not-end", || json!({"log": format!("{:?}", log.snapshot())}));
        } else {
            // Everything cast has been handled once a last call has been answered.
            let r = in_process(Srv::call(pid, M::Work { client: 999, seq: 0, how: How::Now, pad: String::new() }, Some(Duration::from_millis(LONG)))).await;
            check(matches!(r, Some(Ok(_))), "server-lost", || json!({"result": format!("{r:?}"), "log": format!("{:?}", log.snapshot())}));
            // Casts of other clients were sent before, too; all of them precede that call.
        }
        chaos_off();
        let end = end.lock().unwrap().clone();
        judge(&log.snapshot(), &ops.snapshot(), end, stopper, clients);
        kill(pid);
        kill(watcher);
    });
    rt.shutdown_background();
    evaluated(1);
}

fn judge(log: &[Ev], ops: &[Op], end: Option<ExitReason>, stopper: Option<u64>, clients: u64) {
    let detail = || json!({"log": format!("{log:?}"), "operations": format!("{ops:?}"), "end": format!("{end:?}")});
    let mut handled: BTreeMap<(u64, u64), u64> = BTreeMap::new();
    let mut last: BTreeMap<u64, u64> = BTreeMap::new();
    let mut terminated = false;
    check(log.first() == Some(&Ev::Init) && log.get(1) == Some(&Ev::InitDone), "handled-before-init", detail);
    for ev in &log[2.min(log.len())..] {
        if let Ev::Cast(c, _) | Ev::Call(c, _) = ev {
            if *c >= 999 {
                continue;
            }
        }
        check(!terminated, "handled-after-terminate", detail);
        match ev {
            Ev::Init | Ev::InitDone => violation("init-twice", detail()),
            Ev::Overlap => violation("handlers-overlap", detail()),
            Ev::Cast(c, s) | Ev::Call(c, s) => {
                *handled.entry((*c, *s)).or_default() += 1;
                let before = last.insert(*c, *s);
                check(before.is_none_or(|b| b <= *s), "handled-out-of-order", detail);
            }
            Ev::Terminate(_) => terminated = true,
            Ev::Info(_) => {
                violation("unexpected-info", detail());
            }
        }
    }
    let fatal = ops.iter().find(|o| matches!(o.how, How::Fail(_) | How::Panic(_) | How::KillSelf | How::ExitSelf(_)));
    let reason = match fatal.map(|o| &o.how) {
        Some(How::Fail(s)) if s == "normal" => Some(ExitReason::Normal),
        Some(How::Fail(s)) | Some(How::ExitSelf(s)) => Some(ExitReason::from(s.clone())),
        Some(How::Panic(s)) => Some(ExitReason::from(format!("[expected]{s}"))),
        Some(How::KillSelf) => Some(ExitReason::Kill),
        _ => stopper.map(|_| ExitReason::from("stopped")),
    };
    check(end == reason, "server-end-reason", || json!({"expected": format!("{reason:?}"), "case": detail()}));
    let terminates: Vec<_> = log.iter().filter_map(|e| if let Ev::Terminate(r) = e { Some(r.clone()) } else { None }).collect();
    let expected: Vec<ExitReason> = match fatal.map(|o| &o.how) {
        Some(How::Fail(_)) => vec![reason.clone().unwrap()],
        Some(_) => vec![],
        None => reason.iter().cloned().collect(),
    };
    check(terminates == expected, "terminate-calls", detail);
    for op in ops {
        let n = handled.get(&(op.client, op.seq)).copied().unwrap_or(0);
        let entries = if let Out::Cast(n) = op.out { n } else { 1 };
        check(n <= entries, "handled-twice", || json!({"operation": format!("{op:?}"), "case": detail()}));
        // Its own earlier messages precede the stop a client sends.
        let must = reason.is_none() || stopper == Some(op.client);
        if must {
            let killed_by_list = false;
            check(n == entries || killed_by_list, "message-lost", || json!({"operation": format!("{op:?}"), "case": detail()}));
        }
        match &op.out {
            Out::Cast(_) => {}
            Out::Reply(_) => {
                check(n == 1, "reply-without-handling", || json!({"operation": format!("{op:?}"), "case": detail()}));
                check(!matches!(op.how, How::Never | How::Fail(_) | How::Panic(_) | How::KillSelf | How::ExitSelf(_)),
                    "reply-never-given", || json!({"operation": format!("{op:?}"), "case": detail()}));
            }
            Out::Timeout => {
                check(op.limit_ms < 5000, "call-blocked", || json!({"operation": format!("{op:?}"), "case": detail()}));
            }
            Out::Down(r) => {
                check(reason.is_some() && (Some(r) == reason.as_ref() || *r == "noproc"), "call-down-reason", || {
                    json!({"operation": format!("{op:?}"), "case": detail()})
                });
                if *r == "noproc" {
                    check(n == 0, "noproc-but-handled", || json!({"operation": format!("{op:?}"), "case": detail()}));
                }
            }
        }
        // A call that ends the server must say so.
        if matches!(op.how, How::Fail(_) | How::Panic(_) | How::KillSelf | How::ExitSelf(_)) && op.limit_ms >= 5000 {
            check(matches!(&op.out, Out::Down(r) if Some(r) == reason.as_ref()), "fatal-call-outcome", || {
                json!({"operation": format!("{op:?}"), "case": detail()})
            });
        }
    }
    count("operations", ops.len() as u64);
    count("handled", handled.values().sum());
    cover(&("mix", clients, end.is_some(), hash_of(&log.iter().map(|e| match e {
        Ev::Cast(c, _) => (0, *c),
        Ev::Call(c, _) => (1, *c),
        _ => (2, 0),
    }).collect::<Vec<_>>())));
    sample("traffic", detail);
}

/// Outcomes of starting a server, in every way, by unlinked, linked and trapping parents.
fn startup(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let rt = runtime(&mut rng);
    chaos(&mut rng);
    rt.block_on(async {
        for _ in 0..6 {
            let episode = EPISODE.fetch_add(1, Ordering::SeqCst);
            let log: Log<Ev> = Log::new();
            let limit = match rng.below(3) {
                0 => None,
                1 => Some(Duration::from_millis(rng.range(20, 40))),
                _ => Some(Duration::from_secs(30)),
            };
            let start = match rng.below(8) {
                0 | 1 => Start::Ok,
                2 => Start::Err(random_reason(&mut rng)),
                3 => Start::Err(ExitReason::Ignore),
                4 => Start::Panic,
                5 => Start::Killed,
                6 if limit == Some(Duration::from_secs(30)) => Start::Slow(Duration::from_millis(3)),
                _ if limit.is_some_and(|l| l < Duration::from_secs(1)) => Start::Forever,
                _ => Start::Slow(Duration::from_millis(rng.below(3))),
            };
            // A short limit only for starts that never finish or fail at once.
            let limit = match (&start, limit) {
                (Start::Forever, l) => l,
                (_, Some(l)) if l < Duration::from_secs(1) => Some(Duration::from_secs(30)),
                (_, l) => l,
            };
            let named = rng.chance(1, 2);
            let name = format!("c10-start-{episode}");
            let mut taken = named && rng.chance(1, 3);
            let holder = if taken {
                let h = Process::spawn(forever());
                Process::register(h, name.clone()).unwrap();
                Some(h)
            } else {
                None
            };
            let link = rng.bool();
            let trap_parent = rng.chance(2, 3);
            let trap = rng.bool();
            let mut srv = Srv::new(&log);
            srv.start = start.clone();
            srv.trap = trap;
            let mut options = GenServerOptions::new();
            if named {
                options = options.name(name.clone());
            }
            if let Some(l) = limit {
                options = options.timeout(l);
            }
            let before: BTreeSet<String> = Process::list().iter().map(|p| format!("{p:?}")).collect();
            // Two starters at once for the same name: one wins.
            let rival = named && !taken && matches!(start, Start::Ok) && rng.bool();
            let rival_result = if rival {
                let mut second = Srv::new(&log);
                second.trap = trap;
                let options = options.clone();
                let (tx, rx) = tokio::sync::oneshot::channel();
                Process::spawn(async move {
                    tx.send(second.start(options).await).ok();
                });
                Some(rx)
            } else {
                None
            };
            let (tx, rx) = tokio::sync::oneshot::channel();
            let parent_log: Log<(Pid, ExitReason)> = Log::new();
            let parent_log2 = parent_log.clone();
            let gone = Arc::new(AtomicBool::new(false));
            struct Gone(Arc<AtomicBool>);
            impl Drop for Gone {
                fn drop(&mut self) {
                    self.0.store(true, Ordering::SeqCst);
                }
            }
            let guard = Gone(gone.clone());
            let parent = Process::spawn(async move {
                let _guard = guard;
                if trap_parent {
                    Process::set_flags(ProcessFlags::TRAP_EXIT);
                }
                let r = if link { srv.start_link(options).await } else { srv.start(options).await };
                tx.send(r).ok();
                loop {
                    if let Message::System(SystemMessage::Exit(p, r)) = Process::receive::<()>().await {
                        parent_log2.push((p, r));
                    }
                }
            });
            let result = rx.await.ok();
            let mut survivors = 0;
            if let Some(rx) = rival_result {
                let second = rx.await.unwrap();
                let wins = [result.as_ref().is_some_and(|r| r.is_ok()), second.is_ok()];
                check(wins[0] != wins[1] || result.is_none(), "rival-starts", || json!({"results": format!("{result:?} {second:?}")}));
                if let Ok(p) = &second {
                    survivors += 1;
                    taken = true;
                    check(Process::whereis(&name) == Some(*p), "rival-name", || json!(null));
                    kill(*p);
                } else {
                    check(matches!(&second, Err(r) if *r == "already_started"), "rival-error", || json!({"result": format!("{second:?}")}));
                }
            }
            let expected: Result<(), ExitReason> = if taken {
                Err(ExitReason::from("already_started"))
            } else {
                match &start {
                    Start::Ok | Start::Slow(_) => Ok(()),
                    Start::Err(r) => Err(r.clone()),
                    Start::Panic | Start::Killed => Err(ExitReason::from("unknown")),
                    Start::Forever => Err(ExitReason::from("timeout")),
                }
            };
            // The reason the server itself ends with.
            let dies_with = if taken {
                Some(ExitReason::Normal)
            } else {
                match &start {
                    Start::Ok | Start::Slow(_) => None,
                    Start::Err(r) => Some(r.clone()),
                    Start::Panic => Some(ExitReason::from("[expected]init")),
                    Start::Killed => Some(ExitReason::Kill),
                    Start::Forever => Some(ExitReason::from("timeout")),
                }
            };
            let kind = match &start {
                Start::Ok => "ok",
                Start::Err(_) => "err",
                Start::Slow(_) => "slow",
                Start::Panic => "panic",
                Start::Killed => "killed",
                Start::Forever => "forever",
            };
            let detail = || {
                json!({"start": kind, "limit": format!("{limit:?}"), "named": named, "taken": taken, "link": link, "rival": rival,
                       "trapping parent": trap_parent, "trapping server": trap, "result": format!("{result:?}"),
                       "expected": format!("{expected:?}"), "log": format!("{:?}", log.snapshot())})
            };
            let parent_dies = link && !trap_parent && dies_with.as_ref().is_some_and(|r| !r.is_normal());
            match &result {
                Some(r) => {
                    check(r.as_ref().map(|_| ()).map_err(|e| e.clone()) == expected, "start-result", detail);
                }
                // A linked parent may be gone before it learns.
                None => {
                    check(parent_dies, "starter-died", detail);
                }
            }
            if let Some(Ok(pid)) = &result {
                let pid = *pid;
                check(Process::alive(pid), "started-but-dead", detail);
                check(log.any(|e| *e == Ev::InitDone), "started-before-init", detail);
                if named {
                    check(Process::whereis(&name) == Some(pid), "started-without-name", detail);
                }
                let answer = in_process(Srv::call(pid, M::Work { client: 1, seq: 1, how: How::Now, pad: String::new() }, None)).await;
                check(matches!(answer, Some(Ok(_))), "started-but-silent", detail);
                // A linked parent's death takes the server along, an unlinked one's does not.
                Process::spawn(async move { Process::exit(parent, ExitReason::Kill) });
                check(eventually(|| !Process::alive(parent)).await, "parent-stays", detail);
                if link {
                    check(eventually(|| !Process::alive(pid)).await, "linked-server-survives", detail);
                    if trap {
                        check(log.any(|e| *e == Ev::Terminate(ExitReason::Kill)), "parent-exit-without-terminate", detail);
                    }
                } else {
                    for _ in 0..20 {
                        tokio::task::yield_now().await;
                    }
                    check(Process::alive(pid), "unlinked-server-dies", detail);
                    Process::spawn(async move { Process::exit(pid, ExitReason::Kill) });
                }
                check(eventually(|| !Process::alive(pid)).await, "server-stays", detail);
            } else {
                let _ = survivors;
                if link && trap_parent {
                    let ok = eventually(|| !parent_log.is_empty()).await;
                    let got = parent_log.snapshot();
                    check(ok && got.len() == 1 && Some(&got[0].1) == dies_with.as_ref(), "start-link-signal", || {
                        json!({"got": format!("{got:?}"), "case": detail()})
                    });
                }
                if parent_dies {
                    check(eventually(|| !Process::alive(parent)).await, "failed-link-parent-survives", detail);
                } else {
                    check(Process::alive(parent), "starter-gone", detail);
                }
            }
            check(log.count(|e| **e == Ev::Init) <= if rival { 2 } else { 1 }, "init-twice", detail);
            check(taken || log.any(|e| *e == Ev::Init), "init-never", detail);
            kill(parent);
            if let Some(h) = holder {
                check(Process::whereis(&name) == Some(h), "name-stolen", detail);
                kill(h);
            }
            // Nothing is left running and no name is left behind.
            let clean = eventually(|| Process::list().iter().all(|p| before.contains(&format!("{p:?}")) || !Process::alive(*p))).await;
            check(clean, "start-leaves-process", || json!({"case": detail()}));
            check(eventually(|| !Process::registered().contains(&name)).await, "start-leaves-name", detail);
            cover(&("start", kind, named, taken, link, trap_parent, trap, limit.is_some(), rival));
            evaluated(1);
        }
    });
    rt.shutdown_background();
}

/// Ways to stop, with calls pending and several stoppers at once.
fn stopping(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let rt = runtime(&mut rng);
    chaos(&mut rng);
    rt.block_on(async {
        for _ in 0..4 {
            let log: Log<Ev> = Log::new();
            let mut srv = Srv::new(&log);
            srv.trap = rng.bool();
            srv.terminate_takes = if rng.chance(1, 3) { 2 } else { 0 };
            let trap = srv.trap;
            let link = rng.bool();
            let ptx = Arc::new(tokio::sync::Notify::new());
            let ptx2 = ptx.clone();
            let (tx, rx) = tokio::sync::oneshot::channel();
            let parent = Process::spawn(async move {
                Process::set_flags(ProcessFlags::TRAP_EXIT);
                let r = if link { srv.start_link(GenServerOptions::new()).await } else { srv.start(GenServerOptions::new()).await };
                let pid = r.unwrap();
                tx.send(pid).unwrap();
                ptx2.notified().await;
                Process::exit(pid, ExitReason::from("from-parent"));
                forever().await;
            });
            let pid = rx.await.unwrap();
            // Watcher.
            let downs: Log<ExitReason> = Log::new();
            let downs2 = downs.clone();
            let watch = Arc::new(tokio::sync::Notify::new());
            let watch2 = watch.clone();
            Process::spawn(async move {
                let _m = Process::monitor(pid);
                watch2.notify_one();
                if let Message::System(SystemMessage::ProcessDown(_, _, r)) = Process::receive::<()>().await {
                    downs2.push(r);
                }
            });
            watch.notified().await;
            // Calls that are never answered: they must end with the server.
            let pending = rng.below(4);
            let ends: Log<(u64, Out)> = Log::new();
            for c in 0..pending {
                let ends = ends.clone();
                Process::spawn(async move {
                    let r = Srv::call(pid, M::Work { client: c, seq: 0, how: How::Never, pad: String::new() }, Some(Duration::from_millis(LONG))).await;
                    ends.push((c, outcome(r, c, 0, "")));
                });
            }
            let handled = rng.bool();
            if handled {
                check(eventually(|| log.count(|e| matches!(e, Ev::Call(..))) as u64 == pending).await, "call-not-handled", || json!(null));
            }
            let way = rng.below(8);
            let mut results = Vec::new();
            let r = match rng.below(4) {
                0 => ExitReason::Normal,
                1 => ExitReason::Kill,
                2 => ExitReason::Ignore,
                _ => ExitReason::from(format!("why{}", rng.below(5))),
            };
            let stoppers = if way == 0 { 1 } else { rng.range(2, 4) };
            let mut allowed: Vec<ExitReason> = Vec::new();
            let mut terminates = true;
            match way {
                0 | 1 => {
                    for k in 0..stoppers {
                        let reason = if k == 0 { r.clone() } else { ExitReason::from(format!("s{k}")) };
                        allowed.push(reason.clone());
                        let limit = if rng.bool() { Some(Duration::from_millis(LONG)) } else { None };
                        let (tx, rx) = tokio::sync::oneshot::channel();
                        Process::spawn(async move {
                            tx.send((reason.clone(), Srv::stop(pid, reason, limit).await)).ok();
                        });
                        results.push(rx);
                    }
                }
                2 => {
                    // Only a parent that is linked, and a server that traps, get the orderly way.
                    ptx.notify_one();
                    terminates = link && trap;
                    if !terminates && trap {
                        // An unlinked process's exit signal is information for a trapping server.
                        allowed.clear();
                    } else {
                        allowed.push(ExitReason::from("from-parent"));
                    }
                }
                3 => {
                    allowed.push(ExitReason::Kill);
                    terminates = false;
                    Process::spawn(async move { Process::exit(pid, ExitReason::Kill) });
                }
                4 => {
                    allowed.push(ExitReason::from("cast-fails"));
                    Srv::cast(pid, M::Work { client: 9, seq: 9, how: How::Fail("cast-fails".into()), pad: String::new() });
                }
                5 => {
                    if trap {
                        allowed.push(ExitReason::from("because of info"));
                    } else {
                        allowed.push(ExitReason::from("info-fails"));
                        terminates = false;
                    }
                    Process::spawn(async move { Process::exit(pid, ExitReason::from("info-fails")) });
                }
                6 => {
                    if trap {
                        // Information only.
                    } else {
                        allowed.push(ExitReason::from("harmless"));
                        terminates = false;
                    }
                    Process::spawn(async move { Process::exit(pid, ExitReason::from("harmless")) });
                }
                _ => {
                    allowed.push(ExitReason::from("[expected]boom"));
                    terminates = false;
                    Srv::cast(pid, M::Work { client: 9, seq: 9, how: How::Panic("boom".into()), pad: String::new() });
                }
            }
            let detail = || {
                json!({"way": way, "trap": trap, "link": link, "pending": pending, "handled": handled,
                       "log": format!("{:?}", log.snapshot()), "ends": format!("{:?}", ends.snapshot()), "downs": format!("{:?}", downs.snapshot())})
            };
            if allowed.is_empty() {
                check(eventually(|| log.any(|e| matches!(e, Ev::Info(_)))).await, "info-lost", detail);
                check(Process::alive(pid), "trapping-server-dies", detail);
                check(log.count(|e| matches!(e, Ev::Info(_))) == 1, "info-twice", detail);
                // Now stop it.
                let s = in_process(Srv::stop(pid, ExitReason::from("end"), None)).await;
                check(matches!(s, Some(Ok(()))), "stop-result", detail);
                allowed.push(ExitReason::from("end"));
                terminates = true;
            }
            check(eventually(|| !downs.is_empty()).await, "server-did-not-end", detail);
            let actual = downs.snapshot().first().cloned().unwrap_or_default();
            check(allowed.contains(&actual), "stop-exit-reason", || json!({"allowed": format!("{allowed:?}"), "case": detail()}));
            let t: Vec<Ev> = log.snapshot().into_iter().filter(|e| matches!(e, Ev::Terminate(_))).collect();
            let expected = if terminates { vec![Ev::Terminate(actual.clone())] } else { vec![] };
            check(t == expected, "terminate-calls", || json!({"expected": format!("{expected:?}"), "case": detail()}));
            check(!log.any(|e| *e == Ev::Overlap), "handlers-overlap", detail);
            for rx in results {
                match rx.await {
                    Ok((wanted, got)) => {
                        let right = match &got {
                            Ok(()) => wanted == actual,
                            Err(r) => (*r == actual && wanted != actual) || *r == "noproc",
                        };
                        check(right, "stop-result", || json!({"wanted": format!("{wanted:?}"), "got": format!("{got:?}"), "case": detail()}));
                    }
                    Err(_) => violation("stopper-died", detail()),
                }
            }
            check(eventually(|| ends.len() as u64 == pending).await, "call-blocked", detail);
            for (_, out) in ends.snapshot() {
                check(matches!(&out, Out::Down(r) if *r == actual || (*r == "noproc" && !handled)), "pending-call-outcome", detail);
            }
            // A dead server.
            let late = in_process(Srv::call(pid, M::Work { client: 0, seq: 0, how: How::Now, pad: String::new() }, None)).await;
            check(matches!(&late, Some(Err(CallError::ServerDown(r))) if *r == "noproc"), "call-dead-server", || json!({"result": format!("{late:?}")}));
            let late = in_process(Srv::stop(pid, ExitReason::Normal, None)).await;
            check(matches!(&late, Some(Err(r)) if *r == "noproc"), "stop-dead-server", || json!({"result": format!("{late:?}")}));
            cover(&("stop", way, trap, link, pending.min(2), handled, reason_str(&actual)));
            sample("stop", detail);
            kill(parent);
            evaluated(1);
        }
    });
    rt.shutdown_background();
}

/// The mailbox of the current process holds nothing but what is sent to it.
async fn nothing_left(sig: &'static str) {
    Process::send(Process::current(), 7u64);
    let (tx, rx) = tokio::sync::oneshot::channel();
    let strict = std::panic::AssertUnwindSafe(async move {
        let first = Process::receive::<u64>().await;
        tx.send(match first {
            Message::User(7) => None,
            other => Some(format!("{other:?}")),
        })
        .ok();
    });
    let _ = futures_util::FutureExt::catch_unwind(strict).await;
    let found = rx.await.unwrap_or(Some("another message".into()));
    check(found.is_none(), sig, || json!({"found": found}));
    hv::count("mailboxes checked for leftovers", 1);
    evaluated(1);
}

/// Time limits of calls and stops, exactly, on virtual time.
fn limits(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    virtual_time(async {
        for _ in 0..8 {
            let log: Log<Ev> = Log::new();
            let mut srv = Srv::new(&log);
            srv.terminate_takes = *rng.pick(&[0, 50, 3000, 7000, 40_000, 20_000_000]);
            let takes = srv.terminate_takes;
            let pid = srv.start(GenServerOptions::new()).await.unwrap();
            let mut client_rng = rng.fork();
            let died = in_process(async move {
                let rng = &mut client_rng;
                for seq in 0..rng.range(1, 6) {
                    let limit = match rng.below(4) {
                        0 => None,
                        1 if rng.bool() => Some(rng.range(2, 30)),
                        1 => Some(rng.range(1 << 15, 1 << 23)),
                        2 => Some(rng.range(100, 9000)),
                        _ => Some(60_000),
                    };
                    let effective = limit.unwrap_or(5000);
                    let (how, answer_at) = match rng.below(5) {
                        0 => (How::Now, Some(0)),
                        1 => (How::Never, None),
                        2 => {
                            let d = if rng.chance(3, 4) { rng.range(1, 12_000) } else { rng.range(1, effective * 2) };
                            (How::Elsewhere(d), Some(d))
                        }
                        3 => {
                            // A reply that loses against the limit by very little.
                            (How::Elsewhere(effective + 10), Some(effective + 10))
                        }
                        _ => (How::Elsewhere(effective.saturating_sub(5).max(1)), Some(effective.saturating_sub(5).max(1))),
                    };
                    let t0 = tokio::time::Instant::now();
                    let r = Srv::call(pid, M::Work { client: 0, seq, how: how.clone(), pad: "x".into() }, limit.map(Duration::from_millis)).await;
                    let took = t0.elapsed().as_millis() as u64;
                    let out = outcome(r, 0, seq, "x");
                    let at = answer_at.filter(|a| *a < effective);
                    let clear = answer_at.is_none_or(|a| a.abs_diff(effective) > 2);
                    let detail = || json!({"how": format!("{how:?}"), "limit": limit, "took": took, "out": format!("{out:?}")});
                    if clear {
                        match at {
                            Some(a) => {
                                check(matches!(out, Out::Reply(true)), "call-in-time", detail);
                                check(took >= a && took <= a + 3, "call-reply-time", detail);
                            }
                            None => {
                                check(matches!(out, Out::Timeout), "call-timeout", detail);
                                check(took >= effective && took <= effective + 3, "call-timeout-time", detail);
                            }
                        }
                    }
                    cover(&("limit", limit.map(|l| l.min(50)), std::mem::discriminant(&out), std::mem::discriminant(&how)));
                    if rng.bool() {
                        Process::sleep(Duration::from_millis(rng.range(0, 13_000))).await;
                    }
                    evaluated(1);
                }
                if rng.bool() {
                    // A reply that comes too late is nobody's: the mailbox holds nothing but what is sent to it.
                    Process::sleep(Duration::from_millis(20_000_000)).await;
                    nothing_left("late-reply-received").await;
                }
                // The end of the server reaches a pending call at once.
                match rng.below(3) {
                    0 => {
                        let after = rng.range(1, 4000);
                        Process::spawn(async move {
                            Process::sleep(Duration::from_millis(after)).await;
                            Process::exit(pid, ExitReason::Kill);
                        });
                        let t0 = tokio::time::Instant::now();
                        let r = Srv::call(pid, M::Work { client: 0, seq: 99, how: How::Never, pad: String::new() }, None).await;
                        let took = t0.elapsed().as_millis() as u64;
                        check(matches!(&r, Err(CallError::ServerDown(ExitReason::Kill))) && took >= after && took <= after + 3, "call-down-time", || {
                            json!({"after": after, "took": took, "result": format!("{r:?}")})
                        });
                    }
                    _ => {
                        let limit = match rng.below(3) {
                            0 => None,
                            1 => Some(rng.range(1, 40)),
                            _ => Some(*rng.pick(&[10_000, 50_000, 30_000_000])),
                        };
                        let t0 = tokio::time::Instant::now();
                        let r = Srv::stop(pid, ExitReason::from("x"), limit.map(Duration::from_millis)).await;
                        let took = t0.elapsed().as_millis() as u64;
                        let detail = || json!({"takes": takes, "limit": limit, "took": took, "result": format!("{r:?}")});
                        if limit.is_none_or(|l| l > takes + 2) {
                            check(r.is_ok() && took >= takes && took <= takes + 4, "stop-time", detail);
                        } else if limit.is_some_and(|l| l + 3 < takes) {
                            check(matches!(&r, Err(r) if *r == "timeout") && took <= limit.unwrap() + 4, "stop-timeout", detail);
                        }
                    }
                }
                // Neither the replies nor the end of the server are of interest to anybody now.
                if rng.bool() {
                    Process::sleep(Duration::from_millis(40_000_000)).await;
                    nothing_left("leftover-of-a-call-or-stop").await;
                }
                // Delayed casts.
                let log2: Log<Ev> = Log::new();
                let second = Srv::new(&log2).start(GenServerOptions::new()).await.unwrap();
                let d = rng.range(1, 5000);
                let t = Srv::cast_after(second, M::Work { client: 5, seq: 5, how: How::Now, pad: String::new() }, Duration::from_millis(d));
                let t2 = Srv::cast_after(second, M::Work { client: 6, seq: 6, how: How::Now, pad: String::new() }, Duration::from_millis(d));
                Process::cancel_timer(t2);
                let _ = t;
                if d > 3 {
                    tokio::time::sleep(Duration::from_millis(d - 2)).await;
                    check(!log2.any(|e| matches!(e, Ev::Cast(..))), "cast-after-early", || json!({"after": d}));
                }
                tokio::time::sleep(Duration::from_millis(8)).await;
                check(log2.snapshot()[2..] == [Ev::Cast(5, 5)], "cast-after", || json!({"log": format!("{:?}", log2.snapshot())}));
                Process::exit(second, ExitReason::Kill);
            })
            .await;
            check(died.is_some(), "client-died", || json!(null));
            kill(pid);
            quiesce().await;
        }
    });
}

/// Replies, and the end of the server, at the very moment a call or a stop gives up: whichever wins, nothing is left
/// over in the mailbox of the caller, and what it is told is one of the two.
fn brink(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let rt = runtime_threads(*rng.pick(&[2usize, 4, 8]));
    chaos(&mut rng);
    let clients = rng.range(20, 120);
    let won = Arc::new(AtomicU64::new(0));
    let lost = Arc::new(AtomicU64::new(0));
    let (won2, lost2) = (won.clone(), lost.clone());
    rt.block_on(async move {
        let log: Log<Ev> = Log::new();
        let pid = Srv::new(&log).start(GenServerOptions::new()).await.unwrap();
        let mut done = Vec::new();
        for client in 0..clients {
            let (tx, rx) = tokio::sync::oneshot::channel::<()>();
            done.push(rx);
            let mut rng = rng.fork();
            let (won, lost, log) = (won2.clone(), lost2.clone(), log.clone());
            Process::spawn(async move {
                for seq in 0..rng.range(2, 6) {
                    let limit = rng.range(1, 25);
                    let stop = rng.chance(1, 5);
                    if stop {
                        let mut srv = Srv::new(&log);
                        srv.terminate_takes = limit;
                        let own = srv.start(GenServerOptions::new()).await.unwrap();
                        match Srv::stop(own, ExitReason::from("brink"), Some(Duration::from_millis(limit))).await {
                            Ok(()) => won.fetch_add(1, Ordering::SeqCst),
                            Err(r) => {
                                check(r == "timeout", "stop-result", || json!({"result": format!("{r:?}"), "limit": limit}));
                                lost.fetch_add(1, Ordering::SeqCst)
                            }
                        };
                    } else {
                        let work = M::Work { client, seq, how: How::Elsewhere(limit), pad: "b".into() };
                        match outcome(Srv::call(pid, work, Some(Duration::from_millis(limit))).await, client, seq, "b") {
                            Out::Reply(_) => won.fetch_add(1, Ordering::SeqCst),
                            Out::Timeout => lost.fetch_add(1, Ordering::SeqCst),
                            other => {
                                violation("live-server-down", json!({"outcome": format!("{other:?}")}));
                                0
                            }
                        };
                    }
                }
                // Long enough for whatever was on its way.
                Process::sleep(Duration::from_millis(60)).await;
                nothing_left("leftover-at-the-brink").await;
                tx.send(()).ok();
            });
        }
        for rx in done {
            check(rx.await.is_ok(), "client-died", || json!(null));
        }
        kill(pid);
    });
    chaos_off();
    rt.shutdown_background();
    let (won, lost) = (won.load(Ordering::SeqCst), lost.load(Ordering::SeqCst));
    count("brink: answered in time", won);
    count("brink: given up", lost);
    cover(&("brink", won * 10 / (won + lost).max(1), clients / 20));
    evaluated(won + lost);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tell {
    Link(Pid),
    Unlink(Pid),
    Monitor(Dest),
    Demonitor,
    Trap(bool),
    Ask,
    Heard(Vec<String>),
}

/// A server that keeps a list of what it was told.
struct Ear {
    trap: bool,
    heard: Vec<String>,
    monitors: Vec<Reference>,
    terminated: Log<ExitReason>,
}

impl GenServer for Ear {
    type Message = Tell;

    async fn init(&mut self) -> Result<(), ExitReason> {
        if self.trap {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
        }
        Ok(())
    }
    async fn terminate(&mut self, reason: ExitReason) {
        self.terminated.push(reason);
    }
    async fn handle_cast(&mut self, message: Tell) -> Result<(), ExitReason> {
        match message {
            Tell::Link(p) => Process::link(p),
            Tell::Unlink(p) => Process::unlink(p),
            Tell::Monitor(d) => self.monitors.push(Process::monitor(d)),
            Tell::Demonitor => {
                if let Some(m) = self.monitors.pop() {
                    Process::demonitor(m);
                }
            }
            Tell::Trap(t) => Process::set_flags(if t { ProcessFlags::TRAP_EXIT } else { ProcessFlags::empty() }),
            _ => {}
        }
        Ok(())
    }
    async fn handle_call(&mut self, _: Tell, _: hydra::From) -> Result<Option<Tell>, ExitReason> {
        Ok(Some(Tell::Heard(self.heard.clone())))
    }
    async fn handle_info(&mut self, info: Message<Tell>) -> Result<(), ExitReason> {
        self.heard.push(match info {
            Message::System(SystemMessage::Exit(p, r)) => format!("exit {p:?} {r:?}"),
            Message::System(SystemMessage::ProcessDown(d, m, r)) => {
                let k = self.monitors.iter().position(|x| *x == m);
                format!("down {d:?} {k:?} {r:?}")
            }
            other => format!("{other:?}"),
        });
        Ok(())
    }
}

/// What a server is told of: exits of those linked to it, signals, monitors; whatever their reasons are, only its own
/// parent's exit, or what ends any process, ends it.
fn told(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let episode = EPISODE.fetch_add(1, Ordering::SeqCst);
    virtual_time(async move {
        let terminated: Log<ExitReason> = Log::new();
        let done = in_process(async move {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            let link = rng.bool();
            let mut trap = rng.chance(3, 4);
            let ear = Ear { trap, heard: vec![], monitors: vec![], terminated: terminated.clone() };
            let options = if rng.bool() { GenServerOptions::new() } else { GenServerOptions::new().name(format!("c10-ear-{episode}")) };
            let pid = if link { ear.start_link(options).await.unwrap() } else { ear.start(options).await.unwrap() };
            let mut others: Vec<(Pid, bool)> = Vec::new(); // and whether linked
            let mut monitors: Vec<(usize, bool)> = Vec::new(); // of which one, by name
            let mut want: Vec<String> = Vec::new();
            let mut end: Option<(ExitReason, bool)> = None; // and whether it terminates
            let mut history: Vec<String> = Vec::new();
            let named = |k: usize| format!("c10-told-{episode}-{k}");
            for _ in 0..rng.range(5, 40) {
                if others.len() < 2 {
                    let p = Process::spawn(forever());
                    Process::register(p, format!("c10-told-{episode}-{}", others.len())).unwrap();
                    others.push((p, false));
                    continue;
                }
                let k = rng.usize(others.len());
                let alive = Process::alive(others[k].0);
                match rng.below(10) {
                    0 => {
                        let p = Process::spawn(forever());
                        Process::register(p, named(others.len())).unwrap();
                        others.push((p, false));
                    }
                    1 | 2 if alive => {
                        Ear::cast(pid, Tell::Link(others[k].0));
                        others[k].1 = true;
                        history.push(format!("links {k}"));
                    }
                    3 if alive => {
                        Ear::cast(pid, Tell::Unlink(others[k].0));
                        others[k].1 = false;
                        history.push(format!("unlinks {k}"));
                    }
                    4 | 5 if alive => {
                        let by_name = rng.bool();
                        Ear::cast(pid, Tell::Monitor(if by_name { named(k).into() } else { others[k].0.into() }));
                        monitors.push((k, by_name));
                        history.push(format!("monitors {k}"));
                    }
                    6 if !monitors.is_empty() => {
                        Ear::cast(pid, Tell::Demonitor);
                        monitors.pop();
                        history.push("demonitors".into());
                    }
                    7 if rng.chance(1, 3) => {
                        trap = !trap;
                        Ear::cast(pid, Tell::Trap(trap));
                        history.push(format!("traps {trap}"));
                    }
                    8 | 9 if alive => {
                        // One of them ends, for any reason.
                        let reason = random_reason(&mut rng);
                        let p = others[k].0;
                        let own = matches!(reason, ExitReason::Normal | ExitReason::Ignore);
                        if own {
                            // (Which nobody else can do to it.)
                            Process::exit(p, ExitReason::Kill);
                        } else {
                            Process::exit(p, reason.clone());
                        }
                        let reason = if own { ExitReason::Kill } else { reason };
                        history.push(format!("{k} ends {reason:?}"));
                        Process::sleep(Duration::from_millis(1)).await;
                        if others[k].1 {
                            if trap {
                                want.push(format!("exit {p:?} {reason:?}"));
                            } else {
                                end = Some((reason, false));
                                break;
                            }
                        }
                        for (i, (m, by_name)) in monitors.iter().enumerate() {
                            if *m == k {
                                let d: Dest = if *by_name { named(k).into() } else { p.into() };
                                want.push(format!("down {d:?} {:?} {reason:?}", Some(i)));
                            }
                        }
                        others[k].1 = false;
                    }
                    _ => {
                        // A signal from somebody else, now and then from the parent.
                        let reason = random_reason(&mut rng);
                        if reason.is_kill() && rng.chance(3, 4) {
                            continue;
                        }
                        let by_parent = rng.chance(1, 6);
                        let from = if by_parent {
                            Process::exit(pid, reason.clone());
                            Process::current()
                        } else {
                            let r = reason.clone();
                            Process::spawn(async move { Process::exit(pid, r) })
                        };
                        history.push(format!("signal {reason:?} parent {by_parent}"));
                        Process::sleep(Duration::from_millis(1)).await;
                        if reason.is_kill() || !trap && reason.is_custom() {
                            end = Some((reason, false));
                            break;
                        }
                        if trap {
                            if by_parent && link {
                                end = Some((reason, true));
                                break;
                            }
                            want.push(format!("exit {from:?} {reason:?}"));
                        }
                    }
                }
                Process::sleep(Duration::from_millis(1)).await;
            }
            let detail = |got: &str| json!({"link": link, "trap": trap, "history": history, "expected": want, "end": format!("{end:?}"), "got": got});
            let mut sorted = want.clone();
            sorted.sort();
            match &end {
                None => match Ear::call(pid, Tell::Ask, None).await {
                    Ok(Tell::Heard(mut got)) => {
                        // (The notices of one death come in any order among themselves.)
                        got.sort();
                        check(got == sorted, "told-otherwise", || detail(&format!("{got:?}")));
                        check(terminated.is_empty(), "terminated-though-alive", || detail(""));
                    }
                    other => {
                        violation("server-ended-by-news", detail(&format!("{other:?} {:?}", terminated.snapshot())));
                    }
                },
                Some((reason, terminates)) => {
                    check(!Process::alive(pid), "server-survives-signal", || detail(""));
                    let expect: Vec<ExitReason> = if *terminates { vec![reason.clone()] } else { vec![] };
                    check(terminated.snapshot() == expect, "terminate-by-signal", || detail(&format!("{:?}", terminated.snapshot())));
                    if link {
                        // The parent hears of it, with the same reason.
                        let got = match ready_message::<()>().await {
                            Some(Message::System(SystemMessage::Exit(p, r))) => Some((p, r)),
                            _ => None,
                        };
                        check(got == Some((pid, reason.clone())), "told-otherwise", || detail(&format!("{got:?}")));
                    }
                }
            }
            cover(&("told", link, trap, want.len().min(12), format!("{end:?}")));
            count("told", want.len() as u64);
            evaluated(1);
            Process::exit(pid, ExitReason::Kill);
            for o in others {
                Process::exit(o.0, ExitReason::Kill);
            }
        })
        .await;
        if done.is_none() {
            violation("driver-died", json!(null));
        }
    });
}

fn main() {
    allow_panic("Failed to notify parent process!");
    allow_panic("Unsupported message type!");
    run(
        "C10",
        &[scenario("traffic", 3, traffic), scenario("startup", 2, startup), scenario("stopping", 2, stopping), scenario("limits", 1, limits), scenario("brink", 1, brink), scenario("told", 1, told)],
    );
}
