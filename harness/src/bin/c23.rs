//! C23: finished work leaves nothing behind. One kind of cycle at a time is repeated thousands of times,
//! by several processes at once and on a perturbed schedule, and what is live (processes, names, listed
//! ties, memory) is compared between windows at rest: the slope over many cycles is what counts.
use std::collections::BTreeSet;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

use hv::net::*;
use hv::*;
use hydra::*;
use hydra_websockets::*;

#[global_allocator]
static A: hv::alloc::Counting = hv::alloc::Counting;

type Fut = Pin<Box<dyn Future<Output = ()> + Send>>;

#[derive(Serialize, Deserialize, Debug)]
struct Note {
    noted: u64,
    text: String,
}

fn note(n: u64) -> Note {
    Note { noted: n, text: "n".repeat((n % 40) as usize) }
}

// ---------------------------------------------------------------------------------------------
// Long lived parties
// ---------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Debug)]
enum Q {
    Ask(u64),
    Late(u64),
    Never,
    Die,
    A(u64),
    Spawn,
    Kill(Pid),
    P(Pid),
}

#[derive(Clone)]
struct Server {
    init: u8,
}

impl GenServer for Server {
    type Message = Q;
    async fn init(&mut self) -> Result<(), ExitReason> {
        match self.init {
            1 => Err(ExitReason::from("no")),
            2 => {
                forever().await;
                Ok(())
            }
            3 => expected_panic("init"),
            _ => Ok(()),
        }
    }
    async fn handle_cast(&mut self, _: Q) -> Result<(), ExitReason> {
        Ok(())
    }
    async fn handle_call(&mut self, q: Q, from: From) -> Result<Option<Q>, ExitReason> {
        match q {
            Q::Ask(n) => Ok(Some(Q::A(n))),
            Q::Late(n) => {
                Process::spawn(async move {
                    Process::sleep(Duration::from_millis(3)).await;
                    Server::reply(from, Q::A(n));
                });
                Ok(None)
            }
            Q::Never => Ok(None),
            Q::Spawn => Ok(Some(Q::P(Process::spawn(forever())))),
            Q::Kill(p) => {
                Process::exit(p, ExitReason::Kill);
                Ok(Some(Q::A(0)))
            }
            _ => Err(ExitReason::from("asked to")),
        }
    }
}

struct Ctx {
    /// Traps exits, reads whatever comes.
    peer: Pid,
    server: Pid,
    /// The name of the server, which keeps it.
    named: String,
    sup: Pid,
    registry: Pid,
    crash: Arc<AtomicU64>,
    address: Option<std::net::SocketAddr>,
}

async fn idle() {
    Process::set_flags(ProcessFlags::TRAP_EXIT);
    loop {
        let _ = Process::receiver().for_message::<Note>().receive().await;
    }
}

fn child(id: impl Into<String>) -> ChildSpec {
    ChildSpec::new(id.into()).start(|| async { Ok(Process::spawn_link(forever())) })
}

/// A child that ends as soon as its number is called.
async fn brittle(crash: Arc<AtomicU64>) -> Result<Pid, ExitReason> {
    Ok(Process::spawn_link(async move {
        let seen = crash.load(Ordering::SeqCst);
        loop {
            if crash.load(Ordering::SeqCst) != seen {
                Process::exit(Process::current(), ExitReason::from("brittle"));
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }))
}

async fn context(web: bool) -> Ctx {
    let crash = Arc::new(AtomicU64::new(0));
    let (tx, rx) = tokio::sync::oneshot::channel();
    let c = crash.clone();
    Process::spawn(async move {
        let peer = Process::spawn(idle());
        let server = Server { init: 0 }.start(GenServerOptions::new()).await.unwrap();
        let named = unique(0);
        Process::register(server, named.clone()).unwrap();
        let c2 = c.clone();
        let sup = Supervisor::new()
            .max_restarts(1_000_000)
            .max_duration(Duration::from_millis(1))
            .add_child(ChildSpec::new("brittle").start(move || brittle(c2.clone())))
            .start(SupervisorOptions::new())
            .await
            .unwrap();
        let registry = Registry::new("long")
            .with_start(|k| async move {
                match k {
                    RegistryKey::Integer32(_) => Err(ExitReason::from("no")),
                    _ => Ok(Process::spawn_link(forever())),
                }
            })
            .start(RegistryOptions::new())
            .await
            .unwrap();
        let mut address = None;
        if web {
            for _ in 0..50 {
                let port = 20_000 + (std::process::id() as u64 * 7 + tick() * 13) % 30_000;
                let a: std::net::SocketAddr = format!("127.0.0.1:{port}").parse().unwrap();
                let config = WebsocketServerConfig::new(a).handshake_timeout(Duration::from_millis(5000));
                if WebsocketServer::<Web>::new(config).start(GenServerOptions::new()).await.is_ok() {
                    address = Some(a);
                    break;
                }
            }
        }
        let _ = tx.send(Ctx { peer, server, named, sup, registry, crash: c, address });
    });
    rx.await.expect("context")
}

async fn gone(pid: Pid) {
    let mut n = 0u32;
    while Process::alive(pid) {
        n += 1;
        if n < 50 {
            tokio::task::yield_now().await;
        } else {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
}

/// Waits for a number of system messages.
async fn system(n: usize) {
    for _ in 0..n {
        loop {
            if let Message::System(_) = Process::receiver().for_message::<Note>().receive().await {
                break;
            }
        }
    }
}

/// Takes whatever a cycle may have left unread.
async fn drain() {
    while ready_message::<Note>().await.is_some() {}
}

async fn done_by(mut f: impl FnMut() -> bool) {
    while !f() {
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
}

// ---------------------------------------------------------------------------------------------
// Cycles
// ---------------------------------------------------------------------------------------------

type Cycle = fn(Arc<Ctx>, Rng, u64) -> Fut;

macro_rules! cycles {
    ($( $name:literal => |$c:ident, $r:ident, $i:ident| $body:block )*) => {
        vec![$( ($name, {
            fn f($c: Arc<Ctx>, mut $r: Rng, $i: u64) -> Fut {
                let _ = (&$c, &mut $r, $i);
                Box::pin(async move $body)
            }
            f as Cycle
        }) ),*]
    };
}

fn unique(i: u64) -> String {
    format!("name-{i}-{}", tick())
}

fn cycles() -> Vec<(&'static str, Cycle)> {
    cycles! {
        "exit.return" => |_c, _r, _i| { gone(Process::spawn(async {})).await; }
        "exit.panic" => |_c, _r, _i| { gone(Process::spawn(async { expected_panic("cycle") })).await; }
        "exit.killed" => |_c, r, _i| {
            let p = Process::spawn(forever());
            if r.bool() { tokio::task::yield_now().await; }
            Process::exit(p, ExitReason::Kill);
            gone(p).await;
        }
        "exit.signal" => |_c, r, i| {
            let p = Process::spawn(forever());
            Process::exit(p, if r.bool() { ExitReason::from("x") } else { ExitReason::from(format!("a longer reason {i}")) });
            gone(p).await;
        }
        "exit.self" => |_c, r, _i| {
            let reason = random_reason(&mut r);
            gone(Process::spawn(async move { Process::exit(Process::current(), reason); })).await;
        }
        "exit.trapping" => |_c, _r, _i| {
            let p = Process::spawn(async { Process::set_flags(ProcessFlags::TRAP_EXIT); system(1).await; });
            let q = p;
            done_by(|| Process::info(q).is_none_or(|i| i.trap_exit)).await;
            Process::exit(p, ExitReason::from("ask"));
            gone(p).await;
        }
        "exit.mailbox" => |_c, r, i| {
            let p = Process::spawn(forever());
            for n in 0..r.range(1, 12) { Process::send(p, note(n + i)); }
            Process::exit(p, ExitReason::Kill);
            gone(p).await;
        }
        "exit.skipped-messages" => |_c, r, i| {
            let n = r.range(1, 8);
            let p = Process::spawn(async move {
                for _ in 0..200 {
                    let got = ready_message::<String>().await;
                    if got.is_some() { break; }
                    tokio::task::yield_now().await;
                }
            });
            for k in 0..n { Process::send(p, note(k + i)); }
            Process::send(p, "go".to_string());
            gone(p).await;
        }
        "exit.nobody" => |_c, _r, i| {
            let p = Process::spawn(async {});
            gone(p).await;
            Process::exit(p, ExitReason::from("late"));
            Process::send(p, note(i));
            Process::send("nobody-here", note(i));
        }
        "link.child-dies" => |_c, r, _i| {
            let p = Process::spawn(forever());
            Process::link(p);
            Process::exit(p, if r.bool() { ExitReason::Kill } else { ExitReason::from("x") });
            system(1).await;
        }
        "link.unlink" => |_c, _r, _i| {
            let p = Process::spawn(forever());
            Process::link(p);
            Process::unlink(p);
            Process::exit(p, ExitReason::Kill);
            gone(p).await;
        }
        "link.unlink-race" => |_c, r, _i| {
            let p = Process::spawn(forever());
            Process::link(p);
            Process::exit(p, ExitReason::Kill);
            for _ in 0..r.below(3) { tokio::task::yield_now().await; }
            Process::unlink(p);
            gone(p).await;
            drain().await;
        }
        "link.dead" => |_c, r, _i| {
            let p = Process::spawn(async {});
            if r.bool() { gone(p).await; }
            Process::link(p);
            system(1).await;
        }
        "link.spawn-link" => |_c, _r, _i| { let _ = Process::spawn_link(async {}); system(1).await; }
        "link.to-peer" => |c, r, _i| {
            let peer = c.peer;
            let kill = r.bool();
            let p = Process::spawn(async move {
                Process::link(peer);
                if kill { forever().await; }
            });
            if kill {
                done_by(|| Process::info(p).is_none_or(|i| !i.links.is_empty())).await;
                Process::exit(p, ExitReason::Kill);
            }
            gone(p).await;
        }
        "link.peer-unlinked-by-child" => |c, _r, _i| {
            let peer = c.peer;
            gone(Process::spawn(async move { Process::link(peer); Process::unlink(peer); })).await;
        }
        "link.chain" => |_c, r, _i| {
            let n = r.range(2, 6);
            let mut pids = vec![Process::spawn(forever())];
            for _ in 0..n {
                let last = *pids.last().unwrap();
                pids.push(Process::spawn(async move { Process::link(last); forever().await; }));
            }
            let p = pids.clone();
            // Whoever is in the middle has two: otherwise a part of the chain isn't hooked up yet.
            done_by(|| p.iter().enumerate().all(|(k, q)| Process::info(*q).is_some_and(|i| i.links.len() == if k == 0 || k + 1 == p.len() { 1 } else { 2 }))).await;
            let victim = *r.pick(&pids);
            Process::exit(victim, ExitReason::Kill);
            for p in pids { gone(p).await; }
        }
        "monitor.down" => |_c, r, _i| {
            let p = Process::spawn(forever());
            let _ = Process::monitor(p);
            Process::exit(p, if r.bool() { ExitReason::Kill } else { ExitReason::from("x") });
            system(1).await;
        }
        "monitor.demonitor" => |_c, _r, _i| {
            let p = Process::spawn(forever());
            let m = Process::monitor(p);
            Process::demonitor(m);
            Process::exit(p, ExitReason::Kill);
            gone(p).await;
        }
        "monitor.demonitor-race" => |_c, r, _i| {
            let p = Process::spawn(forever());
            let m = Process::monitor(p);
            Process::exit(p, ExitReason::Kill);
            for _ in 0..r.below(3) { tokio::task::yield_now().await; }
            Process::demonitor(m);
            gone(p).await;
            drain().await;
        }
        "monitor.peer-demonitor" => |c, _r, _i| {
            let m = Process::monitor(c.peer);
            Process::demonitor(m);
        }
        "monitor.of-peer-by-dying" => |c, r, _i| {
            let peer = c.peer;
            let kill = r.bool();
            let p = Process::spawn(async move {
                let _ = Process::monitor(peer);
                if kill { forever().await; }
            });
            if kill { for _ in 0..r.below(4) { tokio::task::yield_now().await; } Process::exit(p, ExitReason::Kill); }
            gone(p).await;
        }
        "monitor.dead" => |_c, _r, _i| {
            let p = Process::spawn(async {});
            gone(p).await;
            let _ = Process::monitor(p);
            system(1).await;
        }
        "monitor.absent-name" => |_c, r, i| {
            let m = Process::monitor(unique(i));
            if r.bool() { Process::demonitor(m); } else { system(1).await; }
        }
        "monitor.name" => |_c, r, i| {
            let p = Process::spawn(forever());
            let name = unique(i);
            let _ = Process::register(p, name.clone());
            let m = Process::monitor(name);
            if r.bool() { Process::demonitor(m); Process::exit(p, ExitReason::Kill); }
            else { Process::exit(p, ExitReason::Kill); system(1).await; }
            gone(p).await;
        }
        "monitor.server-name" => |c, r, _i| {
            let m = if r.bool() { Process::monitor(c.named.clone()) } else { Process::monitor_alias(c.named.clone(), r.bool()) };
            Process::demonitor(m);
        }
        "monitor.server-name-by-dying" => |c, r, _i| {
            let (name, alias) = (c.named.clone(), r.bool());
            gone(Process::spawn(async move { let _ = if alias { Process::monitor_alias(name, alias) } else { Process::monitor(name) }; })).await;
        }
        "monitor.spawn-monitor" => |_c, r, _i| {
            let (_, m) = Process::spawn_monitor(async {});
            if r.bool() { Process::demonitor(m); } else { system(1).await; }
        }
        "monitor.alias" => |c, r, i| {
            let m = Process::monitor_alias(c.peer, r.bool());
            if r.bool() { Process::send(m, note(i)); }
            Process::demonitor(m);
            drain().await;
        }
        "monitor.alias-down" => |_c, r, _i| {
            let p = Process::spawn(forever());
            let _ = Process::monitor_alias(p, r.bool());
            Process::exit(p, ExitReason::Kill);
            system(1).await;
        }
        "monitor.alias-owner-dies" => |c, r, i| {
            let (peer, reply) = (c.peer, r.bool());
            gone(Process::spawn(async move { let m = Process::monitor_alias(peer, reply); if i % 3 > 0 { Process::send(m, note(i)); } })).await;
        }
        "name.unregister" => |_c, _r, i| {
            let name = unique(i);
            let p = Process::spawn(forever());
            let _ = Process::register(p, name.clone());
            Process::unregister(&name);
            Process::exit(p, ExitReason::Kill);
            gone(p).await;
        }
        "name.dies" => |_c, r, i| {
            let name = unique(i);
            let other = name.clone();
            let p = Process::spawn(async move { let _ = Process::register(Process::current(), name); });
            if r.bool() { let _ = Process::whereis(&other); }
            gone(p).await;
        }
        "name.peer" => |c, _r, i| {
            // Only one of the parallel ones at a time has the right to a name of the peer's.
            let name = unique(i);
            let ok = Process::register(c.peer, name.clone()).is_ok();
            if ok { Process::unregister(&name); }
        }
        "name.refused" => |_c, _r, i| {
            let name = unique(i);
            let p = Process::spawn(forever());
            let _ = Process::register(p, name.clone());
            let _ = Process::register(p, unique(i));
            let q = Process::spawn(forever());
            let _ = Process::register(q, name);
            Process::exit(p, ExitReason::Kill);
            Process::exit(q, ExitReason::Kill);
            gone(p).await;
            gone(q).await;
        }
        "name.register-race" => |_c, r, i| {
            let p = Process::spawn(forever());
            Process::exit(p, ExitReason::Kill);
            for _ in 0..r.below(3) { tokio::task::yield_now().await; }
            let _ = Process::register(p, unique(i));
            gone(p).await;
        }
        "alias.unalias" => |_c, r, i| {
            let a = Process::alias(r.bool());
            if r.bool() { Process::send(a, note(i)); }
            Process::unalias(a);
            drain().await;
        }
        "alias.reply" => |_c, _r, i| {
            let a = Process::alias(true);
            Process::send(a, note(i));
            Process::send(a, note(i));
            let _ = Process::receiver().for_message::<Note>().receive().await;
        }
        "alias.dies" => |_c, r, i| {
            let n = r.range(1, 4);
            let p = Process::spawn(async move { for k in 0..n { let a = Process::alias((k + i) % 2 == 0); if (k + i) % 3 > 0 { Process::send(a, note(i)); } } });
            gone(p).await;
        }
        "timer.fires" => |_c, _r, i| {
            let _ = Process::send_after(Process::current(), note(i), Duration::from_millis(1));
            let _ = Process::receiver().for_message::<Note>().receive().await;
        }
        "timer.cancelled" => |_c, _r, i| {
            let t = Process::send_after(Process::current(), note(i), Duration::from_secs(3600));
            Process::cancel_timer(t);
        }
        "timer.cancel-race" => |_c, _r, i| {
            let t = Process::send_after(Process::current(), note(i), Duration::from_millis(1));
            tokio::time::sleep(Duration::from_millis(1)).await;
            Process::cancel_timer(t);
            let _ = Process::read_timer(t);
            drain().await;
        }
        "timer.zero" => |_c, _r, i| {
            let t = Process::send_after(Process::current(), note(i), Duration::ZERO);
            let _ = Process::read_timer(t);
            let _ = Process::receiver().for_message::<Note>().receive().await;
        }
        "timer.dead" => |_c, _r, i| {
            let p = Process::spawn(async {});
            let t = Process::send_after(p, note(i), Duration::from_millis(1));
            done_by(|| Process::read_timer(t).is_none()).await;
        }
        "timer.owner-dies" => |c, _r, i| {
            let peer = c.peer;
            let (tx, rx) = tokio::sync::oneshot::channel();
            let p = Process::spawn(async move { let _ = tx.send(Process::send_after(peer, note(i), Duration::from_millis(2))); });
            let t = rx.await.unwrap();
            gone(p).await;
            done_by(|| Process::read_timer(t).is_none()).await;
        }
        "timeout" => |_c, r, i| {
            let d = Duration::from_millis(r.below(3));
            let _ = Process::timeout(d, forever()).await;
            let _ = Process::timeout(Duration::from_secs(3600), async {}).await;
            let p = Process::spawn(async { Process::sleep(Duration::from_secs(3600)).await; });
            let _ = i;
            Process::exit(p, ExitReason::Kill);
            gone(p).await;
        }
        "call" => |c, _r, i| { let _ = Server::call(c.server, Q::Ask(i), None).await; Server::cast(c.server, Q::Ask(i)); }
        "call.late" => |c, _r, i| {
            let _ = Server::call(c.server, Q::Late(i), Some(Duration::from_millis(1))).await;
        }
        "call.never" => |c, _r, _i| { let _ = Server::call(c.server, Q::Never, Some(Duration::from_millis(1))).await; }
        "call.dead" => |_c, _r, i| {
            let p = Process::spawn(async {});
            gone(p).await;
            let _ = Server::call(p, Q::Ask(i), None).await;
            let _ = Server::call("no-such-server", Q::Ask(i), None).await;
        }
        "call.server-dies" => |_c, r, _i| {
            let s = Server { init: 0 }.start(GenServerOptions::new()).await.unwrap();
            if r.bool() { let _ = Server::call(s, Q::Die, None).await; }
            else { Process::exit(s, ExitReason::Kill); let _ = Server::call(s, Q::Never, None).await; }
            gone(s).await;
        }
        "call.caller-dies" => |c, r, i| {
            let server = c.server;
            let n = r.below(3);
            let p = Process::spawn(async move { let _ = Server::call(server, if n == 0 { Q::Never } else { Q::Late(i) }, None).await; });
            for _ in 0..r.below(6) { tokio::task::yield_now().await; }
            Process::exit(p, ExitReason::Kill);
            gone(p).await;
        }
        "server.start-stop" => |_c, r, i| {
            let mut o = GenServerOptions::new();
            if r.bool() { o = o.name(unique(i)); }
            let linked = r.bool();
            let s = if linked { Server { init: 0 }.start_link(o).await.unwrap() } else { Server { init: 0 }.start(o).await.unwrap() };
            let _ = Server::stop(s, ExitReason::from("stop"), None).await;
            gone(s).await;
            if linked { system(1).await; }
        }
        "server.start-fails" => |_c, r, i| {
            let o = GenServerOptions::new().timeout(Duration::from_millis(1));
            let init = r.range(1, 3) as u8;
            let name = unique(i);
            let o = if r.bool() { o.name(name) } else { o };
            let _ = Server { init }.start(o).await;
        }
        "supervisor.dynamic" => |c, r, i| {
            let id = unique(i);
            let _ = Supervisor::start_child(c.sup, child(id.clone())).await;
            let _ = Supervisor::terminate_child(c.sup, id.clone()).await;
            if r.bool() { let _ = Supervisor::restart_child(c.sup, id.clone()).await; let _ = Supervisor::terminate_child(c.sup, id.clone()).await; }
            let _ = Supervisor::delete_child(c.sup, id).await;
        }
        "supervisor.temporary" => |c, _r, i| {
            let id = unique(i);
            let spec = ChildSpec::new(id.clone()).restart(Restart::Temporary).start(|| async { Ok(Process::spawn_link(async {})) });
            if let Ok(Some(p)) = Supervisor::start_child(c.sup, spec).await { gone(p).await; }
        }
        "supervisor.declined" => |c, r, i| {
            let id = unique(i);
            let fail = r.bool();
            let spec = ChildSpec::new(id.clone()).restart(Restart::Temporary).start(move || async move { Err(if fail { ExitReason::from("no") } else { ExitReason::Ignore }) });
            let _ = Supervisor::start_child(c.sup, spec).await;
            let _ = Supervisor::delete_child(c.sup, id).await;
        }
        "supervisor.restarts" => |c, _r, _i| {
            c.crash.fetch_add(1, Ordering::SeqCst);
            tokio::time::sleep(Duration::from_millis(3)).await;
        }
        "supervisor.whole" => |_c, r, i| {
            let n = r.range(1, 4);
            let mut s = Supervisor::new();
            for k in 0..n { s = s.add_child(child(format!("c{k}")).shutdown(if k % 2 == 0 { Shutdown::BrutalKill } else { Shutdown::Infinity })); }
            let fails = r.chance(1, 3);
            if fails { s = s.add_child(ChildSpec::new("last").start(|| async { Err(ExitReason::from("no")) })); }
            let o = if r.bool() { SupervisorOptions::new().name(unique(i)) } else { SupervisorOptions::new() };
            if let Ok(p) = s.start_link(o).await {
                Process::exit(p, ExitReason::from("shutdown"));
                gone(p).await;
            }
            system(1).await;
        }
        "supervisor.gives-up" => |_c, _r, _i| {
            let s = Supervisor::new().max_restarts(2).add_child(ChildSpec::new("quick").start(|| async { Ok(Process::spawn_link(async {})) })).add_child(child("steady"));
            if let Ok(p) = s.start(SupervisorOptions::new()).await { gone(p).await; }
        }
        "registry.start-stop" => |c, r, i| {
            let key = RegistryKey::from(unique(i));
            let _ = if r.bool() { Registry::start_process(c.registry, key.clone(), None).await } else { Registry::lookup_or_start(c.registry, key.clone(), None).await };
            let _ = Registry::stop_process(c.registry, key, None).await;
        }
        "registry.dies" => |c, _r, i| {
            let key = RegistryKey::from(unique(i));
            if let Ok(p) = Registry::start_process(c.registry, key.clone(), None).await {
                Process::exit(p, ExitReason::Kill);
                gone(p).await;
            }
            let c2 = c.registry;
            let mut n = 0;
            while Registry::lookup(c2, key.clone(), None).await.is_ok_and(|p| p.is_some()) && n < 2000 { n += 1; tokio::task::yield_now().await; }
        }
        "registry.removed" => |c, _r, i| {
            let key = RegistryKey::from(unique(i));
            if Registry::start_process(c.registry, key.clone(), None).await.is_ok() {
                if let Ok(Some(p)) = Registry::remove(c.registry, key, None).await { Process::exit(p, ExitReason::Kill); gone(p).await; }
            }
        }
        "registry.fails" => |c, _r, i| {
            let _ = Registry::start_process(c.registry, RegistryKey::from(i as i32 & 0xffff), None).await;
            let _ = Registry::lookup(c.registry, RegistryKey::from(unique(i)), None).await;
        }
        "registry.whole" => |_c, r, i| {
            let g = Registry::new(unique(i)).with_start(|_| async { Ok(Process::spawn_link(forever())) }).start(RegistryOptions::new()).await;
            if let Ok(g) = g {
                let mut pids = Vec::new();
                for k in 0..r.below(4) { if let Ok(p) = Registry::start_process(g, RegistryKey::from(format!("k{k}")), None).await { pids.push(p); } }
                if r.bool() { Process::exit(g, ExitReason::from("shutdown")); for _ in 0..r.below(4) { tokio::task::yield_now().await; } }
                Process::exit(g, ExitReason::Kill);
                gone(g).await;
                for p in pids { Process::exit(p, ExitReason::Kill); gone(p).await; }
            }
        }
        "task" => |_c, r, i| {
            let t = Task::spawn(async move { note(i) });
            match r.below(3) {
                0 => { let _ = t.await; }
                1 => { let _ = Task::shutdown(t).await; }
                _ => drop(t),
            }
            let t = Task::spawn(async { forever().await });
            if r.bool() { let _ = Task::shutdown(t).await; } else {
                let t2 = Task::spawn(async { expected_panic("task") });
                let _: Result<(), _> = t2.await;
                let _ = Task::shutdown(t).await;
            }
        }
        "task.blocking" => |_c, _r, i| { let _ = Task::spawn_blocking(move || i).await; }
        "hash-ring" => |_c, r, i| {
            thread_local!(static RING: HashRing<u64> = HashRing::new());
            let _ = &mut r;
            RING.with(|ring| {
                ring.add_node(i, i);
                ring.add_override(i, i);
                let _ = ring.find_node(i);
                ring.remove_override(i);
                ring.remove_node(i);
            });
        }
        "application" => |_c, _r, _i| {
            // The test form runs a whole runtime of its own.
            let (tx, rx) = tokio::sync::oneshot::channel();
            std::thread::spawn(move || { One.test(); let _ = tx.send(()); });
            let _ = rx.await;
        }
        "owner.dies" => |c, r, i| {
            // A process with some of everything, in whatever state, ends in some way.
            let victim = Process::spawn(forever());
            let mut bag = r.fork();
            let p = Process::spawn(async move {
                for k in 0..bag.range(1, 9) {
                    match bag.below(11) {
                        0 => { let a = Process::alias(bag.bool()); if bag.bool() { Process::send(a, note(k)); } }
                        1 => { let m = Process::monitor_alias(c.peer, bag.bool()); if bag.bool() { Process::send(m, note(k)); } }
                        2 => { let m = Process::monitor_alias(victim, bag.bool()); if bag.bool() { Process::unalias(m); } }
                        3 => { let _ = Process::monitor(c.peer); }
                        4 => { Process::link(victim); }
                        5 => { let _ = Process::register(Process::current(), unique(i * 16 + k)); }
                        6 => { let _ = Process::monitor(format!("nobody {i} {k}")); }
                        7 => { Process::send(Process::current(), note(k)); let _ = ready_message::<String>().await; }
                        8 => { let _ = Process::send_after(Process::current(), note(k), Duration::from_millis(bag.below(4))); }
                        9 => { Process::exit(victim, ExitReason::Normal); }
                        _ => { let t = Process::send_after(c.peer, note(k), Duration::from_secs(3600)); Process::cancel_timer(t); }
                    }
                }
                match bag.below(4) {
                    0 => Process::exit(Process::current(), "owner"),
                    1 => Process::exit(Process::current(), ExitReason::Kill),
                    2 => expected_panic("owner"),
                    _ => {}
                }
            });
            gone(p).await;
            Process::exit(victim, ExitReason::Kill);
            gone(victim).await;
        }
        "mixed" => |c, r, i| {
            let all = cycles();
            loop {
                let (name, f) = all[r.usize(all.len())];
                if !["mixed", "mixed.again", "application", "supervisor.restarts"].contains(&name) && !name.starts_with("web") {
                    f(c.clone(), r.fork(), i).await;
                    drain().await;
                    break;
                }
            }
        }
        "mixed.again" => |c, r, i| {
            let f = cycles().into_iter().find(|(n, _)| *n == "mixed").unwrap().1;
            f(c, r, i).await;
        }
        "web.close" => |c, r, _i| { client(c.address, &mut r, 0).await; }
        "web.vanish" => |c, r, _i| { client(c.address, &mut r, 1).await; }
        "web.failed-handshake" => |c, r, _i| { client(c.address, &mut r, 2).await; }
        "web.handler-ends" => |c, r, _i| { client(c.address, &mut r, 3).await; }
    }
}

struct One;
impl Application for One {
    fn config() -> ApplicationConfig {
        ApplicationConfig::new()
    }
    async fn start(&self) -> Result<Pid, ExitReason> {
        Ok(Process::spawn_link(async {}))
    }
}

struct Web;
impl WebsocketHandler for Web {
    type Message = Note;
    fn accept(_: std::net::SocketAddr, _: &WebsocketRequest, response: WebsocketResponse) -> Result<(WebsocketResponse, Self), ExitReason> {
        Ok((response, Web))
    }
    async fn websocket_handle(&mut self, message: WebsocketMessage) -> Result<Option<WebsocketCommands>, ExitReason> {
        match message {
            WebsocketMessage::Text(t) if t.as_str() == "end" => Err(ExitReason::from("told to")),
            m @ WebsocketMessage::Text(_) => {
                let mut c = WebsocketCommands::new();
                c.send(m);
                Ok(Some(c))
            }
            _ => Ok(None),
        }
    }
}

fn masked(opcode: u8, data: &[u8]) -> Vec<u8> {
    let mut v = vec![0x80 | opcode, 0x80 | data.len() as u8, 1, 2, 3, 4];
    v.extend(data.iter().enumerate().map(|(i, b)| b ^ [1, 2, 3, 4][i % 4]));
    v
}

async fn client(address: Option<std::net::SocketAddr>, rng: &mut Rng, how: u8) {
    let Some(address) = address else { return };
    let Ok(mut s) = tokio::net::TcpStream::connect(address).await else { return };
    let mut rest = Vec::new();
    if how == 2 {
        match rng.below(3) {
            0 => {}
            1 => {
                let _ = s.write_all(b"GET / HTTP/1.1\r\nHost: x\r\n\r\n").await;
                let _ = s.read_to_end(&mut rest).await;
            }
            _ => {
                let _ = s.write_all(b"\x16\x03\x01nonsense\r\n\r\n").await;
                let _ = s.read_to_end(&mut rest).await;
            }
        }
        return;
    }
    let _ = s.write_all(b"GET / HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n").await;
    let mut buf = [0u8; 512];
    let mut got: Vec<u8> = Vec::new();
    while !got.windows(4).any(|w| w == b"\r\n\r\n") {
        match s.read(&mut buf).await {
            Ok(n) if n > 0 => got.extend(&buf[..n]),
            _ => return,
        }
    }
    let _ = s.write_all(&masked(1, b"hello")).await;
    if rng.bool() {
        let _ = s.read(&mut buf).await;
    }
    match how {
        0 => {
            let _ = s.write_all(&masked(8, &[3, 232])).await;
            let _ = s.read_to_end(&mut rest).await;
        }
        3 => {
            let _ = s.write_all(&masked(1, b"end")).await;
            let _ = s.read_to_end(&mut rest).await;
        }
        _ => {
            if rng.bool() {
                let _ = s.set_linger(Some(Duration::ZERO));
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Measuring
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
struct Level {
    procs: i64,
    names: i64,
    live: i64,
    bytes: i64,
}

/// What is there at rest: waits until the processes of before are all that is left, then takes the least.
async fn level(base: &BTreeSet<Pid>, limit: Duration) -> (Level, Vec<Pid>) {
    let begun = Instant::now();
    let mut extra: Vec<Pid>;
    loop {
        extra = Process::list().into_iter().filter(|p| !base.contains(p)).collect();
        if extra.is_empty() || begun.elapsed() > limit {
            break;
        }
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
    let mut l = Level { procs: extra.len() as i64, names: i64::MAX, live: i64::MAX, bytes: i64::MAX };
    for _ in 0..12 {
        tokio::time::sleep(Duration::from_millis(2)).await;
        l.names = l.names.min(Process::registered().len() as i64);
        l.live = l.live.min(hv::alloc::live());
        l.bytes = l.bytes.min(hv::alloc::bytes());
    }
    (l, extra)
}

/// How many processes may be about at the time more cycles begin.
static ROOM: AtomicUsize = AtomicUsize::new(usize::MAX);

struct Hubs {
    jobs: Vec<tokio::sync::mpsc::UnboundedSender<(Cycle, Rng, Duration, u64, tokio::sync::oneshot::Sender<u64>)>>,
    pids: Vec<Pid>,
}

fn hubs(n: usize, ctx: &Arc<Ctx>) -> Hubs {
    let mut h = Hubs { jobs: Vec::new(), pids: Vec::new() };
    for _ in 0..n {
        let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<(Cycle, Rng, Duration, u64, tokio::sync::oneshot::Sender<u64>)>();
        let ctx = ctx.clone();
        h.jobs.push(tx);
        h.pids.push(Process::spawn(async move {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            while let Some((cycle, mut rng, span, least, tx)) = rx.recv().await {
                let begun = Instant::now();
                let mut n = 0;
                while n < least || begun.elapsed() < span {
                    n += 1;
                    cycle(ctx.clone(), rng.fork(), n).await;
                    // Cycles may outrun the end of what they killed: however long a window is, as many
                    // processes are about at once, so that tables have the size they need after the first.
                    let mut patience = 60;
                    while n % 20 == 0 && Process::list().len() > ROOM.load(Ordering::SeqCst) && patience > 0 {
                        patience -= 1;
                        tokio::time::sleep(Duration::from_millis(1)).await;
                    }
                }
                drain().await;
                let _ = tx.send(n);
            }
        }));
    }
    h
}

impl Hubs {
    async fn window(&self, cycle: Cycle, rng: &mut Rng, span: Duration, least: u64) -> u64 {
        let mut waits = Vec::new();
        for j in &self.jobs {
            let (tx, rx) = tokio::sync::oneshot::channel();
            let _ = j.send((cycle, rng.fork(), span, least, tx));
            waits.push(rx);
        }
        let mut n = 0;
        for w in waits {
            n += w.await.unwrap_or(0);
        }
        n
    }
}

/// Enough for a second look.
fn grows(n: u64, a: Level, b: Level) -> bool {
    let n = n as i64;
    b.bytes - a.bytes > 6 * n + 1_500 || b.live - a.live > n / 8 + 25
}

/// Over so many more cycles that tables which double now and then, as more parties happen to be about at
/// once, do not matter, while a table that keeps an entry of every cycle has doubled at least twice.
fn leaks(name: &str, n: u64, a: Level, b: Level) -> bool {
    let n = n as i64;
    let tables = if name.starts_with("mixed") { 60_000 } else { 20_000 };
    b.bytes - a.bytes > 10 * n + tables || b.live - a.live > n / 8 + 60
}

async fn measure(name: &'static str, cycle: Cycle, rng: &mut Rng, span: Duration, least: u64) {
    if std::env::var("HV_SLOPES").is_ok() {
        eprintln!("{name}");
    }
    let ctx = Arc::new(context(name.starts_with("web")).await);
    if name.starts_with("web") && ctx.address.is_none() {
        inconclusive("no websocket server");
        return;
    }
    let n = rng.range(1, 4) as usize;
    let hubs = hubs(n, &ctx);
    tokio::time::sleep(Duration::from_millis(5)).await;
    // What stays by design: the long lived parties. (The restarted child has ever new pids.)
    let restarts = name == "supervisor.restarts";
    let base: BTreeSet<Pid> = Process::list().into_iter().collect();
    ROOM.store(base.len() + 6 * n, Ordering::SeqCst);
    let names = Process::registered().len() as i64;
    let mut cycles = 0;
    let limit = Duration::from_secs(10);
    cycles += hubs.window(cycle, rng, span * 2, least * 2).await;
    let (start, extra) = level(&base, if restarts { Duration::ZERO } else { limit }).await;
    let judge_tables = |l: &Level, extra: &[Pid], after: u64| {
        let allowed = if restarts { 1 } else { 0 };
        let a = check(l.procs <= allowed, &format!("processes-left:{name}"), || json!({"left": l.procs, "cycles": after, "info": extra.iter().take(2).map(|p| format!("{:?}", Process::info(*p))).collect::<Vec<_>>()}));
        let b = check(l.names == names, &format!("names-left:{name}"), || json!({"names": l.names, "before": names, "cycles": after}));
        a && b
    };
    if !judge_tables(&start, &extra, cycles) {
        return;
    }
    let mut levels = vec![start];
    let mut last = start;
    let mut measured = 0;
    for _ in 0..3 {
        let k = hubs.window(cycle, rng, span, least).await;
        measured += k;
        let (l, extra) = level(&base, if restarts { Duration::ZERO } else { limit }).await;
        if !judge_tables(&l, &extra, cycles + measured) {
            return;
        }
        levels.push(l);
        last = l;
    }
    if std::env::var("HV_SLOPES").is_ok() {
        eprintln!("{name} {measured} cycles: {:+} bytes {:+} allocations", last.bytes - start.bytes, last.live - start.live);
    }
    if grows(measured, start, last) {
        // Once more, longer: a slope goes on, noise does not.
        let begin = last;
        let mut more = 0;
        let began = Instant::now();
        while more < (4 * (measured + cycles)).max(3000) && (began.elapsed() < Duration::from_secs(12) || more < 4 * measured) {
            more += hubs.window(cycle, rng, span * 3, least * 3).await;
        }
        let (l, _) = level(&base, if restarts { Duration::ZERO } else { limit }).await;
        levels.push(l);
        last = l;
        count("slopes.second-look", 1);
        check(!leaks(name, more, begin, last), &format!("memory-grows:{name}"), || {
            json!({"cycles": [measured, more], "bytes-per-cycle": (last.bytes - begin.bytes) as f64 / more as f64,
                "allocations-per-cycle": (last.live - begin.live) as f64 / more as f64, "levels": levels.iter().map(|l| (l.bytes, l.live)).collect::<Vec<_>>()})
        });
        measured += more;
    }
    let ties: Vec<_> = hubs.pids.iter().chain([&ctx.peer, &ctx.server]).filter_map(|p| Process::info(*p)).filter(|i| !i.links.is_empty() || !i.monitored_by.is_empty() || i.message_queue_len > 5).collect();
    check(ties.is_empty(), &format!("ties-left:{name}"), || json!({"cycles": cycles + measured, "infos": ties.iter().map(|i| format!("{} links, {} monitors, {} queued", i.links.len(), i.monitored_by.len(), i.message_queue_len)).collect::<Vec<_>>()}));
    count("cycles", cycles + measured);
    count(&format!("cycles.{}", name.split('.').next().unwrap()), cycles + measured);
    evaluated(levels.len() as u64);
    cover(&("cycle", name, n, measured.ilog2() / 3));
    sample(name.split('.').next().unwrap(), || json!({"cycle": name, "parallel": n, "cycles": cycles + measured, "bytes": levels.iter().map(|l| l.bytes).collect::<Vec<_>>(), "allocations": levels.iter().map(|l| l.live).collect::<Vec<_>>()}));
}

static TURN: AtomicU64 = AtomicU64::new(0);
static FRESH: AtomicBool = AtomicBool::new(true);

/// Everybody gets a turn: the workers start at different places of one shuffled order.
fn turn<T>(all: Vec<T>, turn: u64) -> T {
    let o = options();
    let mut order: Vec<usize> = (0..all.len()).collect();
    Rng::new(o.seed / 1000 + 17).shuffle(&mut order);
    let at = (o.worker as usize * all.len() / 4 + turn as usize) % all.len();
    let pick = order[at];
    all.into_iter().nth(pick).unwrap()
}

fn slopes(ep: &mut Ep) {
    let t = match &options().only {
        Some((_, index)) => *index,
        None => TURN.fetch_add(1, Ordering::SeqCst),
    };
    let (name, cycle) = match std::env::var("HV_CYCLE") {
        Ok(w) => cycles().into_iter().find(|(n, _)| *n == w).expect("cycle"),
        Err(_) => turn(cycles(), t),
    };
    let mut rng = ep.rng.fork();
    chaos(&mut rng);
    let rt = runtime(&mut rng);
    let (span, least) = if options().thorough { (Duration::from_millis(1500), 400) } else { (Duration::from_millis(60), 80) };
    let least = if name.starts_with("application") { 6 } else { least };
    rt.block_on(measure(name, cycle, &mut rng, span, least));
    rt.shutdown_timeout(Duration::from_secs(10));
    // Nothing may refer to the processes of a runtime that is gone.
    chaos_off();
    let left = Process::list().len();
    check(left == 0, "processes-outlive-runtime", || json!({"left": left, "cycle": name}));
    FRESH.store(false, Ordering::SeqCst);
}


// ---------------------------------------------------------------------------------------------
// Several nodes
// ---------------------------------------------------------------------------------------------

struct Away {
    node: Node,
    /// Registered on the other node.
    maker: Dest,
    n: u64,
    me: std::net::SocketAddr,
    start: Value,
}

async fn remote(a: &Away) -> Option<Pid> {
    match Server::call(a.maker.clone(), Q::Spawn, None).await {
        Ok(Q::P(p)) => Some(p),
        _ => None,
    }
}

async fn linked(node: &Node, want: bool) {
    let n = node.clone();
    let begun = Instant::now();
    done_by(|| Node::list_by_state(NodeState::Connected).contains(&n) == want || begun.elapsed() > Duration::from_secs(8)).await;
}

/// A round trip, so that what was sent before has been dealt with.
async fn trip(a: &Away) {
    let _ = Server::call(a.maker.clone(), Q::Ask(1), None).await;
}

async fn away(kind: &str, a: &Away, rng: &mut Rng) {
    match kind {
        "send" => {
            Process::send(("peer", a.node.clone()), note(a.n));
            Process::send(("nobody", a.node.clone()), note(a.n));
            if a.n % 20 == 0 {
                trip(a).await;
            }
        }
        "call" => trip(a).await,
        "call-late" => {
            let _ = Server::call(a.maker.clone(), Q::Late(1), Some(Duration::from_millis(1))).await;
        }
        "call-nobody" => {
            let _ = Server::call(("nobody", a.node.clone()), Q::Ask(1), None).await;
        }
        "monitor" => {
            let Some(p) = remote(a).await else { return };
            let m = Process::monitor(p);
            match rng.below(3) {
                0 => {
                    let _ = Server::call(a.maker.clone(), Q::Kill(p), None).await;
                    system(1).await;
                }
                1 => {
                    Process::demonitor(m);
                    Process::exit(p, ExitReason::Kill);
                }
                _ => {
                    Process::exit(p, ExitReason::Kill);
                    tokio::task::yield_now().await;
                    Process::demonitor(m);
                    trip(a).await;
                }
            }
        }
        "monitor-name" => {
            let m = Process::monitor(a.maker.clone());
            if rng.bool() {
                trip(a).await;
            }
            Process::demonitor(m);
            let _ = Process::monitor(("nobody", a.node.clone()));
            system(1).await;
            let m = Process::monitor(("nobody", a.node.clone()));
            Process::demonitor(m);
            trip(a).await;
        }
        "link" => {
            let Some(p) = remote(a).await else { return };
            Process::link(p);
            match rng.below(3) {
                0 => {
                    let _ = Server::call(a.maker.clone(), Q::Kill(p), None).await;
                    system(1).await;
                }
                1 => {
                    Process::unlink(p);
                    Process::exit(p, ExitReason::Kill);
                    trip(a).await;
                }
                _ => {
                    Process::exit(p, ExitReason::from("across"));
                    system(1).await;
                    // Gone by now.
                    Process::link(p);
                    system(1).await;
                }
            }
        }
        "owner-dies" => {
            let Some(p) = remote(a).await else { return };
            let maker = a.maker.clone();
            let both = rng.bool();
            let (tx, rx) = tokio::sync::oneshot::channel();
            let q = Process::spawn(async move {
                let _ = Process::monitor(p);
                let _ = Process::monitor(maker.clone());
                if both {
                    Process::link(p);
                }
                let _ = tx.send(());
                let _ = Server::call(maker, Q::Never, None).await;
            });
            let _ = rx.await;
            if rng.bool() {
                trip(a).await;
            }
            Process::exit(q, ExitReason::Kill);
            gone(q).await;
            Process::exit(p, ExitReason::Kill);
            trip(a).await;
        }
        "node-monitor" => {
            let m = Node::monitor(a.node.clone());
            Node::demonitor(m);
            let node = a.node.clone();
            gone(Process::spawn(async move {
                let _ = Node::monitor(node);
            }))
            .await;
        }
        "disconnect" | "forget" => {
            let Some(p) = remote(a).await else { return };
            let _ = Node::monitor(a.node.clone());
            let _ = Process::monitor(p);
            let _ = Process::monitor(a.maker.clone());
            Process::link(p);
            // (An id of a forgotten node leads nowhere, so this is the last chance for the link.)
            if kind == "forget" || rng.bool() {
                trip(a).await;
            }
            if kind == "forget" {
                Node::forget(a.node.clone());
            } else {
                Node::disconnect(a.node.clone());
            }
            system(4).await;
            linked(&a.node, false).await;
            // The other side may need a moment to see it.
            tokio::time::sleep(Duration::from_millis(3)).await;
            for _ in 0..50 {
                Node::connect(a.node.clone());
                let n = a.node.clone();
                let begun = Instant::now();
                done_by(|| Node::list_by_state(NodeState::Connected).contains(&n) || begun.elapsed() > Duration::from_millis(200)).await;
                if Node::list_by_state(NodeState::Connected).contains(&n) {
                    break;
                }
            }
            // (It was linked and so died with the connection, or it is still there.)
            Process::exit(p, ExitReason::Kill);
            trip(a).await;
        }
        "unreachable" => {
            let mut at = a.me;
            at.set_port(9);
            let ghost = Node::from((format!("ghost{}", tick()), at));
            let m = Node::monitor(ghost.clone());
            Process::send(("anybody", ghost.clone()), note(1));
            system(1).await;
            let _ = m;
            Node::forget(ghost);
        }
        "restart" => {
            let Some(p) = remote(a).await else { return };
            let _ = Process::monitor(p);
            Process::link(p);
            trip(a).await;
            Node::stop();
            system(2).await;
            done_by(|| !Node::alive()).await;
            let start = a.start.clone();
            // (The former listener may still be about to close.)
            let me = start["listen"].as_str().unwrap().parse::<std::net::SocketAddr>().unwrap();
            let mut listen = me;
            listen.set_port(10_000 + (tick() % 20_000) as u16);
            Node::start("w", NodeOptions::new().listen_address(listen).broadcast_address(me).heartbeat_interval(Duration::from_secs(1)).heartbeat_timeout(Duration::from_secs(30)));
            Node::forget(a.node.clone());
            for _ in 0..50 {
                Node::connect(a.node.clone());
                let n = a.node.clone();
                let begun = Instant::now();
                done_by(|| Node::list_by_state(NodeState::Connected).contains(&n) || begun.elapsed() > Duration::from_millis(200)).await;
                if Node::list_by_state(NodeState::Connected).contains(&n) {
                    break;
                }
            }
            trip(a).await;
        }
        _ => {}
    }
    drain().await;
}

type HubJob = (String, u64, u64, Away, tokio::sync::oneshot::Sender<u64>);
static HUB: std::sync::OnceLock<tokio::sync::mpsc::UnboundedSender<HubJob>> = std::sync::OnceLock::new();

fn agent_ops(v: Value) -> Pin<Box<dyn Future<Output = Result<Value, String>> + Send>> {
    Box::pin(async move {
        match v["op"].as_str().unwrap_or("") {
            "parties" => {
                let server = Server { init: 0 }.start(GenServerOptions::new().name("maker")).await.map_err(|e| format!("{e:?}"))?;
                let peer = Process::spawn(idle());
                let _ = Process::register(peer, "peer");
                let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<HubJob>();
                let _ = HUB.set(tx);
                Process::spawn(async move {
                    Process::set_flags(ProcessFlags::TRAP_EXIT);
                    while let Some((kind, n, seed, mut a, done)) = rx.recv().await {
                        let mut rng = Rng::new(seed);
                        for k in 0..n {
                            a.n = k;
                            away(&kind, &a, &mut rng).await;
                        }
                        trip(&a).await;
                        drain().await;
                        let _ = done.send(n);
                    }
                });
                let _ = server;
                Ok(json!(null))
            }
            "cycles" => {
                let node = Node::from(v["node"].as_str().unwrap_or(""));
                let a = Away { maker: Dest::from(("maker", node.clone())), node, n: 0, me: v["start"]["listen"].as_str().unwrap_or("127.0.0.1:1").parse().map_err(|_| "address")?, start: v["start"].clone() };
                let (tx, rx) = tokio::sync::oneshot::channel();
                let job = (v["kind"].as_str().unwrap_or("").to_string(), v["n"].as_u64().unwrap_or(1), v["seed"].as_u64().unwrap_or(1), a, tx);
                let _ = HUB.get().ok_or("no hub")?.send(job);
                Ok(json!(rx.await.unwrap_or(0)))
            }
            "forget-all" => {
                for n in Node::list_by_state(NodeState::Known) {
                    Node::forget(n);
                }
                Ok(json!(null))
            }
            "level" => {
                let want = v["procs"].as_u64().map(|p| p as usize);
                let begun = Instant::now();
                // (This very command runs in a process of its own.)
                while want.is_some_and(|w| Process::list().len() > w) && begun.elapsed() < Duration::from_secs(10) {
                    tokio::time::sleep(Duration::from_millis(3)).await;
                }
                let (mut live, mut bytes) = (i64::MAX, i64::MAX);
                for _ in 0..25 {
                    tokio::time::sleep(Duration::from_millis(2)).await;
                    live = live.min(hv::alloc::live());
                    bytes = bytes.min(hv::alloc::bytes());
                }
                Ok(json!({"procs": Process::list().len(), "names": Process::registered().len(), "nodes": Node::list().len(), "live": live, "bytes": bytes}))
            }
            op => Err(format!("unknown op {op}")),
        }
    })
}

const AWAY: &[(&str, u64)] = &[
    ("send", 400),
    ("call", 120),
    ("call-late", 60),
    ("call-nobody", 80),
    ("monitor", 100),
    ("monitor-name", 80),
    ("link", 80),
    ("owner-dies", 80),
    ("node-monitor", 300),
    ("disconnect", 16),
    ("forget", 16),
    ("unreachable", 30),
    ("restart", 16),
    ("strangers", 40),
    ("guests", 25),
];

static AWAY_TURN: AtomicU64 = AtomicU64::new(0);

/// Peers that do not get in, or that get in, leave all sorts of ties behind and go.
fn visitors(kind: &str, n: u64, w: &Agent, rng: &mut Rng, canary: u64) {
    for _ in 0..n {
        let Ok(mut p) = Peer::connect(w.listen) else { continue };
        let address = fresh_address();
        if kind == "strangers" {
            match rng.below(3) {
                0 => {
                    p.write(&wire::frame(wire::hello(Some("wrong"), "who", address)));
                }
                1 => {
                    p.write(&rng.bytes(30));
                }
                _ => {}
            }
            if rng.bool() {
                let _ = p.stream.shutdown(std::net::Shutdown::Write);
                p.wait_closed(Duration::from_secs(8));
            }
            continue;
        }
        p.greet(None, &format!("guest{}", tick()), address);
        let mut b = Vec::new();
        for k in 1..rng.range(2, 8) {
            b.extend(wire::frame(match rng.below(7) {
                0 => wire::monitor(true, Some(canary), None, Some(k), k),
                1 => wire::monitor(true, None, Some("peer"), Some(k), k),
                2 => wire::link(true, canary, k),
                3 => wire::send(&[wire::Target::Named("nobody")], b"x"),
                4 => wire::monitor(true, Some(u64::MAX), None, Some(k), k),
                5 => wire::link(true, u64::MAX - k, k),
                _ => wire::exit(u64::MAX - 50, k, &ExitReason::from("x")),
            }));
        }
        p.write(&b);
        if rng.bool() {
            p.write(&wire::frame(wire::monitor(true, Some(u64::MAX), None, Some(5), 77)));
            let want = wire::monitor_down(&[77], &ExitReason::from("noproc"));
            while let Some(f) = p.next(Duration::from_secs(5)) {
                if f == want {
                    break;
                }
            }
        }
        if rng.chance(1, 3) {
            linger_zero(&p.stream);
        }
    }
}

fn nodes(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let t = AWAY_TURN.fetch_add(1, Ordering::SeqCst);
    let (kind, n) = match std::env::var("HV_CYCLE") {
        Ok(k) => *AWAY.iter().find(|a| a.0 == k).expect("kind"),
        Err(_) => turn(AWAY.to_vec(), t),
    };
    let n = if options().thorough { n * 5 } else { n };
    let w = Agent::spawn("w", *rng.pick(&[1usize, 2, 4]));
    let b = Agent::spawn("b", 2);
    w.start_node(json!({"handshake": 4000, "interval": 1000, "timeout": 30_000}));
    b.start_node(json!({"handshake": 4000, "interval": 1000, "timeout": 30_000}));
    w.ask(json!({"op": "parties"}));
    b.ask(json!({"op": "parties"}));
    let canary = w.actor("canary", true).split('@').next().and_then(|x| x.parse().ok()).unwrap_or(0);
    w.tell("canary", json!({"op": "trap"}));
    if !connect(&b, &w) {
        return;
    }
    let start = json!({"listen": w.listen.to_string()});
    let go = |n: u64, rng: &mut Rng| {
        if kind == "strangers" || kind == "guests" {
            visitors(kind, n, &w, rng, canary);
            wait(&[&w], || w.nodes()["connected"] == json!([b.node()]));
            w.ask(json!({"op": "forget-all"}));
        } else {
            let done = w.ask(json!({"op": "cycles", "kind": kind, "n": n, "node": b.node(), "seed": rng.next(), "start": start}));
            if done.as_u64() != Some(n) {
                inconclusive(format!("cycles of {kind} not finished"));
            }
        }
    };
    let all = [&w, &b];
    // First everything that is created once, in every part of every table.
    go(2, rng);
    for (kind, n) in [("monitor", 60), ("link", 60), ("owner-dies", 30), ("node-monitor", 100), ("call", 60), ("call-late", 30), ("monitor-name", 30)] {
        w.ask(json!({"op": "cycles", "kind": kind, "n": n, "node": b.node(), "seed": rng.next(), "start": start}));
    }
    let base: Vec<u64> = all.iter().map(|a| a.ask(json!({"op": "level"}))["procs"].as_u64().unwrap_or(0)).collect();
    go(n * 2, rng);
    let look = || -> Vec<Value> { all.iter().zip(&base).map(|(a, p)| a.ask(json!({"op": "level", "procs": p}))).collect() };
    let to = |v: &Value| Level { procs: v["procs"].as_i64().unwrap_or(0), names: v["names"].as_i64().unwrap_or(0), live: v["live"].as_i64().unwrap_or(0), bytes: v["bytes"].as_i64().unwrap_or(0) };
    let first = look();
    let mut last = first.clone();
    let mut cycles = 0;
    for _ in 0..3 {
        go(n, rng);
        cycles += n;
        last = look();
    }
    for (i, a) in all.iter().enumerate() {
        let what = || json!({"on": a.label, "first": first[i], "last": last[i], "base": base[i], "cycles": cycles, "nodes": a.nodes(), "panics": a.panics().len()});
        check(to(&last[i]).procs as u64 <= base[i], &format!("processes-left:nodes.{kind}"), what);
        check(last[i]["names"] == first[i]["names"], &format!("names-left:nodes.{kind}"), what);
        check(last[i]["nodes"] == first[i]["nodes"], &format!("nodes-left:nodes.{kind}"), what);
    }
    if std::env::var("HV_SLOPES").is_ok() {
        for i in 0..2 {
            eprintln!("{kind} {cycles} cycles on {}: {:+} bytes {:+} allocations", all[i].label, to(&last[i]).bytes - to(&first[i]).bytes, to(&last[i]).live - to(&first[i]).live);
        }
    }
    // A low bar for a second look, and a higher one, over more cycles, for the judgement.
    let over = |n: u64, a: &Value, b: &Value, bytes: i64, live: i64| {
        let (a, b, n) = (to(a), to(b), n as i64);
        b.bytes - a.bytes > 12 * n + bytes || b.live - a.live > n / 3 + live
    };
    if (0..2).any(|i| over(cycles, &first[i], &last[i], 2000, 6)) {
        let begin = last.clone();
        let mut more = 0;
        for _ in 0..4 {
            go(n * 2, rng);
            more += n * 2;
            last = look();
        }
        count("slopes.second-look", 1);
        for i in 0..2 {
            check(!over(more, &begin[i], &last[i], if kind == "restart" { 9000 } else { 5000 }, 20), &format!("memory-grows:nodes.{kind}"), || json!({"on": all[i].label, "cycles": [cycles, more], "first": first[i], "then": begin[i], "last": last[i], "panics": all[i].panics().len()}));
        }
        cycles += more;
    }
    for a in all {
        a.judge_panics(&["Not accepting node supervisor"]);
    }
    let i = w.info("canary");
    check(i["links"] == json!([]) && i["monitored_by"] == json!([]) && i["queue"] == json!(0), &format!("ties-left:nodes.{kind}"), || i.clone());
    count("cycles", cycles + 2 * n);
    count(&format!("cycles.nodes.{kind}"), cycles + 2 * n);
    evaluated(8);
    cover(&("nodes", kind, cycles.ilog2()));
    sample("nodes", || json!({"cycle": kind, "cycles": cycles + 2 * n, "first": first, "last": last}));
}

fn main() {
    pingora_timeout::fast_timeout::VIRTUAL.store(true, Ordering::SeqCst);
    let _ = EXTRA.set(agent_ops);
    agent_if_requested();
    run("C23", &[scenario("slopes", 4, slopes), scenario("nodes", 1, nodes)]);
}
