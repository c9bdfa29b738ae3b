//! Several hydra nodes on one machine: every node is an operating system process of its own (the
//! harness binary run as an "agent"), driven over its standard input and observed over its standard
//! output. Also a TCP proxy that can hold, cut and split the traffic between nodes, and a peer that
//! speaks the wire protocol byte by byte, written independently of hydra's own encoder.
use std::collections::BTreeMap;
use std::io::{BufRead, Read, Write};
use std::net::{Ipv4Addr, SocketAddr, SocketAddrV4, TcpListener, TcpStream};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

use hydra::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tokio::sync::mpsc;

use crate::{count, hash_of, inconclusive, violation, Rng};

// ---------------------------------------------------------------------------------------------
// What travels
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Payload {
    pub tag: String,
    pub body: String,
    pub raw: Vec<u8>,
    pub pids: Vec<Pid>,
    pub refs: Vec<Reference>,
    pub dests: Vec<Dest>,
}

/// The text of a payload, recomputed by the controller to judge what arrived.
pub fn body_of(seed: u64, len: usize) -> String {
    let mut rng = Rng::new(seed);
    let mut s = String::with_capacity(len);
    while s.len() < len {
        match rng.below(40) {
            0 => s.push('\u{e9}'),
            1 => s.push('\u{1F600}'),
            2 => s.push('\0'),
            _ => s.push((b' ' + rng.below(90) as u8) as char),
        }
    }
    s
}
pub fn raw_of(seed: u64, len: usize) -> Vec<u8> {
    Rng::new(seed ^ 0xfeed).bytes(len)
}
pub fn body_hash(body: &str, raw: &[u8]) -> String {
    format!("{:016x}", hash_of(&(body.as_bytes(), raw)))
}

pub fn reason_json(r: &ExitReason) -> Value {
    json!(match r {
        ExitReason::Normal => "normal".to_string(),
        ExitReason::Kill => "kill".to_string(),
        ExitReason::Ignore => "ignore".to_string(),
        ExitReason::Custom(s) => format!("custom:{s}"),
    })
}
pub fn reason_of(s: &str) -> ExitReason {
    match s {
        "normal" => ExitReason::Normal,
        "kill" => ExitReason::Kill,
        "ignore" => ExitReason::Ignore,
        s => ExitReason::Custom(s.strip_prefix("custom:").unwrap_or(s).to_string()),
    }
}

/// A name for a process that means the same on every node.
pub fn gid(pid: Pid) -> String {
    match serde_json::to_value(pid) {
        Ok(Value::Object(o)) => match o.get("WithNode").and_then(|v| v.as_array()) {
            Some(a) => format!("{}@{}@{}", a[0], a[1].as_str().unwrap_or("?"), a[2].as_str().unwrap_or("?")),
            None => Value::Object(o).to_string(),
        },
        other => format!("{other:?}"),
    }
}

// ---------------------------------------------------------------------------------------------
// The agent
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Known {
    Pid(Pid),
    Ref(Reference),
}

type Job = (Value, u64);

struct Agent0 {
    actors: Mutex<BTreeMap<String, mpsc::UnboundedSender<Job>>>,
    known: Mutex<BTreeMap<String, Known>>,
}

static AGENT: std::sync::OnceLock<Agent0> = std::sync::OnceLock::new();
static SEQ: AtomicU64 = AtomicU64::new(1);

fn agent() -> &'static Agent0 {
    AGENT.get_or_init(|| Agent0 { actors: Default::default(), known: Default::default() })
}

fn out(v: Value) {
    let mut text = v.to_string();
    text.push('\n');
    let so = std::io::stdout();
    let mut so = so.lock();
    if so.write_all(text.as_bytes()).is_err() || so.flush().is_err() {
        std::process::exit(0);
    }
}

fn event(actor: &str, mut v: Value) {
    v["a"] = json!(actor);
    v["n"] = json!(SEQ.fetch_add(1, Ordering::SeqCst));
    out(json!({"ev": v}));
}

fn known_pid(label: &str) -> Result<Pid, String> {
    match agent().known.lock().unwrap().get(label) {
        Some(Known::Pid(p)) => Ok(*p),
        other => Err(format!("no pid {label}: {other:?}")),
    }
}
fn known_ref(label: &str) -> Result<Reference, String> {
    match agent().known.lock().unwrap().get(label) {
        Some(Known::Ref(p)) => Ok(*p),
        other => Err(format!("no ref {label}: {other:?}")),
    }
}
fn know(label: &str, k: Known) {
    agent().known.lock().unwrap().insert(label.to_string(), k);
}
fn ref_label(r: Reference) -> String {
    let known = agent().known.lock().unwrap();
    for (l, k) in known.iter() {
        if let Known::Ref(x) = k {
            if *x == r && !l.starts_with('+') {
                return l.clone();
            }
        }
    }
    format!("{r:?}")
}

fn text<'a>(v: &'a Value, key: &str) -> Result<&'a str, String> {
    v[key].as_str().ok_or_else(|| format!("missing {key} in {v}"))
}

fn node_of(s: &str) -> Result<Node, String> {
    Ok(Node::from(s))
}

fn dest_of(v: &Value) -> Result<Dest, String> {
    if let Some(l) = v["pid"].as_str() {
        return Ok(Dest::Pid(known_pid(l)?));
    }
    if let Some(l) = v["alias"].as_str() {
        return Ok(Dest::Alias(known_ref(l)?));
    }
    let name = text(v, "name")?.to_string();
    Ok(match v["node"].as_str() {
        None | Some("local") => Dest::from(name),
        Some(n) => Dest::from((name, node_of(n)?)),
    })
}

fn dest_json(d: &Dest) -> Value {
    match d {
        Dest::Pid(p) => json!({"pid": gid(*p), "local": p.is_local()}),
        Dest::Named(n, node) => json!({"name": n.to_string(), "node": if node.is_local() { "local".to_string() } else { format!("{}@{}", node.name().unwrap_or("?"), node.address().map(|a| a.to_string()).unwrap_or_default()) }}),
        Dest::Alias(r) => json!({"alias": ref_label(*r)}),
    }
}

fn node_json(node: &Node) -> String {
    match node {
        Node::Local => "local".into(),
        Node::Remote(n, a) => format!("{n}@{a}"),
    }
}

// A server to call.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ask {
    Ask { id: u64, body: String, delay: u64, mode: u8 },
    Answer { id: u64, hash: u64, by: Pid },
}
pub struct Srv {
    name: String,
    handled: u64,
}
impl GenServer for Srv {
    type Message = Ask;
    async fn init(&mut self) -> Result<(), ExitReason> {
        Ok(())
    }
    async fn handle_call(&mut self, message: Ask, from: From) -> Result<Option<Ask>, ExitReason> {
        let Ask::Ask { id, body, delay, mode } = message else {
            return Ok(None);
        };
        self.handled += 1;
        event(&self.name, json!({"ev": "asked", "id": id}));
        let answer = Ask::Answer { id, hash: hash_of(&body.as_bytes()), by: Process::current() };
        match mode {
            // Replies now, later, from another process, never, or dies.
            0 => {
                if delay > 0 {
                    Process::sleep(Duration::from_millis(delay)).await;
                }
                Ok(Some(answer))
            }
            1 => {
                Process::spawn(async move {
                    Process::sleep(Duration::from_millis(delay)).await;
                    Srv::reply(from, answer);
                });
                Ok(None)
            }
            2 => Ok(None),
            _ => Err(ExitReason::from("srv-stop")),
        }
    }
    async fn handle_cast(&mut self, message: Ask) -> Result<(), ExitReason> {
        if let Ask::Ask { id, body, .. } = message {
            event(&self.name, json!({"ev": "cast", "id": id, "hash": format!("{:x}", hash_of(&body.as_bytes()))}));
        }
        Ok(())
    }
}

async fn actor_job(name: &str, v: &Value) -> Result<Value, String> {
    let op = text(v, "op")?;
    match op {
        "flush" => Ok(json!(null)),
        "send" => {
            let dests: Vec<Dest> = v["to"].as_array().ok_or("to")?.iter().map(dest_of).collect::<Result<_, _>>()?;
            let pids = v["pids"].as_array().map(|a| a.iter().map(|l| known_pid(l.as_str().unwrap_or(""))).collect::<Result<Vec<_>, _>>()).transpose()?.unwrap_or_default();
            let refs = v["refs"].as_array().map(|a| a.iter().map(|l| known_ref(l.as_str().unwrap_or(""))).collect::<Result<Vec<_>, _>>()).transpose()?.unwrap_or_default();
            let carried = v["dests"].as_array().map(|a| a.iter().map(dest_of).collect::<Result<Vec<_>, _>>()).transpose()?.unwrap_or_default();
            let times = v["times"].as_u64().unwrap_or(1);
            let first = v["first"].as_u64().unwrap_or(0);
            let seed = v["seed"].as_u64().unwrap_or(0);
            let len = v["len"].as_u64().unwrap_or(0) as usize;
            for i in 0..times {
                let tag = if v["times"].is_null() { text(v, "tag")?.to_string() } else { format!("{}#{}", text(v, "tag")?, first + i) };
                let s = seed + i;
                let payload = Payload { tag, body: body_of(s, len), raw: raw_of(s, len / 3), pids: pids.clone(), refs: refs.clone(), dests: carried.clone() };
                if dests.len() == 1 && v["list"].is_null() {
                    Process::send(dests[0].clone(), payload);
                } else {
                    Process::send(dests.clone(), payload);
                }
                if v["pace"].as_u64().is_some_and(|n| n > 0 && (i + 1) % n == 0) {
                    tokio::task::yield_now().await;
                }
            }
            Ok(json!(null))
        }
        "trap" => {
            Process::set_flags(if v["on"].as_bool().unwrap_or(true) { ProcessFlags::TRAP_EXIT } else { ProcessFlags::empty() });
            Ok(json!(null))
        }
        "link" => {
            Process::link(known_pid(text(v, "pid")?)?);
            Ok(json!(null))
        }
        "unlink" => {
            Process::unlink(known_pid(text(v, "pid")?)?);
            Ok(json!(null))
        }
        "monitor" => {
            let dest = dest_of(&v["to"])?;
            let r = match v["alias"].as_bool() {
                Some(reply) => Process::monitor_alias(dest, reply),
                None => Process::monitor(dest),
            };
            know(text(v, "ref")?, Known::Ref(r));
            Ok(json!(null))
        }
        "demonitor" => {
            Process::demonitor(known_ref(text(v, "ref")?)?);
            Ok(json!(null))
        }
        "node_monitor" => {
            let r = Node::monitor(node_of(text(v, "node")?)?);
            know(text(v, "ref")?, Known::Ref(r));
            Ok(json!(null))
        }
        "node_demonitor" => {
            Node::demonitor(known_ref(text(v, "ref")?)?);
            Ok(json!(null))
        }
        "alias" => {
            let r = Process::alias(v["reply"].as_bool().unwrap_or(false));
            know(text(v, "ref")?, Known::Ref(r));
            Ok(json!(null))
        }
        "unalias" => Ok(json!(Process::unalias(known_ref(text(v, "ref")?)?))),
        // How many of these were aliases of this actor.
        "unalias_all" => {
            let refs = v["refs"].as_array().ok_or("refs")?.iter().map(|l| known_ref(l.as_str().unwrap_or(""))).collect::<Result<Vec<_>, _>>()?;
            Ok(json!(refs.into_iter().filter(|r| Process::unalias(*r)).count()))
        }
        "timer" => {
            let payload = Payload { tag: text(v, "tag")?.to_string(), body: body_of(0, 1), raw: raw_of(0, 0), pids: Vec::new(), refs: Vec::new(), dests: Vec::new() };
            let r = Process::send_after(dest_of(&v["to"])?, payload, Duration::from_millis(v["after"].as_u64().unwrap_or(0)));
            know(text(v, "ref")?, Known::Ref(r));
            Ok(json!(null))
        }
        // How many of these were timers of this node; then they are cancelled.
        "cancel_all" => {
            let refs = v["refs"].as_array().ok_or("refs")?.iter().map(|l| known_ref(l.as_str().unwrap_or(""))).collect::<Result<Vec<_>, _>>()?;
            let known = refs.iter().filter(|r| Process::read_timer(**r).is_some()).count();
            refs.into_iter().for_each(Process::cancel_timer);
            Ok(json!(known))
        }
        "exit" => {
            Process::exit(known_pid(text(v, "pid")?)?, reason_of(text(v, "reason")?));
            Ok(json!(null))
        }
        "call" => {
            let dest = dest_of(&v["to"])?;
            let id = v["id"].as_u64().unwrap_or(0);
            let len = v["len"].as_u64().unwrap_or(0) as usize;
            let body = body_of(id, len);
            let want = hash_of(&body.as_bytes());
            let ask = Ask::Ask { id, body, delay: v["delay"].as_u64().unwrap_or(0), mode: v["mode"].as_u64().unwrap_or(0) as u8 };
            let timeout = v["timeout"].as_u64().map(Duration::from_millis);
            Ok(match Srv::call(dest, ask, timeout).await {
                Ok(Ask::Answer { id: got, hash, by }) => json!({"ok": got, "same": hash == want, "by": gid(by)}),
                Ok(other) => json!({"bad": format!("{other:?}")}),
                Err(CallError::Timeout(_)) => json!({"err": "timeout"}),
                Err(CallError::ServerDown(r)) => json!({"err": "down", "reason": reason_json(&r)}),
            })
        }
        "cast" => {
            let dest = dest_of(&v["to"])?;
            let id = v["id"].as_u64().unwrap_or(0);
            let body = body_of(id, v["len"].as_u64().unwrap_or(0) as usize);
            Srv::cast(dest, Ask::Ask { id, body, delay: 0, mode: 0 });
            Ok(json!(null))
        }
        "sleep" => {
            Process::sleep(Duration::from_millis(v["ms"].as_u64().unwrap_or(0))).await;
            Ok(json!(null))
        }
        // Lets the mailbox fill without looking at what is in it.
        "queued" => {
            let n = v["n"].as_u64().unwrap_or(1) as usize;
            while Process::info(Process::current()).map_or(0, |i| i.message_queue_len) < n {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            Ok(json!(null))
        }
        // Looks through the mailbox for something that is not there.
        "skip" => {
            let look = Process::receiver().for_message::<Payload>().select(|m| matches!(m, Message::User(p) if p.tag == "there is no such thing"));
            let _ = tokio::time::timeout(Duration::from_millis(v["ms"].as_u64().unwrap_or(3)), look).await;
            Ok(json!(null))
        }
        "mark" => {
            event(name, json!({"ev": v["as"].as_str().unwrap_or("mark")}));
            Ok(json!(null))
        }
        _ => Err(format!("{name}: unknown op {op}")),
    }
}

async fn actor(name: String, mut rx: mpsc::UnboundedReceiver<Job>) {
    loop {
        tokio::select! {
            job = rx.recv() => {
                let Some((v, id)) = job else {
                    return;
                };
                match v["op"].as_str() {
                    Some("return") => {
                        out(json!({"re": id, "v": null}));
                        return;
                    }
                    Some("panic") => {
                        out(json!({"re": id, "v": null}));
                        let text = v["text"].as_str().unwrap_or("");
                        crate::expected_panic(text);
                    }
                    Some("die") => {
                        out(json!({"re": id, "v": null}));
                        Process::exit(Process::current(), reason_of(v["reason"].as_str().unwrap_or("")));
                        tokio::task::yield_now().await;
                    }
                    Some("batch") => {
                        let mut bad = Value::Null;
                        for step in v["jobs"].as_array().cloned().unwrap_or_default() {
                            if let Err(e) = actor_job(&name, &step).await {
                                bad = json!(e);
                                break;
                            }
                        }
                        out(json!({"re": id, "v": bad}));
                    }
                    _ => match actor_job(&name, &v).await {
                        Ok(r) => out(json!({"re": id, "v": r})),
                        Err(e) => out(json!({"re": id, "err": e})),
                    },
                }
            }
            message = Process::receiver().for_message::<Payload>().strict_type_checking().receive() => {
                match message {
                    Message::User(p) => {
                        for (i, pid) in p.pids.iter().enumerate() {
                            know(&format!("+{}.p{i}", p.tag), Known::Pid(*pid));
                        }
                        for (i, r) in p.refs.iter().enumerate() {
                            know(&format!("+{}.r{i}", p.tag), Known::Ref(*r));
                        }
                        event(&name, json!({
                            "ev": "msg", "tag": p.tag, "hash": body_hash(&p.body, &p.raw), "len": p.body.len(),
                            "pids": p.pids.iter().map(|x| gid(*x)).collect::<Vec<_>>(),
                            "local": p.pids.iter().map(|x| x.is_local()).collect::<Vec<_>>(),
                            "me": p.pids.iter().map(|x| *x == Process::current()).collect::<Vec<_>>(),
                            "rlocal": p.refs.iter().map(|x| x.is_local()).collect::<Vec<_>>(),
                            "refs": p.refs.iter().map(|x| ref_label(*x)).collect::<Vec<_>>(),
                            "dests": p.dests.iter().map(dest_json).collect::<Vec<_>>(),
                        }));
                    }
                    Message::System(SystemMessage::Exit(pid, reason)) => {
                        event(&name, json!({"ev": "exit", "from": gid(pid), "local": pid.is_local(), "reason": reason_json(&reason)}));
                    }
                    Message::System(SystemMessage::ProcessDown(dest, r, reason)) => {
                        event(&name, json!({"ev": "down", "dest": dest_json(&dest), "ref": ref_label(r), "reason": reason_json(&reason)}));
                    }
                    Message::System(SystemMessage::NodeDown(node, r)) => {
                        event(&name, json!({"ev": "nodedown", "node": node_json(&node), "ref": ref_label(r)}));
                    }
                }
            }
        }
    }
}

/// A local watcher, so that the controller learns the end of every actor and its reason.
async fn watched(name: String, rx: mpsc::UnboundedReceiver<Job>, ready: tokio::sync::oneshot::Sender<Pid>) {
    let (pid, _) = Process::spawn_monitor(actor(name.clone(), rx));
    ready.send(pid).ok();
    if let Message::System(SystemMessage::ProcessDown(_, _, reason)) = Process::receive::<()>().await {
        agent().actors.lock().unwrap().remove(&name);
        event(&name, json!({"ev": "ended", "reason": reason_json(&reason)}));
    }
}

async fn agent_job(v: &Value) -> Result<Value, String> {
    match text(v, "op")? {
        "ping" => Ok(json!("pong")),
        "start" => {
            let mut o = NodeOptions::new()
                .listen_address(text(v, "listen")?.parse::<SocketAddr>().map_err(|e| e.to_string())?)
                .broadcast_address(text(v, "broadcast")?.parse::<SocketAddr>().map_err(|e| e.to_string())?);
            if let Some(ms) = v["handshake"].as_u64() {
                o = o.handshake_timeout(Duration::from_millis(ms));
            }
            if let Some(ms) = v["interval"].as_u64() {
                o = o.heartbeat_interval(Duration::from_millis(ms));
            }
            if let Some(ms) = v["timeout"].as_u64() {
                o = o.heartbeat_timeout(Duration::from_millis(ms));
            }
            Node::start(text(v, "name")?.to_string(), o);
            Ok(json!(null))
        }
        "stop" => {
            Node::stop();
            Ok(json!(null))
        }
        "cookie" => {
            match v["cookie"].as_str() {
                Some(c) => Node::set_cookie(c),
                None => Node::clear_cookie(),
            }
            Ok(json!(null))
        }
        "connect" => {
            Node::connect(node_of(text(v, "node")?)?);
            Ok(json!(null))
        }
        "disconnect" => {
            Node::disconnect(node_of(text(v, "node")?)?);
            Ok(json!(null))
        }
        "forget" => {
            Node::forget(node_of(text(v, "node")?)?);
            Ok(json!(null))
        }
        "nodes" => {
            let state = |s| {
                let mut l = Node::list_by_state(s).iter().map(node_json).collect::<Vec<_>>();
                l.sort();
                l
            };
            let mut all: Vec<String> = Node::list().iter().map(node_json).collect();
            all.sort();
            Ok(json!({
                "alive": Node::alive(), "all": all,
                "current": state(NodeState::Current), "known": state(NodeState::Known),
                "pending": state(NodeState::Pending), "connected": state(NodeState::Connected),
            }))
        }
        "actor" => {
            let name = text(v, "name")?.to_string();
            let (tx, rx) = mpsc::unbounded_channel();
            let (ready, done) = tokio::sync::oneshot::channel();
            Process::spawn(watched(name.clone(), rx, ready));
            let pid = done.await.map_err(|e| e.to_string())?;
            agent().actors.lock().unwrap().insert(name.clone(), tx);
            know(&name, Known::Pid(pid));
            if v["register"].as_bool().unwrap_or(false) {
                Process::register(pid, name.clone()).map_err(|e| format!("{e:?}"))?;
            }
            Ok(json!(gid(pid)))
        }
        "server" => {
            let name = text(v, "name")?.to_string();
            let mut options = GenServerOptions::new();
            if v["register"].as_bool().unwrap_or(false) {
                options = options.name(name.clone());
            }
            let pid = Srv { name: name.clone(), handled: 0 }.start(options).await.map_err(|e| format!("{e:?}"))?;
            know(&name, Known::Pid(pid));
            Ok(json!(gid(pid)))
        }
        "register" => Process::register(known_pid(text(v, "pid")?)?, text(v, "name")?.to_string()).map(|_| json!(null)).map_err(|e| format!("{e:?}")),
        "whereis" => Ok(Process::whereis(text(v, "name")?).map_or(Value::Null, |p| json!(gid(p)))),
        "unregister" => {
            Process::unregister(text(v, "name")?);
            Ok(json!(null))
        }
        "export" => Ok(match agent().known.lock().unwrap().get(text(v, "label")?).cloned() {
            Some(Known::Pid(p)) => json!({"pid": serde_json::to_value(p).unwrap()}),
            Some(Known::Ref(p)) => json!({"ref": serde_json::to_value(p).unwrap()}),
            None => json!(null),
        }),
        "import" => {
            let label = text(v, "label")?;
            if !v["what"]["pid"].is_null() {
                let p: Pid = serde_json::from_value(v["what"]["pid"].clone()).map_err(|e| e.to_string())?;
                know(label, Known::Pid(p));
                Ok(json!(p.is_local()))
            } else {
                let p: Reference = serde_json::from_value(v["what"]["ref"].clone()).map_err(|e| e.to_string())?;
                know(label, Known::Ref(p));
                Ok(json!(p.is_local()))
            }
        }
        "same" => {
            let known = agent().known.lock().unwrap();
            Ok(match (known.get(text(v, "a")?), known.get(text(v, "b")?)) {
                (Some(Known::Pid(a)), Some(Known::Pid(b))) => json!(a == b),
                (Some(Known::Ref(a)), Some(Known::Ref(b))) => json!(a == b),
                _ => json!(null),
            })
        }
        "info" => {
            let pid = known_pid(text(v, "pid")?)?;
            Ok(match Process::info(pid) {
                Some(i) => json!({
                    "links": i.links.iter().map(|p| gid(*p)).collect::<Vec<_>>(),
                    "monitored_by": i.monitored_by.iter().filter(|p| p.is_remote()).map(|p| gid(*p)).collect::<Vec<_>>(),
                    "queue": i.message_queue_len, "alive": Process::alive(pid),
                }),
                None => json!(null),
            })
        }
        "kill" => {
            Process::exit(known_pid(text(v, "pid")?)?, ExitReason::Kill);
            Ok(json!(null))
        }
        "stats" => Ok(json!({
            "procs": Process::list().len(), "names": Process::registered().len(),
            "live": crate::alloc::live(), "bytes": crate::alloc::bytes(), "peak": crate::alloc::PEAK.load(Ordering::Relaxed),
        })),
        "reset_peak" => {
            crate::alloc::PEAK.store(crate::alloc::bytes(), Ordering::Relaxed);
            Ok(json!(null))
        }
        "chaos" => {
            dashmap::chaos::configure(v["seed"].as_u64().unwrap_or(1), v["prob"].as_u64().unwrap_or(0) as u32, v["us"].as_u64().unwrap_or(1) as u32);
            Ok(json!(null))
        }
        op => match EXTRA.get() {
            Some(f) => f(v.clone()).await,
            None => Err(format!("unknown op {op}")),
        },
    }
}

/// What else a binary wants its agents to be able to do.
#[allow(clippy::type_complexity)]
pub static EXTRA: std::sync::OnceLock<fn(Value) -> std::pin::Pin<Box<dyn std::future::Future<Output = Result<Value, String>> + Send>>> = std::sync::OnceLock::new();

/// Runs as an agent when asked to, and never returns then.
pub fn agent_if_requested() {
    let args: Vec<String> = std::env::args().collect();
    let Some(at) = args.iter().position(|a| a == "--agent") else {
        return;
    };
    let threads: usize = args.get(at + 1).and_then(|s| s.parse().ok()).unwrap_or(2);
    std::panic::set_hook(Box::new(|info| {
        let file = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        let line = info.location().map(|l| l.line()).unwrap_or_default();
        let payload = info.payload();
        let message = payload
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| payload.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        if !message.starts_with("[expected]") {
            out(json!({"panic": {"file": file, "line": line, "message": message}}));
        }
    }));
    let rt = crate::runtime_threads(threads);
    let handle = rt.handle().clone();
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(line) = line else {
            break;
        };
        let Ok(v) = serde_json::from_str::<Value>(&line) else {
            continue;
        };
        let id = v["id"].as_u64().unwrap_or(0);
        let _guard = handle.enter();
        if let Some(actor) = v["actor"].as_str() {
            let tx = agent().actors.lock().unwrap().get(actor).cloned();
            if tx.is_none_or(|tx| tx.send((v["job"].clone(), id)).is_err()) {
                out(json!({"re": id, "err": "dead"}));
            }
        } else {
            let job = v["job"].clone();
            Process::spawn(async move {
                let answer = std::panic::AssertUnwindSafe(agent_job(&job));
                match futures_util::FutureExt::catch_unwind(answer).await {
                    Ok(Ok(r)) => out(json!({"re": id, "v": r})),
                    Ok(Err(e)) => out(json!({"re": id, "err": e})),
                    Err(p) => {
                        let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
                        out(json!({"re": id, "err": format!("panicked: {m}")}))
                    }
                }
            });
        }
    }
    std::process::exit(0);
}

// ---------------------------------------------------------------------------------------------
// The controller's side
// ---------------------------------------------------------------------------------------------

#[derive(Default)]
struct Inbox {
    events: Vec<Value>,
    panics: Vec<Value>,
    answers: BTreeMap<u64, Value>,
    closed: bool,
    garbage: Vec<String>,
}

pub struct Agent {
    pub label: String,
    pub address: SocketAddr,
    pub listen: SocketAddr,
    child: Child,
    stdin: Option<ChildStdin>,
    inbox: Arc<(Mutex<Inbox>, Condvar)>,
    next: AtomicU64,
    dead: bool,
}

static NEXT_IP: AtomicU32 = AtomicU32::new(1);

/// An address nobody else on this machine uses: every worker process has its own loopback subnet.
pub fn fresh_address() -> SocketAddr {
    let pid = std::process::id();
    let n = NEXT_IP.fetch_add(1, Ordering::SeqCst);
    let ip = Ipv4Addr::new(127, 16 + ((pid >> 8) % 200) as u8, (pid & 255) as u8, (n % 250 + 1) as u8);
    SocketAddr::V4(SocketAddrV4::new(ip, 7000 + (n / 250 % 20000) as u16))
}

impl Agent {
    pub fn spawn(label: &str, threads: usize) -> Agent {
        let exe = std::env::current_exe().expect("exe");
        let mut child = Command::new(exe)
            .args(["--agent", &threads.to_string()])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(if std::env::var("HV_PANICS").is_ok() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .expect("agent");
        let stdin = child.stdin.take();
        let stdout = child.stdout.take().expect("stdout");
        let inbox: Arc<(Mutex<Inbox>, Condvar)> = Default::default();
        let theirs = inbox.clone();
        let verbose = std::env::var("HV_NET").is_ok();
        let name = label.to_string();
        std::thread::spawn(move || {
            let reader = std::io::BufReader::with_capacity(1 << 16, stdout);
            for line in reader.lines() {
                let Ok(line) = line else { break };
                if verbose {
                    eprintln!("<{name} {line}");
                }
                let mut inbox = theirs.0.lock().unwrap();
                match serde_json::from_str::<Value>(&line) {
                    Ok(mut v) => {
                        if let Some(id) = v["re"].as_u64() {
                            inbox.answers.insert(id, v);
                        } else if !v["ev"].is_null() {
                            inbox.events.push(v["ev"].take());
                        } else if !v["panic"].is_null() {
                            inbox.panics.push(v["panic"].take());
                        }
                    }
                    Err(_) => inbox.garbage.push(line),
                }
                theirs.1.notify_all();
            }
            theirs.0.lock().unwrap().closed = true;
            theirs.1.notify_all();
        });
        let address = fresh_address();
        Agent { label: label.to_string(), address, listen: address, child, stdin, inbox, next: AtomicU64::new(1), dead: false }
    }

    pub fn node(&self) -> String {
        format!("{}@{}", self.label, self.address)
    }

    pub fn os_pid(&self) -> i32 {
        self.child.id() as i32
    }

    /// Sends a command without waiting for its answer.
    pub fn post(&self, actor: Option<&str>, job: Value) -> u64 {
        let id = self.next.fetch_add(1, Ordering::SeqCst);
        let line = match actor {
            Some(a) => json!({"id": id, "actor": a, "job": job}),
            None => json!({"id": id, "job": job}),
        };
        if std::env::var("HV_NET").is_ok() {
            eprintln!(">{} {line}", self.label);
        }
        if let Some(mut stdin) = self.stdin.as_ref() {
            let _ = stdin.write_all(format!("{line}\n").as_bytes());
        }
        id
    }

    /// Waits for the answer of a posted command.
    pub fn answer(&self, id: u64) -> Result<Value, String> {
        let start = Instant::now();
        let mut inbox = self.inbox.0.lock().unwrap();
        loop {
            if let Some(mut v) = inbox.answers.remove(&id) {
                return match v["err"].as_str() {
                    Some(e) => Err(e.to_string()),
                    None => Ok(v["v"].take()),
                };
            }
            if inbox.closed {
                return Err("agent gone".into());
            }
            if start.elapsed() > Duration::from_secs(30) {
                return Err("no answer".into());
            }
            inbox = self.inbox.1.wait_timeout(inbox, Duration::from_millis(200)).unwrap().0;
        }
    }

    pub fn try_node(&self, job: Value) -> Result<Value, String> {
        let id = self.post(None, job);
        self.answer(id)
    }
    pub fn try_actor(&self, actor: &str, job: Value) -> Result<Value, String> {
        let id = self.post(Some(actor), job);
        self.answer(id)
    }
    /// A command that has to work.
    pub fn ask(&self, job: Value) -> Value {
        let text = job.to_string();
        self.try_node(job).unwrap_or_else(|e| {
            self.failed(&text, &e);
            Value::Null
        })
    }
    pub fn tell(&self, actor: &str, job: Value) -> Value {
        let text = job.to_string();
        self.try_actor(actor, job).unwrap_or_else(|e| {
            self.failed(&text, &e);
            Value::Null
        })
    }
    fn failed(&self, text: &str, e: &str) {
        if e == "no answer" {
            violation("agent-stuck", json!({"agent": self.label, "command": text}));
        } else if e == "agent gone" {
            violation("node-process-ended", json!({"agent": self.label, "command": text}));
        } else {
            violation("command-failed", json!({"agent": self.label, "command": text, "error": e}));
        }
    }

    pub fn start_node(&self, extra: Value) {
        let mut job = json!({"op": "start", "name": self.label, "listen": self.listen.to_string(), "broadcast": self.address.to_string()});
        for (k, v) in extra.as_object().cloned().unwrap_or_default() {
            job[k] = v;
        }
        self.ask(job);
        self.listening();
    }

    /// Waits until the node accepts connections.
    pub fn listening(&self) {
        let start = Instant::now();
        while start.elapsed() < Duration::from_secs(20) {
            // Not a connection attempt, which would be a broken handshake; looks at the socket table.
            let text = std::fs::read_to_string("/proc/net/tcp").unwrap_or_default();
            let SocketAddr::V4(a) = self.listen else { return };
            let ip = u32::from_le_bytes(a.ip().octets());
            let want = format!("{ip:08X}:{:04X} 00000000:0000 0A", a.port());
            if text.contains(&want) {
                return;
            }
            std::thread::sleep(Duration::from_millis(3));
        }
        inconclusive("node does not listen");
    }

    pub fn actor(&self, name: &str, register: bool) -> String {
        self.ask(json!({"op": "actor", "name": name, "register": register})).as_str().unwrap_or("").to_string()
    }

    pub fn events(&self) -> Vec<Value> {
        self.inbox.0.lock().unwrap().events.clone()
    }
    pub fn events_of(&self, actor: &str) -> Vec<Value> {
        self.inbox.0.lock().unwrap().events.iter().filter(|e| e["a"] == actor).cloned().collect()
    }
    pub fn count_events(&self, f: impl Fn(&Value) -> bool) -> usize {
        self.inbox.0.lock().unwrap().events.iter().filter(|e| f(e)).count()
    }
    pub fn panics(&self) -> Vec<Value> {
        self.inbox.0.lock().unwrap().panics.clone()
    }
    pub fn nodes(&self) -> Value {
        self.ask(json!({"op": "nodes"}))
    }
    pub fn in_state(&self, state: &str, node: &str) -> bool {
        self.nodes()[state].as_array().is_some_and(|a| a.iter().any(|n| n == node))
    }
    pub fn info(&self, pid: &str) -> Value {
        self.ask(json!({"op": "info", "pid": pid}))
    }
    /// Gives this agent a pid or reference another one knows, through its public serialised form.
    pub fn learn(&self, from: &Agent, label: &str, as_label: &str) {
        let what = from.ask(json!({"op": "export", "label": label}));
        self.ask(json!({"op": "import", "label": as_label, "what": what}));
    }

    pub fn exited(&mut self) -> Option<std::process::ExitStatus> {
        self.child.try_wait().ok().flatten()
    }
    pub fn signal(&self, signal: i32) {
        unsafe {
            libc::kill(self.child.id() as i32, signal);
        }
    }
    /// The end of the whole node, without any goodbye.
    pub fn murder(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        self.dead = true;
    }
    pub fn alive(&mut self) -> bool {
        !self.dead && self.exited().is_none()
    }

    /// Panics in places where no connection is to blame.
    pub fn judge_panics(&self, allowed: &[&str]) {
        for p in self.panics() {
            let file = p["file"].as_str().unwrap_or("");
            let message = p["message"].as_str().unwrap_or("");
            count("panics.seen", 1);
            if allowed.iter().any(|a| message.contains(a)) {
                continue;
            }
            let base = file.rsplit('/').next().unwrap_or("").to_string();
            if base.starts_with("node_remote") {
                // How a connection process ends when its connection does.
                continue;
            }
            let head: String = message.chars().take(50).filter(|c| !c.is_ascii_digit()).collect();
            violation(format!("internal-panic:{base}:{head}"), p.clone());
        }
    }
}

impl Drop for Agent {
    fn drop(&mut self) {
        self.stdin = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Waits until `cond` holds; gives up after many rounds through every agent and a long time.
pub fn wait(agents: &[&Agent], mut cond: impl FnMut() -> bool) -> bool {
    let start = Instant::now();
    let mut rounds = 0;
    loop {
        if cond() {
            return true;
        }
        if rounds > 3 {
            std::thread::sleep(Duration::from_millis(if rounds > 100 { 20 } else { 2 }));
        }
        for a in agents {
            if let Err(e) = a.try_node(json!({"op": "ping"})) {
                violation(if e == "agent gone" { "node-process-ended" } else { "agent-stuck" }, json!({"agent": a.label, "error": e}));
                return cond();
            }
        }
        rounds += 1;
        if rounds > 150 && start.elapsed() > Duration::from_secs(10) {
            return cond();
        }
    }
}

/// A node which is reached through a proxy.
pub fn node_behind(label: &str, rng: &mut Rng, options: &Value) -> (Agent, Proxy) {
    let mut a = Agent::spawn(label, *rng.pick(&[1usize, 2, 4]));
    let listen = fresh_address();
    let proxy = Proxy::new(listen, rng.next());
    a.listen = listen;
    a.address = proxy.address;
    a.start_node(options.clone());
    if rng.chance(1, 3) {
        a.ask(json!({"op": "chaos", "seed": rng.next() >> 1, "prob": *rng.pick(&[4000u32, 15000]), "us": *rng.pick(&[50u32, 300, 900])}));
    }
    (a, proxy)
}

/// Connects two nodes and waits for both to say so.
pub fn connect(a: &Agent, b: &Agent) -> bool {
    a.ask(json!({"op": "connect", "node": b.node()}));
    let ok = wait(&[a, b], || a.in_state("connected", &b.node()) && b.in_state("connected", &a.node()));
    if !ok {
        violation("no-connection", json!({"from": a.nodes(), "to": b.nodes(), "panics": [a.panics(), b.panics()]}));
    }
    ok
}

// ---------------------------------------------------------------------------------------------
// A proxy that mistreats what passes
// ---------------------------------------------------------------------------------------------

pub struct Proxy {
    pub address: SocketAddr,
    state: Arc<ProxyState>,
}
struct ProxyState {
    hold: AtomicBool,
    refuse: AtomicBool,
    stop: AtomicBool,
    split: AtomicU64,
    passed: AtomicU64,
    conns: Mutex<Vec<(TcpStream, TcpStream)>>,
    accepted: AtomicU64,
}

fn pump(mut from: TcpStream, mut to: TcpStream, state: Arc<ProxyState>, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut buffer = vec![0u8; 16384];
    let _ = from.set_read_timeout(Some(Duration::from_millis(100)));
    loop {
        if state.stop.load(Ordering::SeqCst) {
            break;
        }
        if state.hold.load(Ordering::SeqCst) {
            std::thread::sleep(Duration::from_millis(5));
            continue;
        }
        match from.read(&mut buffer) {
            Ok(0) => break,
            Ok(n) => {
                // What was read before the line went silent does not pass either.
                while state.hold.load(Ordering::SeqCst) && !state.stop.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(5));
                }
                state.passed.fetch_add(n as u64, Ordering::Relaxed);
                let split = state.split.load(Ordering::Relaxed);
                let mut at = 0;
                while at < n {
                    let step = if split == 0 { n } else { 1 + rng.below(split) as usize };
                    let end = (at + step).min(n);
                    if to.write_all(&buffer[at..end]).is_err() {
                        return;
                    }
                    at = end;
                    if split > 0 && rng.chance(1, 4) {
                        std::thread::sleep(Duration::from_micros(rng.below(300)));
                    }
                }
            }
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => continue,
            Err(_) => break,
        }
    }
    let _ = to.shutdown(std::net::Shutdown::Write);
    let _ = from.shutdown(std::net::Shutdown::Read);
}

pub fn linger_zero(s: &TcpStream) {
    use std::os::fd::AsRawFd;
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
    }
}

impl Proxy {
    pub fn new(to: SocketAddr, seed: u64) -> Proxy {
        let address = fresh_address();
        let listener = TcpListener::bind(address).expect("proxy");
        let state = Arc::new(ProxyState {
            hold: AtomicBool::new(false),
            refuse: AtomicBool::new(false),
            stop: AtomicBool::new(false),
            split: AtomicU64::new(0),
            passed: AtomicU64::new(0),
            conns: Mutex::new(Vec::new()),
            accepted: AtomicU64::new(0),
        });
        let theirs = state.clone();
        std::thread::spawn(move || {
            let _ = listener.set_nonblocking(true);
            while !theirs.stop.load(Ordering::SeqCst) {
                let Ok((a, _)) = listener.accept() else {
                    std::thread::sleep(Duration::from_millis(2));
                    continue;
                };
                let _ = a.set_nonblocking(false);
                if theirs.refuse.load(Ordering::SeqCst) {
                    continue;
                }
                let Ok(b) = TcpStream::connect(to) else {
                    continue;
                };
                let n = theirs.accepted.fetch_add(1, Ordering::SeqCst);
                let _ = a.set_nodelay(true);
                let _ = b.set_nodelay(true);
                theirs.conns.lock().unwrap().push((a.try_clone().unwrap(), b.try_clone().unwrap()));
                let (a2, b2) = (a.try_clone().unwrap(), b.try_clone().unwrap());
                let (s1, s2) = (theirs.clone(), theirs.clone());
                std::thread::spawn(move || pump(a, b, s1, seed ^ n));
                std::thread::spawn(move || pump(b2, a2, s2, seed ^ n ^ 77));
            }
        });
        Proxy { address, state }
    }
    pub fn split(&self, n: u64) {
        self.state.split.store(n, Ordering::SeqCst);
    }
    /// Neither side hears anything any more, nor learns why.
    pub fn hold(&self, on: bool) {
        self.state.hold.store(on, Ordering::SeqCst);
    }
    pub fn refuse(&self, on: bool) {
        self.state.refuse.store(on, Ordering::SeqCst);
    }
    pub fn passed(&self) -> u64 {
        self.state.passed.load(Ordering::SeqCst)
    }
    pub fn accepted(&self) -> u64 {
        self.state.accepted.load(Ordering::SeqCst)
    }
    /// Ends every connection, by closing or by reset.
    pub fn cut(&self, reset: bool) {
        for (a, b) in std::mem::take(&mut *self.state.conns.lock().unwrap()) {
            if reset {
                linger_zero(&a);
                linger_zero(&b);
            }
            let _ = a.shutdown(std::net::Shutdown::Both);
            let _ = b.shutdown(std::net::Shutdown::Both);
        }
    }
}

impl Drop for Proxy {
    fn drop(&mut self) {
        self.state.stop.store(true, Ordering::SeqCst);
        self.cut(false);
    }
}

// ---------------------------------------------------------------------------------------------
// A peer that speaks bytes
// ---------------------------------------------------------------------------------------------

/// Builds frames; an independent reading of the wire format.
pub mod wire {
    use super::*;
    use hmac::{Hmac, Mac};
    use sha2::Sha256;

    pub fn frame(body: Vec<u8>) -> Vec<u8> {
        let mut v = (body.len() as u32).to_le_bytes().to_vec();
        v.extend(body);
        v
    }
    fn variant(n: u32) -> Vec<u8> {
        n.to_le_bytes().to_vec()
    }
    fn put_bytes(v: &mut Vec<u8>, b: &[u8]) {
        v.extend((b.len() as u64).to_le_bytes());
        v.extend(b);
    }
    fn put_addr(v: &mut Vec<u8>, a: SocketAddr) {
        match a {
            SocketAddr::V4(a) => {
                v.extend(0u32.to_le_bytes());
                v.extend(a.ip().octets());
                v.extend(a.port().to_le_bytes());
            }
            SocketAddr::V6(a) => {
                v.extend(1u32.to_le_bytes());
                v.extend(a.ip().octets());
                v.extend(a.port().to_le_bytes());
            }
        }
    }
    pub fn challenge(cookie: Option<&str>, name: &str, address: SocketAddr) -> Vec<u8> {
        let key = cookie.map(|c| c.as_bytes().to_vec()).unwrap_or_else(|| vec![0]);
        let mut mac = Hmac::<Sha256>::new_from_slice(&key).unwrap();
        mac.update(name.as_bytes());
        mac.update(address.to_string().as_bytes());
        mac.finalize().into_bytes().to_vec()
    }
    pub fn hello_with(name: &str, address: SocketAddr, challenge: &[u8]) -> Vec<u8> {
        let mut v = variant(0);
        put_bytes(&mut v, name.as_bytes());
        put_addr(&mut v, address);
        put_bytes(&mut v, challenge);
        v
    }
    pub fn hello(cookie: Option<&str>, name: &str, address: SocketAddr) -> Vec<u8> {
        hello_with(name, address, &challenge(cookie, name, address))
    }
    pub fn ping() -> Vec<u8> {
        variant(1)
    }
    pub fn pong() -> Vec<u8> {
        variant(2)
    }
    pub enum Target<'a> {
        Pid(u64),
        Named(&'a str),
        Alias(u64),
    }
    pub fn send(targets: &[Target], message: &[u8]) -> Vec<u8> {
        let mut v = variant(3);
        v.extend((targets.len() as u64).to_le_bytes());
        for t in targets {
            match t {
                Target::Pid(id) => {
                    v.extend(0u32.to_le_bytes());
                    v.extend(id.to_le_bytes());
                }
                Target::Named(n) => {
                    v.extend(1u32.to_le_bytes());
                    put_bytes(&mut v, n.as_bytes());
                }
                Target::Alias(id) => {
                    v.extend(2u32.to_le_bytes());
                    v.extend(id.to_le_bytes());
                }
            }
        }
        put_bytes(&mut v, message);
        v
    }
    fn put_opt_u64(v: &mut Vec<u8>, x: Option<u64>) {
        match x {
            Some(x) => {
                v.push(1);
                v.extend(x.to_le_bytes());
            }
            None => v.push(0),
        }
    }
    pub fn monitor(install: bool, id: Option<u64>, name: Option<&str>, from: Option<u64>, reference: u64) -> Vec<u8> {
        let mut v = variant(4);
        v.push(install as u8);
        put_opt_u64(&mut v, id);
        match name {
            Some(n) => {
                v.push(1);
                put_bytes(&mut v, n.as_bytes());
            }
            None => v.push(0),
        }
        put_opt_u64(&mut v, from);
        v.extend(reference.to_le_bytes());
        v
    }
    fn put_reason(v: &mut Vec<u8>, r: &ExitReason) {
        match r {
            ExitReason::Normal => v.extend(0u32.to_le_bytes()),
            ExitReason::Kill => v.extend(1u32.to_le_bytes()),
            ExitReason::Ignore => v.extend(2u32.to_le_bytes()),
            ExitReason::Custom(s) => {
                v.extend(3u32.to_le_bytes());
                put_bytes(v, s.as_bytes());
            }
        }
    }
    pub fn monitor_down(refs: &[u64], reason: &ExitReason) -> Vec<u8> {
        let mut v = variant(5);
        v.extend((refs.len() as u64).to_le_bytes());
        for r in refs {
            v.extend(r.to_le_bytes());
        }
        put_reason(&mut v, reason);
        v
    }
    pub fn monitor_update(process: u64, from: u64, reference: u64) -> Vec<u8> {
        let mut v = variant(6);
        v.extend(process.to_le_bytes());
        v.extend(from.to_le_bytes());
        v.extend(reference.to_le_bytes());
        v
    }
    pub fn link(install: bool, process: u64, from: u64) -> Vec<u8> {
        let mut v = variant(7);
        v.push(install as u8);
        v.extend(process.to_le_bytes());
        v.extend(from.to_le_bytes());
        v
    }
    pub fn link_down(links: &[u64], from: u64, reason: &ExitReason) -> Vec<u8> {
        let mut v = variant(8);
        v.extend((links.len() as u64).to_le_bytes());
        for r in links {
            v.extend(r.to_le_bytes());
        }
        v.extend(from.to_le_bytes());
        put_reason(&mut v, reason);
        v
    }
    pub fn exit(process: u64, from: u64, reason: &ExitReason) -> Vec<u8> {
        let mut v = variant(9);
        v.extend(process.to_le_bytes());
        v.extend(from.to_le_bytes());
        put_reason(&mut v, reason);
        v
    }
    /// A message as an actor understands it.
    pub fn payload(tag: &str) -> Vec<u8> {
        rmp_serde::to_vec_named(&Payload { tag: tag.into(), body: String::new(), raw: vec![], pids: vec![], refs: vec![], dests: vec![] }).unwrap()
    }
}

/// A connection of our own making.
pub struct Peer {
    pub stream: TcpStream,
    buffer: Vec<u8>,
    pub closed: bool,
}

impl Peer {
    pub fn connect(to: SocketAddr) -> std::io::Result<Peer> {
        let stream = TcpStream::connect_timeout(&to, Duration::from_secs(10))?;
        Ok(Peer::from(stream))
    }
    pub fn from(stream: TcpStream) -> Peer {
        let _ = stream.set_nodelay(true);
        let _ = stream.set_read_timeout(Some(Duration::from_millis(20)));
        let _ = stream.set_write_timeout(Some(Duration::from_secs(10)));
        Peer { stream, buffer: Vec::new(), closed: false }
    }
    pub fn write(&mut self, bytes: &[u8]) -> bool {
        self.stream.write_all(bytes).is_ok()
    }
    pub fn write_split(&mut self, bytes: &[u8], rng: &mut Rng, most: u64) -> bool {
        let mut at = 0;
        while at < bytes.len() {
            let end = (at + 1 + rng.below(most) as usize).min(bytes.len());
            if self.stream.write_all(&bytes[at..end]).is_err() {
                return false;
            }
            at = end;
            if rng.chance(1, 3) {
                std::thread::sleep(Duration::from_micros(rng.below(400)));
            }
        }
        true
    }
    fn fill(&mut self) {
        let mut chunk = [0u8; 65536];
        match self.stream.read(&mut chunk) {
            Ok(0) => self.closed = true,
            Ok(n) => self.buffer.extend_from_slice(&chunk[..n]),
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => {}
            Err(_) => self.closed = true,
        }
    }
    fn pop(&mut self) -> Option<Vec<u8>> {
        if self.buffer.len() < 4 {
            return None;
        }
        let n = u32::from_le_bytes(self.buffer[..4].try_into().unwrap()) as usize;
        if self.buffer.len() < 4 + n {
            return None;
        }
        let body = self.buffer[4..4 + n].to_vec();
        self.buffer.drain(..4 + n);
        Some(body)
    }
    /// The next frame, or nothing once the connection has ended or the time is up.
    pub fn next(&mut self, limit: Duration) -> Option<Vec<u8>> {
        let start = Instant::now();
        loop {
            if let Some(f) = self.pop() {
                return Some(f);
            }
            if self.closed || start.elapsed() > limit {
                return None;
            }
            self.fill();
        }
    }
    /// Reads until the other side ends the connection.
    pub fn wait_closed(&mut self, limit: Duration) -> bool {
        let start = Instant::now();
        while !self.closed && start.elapsed() < limit {
            self.fill();
        }
        self.closed
    }
    /// Greets like a node does and reads the greeting of the other side.
    pub fn greet(&mut self, cookie: Option<&str>, name: &str, address: SocketAddr) -> Option<Vec<u8>> {
        self.write(&wire::frame(wire::hello(cookie, name, address)));
        self.next(Duration::from_secs(10))
    }
}
