//! C24: what processes and nodes are addressed by are values: they compare, convert and travel as what
//! they denote.
use std::collections::BTreeSet;
use std::net::SocketAddr;
use std::sync::{Arc, Barrier};
use std::time::Duration;

use hv::net::fresh_address;
use hv::*;
use hydra::{Dest, Dests, ExitReason, Message, Node, NodeOptions, NodeState, Pid, Process, Reference};
use serde::{de::DeserializeOwned, Deserialize, Serialize};

/// What a value denotes, decided when it was made: equal tokens, equal values, and only then.
type Token = (u8, u64, String, String);

struct Pool {
    pids: Vec<(Pid, Token)>,
    refs: Vec<(Reference, Token)>,
    nodes: Vec<(Node, Token)>,
    dests: Vec<(Dest, Token)>,
    reasons: Vec<(ExitReason, Token)>,
}

fn addresses(rng: &mut Rng) -> SocketAddr {
    let port = *rng.pick(&[0u16, 1, 80, 7000, 7001, 65535]);
    match rng.below(4) {
        0 => SocketAddr::from(([127, 0, 0, rng.below(3) as u8], port)),
        1 => SocketAddr::from(([0, 0, 0, 0, 0, 0, 0, rng.below(3) as u16], port)),
        2 => SocketAddr::from(([0, 0, 0, 0, 0, 0xffff, 0x7f00, rng.below(3) as u16], port)),
        _ => SocketAddr::from(([0xfe80, 0, 0, 0, 1, 2, 3, rng.below(3) as u16], port)),
    }
}

fn name(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => rng.string(8).replace('@', "#"),
        1 => "local".into(),
        2 => "nohost".into(),
        3 => String::new(),
        4 => format!("n{}", rng.below(3)),
        _ => "näme ☃".into(),
    }
}

fn imported<T: DeserializeOwned>(id: u64, name: &str, address: SocketAddr) -> Option<T> {
    serde_json::from_value(json!({"WithNode": [id, name, address.to_string()]})).ok()
}

fn pool(rng: &mut Rng, me: Option<&(String, SocketAddr)>) -> Pool {
    let mut p = Pool { pids: vec![], refs: vec![], nodes: vec![], dests: vec![], reasons: vec![] };
    for i in 0..rng.range(2, 5) {
        let pid = if rng.bool() { Process::spawn(async {}) } else { Process::spawn(forever()) };
        p.pids.push((pid, (0, 0, String::new(), format!("own{i}"))));
        p.refs.push((Reference::new(), (1, 0, String::new(), format!("own{i}"))));
    }
    let local: Token = (2, 0, String::new(), String::new());
    p.nodes.push((Node::Local, local.clone()));
    p.nodes.push((Node::current(), local.clone()));
    p.nodes.push((Node::from("local"), local.clone()));
    for _ in 0..rng.range(2, 8) {
        let (mut n, mut a) = (name(rng), addresses(rng));
        // Like this node in all but one respect.
        if let Some((my_name, my_address)) = me {
            match rng.below(8) {
                0 => n = my_name.clone(),
                1 => a = *my_address,
                2 => {
                    n = my_name.clone();
                    a = SocketAddr::new(my_address.ip(), a.port());
                }
                3 => {
                    n = my_name.clone();
                    a = SocketAddr::new(a.ip(), my_address.port());
                }
                _ => {}
            }
            if (&n, &a) == (my_name, my_address) {
                continue;
            }
        }
        let token = (2, 0, n.clone(), a.to_string());
        let node = match rng.below(4) {
            0 => Node::from((n.as_str(), a)),
            1 => Node::from((n.clone(), a)),
            2 => Node::from(format!("{n}@{a}")),
            _ => Node::from(format!("{n}@{a}").as_str()),
        };
        p.nodes.push((node.clone(), token.clone()));
        if me.is_some() {
            // The same few ids on several nodes.
            for _ in 0..rng.range(1, 3) {
                let id = rng.range(1, 3);
                let (Some(pid), Some(r)) = (imported::<Pid>(id, &n, a), imported::<Reference>(id, &n, a)) else {
                    violation("id-not-read", json!({"name": n, "address": a.to_string()}));
                    continue;
                };
                p.pids.push((pid, (0, id, n.clone(), a.to_string())));
                p.refs.push((r, (1, id, n.clone(), a.to_string())));
            }
        }
    }
    if let Some((n, a)) = me {
        // Its own processes as others know them.
        let own: Vec<(Pid, Token)> = p.pids.iter().filter(|x| x.1 .1 == 0).cloned().collect();
        for (pid, token) in own {
            let form = serde_json::to_value(pid).unwrap_or_default();
            check(form["WithNode"][1] == *n && form["WithNode"][2] == a.to_string(), "own-id-without-its-node", || form.clone());
            let back: Option<Pid> = serde_json::from_value(form.clone()).ok();
            check(back == Some(pid), "own-id-comes-home-as-another", || json!({"form": form, "back": format!("{back:?}")}));
            p.pids.push((back.unwrap_or(pid), token));
        }
    }
    for (pid, t) in &p.pids {
        p.dests.push((Dest::from(*pid), (3, t.1, t.2.clone(), t.3.clone())));
    }
    for (r, t) in &p.refs {
        p.dests.push((Dest::from(*r), (4, t.1, t.2.clone(), t.3.clone())));
    }
    for _ in 0..rng.range(2, 6) {
        let n = name(rng);
        let (node, t) = rng.pick(&p.nodes).clone();
        let token = (5, 0, format!("{n}/{}", t.2), t.3.clone());
        let dest = match (node.is_local(), rng.below(3)) {
            (true, 0) => Dest::from(n),
            (true, 1) => Dest::from((n, "local")),
            (_, _) => Dest::from((n, node)),
        };
        p.dests.push((dest, token));
    }
    p.dests.push((Dest::from("fixed"), (5, 0, "fixed/".into(), String::new())));
    p.dests.push((Dest::from(("fixed", Node::Local)), (5, 0, "fixed/".into(), String::new())));
    for r in [ExitReason::Normal, ExitReason::Kill, ExitReason::Ignore] {
        p.reasons.push((r.clone(), (6, 0, format!("{r:?}"), String::new())));
    }
    for _ in 0..3 {
        let n = (*rng.pick(&["normal", "kill", "ignore", "", "noproc", "Kill", "a"])).to_string();
        let r = if rng.bool() { ExitReason::from(n.as_str()) } else { ExitReason::from(n.clone()) };
        p.reasons.push((r, (7, 0, n, String::new())));
    }
    p
}

/// Equality is what was meant, both ways around.
fn same<T: PartialEq + std::fmt::Debug + Clone>(of: &str, all: &[(T, Token)]) {
    for (a, ta) in all {
        for (b, tb) in all {
            let right = (a == b) == (ta == tb) && (a != b) == (ta != tb) && (b == a) == (a == b) && a.clone() == *a;
            check(right, "equality", || json!({"of": of, "a": format!("{a:?}"), "b": format!("{b:?}"), "meant": [format!("{ta:?}"), format!("{tb:?}")]}));
        }
    }
    evaluated(all.len() as u64);
    cover(&("equality", of, all.len()));
}

/// Hashes and order agree with equality.
fn ordered<T: Ord + std::hash::Hash + Clone + std::fmt::Debug>(of: &str, all: &[(T, Token)]) {
    use std::cmp::Ordering::*;
    let hash = |x: &T| {
        use std::hash::{DefaultHasher, Hasher};
        let mut h = DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    };
    for (a, ta) in all {
        for (b, tb) in all {
            let right = (a.cmp(b) == Equal) == (ta == tb) && a.cmp(b) == b.cmp(a).reverse() && a.partial_cmp(b) == Some(a.cmp(b)) && (ta != tb || hash(a) == hash(b));
            check(right, "order-or-hash", || json!({"of": of, "a": format!("{a:?}"), "b": format!("{b:?}")}));
        }
    }
    let distinct: BTreeSet<&T> = all.iter().map(|x| &x.0).collect();
    let meant: BTreeSet<&Token> = all.iter().map(|x| &x.1).collect();
    let hashed: std::collections::HashSet<&T> = all.iter().map(|x| &x.0).collect();
    check(distinct.len() == meant.len() && hashed.len() == meant.len(), "order-or-hash", || json!({"of": of, "distinct": distinct.len(), "meant": meant.len()}));
}

/// Comparing across kinds says what the value denotes.
fn across(p: &Pool) {
    for (d, t) in &p.dests {
        for (pid, tp) in &p.pids {
            let meant = t.0 == 3 && (&t.1, &t.2, &t.3) == (&tp.1, &tp.2, &tp.3);
            check((d == pid) == meant && (pid == d) == meant, "destination-against-id", || json!({"dest": format!("{d:?}"), "pid": format!("{pid:?}")}));
        }
        for (r, tr) in &p.refs {
            let meant = t.0 == 4 && (&t.1, &t.2, &t.3) == (&tr.1, &tr.2, &tr.3);
            check((d == r) == meant && (r == d) == meant, "destination-against-reference", || json!({"dest": format!("{d:?}"), "ref": format!("{r:?}")}));
        }
        if let Dest::Named(n, _) = d {
            let n = n.to_string();
            check(*d == n.as_str() && n.as_str() == *d && *d != "another" && "another" != *d, "destination-against-name", || json!({"dest": format!("{d:?}")}));
        } else {
            check(*d != "x" && "x" != *d && *d != "" && "" != *d, "destination-against-name", || json!({"dest": format!("{d:?}")}));
        }
        let local = match t.0 {
            3 | 4 => t.2.is_empty() && t.3.starts_with("own"),
            _ => t.3.is_empty(),
        };
        check(d.is_local() == local && d.is_remote() != local, "local-or-remote", || json!({"dest": format!("{d:?}"), "local": local}));
    }
    for (pid, t) in &p.pids {
        check(pid.is_local() == t.3.starts_with("own") && pid.is_remote() != pid.is_local(), "local-or-remote", || json!({"pid": format!("{pid:?}")}));
    }
    for (r, t) in &p.refs {
        check(r.is_local() == t.3.starts_with("own") && r.is_remote() != r.is_local(), "local-or-remote", || json!({"ref": format!("{r:?}")}));
    }
    for (node, t) in &p.nodes {
        let text = if t.3.is_empty() { "local".to_string() } else { format!("{}@{}", t.2, t.3) };
        for (other, to) in &p.nodes {
            let other_text = if to.3.is_empty() { "local".to_string() } else { format!("{}@{}", to.2, to.3) };
            let meant = t == to;
            let s = other_text.as_str();
            let right = (*node == s) == meant && (s == *node) == meant && (*node == other_text) == meant && (other_text == *node) == meant;
            check(right, "node-against-text", || json!({"node": format!("{node:?}"), "text": other_text}));
            if let (Some(n), Some(a)) = (other.name(), other.address()) {
                check((*node == (n, a)) == meant && (*node == (n.to_string(), a)) == meant, "node-against-name-and-address", || json!({"node": format!("{node:?}"), "other": format!("{other:?}")}));
            }
        }
        let bare = [t.2.clone(), t.3.clone(), format!("@{text}"), format!("{text} "), format!("{text}0x")];
        check(bare.iter().all(|x| (x == "local" && node.is_local()) || (*node != *x && *x != *node)), "node-against-text", || json!({"node": format!("{node:?}"), "texts": bare}));
        check(Node::from(text.clone()) == *node && Node::from(text.as_str()) == *node, "node-from-text", || json!({"node": format!("{node:?}"), "text": text}));
        let parts = if t.3.is_empty() { node.name().is_none() && node.address().is_none() && node.is_local() } else { node.name() == Some(t.2.as_str()) && node.address().map(|a| a.to_string()).as_ref() == Some(&t.3) };
        check(parts && node.is_local() != node.is_remote(), "node-parts", || json!({"node": format!("{node:?}")}));
    }
    for (r, t) in &p.reasons {
        check_compares(None, Some(r));
        for text in ["normal", "kill", "ignore", "", "noproc", "Normal", "Kill", "Ignore", "a"] {
            let meant = t.0 == 7 && t.2 == text;
            check((*r == text) == meant && (text == *r) == meant, "reason-against-text", || json!({"reason": format!("{r:?}"), "text": text}));
        }
    }
    evaluated(p.dests.len() as u64);
}

fn entries(d: Dests) -> Vec<Dest> {
    match d {
        Dests::Dest(d) => vec![d],
        Dests::Dests(l) => l,
    }
}

/// Lists of destinations keep every entry, in order.
fn lists(rng: &mut Rng, p: &Pool) {
    for _ in 0..6 {
        let pids: Vec<Pid> = (0..rng.usize(5)).map(|_| rng.pick(&p.pids).0).collect();
        let want: Vec<Dest> = pids.iter().map(|x| Dest::Pid(*x)).collect();
        let all = [entries(pids.as_slice().into()), entries((&pids).into()), entries(pids.clone().into()), entries(pids.iter().copied().collect())];
        check(all.iter().all(|x| *x == want), "list-of-ids", || json!({"wanted": format!("{want:?}"), "got": format!("{all:?}")}));
        let dests: Vec<Dest> = (0..rng.usize(5)).map(|_| rng.pick(&p.dests).0.clone()).collect();
        let all = [entries(dests.as_slice().into()), entries(dests.clone().into()), entries(dests.iter().cloned().collect())];
        check(all.iter().all(|x| *x == dests), "list-of-destinations", || json!({"wanted": format!("{dests:?}"), "got": format!("{all:?}")}));
        cover(&("list", pids.len(), dests.len()));
        evaluated(2);
    }
    let (pid, r, d, n) = (rng.pick(&p.pids).0, rng.pick(&p.refs).0, rng.pick(&p.dests).0.clone(), rng.pick(&p.nodes).0.clone());
    let text = name(rng);
    let one = |x: Dests, want: Dest| {
        let got = entries(x);
        check(got == vec![want.clone()], "one-destination", || json!({"wanted": format!("{want:?}"), "got": format!("{got:?}")}));
    };
    one(pid.into(), Dest::Pid(pid));
    one(r.into(), Dest::Alias(r));
    one(d.clone().into(), d);
    one("fixed".into(), Dest::Named("fixed".into(), Node::Local));
    one(text.clone().into(), Dest::Named(text.clone().into(), Node::Local));
    one((text.clone(), n.clone()).into(), Dest::Named(text.clone().into(), n.clone()));
    one(("fixed", n.clone()).into(), Dest::Named("fixed".into(), n));
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Luggage {
    no: u64,
    pids: Vec<Pid>,
    refs: Vec<Reference>,
    nodes: Vec<Node>,
    dests: Vec<Dest>,
    reasons: Vec<ExitReason>,
    nested: Option<Box<Luggage>>,
}

/// Everything arrives as what it was, by whatever way.
async fn travels(rng: &mut Rng, p: &Pool, me: Option<&(String, SocketAddr)>) {
    let mut bag = Luggage {
        no: rng.next(),
        pids: p.pids.iter().map(|x| x.0).collect(),
        refs: p.refs.iter().map(|x| x.0).collect(),
        nodes: p.nodes.iter().map(|x| x.0.clone()).collect(),
        dests: p.dests.iter().map(|x| x.0.clone()).collect(),
        reasons: p.reasons.iter().map(|x| x.0.clone()).collect(),
        nested: None,
    };
    bag.nested = Some(Box::new(bag.clone()));
    let differs = |got: &Luggage| {
        let mut out = Vec::new();
        for (a, b) in bag.nodes.iter().zip(&got.nodes) {
            if a != b {
                out.push(format!("{a:?} -> {b:?}"));
            }
        }
        for (a, b) in bag.dests.iter().zip(&got.dests) {
            if a != b {
                out.push(format!("{a:?} -> {b:?}"));
            }
        }
        for (a, b) in bag.pids.iter().zip(&got.pids) {
            if a != b {
                out.push(format!("{a:?} -> {b:?}"));
            }
        }
        out.truncate(5);
        out
    };
    let judge = |way: &str, got: Option<Luggage>| {
        check(got.as_ref() == Some(&bag), "travels-as-another", || json!({"way": way, "alive": me.is_some(), "read": got.is_some(), "differs": got.as_ref().map(differs)}));
        cover(&("travel", way, me.is_some(), bag.dests.len()));
        evaluated(1);
    };
    judge("json", serde_json::to_string(&bag).ok().and_then(|x| serde_json::from_str(&x).ok()));
    judge("msgpack", rmp_serde::to_vec(&bag).ok().and_then(|x| rmp_serde::from_slice(&x).ok()));
    judge("msgpack-named", rmp_serde::to_vec_named(&bag).ok().and_then(|x| rmp_serde::from_slice(&x).ok()));
    let config = bincode::config::standard();
    judge("bincode", bincode::serde::encode_to_vec(&bag, config).ok().and_then(|x| bincode::serde::decode_from_slice(&x, config).ok()).map(|x: (Luggage, usize)| x.0));
    // In messages, moved and copied.
    let mut waits = Vec::new();
    let mut receivers = Vec::new();
    for _ in 0..3 {
        let (tx, rx) = tokio::sync::oneshot::channel();
        receivers.push(Process::spawn(async move {
            if let Message::User(bag) = Process::receive::<Luggage>().await {
                tx.send(bag).ok();
            }
        }));
        waits.push(rx);
    }
    Process::send(receivers, bag.clone());
    for (i, rx) in waits.into_iter().enumerate() {
        let got = tokio::time::timeout(Duration::from_secs(60), rx).await.ok().and_then(|x| x.ok());
        judge(if i == 0 { "moved" } else { "copied" }, got);
    }
}

fn everything(rng: &mut Rng, me: Option<&(String, SocketAddr)>) -> Pool {
    let p = pool(rng, me);
    same("pids", &p.pids);
    same("references", &p.refs);
    same("nodes", &p.nodes);
    same("destinations", &p.dests);
    same("reasons", &p.reasons);
    ordered("pids", &p.pids);
    ordered("references", &p.refs);
    ordered("nodes", &p.nodes);
    across(&p);
    lists(rng, &p);
    sample(if me.is_some() { "distributed" } else { "alone" }, || json!({"dests": p.dests.iter().map(|x| format!("{:?}", x.0)).collect::<Vec<_>>(), "nodes": p.nodes.len()}));
    p
}

fn cleanup(p: &Pool) {
    for (pid, _) in p.pids.iter().filter(|x| x.0.is_local()) {
        kill(*pid);
    }
}

/// Without distribution.
fn alone(ep: &mut Ep) {
    let rt = runtime(&mut ep.rng);
    let mut rng = ep.rng.fork();
    rt.block_on(async {
        for _ in 0..4 {
            let p = everything(&mut rng, None);
            travels(&mut rng, &p, None).await;
            cleanup(&p);
        }
    });
    rt.shutdown_background();
}

/// As a node that knows others by name only.
fn distributed(ep: &mut Ep) {
    let rt = runtime(&mut ep.rng);
    let mut rng = ep.rng.fork();
    rt.block_on(async {
        let address = fresh_address();
        let me = (name(&mut rng) + "me", address);
        Node::start(me.0.clone(), NodeOptions::new().listen_address(address).broadcast_address(address));
        for _ in 0..3 {
            let p = everything(&mut rng, Some(&me));
            travels(&mut rng, &p, Some(&me)).await;
            // The local node by its full name is the local node to whoever reads it.
            let full: Option<Node> = serde_json::from_value(json!({"name": me.0, "address": address.to_string()})).ok();
            check(full == Some(Node::Local), "own-node-read-as-another", || json!({"got": format!("{full:?}")}));
            let form = serde_json::to_value(Node::Local).unwrap_or_default();
            check(form == json!({"name": me.0, "address": address.to_string()}), "own-node-without-its-name", || form.clone());
            for (n, a) in [(me.0.clone() + "x", address), (me.0.clone(), addresses(&mut rng))] {
                let other: Option<Node> = serde_json::from_value(json!({"name": n, "address": a.to_string()})).ok();
                check(other == Some(Node::from((n.clone(), a))), "other-node-read-as-another", || json!({"name": n, "address": a.to_string(), "got": format!("{other:?}")}));
                let pid: Option<Pid> = imported(1, &n, a);
                check(pid.is_some_and(|x| x.is_remote()), "other-process-read-as-own", || json!({"name": n, "address": a.to_string(), "got": format!("{pid:?}")}));
                let reference: Option<Reference> = imported(1, &n, a);
                check(reference.is_some_and(|x| x.is_remote()), "other-reference-read-as-own", || json!({"name": n, "address": a.to_string(), "got": format!("{reference:?}")}));
            }
            // Nodes become known by their processes, nothing more.
            let known = Node::list_by_state(NodeState::Known);
            for (_, t) in p.pids.iter().filter(|x| x.1 .1 != 0) {
                check(known.iter().any(|n| n.name() == Some(t.2.as_str()) && n.address().map(|a| a.to_string()).as_ref() == Some(&t.3)), "node-of-an-id-not-known", || json!({"of": format!("{t:?}"), "known": format!("{known:?}")}));
            }
            check(Node::list_by_state(NodeState::Connected).is_empty() && Node::list_by_state(NodeState::Pending).is_empty(), "reading-an-id-connects", || json!({}));
            cleanup(&p);
        }
        in_process(async { Node::stop() }).await;
        eventually(|| std::net::TcpListener::bind(address).is_ok()).await;
    });
    rt.shutdown_background();
}

/// The processes of a node nobody has heard of, read by many at once, are the same for all of them.
fn at_once(ep: &mut Ep) {
    let rt = runtime(&mut ep.rng);
    let mut rng = ep.rng.fork();
    let _guard = rt.enter();
    let address = fresh_address();
    Node::start("me", NodeOptions::new().listen_address(address).broadcast_address(address));
    chaos(&mut rng);
    for round in 0..30u64 {
        let threads = rng.range(2, 6) as usize;
        let nodes: Vec<(String, SocketAddr)> = (0..rng.range(1, 3)).map(|i| (format!("x{round}-{i}"), SocketAddr::from(([127, 0, 0, 1], 100 + i as u16)))).collect();
        let start = Arc::new(Barrier::new(threads));
        let all: Vec<_> = (0..threads)
            .map(|_| {
                let (start, nodes, handle) = (start.clone(), nodes.clone(), rt.handle().clone());
                std::thread::spawn(move || {
                    let _guard = handle.enter();
                    start.wait();
                    let mut out: Vec<(Option<Pid>, Option<Reference>)> = Vec::new();
                    for id in 1..=3 {
                        for (n, a) in &nodes {
                            out.push((imported(id, n, *a), imported(id, n, *a)));
                        }
                    }
                    out
                })
            })
            .collect::<Vec<_>>()
            .into_iter()
            .map(|t| t.join().unwrap_or_default())
            .collect();
        let first = &all[0];
        let distinct: BTreeSet<_> = first.iter().map(|x| x.0).collect();
        check(all.iter().all(|x| x == first) && distinct.len() == first.len(), "same-process-read-as-different-ones", || json!({"threads": threads, "nodes": nodes.len(), "read": format!("{all:?}")}));
        let listed = Node::list();
        for (n, a) in &nodes {
            let times = listed.iter().filter(|x| **x == (n.as_str(), *a)).count();
            check(times == 1, "node-listed-twice", || json!({"node": n, "times": times}));
        }
        check(Node::list_by_state(NodeState::Known).len() == listed.len(), "node-listed-twice", || json!({"known": Node::list_by_state(NodeState::Known).len(), "listed": listed.len()}));
        // Their form is still that of the node they belong to.
        for (i, (pid, _)) in first.iter().enumerate() {
            let (n, a) = &nodes[i % nodes.len()];
            let form = serde_json::to_value(pid).unwrap_or_default();
            check(form == json!({"WithNode": [i / nodes.len() + 1, n, a.to_string()]}), "id-changes-its-node", || json!({"form": form, "node": n}));
        }
        cover(&("at once", threads, nodes.len()));
        evaluated(1);
    }
    chaos_off();
    rt.block_on(async {
        in_process(async { Node::stop() }).await;
        eventually(|| std::net::TcpListener::bind(address).is_ok()).await;
    });
    drop(_guard);
    rt.shutdown_background();
}

fn main() {
    run("C24", &[scenario("alone", 3, alone), scenario("distributed", 3, distributed), scenario("at-once", 2, at_once)]);
}
