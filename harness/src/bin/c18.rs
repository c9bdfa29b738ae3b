//! C18: the greeting. A peer of our own making approaches real nodes, as the one that connects and as
//! the one connected to, with right and wrong greetings; only a right one may lead to a connection,
//! under exactly the identity announced, and nothing sent otherwise may have any effect.
use std::net::{SocketAddr, TcpListener};
use std::time::{Duration, Instant};

use hv::net::*;
use hv::*;

#[global_allocator]
static A: hv::alloc::Counting = hv::alloc::Counting;

const LONG: Duration = Duration::from_secs(12);

// A code pads the secret with zeros, so zeros at its end are no part of it: none in here.
fn cookie(rng: &mut Rng) -> Option<String> {
    any_cookie(rng).map(|c| c.replace('\0', "z"))
}

fn any_cookie(rng: &mut Rng) -> Option<String> {
    match rng.below(7) {
        0 => None,
        1 => Some("a".into()),
        2 => Some("correct horse battery staple".into()),
        3 => Some("ключ-🔑".into()),
        4 => Some(rng.string(64)),
        5 => Some(rng.string(200)),
        _ => {
            let n = rng.range(1, 40) as usize;
            Some(rng.string(n))
        }
    }
}

/// A cookie that is not the same secret.
fn other_cookie(rng: &mut Rng, c: &Option<String>) -> Option<String> {
    let Some(c) = c else {
        return Some(rng.pick(&["0", "none", "x", "[0]"]).to_string());
    };
    match rng.below(6) {
        0 => None,
        1 => Some(format!("{c}x")),
        2 => Some(format!(" {c}")),
        3 => {
            let mut v: Vec<char> = c.chars().collect();
            let i = rng.usize(v.len());
            v[i] = if v[i] == 'Z' { 'Y' } else { 'Z' };
            Some(v.into_iter().collect())
        }
        4 if c.chars().count() > 1 => {
            let mut v: Vec<char> = c.chars().collect();
            v.pop();
            Some(v.into_iter().collect())
        }
        _ => {
            let n = rng.range(1, 30) as usize;
            Some(format!("!{}", rng.string(n)).replace('\0', "z"))
        }
    }
}

fn start(rng: &mut Rng, label: &str, cookie: &Option<String>, handshake: u64) -> Agent {
    let a = Agent::spawn(label, *rng.pick(&[1usize, 2, 4]));
    a.ask(json!({"op": "cookie", "cookie": cookie}));
    a.start_node(json!({"handshake": handshake}));
    a
}

/// Somebody on the node who would notice whatever an intruder does.
struct Canary {
    id: u64,
    trapping: u64,
}

fn canary(a: &Agent) -> Canary {
    let plain = a.actor("canary", true);
    let trapping = a.actor("trapper", true);
    a.tell("trapper", json!({"op": "trap"}));
    let id = |s: &str| s.split('@').next().and_then(|x| x.parse().ok()).unwrap_or(0);
    Canary { id: id(&plain), trapping: id(&trapping) }
}

/// What an intruder would do with a connection.
fn mischief(rng: &mut Rng, c: &Canary, name: &str) -> Vec<u8> {
    let mut out = Vec::new();
    let boo = hydra::ExitReason::from("intruder");
    for k in 0..rng.range(1, 5) {
        let f = match (k + rng.below(5)) % 6 {
            0 => wire::send(&[wire::Target::Named(name), wire::Target::Pid(c.id), wire::Target::Pid(c.trapping)], &wire::payload("intruder")),
            1 => wire::exit(c.id, 7, &boo),
            2 => wire::exit(c.trapping, 7, &boo),
            3 => wire::link(true, c.trapping, 7),
            4 => wire::monitor(true, Some(c.id), None, Some(7), 99),
            _ => wire::monitor(true, None, Some(name), Some(7), 98),
        };
        out.extend(wire::frame(f));
    }
    out
}

fn undisturbed(a: &Agent, what: &str) {
    for who in ["canary", "trapper"] {
        let seen: Vec<Value> = a.events_of(who).into_iter().filter(|e| !e["tag"].as_str().is_some_and(|t| t.starts_with("ok"))).collect();
        check(seen.is_empty(), &format!("stranger-had-effect:{what}"), || json!({"who": who, "events": seen}));
        let info = a.info(who);
        check(info["alive"] == true && info["links"] == json!([]) && info["monitored_by"] == json!([]), &format!("stranger-had-effect:{what}"), || json!({"who": who, "info": info}));
    }
}

fn not_connected(a: &Agent, node: &str, what: &str) {
    let n = a.nodes();
    for list in ["connected", "pending"] {
        check(n[list].as_array().is_some_and(|l| l.iter().all(|x| x != node)), &format!("stranger-listed:{what}"), || json!({"list": list, "node": node, "nodes": n}));
    }
}

fn node_string(name: &str, address: SocketAddr) -> String {
    format!("{name}@{address}")
}

fn name_of(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => "n".into(),
        1 => format!("узел{}", rng.below(90)),
        2 => rng.string(300),
        3 => format!("peer-{}", rng.below(1000)),
        4 => format!("a.b_{}", rng.below(1000)),
        _ => format!("node{}", rng.below(100_000)),
    }
}

fn address_of(rng: &mut Rng) -> SocketAddr {
    if rng.chance(1, 4) {
        format!("[fd00::{:x}:{:x}]:{}", rng.below(65535), rng.below(65535), rng.range(1, 65535)).parse().unwrap()
    } else {
        fresh_address()
    }
}

/// The node's own greeting: its name, its address, the code of its cookie.
fn own_greeting(a: &Agent, cookie: &Option<String>, hello: &Option<Vec<u8>>, how: &str) {
    let want = wire::hello(cookie.as_deref(), &a.label, a.address);
    check(hello.as_ref() == Some(&want), "own-greeting-wrong", || json!({"how": how, "cookie": cookie, "got": hello, "wanted": want}));
}

/// A right greeting is accepted however it arrives, and what follows it counts.
fn welcome(rng: &mut Rng, a: &Agent, c: &Canary, cookie: &Option<String>, tag: &str) -> bool {
    let (name, address) = (name_of(rng), address_of(rng));
    let node = node_string(&name, address);
    let Ok(mut peer) = Peer::connect(a.listen) else {
        violation("node-does-not-accept", json!({"tag": tag}));
        return false;
    };
    let late = rng.bool();
    if late {
        let first = peer.next(LONG);
        own_greeting(a, cookie, &first, "accepting");
    }
    let mut bytes = wire::frame(wire::hello(cookie.as_deref(), &name, address));
    let text = format!("ok-{tag}");
    let message = wire::frame(wire::send(&[wire::Target::Named("canary")], &wire::payload(&text)));
    let together = rng.bool();
    if together {
        bytes.extend(&message);
    }
    match rng.below(3) {
        0 => {
            peer.write(&bytes);
        }
        1 => {
            let most = *rng.pick(&[1u64, 3, 40]);
            peer.write_split(&bytes, rng, most);
        }
        _ => {
            let cut = rng.usize(bytes.len());
            peer.write(&bytes[..cut]);
            std::thread::sleep(Duration::from_millis(rng.below(30)));
            peer.write(&bytes[cut..]);
        }
    }
    if !together {
        peer.write(&message);
    }
    if !late {
        let first = peer.next(LONG);
        own_greeting(a, cookie, &first, "accepting");
    }
    let ok = wait(&[a], || a.in_state("connected", &node) && a.count_events(|e| e["a"] == "canary" && e["tag"] == text.as_str()) == 1);
    check(ok, "right-greeting-refused", || json!({"cookie": cookie, "name": name, "address": address.to_string(), "late": late, "together": together, "nodes": a.nodes(), "closed": peer.closed, "panics": a.panics().last()}));
    // The same identity a second time is turned away, and the first one stays.
    if ok && rng.chance(1, 3) {
        if let Ok(mut second) = Peer::connect(a.listen) {
            let mut bytes = wire::frame(wire::hello(cookie.as_deref(), &name, address));
            bytes.extend(mischief(rng, c, "canary"));
            second.write(&bytes);
            check(second.wait_closed(LONG), "second-connection-kept", || json!({"node": node}));
            undisturbed(a, "second");
            let text = format!("ok-still-{tag}");
            peer.write(&wire::frame(wire::send(&[wire::Target::Named("canary")], &wire::payload(&text))));
            let ok = wait(&[a], || a.count_events(|e| e["a"] == "canary" && e["tag"] == text.as_str()) == 1);
            check(ok && a.in_state("connected", &node), "first-connection-disturbed", || json!({"node": node, "nodes": a.nodes()}));
            cover(&"second");
        }
    }
    evaluated(1);
    cover(&("welcome", late, together, address.is_ipv6(), cookie.as_ref().map(|c| c.len() / 16)));
    drop(peer);
    wait(&[a], || !a.in_state("connected", &node));
    ok
}

/// One wrong approach of a peer that connects.
fn intrude(rng: &mut Rng, a: &Agent, c: &Canary, cookie: &Option<String>, handshake: u64) {
    let (name, address) = (name_of(rng), address_of(rng));
    let right = wire::challenge(cookie.as_deref(), &name, address);
    let mut peer = match Peer::connect(a.listen) {
        Ok(p) => p,
        Err(e) => {
            violation("node-does-not-accept", json!({"error": e.to_string()}));
            return;
        }
    };
    let mut node = node_string(&name, address);
    let hello = |challenge: &[u8]| wire::frame(wire::hello_with(&name, address, challenge));
    let right_hello = hello(&right);
    let kind = rng.below(22);
    // What is said first, what follows, and whether it has to be over within the handshake time.
    let mut silent = false;
    let (what, mut bytes): (&str, Vec<u8>) = match kind {
        0 | 1 => {
            let wrong = other_cookie(rng, cookie);
            ("other-cookie", wire::frame(wire::hello(wrong.as_deref(), &name, address)))
        }
        2 => {
            let mut x = right.clone();
            let bit = rng.usize(256);
            x[bit / 8] ^= 1 << (bit % 8);
            ("bit-flipped", hello(&x))
        }
        3 => {
            let n = rng.usize(32);
            ("code-truncated", hello(&right[..n]))
        }
        4 => {
            let mut x = right.clone();
            let n = rng.range(1, 40) as usize;
            x.extend(rng.bytes(n));
            ("code-extended", hello(&x))
        }
        5 => ("code-empty", hello(&[])),
        6 => ("code-zero", hello(&[0; 32])),
        7 => {
            let n = *rng.pick(&[1usize, 16, 31, 32, 33, 64, 5000]);
            ("code-random", hello(&rng.bytes(n)))
        }
        8 => {
            let mut other = name.clone();
            other.push('x');
            ("code-of-another-name", hello(&wire::challenge(cookie.as_deref(), &other, address)))
        }
        9 => {
            let mut other = address;
            other.set_port(address.port() ^ 1);
            ("code-of-another-address", hello(&wire::challenge(cookie.as_deref(), &name, other)))
        }
        10 => ("code-of-the-name-only", {
            // A code that leaves part of the identity out.
            use hmac::{Hmac, Mac};
            let key = cookie.as_ref().map(|c| c.as_bytes().to_vec()).unwrap_or_else(|| vec![0]);
            let mut mac = Hmac::<sha2::Sha256>::new_from_slice(&key).unwrap();
            let which = rng.below(3);
            if which != 0 {
                mac.update(name.as_bytes());
            }
            if which == 0 {
                mac.update(address.to_string().as_bytes());
            }
            hello(&mac.finalize().into_bytes())
        }),
        11 => {
            // Anything else first, a right greeting after it.
            let mut b = wire::frame(if rng.bool() { wire::ping() } else { wire::pong() });
            b.extend(&right_hello);
            ("ping-first", b)
        }
        12 | 13 => {
            let mut b = mischief(rng, c, "canary");
            if rng.bool() {
                b.extend(&right_hello);
            }
            ("frames-first", b)
        }
        14 => {
            silent = true;
            ("nothing", vec![])
        }
        15 => {
            silent = true;
            let n = rng.range(1, right_hello.len() as u64 - 1) as usize;
            ("greeting-unfinished", right_hello[..n].to_vec())
        }
        16 => {
            // Its announced length is shorter or longer than it is.
            let mut b = right_hello.clone();
            let n = b.len() as u32 - 4;
            let to = if rng.bool() { n - rng.range(1, n as u64 - 1) as u32 } else { n + rng.range(1, 500) as u32 };
            b[..4].copy_from_slice(&to.to_le_bytes());
            silent = to > n;
            (if to > n { "length-too-long" } else { "length-too-short" }, b)
        }
        17 => {
            let n = rng.range(1, 200) as usize;
            silent = true;
            ("noise", rng.bytes(n))
        }
        18 => {
            // A name that is no text.
            let mut body = wire::hello(cookie.as_deref(), "abcdef", address);
            body[12] = 0xff;
            body[13] = 0xc0;
            node = "?".into();
            ("name-not-text", wire::frame(body))
        }
        19 => ("code-reversed", hello(&right.iter().rev().copied().collect::<Vec<_>>())),
        20 => {
            silent = true;
            // Dripping, so that there is always something new.
            ("dripping", vec![])
        }
        _ => {
            // The right code's text form.
            let hex: String = right.iter().map(|b| format!("{b:02x}")).collect();
            ("code-as-text", hello(hex.as_bytes()))
        }
    };
    let begun = Instant::now();
    if what == "dripping" {
        // The whole takes much longer than the handshake may.
        let pause = (handshake * 5 / right_hello.len() as u64).max(1);
        for b in &right_hello {
            if !peer.write(std::slice::from_ref(b)) {
                break;
            }
            std::thread::sleep(Duration::from_millis(pause));
        }
        peer.write(&mischief(rng, c, "canary"));
    } else {
        if !silent && rng.bool() {
            bytes.extend(mischief(rng, c, "canary"));
        }
        if rng.bool() {
            let _ = peer.next(LONG);
        }
        if rng.chance(1, 3) {
            let most = *rng.pick(&[1u64, 7, 60]);
            peer.write_split(&bytes, rng, most);
        } else {
            peer.write(&bytes);
        }
        if !silent && rng.bool() {
            peer.write(&mischief(rng, c, "canary"));
        }
    }
    let leaves = silent && rng.chance(1, 4);
    if leaves {
        let _ = peer.stream.shutdown(std::net::Shutdown::Both);
    } else {
        let limit = LONG + Duration::from_millis(handshake);
        let closed = peer.wait_closed(limit);
        check(closed, &format!("stranger-kept:{what}"), || json!({"node": node, "cookie": cookie, "handshake": handshake}));
        if silent && closed && what != "noise" && what != "dripping" && what != "length-too-long" {
            // Patience as configured, not less (timers may be a few milliseconds early).
            let took = begun.elapsed();
            check(took + Duration::from_millis(60) >= Duration::from_millis(handshake), &format!("handshake-cut-short:{what}"), || json!({"took": took.as_millis() as u64, "handshake": handshake}));
        }
    }
    not_connected(a, &node, what);
    undisturbed(a, what);
    evaluated(1);
    count(&format!("refused.{what}"), 1);
    cover(&("intrude", what, silent, leaves, bytes.len() / 64));
}

fn accepting(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let secret = cookie(rng);
    let handshake = rng.range(250, 500);
    let a = start(rng, "target", &secret, handshake);
    let c = canary(&a);
    let rounds = rng.range(6, 14);
    for i in 0..rounds {
        intrude(rng, &a, &c, &secret, handshake);
        if i % 4 == 3 {
            welcome_patient(rng, &a, &c, &secret, i, handshake);
        }
    }
    // Many at once, and a right one among them.
    let mut crowd = Vec::new();
    for _ in 0..rng.range(3, 12) {
        if let Ok(mut p) = Peer::connect(a.listen) {
            let wrong = other_cookie(rng, &secret);
            let mut b = wire::frame(wire::hello(wrong.as_deref(), "crowd", fresh_address()));
            b.extend(mischief(rng, &c, "canary"));
            let n = rng.range(0, b.len() as u64) as usize;
            p.write(&b[..n]);
            crowd.push(p);
        }
    }
    welcome_patient(rng, &a, &c, &secret, 99, handshake);
    for p in crowd.iter_mut() {
        check(p.wait_closed(LONG), "stranger-kept:crowd", || json!({}));
    }
    undisturbed(&a, "crowd");
    sample("accepting", || json!({"cookie": secret, "handshake": handshake, "rounds": rounds, "crowd": crowd.len()}));
    a.judge_panics(&[]);
}

/// On a busy machine a right greeting may miss a short deadline: tried again before it counts.
fn welcome_patient(rng: &mut Rng, a: &Agent, c: &Canary, secret: &Option<String>, i: u64, handshake: u64) {
    let begun = Instant::now();
    if begun.elapsed() < Duration::from_millis(handshake) {
        // Measures how far behind the machine is.
        let t = Instant::now();
        a.ask(json!({"op": "ping"}));
        std::thread::sleep(Duration::from_millis(2));
        if t.elapsed() > Duration::from_millis(handshake / 4) {
            count("stalled", 1);
            return;
        }
    }
    welcome(rng, a, c, secret, &format!("{i}"));
}

/// Right greetings only, with time to spare.
fn welcomed(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let secret = cookie(rng);
    let a = start(rng, "target", &secret, 8000);
    let c = canary(&a);
    for i in 0..rng.range(3, 8) {
        if !welcome(rng, &a, &c, &secret, &format!("{i}")) {
            break;
        }
    }
    // A second greeting on a standing connection ends it.
    if let Ok(mut p) = Peer::connect(a.listen) {
        let address = fresh_address();
        p.greet(secret.as_deref(), "twice", address);
        let ok = wait(&[&a], || a.in_state("connected", &node_string("twice", address)));
        check(ok, "right-greeting-refused", || json!({"nodes": a.nodes()}));
        p.write(&wire::frame(wire::hello(secret.as_deref(), "else", address)));
        check(p.wait_closed(LONG), "second-greeting-kept", || json!({}));
        not_connected(&a, &node_string("else", address), "second-greeting");
        cover(&"twice");
    }
    undisturbed(&a, "none");
    a.judge_panics(&[]);
}

/// The node connects to somebody who is not, or is, who it expects.
fn connecting(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let secret = cookie(rng);
    let handshake = rng.range(250, 500);
    let a = start(rng, "target", &secret, handshake);
    let c = canary(&a);
    for i in 0..rng.range(4, 9) {
        let address = fresh_address();
        let Ok(listener) = TcpListener::bind(address) else { continue };
        listener.set_nonblocking(true).unwrap();
        let name = name_of(rng);
        let node = node_string(&name, address);
        let watcher = format!("w{i}");
        a.actor(&watcher, false);
        a.tell(&watcher, json!({"op": "node_monitor", "node": node, "ref": format!("m{i}")}));
        // Waits for the connection; these must never reach the wrong one.
        a.tell(&watcher, json!({"op": "send", "to": [{"name": "x", "node": node}], "tag": "ok-secret", "times": 3, "first": 0, "seed": 1, "len": 30, "pace": 0}));
        let begun = Instant::now();
        let stream = loop {
            if let Ok((s, _)) = listener.accept() {
                break Some(s);
            }
            if begun.elapsed() > LONG {
                break None;
            }
            std::thread::sleep(Duration::from_millis(1));
        };
        let Some(stream) = stream else {
            violation("node-does-not-connect", json!({"node": node}));
            return;
        };
        let _ = stream.set_nonblocking(false);
        let mut peer = Peer::from(stream);
        let kind = rng.below(11);
        let heard = peer.next(LONG);
        own_greeting(&a, &secret, &heard, "connecting");
        let mut other = address;
        other.set_port(address.port() ^ 3);
        let (what, mut bytes, right) = match kind {
            0 | 1 => ("right", wire::frame(wire::hello(secret.as_deref(), &name, address)), true),
            2 | 3 => {
                let wrong = other_cookie(rng, &secret);
                ("other-cookie", wire::frame(wire::hello(wrong.as_deref(), &name, address)), false)
            }
            4 => ("other-name", wire::frame(wire::hello(secret.as_deref(), &format!("{name}2"), address)), false),
            5 => ("other-address", wire::frame(wire::hello(secret.as_deref(), &name, other)), false),
            6 => ("its-own", wire::frame(heard.clone().unwrap_or_default()), false),
            7 => ("nothing", vec![], false),
            8 => ("frames-first", mischief(rng, &c, "canary"), false),
            9 => {
                let mut x = wire::challenge(secret.as_deref(), &name, address);
                let bit = rng.usize(256);
                x[bit / 8] ^= 1 << (bit % 8);
                ("bit-flipped", wire::frame(wire::hello_with(&name, address, &x)), false)
            }
            _ => ("claims-code", wire::frame(wire::hello_with(&name, address, &wire::challenge(secret.as_deref(), &a.label, a.address))), false),
        };
        if right {
            bytes.extend(wire::frame(wire::send(&[wire::Target::Named("canary")], &wire::payload(&format!("ok-{i}")))));
        } else if what != "nothing" {
            bytes.extend(mischief(rng, &c, "canary"));
        }
        if rng.chance(1, 3) {
            peer.write_split(&bytes, rng, 9);
        } else {
            peer.write(&bytes);
        }
        if right {
            let ok = wait(&[&a], || a.in_state("connected", &node) && a.count_events(|e| e["a"] == "canary" && e["tag"] == format!("ok-{i}").as_str()) == 1);
            if !ok && begun.elapsed() > Duration::from_millis(handshake / 3) && a.events_of(&watcher).iter().any(|e| e["ev"] == "nodedown") {
                // Perhaps too slow for the short deadline.
                count("stalled", 1);
                continue;
            }
            check(ok, "right-greeting-refused", || json!({"connecting": true, "nodes": a.nodes(), "panics": a.panics().last()}));
            // Exactly the messages that waited, and nothing was said before.
            let mut sends = Vec::new();
            while let Some(f) = peer.next(Duration::from_secs(3)) {
                if f.starts_with(&[3, 0, 0, 0]) {
                    sends.push(f);
                    if sends.len() == 3 {
                        break;
                    }
                }
            }
            check(sends.len() == 3, "waiting-messages-lost", || json!({"got": sends.len()}));
            drop(peer);
            wait(&[&a], || a.in_state("known", &node));
        } else {
            let closed = peer.wait_closed(LONG + Duration::from_millis(handshake));
            check(closed, &format!("stranger-kept:connecting:{what}"), || json!({"node": node}));
            let more = peer.next(Duration::ZERO);
            check(more.is_none(), &format!("message-sent-to-a-stranger:{what}"), || json!({"frame": more}));
            let told = wait(&[&a], || a.events_of(&watcher).iter().any(|e| e["ev"] == "nodedown"));
            check(told, &format!("not-told:connecting:{what}"), || json!({"node": node, "nodes": a.nodes()}));
            not_connected(&a, &node, what);
            not_connected(&a, &node_string(&format!("{name}2"), address), what);
            not_connected(&a, &node_string(&name, other), what);
        }
        undisturbed(&a, what);
        evaluated(1);
        count(&format!("answered.{what}"), 1);
        cover(&("connecting", what, name.len() / 8));
    }
    a.judge_panics(&[]);
}

/// Real nodes with the same and with different cookies.
fn cookies(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let ca = cookie(rng);
    let same = rng.chance(1, 3);
    let cb = if same { ca.clone() } else { other_cookie(rng, &ca) };
    let (a, b) = (start(rng, "a", &ca, 8000), start(rng, "b", &cb, 8000));
    a.actor("ra", true);
    b.actor("rb", true);
    a.actor("sa", false);
    b.actor("sb", false);
    // Each tries to reach the other.
    let first_a = rng.bool();
    let pairs = if first_a { [(&a, &b, "sa", "rb"), (&b, &a, "sb", "ra")] } else { [(&b, &a, "sb", "ra"), (&a, &b, "sa", "rb")] };
    for (x, y, s, r) in pairs {
        if same {
            if !connect(x, y) {
                return;
            }
        } else {
            x.tell(s, json!({"op": "node_monitor", "node": y.node(), "ref": format!("m{s}")}));
        }
        x.tell(s, json!({"op": "send", "to": [{"name": r, "node": y.node()}], "tag": "ok"}));
        if same {
            let ok = wait(&[x, y], || y.events_of(r).iter().any(|e| e["tag"] == "ok"));
            check(ok, "same-cookie-no-message", || json!({"cookie": ca}));
        } else {
            let told = wait(&[x, y], || x.events_of(s).iter().any(|e| e["ev"] == "nodedown"));
            check(told, "different-cookies-not-told", || json!({"a": ca, "b": cb, "x": x.nodes(), "y": y.nodes()}));
            for (p, q) in [(x, y), (y, x)] {
                not_connected(p, &q.node(), "different-cookies");
            }
        }
    }
    if !same {
        check(a.events_of("ra").is_empty() && b.events_of("rb").is_empty(), "message-across-cookies", || json!({"a": ca, "b": cb}));
        // One is given the other's secret: from here on they connect.
        let both = rng.bool();
        let (one, secret) = if rng.bool() { (&a, cb.clone()) } else { (&b, ca.clone()) };
        one.ask(json!({"op": "cookie", "cookie": secret}));
        if both {
            let fresh = cookie(rng);
            a.ask(json!({"op": "cookie", "cookie": fresh}));
            b.ask(json!({"op": "cookie", "cookie": fresh}));
        }
        if connect(&a, &b) {
            a.tell("sa", json!({"op": "send", "to": [{"name": "rb", "node": b.node()}], "tag": "now"}));
            let ok = wait(&[&a, &b], || b.events_of("rb").iter().any(|e| e["tag"] == "now"));
            check(ok, "same-cookie-no-message", || json!({"after": "change"}));
        }
    }
    evaluated(1);
    cover(&("cookies", same, ca.as_ref().map(|c| c.len()), cb.as_ref().map(|c| c.len()), first_a));
    for x in [&a, &b] {
        x.judge_panics(&[]);
    }
}

/// What the greeting cannot rule out (see DESIGN.md): it contains nothing fresh, so that a greeting
/// once heard is good for ever, and the name and the address are not kept apart in its code.
fn replayed(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let secret = Some(rng.string(20));
    let (a, b) = (start(rng, "a", &secret, 4000), start(rng, "b", &secret, 4000));
    let listen = |x: &Agent| -> Option<Vec<u8>> { Peer::connect(x.listen).ok()?.next(LONG) };
    let try_with = |hello: Vec<u8>, node: String| -> bool {
        let Ok(mut p) = Peer::connect(a.listen) else { return false };
        p.write(&wire::frame(hello));
        wait(&[&a], || p.wait_closed(Duration::from_millis(20)) || a.in_state("connected", &node));
        a.in_state("connected", &node)
    };
    match rng.below(3) {
        0 => {
            let Some(own) = listen(&a) else { return };
            check(!try_with(own, a.node()), "replayed-greeting:reflected", || json!({"claimed": a.node()}));
        }
        1 => {
            let Some(theirs) = listen(&b) else { return };
            check(!try_with(theirs, b.node()), "replayed-greeting:third-party", || json!({"claimed": b.node()}));
        }
        _ => {
            // x + 127.0.0.1:80 and x1 + 27.0.0.1:80 have the same code.
            let Some(theirs) = listen(&b) else { return };
            let code = &theirs[theirs.len() - 32..];
            let text = b.address.to_string();
            let (moved, rest) = text.split_at(1);
            let Ok(address) = rest.parse::<SocketAddr>() else { return };
            let name = format!("b{moved}");
            check(!try_with(wire::hello_with(&name, address, code), node_string(&name, address)), "replayed-greeting:shifted", || json!({"claimed": node_string(&name, address)}));
        }
    }
    evaluated(1);
}

fn main() {
    agent_if_requested();
    run(
        "C18",
        &[
            scenario("accepting", 5, accepting),
            scenario("welcomed", 2, welcomed),
            scenario("connecting", 4, connecting),
            scenario("cookies", 3, cookies),
            scenario("replayed", 1, replayed),
        ],
    );
}
