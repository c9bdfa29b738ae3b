//! C19: hostile bytes. Peers of our own making send broken, extreme and misleading bytes to a real
//! node, before and after a right greeting, while real nodes and processes go on with their work;
//! what they do, what memory the node takes and which connections stand is watched.
use std::time::Duration;

use hydra::ExitReason;

use hv::net::*;
use hv::*;

#[global_allocator]
static A: hv::alloc::Counting = hv::alloc::Counting;

const LONG: Duration = Duration::from_secs(12);
const MB: u64 = 1 << 20;

/// An id nobody has: many high bits, so that a few flipped ones do not lead to a real one.
fn nobody(rng: &mut Rng) -> u64 {
    rng.next() | 0xffff_0f0f_0000_0000
}

fn reason(rng: &mut Rng) -> ExitReason {
    match rng.below(4) {
        0 => ExitReason::Normal,
        1 => ExitReason::Kill,
        2 => ExitReason::Ignore,
        _ => {
            let n = rng.below(40) as usize;
            ExitReason::from(rng.string(n))
        }
    }
}

/// A well-formed frame that concerns nobody. Second: where its 64-bit lengths are.
fn harmless(rng: &mut Rng) -> (Vec<u8>, Vec<usize>, &'static str) {
    let n = rng.below(5);
    let ids: Vec<u64> = (0..n).map(|_| nobody(rng)).collect();
    match rng.below(9) {
        0 => (wire::ping(), vec![], "ping"),
        1 => (wire::pong(), vec![], "pong"),
        2 => {
            let m = rng.below(300) as usize;
            let message = rng.bytes(m);
            let targets: Vec<wire::Target> = ids
                .iter()
                .map(|i| match i % 3 {
                    0 => wire::Target::Pid(*i),
                    1 => wire::Target::Named("nobody-of-this-name"),
                    _ => wire::Target::Alias(*i),
                })
                .collect();
            let f = wire::send(&targets, &message);
            let last = f.len() - m - 8;
            (f, vec![4, last], "send")
        }
        3 => {
            let by_name = rng.bool();
            let f = if by_name {
                wire::monitor(true, None, Some("nobody-of-this-name"), Some(nobody(rng)), nobody(rng))
            } else {
                wire::monitor(true, Some(nobody(rng)), None, Some(nobody(rng)), nobody(rng))
            };
            (f, if by_name { vec![7] } else { vec![] }, "monitor")
        }
        4 => (wire::monitor(false, Some(nobody(rng)), None, None, nobody(rng)), vec![], "demonitor"),
        5 => (wire::monitor_down(&ids, &reason(rng)), vec![4], "monitor-down"),
        6 => (wire::monitor_update(nobody(rng), nobody(rng), nobody(rng)), vec![], "monitor-update"),
        7 => {
            if rng.bool() {
                (wire::link(false, nobody(rng), nobody(rng)), vec![], "link")
            } else {
                (wire::link_down(&ids, nobody(rng), &reason(rng)), vec![4], "link-down")
            }
        }
        _ => (wire::exit(nobody(rng), nobody(rng), &reason(rng)), vec![], "exit"),
    }
}

/// A frame that is malformed for sure, and how.
fn malformed(rng: &mut Rng) -> (Vec<u8>, &'static str) {
    let huge = *rng.pick(&[1u64 << 20, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 36, 1 << 40, 1 << 62, 1 << 63, u64::MAX, u64::MAX / 8, u64::MAX / 24]);
    loop {
        let (f, lengths, _) = harmless(rng);
        match rng.below(9) {
            0 if f.len() > 4 => {
                let n = rng.usize(f.len());
                return (wire::frame(f[..n].to_vec()), "truncated");
            }
            1 => return (wire::frame(vec![]), "empty"),
            2 => {
                let mut f = f;
                let v = *rng.pick(&[10u32, 11, 255, 256, 65536, u32::MAX]);
                f[..4].copy_from_slice(&v.to_le_bytes());
                return (wire::frame(f), "unknown-kind");
            }
            3 | 4 if !lengths.is_empty() => {
                let mut f = f;
                let at = *rng.pick(&lengths);
                f[at..at + 8].copy_from_slice(&huge.to_le_bytes());
                return (wire::frame(f), "inner-length");
            }
            5 => {
                // A frame that announces less than it needs, the rest behind it.
                let f = wire::frame(wire::exit(nobody(rng), nobody(rng), &ExitReason::from("quite a long reason")));
                let mut g = f.clone();
                let n = rng.below(f.len() as u64 - 5) as u32;
                g[..4].copy_from_slice(&n.to_le_bytes());
                return (g, "length-too-short");
            }
            6 => {
                let mut f = wire::link(true, nobody(rng), nobody(rng));
                f[4] = *rng.pick(&[2u8, 3, 255]);
                return (wire::frame(f), "no-boolean");
            }
            7 => {
                let mut f = wire::send(&[wire::Target::Named("abcdefgh")], b"x");
                let at = f.windows(8).position(|w| w == b"abcdefgh").unwrap();
                f[at + 2] = 0xfe;
                return (wire::frame(f), "no-text");
            }
            8 => {
                let f = match rng.below(4) {
                    0 => wire::send(&[wire::Target::Pid(0)], b"x"),
                    1 => wire::send(&[wire::Target::Alias(0)], b"x"),
                    2 => wire::hello(None, "late", fresh_address()),
                    _ => wire::monitor(true, None, None, Some(nobody(rng)), nobody(rng)),
                };
                return (wire::frame(f), "senseless");
            }
            _ => {}
        }
    }
}

/// Something that may or may not be a frame.
fn mangled(rng: &mut Rng) -> Vec<u8> {
    let (mut f, _, _) = harmless(rng);
    match rng.below(4) {
        0 => {
            for _ in 0..rng.range(1, 3) {
                let i = rng.usize(f.len());
                f[i] ^= 1 << rng.below(8);
            }
            wire::frame(f)
        }
        1 => {
            let n = rng.below(60) as usize;
            f.extend(rng.bytes(n));
            wire::frame(f)
        }
        2 => {
            let n = rng.range(1, 80) as usize;
            let mut b = rng.bytes(n);
            if b.len() > 4 {
                // Mostly a kind there is.
                let v = rng.below(11) as u32;
                b[..4].copy_from_slice(&v.to_le_bytes());
            }
            // Ids of somebody real are out of the question.
            for c in b.iter_mut().skip(4) {
                *c |= 0x80;
            }
            wire::frame(b)
        }
        _ => {
            let mut g = wire::frame(f);
            let n = u32::from_le_bytes(g[..4].try_into().unwrap());
            let m = if rng.bool() { n.wrapping_add(rng.range(1, 9) as u32) } else { *rng.pick(&[1 << 16, 1 << 24, 1 << 31, u32::MAX]) };
            g[..4].copy_from_slice(&m.to_le_bytes());
            g
        }
    }
}

/// Two real nodes with everything between them that could be disturbed.
struct Scene {
    w: Agent,
    b: Agent,
    sent: u64,
    canary: u64,
    slack: u64,
}

impl Scene {
    fn new(rng: &mut Rng, handshake: u64) -> Option<Scene> {
        let w = Agent::spawn("w", *rng.pick(&[1usize, 2, 4]));
        let b = Agent::spawn("b", 2);
        w.start_node(json!({"handshake": handshake, "interval": 1000, "timeout": 30_000}));
        b.start_node(json!({"interval": 1000, "timeout": 30_000}));
        if !connect(&b, &w) {
            return None;
        }
        let canary = w.actor("canary", true).split('@').next().and_then(|x| x.parse().ok()).unwrap_or(0);
        b.actor("feeder", true);
        w.actor("local", true);
        // Each kind of tie, local and across.
        w.learn(&b, "feeder", "feeder");
        w.tell("canary", json!({"op": "trap"}));
        w.tell("canary", json!({"op": "link", "pid": "feeder"}));
        w.tell("canary", json!({"op": "link", "pid": "local"}));
        w.tell("canary", json!({"op": "monitor", "to": {"pid": "feeder"}, "ref": "m1", "alias": false}));
        w.tell("canary", json!({"op": "monitor", "to": {"name": "feeder", "node": b.node()}, "ref": "m2"}));
        w.tell("canary", json!({"op": "monitor", "to": {"pid": "local"}, "ref": "m3", "alias": false}));
        w.tell("canary", json!({"op": "node_monitor", "node": b.node(), "ref": "m4"}));
        w.tell("canary", json!({"op": "alias", "ref": "al"}));
        b.learn(&w, "canary", "canary");
        b.learn(&w, "al", "al");
        b.tell("feeder", json!({"op": "trap"}));
        b.tell("feeder", json!({"op": "monitor", "to": {"pid": "canary"}, "ref": "m5"}));
        let ok = wait(&[&w, &b], || b.info("feeder")["monitored_by"].as_array().is_some_and(|a| a.len() == 2) && w.info("canary")["monitored_by"].as_array().is_some_and(|a| a.len() == 1));
        check(ok, "not-installed", || json!({"feeder": b.info("feeder"), "canary": w.info("canary")}));
        w.ask(json!({"op": "reset_peak"}));
        Some(Scene { w, b, sent: 0, canary, slack: 0 })
    }
    /// The others' work goes on, by name, by pid and by alias.
    fn goes_on(&mut self, what: &str) -> bool {
        self.sent += 1;
        let tag = format!("on-{}", self.sent);
        self.b.tell("feeder", json!({"op": "send", "to": [{"name": "canary", "node": self.w.node()}, {"pid": "canary"}, {"alias": "al"}], "tag": tag}));
        let ok = wait(&[&self.w, &self.b], || self.w.count_events(|e| e["a"] == "canary" && e["tag"] == tag.as_str()) == 3);
        check(ok, &format!("others-disturbed:{what}"), || json!({"got": self.w.count_events(|e| e["a"] == "canary" && e["tag"] == tag.as_str()), "nodes": self.w.nodes(), "panics": self.w.panics().last()}))
    }
    fn nobody_told(&self, what: &str) {
        let strange = |e: &Value| e["ev"] != "msg" || !e["tag"].as_str().is_some_and(|t| t.starts_with("on-"));
        for (a, who) in [(&self.w, "canary"), (&self.b, "feeder"), (&self.w, "local")] {
            let odd: Vec<Value> = a.events_of(who).into_iter().filter(strange).collect();
            check(odd.is_empty(), &format!("somebody-told:{what}"), || json!({"who": who, "events": odd}));
        }
        check(self.w.in_state("connected", &self.b.node()) && self.b.in_state("connected", &self.w.node()), &format!("others-disturbed:{what}"), || json!({"w": self.w.nodes(), "b": self.b.nodes()}));
    }
    /// Memory stays in proportion to what was received.
    fn memory(&mut self, received: u64, what: &str) {
        let s = self.w.ask(json!({"op": "stats"}));
        let peak = s["peak"].as_u64().unwrap_or(0);
        let bytes = s["bytes"].as_u64().unwrap_or(0);
        let limit = self.slack + 48 * MB + 40 * received;
        check(peak < limit + bytes.min(16 * MB), &format!("memory:{what}"), || json!({"peak": peak, "bytes": bytes, "received": received}));
        cover(&("memory", what, peak / (4 * MB)));
        self.w.ask(json!({"op": "reset_peak"}));
    }
    /// Everything that was tied is still tied: the ends are told, once, and the right thing.
    fn finish(mut self, what: &str) {
        if !self.goes_on(what) {
            return;
        }
        self.nobody_told(what);
        for who in ["canary", "local"] {
            let i = self.w.info(who);
            check(i["links"].as_array().is_some_and(|l| l.len() == if who == "canary" { 2 } else { 1 }), &format!("ties-changed:{what}"), || json!({"who": who, "info": i}));
        }
        self.b.tell("feeder", json!({"op": "die", "reason": "custom:real"}));
        self.w.tell("local", json!({"op": "die", "reason": "custom:near"}));
        let got = || {
            let mut v: Vec<String> = self.w.events_of("canary").iter().filter(|e| e["ev"] != "msg").map(|e| format!("{} {}", e["ev"].as_str().unwrap_or(""), e["reason"].as_str().unwrap_or(""))).collect();
            v.sort();
            v
        };
        let want = ["down custom:near", "down custom:real", "down custom:real", "exit custom:near", "exit custom:real"];
        wait(&[&self.w, &self.b], || got().len() >= want.len());
        check(got() == want, &format!("ties-broken:{what}"), || json!({"got": got(), "wanted": want}));
        self.b.murder();
        let node = self.b.node();
        let told = wait(&[&self.w], || self.w.events_of("canary").iter().any(|e| e["ev"] == "nodedown" && e["node"] == node.as_str()));
        check(told, &format!("ties-broken:{what}"), || json!({"nodedown": false}));
        judge_panics(&self.w);
        evaluated(1);
    }
}

/// Only a connection's own processes may end with a panic; ids that are zero are noticed in the types.
fn judge_panics(a: &Agent) {
    let zero = "called `Option::unwrap()` on a `None` value";
    let allowed = a.panics().iter().any(|p| {
        let f = p["file"].as_str().unwrap_or("");
        p["message"] == zero && (f.ends_with("/pid.rs") || f.ends_with("/reference.rs"))
    });
    if allowed {
        a.judge_panics(&[zero]);
    } else {
        a.judge_panics(&[]);
    }
}

fn greeted(rng: &mut Rng, s: &Scene) -> Option<(Peer, String)> {
    let address = fresh_address();
    let name = format!("peer{}", rng.below(1000));
    let mut p = Peer::connect(s.w.listen).ok()?;
    p.greet(None, &name, address);
    let node = format!("{name}@{address}");
    let ok = wait(&[&s.w], || s.w.in_state("connected", &node));
    check(ok, "right-greeting-refused", || json!({"node": node, "nodes": s.w.nodes(), "panics": s.w.panics().last()}));
    ok.then_some((p, node))
}

fn deliver(rng: &mut Rng, p: &mut Peer, bytes: &[u8]) {
    if rng.chance(1, 3) && bytes.len() < 4000 {
        let most = *rng.pick(&[1u64, 5, 64]);
        p.write_split(bytes, rng, most);
    } else {
        p.write(bytes);
    }
}

/// Before any greeting.
fn before(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let handshake = rng.range(200, 400);
    let Some(mut s) = Scene::new(rng, handshake) else { return };
    for _ in 0..rng.range(8, 20) {
        let Ok(mut p) = Peer::connect(s.w.listen) else {
            violation("node-does-not-accept", json!({}));
            return;
        };
        let address = fresh_address();
        let mut must_end_soon = true;
        let (what, bytes): (&str, Vec<u8>) = match rng.below(8) {
            0 => {
                let n = rng.range(1, 500) as usize;
                ("noise", rng.bytes(n))
            }
            1 => {
                let n = *rng.pick(&[1u32 << 20, 1 << 28, 1 << 31, u32::MAX, u32::MAX - 3, u32::MAX - 4]);
                let mut b = n.to_le_bytes().to_vec();
                let m = rng.below(3000) as usize;
                b.extend(rng.bytes(m));
                ("length-huge", b)
            }
            2 => {
                // A greeting with an inner length that is out of all proportion.
                let mut h = wire::hello(None, "abcdef", address);
                let at = if rng.bool() { 4 } else { h.len() - 40 };
                let n = *rng.pick(&[1u64 << 20, 1 << 30, 1 << 33, 1 << 38, 1 << 44, 1 << 62, u64::MAX]);
                h[at..at + 8].copy_from_slice(&n.to_le_bytes());
                ("greeting-inner-length", wire::frame(h))
            }
            3 => {
                // (A greeting is not out of place here.)
                let f = loop {
                    let f = malformed(rng).0;
                    if f.len() < 8 || f[4..8] != [0; 4] {
                        break f;
                    }
                };
                ("malformed", f)
            }
            4 => ("mangled", mangled(rng)),
            5 => {
                let (f, _, _) = harmless(rng);
                ("other-frame", wire::frame(f))
            }
            6 => {
                // Much, and none of it a greeting.
                let n = rng.range(1, 6) as usize * 1_000_000;
                let mut b = (n as u32 + 10).to_le_bytes().to_vec();
                b.resize(n, 7);
                ("much", b)
            }
            _ => {
                must_end_soon = false;
                ("nothing", vec![])
            }
        };
        deliver(rng, &mut p, &bytes);
        count(&format!("before.{what}"), 1);
        cover(&("before", what, bytes.len() / 200));
        if must_end_soon || rng.bool() {
            check(p.wait_closed(LONG + Duration::from_millis(handshake)), &format!("kept:before:{what}"), || json!({"bytes": bytes.len()}));
        }
        s.memory(bytes.len() as u64, &format!("before:{what}"));
        if !s.goes_on(what) {
            return;
        }
        evaluated(1);
    }
    sample("before", || json!({"rounds": s.sent}));
    s.finish("before");
}

/// After a right greeting.
fn after(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let Some(mut s) = Scene::new(rng, 8000) else { return };
    for _ in 0..rng.range(8, 20) {
        let Some((mut p, node)) = greeted(rng, &s) else { return };
        // Some of what is right, then what is not.
        let mut bytes = Vec::new();
        for _ in 0..rng.below(6) {
            bytes.extend(wire::frame(harmless(rng).0));
        }
        let (what, ends) = match rng.below(5) {
            0..=2 => {
                let (f, how) = malformed(rng);
                bytes.extend(f);
                (how, true)
            }
            3 => {
                for _ in 0..rng.range(1, 4) {
                    bytes.extend(mangled(rng));
                }
                ("mangled", false)
            }
            _ => {
                let n = *rng.pick(&[1u32 << 24, 1 << 30, u32::MAX]);
                bytes.extend(n.to_le_bytes());
                let m = rng.below(100_000) as usize;
                bytes.extend(rng.bytes(m));
                ("length-huge", false)
            }
        };
        // What comes after it on the same connection never takes effect.
        if ends {
            bytes.extend(wire::frame(wire::send(&[wire::Target::Named("canary"), wire::Target::Pid(s.canary)], &wire::payload("behind"))));
        }
        deliver(rng, &mut p, &bytes);
        count(&format!("after.{what}"), 1);
        cover(&("after", what, bytes.len() / 60));
        if ends {
            check(p.wait_closed(LONG), &format!("kept:after:{what}"), || json!({"bytes": bytes.len(), "node": node, "hex": bytes.iter().take(400).map(|b| format!("{b:02x}")).collect::<String>()}));
            let gone = wait(&[&s.w], || !s.w.in_state("connected", &node));
            check(gone, &format!("listed:after:{what}"), || json!({"node": node}));
        }
        s.memory(bytes.len() as u64, &format!("after:{what}"));
        drop(p);
        if !s.goes_on(what) {
            return;
        }
        evaluated(1);
    }
    s.finish("after");
}

/// Valid frames of a stranger that name everything there is on this node, without any right to it.
fn names(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let Some(mut s) = Scene::new(rng, 8000) else { return };
    let Some((mut p, node)) = greeted(rng, &s) else { return };
    // Somebody with an interest in the stranger's own node keeps it.
    s.w.actor("host", true);
    s.w.tell("host", json!({"op": "node_monitor", "node": node, "ref": "h"}));
    s.w.tell("host", json!({"op": "monitor", "to": {"name": "theirs", "node": node}, "ref": "h2"}));
    let mine = s.w.ask(json!({"op": "export", "label": "h2"}));
    let own = mine["ref"].as_object().and_then(|o| o.values().next()).and_then(|v| v.as_u64().or_else(|| v[0].as_u64()));
    if !check(own.is_some(), "reference-unknown", || mine.clone()) {
        return;
    }
    let top = 40 + s.canary.max(200);
    let refs: Vec<u64> = (1..400).collect();
    for _ in 0..rng.range(5, 15) {
        let boo = ExitReason::from("stranger");
        let mut bytes = Vec::new();
        let what = match rng.below(6) {
            0 => {
                // Reports the end of monitors that are others'. (The host's second one is its own affair.)
                let list: Vec<u64> = refs.iter().copied().filter(|r| Some(*r) != own && own.is_some()).collect();
                bytes.extend(wire::frame(wire::monitor_down(&list, &boo)));
                "monitor-down"
            }
            1 => {
                for id in 1..top {
                    bytes.extend(wire::frame(wire::link_down(&[id], rng.range(1, 300), &boo)));
                }
                let all: Vec<u64> = (1..top).collect();
                bytes.extend(wire::frame(wire::link_down(&all, s.canary, &boo)));
                "link-down"
            }
            2 => {
                for id in 1..top {
                    bytes.extend(wire::frame(wire::monitor(false, Some(id), None, None, rng.range(1, 400))));
                }
                "demonitor"
            }
            3 => {
                for id in 1..top {
                    bytes.extend(wire::frame(wire::link(false, id, rng.range(1, 300))));
                }
                "unlink"
            }
            4 => {
                for _ in 0..100 {
                    bytes.extend(wire::frame(wire::exit(nobody(rng), rng.range(1, 300), &boo)));
                    bytes.extend(wire::frame(wire::send(&[wire::Target::Pid(nobody(rng)), wire::Target::Alias(nobody(rng)), wire::Target::Named("none")], &wire::payload("stray"))));
                }
                "strays"
            }
            _ => {
                for r in (1..400).filter(|r| own.is_some() && Some(*r) != own) {
                    bytes.extend(wire::frame(wire::monitor_update(nobody(rng), rng.range(1, 400), r)));
                    if r % 5 == 0 {
                        bytes.extend(wire::frame(wire::monitor_update(s.canary, nobody(rng), nobody(rng))));
                    }
                }
                "monitor-update"
            }
        };
        deliver(rng, &mut p, &bytes);
        // A question behind it all, so that it has been dealt with.
        let r = nobody(rng);
        p.write(&wire::frame(wire::monitor(true, Some(nobody(rng)), None, Some(5), r)));
        let want = wire::monitor_down(&[r], &ExitReason::from("noproc"));
        let mut answered = false;
        while let Some(f) = p.next(LONG) {
            if f == want {
                answered = true;
                break;
            }
        }
        if !check(answered, "question-unanswered", || json!({"what": what, "closed": p.closed, "panics": s.w.panics().last()})) {
            return;
        }
        count(&format!("names.{what}"), 1);
        cover(&("names", what));
        evaluated(1);
        if !s.goes_on(what) {
            return;
        }
        s.nobody_told(what);
        let odd = s.w.events_of("host");
        check(odd.is_empty(), &format!("somebody-told:{what}"), || json!({"who": "host", "events": odd}));
    }
    drop(p);
    let told = wait(&[&s.w], || s.w.events_of("host").len() >= 2);
    check(told, "ties-broken:names", || json!({"host": s.w.events_of("host")}));
    s.finish("names");
}

/// However the same frames are split, the same things happen.
fn split(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let Some(mut s) = Scene::new(rng, 8000) else { return };
    let mut bytes = Vec::new();
    let mut want = Vec::new();
    let mut answers: Vec<Vec<u8>> = Vec::new();
    let mut pings = 0;
    s.w.actor("sink", true);
    for k in 0..rng.range(3, 25) {
        match rng.below(6) {
            0 => {
                bytes.extend(wire::frame(wire::ping()));
                pings += 1;
            }
            1 => {
                let r = nobody(rng);
                bytes.extend(wire::frame(wire::monitor(true, Some(nobody(rng)), None, Some(5), r)));
                answers.push(wire::monitor_down(&[r], &ExitReason::from("noproc")));
            }
            2 => {
                let (x, y) = (nobody(rng), nobody(rng));
                bytes.extend(wire::frame(wire::link(true, x, y)));
                answers.push(wire::link_down(&[y], x, &ExitReason::from("noproc")));
            }
            3 => bytes.extend(wire::frame(harmless(rng).0).iter().filter(|_| false)),
            _ => {
                let tag = format!("on-s{k}");
                let mut payload = wire::payload(&tag);
                // Something after the message inside its frame is not part of the next one.
                let _ = &mut payload;
                let mut body = wire::send(&[wire::Target::Named("sink")], &payload);
                if rng.chance(1, 4) {
                    let n = rng.below(40) as usize;
                    body.extend(rng.bytes(n));
                }
                bytes.extend(wire::frame(body));
                want.push(tag);
            }
        }
    }
    let mut seen = 0;
    for round in 0..rng.range(2, 5) {
        let Some((mut p, _)) = greeted(rng, &s) else { return };
        let how = match rng.below(5) {
            0 => {
                p.write(&bytes);
                "whole"
            }
            1 => {
                p.write_split(&bytes, rng, 1);
                "bytes"
            }
            2 => {
                let at = rng.usize(bytes.len() + 1);
                p.write(&bytes[..at]);
                std::thread::sleep(Duration::from_millis(rng.below(40)));
                p.write(&bytes[at..]);
                "two"
            }
            3 => {
                p.write_split(&bytes, rng, 6);
                "small"
            }
            _ => {
                p.write_split(&bytes, rng, 200);
                "pieces"
            }
        };
        let (mut got, mut pongs) = (Vec::new(), 0);
        while got.len() < answers.len() || pongs < pings {
            let Some(f) = p.next(LONG) else { break };
            if f == wire::pong() {
                pongs += 1;
            } else if f != wire::ping() {
                got.push(f);
            }
        }
        check(got == answers && pongs == pings, &format!("split-changes-answers:{how}"), || json!({"round": round, "got": got.len(), "wanted": answers.len(), "pongs": pongs, "pings": pings, "closed": p.closed}));
        let tags = || -> Vec<String> { s.w.events_of("sink").iter().skip(seen).map(|e| e["tag"].as_str().unwrap_or("?").to_string()).collect() };
        wait(&[&s.w], || tags().len() >= want.len());
        let t = tags();
        check(t == want, &format!("split-changes-messages:{how}"), || json!({"round": round, "got": t, "wanted": want}));
        seen += t.len();
        evaluated(1);
        cover(&("split", how, want.len(), answers.len()));
        if !s.goes_on("split") {
            return;
        }
    }
    s.finish("split");
}

/// A crowd of broken connections at the same time, and the work in between.
fn crowd(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let Some(mut s) = Scene::new(rng, 300) else { return };
    let mut crowd = Vec::new();
    let mut received = 0;
    for _ in 0..rng.range(10, 60) {
        let Ok(mut p) = Peer::connect(s.w.listen) else { continue };
        let mut b = Vec::new();
        if rng.chance(1, 3) {
            b.extend(wire::frame(wire::hello(None, &format!("c{}", rng.below(1_000_000)), fresh_address())));
        }
        for _ in 0..rng.below(4) {
            b.extend(if rng.bool() { mangled(rng) } else { malformed(rng).0 });
        }
        let n = rng.range(0, b.len() as u64) as usize;
        p.write(&b[..n]);
        received += n as u64;
        if rng.chance(1, 4) {
            linger_zero(&p.stream);
        } else {
            crowd.push(p);
        }
        if rng.chance(1, 10) && !s.goes_on("crowd") {
            return;
        }
    }
    s.slack = 64 * MB;
    s.goes_on("crowd");
    s.memory(received, "crowd");
    cover(&("crowd", crowd.len() / 5));
    count("crowd.connections", crowd.len() as u64);
    drop(crowd);
    let quiet = wait(&[&s.w], || s.w.nodes()["connected"] == json!([s.b.node()]));
    check(quiet, "crowd-still-listed", || s.w.nodes());
    s.finish("crowd");
}

fn main() {
    agent_if_requested();
    run(
        "C19",
        &[
            scenario("before", 4, before),
            scenario("after", 4, after),
            scenario("names", 3, names),
            scenario("split", 3, split),
            scenario("crowd", 1, crowd),
        ],
    );
}
