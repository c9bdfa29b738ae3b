//! C16: messages, identities, signals, monitors, links and calls between nodes. Every node is a
//! process of its own; what each actor observed is collected and compared with what the same history
//! means on one node.
use std::collections::BTreeMap;

use hv::net::*;
use hv::*;
use hydra::ExitReason;

#[global_allocator]
static A: hv::alloc::Counting = hv::alloc::Counting;

struct Net {
    agents: Vec<Agent>,
}

impl Net {
    fn new(rng: &mut Rng, n: usize, eager: bool) -> Net {
        let agents: Vec<Agent> = (0..n).map(|i| Agent::spawn(&format!("n{i}"), *rng.pick(&[1usize, 2, 2, 4]))).collect();
        for a in &agents {
            a.start_node(json!({}));
            if rng.chance(1, 2) {
                a.ask(json!({"op": "chaos", "seed": rng.next() >> 1, "prob": *rng.pick(&[3000u32, 8000, 20000]), "us": *rng.pick(&[50u32, 200, 600])}));
            }
        }
        let net = Net { agents };
        if !eager {
            net.mesh();
        }
        net
    }
    fn mesh(&self) {
        for i in 0..self.agents.len() {
            for j in 0..i {
                connect(&self.agents[i], &self.agents[j]);
            }
        }
    }
    fn all(&self) -> Vec<&Agent> {
        self.agents.iter().collect()
    }
    fn done(&self, allowed: &[&str]) {
        for a in &self.agents {
            a.judge_panics(allowed);
        }
    }
}

/// Everybody sends to everybody by every form of address.
fn traffic(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let n = *rng.pick(&[2usize, 2, 3]);
    let eager = n == 2 && rng.chance(1, 3);
    let net = Net::new(rng, n, eager);
    let per = rng.range(1, 3) as usize;
    // (node, actor)
    let mut actors: Vec<(usize, String)> = Vec::new();
    for i in 0..n {
        for k in 0..per {
            let name = format!("a{i}_{k}");
            net.agents[i].actor(&name, true);
            net.agents[i].tell(&name, json!({"op": "alias", "ref": format!("alias_{name}"), "reply": false}));
            actors.push((i, name));
        }
    }
    // A process that has ended and a name nobody has.
    net.agents[0].actor("gone", false);
    net.agents[0].tell("gone", json!({"op": "return"}));
    for i in 0..n {
        for (j, name) in &actors {
            if *j != i {
                let from = &net.agents[*j];
                net.agents[i].learn(from, name, name);
                net.agents[i].learn(from, &format!("alias_{name}"), &format!("alias_{name}"));
            }
        }
        if i != 0 {
            net.agents[i].learn(&net.agents[0], "gone", "gone");
        }
    }
    if eager {
        // Sent while the connection is being made.
        net.agents[0].ask(json!({"op": "connect", "node": net.agents[1].node()}));
    }

    let form = |rng: &mut Rng, from: usize, to: &(usize, String)| -> Value {
        match rng.below(3) {
            0 => json!({"pid": to.1}),
            1 => json!({"name": to.1, "node": if from == to.0 { "local".to_string() } else { net.agents[to.0].node() }}),
            _ => json!({"alias": format!("alias_{}", to.1)}),
        }
    };
    // sender -> receiver -> expected (tag, hash)
    let mut expected: BTreeMap<(String, String), Vec<(String, String)>> = BTreeMap::new();
    let mut posted = Vec::new();
    let rounds = rng.range(2, 8);
    let mut serial = 0u64;
    for round in 0..rounds {
        for s in 0..actors.len() {
            let (node, sender) = actors[s].clone();
            if eager && node != 0 {
                // The other side may not be connected yet, and then drops what it is given.
                continue;
            }
            let list = rng.chance(1, 3);
            let picks: Vec<(usize, String)> = (0..if list { rng.range(1, 5) } else { 1 }).map(|_| actors[rng.usize(actors.len())].clone()).collect();
            let mut to: Vec<Value> = picks.iter().map(|p| form(rng, node, p)).collect();
            if list && rng.chance(1, 2) {
                to.insert(rng.usize(to.len() + 1), json!({"pid": "gone"}));
                let other = (node + 1) % n;
                to.insert(rng.usize(to.len() + 1), json!({"name": "nobody", "node": net.agents[other].node()}));
            }
            let len = match rng.below(20) {
                0 => 300_000,
                1 => 70_000,
                2 => 0,
                _ => rng.below(600) as usize,
            };
            let times = if len > 10_000 { 1 } else { rng.range(1, 30) };
            serial += 1000;
            let tag = format!("{sender}:{round}");
            for i in 0..times {
                let hash = body_hash(&body_of(serial + i, len), &raw_of(serial + i, len / 3));
                for p in &picks {
                    expected.entry((sender.clone(), p.1.clone())).or_default().push((format!("{tag}#{i}"), hash.clone()));
                }
            }
            let mut job = json!({"op": "send", "to": to, "tag": tag, "times": times, "first": 0, "seed": serial, "len": len, "pace": rng.below(4)});
            if list {
                job["list"] = json!(true);
            }
            cover(&("form", list, to.len(), len / 1000, node, n, eager));
            posted.push((node, net.agents[node].post(Some(&sender), job)));
        }
    }
    for (node, id) in posted {
        if let Err(e) = net.agents[node].answer(id) {
            violation("sending-failed", json!(e));
        }
    }
    let total: usize = expected.values().map(|v| v.len()).sum();
    let arrived = || net.agents.iter().map(|a| a.count_events(|e| e["ev"] == "msg")).sum::<usize>();
    wait(&net.all(), || arrived() >= total);
    // Whatever would come twice has a moment to do so.
    wait(&net.all(), {
        let mut left = 12;
        move || {
            left -= 1;
            left == 0
        }
    });
    let mut order = Vec::new();
    for (i, (node, name)) in actors.iter().enumerate() {
        let events: Vec<Value> = net.agents[*node].events_of(name).into_iter().filter(|e| e["ev"] == "msg").collect();
        let mut per: BTreeMap<String, Vec<(String, String)>> = BTreeMap::new();
        for e in &events {
            let tag = e["tag"].as_str().unwrap_or("").to_string();
            let sender = tag.split(':').next().unwrap_or("").to_string();
            order.push((i, sender.clone()));
            per.entry(sender).or_default().push((tag, e["hash"].as_str().unwrap_or("").to_string()));
        }
        for (_, sender) in &actors {
            let want = expected.get(&(sender.clone(), name.clone())).cloned().unwrap_or_default();
            let got = per.remove(sender).unwrap_or_default();
            if want == got {
                continue;
            }
            let tags = |v: &[(String, String)]| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
            let (w, g) = (tags(&want), tags(&got));
            let mut sw = w.clone();
            let mut sg = g.clone();
            sw.sort();
            sg.sort();
            let sig = if w == g {
                "content-changed"
            } else if sw == sg {
                "order-changed"
            } else if g.len() < w.len() {
                "message-lost"
            } else {
                "message-duplicated"
            };
            let at = w.iter().zip(&g).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len()));
            violation(sig, json!({"from": sender, "to": name, "eager": eager, "wanted": w.len(), "got": g.len(), "differs_at": at, "near": [w.get(at), g.get(at)]}));
        }
        for (sender, got) in per {
            violation("foreign-message", json!({"at": name, "sender": sender, "n": got.len()}));
        }
    }
    evaluated(total as u64);
    count("messages", total as u64);
    cover(&order);
    sample("traffic", || json!({"nodes": n, "actors": actors.len(), "messages": total, "eager": eager}));
    net.done(&[]);
}

/// Ids keep denoting the same process along any route.
fn identity(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let n = *rng.pick(&[2usize, 3, 3]);
    let net = Net::new(rng, n, false);
    let mut names = Vec::new();
    let mut gids = Vec::new();
    for i in 0..n {
        let name = format!("a{i}");
        gids.push(net.agents[i].actor(&name, true));
        net.agents[i].tell(&name, json!({"op": "alias", "ref": format!("alias_{name}"), "reply": false}));
        names.push(name);
    }
    for trip in 0..rng.range(2, 6) {
        let home = rng.usize(n);
        let mut route = vec![home];
        for _ in 0..rng.range(1, 5) {
            let at = *route.last().unwrap();
            route.push((at + 1 + rng.usize(n - 1)) % n);
        }
        if *route.last().unwrap() != home {
            route.push(home);
        }
        // The pid, the alias and a local name as they are called at the current stop.
        let mut pid = names[home].clone();
        let mut alias = format!("alias_{}", names[home]);
        for (hop, pair) in route.windows(2).enumerate() {
            let (from, to) = (pair[0], pair[1]);
            let tag = format!("t{trip}h{hop}");
            net.agents[from].tell(
                &names[from],
                json!({"op": "send", "to": [{"name": names[to], "node": net.agents[to].node()}], "tag": tag, "pids": [pid], "refs": [alias],
                    "dests": [{"pid": pid}, {"name": names[from], "node": "local"}], "len": 3}),
            );
            let mut seen = Value::Null;
            wait(&net.all(), || {
                seen = net.agents[to].events_of(&names[to]).into_iter().find(|e| e["ev"] == "msg" && e["tag"] == tag.as_str()).unwrap_or(Value::Null);
                !seen.is_null()
            });
            if !check(!seen.is_null(), "message-lost", || json!({"hop": tag})) {
                return;
            }
            let at_home = to == home;
            check(seen["pids"][0] == gids[home].as_str(), "pid-changed", || json!({"route": route, "hop": hop, "seen": seen, "home": gids[home]}));
            check(seen["local"][0] == at_home && seen["me"][0] == at_home, "pid-not-itself-at-home", || json!({"route": route, "hop": hop, "seen": seen}));
            check(seen["rlocal"][0] == at_home, "reference-not-itself-at-home", || json!({"route": route, "hop": hop, "seen": seen}));
            if at_home {
                check(seen["refs"][0] == format!("alias_{}", names[home]).as_str(), "reference-changed", || json!({"route": route, "seen": seen}));
            }
            check(seen["dests"][0]["pid"] == gids[home].as_str(), "pid-changed", || json!({"route": route, "hop": hop, "seen": seen}));
            check(
                seen["dests"][1] == json!({"name": names[from], "node": net.agents[from].node()}),
                "node-of-a-name-changed",
                || json!({"route": route, "hop": hop, "seen": seen}),
            );
            pid = format!("+{tag}.p0");
            alias = format!("+{tag}.r0");
            // What arrived reaches its owner from here.
            for (kind, to_what) in [("p", json!({"pid": pid})), ("r", json!({"alias": alias}))] {
                let reach = format!("{kind}{trip}-{hop}");
                net.agents[to].tell(&names[to], json!({"op": "send", "to": [to_what], "tag": reach, "len": 1}));
                let ok = wait(&net.all(), || net.agents[home].events_of(&names[home]).iter().any(|e| e["ev"] == "msg" && e["tag"] == reach.as_str()));
                check(ok, "carried-id-does-not-reach-its-owner", || json!({"kind": kind, "route": route, "hop": hop}));
            }
            // And nobody else got it.
            for i in 0..n {
                if i != home {
                    let stray = net.agents[i].count_events(|e| e["ev"] == "msg" && (e["tag"] == format!("p{trip}-{hop}") || e["tag"] == format!("r{trip}-{hop}")));
                    check(stray == 0, "reached-somebody-else", || json!({"route": route, "hop": hop, "node": i}));
                }
            }
            // Equality with the same id learned on another way.
            if to != home {
                net.agents[to].learn(&net.agents[home], &names[home], "again");
                let same = net.agents[to].ask(json!({"op": "same", "a": "again", "b": pid}));
                check(same == true, "same-pid-unequal", || json!({"route": route, "hop": hop}));
                net.agents[to].learn(&net.agents[home], &format!("alias_{}", names[home]), "again-r");
                let same = net.agents[to].ask(json!({"op": "same", "a": "again-r", "b": alias}));
                check(same == true, "same-reference-unequal", || json!({"route": route, "hop": hop}));
            }
            evaluated(1);
            cover(&("hop", n, home, from, to, hop));
        }
        sample("route", || json!({"nodes": n, "route": route}));
    }
    net.done(&[]);
}

fn dies(rng: &mut Rng) -> (Value, String) {
    match rng.below(7) {
        0 => (json!({"op": "return"}), "normal".into()),
        1 => (json!({"op": "panic", "text": "oops"}), "custom:[expected]oops".into()),
        2 => (json!({"op": "die", "reason": "kill"}), "kill".into()),
        3 => (json!({"op": "die", "reason": "normal"}), "normal".into()),
        4 => (json!({"op": "die", "reason": "ignore"}), "ignore".into()),
        5 => {
            let r = *rng.pick(&["custom:", "custom:shutdown", "custom:normal", "custom:kill"]);
            (json!({"op": "die", "reason": r}), r.into())
        }
        _ => {
            let r = format!("custom:r{}\u{e9}", rng.below(100));
            (json!({"op": "die", "reason": r}), r)
        }
    }
}

/// What one case must have led to, judged at the end of the episode.
struct Want {
    node: usize,
    actor: String,
    kind: &'static str,
    /// Reasons, in order; empty means none.
    reasons: Vec<String>,
    /// Only events about this reference or process.
    about: String,
    case: Value,
}

/// Monitors, links and exit signals across the connection.
fn signals(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let net = Net::new(rng, 2, false);
    let mut wants: Vec<Want> = Vec::new();
    let cases = rng.range(6, 14);
    for c in 0..cases {
        let (w, t) = if rng.bool() { (0usize, 1usize) } else { (1, 0) };
        let (wn, tn) = (&net.agents[w], &net.agents[t]);
        let watcher = format!("w{c}");
        let target = format!("t{c}");
        let wg = wn.actor(&watcher, false);
        let tg = tn.actor(&target, true);
        wn.learn(tn, &target, &target);
        tn.learn(wn, &watcher, &watcher);
        let (death, reason) = dies(rng);
        let ended = |node: &Agent, name: &str| {
            let ok = wait(&[node], || node.events_of(name).iter().any(|e| e["ev"] == "ended"));
            check(ok, "did-not-end", || json!({"actor": name, "node": node.label}));
            node.events_of(name).iter().find(|e| e["ev"] == "ended").map(|e| e["reason"].as_str().unwrap_or("").to_string())
        };
        // A message sent on the same connection afterwards has passed everything before it.
        let pass = |from: &Agent, to: &Agent, n: u64| {
            let b = format!("b{c}_{n}");
            from.actor(&format!("s{b}"), false);
            to.actor(&b, true);
            from.tell(&format!("s{b}"), json!({"op": "send", "to": [{"name": b, "node": to.node()}], "tag": "pass"}));
            wait(&[from, to], || to.events_of(&b).iter().any(|e| e["ev"] == "msg"));
            from.tell(&format!("s{b}"), json!({"op": "return"}));
            to.tell(&b, json!({"op": "return"}));
        };
        let kind = rng.below(11);
        let case = json!({"case": kind, "watcher_on": w, "death": reason});
        count("cases", 1);
        match kind {
            // A monitor by pid or by name; the target dies some way.
            0 | 1 => {
                let by_name = kind == 1;
                let to = if by_name { json!({"name": target, "node": tn.node()}) } else { json!({"pid": target}) };
                let mut times = 1;
                let at_once = rng.chance(1, 5);
                if at_once {
                    // Removed before anything of the other node can have been received.
                    wn.tell(&watcher, json!({"op": "batch", "jobs": [
                        {"op": "monitor", "to": to, "ref": format!("m{c}")}, {"op": "demonitor", "ref": format!("m{c}")}]}));
                    pass(wn, tn, 1);
                    pass(tn, wn, 2);
                    let ok = wait(&net.all(), || tn.info(&target)["monitored_by"].as_array().is_some_and(|a| a.is_empty()));
                    check(ok, "removed-monitor-still-installed", || json!({"by_name": by_name, "at_once": true, "case": case}));
                    tn.tell(&target, death);
                    wants.push(Want { node: w, actor: watcher.clone(), kind: "down", reasons: vec![], about: format!("m{c}"), case: case.clone() });
                    cover(&("monitor-at-once", by_name));
                    evaluated(1);
                    continue;
                }
                wn.tell(&watcher, json!({"op": "monitor", "to": to, "ref": format!("m{c}")}));
                if rng.chance(1, 3) {
                    // A second monitor of the same process fires as well.
                    wn.tell(&watcher, json!({"op": "monitor", "to": {"pid": target}, "ref": format!("mm{c}")}));
                    times = 2;
                }
                let settled = rng.bool();
                if settled {
                    let ok = wait(&net.all(), || tn.info(&target)["monitored_by"].as_array().is_some_and(|a| a.iter().filter(|g| **g == wg.as_str()).count() == times));
                    check(ok, "monitor-not-installed", || json!({"case": case, "info": tn.info(&target)}));
                }
                let remove = rng.chance(1, 3);
                if remove {
                    wn.tell(&watcher, json!({"op": "demonitor", "ref": format!("m{c}")}));
                    if rng.bool() {
                        let left = times - 1;
                        let ok = wait(&net.all(), || tn.info(&target)["monitored_by"].as_array().is_some_and(|a| a.len() == left));
                        check(ok, "removed-monitor-still-installed", || json!({"by_name": by_name, "settled": settled, "info": tn.info(&target), "case": case}));
                    }
                }
                tn.tell(&target, death);
                let truth = ended(tn, &target).unwrap_or_default();
                check(truth == reason, "wrong-reason", || json!({"wanted": reason, "got": truth}));
                if !remove && !settled {
                    // Either it was there in time or it is told there is no such process.
                    wait(&net.all(), || wn.events_of(&watcher).iter().any(|e| e["ev"] == "down" && e["ref"] == format!("m{c}")));
                    let got = wn.events_of(&watcher).iter().find(|e| e["ev"] == "down" && e["ref"] == format!("m{c}")).map(|e| e["reason"].as_str().unwrap_or("").to_string());
                    check(got.as_deref() == Some(reason.as_str()) || got.as_deref() == Some("custom:noproc"), "monitor-not-told-the-truth", || json!({"got": got, "case": case}));
                    wants.push(Want { node: w, actor: watcher.clone(), kind: "down", reasons: vec![got.unwrap_or_default()], about: format!("m{c}"), case: case.clone() });
                } else {
                    let reasons = if remove { vec![] } else { vec![reason.clone()] };
                    wants.push(Want { node: w, actor: watcher.clone(), kind: "down", reasons, about: format!("m{c}"), case: case.clone() });
                    if times == 2 && settled {
                        wants.push(Want { node: w, actor: watcher.clone(), kind: "down", reasons: vec![reason.clone()], about: format!("mm{c}"), case: case.clone() });
                    }
                }
                cover(&("monitor", by_name, times, settled, remove, &reason));
            }
            // Nobody there: by pid, by name.
            2 => {
                tn.tell(&target, json!({"op": "return"}));
                ended(tn, &target);
                let name = rng.bool();
                let to = if name { json!({"name": target, "node": tn.node()}) } else { json!({"pid": target}) };
                wn.tell(&watcher, json!({"op": "monitor", "to": to, "ref": format!("m{c}")}));
                wants.push(Want { node: w, actor: watcher.clone(), kind: "down", reasons: vec!["custom:noproc".into()], about: format!("m{c}"), case: case.clone() });
                cover(&("noproc", name));
            }
            // The watcher dies: the target forgets it.
            3 => {
                let name = rng.bool();
                let to = if name { json!({"name": target, "node": tn.node()}) } else { json!({"pid": target}) };
                let early = rng.bool();
                let monitor = wn.post(Some(&watcher), json!({"op": "monitor", "to": to, "ref": format!("m{c}")}));
                if early {
                    wn.post(Some(&watcher), death);
                    let _ = wn.answer(monitor);
                    ended(wn, &watcher);
                    pass(wn, tn, 1);
                    pass(tn, wn, 2);
                } else {
                    let ok = wait(&net.all(), || tn.info(&target)["monitored_by"].as_array().is_some_and(|a| a.len() == 1));
                    check(ok, "monitor-not-installed", || json!({"case": case}));
                    wn.tell(&watcher, death);
                    ended(wn, &watcher);
                }
                let ok = wait(&net.all(), || tn.info(&target)["monitored_by"].as_array().is_some_and(|a| a.is_empty()));
                check(ok, "monitor-of-a-dead-watcher-stays", || json!({"by_name": name, "early": early, "info": tn.info(&target)}));
                cover(&("watcher-dies", name, early));
            }
            // Links; either side dies.
            4 | 5 => {
                let trap = rng.bool();
                if trap {
                    wn.tell(&watcher, json!({"op": "trap"}));
                }
                let theirs = rng.bool();
                if theirs {
                    tn.tell(&target, json!({"op": "link", "pid": watcher}));
                } else {
                    wn.tell(&watcher, json!({"op": "link", "pid": target}));
                }
                if rng.chance(1, 3) {
                    // Once more, from the other side.
                    if theirs {
                        wn.tell(&watcher, json!({"op": "link", "pid": target}));
                    } else {
                        tn.tell(&target, json!({"op": "link", "pid": watcher}));
                    }
                }
                let ok = wait(&net.all(), || {
                    tn.info(&target)["links"].as_array().is_some_and(|a| a.len() == 1 && a[0] == wg.as_str())
                        && wn.info(&watcher)["links"].as_array().is_some_and(|a| a.len() == 1 && a[0] == tg.as_str())
                });
                if !check(ok, "link-not-installed", || json!({"case": case, "t": tn.info(&target), "w": wn.info(&watcher)})) {
                    continue;
                }
                // Everything the second linking sent has arrived.
                pass(wn, tn, 1);
                pass(tn, wn, 2);
                let mut removed = false;
                if kind == 5 {
                    removed = true;
                    if rng.bool() {
                        wn.tell(&watcher, json!({"op": "unlink", "pid": target}));
                        pass(wn, tn, 3);
                    } else {
                        tn.tell(&target, json!({"op": "unlink", "pid": watcher}));
                        pass(tn, wn, 3);
                    }
                    let ok = wait(&net.all(), || {
                        tn.info(&target)["links"].as_array().is_some_and(|a| a.is_empty()) && wn.info(&watcher)["links"].as_array().is_some_and(|a| a.is_empty())
                    });
                    check(ok, "removed-link-still-there", || json!({"case": case, "t": tn.info(&target), "w": wn.info(&watcher)}));
                }
                tn.tell(&target, death);
                ended(tn, &target);
                if removed {
                    pass(tn, wn, 4);
                    wants.push(Want { node: w, actor: watcher.clone(), kind: "exit", reasons: vec![], about: tg.clone(), case: case.clone() });
                    check(!wn.info(&watcher).is_null(), "unlinked-process-dies", || json!({"case": case}));
                } else if trap {
                    wants.push(Want { node: w, actor: watcher.clone(), kind: "exit", reasons: vec![reason.clone()], about: tg.clone(), case: case.clone() });
                    wait(&net.all(), || wn.events_of(&watcher).iter().any(|e| e["ev"] == "exit"));
                    let ok = wait(&net.all(), || wn.info(&watcher)["links"].as_array().is_some_and(|a| a.is_empty()));
                    check(ok, "link-to-a-dead-process-stays", || json!({"case": case, "w": wn.info(&watcher)}));
                } else if reason == "normal" {
                    pass(tn, wn, 5);
                    check(!wn.info(&watcher).is_null(), "normal-exit-kills-linked", || json!({"case": case}));
                } else {
                    let got = ended(wn, &watcher);
                    check(got.as_deref() == Some(reason.as_str()), "linked-process-ends-for-another-reason", || json!({"case": case, "got": got}));
                }
                cover(&("link", trap, theirs, removed, &reason));
            }
            // A link to nobody.
            6 => {
                let trap = rng.bool();
                if trap {
                    wn.tell(&watcher, json!({"op": "trap"}));
                }
                tn.tell(&target, json!({"op": "return"}));
                ended(tn, &target);
                wn.tell(&watcher, json!({"op": "link", "pid": target}));
                if trap {
                    wants.push(Want { node: w, actor: watcher.clone(), kind: "exit", reasons: vec!["custom:noproc".into()], about: tg.clone(), case: case.clone() });
                    wait(&net.all(), || wn.events_of(&watcher).iter().any(|e| e["ev"] == "exit"));
                    let ok = wait(&net.all(), || wn.info(&watcher)["links"].as_array().is_some_and(|a| a.is_empty()));
                    check(ok, "link-to-nobody-stays", || json!({"w": wn.info(&watcher)}));
                } else {
                    let got = ended(wn, &watcher);
                    check(got.as_deref() == Some("custom:noproc"), "link-to-nobody", || json!({"got": got}));
                }
                cover(&("link-noproc", trap));
            }
            // Exit signals.
            7 | 8 => {
                let trap = rng.bool();
                if trap {
                    tn.tell(&target, json!({"op": "trap"}));
                }
                wn.tell(&watcher, json!({"op": "exit", "pid": target, "reason": reason}));
                pass(wn, tn, 1);
                if reason == "kill" || (!trap && reason.starts_with("custom")) {
                    let got = ended(tn, &target);
                    check(got.as_deref() == Some(reason.as_str()), "exit-signal-with-another-reason", || json!({"case": case, "got": got}));
                } else {
                    check(!tn.info(&target).is_null(), "exit-signal-kills-wrongly", || json!({"case": case, "trap": trap}));
                    let reasons = if trap { vec![reason.clone()] } else { vec![] };
                    wants.push(Want { node: t, actor: target.clone(), kind: "exit", reasons, about: wg.clone(), case: case.clone() });
                }
                cover(&("exit", trap, &reason));
            }
            // The linker dies first: the other side hears of it or forgets it.
            9 => {
                tn.tell(&target, json!({"op": "trap"}));
                wn.tell(&watcher, json!({"op": "link", "pid": target}));
                if rng.bool() {
                    wait(&net.all(), || tn.info(&target)["links"].as_array().is_some_and(|a| a.len() == 1));
                }
                wn.tell(&watcher, death);
                ended(wn, &watcher);
                wants.push(Want { node: t, actor: target.clone(), kind: "exit", reasons: vec![reason.clone()], about: wg.clone(), case: case.clone() });
                wait(&net.all(), || tn.events_of(&target).iter().any(|e| e["ev"] == "exit"));
                let ok = wait(&net.all(), || tn.info(&target)["links"].as_array().is_some_and(|a| a.is_empty()));
                check(ok, "link-to-a-dead-process-stays", || json!({"t": tn.info(&target)}));
                cover(&("linker-dies", &reason));
            }
            // A monitor with an alias, used from the other node.
            _ => {
                let reply = rng.bool();
                let name = rng.bool();
                let to = if name { json!({"name": target, "node": tn.node()}) } else { json!({"pid": target}) };
                if rng.chance(1, 3) {
                    wn.tell(&watcher, json!({"op": "batch", "jobs": [
                        {"op": "monitor", "to": to, "ref": format!("m{c}"), "alias": reply}, {"op": "demonitor", "ref": format!("m{c}")}]}));
                    tn.learn(wn, &format!("m{c}"), &format!("m{c}"));
                    tn.tell(&target, json!({"op": "send", "to": [{"alias": format!("m{c}")}], "tag": "late"}));
                    pass(tn, wn, 1);
                    check(!wn.events_of(&watcher).iter().any(|e| e["ev"] == "msg"), "alias-outlives-its-monitor", || json!({"by_name": name, "reply": reply, "at_once": true}));
                    cover(&("monitor-alias-at-once", reply, name));
                    evaluated(1);
                    continue;
                }
                wn.tell(&watcher, json!({"op": "monitor", "to": to, "ref": format!("m{c}"), "alias": reply}));
                tn.learn(wn, &format!("m{c}"), &format!("m{c}"));
                tn.tell(&target, json!({"op": "send", "to": [{"alias": format!("m{c}")}], "tag": "one", "times": 1}));
                tn.tell(&target, json!({"op": "send", "to": [{"alias": format!("m{c}")}], "tag": "two", "times": 1}));
                pass(tn, wn, 1);
                let got = |tag: &str| wn.events_of(&watcher).iter().filter(|e| e["ev"] == "msg" && e["tag"] == format!("{tag}#0")).count();
                wait(&net.all(), || got("one") == 1 && (reply || got("two") == 1));
                check(got("one") == 1 && got("two") == if reply { 0 } else { 1 }, "alias-of-a-monitor", || json!({"reply": reply, "one": got("one"), "two": got("two")}));
                let removed = rng.bool();
                if removed {
                    wn.tell(&watcher, json!({"op": "demonitor", "ref": format!("m{c}")}));
                } else {
                    tn.tell(&target, json!({"op": "return"}));
                    wait(&net.all(), || wn.events_of(&watcher).iter().any(|e| e["ev"] == "down"));
                }
                // The alias ended together with the monitor.
                let s = format!("z{c}");
                tn.actor(&s, false);
                tn.tell(&s, json!({"op": "send", "to": [{"alias": format!("m{c}")}], "tag": "late", "times": 1}));
                pass(tn, wn, 2);
                check(got("late") == 0, "alias-outlives-its-monitor", || json!({"by_name": name, "reply": reply, "removed": removed}));
                wants.push(Want {
                    node: w,
                    actor: watcher.clone(),
                    kind: "down",
                    reasons: if removed { vec![] } else { vec!["normal".into()] },
                    about: format!("m{c}"),
                    case: case.clone(),
                });
                cover(&("monitor-alias", reply, name, removed));
            }
        }
        evaluated(1);
        if violations_so_far() >= 4 {
            break;
        }
    }
    let seen = |want: &Want| -> Vec<String> {
        net.agents[want.node]
            .events_of(&want.actor)
            .iter()
            .filter(|e| e["ev"] == want.kind && (e["ref"] == want.about.as_str() || e["from"] == want.about.as_str()))
            .map(|e| e["reason"].as_str().unwrap_or("").to_string())
            .collect()
    };
    wait(&net.all(), || wants.iter().all(|x| seen(x).len() >= x.reasons.len()));
    wait(&net.all(), {
        let mut left = 15;
        move || {
            left -= 1;
            left == 0
        }
    });
    for want in &wants {
        let got = seen(want);
        if got != want.reasons {
            let sig = if got.len() > want.reasons.len() {
                if want.reasons.is_empty() { "told-after-removal" } else { "told-twice" }
            } else if got.len() < want.reasons.len() {
                "not-told"
            } else {
                "told-another-reason"
            };
            violation(format!("{sig}:{}", want.kind), json!({"case": want.case, "wanted": want.reasons, "got": got}));
        }
    }
    sample("signals", || json!({"cases": cases, "judged": wants.len()}));
    net.done(&[]);
}

/// Monitors and links installed while their target is dying: told exactly once either way.
fn races(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let net = Net::new(rng, 2, false);
    let (w, t) = if rng.bool() { (0usize, 1usize) } else { (1, 0) };
    let (wn, tn) = (&net.agents[w], &net.agents[t]);
    for a in &net.agents {
        a.ask(json!({"op": "chaos", "seed": rng.next() >> 1, "prob": *rng.pick(&[8000u32, 20000, 35000]), "us": *rng.pick(&[100u32, 400, 1500])}));
    }
    let pairs = rng.range(10, 30) as usize;
    let mut gids = Vec::new();
    for i in 0..pairs {
        let (watcher, target) = (format!("w{i}"), format!("t{i}"));
        wn.actor(&watcher, false);
        gids.push(tn.actor(&target, true));
        wn.learn(tn, &target, &target);
    }
    let mut kinds = Vec::new();
    let mut posts = Vec::new();
    for i in 0..pairs {
        let (watcher, target) = (format!("w{i}"), format!("t{i}"));
        let kind = rng.below(3);
        let (jobs, what) = match kind {
            0 => (json!([{"op": "monitor", "to": {"pid": target}, "ref": "m"}]), "down"),
            1 => (json!([{"op": "monitor", "to": {"name": target, "node": tn.node()}, "ref": "m"}]), "down"),
            _ => (json!([{"op": "trap"}, {"op": "link", "pid": target}]), "exit"),
        };
        let jobs = json!({"op": "batch", "jobs": jobs});
        let reason = format!("custom:d{i}");
        let die = json!({"op": "die", "reason": reason});
        if rng.bool() {
            posts.push((w, wn.post(Some(&watcher), jobs)));
            if rng.bool() {
                std::thread::sleep(std::time::Duration::from_micros(rng.below(400)));
            }
            posts.push((t, tn.post(Some(&target), die)));
        } else {
            posts.push((t, tn.post(Some(&target), die)));
            posts.push((w, wn.post(Some(&watcher), jobs)));
        }
        kinds.push((kind, what, reason));
    }
    for (node, id) in posts {
        let _ = net.agents[node].answer(id);
    }
    let told = |i: usize| -> Vec<String> {
        let what = kinds[i].1;
        wn.events_of(&format!("w{i}")).iter().filter(|e| e["ev"] == what).map(|e| e["reason"].as_str().unwrap_or("").to_string()).collect()
    };
    wait(&net.all(), || (0..pairs).all(|i| !told(i).is_empty()));
    wait(&net.all(), {
        let mut left = 15;
        move || {
            left -= 1;
            left == 0
        }
    });
    for i in 0..pairs {
        let got = told(i);
        let (kind, what, reason) = &kinds[i];
        evaluated(1);
        if got.len() != 1 {
            violation(if got.is_empty() { format!("not-told:{what}") } else { format!("told-twice:{what}") }, json!({"kind": kind, "got": got, "race": true}));
        } else if got[0] != *reason && got[0] != "custom:noproc" {
            violation(format!("told-another-reason:{what}"), json!({"kind": kind, "got": got, "race": true}));
        } else {
            cover(&("race", kind, got[0] == "custom:noproc", i));
        }
    }
    count("races", pairs as u64);
    net.done(&[]);
}

/// Linking and unlinking which cross on the way: whatever comes of it, both sides agree about it.
fn crossing(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let (a, _pa) = node_behind("a", rng, &json!({}));
    let (b, pb) = node_behind("b", rng, &json!({}));
    // Through one proxy.
    a.ask(json!({"op": "connect", "node": b.node()}));
    let nodes = [&a, &b];
    if !check(wait(&nodes, || a.in_state("connected", &b.node()) && b.in_state("connected", &a.node())), "no-connection", || json!({"a": a.nodes(), "b": b.nodes()})) {
        return;
    }
    let mut passes = 0;
    for c in 0..rng.range(4, 9) {
        let names = [format!("a{c}"), format!("b{c}")];
        let gids: Vec<String> = (0..2).map(|i| nodes[i].actor(&names[i], true)).collect();
        for i in 0..2 {
            nodes[i].learn(nodes[1 - i], &names[1 - i], &names[1 - i]);
            nodes[i].tell(&names[i], json!({"op": "trap"}));
        }
        let mut pass = |way: usize| {
            passes += 1;
            let (from, to) = (nodes[way], nodes[1 - way]);
            let (s, r) = (format!("s{passes}"), format!("r{passes}"));
            from.actor(&s, false);
            to.actor(&r, true);
            from.tell(&s, json!({"op": "send", "to": [{"name": r, "node": to.node()}], "tag": "pass"}));
            let ok = wait(&nodes, || to.events_of(&r).iter().any(|e| e["ev"] == "msg"));
            from.tell(&s, json!({"op": "return"}));
            to.tell(&r, json!({"op": "return"}));
            ok
        };
        let linked = |i: usize| nodes[i].info(&names[i])["links"].as_array().is_some_and(|l| l.iter().any(|g| *g == gids[1 - i].as_str()));
        let before = rng.bool();
        if before {
            let i = rng.usize(2);
            nodes[i].tell(&names[i], json!({"op": "link", "pid": names[1 - i]}));
            let ok = wait(&nodes, || linked(0) && linked(1));
            check(ok, "link-not-installed", || json!({"crossing": true}));
        }
        // Neither hears of what the other does.
        pb.hold(true);
        std::thread::sleep(std::time::Duration::from_millis(30));
        let ops: Vec<&str> = (0..2).map(|_| *rng.pick(&["link", "unlink", "unlink", "none"])).collect();
        for i in 0..2 {
            if ops[i] != "none" {
                nodes[i].tell(&names[i], json!({"op": ops[i], "pid": names[1 - i]}));
            }
        }
        pb.hold(false);
        pass(0);
        pass(1);
        let (la, lb) = (linked(0), linked(1));
        evaluated(1);
        cover(&("crossing", before, &ops, la));
        let case = json!({"before": before, "a": ops[0], "b": ops[1], "linked_a": la, "linked_b": lb});
        if !check(la == lb, "only-one-side-is-linked", || case.clone()) {
            continue;
        }
        // What nobody undid stands, what nobody asked for does not.
        let (any_link, any_unlink) = (ops.contains(&"link"), ops.contains(&"unlink"));
        if !any_unlink {
            check(la == (before || any_link), "link-differs", || case.clone());
        } else if !any_link {
            check(!la, "link-differs", || case.clone());
        }
        let end = rng.usize(2);
        let (death, reason) = dies(rng);
        nodes[end].tell(&names[end], death);
        let other = 1 - end;
        let told = || nodes[other].events_of(&names[other]).iter().filter(|e| e["ev"] == "exit").map(|e| e["reason"].as_str().unwrap_or("").to_string()).collect::<Vec<_>>();
        wait(&nodes, || nodes[end].events_of(&names[end]).iter().any(|e| e["ev"] == "ended"));
        if la {
            wait(&nodes, || !told().is_empty());
        }
        pass(end);
        let want: Vec<String> = if la { vec![reason] } else { vec![] };
        check(told() == want, "crossing-told", || json!({"case": case, "wanted": want, "got": told()}));
        check(!linked(other), "link-to-a-dead-process-stays", || case.clone());
    }
    count("crossings", 1);
    for n in nodes {
        n.judge_panics(&["[expected]"]);
    }
}

/// Several processes on every node link to and monitor the same ones, more than once, and lose interest in
/// some of it; then those end, one after the other or at once. Each is told once about each.
fn crowd(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let n = *rng.pick(&[2usize, 2, 3]);
    let net = Net::new(rng, n, false);
    let home = &net.agents[0];
    let targets: Vec<String> = (0..rng.range(1, 3)).map(|i| format!("t{i}")).collect();
    let watchers: Vec<(usize, String)> = (0..rng.range(3, 7)).map(|i| (if i < 2 { 1 } else { rng.usize(n) }, format!("w{i}"))).collect();
    let mut tgid = BTreeMap::new();
    let mut wgid = BTreeMap::new();
    for t in &targets {
        tgid.insert(t.clone(), home.actor(t, true));
        home.tell(t, json!({"op": "trap"}));
    }
    for (i, w) in &watchers {
        wgid.insert(w.clone(), net.agents[*i].actor(w, true));
        net.agents[*i].tell(w, json!({"op": "trap"}));
        if *i != 0 {
            for t in &targets {
                net.agents[*i].learn(home, t, t);
            }
            home.learn(&net.agents[*i], w, w);
        }
    }
    // (watcher, target) -> linked, monitors as (reference, kept)
    let mut interest: BTreeMap<(usize, String), (bool, Vec<(String, bool)>)> = BTreeMap::new();
    let mut posts: Vec<(usize, u64)> = Vec::new();
    for (k, (i, w)) in watchers.iter().enumerate() {
        for t in &targets {
            let linked = rng.chance(2, 3);
            let mut jobs = Vec::new();
            if linked {
                if rng.chance(1, 3) {
                    posts.push((0, home.post(Some(t), json!({"op": "link", "pid": w}))));
                } else {
                    jobs.push(json!({"op": "link", "pid": t}));
                }
            }
            let mut refs = Vec::new();
            for m in 0..rng.below(4) {
                let r = format!("m{k}{t}{m}");
                let to = if rng.bool() { json!({"pid": t}) } else { json!({"name": t, "node": if *i == 0 { "local".to_string() } else { home.node() }}) };
                let at = rng.usize(jobs.len() + 1);
                jobs.insert(at, json!({"op": "monitor", "to": to, "ref": r}));
                refs.push((r, true));
            }
            if !jobs.is_empty() {
                posts.push((*i, net.agents[*i].post(Some(w), json!({"op": "batch", "jobs": jobs}))));
            }
            interest.insert((k, t.clone()), (linked, refs));
        }
    }
    for (i, id) in posts.drain(..) {
        let got = net.agents[i].answer(id);
        check(got == Ok(Value::Null), "crowd-failed", || json!(format!("{got:?}")));
    }
    // What each target has to report about itself.
    let stands = |interest: &BTreeMap<(usize, String), (bool, Vec<(String, bool)>)>, gone: &[usize], t: &String| -> bool {
        let info = home.info(t);
        let list = |key: &str| {
            let mut v: Vec<String> = info[key].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(str::to_string)).collect()).unwrap_or_default();
            v.sort();
            v
        };
        let (mut links, mut by) = (Vec::new(), Vec::new());
        for ((k, tt), (linked, refs)) in interest {
            if tt == t && !gone.contains(k) {
                let g = wgid[&watchers[*k].1].clone();
                if *linked {
                    links.push(g.clone());
                }
                // An agent leaves out those of its own node.
                by.extend(refs.iter().filter(|r| r.1 && watchers[*k].0 != 0).map(|_| g.clone()));
            }
        }
        links.sort();
        by.sort();
        list("links") == links && list("monitored_by") == by
    };
    for t in &targets {
        let ok = wait(&net.all(), || stands(&interest, &[], t));
        if !check(ok, "crowd-not-installed", || json!({"target": t, "watchers": watchers, "gids": format!("{wgid:?}"), "info": home.info(t), "interest": format!("{interest:?}")})) {
            return;
        }
    }
    // Some lose interest, on either side, and some end themselves.
    for ((k, t), (linked, refs)) in interest.iter_mut() {
        let (i, w) = &watchers[*k];
        if *linked && rng.chance(1, 5) {
            *linked = false;
            let (at, id) = if rng.bool() {
                (*i, net.agents[*i].post(Some(w), json!({"op": "unlink", "pid": t})))
            } else {
                (0, home.post(Some(t), json!({"op": "unlink", "pid": w})))
            };
            posts.push((at, id));
        }
        for r in refs.iter_mut() {
            if rng.chance(1, 5) {
                r.1 = false;
                posts.push((*i, net.agents[*i].post(Some(w), json!({"op": "demonitor", "ref": r.0}))));
            }
        }
    }
    for (i, id) in posts.drain(..) {
        let got = net.agents[i].answer(id);
        check(got == Ok(Value::Null), "crowd-failed", || json!(format!("{got:?}")));
    }
    let mut gone = Vec::new();
    if rng.bool() {
        let k = rng.usize(watchers.len());
        let (i, w) = &watchers[k];
        net.agents[*i].tell(w, json!({"op": "die", "reason": "custom:enough"}));
        gone.push(k);
    }
    for t in &targets {
        let ok = wait(&net.all(), || stands(&interest, &gone, t));
        if !check(ok, "crowd-not-left", || json!({"target": t, "info": home.info(t), "gone": gone, "interest": format!("{interest:?}")})) {
            return;
        }
    }
    // The end of each.
    let mut reasons = BTreeMap::new();
    let mut order = targets.clone();
    rng.shuffle(&mut order);
    let at_once = rng.bool();
    for t in &order {
        let (death, reason) = dies(rng);
        reasons.insert(t.clone(), reason);
        let id = home.post(Some(t), death);
        if at_once {
            posts.push((0, id));
        } else {
            let _ = home.answer(id);
        }
    }
    for (i, id) in posts.drain(..) {
        let _ = net.agents[i].answer(id);
    }
    let told = |k: usize, ev: &str, about: &str| -> Vec<String> {
        let (i, w) = &watchers[k];
        net.agents[*i].events_of(w).iter().filter(|e| e["ev"] == ev && (e["ref"] == about || e["from"] == about)).map(|e| e["reason"].as_str().unwrap_or("").to_string()).collect()
    };
    let complete = || {
        interest.iter().filter(|((k, _), _)| !gone.contains(k)).all(|((k, t), (linked, refs))| {
            (!linked || !told(*k, "exit", &tgid[t]).is_empty()) && refs.iter().all(|r| !r.1 || !told(*k, "down", &r.0).is_empty())
        })
    };
    wait(&net.all(), complete);
    wait(&net.all(), {
        let mut left = 12;
        move || {
            left -= 1;
            left == 0
        }
    });
    for ((k, t), (linked, refs)) in &interest {
        if gone.contains(k) {
            continue;
        }
        let reason = &reasons[t];
        let mut judge = |what: &str, about: &str, wanted: bool| {
            let got = told(*k, what, about);
            let want: Vec<String> = if wanted { vec![reason.clone()] } else { vec![] };
            evaluated(1);
            if got != want {
                let sig = if got.len() > want.len() { "told-too-much" } else if got.len() < want.len() { "not-told" } else { "told-another-reason" };
                violation(format!("crowd-{sig}:{what}"), json!({"watcher": watchers[*k], "target": t, "wanted": want, "got": got, "nodes": n, "links": interest.values().filter(|x| x.0).count()}));
            }
        };
        judge("exit", &tgid[t], *linked);
        for r in refs {
            judge("down", &r.0, r.1);
        }
        cover(&("crowd", watchers[*k].0, linked, refs.len(), reason, at_once));
    }
    for (k, (i, w)) in watchers.iter().enumerate() {
        if !gone.contains(&k) {
            let ok = wait(&net.all(), || net.agents[*i].info(w)["links"].as_array().is_some_and(|a| a.is_empty()));
            check(ok, "crowd-link-stays", || json!({"watcher": w, "info": net.agents[*i].info(w)}));
        }
    }
    count("crowd", interest.len() as u64);
    sample("crowd", || json!({"nodes": n, "watchers": watchers, "targets": targets.len(), "at_once": at_once}));
    net.done(&["[expected]"]);
}

/// Calls and casts to servers on other nodes.
fn calls(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let n = *rng.pick(&[2usize, 2, 3]);
    let net = Net::new(rng, n, false);
    let mut servers = Vec::new();
    for i in 0..n {
        let s = format!("srv{i}");
        let g = net.agents[i].ask(json!({"op": "server", "name": s, "register": true}));
        servers.push((i, s, g.as_str().unwrap_or("").to_string()));
    }
    for i in 0..n {
        for (j, s, _) in &servers {
            if *j != i {
                net.agents[i].learn(&net.agents[*j], s, s);
            }
        }
    }
    let callers: Vec<(usize, String)> = (0..n).flat_map(|i| (0..2).map(move |k| (i, format!("c{i}_{k}")))).collect();
    for (i, c) in &callers {
        net.agents[*i].actor(c, true);
    }
    let mut id = 0u64;
    let mut posted = Vec::new();
    let mut casts: BTreeMap<(usize, String), Vec<u64>> = BTreeMap::new();
    for _ in 0..rng.range(3, 10) {
        for (i, c) in &callers {
            id += 1;
            let (j, s, g) = rng.pick(&servers).clone();
            let to = match rng.below(2) {
                0 => json!({"pid": s}),
                _ => json!({"name": s, "node": if j == *i { "local".to_string() } else { net.agents[j].node() }}),
            };
            let len = *rng.pick(&[0usize, 5, 200, 40_000]);
            if rng.chance(1, 4) {
                posted.push((*i, net.agents[*i].post(Some(c), json!({"op": "cast", "to": to, "id": id, "len": len})), Value::Null, String::new()));
                casts.entry((j, c.clone())).or_default().push(id);
                continue;
            }
            let mode = rng.below(3);
            let job = match mode {
                // Answered long before, or long after the caller gave up, or never.
                0 => json!({"op": "call", "to": to, "id": id, "len": len, "mode": 1, "delay": rng.below(20), "timeout": 20_000}),
                1 => json!({"op": "call", "to": to, "id": id, "len": len, "mode": 1, "delay": 150 + rng.below(100), "timeout": rng.range(1, 40)}),
                _ => json!({"op": "call", "to": to, "id": id, "len": len, "mode": 0, "delay": 0, "timeout": 20_000}),
            };
            cover(&("call", mode, len, *i == j, to["pid"].is_string()));
            posted.push((*i, net.agents[*i].post(Some(c), job.clone()), job, g.clone()));
        }
    }
    // One server that stops instead of answering, and one that is not there.
    let stops = rng.usize(n);
    let asks = (stops + 1) % n;
    net.agents[stops].ask(json!({"op": "server", "name": "brief", "register": true}));
    net.agents[asks].actor("last", false);
    let to = json!({"name": "brief", "node": net.agents[stops].node()});
    let first = net.agents[asks].tell("last", json!({"op": "call", "to": to, "id": 1, "mode": 3, "timeout": 20_000}));
    check(first == json!({"err": "down", "reason": "custom:srv-stop"}), "call-to-a-stopping-server", || first.clone());
    let second = net.agents[asks].tell("last", json!({"op": "call", "to": to, "id": 1, "mode": 0, "timeout": 20_000}));
    check(second == json!({"err": "down", "reason": "custom:noproc"}), "call-to-nobody", || second.clone());

    for (i, post, job, g) in posted {
        let got = match net.agents[i].answer(post) {
            Ok(v) => v,
            Err(e) => {
                violation("call-failed", json!({"error": e, "job": job}));
                continue;
            }
        };
        evaluated(1);
        if job.is_null() {
            continue;
        }
        let late = job["timeout"].as_u64().unwrap_or(0) < 100;
        let wanted = json!({"ok": job["id"], "same": true, "by": g});
        if late {
            // On a starved machine both may be ready at once.
            check(got == json!({"err": "timeout"}) || got == wanted, "late-reply", || json!({"job": job, "got": got}));
        } else {
            check(got == wanted, "wrong-reply", || json!({"job": job, "got": got, "wanted": wanted}));
        }
    }
    // Late replies have come and gone; nobody received one.
    let total: usize = casts.values().map(|v| v.len()).sum();
    wait(&net.all(), || net.agents.iter().map(|a| a.count_events(|e| e["ev"] == "cast")).sum::<usize>() >= total);
    std::thread::sleep(std::time::Duration::from_millis(300));
    wait(&net.all(), || {
        let mut ok = true;
        for (i, c) in &callers {
            net.agents[*i].tell(c, json!({"op": "flush"}));
            ok &= net.agents[*i].info(c)["queue"] == 0;
        }
        ok
    });
    for (i, c) in &callers {
        let ended = net.agents[*i].events_of(c).into_iter().find(|e| e["ev"] == "ended");
        check(ended.is_none(), "caller-got-something-else", || json!({"caller": c, "ended": ended}));
    }
    for (j, s, _) in &servers {
        let got: Vec<u64> = net.agents[*j].events_of(s).iter().filter(|e| e["ev"] == "cast").filter_map(|e| e["id"].as_u64()).collect();
        for ((node, c), want) in &casts {
            if node == j {
                let mine: Vec<u64> = got.iter().copied().filter(|x| want.contains(x)).collect();
                check(mine == *want, "casts-differ", || json!({"caller": c, "wanted": want, "got": mine}));
            }
        }
    }
    // Nothing stays behind at the servers.
    for (j, s, _) in &servers {
        let ok = wait(&net.all(), || net.agents[*j].info(s)["monitored_by"].as_array().is_some_and(|a| a.is_empty()));
        check(ok, "monitor-of-a-finished-call-stays", || json!({"server": s, "info": net.agents[*j].info(s)}));
    }
    sample("calls", || json!({"calls": id, "nodes": n}));
    net.done(&["[expected]"]);
}

/// Processes and references of two nodes that have the same numbers are still not the same.
fn doubles(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let net = Net::new(rng, 2, false);
    let (a, b) = (&net.agents[0], &net.agents[1]);
    let number = |gid: &str| gid.split('@').next().and_then(|n| n.parse::<u64>().ok()).unwrap_or(0);
    let nodes = [a.node(), b.node()];
    a.actor("A", true);
    b.actor("B", true);
    for (agent, main) in [(a, "A"), (b, "B")] {
        agent.tell(main, json!({"op": "trap"}));
    }
    // References of both sides, made while the counters are close.
    let aliases = 48;
    for (agent, main) in [(a, "A"), (b, "B")] {
        let jobs: Vec<Value> = (0..aliases).map(|i| json!({"op": "alias", "ref": format!("{main}{i}"), "reply": false})).collect();
        agent.tell(main, json!({"op": "batch", "jobs": jobs}));
    }
    // Process numbers are brought in line.
    let mut n = [0u64; 2];
    for round in 0..12 {
        for (k, agent) in net.agents.iter().enumerate() {
            n[k] = number(agent.ask(json!({"op": "server", "name": format!("filler{round}")})).as_str().unwrap_or(""));
        }
        let behind = usize::from(n[1] < n[0]);
        for _ in 0..n[0].abs_diff(n[1]).min(200) {
            net.agents[behind].ask(json!({"op": "ping"}));
        }
        if n[0] == n[1] {
            break;
        }
    }
    let pairs = 10;
    let mut gids = Vec::new();
    let mut equal = 0;
    for i in 0..pairs {
        let p = a.actor(&format!("p{i}"), true);
        let q = b.actor(&format!("q{i}"), true);
        equal += u64::from(number(&p) == number(&q));
        a.learn(b, &format!("q{i}"), &format!("q{i}"));
        b.learn(a, &format!("p{i}"), &format!("p{i}"));
        gids.push((p, q));
    }
    for (agent, main) in [(a, "A"), (b, "B")] {
        let jobs: Vec<Value> = (0..aliases).map(|i| json!({"op": "timer", "ref": format!("t{main}{i}"), "to": {"name": main}, "tag": format!("tick-{main}-{i}"), "after": 1200})).collect();
        agent.tell(main, json!({"op": "batch", "jobs": jobs}));
    }
    // Each side learns the other's references and tries to remove them.
    for (from, main, to, other) in [(a, "A", b, "B"), (b, "B", a, "A")] {
        let refs: Vec<String> = (0..aliases).map(|i| format!("{main}{i}")).chain((0..aliases).map(|i| format!("t{main}{i}"))).collect();
        from.tell(main, json!({"op": "send", "to": [{"name": other, "node": to.node()}], "tag": "refs", "refs": refs, "len": 1}));
        if !check(wait(&net.all(), || to.events_of(other).iter().any(|e| e["tag"] == "refs")), "message-lost", || json!({"refs": true})) {
            return;
        }
    }
    let learned: Vec<String> = (0..2 * aliases).map(|i| format!("+refs.r{i}")).collect();
    for (agent, main) in [(a, "A"), (b, "B")] {
        let known = agent.tell(main, json!({"op": "cancel_all", "refs": learned}));
        check(known == 0, "timer-of-another-node", || json!({"node": main, "known": known}));
        let removed = agent.tell(main, json!({"op": "unalias_all", "refs": learned}));
        check(removed == 0, "removed-an-alias-of-another-node", || json!({"node": main, "removed": removed}));
        evaluated(1);
    }
    // All of them still work, own and foreign.
    for (agent, main) in [(a, "A"), (b, "B")] {
        let jobs: Vec<Value> = (0..aliases)
            .flat_map(|i| {
                [
                    json!({"op": "send", "to": [{"alias": format!("{main}{i}")}], "tag": format!("own-{main}-{i}"), "len": 1}),
                    json!({"op": "send", "to": [{"alias": format!("+refs.r{i}")}], "tag": format!("far-{main}-{i}"), "len": 1}),
                ]
            })
            .collect();
        agent.tell(main, json!({"op": "batch", "jobs": jobs}));
    }
    for (agent, main, other) in [(a, "A", "B"), (b, "B", "A")] {
        let want: Vec<String> = (0..aliases).flat_map(|i| [format!("own-{main}-{i}"), format!("far-{other}-{i}")]).collect();
        let got = || -> Vec<String> { agent.events_of(main).iter().filter_map(|e| e["tag"].as_str()).filter(|t| *t != "refs" && !t.starts_with("tick-")).map(|t| t.to_string()).collect() };
        wait(&net.all(), || got().len() >= want.len());
        let (mut got, mut want) = (got(), want);
        got.sort();
        want.sort();
        check(got == want, "aliases-mixed-up", || json!({"node": main, "missing": want.iter().filter(|w| !got.contains(w)).take(5).collect::<Vec<_>>(), "got": got.len(), "want": want.len()}));
        evaluated(1);
    }
    // Nor were the timers of one node cancelled by the references of the other.
    for (agent, main) in [(a, "A"), (b, "B")] {
        let ticks = || -> Vec<String> { agent.events_of(main).iter().filter_map(|e| e["tag"].as_str()).filter(|t| t.starts_with("tick-")).map(|t| t.to_string()).collect() };
        wait(&net.all(), || ticks().len() >= aliases);
        let mut got = ticks();
        got.sort();
        let mut want: Vec<String> = (0..aliases).map(|i| format!("tick-{main}-{i}")).collect();
        want.sort();
        check(got == want, "timers-mixed-up", || json!({"node": main, "got": got.len(), "missing": want.iter().filter(|w| !got.contains(w)).take(5).collect::<Vec<_>>()}));
        count("timers of both nodes", got.len() as u64);
        evaluated(1);
    }
    // A process of another node cannot be given a name here, and nothing changes by trying.
    let i = rng.usize(pairs);
    let refused = a.try_node(json!({"op": "register", "pid": format!("q{i}"), "name": "taken"}));
    check(refused.is_err(), "registered-a-remote-process", || json!({"pair": gids[i]}));
    check(a.ask(json!({"op": "whereis", "name": "taken"})).is_null(), "name-of-a-remote-process", || json!({"pair": gids[i]}));
    check(a.ask(json!({"op": "whereis", "name": format!("p{i}")})) == gids[i].0.as_str(), "name-lost", || json!({"pair": gids[i]}));
    evaluated(1);
    // What happens to one of a pair does not happen to the other.
    let mut wanted_exits: Vec<(String, Value)> = Vec::new();
    let mut wanted_downs: Vec<(String, Value)> = Vec::new();
    let mut wanted: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    let mut alive: BTreeMap<String, bool> = BTreeMap::new();
    let mut history = Vec::new();
    for i in 0..pairs {
        let (p, q) = (format!("p{i}"), format!("q{i}"));
        let reason = format!("custom:r{i}");
        let kind = rng.below(7);
        history.push(json!([i, kind]));
        let (mut pl, mut ql) = (true, true);
        match kind {
            0 => {
                a.tell("A", json!({"op": "exit", "pid": q, "reason": reason}));
                ql = false;
            }
            1 | 2 => {
                // The local one dies first and nobody hears of it.
                if kind == 1 {
                    a.tell("A", json!({"op": "monitor", "to": {"pid": q}, "ref": format!("m{i}")}));
                } else {
                    a.tell("A", json!({"op": "link", "pid": q}));
                }
                wait(&net.all(), || if kind == 1 { !b.info(&q)["monitored_by"].as_array().is_none_or(|l| l.is_empty()) } else { !b.info(&q)["links"].as_array().is_none_or(|l| l.is_empty()) });
                a.tell(&p, json!({"op": "die", "reason": "custom:first"}));
                wait(&net.all(), || a.info(&p).is_null());
                b.tell(&q, json!({"op": "die", "reason": reason}));
                if kind == 1 {
                    wanted_downs.push((format!("m{i}"), json!(reason)));
                } else {
                    wanted_exits.push((gids[i].1.clone(), json!(reason)));
                }
                (pl, ql) = (false, false);
            }
            3 | 4 => {
                // The two of a pair with each other.
                a.tell(&p, json!({"op": "trap"}));
                let job = if kind == 3 { json!({"op": "link", "pid": q}) } else { json!({"op": "monitor", "to": {"pid": q}, "ref": format!("m{i}")}) };
                check(a.try_actor(&p, job).is_ok(), "cannot-tie-to-a-process-of-the-same-number", || json!({"kind": kind, "pair": gids[i]}));
                wait(&net.all(), || if kind == 4 { !b.info(&q)["monitored_by"].as_array().is_none_or(|l| l.is_empty()) } else { !b.info(&q)["links"].as_array().is_none_or(|l| l.is_empty()) });
                if kind == 3 {
                    check(a.info(&p)["links"] == json!([gids[i].1]) && b.info(&q)["links"] == json!([gids[i].0]), "wrong-links", || json!({"pair": gids[i], "p": a.info(&p), "q": b.info(&q)}));
                }
                b.tell(&q, json!({"op": "die", "reason": reason}));
                wanted.entry(p.clone()).or_default().push(if kind == 3 { json!(["exit", gids[i].1, reason]) } else { json!(["down", format!("m{i}"), reason]) });
                ql = false;
            }
            5 => {
                // One list names both.
                a.tell("A", json!({"op": "send", "to": [{"pid": p}, {"pid": q}, {"pid": p}], "tag": format!("list{i}"), "len": 2}));
                for (who, times) in [(&p, 2), (&q, 1)] {
                    for _ in 0..times {
                        wanted.entry(who.clone()).or_default().push(json!(["msg", format!("list{i}")]));
                    }
                }
            }
            _ => {
                // Tied to both, untied from the remote one only.
                a.tell("A", json!({"op": "link", "pid": p}));
                a.tell("A", json!({"op": "link", "pid": q}));
                a.tell("A", json!({"op": "unlink", "pid": q}));
                let untied = wait(&net.all(), || b.info(&q)["links"].as_array().is_some_and(|l| l.is_empty()));
                check(untied, "link-stays", || json!({"pair": gids[i], "q": b.info(&q)}));
                check(a.info(&p)["links"] == json!([number_gid(a, "A")]), "wrong-links", || json!({"pair": gids[i], "p": a.info(&p)}));
                b.tell(&q, json!({"op": "die", "reason": "custom:unheard"}));
                a.tell(&p, json!({"op": "die", "reason": reason}));
                wanted_exits.push((gids[i].0.clone(), json!(reason)));
                (pl, ql) = (false, false);
            }
        }
        alive.insert(p, pl);
        alive.insert(q, ql);
        cover(&("double", kind, equal.min(3)));
    }
    let exits = || -> Vec<(String, Value)> { a.events_of("A").iter().filter(|e| e["ev"] == "exit").map(|e| (e["from"].as_str().unwrap_or("").to_string(), e["reason"].clone())).collect() };
    let downs = || -> Vec<(String, Value)> { a.events_of("A").iter().filter(|e| e["ev"] == "down").map(|e| (e["ref"].as_str().unwrap_or("").to_string(), e["reason"].clone())).collect() };
    let of = |agent: &Agent, who: &str| -> Vec<Value> {
        agent
            .events_of(who)
            .iter()
            .filter_map(|e| match e["ev"].as_str() {
                Some("exit") => Some(json!(["exit", e["from"], e["reason"]])),
                Some("down") => Some(json!(["down", e["ref"], e["reason"]])),
                Some("msg") => Some(json!(["msg", e["tag"]])),
                _ => None,
            })
            .collect()
    };
    wait(&net.all(), || {
        exits().len() >= wanted_exits.len()
            && downs().len() >= wanted_downs.len()
            && wanted.iter().all(|(who, w)| of(if who.starts_with('p') { a } else { b }, who).len() >= w.len())
            && alive.iter().all(|(who, up)| *up != if who.starts_with('p') { a } else { b }.info(who).is_null())
    });
    std::thread::sleep(std::time::Duration::from_millis(60));
    let (mut e, mut d) = (exits(), downs());
    e.sort_by_key(|x| x.0.clone());
    d.sort_by_key(|x| x.0.clone());
    wanted_exits.sort_by_key(|x| x.0.clone());
    wanted_downs.sort_by_key(|x| x.0.clone());
    check(e == wanted_exits, "wrong-exits", || json!({"got": e, "want": wanted_exits, "history": history, "pairs": gids}));
    check(d == wanted_downs, "wrong-downs", || json!({"got": d, "want": wanted_downs, "history": history, "pairs": gids}));
    for (who, up) in &alive {
        let agent = if who.starts_with('p') { a } else { b };
        let got = of(agent, who);
        let want = wanted.get(who).cloned().unwrap_or_default();
        check(got == want, "wrong-events", || json!({"who": who, "got": got, "want": want, "history": history, "pairs": gids}));
        check(*up != agent.info(who).is_null(), "wrong-fate", || json!({"who": who, "should_live": up, "history": history, "pairs": gids}));
        evaluated(1);
    }
    sample("doubles", || json!({"nodes": nodes, "pairs": gids, "same_numbers": equal, "history": history}));
    net.done(&[]);
}

/// What a known process is called everywhere.
fn number_gid(agent: &Agent, label: &str) -> Value {
    let what = agent.ask(json!({"op": "export", "label": label}));
    match what["pid"]["WithNode"].as_array() {
        Some(l) => json!(format!("{}@{}@{}", l[0], l[1].as_str().unwrap_or("?"), l[2].as_str().unwrap_or("?"))),
        None => what,
    }
}

fn main() {
    agent_if_requested();
    let _ = ExitReason::Normal;
    run(
        "C16",
        &[
            scenario("traffic", 3, traffic),
            scenario("identity", 2, identity),
            scenario("signals", 4, signals),
            scenario("crowd", 3, crowd),
            scenario("doubles", 2, doubles),
            scenario("crossing", 2, crossing),
            scenario("races", 3, races),
            scenario("calls", 2, calls),
        ],
    );
}
