//! C17: losing a node. Connections between real node processes are cut, silenced, killed, stopped,
//! disconnected and forgotten while monitors, links and traffic are in place; everybody concerned has
//! to be told exactly once, nobody else anything, and everything has to work again afterwards.
use std::time::Duration;

use hv::net::*;
use hv::*;

#[global_allocator]
static A: hv::alloc::Counting = hv::alloc::Counting;

const LOST: &str = "custom:noconnection";

fn settle(agents: &[&Agent], rounds: u32) {
    let mut left = rounds;
    wait(agents, || {
        left = left.saturating_sub(1);
        left == 0
    });
}

fn told(a: &Agent, actor: &str, ev: &str) -> Vec<String> {
    a.events_of(actor)
        .iter()
        .filter(|e| e["ev"] == ev)
        .map(|e| if ev == "nodedown" { e["node"].as_str().unwrap_or("").to_string() } else { e["reason"].as_str().unwrap_or("").to_string() })
        .collect()
}

/// Two nodes behind proxies.
struct Pair {
    w: Agent,
    t: Agent,
    pw: Proxy,
    pt: Proxy,
    options: Value,
}

impl Pair {
    fn new(rng: &mut Rng, options: Value) -> Pair {
        let (w, pw) = node_behind("w", rng, &options);
        let (t, pt) = node_behind("t", rng, &options);
        Pair { w, t, pw, pt, options }
    }
    fn hold(&self, on: bool) {
        self.pw.hold(on);
        self.pt.hold(on);
    }
    fn cut(&self, reset: bool) {
        self.pw.cut(reset);
        self.pt.cut(reset);
    }
}

/// Somebody with an interest in the other node, and what that has to lead to.
struct Watch {
    at_w: bool,
    actor: String,
    /// down, nodedown, exit or ended
    ev: &'static str,
    wanted: Vec<String>,
    what: String,
    /// Ends with the monitor.
    alias: Option<String>,
}

impl Watch {
    fn of(at_w: bool, actor: String, ev: &'static str, wanted: Vec<String>, what: &str) -> Watch {
        Watch { at_w, actor, ev, wanted, what: what.into(), alias: None }
    }
}

fn place(rng: &mut Rng, p: &Pair, prefix: &str, n: u64, out: &mut Vec<Watch>) {
    for i in 0..n {
        let at_w = rng.bool();
        let (me, other) = if at_w { (&p.w, &p.t) } else { (&p.t, &p.w) };
        let actor = format!("{prefix}a{i}");
        let target = format!("{prefix}b{i}");
        me.actor(&actor, false);
        other.actor(&target, true);
        me.learn(other, &target, &target);
        let kind = rng.below(12);
        let installed = |what: &str, n: usize| {
            let ok = wait(&[me, other], || other.info(&target)[what].as_array().is_some_and(|a| a.len() == n));
            check(ok, "not-installed", || json!({"what": what, "info": other.info(&target), "kind": kind, "at_w": at_w}));
        };
        let mut alias = None;
        let (ev, wanted): (&'static str, Vec<String>) = match kind {
            0 => {
                me.tell(&actor, json!({"op": "node_monitor", "node": other.node(), "ref": format!("{prefix}m{i}")}));
                ("nodedown", vec![other.node()])
            }
            1 => {
                me.tell(&actor, json!({"op": "monitor", "to": {"pid": target}, "ref": format!("{prefix}m{i}")}));
                installed("monitored_by", 1);
                ("down", vec![LOST.into()])
            }
            2 => {
                me.tell(&actor, json!({"op": "monitor", "to": {"name": target, "node": other.node()}, "ref": format!("{prefix}m{i}")}));
                installed("monitored_by", 1);
                ("down", vec![LOST.into()])
            }
            3 => {
                me.tell(&actor, json!({"op": "trap"}));
                me.tell(&actor, json!({"op": "link", "pid": target}));
                installed("links", 1);
                ("exit", vec![LOST.into()])
            }
            4 => {
                me.tell(&actor, json!({"op": "link", "pid": target}));
                installed("links", 1);
                ("ended", vec![LOST.into()])
            }
            // No interest any more.
            5 => {
                me.tell(&actor, json!({"op": "trap"}));
                me.tell(&actor, json!({"op": "link", "pid": target}));
                installed("links", 1);
                me.tell(&actor, json!({"op": "unlink", "pid": target}));
                me.tell(&actor, json!({"op": "node_monitor", "node": other.node(), "ref": format!("{prefix}m{i}")}));
                me.tell(&actor, json!({"op": "node_demonitor", "ref": format!("{prefix}m{i}")}));
                me.tell(&actor, json!({"op": "monitor", "to": {"pid": target}, "ref": format!("{prefix}d{i}")}));
                me.tell(&actor, json!({"op": "demonitor", "ref": format!("{prefix}d{i}")}));
                installed("links", 0);
                installed("monitored_by", 0);
                out.push(Watch::of(at_w, actor.clone(), "exit", vec![], "unlinked"));
                out.push(Watch::of(at_w, actor.clone(), "nodedown", vec![], "node demonitored"));
                ("down", vec![])
            }
            // Unlinked by the other side.
            7 => {
                me.tell(&actor, json!({"op": "trap"}));
                me.tell(&actor, json!({"op": "link", "pid": target}));
                installed("links", 1);
                other.learn(me, &actor, &actor);
                other.tell(&target, json!({"op": "trap"}));
                other.tell(&target, json!({"op": "unlink", "pid": actor}));
                let ok = wait(&[me, other], || me.info(&actor)["links"] == json!([]));
                check(ok, "not-unlinked", || json!({"info": me.info(&actor)}));
                out.push(Watch::of(!at_w, target.clone(), "exit", vec![], "unlinked the other side"));
                ("exit", vec![])
            }
            // A monitor which is an alias too.
            8 => {
                let label = format!("{prefix}m{i}");
                let reply = rng.bool();
                me.tell(&actor, json!({"op": "monitor", "to": {"pid": target}, "ref": label, "alias": reply}));
                installed("monitored_by", 1);
                if !reply {
                    me.tell(&actor, json!({"op": "send", "to": [{"alias": label}], "tag": "by alias"}));
                    let ok = wait(&[me], || me.events_of(&actor).iter().any(|e| e["tag"] == "by alias"));
                    check(ok, "alias-does-not-work", || json!({"kind": "remote monitor"}));
                }
                alias = Some(label);
                ("down", vec![LOST.into()])
            }
            // What has arrived, or was looked over, and is not wanted any more.
            9 => {
                let label = format!("{prefix}m{i}");
                let node = rng.bool();
                let install = if node {
                    json!({"op": "node_monitor", "node": other.node(), "ref": label})
                } else {
                    json!({"op": "monitor", "to": {"pid": target}, "ref": label})
                };
                me.tell(&actor, install);
                if !node {
                    installed("monitored_by", 1);
                }
                let mut jobs = vec![json!({"op": "mark", "as": "begun"}), json!({"op": "queued"})];
                if rng.bool() {
                    jobs.push(json!({"op": "skip"}));
                }
                jobs.push(json!({"op": if node { "node_demonitor" } else { "demonitor" }, "ref": label}));
                jobs.push(json!({"op": "mark"}));
                me.post(Some(&actor), json!({"op": "batch", "jobs": jobs}));
                wait(&[me], || !told(me, &actor, "begun").is_empty());
                out.push(Watch::of(at_w, actor.clone(), "mark", vec![String::new()], "demonitored what has arrived"));
                (if node { "nodedown" } else { "down" }, vec![])
            }
            // Looked over, and read in the end.
            10 => {
                me.tell(&actor, json!({"op": "node_monitor", "node": other.node(), "ref": format!("{prefix}m{i}")}));
                me.post(Some(&actor), json!({"op": "batch", "jobs": [{"op": "mark", "as": "begun"}, {"op": "queued"}, {"op": "skip"}, {"op": "skip"}]}));
                wait(&[me], || !told(me, &actor, "begun").is_empty());
                ("nodedown", vec![other.node()])
            }
            // Several at the same one, of which some leave before.
            11 => {
                other.tell(&target, json!({"op": "trap"}));
                me.tell(&actor, json!({"op": "trap"}));
                me.tell(&actor, json!({"op": "link", "pid": target}));
                let (mut links, mut monitors) = (1, 0);
                let mut leaving: Vec<(String, bool, u64)> = Vec::new();
                for k in 0..rng.range(1, 5) {
                    let extra = format!("{actor}x{k}");
                    me.actor(&extra, false);
                    let link = rng.chance(2, 3);
                    if link {
                        me.tell(&extra, json!({"op": "trap"}));
                        me.tell(&extra, json!({"op": "link", "pid": target}));
                        links += 1;
                    } else {
                        me.tell(&extra, json!({"op": "monitor", "to": {"pid": target}, "ref": format!("{extra}m")}));
                        monitors += 1;
                    }
                    leaving.push((extra, link, rng.below(3)));
                }
                installed("links", links);
                installed("monitored_by", monitors);
                for (extra, link, how) in leaving {
                    if how > 0 {
                        if link { links -= 1 } else { monitors -= 1 }
                    }
                    match (how, link) {
                        (0, _) => out.push(Watch::of(at_w, extra, if link { "exit" } else { "down" }, vec![LOST.into()], "one of several")),
                        (1, true) => {
                            me.tell(&extra, json!({"op": "unlink", "pid": target}));
                            out.push(Watch::of(at_w, extra, "exit", vec![], "one of several, unlinked"));
                        }
                        (1, false) => {
                            me.tell(&extra, json!({"op": "demonitor", "ref": format!("{extra}m")}));
                            out.push(Watch::of(at_w, extra, "down", vec![], "one of several, demonitored"));
                        }
                        _ => {
                            let reason = if rng.bool() { "normal" } else { "custom:left" };
                            me.tell(&extra, json!({"op": "die", "reason": reason}));
                        }
                    }
                }
                installed("links", links);
                installed("monitored_by", monitors);
                out.push(Watch::of(at_w, actor.clone(), "down", vec![], "linked only"));
                ("exit", vec![LOST.into()])
            }
            // Told already.
            _ => {
                me.tell(&actor, json!({"op": "monitor", "to": {"pid": target}, "ref": format!("{prefix}m{i}")}));
                installed("monitored_by", 1);
                other.tell(&target, json!({"op": "die", "reason": "custom:before"}));
                wait(&[me, other], || !told(me, &actor, "down").is_empty());
                ("down", vec!["custom:before".into()])
            }
        };
        // Whoever is linked to a lost process from the other end is told as well.
        if kind == 4 && rng.bool() {
            other.tell(&target, json!({"op": "trap"}));
            out.push(Watch::of(!at_w, target.clone(), "exit", vec![LOST.into()], "link from the other side"));
        }
        cover(&("watch", kind, at_w));
        out.push(Watch { at_w, actor, ev, wanted, what: format!("kind {kind}"), alias });
    }
}

fn judge(p: &Pair, watches: &[Watch], w_judged: bool, t_judged: bool, how: &str) {
    let side = |x: &Watch| if x.at_w { &p.w } else { &p.t };
    let mine: Vec<&Watch> = watches.iter().filter(|x| if x.at_w { w_judged } else { t_judged }).collect();
    let mut agents = Vec::new();
    if w_judged {
        agents.push(&p.w);
    }
    if t_judged {
        agents.push(&p.t);
    }
    wait(&agents, || mine.iter().all(|x| told(side(x), &x.actor, x.ev).len() >= x.wanted.len()));
    static LATE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    for x in &mine {
        if let Some(label) = &x.alias {
            let late = format!("late{}", LATE.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
            side(x).actor(&late, false);
            side(x).tell(&late, json!({"op": "send", "to": [{"alias": label}], "tag": "late"}));
        }
    }
    settle(&agents, 12);
    for x in mine {
        if x.alias.is_some() {
            let n = side(x).events_of(&x.actor).iter().filter(|e| e["tag"] == "late").count();
            check(n == 0, "alias-outlives-its-monitor", || json!({"how": how, "at_w": x.at_w}));
        }
        let got = told(side(x), &x.actor, x.ev);
        evaluated(1);
        if got != x.wanted {
            let sig = if got.len() < x.wanted.len() {
                "not-told"
            } else if got.len() > x.wanted.len() {
                "told-too-often"
            } else {
                "told-something-else"
            };
            violation(format!("{sig}:{}:{how}", x.ev), json!({"what": x.what, "at_w": x.at_w, "wanted": x.wanted, "got": got}));
        }
        cover(&("told", how, x.ev, x.wanted.len(), x.at_w, &x.what));
    }
}

fn known_only(a: &Agent, node: &str, how: &str) {
    let ok = wait(&[a], || a.in_state("known", node) && !a.in_state("connected", node) && !a.in_state("pending", node));
    check(ok, "lost-node-not-listed-as-known", || json!({"how": how, "node": node, "nodes": a.nodes()}));
    check(a.nodes()["all"].as_array().is_some_and(|l| l.iter().any(|n| n == node)), "lost-node-not-listed", || json!({"how": how, "nodes": a.nodes()}));
}

/// After the loss: connects again some way and shows that everything works.
fn again(rng: &mut Rng, p: &Pair, prefix: &str, how: &str) {
    let (me, other) = if rng.bool() { (&p.w, &p.t) } else { (&p.t, &p.w) };
    let via = rng.below(4);
    me.actor(&format!("{prefix}x"), true);
    other.actor(&format!("{prefix}y"), true);
    me.learn(other, &format!("{prefix}y"), &format!("{prefix}y"));
    let connected = || me.in_state("connected", &other.node()) && other.in_state("connected", &me.node());
    let mut trap_seen = false;
    match via {
        0 => {
            me.ask(json!({"op": "connect", "node": other.node()}));
        }
        1 => {
            me.tell(&format!("{prefix}x"), json!({"op": "node_monitor", "node": other.node(), "ref": format!("{prefix}n")}));
        }
        2 => {
            me.tell(&format!("{prefix}x"), json!({"op": "monitor", "to": {"name": format!("{prefix}y"), "node": other.node()}, "ref": format!("{prefix}n")}));
        }
        _ => {
            me.tell(&format!("{prefix}x"), json!({"op": "trap"}));
            me.tell(&format!("{prefix}x"), json!({"op": "link", "pid": format!("{prefix}y")}));
            trap_seen = true;
        }
    }
    if !check(wait(&[me, other], connected), "does-not-connect-again", || json!({"how": how, "via": via, "me": me.nodes(), "other": other.nodes()})) {
        return;
    }
    me.tell(&format!("{prefix}x"), json!({"op": "send", "to": [{"name": format!("{prefix}y"), "node": other.node()}], "tag": "hi"}));
    other.tell(&format!("{prefix}y"), json!({"op": "send", "to": [{"name": format!("{prefix}x"), "node": me.node()}], "tag": "ho"}));
    let ok = wait(&[me, other], || {
        other.events_of(&format!("{prefix}y")).iter().any(|e| e["tag"] == "hi") && me.events_of(&format!("{prefix}x")).iter().any(|e| e["tag"] == "ho")
    });
    check(ok, "messages-do-not-pass-again", || json!({"how": how, "via": via}));
    other.tell(&format!("{prefix}y"), json!({"op": "die", "reason": "custom:fin"}));
    if via >= 2 {
        let ev = if trap_seen { "exit" } else { "down" };
        let ok = wait(&[me, other], || !told(me, &format!("{prefix}x"), ev).is_empty());
        check(ok && told(me, &format!("{prefix}x"), ev) == vec!["custom:fin".to_string()], "does-not-work-again", || json!({"how": how, "via": via, "got": told(me, &format!("{prefix}x"), ev)}));
    }
    cover(&("again", how, via));
    evaluated(1);
}

/// One loss of one kind at one moment.
fn loss(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let kind = rng.below(8);
    let options = match kind {
        3 | 4 => json!({"interval": 150, "timeout": 900}),
        _ => json!({"interval": 1000, "timeout": 30_000}),
    };
    let mut p = Pair::new(rng, options);
    let up = if rng.bool() { connect(&p.w, &p.t) } else { connect(&p.t, &p.w) };
    if !up {
        return;
    }
    // A third node, which has to stay connected.
    let third = if rng.chance(1, 3) {
        let c = Agent::spawn("c", 2);
        c.start_node(p.options.clone());
        // Not through the proxy, which is about to fail.
        connect(&p.w, &c);
        c.actor("canary", true);
        p.w.actor("wcanary", true);
        c.learn(&p.w, "wcanary", "wcanary");
        c.tell("canary", json!({"op": "trap"}));
        c.tell("canary", json!({"op": "link", "pid": "wcanary"}));
        c.tell("canary", json!({"op": "node_monitor", "node": p.w.node(), "ref": "cm"}));
        Some(c)
    } else {
        None
    };
    let mut watches = Vec::new();
    place(rng, &p, "o", rng.clone().range(3, 8), &mut watches);
    for (a, b) in [(&p.w, &p.t), (&p.t, &p.w)] {
        b.actor("past", false);
        a.learn(b, "past", "past of the other");
    }
    // Traffic in flight.
    let traffic = rng.bool();
    if traffic {
        for (a, b, s) in [(&p.w, &p.t, "sw"), (&p.t, &p.w, "st")] {
            a.actor(s, false);
            b.actor(&format!("r{s}"), true);
            a.post(Some(s), json!({"op": "send", "to": [{"name": format!("r{s}"), "node": b.node()}], "tag": s, "times": 3000, "first": 0, "seed": 5, "len": *rng.pick(&[20u64, 400]), "pace": 5}));
        }
        std::thread::sleep(Duration::from_micros(rng.below(30_000)));
    }
    let (mut w_sees, mut t_sees) = (true, true);
    let how = match kind {
        0 => {
            p.t.murder();
            t_sees = false;
            "killed"
        }
        1 => {
            p.cut(false);
            "closed"
        }
        2 => {
            p.cut(true);
            "reset"
        }
        3 => {
            p.hold(true);
            "silent"
        }
        4 => {
            p.t.signal(libc::SIGSTOP);
            t_sees = false;
            "frozen"
        }
        5 => {
            let (a, b) = if rng.bool() { (&p.w, &p.t) } else { (&p.t, &p.w) };
            a.ask(json!({"op": "disconnect", "node": b.node()}));
            "disconnected"
        }
        6 => {
            p.t.ask(json!({"op": "stop"}));
            "stopped"
        }
        _ => {
            let (a, b) = if rng.bool() { (&p.w, &p.t) } else { (&p.t, &p.w) };
            a.ask(json!({"op": "forget", "node": b.node()}));
            // What was under way may have made it known again, the second time there is nothing.
            let listed = || a.nodes()["all"].as_array().is_some_and(|l| l.iter().any(|n| n == b.node().as_str()));
            if listed() && !traffic {
                count("forget.again", 1);
                wait(&[a], || !a.in_state("connected", &b.node()) && !a.in_state("pending", &b.node()));
                settle(&[a], 4);
                a.ask(json!({"op": "forget", "node": b.node()}));
                check(!listed(), "forgotten-node-still-listed", || json!({"nodes": a.nodes()}));
            }
            // Nobody can tell any more where a process of that node was.
            a.actor("late comer", false);
            let op = *rng.pick(&["monitor", "monitor", "alias", "link"]);
            match op {
                "link" => {
                    a.tell("late comer", json!({"op": "trap"}));
                    a.tell("late comer", json!({"op": "link", "pid": "past of the other"}));
                }
                "alias" => {
                    a.tell("late comer", json!({"op": "monitor", "to": {"pid": "past of the other"}, "ref": "late monitor", "alias": rng.bool()}));
                }
                _ => {
                    a.tell("late comer", json!({"op": "monitor", "to": {"pid": "past of the other"}, "ref": "late monitor"}));
                }
            }
            let ev = if op == "link" { "exit" } else { "down" };
            wait(&[a], || !told(a, "late comer", ev).is_empty());
            if op == "alias" {
                a.tell("late comer", json!({"op": "send", "to": [{"alias": "late monitor"}], "tag": "late"}));
            }
            settle(&[a], 6);
            check(told(a, "late comer", ev) == vec![LOST.to_string()], "process-of-a-forgotten-node", || json!({"op": op, "got": told(a, "late comer", ev)}));
            check(a.info("late comer")["links"] == json!([]), "link-to-a-forgotten-node-stays", || json!({"info": a.info("late comer")}));
            check(a.count_events(|e| e["a"] == "late comer" && e["tag"] == "late") == 0, "alias-outlives-its-monitor", || json!({"how": "forgotten"}));
            cover(&("past", op));
            "forgotten"
        }
    };
    count(&format!("lost.{how}"), 1);
    if kind == 4 {
        known_only(&p.w, &p.t.node(), how);
    }
    judge(&p, &watches, w_sees, false, how);
    if kind == 4 {
        p.t.signal(libc::SIGCONT);
        t_sees = true;
    }
    if t_sees {
        judge(&p, &watches, false, true, how);
    }
    if kind != 7 {
        known_only(&p.w, &p.t.node(), how);
        if t_sees && kind != 6 {
            known_only(&p.t, &p.w.node(), how);
        }
    }
    if kind == 6 {
        let n = p.t.nodes();
        check(n["alive"] == false && n["connected"] == json!([]) && n["current"] == json!([]) && (traffic || n["all"] == json!([])), "stopped-node-lists-nodes", || json!({"nodes": n.clone(), "traffic": traffic}));
    }
    // Nothing of the watching remains at the targets.
    for x in &watches {
        let target = x.actor.split('x').next().unwrap_or_default().replace("oa", "ob");
        let side = if x.at_w { &p.t } else { &p.w };
        if x.actor.starts_with("oa") && (if x.at_w { t_sees } else { w_sees }) {
            let ok = wait(&[side], || {
                let i = side.info(&target);
                i.is_null() || (i["links"] == json!([]) && i["monitored_by"] == json!([]))
            });
            check(ok, "watch-of-a-lost-node-stays", || json!({"how": how, "what": x.what, "info": side.info(&target)}));
        }
    }
    if traffic {
        // What did arrive is an unbroken beginning of what was sent.
        for (b, s, judged) in [(&p.t, "sw", t_sees), (&p.w, "st", true)] {
            if !judged {
                continue;
            }
            let got: Vec<String> = b.events_of(&format!("r{s}")).iter().filter(|e| e["ev"] == "msg").map(|e| e["tag"].as_str().unwrap_or("").to_string()).collect();
            let at = got.iter().enumerate().position(|(i, t)| *t != format!("{s}#{i}"));
            check(at.is_none(), "traffic-broken-before-the-loss", || json!({"how": how, "from": s, "at": at, "got": at.map(|i| got[i].clone()), "n": got.len()}));
            cover(&("prefix", how, got.len() / 50));
        }
    }
    if let Some(c) = &third {
        check(c.in_state("connected", &p.w.node()) && p.w.in_state("connected", &c.node()), "uninvolved-connection-lost", || json!({"how": how, "c": c.nodes(), "w": p.w.nodes()}));
        check(told(c, "canary", "exit").is_empty() && told(c, "canary", "nodedown").is_empty(), "uninvolved-process-told", || json!({"how": how, "events": c.events_of("canary")}));
    }
    // And back.
    p.hold(false);
    if kind == 3 {
        // Whatever was held is delivered to connections that are gone.
        p.cut(false);
    }
    match kind {
        0 => {
            let old = std::mem::replace(&mut p.t, Agent::spawn("t", 2));
            p.t.listen = old.listen;
            p.t.address = old.address;
            drop(old);
            p.t.start_node(p.options.clone());
        }
        6 => {
            // The listener is closed by its process.
            let listen = p.t.listen;
            wait(&[&p.t], || std::net::TcpListener::bind(listen).is_ok());
            p.t.start_node(p.options.clone());
            settle(&[&p.t], 10);
            check(p.t.nodes()["alive"] == true && p.t.nodes()["current"] == json!([p.t.node()]), "restarted-node-not-running", || p.t.nodes());
        }
        _ => {}
    }
    if violations_so_far() == 0 {
        again(rng, &p, "q", how);
        // Nobody is told about the old loss again.
        judge(&p, &watches, w_sees, t_sees && kind != 0, how);
    }
    sample("loss", || json!({"how": how, "watches": watches.len(), "traffic": traffic, "third": third.is_some()}));
    for a in [&p.w, &p.t] {
        a.judge_panics(&["[expected]"]);
    }
}

/// A connection that is alive but idle, or busy in one direction only, is kept.
fn idle(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let p = Pair::new(rng, json!({"interval": 150, "timeout": 1200}));
    if !connect(&p.w, &p.t) {
        return;
    }
    let mut watches = Vec::new();
    for (at_w, a, b) in [(true, &p.w, &p.t), (false, &p.t, &p.w)] {
        a.actor("n", false);
        a.tell("n", json!({"op": "node_monitor", "node": b.node(), "ref": "nm"}));
        watches.push(Watch::of(at_w, "n".into(), "nodedown", vec![], "idle"));
    }
    let one_way = rng.bool();
    p.w.actor("s", false);
    p.t.actor("r", true);
    let start = std::time::Instant::now();
    let mut worst = Duration::ZERO;
    let mut sent = 0;
    while start.elapsed() < Duration::from_millis(3600) {
        let t0 = std::time::Instant::now();
        p.w.ask(json!({"op": "ping"}));
        p.t.ask(json!({"op": "ping"}));
        if one_way {
            p.w.tell("s", json!({"op": "send", "to": [{"name": "r", "node": p.t.node()}], "tag": "x"}));
            sent += 1;
        }
        std::thread::sleep(Duration::from_millis(40));
        worst = worst.max(t0.elapsed());
    }
    if worst > Duration::from_millis(400) {
        // A stall of the machine is no idleness.
        count("idle.stalled", 1);
        return;
    }
    judge(&p, &watches, true, true, "idle");
    check(p.w.in_state("connected", &p.t.node()) && p.t.in_state("connected", &p.w.node()), "idle-connection-lost", || json!({"one_way": one_way, "w": p.w.nodes(), "t": p.t.nodes()}));
    if one_way {
        let ok = wait(&[&p.w, &p.t], || p.t.count_events(|e| e["tag"] == "x") == sent);
        check(ok, "traffic-lost-while-idle", || json!(sent));
    }
    cover(&("idle", one_way));
    for a in [&p.w, &p.t] {
        a.judge_panics(&[]);
    }
}

/// Nodes that cannot be reached: told exactly once, listed as known, nothing left behind.
fn unreachable_node(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let w = Agent::spawn("w", 2);
    w.start_node(json!({"handshake": 500, "interval": 500, "timeout": 5000}));
    let kind = rng.below(4);
    let address = fresh_address();
    let node = format!("other@{address}");
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    if kind > 0 {
        let listener = std::net::TcpListener::bind(address).expect("bind");
        let stop = stop.clone();
        let seed = rng.next();
        std::thread::spawn(move || {
            let mut kept = Vec::new();
            let mut rng = Rng::new(seed);
            let _ = listener.set_nonblocking(true);
            while !stop.load(std::sync::atomic::Ordering::SeqCst) {
                let Ok((s, _)) = listener.accept() else {
                    std::thread::sleep(Duration::from_millis(3));
                    continue;
                };
                let _ = s.set_nonblocking(false);
                match kind {
                    // Hangs up, stays silent, or is somebody else.
                    1 => {
                        if rng.bool() {
                            linger_zero(&s);
                        }
                        drop(s);
                    }
                    2 => kept.push(Peer::from(s)),
                    _ => {
                        let mut peer = Peer::from(s);
                        peer.write(&wire::frame(wire::hello(None, "somebody", address)));
                        kept.push(peer);
                    }
                }
            }
        });
    }
    let mut want: Vec<(String, &str, Vec<String>)> = Vec::new();
    for i in 0..rng.range(1, 4) {
        let a = format!("a{i}");
        w.actor(&a, false);
        match rng.below(4) {
            0 => {
                w.tell(&a, json!({"op": "node_monitor", "node": node, "ref": format!("m{i}")}));
                want.push((a, "nodedown", vec![node.clone()]));
            }
            1 => {
                w.tell(&a, json!({"op": "monitor", "to": {"name": "x", "node": node}, "ref": format!("m{i}")}));
                want.push((a, "down", vec![LOST.into()]));
            }
            2 => {
                let pid = json!({"pid": {"WithNode": [77, "other", address.to_string()]}});
                w.ask(json!({"op": "import", "label": format!("p{i}"), "what": pid}));
                w.tell(&a, json!({"op": "trap"}));
                w.tell(&a, json!({"op": "link", "pid": format!("p{i}")}));
                want.push((a, "exit", vec![LOST.into()]));
            }
            _ => {
                let pid = json!({"pid": {"WithNode": [77, "other", address.to_string()]}});
                w.ask(json!({"op": "import", "label": format!("p{i}"), "what": pid}));
                w.tell(&a, json!({"op": "monitor", "to": {"pid": format!("p{i}")}, "ref": format!("m{i}")}));
                want.push((a, "down", vec![LOST.into()]));
            }
        }
        // Queued for a connection that never comes about.
        w.tell(&format!("a{i}"), json!({"op": "send", "to": [{"name": "x", "node": node}], "tag": "void"}));
    }
    wait(&[&w], || want.iter().all(|(a, ev, v)| told(&w, a, ev).len() >= v.len()));
    let ok = wait(&[&w], || w.in_state("known", &node) && !w.in_state("pending", &node));
    check(ok, "unreachable-node-not-known", || json!({"kind": kind, "nodes": w.nodes()}));
    settle(&[&w], 10);
    for (a, ev, v) in &want {
        let got = told(&w, a, ev);
        evaluated(1);
        let sig = if got.len() < v.len() { "not-told" } else { "told-too-often" };
        check(got == *v, &format!("{sig}:{ev}:unreachable"), || json!({"kind": kind, "wanted": v, "got": got}));
        if *ev == "exit" {
            check(w.info(a)["links"] == json!([]), "link-to-an-unreachable-node-stays", || json!({"info": w.info(a)}));
        }
    }
    // The address is taken over by a node of that name: it can be reached now.
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    wait(&[&w], || std::net::TcpListener::bind(address).is_ok());
    let mut t = Agent::spawn("other", 2);
    t.address = address;
    t.listen = address;
    t.start_node(json!({}));
    t.actor("x", true);
    if connect(&w, &t) {
        w.tell("a0", json!({"op": "send", "to": [{"name": "x", "node": node}], "tag": "now"}));
        let ok = wait(&[&w, &t], || t.count_events(|e| e["tag"] == "now") == 1);
        check(ok, "messages-do-not-pass-again", || json!({"how": "unreachable", "kind": kind}));
        check(t.count_events(|e| e["tag"] == "void") == 0, "message-outlives-its-connection", || json!({"kind": kind}));
    }
    cover(&("unreachable", kind, want.len()));
    for a in [&w, &t] {
        a.judge_panics(&[]);
    }
}

/// A connection that takes its time: what is sent meanwhile is kept, in order, and passes with it.
fn pending(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let p = Pair::new(rng, json!({}));
    let (w, t) = (&p.w, &p.t);
    let node = t.node();
    t.actor("r", true);
    // Connecting for the first time, or again.
    let before = rng.below(4);
    if before < 2 {
        if !connect(w, t) {
            return;
        }
        w.ask(json!({"op": if before == 0 { "disconnect" } else { "forget" }, "node": node}));
        let over = wait(&[w, t], || !w.in_state("connected", &node) && !t.in_state("connected", &w.node()));
        if !check(over, "disconnected-node-listed", || json!({"w": w.nodes(), "t": t.nodes()})) {
            return;
        }
        settle(&[w, t], 2);
    }
    p.pt.hold(true);
    let senders = rng.range(1, 4);
    // Many small messages, or few large ones.
    let (n, len) = *rng.pick(&[(1u64, 20u64), (5, 200_000), (60, 20), (60, 30_000), (400, 20), (2500, 20)]);
    for i in 0..senders {
        w.actor(&format!("s{i}"), false);
    }
    w.actor("mon", false);
    w.tell("mon", json!({"op": "monitor", "to": {"name": "r", "node": node}, "ref": "m"}));
    if !check(wait(&[w], || w.in_state("pending", &node)), "not-pending", || json!({"nodes": w.nodes()})) {
        return;
    }
    // Each sender's stream begins while the connection is being made; some go on while it stands up.
    let burst = |i: u64, first: u64, pace: u64| w.post(Some(&format!("s{i}")), json!({"op": "send", "to": [{"name": "r", "node": node}], "tag": format!("s{i}"), "times": n, "first": first, "seed": 3, "len": len, "pace": pace}));
    let ids: Vec<u64> = (0..senders).map(|i| burst(i, 0, 0)).collect();
    for id in ids {
        let _ = w.answer(id);
    }
    check(w.in_state("pending", &node), "not-pending", || json!({"nodes": w.nodes()}));
    let ids: Vec<u64> = (0..senders).map(|i| burst(i, n, 7)).collect();
    let how = match rng.below(8) {
        0 => "lost",
        1 => "disconnected",
        2 => "forgotten",
        3 | 4 => "taken-over",
        _ => "made",
    };
    // (Naming a forgotten node makes it known again.)
    if how == "forgotten" {
        for id in &ids {
            let _ = w.answer(*id);
        }
    }
    match how {
        "made" => p.pt.hold(false),
        "taken-over" => {
            // The other node connects to this one instead.
            t.ask(json!({"op": "connect", "node": w.node()}));
        }
        "disconnected" => {
            w.ask(json!({"op": "disconnect", "node": node}));
        }
        "forgotten" => {
            w.ask(json!({"op": "forget", "node": node}));
        }
        _ => {
            p.pt.refuse(true);
            p.pt.cut(rng.bool());
        }
    }
    if how != "forgotten" {
        for id in ids {
            let _ = w.answer(id);
        }
    }
    let stream = |i: u64| -> Vec<String> {
        let own = format!("s{i}#");
        t.events_of("r").iter().filter(|e| e["ev"] == "msg").filter_map(|e| e["tag"].as_str()).filter(|x| x.starts_with(&own)).map(str::to_string).collect()
    };
    if matches!(how, "lost" | "disconnected" | "forgotten") {
        let told_it = wait(&[w], || !told(w, "mon", "down").is_empty());
        settle(&[w], 8);
        check(told_it && told(w, "mon", "down") == vec![LOST.to_string()], &format!("not-told:down:pending-{how}"), || json!({"got": told(w, "mon", "down")}));
        if how == "forgotten" {
            check(!w.nodes()["all"].as_array().is_some_and(|l| l.iter().any(|n| n == &node)), "forgotten-node-listed", || w.nodes());
        } else {
            known_only(w, &node, "pending");
        }
        // (What is held must not get through any more, it would pass for a connection.)
        p.pt.cut(true);
        p.pt.refuse(false);
        p.pt.hold(false);
        if !connect(w, t) {
            return;
        }
        w.tell("s0", json!({"op": "send", "to": [{"name": "r", "node": node}], "tag": "after"}));
        wait(&[w, t], || t.count_events(|e| e["tag"] == "after") == 1);
        for i in 0..senders {
            let got = stream(i);
            check(got.is_empty(), "message-outlives-its-connection", || json!({"got": got.len(), "first": got.first()}));
        }
    } else {
        let up = wait(&[w, t], || w.in_state("connected", &node) && t.in_state("connected", &w.node()));
        if !check(up, "no-connection", || json!({"how": how, "w": w.nodes(), "t": t.nodes()})) {
            return;
        }
        wait(&[w, t], || (0..senders).all(|i| stream(i).len() as u64 >= 2 * n));
        settle(&[w, t], 4);
        for i in 0..senders {
            let got = stream(i);
            let want: Vec<String> = (0..2 * n).map(|k| format!("s{i}#{k}")).collect();
            evaluated(1);
            if got != want {
                let at = got.iter().zip(&want).position(|(a, b)| a != b);
                violation(format!("pending-messages:{how}"), json!({"n": n, "got": got.len(), "wanted": want.len(), "at": at, "found": at.map(|k| got[k].clone())}));
            }
        }
        t.tell("r", json!({"op": "die", "reason": "custom:fin"}));
        wait(&[w, t], || !told(w, "mon", "down").is_empty());
        check(told(w, "mon", "down") == vec!["custom:fin".to_string()], "pending-monitor", || json!({"how": how, "got": told(w, "mon", "down")}));
    }
    cover(&("pending", how, before.min(2), senders, n, len));
    count(&format!("pending.{how}"), 1);
    for a in [w, t] {
        a.judge_panics(&["[expected]"]);
    }
}

/// The local node is stopped while connections are being made, in either direction, and perhaps
/// started again before the other side goes on.
fn stopped_while_pending(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let mut w = Agent::spawn("w", *rng.pick(&[1usize, 2, 4]));
    w.start_node(json!({"handshake": 20_000, "interval": 500, "timeout": 30_000}));
    let address = fresh_address();
    let node = format!("other@{address}");
    let listener = std::net::TcpListener::bind(address).expect("bind");
    // Outgoing: the other side has accepted, and has greeted in part or not at all.
    w.actor("m", false);
    let hello = wire::frame(wire::hello(None, "other", address));
    let part = if rng.bool() { 0 } else { rng.below(hello.len() as u64) as usize };
    let outgoing = rng.chance(2, 3);
    let mut out = None;
    if outgoing {
        w.tell("m", json!({"op": "node_monitor", "node": node, "ref": "m"}));
        let (s, _) = listener.accept().expect("accept");
        let mut peer = Peer::from(s);
        peer.write(&hello[..part]);
        if rng.bool() {
            check(peer.next(Duration::from_secs(10)).is_some(), "no-greeting", || json!({}));
        }
        check(w.in_state("pending", &node), "not-pending", || json!({"nodes": w.nodes()}));
        out = Some(peer);
    }
    // Incoming, up to the same point.
    let incoming = !outgoing || rng.bool();
    let mut inc = None;
    if incoming {
        let Ok(mut peer) = Peer::connect(w.listen) else {
            violation("connect-refused", json!({}));
            return;
        };
        peer.write(&hello[..part]);
        check(peer.next(Duration::from_secs(10)).is_some(), "no-greeting", || json!({}));
        inc = Some(peer);
    }
    w.ask(json!({"op": "stop"}));
    let restarted = rng.bool();
    if restarted {
        let listen = w.listen;
        wait(&[&w], || std::net::TcpListener::bind(listen).is_ok());
        w.start_node(json!({"handshake": 20_000, "interval": 500, "timeout": 30_000}));
    }
    let how = if restarted { "restarted" } else { "stopped" };
    // The other side goes on, with a message behind its greeting.
    w.actor("r", true);
    for peer in [&mut out, &mut inc].into_iter().flatten() {
        let mut rest = hello[part..].to_vec();
        rest.extend(wire::frame(wire::monitor(true, None, Some("r"), Some(5), 9)));
        let _ = peer.write(&rest);
    }
    if outgoing {
        wait(&[&w], || !told(&w, "m", "nodedown").is_empty());
    }
    for (which, peer) in [("outgoing", &mut out), ("incoming", &mut inc)] {
        if let Some(peer) = peer {
            let mut answers = Vec::new();
            wait(&[&w], || {
                while let Some(f) = peer.next(Duration::from_millis(5)) {
                    answers.push(f);
                }
                peer.closed
            });
            evaluated(1);
            check(peer.closed, "connection-outlives-its-node", || json!({"which": which, "how": how, "nodes": w.nodes(), "part": part, "answers": answers.len()}));
        }
    }
    settle(&[&w], 10);
    if outgoing {
        check(told(&w, "m", "nodedown") == vec![node.clone()], &format!("told:nodedown:{how}-while-pending"), || json!({"got": told(&w, "m", "nodedown")}));
    }
    check(w.info("r")["monitored_by"] == json!([]), "connection-outlives-its-node", || json!({"how": how, "info": w.info("r")}));
    let n = w.nodes();
    let fine = n["alive"] == restarted && n["connected"] == json!([]) && n["pending"] == json!([]) && n["current"] == if restarted { json!([w.node()]) } else { json!([]) };
    check(fine, "stopped-node-lists-nodes", || json!({"how": how, "outgoing": outgoing, "incoming": incoming, "nodes": n}));
    cover(&("stopped-while-pending", how, outgoing, incoming, part.min(1)));
    count(&format!("stopped-while-pending.{how}"), 1);
    // And it can go on.
    if !restarted {
        let listen = w.listen;
        wait(&[&w], || std::net::TcpListener::bind(listen).is_ok());
        w.start_node(json!({}));
    }
    drop(listener);
    let t = Agent::spawn("t", 2);
    t.start_node(json!({}));
    connect(&w, &t);
    for a in [&w, &t] {
        a.judge_panics(&[]);
    }
}

/// Disconnecting and connecting again at once.
fn quick(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let p = Pair::new(rng, json!({}));
    if !connect(&p.w, &p.t) {
        return;
    }
    for round in 0..rng.range(1, 3) {
        let mut watches = Vec::new();
        place(rng, &p, &format!("o{round}o"), rng.clone().range(2, 5), &mut watches);
        let (a, b) = if rng.bool() { (&p.w, &p.t) } else { (&p.t, &p.w) };
        let forget = rng.chance(1, 3);
        // Both arrive together; the second finds the first one's cleaning up not yet done.
        let op = if forget { "forget" } else { "disconnect" };
        let one = a.post(None, json!({"op": op, "node": b.node()}));
        if rng.bool() {
            let _ = a.answer(one);
        }
        a.ask(json!({"op": "connect", "node": b.node()}));
        judge(&p, &watches, true, true, &format!("{op}-and-back"));
        // The new connection may have been refused while the old one was still being given up.
        let ok = wait(&[&p.w, &p.t], || {
            let up = a.in_state("connected", &b.node()) && b.in_state("connected", &a.node());
            if !up && !a.in_state("pending", &b.node()) {
                a.ask(json!({"op": "connect", "node": b.node()}));
            }
            up
        });
        if !check(ok, "does-not-connect-again", || json!({"how": op, "a": a.nodes(), "b": b.nodes()})) {
            return;
        }
        // Let a connection that was made twice come to rest.
        settle(&[&p.w, &p.t], 10);
        wait(&[&p.w, &p.t], || {
            let up = a.in_state("connected", &b.node()) && b.in_state("connected", &a.node());
            if !up && !a.in_state("pending", &b.node()) {
                a.ask(json!({"op": "connect", "node": b.node()}));
            }
            up
        });
        a.actor(&format!("x{round}"), true);
        b.actor(&format!("y{round}"), true);
        a.tell(&format!("x{round}"), json!({"op": "send", "to": [{"name": format!("y{round}"), "node": b.node()}], "tag": "back"}));
        let ok = wait(&[&p.w, &p.t], || !b.events_of(&format!("y{round}")).is_empty());
        check(ok, "messages-do-not-pass-again", || json!({"how": op, "a": a.nodes(), "b": b.nodes()}));
        cover(&("quick", op, round));
    }
    for a in [&p.w, &p.t] {
        a.judge_panics(&["[expected]"]);
    }
}

/// Stopping and starting the local node, with everybody local who watched somebody remote.
fn restart(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let p = Pair::new(rng, json!({}));
    let rounds = rng.range(1, 3);
    for round in 0..rounds {
        let up = if rng.bool() { connect(&p.w, &p.t) } else { connect(&p.t, &p.w) };
        if !up {
            return;
        }
        let mut watches = Vec::new();
        place(rng, &p, &format!("o{round}o"), rng.clone().range(2, 5), &mut watches);
        p.t.ask(json!({"op": "stop"}));
        judge(&p, &watches, true, true, "stop");
        let listen = p.t.listen;
        wait(&[&p.t], || std::net::TcpListener::bind(listen).is_ok());
        p.t.start_node(p.options.clone());
        settle(&[&p.t], 8);
        let n = p.t.nodes();
        if !check(n["alive"] == true && n["current"] == json!([p.t.node()]), "restarted-node-not-running", || n.clone()) {
            return;
        }
        known_only(&p.w, &p.t.node(), "stop");
        cover(&("restart", round));
        evaluated(1);
    }
    again(rng, &p, "q", "stop");
    for a in [&p.w, &p.t] {
        a.judge_panics(&["[expected]"]);
    }
}

fn main() {
    agent_if_requested();
    run(
        "C17",
        &[
            scenario("loss", 6, loss),
            scenario("unreachable", 2, unreachable_node),
            scenario("pending", 3, pending),
            scenario("stopped", 2, stopped_while_pending),
            scenario("quick", 2, quick),
            scenario("restart", 2, restart),
            scenario("idle", 1, idle),
        ],
    );
}
