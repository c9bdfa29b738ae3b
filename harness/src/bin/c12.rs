//! C12: restart limits, shutdown policies, automatic shutdown, no orphans.
use std::collections::HashMap;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::time::Duration;

use hv::sup::*;
use hv::*;
use hydra::*;

fn intensity(ep: &mut Ep) {
    history(ep, Focus { crash: 9, request: 1, fail: 3, gate: 1, auto: false, slow_stops: false, tight: true, initial_failures: false });
}

fn automatic(ep: &mut Ep) {
    history(ep, Focus { crash: 8, request: 2, fail: 2, gate: 2, auto: true, slow_stops: false, tight: false, initial_failures: true });
}

fn stops(ep: &mut Ep) {
    history(ep, Focus { crash: 4, request: 1, fail: 1, gate: 1, auto: true, slow_stops: true, tight: true, initial_failures: true });
}

/// One policy and one child at a time, with exact durations, including waiting for ever.
fn policies(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    virtual_time(async move {
        let world = World::new();
        let way = rng.below(3);
        // The last child never gets to start: the others are stopped again.
        let failing = way == 2;
        let n = rng.range(1, 4);
        let mut children = Vec::new();
        let mut expected: Vec<(String, u64, Option<ExitReason>)> = Vec::new();
        for i in 0..n {
            let kind = match rng.below(4) {
                0 => Kind::Plain,
                1 => Kind::Stubborn,
                _ => Kind::Obedient(rng.range(0, 9000), if rng.bool() { Some("own".into()) } else { None }),
            };
            let policy = match rng.below(6) {
                0 => Policy::Brutal,
                1 => Policy::Infinity,
                2 | 3 => Policy::Default,
                _ => Policy::Millis(rng.range(1, 20_000)),
            };
            let supervisor = rng.chance(1, 3);
            let kind = if failing && kind == Kind::Stubborn { Kind::Plain } else { kind };
            let effective = match policy {
                Policy::Default if supervisor => Policy::Infinity,
                Policy::Default => Policy::Millis(5000),
                p => p,
            };
            let (takes, reason) = match (effective, &kind) {
                (Policy::Brutal, _) => (0, Some(ExitReason::Kill)),
                (_, Kind::Plain) => (0, Some(ExitReason::from("shutdown"))),
                (Policy::Millis(t), Kind::Stubborn) => (t, Some(ExitReason::Kill)),
                (Policy::Millis(t), Kind::Obedient(d, r)) => {
                    if d.abs_diff(t) < 5 {
                        (t, None)
                    } else if *d > t {
                        (t, Some(ExitReason::Kill))
                    } else {
                        (*d, Some(r.clone().map_or(ExitReason::Normal, ExitReason::from)))
                    }
                }
                (_, Kind::Obedient(d, r)) => (*d, Some(r.clone().map_or(ExitReason::Normal, ExitReason::from))),
                (_, Kind::Stubborn) => (7_200_000, Some(ExitReason::Kill)),
            };
            let id = format!("c{i}");
            cover(&("policy", std::mem::discriminant(&effective), std::mem::discriminant(&kind), supervisor, reason.as_ref().map(reason_str)));
            expected.push((id.clone(), takes, reason));
            children.push(Child { id, restart: Restart::Permanent, policy, supervisor, significant: false, kind });
        }
        let mut sup = Supervisor::new();
        for c in &children {
            sup = sup.add_child(c.spec(&world));
        }
        if failing {
            world.script.lock().unwrap().insert("last".into(), [Attempt { outcome: Outcome::Err("no".into()), gated: false }].into());
            let last = Child { id: "last".into(), restart: Restart::Permanent, policy: Policy::Default, supervisor: false, significant: false, kind: Kind::Plain };
            sup = sup.add_child(last.spec(&world));
        }
        let (tx, rx) = tokio::sync::oneshot::channel();
        let go = Arc::new(tokio::sync::Notify::new());
        let go2 = go.clone();
        let ends: Log<(Pid, ExitReason)> = Log::new();
        let ends2 = ends.clone();
        let parent = Process::spawn(async move {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            let r = sup.start_link(SupervisorOptions::new()).await;
            let pid = r.as_ref().ok().copied();
            tx.send(r).ok();
            loop {
                tokio::select! {
                    _ = go2.notified() => Process::exit(pid.unwrap(), ExitReason::from("shutdown")),
                    m = Process::receive::<()>() => if let Message::System(SystemMessage::Exit(p, r)) = m {
                        ends2.push((p, r));
                    },
                }
            }
        });
        let result = rx.await.unwrap();
        let t0;
        if failing {
            let log = world.log.snapshot();
            t0 = log.iter().find(|(e, _)| *e == Ev::Attempt("last".into(), 1)).map_or(0, |(_, t)| *t);
        } else {
            tokio::time::sleep(Duration::from_millis(5)).await;
            t0 = world.now();
            if way == 0 || result.is_err() {
                go.notify_one();
            } else {
                let sup = *result.as_ref().unwrap();
                Process::spawn(async move {
                    let _ = <Supervisor as GenServer>::stop(sup, ExitReason::from("shutdown"), None).await;
                });
            }
        }
        check(result.is_ok() != failing, "supervisor-start", || json!({"result": format!("{result:?}")}));
        if failing {
            check(matches!(&result, Err(r) if *r == "failed_to_start_child"), "supervisor-start", || json!({"result": format!("{result:?}")}));
        }
        // Watch the shutdown: reverse start order, one after the other, each within its own time.
        let mut at = t0;
        for (i, (id, takes, reason)) in expected.iter().enumerate().rev() {
            if *takes >= 7_200_000 {
                // Nothing but the child's own end can end this wait.
                let now = world.now();
                if at > now {
                    tokio::time::sleep(Duration::from_millis(at - now + 20)).await;
                }
                tokio::time::sleep(Duration::from_secs(7200)).await;
                let pid = world.pid(id, 1).unwrap();
                check(Process::alive(pid), "infinite-wait-cut-short", || json!({"children": format!("{children:?}")}));
                if let Ok(sup) = result {
                    check(Process::alive(sup), "supervisor-gone-first", || json!({"children": format!("{children:?}")}));
                }
                kill(pid);
                quiesce().await;
                at = world.now();
            } else {
                let now = world.now();
                if at + takes + 10 > now {
                    tokio::time::sleep(Duration::from_millis(at + takes + 10 - now)).await;
                }
                let log = world.log.snapshot();
                let when = |id: String| log.iter().position(|(e, _)| *e == Ev::Stopped(id.clone(), 1));
                let stopped = when(id.clone()).map(|k| log[k].1);
                let began = at;
                let detail = || json!({"children": format!("{children:?}"), "child": id, "began": began, "takes": takes, "stopped": stopped, "way": way});
                if check(stopped.is_some(), "child-not-stopped", detail) {
                    let t = stopped.unwrap();
                    check(t + 6 >= at + takes && t <= at + takes + 12, "stop-duration", detail);
                    at = t;
                }
                // Later children first: none that started earlier may be gone before.
                for j in 0..i {
                    let (a, b) = (when(format!("c{j}")), when(id.clone()));
                    check(a.is_none() || b.is_some_and(|b| b < a.unwrap()), "stop-order", detail);
                }
            }
            if let Some(r) = reason {
                let real = world.reasons.lock().unwrap().get(&(id.clone(), 1)).cloned();
                check(real.as_ref() == Some(r), "child-exit-reason", || json!({"child": id, "real": format!("{real:?}"), "expected": format!("{r:?}"), "children": format!("{children:?}")}));
            }
        }
        quiesce().await;
        if let Ok(sup) = result {
            check(!Process::alive(sup), "supervisor-stays", || json!({"children": format!("{children:?}")}));
            check(ends.snapshot() == vec![(sup, ExitReason::from("shutdown"))], "supervisor-exit", || json!({"ends": format!("{:?}", ends.snapshot())}));
        }
        let orphans = world.pids.lock().unwrap().iter().filter(|(_, p)| Process::alive(**p)).count();
        check(orphans == 0, "orphans", || json!({"children": format!("{children:?}")}));
        check(world.twice.load(Ordering::SeqCst) == 0, "child-died-twice", || json!(null));
        for p in world.pids.lock().unwrap().values() {
            if Process::alive(*p) {
                kill(*p);
            }
        }
        kill(parent);
        quiesce().await;
        count("policies", n);
    });
    evaluated(1);
}

/// A supervisor that is not up in time, or whose name is taken, is not started at all.
fn late(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    virtual_time(async move {
        let world = World::new();
        let name = format!("c12-late-{}", ep_number());
        let n = rng.range(1, 4);
        let slow = rng.below(n);
        let limit = rng.range(5, 5000);
        let in_time = rng.chance(1, 3);
        let taken = rng.chance(1, 4);
        if rng.bool() || in_time {
            world.script.lock().unwrap().insert(format!("c{slow}"), [Attempt { outcome: Outcome::Ok, gated: true }].into());
        } else {
            world.script.lock().unwrap().insert(format!("c{slow}"), [Attempt { outcome: Outcome::Err("late".into()), gated: true }].into());
        }
        let children: Vec<ChildSpec> = (0..n)
            .map(|i| {
                Child { id: format!("c{i}"), restart: Restart::Permanent, policy: Policy::Default, supervisor: false, significant: false, kind: Kind::Plain }.spec(&world)
            })
            .collect();
        let holder = taken.then(|| {
            let name = name.clone();
            Process::spawn(async move {
                Process::register(Process::current(), name).unwrap();
                forever().await
            })
        });
        quiesce().await;
        let options = SupervisorOptions::new().name(name.clone()).timeout(Duration::from_millis(limit));
        let gate = world.clone();
        if in_time {
            tokio::spawn(async move {
                tokio::time::sleep(Duration::from_millis(limit - 1)).await;
                gate.gate.notify_one();
            });
        }
        let t0 = tokio::time::Instant::now();
        let link = rng.bool();
        let result = in_process(async move {
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            let sup = Supervisor::with_children(children);
            let r = if link { sup.start_link(options).await } else { sup.start(options).await };
            if r.is_ok() && link {
                // Tied to its starter, it would end with it otherwise.
                Process::unlink(r.clone().unwrap());
            }
            r
        })
        .await;
        let took = t0.elapsed().as_millis() as u64;
        let detail = || json!({"limit": limit, "in_time": in_time, "taken": taken, "result": format!("{result:?}"), "took": took});
        quiesce().await;
        match &result {
            Some(Ok(sup)) => {
                check(in_time && !taken, "started-too-late", detail);
                check(Process::whereis(&name) == Some(*sup), "supervisor-without-name", detail);
                // Reachable under its name.
                let by_name = name.clone();
                let counts = in_process(async move { Supervisor::count_children(by_name).await }).await;
                check(matches!(&counts, Some(Ok(c)) if c.specs == n as usize && c.active == n as usize), "unreachable-by-name", detail);
                kill(*sup);
            }
            Some(Err(r)) if taken => {
                check(*r == "already_started" && took < 5, "taken-name", detail);
                check(world.pids.lock().unwrap().is_empty(), "taken-name-starts-children", detail);
                check(Process::whereis(&name) == holder, "name-taken-away", detail);
            }
            Some(Err(r)) => {
                check(!in_time && *r == "timeout", "supervisor-start", detail);
                check(took >= limit && took <= limit + 5, "start-limit", detail);
                check(Process::whereis(&name).is_none(), "name-left", detail);
            }
            None => violation("starter-died", detail()),
        }
        quiesce().await;
        let orphans = world.pids.lock().unwrap().values().filter(|p| Process::alive(**p)).count();
        check(orphans == 0, "orphans", detail);
        cover(&("late", n, slow, in_time, taken, link));
        if let Some(h) = holder {
            kill(h);
        }
        quiesce().await;
    });
    evaluated(1);
}

fn ep_number() -> u64 {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    N.fetch_add(1, Ordering::Relaxed)
}

/// The restart window moves: judged from the times at which crashes were caused and restarts seen.
fn window(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let rt = runtime_threads(2);
    rt.block_on(async move {
        let max = rng.below(4) as usize;
        let period = rng.range(60, 250);
        let world = World::new();
        // Real clock: the log's times are not used here.
        let c = Child { id: "c".into(), restart: Restart::Permanent, policy: Policy::Brutal, supervisor: false, significant: false, kind: Kind::Plain };
        let other = Child { id: "o".into(), restart: Restart::Transient, policy: Policy::Brutal, supervisor: false, significant: false, kind: Kind::Plain };
        let sup = Supervisor::with_children([c.spec(&world), other.spec(&world)])
            .max_restarts(max)
            .max_duration(Duration::from_millis(period))
            .start(SupervisorOptions::new())
            .await
            .unwrap();
        let origin = std::time::Instant::now();
        // Earliest and latest possible moment of each counted restart.
        let mut restarts: Vec<(f64, f64)> = Vec::new();
        let ms = || origin.elapsed().as_secs_f64() * 1000.0;
        let mut history = Vec::new();
        let mut n: HashMap<&str, u64> = HashMap::from([("c", 1), ("o", 1)]);
        for _ in 0..rng.range(2, 9) {
            let gap = match rng.below(5) {
                0 | 1 => 0,
                2 => rng.range(1, 20),
                3 => period / (max as u64 + 1) + rng.range(0, 40),
                _ => period + rng.range(10, 30),
            };
            tokio::time::sleep(Duration::from_millis(gap)).await;
            let id = *rng.pick(&["c", "o"]);
            let Some(pid) = world.pid(id, n[id]) else { break };
            let before = ms();
            kill(pid);
            // Either the child is started again or the supervisor ends.
            let w = world.clone();
            let next = n[id] + 1;
            let ok = eventually(|| w.pid(id, next).is_some() || !Process::alive(sup)).await;
            if !check(ok, "neither-restart-nor-end", || json!({"history": history})) {
                break;
            }
            let gone = !Process::alive(sup) && world.pid(id, next).is_none();
            let after = ms();
            history.push(format!("{before:.1}-{after:.1}: {}", if gone { "gave up" } else { "restart" }));
            // How many earlier restarts surely / possibly fall within the period, inclusive.
            let p = period as f64;
            let surely = restarts.iter().filter(|(lo, _)| after - lo < p - 0.5).count() + 1;
            let possibly = restarts.iter().filter(|(_, hi)| before - hi <= p + 0.5).count() + 1;
            let detail = || json!({"max": max, "period": period, "history": history, "surely": surely, "possibly": possibly});
            if gone {
                check(possibly > max, "gave-up-too-early", detail);
                cover(&("gave up", max, restarts.len()));
                break;
            }
            check(surely <= max, "gave-up-too-late", detail);
            cover(&("restarted", max, restarts.len(), surely, possibly));
            restarts.push((before, after));
            *n.get_mut(id).unwrap() += 1;
        }
        if Process::alive(sup) {
            kill(sup);
        }
        let clean = eventually(|| world.pids.lock().unwrap().values().all(|p| !Process::alive(*p))).await;
        check(clean, "orphans", || json!({"history": history}));
        count("window_crashes", history.len() as u64);
        sample("window", || json!({"max": max, "period": period, "history": history}));
    });
    rt.shutdown_background();
    evaluated(1);
}

/// Trees of supervisors on several threads: whatever ends the root, nobody is left.
fn tree(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let rt = runtime(&mut rng);
    chaos(&mut rng);
    rt.block_on(async move {
        let world = World::new();
        fn grow(rng: &mut Rng, world: &Arc<World>, depth: u64, name: String, made: &mut u64) -> Supervisor {
            let mut sup = Supervisor::new()
                .strategy(*rng.pick(&[SupervisionStrategy::OneForOne, SupervisionStrategy::OneForAll, SupervisionStrategy::RestForOne]))
                .max_restarts(rng.range(0, 5) as usize)
                .max_duration(Duration::from_secs(60));
            for i in 0..rng.range(1, 4) {
                let id = format!("{name}.{i}");
                if depth > 0 && rng.bool() {
                    let sub = grow(rng, world, depth - 1, id.clone(), made);
                    sup = sup.add_child(sub.child_spec(SupervisorOptions::new()).id(id));
                } else {
                    *made += 1;
                    let restart = *rng.pick(&[Restart::Permanent, Restart::Transient, Restart::Temporary]);
                    let kind = match rng.below(4) {
                        0 => Kind::Obedient(rng.below(4), None),
                        1 => Kind::Stubborn,
                        _ => Kind::Plain,
                    };
                    let policy = match kind {
                        Kind::Stubborn => *rng.pick(&[Policy::Brutal, Policy::Millis(5)]),
                        _ => *rng.pick(&[Policy::Default, Policy::Infinity, Policy::Brutal]),
                    };
                    sup = sup.add_child(Child { id, restart, policy, supervisor: false, significant: false, kind }.spec(world));
                }
            }
            sup
        }
        let mut leaves = 0;
        let root = grow(&mut rng, &world, 2, "r".into(), &mut leaves);
        let root = root.start(SupervisorOptions::new()).await.unwrap();
        // A storm of deaths.
        for _ in 0..rng.below(10) {
            let pids: Vec<Pid> = world.pids.lock().unwrap().values().copied().collect();
            if !pids.is_empty() {
                let p = *rng.pick(&pids);
                match rng.below(3) {
                    0 => kill(p),
                    1 => Process::send(p, Cmd::Panic("storm".into())),
                    _ => Process::send(p, Cmd::Return),
                }
            }
            if rng.bool() {
                tokio::time::sleep(Duration::from_micros(rng.below(1500))).await;
            }
        }
        let (tx, rx) = tokio::sync::oneshot::channel();
        let stopper = Process::spawn(async move {
            let r = <Supervisor as GenServer>::stop(root, ExitReason::from("shutdown"), None).await;
            // At this very moment nobody may be left.
            tx.send((r, Process::alive(root))).ok();
        });
        let Ok((r, root_alive)) = rx.await else {
            violation("stopper-died", json!(null));
            return;
        };
        let left: Vec<String> = world.pids.lock().unwrap().iter().filter(|(_, p)| Process::alive(**p)).map(|(k, _)| format!("{k:?}")).collect();
        // A root that had given up by itself was stopping its children when it was asked.
        check(!root_alive, "supervisor-stays", || json!({"result": format!("{r:?}")}));
        check(left.is_empty(), "orphans-at-end", || json!({"left": left, "result": format!("{r:?}")}));
        check(matches!(&r, Ok(())) || matches!(&r, Err(e) if *e == "noproc"), "stop-result", || json!({"result": format!("{r:?}")}));
        cover(&("tree", leaves, reason_str(&r.err().unwrap_or_default()), world.attempts.lock().unwrap().values().sum::<u64>()));
        count("tree_starts", world.attempts.lock().unwrap().values().sum::<u64>());
        kill(stopper);
    });
    rt.shutdown_background();
    evaluated(1);
}

fn main() {
    run(
        "C12",
        &[
            scenario("intensity", 12, intensity),
            scenario("automatic", 12, automatic),
            scenario("stops", 12, stops),
            scenario("policies", 12, policies),
            scenario("late", 6, late), scenario("window", 1, window),
            scenario("tree", 5, tree),
        ],
    );
}
