//! C13: managing a running supervisor's children.
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

use hv::sup::*;
use hv::*;
use hydra::*;

fn requests(ep: &mut Ep) {
    history(ep, Focus { crash: 1, request: 6, fail: 0, gate: 0, auto: false, slow_stops: false, tight: false, initial_failures: false });
}

fn failing(ep: &mut Ep) {
    history(ep, Focus { crash: 2, request: 6, fail: 5, gate: 0, auto: false, slow_stops: false, tight: false, initial_failures: true });
}

fn gated(ep: &mut Ep) {
    history(ep, Focus { crash: 3, request: 5, fail: 5, gate: 5, auto: false, slow_stops: false, tight: false, initial_failures: false });
}

fn slow(ep: &mut Ep) {
    history(ep, Focus { crash: 1, request: 5, fail: 2, gate: 2, auto: false, slow_stops: true, tight: false, initial_failures: false });
}

/// Many requesters on several threads, with children crashing: the answers must have an order that a table allows.
fn concurrent(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let rt = runtime(&mut rng);
    chaos(&mut rng);
    rt.block_on(async move {
        let world = World::new();
        let strategy = *rng.pick(&[SupervisionStrategy::OneForOne, SupervisionStrategy::OneForAll, SupervisionStrategy::RestForOne]);
        let sup = Supervisor::new().strategy(strategy).max_restarts(1_000_000).max_duration(Duration::from_secs(1)).start(SupervisorOptions::new()).await.unwrap();
        let workers = rng.range(2, 5);
        let log: Log<(String, Req, Answer)> = Log::new();
        let mut done = Vec::new();
        for w in 0..workers {
            let (world, log) = (world.clone(), log.clone());
            let mut rng = rng.fork();
            let (tx, rx) = tokio::sync::oneshot::channel::<()>();
            done.push(rx);
            Process::spawn(async move {
                let mut mine: BTreeMap<String, bool> = BTreeMap::new();
                for k in 0..rng.range(4, 20) {
                    // Children of one's own, whose table entries nobody else touches, and shared ones.
                    let shared = rng.chance(1, 3);
                    let id = if shared { format!("s{}", rng.below(3)) } else { format!("w{w}-{}", rng.below(3)) };
                    let restart = *rng.pick(&[Restart::Permanent, Restart::Temporary]);
                    let req = match rng.below(8) {
                        0..=2 => Req::Start(Child { id: id.clone(), restart: if shared { restart } else { Restart::Permanent }, policy: Policy::Brutal, supervisor: false, significant: false, kind: Kind::Plain }),
                        3 | 4 => Req::Terminate(id.clone()),
                        5 => Req::Restart(id.clone()),
                        6 => Req::Delete(id.clone()),
                        _ => {
                            // A crash of a running child.
                            let p = world.pids.lock().unwrap().values().copied().nth(rng.usize(8));
                            if let Some(p) = p {
                                Process::exit(p, ExitReason::Kill);
                            }
                            continue;
                        }
                    };
                    let a = ask(world.clone(), sup, req.clone()).await;
                    if !shared {
                        // None: unknown, Some(false): present but stopped, Some(true): running (permanent: restarted when it dies).
                        let state = mine.get(&id).copied();
                        let others = !matches!(strategy, SupervisionStrategy::OneForOne);
                        let right = match (&req, &a, state) {
                            (Req::Start(_), Answer::Pid(Some(_)), None) => true,
                            (Req::Start(_), Answer::Error(e), Some(true)) => e == "AlreadyStarted",
                            // Restarting everybody starts the stopped ones, too.
                            (Req::Start(_), Answer::Error(e), Some(false)) => e == "AlreadyPresent" || (others && e == "AlreadyStarted"),
                            (Req::Terminate(_), Answer::Ok, Some(_)) => true,
                            (Req::Terminate(_) | Req::Restart(_) | Req::Delete(_), Answer::Error(e), None) => e == "NotFound",
                            (Req::Restart(_), Answer::Error(e), Some(true)) => e == "Running",
                            (Req::Restart(_), Answer::Pid(Some(_)), Some(false)) => true,
                            (Req::Restart(_), Answer::Error(e), Some(false)) => others && e == "Running",
                            (Req::Delete(_), Answer::Error(e), Some(true)) => e == "Running",
                            (Req::Delete(_), Answer::Ok, Some(false)) => true,
                            (Req::Delete(_), Answer::Error(e), Some(false)) => others && e == "Running",
                            _ => false,
                        };
                        check(right, "concurrent-answer", || json!({"request": format!("{req:?}"), "answer": format!("{a:?}"), "state": state, "step": k}));
                        match (&req, &a) {
                            (Req::Start(_), Answer::Pid(_)) | (Req::Restart(_), Answer::Pid(_)) => { mine.insert(id.clone(), true); }
                            (Req::Start(_), Answer::Error(e)) if e == "AlreadyStarted" => { mine.insert(id.clone(), true); }
                            (Req::Restart(_) | Req::Delete(_), Answer::Error(e)) if e == "Running" => { mine.insert(id.clone(), true); }
                            (Req::Terminate(_), Answer::Ok) => { mine.insert(id.clone(), false); }
                            (Req::Delete(_), Answer::Ok) => { mine.remove(&id); }
                            _ => {}
                        }
                        cover(&("concurrent", std::mem::discriminant(&req), std::mem::discriminant(&a), state, format!("{strategy:?}")));
                    }
                    log.push((id, req, a));
                }
                tx.send(()).ok();
            });
        }
        for rx in done {
            check(rx.await.is_ok(), "requester-died", || json!(null));
        }
        chaos_off();
        check(Process::alive(sup), "supervisor-died", || json!({"log": format!("{:?}", log.snapshot())}));
        // Once crashes have been dealt with, the list is exactly the living children.
        let settled = {
            let mut ok = false;
            let mut last = None;
            for _ in 0..400 {
                let (w, w2) = (world.clone(), world.clone());
                let a = in_process(ask(w, sup, Req::Which)).await;
                let b = in_process(ask(w2, sup, Req::Count)).await;
                if let (Some(Answer::Children(list)), Some(Answer::Counts(specs, active, _, _))) = (&a, &b) {
                    let alive: BTreeSet<(String, u64)> = world.pids.lock().unwrap().iter().filter(|(_, p)| Process::alive(**p)).map(|(k, _)| k.clone()).collect();
                    let listed: BTreeSet<(String, u64)> = list.iter().filter_map(|(_, c, _, _)| c.clone()).collect();
                    last = Some(format!("alive {alive:?} listed {list:?} specs {specs} active {active}"));
                    if alive == listed && *specs == list.len() && *active == listed.len() {
                        ok = true;
                        break;
                    }
                } else {
                    last = Some(format!("{a:?} {b:?}"));
                }
                tokio::time::sleep(Duration::from_millis(5)).await;
            }
            check(ok, "concurrent-listing", || json!({"last": last, "log": format!("{:?}", log.snapshot())}));
            ok
        };
        count("concurrent_requests", log.len() as u64);
        kill(sup);
        if settled {
            let clean = eventually(|| world.pids.lock().unwrap().values().all(|p| !Process::alive(*p))).await;
            check(clean, "orphans", || json!(null));
        }
    });
    rt.shutdown_background();
    evaluated(1);
}

/// A specification without a start routine is an error, not the end of the supervisor.
fn odd(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    virtual_time(async move {
        let sup = Supervisor::new().start(SupervisorOptions::new()).await.unwrap();
        let restart = *rng.pick(&[Restart::Permanent, Restart::Temporary, Restart::Transient]);
        let r = in_process(async move { Supervisor::start_child(sup, ChildSpec::new("empty").restart(restart)).await }).await;
        check(matches!(r, Some(Err(SupervisorError::StartError(_)))), "no-start-routine", || json!({"result": format!("{r:?}")}));
        check(Process::alive(sup), "supervisor-died", || json!(null));
        kill(sup);
        quiesce().await;
        cover(&("odd", format!("{restart:?}")));
    });
    // Two initial children of one id are refused before anything is started.
    let rng = &mut ep.rng;
    let ids: Vec<String> = (0..rng.range(2, 6)).map(|_| format!("c{}", rng.below(5))).collect();
    let distinct = ids.iter().collect::<std::collections::BTreeSet<_>>().len() == ids.len();
    ignore_panics(true);
    let built = std::panic::catch_unwind(|| {
        if ids.len() % 2 == 0 {
            let _ = Supervisor::with_children(ids.iter().map(ChildSpec::new));
        } else {
            let _ = ids.iter().fold(Supervisor::new(), |s, id| s.add_child(ChildSpec::new(id)));
        }
    })
    .is_ok();
    ignore_panics(false);
    check(built == distinct, "duplicate-initial-children", || json!({"ids": ids, "accepted": built}));
    cover(&("initial", distinct, ids.len()));
    evaluated(1);
}

fn main() {
    run(
        "C13",
        &[scenario("requests", 3, requests), scenario("failing", 2, failing), scenario("gated", 3, gated), scenario("slow", 1, slow), scenario("concurrent", 3, concurrent), scenario("odd", 1, odd)],
    );
}
