//! C07: the name registry. Histories of concurrent operations are checked for linearizability against one
//! sequential table; deaths are operations of the environment.
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;

use hv::*;
use hydra::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Note(u64);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Fail {
    Taken,
    Gone,
    Already,
    Unknown(String),
}

fn classify(e: &ArgumentError) -> Fail {
    let text = format!("{e:?}");
    if text.contains("registered to another process") {
        Fail::Taken
    } else if text.contains("does not exist") {
        Fail::Gone
    } else if text.contains("already registered") {
        Fail::Already
    } else {
        Fail::Unknown(text)
    }
}

#[derive(Clone, Debug)]
enum Op {
    Register(usize, usize, Result<(), Fail>),
    Whereis(usize, Option<usize>),
    /// A process the history does not know.
    WhereisAlien(usize),
    Unregister(usize, bool),
    Send(usize, u64, Option<usize>),
    /// Process name as its information shows it: outer `None` when the process was not there.
    Info(usize, Option<Option<usize>>),
    Die(usize),
    Release(usize),
}

#[derive(Clone, Debug)]
struct Event {
    call: u64,
    ret: u64,
    op: Op,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct State {
    holder: Vec<Option<usize>>,
    name: Vec<Option<usize>>,
    dead: Vec<bool>,
}

fn step(s: &State, op: &Op, doomed: &[bool]) -> Option<State> {
    let mut n = s.clone();
    match op {
        Op::Register(p, name, result) => {
            let want = match s.holder[*name] {
                Some(q) if q == *p => Ok(()),
                Some(_) => Err(Fail::Taken),
                None if s.dead[*p] => Err(Fail::Gone),
                None if s.name[*p].is_some() => Err(Fail::Already),
                None => Ok(()),
            };
            let ok = match (result, &want) {
                (Ok(()), Ok(())) => true,
                (Err(Fail::Unknown(_)), Err(_)) => true,
                (Err(a), Err(b)) => {
                    // When several reasons apply, either may be reported.
                    let applies = |f: &Fail| match f {
                        Fail::Taken => matches!(s.holder[*name], Some(q) if q != *p),
                        Fail::Gone => s.dead[*p],
                        Fail::Already => s.name[*p].is_some() && s.name[*p] != Some(*name),
                        Fail::Unknown(_) => true,
                    };
                    a == b || applies(a)
                }
                _ => false,
            };
            if !ok {
                return None;
            }
            if want.is_ok() && s.holder[*name].is_none() {
                n.holder[*name] = Some(*p);
                n.name[*p] = Some(*name);
            }
        }
        Op::Whereis(name, result) => {
            if s.holder[*name] != *result {
                return None;
            }
        }
        Op::WhereisAlien(_) => return None,
        Op::Unregister(name, ok) => {
            match (s.holder[*name], ok) {
                (Some(p), true) => {
                    n.holder[*name] = None;
                    n.name[p] = None;
                }
                (None, false) => {}
                _ => return None,
            };
        }
        Op::Send(name, _, got) => match (s.holder[*name], got) {
            (Some(p), Some(q)) if p == *q => {}
            (None, None) => {}
            // The holder died with the message unread, or before it.
            (Some(p), None) if doomed[p] => {}
            _ => return None,
        },
        Op::Info(p, seen) => match seen {
            Some(name) => {
                if s.dead[*p] || s.name[*p] != *name {
                    return None;
                }
            }
            None => {
                if !s.dead[*p] {
                    return None;
                }
            }
        },
        Op::Die(p) => {
            if s.dead[*p] {
                return None;
            }
            n.dead[*p] = true;
        }
        Op::Release(p) => {
            if !s.dead[*p] {
                return None;
            }
            if let Some(name) = s.name[*p] {
                n.holder[name] = None;
                n.name[*p] = None;
            }
        }
    }
    Some(n)
}

enum Verdict {
    Linearizable(u64),
    Not,
    GaveUp,
}

fn linearizable(events: &[Event], init: State, doomed: &[bool]) -> Verdict {
    assert!(events.len() <= 64);
    let full = if events.len() == 64 { u64::MAX } else { (1u64 << events.len()) - 1 };
    let mut seen: HashSet<(u64, State)> = HashSet::new();
    let mut stack = vec![(0u64, init)];
    let mut visited = 0u64;
    while let Some((mask, state)) = stack.pop() {
        if mask == full {
            return Verdict::Linearizable(visited);
        }
        if !seen.insert((mask, state.clone())) {
            continue;
        }
        visited += 1;
        if visited > 400_000 {
            return Verdict::GaveUp;
        }
        let horizon = events
            .iter()
            .enumerate()
            .filter(|(i, _)| mask & (1 << i) == 0)
            .map(|(_, e)| e.ret)
            .min()
            .unwrap();
        for (i, e) in events.iter().enumerate() {
            if mask & (1 << i) == 0 && e.call <= horizon {
                if let Some(next) = step(&state, &e.op, doomed) {
                    stack.push((mask | (1 << i), next));
                }
            }
        }
    }
    Verdict::Not
}

static EPISODE: AtomicU64 = AtomicU64::new(0);

fn holder_process(log: Log<u64>) -> Pid {
    Process::spawn(async move {
        loop {
            if let Message::User(Note(n)) = Process::receiver().for_message::<Note>().receive().await {
                log.push(n);
            }
        }
    })
}

/// Unregistering panics when nobody holds the name; that is its way of reporting.
fn unregister(name: &str) -> bool {
    std::panic::catch_unwind(|| Process::unregister(name)).is_ok()
}

fn history(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let rt = runtime_threads(*rng.pick(&[2, 4, 8]));
    chaos(rng);
    let mut fork = rng.fork();
    let episode = EPISODE.fetch_add(1, Ordering::SeqCst);
    rt.block_on(async move {
        let rng = &mut fork;
        let nn = rng.range(1, 2) as usize;
        let np = rng.range(2, 4) as usize;
        let names: Arc<Vec<String>> = Arc::new((0..nn).map(|i| format!("c07-{episode}-{i}")).collect());
        let logs: Vec<Log<u64>> = (0..np).map(|_| Log::new()).collect();
        let pids: Arc<Vec<Pid>> = Arc::new(logs.iter().map(|l| holder_process(l.clone())).collect());
        let nc = rng.range(2, 4) as usize;
        let each = rng.range(2, 6);
        let deaths = rng.below(3);
        let events: Log<Event> = Log::new();
        let doomed_at: Log<(usize, u64)> = Log::new();
        let start = Arc::new(std::sync::Barrier::new(1));
        let _ = start;
        let go = Arc::new(AtomicBool::new(false));
        let mut joins = Vec::new();
        for c in 0..nc {
            let mut r = rng.fork();
            let (names, pids, events, go, doomed_at) =
                (names.clone(), pids.clone(), events.clone(), go.clone(), doomed_at.clone());
            joins.push(tokio::spawn(async move {
                while !go.load(Ordering::SeqCst) {
                    tokio::task::yield_now().await;
                }
                let mut budget = if (c as u64) < deaths { 1 } else { 0 };
                for k in 0..each {
                    let name = r.usize(names.len());
                    let p = r.usize(pids.len());
                    if budget > 0 && r.chance(1, each - k) {
                        budget -= 1;
                        let t = tick();
                        kill(pids[p]);
                        doomed_at.push((p, t));
                    }
                    let call = tick();
                    let op = match r.below(10) {
                        0..=3 => Op::Register(p, name, Process::register(pids[p], names[name].clone()).map_err(|e| classify(&e))),
                        4 | 5 => match Process::whereis(&names[name]) {
                            None => Op::Whereis(name, None),
                            Some(q) => match pids.iter().position(|x| *x == q) {
                                Some(i) => Op::Whereis(name, Some(i)),
                                None => Op::WhereisAlien(name),
                            },
                        },
                        6 | 7 => Op::Unregister(name, unregister(&names[name])),
                        8 => {
                            let id = call * 10 + 1;
                            if r.bool() {
                                Process::send(names[name].clone(), Note(id));
                            } else {
                                Process::send(vec![Dest::from(names[name].clone())], Note(id));
                            }
                            Op::Send(name, id, None)
                        }
                        _ => {
                            let seen = Process::info(pids[p]).map(|i| {
                                i.registered_name.map(|n| names.iter().position(|x| *x == n).unwrap_or(usize::MAX))
                            });
                            Op::Info(p, seen)
                        }
                    };
                    events.push(Event { call, ret: tick(), op });
                    if r.chance(1, 3) {
                        tokio::task::yield_now().await;
                    }
                }
            }));
        }
        go.store(true, Ordering::SeqCst);
        for j in joins {
            j.await.ok();
        }
        let doomed_list = doomed_at.snapshot();
        let mut doomed = vec![false; np];
        for (p, _) in &doomed_list {
            doomed[*p] = true;
        }
        let (pp, dd) = (pids.clone(), doomed.clone());
        let gone = eventually(|| {
            let list = Process::list();
            pp.iter().zip(&dd).all(|(p, d)| !*d || !list.contains(p))
        })
        .await;
        if !gone {
            violation("name-holder-stays", json!({}));
            return;
        }
        // A name is free once its holder is dead.
        let (pp, dd, n2) = (pids.clone(), doomed.clone(), names.clone());
        let released = eventually(|| {
            n2.iter().all(|n| match Process::whereis(n) {
                Some(q) => !pp.iter().zip(&dd).any(|(p, d)| *p == q && *d),
                None => true,
            })
        })
        .await;
        check(released, "name-not-released", || json!({"events": format!("{:?}", events.snapshot())}));
        // Final observations.
        for (i, name) in names.iter().enumerate() {
            let call = tick();
            let op = match Process::whereis(name) {
                None => Op::Whereis(i, None),
                Some(q) => match pids.iter().position(|x| *x == q) {
                    Some(p) => Op::Whereis(i, Some(p)),
                    None => Op::WhereisAlien(i),
                },
            };
            events.push(Event { call, ret: tick(), op });
        }
        let mine: Vec<String> = Process::registered().into_iter().filter(|n| names.contains(n)).collect();
        for (i, name) in names.iter().enumerate() {
            let listed = mine.iter().filter(|n| *n == name).count();
            let held = Process::whereis(name);
            check(listed == held.is_some() as usize, "name-list", || {
                json!({"name": i, "listed": listed, "holder": format!("{held:?}"), "events": format!("{:?}", events.snapshot())})
            });
        }
        for (i, p) in pids.iter().enumerate() {
            if doomed[i] {
                continue;
            }
            let call = tick();
            let shown = Process::info(*p).and_then(|x| x.registered_name);
            let held: Vec<&String> = names.iter().filter(|n| Process::whereis(n) == Some(*p)).collect();
            check(held.len() <= 1 && held.first().copied() == shown.as_ref(), "name-info", || {
                json!({"process": i, "shown": shown, "held": held, "events": format!("{:?}", events.snapshot())})
            });
            let seen = shown.and_then(|n| names.iter().position(|x| *x == n));
            events.push(Event { call, ret: tick(), op: Op::Info(i, Some(seen)) });
        }
        // Who got what was sent by name.
        for (i, p) in pids.iter().enumerate() {
            if !doomed[i] {
                let fence = u64::MAX - i as u64;
                Process::send(*p, Note(fence));
                let l = logs[i].clone();
                if !eventually(|| l.any(|n| *n == fence)).await {
                    violation("name-receiver-stuck", json!({}));
                }
            }
        }
        let mut list = events.snapshot();
        for e in &mut list {
            if let Op::Send(_, id, to) = &mut e.op {
                let receivers: Vec<usize> = logs.iter().enumerate().filter(|(_, l)| l.any(|n| n == id)).map(|(i, _)| i).collect();
                check(receivers.len() <= 1, "name-send-duplicated", || json!({"receivers": receivers}));
                *to = receivers.first().copied();
            }
        }
        let mut first: BTreeMap<usize, u64> = BTreeMap::new();
        for (p, t) in &doomed_list {
            let e = first.entry(*p).or_insert(*t);
            *e = (*e).min(*t);
        }
        let end = tick();
        for (p, t) in &first {
            list.push(Event { call: *t, ret: end, op: Op::Die(*p) });
            list.push(Event { call: *t, ret: end, op: Op::Release(*p) });
        }
        // The final reads saw the names released already.
        let init = State { holder: vec![None; nn], name: vec![None; np], dead: vec![false; np] };
        match linearizable(&list, init, &doomed) {
            Verdict::Linearizable(n) => {
                count("states searched", n);
                let shape: Vec<String> = list
                    .iter()
                    .map(|e| match &e.op {
                        Op::Send(n, _, to) => format!("send {n} {to:?}"),
                        op => format!("{op:?}"),
                    })
                    .collect();
                let overlap = list.iter().enumerate().filter(|(i, e)| list[i + 1..].iter().any(|f| f.call < e.ret && e.call < f.ret)).count();
                if overlap > 0 {
                    cover(&shape);
                }
                count("overlapping operations", overlap as u64);
            }
            Verdict::Not => violation("name-not-linearizable", json!({
                "events": list.iter().map(|e| format!("[{}..{}] {:?}", e.call, e.ret, e.op)).collect::<Vec<_>>()
            })),
            Verdict::GaveUp => inconclusive("linearizability search gave up"),
        }
        sample("history", || json!(list.iter().map(|e| format!("[{}..{}] {:?}", e.call, e.ret, e.op)).collect::<Vec<_>>()));
        count("operations", list.len() as u64);
        for p in pids.iter() {
            kill(*p);
        }
        evaluated(1);
    });
    rt.shutdown_background();
}

/// A name changes hands while its holder dies: the late cleanup of the dead must not take it away.
fn takeover(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let rt = runtime_threads(*rng.pick(&[2, 4, 8]));
    chaos(rng);
    let mut fork = rng.fork();
    let episode = EPISODE.fetch_add(1, Ordering::SeqCst);
    rt.block_on(async move {
        let rng = &mut fork;
        let name = format!("c07-t-{episode}");
        let rounds = rng.range(1, 4);
        let mut current = holder_process(Log::new());
        Process::register(current, name.clone()).unwrap();
        for round in 0..rounds {
            let next = holder_process(Log::new());
            let early = rng.bool();
            let old = current;
            let n = name.clone();
            let go = Arc::new(AtomicBool::new(false));
            let g = go.clone();
            // Either the dying holder's name is taken as soon as it is free, or it is taken away first.
            let taker = tokio::spawn(async move {
                g.store(true, Ordering::SeqCst);
                if early {
                    unregister(&n);
                }
                let mut tries = 0u64;
                while Process::register(next, n.clone()).is_err() {
                    tries += 1;
                    if tries > 20_000 {
                        tokio::time::sleep(std::time::Duration::from_millis(1)).await;
                    }
                    if tries > 30_000 {
                        return None;
                    }
                    tokio::task::yield_now().await;
                }
                Some(tries)
            });
            while !go.load(Ordering::SeqCst) {
                std::hint::spin_loop();
            }
            for _ in 0..rng.below(2000) {
                std::hint::spin_loop();
            }
            kill(old);
            match taker.await.ok().flatten() {
                None => {
                    violation("name-not-released", json!({"early": early, "round": round}));
                    return;
                }
                Some(tries) => cover(&(early, tries.min(40), round)),
            }
            // The dead is gone and has had time to clean up.
            eventually(|| !Process::list().contains(&old)).await;
            for _ in 0..20 {
                tokio::task::yield_now().await;
            }
            if rng.bool() {
                tokio::time::sleep(std::time::Duration::from_millis(2)).await;
            }
            let at = Process::whereis(&name);
            let shown = Process::info(next).and_then(|i| i.registered_name);
            check(at == Some(next) && shown.as_ref() == Some(&name), "name-taken-away", || {
                json!({"holder": format!("{at:?}"), "expected": format!("{next:?}"), "shown": shown, "early": early})
            });
            current = next;
        }
        kill(current);
        let n = name.clone();
        let freed = eventually(|| Process::whereis(&n).is_none() && !Process::registered().contains(&n)).await;
        check(freed, "name-not-released", || json!({"end": true}));
        evaluated(1);
    });
    rt.shutdown_background();
}

/// Sequential programs against the same table, exactly.
fn model(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let episode = EPISODE.fetch_add(1, Ordering::SeqCst);
    let steps: Log<String> = Log::new();
    let trace = steps.clone();
    virtual_time(async move {
        let nn = rng.range(1, 4) as usize;
        let np = rng.range(1, 5) as usize;
        let names: Vec<String> = (0..nn)
            .map(|i| match rng.below(5) {
                0 if i == 0 => String::new(),
                1 => format!("c07-\u{1F600}\0-{episode}-{i}"),
                _ => format!("c07-m-{episode}-{i}"),
            })
            .collect();
        let logs: Vec<Log<u64>> = (0..np).map(|_| Log::new()).collect();
        let pids: Vec<Pid> = logs.iter().map(|l| holder_process(l.clone())).collect();
        let mut want: Vec<Vec<u64>> = vec![Vec::new(); np];
        let mut s = State { holder: vec![None; nn], name: vec![None; np], dead: vec![false; np] };
        let doomed = vec![false; np];
        for k in 0..rng.range(10, 60) {
            let name = rng.usize(nn);
            let p = rng.usize(np);
            let op = match rng.below(12) {
                0..=4 => Op::Register(p, name, Process::register(pids[p], names[name].clone()).map_err(|e| classify(&e))),
                5 => Op::Whereis(name, Process::whereis(&names[name]).and_then(|q| pids.iter().position(|x| *x == q))),
                6 | 7 => Op::Unregister(name, unregister(&names[name])),
                8 => {
                    if let Some(q) = s.holder[name] {
                        want[q].push(k);
                    }
                    Process::send(names[name].clone(), Note(k));
                    quiesce().await;
                    continue;
                }
                9 if rng.chance(1, 3) => {
                    kill(pids[p]);
                    quiesce().await;
                    if s.dead[p] {
                        continue;
                    }
                    trace.push(format!("{p} dies"));
                    s = step(&s, &Op::Die(p), &doomed).unwrap();
                    s = step(&s, &Op::Release(p), &doomed).unwrap();
                    continue;
                }
                _ => Op::Info(
                    p,
                    Process::info(pids[p]).map(|i| i.registered_name.map(|n| names.iter().position(|x| *x == n).unwrap_or(usize::MAX))),
                ),
            };
            trace.push(format!("{op:?}"));
            cover(&(format!("{op:?}"), s.clone()));
            match step(&s, &op, &doomed) {
                Some(next) => s = next,
                None => {
                    violation("name-model", json!({"history": trace.snapshot(), "state": format!("{s:?}")}));
                    return;
                }
            }
            let mut listed: Vec<String> = Process::registered().into_iter().filter(|n| names.contains(n)).collect();
            listed.sort();
            let mut held: Vec<String> = names.iter().enumerate().filter(|(i, _)| s.holder[*i].is_some()).map(|(_, n)| n.clone()).collect();
            held.sort();
            if !check(listed == held, "name-list", || json!({"listed": listed, "held": held, "history": trace.snapshot()})) {
                return;
            }
        }
        for p in 0..np {
            if !s.dead[p] {
                check(logs[p].snapshot() == want[p], "name-send", || {
                    json!({"got": logs[p].snapshot(), "want": want[p], "history": trace.snapshot()})
                });
            }
        }
        for p in &pids {
            kill(*p);
        }
        quiesce().await;
        for n in &names {
            check(Process::whereis(n).is_none(), "name-not-released", || json!({"name": n, "history": trace.snapshot()}));
        }
    });
    sample("program", || json!(steps.snapshot()));
    evaluated(1);
}

fn main() {
    allow_panic("was not registered");
    run("C07", &[scenario("history", 4, history), scenario("takeover", 2, takeover), scenario("model", 1, model)]);
}
