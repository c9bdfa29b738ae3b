//! C09: timers, sleeps and time limits, on virtual time (exact) and on real time (races).
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

use hv::*;
use hydra::*;
use serde::{Deserialize, Serialize};
use tokio::time::Instant;

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Note(u64, String);

static EPISODE: AtomicU64 = AtomicU64::new(0);

fn listener(log: Log<(u64, String, Instant)>) -> Pid {
    Process::spawn(async move {
        loop {
            if let Message::User(Note(n, s)) = Process::receiver().for_message::<Note>().receive().await {
                log.push((n, s, Instant::now()));
            }
        }
    })
}

fn delay(rng: &mut Rng) -> Duration {
    match rng.below(13) {
        0 => Duration::ZERO,
        1 => Duration::from_nanos(rng.range(1, 999_999)),
        2 => Duration::from_micros(rng.range(1, 3000)),
        3..=6 => Duration::from_millis(rng.range(1, 60)),
        7 | 8 => Duration::from_millis(rng.range(1, 3000)),
        9 => Duration::from_secs(rng.range(1, 120)),
        10 => Duration::from_secs(rng.range(3600, 7200)),
        // Longer than narrow counters of milliseconds reach.
        11 if rng.chance(1, 4) => Duration::from_millis(rng.range(40, 500) * 86_400_000 + rng.below(1000)),
        _ => Duration::from_millis(rng.range(1, 6) * 10),
    }
}

#[derive(Debug)]
struct T {
    id: u64,
    text: String,
    reference: Reference,
    set: Instant,
    due: Instant,
    /// Receivers that should get it, when it fires.
    to: Vec<usize>,
    name: bool,
    cancelled: Option<Instant>,
}

/// Many timers at once on virtual time.
fn timers(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let episode = EPISODE.fetch_add(1, Ordering::SeqCst);
    let steps: Log<String> = Log::new();
    let trace = steps.clone();
    virtual_time(async move {
        let n = rng.range(1, 4) as usize;
        let logs: Vec<Log<(u64, String, Instant)>> = (0..n).map(|_| Log::new()).collect();
        let pids: Vec<Pid> = logs.iter().map(|l| listener(l.clone())).collect();
        let name = format!("c09-{episode}");
        Process::register(pids[0], name.clone()).unwrap();
        let dead = Process::spawn(async {});
        quiesce().await;
        let mut died: Option<(usize, Instant)> = None;
        let mut timers: Vec<T> = Vec::new();
        let start = Instant::now();
        let slack = Duration::from_millis(2);
        let mut id = 0;
        for _ in 0..rng.range(3, 40) {
            match rng.below(10) {
                0..=4 => {
                    id += 1;
                    let d = delay(&mut rng);
                    let p = rng.usize(n);
                    let text = { let k = rng.usize(8); rng.string(k) };
                    let note = Note(id, text.clone());
                    let form = rng.below(6);
                    let set = Instant::now();
                    let mut by_name = false;
                    let from_process = rng.chance(1, 4);
                    let (dests, to): (Vec<Dest>, Vec<usize>) = match form {
                        0 | 1 => (vec![pids[p].into()], vec![p]),
                        2 => {
                            by_name = true;
                            (vec![name.clone().into()], vec![0])
                        }
                        3 => (vec![pids[p].into(), dead.into(), pids[0].into()], vec![p, 0]),
                        4 => (vec![dead.into()], vec![]),
                        _ => (vec![Dest::from(format!("c09-nobody-{episode}"))], vec![]),
                    };
                    let reference = if from_process {
                        // Set by a process that ends at once: the timer does not end with it.
                        let r = in_process(async move { Process::send_after(dests, note, d) }).await.unwrap();
                        r
                    } else if form == 0 {
                        Process::send_after(pids[p], note, d)
                    } else {
                        Process::send_after(dests, note, d)
                    };
                    trace.push(format!("timer {id} {d:?} form {form} to {to:?}"));
                    cover(&("set", form, d.as_millis().min(100), from_process));
                    timers.push(T { id, text, reference, set, due: set + d, to, name: by_name, cancelled: None });
                }
                5 | 6 => {
                    if timers.is_empty() {
                        continue;
                    }
                    let t = rng.usize(timers.len());
                    Process::cancel_timer(timers[t].reference);
                    let now = Instant::now();
                    trace.push(format!("cancel {} at {:?}", timers[t].id, now - start));
                    if timers[t].cancelled.is_none() {
                        timers[t].cancelled = Some(now);
                        cover(&("cancel", now < timers[t].due));
                    }
                    check(Process::read_timer(timers[t].reference).is_none(), "timer-read-after-cancel", || {
                        json!({"history": trace.snapshot()})
                    });
                }
                7 => {
                    for t in &timers {
                        let read = Process::read_timer(t.reference);
                        let now = Instant::now();
                        if t.cancelled.is_some() || now >= t.due + slack * 2 {
                            check(read.is_none(), "timer-read-when-done", || {
                                json!({"timer": t.id, "read": format!("{read:?}"), "history": trace.snapshot()})
                            });
                        } else if now + Duration::from_millis(1) < t.due {
                            check(read.is_some_and(|left| left <= t.due - t.set), "timer-read-when-pending", || {
                                json!({"timer": t.id, "read": format!("{read:?}"), "left": format!("{:?}", t.due - now),
                                       "history": trace.snapshot()})
                            });
                        }
                    }
                }
                8 if died.is_none() && n > 1 && rng.chance(1, 4) => {
                    kill(pids[n - 1]);
                    quiesce().await;
                    died = Some((n - 1, Instant::now()));
                    trace.push(format!("receiver {} dies", n - 1));
                }
                _ => {
                    let d = delay(&mut rng) / if rng.bool() { 1 } else { 4 };
                    let before = Instant::now();
                    Process::sleep(d).await;
                    let took = before.elapsed();
                    check(took >= d && took <= d + slack, "sleep-length", || {
                        json!({"asked": format!("{d:?}"), "took": format!("{took:?}")})
                    });
                    quiesce().await;
                    trace.push(format!("time {:?}", Instant::now() - start));
                }
            }
        }
        let last = timers.iter().map(|t| t.due).max().unwrap_or(start);
        let now = Instant::now();
        if last > now {
            tokio::time::sleep(last - now).await;
        }
        tokio::time::sleep(Duration::from_secs(60)).await;
        for (p, log) in logs.iter().enumerate() {
            let got = log.snapshot();
            let mut count: BTreeMap<u64, Vec<Instant>> = BTreeMap::new();
            for (id, text, at) in &got {
                let t = timers.iter().find(|t| t.id == *id);
                check(t.is_some_and(|t| t.text == *text), "timer-message-changed", || json!({"id": id, "text": text}));
                count.entry(*id).or_default().push(*at);
            }
            for t in &timers {
                let at = count.remove(&t.id).unwrap_or_default();
                let entries = t.to.iter().filter(|q| **q == p).count();
                let detail = || {
                    json!({"timer": format!("{t:?}"), "receiver": p,
                           "arrivals": at.iter().map(|a| format!("{:?}", *a - start)).collect::<Vec<_>>(),
                           "due": format!("{:?}", t.due - start), "cancelled": t.cancelled.map(|c| format!("{:?}", c - start)),
                           "history": trace.snapshot()})
                };
                check(at.iter().all(|a| *a >= t.due), "timer-early", detail);
                check(at.iter().all(|a| *a <= t.due + slack), "timer-late", detail);
                check(at.len() <= entries, "timer-twice", detail);
                // A cancellation or death close to the due time may go either way.
                let close = |x: Instant| x + slack >= t.due && x <= t.due + slack;
                let receiver_dead = died.is_some_and(|(q, when)| q == p && when <= t.due + slack);
                match t.cancelled {
                    Some(c) if close(c) => {}
                    Some(c) if c < t.due => {
                        check(at.is_empty(), "timer-after-cancel", detail);
                    }
                    _ if receiver_dead => {}
                    _ => {
                        check(at.len() == entries, "timer-lost", detail);
                    }
                }
                let _ = t.name;
            }
            // Clearly different due times arrive in that order.
            let due = |id: &u64| timers.iter().find(|t| t.id == *id).map(|t| t.due).unwrap();
            for w in got.windows(2) {
                check(due(&w[0].0) <= due(&w[1].0) + slack, "timer-order", || json!({"history": trace.snapshot()}));
            }
        }
        for t in &timers {
            check(Process::read_timer(t.reference).is_none(), "timer-stays", || json!({"timer": t.id, "history": trace.snapshot()}));
        }
        count("timers", timers.len() as u64);
        for p in pids {
            kill(p);
        }
    });
    cover(&hash_of(&steps.snapshot()));
    sample("history", || json!(steps.snapshot()));
    evaluated(1);
}

/// Time limits on virtual time.
fn limits(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    virtual_time(async move {
        for _ in 0..30 {
            let limit = delay(&mut rng);
            let work = match rng.below(5) {
                0 => Some(Duration::ZERO),
                1 => None,
                2 => Some(limit / 2),
                3 => Some(limit + Duration::from_millis(rng.range(5, 500))),
                _ => Some(delay(&mut rng)),
            };
            let value = rng.next();
            let start = Instant::now();
            let kind = rng.below(3);
            let result: Result<u64, ()> = match kind {
                0 => Process::timeout(limit, async move {
                    match work {
                        Some(d) if d.is_zero() => {}
                        Some(d) => Process::sleep(d).await,
                        None => forever().await,
                    }
                    value
                })
                .await
                .map_err(|_| ()),
                1 => in_process(async move {
                    if let Some(d) = work {
                        Process::send_after(Process::current(), Note(value, String::new()), d);
                    }
                    Process::timeout(limit, Process::receiver().for_message::<Note>().receive())
                        .await
                        .map(|m| match m {
                            Message::User(Note(n, _)) => n,
                            _ => 0,
                        })
                        .map_err(|_| ())
                })
                .await
                .unwrap(),
                _ => {
                    // A limit inside a longer one.
                    Process::timeout(limit * 3 + Duration::from_secs(1), Process::timeout(limit, async move {
                        match work {
                            Some(d) if d.is_zero() => {}
                            Some(d) => Process::sleep(d).await,
                            None => forever().await,
                        }
                        value
                    }))
                    .await
                    .unwrap_or(Err(Timeout))
                    .map_err(|_| ())
                }
            };
            let took = start.elapsed();
            let slack = Duration::from_millis(if kind == 1 { 4 } else { 3 });
            let detail = || {
                json!({"limit": format!("{limit:?}"), "work": format!("{work:?}"), "took": format!("{took:?}"), "ok": result.is_ok(), "kind": kind})
            };
            match (&result, work) {
                (Ok(v), Some(w)) => {
                    check(*v == value, "timeout-value", detail);
                    check(w <= limit + slack, "timeout-not-applied", detail);
                    check(took <= w + slack, "timeout-result-late", detail);
                }
                (Ok(_), None) => violation("timeout-not-applied", detail()),
                (Err(()), w) => {
                    check(took >= limit, "timeout-early", detail);
                    check(took <= limit + slack, "timeout-late", detail);
                    if let Some(w) = w {
                        check(w + slack >= limit && !(w.is_zero() && kind != 1), "timeout-despite-result", detail);
                    }
                }
            }
            cover(&(result.is_ok(), limit.as_millis().min(50), work.map(|w| w.as_millis().min(50)), kind));
            evaluated(1);
        }
    });
}

/// Short timers on real threads: cancelling, firing and reading at the same moment.
fn race(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let rt = runtime_threads(*rng.pick(&[2, 4, 8]));
    if rng.chance(1, 3) {
        // Long enough for a whole timer to pass between two steps of setting it.
        chaos_set(rng, 12000, 5000);
    } else {
        chaos(rng);
    }
    let mut fork = rng.fork();
    rt.block_on(async move {
        let rng = &mut fork;
        let log: Log<(u64, std::time::Instant)> = Log::new();
        let l = log.clone();
        let target = Process::spawn(async move {
            loop {
                if let Message::User(Note(n, _)) = Process::receiver().for_message::<Note>().receive().await {
                    l.push((n, std::time::Instant::now()));
                }
            }
        });
        let n = rng.range(1, 24);
        struct R {
            id: u64,
            reference: Reference,
            earliest: std::time::Instant,
            latest: std::time::Instant,
            cancelled: Option<(std::time::Instant, std::time::Instant)>,
        }
        let mut joins = Vec::new();
        for id in 0..n {
            let d = Duration::from_micros(*rng.pick(&[0, 0, 0, 200, 900, 1000, 1500, 3000]));
            let cancel = rng.chance(1, 2).then(|| rng.below(4000));
            let spin = rng.below(1500);
            let outside = rng.bool();
            let set = move || {
                for _ in 0..spin {
                    std::hint::spin_loop();
                }
                let before = std::time::Instant::now();
                let reference = Process::send_after(target, Note(id, String::new()), d);
                let after = std::time::Instant::now();
                let left = Process::read_timer(reference);
                let mut bad = None;
                if let Some(left) = left {
                    if left > d {
                        bad = Some(format!("read {left:?} of {d:?}"));
                    }
                } else if after.elapsed() + Duration::from_micros(200) < d && before.elapsed() < d {
                    bad = Some(format!("read nothing of {d:?}"));
                }
                let mut cancelled = None;
                if let Some(us) = cancel {
                    let until = before + Duration::from_micros(us);
                    while std::time::Instant::now() < until {
                        std::thread::yield_now();
                    }
                    let call = std::time::Instant::now();
                    Process::cancel_timer(reference);
                    cancelled = Some((call, std::time::Instant::now()));
                }
                (R { id, reference, earliest: before + d, latest: after + d, cancelled }, bad)
            };
            // From a thread of the runtime, or from one outside, whose tasks start elsewhere at once.
            if outside {
                joins.push(tokio::task::spawn_blocking(set));
            } else {
                joins.push(tokio::spawn(async move { set() }));
            }
        }
        let mut all = Vec::new();
        for j in joins {
            let (r, bad) = j.await.unwrap();
            if let Some(bad) = bad {
                violation("timer-read-value", json!(bad));
            }
            all.push(r);
        }
        let expect: Vec<u64> = all.iter().filter(|r| r.cancelled.is_none()).map(|r| r.id).collect();
        let l = log.clone();
        let ok = eventually(|| expect.iter().all(|id| l.any(|(n, _)| n == id))).await;
        check(ok, "timer-lost", || json!({"expected": expect, "got": log.snapshot().iter().map(|x| x.0).collect::<Vec<_>>()}));
        for r in &all {
            let reference = r.reference;
            let ok = eventually(|| Process::read_timer(reference).is_none()).await;
            check(ok, "timer-stays", || json!({"read": format!("{:?}", Process::read_timer(reference)), "cancelled": r.cancelled.is_some()}));
        }
        tokio::time::sleep(Duration::from_millis(1)).await;
        let got = log.snapshot();
        let mut shape = Vec::new();
        for r in &all {
            let times: Vec<std::time::Instant> = got.iter().filter(|(n, _)| *n == r.id).map(|x| x.1).collect();
            check(times.len() <= 1, "timer-twice", || json!({"id": r.id}));
            check(times.iter().all(|t| *t >= r.earliest), "timer-early", || json!({"id": r.id}));
            if let Some((_, ret)) = r.cancelled {
                // Cancelled for good before it was due.
                check(!(ret < r.earliest && !times.is_empty()), "timer-after-cancel", || json!({"id": r.id}));
                shape.push((times.len(), ret < r.latest));
            }
        }
        count("timers", all.len() as u64);
        cover(&shape);
        evaluated(1);
        kill(target);
    });
    rt.shutdown_background();
}

/// Real time, so that the real clock source of limits is observed too.
fn real(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let rt = runtime_threads(2);
    let mut fork = rng.fork();
    rt.block_on(async move {
        let rng = &mut fork;
        let mut joins = Vec::new();
        for _ in 0..40 {
            let limit = Duration::from_millis(rng.range(0, 60));
            let quick = rng.bool();
            let value = rng.next();
            let wait = rng.below(2);
            joins.push(tokio::spawn(async move {
                let start = std::time::Instant::now();
                if quick {
                    let long = limit + Duration::from_secs(30);
                    let r = Process::timeout(long, async move {
                        if wait == 1 {
                            Process::sleep(limit).await;
                        }
                        value
                    })
                    .await;
                    check(r.ok() == Some(value), "timeout-value", || json!({"long": format!("{long:?}")}));
                } else {
                    let r = Process::timeout(limit, forever()).await;
                    check(r.is_err(), "timeout-not-applied", || json!({}));
                    let took = start.elapsed();
                    // The timer crate counts in whole milliseconds.
                    check(took + Duration::from_millis(2) >= limit, "timeout-early", || json!({"limit": format!("{limit:?}"), "took": format!("{took:?}")}));
                }
                let d = Duration::from_millis(wait * 7);
                let start = std::time::Instant::now();
                Process::sleep(d).await;
                check(start.elapsed() >= d, "sleep-length", || json!({"asked": format!("{d:?}")}));
                // What is left of a long timer, read over time.
                let total = Duration::from_secs(1000);
                let before = std::time::Instant::now();
                let t = Process::send_after(Process::spawn(async {}), Note(0, String::new()), total);
                let mut last = total;
                for _ in 0..3 {
                    let lower = before.elapsed();
                    let left = Process::read_timer(t);
                    let upper = before.elapsed();
                    let ok = left.is_some_and(|l| l <= last && l + upper + Duration::from_millis(1) >= total && l <= total);
                    let _ = lower;
                    check(ok, "timer-read-value", || json!({"left": format!("{left:?}"), "passed": format!("{upper:?}")}));
                    last = left.unwrap_or(last);
                    Process::sleep(Duration::from_millis(3)).await;
                    check(last + Duration::from_millis(1) <= total + Duration::from_millis(1), "timer-read-value", || json!({}));
                }
                // At least the time slept has gone by.
                let left = Process::read_timer(t).unwrap_or(total);
                check(left <= total - Duration::from_millis(6), "timer-read-value", || json!({"left": format!("{left:?}"), "after": "6ms"}));
                Process::cancel_timer(t);
                check(Process::read_timer(t).is_none(), "timer-read-after-cancel", || json!({}));
            }));
        }
        for j in joins {
            j.await.ok();
        }
        evaluated(40);
    });
    cover(&("real", ep.index.min(20)));
    rt.shutdown_background();
}

fn main() {
    run("C09", &[scenario("timers", 4, timers), scenario("limits", 2, limits), scenario("race", 4, race), scenario("real", 1, real)]);
}
