//! C02: selective receive against a sequential mailbox model, and its conservation and order laws
//! under concurrent senders, cancelled waits and removal.
use std::sync::{Arc, Mutex};
use std::time::Duration;

use hv::*;
use hydra::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct A {
    a: u64,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct B {
    b: u64,
    more: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum C {
    C { c: u64 },
}

trait Kind: Receivable + Clone {
    const K: u8;
    fn make(v: u64) -> Self;
    fn value(&self) -> u64;
}
impl Kind for A {
    const K: u8 = 0;
    fn make(v: u64) -> Self {
        A { a: v }
    }
    fn value(&self) -> u64 {
        self.a
    }
}
impl Kind for B {
    const K: u8 = 1;
    fn make(v: u64) -> Self {
        B { b: v, more: vec![v as u8; (v % 5) as usize] }
    }
    fn value(&self) -> u64 {
        self.b
    }
}
impl Kind for C {
    const K: u8 = 2;
    fn make(v: u64) -> Self {
        C::C { c: v }
    }
    fn value(&self) -> u64 {
        match self {
            C::C { c } => *c,
        }
    }
}

/// What the model keeps: kind (3 = system) and unique value.
type Item = (u8, u64);

fn send_kind(dest: Pid, dead: Pid, kind: u8, v: u64, serialized: bool) {
    fn go<T: Kind>(dest: Pid, dead: Pid, v: u64, serialized: bool) {
        if serialized {
            // Only the first local destination gets the value itself.
            Process::send(vec![dead, dest], T::make(v));
        } else {
            Process::send(dest, T::make(v));
        }
    }
    match kind {
        0 => go::<A>(dest, dead, v, serialized),
        1 => go::<B>(dest, dead, v, serialized),
        _ => go::<C>(dest, dead, v, serialized),
    }
}

#[derive(Clone, Copy, Debug)]
struct Filter {
    modulus: u64,
    rest: u64,
    system: bool,
    all: bool,
}

impl Filter {
    fn random(rng: &mut Rng) -> Self {
        let modulus = rng.range(1, 4);
        Filter { modulus, rest: rng.below(modulus), system: rng.bool(), all: rng.chance(1, 3) }
    }
    fn value(&self, v: u64) -> bool {
        self.all || v % self.modulus == self.rest
    }
    fn system(&self) -> bool {
        self.all || self.system
    }
    fn item(&self, kind: u8, item: &Item) -> bool {
        if item.0 == 3 {
            self.system()
        } else {
            item.0 == kind && self.value(item.1)
        }
    }
    fn message<T: Kind>(&self, m: &Message<&T>) -> bool {
        match m {
            Message::User(u) => self.value(u.value()),
            Message::System(_) => self.system(),
        }
    }
}

fn item_of<T: Kind>(m: Message<T>) -> Item {
    match m {
        Message::User(u) => (T::K, u.value()),
        Message::System(SystemMessage::Exit(_, ExitReason::Custom(s))) => (3, s.parse().unwrap_or(u64::MAX)),
        Message::System(_) => (3, u64::MAX),
    }
}

async fn select_kind<T: Kind>(f: Filter, how: u64, wait: Duration) -> Option<Item> {
    let receiver = Process::receiver().for_message::<T>();
    let result = if f.all && how == 0 {
        Process::timeout(wait, receiver.receive()).await.ok()
    } else if how == 1 {
        tokio::time::timeout(wait, receiver.select(move |m| f.message(&m))).await.ok()
    } else {
        Process::timeout(wait, receiver.select(move |m| f.message(&m))).await.ok()
    };
    result.map(item_of)
}

async fn run_select(kind: u8, f: Filter, how: u64, wait: Duration) -> Option<Item> {
    match kind {
        0 => select_kind::<A>(f, how, wait).await,
        1 => select_kind::<B>(f, how, wait).await,
        _ => select_kind::<C>(f, how, wait).await,
    }
}

fn run_remove(kind: u8, f: Filter) {
    match kind {
        0 => Process::receiver().for_message::<A>().remove(move |m| f.message(m)),
        1 => Process::receiver().for_message::<B>().remove(move |m| f.message(m)),
        _ => Process::receiver().for_message::<C>().remove(move |m| f.message(m)),
    }
}

/// One process, one mailbox, random operations in virtual time, exact model.
fn model(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let steps = rng.range(8, 60);
    let history: Log<String> = Log::new();
    let h = history.clone();
    let finished = virtual_time(async move {
        let dead = Process::spawn(async {});
        quiesce().await;
        let (tx, rx) = tokio::sync::oneshot::channel();
        Process::spawn(async move {
            let me = Process::current();
            Process::set_flags(ProcessFlags::TRAP_EXIT);
            let mut model: Vec<Item> = Vec::new();
            let mut next = 0u64;
            let mut ok = true;
            for _ in 0..steps {
                match rng.below(10) {
                    // Messages from this very process, at once.
                    0..=2 => {
                        for _ in 0..rng.range(1, 4) {
                            let kind = rng.below(3) as u8;
                            let serialized = rng.bool();
                            next += 1;
                            send_kind(me, dead, kind, next, serialized);
                            model.push((kind, next));
                            h.push(format!("send {kind} {next} ser={serialized}"));
                        }
                    }
                    // An exit signal.
                    3 => {
                        next += 1;
                        let v = next;
                        let (tx, rx) = tokio::sync::oneshot::channel();
                        Process::spawn(async move {
                            Process::exit(me, v.to_string());
                            tx.send(()).ok();
                        });
                        let _ = rx.await;
                        model.push((3, v));
                        h.push(format!("signal {v}"));
                    }
                    4 => {
                        let f = Filter::random(&mut rng);
                        let kind = rng.below(3) as u8;
                        run_remove(kind, f);
                        model.retain(|i| !f.item(kind, i));
                        h.push(format!("remove {kind} {f:?}"));
                    }
                    // A select; sometimes messages arrive while it waits.
                    _ => {
                        let f = Filter::random(&mut rng);
                        let kind = rng.below(3) as u8;
                        let how = rng.below(3);
                        let mut late = Vec::new();
                        if rng.bool() {
                            for i in 0..rng.range(1, 5) {
                                next += 1;
                                late.push((i, rng.below(3) as u8, next, rng.bool()));
                            }
                            let list = late.clone();
                            Process::spawn(async move {
                                for (i, kind, v, ser) in list {
                                    tokio::time::sleep(Duration::from_millis(2 * i + 1)).await;
                                    send_kind(me, dead, kind, v, ser);
                                }
                            });
                        }
                        // Virtual milliseconds: arrival i happens after sum(2k+1) = (i+1)^2.
                        let wait = rng.range(0, 40);
                        let started = tokio::time::Instant::now();
                        let got = run_select(kind, f, how, Duration::from_millis(wait)).await;
                        let took = started.elapsed().as_millis() as u64;
                        h.push(format!("select {kind} {f:?} late={late:?} wait={wait} -> {got:?} after {took}"));
                        // What the model says.
                        let mut expected = model.iter().position(|i| f.item(kind, i));
                        let mut at = 0;
                        let mut ambiguous = false;
                        if expected.is_none() {
                            for (i, (_, k, v, _)) in late.iter().enumerate() {
                                if f.item(kind, &(*k, *v)) {
                                    at = (i as u64 + 1) * (i as u64 + 1);
                                    ambiguous = at == wait;
                                    if at <= wait {
                                        expected = Some(model.len() + i);
                                    }
                                    break;
                                }
                            }
                        }
                        for (_, k, v, _) in &late {
                            model.push((*k, *v));
                        }
                        let want = expected.map(|i| model[i]);
                        if got != want && !(ambiguous && got.is_none()) {
                            violation(
                                "select-result",
                                json!({"expected": want, "got": got, "history": h.snapshot()}),
                            );
                            ok = false;
                        }
                        // Virtual time: returns as soon as the message is there, or exactly at the end.
                        let due = if got.is_some() { at } else { wait };
                        if ok && took > due + 1 {
                            violation("select-late", json!({"due": due, "took": took, "history": h.snapshot()}));
                            ok = false;
                        }
                        if let Some(g) = got {
                            if let Some(i) = model.iter().position(|i| *i == g) {
                                model.remove(i);
                            }
                        }
                        cover(&("select", kind, f.all, f.system, expected.map(|e| e.min(6)), late.len(), how));
                        // Let every late message arrive.
                        tokio::time::sleep(Duration::from_millis(200)).await;
                    }
                }
                if !ok {
                    break;
                }
            }
            // Drain in order and compare with what the model says is left.
            let mut left = Vec::new();
            if ok {
                let all = Filter { modulus: 1, rest: 0, system: true, all: true };
                for kind in [rng.below(3) as u8, 0, 1, 2] {
                    while let Some(i) = run_select(kind, all, 2, Duration::from_millis(1)).await {
                        left.push(i);
                    }
                }
                for k in 0..4u8 {
                    let a: Vec<_> = left.iter().filter(|i| i.0 == k).collect();
                    let b: Vec<_> = model.iter().filter(|i| i.0 == k).collect();
                    if a != b {
                        violation(
                            "mailbox-content",
                            json!({"kind": k, "expected": b, "got": a, "history": h.snapshot()}),
                        );
                    }
                }
                let info = Process::info(me).map(|i| i.message_queue_len);
                check(info == Some(0), "queue-length", || json!(info));
            }
            tx.send(()).ok();
        });
        rx.await.is_ok()
    });
    check(finished, "receiver-died", || json!(history.snapshot()));
    cover(&hash_of(&history.snapshot()));
    sample("history", || json!(history.snapshot().iter().take(10).collect::<Vec<_>>()));
    count("operations", steps);
    evaluated(1);
}

/// Strict receivers panic on a foreign type, lenient ones leave it alone.
fn strict(ep: &mut Ep) {
    allow_panic("Unsupported message type!");
    let mut rng = ep.rng.fork();
    virtual_time(async move {
        let dead = Process::spawn(async {});
        quiesce().await;
        for serialized in [false, true] {
            for mode in 0..4u8 {
                let log: Log<String> = Log::new();
                let l = log.clone();
                let pid = Process::spawn(async move {
                    match mode {
                        0 => {
                            let _ = Process::receive::<A>().await;
                            l.push("got".into());
                            let _ = Process::receive::<A>().await;
                            l.push("wrong".into());
                        }
                        1 => {
                            let _ = Process::receiver().strict_type_checking().for_message::<A>().receive().await;
                            l.push("got".into());
                            let _ = Process::receiver().strict_type_checking().for_message::<A>().receive().await;
                            l.push("wrong".into());
                        }
                        2 => {
                            let _ = Process::receiver().for_message::<A>().receive().await;
                            l.push("got".into());
                            let _ = Process::receiver().for_message::<A>().receive().await;
                            l.push("wrong".into());
                        }
                        _ => {
                            // Skips what it does not understand, then takes both kinds in any order.
                            let _ = Process::receiver().for_message::<C>().receive().await;
                            let _ = Process::receiver().for_message::<B>().receive().await;
                            let _ = Process::receiver().for_message::<A>().receive().await;
                            l.push("got".into());
                            tokio::time::sleep(Duration::from_secs(1_000_000)).await;
                        }
                    }
                });
                let watch = Log::new();
                let w = watch.clone();
                Process::spawn(async move {
                    Process::monitor(pid);
                    if let Message::System(SystemMessage::ProcessDown(_, _, r)) = Process::receive::<()>().await {
                        w.push(format!("{r:?}"));
                    }
                });
                quiesce().await;
                let v = rng.next();
                send_kind(pid, dead, 0, v, serialized);
                quiesce().await;
                send_kind(pid, dead, 1, v, serialized);
                send_kind(pid, dead, 2, v, serialized);
                quiesce().await;
                let seen = log.snapshot();
                let down = watch.snapshot();
                check(seen == vec!["got".to_string()], "strict-receive", || {
                    json!({"mode": mode, "serialized": serialized, "log": seen, "down": down})
                });
                let should_die = mode < 2;
                check(down.len() == should_die as usize, "strict-receive-death", || {
                    json!({"mode": mode, "serialized": serialized, "down": down})
                });
                cover(&("strict", mode, serialized));
                evaluated(1);
            }
        }
    });
}

/// Concurrent senders; a receiver that mixes selective receives, cancelled waits and removal.
fn concurrent(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let rt = runtime(rng);
    chaos(rng);
    let senders = rng.range(1, 4);
    let per = rng.range(5, 40);
    let mut fork = rng.fork();
    rt.block_on(async move {
        let rng = &mut fork;
        let dead = Process::spawn(async {});
        eventually(|| !Process::alive(dead)).await;
        // (kind, value) where value = sender * 1000 + seq
        let consumed: Log<(u8, u64, String)> = Log::new();
        let removed: Arc<Mutex<Vec<u64>>> = Arc::default();
        let total = (senders * per) as usize;
        let log = consumed.clone();
        let rem = removed.clone();
        let mut r2 = rng.fork();
        let (done_tx, mut done_rx) = tokio::sync::mpsc::unbounded_channel::<()>();
        let receiver = Process::spawn(async move {
            loop {
                let f = Filter { system: false, ..Filter::random(&mut r2) };
                let kind = r2.below(3) as u8;
                if r2.chance(1, 12) {
                    let seen = rem.clone();
                    let keep = move |v: u64| {
                        if f.value(v) && v % 7 == 0 {
                            seen.lock().unwrap().push(v);
                            true
                        } else {
                            false
                        }
                    };
                    fn rm<T: Kind>(mut keep: impl FnMut(u64) -> bool + Send) {
                        Process::receiver().for_message::<T>().remove(move |m| match m {
                            Message::User(u) => keep(u.value()),
                            _ => false,
                        });
                    }
                    match kind {
                        0 => rm::<A>(keep),
                        1 => rm::<B>(keep),
                        _ => rm::<C>(keep),
                    }
                    let _ = done_tx.send(());
                    continue;
                }
                let wait = Duration::from_micros(*r2.pick(&[0, 50, 300, 1500]));
                let how = 1 + r2.below(2);
                let got = if r2.chance(1, 6) {
                    // Dropped after a single poll.
                    let fut = run_select(kind, f, how, wait);
                    tokio::pin!(fut);
                    tokio::select! {
                        biased;
                        g = &mut fut => g,
                        _ = tokio::task::yield_now() => None,
                    }
                } else {
                    run_select(kind, f, how, wait).await
                };
                match got {
                    Some(g) => {
                        log.push((g.0, g.1, format!("{f:?}")));
                        let _ = done_tx.send(());
                    }
                    // Nothing may ever be pending: every poll could be ready at once.
                    None => tokio::task::yield_now().await,
                }
            }
        });
        for s in 0..senders {
            let mut rng = rng.fork();
            tokio::spawn(async move {
                for i in 0..per {
                    send_kind(receiver, dead, rng.below(3) as u8, s * 1000 + i, rng.bool());
                    if rng.chance(1, 5) {
                        tokio::time::sleep(Duration::from_micros(rng.below(200))).await;
                    }
                }
            });
        }
        let (l, r) = (consumed.clone(), removed.clone());
        let complete = eventually(|| {
            while done_rx.try_recv().is_ok() {}
            l.len() + r.lock().unwrap().len() >= total
        })
        .await;
        let items = consumed.snapshot();
        let gone = removed.lock().unwrap().clone();
        check(complete, "lost-in-selective-receive", || {
            let mut have: Vec<u64> = items.iter().map(|i| i.1).chain(gone.iter().copied()).collect();
            have.sort();
            json!({"expected": total, "have": have})
        });
        let mut all: Vec<u64> = items.iter().map(|i| i.1).chain(gone.iter().copied()).collect();
        all.sort();
        let len = all.len();
        all.dedup();
        check(len == all.len() && len <= total, "duplicated-in-selective-receive", || json!({"items": items}));
        // Per sender and kind, consumption by `select` that matches everything of that kind is in order;
        // in general a later message may overtake only one that its filter rejects.
        for (i, a) in items.iter().enumerate() {
            let f = &a.2;
            for b in items[i + 1..].iter() {
                if b.0 == a.0 && b.1 / 1000 == a.1 / 1000 && b.1 < a.1 {
                    // a overtook b although b was in the mailbox first: b must not match a's filter.
                    let parsed = parse_filter(f);
                    check(!parsed.value(b.1), "overtaken", || json!({"first": a, "second": b}));
                }
            }
        }
        cover(&("concurrent", hash_of(&items.iter().map(|i| i.1).collect::<Vec<_>>())));
        count("messages", total as u64);
        evaluated(1);
        tokio::spawn(PROC_KILL(receiver));
    });
}

fn parse_filter(s: &str) -> Filter {
    let num = |key: &str| -> u64 {
        let at = s.find(key).unwrap() + key.len();
        s[at..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()
    };
    Filter { modulus: num("modulus: "), rest: num("rest: "), system: false, all: s.contains("all: true") }
}

#[allow(non_snake_case)]
async fn PROC_KILL(pid: Pid) {
    Process::spawn(async move {
        Process::exit(pid, ExitReason::Kill);
    });
}

fn main() {
    run(
        "C02",
        &[scenario("model", 8, model), scenario("concurrent", 3, concurrent), scenario("strict", 1, strict)],
    );
}
