//! C08: aliases. Deliver while active, once if one-shot, never afterwards; removal is truthful and only the
//! owner's; references are unique.
use std::collections::{BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;

use hv::*;
use hydra::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Note(u64);

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Carry(Reference);

/// A type nothing sent here can be mistaken for.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
struct Nothing {
    nothing_of_the_kind: String,
}

enum Cmd {
    Alias(bool),
    Unalias(Reference),
    /// What has no business with aliases, and leaves them alone.
    Misuse(Reference, u64),
    Drain,
    Wait,
    /// Sends its alias in a message to the process, which uses the copy.
    Pass(Pid, Reference),
    UseCopy(u64),
}

enum Answer {
    Ref(Reference),
    Flag(bool),
    Notes(Vec<u64>),
    Done,
}

type Orders = tokio::sync::mpsc::UnboundedReceiver<(Cmd, tokio::sync::oneshot::Sender<Answer>)>;

async fn owner(mut orders: Orders) {
    while let Some((cmd, tx)) = orders.recv().await {
        let answer = match cmd {
            Cmd::Alias(reply) => Answer::Ref(Process::alias(reply)),
            Cmd::Unalias(r) => Answer::Flag(Process::unalias(r)),
            Cmd::Misuse(r, how) => {
                match how {
                    0 => Process::demonitor(r),
                    1 => Process::cancel_timer(r),
                    2 => Node::demonitor(r),
                    _ => {
                        check(Process::read_timer(r).is_none(), "alias-is-timer", || json!(format!("{r:?}")));
                    }
                }
                Answer::Done
            }
            Cmd::Drain => {
                let mut out = Vec::new();
                while let Some(m) = ready_message::<Note>().await {
                    if let Message::User(Note(n)) = m {
                        out.push(n);
                    }
                }
                Answer::Notes(out)
            }
            Cmd::Wait => {
                // A receive that finds nothing and is dropped.
                let fut = Process::receiver().for_message::<Nothing>().receive();
                let _ = tokio::time::timeout(std::time::Duration::ZERO, fut).await;
                Answer::Done
            }
            Cmd::Pass(to, r) => {
                Process::send(vec![Dest::from(to), Dest::from(to)], Carry(r));
                Answer::Done
            }
            Cmd::UseCopy(n) => {
                let mut used = false;
                while let Some(m) = ready_message::<Carry>().await {
                    if let Message::User(Carry(r)) = m {
                        if !used {
                            Process::send(r, Note(n));
                        }
                        used = true;
                    }
                }
                Answer::Flag(used)
            }
        };
        tx.send(answer).ok();
    }
}

struct P {
    pid: Pid,
    tx: tokio::sync::mpsc::UnboundedSender<(Cmd, tokio::sync::oneshot::Sender<Answer>)>,
    mailbox: Vec<u64>,
    alive: bool,
    carried: Option<Reference>,
}

impl P {
    fn new() -> P {
        let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
        P { pid: Process::spawn(owner(rx)), tx, mailbox: vec![], alive: true, carried: None }
    }
    async fn ask(&self, cmd: Cmd) -> Option<Answer> {
        let (tx, rx) = tokio::sync::oneshot::channel();
        self.tx.send((cmd, tx)).ok()?;
        rx.await.ok()
    }
}

struct A {
    reference: Reference,
    owner: usize,
    reply: bool,
    active: bool,
}

fn model(ep: &mut Ep) {
    let mut rng = ep.rng.fork();
    let steps: Log<String> = Log::new();
    let trace = steps.clone();
    virtual_time(async move {
        let mut ps: Vec<P> = (0..rng.range(1, 4)).map(|_| P::new()).collect();
        let mut aliases: Vec<A> = Vec::new();
        let mut note = 0;
        for _ in 0..rng.range(5, 70) {
            let p = rng.usize(ps.len());
            match rng.below(16) {
                14 | 15 => {
                    let Some(a) = (!aliases.is_empty()).then(|| rng.usize(aliases.len())) else { continue };
                    let how = rng.below(4);
                    ps[p].ask(Cmd::Misuse(aliases[a].reference, how)).await;
                    trace.push(format!("p{p} misuses {:?} {how}", aliases[a].reference));
                    cover(&("misuse", how, aliases[a].owner == p, aliases[a].active));
                }
                0..=2 => {
                    let reply = rng.bool();
                    let Some(Answer::Ref(reference)) = ps[p].ask(Cmd::Alias(reply)).await else { continue };
                    trace.push(format!("p{p} aliases {reference:?} reply {reply}"));
                    check(!aliases.iter().any(|a| a.reference == reference), "alias-not-unique", || json!(trace.snapshot()));
                    aliases.push(A { reference, owner: p, reply, active: true });
                }
                3..=7 => {
                    if aliases.is_empty() {
                        continue;
                    }
                    let a = if rng.chance(3, 4) { aliases.len() - 1 - rng.usize(aliases.len().min(4)) } else { rng.usize(aliases.len()) };
                    note += 1;
                    let r = aliases[a].reference;
                    let mut times = 1;
                    let how = rng.below(4);
                    match how {
                        0 => Process::send(r, Note(note)),
                        1 => Process::send(Dest::from(r), Note(note)),
                        2 => Process::send(vec![Dest::from(r)], Note(note)),
                        _ => {
                            times = rng.range(2, 3);
                            let list: Vec<Dest> = (0..times).map(|_| Dest::from(r)).collect();
                            Process::send(list, Note(note));
                        }
                    }
                    trace.push(format!("note {note} x{times} to {r:?}"));
                    let o = aliases[a].owner;
                    cover(&("send", how, aliases[a].reply, aliases[a].active, ps[o].alive));
                    for _ in 0..times {
                        if aliases[a].active && ps[o].alive {
                            ps[o].mailbox.push(note);
                            if aliases[a].reply {
                                aliases[a].active = false;
                            }
                        }
                    }
                }
                8 | 9 => {
                    if aliases.is_empty() {
                        continue;
                    }
                    let a = rng.usize(aliases.len());
                    let by = if rng.chance(2, 3) { aliases[a].owner } else { p };
                    let r = aliases[a].reference;
                    let Some(Answer::Flag(was)) = ps[by].ask(Cmd::Unalias(r)).await else { continue };
                    let own = aliases[a].owner == by;
                    let want = own && aliases[a].active;
                    trace.push(format!("p{by} unaliases {r:?} -> {was}"));
                    cover(&("unalias", own, aliases[a].active, aliases[a].reply));
                    if !check(was == want, "unalias-result", || {
                        json!({"said": was, "expected": want, "own": own, "history": trace.snapshot()})
                    }) {
                        return;
                    }
                    if own {
                        aliases[a].active = false;
                    }
                }
                10 => {
                    let Some(Answer::Notes(got)) = ps[p].ask(Cmd::Drain).await else { continue };
                    trace.push(format!("p{p} drains {got:?}"));
                    if !check(got == ps[p].mailbox, "alias-mailbox", || {
                        json!({"got": got, "want": ps[p].mailbox, "history": trace.snapshot()})
                    }) {
                        return;
                    }
                    ps[p].mailbox.clear();
                }
                11 => {
                    ps[p].ask(Cmd::Wait).await;
                }
                12 => {
                    // The reference travels in a message and is used by whoever got it.
                    let Some(a) = aliases.iter().rposition(|a| a.owner == p) else { continue };
                    let q = rng.usize(ps.len());
                    if !ps[p].alive || !ps[q].alive {
                        continue;
                    }
                    let r = aliases[a].reference;
                    let to = ps[q].pid;
                    ps[p].ask(Cmd::Pass(to, r)).await;
                    quiesce().await;
                    note += 1;
                    let Some(Answer::Flag(true)) = ps[q].ask(Cmd::UseCopy(note)).await else {
                        violation("alias-copy-lost", json!(trace.snapshot()));
                        return;
                    };
                    ps[q].carried = Some(r);
                    trace.push(format!("p{p} passes {r:?} to p{q}, which sends {note}"));
                    cover(&("pass", p == q, aliases[a].active, aliases[a].reply));
                    if aliases[a].active {
                        ps[p].mailbox.push(note);
                        if aliases[a].reply {
                            aliases[a].active = false;
                        }
                    }
                }
                _ => {
                    if rng.chance(1, 4) && ps[p].alive && ps.len() < 7 {
                        trace.push(format!("p{p} dies"));
                        kill(ps[p].pid);
                        quiesce().await;
                        ps[p].alive = false;
                        for a in &mut aliases {
                            if a.owner == p {
                                a.active = false;
                            }
                        }
                        ps.push(P::new());
                    }
                }
            }
            quiesce().await;
        }
        for p in &ps {
            if let Some(Answer::Notes(got)) = p.ask(Cmd::Drain).await {
                check(got == p.mailbox, "alias-mailbox", || {
                    json!({"got": got, "want": p.mailbox, "history": trace.snapshot()})
                });
            }
        }
        count("operations", trace.len() as u64);
    });
    cover(&hash_of(&steps.snapshot()));
    sample("history", || json!(steps.snapshot()));
    evaluated(1);
}

/// Concurrent senders, removal by owner and strangers, death of the owner.
fn race(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let rt = runtime_threads(*rng.pick(&[2, 4, 8]));
    chaos(rng);
    let mut fork = rng.fork();
    rt.block_on(async move {
        let rng = &mut fork;
        let reply = rng.bool();
        let removal = rng.below(4); // 0 none, 1 by the owner, 2 the owner dies, 3 owner and strangers
        let nsend = rng.range(1, 4);
        let per = rng.range(1, 12);
        let go = Arc::new(AtomicBool::new(false));
        let removed_call = Arc::new(AtomicU64::new(u64::MAX));
        let removed_ret = Arc::new(AtomicU64::new(u64::MAX));
        let said = Log::<bool>::new();
        let got = Log::<u64>::new();
        let (rtx, rrx) = tokio::sync::oneshot::channel();
        let (g, rc, rr, s, l) = (go.clone(), removed_call.clone(), removed_ret.clone(), said.clone(), got.clone());
        let wait = rng.below(4000);
        let twice = rng.bool();
        let owner = Process::spawn(async move {
            let r = Process::alias(reply);
            rtx.send(r).ok();
            while !g.load(Ordering::SeqCst) {
                tokio::task::yield_now().await;
            }
            for _ in 0..wait {
                std::hint::spin_loop();
            }
            if removal == 1 || removal == 3 {
                rc.store(tick(), Ordering::SeqCst);
                s.push(Process::unalias(r));
                rr.store(tick(), Ordering::SeqCst);
                if twice {
                    s.push(Process::unalias(r));
                }
            } else if removal == 2 {
                rc.store(tick(), Ordering::SeqCst);
                return;
            }
            loop {
                if let Message::User(Note(n)) = Process::receiver().for_message::<Note>().receive().await {
                    l.push(n);
                }
            }
        });
        let reference = rrx.await.unwrap();
        let sends: Log<(u64, u64, u64)> = Log::new();
        let mut joins = Vec::new();
        for k in 0..nsend {
            let (g, sends) = (go.clone(), sends.clone());
            let many = rng.bool();
            let gap = rng.below(300);
            joins.push(tokio::spawn(async move {
                while !g.load(Ordering::SeqCst) {
                    tokio::task::yield_now().await;
                }
                for i in 0..per {
                    let n = k * 1000 + i;
                    let call = tick();
                    if many {
                        Process::send(vec![Dest::from(reference)], Note(n));
                    } else {
                        Process::send(reference, Note(n));
                    }
                    sends.push((n, call, tick()));
                    for _ in 0..gap {
                        std::hint::spin_loop();
                    }
                }
            }));
        }
        let strangers = Log::<bool>::new();
        if removal == 3 {
            let (g, st) = (go.clone(), strangers.clone());
            let others = rng.bool();
            Process::spawn(async move {
                while !g.load(Ordering::SeqCst) {
                    tokio::task::yield_now().await;
                }
                if others {
                    // Nor by other means.
                    Process::demonitor(reference);
                    Process::cancel_timer(reference);
                }
                st.push(Process::unalias(reference));
            });
        }
        go.store(true, Ordering::SeqCst);
        for j in joins {
            j.await.ok();
        }
        if removal == 3 {
            let st = strangers.clone();
            eventually(|| st.len() == 1).await;
            check(!strangers.any(|s| *s), "unalias-by-stranger", || json!({"reply": reply}));
        }
        if removal != 2 {
            Process::send(owner, Note(777_777));
            let l = got.clone();
            if !eventually(|| l.any(|n| *n == 777_777)).await {
                violation("alias-owner-stuck", json!({}));
                return;
            }
        } else {
            eventually(|| !Process::list().contains(&owner)).await;
        }
        let received: Vec<u64> = got.snapshot().into_iter().filter(|n| *n != 777_777).collect();
        let sends = sends.snapshot();
        let said = said.snapshot();
        let (rc, rr) = (removed_call.load(Ordering::SeqCst), removed_ret.load(Ordering::SeqCst));
        let detail = || {
            json!({"received": received, "sends": format!("{sends:?}"), "unalias": said, "unalias_call": rc, "unalias_return": rr,
                   "reply": reply, "removal": removal})
        };
        let set: BTreeSet<u64> = received.iter().copied().collect();
        check(set.len() == received.len(), "alias-duplicate", detail);
        if said.len() == 2 {
            check(!said[1], "unalias-twice", detail);
        }
        if removal != 2 {
            for (n, call, ret) in &sends {
                let got = set.contains(n);
                check(!(got && *call > rr), "alias-after-unalias", detail);
                if !reply {
                    check(got || *ret > rc, "alias-message-lost", detail);
                }
            }
            if reply {
                let by_hand = said.first().copied().unwrap_or(false);
                check(received.len() + by_hand as usize == 1, "reply-alias-count", detail);
            } else if !said.is_empty() {
                check(said[0], "unalias-result", detail);
            }
        }
        for k in 0..nsend {
            let mine: Vec<u64> = received.iter().copied().filter(|n| n / 1000 == k).collect();
            check(mine.windows(2).all(|w| w[0] < w[1]), "alias-order", detail);
        }
        cover(&(reply, removal, received.len(), said.clone(), nsend));
        count("alias messages", received.len() as u64);
        evaluated(1);
        kill(owner);
    });
    rt.shutdown_background();
}

/// References made everywhere at once.
fn unique(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let rt = runtime_threads(8);
    let n = rng.range(2, 8);
    let each = rng.range(100, 2000);
    rt.block_on(async move {
        let mut joins = Vec::new();
        for k in 0..n {
            joins.push(tokio::spawn(in_process(async move {
                let mut out = Vec::new();
                for i in 0..each {
                    out.push(match (k + i) % 3 {
                        0 => Process::alias(i % 2 == 0),
                        1 => Reference::new(),
                        _ => Process::send_after(Process::current(), Note(0), std::time::Duration::from_secs(3600)),
                    });
                }
                for r in &out {
                    Process::cancel_timer(*r);
                }
                out
            })));
        }
        let mut all = HashSet::new();
        let mut total = 0;
        for j in joins {
            for r in j.await.unwrap().unwrap_or_default() {
                total += 1;
                all.insert(format!("{r:?}"));
            }
        }
        check(all.len() == total, "reference-not-unique", || json!({"made": total, "distinct": all.len()}));
        count("references", total as u64);
        evaluated(1);
    });
    rt.shutdown_background();
}

fn main() {
    run("C08", &[scenario("model", 4, model), scenario("race", 5, race), scenario("unique", 1, unique)]);
}
