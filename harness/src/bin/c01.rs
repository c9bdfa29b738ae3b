//! C01: local message delivery. Every message is delivered exactly once, intact, in per-sender order,
//! whatever the destination form; undeliverable destinations affect nothing else.
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering, Ordering::SeqCst};
use std::time::Duration;
use std::sync::{Arc, Mutex};

use hv::*;
use hydra::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Shape {
    Unit,
    New(i64),
    Pair(u8, String),
    Named { a: Option<bool>, b: Vec<u16> },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Body {
    sender: u32,
    seq: u32,
    text: String,
    data: Vec<u8>,
    number: f64,
    big: u64,
    neg: i64,
    shape: Shape,
    pids: Vec<Pid>,
    reference: Reference,
    dest: Option<Dest>,
    unit: (),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Msg {
    Body(Body),
    Control { stop: bool },
}

/// The content is a pure function of who sent it, so that any corruption is visible.
fn body(salt: u64, sender: u32, seq: u32, pids: &[Pid], reference: Reference) -> Body {
    let mut r = Rng::new(hash_of(&(salt, sender, seq)));
    let shape = match r.below(4) {
        0 => Shape::Unit,
        1 => Shape::New(r.next() as i64),
        2 => Shape::Pair(r.next() as u8, r.string(5)),
        _ => Shape::Named {
            a: [None, Some(true), Some(false)][r.usize(3)],
            b: (0..r.usize(5)).map(|_| r.next() as u16).collect(),
        },
    };
    let n = if r.chance(1, 60) { 70_000 } else { r.usize(40) };
    Body {
        sender,
        seq,
        text: {
            let n = r.usize(20);
            r.string(n)
        },
        data: r.bytes(n),
        number: r.next() as u32 as f64 / 7.0,
        big: *r.pick(&[0, 1, u64::MAX, 1 << 63, 127, 128, 255, 256, 65535, 65536]),
        neg: *r.pick(&[0, -1, i64::MIN, i64::MAX, -32, -33, -128, -129]),
        shape,
        pids: (0..r.usize(3)).map(|_| *r.pick(pids)).collect(),
        reference,
        dest: match r.below(4) {
            0 => None,
            1 => Some(Dest::from(*r.pick(pids))),
            2 => Some(Dest::from(reference)),
            _ => Some(Dest::from("some name")),
        },
        unit: (),
    }
}

struct Target {
    pid: Pid,
    name: String,
    alias: Reference,
}

static EPISODE: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Form {
    Pid,
    Name,
    NameNode,
    Alias,
    PidSlice,
    VecDest,
    VecPid,
    Iter,
}
const FORMS: [Form; 8] = [
    Form::Pid,
    Form::Name,
    Form::NameNode,
    Form::Alias,
    Form::PidSlice,
    Form::VecDest,
    Form::VecPid,
    Form::Iter,
];

fn dest_of(rng: &mut Rng, t: &Target) -> Dest {
    match rng.below(3) {
        0 => Dest::from(t.pid),
        1 => Dest::from(t.name.clone()),
        _ => Dest::from(t.alias),
    }
}

fn dead_dest(rng: &mut Rng, dead: Pid, dead_alias: Reference) -> Dest {
    match rng.below(3) {
        0 => Dest::from(dead),
        1 => Dest::from("nobody is registered under this".to_string()),
        _ => Dest::from(dead_alias),
    }
}

/// Many senders, several receivers, all destination forms.
fn fan(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let rt = runtime(rng);
    chaos(rng);
    let episode = EPISODE.fetch_add(1, Ordering::Relaxed);
    let salt = rng.next();
    let receivers = rng.range(1, 4) as usize;
    let senders = rng.range(1, 5) as usize;
    let per = rng.range(5, 60) as u32;
    let mut fork = rng.fork();
    let quits = rng.chance(1, 4);

    rt.block_on(async move {
        let rng = &mut fork;
        // A dead process and a dead alias.
        let (tx, rx) = tokio::sync::oneshot::channel();
        let dead = Process::spawn(async move {
            let _ = tx.send(Process::alias(false));
        });
        let dead_alias = rx.await.unwrap();
        eventually(|| !Process::alive(dead)).await;

        let got: Vec<Log<(u32, u32, bool)>> = (0..receivers).map(|_| Log::new()).collect();
        let shared = Reference::new();
        let table: Arc<Mutex<Vec<Pid>>> = Arc::new(Mutex::new(Vec::new()));
        let mut targets = Vec::new();
        let mut limits = Vec::new();

        for r in 0..receivers {
            let (tx, rx) = tokio::sync::oneshot::channel();
            let log = got[r].clone();
            let table2 = table.clone();
            let name = format!("c01-{episode}-{r}");
            let register = name.clone();
            let inside = rng.bool();
            let limit = if quits && r == 0 { Some(rng.below(20)) } else { None };
            limits.push(limit);
            let slow = rng.chance(1, 3);
            let pid = Process::spawn(async move {
                if inside {
                    Process::register(Process::current(), register).unwrap();
                }
                let alias = Process::alias(false);
                tx.send(alias).ok();
                let mut seen = 0;
                loop {
                    if limit == Some(seen) {
                        return;
                    }
                    match Process::receive::<Msg>().await {
                        Message::User(Msg::Body(b)) => {
                            let pids = table2.lock().unwrap().clone();
                            let want = body(salt, b.sender, b.seq, &pids, shared);
                            let same = want == b;
                            if !same {
                                violation(
                                    "content",
                                    json!({"sent": format!("{want:?}").chars().take(600).collect::<String>(),
                                           "received": format!("{b:?}").chars().take(600).collect::<String>()}),
                                );
                            }
                            log.push((b.sender, b.seq, same));
                            seen += 1;
                            if slow && seen % 16 == 0 {
                                tokio::task::yield_now().await;
                            }
                        }
                        Message::User(Msg::Control { .. }) => return,
                        Message::System(s) => violation("unexpected-system-message", json!(format!("{s:?}"))),
                    }
                }
            });
            if !inside {
                // The receiver may already be gone when it has a limit of zero.
                let _ = Process::register(pid, name.clone());
            }
            let alias = match rx.await {
                Ok(a) => a,
                Err(_) => {
                    violation("receiver-died-early", json!({"receiver": r}));
                    return;
                }
            };
            table.lock().unwrap().push(pid);
            targets.push(Target { pid, name, alias });
        }
        let targets = Arc::new(targets);
        let pids = Arc::new(table.lock().unwrap().clone());

        // expected[sender][receiver]
        let mut handles = Vec::new();
        for s in 0..senders as u32 {
            let mut rng = rng.fork();
            let targets = targets.clone();
            let pids = pids.clone();
            let as_process = rng.bool();
            let (tx, rx) = tokio::sync::oneshot::channel();
            let work = async move {
                let mut sent: Vec<Vec<u32>> = vec![Vec::new(); targets.len()];
                for seq in 0..per {
                    let message = Msg::Body(body(salt, s, seq, &pids, shared));
                    let t = rng.usize(targets.len());
                    let form = *rng.pick(&FORMS);
                    cover(&("form", form, as_process));
                    match form {
                        Form::Pid => {
                            Process::send(targets[t].pid, message);
                            sent[t].push(seq);
                        }
                        Form::Name => {
                            Process::send(targets[t].name.clone(), message);
                            sent[t].push(seq);
                        }
                        Form::NameNode => {
                            Process::send((targets[t].name.clone(), Node::Local), message);
                            sent[t].push(seq);
                        }
                        Form::Alias => {
                            Process::send(targets[t].alias, message);
                            sent[t].push(seq);
                        }
                        Form::PidSlice => {
                            let n = rng.usize(4);
                            let mut list = Vec::new();
                            for _ in 0..n {
                                let t = rng.usize(targets.len());
                                list.push(targets[t].pid);
                                sent[t].push(seq);
                            }
                            Process::send(list.as_slice(), message);
                            cover(&("slice", n));
                        }
                        Form::VecPid => {
                            let mut list = Vec::new();
                            for (t, target) in targets.iter().enumerate() {
                                list.push(target.pid);
                                sent[t].push(seq);
                            }
                            if rng.chance(1, 3) {
                                Process::send(list.into_iter().collect::<Dests>(), message);
                            } else if rng.bool() {
                                Process::send(&list, message);
                            } else {
                                Process::send(list, message);
                            }
                        }
                        Form::VecDest | Form::Iter => {
                            let n = rng.usize(5);
                            let mut list = Vec::new();
                            for _ in 0..n {
                                if rng.chance(1, 4) {
                                    list.push(dead_dest(&mut rng, dead, dead_alias));
                                } else {
                                    let t = rng.usize(targets.len());
                                    list.push(dest_of(&mut rng, &targets[t]));
                                    sent[t].push(seq);
                                }
                            }
                            cover(&("list", n, form));
                            if form == Form::Iter {
                                Process::send(list.into_iter().collect::<Dests>(), message);
                            } else if rng.bool() {
                                Process::send(list.as_slice(), message);
                            } else {
                                Process::send(list, message);
                            }
                        }
                    }
                    if rng.chance(1, 10) {
                        Process::send(
                            dead_dest(&mut rng, dead, dead_alias),
                            Msg::Control { stop: false },
                        );
                    }
                    if rng.chance(1, 8) {
                        tokio::task::yield_now().await;
                    }
                }
                tx.send(sent).ok();
            };
            if as_process {
                Process::spawn(work);
            } else {
                tokio::spawn(work);
            }
            handles.push(rx);
        }
        let mut expected = Vec::new();
        for h in handles {
            match h.await {
                Ok(e) => expected.push(e),
                Err(_) => {
                    violation("sender-died", json!("a sender task ended abnormally while sending"));
                    return;
                }
            }
        }

        let mut total = 0u64;
        for (r, target) in targets.iter().enumerate() {
            let want: usize = expected.iter().map(|e| e[r].len()).sum();
            total += want as u64;
            let limit = limits[r];
            let expect = limit.map(|l| (l as usize).min(want)).unwrap_or(want);
            let log = got[r].clone();
            let all = eventually(|| log.len() >= expect).await;
            Process::send(target.pid, Msg::Control { stop: true });
            let gone = eventually(|| !Process::alive(target.pid)).await;
            check(gone, "stop-message-lost", || json!({"receiver": r}));
            let items = got[r].snapshot();
            check(all, "lost-message", || {
                json!({"receiver": r, "expected": want, "received": items.len()})
            });
            for s in 0..senders {
                let seqs: Vec<u32> = items.iter().filter(|i| i.0 == s as u32).map(|i| i.1).collect();
                let full = &expected[s][r];
                let ok = if limit.is_some() {
                    full.starts_with(&seqs)
                } else {
                    *full == seqs
                };
                check(ok, "order-or-multiplicity", || {
                    json!({"receiver": r, "sender": s, "expected": full, "received": seqs,
                           "receiver_quit_early": limit.is_some()})
                });
            }
            let unknown = items.iter().any(|i| i.0 >= senders as u32);
            check(!unknown, "message-from-nowhere", || json!({"receiver": r}));
            cover(&("interleaving", hash_of(&items.iter().map(|i| i.0).collect::<Vec<_>>())));
            sample("receiver", || {
                json!({"senders": senders, "messages": items.len(),
                       "arrival": items.iter().take(12).map(|i| format!("{}#{}", i.0, i.1)).collect::<Vec<_>>()})
            });
        }
        count("messages", total);
        evaluated(1);
    });
}

/// Names and aliases pass from one living process to another, or their holders die: whoever they denote at
/// the time of a send gets it, and nobody else.
fn moves(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let rt = runtime(rng);
    if rng.bool() {
        chaos(rng);
    }
    let episode = EPISODE.fetch_add(1, Ordering::Relaxed);
    let mut fork = rng.fork();
    rt.block_on(async move {
        let mut joins = Vec::new();
        for task in 0..fork.range(1, 3) {
            let mut rng = fork.fork();
            joins.push(tokio::spawn(async move { moving(&mut rng, episode, task).await }));
        }
        for j in joins {
            if j.await.is_err() {
                violation("sender-died", json!("a sender task ended abnormally while sending"));
            }
        }
    });
}

async fn moving(rng: &mut Rng, episode: u64, task: u64) {
    struct Party {
        pid: Pid,
        log: Log<u64>,
        want: Vec<u64>,
        name: Option<usize>,
        dead: bool,
    }
    #[derive(Clone, Serialize, Deserialize)]
    enum Order {
        Note(u64),
        Alias(bool),
        Unalias(Reference),
        Name(String),
    }
    let names: Vec<String> = (0..rng.range(1, 3)).map(|n| format!("c01-moves-{episode}-{task}-{n}")).collect();
    let answers: Log<Option<Reference>> = Log::new();
    let mut parties: Vec<Party> = Vec::new();
    // The aliases in force, and whether a single message ends them.
    let mut aliases: Vec<(Reference, usize, bool)> = Vec::new();
    let mut old: Vec<Reference> = Vec::new();
    let mut history: Vec<String> = Vec::new();
    let mut done = 0;
    for step in 0..rng.range(30, 160) {
        let living: Vec<usize> = (0..parties.len()).filter(|p| !parties[*p].dead).collect();
        if living.len() < 2 || (living.len() < 5 && rng.chance(1, 12)) {
            let log: Log<u64> = Log::new();
            let (l, a) = (log.clone(), answers.clone());
            let pid = Process::spawn(async move {
                loop {
                    match Process::receive::<Order>().await {
                        Message::User(Order::Note(n)) => { l.push(n); }
                        Message::User(Order::Alias(once)) => { a.push(Some(Process::alias(once))); }
                        Message::User(Order::Unalias(r)) => { a.push(Process::unalias(r).then_some(r)); }
                        Message::User(Order::Name(n)) => { a.push(Process::register(Process::current(), n).ok().map(|_| Reference::new())); }
                        Message::System(s) => violation("unexpected-system-message", json!(format!("{s:?}"))),
                    }
                }
            });
            parties.push(Party { pid, log, want: vec![], name: None, dead: false });
            continue;
        }
        let p = *rng.pick(&living);
        match rng.below(24) {
            0..=3 => {
                // A name goes from its holder, if there is one, to another, in one of several ways.
                let n = rng.usize(names.len());
                if let Some(h) = parties.iter().position(|x| !x.dead && x.name == Some(n)) {
                    Process::unregister(&names[n]);
                    parties[h].name = None;
                }
                if parties[p].name.is_none() {
                    let ok = if rng.bool() {
                        Process::register(parties[p].pid, names[n].clone()).is_ok()
                    } else {
                        done = answers.len();
                        Process::send(parties[p].pid, Order::Name(names[n].clone()));
                        let a = answers.clone();
                        eventually(|| a.len() > done).await;
                        answers.snapshot().last().is_some_and(|x| x.is_some())
                    };
                    check(ok, "name-refused", || json!({"history": history}));
                    parties[p].name = Some(n);
                    history.push(format!("name {n} to {p}"));
                }
            }
            4 => {
                let n = rng.usize(names.len());
                if let Some(h) = parties.iter().position(|x| !x.dead && x.name == Some(n)) {
                    Process::unregister(&names[n]);
                    parties[h].name = None;
                    history.push(format!("name {n} free"));
                }
            }
            5 => {
                let pid = parties[p].pid;
                kill(pid);
                // Gone with its name.
                let name = parties[p].name.map(|n| names[n].clone());
                eventually(|| !Process::list().contains(&pid) && name.as_ref().is_none_or(|n| Process::whereis(n) != Some(pid))).await;
                parties[p].dead = true;
                parties[p].name = None;
                aliases.retain(|a| {
                    if a.1 == p {
                        old.push(a.0);
                    }
                    a.1 != p
                });
                history.push(format!("{p} dies"));
            }
            6 | 7 => {
                let once = rng.bool();
                done = answers.len();
                Process::send(parties[p].pid, Order::Alias(once));
                let a = answers.clone();
                eventually(|| a.len() > done).await;
                if let Some(Some(r)) = answers.snapshot().last() {
                    aliases.push((*r, p, once));
                    history.push(format!("alias {} of {p} once {once}", aliases.len()));
                }
            }
            8 if !aliases.is_empty() => {
                let k = rng.usize(aliases.len());
                let (r, owner, _) = aliases.remove(k);
                done = answers.len();
                Process::send(parties[owner].pid, Order::Unalias(r));
                let a = answers.clone();
                eventually(|| a.len() > done).await;
                check(answers.snapshot().last() == Some(&Some(r)), "alias-not-there", || json!({"history": history}));
                old.push(r);
                history.push(format!("unalias of {owner}"));
            }
            _ => {
                // To one or to several; a dead one, a free name or an old alias now and then.
                let mut list: Vec<Dest> = Vec::new();
                let mut to: Vec<usize> = Vec::new();
                let many = rng.chance(1, 3);
                for _ in 0..if many { rng.range(0, 5) } else { 1 } {
                    match rng.below(4) {
                        0 => {
                            let p = rng.usize(parties.len());
                            list.push(parties[p].pid.into());
                            if !parties[p].dead {
                                to.push(p);
                            }
                        }
                        1 | 2 => {
                            let n = rng.usize(names.len());
                            list.push(if rng.bool() { names[n].clone().into() } else { (names[n].clone(), Node::Local).into() });
                            to.extend(parties.iter().position(|x| !x.dead && x.name == Some(n)));
                        }
                        _ if !aliases.is_empty() && rng.chance(3, 4) => {
                            let k = rng.usize(aliases.len());
                            let (r, owner, once) = aliases[k];
                            // At most one of these in a list: which of its entries comes first is open.
                            if once && many && list.iter().any(|d| *d == Dest::from(r)) {
                                continue;
                            }
                            list.push(r.into());
                            to.push(owner);
                            if once {
                                aliases.remove(k);
                                old.push(r);
                            }
                        }
                        _ if !old.is_empty() => {
                            let r = *rng.pick(&old);
                            if !list.iter().any(|d| *d == Dest::from(r)) {
                                list.push(r.into());
                            }
                        }
                        _ => {}
                    }
                }
                history.push(format!("{step} to {list:?} = {to:?}"));
                if many {
                    Process::send(list, Order::Note(step));
                } else if let Some(d) = list.pop() {
                    Process::send(d, Order::Note(step));
                }
                for p in to {
                    parties[p].want.push(step);
                }
                count("messages", 1);
            }
        }
        if rng.chance(1, 6) {
            tokio::task::yield_now().await;
        }
    }
    let _ = done;
    for (p, x) in parties.iter().enumerate() {
        if !x.dead {
            let (l, n) = (x.log.clone(), x.want.len());
            eventually(|| l.len() >= n).await;
        }
        let got = x.log.snapshot();
        // (One that was killed may not have come to all of its messages.)
        let ok = if x.dead { x.want.starts_with(&got) } else { x.want == got };
        check(ok, "went-elsewhere", || json!({"party": p, "expected": x.want, "received": got, "history": history}));
        if !x.dead {
            kill(x.pid);
        }
    }
    cover(&("moves", history.len() / 8, parties.len()));
    evaluated(1);
}

/// A message sent the moment `spawn` returns, or by a process to itself, or before it first runs.
fn early(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let rt = runtime(rng);
    chaos(rng);
    let n = 40;
    let mut fork = rng.fork();
    rt.block_on(async move {
        let rng = &mut fork;
        let log: Log<(u32, u32)> = Log::new();
        let mut want = 0;
        for i in 0..n {
            let log = log.clone();
            let k = rng.range(1, 4) as u32;
            want += k as usize + 1;
            let pid = Process::spawn(async move {
                // To itself first.
                Process::send(Process::current(), u32::MAX);
                for _ in 0..=k {
                    match Process::receive::<u32>().await {
                        Message::User(v) => {
                            log.push((i, v));
                        }
                        Message::System(_) => violation("unexpected-system-message", json!("early")),
                    }
                }
            });
            for m in 0..k {
                if rng.bool() {
                    Process::send(pid, m);
                } else {
                    Process::send(vec![Dest::from(pid)], m);
                }
            }
        }
        let l = log.clone();
        if !eventually(|| l.len() >= want).await {
            violation("lost-early-message", json!({"expected": want, "received": log.len()}));
        }
        for i in 0..n {
            let seqs: Vec<u32> = log
                .snapshot()
                .iter()
                .filter(|x| x.0 == i && x.1 != u32::MAX)
                .map(|x| x.1)
                .collect();
            check(
                seqs == (0..seqs.len() as u32).collect::<Vec<_>>(),
                "order-or-multiplicity",
                || json!({"process": i, "received": seqs}),
            );
        }
        cover(&("early", hash_of(&log.snapshot())));
        count("messages", want as u64);
        evaluated(1);
    });
}

/// What is sent by itself, as a `Local`: the very object comes, once, and it is freed once, when its last owner lets go.
async fn by_itself(r: &mut Rng) {
    /// Neither to be cloned nor to be written.
    struct Thing {
        number: u64,
        at: Arc<AtomicUsize>,
        freed: Arc<AtomicUsize>,
    }
    impl Drop for Thing {
        fn drop(&mut self) {
            self.freed.fetch_add(1, SeqCst);
        }
    }
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum To {
        Pid,
        Name,
        Alias,
        List,
        Later,
        Dead,
        Nobody,
        Gone,
        Left,
    }
    let got: Log<(u64, usize)> = Log::new();
    let asks: Log<Reference> = Log::new();
    let name = format!("c01-self-{}", r.next());
    let (l, a) = (got.clone(), asks.clone());
    let pid = Process::spawn(async move {
        a.push(Process::alias(false));
        let gone = Process::alias(false);
        Process::unalias(gone);
        a.push(gone);
        // Now and then the things are stepped over first.
        let mut turn = 0;
        loop {
            turn += 1;
            if turn % 3 == 0 {
                let _ = Process::timeout(Duration::from_millis(1), Process::receiver().for_message::<char>().select(|_| true)).await;
            }
            match Process::receive::<Local<Box<Thing>>>().await {
                Message::User(t) => {
                    let t = t.into_inner();
                    l.push((t.number, t.at.load(SeqCst)));
                }
                Message::System(_) => violation("unexpected-system-message", json!("by itself")),
            }
        }
    });
    let _ = Process::register(pid, name.clone());
    let dead = Process::spawn(async {});
    quiesce().await;
    let refs = asks.snapshot();
    let mut sent: Vec<(u64, To, Arc<AtomicUsize>)> = Vec::new();
    for number in 0..r.range(8, 40) {
        let freed = Arc::new(AtomicUsize::new(0));
        let thing = Local::new(Box::new(Thing { number, at: Arc::new(AtomicUsize::new(number as usize + 7)), freed: freed.clone() }));
        let to = *r.pick(&[To::Pid, To::Name, To::Alias, To::List, To::Later, To::Dead, To::Nobody, To::Gone, To::Left]);
        match to {
            To::Pid => Process::send(pid, thing),
            To::Name => Process::send(name.clone(), thing),
            To::Alias => Process::send(refs[0], thing),
            To::List => Process::send(vec![pid], thing),
            To::Later => {
                Process::send_after(pid, thing, Duration::from_millis(r.below(5)));
                tokio::time::sleep(Duration::from_millis(8)).await;
            }
            To::Dead => Process::send(dead, thing),
            To::Nobody => Process::send("c01-nobody-at-all", thing),
            To::Gone => Process::send(refs[1], thing),
            To::Left => {
                // To one that ends without having looked.
                let p = Process::spawn(async {
                    Process::sleep(Duration::from_millis(2)).await;
                });
                Process::send(p, thing);
                tokio::time::sleep(Duration::from_millis(4)).await;
            }
        }
        sent.push((number, to, freed));
        count("messages", 1);
    }
    tokio::time::sleep(Duration::from_millis(50)).await;
    quiesce().await;
    let want: Vec<(u64, usize)> = sent.iter().filter(|s| !matches!(s.1, To::Dead | To::Nobody | To::Gone | To::Left)).map(|s| (s.0, s.0 as usize + 7)).collect();
    check(got.snapshot() == want, "local-object", || json!({"sent": sent.iter().map(|s| format!("{} {:?}", s.0, s.1)).collect::<Vec<_>>(), "received": got.snapshot()}));
    for (number, to, freed) in &sent {
        check(freed.load(SeqCst) == 1, "local-object-freed", || json!({"number": number, "to": format!("{to:?}"), "freed": freed.load(SeqCst)}));
        cover(&("local", format!("{to:?}")));
    }
    kill(pid);
    quiesce().await;
}

/// Values of many types, sent alone and to several destinations, arrive equal.
fn types(ep: &mut Ep) {
    let seed = ep.rng.next();
    virtual_time(async move {
        async fn pass<T: Receivable + Clone + PartialEq + std::fmt::Debug>(value: T) {
            let log: Log<T> = Log::new();
            let make = |log: Log<T>| async move {
                for _ in 0..3 {
                    if let Message::User(v) = Process::receive::<T>().await {
                        log.push(v);
                    }
                }
            };
            let a = Process::spawn(make(log.clone()));
            let b = Process::spawn(make(log.clone()));
            Process::send(a, value.clone());
            Process::send(b, value.clone());
            Process::send(vec![a, b], value.clone());
            Process::send(&[b, a][..], value.clone());
            quiesce().await;
            let got = log.take();
            check(got.len() == 6, "lost-message", || {
                json!({"type": std::any::type_name::<T>(), "received": got.len(), "value": format!("{value:?}")})
            });
            for g in &got {
                check(*g == value, "content", || {
                    json!({"type": std::any::type_name::<T>(), "sent": format!("{value:?}"), "received": format!("{g:?}")})
                });
            }
            Process::exit_both(a, b);
            cover(&("type", std::any::type_name::<T>(), format!("{value:?}")));
            count("messages", 6);
        }
        trait ExitBoth {
            fn exit_both(a: Pid, b: Pid);
        }
        impl ExitBoth for Process {
            fn exit_both(a: Pid, b: Pid) {
                Process::spawn(async move {
                    Process::exit(a, ExitReason::Kill);
                    Process::exit(b, ExitReason::Kill);
                });
            }
        }
        let mut r = Rng::new(seed);
        pass(()).await;
        pass(r.next()).await;
        pass(r.next() as i32).await;
        pass(r.bool()).await;
        pass(char::from_u32(0x1F600).unwrap()).await;
        pass(r.string(30)).await;
        pass((r.next() as u8, r.string(3), r.bool())).await;
        pass(Some(r.next())).await;
        pass(None::<u64>).await;
        pass(vec![Some(1u8), None]).await;
        pass(r.next() as f32).await;
        pass(u128::from(r.next()) << 40).await;
        pass(std::collections::BTreeMap::from([(r.string(3), r.next()), ("k".into(), 2)])).await;
        pass(Ok::<u8, String>(3)).await;
        pass(Err::<u8, String>(r.string(4))).await;
        pass(Shape::New(r.next() as i64)).await;
        pass(Shape::Unit).await;
        for d in [Dest::from(Process::spawn(async {})), Dest::from(Reference::new()), Dest::from(r.string(5)), Dest::from("x1"), Dest::from((r.string(5), Node::Local))] {
            check_compares(Some(&d), None);
        }
        for _ in 0..8 {
            check_compares(None, Some(&random_reason(&mut r)));
        }
        pass(Reference::new()).await;
        pass(Process::spawn(async {})).await;
        pass(Dest::from(Process::spawn(async {}))).await;
        pass(ExitReason::Custom(r.string(4))).await;
        pass(std::time::Duration::from_nanos(r.next() >> 8)).await;
        pass([r.next() as u8; 16]).await;
        by_itself(&mut r).await;
        evaluated(1);
    });
}

fn main() {
    run(
        "C01",
        &[scenario("fan", 6, fan), scenario("moves", 2, moves), scenario("early", 2, early), scenario("types", 1, types)],
    );
}
