//! C15: the hash ring.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Duration;

use hv::*;
use hydra::HashRing;

/// A node: its key and which addition put it there.
type Node = (u32, u64);

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Key {
    Text(String),
    Number(u64),
    Pair(i32, String),
    /// Equal to the key of a node.
    NodeKey(u32),
}

fn find(ring: &HashRing<Node>, key: &Key, owned: bool) -> Option<Node> {
    match key {
        Key::Text(t) if owned => ring.find_node(t.clone()),
        Key::Text(t) => ring.find_node(t.as_str()),
        Key::Number(n) if owned => ring.find_node(*n),
        Key::Number(n) => ring.find_node(n),
        Key::Pair(a, b) if owned => ring.find_node((*a, b.clone())),
        Key::Pair(a, b) => ring.find_node((a, b.as_str())),
        Key::NodeKey(k) => ring.find_node(node_key(*k)),
    }
}

fn map(ring: &HashRing<Node>, key: &Key) -> (u32, Option<Node>) {
    let mut calls = 0;
    let mut got = None;
    let f = |n: Option<&Node>| {
        calls += 1;
        got = n.copied();
    };
    match key {
        Key::Text(t) => ring.map_node(t, f),
        Key::Number(n) => ring.map_node(n, f),
        Key::Pair(a, b) => ring.map_node((a, b), f),
        Key::NodeKey(k) => ring.map_node(node_key(*k), f),
    }
    (calls, got)
}

fn add_override(ring: &HashRing<Node>, key: &Key, node: Node) -> Option<Node> {
    match key {
        Key::Text(t) => ring.add_override(t, node),
        Key::Number(n) => ring.add_override(n, node),
        Key::Pair(a, b) => ring.add_override((a, b), node),
        Key::NodeKey(k) => ring.add_override(node_key(*k), node),
    }
}

fn remove_override(ring: &HashRing<Node>, key: &Key) -> Option<Node> {
    match key {
        Key::Text(t) => ring.remove_override(t),
        Key::Number(n) => ring.remove_override(n),
        Key::Pair(a, b) => ring.remove_override((a, b)),
        Key::NodeKey(k) => ring.remove_override(node_key(*k)),
    }
}

fn node_key(k: u32) -> String {
    format!("node-{k}")
}

fn random_keys(rng: &mut Rng, n: usize, nodes: u32) -> Vec<Key> {
    let mut keys = BTreeSet::new();
    while keys.len() < n {
        keys.insert(match rng.below(8) {
            0..=2 => Key::Number(if rng.bool() { rng.below(50) } else { rng.next() }),
            3..=4 => {
                let len = rng.usize(12);
                Key::Text(format!("t{}", rng.string(len)))
            }
            5..=6 => Key::Pair(rng.below(100) as i32, rng.string(3)),
            _ => Key::NodeKey(rng.below(nodes as u64) as u32),
        });
    }
    keys.into_iter().collect()
}

/// For each key, the nodes in the order in which they take it over as nodes disappear: found by taking
/// its owner away again and again.
fn preferences(ring: &HashRing<Node>, nodes: &[u32], keys: &[Key]) -> Option<BTreeMap<Key, Vec<u32>>> {
    let mut all = BTreeMap::new();
    for key in keys {
        ring.set_nodes(nodes.iter().map(|k| (node_key(*k), (*k, 0))));
        let mut order = Vec::new();
        while let Some((owner, _)) = find(ring, key, true) {
            if !check(!order.contains(&owner) && nodes.contains(&owner), "removed-node-still-owns", || json!({"key": format!("{key:?}"), "order": order, "owner": owner})) {
                return None;
            }
            order.push(owner);
            check(ring.remove_node(node_key(owner)) == Some((owner, 0)), "removal-not-reported", || json!({"owner": owner}));
        }
        if !check(order.len() == nodes.len(), "key-without-node", || json!({"key": format!("{key:?}"), "order": order, "nodes": nodes})) {
            return None;
        }
        all.insert(key.clone(), order);
    }
    Some(all)
}

fn owner(pref: &[u32], content: &BTreeMap<u32, u64>) -> Option<Node> {
    pref.iter().find(|n| content.contains_key(n)).map(|n| (*n, content[n]))
}

/// Random programs against the model: the content decides each key's node, however it came about.
fn model(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let ring: HashRing<Node> = if rng.bool() { HashRing::new() } else { HashRing::default() };
    let n = rng.range(1, 12) as u32;
    let nodes: Vec<u32> = (0..n).collect();
    let nk = rng.range(10, 60) as usize;
    let keys = random_keys(rng, nk, n);
    for k in &keys {
        check(find(&ring, k, true).is_none() && map(&ring, k) == (1, None), "empty-ring-maps", || json!({"key": format!("{k:?}")}));
    }
    let Some(pref) = preferences(&ring, &nodes, &keys) else { return };
    ring.clear();
    let mut content: BTreeMap<u32, u64> = BTreeMap::new();
    let mut overrides: BTreeMap<Key, Node> = BTreeMap::new();
    let mut version = 0u64;
    let mut history: Vec<String> = Vec::new();
    for _ in 0..rng.range(5, 60) {
        evaluated(1);
        version += 1;
        let node = *rng.pick(&nodes);
        let key = rng.pick(&keys).clone();
        let before: BTreeMap<Key, Option<Node>> = keys.iter().map(|k| (k.clone(), find(&ring, k, true))).collect();
        let op = match rng.below(13) {
            0..=3 => {
                let got = ring.add_node(node_key(node), (node, version));
                let want = content.insert(node, version).map(|v| (node, v));
                if !check(got == want, "add-answer", || json!({"history": history, "got": format!("{got:?}"), "want": format!("{want:?}")})) {
                    return;
                }
                for k in &keys {
                    let now = find(&ring, k, false);
                    check(now == before[k] || now == Some((node, version)), "add-moves-others", || json!({"history": history, "key": format!("{k:?}"), "was": format!("{:?}", before[k]), "now": format!("{now:?}")}));
                }
                format!("add {node}")
            }
            4..=6 => {
                let got = ring.remove_node(node_key(node));
                let want = content.remove(&node).map(|v| (node, v));
                if !check(got == want, "remove-answer", || json!({"history": history, "got": format!("{got:?}"), "want": format!("{want:?}")})) {
                    return;
                }
                for k in &keys {
                    let now = find(&ring, k, false);
                    check(now == before[k] || before[k].map(|b| b.0) == Some(node), "remove-moves-others", || json!({"history": history, "key": format!("{k:?}"), "was": format!("{:?}", before[k]), "now": format!("{now:?}")}));
                }
                format!("remove {node}")
            }
            7 => {
                // Several at once, in any order, an earlier mention of a node replaced by a later one.
                let list: Vec<u32> = (0..rng.range(0, 6)).map(|_| *rng.pick(&nodes)).collect();
                let mut pairs = Vec::new();
                for x in &list {
                    version += 1;
                    pairs.push((node_key(*x), (*x, version)));
                    content.insert(*x, version);
                }
                ring.add_nodes(pairs);
                format!("add_nodes {list:?}")
            }
            8 => {
                let mut list: Vec<u32> = (0..rng.range(0, 8)).map(|_| *rng.pick(&nodes)).collect();
                rng.shuffle(&mut list);
                content.clear();
                let mut pairs = Vec::new();
                for x in &list {
                    version += 1;
                    pairs.push((node_key(*x), (*x, version)));
                    content.insert(*x, version);
                }
                ring.set_nodes(pairs);
                format!("set_nodes {list:?}")
            }
            9 => {
                let value = (1000 + node, version);
                let got = add_override(&ring, &key, value);
                let want = overrides.insert(key.clone(), value);
                check(got == want, "override-answer", || json!({"history": history, "got": format!("{got:?}"), "want": format!("{want:?}")}));
                format!("override {key:?}")
            }
            10 => {
                let got = remove_override(&ring, &key);
                let want = overrides.remove(&key);
                check(got == want, "remove-override-answer", || json!({"history": history, "got": format!("{got:?}"), "want": format!("{want:?}")}));
                format!("remove_override {key:?}")
            }
            11 => {
                let list: Vec<Key> = (0..rng.range(0, 5)).map(|_| Key::Number(rng.below(50))).collect();
                let replace = rng.bool();
                if replace {
                    overrides.clear();
                }
                let mut pairs = Vec::new();
                for k in &list {
                    version += 1;
                    let Key::Number(x) = k else { unreachable!() };
                    pairs.push((*x, (2000u32, version)));
                    overrides.insert(k.clone(), (2000, version));
                }
                if replace {
                    ring.set_overrides(pairs);
                } else {
                    ring.add_overrides(pairs);
                }
                format!("{} {list:?}", if replace { "set_overrides" } else { "add_overrides" })
            }
            _ => {
                if rng.chance(1, 3) {
                    ring.clear();
                    content.clear();
                    overrides.clear();
                    "clear".into()
                } else {
                    "nothing".into()
                }
            }
        };
        cover(&(op.split(' ').next().unwrap().to_string(), content.len(), overrides.len().min(4), content.contains_key(&node)));
        history.push(op);
        for k in &keys {
            let want = overrides.get(k).copied().or_else(|| owner(&pref[k], &content));
            for owned in [true, false] {
                let got = find(&ring, k, owned);
                if !check(got == want, "mapping", || {
                    json!({"history": history, "key": format!("{k:?}"), "got": format!("{got:?}"), "want": format!("{want:?}"), "content": content, "preference": pref[k]})
                }) {
                    return;
                }
            }
            let got = map(&ring, k);
            if !check(got == (1, want), "map-node", || json!({"history": history, "got": format!("{got:?}"), "want": format!("{want:?}")})) {
                return;
            }
        }
    }
    sample("program", || json!(history));
}

/// No node is favoured by its place: over many rings each of the nodes has its share.
fn spread(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let n = rng.range(2, 6) as u32;
    let mut owned = vec![0u64; n as usize];
    let rings = 300;
    let each = 40u64;
    for _ in 0..rings {
        let ring: HashRing<Node> = HashRing::new();
        for k in 0..n {
            ring.add_node(node_key(k), (k, 0));
        }
        for _ in 0..each {
            if let Some((k, _)) = ring.find_node(rng.next()) {
                owned[k as usize] += 1;
            }
        }
    }
    evaluated(1);
    let even = (rings * each) as f64 / n as f64;
    check(owned.iter().all(|o| (*o as f64) > even * 0.6 && (*o as f64) < even * 1.4), "favoured-node", || json!({"owned": owned, "even": even}));
    cover(&("spread", n));
    hv::count("rings for spread", rings);
}

/// Changes by several threads at once: every node put in comes out exactly once, and no change is lost.
fn conservation(ep: &mut Ep) {
    let rng = &mut ep.rng;
    chaos(rng);
    let ring: Arc<HashRing<Node>> = Arc::new(HashRing::new());
    let threads = rng.range(2, 6) as usize;
    let nodes = rng.range(1, 4) as u32;
    let each = rng.range(20, 200);
    let version = Arc::new(AtomicU64::new(1));
    let barrier = Arc::new(Barrier::new(threads));
    let on_overrides = rng.chance(1, 3);
    let outs: Vec<(Vec<Node>, Vec<Node>)> = (0..threads)
        .map(|t| {
            let (ring, version, barrier) = (ring.clone(), version.clone(), barrier.clone());
            let mut rng = rng.fork();
            std::thread::spawn(move || {
                let (mut put, mut taken) = (Vec::new(), Vec::new());
                barrier.wait();
                for i in 0..each {
                    let k = rng.below(nodes as u64) as u32;
                    if rng.below(3) < 2 {
                        let node = (k, version.fetch_add(1, Ordering::SeqCst));
                        put.push(node);
                        taken.extend(if on_overrides { ring.add_override(node_key(k), node) } else { ring.add_node(node_key(k), node) });
                    } else {
                        taken.extend(if on_overrides { ring.remove_override(node_key(k)) } else { ring.remove_node(node_key(k)) });
                    }
                    if i == each / 2 && !on_overrides {
                        // One of its own that nobody else touches.
                        let node = (100 + t as u32, version.fetch_add(1, Ordering::SeqCst));
                        put.push(node);
                        taken.extend(ring.add_node(node_key(node.0), node));
                    }
                }
                (put, taken)
            })
        })
        .collect::<Vec<_>>()
        .into_iter()
        .map(|h| h.join().unwrap())
        .collect();
    evaluated(1);
    let mut put: Vec<Node> = outs.iter().flat_map(|o| o.0.clone()).collect();
    let mut taken: Vec<Node> = outs.iter().flat_map(|o| o.1.clone()).collect();
    let order = hash_of(&taken);
    for k in (0..nodes).chain(100..100 + threads as u32) {
        taken.extend(if on_overrides { ring.remove_override(node_key(k)) } else { ring.remove_node(node_key(k)) });
    }
    put.sort();
    taken.sort();
    let lost: Vec<&Node> = put.iter().filter(|n| taken.binary_search(n).is_err()).take(5).collect();
    let twice = taken.windows(2).any(|w| w[0] == w[1]);
    check(lost.is_empty() && !twice && put.len() == taken.len(), "change-lost", || json!({"lost": format!("{lost:?}"), "twice": twice, "put": put.len(), "taken": taken.len(), "overrides": on_overrides}));
    check(ring.find_node(1u32).is_none(), "ring-not-empty", || json!({}));
    cover(&order);
    hv::count("concurrent changes", put.len() as u64);
}

/// Clearing or replacing the nodes does away with everything put in before, also while others are adding, and with
/// nothing put in after.
fn sweeping(ep: &mut Ep) {
    let rng = &mut ep.rng;
    chaos(rng);
    let ring: Arc<HashRing<Node>> = Arc::new(HashRing::new());
    let threads = rng.range(1, 4) as usize;
    let each = rng.range(1, 40) as u32;
    let done: Arc<Vec<AtomicU64>> = Arc::new((0..threads).map(|_| AtomicU64::new(0)).collect());
    let stop = Arc::new(AtomicU64::new(0));
    let adders: Vec<_> = (0..threads)
        .map(|t| {
            let (ring, done, stop) = (ring.clone(), done.clone(), stop.clone());
            let mut rng = rng.fork();
            std::thread::spawn(move || {
                let mut n = 0;
                while stop.load(Ordering::SeqCst) == 0 {
                    n += 1;
                    let first = rng.below(300) as u32;
                    let key = |i: u32| node_key(1000 * (t as u32 + 1) + first + i);
                    match rng.below(4) {
                        0 => drop(ring.add_node(key(0), (t as u32, n))),
                        1 => drop(ring.remove_node(key(0))),
                        _ => ring.add_nodes((0..each).map(|i| (key(i), (t as u32, n)))),
                    }
                    done[t].store(n, Ordering::SeqCst);
                }
                n
            })
        })
        .collect();
    let mut seen = 0u64;
    let mut old = 0u64;
    for i in 1..=rng.range(20, 150) {
        if rng.chance(1, 3) {
            std::thread::sleep(Duration::from_micros(rng.below(200)));
        }
        let before: Vec<u64> = done.iter().map(|d| d.load(Ordering::SeqCst)).collect();
        let set = rng.chance(1, 2);
        let mine: Vec<(String, Node)> = (0..rng.range(1, 5) as u32).map(|k| (node_key(k), (100 + k, i))).collect();
        if set {
            ring.set_nodes(mine.clone());
        } else {
            ring.clear();
        }
        for _ in 0..20 {
            let key = rng.next();
            if let Some((t, n)) = ring.find_node(key) {
                seen += 1;
                if t < 100 {
                    old += 1;
                    check(n > before[t as usize], "change-undone", || json!({"how": if set { "set_nodes" } else { "clear" }, "node": [t as u64, n], "put_before": before}));
                }
            }
        }
        for k in 0..5u32 {
            let want = if set { mine.iter().find(|m| m.1.0 == 100 + k).map(|m| m.1) } else { None };
            let got = ring.remove_node(node_key(k));
            check(got == want, "change-lost", || json!({"how": if set { "set_nodes" } else { "clear" }, "got": format!("{got:?}"), "wanted": format!("{want:?}")}));
        }
    }
    stop.store(1, Ordering::SeqCst);
    let added: u64 = adders.into_iter().map(|a| a.join().unwrap()).sum();
    evaluated(1);
    ring.clear();
    check(ring.find_node(1u32).is_none(), "ring-not-empty", || json!({}));
    cover(&(seen, old, added));
    hv::count("additions while sweeping", added);
    hv::count("concurrent additions seen after a sweep", old);
}

/// Lookups while the ring changes see the ring before or after each change, never anything else.
fn lookups(ep: &mut Ep) {
    let rng = &mut ep.rng;
    let ring: Arc<HashRing<Node>> = Arc::new(HashRing::new());
    let n = rng.range(2, 8) as u32;
    let nodes: Vec<u32> = (0..n).collect();
    let nk = rng.range(5, 20) as usize;
    let keys = Arc::new(random_keys(rng, nk, n));
    let Some(pref) = preferences(&ring, &nodes, &keys) else { return };
    let pref = Arc::new(pref);
    // The contents the ring goes through, one change each; all but the first reached by one atomic change.
    let mut contents: Vec<BTreeMap<u32, u64>> = Vec::new();
    let mut now: BTreeMap<u32, u64> = BTreeMap::new();
    for k in nodes.iter().take(rng.range(1, n as u64) as usize) {
        now.insert(*k, 0);
    }
    contents.push(now.clone());
    let mut changes: Vec<(u8, Vec<Node>)> = Vec::new();
    for v in 1..=rng.range(20, 120) {
        let how = rng.below(4) as u8;
        let mut list: Vec<Node> = (0..rng.range(1, 4)).map(|_| (*rng.pick(&nodes), v)).collect();
        match how {
            0 => {
                list.truncate(1);
                now.insert(list[0].0, v);
            }
            1 => {
                list.truncate(1);
                if now.len() == 1 && now.contains_key(&list[0].0) {
                    continue;
                }
                now.remove(&list[0].0);
            }
            2 => {
                for l in &list {
                    now.insert(l.0, v);
                }
            }
            _ => {
                now.clear();
                for l in &list {
                    now.insert(l.0, v);
                }
            }
        }
        changes.push((how, list));
        contents.push(now.clone());
    }
    ring.set_nodes(contents[0].iter().map(|(k, v)| (node_key(*k), (*k, *v))));
    let contents = Arc::new(contents);
    // Changes begun and changes finished bound what a lookup may have seen.
    let (begun, finished) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    let stop = Arc::new(AtomicBool::new(false));
    let bad: Arc<Mutex<Vec<hv::Value>>> = Default::default();
    let looked = Arc::new(AtomicU64::new(0));
    let overlapped = Arc::new(AtomicU64::new(0));
    let readers: Vec<_> = (0..rng.range(1, 4))
        .map(|_| {
            let (ring, keys, pref, contents, begun, finished, stop, bad, looked, overlapped) =
                (ring.clone(), keys.clone(), pref.clone(), contents.clone(), begun.clone(), finished.clone(), stop.clone(), bad.clone(), looked.clone(), overlapped.clone());
            let mut rng = rng.fork();
            std::thread::spawn(move || {
                while !stop.load(Ordering::SeqCst) {
                    let key = rng.pick(&keys);
                    let low = finished.load(Ordering::SeqCst) as usize;
                    let got = find(&ring, key, true);
                    let high = begun.load(Ordering::SeqCst) as usize;
                    looked.fetch_add(1, Ordering::Relaxed);
                    if high > low {
                        overlapped.fetch_add(1, Ordering::Relaxed);
                    }
                    let ok = (low..=high).any(|i| owner(&pref[key], &contents[i]) == got);
                    if !ok {
                        bad.lock().unwrap().push(json!({"key": format!("{key:?}"), "got": format!("{got:?}"), "low": low, "high": high, "contents": contents[low..=high]}));
                        return;
                    }
                }
            })
        })
        .collect();
    for (how, list) in &changes {
        begun.fetch_add(1, Ordering::SeqCst);
        match how {
            0 => {
                ring.add_node(node_key(list[0].0), list[0]);
            }
            1 => {
                ring.remove_node(node_key(list[0].0));
            }
            2 => ring.add_nodes(list.iter().map(|l| (node_key(l.0), *l))),
            _ => ring.set_nodes(list.iter().map(|l| (node_key(l.0), *l))),
        }
        finished.fetch_add(1, Ordering::SeqCst);
        if rng.chance(1, 3) {
            std::thread::yield_now();
        }
    }
    stop.store(true, Ordering::SeqCst);
    for r in readers {
        r.join().unwrap();
    }
    evaluated(1);
    let bad = bad.lock().unwrap();
    check(bad.is_empty(), "lookup-between-states", || json!(*bad));
    hv::count("concurrent lookups", looked.load(Ordering::Relaxed));
    hv::count("lookups overlapping a change", overlapped.load(Ordering::Relaxed));
    if overlapped.load(Ordering::Relaxed) > 0 {
        cover(&(hash_of(&changes), "lookups"));
    }
}

fn main() {
    run("C15", &[scenario("model", 8, model), scenario("spread", 1, spread), scenario("conservation", 3, conservation), scenario("lookups", 3, lookups), scenario("sweeping", 2, sweeping)]);
}
