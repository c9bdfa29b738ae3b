#!/usr/bin/env python3
"""Writes bin/config.json and MANIFEST.json from the table below (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "runtime monitoring: "
C = {}
def c(id, budget, workers, rule, technique, note, assumptions=(), least=50, grace=200, **kw):
    C[id] = dict(bin=id.lower(), budget=budget, workers=workers, least=least, grace=grace, rule=rule,
                 assumptions=list(assumptions), technique=T + technique, note=note, **kw)

S = "Held on the executions produced (seeded episodes on real runtimes with perturbed schedules); says nothing of schedules and inputs not produced. "
c("C01", [12, 240], 5,
  "An evaluation is one episode: receivers reachable by pid, name and alias, concurrent senders using every destination form, or a value of one type sent alone and to lists. Distinct behaviours are counted by destination form, list length, value type and the order in which messages of different senders interleaved at a receiver.",
  "offline exactly-once / FIFO / integrity checker over recorded send and receive events",
  S + "Trusts the recorder (unique message ids, per-sender counters) and that a mailbox drained after a fence message is complete.")
c("C02", [12, 240], 5,
  "An evaluation is one receive judged against the model mailbox, or one concurrent episode. Distinct behaviours are counted by receive kind, outcome, mailbox length and position of the match.",
  "reference model of the mailbox run beside real receives",
  S + "Trusts the model mailbox (a list with filters).")
c("C03", [12, 240], 5,
  "An evaluation is one process life watched from spawn to cleanup. Distinct behaviours are counted by way of ending, moment, runtime flavour and observed order of the observers' events.",
  "invariant monitors on process lives under spawn/exit storms",
  S + "Trusts that bounded progress (hundreds of runtime round trips over seconds) means never.")
c("C04", [10, 240], 5,
  "An evaluation is one exit signal (or storm of them) judged against the table. Distinct behaviours are counted by reason, trap flag, relation of sender, preceding messages and outcome.",
  "oracle table over observed exit-signal outcomes",
  S + "Trusts the transcription of the documented exit table.")
c("C05", [12, 240], 5,
  "An evaluation is one death or unlink judged for every process of a random link graph, or one race. Distinct behaviours are counted by graph, history and outcome.",
  "link-graph model checked against observed deaths, signals and link listings",
  S + "Trusts the graph model; in races either order of the racing operations is accepted, nothing else.")

c("C06", [12, 240], 6,
  "An evaluation is one random program of monitors judged step by step against the model, one installation/removal/death race, or one run of traffic over a monitor's alias. Distinct behaviours are counted by operation, state and outcome, and by the order of the racing events.",
  "monitor-table model plus exactly-once checker on recorded down messages",
  S + "Trusts the model; in races both orders of the racing operations are accepted.")

c("C07", [12, 240], 6,
  "An evaluation is one concurrent history searched for a linearization, one takeover of a dying holder's name, or one sequential program. A history is non-trivial when operations overlapped; distinct ones are counted by their operations and results.",
  "linearizability checker (Wing-Gong search) over recorded call/return histories",
  S + "Trusts the sequential table and the logical clock around each call; deaths and releases are environment operations between the kill and the end.")

c("C08", [12, 240], 6,
  "An evaluation is one random program of alias operations against the model, one race between senders, removal and death, or one burst of reference creation. Distinct behaviours are counted by operation, state, outcome and number of messages delivered.",
  "alias-table model plus exactly-once checker on recorded deliveries",
  S + "Trusts the model and call/return stamps; sends overlapping a removal may go either way.")

c("C09", [12, 240], 6,
  "An evaluation is one set of timers on virtual time, one time-limited operation, one race of cancelling with firing, or one real-time read. Distinct behaviours are counted by delay class, destination form, outcome and history.",
  "exact checker of recorded firing times on virtual time, and race monitor on real time",
  S + "Trusts tokio's paused clock and the timer crate replacement under vendor/ (limits follow that clock); the real timer crate is also observed, for never-early only.")

c("C10", [12, 240], 6,
  "An evaluation is one server with concurrent clients judged over its whole log, one start or stop, or one time-limited call on virtual time. Distinct behaviours are counted by operation kind, time limit, outcome, way of starting or stopping, and handling order.",
  "offline checker over recorded server and client logs (order, exactly-once, call matching, outcome table)",
  S + "Trusts the outcome table; where a reply or an end races with a time limit both outcomes are accepted.")

M = "Trusts the executable model of the specified supervisor (written from the documentation), tokio's paused clock and the timer crate replacement under vendor/. "
c("C11", [10, 240], 5,
  "An evaluation is one random history of exits, failing starts and requests, the real supervisor compared with the model after each step. Distinct behaviours are counted by the whole sequence of starts and stops and by answers given while a start was held open.",
  "differential monitor: recorded starts, stops, reasons and listings against an executable reference model",
  M)

c("C12", [14, 240], 6,
  "An evaluation is one history with limits or automatic shutdown against the model, one timed shutdown, one moving restart window on the real clock, or one tree of supervisors ended under load. Distinct behaviours are counted by history, policy, outcome and window fill.",
  "differential monitor against an executable reference model, plus timing checker and orphan monitor",
  M + "The restart window is judged with the measured uncertainty of each restart's time.")

c("C13", [12, 240], 6,
  "An evaluation is one random history of management requests and exits, each answer compared with the model's, or one concurrent run. Distinct behaviours are counted by history, request, answer and strategy.",
  "differential monitor: answers and listings against an executable reference model, online checker under concurrency",
  M)

c("C14", [12, 240], 6,
  "An evaluation is one operation of a random program judged against the model of all registries, one ended registry, or one key's concurrent history searched for a linearization. Distinct behaviours are counted by operation, addressing, state, policy and answer, and by the order of the results of overlapping operations.",
  "differential monitor against a registry model, and linearizability checker (Wing-Gong search) per key over recorded concurrent histories",
  M + "In concurrent histories a process's end may take effect any time between its start and the end of the history.")

c("C15", [10, 240], 5,
  "An evaluation is one step of a random program after which every key's mapping is compared with the model, one set of rings judged for spread, or one concurrent run. Distinct behaviours are counted by operation, ring size and overrides, and by the order concurrent changes took effect in.",
  "differential monitor against a preference-order model inferred by removals, conservation checker over concurrent changes, and snapshot-consistency checker of concurrent lookups",
  S + "The spread is judged on the average over many rings (a ring has one point per node, so a single ring is not even).")

c("C20", [12, 180], 4,
  "An evaluation is one judged statement about one application run in an operating system process of its own. Distinct behaviours are counted by way of starting, main process, configuration, signals sent and outcome.",
  "trace checker over the event log of real application processes under injected signals and failures",
  "Trusts the reports the application's own processes write and the waiting limits (seconds where milliseconds are expected). Signals are sent only to processes the check started.")

c("C21", [8, 120], 4,
  "An evaluation is one state of a semaphore history compared with the model, one concurrent semaphore run, or one task or group of tasks judged. Distinct behaviours are counted by operation, state, way of ending and outcome.",
  "permit-count monitor kept by the holders, permit model on virtual time, and task outcome checker",
  S + "Trusts the counters the holders keep and tokio's paused clock.")

c("C22", [12, 240], 6,
  "An evaluation is one websocket connection judged over everything its handler and its client saw, one failed handshake, or one ended server. Distinct behaviours are counted by way of ending, handler behaviour, kinds of events seen and how the connection ended.",
  "offline checker over recorded handler and client logs of real socket connections under fragmentation, garbage, resets and kills",
  "Trusts the hand-written client and loopback TCP; after a reset, or where the handler leaves frames unread (the system then resets the connection), only prefixes are required. One of the workers runs the same over TLS.", also={"c22tls": "tls"})

N = "Nodes are separate operating system processes of the harness binary on loopback addresses; trusts their event streams. "
c("C16", [14, 240], 4,
  "An evaluation is one message delivered and judged, one hop of a travelling id, one monitor, link or exit case, one install racing with a death, or one call. Distinct behaviours are counted by form of address, size, route, case, reason and arrival order.",
  "offline checker over the recorded event streams of several real node processes (exactly-once, order, content, identity, outcome table), with injected schedule perturbation",
  N + "Loss is decided by repeated round trips through all nodes over ten seconds or more.")

c("C17", [16, 240], 4,
  "An evaluation is one interested party judged after one loss, one return to work, one restart, or one unreachable target. Distinct behaviours are counted by kind of loss, kind of interest, side, and way of coming back.",
  "fault injection on the connections between real node processes (kill, freeze, close, reset, silence, disconnect, forget, stop, unreachable) with an exactly-once oracle over everybody's recorded events and the node listings",
  N + "Simultaneous connecting from both sides is excluded. Process ids of a node's former incarnation are not used after its restart.")

c("C18", [16, 240], 4,
  "An evaluation is one right or wrong greeting judged by whether the connection stands, is listed and had any effect, one pair of real nodes with equal or different cookies, or one replayed greeting. Distinct behaviours are counted by kind of greeting, timing, splitting, address family and cookie length.",
  "hostile-peer testing: peers of our own making speak the wire protocol to real nodes, with an oracle over the connection's fate, the node's listings and everything its processes received",
  N + "Greetings are compared byte for byte with an independent computation of the code. Replayed greetings are recorded as known findings.")

c("C19", [18, 240], 4,
  "An evaluation is one hostile connection (or one batch of misleading frames) followed by the judgement of everybody else's messages, ties and listings and of the memory taken. Distinct behaviours are counted by kind of damage, size class, splitting and memory class.",
  "byte-level fault injection and structure-aware mutation against real nodes with bystanders as canaries, a counting allocator and a panic monitor",
  N + "A well-formed frame whose content is not a message of the named process's own type is outside the property, as is a peer that lies about its own processes.")

c("C23", [24, 300], 4,
  "An evaluation is one window of many repetitions of one kind of cycle, after which everything live at rest (processes, names, listed nodes, ties, allocations and bytes) was compared with the windows before. Distinct behaviours are counted by kind of cycle, number of parallel parties and order of magnitude of repetitions.",
  "resource monitoring: a counting allocator and the process, name and node listings, compared at rest between windows of thousands of repetitions on perturbed schedules (slope test), also inside several real nodes",
  N + "A growth is reported only if it continues over a second, longer series. Allocations of the timer crate are replaced by the runtime's own timers.")

c("C24", [8, 120], 4,
  "An evaluation is one pool of values compared pairwise, one list or conversion, one journey of a whole pool through a format or a message, or one round of concurrent reading. Distinct behaviours are counted by kind and size of the pool, way of travelling, lengths of lists and numbers of threads.",
  "runtime assertions over generated values: every comparison, conversion and round trip of the real types is checked against tokens that record what each value was made to denote, and concurrent readers are checked for agreement on perturbed schedules",
  "The values of remote processes are made from their public serialised form (JSON); the wire format between nodes is covered by C16 and C19.", grace=90)

c("C25", [12, 240], 5,
  "An evaluation is the information about one process compared with the model of the history, one listing or information asked for while others change things, one round of answers of a console, or one ending of a console. Distinct behaviours are counted by what was to be reported (name, flag, messages waiting and left, ties), moment, way of asking and way of ending.",
  "reference model of a history of processes compared with everything reported about them after each step, and invariants over listings taken meanwhile on perturbed schedules; consoles of real applications are asked here and from another node",
  S + "The length of a message queue is taken as the messages its process has not yet looked at.", grace=120, features="console")

def main():
    out = {k: {x: v[x] for x in v if x not in ("technique", "note")} for k, v in C.items()}
    with open(f"{V}/bin/config.json", "w") as f:
        json.dump(out, f, indent=1); f.write("\n")
    props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
    m = {"version": 1, "setup_cmd": "bin/check --build-all", "checks": [], "not_applicable": []}
    for p in props:
        if p in C:
            m["checks"].append({"property": p, "quick_cmd": f"bin/check {p}", "thorough_cmd": f"bin/check {p} --tier thorough",
                                "technique": C[p]["technique"], "level": "exploration", "level_note": C[p]["note"]})
        else:
            m["not_applicable"].append({"property": p, "reason": "no check built yet"})
    m["notes"] = "No hooks in /repo: the monitors use the public API, a patched dashmap (schedule perturbation) and a patched timer crate (virtual time), both under vendor/."
    with open(f"{V}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()
