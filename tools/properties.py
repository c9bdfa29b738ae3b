import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe:a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Local messages arrive exactly once, intact, and in sender order",
 "A message sent to a live local process, whether addressed by process id, by registered name, by alias, or by a list mixing these, is delivered to exactly the processes addressed, exactly once per entry that addresses them, with a value equal to the one sent. Messages from one sender to one receiver arrive in the order they were sent, whichever of those forms each used, and however many senders run at once. A send to a process that does not exist, a name nobody holds or a dead alias is silently dropped and disturbs nothing else.",
 ["schedules","inputs","histories"],"every number of senders and receivers, every destination form and mixture, every serialisable value including embedded process ids and references, every thread schedule",
 "The tests send a handful of single messages by process id; interleaving of senders, list destinations with several entries, names changing hands while sending and the message value space are not sampled.",
 ["hydra/src/process.rs","hydra/src/process_kernel.rs","hydra/src/dest.rs","hydra/src/process_registry.rs","hydra/src/alias.rs","hydra/src/pid.rs","hydra/src/reference.rs","hydra/src/local.rs"],
 [("destination dispatch","hydra/src/process_kernel.rs process_send"),("unbounded per-process channel","hydra/src/process.rs spawn_internal"),("alias table","hydra/src/alias.rs")])
p("C02","Receiving takes the oldest match and never loses other messages",
 "A receive that looks for particular messages returns the oldest queued message it accepts (its own type, its filter), waits if there is none, and leaves every message it did not take in the mailbox in arrival order for later receives. System messages (exits of linked processes, monitor notifications) are delivered to receives that accept them in arrival order with ordinary messages, are left alone by receives told to ignore them, and a strict-typed receive fails on a foreign message instead of dropping it silently. Abandoning a pending receive loses nothing.",
 ["inputs","histories","schedules"],"every sequence of arrivals of several types and every program of selective, filtered, timed-out, cancelled and plain receives, with concurrent senders",
 "Only one-shot receives with the wanted message first are tested; skipped messages, filters, cancellation and system-message interleaving never are.",
 ["hydra/src/process_receiver.rs","hydra/src/process.rs","hydra/src/process_item.rs","hydra/src/message.rs"],
 [("skipped-item queue","hydra/src/process_receiver.rs"),("item conversion","hydra/src/process_item.rs")])
p("C03","A process runs its body once and dies exactly once, cleaning everything up",
 "A spawned process is alive and addressable (listed, sendable, linkable, killable) from the moment the spawn call returns until its body returns, panics or is exited; its body runs exactly once and its task ends when it dies, with no further body code run after a kill has taken effect. When it has died it is gone from every list and lookup (alive check, process list, names, aliases, information), and dies with the reason that ended it: normal for a returned body, the panic text for a panic, the signal's reason for a fatal exit. Process ids are never reused, and every process spawned is eventually cleaned up even under bursts and self-exits.",
 ["schedules","histories","inputs"],"every way to end a process, every moment of its life at which it is ended, spawns and exits from any number of threads, runtime flavour and count",
 "Tests end processes one way at a time and observe only the exit message; races between spawn, exit and cleanup need many schedules.",
 ["hydra/src/process.rs","hydra/src/process_registry.rs","hydra/src/process_registration.rs","hydra/src/catch_unwind.rs","hydra/src/process_info.rs"],
 [("registration before start","hydra/src/process.rs spawn_internal"),("drop-time cleanup","hydra/src/process.rs Drop for Process"),("panic capture","hydra/src/catch_unwind.rs")])
p("C04","Exit signals follow the documented kill / trap / ignore rules",
 "An exit signal with the kill reason always ends its target, trapping or not; a signal with any other abnormal reason ends a process that does not trap exits and becomes exactly one message, carrying sender and reason unchanged, to one that does; normal and ignore signals from another process never end it and reach only a trapping process, as a message. A process that signals itself is always ended by it, whatever the reason and whether or not it traps exits. The first signal that ends a process gives the reason everybody observing it is told; signals to a process that is already dead do nothing.",
 ["inputs","schedules","histories"],"every combination of reason, trapping flag, sender relation, flag change and signal count, sent in any order by any number of processes",
 "The tests cover two cells of the table; order with messages, self signals, flag flips and storms are not covered.",
 ["hydra/src/process.rs","hydra/src/process_registry.rs","hydra/src/process_flags.rs","hydra/src/exit_reason.rs","hydra/src/process_item.rs"],
 [("exit table","hydra/src/process_registry.rs process_exit"),("trap flag","hydra/src/process_flags.rs")])
p("C05","Links tie fates both ways, once, and unlinking unties both sides",
 "When a process dies abnormally, every process linked to it at that moment, from whichever side the link was made, dies with the same reason or, if trapping exits, gets exactly one exit message naming the dead process and reason; a normal death reaches only trapping processes. Linking to a process that is dead or dies concurrently still produces exactly one signal (no-such-process when it was already gone), so a collapse reaches the whole connected group and nobody outside it. After unlinking, neither side's death affects the other, repeated linking counts once, and link information shows exactly the current links of both sides.",
 ["schedules","histories","inputs"],"every link graph, every order of link, unlink and death, every race between linking, unlinking and dying on several threads",
 "Tests link two processes in one order; graphs, races between link and death, and two-sided unlink need enumeration of schedules and histories.",
 ["hydra/src/link.rs","hydra/src/process.rs","hydra/src/process_registry.rs"],
 [("link table","hydra/src/link.rs"),("existence lock","hydra/src/process_registry.rs process_exists_lock")])
p("C06","Each monitor reports its target's death exactly once, unless removed",
 "Every monitor on a process (by id or by name, on its own or at spawn) delivers exactly one down message when the target dies, carrying that monitor's own reference, the target as it was specified and the true exit reason, after all messages the target sent before dying; a target that does not exist reports no-such-process at once. After removing a monitor its down message is never received, even if the target had already died or the message already sat skipped in the mailbox, and removing one monitor affects no other. A monitor created with an alias also receives messages sent to its reference, and the alias stops according to its option (on explicit removal, on the down message, or on the first reply).",
 ["schedules","histories","inputs"],"every number of monitors per watcher and target, every target form and alias option, every race between installing, removing and the target's death",
 "Tests watch one process each; races between install, demonitor and death, several monitors on one target and alias options are untested.",
 ["hydra/src/monitor.rs","hydra/src/process.rs","hydra/src/process_monitor.rs","hydra/src/process_receiver.rs","hydra/src/alias.rs"],
 [("monitor table","hydra/src/monitor.rs"),("watcher-side set filters stale notifications","hydra/src/process_receiver.rs")])
p("C07","The name registry behaves like one atomic table",
 "Registering, looking up, unregistering, listing and sending by name from any number of threads behave as if executed one at a time on a single table: a name has at most one holder and a process at most one name, a failed registration or removal reports its reason and changes nothing, and each lookup returns the holder at that instant. A name is released when its holder dies and can then be taken by another process, whose registration no late cleanup of the dead one removes. The names listed and the names shown in process information agree with the table whenever nothing is changing.",
 ["schedules","histories","inputs"],"every concurrent history of registry operations and deaths over few names and processes",
 "One test registers one name. Atomicity is a statement about all interleavings of concurrent operations.",
 ["hydra/src/process.rs","hydra/src/process_registry.rs","hydra/src/process_registration.rs"],
 [("name table","hydra/src/process_registry.rs"),("release at exit","hydra/src/process_registry.rs process_drop")])
p("C08","Aliases deliver while active, once if one-shot, and never afterwards",
 "A reference made into an alias delivers every message sent to it to the process that made it, from creation until it is removed or its owner dies; one made for a single reply delivers exactly one message however many are sent to it concurrently. Removing an alias reports truthfully whether the caller had that alias active, and nothing sent afterwards arrives through it; a process cannot remove the alias of another. References are unique, and messages to unknown or dead ones are dropped.",
 ["schedules","histories","inputs"],"every history of creating, sending to, copying, removing aliases and killing owners, on any schedule",
 "No test covers aliases at all.",
 ["hydra/src/alias.rs","hydra/src/process.rs","hydra/src/process_kernel.rs","hydra/src/reference.rs"],
 [("alias table","hydra/src/alias.rs"),("owner's alias set, dropped at exit","hydra/src/process.rs")])
p("C09","Timers and timeouts fire once, in time order, never early, and cancel cleanly",
 "A delayed message arrives exactly once, not before its delay has passed, and then promptly, and messages with clearly different due times arrive in due order; cancelling a pending timer prevents it for good, and its remaining time reads as what is left, and as nothing once it has fired or been cancelled. Sleeping lasts at least as long as asked, and an operation with a time limit returns its result if it finishes within the limit and a timeout error otherwise. A timer leaves nothing behind once it has fired or been cancelled.",
 ["inputs","schedules","histories"],"every set of delays and destinations, every moment of cancelling or reading, timers whose delay is zero, timers outliving owner or target",
 "No test uses timers; real-time sampling cannot settle order and never-early, which are decided here on virtual time.",
 ["hydra/src/process.rs","hydra/src/process_registry.rs","hydra/src/timeout.rs"],
 [("timer table","hydra/src/process_registry.rs process_register_timer"),("send after","hydra/src/process.rs send_after")])
p("C10","Servers answer each call once to its caller, in order, without cross-talk",
 "A server handles the casts and calls of each client in the order sent, one at a time and each exactly once, after its initialisation succeeded, and is told of system messages; each call returns the reply the server gave to that very call, whether given at once or later from anywhere, and no other call's. A call to a server that is missing, dies before answering or does not answer in time returns the corresponding error promptly and never blocks, and starting a server reports success with a live server only after initialisation, and otherwise its failure (exit reason, ignore or timeout) with nothing left running. Stopping a server, by itself or from outside, runs its termination routine exactly once with the reason, which is also its exit reason. A call or stop that has returned, also in vain, leaves nothing behind in its caller's mailbox.",
 ["schedules","inputs","histories","fault_sequences"],"every mixture of clients, casts, calls, delayed and missing replies, timeouts, crashes and stops at any point of the server's life",
 "No test starts a server; call matching, timeouts and start/stop outcomes depend on schedules and fault points.",
 ["hydra/src/gen_server.rs","hydra/src/gen_server_options.rs","hydra/src/from.rs","hydra/src/call_error.rs"],
 [("call with monitor alias","hydra/src/gen_server.rs call"),("start acknowledgement","hydra/src/gen_server.rs start_gen_server"),("server loop","hydra/src/gen_server.rs")])
p("C11","A supervisor restarts exactly the children its strategy and types demand",
 "When a child exits, the supervisor restarts exactly the children that its strategy (that one; all; that one and those started after it) and each child's restart type (permanent: always; transient: only after an abnormal exit; temporary: never) call for, stopping affected siblings in reverse start order and starting again in start order. After each event the running children, their order and their listing equal those of the specified behaviour; children not concerned keep running undisturbed, and a restarted child is a new process started by the same recipe. A child that fails to start again is retried, within the restart limit, and not forgotten.",
 ["histories","inputs","fault_sequences","schedules"],"every strategy, every list of children with mixed types, every sequence of exits with any reason, and start failures during restarts",
 "No test runs a supervisor; correctness is about all histories of crashes over all configurations, checked here against an executable model.",
 ["hydra/src/supervisor.rs","hydra/src/child_spec.rs","hydra/src/restart.rs","hydra/src/supervisor_options.rs"],
 [("restart decision","hydra/src/supervisor.rs restart_exited_child"),("strategy","hydra/src/supervisor.rs restart"),("start order","hydra/src/supervisor.rs start_children")])
p("C12","Supervisor restart limits, shutdown and auto-shutdown leave no orphans",
 "A supervisor gives up exactly when more than the allowed number of restarts fall within its period, and then, or when told to shut down, or when starting one of its initial children fails, it stops all its children in reverse start order before it is gone, each by its shutdown policy (immediate kill; signal and wait up to the limit, then kill; wait for ever). With automatic shutdown it ends as soon as any, or once all, significant children have ended of themselves, as configured, and otherwise not. No child outlives its supervisor.",
 ["histories","configurations","fault_sequences","schedules"],"every restart limit and period, every crash timing, every shutdown policy and child that ignores or delays its shutdown, every automatic shutdown mode",
 "No test runs a supervisor; limits depend on crash timing (decided here on virtual time) and shutdown on misbehaving children.",
 ["hydra/src/supervisor.rs","hydra/src/shutdown.rs","hydra/src/supervisor_options.rs"],
 [("restart window","hydra/src/supervisor.rs add_restart"),("shutdown","hydra/src/supervisor.rs shutdown"),("auto shutdown","hydra/src/supervisor.rs check_auto_shutdown")])
p("C13","Managing a supervisor's children at run time is exact and never crashes it",
 "Adding, stopping, restarting, deleting, listing and counting children of a running supervisor return what a sequential model of the child table returns: duplicates, unknown, still-running and not-running children are reported as such and change nothing, a stopped child stays listed until deleted unless it is temporary, and counts equal the list. A child that fails to start, or declines, is reported to the caller and leaves the table as specified. No sequence of these requests, interleaved with child exits, ends the supervisor or loses a child.",
 ["histories","inputs","schedules"],"every sequence of management requests, concurrent requesters, child exits in between, and start outcomes (ok, error, ignore, panic)",
 "No test covers the management interface.",
 ["hydra/src/supervisor.rs","hydra/src/child_spec.rs"],
 [("request handling","hydra/src/supervisor.rs handle_call"),("child identifiers","hydra/src/supervisor.rs")])
p("C14","A process registry starts one process per key and tracks it truthfully",
 "For each key at most one live process is registered: concurrent requests to look up or start the same key start it once and all return that process, lookups, counts and listings (by name or by process id) show exactly the registered processes, and starting a present key reports it as already started. When a registered process exits its key becomes free; stopping a key sends the process a shutdown exit and frees the key, removing one frees it and leaves the process running, and ending a registry ends all its processes by the configured shutdown policy before it is gone. A start that fails, or without a configured routine, is reported and leaves no entry; registries with different names, or other instances of a running one, do not affect it.",
 ["schedules","histories","inputs"],"every history of start, lookup, stop, remove, count and listing by many clients, with processes dying at any time",
 "No test covers registries.",
 ["hydra/src/registry.rs","hydra/src/registry_options.rs"],
 [("registry table","hydra/src/registry.rs"),("exit handling","hydra/src/registry.rs handle_info")])
p("C15","A hash ring maps each key by its content alone, with minimal movement",
 "With at least one node in a ring every key maps to exactly one node that is currently in it, unless the key has an override, which wins while present; with none it maps to nothing. Which one depends only on the nodes in the ring, not on how or in what order they came to be there: adding a node moves keys only onto it, removing one moves only its keys, no node is systematically favoured, and several nodes added or set together appear at once. Additions, removals and overrides report truthfully what they replaced or removed, clearing removes nodes and overrides, no concurrent change is lost or undone by another, and a lookup during a change of the nodes answers for the ring before or after it, never in between.",
 ["inputs","histories","schedules"],"every content, order of changes, kind of key and interleaving of lookups and changes",
 "The tests check a handful of fixed contents, and never concurrently.",
 ["hydra/src/hash_ring.rs"],
 [("mapping","hydra/src/hash_ring.rs map_node"),("changes","hydra/src/hash_ring.rs"),("overrides","hydra/src/hash_ring.rs")])
p("C16","Messages between nodes keep the local guarantees and reach the right process",
 "Between connected nodes, messages to remote processes by id, by name with node, by alias and through lists arrive exactly once per addressing entry, intact and in sender order, and process ids and references inside them denote the same processes on every node they pass through, including the way home. Exit signals, links and monitors across nodes behave as they do locally: same table, exactly one notification with true reason, no-such-process for missing targets, removal by either side works, and when linking and unlinking cross on the way, both sides are left linked or neither. Remote server calls return the right reply to the right caller.",
 ["schedules","inputs","histories"],"every traffic pattern among up to three nodes, message size and content, and forms of addressing; links, monitors, removals and deaths on either side",
 "The repository has no automated multi-node test.",
 ["hydra/src/node_remote.rs","hydra/src/node_registry.rs","hydra/src/frame/","hydra/src/pid.rs","hydra/src/reference.rs","hydra/src/process_kernel.rs"],
 [("per-node sender and receiver processes","hydra/src/node_remote.rs"),("id rewriting at the node boundary","hydra/src/pid.rs, hydra/src/reference.rs")])
p("C17","Losing a node is noticed and reported exactly once to everyone concerned",
 "When the connection to a node is lost (peer killed, connection closed or reset, the peer silent beyond the heartbeat limit, disconnected, forgotten, or the local node stopped) or cannot be made at all, every local process monitoring that node, or monitoring or linked to one of its processes, is told exactly once with the connection-lost reason; whoever has unlinked, demonitored or been told before is told nothing more, and uninvolved connections stay up. What had arrived before the loss is an unbroken beginning of what was sent. A connection whose peers keep up their heartbeats is never declared lost, however idle. After a loss the node is listed as known, neither connected nor pending; messages sent to it then are dropped, while connecting, monitoring or linking makes a new connection, over which messages, monitors and links work again; messages sent while a connection is being made are delivered, in order, once it stands. A node asked to disconnect, be forgotten or stop leaves its listing in the corresponding state, and once its listener has closed the local node can be started again. Two nodes connecting to each other at the same moment may each give up the other's connection and are not covered.",
 ["fault_sequences","schedules","histories","crash_points"],"every moment and kind of connection loss: kill, reset, half-open silence, disconnect, restart, in any phase of traffic, links and monitors",
 "There is no multi-node test and no fault injection.",
 ["hydra/src/node_remote.rs","hydra/src/node_registry.rs","hydra/src/node.rs","hydra/src/node_local.rs"],
 [("heartbeat","hydra/src/node_remote.rs"),("loss handling","hydra/src/node_registry.rs node_remote_supervisor_down, node_disconnect, node_forget, node_local_stop")])
p("C18","Only peers proving the shared cookie are accepted, under their true name",
 "A connection becomes a node connection only after the peer has sent, as its first frame and within the handshake time, a greeting that proves knowledge of the cookie for the identity (name and address) it announces, and, when this side connected, for the identity that was sought; otherwise it is closed, nothing it sent takes effect and the node is not listed as connected. Frames sent before or instead of a greeting have no effect on any process. Nodes with the same cookie, or both without one, connect; nodes with different cookies never exchange a message (no cookie counts as an empty one, and trailing zero characters of a cookie do not count).",
 ["inputs","configurations","fault_sequences","histories"],"every cookie pair, every mutated, truncated, replayed, late or missing greeting and every frame order from a hostile peer",
 "There is no test of the handshake.",
 ["hydra/src/node_remote.rs","hydra/src/node_options.rs","hydra/src/frame/hello.rs","hydra/src/node_local.rs"],
 [("challenge check","hydra/src/frame/hello.rs"),("handshake timeout","hydra/src/node_remote.rs")])
p("C19","Hostile or broken bytes from the network harm only their own connection",
 "Whatever bytes a peer sends, before or after a valid greeting, and however they are split into packets, the node neither aborts nor hangs nor allocates out of proportion to what it received, no more than the connection's own processes ends, and its other processes and connections continue undisturbed. Frames delivered in any fragmentation are decoded identically, each frame's content is confined to its announced length, and a malformed frame ends that connection. Frames naming processes, references, links or monitors that are unknown or are not between these two nodes have no effect on others.",
 ["inputs","fault_sequences","histories"],"every byte stream and its fragmentation, including extreme length fields, truncated bodies and valid frames with arbitrary ids",
 "There is no test of the wire format; the input space is all byte strings.",
 ["hydra/src/frame/","hydra/src/node_remote.rs","hydra/src/node_registry.rs"],
 [("frame codec","hydra/src/frame/mod.rs"),("frame dispatch","hydra/src/node_remote.rs")])
p("C20","An application lives and ends with its main process, gracefully",
 "Running an application starts it, keeps it running exactly as long as its main process lives, and returns once that has exited, however it exited, with nothing of the application running on. With graceful shutdown configured, a termination request from the system (terminate or interrupt) is passed to the main process as one shutdown exit, and the main process is killed only if it is still there after the configured time. When starting fails or panics, running returns without hanging. Run as a test, an application fails exactly when its main process ends otherwise than normally or by shutdown or its start fails, and it is gone afterwards either way.",
 ["schedules","fault_sequences","configurations","crash_points"],"every way the main process can end or fail to start, termination requests at any moment, children that shut down quickly, slowly or never",
 "No test runs an application to its end or sends it a signal.",
 ["hydra/src/application.rs","hydra/src/application_config.rs","hydra-macros/src/entry.rs"],
 [("application run loop","hydra/src/application.rs")])
p("C21","Tasks return their value once and semaphores never over- or under-admit",
 "A task runs once, to its end even if nobody waits for it; awaiting it, alone or among several in order, gives its value if it finished and an error if it panicked or was shut down (among several without waiting for those after it), giving up a wait loses nothing, and when shutting it down returns it is over: with its value if it had finished. At any instant at most as many permits of a semaphore are held as it was created with, whoever holds them and in whatever process; every permit comes back when dropped, however its holder ends, so that waiting requests are served, and an attempt without waiting succeeds exactly when a permit is free and nobody waits for one. Abandoned waits take no permit with them.",
 ["schedules","histories","inputs"],"every mixture of holders, waiters, cancelled waits, killed and panicking holders, on any schedule",
 "Only two documentation examples exist.",
 ["hydra/src/task.rs","hydra/src/semaphore.rs"],
 [("task await","hydra/src/task.rs"),("semaphore","hydra/src/semaphore.rs")])
p("C22","Websocket connections are served one process each, in order, cleanly ended",
 "Every accepted websocket connection gets its own handler in its own process, which is given each frame the client sent exactly once, intact and in order however it was split, and each message sent to its process once and in order, and whose commands to send frames are carried out in order; pings are answered. When the client closes (which is answered), disconnects, misbehaves or sends more than allowed, the handler's process ends and nobody else is affected; when a handler closes, the client gets what was sent before and the given close code and reason, and whenever it stops, fails or is killed the connection ends and nothing more is handled. Termination is called at most once, last, with the reason the process exits with, and always when the connection closed or a callback stopped. Handshakes the handler refuses, broken ones and ones exceeding the time limit start no handler and are ended, the server goes on accepting after any of these, and does not once it has ended.",
 ["schedules","inputs","fault_sequences","histories"],"every frame sequence, fragmentation and size, every way and moment of closing from either side, many clients at once",
 "The websocket crate has no tests.",
 ["hydra-websockets/src/websocket_server.rs","hydra-websockets/src/websocket_handler.rs","hydra-websockets/src/websocket_command.rs","hydra-websockets/src/websocket_server_config.rs"],
 [("accept loop","hydra-websockets/src/websocket_server.rs"),("connection loop","hydra-websockets/src/websocket_handler.rs")])
p("C23","Finished work leaves nothing behind: memory and tables stay bounded",
 "Repeating any completed cycle of operations (spawn and exit, link and unlink, monitor and remove, register and release, alias and remove, timers, calls, supervised restarts, registry starts, node or websocket connections made and lost) leaves no residue: the number of live processes, names and listed entries and the amount of memory held do not grow with the number of cycles.",
 ["histories","schedules"],"every kind of cycle, repeated any number of times, with the parties dying in any order",
 "Tests run each operation once; leaks show only in slopes over many cycles.",
 ["hydra/src/process_registry.rs","hydra/src/link.rs","hydra/src/monitor.rs","hydra/src/alias.rs","hydra/src/node_registry.rs","hydra/src/registry.rs","hydra/src/supervisor.rs"],
 [("cleanup at process exit","hydra/src/process.rs Drop for Process")])
p("C24","Addresses are values: they compare, convert and travel as what they denote",
 "Process ids, references, node names, destinations and exit reasons are equal exactly when they denote the same thing, in every supported comparison (with each other, as hash and order, a destination with an id, reference or name, a node with its text or its name and address), both ways around and always terminating. Converting them into destinations or lists of destinations keeps every entry in order, and a node's text reads back as that node. Written and read again on the same node, with or without distribution, each is equal to what it was, by whatever format or message; ids of a node not heard of before, read by any number of threads at once, denote the same processes for all of them.",
 ["inputs","schedules"],"every combination of local and remote ids, references, nodes and destinations, names of any content, IPv4 and IPv6 addresses, several serialisation formats, any number of threads reading at once",
 "The tests compare and serialise one or two values of one kind; the comparisons between kinds, remote values and concurrent reading are not exercised at all.",
 ["hydra/src/dest.rs","hydra/src/pid.rs","hydra/src/reference.rs","hydra/src/node.rs","hydra/src/exit_reason.rs","hydra/src/node_registry.rs"],
 [("comparisons between kinds","hydra/src/dest.rs impl PartialEq"),("wire forms","hydra/src/pid.rs PidWire, hydra/src/node.rs NodeWire"),("node ids","hydra/src/node_registry.rs node_register")])
p("C25","What is reported about processes, nodes and the program is what is there",
 "At any moment the listing of processes names each process that lives throughout the question exactly once and none that was gone before it; the information about a living process gives its registered name, the number of delivered messages it has not looked at yet, whether it traps exits, the processes linked to it and, once per monitor, those monitoring it, local or remote, immediately after each change made to them; about a dead one there is none; names and their owners agree with this. Asking disturbs nobody. With the console feature an application answers the same questions, about its processes, nodes and program, to any process here or on another node, for many processes in the order asked; its console comes back when it fails, and neither ends the application nor keeps it from ending.",
 ["histories","schedules","fault_sequences"],"every history of processes, ties, names, flags and messages, asked at every moment, from the same and from other nodes, with the console dying at any time",
 "Tests look at one or two fields of one process at rest; the console is not tested at all.",
 ["hydra/src/process_info.rs","hydra/src/process_registry.rs","hydra/src/link.rs","hydra/src/monitor.rs","hydra/src/console.rs","hydra/src/runtime_info.rs","hydra/src/application.rs"],
 [("information of a process","hydra/src/process.rs info, hydra/src/link.rs link_fill_info, hydra/src/monitor.rs monitor_fill_info"),("console server","hydra/src/console.rs"),("console restart","hydra/src/application.rs run")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
