From 0d5e80fb3659888821cfc0ae4e166f16f4cc10c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 01/51] fix: register a process before its task can run

---
 hydra/src/process.rs              |  8 ++++++--
 hydra/src/process_registration.rs | 19 ++++++++++++++-----
 hydra/src/process_registry.rs     | 25 +++++++++++++++++--------
 3 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 5c3e855..1ebfc7d 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -26,6 +26,7 @@ use crate::monitor_install;
 use crate::monitor_process_down;
 use crate::node_process_send_exit;
 use crate::process_alive;
+use crate::process_attach_handle;
 use crate::process_destroy_timer;
 use crate::process_drop;
 use crate::process_exit;
@@ -481,6 +482,9 @@ where
         result = SpawnResult::PidMonitor(pid, monitor);
     }
 
+    // Register the process under it's new id before it can run.
+    process_insert(next_id, ProcessRegistration::new(tx));
+
     // Spawn the process with the newly created process object in scope.
     let handle = tokio::spawn(PROCESS.scope(process, async move {
         if let Err(e) = AsyncCatchUnwind::new(AssertUnwindSafe(function)).await {
@@ -488,8 +492,8 @@ where
         }
     }));
 
-    // Register the process under it's new id.
-    process_insert(next_id, ProcessRegistration::new(handle, tx));
+    // Now that the task exists, allow it to be stopped by exit signals.
+    process_attach_handle(next_id, handle);
 
     result
 }
diff --git a/hydra/src/process_registration.rs b/hydra/src/process_registration.rs
index 43cde5b..1955a38 100644
--- a/hydra/src/process_registration.rs
+++ b/hydra/src/process_registration.rs
@@ -6,8 +6,8 @@ use crate::ProcessSend;
 
 /// Process registration information.
 pub struct ProcessRegistration {
-    /// A handle to the task that this process lives in.
-    pub handle: JoinHandle<()>,
+    /// A handle to the task that this process lives in, or [None] until the task was spawned.
+    pub handle: Option<JoinHandle<()>>,
     /// The sender of this process.
     pub sender: ProcessSend,
     /// Registered name of this process or [None] when unregistered.
@@ -19,14 +19,23 @@ pub struct ProcessRegistration {
 }
 
 impl ProcessRegistration {
-    /// Constructs a new [ProcessRegistration] from a given task handle, and channel.
-    pub const fn new(handle: JoinHandle<()>, sender: ProcessSend) -> Self {
+    /// Constructs a new [ProcessRegistration] from a given channel.
+    pub const fn new(sender: ProcessSend) -> Self {
         Self {
-            handle,
+            handle: None,
             sender,
             name: None,
             flags: ProcessFlags::empty(),
             exit_reason: None,
         }
     }
+
+    /// Sets the exit reason and stops the task that this process lives in.
+    pub fn exit(&mut self, exit_reason: ExitReason) {
+        self.exit_reason = Some(exit_reason);
+
+        if let Some(handle) = &self.handle {
+            handle.abort();
+        }
+    }
 }
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 38929fe..045f2b2 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -63,6 +63,19 @@ pub fn process_insert(id: u64, registration: ProcessRegistration) {
     PROCESS_REGISTRY.insert(id, registration);
 }
 
+/// Attaches the task `handle` to an existing process registration.
+pub fn process_attach_handle(id: u64, handle: JoinHandle<()>) {
+    PROCESS_REGISTRY.alter(&id, |_, mut process| {
+        // The process was told to exit before it's task handle was known.
+        if process.exit_reason.is_some() {
+            handle.abort();
+        }
+
+        process.handle = Some(handle);
+        process
+    });
+}
+
 /// Removes a registered name.
 pub fn process_name_remove(name: &str) {
     PROCESS_NAMES.remove(name);
@@ -152,8 +165,7 @@ pub fn process_exit(pid: Pid, from: Pid, exit_reason: ExitReason) {
         match exit_reason {
             ExitReason::Normal | ExitReason::Ignore => {
                 if pid == from {
-                    process.exit_reason = Some(exit_reason);
-                    process.handle.abort();
+                    process.exit(exit_reason);
                 } else if trapping_exits {
                     process
                         .sender
@@ -165,13 +177,11 @@ pub fn process_exit(pid: Pid, from: Pid, exit_reason: ExitReason) {
                 }
             }
             ExitReason::Kill => {
-                process.exit_reason = Some(exit_reason);
-                process.handle.abort();
+                process.exit(exit_reason);
             }
             ExitReason::Custom(_) => {
                 if pid == from || !trapping_exits {
-                    process.exit_reason = Some(exit_reason);
-                    process.handle.abort();
+                    process.exit(exit_reason);
                 } else {
                     process
                         .sender
@@ -200,8 +210,7 @@ pub fn process_exit_signal_linked(pid: Pid, from: Pid, exit_reason: ExitReason)
                 )))
                 .unwrap();
         } else if !exit_reason.is_normal() {
-            process.exit_reason = Some(exit_reason);
-            process.handle.abort();
+            process.exit(exit_reason);
         }
 
         process
-- 
2.43.0


From 1433843fc509997481af39f4bedc6fcfa1828862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 02/51] fix: keep local pids and references usable in messages
 to several local destinations without a node

---
 hydra/src/pid.rs       | 8 +++++++-
 hydra/src/reference.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/hydra/src/pid.rs b/hydra/src/pid.rs
index 76016d7..ad66cf2 100644
--- a/hydra/src/pid.rs
+++ b/hydra/src/pid.rs
@@ -17,6 +17,7 @@ use crate::LOCAL_NODE_ID;
 enum PidWire {
     WithNode(NonZeroU64, String, SocketAddr),
     NodeUnavailable(NonZeroU64),
+    LocalWithoutNode(NonZeroU64),
 }
 
 /// A unique identifier of a process in hydra.
@@ -81,7 +82,7 @@ impl Serialize for Pid {
         let pid: PidWire = match self {
             Self::Local(id) => match node_lookup_local() {
                 Some((name, address)) => PidWire::WithNode(*id, name, address),
-                None => PidWire::NodeUnavailable(*id),
+                None => PidWire::LocalWithoutNode(*id),
             },
             Self::Remote(id, node) => match node_lookup_remote(*node) {
                 Some((name, address)) => PidWire::WithNode(*id, name, address),
@@ -114,6 +115,11 @@ impl<'de> Deserialize<'de> for Pid {
                 None => Ok(Pid::Remote(id, INVALID_NODE_ID)),
             },
             PidWire::NodeUnavailable(id) => Ok(Self::Remote(id, INVALID_NODE_ID)),
+            // It never left this process when there's no node that could have received it.
+            PidWire::LocalWithoutNode(id) => match node_lookup_local() {
+                Some(_) => Ok(Self::Remote(id, INVALID_NODE_ID)),
+                None => Ok(Self::Local(id)),
+            },
         }
     }
 }
diff --git a/hydra/src/reference.rs b/hydra/src/reference.rs
index 5d1b338..39a2008 100644
--- a/hydra/src/reference.rs
+++ b/hydra/src/reference.rs
@@ -20,6 +20,7 @@ use crate::LOCAL_NODE_ID;
 enum ReferenceWire {
     WithNode(NonZeroU64, String, SocketAddr),
     NodeUnavailable(NonZeroU64),
+    LocalWithoutNode(NonZeroU64),
 }
 
 /// A unique id that pertains to a specific node.
@@ -97,7 +98,7 @@ impl Serialize for Reference {
         let reference: ReferenceWire = match self {
             Self::Local(id) => match node_lookup_local() {
                 Some((name, address)) => ReferenceWire::WithNode(*id, name, address),
-                None => ReferenceWire::NodeUnavailable(*id),
+                None => ReferenceWire::LocalWithoutNode(*id),
             },
             Self::Remote(id, node) => match node_lookup_remote(*node) {
                 Some((name, address)) => ReferenceWire::WithNode(*id, name, address),
@@ -130,6 +131,11 @@ impl<'de> Deserialize<'de> for Reference {
                 None => Ok(Reference::Remote(id, INVALID_NODE_ID)),
             },
             ReferenceWire::NodeUnavailable(id) => Ok(Self::Remote(id, INVALID_NODE_ID)),
+            // It never left this process when there's no node that could have received it.
+            ReferenceWire::LocalWithoutNode(id) => match node_lookup_local() {
+                Some(_) => Ok(Self::Remote(id, INVALID_NODE_ID)),
+                None => Ok(Self::Local(id)),
+            },
         }
     }
 }
-- 
2.43.0


From cb5d422eedc2bb486b1669384adc37e8ec5d0550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 03/51] fix: hold the process while an existence check relies
 on it

---
 hydra/src/process_registry.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 045f2b2..27eec57 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -30,11 +30,10 @@ static PROCESS_TIMERS: Lazy<DashMap<u64, (Instant, JoinHandle<()>)>> = Lazy::new
 ///
 /// The process will exist for the duration of `callback`.
 pub fn process_exists_lock<C: FnOnce(bool) -> R, R>(pid: Pid, callback: C) -> R {
-    if PROCESS_REGISTRY.get(&pid.id()).is_some() {
-        callback(true)
-    } else {
-        callback(false)
-    }
+    // The guard must outlive `callback`, otherwise, the process can be dropped while it's running.
+    let process = PROCESS_REGISTRY.get(&pid.id());
+
+    callback(process.is_some())
 }
 
 /// Drops a process from the registry.
-- 
2.43.0


From 5ece6fa02b7462a51737b619e5951b5171323805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 04/51] fix: do not keep a link to a process that does not
 exist

---
 hydra/src/link.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 7ee1e19..71534f1 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -49,6 +49,7 @@ pub fn link_install(process: Pid, from: Pid) {
 
     if process.is_local() {
         if !link_create(process, from, false) {
+            link_remove(from, process);
             process_exit_signal_linked(from, process, ExitReason::from("noproc"));
         }
     } else {
@@ -64,12 +65,21 @@ pub fn link_install(process: Pid, from: Pid) {
                 node_send_frame(link.into(), node);
             }
             None => {
+                link_remove(from, process);
                 process_exit_signal_linked(from, process, ExitReason::from("noconnection"));
             }
         }
     }
 }
 
+/// Removes one direction of a link.
+fn link_remove(process: Pid, from: Pid) {
+    LINKS.alter(&process.id(), |_, mut value| {
+        value.remove(&from);
+        value
+    });
+}
+
 /// Destroys a link for the given local process.
 pub fn link_destroy(process: Pid, from: Pid) {
     if process.is_local() {
-- 
2.43.0


From da77531d94a0028a1b4b50efee6fbd539266342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 05/51] fix: unlink both processes

---
 hydra/src/link.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 71534f1..1bcab07 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -82,11 +82,12 @@ fn link_remove(process: Pid, from: Pid) {
 
 /// Destroys a link for the given local process.
 pub fn link_destroy(process: Pid, from: Pid) {
+    if from.is_local() {
+        link_remove(from, process);
+    }
+
     if process.is_local() {
-        LINKS.alter(&process.id(), |_, mut value| {
-            value.remove(&from);
-            value
-        });
+        link_remove(process, from);
     } else {
         let link = Link::new(false, process.id(), from.id());
 
-- 
2.43.0


From ad6ccd9cd38f344634ba1cb64eb7f1acc0af81d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 06/51] fix: demonitor discards a down message a selective
 receive skipped over

---
 hydra/src/node.rs    | 12 ++++++++++++
 hydra/src/process.rs | 11 +++++++++++
 2 files changed, 23 insertions(+)

diff --git a/hydra/src/node.rs b/hydra/src/node.rs
index 1f47476..06841c4 100644
--- a/hydra/src/node.rs
+++ b/hydra/src/node.rs
@@ -20,8 +20,10 @@ use crate::NodeOptions;
 use crate::NodeState;
 use crate::Pid;
 use crate::Process;
+use crate::ProcessItem;
 use crate::ProcessMonitor;
 use crate::Reference;
+use crate::SystemMessage;
 use crate::PROCESS;
 
 /// Represents a [Node] serialized for the wire.
@@ -171,6 +173,16 @@ impl Node {
         let Some(process_monitor) =
             PROCESS.with(|process| process.monitors.borrow_mut().remove(&monitor))
         else {
+            // The message may have already been skipped over by a selective receive.
+            PROCESS.with(|process| {
+                process.items.borrow_mut().retain(|item| {
+                    !matches!(
+                        item,
+                        ProcessItem::SystemMessage(SystemMessage::NodeDown(_, reference))
+                            if *reference == monitor
+                    )
+                });
+            });
             return;
         };
 
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 1ebfc7d..b4d917d 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -59,6 +59,7 @@ use crate::ProcessReceiver;
 use crate::ProcessRegistration;
 use crate::Receivable;
 use crate::Reference;
+use crate::SystemMessage;
 use crate::Timeout;
 
 /// The send type for a process.
@@ -358,6 +359,16 @@ impl Process {
         let Some(process_monitor) =
             PROCESS.with(|process| process.monitors.borrow_mut().remove(&monitor))
         else {
+            // The message may have already been skipped over by a selective receive.
+            PROCESS.with(|process| {
+                process.items.borrow_mut().retain(|item| {
+                    !matches!(
+                        item,
+                        ProcessItem::SystemMessage(SystemMessage::ProcessDown(_, reference, _))
+                            if *reference == monitor
+                    )
+                });
+            });
             return;
         };
 
-- 
2.43.0


From 145effa155372d16411679ac4df29084a2a3f076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 07/51] fix: deactivate the alias of a monitor before its down
 message is sent

---
 hydra/src/monitor.rs       | 12 ++++++------
 hydra/src/node_registry.rs |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index 5bcb11a..b660339 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -97,6 +97,8 @@ pub fn monitor_install(process: Dest, reference: Reference, from: Pid) {
     let dest = process.clone();
 
     let send_process_down = |dest: Dest, exit_reason: ExitReason| {
+        alias_destroy(reference);
+
         PROCESS.with(|process| {
             process
                 .sender
@@ -107,8 +109,6 @@ pub fn monitor_install(process: Dest, reference: Reference, from: Pid) {
                 ))
                 .unwrap()
         });
-
-        alias_destroy(reference);
     };
 
     match process {
@@ -220,6 +220,10 @@ pub fn monitor_process_down(from: Pid, exit_reason: ExitReason) {
     let mut remote_monitors: BTreeMap<u64, (MonitorDown, Vec<Reference>)> = BTreeMap::new();
 
     for (reference, (pid, dest)) in references {
+        if reference.is_local() {
+            alias_destroy(reference);
+        }
+
         if pid.is_local() {
             process_sender(pid).map(|sender| {
                 sender.send(ProcessItem::MonitorProcessDown(
@@ -236,10 +240,6 @@ pub fn monitor_process_down(from: Pid, exit_reason: ExitReason) {
             remote.0.monitors.push(reference.id());
             remote.1.push(reference);
         }
-
-        if reference.is_local() {
-            alias_destroy(reference);
-        }
     }
 
     for (node, (monitor_down, references)) in remote_monitors {
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index ec64274..3e1ac2d 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -309,6 +309,10 @@ pub fn node_remote_supervisor_down(node: Node, process: Pid) {
 
         if let Some((_, monitors)) = NODE_MONITORS.remove(&node) {
             for (reference, monitor) in monitors {
+                if reference.is_local() {
+                    alias_destroy(reference);
+                }
+
                 match monitor {
                     NodeMonitor::Node(id) => {
                         process_sender(Pid::local(id)).map(|sender| {
@@ -328,10 +332,6 @@ pub fn node_remote_supervisor_down(node: Node, process: Pid) {
                         monitor_destroy(Pid::local(id), reference);
                     }
                 }
-
-                if reference.is_local() {
-                    alias_destroy(reference);
-                }
             }
         }
 
-- 
2.43.0


From 02e1ea9aa14686d92b05c7f091c848058ae69a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 08/51] fix: release a name together with its process, and only
 if that process still holds it

---
 hydra/src/process.rs          |  2 +-
 hydra/src/process_registry.rs | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index b4d917d..c00247c 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -431,7 +431,7 @@ impl Drop for Process {
         let process = process_drop(self.pid).unwrap();
 
         if let Some(name) = process.name {
-            process_name_remove(&name);
+            process_name_remove(&name, self.pid);
         }
 
         let exit_reason = process.exit_reason.unwrap_or_default();
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 27eec57..0e8abea 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -75,9 +75,9 @@ pub fn process_attach_handle(id: u64, handle: JoinHandle<()>) {
     });
 }
 
-/// Removes a registered name.
-pub fn process_name_remove(name: &str) {
-    PROCESS_NAMES.remove(name);
+/// Removes a registered name, if it's still held by the given process.
+pub fn process_name_remove(name: &str, pid: Pid) {
+    PROCESS_NAMES.remove_if(name, |_, id| *id == pid.id());
 }
 
 /// Checks if the process is alive.
@@ -146,14 +146,17 @@ pub fn process_register(pid: Pid, name: String) -> Result<(), ArgumentError> {
 
 /// Unregisters a process with the given name.
 pub fn process_unregister(name: &str) {
-    let Some((_, pid)) = PROCESS_NAMES.remove(name) else {
+    let Entry::Occupied(entry) = PROCESS_NAMES.entry(name.to_owned()) else {
         panic!("Name {:?} was not registered!", name);
     };
 
-    PROCESS_REGISTRY.alter(&pid, |_, mut process| {
+    // The name must not be available to others until the process has let go of it.
+    PROCESS_REGISTRY.alter(entry.get(), |_, mut process| {
         process.name = None;
         process
     });
+
+    entry.remove();
 }
 
 /// Processes an exit signal for the given [Pid] with the `exit_reason`.
-- 
2.43.0


From 26ed6aa06019a92c1d7a31982626558bc20f1cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 09/51] fix: unalias only removes an alias of the calling
 process

---
 hydra/src/alias.rs   |  9 +++++++++
 hydra/src/process.rs | 11 +++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/hydra/src/alias.rs b/hydra/src/alias.rs
index 7353c76..ee961ad 100644
--- a/hydra/src/alias.rs
+++ b/hydra/src/alias.rs
@@ -28,6 +28,15 @@ pub fn alias_destroy(reference: Reference) -> bool {
     ALIASES.remove(&reference.id()).is_some()
 }
 
+/// Destroys an alias for the given reference, returning `true` if the alias existed and belongs to `sender`.
+pub fn alias_destroy_owned(reference: Reference, sender: &ProcessSend) -> bool {
+    ALIASES
+        .remove_if(&reference.id(), |_, alias| {
+            alias.sender.same_channel(sender)
+        })
+        .is_some()
+}
+
 /// Destroys all of the alias for every given reference.
 pub fn alias_destroy_all<'a, A: IntoIterator<Item = &'a u64>>(ids: A) {
     for id in ids {
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index c00247c..037b369 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -13,6 +13,7 @@ use flume::Sender;
 use crate::alias_create;
 use crate::alias_destroy;
 use crate::alias_destroy_all;
+use crate::alias_destroy_owned;
 use crate::link_create;
 use crate::link_destroy;
 use crate::link_fill_info;
@@ -121,9 +122,15 @@ impl Process {
     ///
     /// Returns `true` if the alias was currently-active for the current process, or `false` otherwise.
     pub fn unalias(alias: Reference) -> bool {
-        PROCESS.with(|process| process.aliases.borrow_mut().remove(&alias.id()));
+        if alias.is_remote() {
+            return false;
+        }
+
+        PROCESS.with(|process| {
+            process.aliases.borrow_mut().remove(&alias.id());
 
-        alias_destroy(alias)
+            alias_destroy_owned(alias, &process.sender)
+        })
     }
 
     /// Returns the current [Pid].
-- 
2.43.0


From 3dce14b55a0c9f710962eb68f04ba1cffdc3875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 10/51] fix: register a timer before its task can finish

---
 hydra/src/process.rs          | 12 ++++++------
 hydra/src/process_registry.rs | 13 ++++++++++---
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 037b369..bb10e43 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -183,15 +183,15 @@ impl Process {
 
         let reference = Reference::new();
 
-        let handle = tokio::spawn(async move {
-            Process::sleep(duration).await;
-            Process::send(dest, message);
+        process_register_timer(reference, duration, || {
+            tokio::spawn(async move {
+                Process::sleep(duration).await;
+                Process::send(dest, message);
 
-            process_destroy_timer(reference);
+                process_destroy_timer(reference);
+            })
         });
 
-        process_register_timer(reference, duration, handle);
-
         reference
     }
 
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 0e8abea..9bd3044 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -256,9 +256,16 @@ pub fn process_name_list() -> Vec<String> {
         .collect()
 }
 
-/// Registers a timer.
-pub fn process_register_timer(timer: Reference, duration: Duration, handle: JoinHandle<()>) {
-    PROCESS_TIMERS.insert(timer.id(), (Instant::now() + duration, handle));
+/// Registers a timer whose task is started by `spawn`.
+pub fn process_register_timer<S: FnOnce() -> JoinHandle<()>>(
+    timer: Reference,
+    duration: Duration,
+    spawn: S,
+) {
+    // The entry is held while the task is started, so that the timer can't finish before it's registered.
+    let entry = PROCESS_TIMERS.entry(timer.id());
+
+    entry.insert((Instant::now() + duration, spawn()));
 }
 
 /// Reads a timer.
-- 
2.43.0


From e2b4a8d3d7ccb78593ef8a47b7d62a32d9f994da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 11/51] fix: all significant children must have exited for an
 automatic shutdown

---
 hydra/src/supervisor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 479ff14..6ea5615 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -740,7 +740,7 @@ impl Supervisor {
             return true;
         }
 
-        self.children.iter().any(|child| {
+        !self.children.iter().any(|child| {
             if child.pid.is_none() {
                 return false;
             }
-- 
2.43.0


From 999570b11c723af7273c8d4bfcdf3673f4cdfb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 12/51] fix: a long restart period does not crash the
 supervisor

---
 hydra/src/supervisor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 6ea5615..326b89b 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -752,9 +752,9 @@ impl Supervisor {
     /// Adds another restart to the backlog and returns `true` if we've exceeded our quota of restarts.
     fn add_restart(&mut self) -> bool {
         let now = Instant::now();
-        let threshold = now - self.max_duration;
 
-        self.restarts.retain(|restart| *restart >= threshold);
+        self.restarts
+            .retain(|restart| now.duration_since(*restart) <= self.max_duration);
         self.restarts.push(now);
 
         if self.restarts.len() > self.max_restarts {
-- 
2.43.0


From 547300f97acc47bfcff6ae6527eed25c37738f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 13/51] fix: free the id of a new temporary child that declines
 to start

---
 hydra/src/supervisor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 326b89b..d7cdc5d 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -717,7 +717,7 @@ impl Supervisor {
                 child.restarting = false;
 
                 if child.is_temporary() && pid.is_none() {
-                    self.children.remove(index);
+                    self.remove_child(index);
                 }
 
                 Ok(pid)
-- 
2.43.0


From 79057123f7ff998a4a189c55032db61282d136bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 14/51] fix: terminating a temporary child deletes its
 specification

---
 hydra/src/supervisor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index d7cdc5d..382245c 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -385,6 +385,11 @@ impl Supervisor {
 
         if let Some(index) = index {
             self.terminate_child_by_index(index).await;
+
+            if self.children[index].is_temporary() {
+                self.remove_child(index);
+            }
+
             Ok(())
         } else {
             Err(SupervisorError::NotFound)
-- 
2.43.0


From 1969f20c82eeb5173428a26a4781217764b43e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 15/51] fix: stop siblings in reverse start order before a
 restart

---
 hydra/src/supervisor.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 382245c..7344786 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -615,17 +615,9 @@ impl Supervisor {
         index: usize,
         all: bool,
     ) -> Option<(usize, ExitReason)> {
-        let mut indices = Vec::new();
-
-        let range = if all {
-            0..self.children.len()
-        } else {
-            index..self.children.len()
-        };
-
-        for tindex in range {
-            indices.push(tindex);
+        let start = if all { 0 } else { index };
 
+        for tindex in (start..self.children.len()).rev() {
             if index == tindex {
                 continue;
             }
@@ -633,7 +625,7 @@ impl Supervisor {
             self.terminate_child_by_index(tindex).await;
         }
 
-        for sindex in indices {
+        for sindex in start..self.children.len() {
             match self.start_child_by_index(sindex).await {
                 Ok(pid) => {
                     let child = &mut self.children[sindex];
-- 
2.43.0


From b64a9fdb7cc0979eb4893c50aded52517be9eb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 16/51] fix: do not restart temporary siblings

---
 hydra/src/supervisor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 7344786..2f94809 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -623,6 +623,11 @@ impl Supervisor {
             }
 
             self.terminate_child_by_index(tindex).await;
+
+            // Temporary children are never restarted.
+            if self.children[tindex].is_temporary() {
+                self.remove_child(tindex);
+            }
         }
 
         for sindex in start..self.children.len() {
-- 
2.43.0


From 5711409b5cd3c49976bcb4e63aab09bfb27073b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 17/51] fix: a child terminated while waiting for its restart
 is not restarted or counted

---
 hydra/src/supervisor.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 2f94809..9f181ad 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -462,12 +462,12 @@ impl Supervisor {
     async fn terminate_child_by_index(&mut self, index: usize) {
         let child = &mut self.children[index];
 
+        child.restarting = false;
+
         let Some(pid) = child.pid.take() else {
             return;
         };
 
-        child.restarting = false;
-
         let _ = shutdown(pid, child.shutdown()).await;
     }
 
@@ -649,14 +649,14 @@ impl Supervisor {
 
     /// Tries to restart the given child again, returns if an error occured.
     async fn try_again_restart(&mut self, index: usize) -> Result<(), ExitReason> {
-        if self.add_restart() {
-            return Err(ExitReason::from("shutdown"));
-        }
-
         if !self.children[index].restarting {
             return Ok(());
         }
 
+        if self.add_restart() {
+            return Err(ExitReason::from("shutdown"));
+        }
+
         self.restart(index).await;
 
         Ok(())
-- 
2.43.0


From 7a6e1393ff1d5316cc35a447f2306c58ef70f181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 18/51] fix: a child waiting for its restart is not listed as
 running

---
 hydra/src/supervisor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 9f181ad..0a5b4ad 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -570,6 +570,7 @@ impl Supervisor {
                         #[cfg(not(feature = "tracing"))]
                         let _ = reason;
 
+                        self.children[index].pid = None;
                         self.children[index].restarting = true;
 
                         Supervisor::cast(Process::current(), TryAgainRestartId(id));
@@ -586,6 +587,7 @@ impl Supervisor {
                     #[cfg(not(feature = "tracing"))]
                     let _ = reason;
 
+                    self.children[index].pid = None;
                     self.children[index].restarting = true;
 
                     Supervisor::cast(Process::current(), TryAgainRestartId(id));
@@ -601,6 +603,7 @@ impl Supervisor {
                     #[cfg(not(feature = "tracing"))]
                     let _ = reason;
 
+                    self.children[index].pid = None;
                     self.children[index].restarting = true;
 
                     Supervisor::cast(Process::current(), TryAgainRestartId(id));
@@ -743,7 +746,7 @@ impl Supervisor {
         }
 
         !self.children.iter().any(|child| {
-            if child.pid.is_none() {
+            if child.pid.is_none() && !child.restarting {
                 return false;
             }
 
-- 
2.43.0


From 15e6d8517c19caa8d3a8ce23da21b2a2702442a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 19/51] fix: a child specification without a start routine does
 not crash the supervisor

---
 hydra/src/supervisor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hydra/src/supervisor.rs b/hydra/src/supervisor.rs
index 0a5b4ad..50e7bac 100644
--- a/hydra/src/supervisor.rs
+++ b/hydra/src/supervisor.rs
@@ -668,7 +668,12 @@ impl Supervisor {
     /// Starts the given child by it's index and returns what the result was.
     async fn start_child_by_index(&mut self, index: usize) -> Result<Option<Pid>, ExitReason> {
         let child = &mut self.children[index];
-        let start_child = Pin::from(child.spec.start.as_ref().unwrap()()).await;
+
+        let Some(start) = child.spec.start.as_ref() else {
+            return Err(ExitReason::from("start_not_supported"));
+        };
+
+        let start_child = Pin::from(start()).await;
 
         match start_child {
             Ok(pid) => {
-- 
2.43.0


From 6387b0cc1e588c7f1cc4bee3b848a6bb495f83fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 20/51] fix: starting a process in a registry without a start
 routine reports it instead of panicking

---
 hydra/src/registry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index 889c238..af56fa6 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -360,7 +360,11 @@ impl Registry {
             return Err(RegistryError::AlreadyStarted(process));
         }
 
-        let start_child = Pin::from(self.start.as_ref().unwrap()(key.clone())).await;
+        let Some(start) = self.start.as_ref() else {
+            return Err(RegistryError::StartNotSupported);
+        };
+
+        let start_child = Pin::from(start(key.clone())).await;
 
         match start_child {
             Ok(pid) => {
-- 
2.43.0


From 6a2702c46b6bf8991676196ca227e2b3451ed880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 21/51] fix: stopping a registered process does not stop one
 that was removed at the same time

---
 hydra/src/registry.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index af56fa6..eca404a 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -422,7 +422,8 @@ impl Registry {
 
     /// Stops a process by the given key.
     fn stop_by_key(&mut self, key: RegistryKey) -> Result<(), RegistryError> {
-        let Some(process) = lookup_process(&self.name, &key) else {
+        // The entry is taken first, someone else could be removing it right now.
+        let Some(process) = remove_process(&self.name, &key) else {
             return Err(RegistryError::NotFound);
         };
 
@@ -431,8 +432,6 @@ impl Registry {
 
         self.lookup.remove(&process);
 
-        remove_process(&self.name, &key);
-
         Ok(())
     }
 
-- 
2.43.0


From aba1d2008650a666474c29850b97d81a5ee1ab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 22/51] fix: dropping a registry that is not running leaves the
 running one's table alone

---
 hydra/src/registry.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index eca404a..eaf5af8 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -107,6 +107,7 @@ pub struct Registry {
     >,
     shutdown: Shutdown,
     lookup: BTreeMap<Pid, RegistryKey>,
+    running: bool,
 }
 
 impl Registry {
@@ -120,6 +121,7 @@ impl Registry {
             start: None,
             shutdown: Shutdown::BrutalKill,
             lookup: BTreeMap::new(),
+            running: false,
         }
     }
 
@@ -472,6 +474,11 @@ impl Registry {
 
 impl Drop for Registry {
     fn drop(&mut self) {
+        // The table belongs to the running instance, not to copies or instances that were refused.
+        if !self.running {
+            return;
+        }
+
         REGISTRY.remove(&self.name);
 
         for process in self.lookup.keys() {
@@ -487,6 +494,8 @@ impl GenServer for Registry {
     async fn init(&mut self) -> Result<(), ExitReason> {
         Process::set_flags(ProcessFlags::TRAP_EXIT);
 
+        self.running = true;
+
         Ok(())
     }
 
-- 
2.43.0


From 0dc93e89bb52c2fd260bf797e9d77e6d7c2ed799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 23/51] fix: a registry started under another name is found by
 that name

---
 hydra/src/registry.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hydra/src/registry.rs b/hydra/src/registry.rs
index eaf5af8..6ae4d93 100644
--- a/hydra/src/registry.rs
+++ b/hydra/src/registry.rs
@@ -317,9 +317,11 @@ impl Registry {
     }
 
     /// Create a registry proces not linked to a supervision tree.
-    pub async fn start(self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
-        if options.name.is_none() {
-            options = options.name(self.name.clone());
+    pub async fn start(mut self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
+        // The table is found by the name that the process is registered under.
+        match &options.name {
+            Some(name) => self.name = name.clone(),
+            None => options = options.name(self.name.clone()),
         }
 
         GenServer::start(self, options.into()).await
@@ -328,9 +330,11 @@ impl Registry {
     /// Creates a registry process as part of a supervision tree.
     ///
     /// For example, this function ensures that the registry is linked to the calling process (its supervisor).
-    pub async fn start_link(self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
-        if options.name.is_none() {
-            options = options.name(self.name.clone());
+    pub async fn start_link(mut self, mut options: RegistryOptions) -> Result<Pid, ExitReason> {
+        // The table is found by the name that the process is registered under.
+        match &options.name {
+            Some(name) => self.name = name.clone(),
+            None => options = options.name(self.name.clone()),
         }
 
         GenServer::start_link(self, options.into()).await
-- 
2.43.0


From cfe9376f9c9fd6c74af4e125fe5ae658a27d3256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 24/51] fix: clearing a hash ring clears its overrides

---
 hydra/src/hash_ring.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hydra/src/hash_ring.rs b/hydra/src/hash_ring.rs
index d620e36..907eade 100644
--- a/hydra/src/hash_ring.rs
+++ b/hydra/src/hash_ring.rs
@@ -205,7 +205,8 @@ where
     pub fn clear(&self) {
         let _ring_lock = self.ring_lock.lock().unwrap();
 
-        self.ring.store(Arc::new(Vec::new()))
+        self.ring.store(Arc::new(Vec::new()));
+        self.overrides.clear();
     }
 
     /// Hashes the given key using the selected hasher.
-- 
2.43.0


From 2846e416a33e5802ce9a2008dc03a7838369e141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:23 +0000
Subject: [PATCH 25/51] fix: drop the reply to a call that has already timed
 out

---
 hydra/src/gen_server.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hydra/src/gen_server.rs b/hydra/src/gen_server.rs
index 3609167..aefc62c 100644
--- a/hydra/src/gen_server.rs
+++ b/hydra/src/gen_server.rs
@@ -218,13 +218,10 @@ pub trait GenServer: Sized + Send + 'static {
         let server = server.into();
 
         async move {
-            let monitor = if server.is_local() {
-                Process::monitor(server.clone())
-            } else {
-                Process::monitor_alias(server.clone(), true)
-            };
+            // The alias makes sure that a reply which arrives after a timeout is dropped.
+            let monitor = Process::monitor_alias(server.clone(), true);
 
-            let from = From::new(Process::current(), monitor, server.is_remote());
+            let from = From::new(Process::current(), monitor, true);
 
             Process::send(server, GenServerMessage::Call(from, message));
 
-- 
2.43.0


From 73ac94edfbc906f3ade585e36a23532bd5e68524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:06 +0000
Subject: [PATCH 26/51] fix: an application test fails when its main process is
 killed or cannot start

---
 hydra/src/application.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/hydra/src/application.rs b/hydra/src/application.rs
index 47148d5..57284a9 100644
--- a/hydra/src/application.rs
+++ b/hydra/src/application.rs
@@ -172,7 +172,7 @@ pub trait Application: Sized + Send + 'static {
                         match message {
                             Message::System(SystemMessage::Exit(epid, ereason)) => {
                                 if epid == pid {
-                                    tx.send(Some(ereason)).unwrap();
+                                    tx.send(ereason).unwrap();
                                     break;
                                 }
                             }
@@ -180,15 +180,18 @@ pub trait Application: Sized + Send + 'static {
                         }
                     },
                     Err(reason) => {
-                        tx.send(Some(reason)).unwrap();
+                        tx.send(reason).unwrap();
                     }
                 }
             });
 
-            if let Ok(Some(reason)) = rx.await {
-                if reason.is_custom() && reason != "shutdown" {
-                    panic!("Exited: {:?}", reason);
+            match rx.await {
+                Ok(reason) => {
+                    if !reason.is_normal() && reason != "shutdown" {
+                        panic!("Exited: {:?}", reason);
+                    }
                 }
+                Err(_) => panic!("Exited before the application had started!"),
             }
         });
     }
-- 
2.43.0


From 834eed70f4f03506bd34f9bc906ec649df6c1cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 27/51] fix: a websocket handler is terminated once and does
 nothing after it has closed

---
 hydra-websockets/src/websocket_handler.rs | 45 +++++++++++++++--------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index a9ca593..9051c60 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -84,12 +84,13 @@ where
 }
 
 /// Internal routine to process commands from a [WebsocketHandler] callback.
-async fn websocket_process_commands<T, S>(
+///
+/// Returns the reason the handler must exit with, if it has to.
+async fn websocket_process_commands<S>(
     commands: WebsocketCommands,
-    handler: &mut T,
     stream: &mut WebSocketStream<S>,
-) where
-    T: WebsocketHandler + Send + 'static,
+) -> Result<(), ExitReason>
+where
     S: AsyncRead + AsyncWrite + Unpin + Send + 'static,
 {
     let mut close_command: Option<WebsocketCommand> = None;
@@ -111,9 +112,7 @@ async fn websocket_process_commands<T, S>(
     let mut sends = stream::iter(sends);
 
     if let Err(error) = stream.send_all(&mut sends).await {
-        handler.terminate(error_to_reason(&error)).await;
-
-        Process::exit(Process::current(), error_to_reason(&error))
+        return Err(error_to_reason(&error));
     }
 
     if let Some(WebsocketCommand::Close(code, reason)) = close_command {
@@ -124,13 +123,23 @@ async fn websocket_process_commands<T, S>(
             }))
             .await
         {
-            handler.terminate(error_to_reason(&error)).await;
-
-            Process::exit(Process::current(), error_to_reason(&error));
-        } else {
-            Process::exit(Process::current(), ExitReason::Normal);
+            return Err(error_to_reason(&error));
         }
+
+        return Err(ExitReason::Normal);
     }
+
+    Ok(())
+}
+
+/// Internal routine to terminate a [WebsocketHandler] and exit with the given `reason`.
+async fn websocket_terminate<T>(handler: &mut T, reason: ExitReason)
+where
+    T: WebsocketHandler + Send + 'static,
+{
+    handler.terminate(reason.clone()).await;
+
+    Process::exit(Process::current(), reason);
 }
 
 /// Internal [WebsocketHandler] start routine.
@@ -142,7 +151,9 @@ where
     match handler.websocket_init().await {
         Ok(commands) => {
             if let Some(commands) = commands {
-                websocket_process_commands(commands, &mut handler, &mut stream).await;
+                if let Err(reason) = websocket_process_commands(commands, &mut stream).await {
+                    return websocket_terminate(&mut handler, reason).await;
+                }
             }
         }
         Err(reason) => {
@@ -156,7 +167,9 @@ where
                 match handler.websocket_info(message).await {
                     Ok(commands) => {
                         if let Some(commands) = commands {
-                            websocket_process_commands(commands, &mut handler, &mut stream).await;
+                            if let Err(reason) = websocket_process_commands(commands, &mut stream).await {
+                                return websocket_terminate(&mut handler, reason).await;
+                            }
                         }
                     }
                     Err(reason) => {
@@ -194,7 +207,9 @@ where
                         match handler.websocket_handle(message).await {
                             Ok(commands) => {
                                 if let Some(commands) = commands {
-                                    websocket_process_commands(commands, &mut handler, &mut stream).await;
+                                    if let Err(reason) = websocket_process_commands(commands, &mut stream).await {
+                                        return websocket_terminate(&mut handler, reason).await;
+                                    }
                                 }
                             }
                             Err(reason) => {
-- 
2.43.0


From fde2904982852f6d21d2167fc7a8fca9e28114c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 28/51] fix: terminate a websocket handler whose init stops

---
 hydra-websockets/src/websocket_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index 9051c60..68e1b69 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -157,7 +157,7 @@ where
             }
         }
         Err(reason) => {
-            return Process::exit(Process::current(), reason);
+            return websocket_terminate(&mut handler, reason).await;
         }
     }
 
-- 
2.43.0


From 1fd3f5bba65424616450433554ea72041eca8c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 29/51] fix: answer the close frame of a websocket client

---
 hydra-websockets/src/websocket_handler.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hydra-websockets/src/websocket_handler.rs b/hydra-websockets/src/websocket_handler.rs
index 68e1b69..1b04aed 100644
--- a/hydra-websockets/src/websocket_handler.rs
+++ b/hydra-websockets/src/websocket_handler.rs
@@ -198,6 +198,9 @@ where
                             }
                             WebsocketMessage::Close(_) => {
                                 should_close = true;
+
+                                // Sends the close frame which answers the one received, if still possible.
+                                let _ = stream.flush().await;
                             }
                             _ => {
                                 // No special handling.
-- 
2.43.0


From 66b9805e62888b40bfef5c8ce7940a09a66daab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 30/51] fix: tell a websocket client that its handshake is
 refused

---
 hydra-websockets/src/websocket_server.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hydra-websockets/src/websocket_server.rs b/hydra-websockets/src/websocket_server.rs
index bdb2b47..e42a3dd 100644
--- a/hydra-websockets/src/websocket_server.rs
+++ b/hydra-websockets/src/websocket_server.rs
@@ -13,6 +13,7 @@ use tokio_tungstenite::accept_hdr_async_with_config;
 use tokio_tungstenite::tungstenite;
 
 use tungstenite::handshake::server::ErrorResponse;
+use tungstenite::http::StatusCode;
 use tungstenite::protocol::WebSocketConfig;
 
 #[cfg(feature = "native-tls")]
@@ -125,7 +126,14 @@ where
             handler = Some(rhandler);
             Ok(response)
         }
-        Err(reason) => Err(ErrorResponse::new(Some(format!("{:?}", reason)))),
+        Err(reason) => {
+            let mut response = ErrorResponse::new(Some(format!("{:?}", reason)));
+
+            // A response with a successful status would not be sent.
+            *response.status_mut() = StatusCode::FORBIDDEN;
+
+            Err(response)
+        }
     };
 
     let ws_config = WebSocketConfig::default()
-- 
2.43.0


From 24fb632477d420fbd9c0dee169059c5a29c0a235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:00 +0000
Subject: [PATCH 31/51] fix: removing a monitor of a remote process reaches its
 node

---
 hydra/src/monitor.rs     | 15 +++------------
 hydra/src/node_remote.rs | 11 ++++++-----
 2 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index b660339..96b2f88 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -51,9 +51,9 @@ pub fn monitor_destroy(process: Pid, reference: Reference) {
     } else {
         let monitor = Monitor::new(false, Some(process.id()), None, None, reference.id());
 
-        node_send_frame(monitor.into(), reference.node());
+        node_send_frame(monitor.into(), process.node());
 
-        if let Some((name, address)) = node_lookup_remote(reference.node()) {
+        if let Some((name, address)) = node_lookup_remote(process.node()) {
             node_process_monitor_destroy(Node::from((name, address)), reference);
         }
     }
@@ -70,16 +70,7 @@ pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a Proces
                     continue;
                 };
 
-                if pid.is_local() {
-                    MONITORS.alter(&pid.id(), |_, mut value| {
-                        value.remove(reference);
-                        value
-                    });
-                } else {
-                    let monitor = Monitor::new(false, Some(pid.id()), None, None, reference.id());
-
-                    node_send_frame(monitor.into(), reference.node());
-                }
+                monitor_destroy(*pid, *reference);
             }
             ProcessMonitor::ForNode(node) => {
                 node_monitor_destroy(node.clone(), *reference);
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index f5edec7..99d8dc9 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -158,14 +158,15 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
             Frame::Monitor(monitor) => {
                 let node = node_register(supervisor.node.clone(), false);
 
-                let from_id = monitor
-                    .from_id
-                    .expect("Must have a from_id for remote monitors!");
-
-                let from = Pid::remote(from_id, node);
                 let reference = Reference::remote(monitor.reference_id, node);
 
                 if monitor.install {
+                    let from_id = monitor
+                        .from_id
+                        .expect("Must have a from_id for remote monitors!");
+
+                    let from = Pid::remote(from_id, node);
+
                     if let Some(id) = monitor.process_id {
                         let process = Pid::local(id);
 
-- 
2.43.0


From 2c1cb27d9cda3381e0769c4221c0d245349ae032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:00 +0000
Subject: [PATCH 32/51] fix: a link to a remote process ends with it

---
 hydra/src/node_registry.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 3e1ac2d..80ffa44 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -535,6 +535,8 @@ pub fn node_process_link_down(node: Node, process: Pid, from: Pid, exit_reason:
     });
 
     if found {
+        link_destroy(process, from);
+
         process_exit_signal_linked(process, from, exit_reason);
     }
 }
-- 
2.43.0


From c08eb9e49ac8c4ceee082416ed31c4b26bda566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:40 +0000
Subject: [PATCH 33/51] fix: removing a monitor of a remote name works before
 its process is known

---
 hydra/src/monitor.rs          | 25 ++++++++++++++++++++-----
 hydra/src/node_remote.rs      |  8 ++++++--
 hydra/src/process.rs          | 17 ++++++++++++-----
 hydra/src/process_receiver.rs |  6 ++----
 4 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/hydra/src/monitor.rs b/hydra/src/monitor.rs
index 96b2f88..ddcc66e 100644
--- a/hydra/src/monitor.rs
+++ b/hydra/src/monitor.rs
@@ -66,11 +66,9 @@ pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a Proces
     for (reference, monitor) in monitors {
         match monitor {
             ProcessMonitor::ForProcess(pid) => {
-                let Some(pid) = pid else {
-                    continue;
-                };
-
-                monitor_destroy(*pid, *reference);
+                if let Some(pid) = pid {
+                    monitor_destroy(*pid, *reference);
+                }
             }
             ProcessMonitor::ForNode(node) => {
                 node_monitor_destroy(node.clone(), *reference);
@@ -83,6 +81,23 @@ pub fn monitor_destroy_all<'a, M: IntoIterator<Item = (&'a Reference, &'a Proces
     }
 }
 
+/// Updates a monitor that was installed by name with the process it was installed for.
+pub fn monitor_update(
+    monitors: &mut BTreeMap<Reference, ProcessMonitor>,
+    reference: Reference,
+    process: Pid,
+) {
+    match monitors.get_mut(&reference) {
+        Some(monitor) => {
+            if matches!(monitor, ProcessMonitor::ForProcess(None)) {
+                *monitor = ProcessMonitor::ForProcess(Some(process));
+            }
+        }
+        // The monitor was removed before it's process was known, so the process never heard about it.
+        None => monitor_destroy(process, reference),
+    }
+}
+
 /// Installs a monitor for the given process.
 pub fn monitor_install(process: Dest, reference: Reference, from: Pid) {
     let dest = process.clone();
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 99d8dc9..bcdf672 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -226,8 +226,12 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                 let reference = Reference::local(monitor_update.reference_id);
                 let from = Pid::remote(monitor_update.from_id, node);
 
-                process_sender(Pid::local(monitor_update.process_id))
-                    .map(|sender| sender.send(ProcessItem::MonitorProcessUpdate(reference, from)));
+                match process_sender(Pid::local(monitor_update.process_id)) {
+                    Some(sender) => {
+                        let _ = sender.send(ProcessItem::MonitorProcessUpdate(reference, from));
+                    }
+                    None => monitor_destroy(from, reference),
+                }
             }
             Frame::Link(link) => {
                 let node = node_register(supervisor.node.clone(), false);
diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index bb10e43..8abf5b2 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -25,6 +25,7 @@ use crate::monitor_destroy_all;
 use crate::monitor_fill_info;
 use crate::monitor_install;
 use crate::monitor_process_down;
+use crate::monitor_update;
 use crate::node_process_send_exit;
 use crate::process_alive;
 use crate::process_attach_handle;
@@ -383,11 +384,10 @@ impl Process {
             panic!("Invalid process monitor reference!");
         };
 
-        let Some(pid) = pid else {
-            return;
-        };
-
-        monitor_destroy(pid, monitor);
+        // When the process isn't known yet, the monitor is destroyed as soon as it is.
+        if let Some(pid) = pid {
+            monitor_destroy(pid, monitor);
+        }
 
         alias_destroy(monitor);
     }
@@ -446,6 +446,13 @@ impl Drop for Process {
         link_process_down(self.pid, exit_reason.clone());
 
         monitor_process_down(self.pid, exit_reason);
+
+        for item in self.receiver.drain() {
+            if let ProcessItem::MonitorProcessUpdate(reference, process) = item {
+                monitor_update(&mut self.monitors.borrow_mut(), reference, process);
+            }
+        }
+
         monitor_destroy_all(self.monitors.borrow().iter());
 
         alias_destroy_all(self.aliases.borrow().iter());
diff --git a/hydra/src/process_receiver.rs b/hydra/src/process_receiver.rs
index 93029f9..d5bcb90 100644
--- a/hydra/src/process_receiver.rs
+++ b/hydra/src/process_receiver.rs
@@ -1,9 +1,9 @@
 use std::marker::PhantomData;
 
 use crate::deserialize_value;
+use crate::monitor_update;
 use crate::Message;
 use crate::ProcessItem;
-use crate::ProcessMonitor;
 use crate::Receivable;
 use crate::SystemMessage;
 use crate::PROCESS;
@@ -226,9 +226,7 @@ fn process_item<T: Receivable>(item: &mut ProcessItem) -> Result<Option<Message<
             // Update the existing monitor reference so that if we go down before it fires,
             // We can gracefully clean up the remote monitor, this is only for named monitors.
             PROCESS.with(|process| {
-                if let Some(monitor) = process.monitors.borrow_mut().get_mut(reference) {
-                    *monitor = ProcessMonitor::ForProcess(Some(*pid));
-                }
+                monitor_update(&mut process.monitors.borrow_mut(), *reference, *pid);
             });
 
             Ok(None)
-- 
2.43.0


From cbe174657076c8388889c7893194ec1cc5210c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:37 +0000
Subject: [PATCH 34/51] fix: a named process that dies while a remote monitor
 is installed is reported

---
 hydra/src/node_remote.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index bcdf672..e01c20d 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -187,15 +187,32 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                             }
                         });
                     } else if let Some(name) = monitor.process_name {
-                        if let Some(id) = process_name_lookup(&name) {
-                            monitor_create(id, reference, from, None);
+                        let id = process_name_lookup(&name);
 
+                        // The update must be sent before a down message for the same monitor.
+                        if let Some(id) = id {
                             let monitor_update =
                                 MonitorUpdate::new(from_id, id.id(), reference.id());
 
                             node_send_frame(monitor_update.into(), node);
-                            node_process_monitor_cleanup(supervisor.node.clone(), reference, id);
-                        } else {
+                        }
+
+                        let installed = id.is_some_and(|id| {
+                            process_exists_lock(id, |exists| {
+                                if exists {
+                                    monitor_create(id, reference, from, None);
+                                    node_process_monitor_cleanup(
+                                        supervisor.node.clone(),
+                                        reference,
+                                        id,
+                                    );
+                                }
+
+                                exists
+                            })
+                        });
+
+                        if !installed {
                             let mut monitor_down = MonitorDown::new(ExitReason::from("noproc"));
 
                             monitor_down.monitors.push(reference.id());
-- 
2.43.0


From 6a62fe3e58a3a0c521f31033431c3fe100e24978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:09 +0000
Subject: [PATCH 35/51] fix: NodeOptions::heartbeat_timeout sets the heartbeat
 timeout

---
 hydra/src/node_options.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/node_options.rs b/hydra/src/node_options.rs
index cffa824..9a99132 100644
--- a/hydra/src/node_options.rs
+++ b/hydra/src/node_options.rs
@@ -51,7 +51,7 @@ impl NodeOptions {
 
     /// Sets the time it takes to consider a remote node down when not receiving any data.
     pub fn heartbeat_timeout(mut self, duration: Duration) -> Self {
-        self.handshake_timeout = duration;
+        self.heartbeat_timeout = duration;
         self
     }
 }
-- 
2.43.0


From afbc701594f43459170214f8b7ec13764be7398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 36/51] fix: stopping the local node ends its connections

---
 hydra/src/node_local.rs  | 1 -
 hydra/src/node_remote.rs | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/hydra/src/node_local.rs b/hydra/src/node_local.rs
index 3449f11..8ded40d 100644
--- a/hydra/src/node_local.rs
+++ b/hydra/src/node_local.rs
@@ -25,7 +25,6 @@ pub enum NodeLocalSupervisorMessage {
 pub struct NodeLocalSupervisor {
     pub name: String,
     pub options: NodeOptions,
-    #[allow(dead_code)]
     pub process: Pid,
 }
 
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index e01c20d..52728db 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -313,7 +313,7 @@ async fn node_remote_supervisor(
         local_supervisor: supervisor,
     });
 
-    Process::link(supervisor.process);
+    Process::link(supervisor.local_supervisor.process);
 
     if !node_accept(node.clone(), Process::current()) {
         panic!("Not accepting node supervisor!");
-- 
2.43.0


From f86ea5a60ed43ee9d12159825688722fa6aaab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:33 +0000
Subject: [PATCH 37/51] fix: disconnecting or forgetting a node tells everyone
 concerned

---
 hydra/src/node_registry.rs | 109 ++++++++++++++++++++-----------------
 hydra/src/node_remote.rs   |   2 +-
 2 files changed, 61 insertions(+), 50 deletions(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index 80ffa44..e5bc4e5 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -134,12 +134,17 @@ pub fn node_local_process() -> Option<Pid> {
 }
 
 /// Sets available worker processes for a node, then, drains any pending messages to them.
-pub fn node_register_workers(node: Node, sender: Pid, receiver: Pid) {
+pub fn node_register_workers(node: Node, supervisor: Pid, sender: Pid, receiver: Pid) {
     let Some(entry) = NODE_MAP.get(&node) else {
         return;
     };
 
     NODE_REGISTRATIONS.alter(&entry, |_, mut value| {
+        // The connection was given up already.
+        if value.supervisor != Some(supervisor) {
+            return value;
+        }
+
         value.sender = Some(sender);
         value.receiver = Some(receiver);
 
@@ -285,10 +290,8 @@ pub fn node_remote_supervisor_down(node: Node, process: Pid) {
     };
 
     NODE_REGISTRATIONS.alter(&id, |_, mut value| {
-        if value
-            .supervisor
-            .is_some_and(|supervisor| supervisor != process)
-        {
+        // The connection was given up already.
+        if value.supervisor != Some(process) {
             return value;
         }
 
@@ -297,48 +300,53 @@ pub fn node_remote_supervisor_down(node: Node, process: Pid) {
         value.receiver = None;
         value.state = NodeState::Known;
 
-        if let Some((_, links)) = NODE_LINKS.remove(&node) {
-            for (from, process_id) in links {
-                let process = Pid::local(process_id);
+        node_connection_lost(&node);
+
+        value
+    });
+}
 
-                link_destroy(process, from);
+/// Notifies everyone with a link or monitor on the given node that the connection to it was lost.
+fn node_connection_lost(node: &Node) {
+    if let Some((_, links)) = NODE_LINKS.remove(node) {
+        for (from, process_id) in links {
+            let process = Pid::local(process_id);
 
-                process_exit_signal_linked(process, from, ExitReason::from("noconnection"));
-            }
+            link_destroy(process, from);
+
+            process_exit_signal_linked(process, from, ExitReason::from("noconnection"));
         }
+    }
 
-        if let Some((_, monitors)) = NODE_MONITORS.remove(&node) {
-            for (reference, monitor) in monitors {
-                if reference.is_local() {
-                    alias_destroy(reference);
-                }
+    if let Some((_, monitors)) = NODE_MONITORS.remove(node) {
+        for (reference, monitor) in monitors {
+            if reference.is_local() {
+                alias_destroy(reference);
+            }
 
-                match monitor {
-                    NodeMonitor::Node(id) => {
-                        process_sender(Pid::local(id)).map(|sender| {
-                            sender.send(ProcessItem::MonitorNodeDown(node.clone(), reference))
-                        });
-                    }
-                    NodeMonitor::ProcessMonitor(id, dest) => {
-                        process_sender(Pid::local(id)).map(|sender| {
-                            sender.send(ProcessItem::MonitorProcessDown(
-                                dest,
-                                reference,
-                                ExitReason::from("noconnection"),
-                            ))
-                        });
-                    }
-                    NodeMonitor::ProcessMonitorCleanup(id) => {
-                        monitor_destroy(Pid::local(id), reference);
-                    }
+            match monitor {
+                NodeMonitor::Node(id) => {
+                    process_sender(Pid::local(id)).map(|sender| {
+                        sender.send(ProcessItem::MonitorNodeDown(node.clone(), reference))
+                    });
+                }
+                NodeMonitor::ProcessMonitor(id, dest) => {
+                    process_sender(Pid::local(id)).map(|sender| {
+                        sender.send(ProcessItem::MonitorProcessDown(
+                            dest,
+                            reference,
+                            ExitReason::from("noconnection"),
+                        ))
+                    });
+                }
+                NodeMonitor::ProcessMonitorCleanup(id) => {
+                    monitor_destroy(Pid::local(id), reference);
                 }
             }
         }
+    }
 
-        NODE_PENDING_MESSAGES.remove(&node);
-
-        value
-    });
+    NODE_PENDING_MESSAGES.remove(node);
 }
 
 /// Returns the node list excluding the local node.
@@ -376,32 +384,35 @@ pub fn node_disconnect(node: Node) {
     };
 
     NODE_REGISTRATIONS.alter(&id, |_, mut value| {
-        NODE_PENDING_MESSAGES.remove(&node);
-
         if let Some(supervisor) = value.supervisor.take() {
             Process::exit(supervisor, ExitReason::Kill);
+
+            value.sender = None;
+            value.receiver = None;
+            value.state = NodeState::Known;
+
+            node_connection_lost(&node);
         }
 
-        value.state = NodeState::Known;
         value
     });
 }
 
 /// Disconnects and forgets a node completely.
 pub fn node_forget(node: Node) {
-    let Some((_, id)) = NODE_MAP.remove(&node) else {
-        return;
-    };
-
-    let Some((_, registration)) = NODE_REGISTRATIONS.remove(&id) else {
+    let Entry::Occupied(entry) = NODE_MAP.entry(node.clone()) else {
         return;
     };
 
-    NODE_PENDING_MESSAGES.remove(&node);
+    if let Some((_, registration)) = NODE_REGISTRATIONS.remove(entry.get()) {
+        if let Some(supervisor) = registration.supervisor {
+            Process::exit(supervisor, ExitReason::Kill);
 
-    if let Some(supervisor) = registration.supervisor {
-        Process::exit(supervisor, ExitReason::Kill);
+            node_connection_lost(&node);
+        }
     }
+
+    entry.remove();
 }
 
 /// Looks up the node information for the local node.
diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index 52728db..d2e8745 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -322,7 +322,7 @@ async fn node_remote_supervisor(
     let sender = Process::spawn_link(node_remote_sender(writer, supervisor.clone()));
     let receiver = Process::spawn_link(node_remote_receiver(reader, supervisor.clone()));
 
-    node_register_workers(node, sender, receiver);
+    node_register_workers(node, supervisor.process, sender, receiver);
 
     loop {
         let message = Process::receive::<NodeRemoteSupervisorMessage>().await;
-- 
2.43.0


From 3a0557b9ce6351e4f919232d033a3fa511b4ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 38/51] fix: stopping the local node tells its watchers and
 leaves a restarted node alone

---
 hydra/src/node_local.rs    |  2 +-
 hydra/src/node_registry.rs | 56 ++++++++++++++++++++++++++++++--------
 2 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/hydra/src/node_local.rs b/hydra/src/node_local.rs
index 8ded40d..263c8f9 100644
--- a/hydra/src/node_local.rs
+++ b/hydra/src/node_local.rs
@@ -30,7 +30,7 @@ pub struct NodeLocalSupervisor {
 
 impl Drop for NodeLocalSupervisor {
     fn drop(&mut self) {
-        node_local_panic();
+        node_local_panic(self.process);
     }
 }
 
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index e5bc4e5..d63ebd4 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -103,27 +103,59 @@ pub fn node_local_start(name: String, options: NodeOptions) -> Pid {
 
 /// Stops the local node, forgetting all nodes.
 pub fn node_local_stop() {
-    let Some((_, _)) = NODE_MAP.remove(&Node::Local) else {
+    let Some(supervisor) = node_local_take(|_| true) else {
         panic!("Local node not started!");
     };
 
-    NODE_MAP.clear();
+    Process::exit(supervisor, ExitReason::Kill);
 
-    if let Some(entry) = NODE_REGISTRATIONS.get(&LOCAL_NODE_ID) {
-        if let Some(supervisor) = entry.supervisor {
-            Process::exit(supervisor, ExitReason::Kill);
-        }
+    node_local_clear();
+}
+
+/// Cleans up distribution information when the local node goes down unexpectedly.
+pub fn node_local_panic(process: Pid) {
+    // The local node may have been stopped, and started again since.
+    if node_local_take(|supervisor| supervisor == process).is_some() {
+        node_local_clear();
     }
+}
 
-    NODE_REGISTRATIONS.clear();
-    NODE_PENDING_MESSAGES.clear();
+/// Takes the process responsible for the local node, whoever has it is the one to clean up.
+fn node_local_take<P: FnOnce(Pid) -> bool>(predicate: P) -> Option<Pid> {
+    NODE_REGISTRATIONS
+        .get_mut(&LOCAL_NODE_ID)
+        .and_then(|mut entry| match entry.supervisor {
+            Some(supervisor) if predicate(supervisor) => entry.supervisor.take(),
+            _ => None,
+        })
 }
 
-/// Cleans up distribution information when the local node goes down unexpectedly.
-pub fn node_local_panic() {
-    NODE_MAP.clear();
-    NODE_REGISTRATIONS.clear();
+/// Clears all nodes, and notifies everyone with a link or monitor on one of them.
+fn node_local_clear() {
+    NODE_MAP.retain(|node, id| {
+        if node.is_local() {
+            return true;
+        }
+
+        NODE_REGISTRATIONS.remove(id);
+
+        false
+    });
+
+    let mut nodes: BTreeSet<Node> = BTreeSet::new();
+
+    nodes.extend(NODE_LINKS.iter().map(|entry| entry.key().clone()));
+    nodes.extend(NODE_MONITORS.iter().map(|entry| entry.key().clone()));
+
+    for node in nodes {
+        node_connection_lost(&node);
+    }
+
     NODE_PENDING_MESSAGES.clear();
+
+    // The local node can be started again from here on.
+    NODE_REGISTRATIONS.remove(&LOCAL_NODE_ID);
+    NODE_MAP.remove(&Node::Local);
 }
 
 /// Returns the process responsible for the local node.
-- 
2.43.0


From 6fadb7a06b882a629ebdafa312bdfd977022bfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:28 +0000
Subject: [PATCH 39/51] fix: a monitor update for a process that is being
 dropped isn't lost

---
 hydra/src/node_remote.rs      | 12 ++++++------
 hydra/src/process_registry.rs |  9 +++++++++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index d2e8745..fe8e4d4 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -42,7 +42,7 @@ use crate::node_send_frame;
 use crate::process_exists_lock;
 use crate::process_exit;
 use crate::process_name_lookup;
-use crate::process_sender;
+use crate::process_send_item;
 use crate::ExitReason;
 use crate::Local;
 use crate::Message;
@@ -243,11 +243,11 @@ async fn node_remote_receiver(mut reader: Reader, supervisor: Arc<NodeRemoteSupe
                 let reference = Reference::local(monitor_update.reference_id);
                 let from = Pid::remote(monitor_update.from_id, node);
 
-                match process_sender(Pid::local(monitor_update.process_id)) {
-                    Some(sender) => {
-                        let _ = sender.send(ProcessItem::MonitorProcessUpdate(reference, from));
-                    }
-                    None => monitor_destroy(from, reference),
+                if !process_send_item(
+                    Pid::local(monitor_update.process_id),
+                    ProcessItem::MonitorProcessUpdate(reference, from),
+                ) {
+                    monitor_destroy(from, reference);
                 }
             }
             Frame::Link(link) => {
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 9bd3044..49dcc02 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -50,6 +50,15 @@ pub fn process_sender(pid: Pid) -> Option<ProcessSend> {
         .map(|process| process.sender.clone())
 }
 
+/// Sends an item to this process, returns `false` if the process doesn't exist.
+///
+/// The process can't be dropped while the item is being sent.
+pub fn process_send_item(pid: Pid, item: ProcessItem) -> bool {
+    PROCESS_REGISTRY
+        .get(&pid.id())
+        .is_some_and(|process| process.sender.send(item).is_ok())
+}
+
 /// Looks up a process by the given name.
 pub fn process_name_lookup(name: &str) -> Option<Pid> {
     PROCESS_NAMES
-- 
2.43.0


From 5f031b7397745f8289f950a924b20041ed813891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:26 +0000
Subject: [PATCH 40/51] fix: a frame from a node is decoded within its
 announced length

---
 hydra/src/frame/mod.rs | 49 ++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/hydra/src/frame/mod.rs b/hydra/src/frame/mod.rs
index 1a95b71..46b66e9 100644
--- a/hydra/src/frame/mod.rs
+++ b/hydra/src/frame/mod.rs
@@ -47,6 +47,9 @@ const FRAME_CONFIG: Configuration<LittleEndian, Fixint> = config::standard()
 /// The size of the marker.
 const MARKER_LENGTH: usize = std::mem::size_of::<u32>();
 
+/// The most bytes to reserve for a frame ahead of receiving it.
+const MAX_RESERVE: usize = 64 * 1024;
+
 /// A frame value for the codec.
 #[derive(Debug, Encode, Decode)]
 pub enum Frame {
@@ -166,22 +169,40 @@ impl Decoder for Codec {
         let length = u32::from_le_bytes(length_marker) as usize;
 
         if src.len() < MARKER_LENGTH + length {
-            src.reserve(MARKER_LENGTH + length - src.len());
+            // The length is whatever the remote node claims it is, so don't trust it blindly.
+            src.reserve((MARKER_LENGTH + length - src.len()).min(MAX_RESERVE));
             return Ok(None);
         }
 
-        let result = bincode::decode_from_slice(&src[4..], FRAME_CONFIG);
-
-        match result {
-            Ok((frame, _)) => {
-                src.advance(MARKER_LENGTH + length);
-                Ok(Some(frame))
-            }
-            Err(DecodeError::UnexpectedEnd { additional }) => {
-                src.reserve(additional);
-                Ok(None)
-            }
-            Err(e) => Err(Error::new(ErrorKind::InvalidData, e)),
-        }
+        // A frame must not reach past it's announced length.
+        let frame = decode_frame(&src[MARKER_LENGTH..MARKER_LENGTH + length])
+            .map_err(|e| Error::new(ErrorKind::InvalidData, e))?;
+
+        src.advance(MARKER_LENGTH + length);
+
+        Ok(Some(frame))
     }
 }
+
+/// Decodes a single frame, without allocating out of proportion to it's length.
+fn decode_frame(frame: &[u8]) -> Result<Frame, DecodeError> {
+    const KB: usize = 1024;
+    const MB: usize = 1024 * KB;
+
+    const SMALL: usize = 64 * KB;
+    const MEDIUM: usize = MB;
+    const LARGE: usize = 16 * MB;
+    const HUGE: usize = 256 * MB;
+
+    let result = match frame.len() {
+        0..=SMALL => bincode::decode_from_slice(frame, FRAME_CONFIG.with_limit::<{ 8 * SMALL }>()),
+        0..=MEDIUM => {
+            bincode::decode_from_slice(frame, FRAME_CONFIG.with_limit::<{ 8 * MEDIUM }>())
+        }
+        0..=LARGE => bincode::decode_from_slice(frame, FRAME_CONFIG.with_limit::<{ 8 * LARGE }>()),
+        0..=HUGE => bincode::decode_from_slice(frame, FRAME_CONFIG.with_limit::<{ 8 * HUGE }>()),
+        _ => bincode::decode_from_slice(frame, FRAME_CONFIG.with_limit::<{ u32::MAX as usize }>()),
+    };
+
+    result.map(|(frame, _)| frame)
+}
-- 
2.43.0


From 9d0c2085ed187275f7f651b8105def968d37cd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:26 +0000
Subject: [PATCH 41/51] fix: a monitor down frame only concerns the monitor of
 a process on its node

---
 hydra/src/node_registry.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index d63ebd4..e51fa50 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -550,14 +550,20 @@ pub fn node_process_monitor_down(node: Node, reference: Reference, exit_reason:
     let mut monitor: Option<NodeMonitor> = None;
 
     NODE_MONITORS.alter(&node, |_, mut value| {
-        monitor = value.remove(&reference);
+        // Nodes may only report processes down that are being monitored.
+        if matches!(
+            value.get(&reference),
+            Some(NodeMonitor::ProcessMonitor(_, _))
+        ) {
+            monitor = value.remove(&reference);
+        }
 
         value
     });
 
-    alias_destroy(reference);
-
     if let Some(NodeMonitor::ProcessMonitor(id, dest)) = monitor {
+        alias_destroy(reference);
+
         process_sender(Pid::local(id)).map(|sender| {
             sender.send(ProcessItem::MonitorProcessDown(
                 dest,
-- 
2.43.0


From fef72050f6d7bf7fd995b7a3cbe66e24359ebd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:41 +0000
Subject: [PATCH 42/51] fix: removing a monitor of a remote process leaves
 monitors of its node alone

---
 hydra/src/node_registry.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index e51fa50..ae3d520 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -488,7 +488,11 @@ pub fn node_process_monitor_cleanup(node: Node, reference: Reference, process: P
 /// Destroys a node process monitor for the given node and reference.
 pub fn node_process_monitor_destroy(node: Node, reference: Reference) {
     NODE_MONITORS.alter(&node, |_, mut value| {
-        value.remove(&reference);
+        // A monitor of the node itself isn't affected, whatever reference the node comes up with.
+        if !matches!(value.get(&reference), Some(NodeMonitor::Node(_))) {
+            value.remove(&reference);
+        }
+
         value
     });
 }
-- 
2.43.0


From 3b8c77577f8a6cf878e7dcce7b78424876832ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:40 +0000
Subject: [PATCH 43/51] fix: an outgoing connection does not leak its connector

---
 hydra/src/node_remote.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hydra/src/node_remote.rs b/hydra/src/node_remote.rs
index fe8e4d4..234dcc7 100644
--- a/hydra/src/node_remote.rs
+++ b/hydra/src/node_remote.rs
@@ -84,7 +84,7 @@ struct NodeRemoteSupervisor {
 }
 
 struct NodeRemoteConnector {
-    node: Node,
+    node: Option<Node>,
     process: Pid,
 }
 
@@ -96,7 +96,9 @@ impl Drop for NodeRemoteSupervisor {
 
 impl Drop for NodeRemoteConnector {
     fn drop(&mut self) {
-        node_remote_supervisor_down(self.node.clone(), self.process);
+        if let Some(node) = self.node.take() {
+            node_remote_supervisor_down(node, self.process);
+        }
     }
 }
 
@@ -382,8 +384,8 @@ pub async fn node_remote_accepter(socket: TcpStream, supervisor: Arc<NodeLocalSu
 }
 
 pub async fn node_remote_connector(node: Node) {
-    let connector = NodeRemoteConnector {
-        node: node.clone(),
+    let mut connector = NodeRemoteConnector {
+        node: Some(node.clone()),
         process: Process::current(),
     };
 
@@ -444,7 +446,7 @@ pub async fn node_remote_connector(node: Node) {
         let matches = node == (hello.name.as_str(), hello.broadcast_address);
 
         if hello.validate() && matches {
-            std::mem::forget(connector);
+            connector.node = None;
             return node_remote_supervisor(writer, reader, hello, supervisor.into_inner()).await;
         } else if !matches {
             panic!(
-- 
2.43.0


From 2f96fa0e5ac48f42a2299c72238a7224df4fc906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:46 +0000
Subject: [PATCH 44/51] fix: a process dies with the first reason that ended it

---
 hydra/src/process_registration.rs | 5 +++++
 hydra/src/process_registry.rs     | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/hydra/src/process_registration.rs b/hydra/src/process_registration.rs
index 1955a38..6590a14 100644
--- a/hydra/src/process_registration.rs
+++ b/hydra/src/process_registration.rs
@@ -32,6 +32,11 @@ impl ProcessRegistration {
 
     /// Sets the exit reason and stops the task that this process lives in.
     pub fn exit(&mut self, exit_reason: ExitReason) {
+        // A process dies once, with the reason that came first.
+        if self.exit_reason.is_some() {
+            return;
+        }
+
         self.exit_reason = Some(exit_reason);
 
         if let Some(handle) = &self.handle {
diff --git a/hydra/src/process_registry.rs b/hydra/src/process_registry.rs
index 49dcc02..f0bd22c 100644
--- a/hydra/src/process_registry.rs
+++ b/hydra/src/process_registry.rs
@@ -244,7 +244,7 @@ pub fn process_set_flags(pid: Pid, flags: ProcessFlags) {
 /// Sets the process exit reason.
 pub fn process_set_exit_reason(pid: Pid, exit_reason: ExitReason) {
     PROCESS_REGISTRY.alter(&pid.id(), |_, mut process| {
-        process.exit_reason = Some(exit_reason);
+        process.exit_reason.get_or_insert(exit_reason);
         process
     });
 }
-- 
2.43.0


From f2e19cf5fbffed06eb758dfdbf1655cba1e85561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:00 +0000
Subject: [PATCH 45/51] fix: comparing a reference with a destination calls
 itself forever

---
 hydra/src/dest.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hydra/src/dest.rs b/hydra/src/dest.rs
index b7504be..d419981 100644
--- a/hydra/src/dest.rs
+++ b/hydra/src/dest.rs
@@ -137,7 +137,7 @@ impl PartialEq<Reference> for Dest {
 impl PartialEq<Dest> for Reference {
     fn eq(&self, other: &Dest) -> bool {
         match other {
-            Dest::Alias(reference) => reference == other,
+            Dest::Alias(reference) => self == reference,
             _ => false,
         }
     }
-- 
2.43.0


From d5ec1e3e14594f7c5ce6c7026b616afa7dcf75ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:14 +0000
Subject: [PATCH 46/51] fix: a remote node sent between local processes arrives
 as the local one without distribution

---
 hydra/src/node.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/hydra/src/node.rs b/hydra/src/node.rs
index 06841c4..c9d84b3 100644
--- a/hydra/src/node.rs
+++ b/hydra/src/node.rs
@@ -328,17 +328,16 @@ impl<'de> Deserialize<'de> for Node {
     {
         let node: NodeWire = NodeWire::deserialize(deserializer)?;
 
+        // It never left this process when there's no node that could have received it.
+        let Some(node_address) = node.address else {
+            return Ok(Node::Local);
+        };
+
         match node_lookup_local() {
-            Some((name, address)) => {
-                if node.name == name
-                    && (node.address.is_none() || node.address.is_some_and(|node| node == address))
-                {
-                    Ok(Node::Local)
-                } else {
-                    Ok(Node::Remote(node.name, node.address.unwrap()))
-                }
+            Some((name, address)) if name == node.name && address == node_address => {
+                Ok(Node::Local)
             }
-            None => Ok(Node::Local),
+            _ => Ok(Node::Remote(node.name, node_address)),
         }
     }
 }
-- 
2.43.0


From 569e0b08f94c1ab3f2955dff2abcd03b4bc3b403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:52 +0000
Subject: [PATCH 47/51] fix: removing a link that hasn't arrived yet leaves the
 other side alone

---
 hydra/src/link.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 1bcab07..fc842b7 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -72,23 +72,26 @@ pub fn link_install(process: Pid, from: Pid) {
     }
 }
 
-/// Removes one direction of a link.
-fn link_remove(process: Pid, from: Pid) {
+/// Removes one direction of a link. Returns `true` if there was one.
+fn link_remove(process: Pid, from: Pid) -> bool {
+    let mut removed = false;
+
     LINKS.alter(&process.id(), |_, mut value| {
-        value.remove(&from);
+        removed = value.remove(&from);
         value
     });
+
+    removed
 }
 
 /// Destroys a link for the given local process.
 pub fn link_destroy(process: Pid, from: Pid) {
-    if from.is_local() {
-        link_remove(from, process);
-    }
+    let removed = from.is_local() && link_remove(from, process);
 
     if process.is_local() {
         link_remove(process, from);
-    } else {
+    } else if removed {
+        // A link that's still on it's way here wasn't removed, so the other side must keep it as well.
         let link = Link::new(false, process.id(), from.id());
 
         node_send_frame(link.into(), process.node());
-- 
2.43.0


From 2bc4c2f47fac9f3fd67c741eecc9f2572e23b449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:09 +0000
Subject: [PATCH 48/51] fix: linking again brings back half of a link the other
 side is removing

---
 hydra/src/link.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index fc842b7..84d4304 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -43,6 +43,11 @@ pub fn link_create(process: Pid, from: Pid, ignore_errors: bool) -> bool {
 
 /// Installs a link for the given process.
 pub fn link_install(process: Pid, from: Pid) {
+    // Linking again must not bring back one half of a link the other side is removing.
+    if process.is_remote() && link_exists(from, process) {
+        return;
+    }
+
     link_create(from, process, false)
         .then_some(())
         .expect("From process must exist at this point!");
@@ -72,6 +77,13 @@ pub fn link_install(process: Pid, from: Pid) {
     }
 }
 
+/// Checks for one direction of a link.
+fn link_exists(process: Pid, from: Pid) -> bool {
+    LINKS
+        .get(&process.id())
+        .is_some_and(|links| links.contains(&from))
+}
+
 /// Removes one direction of a link. Returns `true` if there was one.
 fn link_remove(process: Pid, from: Pid) -> bool {
     let mut removed = false;
-- 
2.43.0


From 9c16773ba8ce15af55ef4ee2b6f98d3589e12238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:38 +0000
Subject: [PATCH 49/51] fix: a message sent over an alias no longer arrives
 after the alias was destroyed

A sender that had looked the alias up just before it was destroyed could still
deliver its message afterwards, so that a call that had timed out found a stale
reply in the mailbox of its caller later on.
---
 hydra/src/alias.rs          | 31 +++++++++++++++----------------
 hydra/src/node_kernel.rs    |  8 +++++---
 hydra/src/process_kernel.rs |  8 +++-----
 3 files changed, 23 insertions(+), 24 deletions(-)

diff --git a/hydra/src/alias.rs b/hydra/src/alias.rs
index ee961ad..35d1c95 100644
--- a/hydra/src/alias.rs
+++ b/hydra/src/alias.rs
@@ -44,25 +44,24 @@ pub fn alias_destroy_all<'a, A: IntoIterator<Item = &'a u64>>(ids: A) {
     }
 }
 
-/// Retrieves an alias for the given reference if it's active.
-pub fn alias_retrieve(reference: Reference) -> Option<Alias> {
-    let mut active: Option<Alias> = None;
+/// Sends an item over the alias for the given reference if it's active.
+pub fn alias_send(reference: Reference, item: ProcessItem) {
+    let mut unsent = Some(item);
 
-    let result = ALIASES.remove_if(&reference.id(), |_, alias| {
+    ALIASES.remove_if(&reference.id(), |_, alias| {
         if alias.reply {
-            true
-        } else {
-            active = Some(alias.clone());
-            false
-        }
-    });
-
-    result
-        .map(|(_, alias)| {
             let _ = alias
                 .sender
                 .send(ProcessItem::AliasDeactivated(reference.id()));
-            alias
-        })
-        .or(active)
+        }
+
+        // The item must be sent before the alias can be destroyed, so that it never arrives afterwards.
+        // If the process is gone already, the item must not be dropped while the alias is locked.
+        unsent = unsent
+            .take()
+            .and_then(|item| alias.sender.send(item).err())
+            .map(|error| error.into_inner());
+
+        alias.reply
+    });
 }
diff --git a/hydra/src/node_kernel.rs b/hydra/src/node_kernel.rs
index 04ea5f9..7d562f4 100644
--- a/hydra/src/node_kernel.rs
+++ b/hydra/src/node_kernel.rs
@@ -3,7 +3,7 @@ use crate::frame::Frame;
 use crate::frame::Send;
 use crate::frame::SendTarget;
 
-use crate::alias_retrieve;
+use crate::alias_send;
 use crate::node_register;
 use crate::node_send_frame;
 use crate::process_name_lookup;
@@ -38,8 +38,10 @@ pub fn node_forward_send(mut send: Send) {
                     .map(|sender| sender.send(ProcessItem::UserRemoteMessage(message)));
             }
             SendTarget::Alias(alias) => {
-                alias_retrieve(Reference::Local(alias))
-                    .map(|alias| alias.sender.send(ProcessItem::UserRemoteMessage(message)));
+                alias_send(
+                    Reference::Local(alias),
+                    ProcessItem::UserRemoteMessage(message),
+                );
             }
         }
     }
diff --git a/hydra/src/process_kernel.rs b/hydra/src/process_kernel.rs
index 59bf0d7..f1ba611 100644
--- a/hydra/src/process_kernel.rs
+++ b/hydra/src/process_kernel.rs
@@ -4,7 +4,7 @@ use crate::frame::Frame;
 use crate::frame::Send;
 use crate::frame::SendTarget;
 
-use crate::alias_retrieve;
+use crate::alias_send;
 use crate::node_process_send_with_alias;
 use crate::node_process_send_with_name;
 use crate::node_process_send_with_pid;
@@ -96,8 +96,7 @@ fn process_send_unoptimal(dest: Dest, message: Vec<u8>) {
                 .map(|sender| sender.send(ProcessItem::UserRemoteMessage(message)));
         }
         Dest::Alias(reference) => {
-            alias_retrieve(reference)
-                .map(|alias| alias.sender.send(ProcessItem::UserRemoteMessage(message)));
+            alias_send(reference, ProcessItem::UserRemoteMessage(message));
         }
     }
 }
@@ -123,8 +122,7 @@ fn process_send_optimal<M: Receivable>(dest: Dest, message: M) {
         }
         Dest::Alias(reference) => {
             if reference.is_local() {
-                alias_retrieve(reference)
-                    .map(|alias| alias.sender.send(Message::User(message).into()));
+                alias_send(reference, Message::User(message).into());
             } else {
                 node_process_send_with_alias(reference, message);
             }
-- 
2.43.0


From 8be1bb55bf995c7227c870fcd3bd3d444308db2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:41 +0000
Subject: [PATCH 50/51] fix: a link that was removed by the other side isn't
 signalled when the connection is lost

The handler of a lost connection works from the list of the node's links, which
is updated after the link itself was removed.
---
 hydra/src/link.rs          | 10 ++++++----
 hydra/src/node_registry.rs |  7 ++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/hydra/src/link.rs b/hydra/src/link.rs
index 84d4304..30c6473 100644
--- a/hydra/src/link.rs
+++ b/hydra/src/link.rs
@@ -96,12 +96,12 @@ fn link_remove(process: Pid, from: Pid) -> bool {
     removed
 }
 
-/// Destroys a link for the given local process.
-pub fn link_destroy(process: Pid, from: Pid) {
-    let removed = from.is_local() && link_remove(from, process);
+/// Destroys a link for the given local process. Returns `true` if the process was linked.
+pub fn link_destroy(process: Pid, from: Pid) -> bool {
+    let mut removed = from.is_local() && link_remove(from, process);
 
     if process.is_local() {
-        link_remove(process, from);
+        removed |= link_remove(process, from);
     } else if removed {
         // A link that's still on it's way here wasn't removed, so the other side must keep it as well.
         let link = Link::new(false, process.id(), from.id());
@@ -112,6 +112,8 @@ pub fn link_destroy(process: Pid, from: Pid) {
             node_process_link_destroy(Node::from((name, address)), process, from);
         }
     }
+
+    removed
 }
 
 /// Sends the proper exit signal about the given process going down for the given reason.
diff --git a/hydra/src/node_registry.rs b/hydra/src/node_registry.rs
index ae3d520..b54684f 100644
--- a/hydra/src/node_registry.rs
+++ b/hydra/src/node_registry.rs
@@ -344,9 +344,10 @@ fn node_connection_lost(node: &Node) {
         for (from, process_id) in links {
             let process = Pid::local(process_id);
 
-            link_destroy(process, from);
-
-            process_exit_signal_linked(process, from, ExitReason::from("noconnection"));
+            // The other side may be removing the link at this moment.
+            if link_destroy(process, from) {
+                process_exit_signal_linked(process, from, ExitReason::from("noconnection"));
+            }
         }
     }
 
-- 
2.43.0


From 0376bf934346ef0350f09825eb61c812b45f0311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:45 +0000
Subject: [PATCH 51/51] fix: a reference of another node cancelled or read a
 timer of this one with the same number

---
 hydra/src/process.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hydra/src/process.rs b/hydra/src/process.rs
index 8abf5b2..91cd70a 100644
--- a/hydra/src/process.rs
+++ b/hydra/src/process.rs
@@ -198,13 +198,20 @@ impl Process {
 
     /// Cancels a timer created by `send_after`.
     pub fn cancel_timer(timer: Reference) {
-        process_destroy_timer(timer);
+        // The numbers of references from other nodes may equal those of this node's timers.
+        if timer.is_local() {
+            process_destroy_timer(timer);
+        }
     }
 
     /// Reads a timer created by `send_after`.
     ///
     /// It returns the time remaining until the timer expires.
     pub fn read_timer(timer: Reference) -> Option<Duration> {
+        if timer.is_remote() {
+            return None;
+        }
+
         process_read_timer(timer)
     }
 
-- 
2.43.0

