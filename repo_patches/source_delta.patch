From 9d6cedf031e45ae0f53851d0aa96cbd7954a28cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 01/38] fix: unpack the stepIn targetId into its own field

The targetId key was mapped onto thread_id, a client that sent both would have
the wrong thread resumed.
---
 src/ansibug/dap/_requests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/dap/_requests.py b/src/ansibug/dap/_requests.py
index 3d391e3..efd852a 100644
--- a/src/ansibug/dap/_requests.py
+++ b/src/ansibug/dap/_requests.py
@@ -488,7 +488,7 @@ class StepInRequest(
         "arguments": {
             "threadId": "thread_id",
             "singleThread": "single_thread",
-            "targetId": "thread_id",
+            "targetId": "target_id",
             "granularity": "granularity",
         }
     },
-- 
2.43.0


From 2b778184dc80141b1c8e257757ca5048e37006b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 02/38] fix: end the debug adapter when stdin is closed

The read loop would spin forever once the client had gone away.
---
 src/ansibug/_debug_adapter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 4ea010a..96590ba 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -281,6 +281,9 @@ class DAServer:
         is_connected = True
         while is_connected:
             data = stdin.read(4096)
+            if not data:
+                # The client has closed its end, no more messages can arrive.
+                break
 
             if log.isEnabledFor(logging.DEBUG):
                 log.debug("STDIN: %s", data.decode())
-- 
2.43.0


From 3a86dc265d61487f0c842afed399ea7ea9cf31f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 03/38] fix: do not fail on a split UTF-8 sequence when logging
 stdin

A read can stop part way through a multibyte character, debug logging would
then end the adapter.
---
 src/ansibug/_debug_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index 96590ba..fcf4de7 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -286,7 +286,7 @@ class DAServer:
                 break
 
             if log.isEnabledFor(logging.DEBUG):
-                log.debug("STDIN: %s", data.decode())
+                log.debug("STDIN: %s", data.decode(errors="replace"))
             adapter.receive_data(data)
 
             while msg := adapter.next_message():
-- 
2.43.0


From 6430ff9a0309f431985c1ca02b1e22d8a3423d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 04/38] fix: cancel every function even if one of them fails

---
 src/ansibug/_socket_helper.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index facca38..e4a2513 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -339,7 +339,12 @@ class SocketCancellationToken:
 
             for cancel_id, func in self._cancel_funcs.items():
                 log.debug("Cancelling function with id %d", cancel_id)
-                func()
+                try:
+                    func()
+                except OSError:
+                    # The peer may already be gone, this must not stop the
+                    # remaining functions from being cancelled.
+                    log.debug("Cancel function with id %d failed", cancel_id, exc_info=True)
 
             self._cancel_funcs = {}
 
-- 
2.43.0


From 2b2215e10c3927dd38e0afa1328d93f18a76bf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 05/38] fix: release the playbook when the debug connection
 fails

If the socket failed to connect the playbook would wait forever for a
configurationDone request that could never arrive.
---
 src/ansibug/_debuggee.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 95bde9a..a1863ad 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -899,4 +899,8 @@ class AnsibleDebugger(metaclass=Singleton):
             mp_queue.stop()
             self._adapter_connected = False
 
+            # Nothing can send the configuration done request anymore, ensure
+            # the callback plugin isn't stuck waiting for it.
+            self._configuration_done.set()
+
         log.debug("Debuggee server send thread ended")
-- 
2.43.0


From 475e88e8ddb4102dd63c35430ddd196ba920dc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 06/38] fix: iterate a snapshot of the state shared between
 threads

Both the breakpoints and the threads are changed by another thread while these
iterate over them, which raises a RuntimeError.
---
 src/ansibug/_debuggee.py                                      | 4 ++--
 .../ansible_collections/ansibug/dap/plugins/strategy/debug.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index a1863ad..0304594 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -364,7 +364,7 @@ class AnsibleDebugger(metaclass=Singleton):
             Optional[AnsibleLineBreakpoint]: The breakpoint associated with the
             args if present.
         """
-        for b in self._breakpoints.values():
+        for b in list(self._breakpoints.values()):
             if (
                 b.actual_path == path
                 and (b.breakpoint.line is None or b.breakpoint.line <= line)
@@ -551,7 +551,7 @@ class AnsibleDebugger(metaclass=Singleton):
         file_lines.extend([None] * (1 + line - len(file_lines)))
         file_lines[line] = bp_type
 
-        for breakpoint in self._breakpoints.values():
+        for breakpoint in list(self._breakpoints.values()):
             if breakpoint.actual_path != path:
                 continue
 
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 9daf0ab..f05eb03 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -673,7 +673,7 @@ class AnsibleDebugState(DebugState):
             self._resume_threads([request.thread_id], ThreadState.CONTINUE)
             all_threads_continued = False
         else:
-            self._resume_threads(self.threads.keys(), ThreadState.CONTINUE)
+            self._resume_threads(list(self.threads.keys()), ThreadState.CONTINUE)
             all_threads_continued = True
 
         return ansibug.dap.ContinueResponse(
@@ -872,7 +872,7 @@ class AnsibleDebugState(DebugState):
     ) -> ansibug.dap.ThreadsResponse:
         return ansibug.dap.ThreadsResponse(
             request_seq=request.seq,
-            threads=[t.to_dap() for t in self.threads.values()],
+            threads=[t.to_dap() for t in list(self.threads.values())],
         )
 
     def get_variables(
-- 
2.43.0


From e281ef6531502fdd0ccef7164d95065f6c59323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 07/38] fix: clear the exception breakpoints when the client is
 gone

A task that failed after the client had disconnected would stop and wait for a
client that no longer exists.
---
 src/ansibug/_debuggee.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 0304594..c70aef2 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -470,6 +470,7 @@ class AnsibleDebugger(metaclass=Singleton):
         # breakpoints and our debug config no longer applies
         self._debug_config = DebugConfiguration()
         self._breakpoints = {}
+        self._breakpoint_exceptions = {}
 
         # Ensure the callback plugin isn't stuck waiting for this
         self._configuration_done.set()
@@ -862,6 +863,7 @@ class AnsibleDebugger(metaclass=Singleton):
     ) -> None:
         self._debug_config = DebugConfiguration()
         self._breakpoints = {}
+        self._breakpoint_exceptions = {}
 
         strategy = self._get_strategy()
         strategy.disconnect(msg)
-- 
2.43.0


From 69a8351f02bbd32c90a90e0ead7a0aea268fd95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 08/38] fix: do not resume a playbook that was told to
 terminate on disconnect

The shutdown done when the connection is closed would replace the end state
with continue and the playbook carried on.
---
 src/ansibug/_debuggee.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index c70aef2..98a7a85 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -865,6 +865,11 @@ class AnsibleDebugger(metaclass=Singleton):
         self._breakpoints = {}
         self._breakpoint_exceptions = {}
 
+        if msg.terminate_debuggee:
+            # The shutdown once the connection is closed must not resume the
+            # threads that have been told to end.
+            self._terminated = True
+
         strategy = self._get_strategy()
         strategy.disconnect(msg)
 
-- 
2.43.0


From 054a8383a77c57dab7cf8b1951e9c40252608f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 09/38] fix: handle a disconnect and terminate when no play is
 running

A disconnect before configurationDone waited for a strategy that would never
start, leaving the playbook stuck. A terminate that came when no host thread
had been started was ignored.
---
 src/ansibug/_debuggee.py                              | 11 +++++++++--
 .../ansibug/dap/plugins/strategy/debug.py             |  5 +++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 98a7a85..88a7745 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -286,6 +286,10 @@ class AnsibleDebugger(metaclass=Singleton):
     def should_stop_on_skipped(self) -> bool:
         return self._breakpoint_exceptions.get(ExceptionBreakpointType.ON_SKIPPED.value, False)
 
+    @property
+    def should_terminate(self) -> bool:
+        return self._terminated
+
     @contextlib.contextmanager
     def with_strategy(
         self,
@@ -870,8 +874,11 @@ class AnsibleDebugger(metaclass=Singleton):
             # threads that have been told to end.
             self._terminated = True
 
-        strategy = self._get_strategy()
-        strategy.disconnect(msg)
+        # There is no strategy when a play is not running, nothing is stopped
+        # then and waiting for one would keep the playbook from being released.
+        with self._strategy_connected:
+            if self._strategy:
+                self._strategy.disconnect(msg)
 
     def _send_task(
         self,
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index f05eb03..b09bce5 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -507,6 +507,11 @@ class AnsibleDebugState(DebugState):
             task: The task to process.
             task_vars: The task variables.
         """
+        if self._debugger.should_terminate:
+            # The request may have come before this thread, or this strategy,
+            # existed so the thread state cannot be relied on.
+            raise EndStrategy()
+
         thread: AnsibleThread | None = next(
             iter([t for t in self.threads.values() if t.host == host]),
             None,
-- 
2.43.0


From e805cf37b917ef325915d15400c55cabe086ed05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 10/38] fix: release requests waiting for a play when the
 playbook ends

A request processed after the last play waited for another one to start, the
shutdown then waited for the thread processing that request.
---
 src/ansibug/_debuggee.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 88a7745..a04466e 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -238,6 +238,7 @@ class AnsibleDebugger(metaclass=Singleton):
         self._strategy_connected = threading.Condition()
         self._strategy: DebugState | None = None
         self._terminated = False
+        self._ended = False
 
         self._thread_counter = 2  # 1 is always the main thread
         self._stackframe_counter = 1
@@ -406,6 +407,7 @@ class AnsibleDebugger(metaclass=Singleton):
             using listen mode.
         """
         log.info("Setting up ansible-playbook debug %s socket at '%s'", mode, addr)
+        self._ended = False
 
         queue_kwargs: dict[str, t.Any] = {
             "address": addr,
@@ -458,6 +460,12 @@ class AnsibleDebugger(metaclass=Singleton):
         """
         log.debug("Shutting down DebugServer")
 
+        # No more plays will be run, ensure the recv thread isn't waiting for
+        # one as it must be able to end.
+        with self._strategy_connected:
+            self._ended = True
+            self._strategy_connected.notify_all()
+
         if not from_send_thread and self._send_thread:
             # If we aren't connected we need to cancel the queue start method
             # before trying to join the thread. If we are connected we want to
@@ -593,7 +601,10 @@ class AnsibleDebugger(metaclass=Singleton):
 
     def _get_strategy(self) -> DebugState:
         with self._strategy_connected:
-            self._strategy_connected.wait_for(lambda: self._strategy is not None)
+            self._strategy_connected.wait_for(lambda: self._strategy is not None or self._ended)
+            if self._strategy is None:
+                raise RuntimeError("The playbook has ended and cannot process the request")
+
             return t.cast(DebugState, self._strategy)
 
     @functools.singledispatchmethod
-- 
2.43.0


From 3854368ff6452e3aaba6520f6de9fb820598436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 11/38] fix: fail requests for a play while waiting for
 configurationDone

The request waited for a play to start, which stopped the configurationDone
request that starts it from ever being processed.
---
 src/ansibug/_debuggee.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index a04466e..4aa335d 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -239,6 +239,7 @@ class AnsibleDebugger(metaclass=Singleton):
         self._strategy: DebugState | None = None
         self._terminated = False
         self._ended = False
+        self._waiting_for_config = False
 
         self._thread_counter = 2  # 1 is always the main thread
         self._stackframe_counter = 1
@@ -348,7 +349,16 @@ class AnsibleDebugger(metaclass=Singleton):
             timeout: The maximum time, in seconds, to wait until the debug
                 adapter is connected and ready.
         """
-        self._configuration_done.wait(timeout=timeout)
+        # A request that needs a running play cannot be processed until the
+        # configuration is done, ensure none are waiting for one to start.
+        with self._strategy_connected:
+            self._waiting_for_config = True
+            self._strategy_connected.notify_all()
+
+        try:
+            self._configuration_done.wait(timeout=timeout)
+        finally:
+            self._waiting_for_config = False
 
     def get_breakpoint(
         self,
@@ -601,9 +611,13 @@ class AnsibleDebugger(metaclass=Singleton):
 
     def _get_strategy(self) -> DebugState:
         with self._strategy_connected:
-            self._strategy_connected.wait_for(lambda: self._strategy is not None or self._ended)
+            self._strategy_connected.wait_for(
+                lambda: self._strategy is not None
+                or self._ended
+                or (self._waiting_for_config and not self._configuration_done.is_set())
+            )
             if self._strategy is None:
-                raise RuntimeError("The playbook has ended and cannot process the request")
+                raise RuntimeError("There is no play running that can process the request")
 
             return t.cast(DebugState, self._strategy)
 
-- 
2.43.0


From cbf7e6050fdd20c3e1395d5a1ce88a953bdee7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 12/38] fix: serialise the messages the debug adapter sends to
 the client

The messages are sent by two threads which could interleave the frames or send
them in a different order to their sequence numbers.
---
 src/ansibug/_debug_adapter.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index fcf4de7..d81267c 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -13,6 +13,7 @@ import pathlib
 import shlex
 import sys
 import tempfile
+import threading
 import traceback
 import types
 import typing as t
@@ -255,6 +256,7 @@ class DAServer:
         self._run_in_response_data: dict[int, _RunInTerminalDetails] = {}
         self._temp_dir = temp_dir
         self._terminated_sent = False
+        self._send_lock = threading.Lock()
 
     def __enter__(self) -> DAServer:
         return self
@@ -358,13 +360,15 @@ class DAServer:
     ) -> int:
         stdout = sys.stdout.buffer
 
-        req_no = self._adapter.queue_msg(msg)
-        data = self._adapter.data_to_send() or b""
-        if log.isEnabledFor(logging.DEBUG):
-            log.debug("STDOUT: %s", data.decode())
+        # Both the stdin and the debuggee recv thread send messages.
+        with self._send_lock:
+            req_no = self._adapter.queue_msg(msg)
+            data = self._adapter.data_to_send() or b""
+            if log.isEnabledFor(logging.DEBUG):
+                log.debug("STDOUT: %s", data.decode())
 
-        stdout.write(data)
-        stdout.flush()
+            stdout.write(data)
+            stdout.flush()
 
         if isinstance(msg, dap.Response):
             self._incoming_requests.pop(msg.request_seq, None)
-- 
2.43.0


From dddb1f281dbfe7d37998ba7698060d8e46169e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 13/38] fix: only send one terminated event when both ends stop
 at once

---
 src/ansibug/_debug_adapter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_debug_adapter.py b/src/ansibug/_debug_adapter.py
index d81267c..fa469ed 100644
--- a/src/ansibug/_debug_adapter.py
+++ b/src/ansibug/_debug_adapter.py
@@ -348,11 +348,14 @@ class DAServer:
             self._launch_queue.stop()
             self._launch_queue = None
 
-        if not self._terminated_sent:
+        with self._send_lock:
+            send_terminated = not self._terminated_sent
+            self._terminated_sent = True
+
+        if send_terminated:
             # Both the debuggee or start() end will hit the code here. We only
             # need to send one TerminatedEvent() for whichever was first.
             self.send_to_client(dap.TerminatedEvent())
-            self._terminated_sent = True
 
     def send_to_client(
         self,
-- 
2.43.0


From 33c8ff44a34c3f4e21037402e1e46b8ce2cb3635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 14/38] fix: end the debuggee process when the playbook is
 aborted

The shutdown is only done on the playbook stats callback, without it the
connection threads kept the process running forever.
---
 src/ansibug/_debuggee.py | 6 ++++++
 src/ansibug/_mp_queue.py | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 4aa335d..946dc59 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -3,6 +3,7 @@
 
 from __future__ import annotations
 
+import atexit
 import collections.abc
 import contextlib
 import dataclasses
@@ -450,9 +451,14 @@ class AnsibleDebugger(metaclass=Singleton):
             target=self._send_task,
             args=(mp_queue,),
             name="ansibug-debugger",
+            daemon=True,
         )
         self._send_thread.start()
 
+        # The callback is not told about the end of a playbook that is aborted,
+        # the threads are daemons so they do not keep such a process running.
+        atexit.register(self.shutdown)
+
         return addr
 
     def shutdown(
diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 5275979..d5023c5 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -87,6 +87,7 @@ class MPQueue:
         self._recv_thread = threading.Thread(
             target=self._recv_handler,
             name=f"{type(self).__name__} Recv",
+            daemon=True,
         )
         self._recv_thread.start()
 
-- 
2.43.0


From b4b91c777c70ea361c964e3dbb20af5e7551f487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 15/38] fix: treat any breakpoint condition failure as not met

Conditions like "1/0" fail with an exception that is not from Ansible and ended
the playbook.
---
 .../ansibug/dap/plugins/strategy/debug.py                | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index b09bce5..496d476 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -24,7 +24,7 @@ import traceback
 import typing as t
 
 from ansible import constants as C
-from ansible.errors import AnsibleError, AnsibleUndefinedVariable
+from ansible.errors import AnsibleUndefinedVariable
 from ansible.executor.play_iterator import PlayIterator
 from ansible.executor.task_queue_manager import TaskQueueManager
 from ansible.executor.task_result import TaskResult
@@ -44,7 +44,6 @@ from ansible.vars.manager import VariableManager
 # minimum supported version.
 POST_DATATAGGING = False
 try:
-    from ansible.errors import AnsibleBrokenConditionalError
     from ansible.template import trust_as_template
     from ansible.utils.display import _DeferredWarningContext
 
@@ -572,7 +571,8 @@ class AnsibleDebugState(DebugState):
 
                 try:
                     return templar.evaluate_conditional(template)
-                except (AnsibleBrokenConditionalError, AnsibleUndefinedVariable):
+                except Exception:
+                    log.debug("Failed to evaluate breakpoint condition '%s'", condition, exc_info=True)
                     return False
 
         else:
@@ -583,7 +583,8 @@ class AnsibleDebugState(DebugState):
 
                 try:
                     return cond.evaluate_conditional(templar, templar.available_variables)
-                except AnsibleError:
+                except Exception:
+                    log.debug("Failed to evaluate breakpoint condition '%s'", condition, exc_info=True)
                     return False
 
         with self._waiting_condition:
-- 
2.43.0


From 4ce984e21535104754a40b38c4e2ad087d64fb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 16/38] fix: remove every stack frame of the includes that have
 ended

Only one frame was removed when leaving nested includes and the check for the
first task of a role used the frame that was just removed, which failed for a
task after an include_role that was itself in an include.
---
 .../ansibug/dap/plugins/strategy/debug.py     | 34 +++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 496d476..7fa6e88 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -518,25 +518,31 @@ class AnsibleDebugState(DebugState):
         if not thread:
             thread = self._add_thread(host)
 
-        if thread.stack_frames:
-            # The parent is the implicit block and we want the parent of that.
-            parent_task = task._parent._parent
+        # The frames that remain are for the includes the task is a part of, each
+        # of them is one of the task's parents.
+        parent_uuids = set()
+        parent = task._parent
+        while parent:
+            parent_uuids.add(parent._uuid)
+            parent = parent._parent
+
+        while thread.stack_frames:
             last_frame_id = thread.stack_frames[0]
             last_frame = self.stackframes[last_frame_id]
-            if not parent_task or (last_frame.task and last_frame.task._uuid != parent_task._uuid):
-                thread.stack_frames.pop(0)
-                self.stackframes.pop(last_frame_id)
-                for variable_id in last_frame.variables:
-                    del self.variables[variable_id]
+            if last_frame.task._uuid in parent_uuids:
+                break
+
+            thread.stack_frames.pop(0)
+            self.stackframes.pop(last_frame_id)
+            for variable_id in last_frame.variables:
+                del self.variables[variable_id]
+
+        if thread.stack_frames:
+            last_frame = self.stackframes[thread.stack_frames[0]]
 
             # If this is the first task in a role included by include_role we
             # need to scan the tasks and handlers to validate the breakpoints
-            if (
-                parent_task
-                and last_frame.task
-                and last_frame.task.action in C._ACTION_INCLUDE_ROLE
-                and hasattr(task, "_role")
-            ):
+            if last_frame.task.action in C._ACTION_INCLUDE_ROLE and task._role:
                 task_handlers = task._role.get_task_blocks()
                 role_handlers = task._role.get_handler_blocks(task.play)
                 register_block_breakpoints(self._debugger, task_handlers)
-- 
2.43.0


From 07e4482a4628b7163032bad9751798e750279391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 17/38] fix: allow the TLS handshake to be cancelled

A peer that never finished the handshake kept the shutdown waiting forever.
---
 src/ansibug/_mp_queue.py      |  2 ++
 src/ansibug/_socket_helper.py | 19 ++++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index d5023c5..900ec68 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -185,6 +185,7 @@ class ClientMPQueue(MPQueue):
         if self._ssl_context:
             self._socket.wrap_tls(
                 self._ssl_context,
+                self._cancel_token,
                 server_side=False,
                 server_hostname=ssl_hostname,
             )
@@ -262,6 +263,7 @@ class ServerMPQueue(MPQueue):
                 try:
                     conn.wrap_tls(
                         self._ssl_context,
+                        self._cancel_token,
                         server_side=True,
                     )
                     # The client will read a single byte after the handshake to
diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index e4a2513..6962134 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -218,16 +218,20 @@ class SocketHelper:
     def wrap_tls(
         self,
         ssl_context: ssl.SSLContext,
+        cancel_token: SocketCancellationToken,
         *,
         server_side: bool = True,
         server_hostname: str | None = None,
     ) -> None:
         log.debug("Wrapping socket with TLS context")
-        self._sock = ssl_context.wrap_socket(
+        sock = ssl_context.wrap_socket(
             self._sock,
             server_side=server_side,
             server_hostname=server_hostname,
+            do_handshake_on_connect=False,
         )
+        self._sock = sock
+        cancel_token.do_handshake(sock)
 
 
 class SocketCancellationToken:
@@ -306,6 +310,19 @@ class SocketCancellationToken:
 
             sock.setblocking(True)
 
+    def do_handshake(
+        self,
+        sock: ssl.SSLSocket,
+    ) -> None:
+        with self.with_cancel(lambda: sock.shutdown(socket.SHUT_RDWR)):
+            try:
+                sock.do_handshake()
+            except OSError:
+                if self._cancelled:
+                    raise CancelledError()
+                else:
+                    raise
+
     def recv_into(
         self,
         sock: socket.socket,
-- 
2.43.0


From 0a5d526b0bc2421af3e4b66314f9dbb66c178938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 18/38] fix: apply the connect timeout to the whole connection
 setup

A peer that accepts the connection but never replies kept the attach request
and the debug adapter waiting forever.
---
 src/ansibug/_mp_queue.py      | 5 +++++
 src/ansibug/_socket_helper.py | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 900ec68..445e6fc 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -182,6 +182,9 @@ class ClientMPQueue(MPQueue):
         else:
             raise error
 
+        # The timeout also covers the checks that the peer is ready for use.
+        self._socket.settimeout(timeout or None)
+
         if self._ssl_context:
             self._socket.wrap_tls(
                 self._ssl_context,
@@ -198,6 +201,8 @@ class ClientMPQueue(MPQueue):
             # in the backlog waiting for an accept().
             self._socket.recv(1, self._cancel_token)
 
+        self._socket.settimeout(None)
+
         super().start()
 
 
diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index 6962134..fa34efa 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -215,6 +215,12 @@ class SocketHelper:
         except OSError:
             pass
 
+    def settimeout(
+        self,
+        timeout: float | None,
+    ) -> None:
+        self._sock.settimeout(timeout)
+
     def wrap_tls(
         self,
         ssl_context: ssl.SSLContext,
-- 
2.43.0


From f1b1b36843b4e564db6952324e73a828a2041106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 19/38] fix: allow listening on an IPv4 address

The documented tcp://127.0.0.1:0 failed to bind on a host with IPv6.
---
 src/ansibug/_mp_queue.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 445e6fc..a86e1cf 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -225,7 +225,11 @@ class ServerMPQueue(MPQueue):
 
         else:
             sock_kwargs: dict[str, t.Any] = {}
-            if socket.has_dualstack_ipv6():  # pragma: nocover
+            # An IPv4 only host cannot be bound on an IPv6 socket.
+            host, port = parsed_addr
+            addr_info = socket.getaddrinfo(host or None, port, 0, socket.SOCK_STREAM, 0, socket.AI_PASSIVE)
+            supports_ipv6 = any(info[0] == socket.AF_INET6 for info in addr_info)
+            if supports_ipv6 and socket.has_dualstack_ipv6():  # pragma: nocover
                 # Allows the server to bind on both IPv4 and IPv6.
                 sock_kwargs |= {
                     "family": socket.AF_INET6,
-- 
2.43.0


From fedb7541f78f6bf8d7116ba7a3f7266486e052da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 20/38] fix: keep listening when a client resets the TLS
 handshake

Only SSLError was retried, a connection reset ended the listener.
---
 src/ansibug/_mp_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index a86e1cf..36c2e7c 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -281,7 +281,7 @@ class ServerMPQueue(MPQueue):
                     # handshake.
                     conn.send(b"\x00", self._cancel_token)
 
-                except ssl.SSLError:
+                except OSError:
                     log.exception("Server TLS handshake failed, trying again")
                     conn.close()
                     conn = self._socket.accept(
-- 
2.43.0


From afd715003747ff524637a6f2a7e4ce19d6311766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 21/38] fix: do not miss breakpoints set while their file is
 being loaded

The lines that were registered between reading the known lines and storing the
breakpoint never updated it, it stayed unverified and matched later lines.
---
 src/ansibug/_debuggee.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 946dc59..4cdbb52 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -105,6 +105,17 @@ def get_pid_info_path(pid: int) -> pathlib.Path:
     return pathlib.Path(tmpdir) / f"ansibug-pid-{pid}"
 
 
+def _with_breakpoint_lock(func: t.Callable[..., None]) -> t.Callable[..., None]:
+    """Runs the method while no other thread can change the breakpoints or the known source lines."""
+
+    @functools.wraps(func)
+    def wrapper(self: AnsibleDebugger, *args: t.Any, **kwargs: t.Any) -> None:
+        with self._breakpoint_lock:
+            func(self, *args, **kwargs)
+
+    return wrapper
+
+
 class EndStrategy(Exception):
     """Exception used to end the strategy plugin."""
 
@@ -250,6 +261,7 @@ class AnsibleDebugger(metaclass=Singleton):
         self._breakpoint_exceptions: dict[str, bool] = {}
         self._breakpoints: dict[int, AnsibleLineBreakpoint] = {}
         self._breakpoint_counter = 1
+        self._breakpoint_lock = threading.Lock()
 
         # Key is the path, the value is a list of the lines in that file where:
         #   None - Line is a continuation of a breakpoint range
@@ -556,6 +568,7 @@ class AnsibleDebugger(metaclass=Singleton):
         else:
             return path
 
+    @_with_breakpoint_lock
     def register_path_breakpoint(
         self,
         path: str,
@@ -701,6 +714,7 @@ class AnsibleDebugger(metaclass=Singleton):
         self.queue_msg(resp)
 
     @process_message.register
+    @_with_breakpoint_lock
     def _(
         self,
         msg: dap.SetBreakpointsRequest,
-- 
2.43.0


From 948f4f1a54941dcb0f983a322b9a88767012970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 22/38] fix: step out must not stop in an include nested in the
 one to leave

---
 .../ansibug/dap/plugins/strategy/debug.py       | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 7fa6e88..4a931d6 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -262,11 +262,18 @@ class AnsibleThread:
         if self.state != ThreadState.STEP_OUT or not self._stopped_task:
             return False
 
-        # If step out, we only want to break if the current task's parent does
-        # not match the stopped task stored at state change (the include). If
-        # the parent matches it means we are still in the same include scope.
-        task_parent = self._get_parent_task(task)
-        return getattr(task_parent, "_uuid", None) != self._stopped_task._uuid
+        # If step out, we only want to break if none of the current task's
+        # parents match the stopped task stored at state change (the include).
+        # If one matches it means we are still in the same include scope, the
+        # task might be in another include that is nested in it.
+        parent = self._get_parent_task(task)
+        while parent:
+            if parent._uuid == self._stopped_task._uuid:
+                return False
+
+            parent = self._get_parent_task(parent)
+
+        return True
 
     def _get_parent_task(
         self,
-- 
2.43.0


From d6ecaa39070baf9dd6ec2826e6c16bb171e7533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 23/38] fix: a step after an exception stop must start from the
 task that stopped

---
 .../ansible_collections/ansibug/dap/plugins/strategy/debug.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 4a931d6..89cfde3 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -223,6 +223,8 @@ class AnsibleThread:
                 details = get_on_skipped_details(result._result)
 
         if details:
+            # The next step_* action starts from the task that has ended.
+            self._stopped_task = result._task
             self.state = ThreadState.WAIT
             return ansibug.dap.StoppedEvent(
                 reason=ansibug.dap.StoppedReason.EXCEPTION,
-- 
2.43.0


From 3936cbf6789be303d279510c63eae282016a3ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 24/38] fix: stop at any breakpoint of a task whose condition
 holds

Only the first breakpoint that covers a task was looked at, when its condition
did not hold another breakpoint of the task never stopped.
---
 src/ansibug/_debuggee.py                                 | 8 +++++++-
 .../ansibug/dap/plugins/strategy/debug.py                | 9 +--------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 4cdbb52..3c00d24 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -377,16 +377,21 @@ class AnsibleDebugger(metaclass=Singleton):
         self,
         path: str,
         line: int,
+        is_condition_met: t.Callable[[str], bool],
     ) -> AnsibleLineBreakpoint | None:
         """Gets the breakpoint for the path/line specified.
 
         Checks to see if there is a breakpoint set for the path and line that
         is requested. If no breakpoint is associated with the arguments then
-        None will be returned.
+        None will be returned. More than one breakpoint can cover the same
+        line, the first one without a condition or with a condition that is
+        met is returned.
 
         Args:
             path: The path of the file to check.
             line: The line in the file to check.
+            is_condition_met: Called with the condition of a breakpoint to
+                check whether it is met.
 
         Returns:
             Optional[AnsibleLineBreakpoint]: The breakpoint associated with the
@@ -397,6 +402,7 @@ class AnsibleDebugger(metaclass=Singleton):
                 b.actual_path == path
                 and (b.breakpoint.line is None or b.breakpoint.line <= line)
                 and (b.breakpoint.end_line is None or b.breakpoint.end_line >= line)
+                and (not b.source_breakpoint.condition or is_condition_met(b.source_breakpoint.condition))
             ):
                 return b
 
diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 89cfde3..ce3594e 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -605,14 +605,7 @@ class AnsibleDebugState(DebugState):
         with self._waiting_condition:
             tid = thread.id
 
-            line_breakpoint = self._debugger.get_breakpoint(path, line)
-            if (
-                line_breakpoint
-                and line_breakpoint.source_breakpoint.condition
-                and not eval_condition(line_breakpoint.source_breakpoint.condition)
-            ):
-                line_breakpoint = None
-
+            line_breakpoint = self._debugger.get_breakpoint(path, line, eval_condition)
             stopped_event = thread.should_break(task, line_breakpoint)
 
             if stopped_event:
-- 
2.43.0


From 8573da02765ef0d4e071f13cfc60db4e76728ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:45 +0000
Subject: [PATCH 25/38] fix: return the parser message for a console line with
 unbalanced quotes

---
 .../ansibug/dap/plugins/plugin_utils/_repl_util.py          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
index c0d8b85..cc51582 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
@@ -121,11 +121,11 @@ def parse_repl_args(
     # to a command line and parse the known args. We only do the known args
     # because some commands need the raw value provided outside of a cmd split
     # processing argparse uses.
-    split_args = shlex.split(args)
-
     try:
+        split_args = shlex.split(args)
         parsed_args = parser.parse_known_args(split_args)[0]
-    except ReturnErrorMessage as e:
+    except (ReturnErrorMessage, ValueError) as e:
+        # shlex fails with a ValueError if the quotes in the line are unbalanced.
         return str(e)
 
     command = str(parsed_args.command)
-- 
2.43.0


From ba121826a5e6287875924bb0cf078d58d429b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:52 +0000
Subject: [PATCH 26/38] fix: take the console expression from the split
 position of the line

---
 .../dap/plugins/plugin_utils/_repl_util.py    | 33 +++++++++++++++----
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
index cc51582..305c587 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py
@@ -42,6 +42,30 @@ class SetVarCommand(ReplCommand):
     expression: str
 
 
+def get_raw_remaining(
+    args: str,
+    *values: str,
+) -> str:
+    """Gets the raw text that comes after the values provided.
+
+    Args:
+        args: The raw string to get the remaining text from.
+        values: The split values, in the order they are in args, to skip.
+
+    Returns:
+        str: The unmodified text after the last value.
+    """
+    lexer = shlex.shlex(args, posix=True)
+    lexer.whitespace_split = True
+    lexer.commenters = ""
+
+    for value in values:
+        while lexer.get_token() not in [value, None]:
+            pass
+
+    return lexer.instream.read().lstrip()
+
+
 def parse_repl_args(
     args: str,
 ) -> ReplCommand | str:
@@ -142,18 +166,13 @@ def parse_repl_args(
 
     if parsed_args.command == "template":
         # The value after the command needs to be extracted.
-        expr = args[args.index(command) + len(command) :].lstrip()
+        expr = get_raw_remaining(args, command)
 
         return TemplateCommand(command="template", expression=expr)
 
     elif parsed_args.command in ["set_option", "set_hostvar"]:
         # The value after the option/var name needs to be extracted.
-        remaining = args[args.index(command) + len(command) :].lstrip()
-        remaining = remaining[remaining.index(parsed_args.name) + len(parsed_args.name) :]
-        if remaining.startswith('"') or remaining.startswith("'"):
-            remaining = remaining[1:]
-
-        expr = remaining.lstrip()
+        expr = get_raw_remaining(args, command, parsed_args.name)
 
         return SetVarCommand(parsed_args.command, parsed_args.name, expr)
 
-- 
2.43.0


From 766b5916e7cadaeb8c6d2e2d3984e912f2209719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 27/38] fix: fail to connect when the peer closes the
 connection before it is ready

The byte that confirms that the server accepted the connection (and the TLS
certificate of the client) was read but its absence was ignored, an attach
to a peer that closed the connection was reported as successful.
---
 src/ansibug/_mp_queue.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_mp_queue.py b/src/ansibug/_mp_queue.py
index 36c2e7c..1b742bf 100644
--- a/src/ansibug/_mp_queue.py
+++ b/src/ansibug/_mp_queue.py
@@ -195,11 +195,14 @@ class ClientMPQueue(MPQueue):
             # TLS 1.3 won't validate their cert was accepted until its first
             # read. This ensures the connection is validated before it is
             # going to be used.
-            self._socket.recv(1, self._cancel_token)
+            confirmation = self._socket.recv(1, self._cancel_token)
         else:
             # Ensures that the server is actually connected to us and we aren't
             # in the backlog waiting for an accept().
-            self._socket.recv(1, self._cancel_token)
+            confirmation = self._socket.recv(1, self._cancel_token)
+
+        if not confirmation:
+            raise ConnectionError("The peer closed the connection before it was ready to be used")
 
         self._socket.settimeout(None)
 
-- 
2.43.0


From c894675c6d95958336cf2ad105ec0143ff30d348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 28/38] fix: refuse addresses that are not one of the
 documented forms

tcp:localhost:1234 was accepted as all interfaces with a random port and the
path of a tcp address was ignored. The socket of a relative uds path was
reported with an address that is a different socket in the temp directory.
---
 src/ansibug/_socket_helper.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index fa34efa..179068f 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -71,6 +71,9 @@ def parse_addr_string(
     value_split = urllib.parse.urlsplit(value)
 
     if value_split.scheme == "tcp":
+        if value_split.path or value_split.query or value_split.fragment:
+            raise ValueError("Specifying a tcp address must only contain the hostname and port")
+
         if not value_split.netloc and not value_split.port:
             return "", 0
 
@@ -87,9 +90,12 @@ def parse_addr_string(
         elif value_split.netloc:
             return os.path.join(tempfile.gettempdir(), value_split.netloc)
 
-        elif value_split.path:
+        elif value_split.path.startswith("/"):
             return value_split.path
 
+        elif value_split.path:
+            raise ValueError("Specifying a uds address with a path must use the full path")
+
         else:
             return str(pathlib.Path(tempfile.gettempdir()) / f"ansibug-dap-{uuid.uuid4()}")
 
-- 
2.43.0


From 021b60fe44e7cb0b2187a0b533f53fa85e42dac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:51 +0000
Subject: [PATCH 29/38] fix: keep the characters of a uds path that start a URL
 query or fragment

uds:///tmp/a#b was used as /tmp/a, with a temporary directory that has such a
name the address a listener reported was not the one it listened on.
---
 src/ansibug/_socket_helper.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index 179068f..6ba33cb 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -84,16 +84,22 @@ def parse_addr_string(
             raise ValueError("Specifying a tcp address must include the port")
 
     elif value_split.scheme == "uds":
-        if value_split.netloc and value_split.path:
+        # A filename can contain the characters that start a URL query or
+        # fragment, they are quoted so they aren't removed from the path.
+        value_split = urllib.parse.urlsplit(urllib.parse.quote(value, safe="/:", errors="surrogateescape"))
+        netloc = urllib.parse.unquote(value_split.netloc, errors="surrogateescape")
+        path = urllib.parse.unquote(value_split.path, errors="surrogateescape")
+
+        if netloc and path:
             raise ValueError("Specifying a uds address must only contain the port or netloc, not both")
 
-        elif value_split.netloc:
-            return os.path.join(tempfile.gettempdir(), value_split.netloc)
+        elif netloc:
+            return os.path.join(tempfile.gettempdir(), netloc)
 
-        elif value_split.path.startswith("/"):
-            return value_split.path
+        elif path.startswith("/"):
+            return path
 
-        elif value_split.path:
+        elif path:
             raise ValueError("Specifying a uds address with a path must use the full path")
 
         else:
-- 
2.43.0


From bb816635ef96adbb408c5ba9e7e23931a0e128a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:40 +0000
Subject: [PATCH 30/38] fix: refuse user information in a tcp address

---
 src/ansibug/_socket_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ansibug/_socket_helper.py b/src/ansibug/_socket_helper.py
index 6ba33cb..4dac939 100644
--- a/src/ansibug/_socket_helper.py
+++ b/src/ansibug/_socket_helper.py
@@ -71,7 +71,7 @@ def parse_addr_string(
     value_split = urllib.parse.urlsplit(value)
 
     if value_split.scheme == "tcp":
-        if value_split.path or value_split.query or value_split.fragment:
+        if value_split.username is not None or value_split.path or value_split.query or value_split.fragment:
             raise ValueError("Specifying a tcp address must only contain the hostname and port")
 
         if not value_split.netloc and not value_split.port:
-- 
2.43.0


From 85d9ea9728850829a5c0459887353519009d4c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:34 +0000
Subject: [PATCH 31/38] fix: launch when Ansible's debug messages are enabled

---
 src/ansibug/_exec_playbook.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ansibug/_exec_playbook.py b/src/ansibug/_exec_playbook.py
index bacea42..23b0d08 100644
--- a/src/ansibug/_exec_playbook.py
+++ b/src/ansibug/_exec_playbook.py
@@ -183,9 +183,9 @@ def _configure_ansible_env() -> dict[str, str]:
             "--format",
             "json",
         ],
-        # Explicitly set verbosity so it doesn't display version info breaking
-        # the json parsing.
-        env=os.environ | {"ANSIBLE_VERBOSITY": "0"},
+        # Explicitly set verbosity and debug so it doesn't display version info
+        # or debug messages breaking the json parsing.
+        env=os.environ | {"ANSIBLE_VERBOSITY": "0", "ANSIBLE_DEBUG": "0"},
         capture_output=True,
         check=True,  # FUTURE: Maybe a nicer exception would be useful
     )
-- 
2.43.0


From 8b9eae4771b59ca308d79a865718cb57bb906126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 32/38] fix: do not miss a breakpoint while the breakpoints of
 its file are replaced

---
 src/ansibug/_debuggee.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index 3c00d24..e10667b 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -397,7 +397,12 @@ class AnsibleDebugger(metaclass=Singleton):
             Optional[AnsibleLineBreakpoint]: The breakpoint associated with the
             args if present.
         """
-        for b in list(self._breakpoints.values()):
+        # A request that replaces the breakpoints of a file is not finished
+        # until the lock is released.
+        with self._breakpoint_lock:
+            breakpoints = list(self._breakpoints.values())
+
+        for b in breakpoints:
             if (
                 b.actual_path == path
                 and (b.breakpoint.line is None or b.breakpoint.line <= line)
-- 
2.43.0


From 391c63ccf32acf0d6d539600c1febc10a3c843ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 33/38] fix: do not miss an exception while the exception
 filters are replaced

---
 src/ansibug/_debuggee.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index e10667b..c840d41 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -717,9 +717,8 @@ class AnsibleDebugger(metaclass=Singleton):
         self,
         msg: dap.SetExceptionBreakpointsRequest,
     ) -> None:
-        self._breakpoint_exceptions = {}
-        for breakpoint_type in msg.filters:
-            self._breakpoint_exceptions[breakpoint_type] = True
+        # This is replaced at once as the playbook might be running.
+        self._breakpoint_exceptions = {breakpoint_type: True for breakpoint_type in msg.filters}
 
         resp = dap.SetExceptionBreakpointsResponse(request_seq=msg.seq)
         self.queue_msg(resp)
-- 
2.43.0


From 26c6e6b18a52a38d2666d66832c088aed3f1cc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 34/38] fix: do not give two variables the same id

---
 src/ansibug/_debuggee.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ansibug/_debuggee.py b/src/ansibug/_debuggee.py
index c840d41..2a37bdc 100644
--- a/src/ansibug/_debuggee.py
+++ b/src/ansibug/_debuggee.py
@@ -256,6 +256,7 @@ class AnsibleDebugger(metaclass=Singleton):
         self._thread_counter = 2  # 1 is always the main thread
         self._stackframe_counter = 1
         self._variable_counter = 1
+        self._variable_lock = threading.Lock()
 
         # Stores all the client breakpoints, key is the breakpoint number/id
         self._breakpoint_exceptions: dict[str, bool] = {}
@@ -344,8 +345,10 @@ class AnsibleDebugger(metaclass=Singleton):
         return sfid
 
     def next_variable_id(self) -> int:
-        vid = self._variable_counter
-        self._variable_counter += 1
+        # Both the strategy and the requests of the client add variables.
+        with self._variable_lock:
+            vid = self._variable_counter
+            self._variable_counter += 1
 
         return vid
 
-- 
2.43.0


From 5bdd4d4aab3fdb0e33f4506c8dfcc25f31e8b359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 35/38] fix: do not fail a stack trace when a frame is removed
 by the running thread

---
 .../ansibug/dap/plugins/strategy/debug.py                 | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index ce3594e..9c1f084 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -870,9 +870,11 @@ class AnsibleDebugState(DebugState):
     ) -> ansibug.dap.StackTraceResponse:
         stack_frames: list[ansibug.dap.StackFrame] = []
         thread = self.threads[request.thread_id]
-        for sfid in thread.stack_frames:
-            sf = self.stackframes[sfid]
-            stack_frames.append(sf.to_dap())
+        for sfid in list(thread.stack_frames):
+            # The frame could have been removed if the thread is running.
+            sf = self.stackframes.get(sfid)
+            if sf:
+                stack_frames.append(sf.to_dap())
 
         return ansibug.dap.StackTraceResponse(
             request_seq=request.seq,
-- 
2.43.0


From 1f9cd545e5614f50ebc7ccb802bc90ec3bfe9e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:23 +0000
Subject: [PATCH 36/38] fix: resume the threads while none of them can exit

---
 .../ansibug/dap/plugins/strategy/debug.py          | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 9c1f084..0ab641d 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -671,7 +671,10 @@ class AnsibleDebugState(DebugState):
             if tid == 1:
                 continue
 
-            del self.threads[tid]
+            # A request could be resuming the threads at the same time.
+            with self._waiting_condition:
+                del self.threads[tid]
+
             self._debugger.queue_msg(
                 ansibug.dap.ThreadEvent(
                     reason="exited",
@@ -687,7 +690,7 @@ class AnsibleDebugState(DebugState):
             self._resume_threads([request.thread_id], ThreadState.CONTINUE)
             all_threads_continued = False
         else:
-            self._resume_threads(list(self.threads.keys()), ThreadState.CONTINUE)
+            self._resume_threads(None, ThreadState.CONTINUE)
             all_threads_continued = True
 
         return ansibug.dap.ContinueResponse(
@@ -700,7 +703,7 @@ class AnsibleDebugState(DebugState):
         request: ansibug.dap.DisconnectRequest,
     ) -> None:
         state = ThreadState.END if request.terminate_debuggee else ThreadState.CONTINUE
-        self._resume_threads(list(self.threads.keys()), state)
+        self._resume_threads(None, state)
 
     def get_scopes(
         self,
@@ -1017,11 +1020,12 @@ class AnsibleDebugState(DebugState):
 
     def _resume_threads(
         self,
-        thread_ids: collections.abc.Iterable[int],
+        thread_ids: collections.abc.Iterable[int] | None,
         thread_state: ThreadState,
     ) -> None:
         with self._waiting_condition:
-            for tid in thread_ids:
+            # All the threads are resumed if none are specified.
+            for tid in list(self.threads.keys()) if thread_ids is None else thread_ids:
                 self.threads[tid].set_state(thread_state)
 
             self._waiting_condition.notify_all()
-- 
2.43.0


From 2a88d5a88e202aac4edc1b95ada042eeb335b94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:58 +0000
Subject: [PATCH 37/38] fix: Remove the frames of a thread that exits

The frames of the includes of a host, and the one of a task like
meta: refresh_inventory, were kept with their variables after the thread of
the host was gone.
---
 .../ansibug/dap/plugins/strategy/debug.py              | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 0ab641d..350cb09 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -673,7 +673,15 @@ class AnsibleDebugState(DebugState):
 
             # A request could be resuming the threads at the same time.
             with self._waiting_condition:
-                del self.threads[tid]
+                thread = self.threads.pop(tid)
+
+            # The frames of the includes, and the one of a refresh_inventory
+            # task, are still present as no other task of the host has run.
+            while thread.stack_frames:
+                sfid = thread.stack_frames.pop(0)
+                sf = self.stackframes.pop(sfid)
+                for variable_id in sf.variables:
+                    del self.variables[variable_id]
 
             self._debugger.queue_msg(
                 ansibug.dap.ThreadEvent(
-- 
2.43.0


From 8bdcdca7b9d384837c41839c2428da24cc32b316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:54 +0000
Subject: [PATCH 38/38] fix: Set the item of a dict whose key is not a string

The client only knows the string of a key, setting it added a second item
instead of changing the one that was shown.
---
 .../ansibug/dap/plugins/strategy/debug.py                  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
index 350cb09..5655d8e 100644
--- a/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
+++ b/src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py
@@ -420,7 +420,12 @@ class AnsibleDictVariable(AnsibleVariable):
         index: str,
         value: t.Any,
     ) -> None:
-        self._ds[index] = value  # type: ignore[index]
+        key: t.Any = index
+        if key not in self._ds:
+            # The client only knows a key that is not a string by its name.
+            key = next((k for k in self._ds if str(k) == index), index)
+
+        self._ds[key] = value  # type: ignore[index]
 
 
 class AnsibleDictWithRawStoreVariable(AnsibleDictVariable):
-- 
2.43.0

