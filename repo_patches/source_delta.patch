From c1bab523a0c3b9b96672f29a069ac8864c14d995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 01/62] fix: do not abort the run when the future of an action
 is cancelled

The future of an OpaqueCoroutine is cancelled on shutdown. Asking the
cancelled task for its exception raised CancelledError, which the run
loop took for a cancellation of itself: it returned 1 at once, leaving
the processes behind that were still being shut down.
---
 launch/launch/launch_service.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index defd771..e6615ef 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -329,6 +329,9 @@ class LaunchService:
                     # Propagate exception from completed tasks
                     exception_to_raise = None
                     for task in completed_tasks:
+                        if task.cancelled() and task is not process_one_event_task:
+                            # An action's future was cancelled, e.g. by the shutdown.
+                            continue
                         exc = task.exception()
                         if exc is None:
                             continue
-- 
2.43.0


From 248b38e8d635f82b66f439dcd7048c21c5076632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 02/62] fix: keep waiting for what was started before a visit
 raised

When visiting an entity raised an exception, the futures collected from
the entities visited before it were dropped. The service did not wait
for these any more: the run returned although their processes were
still starting or running, and nothing shut them down.
---
 .../visit_all_entities_and_collect_futures_impl.py  | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py b/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
index ff94f99..73a901d 100644
--- a/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
+++ b/launch/launch/utilities/visit_all_entities_and_collect_futures_impl.py
@@ -34,6 +34,9 @@ def visit_all_entities_and_collect_futures(
     continuing on to more sub-entities.
 
     This function may call itself to traverse the sub-entities recursively.
+
+    If visiting an entity raises an exception, the futures collected so far are added to the
+    completion futures of the context, so that they are waited for all the same.
     """
     sub_entities = entity.visit(context)
     entity_future = entity.get_asyncio_future()
@@ -41,6 +44,12 @@ def visit_all_entities_and_collect_futures(
     if entity_future is not None:
         futures_to_return.append((entity, entity_future))
     if sub_entities is not None:
-        for sub_entity in sub_entities:
-            futures_to_return += visit_all_entities_and_collect_futures(sub_entity, context)
+        try:
+            for sub_entity in sub_entities:
+                futures_to_return += visit_all_entities_and_collect_futures(sub_entity, context)
+        except Exception:
+            # The caller will not get these futures, but what they stand for has been started.
+            for _, future in futures_to_return:
+                context.add_completion_future(future)
+            raise
     return [future_pair for future_pair in futures_to_return if future_pair[1] is not None]
-- 
2.43.0


From 30d04955d1ebd81b3230c41f5c88af1d701d7dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 03/62] fix: restore the context locals when an event handler
 raises

The locals pushed for a handler were not popped when the handler or an
entity it returned raised, so they leaked into all later handlers.
---
 launch/launch/launch_service.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index e6615ef..0ab6525 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -236,19 +236,21 @@ class LaunchService:
                 self.__logger.debug(
                     "processing event: '{}' ✓ '{}'".format(event, event_handler))
                 self.__context._push_locals()
-                entities = event_handler.handle(event, self.__context)
-                entities = \
-                    entities if isinstance(entities, collections.abc.Iterable) else (entities,)
-                for entity in [e for e in entities if e is not None]:
-                    from .utilities import is_a_subclass
-                    if not is_a_subclass(entity, LaunchDescriptionEntity):
-                        raise RuntimeError(
-                            "expected a LaunchDescriptionEntity from event_handler, got '{}'"
-                            .format(entity)
-                        )
-                    self._entity_future_pairs.extend(
-                        visit_all_entities_and_collect_futures(entity, self.__context))
-                self.__context._pop_locals()
+                try:
+                    entities = event_handler.handle(event, self.__context)
+                    entities = \
+                        entities if isinstance(entities, collections.abc.Iterable) else (entities,)
+                    for entity in [e for e in entities if e is not None]:
+                        from .utilities import is_a_subclass
+                        if not is_a_subclass(entity, LaunchDescriptionEntity):
+                            raise RuntimeError(
+                                "expected a LaunchDescriptionEntity from event_handler, got '{}'"
+                                .format(entity)
+                            )
+                        self._entity_future_pairs.extend(
+                            visit_all_entities_and_collect_futures(entity, self.__context))
+                finally:
+                    self.__context._pop_locals()
             else:
                 pass
                 # Keep this commented for now, since it's very chatty.
-- 
2.43.0


From d8e652bf1d10698652156d22345e12c255bf3da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 04/62] fix: let all handlers see an event although one of them
 raises

An exception in one handler kept the handlers after it from seeing the
event. When the event was a Shutdown, processes whose action was
registered earlier were never shut down and the run did not end.
---
 launch/launch/launch_service.py | 66 ++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 0ab6525..b4d4dc1 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -231,32 +231,48 @@ class LaunchService:
 
     async def __process_event(self, event: Event) -> None:
         self.__logger.debug("processing event: '{}'".format(event))
+        exception_to_raise = None
         for event_handler in tuple(self.__context._event_handlers):
-            if event_handler.matches(event):
-                self.__logger.debug(
-                    "processing event: '{}' ✓ '{}'".format(event, event_handler))
-                self.__context._push_locals()
-                try:
-                    entities = event_handler.handle(event, self.__context)
-                    entities = \
-                        entities if isinstance(entities, collections.abc.Iterable) else (entities,)
-                    for entity in [e for e in entities if e is not None]:
-                        from .utilities import is_a_subclass
-                        if not is_a_subclass(entity, LaunchDescriptionEntity):
-                            raise RuntimeError(
-                                "expected a LaunchDescriptionEntity from event_handler, got '{}'"
-                                .format(entity)
-                            )
-                        self._entity_future_pairs.extend(
-                            visit_all_entities_and_collect_futures(entity, self.__context))
-                finally:
-                    self.__context._pop_locals()
-            else:
-                pass
-                # Keep this commented for now, since it's very chatty.
-                # self.__logger.debug(
-                #     'launch.LaunchService',
-                #     "processing event: '{}' x '{}'".format(event, event_handler))
+            try:
+                self.__process_event_with_handler(event, event_handler)
+            except Exception as exc:
+                # The other handlers still need to see the event, e.g. the ones that shut down
+                # the processes when the event is a Shutdown.
+                if exception_to_raise is None:
+                    exception_to_raise = exc
+                else:
+                    self.__logger.debug(traceback.format_exc())
+                    self.__logger.error(
+                        'Caught exception in launch (see debug for traceback): {}'.format(exc))
+        if exception_to_raise is not None:
+            raise exception_to_raise
+
+    def __process_event_with_handler(self, event, event_handler):
+        if event_handler.matches(event):
+            self.__logger.debug(
+                "processing event: '{}' ✓ '{}'".format(event, event_handler))
+            self.__context._push_locals()
+            try:
+                entities = event_handler.handle(event, self.__context)
+                entities = \
+                    entities if isinstance(entities, collections.abc.Iterable) else (entities,)
+                for entity in [e for e in entities if e is not None]:
+                    from .utilities import is_a_subclass
+                    if not is_a_subclass(entity, LaunchDescriptionEntity):
+                        raise RuntimeError(
+                            "expected a LaunchDescriptionEntity from event_handler, got '{}'"
+                            .format(entity)
+                        )
+                    self._entity_future_pairs.extend(
+                        visit_all_entities_and_collect_futures(entity, self.__context))
+            finally:
+                self.__context._pop_locals()
+        else:
+            pass
+            # Keep this commented for now, since it's very chatty.
+            # self.__logger.debug(
+            #     'launch.LaunchService',
+            #     "processing event: '{}' x '{}'".format(event, event_handler))
 
     async def run_async(self, *, shutdown_when_idle=True) -> int:
         """
-- 
2.43.0


From e4f39b51f9b9c93273d836d3d967fcfcf64bf10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 05/62] fix: enter the shutdown state before the handlers of
 Shutdown run

When a Shutdown event was not emitted by the service itself but by an
action, the context entered the shutdown state only in the last handler
of that event. A process started by another handler of the event was
never shut down, and the run did not end.
---
 launch/launch/launch_service.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index b4d4dc1..b30da00 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -227,6 +227,11 @@ class LaunchService:
 
     async def _process_one_event(self) -> None:
         next_event = await self.__context._event_queue.get()
+        if isinstance(next_event, Shutdown):
+            # Nothing may be started by the handlers of this event any more, as it could not
+            # be shut down by it.
+            self.__shutting_down = True
+            self.__context._set_is_shutdown(True)
         await self.__process_event(next_event)
 
     async def __process_event(self, event: Event) -> None:
-- 
2.43.0


From 0e0c0095ad6b30923d3f38e3aa39c53c97430911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 06/62] fix: do not wait for the loop when emitting from
 another thread

emit_event() waited for the loop to emit the event, which never happens
when the run ends before the loop gets to it, or when called from the
thread of the loop. shutdown() did so while holding the lock that the
ending run needs, so that neither returned.
---
 launch/launch/launch_service.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index b30da00..364991f 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -15,6 +15,7 @@
 """Module for the LaunchService class."""
 
 import asyncio
+import collections
 import collections.abc
 import contextlib
 import logging
@@ -87,6 +88,8 @@ class LaunchService:
         self.__loop_from_run_thread_lock = threading.RLock()
         self.__loop_from_run_thread = None
         self.__this_task = None
+        # Events emitted by other threads, which the loop has yet to put into its queue.
+        self.__events_for_loop: collections.deque = collections.deque()
 
         # Used to indicate when shutdown() has been called.
         self.__shutting_down = False
@@ -101,21 +104,19 @@ class LaunchService:
 
         If the LaunchService is not running, the event is queued until it is.
         """
-        future = None
         with self.__loop_from_run_thread_lock:
             if self.__loop_from_run_thread is not None:
-                # loop is in use, asynchronously emit the event
-                future = asyncio.run_coroutine_threadsafe(
-                    self.__context.emit_event(event),
-                    self.__loop_from_run_thread
-                )
+                # loop is in use, let it emit the event; do not wait until it did so, as that
+                # would block forever if the run ends before it gets there
+                self.__events_for_loop.append(event)
+                self.__loop_from_run_thread.call_soon_threadsafe(self.__emit_events_for_loop)
             else:
                 # loop is not in use, synchronously emit the event, and it will be processed later
                 self.__context.emit_event_sync(event)
 
-        if future is not None:
-            # Block until asynchronously emitted event is emitted by loop
-            future.result()
+    def __emit_events_for_loop(self):
+        while self.__events_for_loop:
+            self.__context.emit_event_sync(self.__events_for_loop.popleft())
 
     def include_launch_description(self, launch_description: LaunchDescription) -> None:
         """
@@ -221,6 +222,7 @@ class LaunchService:
         finally:
             # No matter what happens, unset the loop.
             with self.__loop_from_run_thread_lock:
+                self.__emit_events_for_loop()
                 self.__context._set_asyncio_loop(None)
                 self.__loop_from_run_thread = None
                 self.__shutting_down = False
-- 
2.43.0


From 559650bd7141c03e2675064bc21509fa438d9b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 07/62] fix: carry out a shutdown() from another thread in the
 loop

shutdown() changed the state of the run from the calling thread, in
between the steps of the run loop: the Shutdown event could be emitted
twice, or the run end without handling it. With force_sync=True it also
used the event queue of the loop from the wrong thread.
---
 launch/launch/launch_service.py | 44 +++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 364991f..bb35371 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -23,6 +23,7 @@ import platform
 import signal
 import threading
 import traceback
+from typing import Any
 from typing import Coroutine
 from typing import Iterable
 from typing import List  # noqa: F401
@@ -86,7 +87,7 @@ class LaunchService:
         # Used to allow asynchronous use of self.__loop_from_run_thread without
         # it being set to None by run() as it exits.
         self.__loop_from_run_thread_lock = threading.RLock()
-        self.__loop_from_run_thread = None
+        self.__loop_from_run_thread: Any = None
         self.__this_task = None
         # Events emitted by other threads, which the loop has yet to put into its queue.
         self.__events_for_loop: collections.deque = collections.deque()
@@ -420,24 +421,29 @@ class LaunchService:
     def _shutdown(self, *, reason, due_to_sigint, force_sync=False) -> Optional[Coroutine]:
         # Assumption is that this method is only called when running.
         retval = None
-        if not self.__shutting_down:
-            shutdown_event = Shutdown(reason=reason, due_to_sigint=due_to_sigint)
-            asyncio_event_loop = None
-            try:
-                asyncio_event_loop = osrf_pycommon.process_utils.get_loop()
-            except (RuntimeError, AssertionError):
-                # If no event loop is set for this thread, asyncio will raise an exception.
-                # The exception type depends on the version of Python, so just catch both.
-                pass
-            if force_sync:
-                self.__context.emit_event_sync(shutdown_event)
-            elif self.__loop_from_run_thread == asyncio_event_loop:
-                # If in the thread of the loop.
-                retval = self.__context.emit_event(shutdown_event)
-            else:
-                # Otherwise in a different thread, so use the thread-safe method.
-                self.emit_event(shutdown_event)
-        self.__shutting_down = True
+        asyncio_event_loop = None
+        try:
+            asyncio_event_loop = osrf_pycommon.process_utils.get_loop()
+        except (RuntimeError, AssertionError):
+            # If no event loop is set for this thread, asyncio will raise an exception.
+            # The exception type depends on the version of Python, so just catch both.
+            pass
+        if self.__loop_from_run_thread != asyncio_event_loop:
+            # In a different thread, so let the loop do it: the state of the run must not change
+            # while the run loop takes its decisions.
+            def shutdown_in_loop():
+                if self.__loop_from_run_thread is not None:
+                    self._shutdown(
+                        reason=reason, due_to_sigint=due_to_sigint, force_sync=True)
+            self.__loop_from_run_thread.call_soon_threadsafe(shutdown_in_loop)
+        else:
+            if not self.__shutting_down:
+                shutdown_event = Shutdown(reason=reason, due_to_sigint=due_to_sigint)
+                if force_sync:
+                    self.__context.emit_event_sync(shutdown_event)
+                else:
+                    retval = self.__context.emit_event(shutdown_event)
+            self.__shutting_down = True
         self.__context._set_is_shutdown(True)
         return retval
 
-- 
2.43.0


From b4642b168724b8f99972dfa9f5831c0df54c73cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 08/62] fix: do not disturb a run by refusing a second
 concurrent one

Refusing the second run unset the loop of the first one, which then
could not be shut down any more and kept events emitted by other threads
to itself.
---
 launch/launch/launch_service.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index bb35371..2ed7b7e 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -154,13 +154,15 @@ class LaunchService:
 
     @contextlib.contextmanager
     def _prepare_run_loop(self):
+        with self.__loop_from_run_thread_lock:
+            if self.__loop_from_run_thread is not None:
+                # This must not unset the loop of the other run below.
+                raise RuntimeError(
+                    'LaunchService cannot be run multiple times concurrently.'
+                )
         try:
             # Acquire the lock and initialize the loop.
             with self.__loop_from_run_thread_lock:
-                if self.__loop_from_run_thread is not None:
-                    raise RuntimeError(
-                        'LaunchService cannot be run multiple times concurrently.'
-                    )
                 this_loop = osrf_pycommon.process_utils.get_loop()
 
                 if self.__debug:
-- 
2.43.0


From fe21e039fb3ada157bd12a8a7d17c3982a6cd7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 09/62] fix: defer the shutdown of a process to its own start
 only

The handler that defers the shutdown of a starting process reacted to
the start of every process, each time by registering itself once more.
The number of handlers doubled with every other process that started,
which made shutting down while many processes start practically hang.
---
 launch/launch/actions/execute_local.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 9c53671..e045d56 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -284,8 +284,10 @@ class ExecuteLocal(Action):
             # Do not set shutdown result, as event is postponed
             context.register_event_handler(
                 OnProcessStart(
+                    target_action=lambda action: action is self,
                     on_start=lambda event, context:
-                    self._shutdown_process(context, send_sigint=send_sigint)))
+                    self._shutdown_process(context, send_sigint=send_sigint),
+                    handle_once=True))
             return None
 
         self.__shutdown_future.set_result(None)
-- 
2.43.0


From c2a668f95eb89e1e30a5dd8b933d3d96aa660518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 10/62] fix: do not touch a running process when refusing to
 execute it again

The second execution was refused only after prepare() had replaced the
name and the details, including the pid, of the process that runs.
---
 launch/launch/actions/execute_local.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index e045d56..93d330f 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -650,13 +650,13 @@ class ExecuteLocal(Action):
         - configures logging for the IO process event
         - create a task for the coroutine that monitors the process
         """
-        self.prepare(context)
-        name = self.__process_description.final_name
-
         if self.__executed:
+            name = self.__process_description.final_name
             raise RuntimeError(
                 f"ExecuteLocal action '{name}': executed more than once: {self.describe()}"
             )
+        self.prepare(context)
+        name = self.__process_description.final_name
         self.__executed = True
 
         if context.is_shutdown:
-- 
2.43.0


From 22e3c454bd4af0d039156f09b30e6214804bc42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 11/62] fix: shut down a process that is just being respawned

While a process was being started again, a shutdown was directed at its
previous instance: SIGINT went nowhere and the new instance ran on until
the SIGTERM, or for good when it outlived the timers.
---
 launch/launch/actions/execute_local.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 93d330f..642c23e 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -319,10 +319,10 @@ class ExecuteLocal(Action):
             return None
         if self.process_details is None:
             raise RuntimeError('Signal event received before execution.')
-        if self._subprocess_transport is None:
+        if self._subprocess_protocol is None:
             raise RuntimeError('Signal event received before subprocess transport available.')
-        if self._subprocess_protocol.complete.done():
-            # the process is done or is cleaning up, no need to signal
+        if self._subprocess_transport is None or self._subprocess_protocol.complete.done():
+            # the process is done, is cleaning up or is being respawned, no need to signal
             self.__logger.debug(
                 "signal '{}' not set to '{}' because it is already closing".format(
                     typed_event.signal_name, self.process_details['name']),
@@ -619,6 +619,8 @@ class ExecuteLocal(Action):
                     timeout=self.__respawn_delay
                 )
             if not self.__shutdown_future.done():
+                # Until it runs again, a shutdown has to be deferred as for the first start.
+                self._subprocess_transport = None
                 context.asyncio_loop.create_task(self.__execute_process(context))
                 return
         self.__cleanup()
-- 
2.43.0


From bc2edb9cd416f5db32129e56ae63f42fba43109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 12/62] fix: do not hang when emulate_tty is configured with an
 invalid value

The exception ended the coroutine of the process without completing its
future, so that the run never ended.
---
 launch/launch/actions/execute_local.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 642c23e..a5db45c 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -558,16 +558,16 @@ class ExecuteLocal(Action):
                 'True' if env is not None else 'False'
             ))
 
-        emulate_tty = self.__emulate_tty
-        if 'emulate_tty' in context.launch_configurations:
-            emulate_tty = evaluate_condition_expression(
-                context,
-                normalize_to_list_of_substitutions(
-                    context.launch_configurations['emulate_tty']
-                ),
-            )
-
         try:
+            emulate_tty = self.__emulate_tty
+            if 'emulate_tty' in context.launch_configurations:
+                emulate_tty = evaluate_condition_expression(
+                    context,
+                    normalize_to_list_of_substitutions(
+                        context.launch_configurations['emulate_tty']
+                    ),
+                )
+
             transport, self._subprocess_protocol = await async_execute_process(
                 lambda **kwargs: self.__ProcessProtocol(
                     self, context, process_event_args, **kwargs
-- 
2.43.0


From 4c205fee9e7d5173c34b1b753f9eed32a5169af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 13/62] fix: keep characters intact that are split between
 output events

Each chunk of output was decoded on its own, so that a multi-byte
character at the boundary was logged and cached as replacement
characters.
---
 launch/launch/actions/execute_local.py | 29 ++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index a5db45c..e6fceca 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -15,6 +15,7 @@
 """Module for the ExecuteLocal action."""
 
 import asyncio
+import codecs
 import io
 import logging
 import os
@@ -221,6 +222,8 @@ class ExecuteLocal(Action):
         self.__sigkill_timer = None  # type: Optional[TimerAction]
         self.__stdout_buffer = io.StringIO()
         self.__stderr_buffer = io.StringIO()
+        self.__stdout_decoder = codecs.getincrementaldecoder('utf-8')(errors='replace')
+        self.__stderr_decoder = codecs.getincrementaldecoder('utf-8')(errors='replace')
 
         self.__executed = False
 
@@ -363,10 +366,16 @@ class ExecuteLocal(Action):
         cast(ProcessStdin, event)
         return None
 
+    def __decode_output(self, event: ProcessIO) -> Text:
+        # A multi-byte character may be split between two events.
+        if event.from_stdout:
+            return self.__stdout_decoder.decode(event.text)
+        return self.__stderr_decoder.decode(event.text)
+
     def __on_process_output(
         self, event: ProcessIO, buffer: io.TextIOBase, logger: logging.Logger
     ) -> None:
-        to_write = event.text.decode(errors='replace')
+        to_write = self.__decode_output(event)
         if buffer.closed:
             # buffer was probably closed by __flush_buffers on shutdown.  Output without
             # buffering.
@@ -391,6 +400,7 @@ class ExecuteLocal(Action):
                 buffer.write(last_line)
 
     def __flush_buffers(self, event, context):
+        self.__flush_decoders()
         line = self.__stdout_buffer.getvalue()
         if line != '':
             self.__stdout_logger.info(
@@ -414,10 +424,24 @@ class ExecuteLocal(Action):
             self.__stderr_buffer.seek(0)
             self.__stderr_buffer.truncate(0)
 
+    def __flush_decoders(self):
+        # Whatever is left of an incomplete character when the process exits is part of the output.
+        for decoder, buffer in (
+            (self.__stdout_decoder, self.__stdout_buffer),
+            (self.__stderr_decoder, self.__stderr_buffer),
+        ):
+            rest = decoder.decode(b'', final=True)
+            decoder.reset()
+            if rest and not buffer.closed:
+                cursor = buffer.tell()
+                buffer.seek(0, os.SEEK_END)
+                buffer.write(rest)
+                buffer.seek(cursor)
+
     def __on_process_output_cached(
         self, event: ProcessIO, buffer, logger
     ) -> None:
-        to_write = event.text.decode(errors='replace')
+        to_write = self.__decode_output(event)
         last_cursor = buffer.tell()
         buffer.seek(0, os.SEEK_END)  # go to end of buffer
         buffer.write(to_write)
@@ -433,6 +457,7 @@ class ExecuteLocal(Action):
         buffer.seek(new_cursor)
 
     def __flush_cached_buffers(self, event, context):
+        self.__flush_decoders()
         for line in self.__stdout_buffer:
             self.__stdout_logger.info(
                 self.__output_format.format(line=line, this=self)
-- 
2.43.0


From 48de9526d08b0e83e9717ce7e77e0de11b1c70e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 14/62] fix: do not fail when handlers change during
 would_handle_event()

Registering a handler in another thread, or in a matcher, while the
handlers were iterated raised RuntimeError.
---
 launch/launch/launch_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/launch_context.py b/launch/launch/launch_context.py
index ecd29cb..1f71a0c 100644
--- a/launch/launch/launch_context.py
+++ b/launch/launch/launch_context.py
@@ -208,7 +208,7 @@ class LaunchContext:
 
     def would_handle_event(self, event: Event) -> bool:
         """Check whether an event would be handled or not."""
-        return any(handler.matches(event) for handler in self._event_handlers)
+        return any(handler.matches(event) for handler in tuple(self._event_handlers))
 
     def register_event_handler(self, event_handler: BaseEventHandler, append=False) -> None:
         """
-- 
2.43.0


From 6a1247f74c0289047c04b3b57c268b6255265616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 15/62] fix: report a timer period that cannot be evaluated
 instead of hanging

The exception ended the coroutine of the timer without completing its
future: it was never reported and the run never ended, not even when it
was shut down.
---
 launch/launch/actions/timer_action.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/launch/launch/actions/timer_action.py b/launch/launch/actions/timer_action.py
index ac9049c..e5900ba 100644
--- a/launch/launch/actions/timer_action.py
+++ b/launch/launch/actions/timer_action.py
@@ -92,10 +92,13 @@ class TimerAction(Action):
         self.__logger = launch.logging.get_logger(__name__)
 
     async def _wait_to_fire_event(self, context):
-        done, pending = await asyncio.wait(
-            [self._canceled_future],
-            timeout=type_utils.perform_typed_substitution(context, self.__period, float),
-        )
+        try:
+            period = type_utils.perform_typed_substitution(context, self.__period, float)
+        except Exception as exc:
+            # Have the launch service report it, which waits for this future.
+            self._completed_future.set_exception(exc)
+            return
+        done, pending = await asyncio.wait([self._canceled_future], timeout=period)
         if not self._canceled_future.done():
             await context.emit_event(TimerEvent(timer_action=self))
         self._completed_future.set_result(None)
-- 
2.43.0


From c415cbb7ffb31ba36aaae76b13a5e187a93ce839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 16/62] fix: do not fail when matching the pid of a process
 that is being started

matches_pid() raised a KeyError for every process that was between the execution
of its action and the availability of its pid, and the exception shut the whole
launch down.
---
 launch/launch/events/process/process_matchers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/launch/launch/events/process/process_matchers.py b/launch/launch/events/process/process_matchers.py
index 3549a09..4f54916 100644
--- a/launch/launch/events/process/process_matchers.py
+++ b/launch/launch/events/process/process_matchers.py
@@ -28,7 +28,8 @@ def matches_pid(pid: int) -> Callable[['ExecuteProcess'], bool]:
         if action.process_details is None:
             # This can happen if the process in the action has not been started.
             return False
-        return action.process_details['pid'] == pid
+        # There is no pid yet while the process is being started.
+        return action.process_details.get('pid') == pid
 
     return matcher
 
-- 
2.43.0


From 426ef10b95d940f346e332b7baf71cdf7a260420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 17/62] fix: keep the output buffers until the last process of
 an action has exited

When the exit of a respawning process was handled after shutdown had begun, the
buffers were closed although another instance had been started in between: its
output was no longer split into lines, and handling its exit raised
"ValueError: I/O operation on closed file", which failed the launch.
---
 launch/launch/actions/execute_local.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index e6fceca..e7cc115 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -414,8 +414,12 @@ class ExecuteLocal(Action):
             )
 
         # the respawned process needs to reuse these StringIO resources,
-        # close them only after receiving the shutdown
-        if self.__shutdown_future is None or self.__shutdown_future.done():
+        # close them only after receiving the shutdown and the exit of the last process
+        if (
+            (self.__shutdown_future is None or self.__shutdown_future.done()) and
+            (self.__completed_future is None or self.__completed_future.done()) and
+            event.pid == self.process_details['pid']
+        ):
             self.__stdout_buffer.close()
             self.__stderr_buffer.close()
         else:
-- 
2.43.0


From 89c7fd657ea1d949a9b6ef8b3c27b22f70515390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 18/62] fix: do not fail when a handle_once handler was
 unregistered by another one

Handlers that are unregistered while an event is processed still see that event.  With
handle_once this ended in a ValueError, which shut the launch down.
---
 launch/launch/event_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/launch/launch/event_handler.py b/launch/launch/event_handler.py
index b2f9839..19cf616 100644
--- a/launch/launch/event_handler.py
+++ b/launch/launch/event_handler.py
@@ -97,7 +97,8 @@ class BaseEventHandler:
         support common event handler functionality.
         """
         context.extend_locals({'event': event})
-        if self.handle_once:
+        if self.handle_once and self in context._event_handlers:
+            # Another handler of the same event may have unregistered this one already.
             context.unregister_event_handler(self)
         return None
 
-- 
2.43.0


From b66772081d1badf815c4e59da45243f2f2cf6430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 19/62] fix: cancel every execution of an OpaqueCoroutine upon
 shutdown

When the action was executed again while its coroutine was running, only the last
coroutine was cancelled by the shutdown and the run never ended.
---
 launch/launch/actions/opaque_coroutine.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/launch/launch/actions/opaque_coroutine.py b/launch/launch/actions/opaque_coroutine.py
index 3628075..d1b0d7c 100644
--- a/launch/launch/actions/opaque_coroutine.py
+++ b/launch/launch/actions/opaque_coroutine.py
@@ -16,6 +16,7 @@
 
 import asyncio
 import collections.abc
+import functools
 from typing import Any
 from typing import Awaitable
 from typing import Callable
@@ -93,10 +94,11 @@ class OpaqueCoroutine(Action):
         self.__ignore_context = ignore_context  # type: bool
         self.__future = None  # type: Optional[asyncio.Future]
 
-    def __on_shutdown(self, event: Event, context: LaunchContext) -> Optional[SomeEntitiesType]:
+    def __on_shutdown(
+        self, future: asyncio.Future, event: Event, context: LaunchContext
+    ) -> Optional[SomeEntitiesType]:
         """Cancel ongoing coroutine upon shutdown."""
-        if self.__future is not None:
-            self.__future.cancel()
+        future.cancel()
         return None
 
     def execute(self, context: LaunchContext) -> Optional[List[LaunchDescriptionEntity]]:
@@ -108,7 +110,7 @@ class OpaqueCoroutine(Action):
             self.__coroutine(*args, **self.__kwargs)
         )
         context.register_event_handler(
-            OnShutdown(on_shutdown=self.__on_shutdown)
+            OnShutdown(on_shutdown=functools.partial(self.__on_shutdown, self.__future))
         )
         return None
 
-- 
2.43.0


From 4088aed9bd01f4a55e380100f6706f5f1329db35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 20/62] fix: keep executions of the same TimerAction apart

When a TimerAction was executed again while it was still waiting, both executions completed
the future of the second one: the first one was never completed and the launch hung.  Its
entities also ran with the context locals that were captured for the other execution.
---
 launch/launch/actions/timer_action.py | 44 +++++++++++++++++++--------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/launch/launch/actions/timer_action.py b/launch/launch/actions/timer_action.py
index e5900ba..0644c84 100644
--- a/launch/launch/actions/timer_action.py
+++ b/launch/launch/actions/timer_action.py
@@ -84,6 +84,7 @@ class TimerAction(Action):
         self.__period = type_utils.normalize_typed_substitution(period, float)
         self.__actions = actions
         self.__context_locals: Dict[Text, Any] = {}
+        self.__context_locals_of_events: Dict[Any, Dict[Text, Any]] = {}
         self._completed_future: Optional[asyncio.Future] = None
         self.__canceled = False
         self._canceled_future: Optional[asyncio.Future] = None
@@ -91,17 +92,28 @@ class TimerAction(Action):
             cancel_on_shutdown, bool)
         self.__logger = launch.logging.get_logger(__name__)
 
-    async def _wait_to_fire_event(self, context):
-        try:
-            period = type_utils.perform_typed_substitution(context, self.__period, float)
-        except Exception as exc:
-            # Have the launch service report it, which waits for this future.
-            self._completed_future.set_exception(exc)
-            return
-        done, pending = await asyncio.wait([self._canceled_future], timeout=period)
-        if not self._canceled_future.done():
-            await context.emit_event(TimerEvent(timer_action=self))
-        self._completed_future.set_result(None)
+    def _wait_to_fire_event(self, context):
+        # The action may be executed again while this waits, so hold on to what belongs to this
+        # execution.
+        completed_future = self._completed_future
+        canceled_future = self._canceled_future
+        context_locals = self.__context_locals
+
+        async def wait_to_fire_event():
+            try:
+                period = type_utils.perform_typed_substitution(context, self.__period, float)
+            except Exception as exc:
+                # Have the launch service report it, which waits for this future.
+                completed_future.set_exception(exc)
+                return
+            done, pending = await asyncio.wait([canceled_future], timeout=period)
+            if not canceled_future.done():
+                event = TimerEvent(timer_action=self)
+                self.__context_locals_of_events[event] = context_locals
+                await context.emit_event(event)
+            completed_future.set_result(None)
+
+        return wait_to_fire_event()
 
     @classmethod
     def parse(
@@ -141,7 +153,8 @@ class TimerAction(Action):
 
     def handle(self, context: LaunchContext) -> Optional[SomeEntitiesType]:
         """Handle firing of timer."""
-        context.extend_locals(self.__context_locals)
+        context.extend_locals(self.__context_locals_of_events.pop(
+            context.get_locals_as_dict().get('event'), self.__context_locals))
         return self.__actions
 
     def cancel(self) -> None:
@@ -169,7 +182,12 @@ class TimerAction(Action):
         - coroutine asynchronously fires event after timeout, if not canceled
         """
         self._completed_future = context.asyncio_loop.create_future()
-        self._canceled_future = context.asyncio_loop.create_future()
+        if (
+            self._canceled_future is None or
+            self._canceled_future.get_loop() is not context.asyncio_loop
+        ):
+            # Executions that still wait share this, so that all of them can be canceled.
+            self._canceled_future = context.asyncio_loop.create_future()
 
         if self.__canceled:
             # In this case, the action was canceled before being executed.
-- 
2.43.0


From 0633cc5bda4a79a9c2af00f771b82c3d7db534ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 21/62] fix: leave the scopes of groups when one of their
 actions raises

The launch configurations and the environment of a scoped group stayed in effect for the
handlers of later events, e.g. the shutdown, and the environment even after the run.
---
 launch/launch/launch_context.py | 11 +++++++++++
 launch/launch/launch_service.py |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/launch/launch/launch_context.py b/launch/launch/launch_context.py
index 1f71a0c..43f4499 100644
--- a/launch/launch/launch_context.py
+++ b/launch/launch/launch_context.py
@@ -196,6 +196,17 @@ class LaunchContext:
             raise RuntimeError('launch_configurations stack unexpectedly empty')
         self.__launch_configurations = self.__launch_configurations_stack.pop()
 
+    def _get_scope_depths(self):
+        return len(self.__launch_configurations_stack), len(self.__environment_stack)
+
+    def _restore_scope_depths(self, depths):
+        """Leave the scopes that were entered since `_get_scope_depths()` was called."""
+        launch_configurations_depth, environment_depth = depths
+        while len(self.__launch_configurations_stack) > launch_configurations_depth:
+            self._pop_launch_configurations()
+        while len(self.__environment_stack) > environment_depth:
+            self._pop_environment()
+
     @property
     def launch_configurations(self) -> Dict[Text, Text]:
         """Getter for launch_configurations dictionary."""
diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 2ed7b7e..f177947 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -262,6 +262,7 @@ class LaunchService:
             self.__logger.debug(
                 "processing event: '{}' ✓ '{}'".format(event, event_handler))
             self.__context._push_locals()
+            scope_depths = self.__context._get_scope_depths()
             try:
                 entities = event_handler.handle(event, self.__context)
                 entities = \
@@ -275,6 +276,10 @@ class LaunchService:
                         )
                     self._entity_future_pairs.extend(
                         visit_all_entities_and_collect_futures(entity, self.__context))
+            except Exception:
+                # The actions that leave the scopes of groups have not been visited.
+                self.__context._restore_scope_depths(scope_depths)
+                raise
             finally:
                 self.__context._pop_locals()
         else:
-- 
2.43.0


From 715a40d641751decdc00747e2d0c2a42d3097de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 22/62] fix: report exceptions of futures that are done while
 there are events

A future of an action that failed while the event queue was not empty was dropped without
looking at its exception: nothing was logged, the launch went on and returned 0.
---
 launch/launch/launch_service.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index f177947..466c339 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -359,6 +359,12 @@ class LaunchService:
                         entity_futures,
                         return_when=asyncio.FIRST_COMPLETED
                     )
+                    # Futures which are not waited for may be done too, look at them as well
+                    # before they are pruned.
+                    for future in [pair[1] for pair in self._entity_future_pairs] + \
+                            self.__context._completion_futures:
+                        if future.done():
+                            completed_tasks.add(future)
                     # Propagate exception from completed tasks
                     exception_to_raise = None
                     for task in completed_tasks:
-- 
2.43.0


From dbf51a053dc6ea5855bb4315418ec47d79a72297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 23/62] fix: report the completion of actions that are done
 when the run ends

When the last action completed, the run could end before the callback of its future had
emitted the completion event, so that OnExecutionComplete handlers were not run.
---
 launch/launch/launch_service.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 466c339..269dafd 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -359,12 +359,18 @@ class LaunchService:
                         entity_futures,
                         return_when=asyncio.FIRST_COMPLETED
                     )
-                    # Futures which are not waited for may be done too, look at them as well
+                    # Futures which were not waited for may be done too, look at them as well
                     # before they are pruned.
-                    for future in [pair[1] for pair in self._entity_future_pairs] + \
-                            self.__context._completion_futures:
-                        if future.done():
-                            completed_tasks.add(future)
+                    while True:
+                        # Let the callbacks of what is done run first, as they may emit events.
+                        await asyncio.sleep(0)
+                        futures = [pair[1] for pair in self._entity_future_pairs]
+                        futures.extend(self.__context._completion_futures)
+                        futures.append(process_one_event_task)
+                        done_futures = {f for f in futures if f.done()} - completed_tasks
+                        if not done_futures:
+                            break
+                        completed_tasks |= done_futures
                     # Propagate exception from completed tasks
                     exception_to_raise = None
                     for task in completed_tasks:
-- 
2.43.0


From 798d691a180092075ac7f392525f148da203ba03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:43 +0000
Subject: [PATCH 24/62] fix: emit Shutdown before the run ends

A shutdown() from within the loop marked the service as shutting down, but left it to the
returned coroutine to emit the event.  An idle service ended before it was awaited, without
the handlers of Shutdown having been run.
---
 launch/launch/launch_service.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 269dafd..24e9d04 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -457,11 +457,13 @@ class LaunchService:
             self.__loop_from_run_thread.call_soon_threadsafe(shutdown_in_loop)
         else:
             if not self.__shutting_down:
-                shutdown_event = Shutdown(reason=reason, due_to_sigint=due_to_sigint)
-                if force_sync:
-                    self.__context.emit_event_sync(shutdown_event)
-                else:
-                    retval = self.__context.emit_event(shutdown_event)
+                # The run may end before a coroutine would get to emit this event.
+                self.__context.emit_event_sync(
+                    Shutdown(reason=reason, due_to_sigint=due_to_sigint))
+                if not force_sync:
+                    async def shutdown_emitted():
+                        pass
+                    retval = shutdown_emitted()
             self.__shutting_down = True
         self.__context._set_is_shutdown(True)
         return retval
-- 
2.43.0


From fdf169156bd3ec7b3c8b7a5c0fe2bae131a4128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 25/62] fix: skip handle_once handlers that another handler of
 the event unregistered

Handlers that are unregistered while an event is processed still see that event.  With
handle_once this ended in a ValueError, which shut the launch down.  This replaces the check in
BaseEventHandler.handle(), which also kept a second handle() from raising.
---
 launch/launch/event_handler.py  | 3 +--
 launch/launch/launch_service.py | 3 +++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/launch/launch/event_handler.py b/launch/launch/event_handler.py
index 19cf616..b2f9839 100644
--- a/launch/launch/event_handler.py
+++ b/launch/launch/event_handler.py
@@ -97,8 +97,7 @@ class BaseEventHandler:
         support common event handler functionality.
         """
         context.extend_locals({'event': event})
-        if self.handle_once and self in context._event_handlers:
-            # Another handler of the same event may have unregistered this one already.
+        if self.handle_once:
             context.unregister_event_handler(self)
         return None
 
diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 24e9d04..354dece 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -258,6 +258,9 @@ class LaunchService:
             raise exception_to_raise
 
     def __process_event_with_handler(self, event, event_handler):
+        if event_handler.handle_once and event_handler not in self.__context._event_handlers:
+            # Another handler of this event has unregistered it.
+            return
         if event_handler.matches(event):
             self.__logger.debug(
                 "processing event: '{}' ✓ '{}'".format(event, event_handler))
-- 
2.43.0


From 362d15946df50bf0ad84539c40cb30ed12b71440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:43 +0000
Subject: [PATCH 26/62] fix: let the output of a short-lived process come
 before its exit

When a process exits while its pipes are still being connected, its exit event was emitted
before what it had written was read: the output events came after the exit event, and lines
without a newline at the end were lost.
---
 launch/launch/actions/execute_local.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index e7cc115..8056013 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -621,6 +621,10 @@ class ExecuteLocal(Action):
         await context.emit_event(ProcessStarted(**process_event_args))
 
         returncode = await self._subprocess_protocol.complete
+        # When the process exits while its pipes are still being connected, what it wrote is read
+        # in the next iterations of the loop.  Let the output come before the exit.
+        for _ in range(3):
+            await asyncio.sleep(0)
         if returncode == 0:
             self.__logger.info('process has finished cleanly [pid {}]'.format(pid))
         else:
-- 
2.43.0


From bbbfecf84ca8f350226da0457825f6b3b2de2767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:31 +0000
Subject: [PATCH 27/62] fix: keep handling signals after a signal handler
 raised

---
 launch/launch/utilities/signal_management.py | 24 ++++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/launch/launch/utilities/signal_management.py b/launch/launch/utilities/signal_management.py
index a078c69..23d33db 100644
--- a/launch/launch/utilities/signal_management.py
+++ b/launch/launch/utilities/signal_management.py
@@ -209,18 +209,28 @@ class AsyncSafeSignalManager:
                 for signum in data:
                     if signum not in self.__handlers:
                         continue
-                    self.__handlers[signum](signum)
-                if self.__prev_wakeup_handle != -1:
-                    # Send over (Windows) socket or write file.
-                    if isinstance(self.__prev_wakeup_handle, socket.socket):
-                        self.__prev_wakeup_handle.send(data)
-                    else:
-                        os.write(self.__prev_wakeup_handle, data)
+                    try:
+                        self.__handlers[signum](signum)
+                    except Exception as exc:
+                        # The signals that follow must not be lost.
+                        self.__loop.call_exception_handler({
+                            'message': 'Exception in signal handler',
+                            'exception': exc,
+                        })
+                self.__forward(data)
             except InterruptedError:
                 continue
             except BlockingIOError:
                 break
 
+    def __forward(self, data):
+        if self.__prev_wakeup_handle != -1:
+            # Send over (Windows) socket or write file.
+            if isinstance(self.__prev_wakeup_handle, socket.socket):
+                self.__prev_wakeup_handle.send(data)
+            else:
+                os.write(self.__prev_wakeup_handle, data)
+
     def handle(
         self,
         signum: Union[signal.Signals, int],
-- 
2.43.0


From 0f23d5e6fd57f24978db4947b4f9a61f6b3826eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:31 +0000
Subject: [PATCH 28/62] fix: forward the signals that are unread when a signal
 manager is left

---
 launch/launch/utilities/signal_management.py | 21 +++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/launch/launch/utilities/signal_management.py b/launch/launch/utilities/signal_management.py
index 23d33db..85948db 100644
--- a/launch/launch/utilities/signal_management.py
+++ b/launch/launch/utilities/signal_management.py
@@ -160,9 +160,15 @@ class AsyncSafeSignalManager:
             raise
 
     def __uninstall_signal_writers(self):
-        prev_wakeup_handle = self.__chain_wakeup_handle(-1)
+        prev_wakeup_handle = self.__prev_wakeup_handle
+        if isinstance(prev_wakeup_handle, socket.socket):
+            prev_wakeup_handle = prev_wakeup_handle.fileno()
         own_wakeup_handle = self.__set_wakeup_fd(prev_wakeup_handle)
         assert self.__wsock.fileno() == own_wakeup_handle
+        try:
+            self.__forward_unread_signals()
+        finally:
+            self.__chain_wakeup_handle(-1)
 
     def __chain(self):
         self.__parent = AsyncSafeSignalManager.__current
@@ -223,6 +229,19 @@ class AsyncSafeSignalManager:
             except BlockingIOError:
                 break
 
+    def __forward_unread_signals(self):
+        # The loop has not got to these signals yet, others still need to see them.
+        while True:
+            try:
+                data = self.__rsock.recv(4096)
+                if not data:
+                    break
+                self.__forward(data)
+            except InterruptedError:
+                continue
+            except BlockingIOError:
+                break
+
     def __forward(self, data):
         if self.__prev_wakeup_handle != -1:
             # Send over (Windows) socket or write file.
-- 
2.43.0


From 085f9d70c62585f396266076d43bc00ad194ccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 29/62] fix: accept all arguments of signal.set_wakeup_fd
 within a signal manager

---
 launch/launch/utilities/signal_management.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/launch/launch/utilities/signal_management.py b/launch/launch/utilities/signal_management.py
index 85948db..2fed2a7 100644
--- a/launch/launch/utilities/signal_management.py
+++ b/launch/launch/utilities/signal_management.py
@@ -176,13 +176,13 @@ class AsyncSafeSignalManager:
         if self.__parent is None:
             # Do not trust signal.set_wakeup_fd calls within context.
             # Overwrite handle at the start of the managers' chain.
-            def modified_set_wakeup_fd(signum):
+            def modified_set_wakeup_fd(fd, *, warn_on_full_buffer=True):
                 if threading.current_thread() is not threading.main_thread():
                     raise ValueError(
                         'set_wakeup_fd only works in main'
                         ' thread of the main interpreter'
                     )
-                return self.__chain_wakeup_handle(signum)
+                return self.__chain_wakeup_handle(fd)
             signal.set_wakeup_fd = modified_set_wakeup_fd
 
     def __unchain(self):
-- 
2.43.0


From f0a30320537bb7a4ec6980df76d67a642bc4d7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:04 +0000
Subject: [PATCH 30/62] fix: never share a new log directory with another
 launch

---
 launch/launch/logging/__init__.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/launch/launch/logging/__init__.py b/launch/launch/logging/__init__.py
index 207a8ed..236f3f3 100644
--- a/launch/launch/logging/__init__.py
+++ b/launch/launch/logging/__init__.py
@@ -68,6 +68,7 @@ def _make_unique_log_dir(*, base_path):
     :param: base_path for directory creation
     :return: the path to the created directory
     """
+    os.makedirs(base_path, exist_ok=True)
     while True:
         now = datetime.datetime.now()
         datetime_str = now.strftime('%Y-%m-%d-%H-%M-%S-%f')
@@ -75,11 +76,12 @@ def _make_unique_log_dir(*, base_path):
             datetime_str, socket.gethostname(), os.getpid()
         )
         log_dir = os.path.join(base_path, log_dirname)
-        # Check that filename does not exist
-        # TODO(hidmic): fix (unlikely) TOCTTOU race
-        if not os.path.isdir(log_dir):
-            os.makedirs(log_dir, exist_ok=True)
-            return log_dir
+        try:
+            os.mkdir(log_dir)
+        except FileExistsError:
+            # The name is taken, e.g. by another launch, try another one.
+            continue
+        return log_dir
 
 
 def _renew_latest_log_dir(*, log_dir):
-- 
2.43.0


From acd0e6d9a5a6d124221488e4b5e30665f015679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:04 +0000
Subject: [PATCH 31/62] fix: create the log directory and the log handlers once
 when threads compete

---
 launch/launch/logging/__init__.py | 68 +++++++++++++++++--------------
 1 file changed, 37 insertions(+), 31 deletions(-)

diff --git a/launch/launch/logging/__init__.py b/launch/launch/logging/__init__.py
index 236f3f3..b8be5a8 100644
--- a/launch/launch/logging/__init__.py
+++ b/launch/launch/logging/__init__.py
@@ -23,6 +23,7 @@ import logging.handlers
 import os
 import socket
 import sys
+import threading
 
 from typing import Any
 from typing import List
@@ -106,6 +107,8 @@ class LaunchConfig:
     """Launch Logging Configuration class."""
 
     def __init__(self):
+        # What is generated when necessary must be generated once, also if threads compete.
+        self._lock = threading.RLock()
         self.reset()
 
     def reset(self):
@@ -135,24 +138,25 @@ class LaunchConfig:
     @property
     def log_dir(self):
         """Get the current log directory, generating it if necessary."""
-        if self._log_dir is None:
-            self._log_dir = _make_unique_log_dir(
-                base_path=_get_logging_directory()
-            )
-            try:
-                success = _renew_latest_log_dir(log_dir=self._log_dir)
-                if not success:
+        with self._lock:
+            if self._log_dir is None:
+                self._log_dir = _make_unique_log_dir(
+                    base_path=_get_logging_directory()
+                )
+                try:
+                    success = _renew_latest_log_dir(log_dir=self._log_dir)
+                    if not success:
+                        import warnings
+                        warnings.warn(
+                            'Cannot create a symlink to latest log directory')
+
+                except OSError as e:
                     import warnings
                     warnings.warn(
-                        'Cannot create a symlink to latest log directory')
+                        ('Cannot create a symlink to latest log directory: {}\n')
+                        .format(e))
 
-            except OSError as e:
-                import warnings
-                warnings.warn(
-                    ('Cannot create a symlink to latest log directory: {}\n')
-                    .format(e))
-
-        return self._log_dir
+            return self._log_dir
 
     @log_dir.setter
     def log_dir(self, new_log_dir):
@@ -253,15 +257,16 @@ class LaunchConfig:
 
         See launch_config() documentation for screen logging configuration.
         """
-        if self.screen_handler is None:
-            stream = codecs.StreamWriter(sys.stdout, errors='replace')
-            stream.encode = lambda msg, errors='replace': (
-                msg.encode(locale.getpreferredencoding(False), errors).decode(
-                    locale.getpreferredencoding(False), errors=errors),
-                msg)
-            self.screen_handler = handlers.StreamHandler(stream)
-            self.screen_handler.setFormatter(self.screen_formatter)
-        return self.screen_handler
+        with self._lock:
+            if self.screen_handler is None:
+                stream = codecs.StreamWriter(sys.stdout, errors='replace')
+                stream.encode = lambda msg, errors='replace': (
+                    msg.encode(locale.getpreferredencoding(False), errors).decode(
+                        locale.getpreferredencoding(False), errors=errors),
+                    msg)
+                self.screen_handler = handlers.StreamHandler(stream)
+                self.screen_handler.setFormatter(self.screen_formatter)
+            return self.screen_handler
 
     def set_log_format(self, log_format, *, log_style=None):
         """
@@ -322,13 +327,14 @@ class LaunchConfig:
         :return: the logging handler associated to the file (always the same
         once constructed).
         """
-        if file_name not in self.file_handlers:
-            file_path = self.get_log_file_path(file_name)
-            factory = self.log_handler_factory
-            file_handler = factory(file_path, encoding='utf-8')
-            file_handler.setFormatter(self.file_formatter)
-            self.file_handlers[file_name] = file_handler
-        return self.file_handlers[file_name]
+        with self._lock:
+            if file_name not in self.file_handlers:
+                file_path = self.get_log_file_path(file_name)
+                factory = self.log_handler_factory
+                file_handler = factory(file_path, encoding='utf-8')
+                file_handler.setFormatter(self.file_formatter)
+                self.file_handlers[file_name] = file_handler
+            return self.file_handlers[file_name]
 
 
 launch_config = LaunchConfig()
-- 
2.43.0


From 268aa98088559befa395d5d0286f342f053f3b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:48 +0000
Subject: [PATCH 32/62] fix: set the log format while other threads create log
 handlers

---
 launch/launch/logging/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/launch/launch/logging/__init__.py b/launch/launch/logging/__init__.py
index b8be5a8..90b3067 100644
--- a/launch/launch/logging/__init__.py
+++ b/launch/launch/logging/__init__.py
@@ -302,8 +302,9 @@ class LaunchConfig:
             self.file_formatter = logging.Formatter(
                 log_format, style=log_style
             )
-            for handler in self.file_handlers.values():
-                handler.setFormatter(self.file_formatter)
+            with self._lock:
+                for handler in self.file_handlers.values():
+                    handler.setFormatter(self.file_formatter)
         else:
             self.file_formatter = None
 
-- 
2.43.0


From 4ca6879a25e091e0689b7c8e7142a8160507bd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 33/62] fix: wake every test that waits for a process or its
 output

---
 launch_testing/launch_testing/io_handler.py        | 4 ++--
 launch_testing/launch_testing/proc_info_handler.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/launch_testing/launch_testing/io_handler.py b/launch_testing/launch_testing/io_handler.py
index ee233a6..b818f44 100644
--- a/launch_testing/launch_testing/io_handler.py
+++ b/launch_testing/launch_testing/io_handler.py
@@ -102,12 +102,12 @@ class ActiveIoHandler:
     def track(self, process_name):
         with self._sync_lock:
             self._io_handler.track(process_name)
-            self._sync_lock.notify()
+            self._sync_lock.notify_all()
 
     def append(self, process_io):
         with self._sync_lock:
             self._io_handler.append(process_io)
-            self._sync_lock.notify()
+            self._sync_lock.notify_all()
 
     def __iter__(self):
         with self._sync_lock:
diff --git a/launch_testing/launch_testing/proc_info_handler.py b/launch_testing/launch_testing/proc_info_handler.py
index 08c28a7..7d15a41 100644
--- a/launch_testing/launch_testing/proc_info_handler.py
+++ b/launch_testing/launch_testing/proc_info_handler.py
@@ -83,7 +83,7 @@ class ActiveProcInfoHandler:
     def append(self, process_info):
         with self._sync_lock:
             self._proc_info_handler.append(process_info)
-            self._sync_lock.notify()
+            self._sync_lock.notify_all()
 
     def __iter__(self):
         with self._sync_lock:
-- 
2.43.0


From 089cad3b311bc120804ce8b4726efa8f7ffcb5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 34/62] fix: iterate over the process information while
 processes are recorded

---
 launch_testing/launch_testing/proc_info_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/proc_info_handler.py b/launch_testing/launch_testing/proc_info_handler.py
index 7d15a41..8844720 100644
--- a/launch_testing/launch_testing/proc_info_handler.py
+++ b/launch_testing/launch_testing/proc_info_handler.py
@@ -87,7 +87,7 @@ class ActiveProcInfoHandler:
 
     def __iter__(self):
         with self._sync_lock:
-            return self._proc_info_handler.__iter__()
+            return list(self._proc_info_handler).__iter__()
 
     def processes(self):
         """
-- 
2.43.0


From 100b499d1b808c094c8347ccee9e1af4fbceb64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 35/62] fix: find the output of a process that has exited
 already

---
 launch_testing/launch_testing/tools/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/tools/process.py b/launch_testing/launch_testing/tools/process.py
index 5c71c09..d6ca464 100644
--- a/launch_testing/launch_testing/tools/process.py
+++ b/launch_testing/launch_testing/tools/process.py
@@ -98,7 +98,7 @@ class ProcessProxy:
 
         with self._proc_output.io_event:
             bool_result = self._proc_output.io_event.wait_for(
-                lambda: self.running and condition(remember_output()), timeout=timeout
+                lambda: (self.running or self.terminated) and condition(remember_output()), timeout=timeout
             )
             return BoolWithText(bool_result, actual_output)
 
-- 
2.43.0


From 2172f3e564e4e1da5992ce9f00ca09ca53c16c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 36/62] fix: decode captured output that is split within a
 character

---
 .../launch_testing/asserts/assert_output.py          | 12 ++++++------
 launch_testing/launch_testing/tools/process.py       | 10 +++++++---
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/launch_testing/launch_testing/asserts/assert_output.py b/launch_testing/launch_testing/asserts/assert_output.py
index 244126e..d6793db 100644
--- a/launch_testing/launch_testing/asserts/assert_output.py
+++ b/launch_testing/launch_testing/asserts/assert_output.py
@@ -82,13 +82,13 @@ def assertInStream(proc_output,
 
     for proc in resolved_procs:  # Nominally just one matching proc
         if stream == 'stdout':
-            full_output = ''.join(
-                output.text.decode() for output in proc_output[proc] if output.from_stdout
-            )
+            full_output = b''.join(
+                output.text for output in proc_output[proc] if output.from_stdout
+            ).decode(errors='replace')
         elif stream == 'stderr':
-            full_output = ''.join(
-                output.text.decode() for output in proc_output[proc] if output.from_stderr
-            )
+            full_output = b''.join(
+                output.text for output in proc_output[proc] if output.from_stderr
+            ).decode(errors='replace')
         else:
             raise ValueError("Invalid value for stream; must be 'stdout' or 'stderr'")
 
diff --git a/launch_testing/launch_testing/tools/process.py b/launch_testing/launch_testing/tools/process.py
index d6ca464..bfa59f0 100644
--- a/launch_testing/launch_testing/tools/process.py
+++ b/launch_testing/launch_testing/tools/process.py
@@ -109,7 +109,9 @@ class ProcessProxy:
     @property
     def stderr(self):
         output_events = self._proc_output[self._process_action]
-        output_text = ''.join(ev.text.decode() for ev in output_events if ev.from_stderr)
+        output_text = b''.join(
+            ev.text for ev in output_events if ev.from_stderr
+        ).decode(errors='replace')
         if self._output_filter is not None:
             output_text = self._output_filter(output_text)
         return output_text
@@ -117,7 +119,9 @@ class ProcessProxy:
     @property
     def stdout(self):
         output_events = self._proc_output[self._process_action]
-        output_text = ''.join(ev.text.decode() for ev in output_events if ev.from_stdout)
+        output_text = b''.join(
+            ev.text for ev in output_events if ev.from_stdout
+        ).decode(errors='replace')
         if self._output_filter is not None:
             output_text = self._output_filter(output_text)
         return output_text
@@ -125,7 +129,7 @@ class ProcessProxy:
     @property
     def output(self):
         output_events = self._proc_output[self._process_action]
-        output_text = ''.join(ev.text.decode() for ev in output_events)
+        output_text = b''.join(ev.text for ev in output_events).decode(errors='replace')
         if self._output_filter is not None:
             output_text = self._output_filter(output_text)
         return output_text
-- 
2.43.0


From 96144c6e7fb63ca21585f602801036241b3c3226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:35 +0000
Subject: [PATCH 37/62] fix: name a process that failed to start when it is
 looked up

---
 launch_testing/launch_testing/util/proc_lookup.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/launch_testing/launch_testing/util/proc_lookup.py b/launch_testing/launch_testing/util/proc_lookup.py
index ea9660d..8f8cc68 100644
--- a/launch_testing/launch_testing/util/proc_lookup.py
+++ b/launch_testing/launch_testing/util/proc_lookup.py
@@ -49,6 +49,9 @@ def _proc_to_name_and_args(proc):
         # can resolve the name.  If there are any other substitutions, we can't give
         # additional info until after the process is launched
         def perform_subs(subs):
+            if isinstance(subs, str):
+                # Already performed, e.g. for a process that failed to start
+                return subs
             return ''.join([sub.perform(_fake_context()) for sub in subs])
         try:
             cmd = []
-- 
2.43.0


From 7af1bba0faf3cb4aa81dada52a395b64d4f98dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 38/62] fix: emit the start event of a process before its
 output

---
 launch/launch/actions/execute_local.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/launch/launch/actions/execute_local.py b/launch/launch/actions/execute_local.py
index 8056013..c00ffe9 100644
--- a/launch/launch/actions/execute_local.py
+++ b/launch/launch/actions/execute_local.py
@@ -555,6 +555,7 @@ class ExecuteLocal(Action):
             **kwargs
         ) -> None:
             super().__init__(**kwargs)
+            self.__action = action
             self.__context = context
             self.__process_event_args = process_event_args
             self.__logger = launch.logging.get_logger(process_event_args['name'])
@@ -565,6 +566,11 @@ class ExecuteLocal(Action):
             )
             super().connection_made(transport)
             self.__process_event_args['pid'] = transport.get_pid()
+            # Output may be received before the coroutine that started the process continues, so
+            # the event is emitted here, where it comes before any output.
+            self.__action._subprocess_protocol = self
+            self.__action._subprocess_transport = transport
+            self.__context.emit_event_sync(ProcessStarted(**self.__process_event_args))
 
         def on_stdout_received(self, data: bytes) -> None:
             self.__context.emit_event_sync(ProcessStdout(text=data, **self.__process_event_args))
@@ -616,9 +622,6 @@ class ExecuteLocal(Action):
             return
 
         pid = transport.get_pid()
-        self._subprocess_transport = transport
-
-        await context.emit_event(ProcessStarted(**process_event_args))
 
         returncode = await self._subprocess_protocol.complete
         # When the process exits while its pipes are still being connected, what it wrote is read
-- 
2.43.0


From 3687494808870477c19fff4be200647ed5ccd561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:53 +0000
Subject: [PATCH 39/62] fix: StdoutReadyListener finds its text when the output
 is split

---
 .../event_handlers/stdout_ready_listener.py         | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py b/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py
index af02ba5..3838956 100644
--- a/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py
+++ b/launch_testing/launch_testing/event_handlers/stdout_ready_listener.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import codecs
 from typing import List
 from typing import Optional
 from typing import Text
@@ -40,6 +41,8 @@ class StdoutReadyListener(OnProcessIO):
     ):
         self.__ready_txt = ready_txt
         self.__actions = actions
+        # Decoder and end of what was seen so far, per process
+        self.__pending = {}
 
         super().__init__(
             target_action=target_action,
@@ -47,7 +50,15 @@ class StdoutReadyListener(OnProcessIO):
         )
 
     def __on_stdout(self, process_io):
-        if self.__ready_txt in process_io.text.decode():
+        # Output arrives in arbitrary pieces, that may split the text or even a character
+        decoder, text = self.__pending.get(process_io.pid, (None, ''))
+        if decoder is None:
+            decoder = codecs.getincrementaldecoder('utf-8')(errors='replace')
+        text += decoder.decode(process_io.text)
+        # Anything shorter than the text may be the beginning of it
+        n = max(len(text) - len(self.__ready_txt) + 1, 0)
+        self.__pending[process_io.pid] = (decoder, text[n:])
+        if self.__ready_txt in text:
             return self.__actions
 
     def describe(self) -> Tuple[Text, List[SomeEntitiesType]]:
-- 
2.43.0


From fdec5d977292880122f58fbc618d94ea6cdc1e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:53 +0000
Subject: [PATCH 40/62] fix: assertSequentialStdout finds text that was
 received in pieces

---
 .../asserts/assert_sequential_output.py       | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/launch_testing/launch_testing/asserts/assert_sequential_output.py b/launch_testing/launch_testing/asserts/assert_sequential_output.py
index 35c1a82..1a98365 100644
--- a/launch_testing/launch_testing/asserts/assert_sequential_output.py
+++ b/launch_testing/launch_testing/asserts/assert_sequential_output.py
@@ -98,6 +98,23 @@ class SequentialTextChecker:
         return full_text[start_abs_position:end_abs_position]
 
 
+def _join_output(output):
+    """
+    Join output that was received in arbitrary pieces, which may split lines and characters.
+
+    Lines of the one stream are not torn by what came from the other.
+    """
+    lines = []
+    pending = {}
+    for io in output:
+        data = pending.get(io.from_stdout, b'') + io.text
+        end = data.rfind(b'\n') + 1
+        lines.append(data[:end])
+        pending[io.from_stdout] = data[end:]
+    lines.extend(pending.values())
+    return b''.join(lines).decode(errors='replace')
+
+
 @contextmanager
 def assertSequentialStdout(proc_output,
                            process,
@@ -125,10 +142,8 @@ def assertSequentialStdout(proc_output,
         strict_proc_matching=True,
     )[0]
 
-    # Get all the output from the process.  This will be a list of strings.  Each string may
-    # contain multiple lines of output
-    to_check = [p.text.decode() for p in proc_output[process]]
-    checker = SequentialTextChecker(to_check)
+    # Get all the output from the process.
+    checker = SequentialTextChecker([_join_output(proc_output[process])])
 
     try:
         yield checker
-- 
2.43.0


From 6bc5767b941c013a326203a9986688f89ce8a104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 41/62] fix: timeout of a test that never started no longer
 keeps the launch alive

---
 launch_testing/launch_testing/actions/test.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/launch_testing/launch_testing/actions/test.py b/launch_testing/launch_testing/actions/test.py
index bebc537..d6a3e1a 100644
--- a/launch_testing/launch_testing/actions/test.py
+++ b/launch_testing/launch_testing/actions/test.py
@@ -70,7 +70,9 @@ class Test(ExecuteProcess):
         Delegated to :meth:`launch.actions.ExecuteProcess.execute`.
         """
         actions = super().execute(context)
-        if not self.__timeout:
+        completed_future = self.get_asyncio_future()
+        if not self.__timeout or completed_future is None:
+            # No timeout, or not executed due to shutdown
             return actions
         self.__timer = TimerAction(
             period=self.__timeout,
@@ -82,7 +84,6 @@ class Test(ExecuteProcess):
                 target_action=self
             )
         context.register_event_handler(on_process_exit_event)
-        if not actions:
-            return [self.__timer]
-
-        return actions.append(self.__timer)
+        # There is no exit if the process fails to start
+        completed_future.add_done_callback(lambda unused: self.__timer.cancel())
+        return [*(actions or []), self.__timer]
-- 
2.43.0


From dd1e68002cd997ab67f331b71a1ed3d385fe1e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 42/62] fix: launch_pytest helpers wait without a timeout and
 miss no output

---
 launch_pytest/launch_pytest/tools/process.py | 28 +++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/launch_pytest/launch_pytest/tools/process.py b/launch_pytest/launch_pytest/tools/process.py
index 274044b..d524f8b 100644
--- a/launch_pytest/launch_pytest/tools/process.py
+++ b/launch_pytest/launch_pytest/tools/process.py
@@ -47,18 +47,19 @@ async def _wait_for_event_with_condition(
 ):
     pyevent = asyncio.Event()
     event_handler = get_launch_event_handler(execute_process_action, pyevent)
-    cond_value = condition()
     with register_event_handler(launch_context, event_handler):
-        start = time.time()
-        now = start
-        while not cond_value and (timeout is None or now < start + timeout):
+        end = None if timeout is None else time.monotonic() + timeout
+        cond_value = condition()
+        while not cond_value:
+            remaining = None if end is None else end - time.monotonic()
+            if remaining is not None and remaining <= 0:
+                break
             try:
-                await asyncio.wait_for(pyevent.wait(), start - now + timeout)
+                await asyncio.wait_for(pyevent.wait(), remaining)
             except asyncio.TimeoutError:
-                break
+                pass
             pyevent.clear()
             cond_value = condition()
-            now = time.time()
     return cond_value
 
 
@@ -76,15 +77,16 @@ def _wait_for_event_with_condition_sync(
 ):
     pyevent = threading.Event()
     event_handler = get_launch_event_handler(execute_process_action, pyevent)
-    cond_value = condition()
     with register_event_handler(launch_context, event_handler):
-        start = time.time()
-        now = start
-        while not cond_value and (timeout is None or now < start + timeout):
-            pyevent.wait(start - now + timeout)
+        end = None if timeout is None else time.monotonic() + timeout
+        cond_value = condition()
+        while not cond_value:
+            remaining = None if end is None else end - time.monotonic()
+            if remaining is not None and remaining <= 0:
+                break
+            pyevent.wait(remaining)
             pyevent.clear()
             cond_value = condition()
-            now = time.time()
     return cond_value
 
 
-- 
2.43.0


From 056ac44a375cb58bc89519a596a944d466c3d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:05 +0000
Subject: [PATCH 43/62] fix: launch_pytest fixture no longer hangs when the
 launch ends before it is ready

---
 launch_pytest/launch_pytest/plugin.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index c63fcf0..5784a3a 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -124,7 +124,13 @@ def pytest_fixture_setup(fixturedef, request):
         ready._add_callback(lambda: event.set())
         fixturedef.addfinalizer(functools.partial(
             finalize_launch_service, ls, eprefix=eprefix, auto_shutdown=options['auto_shutdown']))
-        run_until_complete(event_loop, event.wait())
+        ready_task = event_loop.create_task(event.wait())
+        run_until_complete(event_loop, asyncio.wait(
+            (ready_task, run_async_task), return_when=asyncio.FIRST_COMPLETED))
+        if not event.is_set():
+            # There is nobody left to set it
+            ready_task.cancel()
+            raise RuntimeError(f'{eprefix} launch ended before it was ready to test')
         # this is guaranteed by the current run_async() implementation, let's check it just in case
         # it changes in the future
         assert ls.event_loop is event_loop
-- 
2.43.0


From 46606ddd1843b9f5acd3c8bc1016bf0466133578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:15 +0000
Subject: [PATCH 44/62] fix: a launch service that is run again starts
 processes again

---
 launch/launch/launch_service.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/launch/launch/launch_service.py b/launch/launch/launch_service.py
index 354dece..4c85ea7 100644
--- a/launch/launch/launch_service.py
+++ b/launch/launch/launch_service.py
@@ -179,6 +179,9 @@ class LaunchService:
                         break
                 self.__context._event_queue = new_queue
 
+                # A previous run may have been shut down.
+                self.__context._set_is_shutdown(False)
+
                 self.__loop_from_run_thread = this_loop
 
             # Get current task.
-- 
2.43.0


From 6ac5f7eed4aa854ce0d89c8dca6e54ebd067d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:15 +0000
Subject: [PATCH 45/62] fix: launch_pytest reports a launch that failed before
 it was finalized

---
 launch_pytest/launch_pytest/fixture.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/launch_pytest/launch_pytest/fixture.py b/launch_pytest/launch_pytest/fixture.py
index aec03c6..3d0a3fc 100644
--- a/launch_pytest/launch_pytest/fixture.py
+++ b/launch_pytest/launch_pytest/fixture.py
@@ -30,9 +30,10 @@ except ImportError:
 def finalize_launch_service(launch_service, eprefix='', auto_shutdown=True):
     if auto_shutdown:
         launch_service.shutdown(force_sync=True)
-    loop = launch_service.event_loop
-    if loop is not None and not loop.is_closed():
-        rc = loop.run_until_complete(launch_service.task)
+    task = launch_service.task
+    if task is not None and not task.get_loop().is_closed():
+        # Also when it has ended by itself, it may have failed.
+        rc = task.get_loop().run_until_complete(task)
         assert rc == 0, f"{eprefix} launch service failed when finishing, return code '{rc}'"
 
 
-- 
2.43.0


From 7d3affca33e8eb1b5afcf6b1f77c54843f4a7a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:15 +0000
Subject: [PATCH 46/62] fix: launch_pytest runs no test of a launch that never
 got ready

---
 launch_pytest/launch_pytest/plugin.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index 5784a3a..d331ad5 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -101,6 +101,9 @@ def pytest_fixture_setup(fixturedef, request):
         options = fixturedef.func._launch_pytest_fixture_options
         eprefix = f"When running launch_pytest fixture '{fixturedef.func.__name__}':"
         ls = request.getfixturevalue('launch_service')
+        # pytest keeps the result of the launch fixture for the other tests in its scope,
+        # they must not run either if anything below fails
+        ls._launch_pytest_ready = False
         event_loop = request.getfixturevalue('event_loop')
         # get the result of the launch fixture, we take advantage of other wrappers this way
         outcome = yield
@@ -114,11 +117,11 @@ def pytest_fixture_setup(fixturedef, request):
             assert len(ret) > 0, wrong_ret_type_error
             ld = ret[0]
         assert isinstance(ld, launch.LaunchDescription), wrong_ret_type_error
+        ready = get_ready_to_test_action(ld)
         ls.include_launch_description(ld)
         run_async_task = event_loop.create_task(ls.run_async(
             shutdown_when_idle=options['shutdown_when_idle']
         ))
-        ready = get_ready_to_test_action(ld)
         asyncio.set_event_loop(event_loop)
         event = asyncio.Event()
         ready._add_callback(lambda: event.set())
@@ -136,6 +139,7 @@ def pytest_fixture_setup(fixturedef, request):
         assert ls.event_loop is event_loop
         assert ls.context.asyncio_loop is event_loop
         assert ls.task is run_async_task
+        ls._launch_pytest_ready = True
         return
     yield
 
@@ -335,6 +339,8 @@ def pytest_pyfunc_call(pyfuncitem):
     scope = fixture._pytestfixturefunction.scope
     event_loop = pyfuncitem.funcargs['event_loop']
     ls = pyfuncitem.funcargs['launch_service']
+    if not ls._launch_pytest_ready:
+        fail(f"launch_pytest fixture '{fixture.__name__}' failed", pytrace=False)
     auto_shutdown = fixture._launch_pytest_fixture_options['auto_shutdown']
     on_shutdown = functools.partial(
         finalize_launch_service,
-- 
2.43.0


From b639a690bdc87b94f9ad3546362fbe8f1f9068ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:15 +0000
Subject: [PATCH 47/62] fix: launch_pytest skips shutdown tests whose first
 part was not set up

---
 launch_pytest/launch_pytest/plugin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/launch_pytest/launch_pytest/plugin.py b/launch_pytest/launch_pytest/plugin.py
index d331ad5..c1ea04f 100644
--- a/launch_pytest/launch_pytest/plugin.py
+++ b/launch_pytest/launch_pytest/plugin.py
@@ -337,6 +337,9 @@ def pytest_pyfunc_call(pyfuncitem):
     shutdown_test = is_shutdown_test(pyfuncitem)
     fixture = get_launch_test_fixture(pyfuncitem)
     scope = fixture._pytestfixturefunction.scope
+    if shutdown_test and need_shutdown_test_item(func) and scope != 'function':
+        # its first part, that would have replaced the function, was not even set up
+        skip('shutdown test skipped because the test failed before')
     event_loop = pyfuncitem.funcargs['event_loop']
     ls = pyfuncitem.funcargs['launch_service']
     if not ls._launch_pytest_ready:
-- 
2.43.0


From 4b4e5befad5c1a20bd35d6ee5e95e11758d250c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:32 +0000
Subject: [PATCH 48/62] fix: threads of launch_pytest tests wait for ever for
 output handled as the wait starts

---
 launch_pytest/launch_pytest/tools/process.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/launch_pytest/launch_pytest/tools/process.py b/launch_pytest/launch_pytest/tools/process.py
index d524f8b..b3bd565 100644
--- a/launch_pytest/launch_pytest/tools/process.py
+++ b/launch_pytest/launch_pytest/tools/process.py
@@ -78,6 +78,12 @@ def _wait_for_event_with_condition_sync(
     pyevent = threading.Event()
     event_handler = get_launch_event_handler(execute_process_action, pyevent)
     with register_event_handler(launch_context, event_handler):
+        # An event that is being handled right now passes the new event handler by: check the
+        # condition again when the event loop is done with it.
+        loop = launch_context.asyncio_loop
+        if loop is not None:
+            with contextlib.suppress(RuntimeError):  # the event loop is closed
+                loop.call_soon_threadsafe(pyevent.set)
         end = None if timeout is None else time.monotonic() + timeout
         cond_value = condition()
         while not cond_value:
-- 
2.43.0


From 6ad4760acfffb771c4ed444c4ef0a331669b3261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:32 +0000
Subject: [PATCH 49/62] fix: retry_on_failure forgets the errors of earlier
 tests and keeps those of earlier attempts

---
 launch_testing/launch_testing/markers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/launch_testing/launch_testing/markers.py b/launch_testing/launch_testing/markers.py
index d070967..cd8da36 100644
--- a/launch_testing/launch_testing/markers.py
+++ b/launch_testing/launch_testing/markers.py
@@ -43,6 +43,10 @@ def retry_on_failure(*, times, delay=None):
         def _wrapper(self, *args, **kwargs):
             n = times
             while n > 1:
+                result = getattr(getattr(self, '_outcome', None), 'result', None)
+                recorded = [] if result is None else [
+                    (problems, len(problems)) for problems in (result.errors, result.failures)
+                ]
                 try:
                     ret = func(self, *args, **kwargs)
                     if isinstance(self, unittest.TestCase):
@@ -52,8 +56,10 @@ def retry_on_failure(*, times, delay=None):
                     if hasattr(self._outcome, 'errors'):
                         self._outcome.errors.clear()
                     else:
-                        if self._outcome.result is not None:
-                            self._outcome.result.errors.clear()
+                        # Forget what this attempt added only, the result has the problems of
+                        # all the tests that were run before, too
+                        for problems, length in recorded:
+                            del problems[length:]
                     self._outcome.success = True
                     n -= 1
                 if delay is not None:
-- 
2.43.0


From 74dcb2be61d6a560f5ed0c2b6167418a7d5a7a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:32 +0000
Subject: [PATCH 50/62] fix: legacy output tests filter the first line only

---
 launch_testing/launch_testing/legacy/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/legacy/output.py b/launch_testing/launch_testing/legacy/output.py
index 78d8cf0..8e7bec1 100644
--- a/launch_testing/launch_testing/legacy/output.py
+++ b/launch_testing/launch_testing/legacy/output.py
@@ -71,7 +71,7 @@ def create_output_lines_filter(
         filtered_patterns.extend(get_rmw_output_filter(
             filtered_rmw_implementation, 'patterns'
         ))
-    filtered_patterns = map(re.compile, filtered_patterns)
+    filtered_patterns = [re.compile(pattern) for pattern in filtered_patterns]
     encoded_line_sep = os.linesep.encode('ascii')
 
     def _filter(output):
-- 
2.43.0


From aa8f7b8826cfbedf55627584007798c848c01e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:32 +0000
Subject: [PATCH 51/62] fix: the line filter of legacy output tests adds an
 empty line

---
 launch_testing/launch_testing/legacy/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/legacy/output.py b/launch_testing/launch_testing/legacy/output.py
index 8e7bec1..7972790 100644
--- a/launch_testing/launch_testing/legacy/output.py
+++ b/launch_testing/launch_testing/legacy/output.py
@@ -85,7 +85,7 @@ def create_output_lines_filter(
                 continue
             filtered_output.append(line)
         if output.endswith(encoded_line_sep):
-            filtered_output.append(encoded_line_sep)
+            filtered_output.append(b'')
         return encoded_line_sep.join(filtered_output)
     return _filter
 
-- 
2.43.0


From 242d9fa750abd403df4184c60e7874af7de66fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:32 +0000
Subject: [PATCH 52/62] fix: whether a legacy output regex matches depends on
 how the output is cut

---
 launch_testing/launch_testing/legacy/output.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/launch_testing/launch_testing/legacy/output.py b/launch_testing/launch_testing/legacy/output.py
index 7972790..8bdaa69 100644
--- a/launch_testing/launch_testing/legacy/output.py
+++ b/launch_testing/launch_testing/legacy/output.py
@@ -105,11 +105,12 @@ def create_output_lines_test(expected_lines):
 def create_output_regex_test(expected_patterns):
     """Create output test given a list of expected matching regular expressions."""
     def _collate(output, addendum):
-        output.write(b'\n'.join(addendum.splitlines()))
+        output.write(addendum)
         return output
 
     def _match(output, pattern):
-        return pattern.search(output.getvalue()) is not None
+        # Split the whole output, as lines may be received in pieces
+        return pattern.search(b'\n'.join(output.getvalue().splitlines())) is not None
 
     return io.BytesIO(), _collate, _match, expected_patterns
 
-- 
2.43.0


From 97e1ebe259dfe9a44f216c29f50df0d16f8a141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:35 +0000
Subject: [PATCH 53/62] fix: a legacy output test whose output did not match
 succeeds after the shutdown

---
 launch_testing/launch_testing/legacy/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/launch_testing/launch_testing/legacy/__init__.py b/launch_testing/launch_testing/legacy/__init__.py
index bfe094a..19020c7 100644
--- a/launch_testing/launch_testing/legacy/__init__.py
+++ b/launch_testing/launch_testing/legacy/__init__.py
@@ -213,7 +213,8 @@ class LaunchTestService():
                 process_name = action.process_details['name']
                 reason = 'not all {} output matched!'.format(process_name)
                 self._fail(test_name, reason)
-            self._succeed(test_name, side_effect)
+            else:
+                self._succeed(test_name, side_effect)
 
         launch_description.add_action(
             RegisterEventHandler(OnShutdown(on_shutdown=on_shutdown))
-- 
2.43.0


From 6f47c2047db7c1e2c5d13f676ca2a70654c9b7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:35 +0000
Subject: [PATCH 54/62] fix: a legacy test process that can not be started does
 not fail the test

---
 launch_testing/launch_testing/legacy/__init__.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/launch_testing/launch_testing/legacy/__init__.py b/launch_testing/launch_testing/legacy/__init__.py
index 19020c7..9671ca6 100644
--- a/launch_testing/launch_testing/legacy/__init__.py
+++ b/launch_testing/launch_testing/legacy/__init__.py
@@ -145,6 +145,17 @@ class LaunchTestService():
                     target_action=action, on_exit=on_test_process_exit
                 ))
             )
+
+            def on_test_process_completion(event, context):
+                if self.__tests[test_name] == 'armed':
+                    # It completed without an exit, so it was not even started.
+                    return self._fail(test_name, reason='test process could not be started!')
+
+            launch_description.add_action(
+                RegisterEventHandler(OnExecutionComplete(
+                    target_action=action, on_completion=on_test_process_completion
+                ))
+            )
         else:
             def on_test_completion(event, context):
                 future = event.action.get_asyncio_future()
-- 
2.43.0


From 505e479d2ee42219260b4be132a9c312ab68eca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:35 +0000
Subject: [PATCH 55/62] fix: the output filter of legacy tests sees incomplete
 lines

---
 .../launch_testing/legacy/__init__.py         | 41 ++++++++++++-------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/launch_testing/launch_testing/legacy/__init__.py b/launch_testing/launch_testing/legacy/__init__.py
index 9671ca6..52e4af0 100644
--- a/launch_testing/launch_testing/legacy/__init__.py
+++ b/launch_testing/launch_testing/legacy/__init__.py
@@ -201,12 +201,28 @@ class LaunchTestService():
         assert isinstance(action, ExecuteProcess)
         test_name = 'test_{}_{}'.format(id(action), test_suffix)
         out, collate_output, match_output, match_patterns = output_test
-        if not output_filter:
-            output_filter = (lambda x: x)
+        # Filters work on lines, keep the last one until it was received completely.
+        incomplete_line = b''
         assert any(match_patterns)
 
-        def on_process_exit(event, context):
+        def match(text):
+            nonlocal out
             nonlocal match_patterns
+
+            out = collate_output(out, text)
+            match_patterns = [
+                pattern for pattern in match_patterns
+                if not match_output(out, pattern)
+            ]
+            if not any(match_patterns):
+                return self._succeed(test_name, side_effect)
+            return None
+
+        def on_process_exit(event, context):
+            if incomplete_line:
+                entities = match(output_filter(incomplete_line))
+                if entities is not None:
+                    return entities
             if any(match_patterns):
                 # Finish test instead of failing to prevent process exit
                 # and process output event handlers from racing.
@@ -232,17 +248,14 @@ class LaunchTestService():
         )
 
         def on_process_stdout(event):
-            nonlocal out
-            nonlocal match_patterns
-
-            out = collate_output(out, output_filter(event.text))
-            match_patterns = [
-                pattern for pattern in match_patterns
-                if not match_output(out, pattern)
-            ]
-            if not any(match_patterns):
-                return self._succeed(test_name, side_effect)
-            return None
+            nonlocal incomplete_line
+            if not output_filter:
+                return match(event.text)
+            lines = (incomplete_line + event.text).splitlines(keepends=True)
+            incomplete_line = b''
+            if lines and not lines[-1].endswith(b'\n'):
+                incomplete_line = lines.pop()
+            return match(output_filter(b''.join(lines)))
 
         launch_description.add_action(
             RegisterEventHandler(OnProcessIO(
-- 
2.43.0


From 8e173deecaa347107d0f147b47b8b63416c95ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:35 +0000
Subject: [PATCH 56/62] fix: ThisLaunchFile and ThisLaunchFileDir name an
 included file after the include

---
 launch/launch/actions/include_launch_description.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/launch/launch/actions/include_launch_description.py b/launch/launch/actions/include_launch_description.py
index d022d5e..5150585 100644
--- a/launch/launch/actions/include_launch_description.py
+++ b/launch/launch/actions/include_launch_description.py
@@ -23,6 +23,7 @@ from typing import Union
 
 import launch.logging
 
+from .opaque_function import OpaqueFunction
 from .set_launch_configuration import SetLaunchConfiguration
 from ..action import Action
 from ..frontend import Entity
@@ -146,6 +147,11 @@ class IncludeLaunchDescription(Action):
     def execute(self, context: LaunchContext) -> List[LaunchDescriptionEntity]:
         """Execute the action."""
         launch_description = self.__launch_description_source.get_launch_description(context)
+        # Keep the location of the including launch file to return to it after the include.
+        including_launch_file = {
+            name: value for name, value in context.get_locals_as_dict().items()
+            if name in ('current_launch_file_path', 'current_launch_file_directory')
+        }
         # If the location does not exist, then it's likely set to '<script>' or something.
         context.extend_locals({
             'current_launch_file_path': self._get_launch_file(),
@@ -182,4 +188,8 @@ class IncludeLaunchDescription(Action):
             set_launch_configuration_actions.append(SetLaunchConfiguration(name, value))
 
         # Set launch arguments as launch configurations and then include the launch description.
-        return [*set_launch_configuration_actions, launch_description]
+        entities = [*set_launch_configuration_actions, launch_description]
+        if including_launch_file:
+            entities.append(OpaqueFunction(
+                function=lambda context: context.extend_locals(including_launch_file)))
+        return entities
-- 
2.43.0


From cbe5b49a1f1d5a93aacacc0631403a76ad4f2b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:47 +0000
Subject: [PATCH 57/62] fix: the any and all substitutions can not be used in
 launch files

---
 launch/launch/substitutions/boolean_substitution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/launch/launch/substitutions/boolean_substitution.py b/launch/launch/substitutions/boolean_substitution.py
index 14b57ae..bf87d37 100644
--- a/launch/launch/substitutions/boolean_substitution.py
+++ b/launch/launch/substitutions/boolean_substitution.py
@@ -14,6 +14,7 @@
 
 """Module for boolean substitutions."""
 
+import functools
 from typing import Iterable
 from typing import List
 from typing import Sequence
@@ -177,7 +178,7 @@ class AnySubstitution(Substitution):
     @classmethod
     def parse(cls, data: Iterable[SomeSubstitutionsType]):
         """Parse `AnySubstitution` substitution."""
-        return cls, {'args': data}
+        return functools.partial(cls, *data), {}
 
     @property
     def args(self) -> List[List[Substitution]]:
@@ -223,7 +224,7 @@ class AllSubstitution(Substitution):
     @classmethod
     def parse(cls, data: Iterable[SomeSubstitutionsType]):
         """Parse `AllSubstitution` substitution."""
-        return cls, {'args': data}
+        return functools.partial(cls, *data), {}
 
     @property
     def args(self) -> List[List[Substitution]]:
-- 
2.43.0


From c78e237d63f899fc9c46e70ed73395f9a800aba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:56 +0000
Subject: [PATCH 58/62] fix: equals compares an empty string in quotes as []

---
 launch/launch/substitutions/equals_substitution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/launch/launch/substitutions/equals_substitution.py b/launch/launch/substitutions/equals_substitution.py
index 02c91d0..5261220 100644
--- a/launch/launch/substitutions/equals_substitution.py
+++ b/launch/launch/substitutions/equals_substitution.py
@@ -98,7 +98,8 @@ class EqualsSubstitution(Substitution):
         """Parse `EqualsSubstitution` substitution."""
         if len(data) != 2:
             raise TypeError('and substitution expects 2 arguments')
-        return cls, {'left': data[0], 'right': data[1]}
+        # An empty string in quotes is parsed to an empty list
+        return cls, {'left': data[0] or '', 'right': data[1] or ''}
 
     @property
     def left(self) -> List[Substitution]:
-- 
2.43.0


From fbf6e5217d5ad6ce47e79ce3ab6f2c46c20dc7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:03 +0000
Subject: [PATCH 59/62] fix: the env substitution fails for its default
 although the variable is set

---
 launch/launch/substitutions/environment_variable.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/launch/launch/substitutions/environment_variable.py b/launch/launch/substitutions/environment_variable.py
index 0134714..c32af44 100644
--- a/launch/launch/substitutions/environment_variable.py
+++ b/launch/launch/substitutions/environment_variable.py
@@ -88,14 +88,10 @@ class EnvironmentVariable(Substitution):
     def perform(self, context: LaunchContext) -> Text:
         """Perform the substitution by looking up the environment variable."""
         from ..utilities import perform_substitutions  # import here to avoid loop
-        default_value: Optional[str] = None
-        if self.default_value is not None:
-            default_value = perform_substitutions(context, self.default_value)
         name = perform_substitutions(context, self.name)
-        value = context.environment.get(
-            name,
-            default_value
-        )
+        value = context.environment.get(name)
+        if value is None and self.default_value is not None:
+            value = perform_substitutions(context, self.default_value)
         if value is None:
             raise SubstitutionFailure(
                 "environment variable '{}' does not exist".format(name)
-- 
2.43.0


From 82dd8eea0e4d1484906bb233ca558f29b3bbc583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:32 +0000
Subject: [PATCH 60/62] fix: an include fails when the argument names of a
 nested include depend on the launch

---
 launch/launch/actions/include_launch_description.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/launch/launch/actions/include_launch_description.py b/launch/launch/actions/include_launch_description.py
index 5150585..7998191 100644
--- a/launch/launch/actions/include_launch_description.py
+++ b/launch/launch/actions/include_launch_description.py
@@ -173,8 +173,15 @@ class IncludeLaunchDescription(Action):
                 continue
             argument_names = my_argument_names
             if ild_actions is not None:
-                for ild_action in ild_actions:
-                    argument_names.extend(ild_action._try_get_arguments_names_without_context())
+                nested_names = [
+                    ild_action._try_get_arguments_names_without_context()
+                    for ild_action in ild_actions
+                ]
+                if any(names is None for names in nested_names):
+                    # Which arguments a nested include provides is not known before it is executed
+                    continue
+                for names in nested_names:
+                    argument_names.extend(names)
             if argument.name not in argument_names:
                 raise RuntimeError(
                     "Included launch description missing required argument '{}' "
-- 
2.43.0


From fc799981fffba5f881f540dd3cedf15ab6846eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:32 +0000
Subject: [PATCH 61/62] fix: a command in a launch file that starts with a
 blank starts an empty program

---
 launch/launch/actions/execute_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/launch/launch/actions/execute_process.py b/launch/launch/actions/execute_process.py
index c780af7..526c3c9 100644
--- a/launch/launch/actions/execute_process.py
+++ b/launch/launch/actions/execute_process.py
@@ -260,7 +260,7 @@ class ExecuteProcess(ExecuteLocal):
             nonlocal arg
             result_args.append(arg)
             arg = []
-        for sub in parser.parse_substitution(cmd):
+        for sub in parser.parse_substitution(cmd.lstrip()):
             if isinstance(sub, TextSubstitution):
                 tokens = shlex.split(sub.text)
                 if not tokens:
-- 
2.43.0


From 9d1df7d0749b3e46abc78ccdd9d7bd4e390e120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:39 +0000
Subject: [PATCH 62/62] fix: the reason of a shutdown element in a launch file
 was a list of substitutions that nothing evaluated

---
 launch/launch/actions/shutdown_action.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/launch/launch/actions/shutdown_action.py b/launch/launch/actions/shutdown_action.py
index 5450d3b..f7830f4 100644
--- a/launch/launch/actions/shutdown_action.py
+++ b/launch/launch/actions/shutdown_action.py
@@ -15,7 +15,6 @@
 """Module for the Shutdown action."""
 
 import logging
-from typing import Text
 
 from launch.frontend import Entity
 from launch.frontend import expose_action
@@ -25,6 +24,9 @@ from .emit_event import EmitEvent
 from ..events import Shutdown as ShutdownEvent
 from ..events.process import ProcessExited
 from ..launch_context import LaunchContext
+from ..some_substitutions_type import SomeSubstitutionsType
+from ..utilities import normalize_to_list_of_substitutions
+from ..utilities import perform_substitutions
 
 _logger = logging.getLogger(name='launch')
 
@@ -33,8 +35,13 @@ _logger = logging.getLogger(name='launch')
 class Shutdown(EmitEvent):
     """Action that shuts down a launched system by emitting Shutdown when executed."""
 
-    def __init__(self, *, reason: Text = 'reason not given', **kwargs):
-        super().__init__(event=ShutdownEvent(reason=reason), **kwargs)
+    def __init__(self, *, reason: SomeSubstitutionsType = 'reason not given', **kwargs):
+        if isinstance(reason, str):
+            super().__init__(event=ShutdownEvent(reason=reason), **kwargs)
+            self.__reason = None
+        else:
+            super().__init__(event=ShutdownEvent(), **kwargs)
+            self.__reason = normalize_to_list_of_substitutions(reason)
 
     @classmethod
     def parse(cls, entity: Entity, parser: Parser):
@@ -56,4 +63,9 @@ class Shutdown(EmitEvent):
             _logger.info('process[{}] was required: shutting down launched system'.format(
                 event.process_name))
 
-        super().execute(context)
+        if self.__reason is None:
+            super().execute(context)
+        else:
+            # The value of the substitutions is only known now.
+            context.emit_event_sync(
+                ShutdownEvent(reason=perform_substitutions(context, self.__reason)))
-- 
2.43.0

