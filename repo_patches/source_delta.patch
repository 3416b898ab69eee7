From d1e53dd365ceb91cb6b7236487f076963b5dde57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 01/62] fix: RPC.start must not return before the thread
 accepts calls

RPC kept its own event in Thread._started, which Thread sets before run() is
entered, so a call right after start() could raise RPCNotRunning.
---
 lib/fbuild/rpc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index e8f6b0e..acb3f12 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -33,7 +33,9 @@ class RPC(threading.Thread):
         self._lock = threading.Lock()
         self._queue = queue.Queue()
         self._events = threading.local()
-        self._started = threading.Event()
+        # This must not be called "_started": that is the event Thread itself
+        # sets, before run() gets to accept calls.
+        self._ready = threading.Event()
         self._running = False
 
     def call(self, *args, **kwargs):
@@ -72,13 +74,13 @@ class RPC(threading.Thread):
     def start(self, *args, **kwargs):
         super().start(*args, **kwargs)
 
-        self._started.wait()
+        self._ready.wait()
 
     def run(self):
         """Run the rpc thread."""
 
-        self._started.set()
         self._running = True
+        self._ready.set()
 
         try:
             while True:
-- 
2.43.0


From 55b94bee33d4c66f382449be8bbee411d7f1b06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 02/62] fix: do not hang callers of an RPC thread that died

When a handler raised a fatal error the thread ended with calls still queued;
their callers, and join(), then waited for ever.
---
 lib/fbuild/rpc.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index acb3f12..cd6428c 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -104,7 +104,24 @@ class RPC(threading.Thread):
         except BaseException as err:
             raise
         finally:
-            self._running = False
+            with self._lock:
+                self._running = False
+            self._refuse_queued()
+
+    def _refuse_queued(self):
+        # Nobody will process the calls that are still in the queue any more,
+        # so wake up the threads waiting for them.
+        while True:
+            try:
+                msg = self._queue.get(block=False)
+            except queue.Empty:
+                break
+
+            if msg is not _NULL:
+                event, result, args, kwargs = msg
+                result.result = RPCNotRunning()
+                event.set()
+            self._queue.task_done()
 
     def _process(self, msg):
         # Break up the message.
@@ -125,10 +142,11 @@ class RPC(threading.Thread):
     def join(self, *args, **kwargs):
         """Inform the thread to shut down."""
 
-        if self._running:
-            with self._lock:
-                # Shut down the queue first.
+        with self._lock:
+            if self._running:
+                # Refuse new calls, and stop after the ones already queued.
+                self._running = False
                 self._queue.put(_NULL)
-                self._queue.join()
 
-                super().join(*args, **kwargs)
+        if self.is_alive():
+            super().join(*args, **kwargs)
-- 
2.43.0


From f30f221e822241689204e3f966483c5b5be4302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 03/62] fix: an interrupted RPC call must not wake up the next
 one

The event was shared by all calls of a thread, so when a KeyboardInterrupt
interrupted a wait, the completion of that call woke up the following call
before it was processed, and saving the state failed.
---
 lib/fbuild/rpc.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index cd6428c..f8acaaa 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -32,7 +32,6 @@ class RPC(threading.Thread):
         self._handler = handler
         self._lock = threading.Lock()
         self._queue = queue.Queue()
-        self._events = threading.local()
         # This must not be called "_started": that is the event Thread itself
         # sets, before run() gets to accept calls.
         self._ready = threading.Event()
@@ -48,14 +47,9 @@ class RPC(threading.Thread):
             # Create an object to hold the result of the function call.
             result = _Result()
 
-            # Since we will block while waiting for our function to get called, we
-            # can cache our events per thread.
-            try:
-                event = self._events.event
-            except AttributeError:
-                event = self._events.event = threading.Event()
-            else:
-                event.clear()
+            # Every call needs an event of its own: if the wait for an earlier
+            # call was interrupted, that call is still going to set its event.
+            event = threading.Event()
 
             msg = (event, result, args, kwargs)
             self._queue.put(msg)
-- 
2.43.0


From db34f95cc80d1b742ae55e710f6ec753bf68b9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 04/62] fix: interruptible must not release a lock another
 thread holds

A plain lock can be released by any thread, so interruptible() in a thread
that did not hold the controlling lock let two tasks run at a time.
---
 lib/fbuild/sched.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 35718c7..b7d051d 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -88,8 +88,9 @@ class Scheduler:
             import fbuild.console
             logger = fbuild.console.Log()
 
-        # Set up the controlling lock.
-        self.__controlling_lock = threading.Lock()
+        # Set up the controlling lock. It has to know its owner, because
+        # interruptible() must only release it for the thread that holds it.
+        self.__controlling_lock = threading.RLock()
 
         # Spin up our threads!
         for i in range(threadcount):
-- 
2.43.0


From c482f4b71ff04c1f3b71def4893ab5992e918a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 05/62] fix: do not start queued tasks that were cancelled

When a task fails the remaining ones are marked as done, but the ones already
in the ready queue were run all the same.
---
 lib/fbuild/sched.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index b7d051d..d2f67b0 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -372,7 +372,9 @@ class WorkerThread(threading.Thread):
 
             done_queue, task = queue_task
             try:
-                task.run()
+                # Don't start a task that was cancelled while it was queued.
+                if not task.done:
+                    task.run()
             finally:
                 done_queue.put(task)
         finally:
-- 
2.43.0


From dd3d044f0067c96448bdb66a63bfe43e381639d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 06/62] fix: report a task that exits to the caller of the
 scheduler

A SystemExit ended the worker thread and left the task without a result and
without an error, so map() failed with an AttributeError, and the next call
could wait for the dead thread for ever.
---
 lib/fbuild/sched.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index d2f67b0..0820341 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -415,5 +415,9 @@ class Task:
 
         try:
             self.result = self.function(self.src)
-        except Exception as e:
+        except KeyboardInterrupt as e:
+            # The worker thread passes this on to the main thread.
+            self.exc = e
+            raise
+        except BaseException as e:
             self.exc = e
-- 
2.43.0


From d7862b92ae9d494ed92b269b2d6d1cf4819fde18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 07/62] fix: do not lose shutdown messages in recursive uses of
 the scheduler

A worker that was waiting for the tasks of a recursive call dropped the
messages that tell the workers to shut down, so shutdown() waited for ever
for a worker that never got one.
---
 lib/fbuild/sched.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 0820341..d5587fc 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -246,7 +246,10 @@ class Scheduler:
                 except queue.Empty:
                     pass
                 else:
-                    current_thread.run_one(task)
+                    if not current_thread.run_one(task):
+                        # We're told to shut down. We can't do that before
+                        # our tasks are done, so keep it for later.
+                        current_thread.postpone_shutdown()
 
                 # See if any of our tasks finished.
                 try:
@@ -333,19 +336,29 @@ class WorkerThread(threading.Thread):
         self.__ready_queue = ready_queue
         self.__controlling_lock = controlling_lock
         self.__finished = False
+        self.__postponed = 0
 
     def shutdown(self):
         """Tell the thread to exit."""
         self.__finished = True
 
+    def postpone_shutdown(self):
+        """Put the message to shut down back once this thread is idle again."""
+        self.__postponed += 1
+
     def run(self):
         try:
             while not self.__finished:
                 with self.__logger.log_from_thread():
                     queue_task = self.read_task()
                     with self.__controlling_lock:
-                        if not self.run_one(queue_task):
-                            break
+                        try:
+                            if not self.run_one(queue_task):
+                                break
+                        finally:
+                            while self.__postponed:
+                                self.__postponed -= 1
+                                self.__ready_queue.put(None)
         except KeyboardInterrupt:
             # let the main thread know we got a SIGINT
             _thread.interrupt_main()
-- 
2.43.0


From 8e176e348cec42611f399b71cee49bd87e481b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 08/62] fix: attribute calls and external dependencies to the
 right call

The call stack of the database was shared by all threads, was not unwound when
a function failed, and external dependencies were looked up through the frames
of the current thread. So a call could lose dependencies to a call that ran in
another thread, or get those of unrelated calls, and was then not rerun when
they changed. Track the calls in a context variable that follows the tasks of
the scheduler.
---
 lib/fbuild/db/database.py | 62 +++++++++++++++++++++++----------------
 lib/fbuild/sched.py       |  7 ++++-
 2 files changed, 43 insertions(+), 26 deletions(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index cf635b0..9f07d7f 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -1,3 +1,4 @@
+import contextvars
 import hashlib
 import itertools
 import pprint
@@ -16,6 +17,16 @@ import fbuild.db.sqlite_backend
 
 # ------------------------------------------------------------------------------
 
+class _Call:
+    """What a call that is being computed turned out to depend on."""
+
+    def __init__(self):
+        self.fun_dependents = []
+        self.external_srcs = set()
+        self.external_dsts = set()
+
+# ------------------------------------------------------------------------------
+
 class Database:
     """L{Database} persistently stores the results of argument calls."""
 
@@ -26,7 +37,10 @@ class Database:
             return method(*args, **kwargs)
 
         self._ctx = ctx
-        self._callstack = []
+        # The calls being computed, innermost last. The scheduler runs tasks in
+        # the context of whoever created them, so that the calls a task makes
+        # belong to the call that started it, no matter what thread it runs in.
+        self._callstack = contextvars.ContextVar('callstack', default=())
         self._explain = explain
         self._connected = False
 
@@ -96,8 +110,9 @@ class Database:
 
         # If there is a call stack, then this function is a dependent of the
         # parent.
-        if self._callstack:
-            self._callstack[-1].append(fun_name)
+        callstack = self._callstack.get()
+        if callstack:
+            callstack[-1].fun_dependents.append(fun_name)
 
         # Get the function digest.
         fun_digest = self.get_function_digest_from_map(fun_name)
@@ -173,16 +188,24 @@ class Database:
                 for dst in dirty_dsts:
                     self._ctx.logger.log('\t%s' % dst)
 
-        self._callstack.append([])
-
-        # Clear external srcs and dsts since they'll be recomputed inside
-        # the function.
-        external_srcs = set()
-        external_dsts = set()
+        # The external srcs and dsts will be recomputed inside the function.
+        call = _Call()
+        external_srcs = call.external_srcs
+        external_dsts = call.external_dsts
 
         # The call was dirty, so recompute it.
-        call_result = outer_function(*args, **kwargs)
-        fun_dependents = tuple(self._callstack.pop())
+        token = self._callstack.set(callstack + (call,))
+        try:
+            call_result = outer_function(*args, **kwargs)
+        except BaseException:
+            # If the caller handles the error, it depends on everything that
+            # led to it.
+            if callstack:
+                callstack[-1].fun_dependents.extend(call.fun_dependents)
+            raise
+        finally:
+            self._callstack.reset(token)
+        fun_dependents = tuple(call.fun_dependents)
 
         # Make sure the result is not a generator.
         assert not fbuild.inspect.isgenerator(call_result), \
@@ -316,17 +339,6 @@ class Database:
         a cached function and will error out if it is called from an
         uncached function."""
 
-        # Hack in additional dependencies
-        frame = fbuild.inspect.currentframe()
-
-        if frame is None:
-            return
-
-        frame = frame.f_back
-
-        while frame:
-            if frame.f_code == self.call.__code__:
-                frame.f_locals['external_srcs'].update(srcs)
-                frame.f_locals['external_dsts'].update(dsts)
-
-            frame = frame.f_back
+        for call in self._callstack.get():
+            call.external_srcs.update(srcs)
+            call.external_dsts.update(dsts)
diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index d5587fc..75c8fdd 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -1,5 +1,6 @@
 import collections
 import contextlib
+import contextvars
 import io
 import operator
 import queue
@@ -411,6 +412,10 @@ class Task:
         self.dependencies = []
         self.exc = None
 
+        # Run in the context of whoever created us, not in the one of the
+        # task a worker thread happens to be waiting in.
+        self.context = contextvars.copy_context()
+
     def can_run(self):
         """Returns True if all of this task's dependencies are done. Otherwise
         return False."""
@@ -427,7 +432,7 @@ class Task:
         """Run the task's function."""
 
         try:
-            self.result = self.function(self.src)
+            self.result = self.context.run(self.function, self.src)
         except KeyboardInterrupt as e:
             # The worker thread passes this on to the main thread.
             self.exc = e
-- 
2.43.0


From 4d296cc5ce37ad93f8b62014804d9f5d268a4516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 09/62] fix: pass on the external dependencies of cached calls

External dependencies belong to all of the calls being computed, but they were
not added when the inner call was served from the cache, so the outer ones were
not rerun when these files changed later.
---
 lib/fbuild/db/database.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 9f07d7f..553a2ad 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -159,6 +159,11 @@ class Database:
                 all_srcs = srcs.union(external_srcs)
                 all_dsts = dsts.union(external_dsts)
                 all_dsts.update(return_dsts)
+                # The calls we're inside of depend on these just like they
+                # would if we had run the function.
+                self.add_external_dependencies_to_call(
+                    srcs=external_srcs,
+                    dsts=external_dsts)
                 # Update the active file list.
                 self.active_files.update(all_srcs | all_dsts)
                 return old_result, all_srcs, all_dsts
-- 
2.43.0


From 0a3f4b64e32ccfd5bbd6fbdb82415ff101373dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:05 +0000
Subject: [PATCH 10/62] fix: mutually recursive cached functions can be checked

The functions that were checked already were not passed on, so checking
functions that call each other recursed until the stack overflowed.
---
 lib/fbuild/db/backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 099e6b4..e8c449f 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -134,8 +134,10 @@ class Backend:
         fun_dirty = old_digest is None or fun_digest != old_digest
         if not fun_dirty:
             # Have any of it's dependents changed?
-            for dep in set(fun_dependents) - already_checked:
-                dep_dirty, _ = self.check_function(dep)
+            for dep in set(fun_dependents):
+                if dep in already_checked:
+                    continue
+                dep_dirty, _ = self.check_function(dep, already_checked)
                 if dep_dirty:
                     fun_dirty = True
                     break
-- 
2.43.0


From 3a45f6ceb658ee2f51ae4c0801014f13094239c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:05 +0000
Subject: [PATCH 11/62] fix: cope with functions that are gone or not imported
 yet

If a function called by a cached function was removed, renamed, or lives in a
module that is imported later on, looking up its digest failed with a KeyError,
and the build could not be run any more without deleting the database.
---
 lib/fbuild/db/backend.py  |  7 ++++++-
 lib/fbuild/db/database.py | 14 +++++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index e8c449f..af156a6 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -127,9 +127,14 @@ class Backend:
             already_checked = set()
         already_checked.add(fun_name)
 
-        fun_digest = Database.get_function_digest_from_map(fun_name)
         fun_id, old_digest, fun_dependents = self.find_function(fun_name)
 
+        try:
+            fun_digest = Database.get_function_digest_from_map(fun_name)
+        except KeyError:
+            # The function does not exist any more.
+            return True, fun_id
+
         # Has the function changed?
         fun_dirty = old_digest is None or fun_digest != old_digest
         if not fun_dirty:
diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 553a2ad..94853f0 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -258,7 +258,19 @@ class Database:
     @classmethod
     @fbuild.functools.cached
     def get_function_digest_from_map(self, fun_name):
-        """Get the function digest from the global function map."""
+        """Get the function digest from the global function map. Raises
+        KeyError if there is no such function."""
+
+        # The module of the function may not have been imported yet, if this is
+        # usually done by the function that uses it.
+        module = fun_name
+        while fun_name not in self._FUN_DIGESTS and '.' in module:
+            module = module.rpartition('.')[0]
+            try:
+                fbuild.functools.import_module(module)
+            except Exception:
+                pass
+
         return self._FUN_DIGESTS[fun_name]()
 
     @staticmethod
-- 
2.43.0


From e413681e8dc77e1dcebe5b66e7f3db4befead861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 12/62] fix: forget everything that depends on a changed
 function

A changed function was only forgotten when its next call was saved. Saving it
made the functions calling it look clean again, so whether these were rerun
depended on the order of the calls; it also threw away the results of calls
saved while it ran, and with the sqlite backend recursive functions failed with
an IntegrityError. Functions called for the first time by a later call were not
recorded at all. Forget a changed function, and all those depending on it, when
the change is noticed, and add up the dependents of all of its calls.
---
 lib/fbuild/db/backend.py        | 52 +++++++++++++++++++++++++++------
 lib/fbuild/db/cache_backend.py  |  7 +++++
 lib/fbuild/db/sqlite_backend.py |  9 ++++++
 3 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index af156a6..7403e13 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -50,6 +50,17 @@ class Backend:
         # Check if the function changed.
         fun_dirty, fun_id = self.check_function(fun_name)
 
+        if fun_dirty:
+            # Since the function changed, delete out all the related data. Do
+            # this now rather than when the call is saved: by then there may be
+            # new results that are still good, and the functions that depend on
+            # this one would look clean again.
+            self.delete_functions_depending_on(fun_name)
+            self.delete_function(fun_name)
+
+            # The fun_id is now invalid.
+            fun_id = None
+
         # Check if this is a new call and get the index.
         if fun_dirty or fun_id is None:
             call_dirty = True
@@ -96,17 +107,18 @@ class Backend:
             external_dsts):
         """Saves the function call into the database."""
 
-        # Lock the db since we're updating data structures.
-        if fun_dirty:
-            # Since the function changed, delete out all the related data.
-            if fun_id is not None:
-                self.delete_function(fun_name)
+        # Look up the function again, as other calls of it may have been saved
+        # while this one was running. What these depend on is still needed.
+        fun_id, _, old_dependents = self.find_function(fun_name)
+        if old_dependents:
+            fun_dependents = sorted(set(old_dependents).union(fun_dependents))
 
-                # The fun_id is now invalid.
-                fun_id = None
+        # Lock the db since we're updating data structures.
+        fun_id = self.save_function(fun_id, fun_name, fun_digest,
+                                    fun_dependents)
 
-            fun_id = self.save_function(fun_id, fun_name, fun_digest,
-                                        fun_dependents)
+        # The same goes for the call.
+        _, call_id, _ = self.find_call(fun_id, bound)
 
         # Get the real call_id to use in the call files.
         call_id = self.save_call(call_id, fun_id, bound, result)
@@ -164,6 +176,28 @@ class Backend:
         """Clear the function from the database."""
         raise NotImplementedError
 
+
+    def find_all_dependents(self):
+        """Returns the name and the dependents of every function."""
+        raise NotImplementedError
+
+
+    def delete_functions_depending_on(self, fun_name):
+        """Clear all the functions from the database that have the function
+        among their dependents, or the dependents of these, and so on."""
+
+        all_dependents = list(self.find_all_dependents())
+
+        checked = {fun_name}
+        queue = [fun_name]
+        while queue:
+            dep = queue.pop()
+            for name, fun_dependents in all_dependents:
+                if dep in fun_dependents and name not in checked:
+                    checked.add(name)
+                    queue.append(name)
+                    self.delete_function(name)
+
     # --------------------------------------------------------------------------
 
     def find_call(self, fun_id, bound):
diff --git a/lib/fbuild/db/cache_backend.py b/lib/fbuild/db/cache_backend.py
index 6145abf..afd4420 100644
--- a/lib/fbuild/db/cache_backend.py
+++ b/lib/fbuild/db/cache_backend.py
@@ -67,6 +67,13 @@ class CacheBackend(fbuild.db.backend.Backend):
         return fun_name
 
 
+    def find_all_dependents(self):
+        """Returns the name and the dependents of every function."""
+
+        return [(fun_name, fun_dependents)
+            for fun_name, (_, fun_dependents) in self._functions.items()]
+
+
     def delete_function(self, fun_name):
         """Clear the function from the database."""
 
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 9e1a561..5336491 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -185,6 +185,15 @@ class SqliteBackend(fbuild.db.backend.Backend):
         return fun_id
 
 
+    def find_all_dependents(self):
+        """Returns the name and the dependents of every function."""
+
+        self.cursor.execute('SELECT fun_name,fun_dependents FROM Function')
+
+        return [(fun_name, fun_dependents.split('\0'))
+            for fun_name, fun_dependents in self.cursor.fetchall()]
+
+
     def delete_function(self, fun_name):
         """Clear the function from the database."""
 
-- 
2.43.0


From 2db3cd49ddf0ccd702a1808a80af7c16ec14346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 13/62] fix: notice changes of external dependencies reliably

When a file changed, the sqlite backend dropped it from the external
dependencies of all calls, so only the first of these was rerun; deleting an
external source went unnoticed; and external destinations were not recorded if
the file was known already, and had to exist.
---
 lib/fbuild/db/backend.py        | 14 ++++----------
 lib/fbuild/db/sqlite_backend.py | 20 +++++++++-----------
 2 files changed, 13 insertions(+), 21 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 7403e13..ec0b4af 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -287,7 +287,8 @@ class Backend:
                 try:
                     d, file_id, file_digest = self.check_call_file(call_id, src)
                 except OSError:
-                    pass
+                    # The file is gone, or we can't read it any more.
+                    external_digests.append((None, src, None))
                 else:
                     if d:
                         external_digests.append((file_id, src, file_digest))
@@ -340,15 +341,8 @@ class Backend:
             self.save_file(file_id, file_name, file_mtime, digest)
             return False, file_id, file_mtime, digest
 
-        if file_id is not None:
-            # Since the function changed, all of the calls that used this
-            # function are dirty.
-            self.delete_file(file_name)
-
-            # The file_id is now invalid.
-            file_id = None
-
-        # Now, add the file back to the database.
+        # Save the new digest. All of the calls that used this file are dirty now,
+        # as their digest is different.
         file_id = self.save_file(file_id, file_name, file_mtime, digest)
 
         # Returns True since the file changed.
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 5336491..b24013d 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -449,18 +449,16 @@ class SqliteBackend(fbuild.db.backend.Backend):
 
         # ----------------------------------------------------------------------
 
-        if dsts:
-            # We don't need to save a list here because we're only using it
-            # once.
-            # XXX: There's a python bug where you can't pass a generator that
-            # itself inserts into sqlite, so we need to force the generator.
-            dst_call_files = [self.check_call_file(call_id, dst)
-                for dst in dsts]
+        for dst in dsts:
+            # Only the name matters, so the file doesn't need to exist.
+            self.cursor.execute(
+                'INSERT OR IGNORE INTO File (file_name) VALUES (?)',
+                (dst,))
 
-            self.cursor.executemany(
-                'INSERT INTO ExternalDst (call_id,file_id) VALUES (?,?)',
-                ((call_id, file_id)
-                    for dirty, file_id, file_digest in dst_call_files if dirty))
+            self.cursor.execute('''
+                INSERT INTO ExternalDst (call_id,file_id)
+                SELECT ?,file_id FROM File WHERE file_name=?
+                ''', (call_id, dst))
 
     # --------------------------------------------------------------------------
 
-- 
2.43.0


From 8163cafb39586b2f6a6a2a2d6e1c4eda9c7fb6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 14/62] fix: make --delete-function and --delete-file work with
 the sqlite backend

They failed with 'not cached' after deleting the function or file, and deleting
a file also made the calls it was an external dependency of forget about it.
---
 lib/fbuild/db/sqlite_backend.py | 36 +++++++++++++--------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index b24013d..db77603 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -227,6 +227,8 @@ class SqliteBackend(fbuild.db.backend.Backend):
             'DELETE FROM Function WHERE fun_name=?',
             (fun_name,))
 
+        return self.cursor.rowcount > 0
+
     # --------------------------------------------------------------------------
 
     def _pickle_dumps(self, obj):
@@ -508,29 +510,19 @@ class SqliteBackend(fbuild.db.backend.Backend):
     def delete_file(self, file_name):
         """Remove the file from the database."""
 
-        self.cursor.execute(
-            'SELECT file_id FROM File WHERE file_name=?',
-            (file_name,))
-
-        rows = self.cursor.fetchall()
-
-        # Exit early if we got nothing returned.
-        if not rows:
-            return
+        # Keep the name, as the calls this is an external file of still depend
+        # on it.
+        self.cursor.execute('''
+            UPDATE File SET file_mtime=NULL, file_digest=NULL
+            WHERE file_name=? AND file_digest IS NOT NULL
+            ''', (file_name,))
 
-        (file_id,), = rows
+        file_existed = self.cursor.rowcount > 0
 
         # And delete all of the related call files.
-        self.cursor.execute(
-            'DELETE FROM CallFile WHERE file_id=?',
-            (file_id,))
-
-        self.cursor.execute(
-            'DELETE FROM ExternalSrc WHERE file_id=?',
-            (file_id,))
-
-        self.cursor.execute(
-            'DELETE FROM ExternalDst WHERE file_id=?',
-            (file_id,))
+        self.cursor.execute('''
+            DELETE FROM CallFile
+            WHERE file_id IN (SELECT file_id FROM File WHERE file_name=?)
+            ''', (file_name,))
 
-        self.cursor.execute('DELETE FROM File WHERE file_name=?', (file_name,))
+        return file_existed or self.cursor.rowcount > 0
-- 
2.43.0


From 1142a8c67eab4d86a21f2819f38d8ea140dad5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:47 +0000
Subject: [PATCH 15/62] fix: never leave the pickle database without a state
 file

Moving the old file out of the way first meant that a build killed between the
two renames lost everything that was cached.
---
 lib/fbuild/db/pickle_backend.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/lib/fbuild/db/pickle_backend.py b/lib/fbuild/db/pickle_backend.py
index a3af2a7..cfe9cbc 100644
--- a/lib/fbuild/db/pickle_backend.py
+++ b/lib/fbuild/db/pickle_backend.py
@@ -1,4 +1,5 @@
 import io
+import os
 import pickle
 
 import fbuild.db.cache_backend
@@ -55,19 +56,12 @@ class PickleBackend(fbuild.db.cache_backend.CacheBackend):
 
         # Try to save the state as atomically as possible. Unfortunately, if
         # someone presses ctrl+c while we're saving, we might corrupt the db.
-        # So, we'll write to a temp file, then move the old state file out of
-        # the way, then rename the temp file to the filename.
+        # So, we'll write to a temp file, then replace the old state file with
+        # it.
         path = fbuild.path.Path(self._file_name)
         tmp = path + '.tmp'
-        old = path + '.old'
 
         with open(tmp, 'wb') as f:
             f.write(s)
 
-        if path.exists():
-            path.rename(old)
-
-        tmp.rename(path)
-
-        if old.exists():
-            old.remove()
+        os.replace(tmp, path)
-- 
2.43.0


From 5100fe17766d8992e9625ad7c811f3c238e3cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:47 +0000
Subject: [PATCH 16/62] fix: honour --do-not-save-database with the sqlite
 backend

---
 lib/fbuild/db/sqlite_backend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index db77603..74e68dc 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -133,6 +133,10 @@ class SqliteBackend(fbuild.db.backend.Backend):
     # --------------------------------------------------------------------------
 
     def cache(self, *args, **kwargs):
+        # What is not committed is lost when the build ends.
+        if self._ctx.options.do_not_save_database:
+            return super().cache(*args, **kwargs)
+
         with self.conn:
             return super().cache(*args, **kwargs)
 
-- 
2.43.0


From 6b7295b286bb1c9773a346ec19e51c17b7f54617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:36 +0000
Subject: [PATCH 17/62] fix: do not let callers modify the cache through
 arguments and results

The in-memory backends kept references to the arguments and results. If a list
was passed to a cached function, extended, and passed again, the old result was
returned, and a result that was modified was returned modified from then on.
---
 lib/fbuild/db/cache_backend.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/cache_backend.py b/lib/fbuild/db/cache_backend.py
index afd4420..9ac0542 100644
--- a/lib/fbuild/db/cache_backend.py
+++ b/lib/fbuild/db/cache_backend.py
@@ -140,6 +140,17 @@ class CacheBackend(fbuild.db.backend.Backend):
 
     # --------------------------------------------------------------------------
 
+    def _copy(self, obj):
+        """Returns a copy of an argument or a result. Objects that can only be
+        kept in memory are returned as they are."""
+
+        try:
+            return fbuild.db.backend.pickle_loads(self._ctx,
+                fbuild.db.backend.pickle_dumps(self._ctx, obj))
+        except Exception:
+            return obj
+
+
     def find_call(self, fun_id, bound):
         """Returns the function call index and result or None if it does not
         exist."""
@@ -158,7 +169,7 @@ class CacheBackend(fbuild.db.backend.Backend):
         for call_index, (old_bound, old_result) in enumerate(datas):
             if bound == old_bound:
                 # We've found a matching call so just return the index.
-                return False, (fun_id, call_index), old_result
+                return False, (fun_id, call_index), self._copy(old_result)
 
         # Turns out we haven't called it with these args.
         return True, None, None
@@ -172,6 +183,10 @@ class CacheBackend(fbuild.db.backend.Backend):
         assert isinstance(fun_id, str), fun_id
         assert isinstance(bound, dict), bound
 
+        # The caller is free to modify the arguments and the result later on.
+        bound = self._copy(bound)
+        result = self._copy(result)
+
         if call_id is None:
             # We use the function's name as it's id
             fun_name = fun_id
-- 
2.43.0


From 8c8e99afb78ef580bf63f1c262718548b6e5bfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 18/62] fix: name all the items of a dependency loop

Only items that directly depend on each other were found, so the error for a
loop of three or more items was empty.
---
 lib/fbuild/sched.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 75c8fdd..4243fd3 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -291,13 +291,22 @@ class Scheduler:
             # dependencies and error out.
             recursive_srcs = set()
 
+            # First find everything the tasks depend on, directly or not.
+            reachable = {}
             for task in tasks:
-                if task.done:
-                    continue
-
-                for dep in children[task]:
-                    if task in dep.dependencies and dep in task.dependencies:
-                        recursive_srcs.add(frozenset((task.src, dep.src)))
+                found = reachable[task] = set()
+                todo = list(task.dependencies)
+                while todo:
+                    dep = todo.pop()
+                    if dep not in found:
+                        found.add(dep)
+                        todo.extend(dep.dependencies)
+
+            # The tasks that depend on each other make up the loops.
+            for task in tasks:
+                if task in reachable[task]:
+                    recursive_srcs.add(frozenset(dep.src
+                        for dep in reachable[task] if task in reachable[dep]))
 
             raise DependencyLoop(recursive_srcs)
 
-- 
2.43.0


From efb85775cfc6bd2c00908974fc3a37144ab0634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 19/62] fix: map_with_dependencies must not lose the items of
 an iterator

---
 lib/fbuild/sched.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 4243fd3..379e1ec 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -154,6 +154,7 @@ class Scheduler:
         # First create tasks for all the input sources and create an index from
         # src to task. We'll use this as a lookup when we invert the dependency
         # information.
+        srcs = list(srcs)
         tasks = {}
         for src in srcs:
             tasks[src] = Task(function, src)
-- 
2.43.0


From 40103615f12f8a83f3bafeb67227ed660f3413f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 20/62] fix: long chains of dependencies exceeded the recursion
 limit

---
 lib/fbuild/sched.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 379e1ec..22df9e1 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -183,17 +183,25 @@ class Scheduler:
         visited = set()
         results = []
 
+        # The chains of dependencies can be longer than the recursion limit.
         def f(task):
-            if task in visited:
-                return
+            stack = [(task, iter(task.dependencies))]
             visited.add(task)
 
-            for n in task.dependencies:
-                f(n)
-            results.append(task.result)
+            while stack:
+                task, dependencies = stack[-1]
+                for n in dependencies:
+                    if n not in visited:
+                        visited.add(n)
+                        stack.append((n, iter(n.dependencies)))
+                        break
+                else:
+                    results.append(task.result)
+                    stack.pop()
 
         for src in srcs:
-            f(tasks[src])
+            if tasks[src] not in visited:
+                f(tasks[src])
 
         return results
 
-- 
2.43.0


From 2214db177988a99eacccbcb670a30694f4c92a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:27 +0000
Subject: [PATCH 21/62] fix: return the exceptions an RPC handler returns
 instead of raising them

---
 lib/fbuild/rpc.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/fbuild/rpc.py b/lib/fbuild/rpc.py
index f8acaaa..eade729 100644
--- a/lib/fbuild/rpc.py
+++ b/lib/fbuild/rpc.py
@@ -20,6 +20,7 @@ class _Result:
 
     def __init__(self):
         self.result = _NULL
+        self.exc = None
 
 # ------------------------------------------------------------------------------
 
@@ -57,13 +58,13 @@ class RPC(threading.Thread):
         # Wait for the message to be processed.
         event.wait()
 
+        # Raise any exceptions we've received.
+        if result.exc is not None:
+            raise result.exc
+
         assert result.result is not _NULL, "function failed to get called!"
 
-        # Raise any exceptions we've received.
-        if isinstance(result.result, BaseException):
-            raise result.result
-        else:
-            return result.result
+        return result.result
 
     def start(self, *args, **kwargs):
         super().start(*args, **kwargs)
@@ -113,7 +114,7 @@ class RPC(threading.Thread):
 
             if msg is not _NULL:
                 event, result, args, kwargs = msg
-                result.result = RPCNotRunning()
+                result.exc = RPCNotRunning()
                 event.set()
             self._queue.task_done()
 
@@ -124,10 +125,10 @@ class RPC(threading.Thread):
         try:
             result.result = self._handler(*args, **kwargs)
         except Exception as err:
-            result.result = err
+            result.exc = err
         except BaseException as err:
             # Let the client know that we had a fatal error.
-            result.result = err
+            result.exc = err
             raise
         finally:
             # Let the client know that we finished.
-- 
2.43.0


From 9ad8ba944e9f91be26f4bb1d7cd53ec799d6f000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:21:47 +0000
Subject: [PATCH 22/62] fix: log whole lines of threads, also after their first
 line

---
 lib/fbuild/console.py | 54 ++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/lib/fbuild/console.py b/lib/fbuild/console.py
index e7c475d..e79a0d3 100644
--- a/lib/fbuild/console.py
+++ b/lib/fbuild/console.py
@@ -126,22 +126,24 @@ class Log:
             yield
         finally:
             self.flush()
+            self._thread_stack.pop()
 
     def write(self, msg, *, buffer=True, **kwargs):
-        if not buffer or self._threadcount == 1:
-            with self._lock:
-                self._write(msg, **kwargs)
+        # make sure message is a string
+        msg = str(msg)
+
+        if buffer and self._threadcount != 1 and self._thread_stack:
+            # Keep the messages back until we have the whole line.
+            self._thread_stack[-1].append((msg, kwargs))
+            if msg.endswith('\n'):
+                self.flush()
         else:
-            if buffer and self._thread_stack:
-                self._thread_stack[-1].append((msg, kwargs))
-                if msg.endswith('\n'):
-                    self.flush()
-            else:
+            with self._lock:
+                self.flush()
                 self._write(msg, **kwargs)
+                self._flush_files()
 
     def _write(self, msg, color=None, verbose=0):
-        # make sure message is a string
-        msg = str(msg)
         if self.file:
             self.file.write(msg)
 
@@ -149,18 +151,21 @@ class Log:
             if self.nocolor:
                 color = None
             _write_colored_str(msg, color)
-        self.flush()
+
+    def _flush_files(self):
+        if self.file:
+            self.file.flush()
+        sys.stdout.flush()
 
     def flush(self):
-        if self._thread_stack:
-            msgs = self._thread_stack.pop()
-            with self._lock:
+        with self._lock:
+            if self._thread_stack:
+                msgs = self._thread_stack[-1]
+                self._thread_stack[-1] = []
                 for msg, kwargs in msgs:
                     self._write(msg, **kwargs)
 
-        if self.file:
-            self.file.flush()
-        sys.stdout.flush()
+            self._flush_files()
 
     def log(self, msg, color=None, verbose=0):
         with self._lock:
@@ -177,13 +182,14 @@ class Log:
 
         msg = msg.ljust(self.maxlen) + ': '
 
-        if result is None:
-            self.write(msg, color=color, verbose=verbose)
-            self.write('\n', verbose=verbose + 1)
-        else:
-            self.write(msg, verbose=verbose)
-            self.write(result, color=color, verbose=verbose)
-            self.write('\n', verbose=verbose)
+        with self._lock:
+            if result is None:
+                self.write(msg, color=color, verbose=verbose)
+                self.write('\n', verbose=verbose + 1)
+            else:
+                self.write(msg, verbose=verbose)
+                self.write(result, color=color, verbose=verbose)
+                self.write('\n', verbose=verbose)
 
     def passed(self, msg='ok', color='green', **kwargs):
         self.log(msg, color=color, **kwargs)
-- 
2.43.0


From fdcea6b8053b347abffb7b3e034b15500632a4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:33 +0000
Subject: [PATCH 23/62] fix: nested tasks broke into the log lines of the task
 they run in

---
 lib/fbuild/sched.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 22df9e1..74e1284 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -368,16 +368,15 @@ class WorkerThread(threading.Thread):
     def run(self):
         try:
             while not self.__finished:
-                with self.__logger.log_from_thread():
-                    queue_task = self.read_task()
-                    with self.__controlling_lock:
-                        try:
-                            if not self.run_one(queue_task):
-                                break
-                        finally:
-                            while self.__postponed:
-                                self.__postponed -= 1
-                                self.__ready_queue.put(None)
+                queue_task = self.read_task()
+                with self.__controlling_lock:
+                    try:
+                        if not self.run_one(queue_task):
+                            break
+                    finally:
+                        while self.__postponed:
+                            self.__postponed -= 1
+                            self.__ready_queue.put(None)
         except KeyboardInterrupt:
             # let the main thread know we got a SIGINT
             _thread.interrupt_main()
@@ -406,7 +405,7 @@ class WorkerThread(threading.Thread):
             try:
                 # Don't start a task that was cancelled while it was queued.
                 if not task.done:
-                    task.run()
+                    task.run(self.__logger)
             finally:
                 done_queue.put(task)
         finally:
@@ -446,11 +445,14 @@ class Task:
 
         return all(d.done for d in self.dependencies)
 
-    def run(self):
+    def run(self, logger):
         """Run the task's function."""
 
         try:
-            self.result = self.context.run(self.function, self.src)
+            # Nested maps run other tasks inside of this one, so each task
+            # needs log messages of its own.
+            with logger.log_from_thread():
+                self.result = self.context.run(self.function, self.src)
         except KeyboardInterrupt as e:
             # The worker thread passes this on to the main thread.
             self.exc = e
-- 
2.43.0


From 3372c2c4e8407a0bec23dd916eae99920235017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 24/62] fix: remember the calls of a first build with sqlite
 that is killed

The version of the database was only written when it was closed, so the next
build took the database for an old one and deleted it.
---
 lib/fbuild/db/sqlite_backend.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 74e68dc..b50b837 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -44,8 +44,18 @@ class SqliteBackend(fbuild.db.backend.Backend):
         self.conn = sqlite3.connect(self._file_name)
         self.cursor = self.conn.cursor()
 
+        self.cursor.execute('SELECT count(*) FROM sqlite_master')
+        is_new = self.cursor.fetchone() == (0,)
+
         self._initialize_database()
 
+        if is_new:
+            # Do not wait for the database to be closed, or all that was saved
+            # until then is taken for an old database if we don't get there.
+            self.cursor.execute('INSERT INTO Version (version) VALUES (?)',
+                                (self._LATEST_VERSION,))
+            self.conn.commit()
+
         # Load the version.
         self.cursor.execute('SELECT version FROM Version')
         rows = self.cursor.fetchall()
-- 
2.43.0


From bcad87446ed54563dcf61bf73a43c0092969b734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 25/62] fix: a kill while an old database is replaced left it
 marked as a new one

---
 lib/fbuild/db/backend.py        | 7 ++++++-
 lib/fbuild/db/sqlite_backend.py | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index ec0b4af..46e6aba 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -29,7 +29,7 @@ class Backend:
         self._connect(*args, **kwargs)
         if self._file_name is not None and self.version() != self.latest_version():
             # Database cache spec has been updated in the mean time, so re-create it.
-            self.close()
+            self._disconnect()
             self._file_name.remove()
             self._connect(*args, **kwargs)
 
@@ -38,6 +38,11 @@ class Backend:
         raise NotImplementedError
 
 
+    def _disconnect(self):
+        """Let go of the database without saving anything, which would pass an
+        old database off as one of the latest version."""
+
+
     def close(self, *args, **kwargs):
         """Close the connection to the database backend."""
         raise NotImplementedError
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index b50b837..2443f0e 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -63,6 +63,10 @@ class SqliteBackend(fbuild.db.backend.Backend):
         self._version = rows[0][0] if rows else self._NULL_VERSION
 
 
+    def _disconnect(self):
+        self.conn.close()
+
+
     def close(self):
         # Update the version.
 
-- 
2.43.0


From 0b69fae943b5afc8cf3d8d98d70d092252d415d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 26/62] fix: cached calls accepted arguments that Python
 rejects

Positional arguments beyond the parameters were dropped if the function has
keyword-only ones, positional-only parameters could be passed by keyword, and
parameters called kw or kwargs were taken for dictionaries.
---
 lib/fbuild/functools.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lib/fbuild/functools.py b/lib/fbuild/functools.py
index e22d64a..1faab9e 100644
--- a/lib/fbuild/functools.py
+++ b/lib/fbuild/functools.py
@@ -97,6 +97,10 @@ def normalize_args(function, args, kwargs):
     if inspect.ismethod(function):
         fn_args = fn_args[1:]
 
+    positional_only = {
+        name for name, param in inspect.signature(function).parameters.items()
+        if param.kind == param.POSITIONAL_ONLY}
+
     # If there are no arguments, error out if extra ones were provided.
     if not fn_args and not fn_kwargs and not varargs and not varkw:
         if args or kwargs:
@@ -121,15 +125,15 @@ def normalize_args(function, args, kwargs):
     fn_totalargs = fn_argcount + fn_kwargcount
 
     # Error out if we specified too many arguments and we aren't taking varargs
-    if len(args) > fn_totalargs and not varargs:
+    if len(args) > fn_argcount and not varargs:
         raise TypeError(
             '%s.%s() takes %s %d %spositional argument%s (%d given)' % (
                 function.__module__,
                 function.__name__,
                 'at most' if defcount else 'exactly',
-                fn_totalargs,
+                fn_argcount,
                 '' if fn_kwargcount else 'non-keyword ',
-                '' if fn_totalargs == 1 else 's',
+                '' if fn_argcount == 1 else 's',
                 len(args)))
 
     new_args = list(args)
@@ -139,6 +143,8 @@ def normalize_args(function, args, kwargs):
     for i, key in enumerate(fn_args):
         # First, check if we provide a kwarg for it
         try:
+            if key in positional_only:
+                raise KeyError(key)
             value = kwargs.pop(key)
         except KeyError:
             # No kwarg, so see if we specified an argument
@@ -199,9 +205,9 @@ def normalize_args(function, args, kwargs):
         bound_kwargs.update(kwargs)
     else:
         for key, value in kwargs.items():
-            # if the key isn't in the fn_args and isn't related to
+            # if the key wasn't used for the fn_args and isn't related to
             # magic method decorators, it's unknown
-            if key not in fn_args and key != '__FBUILD_INNER':
+            if key != '__FBUILD_INNER':
                 raise TypeError(
                     '%s() got an unexpected keyword argument %r' %
                     (function.__name__, key))
@@ -254,9 +260,8 @@ def bind_args(function, args, kwargs):
 
     # Remove __FBUILD_INNER, because it doesn't really matter here and will
     # only make the rest of the code more complicated.
-    for kind in 'kw', 'kwargs':
-        if kind in bound and '__FBUILD_INNER' in bound[kind]:
-            bound[kind].pop('__FBUILD_INNER', None)
+    if spec.varkw is not None:
+        bound[spec.varkw].pop('__FBUILD_INNER', None)
 
     return bound
 
-- 
2.43.0


From b0228d184e7945781d51f1570eddd8cbf8e9ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:34 +0000
Subject: [PATCH 27/62] fix: cached functions can have parameters called self
 or function

---
 lib/fbuild/db/__init__.py | 21 ++++++++++++++-------
 lib/fbuild/db/database.py |  2 +-
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/lib/fbuild/db/__init__.py b/lib/fbuild/db/__init__.py
index be56d8c..7f45992 100644
--- a/lib/fbuild/db/__init__.py
+++ b/lib/fbuild/db/__init__.py
@@ -115,10 +115,10 @@ class PersistentMeta(abc.ABCMeta):
 
             _update_fun_map(cls.__call_super__)
 
-    def __call_super__(cls, *args, **kwargs):
+    def __call_super__(cls, /, *args, **kwargs):
         return super().__call__(*args, **kwargs)
 
-    def __call__(cls, ctx, *args, **kwargs):
+    def __call__(cls, ctx, /, *args, **kwargs):
         _check_ctx(ctx, cls.__name__, 'PersistentMeta.__call__')
         result, srcs, objs = ctx.db.call(cls.__call_super__, ctx,
             *args, **kwargs)
@@ -176,13 +176,20 @@ class caches:
         functools.update_wrapper(self, function)
         self.function = function
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         result, srcs, dsts = self.call(*args, **kwargs)
         return result
 
-    def call(self, ctx, *args, **kwargs):
+    def call(self, /, *args, **kwargs):
+        if args:
+            ctx = args[0]
+        else:
+            # The context may have been passed by name.
+            names = list(inspect.signature(self.function).parameters)
+            ctx = kwargs.get(names[0]) if names else None
+
         _check_ctx(ctx, self.function.__name__, 'caches.call')
-        return ctx.db.call(self.function, ctx, *args, **kwargs)
+        return ctx.db.call(self.function, *args, **kwargs)
 
 
 class cachemethod:
@@ -218,11 +225,11 @@ class cachemethod_wrapper:
     def __init__(self, method):
         self.method = method
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         result, srcs, dsts = self.call(*args, **kwargs)
         return result
 
-    def call(self, *args, **kwargs):
+    def call(self, /, *args, **kwargs):
         _check_ctx(self.method.__self__.ctx,
                    self.method.__self__.__class__.__name__,
                    'cache<member>.call')
diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 94853f0..7bdd050 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -80,7 +80,7 @@ class Database:
         self._connected = False
         return result
 
-    def call(self, function, *args, **kwargs):
+    def call(self, function, /, *args, **kwargs):
         """Call the function and return the result, src dependencies, and dst
         dependencies. If the function has been previously called with the same
         arguments, return the cached results.  If we detect that the function
-- 
2.43.0


From 98b4f5be7de99cc7a1e3e82c5817bcfb514af0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 28/62] fix: cached functions of the same name shared their
 results if nested

---
 lib/fbuild/db/database.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 7bdd050..8896d2b 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -281,7 +281,9 @@ class Database:
 
         if not fbuild.inspect.ismethod(wrapped_function) and member_of is None:
             # Normal function.
-            fun_name = function.__module__ + '.' + function.__name__
+            # Functions defined inside of others may have the same name.
+            fun_name = function.__module__ + '.' + \
+                getattr(function, '__qualname__', function.__name__)
         else:
             # Method.
 
@@ -293,7 +295,7 @@ class Database:
                     isinstance(function.__self__, fbuild.db.PersistentMeta):
                 fun_name = '%s.%s' % (
                     function.__self__.__module__,
-                    function.__self__.__name__)
+                    function.__self__.__qualname__)
             else:
                 if hasattr(wrapped_function, '__self__'):
                     is_bound_method = True
@@ -302,7 +304,7 @@ class Database:
                     assert member_of, function
                     cls = member_of
 
-                fun_name = '%s.%s.%s' % (function.__module__, cls.__name__,
+                fun_name = '%s.%s.%s' % (function.__module__, cls.__qualname__,
                                          function.__name__)
 
             if is_bound_method:
-- 
2.43.0


From 45b9621a92b8feace63e37db6aad4d6128163ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 29/62] fix: persistent objects were equal to those with more
 members

The comparison only looked at the members of one of the objects, and took
instances of derived classes for equal too, so cached methods and functions
returned the results of other objects.
---
 lib/fbuild/db/__init__.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/lib/fbuild/db/__init__.py b/lib/fbuild/db/__init__.py
index 7f45992..f5c16bb 100644
--- a/lib/fbuild/db/__init__.py
+++ b/lib/fbuild/db/__init__.py
@@ -138,18 +138,12 @@ class PersistentObject(metaclass=PersistentMeta):
         if self is other:
             return True
 
-        if not isinstance(other, type(self)):
+        # Objects of different classes, or with other members, may not stand in
+        # for each other, no matter which of them is asked.
+        if type(self) is not type(other):
             return False
 
-        # Step through the members and exit if they aren't equal.
-        try:
-            for key in self.__dict__:
-                if getattr(self, key) != getattr(other, key):
-                    return False
-        except AttributeError:
-            return False
-        else:
-            return True
+        return self.__dict__ == other.__dict__
 
 # ------------------------------------------------------------------------------
 
-- 
2.43.0


From b45b84c02833732c99b1df6e75e62d4d006d7fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 30/62] fix: builds failed when the state contains objects of a
 class that is gone

---
 lib/fbuild/db/pickle_backend.py |  2 +-
 lib/fbuild/db/sqlite_backend.py | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/lib/fbuild/db/pickle_backend.py b/lib/fbuild/db/pickle_backend.py
index cfe9cbc..8e5d2e7 100644
--- a/lib/fbuild/db/pickle_backend.py
+++ b/lib/fbuild/db/pickle_backend.py
@@ -20,7 +20,7 @@ class PickleBackend(fbuild.db.cache_backend.CacheBackend):
                 unpickler = fbuild.db.backend.Unpickler(self._ctx, f)
                 try:
                     data = unpickler.load()
-                except AttributeError:
+                except (AttributeError, ImportError):
                     # Likely a moved member. Just start clean!
                     super()._connect()
                     return
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index 2443f0e..f54bb62 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -307,6 +307,8 @@ class SqliteBackend(fbuild.db.backend.Backend):
         assert isinstance(fun_id, int), fun_id
         assert isinstance(bound, dict), bound
 
+        gone = []
+
         # We've called this before, so search the data to see if we've called
         # it with the same arguments.
         for call_id, old_bound, old_result in self.cursor.execute('''
@@ -314,14 +316,21 @@ class SqliteBackend(fbuild.db.backend.Backend):
                 FROM Call
                 WHERE fun_id=?
                 ''', (fun_id,)):
-            old_bound = self._pickle_loads(old_bound)
-
-            if bound == old_bound:
+            try:
+                old_bound = self._pickle_loads(old_bound)
                 old_result = self._pickle_loads(old_result)
+            except (AttributeError, ImportError):
+                # Likely a moved member. Forget this call.
+                gone.append(call_id)
+                continue
 
+            if bound == old_bound:
                 return False, call_id, old_result
-        else:
-            return True, None, None
+
+        for call_id in gone:
+            self.cursor.execute('DELETE FROM Call WHERE call_id=?', (call_id,))
+
+        return True, None, None
 
 
     def save_call(self, call_id, fun_id, call_bound, call_result):
-- 
2.43.0


From 6b19a8b0bf77916ab5205f9b985b07e5a040dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 31/62] fix: changes of the constructor of a persistent object
 were not noticed

---
 lib/fbuild/db/database.py | 45 +++++++++++++++++++++++++++++++++++++--
 lib/fbuild/functools.py   |  3 ++-
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 8896d2b..13f2467 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -3,6 +3,7 @@ import hashlib
 import itertools
 import pprint
 import threading
+import types
 
 import fbuild
 import fbuild.functools
@@ -27,6 +28,18 @@ class _Call:
 
 # ------------------------------------------------------------------------------
 
+def _constructed_class(function):
+    """Returns the class if the function is what creates persistent objects of
+    a class, or None."""
+
+    cls = getattr(function, '__self__', None)
+    if isinstance(cls, fbuild.db.PersistentMeta) and \
+            function.__name__ == '__call_super__':
+        return cls
+    return None
+
+# ------------------------------------------------------------------------------
+
 class Database:
     """L{Database} persistently stores the results of argument calls."""
 
@@ -320,7 +333,24 @@ class Database:
     @staticmethod
     def _digest_function(function):
         """Compute the digest for a function or a function object."""
-        if fbuild.inspect.isroutine(function):
+        constructed = _constructed_class(function)
+        if constructed is not None:
+            # The function creates an object, so digest what may be run when
+            # the class is called.
+            src = ''
+            for cls in constructed.__mro__:
+                for name in '__new__', '__init__':
+                    member = vars(cls).get(name)
+                    member = fbuild.inspect.unwrap(
+                        getattr(member, '__func__', member))
+                    if fbuild.inspect.isfunction(member):
+                        try:
+                            src += fbuild.inspect.getsource(member)
+                        except (OSError, TypeError):
+                            # It is built in.
+                            pass
+            digest = hashlib.md5(src.encode()).hexdigest()
+        elif fbuild.inspect.isroutine(function):
             # The function is a function, method, or lambda, so digest
             # the source. If the function is a builtin, we will raise
             # an exception.
@@ -335,6 +365,15 @@ class Database:
     def _find_call_filenames(self, function, args, kwargs):
         """Return the filenames needed for the function."""
 
+        # An object is identified by the arguments of its constructor, unless
+        # that is decorated and may take others.
+        constructed = _constructed_class(function)
+        if constructed is not None and \
+                fbuild.inspect.isfunction(constructed.__init__) and \
+                fbuild.inspect.unwrap(constructed.__init__) is \
+                    constructed.__init__:
+            function = types.MethodType(constructed.__init__, constructed)
+
         # Bind the arguments so that we can look up normal args by name.
         bound = fbuild.functools.bind_args(function, args, kwargs)
 
@@ -343,7 +382,9 @@ class Database:
         srcs = set()
         dsts = set()
         for akey, avalue in function.__annotations__.items():
-            if akey == 'return':
+            if constructed is not None and not isinstance(avalue, type):
+                continue
+            elif akey == 'return':
                 return_type = avalue
             elif issubclass(avalue, fbuild.db.SRC):
                 srcs.update(avalue.convert(bound[akey]))
diff --git a/lib/fbuild/functools.py b/lib/fbuild/functools.py
index 1faab9e..6f9e0ed 100644
--- a/lib/fbuild/functools.py
+++ b/lib/fbuild/functools.py
@@ -98,7 +98,8 @@ def normalize_args(function, args, kwargs):
         fn_args = fn_args[1:]
 
     positional_only = {
-        name for name, param in inspect.signature(function).parameters.items()
+        name for name, param in inspect.signature(
+            function, follow_wrapped=False).parameters.items()
         if param.kind == param.POSITIONAL_ONLY}
 
     # If there are no arguments, error out if extra ones were provided.
-- 
2.43.0


From 9ebf28e98c2bfd162f16c54b59e653f7484265b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 32/62] fix: 'configure install' built before it configured

The build target was put in front of the target before install, and
more than one install was accepted and not last.
---
 lib/fbuild/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/main.py b/lib/fbuild/main.py
index 2408145..c5f2817 100644
--- a/lib/fbuild/main.py
+++ b/lib/fbuild/main.py
@@ -103,10 +103,10 @@ def build(ctx):
 
     # Installation stuff.
     if 'install' in targets:
-        if targets[-1] != 'install':
+        if 'install' in targets[:-1]:
             raise fbuild.Error('install must be last target')
         if not set(targets) - {'configure', 'install'}:
-            targets.insert(targets.index('install')-1, 'build')
+            targets.insert(-1, 'build')
 
     # Step through each target and execute it.
     for target_name in targets:
-- 
2.43.0


From 5e3923a13aaf1fbc4d2ed891da277433b061fc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 33/62] fix: install changed the permissions of the source file

They were meant for the installed file.  Also, files were written through
links that were in their place, and installing a link over a dangling one,
or any file over a read only one, failed.
---
 lib/fbuild/install.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/install.py b/lib/fbuild/install.py
index 003c3dd..18ab07e 100644
--- a/lib/fbuild/install.py
+++ b/lib/fbuild/install.py
@@ -22,13 +22,19 @@ class LocalCommander:
 
         if file.islink():
             # Assume the user knows what they're doing, and just copy the link itself.
-            if target.exists():
+            link = file.readlink()
+            if target.lexists():
                 target.remove()
-            os.symlink(file.readlink(), target)
+            os.symlink(link, target)
         else:
+            # Replace an old file instead of writing through a link, or into
+            # one that is read only.
+            if target.islink() or (target.isfile() and
+                    target.realpath() != file.realpath()):
+                target.remove()
             file.copy(target)
-        if perms is not None:
-            file.chmod(perms)
+            if perms is not None:
+                target.chmod(perms)
 
     def close(self): pass
 
-- 
2.43.0


From 75dc04bd13933cfe2269cbe8bd23fd046ee71538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 34/62] fix: commands that ended in time could be reported as
 timed out

The timer went on while the caller waited until it may run again, and then
sent a signal to whatever has the number of the process by then.  Killed
processes were never waited for.
---
 lib/fbuild/context.py                    | 7 +++++--
 lib/fbuild/subprocess/killableprocess.py | 1 -
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/context.py b/lib/fbuild/context.py
index 91b7615..eb1289d 100644
--- a/lib/fbuild/context.py
+++ b/lib/fbuild/context.py
@@ -186,8 +186,11 @@ class Context:
             timed_out = False
             def timeout_function(p):
                 nonlocal timed_out
-                timed_out = True
-                p.kill(group=True)
+                # The process may have ended in time, and only we have not
+                # been able to go on since.
+                if p.returncode is None:
+                    timed_out = True
+                    p.kill(group=True)
 
             # Set the timer to None for now to make sure it's defined.
             timer = None
diff --git a/lib/fbuild/subprocess/killableprocess.py b/lib/fbuild/subprocess/killableprocess.py
index 0e03167..55f391b 100644
--- a/lib/fbuild/subprocess/killableprocess.py
+++ b/lib/fbuild/subprocess/killableprocess.py
@@ -203,7 +203,6 @@ class Popen(subprocess.Popen):
             except OSError as ex:
                 if ex.errno != errno.ESRCH:
                     raise
-            self.returncode = -9
 
     def _try_wait(self, wait_flags):
         if wait_flags == 0:
-- 
2.43.0


From dd05a01840381ee88bb2fb3271ff0d176c6d7b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 35/62] fix: commands could not be run with a preexec_fn

---
 lib/fbuild/subprocess/killableprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/subprocess/killableprocess.py b/lib/fbuild/subprocess/killableprocess.py
index 55f391b..76457f8 100644
--- a/lib/fbuild/subprocess/killableprocess.py
+++ b/lib/fbuild/subprocess/killableprocess.py
@@ -104,7 +104,7 @@ class Popen(subprocess.Popen):
             def setsid_preexec_fn():
                 os.setsid()
                 if real_preexec_fn:
-                    apply(real_preexec_fn)
+                    real_preexec_fn()
 
             kwargs['preexec_fn'] = setsid_preexec_fn
 
-- 
2.43.0


From aed3b3b8816ddfbc761107370668c467c4fa6c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 36/62] fix: an empty input for a command was taken for none

---
 lib/fbuild/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fbuild/context.py b/lib/fbuild/context.py
index eb1289d..9f7412b 100644
--- a/lib/fbuild/context.py
+++ b/lib/fbuild/context.py
@@ -198,7 +198,7 @@ class Context:
         starttime = time.time()
         try:
             p = fbuild.subprocess.killableprocess.Popen(cmd,
-                stdin=fbuild.subprocess.PIPE if input else stdin,
+                stdin=stdin if input is None else fbuild.subprocess.PIPE,
                 stdout=stdout,
                 stderr=stderr,
                 env=env,
-- 
2.43.0


From 592c7ad972a7c4f4372c203475cc4fc25f7ea2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 37/62] fix: commands whose output is text raised
 AttributeError

---
 lib/fbuild/context.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/lib/fbuild/context.py b/lib/fbuild/context.py
index 9f7412b..e03d735 100644
--- a/lib/fbuild/context.py
+++ b/lib/fbuild/context.py
@@ -25,6 +25,18 @@ STATE_FILE_DEFAULTS = {
 }
 
 
+def _printable(output):
+    """The output of a command as it is shown to the user."""
+
+    output = output.rstrip()
+    if isinstance(output, bytes):
+        try:
+            output = output.decode()
+        except UnicodeDecodeError:
+            output = repr(output)
+    return output
+
+
 InstallSpec = collections.namedtuple('InstallSpec', ['source', 'target', 'perms'])
 
 
@@ -235,18 +247,10 @@ class Context:
             self.logger.log(' + ' + cmd_string, verbose=1)
 
         if stdout:
-            try:
-                self.logger.log(stdout.rstrip().decode(),
-                    verbose=stdout_quieter)
-            except UnicodeDecodeError:
-                self.logger.log(repr(stdout.rstrip()), verbose=stdout_quieter)
+            self.logger.log(_printable(stdout), verbose=stdout_quieter)
 
         if stderr:
-            try:
-                self.logger.log(stderr.rstrip().decode(),
-                    verbose=stderr_quieter)
-            except UnicodeDecodeError:
-                self.logger.log(repr(stderr.rstrip()), verbose=stderr_quieter)
+            self.logger.log(_printable(stderr), verbose=stderr_quieter)
 
         self.logger.log(
             ' - exit %d, %.2f sec' % (returncode, endtime - starttime),
-- 
2.43.0


From 889b15888c434848c7816da361e11b5a72591379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 38/62] fix: Path.globall did not accept lists of patterns with
 Python 3.10

---
 lib/fbuild/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/path.py b/lib/fbuild/path.py
index 9fa5b12..cbcc176 100644
--- a/lib/fbuild/path.py
+++ b/lib/fbuild/path.py
@@ -1,4 +1,4 @@
-import collections
+import collections.abc
 import hashlib
 import itertools
 import os
@@ -527,7 +527,7 @@ class Path(str):
         for pattern in patterns:
             if \
                     not isinstance(pattern, str) and \
-                    isinstance(pattern, collections.Iterable):
+                    isinstance(pattern, collections.abc.Iterable):
                 paths = Path.igloball(*pattern)
             else:
                 paths = Path.glob(pattern, **kwargs)
-- 
2.43.0


From 129422fe777a9c845319e7e81e51af391d7199b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 39/62] fix: ** matched directories that do not exist

---
 lib/fbuild/glob.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/fbuild/glob.py b/lib/fbuild/glob.py
index b0c8281..9587787 100644
--- a/lib/fbuild/glob.py
+++ b/lib/fbuild/glob.py
@@ -31,11 +31,8 @@ def iglob(pathname, *, recursive=True):
     zero or more directories and subdirectories.
     """
 
-    it = _iglob(pathname, recursive)
-    if recursive and _isrecursive(pathname):
-        s = next(it)  # skip empty string
-        assert not s
-    return it
+    # '**' also stands for no directory at all, which is not a path
+    return filter(None, _iglob(pathname, recursive))
 
 def _iglob(pathname, recursive):
     dirname, basename = os.path.split(pathname)
@@ -108,7 +105,8 @@ def glob0(dirname, basename):
 
 def glob2(dirname, pattern):
     assert _isrecursive(pattern)
-    yield pattern[:0]
+    if not dirname or os.path.isdir(dirname):
+        yield pattern[:0]
     for item in _rlistdir(dirname):
         yield item
 
-- 
2.43.0


From ad85b25beb18c0a884896fc795ee3e644147fc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 40/62] fix: patterns matched names with a newline too much,
 and ranges could raise errors

* and ? match newlines too, and the end of a name is its end.  A range that
ends before it starts is empty, as in the library of Python.
---
 lib/fbuild/fnmatch.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/lib/fbuild/fnmatch.py b/lib/fbuild/fnmatch.py
index 1947bc4..c13bb88 100644
--- a/lib/fbuild/fnmatch.py
+++ b/lib/fbuild/fnmatch.py
@@ -85,7 +85,7 @@ def translate(pat):
     There is no way to quote meta-characters.
     """
 
-    return _translate(0, pat, '')[2] + '$'
+    return '(?s:%s)\\Z' % _translate(0, pat, '')[2]
 
 def _translate(i, pat, end):
     res = ''
@@ -110,13 +110,8 @@ def _translate(i, pat, end):
             if j >= n:
                 res = res + '\\['
             else:
-                stuff = pat[i:j].replace('\\','\\\\')
+                res += _translate_set(pat[i:j])
                 i = j+1
-                if stuff[0] == '!':
-                    stuff = '^' + stuff[1:]
-                elif stuff[0] == '^':
-                    stuff = '\\' + stuff
-                res = '%s[%s]' % (res, stuff)
         elif c == '{':
             i, sub = _translate_subexpression(i, pat)
             res += sub
@@ -124,6 +119,25 @@ def _translate(i, pat, end):
             res = res + re.escape(c)
     return i, '', res
 
+def _translate_set(stuff):
+    negate = stuff[0] == '!'
+    if negate:
+        stuff = stuff[1:]
+    res = ''
+    i = 0
+    while i < len(stuff):
+        if i + 2 < len(stuff) and stuff[i+1] == '-':
+            # a range that ends before it starts is empty
+            if stuff[i] <= stuff[i+2]:
+                res += re.escape(stuff[i]) + '-' + re.escape(stuff[i+2])
+            i += 3
+        else:
+            res += re.escape(stuff[i])
+            i += 1
+    if not res:
+        return '.' if negate else '(?!)'
+    return '[%s%s]' % ('^' if negate else '', res)
+
 def _translate_subexpression(i, pat):
     j = i
     subexpressions = []
-- 
2.43.0


From 4f9c6ae76d6fa03f27628d971842582dcf5ab976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 41/62] fix: templates with a list of values failed with Python
 3.10

---
 lib/fbuild/builders/text.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/builders/text.py b/lib/fbuild/builders/text.py
index ae0d9d6..114d4d6 100644
--- a/lib/fbuild/builders/text.py
+++ b/lib/fbuild/builders/text.py
@@ -1,4 +1,4 @@
-import collections
+import collections.abc
 import re
 
 import fbuild
@@ -104,7 +104,7 @@ def autoconf_config_file(ctx, dst, src:fbuild.db.SRC, patterns, *,
         value = patterns[match.group(1)]
         if isinstance(value, str):
             return value
-        elif isinstance(value, collections.Iterable):
+        elif isinstance(value, collections.abc.Iterable):
             return ' '.join(str(v) for v in value)
         return str(value)
 
@@ -143,7 +143,7 @@ def autoconf_config_header(ctx, dst, src:fbuild.db.SRC, patterns, *,
             value = patterns[match.group('sub')]
             if isinstance(value, str):
                 return value
-            elif isinstance(value, collections.Iterable):
+            elif isinstance(value, collections.abc.Iterable):
                 return ' '.join(str(v) for v in value)
             return str(value)
         else:
@@ -161,7 +161,7 @@ def autoconf_config_header(ctx, dst, src:fbuild.db.SRC, patterns, *,
                 value = int(value)
             elif \
                     not isinstance(value, str) and \
-                    isinstance(value, collections.Iterable):
+                    isinstance(value, collections.abc.Iterable):
                 value = ' '.join(str(v) for v in value)
 
             if value:
-- 
2.43.0


From 51dc92090a7a7a7f46f21d1200bb4053142047dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:40 +0000
Subject: [PATCH 42/62] fix: a call did not notice that its outputs were
 overwritten by one with other arguments

The results of calls whose outputs were written again by a call of the same
function with other arguments were still taken to be good, so that going back
to the former arguments (flags, say) left the outputs of the latter. Forget
these results, and those of the calls that are registered to rely on the files.
---
 lib/fbuild/db/backend.py        | 13 +++++++++-
 lib/fbuild/db/cache_backend.py  | 35 +++++++++++++++++++++++++
 lib/fbuild/db/database.py       | 46 +++++++++++++++++++++++++--------
 lib/fbuild/db/sqlite_backend.py | 38 +++++++++++++++++++++++++++
 4 files changed, 120 insertions(+), 12 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index 46e6aba..e73e437 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -109,7 +109,9 @@ class Backend:
             result,
             call_file_digests,
             external_srcs,
-            external_dsts):
+            external_dsts,
+            written_dsts,
+            find_dsts):
         """Saves the function call into the database."""
 
         # Look up the function again, as other calls of it may have been saved
@@ -125,6 +127,9 @@ class Backend:
         # The same goes for the call.
         _, call_id, _ = self.find_call(fun_id, bound)
 
+        if written_dsts:
+            self.delete_other_calls(fun_id, call_id, written_dsts, find_dsts)
+
         # Get the real call_id to use in the call files.
         call_id = self.save_call(call_id, fun_id, bound, result)
         self.save_call_files(call_id, call_file_digests)
@@ -215,6 +220,12 @@ class Backend:
         """Insert or update the function call."""
         raise NotImplementedError
 
+
+    def delete_other_calls(self, fun_id, call_id, written_dsts, find_dsts):
+        """Clear the other calls of the function that have one of the files
+        among their outputs, and the calls that rely on these outputs."""
+        raise NotImplementedError
+
     # --------------------------------------------------------------------------
 
     def check_call_files(self, call_id, file_names):
diff --git a/lib/fbuild/db/cache_backend.py b/lib/fbuild/db/cache_backend.py
index 9ac0542..77f23d9 100644
--- a/lib/fbuild/db/cache_backend.py
+++ b/lib/fbuild/db/cache_backend.py
@@ -215,6 +215,41 @@ class CacheBackend(fbuild.db.backend.Backend):
 
         return (fun_id, call_index)
 
+
+    def delete_other_calls(self, fun_id, call_id, written_dsts, find_dsts):
+        """Clear the other calls of the function that have one of the files
+        among their outputs, and the calls that rely on these outputs."""
+
+        lost_dsts = set()
+        for call_index, (bound, result) in \
+                enumerate(self._function_calls.get(fun_id, ())):
+            other_id = (fun_id, call_index)
+            if bound is None or other_id == call_id:
+                continue
+
+            lost = written_dsts.intersection(
+                find_dsts(bound, result) | self.find_external_dsts(other_id))
+            if lost:
+                lost_dsts.update(lost)
+                self._delete_call(other_id)
+
+        for fun_name, calls in self._external_dsts.items():
+            for call_index, dsts in list(calls.items()):
+                other_id = (fun_name, call_index)
+                if other_id != call_id and not lost_dsts.isdisjoint(dsts):
+                    self._delete_call(other_id)
+
+
+    def _delete_call(self, call_id):
+        """Clear the call from the database."""
+
+        fun_name, call_index = call_id
+
+        # The calls are known by their index, so leave a gap.
+        self._function_calls[fun_name][call_index] = (None, None)
+        self._external_srcs.get(fun_name, {}).pop(call_index, None)
+        self._external_dsts.get(fun_name, {}).pop(call_index, None)
+
     # --------------------------------------------------------------------------
 
     def find_call_file(self, call_id, file_name):
diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 13f2467..4c14fb8 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -25,6 +25,8 @@ class _Call:
         self.fun_dependents = []
         self.external_srcs = set()
         self.external_dsts = set()
+        # The outputs of the calls it made.
+        self.inner_dsts = set()
 
 # ------------------------------------------------------------------------------
 
@@ -131,10 +133,11 @@ class Database:
         fun_digest = self.get_function_digest_from_map(fun_name)
 
         # Find the call filenames for the function.
-        call_bound, srcs, dsts, return_type = self._find_call_filenames(
-            function,
-            args,
-            kwargs)
+        call_bound, srcs, dsts, return_type, dst_args = \
+            self._find_call_filenames(
+                function,
+                args,
+                kwargs)
 
         fun_dirty, fun_id, call_dirty, call_id, old_result, call_file_digests, \
             external_srcs, external_dsts, external_digests = \
@@ -179,6 +182,8 @@ class Database:
                     dsts=external_dsts)
                 # Update the active file list.
                 self.active_files.update(all_srcs | all_dsts)
+                if callstack:
+                    callstack[-1].inner_dsts.update(all_dsts)
                 return old_result, all_srcs, all_dsts
 
         if self._explain:
@@ -229,12 +234,6 @@ class Database:
         assert not fbuild.inspect.isgenerator(call_result), \
             "Cannot store generator in database"
 
-        # Save the results in the database.
-        self._rpc.call(self._backend.cache,
-            fun_dirty, fun_id, fun_name, fun_digest, fun_dependents,
-            call_id, call_bound, call_result,
-            call_file_digests, external_srcs, external_dsts)
-
         if return_type is not None and issubclass(return_type, fbuild.db.DST):
             return_dsts = return_type.convert(call_result)
         else:
@@ -243,8 +242,29 @@ class Database:
         all_srcs = srcs.union(external_srcs)
         all_dsts = dsts.union(external_dsts)
         all_dsts.update(return_dsts)
+
+        # What the call wrote itself. The other calls of the function that
+        # wrote these files, with other arguments, have lost their outputs.
+        written_dsts = all_dsts - call.inner_dsts
+
+        def find_dsts(bound, result):
+            found = set()
+            for name, annotation in dst_args:
+                found.update(annotation.convert(
+                    result if name == 'return' else bound[name]))
+            return found
+
+        # Save the results in the database.
+        self._rpc.call(self._backend.cache,
+            fun_dirty, fun_id, fun_name, fun_digest, fun_dependents,
+            call_id, call_bound, call_result,
+            call_file_digests, external_srcs, external_dsts,
+            written_dsts, find_dsts)
+
         # Update the active file list.
         self.active_files.update(all_srcs | all_dsts)
+        if callstack:
+            callstack[-1].inner_dsts.update(all_dsts | call.inner_dsts)
         return call_result, all_srcs, all_dsts
 
     def delete_function(self, fun_name):
@@ -381,6 +401,7 @@ class Database:
         return_type = None
         srcs = set()
         dsts = set()
+        dst_args = []
         for akey, avalue in function.__annotations__.items():
             if constructed is not None and not isinstance(avalue, type):
                 continue
@@ -391,7 +412,10 @@ class Database:
             elif issubclass(avalue, fbuild.db.DST):
                 dsts.update(avalue.convert(bound[akey]))
 
-        return bound, srcs, dsts, return_type
+            if isinstance(avalue, type) and issubclass(avalue, fbuild.db.DST):
+                dst_args.append((akey, avalue))
+
+        return bound, srcs, dsts, return_type, dst_args
 
     def add_external_dependencies_to_call(self, *, srcs=(), dsts=()):
         """When inside a cached method, register additional src
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index f54bb62..cf2a14f 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -363,6 +363,44 @@ class SqliteBackend(fbuild.db.backend.Backend):
 
         return call_id
 
+
+    def delete_other_calls(self, fun_id, call_id, written_dsts, find_dsts):
+        """Clear the other calls of the function that have one of the files
+        among their outputs, and the calls that rely on these outputs."""
+
+        self.cursor.execute('''
+            SELECT call_id, call_bound, call_result
+            FROM Call
+            WHERE fun_id=? AND call_id IS NOT ?
+            ''', (fun_id, call_id))
+
+        lost_dsts = set()
+        for other_id, bound, result in self.cursor.fetchall():
+            try:
+                dsts = find_dsts(
+                    self._pickle_loads(bound), self._pickle_loads(result))
+            except (AttributeError, ImportError):
+                # Likely a moved member. It won't be found anyway.
+                continue
+
+            lost = written_dsts.intersection(
+                dsts | self.find_external_dsts(other_id))
+            if lost:
+                lost_dsts.update(lost)
+                self.cursor.execute(
+                    'DELETE FROM Call WHERE call_id=?',
+                    (other_id,))
+
+        for dst in lost_dsts:
+            self.cursor.execute('''
+                DELETE FROM Call
+                WHERE call_id IS NOT ? AND call_id IN (
+                    SELECT call_id
+                    FROM ExternalDst
+                    JOIN File USING (file_id)
+                    WHERE file_name=?)
+                ''', (call_id, dst))
+
     # --------------------------------------------------------------------------
 
     def find_call_file(self, call_id, file_id):
-- 
2.43.0


From afdd65290b8d386c3efced4789670bba22b9fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:24 +0000
Subject: [PATCH 43/62] fix: platform options altered their declarations and
 the arguments of the caller, and failed for sets

---
 lib/fbuild/builders/platform.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/platform.py b/lib/fbuild/builders/platform.py
index 41cff87..f005521 100644
--- a/lib/fbuild/builders/platform.py
+++ b/lib/fbuild/builders/platform.py
@@ -184,6 +184,12 @@ def platform_match(platform, matcher):
     return required_present <= platform and not platform & required_nonpresent
 
 
+def _copy_value(value):
+    if type(value) in (list, set, dict):
+        return value.copy()
+    return value
+
+
 def parse_platform_options(ctx, platform, platform_options, kwargs):
     types_supporting_operations = (str, list, tuple, set)
 
@@ -207,7 +213,10 @@ def parse_platform_options(ctx, platform, platform_options, kwargs):
                         value = type(modifier)()
 
                     if operation == '+':
-                        value += modifier
+                        if isinstance(value, set):
+                            value |= modifier
+                        else:
+                            value += modifier
                     elif operation == '-':
                         filtered = (x for x in value if x not in modifier)
 
@@ -220,7 +229,8 @@ def parse_platform_options(ctx, platform, platform_options, kwargs):
 
                     kwargs[key] = value
                 else:
-                    kwargs[key] = modifier
+                    # Later options, or the function itself, may modify it.
+                    kwargs[key] = _copy_value(modifier)
 
 
 def auto_platform_options(pass_platform=False):
@@ -242,6 +252,11 @@ def auto_platform_options(pass_platform=False):
                 ctx = args[0]
 
             if ctx is not None:
+                if kw.get('platform_options'):
+                    # The options are applied to what we were passed in place,
+                    # which still belongs to our caller.
+                    kw = {k: _copy_value(v) for k, v in kw.items()}
+
                 parse_platform_options(ctx, kw.get('platform', None),
                                        kw.pop('platform_options', []), kw)
             if not pass_platform:
-- 
2.43.0


From f569980bd91c66239b2b8a2232e07f52d21f33ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:58 +0000
Subject: [PATCH 44/62] fix: guessing builders gave static ones for shared C++
 with g++, altered the platform passed, and failed for unknown compilers

---
 lib/fbuild/builders/c/__init__.py   | 7 ++++---
 lib/fbuild/builders/cxx/__init__.py | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/builders/c/__init__.py b/lib/fbuild/builders/c/__init__.py
index 8e56724..9efc5f6 100644
--- a/lib/fbuild/builders/c/__init__.py
+++ b/lib/fbuild/builders/c/__init__.py
@@ -396,12 +396,13 @@ class Guesser:
         if exe is not None:
             tp = identify_compiler(ctx, exe)
             if tp is None:
-                raise fbuild.ConfigFailed('cannot identify exe given for %s' % name)
+                raise fbuild.ConfigFailed(
+                    'cannot identify exe given for %s' % self.lang)
             # Grab only the compiler type pertaining to this guess call.
-            platform |= tp & self.compilers
+            platform = platform | (tp & self.compilers)
         else:
             # We're open to using all compilers.
-            platform |= self.compilers
+            platform = platform | self.compilers
 
         builders = {'static': static, 'shared': shared}
 
diff --git a/lib/fbuild/builders/cxx/__init__.py b/lib/fbuild/builders/cxx/__init__.py
index 854e812..e4e309e 100644
--- a/lib/fbuild/builders/cxx/__init__.py
+++ b/lib/fbuild/builders/cxx/__init__.py
@@ -18,7 +18,7 @@ guess = fbuild.builders.c.Guesser('c++', {'msvc++', 'g++', 'clang++', 'icpc'}, (
         ({'clang++'}, 'fbuild.builders.cxx.clangxx.static',
                       'fbuild.builders.cxx.clangxx.shared'),
         ({'g++'}, 'fbuild.builders.cxx.gxx.static',
-                  'fbuild.builders.cxx.gxx.static'),
+                  'fbuild.builders.cxx.gxx.shared'),
         ({'icpc'}, 'fbuild.builders.cxx.intelxx.static',
                    'fbuild.builders.cxx.intelxx.shared'),
     ))
-- 
2.43.0


From 58b516312b96411a6ed7a7597f5e07edf74e9ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:36 +0000
Subject: [PATCH 45/62] fix: no function could be digested with Python 3.11,
 whose inspect exports no re

---
 lib/fbuild/inspect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fbuild/inspect.py b/lib/fbuild/inspect.py
index 28fcb67..c766a13 100644
--- a/lib/fbuild/inspect.py
+++ b/lib/fbuild/inspect.py
@@ -1,5 +1,6 @@
 from inspect import *
 import linecache
+import re
 
 def findsource(object):
     """Return the entire source file and starting line number for an object.
-- 
2.43.0


From 814ece8d141f3889cba142897c8cff3ef3f2e839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:51 +0000
Subject: [PATCH 46/62] fix: run did not search for the libraries that
 libraries were linked with

---
 lib/fbuild/builders/c/__init__.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/builders/c/__init__.py b/lib/fbuild/builders/c/__init__.py
index 9efc5f6..f9f8ccf 100644
--- a/lib/fbuild/builders/c/__init__.py
+++ b/lib/fbuild/builders/c/__init__.py
@@ -170,10 +170,19 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
     @fbuild.builders.platform.auto_platform_options()
     def run(self, cmd, *args, runtime_libpaths=[], **kwargs):
         """Executes a c executable."""
-        exe = cmd[0]
-        return self.ctx.execute(cmd, *args,
-            runtime_libpaths=runtime_libpaths + [l.parent for l in exe.libs],
-            **kwargs)
+        libpaths = list(runtime_libpaths)
+        def add_libpaths(libs):
+            for lib in libs:
+                parent = Path(lib).parent
+                if parent not in libpaths:
+                    libpaths.append(parent)
+
+                # These may need others.
+                if isinstance(lib, Library):
+                    add_libpaths(lib.libs)
+
+        add_libpaths(cmd[0].libs)
+        return self.ctx.execute(cmd, *args, runtime_libpaths=libpaths, **kwargs)
 
 
     @fbuild.builders.platform.auto_platform_options()
-- 
2.43.0


From e601ce32a83c06ae37d5537c4165b1aabdb6ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:51 +0000
Subject: [PATCH 47/62] fix: libpaths could not be passed for static libraries

---
 lib/fbuild/builders/c/gcc/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index 5638aab..9343e70 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -42,6 +42,7 @@ class Ar(fbuild.db.PersistentObject):
 
     @fbuild.db.cachemethod
     def __call__(self, dst, srcs:fbuild.db.SRCS, *,
+            libpaths=(),
             libs:fbuild.db.SRCS=(),
             ldlibs=(),
             external_libs=(),
-- 
2.43.0


From c1b2d0819fc341682791dabccb8a594dfa3946db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:51 +0000
Subject: [PATCH 48/62] fix: the names of libraries without a prefix, as on
 Windows, were cut off

---
 lib/fbuild/builders/c/gcc/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index 9343e70..f78e132 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -251,7 +251,9 @@ class Gcc(fbuild.db.PersistentObject):
             if parent not in libpaths:
                 libpaths.append(parent)
 
-            lib = lib.name[len('lib'):]
+            lib = lib.name
+            if lib.startswith('lib'):
+                lib = lib[len('lib'):]
             lib = lib.rsplit('.', 1)[0]
 
             if lib not in new_libs:
-- 
2.43.0


From 80b29f1d378adc43e1a9947d17444bc67a8f1f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 49/62] fix: nothing was linked again when the libraries of a
 library changed

---
 lib/fbuild/builders/__init__.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/fbuild/builders/__init__.py b/lib/fbuild/builders/__init__.py
index bec6bec..df5d5d0 100644
--- a/lib/fbuild/builders/__init__.py
+++ b/lib/fbuild/builders/__init__.py
@@ -194,6 +194,22 @@ class AbstractCompiler(fbuild.db.PersistentObject):
 
 # ------------------------------------------------------------------------------
 
+def _add_library_dependencies(ctx, libs):
+    """Register the libraries that L{libs} were linked with as sources of the
+    current call, as they are going to be linked too."""
+    srcs = []
+    def f(libs):
+        for lib in libs:
+            for l in getattr(lib, 'libs', ()):
+                if l not in srcs:
+                    srcs.append(l)
+                    f([l])
+
+    f(libs)
+    ctx.db.add_external_dependencies_to_call(srcs=srcs)
+
+# ------------------------------------------------------------------------------
+
 class AbstractLibLinker(AbstractCompiler):
     @fbuild.db.cachemethod
     @platform.auto_platform_options()
@@ -201,6 +217,7 @@ class AbstractLibLinker(AbstractCompiler):
             libs:fbuild.db.SRCS=(),
             **kwargs) -> fbuild.db.DST:
         """Link compiled files into a library and caches the results."""
+        _add_library_dependencies(self.ctx, libs)
         return self.uncached_link_lib(dst, srcs, *args, libs=libs, **kwargs)
 
     @abc.abstractmethod
@@ -273,6 +290,7 @@ class AbstractExeLinker(AbstractCompiler, AbstractRunner):
             libs:fbuild.db.SRCS=(),
             **kwargs) -> fbuild.db.DST:
         """Link compiled files into an executable."""
+        _add_library_dependencies(self.ctx, libs)
         return self.uncached_link_exe(dst, srcs, *args, libs=libs, **kwargs)
 
     @abc.abstractmethod
-- 
2.43.0


From 4e379beaff6484923bde616dc7cee6a829c94bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 50/62] fix: archives kept the objects of sources that were
 taken out of them

---
 lib/fbuild/builders/c/gcc/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index f78e132..57355f3 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -68,6 +68,10 @@ class Ar(fbuild.db.PersistentObject):
 
         srcs = list(Path.globall(srcs))
 
+        # ar keeps the members that an archive already has.
+        if dst.lexists():
+            dst.remove()
+
         cmd = [self.exe]
         cmd.extend(self.flags)
         cmd.extend(flags)
-- 
2.43.0


From 5f0d43b7f3c1f4f88bc4bda2f45524e0cdd02ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 51/62] fix: headers with spaces, '#' or '$' in their names
 were not found in gcc's dependencies

---
 lib/fbuild/builders/c/gcc/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index 57355f3..cf3bf2a 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -1,4 +1,5 @@
 import io
+import os
 import re
 from itertools import chain
 
@@ -459,13 +460,16 @@ class Builder(fbuild.builders.c.Builder):
                 stdout = f.read().replace(b'\\\n', b'')
 
         # Parse the output and return the module dependencies.
-        m = re.match(b'\s*\S+:(?: (.*))?$', stdout)
+        m = re.match(br'(?s)\s*\S.*?:(?:\s(.*))?$', stdout)
         if not m:
             raise fbuild.ExecutionError('unable to understand %r' % stdout)
 
         s = m.group(1)
         if s is not None:
-            deps = s.decode().split()
+            # Spaces and '#' are escaped with backslashes, and '$' is doubled.
+            deps = [
+                os.fsdecode(re.sub(br'\\([ \t#])', br'\1', d).replace(b'$$', b'$'))
+                for d in re.findall(br'(?:\\[ \t#]|[^\s])+', s)]
             self.ctx.db.add_external_dependencies_to_call(srcs=deps)
 
         return obj
-- 
2.43.0


From 2b8fa2b4bdfa866d57974c89c1e4e209d44b0e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 52/62] fix: a program linked with other libraries did not
 count as the same output

---
 lib/fbuild/db/database.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index 4c14fb8..ee4f531 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -30,6 +30,14 @@ class _Call:
 
 # ------------------------------------------------------------------------------
 
+def _file_names(paths):
+    """Returns the plain names of the paths, as there may be more to a path
+    that is compared, like the libraries of a library."""
+
+    return {str(path) for path in paths}
+
+# ------------------------------------------------------------------------------
+
 def _constructed_class(function):
     """Returns the class if the function is what creates persistent objects of
     a class, or None."""
@@ -183,7 +191,7 @@ class Database:
                 # Update the active file list.
                 self.active_files.update(all_srcs | all_dsts)
                 if callstack:
-                    callstack[-1].inner_dsts.update(all_dsts)
+                    callstack[-1].inner_dsts.update(_file_names(all_dsts))
                 return old_result, all_srcs, all_dsts
 
         if self._explain:
@@ -245,26 +253,27 @@ class Database:
 
         # What the call wrote itself. The other calls of the function that
         # wrote these files, with other arguments, have lost their outputs.
-        written_dsts = all_dsts - call.inner_dsts
+        written_dsts = _file_names(all_dsts) - call.inner_dsts
 
         def find_dsts(bound, result):
             found = set()
             for name, annotation in dst_args:
                 found.update(annotation.convert(
                     result if name == 'return' else bound[name]))
-            return found
+            return _file_names(found)
 
         # Save the results in the database.
         self._rpc.call(self._backend.cache,
             fun_dirty, fun_id, fun_name, fun_digest, fun_dependents,
             call_id, call_bound, call_result,
-            call_file_digests, external_srcs, external_dsts,
+            call_file_digests, external_srcs, _file_names(external_dsts),
             written_dsts, find_dsts)
 
         # Update the active file list.
         self.active_files.update(all_srcs | all_dsts)
         if callstack:
-            callstack[-1].inner_dsts.update(all_dsts | call.inner_dsts)
+            callstack[-1].inner_dsts.update(
+                _file_names(all_dsts) | call.inner_dsts)
         return call_result, all_srcs, all_dsts
 
     def delete_function(self, fun_name):
-- 
2.43.0


From 7af01a072e26e1e1d3d44479e6284abe4d9eeded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 53/62] fix: programs were linked with a shared library found
 next to the static one that was asked for

---
 lib/fbuild/builders/c/gcc/__init__.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/fbuild/builders/c/gcc/__init__.py b/lib/fbuild/builders/c/gcc/__init__.py
index cf3bf2a..c26f8dc 100644
--- a/lib/fbuild/builders/c/gcc/__init__.py
+++ b/lib/fbuild/builders/c/gcc/__init__.py
@@ -251,15 +251,21 @@ class Gcc(fbuild.db.PersistentObject):
                 for l in lib.libs:
                     f(l)
 
-            parent, lib = Path(lib).split()
+            path = Path(lib)
+            parent, lib = path.split()
 
             if parent not in libpaths:
                 libpaths.append(parent)
 
-            lib = lib.name
-            if lib.startswith('lib'):
-                lib = lib[len('lib'):]
-            lib = lib.rsplit('.', 1)[0]
+            if lib.endswith('.a') and path.exists():
+                # With "-l" the linker would take a shared library of the same
+                # name when there is one.
+                lib = path
+            else:
+                lib = lib.name
+                if lib.startswith('lib'):
+                    lib = lib[len('lib'):]
+                lib = '-l' + lib.rsplit('.', 1)[0]
 
             if lib not in new_libs:
                 new_libs.append(lib)
@@ -309,7 +315,7 @@ class Gcc(fbuild.db.PersistentObject):
         # Avoid passing libraries if just compiling.
         if '-c' not in cmd:
             # Libraries must come last on linux in order to find symbols.
-            cmd.extend('-l' + l for l in libs)
+            cmd.extend(libs)
             cmd.extend('-l' + l for l in external_libs)
 
             # Add ldlibs.
-- 
2.43.0


From 88ce92a116a5945d5ab465b32c19a1445fd80803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 54/62] fix: a library built of the objects it was built of
 earlier stayed the one built in between

---
 lib/fbuild/db/backend.py        | 12 +++++++++---
 lib/fbuild/db/cache_backend.py  |  5 ++++-
 lib/fbuild/db/database.py       | 12 ++++++++----
 lib/fbuild/db/sqlite_backend.py |  5 ++++-
 4 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index e73e437..cc98f06 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -112,7 +112,8 @@ class Backend:
             external_dsts,
             written_dsts,
             find_dsts):
-        """Saves the function call into the database."""
+        """Saves the function call into the database. Returns the outputs of
+        other calls that it wrote over."""
 
         # Look up the function again, as other calls of it may have been saved
         # while this one was running. What these depend on is still needed.
@@ -127,8 +128,10 @@ class Backend:
         # The same goes for the call.
         _, call_id, _ = self.find_call(fun_id, bound)
 
+        lost_dsts = set()
         if written_dsts:
-            self.delete_other_calls(fun_id, call_id, written_dsts, find_dsts)
+            lost_dsts = self.delete_other_calls(
+                fun_id, call_id, written_dsts, find_dsts)
 
         # Get the real call_id to use in the call files.
         call_id = self.save_call(call_id, fun_id, bound, result)
@@ -136,6 +139,8 @@ class Backend:
 
         self.save_external_files(call_id, external_srcs, external_dsts)
 
+        return lost_dsts
+
     # --------------------------------------------------------------------------
 
     def check_function(self, fun_name, already_checked=None):
@@ -223,7 +228,8 @@ class Backend:
 
     def delete_other_calls(self, fun_id, call_id, written_dsts, find_dsts):
         """Clear the other calls of the function that have one of the files
-        among their outputs, and the calls that rely on these outputs."""
+        among their outputs, and the calls that rely on these outputs.
+        Returns the outputs."""
         raise NotImplementedError
 
     # --------------------------------------------------------------------------
diff --git a/lib/fbuild/db/cache_backend.py b/lib/fbuild/db/cache_backend.py
index 77f23d9..ccfb13d 100644
--- a/lib/fbuild/db/cache_backend.py
+++ b/lib/fbuild/db/cache_backend.py
@@ -218,7 +218,8 @@ class CacheBackend(fbuild.db.backend.Backend):
 
     def delete_other_calls(self, fun_id, call_id, written_dsts, find_dsts):
         """Clear the other calls of the function that have one of the files
-        among their outputs, and the calls that rely on these outputs."""
+        among their outputs, and the calls that rely on these outputs.
+        Returns the outputs."""
 
         lost_dsts = set()
         for call_index, (bound, result) in \
@@ -239,6 +240,8 @@ class CacheBackend(fbuild.db.backend.Backend):
                 if other_id != call_id and not lost_dsts.isdisjoint(dsts):
                     self._delete_call(other_id)
 
+        return lost_dsts
+
 
     def _delete_call(self, call_id):
         """Clear the call from the database."""
diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index ee4f531..eb2a26f 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -27,6 +27,8 @@ class _Call:
         self.external_dsts = set()
         # The outputs of the calls it made.
         self.inner_dsts = set()
+        # Those among them that were written over.
+        self.lost_dsts = set()
 
 # ------------------------------------------------------------------------------
 
@@ -251,9 +253,10 @@ class Database:
         all_dsts = dsts.union(external_dsts)
         all_dsts.update(return_dsts)
 
-        # What the call wrote itself. The other calls of the function that
-        # wrote these files, with other arguments, have lost their outputs.
-        written_dsts = _file_names(all_dsts) - call.inner_dsts
+        # What the call wrote itself, or wrote over with the calls it made. The
+        # other calls of the function that wrote these files, with other
+        # arguments, have lost their outputs.
+        written_dsts = _file_names(all_dsts) - call.inner_dsts | call.lost_dsts
 
         def find_dsts(bound, result):
             found = set()
@@ -263,7 +266,7 @@ class Database:
             return _file_names(found)
 
         # Save the results in the database.
-        self._rpc.call(self._backend.cache,
+        lost_dsts = self._rpc.call(self._backend.cache,
             fun_dirty, fun_id, fun_name, fun_digest, fun_dependents,
             call_id, call_bound, call_result,
             call_file_digests, external_srcs, _file_names(external_dsts),
@@ -274,6 +277,7 @@ class Database:
         if callstack:
             callstack[-1].inner_dsts.update(
                 _file_names(all_dsts) | call.inner_dsts)
+            callstack[-1].lost_dsts.update(lost_dsts | call.lost_dsts)
         return call_result, all_srcs, all_dsts
 
     def delete_function(self, fun_name):
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index cf2a14f..a27c760 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -366,7 +366,8 @@ class SqliteBackend(fbuild.db.backend.Backend):
 
     def delete_other_calls(self, fun_id, call_id, written_dsts, find_dsts):
         """Clear the other calls of the function that have one of the files
-        among their outputs, and the calls that rely on these outputs."""
+        among their outputs, and the calls that rely on these outputs.
+        Returns the outputs."""
 
         self.cursor.execute('''
             SELECT call_id, call_bound, call_result
@@ -401,6 +402,8 @@ class SqliteBackend(fbuild.db.backend.Backend):
                     WHERE file_name=?)
                 ''', (call_id, dst))
 
+        return lost_dsts
+
     # --------------------------------------------------------------------------
 
     def find_call_file(self, call_id, file_id):
-- 
2.43.0


From b9717cbc0dd918ee5976f7853a6f1cf225bfaaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 55/62] fix: the outputs of a failed call were taken for those
 of its earlier result

---
 lib/fbuild/db/backend.py        | 22 ++++++++++++++++++++++
 lib/fbuild/db/cache_backend.py  |  6 +++---
 lib/fbuild/db/database.py       | 22 +++++++++++++++-------
 lib/fbuild/db/sqlite_backend.py | 14 ++++++++++++++
 4 files changed, 54 insertions(+), 10 deletions(-)

diff --git a/lib/fbuild/db/backend.py b/lib/fbuild/db/backend.py
index cc98f06..27cc7dc 100644
--- a/lib/fbuild/db/backend.py
+++ b/lib/fbuild/db/backend.py
@@ -141,6 +141,23 @@ class Backend:
 
         return lost_dsts
 
+
+    def forget_call(self, fun_name, bound, written_dsts, find_dsts):
+        """Clears a function call that failed from the database. Returns the
+        outputs of other calls that it may have written over."""
+
+        fun_id, _, _ = self.find_function(fun_name)
+        if fun_id is None:
+            return set()
+
+        _, call_id, _ = self.find_call(fun_id, bound)
+        if call_id is not None:
+            self.delete_call(call_id)
+
+        if not written_dsts:
+            return set()
+        return self.delete_other_calls(fun_id, None, written_dsts, find_dsts)
+
     # --------------------------------------------------------------------------
 
     def check_function(self, fun_name, already_checked=None):
@@ -226,6 +243,11 @@ class Backend:
         raise NotImplementedError
 
 
+    def delete_call(self, call_id):
+        """Clear the function call from the database."""
+        raise NotImplementedError
+
+
     def delete_other_calls(self, fun_id, call_id, written_dsts, find_dsts):
         """Clear the other calls of the function that have one of the files
         among their outputs, and the calls that rely on these outputs.
diff --git a/lib/fbuild/db/cache_backend.py b/lib/fbuild/db/cache_backend.py
index ccfb13d..4b04ac2 100644
--- a/lib/fbuild/db/cache_backend.py
+++ b/lib/fbuild/db/cache_backend.py
@@ -232,18 +232,18 @@ class CacheBackend(fbuild.db.backend.Backend):
                 find_dsts(bound, result) | self.find_external_dsts(other_id))
             if lost:
                 lost_dsts.update(lost)
-                self._delete_call(other_id)
+                self.delete_call(other_id)
 
         for fun_name, calls in self._external_dsts.items():
             for call_index, dsts in list(calls.items()):
                 other_id = (fun_name, call_index)
                 if other_id != call_id and not lost_dsts.isdisjoint(dsts):
-                    self._delete_call(other_id)
+                    self.delete_call(other_id)
 
         return lost_dsts
 
 
-    def _delete_call(self, call_id):
+    def delete_call(self, call_id):
         """Clear the call from the database."""
 
         fun_name, call_index = call_id
diff --git a/lib/fbuild/db/database.py b/lib/fbuild/db/database.py
index eb2a26f..6420f2e 100644
--- a/lib/fbuild/db/database.py
+++ b/lib/fbuild/db/database.py
@@ -226,15 +226,30 @@ class Database:
         external_srcs = call.external_srcs
         external_dsts = call.external_dsts
 
+        def find_dsts(bound, result):
+            found = set()
+            for name, annotation in dst_args:
+                found.update(annotation.convert(
+                    result if name == 'return' else bound[name]))
+            return _file_names(found)
+
         # The call was dirty, so recompute it.
         token = self._callstack.set(callstack + (call,))
         try:
             call_result = outer_function(*args, **kwargs)
         except BaseException:
+            # Its outputs may be half written, so do not take them for those of
+            # an earlier result when the sources are put back.
+            failed_dsts = _file_names(dsts | external_dsts) - call.inner_dsts
+            lost_dsts = self._rpc.call(self._backend.forget_call,
+                fun_name, call_bound, failed_dsts | call.lost_dsts, find_dsts)
+
             # If the caller handles the error, it depends on everything that
             # led to it.
             if callstack:
                 callstack[-1].fun_dependents.extend(call.fun_dependents)
+                callstack[-1].inner_dsts.update(call.inner_dsts)
+                callstack[-1].lost_dsts.update(lost_dsts | call.lost_dsts)
             raise
         finally:
             self._callstack.reset(token)
@@ -258,13 +273,6 @@ class Database:
         # arguments, have lost their outputs.
         written_dsts = _file_names(all_dsts) - call.inner_dsts | call.lost_dsts
 
-        def find_dsts(bound, result):
-            found = set()
-            for name, annotation in dst_args:
-                found.update(annotation.convert(
-                    result if name == 'return' else bound[name]))
-            return _file_names(found)
-
         # Save the results in the database.
         lost_dsts = self._rpc.call(self._backend.cache,
             fun_dirty, fun_id, fun_name, fun_digest, fun_dependents,
diff --git a/lib/fbuild/db/sqlite_backend.py b/lib/fbuild/db/sqlite_backend.py
index a27c760..5bbc3ec 100644
--- a/lib/fbuild/db/sqlite_backend.py
+++ b/lib/fbuild/db/sqlite_backend.py
@@ -154,6 +154,14 @@ class SqliteBackend(fbuild.db.backend.Backend):
         with self.conn:
             return super().cache(*args, **kwargs)
 
+
+    def forget_call(self, *args, **kwargs):
+        if self._ctx.options.do_not_save_database:
+            return super().forget_call(*args, **kwargs)
+
+        with self.conn:
+            return super().forget_call(*args, **kwargs)
+
     # --------------------------------------------------------------------------
 
     def find_function(self, fun_name):
@@ -364,6 +372,12 @@ class SqliteBackend(fbuild.db.backend.Backend):
         return call_id
 
 
+    def delete_call(self, call_id):
+        """Clear the function call from the database."""
+
+        self.cursor.execute('DELETE FROM Call WHERE call_id=?', (call_id,))
+
+
     def delete_other_calls(self, fun_id, call_id, written_dsts, find_dsts):
         """Clear the other calls of the function that have one of the files
         among their outputs, and the calls that rely on these outputs.
-- 
2.43.0


From 34933ff06deafe46f924fbb332d7f5bcb79ee7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 56/62] fix: a cycle between modules ended in a RecursionError
 when scanning for ocamlc

---
 lib/fbuild/builders/ocaml/__init__.py | 28 +++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index 8f72bff..2a81114 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -653,19 +653,23 @@ class BytecodeBuilder(Builder):
             **kwargs) -> fbuild.db.DSTS:
         """Recursively compute all the source files this ocaml file depends
         on."""
-        lookup = {}
-        for dep in self.ocamldep.source_dependencies(src,
-                includes=includes,
-                **kwargs):
-            base, ext = dep.splitext()
-            if ext == '.mli' or base not in lookup:
-                lookup[base] = dep
-
         deps = set()
-        for dep in lookup.values():
-            deps.add(dep)
-            d = self.scan(dep, includes=includes, **kwargs)
-            deps.update(d)
+        def f(src):
+            lookup = {}
+            for dep in self.ocamldep.source_dependencies(src,
+                    includes=includes,
+                    **kwargs):
+                base, ext = dep.splitext()
+                if ext == '.mli' or base not in lookup:
+                    lookup[base] = dep
+
+            for dep in lookup.values():
+                # Don't scan this dependency if we've already scanned it.
+                if dep not in deps:
+                    deps.add(dep)
+                    f(dep)
+
+        f(src)
 
         return deps
 
-- 
2.43.0


From b3e531e6f819bd51900945e390820df5e731e5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 57/62] fix: programs using packed modules were not compiled
 again when those changed

---
 lib/fbuild/builders/ocaml/__init__.py | 45 +++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index 2a81114..4e26247 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -395,7 +395,10 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
             buildroot=buildroot,
             *args, **kwargs)
 
-    def _add_compile_dependencies(self, dst, src, **kwargs):
+    # The files of a compiled module that other modules are compiled against.
+    module_suffixes = ('.cmi',)
+
+    def _add_compile_dependencies(self, dst, src, *, includes=(), **kwargs):
         # If the .mli file doesn't exist, ocaml creates one from the .ml file
         if src.endswith('.ml') and not src.replaceext('.mli').exists():
             dsts = (dst.replaceext('.cmi'),)
@@ -403,8 +406,43 @@ class Builder(fbuild.builders.AbstractCompilerBuilder):
             dsts = ()
 
         self.ctx.db.add_external_dependencies_to_call(
-            srcs=self.scan(src, **kwargs),
+            srcs=self.scan(src, includes=includes, **kwargs),
             dsts=dsts)
+        self.ctx.db.add_external_dependencies_to_call(
+            srcs=self._find_compiled_modules(dst, src,
+                includes=includes,
+                **kwargs))
+
+    def _find_compiled_modules(self, dst, src, *, includes, **kwargs):
+        """Find the compiled files of the modules L{src} uses for which there
+        are no sources, such as packed modules."""
+        found = set()
+        for dep in self.ocamldep.source_dependencies(src,
+                includes=includes,
+                **kwargs):
+            name = dep.name.splitext()[0]
+            found.add(name[0].upper() + name[1:])
+
+        includes = set(includes)
+        includes.update(self.includes)
+        includes.add(dst.parent)
+
+        srcs = []
+        for module in self.ocamldep.modules(src, **kwargs):
+            if module in found:
+                continue
+
+            for suffix in self.module_suffixes:
+                for include in sorted(includes):
+                    path = Path(include) / (
+                        module[0].lower() + module[1:] + suffix)
+                    if not path.exists():
+                        path = Path(include) / (module + suffix)
+                    if path.exists():
+                        srcs.append(path)
+                        break
+
+        return srcs
 
     # --------------------------------------------------------------------------
 
@@ -795,6 +833,9 @@ class Ocamlopt(Builder):
 
     # --------------------------------------------------------------------------
 
+    # The code of other modules can be inlined.
+    module_suffixes = ('.cmi', '.cmx')
+
     def _add_compile_dependencies(self, dst, src, **kwargs):
         super()._add_compile_dependencies(dst, src, **kwargs)
 
-- 
2.43.0


From 6a90dd79f5af899629ee51fe7278e4fe0774884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 58/62] fix: compile of the builder for both kinds of OCaml
 code raised a NameError

---
 lib/fbuild/builders/ocaml/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index 4e26247..b11ccd6 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -978,16 +978,16 @@ class Ocaml(fbuild.builders.AbstractCompilerBuilder):
 
     # --------------------------------------------------------------------------
 
-    def _compile(self, bcompile, ncompile, *args, **kwargs):
+    def _compile(self, bcompile, ncompile, src, *args, **kwargs):
         """Actually compile the source using the bytecode and native
         compilers."""
-        bobj = bcompile(*args, **kwargs)
+        bobj = bcompile(src, *args, **kwargs)
 
         if src.endswith('.mli'):
             # We only need to generate the interface once.
             nobj = bobj
         else:
-            nobj = ncompile(*args, **kwargs)
+            nobj = ncompile(src, *args, **kwargs)
 
         return self.Tuple(bobj, nobj)
 
-- 
2.43.0


From e965433930c319018f374635813c458da36a3065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 59/62] fix: a generated OCaml module was compiled before its
 changed interface

---
 lib/fbuild/builders/ocaml/__init__.py | 34 +++++++++++++--------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index b11ccd6..0dd4ee1 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -120,26 +120,26 @@ class Ocamldep(fbuild.db.PersistentObject):
                     f(module, include)
 
         if src.endswith('.ml'):
-            # The .mli file might not live right next to the .ml file, so
-            # search the include path for it.
+            # The .mli file might not live right next to the .ml file. If we
+            # generated the .ml file, then perhaps there's a pre-defined .mli
+            # file not in the buildroot. Look for this one first, as compiling
+            # it puts a copy of it in the buildroot.
             mli = Path(src).replaceext('.mli')
-            if mli.exists():
+            buildroot = kwargs.get('buildroot') or self.ctx.buildroot
+            src_mli = mli.removeroot(buildroot + os.sep)
+
+            if src_mli.exists():
+                deps.append(src_mli)
+            elif mli.exists():
                 deps.append(mli)
             else:
-                # If we generated the .ml file, then perhaps there's a
-                # pre-defined .mli file not in the buildroot.
-                buildroot = kwargs.get('buildroot') or self.ctx.buildroot
-                mli = mli.removeroot(buildroot + os.sep)
-
-                if mli.exists():
-                    deps.append(mli)
-                else:
-                    for include in includes:
-                        path = mli.name
-                        if include is not None: path = include / path
-                        if path.exists():
-                            deps.append(path)
-                        break
+                # Otherwise search the include path for it.
+                for include in includes:
+                    path = src_mli.name
+                    if include is not None: path = include / path
+                    if path.exists():
+                        deps.append(path)
+                    break
 
         return deps
 
-- 
2.43.0


From 98a329baefe07df4def0e4558f9aee023498cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:15 +0000
Subject: [PATCH 60/62] fix: a generated OCaml module with an interface among
 the sources was linked after those that use it

---
 lib/fbuild/builders/ocaml/__init__.py | 37 ++++++++++++++++-----------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/lib/fbuild/builders/ocaml/__init__.py b/lib/fbuild/builders/ocaml/__init__.py
index 0dd4ee1..e454ab5 100644
--- a/lib/fbuild/builders/ocaml/__init__.py
+++ b/lib/fbuild/builders/ocaml/__init__.py
@@ -71,7 +71,7 @@ class Ocamldep(fbuild.db.PersistentObject):
         """Compute the source files this ocaml file depends on."""
         deps = []
 
-        def f(module, include):
+        def f(module, include, suffixes=('.mli', '.ml')):
             # On case-insensitive but case-preserving filesystems, we need to
             # be careful on how we deal with finding OCaml dependencies. Since
             # OCaml can store a module named List in either list.ml or List.ml,
@@ -89,12 +89,12 @@ class Ocamldep(fbuild.db.PersistentObject):
                 if not include.exists():
                     # We can't search for dependencies in a directory that
                     # doesn't exist, so exit early.
-                    return False
+                    return ()
 
                 dirs = include.listdir()
 
-            found = False
-            for suffix in '.mli', '.ml':
+            found = []
+            for suffix in suffixes:
                 # Look for the traditional lowercase form.
                 path = module[0].lower() + module[1:] + suffix
                 if path not in dirs:
@@ -109,15 +109,18 @@ class Ocamldep(fbuild.db.PersistentObject):
                     deps.append(Path(path))
                 else:
                     deps.append(include / path)
-                found = True
+                found.append(suffix)
 
             return found
 
         modules = self.modules(src, **kwargs)
         for module in modules:
-            if not f(module, None):
+            found = f(module, None)
+            if '.ml' not in found:
+                # The implementation of an interface may be generated.
+                suffixes = ('.ml',) if found else ('.mli', '.ml')
                 for include in includes:
-                    f(module, include)
+                    f(module, include, suffixes)
 
         if src.endswith('.ml'):
             # The .mli file might not live right next to the .ml file. If we
@@ -693,15 +696,19 @@ class BytecodeBuilder(Builder):
         on."""
         deps = set()
         def f(src):
-            lookup = {}
-            for dep in self.ocamldep.source_dependencies(src,
-                    includes=includes,
-                    **kwargs):
-                base, ext = dep.splitext()
-                if ext == '.mli' or base not in lookup:
-                    lookup[base] = dep
+            source_deps = self.ocamldep.source_dependencies(src,
+                includes=includes,
+                **kwargs)
+
+            # Only the interface matters if there is one, which may not live
+            # right next to the implementation.
+            interfaces = {dep.name for dep in source_deps
+                if dep.endswith('.mli')}
+
+            for dep in source_deps:
+                if dep.endswith('.ml') and dep.name + 'i' in interfaces:
+                    continue
 
-            for dep in lookup.values():
                 # Don't scan this dependency if we've already scanned it.
                 if dep not in deps:
                     deps.add(dep)
-- 
2.43.0


From 645161b65cfb92622a945714892d9a9a8f307337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:54 +0000
Subject: [PATCH 61/62] fix: ctrl-c could hang the build, and ended one that
 was to ignore it

The signal handler put messages into the queue the main thread may just have
been using, and waited for tasks that may need a lock the main thread holds.
It also replaced handlers that cannot be called. The scheduler is now shut
down where the KeyboardInterrupt arrives.
---
 lib/fbuild/main.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/lib/fbuild/main.py b/lib/fbuild/main.py
index c5f2817..b325376 100644
--- a/lib/fbuild/main.py
+++ b/lib/fbuild/main.py
@@ -1,6 +1,5 @@
 import os
 import sys
-import signal
 import warnings
 
 # Make sure the current working directory is in the search path so we can find
@@ -152,18 +151,6 @@ def main(argv=None):
 
     ctx = parse_args(sys.argv if argv is None else argv)
 
-    # --------------------------------------------------------------------------
-    # Replace the ctrl-c signal handler with one that will shut down the
-    # scheduler before moving on.
-
-    old_handler = signal.getsignal(signal.SIGINT)
-
-    def handle_interrupt(signum, frame):
-        ctx.scheduler.shutdown()
-        old_handler(signum, frame)
-
-    signal.signal(signal.SIGINT, handle_interrupt)
-
     # --------------------------------------------------------------------------
 
     # If we don't wrap this in a try...finally block to shutdown the scheduler
@@ -201,6 +188,11 @@ def main(argv=None):
             # ourselves exiting functions with the lock still held.  This could
             # then cause deadlocks if that lock was ever acquired again.  Oiy.
             print('Interrupted, saving state...')
+
+            # Let the running tasks finish, so that what they did is saved. We
+            # must not do this inside of a signal handler: the code it
+            # interrupted may hold a lock that we or the tasks need.
+            ctx.scheduler.shutdown()
             raise
         else:
             # Only delete the temporary directory if the build succeeded.
-- 
2.43.0


From 7fa719d131d24efa3d5eaf37990c6ae9aa7e4e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:13 +0000
Subject: [PATCH 62/62] fix: a command ended by SIGINT interrupted the main
 thread a second time, which could hang it

---
 lib/fbuild/sched.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/fbuild/sched.py b/lib/fbuild/sched.py
index 74e1284..cf7d222 100644
--- a/lib/fbuild/sched.py
+++ b/lib/fbuild/sched.py
@@ -453,9 +453,8 @@ class Task:
             # needs log messages of its own.
             with logger.log_from_thread():
                 self.result = self.context.run(self.function, self.src)
-        except KeyboardInterrupt as e:
-            # The worker thread passes this on to the main thread.
-            self.exc = e
-            raise
         except BaseException as e:
+            # Whoever waits for this task gets it, the main thread in the end.
+            # That goes for a KeyboardInterrupt as well: interrupting the main
+            # thread on top of that would hit it while it is cleaning up.
             self.exc = e
-- 
2.43.0

