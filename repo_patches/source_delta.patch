From 4a67a731529afe5245b4ff775b8ff188566c1601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 01/26] fix: sync the snapshot to disk before it replaces the
 save file

---
 nodefinder/search/_controller.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index f504854..283a669 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -314,6 +314,9 @@ class Controller:
             ) as tmpf:
                 try:
                     io.save(self.state, tmpf.name)
+                    # Without this, the rename can reach the disk before the
+                    # data, leaving a damaged file after a power failure.
+                    os.fsync(tmpf.fileno())
                     os.rename(tmpf.name, self.save_file)
                     self.state.needs_saving = False
                 except Exception as exc:
-- 
2.43.0


From 2be2f0743091ed41f30e5a8bc033476f06ef071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 02/26] fix: keep periodic positions inside the half-open box
 despite rounding

---
 nodefinder/coordinate_system.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nodefinder/coordinate_system.py b/nodefinder/coordinate_system.py
index 3291463..b00813f 100644
--- a/nodefinder/coordinate_system.py
+++ b/nodefinder/coordinate_system.py
@@ -59,6 +59,8 @@ class CoordinateSystem(SimpleHDF5Mapping):
         frac = (pos - self._lower_limits) / self.size
         if self.periodic:
             frac %= 1
+            # The modulo of a tiny negative number is rounded to one.
+            frac = np.where(frac < 1, frac, 0.)
         return frac
 
     def get_pos(self, frac):
@@ -108,7 +110,9 @@ class CoordinateSystem(SimpleHDF5Mapping):
         boundary conditions for the periodic case.
         """
         if self.periodic:
-            return ((pos - self._lower_limits) %
-                    self.size) + self._lower_limits
+            res = ((pos - self._lower_limits) %
+                   self.size) + self._lower_limits
+            # The modulo of a tiny negative number is rounded to the size.
+            return np.where(res < self._upper_limits, res, self._lower_limits)
         else:
             return pos
-- 
2.43.0


From e572866e824c214d7ab2b82ab32d5aa21414b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 03/26] fix: queue objects which occur twice in the same list
 only once

---
 nodefinder/search/_queue.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/nodefinder/search/_queue.py b/nodefinder/search/_queue.py
index 549816c..ab93f2b 100644
--- a/nodefinder/search/_queue.py
+++ b/nodefinder/search/_queue.py
@@ -23,11 +23,9 @@ class ObjectQueue(HDF5Enabled, ABC):
     HDF5_ATTRIBUTES = ['objects']
 
     def __init__(self, objects=frozenset()):
-        all_objects = self.normalize(objects)
         self._queued_objects = Queue()
-        self._extend_queue(all_objects)
-
-        self._all_objects = set(all_objects)
+        self._all_objects = set()
+        self.add_objects(objects)
         self.needs_saving = True
 
     @abstractmethod
@@ -45,7 +43,8 @@ class ObjectQueue(HDF5Enabled, ABC):
         """
         Add new objects to the queue.
         """
-        new_objects = self.normalize(objects)
+        # The given objects can also contain duplicates among themselves.
+        new_objects = dict.fromkeys(self.normalize(objects))
         new_objects_filtered = [
             obj for obj in new_objects if obj not in self._all_objects
         ]
-- 
2.43.0


From 574e2b2603ff8e76c5195ba3963bc704180ec79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 04/26] fix: ignore all errors caused by a damaged save file
 with load_quiet

---
 nodefinder/search/_controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index 283a669..633d913 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -139,7 +139,8 @@ class Controller:
                 )
             try:
                 initial_state = io.load(self.save_file)
-            except IOError as exc:
+            except Exception as exc:  # pylint: disable=broad-except
+                # Damaged files can cause other errors than IOError.
                 if not load_quiet:
                     raise exc
         if initial_state is not None:
-- 
2.43.0


From d1b1c7ad7dc88ccf0ff06e9d947e9037ac6af044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 05/26] fix: cancel the other initial evaluations when one of
 them fails

---
 nodefinder/search/_minimization/_nelder_mead.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_minimization/_nelder_mead.py b/nodefinder/search/_minimization/_nelder_mead.py
index bafc0cb..9915542 100644
--- a/nodefinder/search/_minimization/_nelder_mead.py
+++ b/nodefinder/search/_minimization/_nelder_mead.py
@@ -113,7 +113,15 @@ async def root_nelder_mead(
     sim = np.array(initial_simplex)
     assert sim.shape == (N + 1, N)
 
-    fsim = np.array(await asyncio.gather(*[func(x) for x in sim]), dtype=float)
+    evaluations = [asyncio.ensure_future(func(x)) for x in sim]
+    try:
+        fsim = np.array(await asyncio.gather(*evaluations), dtype=float)
+    except BaseException:
+        # Don't leave the other evaluations running if one of them fails.
+        for fut in evaluations:
+            fut.cancel()
+        await asyncio.gather(*evaluations, return_exceptions=True)
+        raise
     assert fsim.shape == (N + 1, )
 
     ind = np.argsort(fsim)
-- 
2.43.0


From cfe929e325eee305e834e3ea6cd985fa137b9c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 06/26] fix: cancel the running minimizations when a search
 ends early

---
 nodefinder/search/_controller.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index 633d913..ba02c4f 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -187,7 +187,14 @@ class Controller:
         )
 
     async def run(self):
-        await self.create_tasks()
+        try:
+            await self.create_tasks()
+        finally:
+            # Minimizations are still running if there was an error, or the
+            # search was cancelled.
+            for fut in self.task_futures:
+                fut.cancel()
+            await asyncio.gather(*self.task_futures, return_exceptions=True)
 
     async def create_tasks(self):
         """
-- 
2.43.0


From 09bda88c7d97b8fed49ced8feab3a5d8796ded44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 07/26] fix: keep saving after a failed periodic save, and
 always save at the end

---
 nodefinder/search/_controller.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index ba02c4f..413c83b 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -195,12 +195,15 @@ class Controller:
             for fut in self.task_futures:
                 fut.cancel()
             await asyncio.gather(*self.task_futures, return_exceptions=True)
+            self.save()
 
     async def create_tasks(self):
         """
         Create minimization tasks until the calculation is finished.
         """
-        async with PeriodicTask(self.save, delay=self.save_delay):
+        async with PeriodicTask(
+            self.save_periodic, delay=self.save_delay, run_on_exit=False
+        ):
             while (
                 not self.state.simplex_queue.finished
             ) or self.state.position_queue.has_queued:
@@ -312,6 +315,18 @@ class Controller:
                     break
         return True
 
+    def save_periodic(self):
+        """
+        Save during the calculation. A failure must not stop the periodic
+        saving, since later attempts can succeed. The final save raises.
+        """
+        try:
+            self.save()
+        except Exception as exc:  # pylint: disable=broad-except
+            SEARCH_LOGGER.warning(
+                'Saving to {} failed: {!r}'.format(self.save_file, exc)
+            )
+
     def save(self):
         """
         Store the current ControllerState to the save file.
-- 
2.43.0


From 3cc12eb84e2de6f855c5615dd9a005b549ccea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 08/26] fix: end the search when KeyboardInterrupt or
 SystemExit leaves the loop

---
 nodefinder/search/_run.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index 32d7c54..85a88d2 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -175,13 +175,32 @@ def run(*args, **kwargs):
             res = res_queue.get()
         else:
             SEARCH_LOGGER.debug('Running in the current thread.')
-            res = loop.run_until_complete(run_async(*args, **kwargs))
+            res = _run_on_loop(loop, *args, **kwargs)
     finally:
         if close_loop:
             loop.close()
     return res
 
 
+def _run_on_loop(loop, *args, **kwargs):
+    """
+    Helper function that runs the search on a given loop. Exceptions such as
+    KeyboardInterrupt leave the loop while the search is still pending, in
+    which case it needs to be ended explicitly.
+    """
+    task = loop.create_task(run_async(*args, **kwargs))
+    try:
+        return loop.run_until_complete(task)
+    except BaseException:
+        if not task.done():
+            task.cancel()
+            try:
+                loop.run_until_complete(task)
+            except asyncio.CancelledError:
+                pass
+        raise
+
+
 def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
     """
     Helper function that runs the search function, to be used as a thread target.
@@ -189,7 +208,7 @@ def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
     """
     try:
         loop = asyncio.new_event_loop()
-        res = loop.run_until_complete(run_async(*args, **kwargs))
+        res = _run_on_loop(loop, *args, **kwargs)
         loop.close()
         res_queue.put(res)
     except Exception as exc:
-- 
2.43.0


From 0c9f2a7424a8a44e4ddbeed249ecdef753ea9bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 09/26] fix: pass any exception of the search thread on to the
 caller, and close its loop

---
 nodefinder/search/_run.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index 85a88d2..600e3d8 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -208,9 +208,12 @@ def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
     """
     try:
         loop = asyncio.new_event_loop()
-        res = _run_on_loop(loop, *args, **kwargs)
-        loop.close()
+        try:
+            res = _run_on_loop(loop, *args, **kwargs)
+        finally:
+            loop.close()
         res_queue.put(res)
-    except Exception as exc:
+    except BaseException as exc:  # pylint: disable=broad-except
+        # The exception is raised again in the calling thread, which would
+        # otherwise wait for the result forever.
         exc_queue.put(exc)
-        raise
-- 
2.43.0


From 8ce070068de8e1bcb7a905e394b72ff5b106c79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 10/26] fix: save the final state also when an interrupt passes
 nested tasks

---
 nodefinder/search/_run.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index 600e3d8..0d95ba8 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -194,9 +194,12 @@ def _run_on_loop(loop, *args, **kwargs):
     except BaseException:
         if not task.done():
             task.cancel()
+        # The exception leaves the loop again for each of the nested tasks
+        # which it passes through.
+        while not task.done():
             try:
                 loop.run_until_complete(task)
-            except asyncio.CancelledError:
+            except BaseException:  # pylint: disable=broad-except
                 pass
         raise
 
-- 
2.43.0


From 9bd68b922284a6afe2db421d2350c39a67b0aff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 11/26] fix: report the function value at the final position
 even if others are NaN

---
 nodefinder/search/_minimization/_nelder_mead.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_minimization/_nelder_mead.py b/nodefinder/search/_minimization/_nelder_mead.py
index 9915542..e64ef0f 100644
--- a/nodefinder/search/_minimization/_nelder_mead.py
+++ b/nodefinder/search/_minimization/_nelder_mead.py
@@ -209,7 +209,8 @@ async def root_nelder_mead(
             simplex_history[0] = np.copy(sim)
 
     x = sim[0]
-    fval = np.min(fsim)
+    # 'fsim' is sorted, with possible NaN values at the end
+    fval = fsim[0]
     warnflag = 0
 
     if fcalls[0] >= maxfun:
-- 
2.43.0


From 5165434b96d0108f9c6352b0261ffebe0fd14cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 12/26] fix: count each neighbour only once when a periodic box
 has few cells

---
 nodefinder/search/result/_cell_list.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_cell_list.py b/nodefinder/search/result/_cell_list.py
index 1d6c232..6026d65 100644
--- a/nodefinder/search/result/_cell_list.py
+++ b/nodefinder/search/result/_cell_list.py
@@ -50,7 +50,12 @@ class CellList:
         indices = idx + self._neighbour_offset
 
         if self.periodic:
-            return [tuple(i % self._total_num_cells) for i in indices]
+            # With less than three cells, a cell can occur more than once.
+            return list(
+                dict.fromkeys(
+                    tuple(i % self._total_num_cells) for i in indices
+                )
+            )
         return [
             tuple(i) for i in indices
             if np.all(i >= 0) and np.all(i < self._total_num_cells)
-- 
2.43.0


From 1da9c3b52b548882ac69c7eb8e4aadf736f1deb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 13/26] fix: remember the finished objects of the queues when
 restarting a search

---
 nodefinder/search/_controller.py | 17 ++++++++++-------
 nodefinder/search/_queue.py      | 28 ++++++++++++++++++++--------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index 413c83b..993473d 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -151,18 +151,21 @@ class Controller:
                 dist_cutoff=dist_cutoff,
                 refined_results=initial_state.result.refined_results
             )
-            simplex_queue = SimplexQueue(
-                objects=initial_state.simplex_queue.objects
-            )
-            position_queue = PositionQueue(
-                objects=initial_state.position_queue.objects
-            )
+            simplices = list(initial_state.simplex_queue.objects)
             if force_initial_mesh:
-                simplex_queue.add_objects(
+                simplices.extend(
                     self.get_initial_simplices(
                         initial_mesh_size=initial_mesh_size
                     )
                 )
+            simplex_queue = SimplexQueue(
+                objects=simplices,
+                known_objects=initial_state.simplex_queue.known_objects
+            )
+            position_queue = PositionQueue(
+                objects=initial_state.position_queue.objects,
+                known_objects=initial_state.position_queue.known_objects
+            )
         else:
             result = SearchResultContainer(
                 coordinate_system=self.coordinate_system,
diff --git a/nodefinder/search/_queue.py b/nodefinder/search/_queue.py
index ab93f2b..a1cdaab 100644
--- a/nodefinder/search/_queue.py
+++ b/nodefinder/search/_queue.py
@@ -21,11 +21,13 @@ class ObjectQueue(HDF5Enabled, ABC):
     """
 
     HDF5_ATTRIBUTES = ['objects']
+    HDF5_OPTIONAL = ['known_objects']
 
-    def __init__(self, objects=frozenset()):
+    def __init__(self, objects=frozenset(), known_objects=frozenset()):
         self._queued_objects = Queue()
         self._all_objects = set()
         self.add_objects(objects)
+        self._all_objects.update(self.normalize(known_objects))
         self.needs_saving = True
 
     @abstractmethod
@@ -36,6 +38,13 @@ class ObjectQueue(HDF5Enabled, ABC):
     def objects(self):
         return list(self._queued_objects.queue)
 
+    @property
+    def known_objects(self):
+        """
+        All objects which will not be queued again, including finished ones.
+        """
+        return sorted(self._all_objects)
+
     def pop_queued(self):
         return self._queued_objects.get_nowait()
 
@@ -70,14 +79,17 @@ class ObjectQueue(HDF5Enabled, ABC):
 
     @classmethod
     def from_hdf5(cls, hdf5_handle):
-        # try:
         objects = np.array(hdf5_handle['objects'])
-        # except
-        return cls(objects=objects)
+        # Not contained in files created by older versions.
+        if 'known_objects' in hdf5_handle:
+            known_objects = np.array(hdf5_handle['known_objects'])
+        else:
+            known_objects = ()
+        return cls(objects=objects, known_objects=known_objects)
 
     def to_hdf5(self, hdf5_handle):
-        objects = np.array(self.objects)
-        hdf5_handle['objects'] = objects
+        hdf5_handle['objects'] = np.array(self.objects)
+        hdf5_handle['known_objects'] = np.array(self.known_objects)
 
 
 class RunningQueue(ObjectQueue, HDF5Enabled):  # pylint: disable=abstract-method
@@ -87,8 +99,8 @@ class RunningQueue(ObjectQueue, HDF5Enabled):  # pylint: disable=abstract-method
     need to be set to 'finished' to be removed from the queue. When reloading
     the queue, all running objects are put back into the queue.
     """
-    def __init__(self, objects=frozenset()):
-        super().__init__(objects=objects)
+    def __init__(self, objects=frozenset(), known_objects=frozenset()):
+        super().__init__(objects=objects, known_objects=known_objects)
         self._running_objects = set()
 
     @property
-- 
2.43.0


From 57cac33e2b91390630becb7b0e3b58fbb007604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 14/26] fix: end the search in the other thread when its caller
 is interrupted

---
 nodefinder/search/_run.py | 51 ++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index 0d95ba8..6ec5440 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -8,8 +8,8 @@ Defines the function which runs the search step.
 
 import queue
 import asyncio
+import contextlib
 import threading
-from functools import partial
 from types import MappingProxyType
 
 from fsc.export import export
@@ -155,64 +155,71 @@ def run(*args, **kwargs):
     try:
         if loop.is_running():
             SEARCH_LOGGER.debug('Running in a separate thread.')
+            search = run_async(*args, **kwargs)
             res_queue = queue.Queue()
             exc_queue = queue.Queue()
+            thread_loop = asyncio.new_event_loop()
+            task = thread_loop.create_task(search)
             thread = threading.Thread(
-                target=partial(
-                    _run_in_thread,
-                    *args,
-                    res_queue=res_queue,
-                    exc_queue=exc_queue,
-                    **kwargs
-                )
+                target=_run_in_thread,
+                args=(thread_loop, task, res_queue, exc_queue)
             )
             SEARCH_LOGGER.debug('Starting thread.')
             thread.start()
             SEARCH_LOGGER.debug('Joining thread.')
-            thread.join()
+            try:
+                thread.join()
+            except BaseException:
+                # Don't leave the search running if the caller is interrupted.
+                # The loop is already closed if the search has just ended.
+                with contextlib.suppress(RuntimeError):
+                    thread_loop.call_soon_threadsafe(task.cancel)
+                thread.join()
+                raise
             if not exc_queue.empty():
                 raise exc_queue.get()
             res = res_queue.get()
         else:
             SEARCH_LOGGER.debug('Running in the current thread.')
-            res = _run_on_loop(loop, *args, **kwargs)
+            task = loop.create_task(run_async(*args, **kwargs))
+            res = _run_on_loop(loop, task)
     finally:
         if close_loop:
             loop.close()
     return res
 
 
-def _run_on_loop(loop, *args, **kwargs):
+def _run_on_loop(loop, task):
     """
-    Helper function that runs the search on a given loop. Exceptions such as
-    KeyboardInterrupt leave the loop while the search is still pending, in
+    Helper function that runs the search task on a given loop. Exceptions such
+    as KeyboardInterrupt leave the loop while the search is still pending, in
     which case it needs to be ended explicitly.
     """
-    task = loop.create_task(run_async(*args, **kwargs))
     try:
         return loop.run_until_complete(task)
     except BaseException:
-        if not task.done():
-            task.cancel()
+        task.cancel()
         # The exception leaves the loop again for each of the nested tasks
-        # which it passes through.
-        while not task.done():
+        # which it passes through. The last call removes what an interrupted
+        # call can leave behind on the loop.
+        while True:
             try:
                 loop.run_until_complete(task)
             except BaseException:  # pylint: disable=broad-except
                 pass
+            if task.done():
+                break
         raise
 
 
-def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
+def _run_in_thread(loop, task, res_queue, exc_queue):
     """
-    Helper function that runs the search function, to be used as a thread target.
+    Helper function that runs the search task, to be used as a thread target.
     This assumes that no (running or other) loop exists.
     """
     try:
-        loop = asyncio.new_event_loop()
         try:
-            res = _run_on_loop(loop, *args, **kwargs)
+            res = _run_on_loop(loop, task)
         finally:
             loop.close()
         res_queue.put(res)
-- 
2.43.0


From cac980a7de0a6e9da89ed5471e408f1b74a6da22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 15/26] fix: save the final state also when the search is
 cancelled twice

---
 nodefinder/search/_controller.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index 993473d..071684e 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -197,8 +197,13 @@ class Controller:
             # search was cancelled.
             for fut in self.task_futures:
                 fut.cancel()
-            await asyncio.gather(*self.task_futures, return_exceptions=True)
-            self.save()
+            try:
+                await asyncio.gather(
+                    *self.task_futures, return_exceptions=True
+                )
+            finally:
+                # Also if the search is cancelled again while it is ending.
+                self.save()
 
     async def create_tasks(self):
         """
-- 
2.43.0


From a3fa310c09d8bda6fdcb5eb5d9496c869ad42bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 16/26] fix: let the periodic saving start before it can be
 ended

---
 nodefinder/search/_controller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index 071684e..292c0d0 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -212,6 +212,8 @@ class Controller:
         async with PeriodicTask(
             self.save_periodic, delay=self.save_delay, run_on_exit=False
         ):
+            # PeriodicTask can be ended reliably only after it has started.
+            await asyncio.sleep(0.)
             while (
                 not self.state.simplex_queue.finished
             ) or self.state.position_queue.has_queued:
-- 
2.43.0


From 33322c1068adef5a4324ee3dc3671c1c58fcc088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:31 +0000
Subject: [PATCH 17/26] fix: load identification results also with current
 versions of h5py

---
 nodefinder/identify/result/_containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/identify/result/_containers.py b/nodefinder/identify/result/_containers.py
index 22b5062..9cbf4a9 100644
--- a/nodefinder/identify/result/_containers.py
+++ b/nodefinder/identify/result/_containers.py
@@ -83,10 +83,10 @@ class IdentificationResult(SimpleNamespace, HDF5Enabled):
         shape = from_hdf5(hdf5_handle['shape'])
         try:
             dimension = hdf5_handle['dimension'][()]
-        except AttributeError:
+        except (AttributeError, TypeError):
             dimension = from_hdf5(hdf5_handle['dimension'])
         try:
             positions = [tuple(x) for x in hdf5_handle['positions'][()]]
-        except AttributeError:
+        except (AttributeError, TypeError):
             positions = from_hdf5(hdf5_handle['positions'])
         return cls(positions=positions, dimension=dimension, shape=shape)
-- 
2.43.0


From 1cb32c4e554eee9e33285d442906b3c7f18100c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:03 +0000
Subject: [PATCH 18/26] fix: draw neighbours from a sequence when calculating
 the dimension

---
 nodefinder/identify/_dimension.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nodefinder/identify/_dimension.py b/nodefinder/identify/_dimension.py
index e87d207..a198793 100644
--- a/nodefinder/identify/_dimension.py
+++ b/nodefinder/identify/_dimension.py
@@ -154,8 +154,11 @@ def _has_dimension(
         ) - used_tuples
         num_draws = 10
         while neighbour_tuples:
+            # random.sample only works with sequences; the order must not
+            # depend on the hashes.
             vals = random.sample(
-                neighbour_tuples, min(num_draws, len(neighbour_tuples))
+                sorted(neighbour_tuples),
+                min(num_draws, len(neighbour_tuples))
             )
             yield from vals
             neighbour_tuples -= set(vals)
-- 
2.43.0


From 4321c4898da1f65a173cb01ec4ff29be1c85641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:19 +0000
Subject: [PATCH 19/26] fix: take the default feature size from the result
 inside a controller state

---
 nodefinder/identify/_run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/identify/_run.py b/nodefinder/identify/_run.py
index 233b13a..1ab7379 100644
--- a/nodefinder/identify/_run.py
+++ b/nodefinder/identify/_run.py
@@ -30,10 +30,10 @@ def run(result, feature_size=None, evaluate_line_method='ballistic'):
         Distance between two nodal points at which they are considered distinct.
         Uses the ``feature_size`` used in the search step by default.
     """
-    if feature_size is None:
-        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR
     if isinstance(result, ControllerState):
         result = result.result
+    if feature_size is None:
+        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR
     positions = [node.pos for node in result.nodes]
     coordinate_system = result.coordinate_system
     return run_from_positions(
-- 
2.43.0


From 902ac46b4d2a59b9f4a4808c3f9536cdb3321fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:19 +0000
Subject: [PATCH 20/26] fix: keep the average of periodic positions inside the
 limits

---
 nodefinder/coordinate_system.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nodefinder/coordinate_system.py b/nodefinder/coordinate_system.py
index b00813f..cb7e776 100644
--- a/nodefinder/coordinate_system.py
+++ b/nodefinder/coordinate_system.py
@@ -102,7 +102,9 @@ class CoordinateSystem(SimpleHDF5Mapping):
         else:
             origin = positions[0]
             deltas = [self.connecting_vector(origin, pos) for pos in positions]
-            return (origin + np.average(deltas, axis=0)) % self.size
+            return self.normalize_position(
+                origin + np.average(deltas, axis=0)
+            )
 
     def normalize_position(self, pos):
         """
-- 
2.43.0


From 0e17707bdd7161ca2526933387f6fc9a80c617eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:19 +0000
Subject: [PATCH 21/26] fix: use the weighted graph in the dominating set
 method

---
 nodefinder/identify/_evaluate/_line/_dominating_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nodefinder/identify/_evaluate/_line/_dominating_set.py b/nodefinder/identify/_evaluate/_line/_dominating_set.py
index 6da810d..0e929c2 100644
--- a/nodefinder/identify/_evaluate/_line/_dominating_set.py
+++ b/nodefinder/identify/_evaluate/_line/_dominating_set.py
@@ -36,7 +36,8 @@ def _evaluate_line_dominating_set(*, graph, coordinate_system, feature_size):
             graph_reduced_neighbours.add_edge(*edge)
 
     dominating_set = nx.algorithms.dominating_set(graph_reduced_neighbours)
-    subgraph = graph.subgraph(dominating_set).copy()
+    # The weights are only defined on the copy.
+    subgraph = graph_copy.subgraph(dominating_set).copy()
 
     _patch_all_subgraph_holes(
         subgraph=subgraph,
-- 
2.43.0


From c480221c39633baedb6ccf85460db8b925e5bbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:23 +0000
Subject: [PATCH 22/26] fix: allow disconnected candidates in the dominating
 set method

---
 .../_evaluate/_line/_dominating_set.py        | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/nodefinder/identify/_evaluate/_line/_dominating_set.py b/nodefinder/identify/_evaluate/_line/_dominating_set.py
index 0e929c2..8585ba3 100644
--- a/nodefinder/identify/_evaluate/_line/_dominating_set.py
+++ b/nodefinder/identify/_evaluate/_line/_dominating_set.py
@@ -77,7 +77,7 @@ def _patch_all_subgraph_holes(
             np.array(pos1), np.array(pos2)
         )
         if dist_minimal < 2 * feature_size:
-            dist_reduced = nx.algorithms.shortest_path_length(
+            dist_reduced = _get_path_length(
                 subgraph, pos1, pos2, weight=weight
             )
             if dist_reduced > max(feature_size, patch_cutoff * dist_minimal):
@@ -94,9 +94,7 @@ def _patch_all_subgraph_holes(
     to_patch = sorted(to_patch, key=operator.attrgetter('dist_original'))
     for edge, dist_original in to_patch:
         # might have changed since the subgraph is being patched
-        dist_reduced = nx.algorithms.shortest_path_length(
-            subgraph, *edge, weight=_DISTANCE_KEY
-        )
+        dist_reduced = _get_path_length(subgraph, *edge, weight=_DISTANCE_KEY)
         if dist_reduced > 2 * dist_original:
             IDENTIFY_LOGGER.debug(
                 'Patching hole {} in sub-graph.'.format(edge)
@@ -107,6 +105,19 @@ def _patch_all_subgraph_holes(
             )
 
 
+def _get_path_length(graph, start, end, *, weight):
+    """
+    Length of the shortest path between two nodes, which is infinite if they
+    are not connected.
+    """
+    try:
+        return nx.algorithms.shortest_path_length(
+            graph, start, end, weight=weight
+        )
+    except nx.NetworkXNoPath:
+        return float('inf')
+
+
 def _patch_subgraph_hole(*, subgraph, graph, start, end):
     """
     Patch a single hole in the subgraph between the given start and end points.
-- 
2.43.0


From 9dd06dcba3b1a51fe97f264048a5ac5f4c6820ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:41 +0000
Subject: [PATCH 23/26] fix: do not let HDF5 write to disk when saving, its
 errors are lost or crash the interpreter

A single failing write during io.save could leave a truncated file without an error, and usually ended
the process with a segmentation fault, because HDF5 cannot handle errors of its own file driver.
---
 nodefinder/io.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/nodefinder/io.py b/nodefinder/io.py
index 67f1c26..f2bc9dc 100644
--- a/nodefinder/io.py
+++ b/nodefinder/io.py
@@ -5,10 +5,35 @@
 """
 Defines free functions to serialize / deserialize nodefinder objects to HDF5.
 
-These are aliases for the functions defined in :mod:`fsc.hdf5_io`, meaning that
-they can also handle other objects which are registered with the same system.
+These use the functions defined in :mod:`fsc.hdf5_io`, meaning that they can
+also handle other objects which are registered with the same system.
 """
 
-from fsc.hdf5_io import save, load
+import h5py
+from fsc.hdf5_io import load, to_hdf5
 
 __all__ = ['save', 'load']
+
+
+def save(obj, hdf5_file):
+    """
+    Saves the object to a file, in HDF5 format.
+
+    Arguments
+    ---------
+    obj :
+        The object to be saved.
+    hdf5_file : str
+        Path of the file.
+    """
+    # When HDF5 itself fails to write to a file (e.g. because the disk is
+    # full), the error can go unnoticed or crash the interpreter. For this
+    # reason, it only creates the content of the file.
+    with h5py.File(
+        hdf5_file, 'w', driver='core', backing_store=False
+    ) as hdf5_handle:
+        to_hdf5(obj, hdf5_handle)
+        hdf5_handle.flush()
+        content = hdf5_handle.id.get_file_image()
+    with open(hdf5_file, 'wb') as file_handle:
+        file_handle.write(content)
-- 
2.43.0


From f627b76c1afa7dcc0ae7228b87e5f6297c89f1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:13 +0000
Subject: [PATCH 24/26] fix: do not hang if an interrupt ends the search task
 itself

---
 nodefinder/search/_run.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index 6ec5440..f19257a 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -202,7 +202,7 @@ def _run_on_loop(loop, task):
         # The exception leaves the loop again for each of the nested tasks
         # which it passes through. The last call removes what an interrupted
         # call can leave behind on the loop.
-        while True:
+        while not _left_loop(task):
             try:
                 loop.run_until_complete(task)
             except BaseException:  # pylint: disable=broad-except
@@ -212,6 +212,16 @@ def _run_on_loop(loop, task):
         raise
 
 
+def _left_loop(task):
+    """
+    Helper function to check if the task itself has ended with an exception
+    that leaves the loop. A loop never stops when asked to complete such a task.
+    """
+    return task.done() and not task.cancelled() and isinstance(
+        task.exception(), (KeyboardInterrupt, SystemExit)
+    )
+
+
 def _run_in_thread(loop, task, res_queue, exc_queue):
     """
     Helper function that runs the search task, to be used as a thread target.
-- 
2.43.0


From f511aa58537c51210fcf735a6806de3537933d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 25/26] fix: keep writing to the same save file when the
 working directory changes

A relative 'save_file' was looked up anew for every save: if the gap function
changes the working directory, the results were stored in (and the temporary
file created in) another directory, and the file given by the user kept its
old contents.
---
 nodefinder/search/_controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index 292c0d0..39a4a08 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -67,7 +67,8 @@ class Controller:
         self.dim, initial_mesh_size = self.check_dimensions(
             limits, initial_mesh_size
         )
-        self.save_file = save_file
+        # The working directory can change while the search is running.
+        self.save_file = os.path.abspath(save_file) if save_file else save_file
         self.save_delay = save_delay
 
         self.dist_cutoff = feature_size / _DIST_CUTOFF_FACTOR
-- 
2.43.0


From 12b90da70043109a9ae6065c7119514e4fc29975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:25 +0000
Subject: [PATCH 26/26] fix: Do not change the warnings filters of the process
 in a minimisation

warnings.catch_warnings is not thread-safe: when searches run in several
threads, a minimisation could restore the list of another one, such that
all warnings of the process were ignored from then on.
---
 nodefinder/search/_minimization/_nelder_mead.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/nodefinder/search/_minimization/_nelder_mead.py b/nodefinder/search/_minimization/_nelder_mead.py
index e64ef0f..623458e 100644
--- a/nodefinder/search/_minimization/_nelder_mead.py
+++ b/nodefinder/search/_minimization/_nelder_mead.py
@@ -14,7 +14,6 @@
 # pylint: skip-file
 
 import asyncio
-import warnings
 import itertools
 
 import numpy as np
@@ -142,10 +141,10 @@ async def root_nelder_mead(
             and _get_fprime_estimate(sim=sim, fval=fsim[0]) > fprime_cutoff
         ):
             break
-        with warnings.catch_warnings():
-            # Ignore subtraction 'inf - inf' in fsim, since it will correctly
-            # evaluate to False.
-            warnings.simplefilter('ignore')
+        # Ignore subtraction 'inf - inf' in fsim, since it will correctly
+        # evaluate to False. The warnings filters belong to the process, and
+        # searches can run in several threads.
+        with np.errstate(all='ignore'):
             if (
                 np.max(np.ravel(np.abs(sim[1:] - sim[0]))) <= xtol
                 and np.max(np.abs(fsim[0] - fsim[1:])) <= ftol
-- 
2.43.0

