From 721cff63dc7af8eb79692ab8450baa1c7fe433d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 01/53] fix: spawning stopped with nobody alive is an orderly
 end, not a crash

_fill_optimizer_slots raised 'Not enough worker slots' when the selector stopped
spawning while no optimizer was alive, or when the last optimizer ended between
its two scans.
---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 967cb86..f15f104 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1256,7 +1256,7 @@ class GloMPOManager:
                                   'max_jobs': self.max_jobs,
                                   'f': self.f_counter,
                                   'f_best': f_best})
-        elif len(processes) == 0:
+        elif count == 0 and self.spawning_opts:
             raise RuntimeError("Not enough worker slots to start any optimizers with the current settings.")
 
     def _start_new_job(self, opt_id: int, optimizer: BaseOptimizer, call_kwargs: Dict[str, Any],
-- 
2.43.0


From fb52c01804735f64b4bf966c4efd0519e52c885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 02/53] fix: keep the log of an optimizer until all of its
 signals are processed

The in-memory record of an optimizer was deleted when its end-of-results marker
was read. Its convergence signal, messages or end condition, processed later,
then raised KeyError and crashed the run. n_optimizers shrank as well.
---
 glompo/core/manager.py         | 17 +++++++++++++----
 glompo/core/optimizerlogger.py |  2 +-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index f15f104..f193161 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -290,6 +290,7 @@ class GloMPOManager:
         self.hunt_victims: Dict[int, float] = {}  # opt_ids of killed jobs and timestamps when the signal was sent
         self._optimizer_packs: Dict[int, ProcessPackage] = {}  # Dictionary of living or recently living optimizers.
         self._graveyard: Set[int] = set()
+        self._closed_opts: Set[int] = set()  # Optimizers from which all iterations were received
         self._last_feedback: Dict[int, float] = {}
         self._opt_checkpoints: Dict[int, OptimizerCheckpoint] = {}  # Type & slots of every opt for checkpt loading
 
@@ -1015,6 +1016,7 @@ class GloMPOManager:
                 for opt_id, pack in [*self._optimizer_packs.items()]:
                     if not pack.process.is_alive() and opt_id in self._graveyard:
                         del self._optimizer_packs[opt_id]
+                self._clear_closed_logs()
 
                 all_dead = len([p for p in self._optimizer_packs.values() if p.process.is_alive()]) == 0
                 checker_condition = self.convergence_checker(self)
@@ -1479,10 +1481,9 @@ class GloMPOManager:
 
             for res in chunk:
                 if isinstance(res, int):
-                    if self.result.origin and self.result.origin['opt_id'] != res:
-                        # Optimizers automatically send just an opt_id to indicated no more iterations.
-                        self.opt_log.clear_cache(res)
-                        closed.add(res)
+                    # Optimizers automatically send just an opt_id to indicated no more iterations.
+                    self._closed_opts.add(res)
+                    closed.add(res)
                     continue
 
                 if res.opt_id in self.hunt_victims:
@@ -1522,6 +1523,14 @@ class GloMPOManager:
 
         return closed, victims
 
+    def _clear_closed_logs(self):
+        """ Frees the memory used by optimizers of which nothing more is expected, except that of the incumbent. """
+        best_id = self.result.origin['opt_id'] if self.result.origin else None
+        for opt_id in [*self._closed_opts]:
+            if opt_id not in self._optimizer_packs and opt_id != best_id:
+                self.opt_log.clear_cache(opt_id)
+                self._closed_opts.remove(opt_id)
+
     def _start_hunt(self, hunter_id: int) -> Set[int]:
         """ Creates a new hunt with the provided :obj:`hunter_id` as the 'best' optimizer looking to terminate
             the other active optimizers according to the provided :attr:`killing_conditions`.
diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 7040bec..32d2642 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -36,7 +36,7 @@ class BaseLogger:
     @property
     def n_optimizers(self) -> int:
         """ Returns the number of optimizers in the log. """
-        return len(self._storage)
+        return len(self._best_iters) - 1
 
     @property
     def largest_eval(self) -> float:
-- 
2.43.0


From 75aa15fe47781a242f3b1c717c30c8f067934f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 03/53] fix: record all results and ends before stopping
 because nobody is alive

When the last optimizer ended after spawning had stopped, the run ended although
results were still in the queue and convergence signals unread: evaluations (even
the best one) were lost and converged optimizers recorded as 'GloMPO Convergence'.
---
 glompo/core/manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index f193161..3922ff0 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1018,7 +1018,11 @@ class GloMPOManager:
                         del self._optimizer_packs[opt_id]
                 self._clear_closed_logs()
 
-                all_dead = len([p for p in self._optimizer_packs.values() if p.process.is_alive()]) == 0
+                # Only finished when the ends and results of all optimizers have been recorded
+                all_dead = len(self._optimizer_packs) == 0
+                if all_dead and self.optimizer_queue.empty() and self.optimizer_queue.has_cache():
+                    self.optimizer_queue.flush(block=False)
+                all_dead = all_dead and self.optimizer_queue.empty()
                 checker_condition = self.convergence_checker(self)
 
                 if checker_condition:
-- 
2.43.0


From fd66a3a8c69e52b31867cbaa65bfceb1ba71bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 04/53] fix: read the remaining signals of an optimizer which
 ended in error

Its messages (including the traceback which flags the crash) and a convergence
signal sent before were lost when the manager noticed the exit code first.
---
 glompo/core/manager.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 3922ff0..ae276d4 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1401,19 +1401,20 @@ class GloMPOManager:
             # Find dead optimizer processes that did not properly signal their termination.
             if opt_id not in self._graveyard and not pack.process.is_alive():
                 exitcode = pack.process.exitcode
-                if exitcode == 0:
-                    if not self._check_signals(opt_id):
-                        self.conv_counter += 1
-                        self._graveyard.add(opt_id)
-                        self.opt_log.put_message(opt_id, "Terminated normally without sending a minimization "
-                                                         "complete signal to the manager.")
-                        warnings.warn(f"Optimizer {opt_id} terminated normally without sending a "
-                                      f"minimization complete signal to the manager.", RuntimeWarning)
-                        self.logger.warning("Optimizer %d terminated normally without sending a minimization complete "
-                                            "signal to the manager.", opt_id)
-                        self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
-                        self.opt_log.put_metadata(opt_id, "end_cond", "Normal termination (Reason unknown)")
-                else:
+                while self._check_signals(opt_id):
+                    pass  # Record everything the optimizer sent before it ended
+                if opt_id not in self._graveyard and exitcode == 0:
+                    self.conv_counter += 1
+                    self._graveyard.add(opt_id)
+                    self.opt_log.put_message(opt_id, "Terminated normally without sending a minimization "
+                                                     "complete signal to the manager.")
+                    warnings.warn(f"Optimizer {opt_id} terminated normally without sending a "
+                                  f"minimization complete signal to the manager.", RuntimeWarning)
+                    self.logger.warning("Optimizer %d terminated normally without sending a minimization complete "
+                                        "signal to the manager.", opt_id)
+                    self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
+                    self.opt_log.put_metadata(opt_id, "end_cond", "Normal termination (Reason unknown)")
+                elif opt_id not in self._graveyard:
                     self._graveyard.add(opt_id)
                     self.opt_log.put_message(opt_id, f"Terminated in error with code {-exitcode}")
                     warnings.warn(f"Optimizer {opt_id} terminated in error with code {-exitcode}",
-- 
2.43.0


From b97ddd7fea9b753e196b86451cf304e0f718f0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:03 +0000
Subject: [PATCH 05/53] fix: keep emptying the results queue while waiting for
 optimizers to stop

The queue was purged once. Optimizers which filled it again before looking at the
stop signal blocked forever, and with threads so did the manager's join.
---
 glompo/core/manager.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index ae276d4..27f817d 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1660,13 +1660,7 @@ class GloMPOManager:
         except Exception as e:
             self.logger.debug("Pipe messaging failed during cleanup.", exc_info=e)
 
-        # Purge the queue to ensure no optimizers are blocking
-        try:
-            while not self.optimizer_queue.empty():
-                self.optimizer_queue.get_nowait()
-        except Exception as e:
-            # Queue may not be accessible in a crash
-            self.logger.debug("Queue purge failed.", exc_info=e)
+        self._purge_queue()
 
         for opt_id, pack in self._optimizer_packs.items():
             # Add stop condition to logs without overwriting existing ones
@@ -1680,7 +1674,7 @@ class GloMPOManager:
                                           crash_reason if crash_reason else "GloMPO Convergence")
 
             if pack.process.is_alive():
-                pack.process.join(timeout=self.end_timeout if not crash_reason else 0.1)
+                self._join_child(pack, self.end_timeout if not crash_reason else 0.1)
                 if pack.process.is_alive():
                     if self.proc_backend:
                         self.logger.info("Termination signal sent to optimizer %d", opt_id)
@@ -1689,6 +1683,22 @@ class GloMPOManager:
                         self.logger.warning("Could not join optimizer %d. May crash out with it still running and thus "
                                             "generate errors. Terminations cannot be sent to threads.", opt_id)
 
+    def _purge_queue(self):
+        """ Discards the contents of the queue to ensure no optimizers are blocking. """
+        try:
+            while not self.optimizer_queue.empty():
+                self.optimizer_queue.get_nowait()
+        except Exception as e:
+            # Queue may not be accessible in a crash
+            self.logger.debug("Queue purge failed.", exc_info=e)
+
+    def _join_child(self, pack: ProcessPackage, timeout: Optional[float]):
+        """ Joins a child while discarding results, so that none is blocked by a full queue and unable to stop. """
+        t_start = time()
+        while pack.process.is_alive() and (timeout is None or time() - t_start < timeout):
+            pack.process.join(timeout=0.1 if timeout is None else min(0.1, timeout))
+            self._purge_queue()
+
     def _save_log(self, result: Result, reason: str, caught_exception: Optional[str], dump_dir: Path,
                   summary_files: int):
         """ Saves the manager's state and history into the collection of files indicated by :obj:`summary_files`.
-- 
2.43.0


From 48042da9104eb69f5f1cfedb19adb06438e550ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 06/53] fix: checkpoint the log after all results of the paused
 optimizers are in it

The log was saved before the outstanding results were processed and results in the
cache of the queue were not processed at all, so the log in the checkpoint was
behind the manager's counters and the saved state of the optimizers.
---
 glompo/core/manager.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 27f817d..828c57d 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1131,11 +1131,6 @@ class GloMPOManager:
         ovw_path = path.parent / '_overwriting_chkpt.tar.gz'
 
         try:
-            # Flush logger
-            self.opt_log.flush()
-            self.opt_log.checkpoint_save(path)
-            self.logger.debug("Log successfully pickled")
-
             # Save timestamp and checkpoint name
             if len(self.dt_starts) > 0:
                 if len(self.dt_starts) == len(self.dt_ends):
@@ -1145,6 +1140,12 @@ class GloMPOManager:
             self.checkpoint_history.add(str(path.resolve().with_suffix('.tar.gz')))
 
             self._checkpoint_optimizers(path)
+
+            # Flush logger
+            self.opt_log.flush()
+            self.opt_log.checkpoint_save(path)
+            self.logger.debug("Log successfully pickled")
+
             self._checkpoint_manager(path)
             self._checkpoint_task(path)
 
@@ -1873,13 +1874,16 @@ class GloMPOManager:
         self.logger.info("Optimizers paused and synced.")
 
         # Process outstanding results and hunts
-        closed, victims = self._process_results()
-        [not_chkpt.add(cld) for cld in closed]
-        [not_chkpt.add(vic) for vic in victims]
+        results_pending = True
+        while results_pending:
+            closed, victims = self._process_results()
+            [not_chkpt.add(cld) for cld in closed]
+            [not_chkpt.add(vic) for vic in victims]
+            results_pending = self.optimizer_queue.has_cache()
+            if results_pending and self.optimizer_queue.empty():
+                self.optimizer_queue.flush(block=False)
         self.logger.info("Outstanding results processed")
 
-        assert self.optimizer_queue.empty()
-
         # Send checkpoint_save signals
         (path / 'optimizers').mkdir()
         for opt_id in messaged:
-- 
2.43.0


From 34ddfa2c71ae362a89a71a7aa9b6562ac748cea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 07/53] fix: treat signals received while checkpointing like
 any other

A message sent by an optimizer to its log crashed the run if it arrived while the
manager was waiting for the optimizers to pause. A convergence signal of an
optimizer already killed replaced its end condition and was counted twice, and
killed but still living optimizers were saved (and revived by a restart).
---
 glompo/core/manager.py | 50 +++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 828c57d..d23deda 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1370,21 +1370,7 @@ class GloMPOManager:
         if opt_id not in self._graveyard and pipe.poll():
             try:
                 key, message = pipe.recv()
-                self._last_feedback[opt_id] = time()
-                self.logger.info("Signal %d from %d.", key, opt_id)
-                if key == 0:
-                    self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
-                    self.opt_log.put_metadata(opt_id, "end_cond", message)
-                    self._graveyard.add(opt_id)
-                    self.conv_counter += 1
-                    if self.visualisation:
-                        self.scope.update_norm_terminate(opt_id)
-                elif key == 9:
-                    self.opt_log.put_message(opt_id, message)
-                    self.logger.warning("Optimizer %d Exception: %s", opt_id, message)
-                    self.opt_crashed = "Traceback" in message or self.opt_crashed
-                    if self.visualisation:
-                        self.scope.update_crash_terminate(opt_id)
+                self._process_signal(opt_id, key, message)
                 found_signal = True
             except EOFError:
                 self.logger.error("Opt%d pipe closed. Opt%d should be in graveyard", opt_id, opt_id)
@@ -1392,6 +1378,24 @@ class GloMPOManager:
             self.logger.debug("No signals from %d.", opt_id)
         return found_signal
 
+    def _process_signal(self, opt_id: int, key: int, message: str):
+        """ Acts on a signal received from optimizer :obj:`opt_id`. """
+        self._last_feedback[opt_id] = time()
+        self.logger.info("Signal %d from %d.", key, opt_id)
+        if key == 0:
+            self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
+            self.opt_log.put_metadata(opt_id, "end_cond", message)
+            self._graveyard.add(opt_id)
+            self.conv_counter += 1
+            if self.visualisation:
+                self.scope.update_norm_terminate(opt_id)
+        elif key == 9:
+            self.opt_log.put_message(opt_id, message)
+            self.logger.warning("Optimizer %d Exception: %s", opt_id, message)
+            self.opt_crashed = "Traceback" in message or self.opt_crashed
+            if self.visualisation:
+                self.scope.update_crash_terminate(opt_id)
+
     def _inspect_children(self):
         """ Loops through all children processes and checks their status.
         Tidies up and gracefully deals with any strange behaviour such as crashes or non-responsive behaviour.
@@ -1832,7 +1836,7 @@ class GloMPOManager:
                 messaged.add(opt_id)
 
         # Synchronise and wait for replies (end or paused)
-        not_chkpt = set()  # Set of messaged opts that should not be checkpointed
+        not_chkpt = messaged & self._graveyard  # Set of messaged opts that should not be checkpointed
         wait_reply = messaged.copy()
         living = messaged.copy()
         n_alive = len(messaged)
@@ -1854,18 +1858,14 @@ class GloMPOManager:
                     if pack.signal_pipe.poll(0.1):
                         key, message = pack.signal_pipe.recv()
                         self.logger.debug("Received %d, %s from %d", key, message, opt_id)
-                        if key == 0:
-                            self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
-                            self.opt_log.put_metadata(opt_id, "end_cond", message)
-                            self._graveyard.add(opt_id)
-                            self.conv_counter += 1
-                            not_chkpt.add(opt_id)
-                        elif key == 1:
+                        if key == 1:
                             if self.visualisation:
                                 self.scope.update_pause(opt_id)
                             wait_reply.remove(opt_id)
-                        else:
-                            raise RuntimeError(f"Unhandled message: {message}")
+                        elif opt_id not in self._graveyard:
+                            self._process_signal(opt_id, key, message)
+                            if key == 0:
+                                not_chkpt.add(opt_id)
                 else:
                     self.logger.debug("Opt %d dead, removing from wait list", opt_id)
                     not_chkpt.add(opt_id)
-- 
2.43.0


From 03d575c9abf0fe6d114c5985f1da7c64694fa60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 08/53] fix: record the end of optimizers found dead while
 checkpointing

Their end was not part of the checkpoint: after a restart they had no end condition
and were missing from the counters.
---
 glompo/core/manager.py | 57 +++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index d23deda..b239b56 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1401,33 +1401,9 @@ class GloMPOManager:
         Tidies up and gracefully deals with any strange behaviour such as crashes or non-responsive behaviour.
         """
 
-        for opt_id, pack in self._optimizer_packs.items():
-
-            # Find dead optimizer processes that did not properly signal their termination.
-            if opt_id not in self._graveyard and not pack.process.is_alive():
-                exitcode = pack.process.exitcode
-                while self._check_signals(opt_id):
-                    pass  # Record everything the optimizer sent before it ended
-                if opt_id not in self._graveyard and exitcode == 0:
-                    self.conv_counter += 1
-                    self._graveyard.add(opt_id)
-                    self.opt_log.put_message(opt_id, "Terminated normally without sending a minimization "
-                                                     "complete signal to the manager.")
-                    warnings.warn(f"Optimizer {opt_id} terminated normally without sending a "
-                                  f"minimization complete signal to the manager.", RuntimeWarning)
-                    self.logger.warning("Optimizer %d terminated normally without sending a minimization complete "
-                                        "signal to the manager.", opt_id)
-                    self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
-                    self.opt_log.put_metadata(opt_id, "end_cond", "Normal termination (Reason unknown)")
-                elif opt_id not in self._graveyard:
-                    self._graveyard.add(opt_id)
-                    self.opt_log.put_message(opt_id, f"Terminated in error with code {-exitcode}")
-                    warnings.warn(f"Optimizer {opt_id} terminated in error with code {-exitcode}",
-                                  RuntimeWarning)
-                    self.logger.error("Optimizer %d terminated in error with code %d", opt_id, -exitcode)
-                    self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
-                    self.opt_log.put_metadata(opt_id, "end_cond", f"Error termination (exitcode {-exitcode}).")
+        self._inspect_dead_children()
 
+        for opt_id, pack in self._optimizer_packs.items():
             # Find hanging processes
             if pack.process.is_alive() and \
                     time() - self._last_feedback[opt_id] > self._too_long and \
@@ -1457,6 +1433,34 @@ class GloMPOManager:
                 warnings.warn(f"Forced termination signal sent to optimizer {opt_id}.", RuntimeWarning)
                 self.logger.error("Forced termination signal sent to optimizer %d.", opt_id)
 
+    def _inspect_dead_children(self):
+        """ Finds dead optimizer processes that did not properly signal their termination. """
+
+        for opt_id, pack in self._optimizer_packs.items():
+            if opt_id not in self._graveyard and not pack.process.is_alive():
+                exitcode = pack.process.exitcode
+                while self._check_signals(opt_id):
+                    pass  # Record everything the optimizer sent before it ended
+                if opt_id not in self._graveyard and exitcode == 0:
+                    self.conv_counter += 1
+                    self._graveyard.add(opt_id)
+                    self.opt_log.put_message(opt_id, "Terminated normally without sending a minimization "
+                                                     "complete signal to the manager.")
+                    warnings.warn(f"Optimizer {opt_id} terminated normally without sending a "
+                                  f"minimization complete signal to the manager.", RuntimeWarning)
+                    self.logger.warning("Optimizer %d terminated normally without sending a minimization complete "
+                                        "signal to the manager.", opt_id)
+                    self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
+                    self.opt_log.put_metadata(opt_id, "end_cond", "Normal termination (Reason unknown)")
+                elif opt_id not in self._graveyard:
+                    self._graveyard.add(opt_id)
+                    self.opt_log.put_message(opt_id, f"Terminated in error with code {-exitcode}")
+                    warnings.warn(f"Optimizer {opt_id} terminated in error with code {-exitcode}",
+                                  RuntimeWarning)
+                    self.logger.error("Optimizer %d terminated in error with code %d", opt_id, -exitcode)
+                    self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
+                    self.opt_log.put_metadata(opt_id, "end_cond", f"Error termination (exitcode {-exitcode}).")
+
     def _process_results(self, max_results: Optional[int] = None) -> Tuple[Set[int], Set[int]]:
         """ Retrieves results from the :attr:`optimizer_queue` and processes them into the :attr:`opt_log`.
 
@@ -1871,6 +1875,7 @@ class GloMPOManager:
                     not_chkpt.add(opt_id)
                     wait_reply.remove(opt_id)
                     living.remove(opt_id)
+        self._inspect_dead_children()
         self.logger.info("Optimizers paused and synced.")
 
         # Process outstanding results and hunts
-- 
2.43.0


From f381154dde9d966d28f6e8d911086a272aa00f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 09/53] fix: do not wait forever for an optimizer which died
 while being checkpointed

---
 glompo/core/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index b239b56..0900e7b 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1906,7 +1906,8 @@ class GloMPOManager:
         wait_reply = living.copy()
         while wait_reply:
             for opt_id in wait_reply.copy():
-                if not self._optimizer_packs[opt_id].allow_run_event.is_set():
+                pack = self._optimizer_packs[opt_id]
+                if not pack.allow_run_event.is_set() or not pack.process.is_alive():
                     wait_reply.remove(opt_id)
 
         # Confirm all restart files are found
-- 
2.43.0


From e359b0022548e15115ddb7b9566d2464a96faefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 10/53] fix: fall back to checkpoint_save for every task which
 cannot be pickled

Pickling generators, locks, etc. does not raise a PickleError.
---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 0900e7b..ebacf58 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1953,7 +1953,7 @@ class GloMPOManager:
                     dill.dump(self.task, file)
                 self.logger.info("Task successfully pickled")
                 task_persisted = True
-            except PickleError as pckl_err:
+            except Exception as pckl_err:
                 self.logger.info("Pickle task failed. Attempting task.checkpoint_save()", exc_info=pckl_err)
                 (path / 'task').unlink()
 
-- 
2.43.0


From aa187d08a23944c4eaf04318965fe9e9bf15ee64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:20 +0000
Subject: [PATCH 11/53] fix: any failure to construct a checkpoint is handled
 like a CheckpointingError

A full disk or an object which cannot be pickled ended the run, lost the checkpoint
which was being overwritten and left a partial archive behind. If a failed checkpoint
is to be raised, paused optimizers were never released and could not stop.
---
 glompo/core/manager.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index ebacf58..136ca60 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1125,12 +1125,14 @@ class GloMPOManager:
 
         # Construct Checkpoint Name
         path = self.checkpoint_control.checkpointing_dir / self.checkpoint_control.get_name()
-        path.mkdir(parents=True, exist_ok=True)
+        syncing = False
 
         overwriting_chkpt = False
         ovw_path = path.parent / '_overwriting_chkpt.tar.gz'
 
         try:
+            path.mkdir(parents=True, exist_ok=True)
+
             # Save timestamp and checkpoint name
             if len(self.dt_starts) > 0:
                 if len(self.dt_starts) == len(self.dt_ends):
@@ -1139,7 +1141,9 @@ class GloMPOManager:
                     self.dt_ends.append(datetime.now())
             self.checkpoint_history.add(str(path.resolve().with_suffix('.tar.gz')))
 
+            syncing = True
             self._checkpoint_optimizers(path)
+            syncing = False
 
             # Flush logger
             self.opt_log.flush()
@@ -1169,8 +1173,10 @@ class GloMPOManager:
                 with tarfile.open(tar_path, 'x:gz') as tfile:
                     tfile.add(path, recursive=True, arcname='')
                 self.logger.debug("TarFile built")
-            except tarfile.TarError as e:
+            except Exception as e:
                 self.logger.error("Error encountered during compression.")
+                if tar_path.exists():
+                    tar_path.unlink()
                 if overwriting_chkpt:
                     self.logger.info("Overwritten checkpoint restored")
                     ovw_path.replace(tar_path)
@@ -1187,10 +1193,11 @@ class GloMPOManager:
                     if del_path.is_file():
                         del_path.unlink()
 
-        except CheckpointingError as e:
-            self.checkpoint_history.remove(str(path.resolve().with_suffix('.tar.gz')))
+        except Exception as e:
+            self.checkpoint_history.discard(str(path.resolve().with_suffix('.tar.gz')))
 
-            if self.checkpoint_control.raise_checkpoint_fail:
+            # An error other than a failed save while synchronising did not originate from the checkpointing itself
+            if self.checkpoint_control.raise_checkpoint_fail or (syncing and not isinstance(e, CheckpointingError)):
                 self.logger.error("Checkpointing failed", exc_info=e)
                 raise e
 
@@ -1201,9 +1208,10 @@ class GloMPOManager:
             if ovw_path.exists():
                 ovw_path.unlink()
 
-        if self.converged:
-            [pack.signal_pipe.send(1) for _, pack in self._optimizer_packs.items() if pack.process.is_alive()]
-        self._toggle_optimizers(1)
+            if self.converged:
+                [pack.signal_pipe.send(1) for _, pack in self._optimizer_packs.items() if pack.process.is_alive()]
+            self._toggle_optimizers(1)
+
         self.logger.info("Checkpoint '%s' successfully built", path.name)
 
     def write_summary_file(self, dump_dir: Optional[Path] = None):
-- 
2.43.0


From e2cc3cbb33ab248c6cd62f6e566c38339552cd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:20 +0000
Subject: [PATCH 12/53] fix: checkpoint names containing a dot are not
 truncated

with_suffix replaced everything after the last dot so that different checkpoints
were given the same name and overwrote each other.
---
 glompo/core/manager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 136ca60..3df60db 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1139,7 +1139,7 @@ class GloMPOManager:
                     self.dt_ends[-1] = datetime.now()
                 else:
                     self.dt_ends.append(datetime.now())
-            self.checkpoint_history.add(str(path.resolve().with_suffix('.tar.gz')))
+            self.checkpoint_history.add(f'{path.resolve()}.tar.gz')
 
             syncing = True
             self._checkpoint_optimizers(path)
@@ -1160,7 +1160,7 @@ class GloMPOManager:
 
             # Compress checkpoint
             self.logger.debug("Building TarFile")
-            tar_path = path.with_suffix('.tar.gz')
+            tar_path = path.with_name(f'{path.name}.tar.gz')
             if tar_path.exists():
                 self.logger.warning("Overwriting existing checkpoint. To avoid this change the checkpointing naming "
                                     "format")
@@ -1194,7 +1194,7 @@ class GloMPOManager:
                         del_path.unlink()
 
         except Exception as e:
-            self.checkpoint_history.discard(str(path.resolve().with_suffix('.tar.gz')))
+            self.checkpoint_history.discard(f'{path.resolve()}.tar.gz')
 
             # An error other than a failed save while synchronising did not originate from the checkpointing itself
             if self.checkpoint_control.raise_checkpoint_fail or (syncing and not isinstance(e, CheckpointingError)):
-- 
2.43.0


From 6024c3c08d2fe67d8b2f5c5b2e32de83e22ed8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:20 +0000
Subject: [PATCH 13/53] fix: only delete the oldest checkpoints and nothing
 else

Files of which only the beginning of the name matched the naming format were taken
for checkpoints (and deleted), the age was taken from the alphabetical order, so that
the newest checkpoint could be deleted, and counts over 999 and some special
characters were not recognised.
---
 glompo/core/checkpointing.py | 12 ++++++------
 glompo/core/manager.py       | 15 ++++++++-------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/glompo/core/checkpointing.py b/glompo/core/checkpointing.py
index b34d9b8..b044213 100644
--- a/glompo/core/checkpointing.py
+++ b/glompo/core/checkpointing.py
@@ -114,14 +114,14 @@ class CheckpointingControl:
 
         format_re = list(copy(self.naming_format))
         for i, char in enumerate(format_re):
-            if any([char == c for c in ('{', '(', '+', '*', '|', '.', '$', ')', '}')]):
+            if any([char == c for c in ('{', '(', '+', '*', '|', '.', '$', ')', '}', '?')]):
                 format_re[i] = f'[{char}]'
-            if any([char == c for c in ('^', '[', ']')]):
+            if any([char == c for c in ('^', '[', ']', '\\')]):
                 format_re[i] = rf'\{char}'
         format_re = "".join(format_re)
         for key, digits in codes.items():
             format_re = format_re.replace(key, f'[0-9]{{{digits}}}')
-        format_re = format_re.replace('%[(]count[)]', '(?P<index>[0-9]{3})')
+        format_re = format_re.replace('%[(]count[)]', '(?P<index>[0-9]{3,})')
 
         self._naming_format_re = format_re
 
@@ -144,9 +144,9 @@ class CheckpointingControl:
 
         if self.checkpointing_dir.exists():
             max_index = -1
-            matches = [re.match(self._naming_format_re, folder.name) for folder in self.checkpointing_dir.iterdir()]
+            matches = [re.fullmatch(rf'(?:{self._naming_format_re})([.]tar[.]gz)?', folder.name) for folder in self.checkpointing_dir.iterdir()]
             for match in matches:
-                if match and match.lastgroup == 'index':
+                if match and 'index' in match.groupdict():
                     i = int(match.group('index'))
                     max_index = i if i > max_index else max_index
             self.count = max_index + 1
@@ -160,4 +160,4 @@ class CheckpointingControl:
 
     def matches_naming_format(self, name: str) -> bool:
         """ Returns :obj:`True` if the provided name matches the pattern in the :attr:`naming_format`. """
-        return bool(re.match(self._naming_format_re, name))
+        return bool(re.fullmatch(rf'(?:{self._naming_format_re})([.]tar[.]gz)?', name))
diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 3df60db..d43177b 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1185,13 +1185,14 @@ class GloMPOManager:
             # Delete old checkpoints
             if self.checkpoint_control.keep_past > -1:
                 self.logger.debug("Finding old checkpoints to delete")
-                files = (file.name for file in self.checkpoint_control.checkpointing_dir.iterdir())
-                to_delete = sorted(filter(self.checkpoint_control.matches_naming_format, files), reverse=True)
-                self.logger.debug("Identified to delete: %d", to_delete[self.checkpoint_control.keep_past + 2:])
-                for old in to_delete[self.checkpoint_control.keep_past + 2:]:
-                    del_path = self.checkpoint_control.checkpointing_dir / old
-                    if del_path.is_file():
-                        del_path.unlink()
+                files = [file for file in self.checkpoint_control.checkpointing_dir.iterdir()
+                         if file.is_file() and file != tar_path and
+                         self.checkpoint_control.matches_naming_format(file.name)]
+                to_delete = sorted(files, key=lambda f: (f.stat().st_mtime_ns, f.name), reverse=True)
+                to_delete = to_delete[self.checkpoint_control.keep_past:]
+                self.logger.debug("Identified to delete: %s", to_delete)
+                for old in to_delete:
+                    old.unlink()
 
         except Exception as e:
             self.checkpoint_history.discard(f'{path.resolve()}.tar.gz')
-- 
2.43.0


From 7afdb3d7f2b838ad78cd3b2793da0aeea31dc005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:20 +0000
Subject: [PATCH 14/53] fix: do not remove 'backend' from the configuration
 held by the selector

Only the first optimizer of a configuration was given the backend asked for.
---
 glompo/core/manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index d43177b..854e1c7 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1349,8 +1349,8 @@ class GloMPOManager:
         event.set()
 
         if 'backend' in init_kwargs:
-            backend = init_kwargs['backend']
-            del init_kwargs['backend']
+            init_kwargs = {**init_kwargs}
+            backend = init_kwargs.pop('backend')
         else:
             backend = 'threads' if self.opts_daemonic else 'processes'
 
-- 
2.43.0


From c2a431324ae941da809732261eac75360de889b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:51 +0000
Subject: [PATCH 15/53] fix: an optimizer process which has just ended does not
 crash the manager

Sending to or receiving from its closed pipe raises BrokenPipeError or
ConnectionResetError.
---
 glompo/core/manager.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 854e1c7..783d801 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1210,7 +1210,7 @@ class GloMPOManager:
                 ovw_path.unlink()
 
             if self.converged:
-                [pack.signal_pipe.send(1) for _, pack in self._optimizer_packs.items() if pack.process.is_alive()]
+                [self._send_signal(pack, 1) for pack in self._optimizer_packs.values() if pack.process.is_alive()]
             self._toggle_optimizers(1)
 
         self.logger.info("Checkpoint '%s' successfully built", path.name)
@@ -1381,7 +1381,7 @@ class GloMPOManager:
                 key, message = pipe.recv()
                 self._process_signal(opt_id, key, message)
                 found_signal = True
-            except EOFError:
+            except (EOFError, OSError):
                 self.logger.error("Opt%d pipe closed. Opt%d should be in graveyard", opt_id, opt_id)
         else:
             self.logger.debug("No signals from %d.", opt_id)
@@ -1405,6 +1405,13 @@ class GloMPOManager:
             if self.visualisation:
                 self.scope.update_crash_terminate(opt_id)
 
+    def _send_signal(self, pack: ProcessPackage, signal: Any):
+        """ Sends a signal to an optimizer. An optimizer which has just ended is not able to receive it. """
+        try:
+            pack.signal_pipe.send(signal)
+        except OSError as e:
+            self.logger.debug("Signal %s could not be delivered.", signal, exc_info=e)
+
     def _inspect_children(self):
         """ Loops through all children processes and checks their status.
         Tidies up and gracefully deals with any strange behaviour such as crashes or non-responsive behaviour.
@@ -1635,7 +1642,7 @@ class GloMPOManager:
         if self.aggressive_kill and self.proc_backend:
             self._optimizer_packs[opt_id].process.terminate()
         else:
-            self._optimizer_packs[opt_id].signal_pipe.send(1)
+            self._send_signal(self._optimizer_packs[opt_id], 1)
             self.logger.debug("Termination signal sent to %d", opt_id)
 
         self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
@@ -1655,7 +1662,7 @@ class GloMPOManager:
         if self.incumbent_sharing and (not self.result.fx or best_iter['fx'] < self.result.fx):
             for opt_id, pack in self._optimizer_packs.items():
                 if opt_id != best_iter['opt_id'] and pack.process.is_alive():
-                    pack.signal_pipe.send((4, best_iter['x'], best_iter['fx']))
+                    self._send_signal(pack, (4, best_iter['x'], best_iter['fx']))
 
         best_origin = {"opt_id": best_iter['opt_id'],
                        "type": best_iter['type']}
@@ -1674,7 +1681,7 @@ class GloMPOManager:
         # Attempt to send shutdown signals
         try:
             message = (1, "GloMPO Crash") if crash_reason else 1
-            [pack.signal_pipe.send(message) for _, pack in self._optimizer_packs.items() if pack.process.is_alive()]
+            [self._send_signal(pack, message) for pack in self._optimizer_packs.values() if pack.process.is_alive()]
         except Exception as e:
             self.logger.debug("Pipe messaging failed during cleanup.", exc_info=e)
 
@@ -1845,7 +1852,7 @@ class GloMPOManager:
         messaged = set()
         for opt_id, pack in self._optimizer_packs.items():
             if pack.process.is_alive():
-                pack.signal_pipe.send(2)
+                self._send_signal(pack, 2)
                 messaged.add(opt_id)
 
         # Synchronise and wait for replies (end or paused)
@@ -1869,7 +1876,10 @@ class GloMPOManager:
                 pack = self._optimizer_packs[opt_id]
                 if pack.process.is_alive():
                     if pack.signal_pipe.poll(0.1):
-                        key, message = pack.signal_pipe.recv()
+                        try:
+                            key, message = pack.signal_pipe.recv()
+                        except (EOFError, OSError):  # Optimizer has just ended
+                            continue
                         self.logger.debug("Received %d, %s from %d", key, message, opt_id)
                         if key == 1:
                             if self.visualisation:
@@ -1906,10 +1916,10 @@ class GloMPOManager:
                 if opt_id not in not_chkpt:
                     if self.visualisation:
                         self.scope.update_checkpoint(opt_id)
-                    pack.signal_pipe.send((0, (path / 'optimizers' / f'{opt_id:04}').absolute()))
+                    self._send_signal(pack, (0, (path / 'optimizers' / f'{opt_id:04}').absolute()))
                     self.logger.debug('Checkpoint save sent to Optimizer %d', opt_id)
                 else:
-                    pack.signal_pipe.send(3)  # Causes waiting optimizers will pass and not checkpoint
+                    self._send_signal(pack, 3)  # Causes waiting optimizers will pass and not checkpoint
 
         # Wait for all checkpoint_save to complete
         wait_reply = living.copy()
-- 
2.43.0


From cfcd827ab1d5b7b7208e2eeaf0583cb43d6a5b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:51 +0000
Subject: [PATCH 16/53] fix: share the incumbent only when it has improved

A function value of zero was taken for 'no incumbent' so that the same incumbent was
sent again with every evaluation, and an empty incumbent was sent at the start.
---
 glompo/core/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 783d801..fab1202 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1659,7 +1659,8 @@ class GloMPOManager:
 
         best_iter = self.opt_log.get_best_iter()
 
-        if self.incumbent_sharing and (not self.result.fx or best_iter['fx'] < self.result.fx):
+        if self.incumbent_sharing and best_iter['opt_id'] > 0 and \
+                (self.result.fx is None or best_iter['fx'] < self.result.fx):
             for opt_id, pack in self._optimizer_packs.items():
                 if opt_id != best_iter['opt_id'] and pack.process.is_alive():
                     self._send_signal(pack, (4, best_iter['x'], best_iter['fx']))
-- 
2.43.0


From ab55594c6754e7012aa8c4cd2c12651044121ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:51 +0000
Subject: [PATCH 17/53] fix: return the final counters in the result

They were those at the time of the last accepted evaluation.
---
 glompo/core/manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index fab1202..99509a6 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1091,7 +1091,12 @@ class GloMPOManager:
 
             self.result = Result(list(self.result.x) if self.result.x else None,
                                  self.result.fx,
-                                 {**self.result.stats, 'end_cond': reason} if self.result.stats else {
+                                 {**self.result.stats,
+                                  'f_evals': self.f_counter,
+                                  'opts_started': self.o_counter,
+                                  'opts_killed': len(self.hunt_victims),
+                                  'opts_conv': self.conv_counter,
+                                  'end_cond': reason} if self.result.stats else {
                                      'end_cond': reason},
                                  self.result.origin)
 
-- 
2.43.0


From 192a8d8c9f2d8641838e61b49410911aa3607283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:51 +0000
Subject: [PATCH 18/53] fix: keep the end condition of a converged optimizer
 whose process hangs

A process which announced its convergence but did not exit was recorded as being
force terminated (and counted as converged).
---
 glompo/core/manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 99509a6..ed0bad5 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1433,10 +1433,12 @@ class GloMPOManager:
                     self.proc_backend:
                 warnings.warn(f"Optimizer {opt_id} seems to be hanging. Forcing termination.", RuntimeWarning)
                 self.logger.error("Optimizer %d seems to be hanging. Forcing termination.", opt_id)
+                has_ended = opt_id in self._graveyard
                 self._graveyard.add(opt_id)
                 self.opt_log.put_message(opt_id, "Force terminated due to no feedback timeout.")
-                self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
-                self.opt_log.put_metadata(opt_id, "end_cond", "Forced GloMPO Termination")
+                if not has_ended:
+                    self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
+                    self.opt_log.put_metadata(opt_id, "end_cond", "Forced GloMPO Termination")
                 pack.process.terminate()
 
             # Force kill zombies
-- 
2.43.0


From 945afafc94fdc647195c79dfe440e1e12ff61b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:51 +0000
Subject: [PATCH 19/53] fix: ChainSelector stops spawning after a final
 threshold

It raised an IndexError instead, and lagged behind if more than one threshold was
passed between two calls.
---
 glompo/opt_selectors/chain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/glompo/opt_selectors/chain.py b/glompo/opt_selectors/chain.py
index 429f94a..d9b306e 100644
--- a/glompo/opt_selectors/chain.py
+++ b/glompo/opt_selectors/chain.py
@@ -56,9 +56,12 @@ class ChainSelector(BaseSelector):
         if not self.allow_spawn(manager):
             return False
 
-        if self.toggle < len(self.fcall_thresholds) and manager.f_counter >= self.fcall_thresholds[self.toggle]:
+        while self.toggle < len(self.fcall_thresholds) and manager.f_counter >= self.fcall_thresholds[self.toggle]:
             self.toggle += 1
 
+        if self.toggle >= len(self.avail_opts):
+            return False
+
         selected = self.avail_opts[self.toggle]
         if selected[1]['workers'] > slots_available:
             return None
-- 
2.43.0


From 9f006fc0e525ab3406db66313fc9e735a74ab50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:51 +0000
Subject: [PATCH 20/53] fix: ExploitExploreGenerator copes with optimizers
 without a valid evaluation

Their infinite best value made the selection probabilities NaN and the generator fail.
---
 glompo/generators/exploit_explore.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/glompo/generators/exploit_explore.py b/glompo/generators/exploit_explore.py
index d1c1284..5ce388d 100644
--- a/glompo/generators/exploit_explore.py
+++ b/glompo/generators/exploit_explore.py
@@ -60,12 +60,13 @@ class ExploitExploreGenerator(BaseGenerator):
 
         f_track = np.array([best['fx'] for best in manager.opt_log._best_iters.values()])[1:]
 
-        if len(f_track) == 0:
+        valid = np.isfinite(f_track)
+        if not np.any(valid):
             return random
 
-        # Roulette Selection
-        shift = f_track - np.min(f_track)
-        revert = np.max(shift) - shift
+        # Roulette Selection, optimizers without a valid evaluation are not selected
+        shift = f_track - np.min(f_track[valid])
+        revert = np.max(shift[valid]) - np.where(valid, shift, np.max(shift[valid]))
         if np.all(revert == 0):
             return random
         prob = revert / np.sum(revert)
-- 
2.43.0


From ba8d6f88d9dcc5da5243de99ad41ce7e033338b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:51 +0000
Subject: [PATCH 21/53] fix: a checkpoint of RandomOptimizer includes its
 latest evaluation

The best point was updated after the messages were checked, so a best point found just
before a checkpoint was lost by a restart.
---
 glompo/optimizers/random.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/glompo/optimizers/random.py b/glompo/optimizers/random.py
index 3ca06f7..dd9dc04 100644
--- a/glompo/optimizers/random.py
+++ b/glompo/optimizers/random.py
@@ -60,6 +60,12 @@ class RandomOptimizer(BaseOptimizer):
             fx = function(vector)
             self.logger.debug("Function returned fx = %f", fx)
 
+            if fx < best_f:
+                best_f = fx
+                best_x = vector
+                self.logger.debug("Updating best")
+                self.result.x, self.result.fx = best_x, best_f
+
             if callbacks and callbacks():
                 self.stop_called = True
 
@@ -68,12 +74,6 @@ class RandomOptimizer(BaseOptimizer):
                 self.check_messages()
                 self._pause_signal.wait()
 
-            if fx < best_f:
-                best_f = fx
-                best_x = vector
-                self.logger.debug("Updating best")
-                self.result.x, self.result.fx = best_x, best_f
-
         self.result.success = True
         self.logger.debug("Termination successful")
         if self._results_queue:
-- 
2.43.0


From cd9298cf0d3b301da887756633ab263cd4f0aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:28 +0000
Subject: [PATCH 22/53] fix: report why a run ended when the exit condition
 failed before the start

---
 glompo/core/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index ed0bad5..a47a172 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -916,7 +916,7 @@ class GloMPOManager:
                 warnings.warn("Convergence conditions met before optimizer start. Aborting start.", RuntimeWarning)
                 return self.result
         except Exception:
-            reason = "None"
+            reason = "No optimizers alive, spawning stopped."  # Replaced if the loop ends for any other reason
             self.converged = False
 
         # Make working dir & open log file
-- 
2.43.0


From 92146a1b157ffad3d689cc4b9f0d18c0ce76d684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 23/53] fix: share_best_solutions can be changed when a
 checkpoint is loaded

---
 glompo/core/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index a47a172..725cc23 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -767,6 +767,8 @@ class GloMPOManager:
                 force_terminations_after = glompo_kwargs['force_terminations_after']
                 self.allow_forced_terminations = force_terminations_after > 0
                 self._too_long = force_terminations_after
+            elif key == 'share_best_solutions':
+                self.incumbent_sharing = val
             elif key == 'visualisation_args':
                 pass
             elif key == 'working_dir':
-- 
2.43.0


From b56574070a615a0ad0b3d911356e454a25e101e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:18 +0000
Subject: [PATCH 24/53] fix: roll the log file back to the checkpoint even if
 the earlier session was killed before closing it

---
 glompo/core/manager.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 725cc23..29840d2 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -939,7 +939,8 @@ class GloMPOManager:
                                    f"this one (Checksum: {self._checksum})! Aborting optimization.")
 
                 # Overwrite excess iterations
-                file_f_count = peek.root._v_attrs.f_counter
+                tables = [*peek.walk_nodes('/', 'Table')]
+                file_f_count = max((int(tab[-1]['call_id']) for tab in tables if tab.nrows > 0), default=0)
                 if file_f_count > self.f_counter:
                     self.logger.warning("The log file (%d evaluations) has iterated past the checkpoint "
                                         "(%d evaluations). Rolling back the log file to the checkpoint.",
@@ -947,15 +948,18 @@ class GloMPOManager:
                     warnings.warn(f"The log file ({file_f_count} evaluations) has iterated past "
                                   f"the checkpoint ({self.f_counter} evaluations). Rolling back the log file to "
                                   f"the checkpoint.")
-                    for tab in peek.walk_nodes('/', 'Table'):
-                        tab: tb.Table
-                        call_ids = tab.col('call_id')
-                        crit_i = np.searchsorted(call_ids, self.f_counter, 'right')
+                for tab in tables:
+                    tab: tb.Table
+                    call_ids = tab.col('call_id')
+                    crit_i = np.searchsorted(call_ids, self.f_counter, 'right')
+                    if crit_i == 0:
+                        peek.remove_node(tab)
+                    elif crit_i < tab.nrows:
                         tab.remove_rows(crit_i)
 
-                    for group in peek.iter_nodes('/', 'Group'):
-                        if int(group._v_name.split('_')[1]) > self.o_counter:
-                            peek.remove_node('/', group._v_name, recursive=True)
+                for group in [*peek.iter_nodes('/', 'Group')]:
+                    if int(group._v_name.split('_')[1]) > self.o_counter:
+                        peek.remove_node('/', group._v_name, recursive=True)
             mode = 'a'
 
         self._checksum = ''.join([random.choice(string.ascii_letters + string.digits) for _ in range(20)])
-- 
2.43.0


From 9d27c150dbda921b2379f296f70e8281ea4f9356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:39 +0000
Subject: [PATCH 25/53] fix: undo ends and messages which the log file recorded
 after the checkpoint of a resumed run

---
 glompo/core/optimizerlogger.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 32d2642..64dd50e 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -368,11 +368,7 @@ class FileLogger(BaseLogger):
         super().add_optimizer(opt_id, opt_type, t_start)
         group = self.pytab_file.create_group(where='/',
                                              name=f'optimizer_{opt_id}')
-        self.pytab_file.create_vlarray(where=f'/optimizer_{opt_id}',
-                                       name='messages',
-                                       atom=tb.VLUnicodeAtom(),
-                                       title="Messages Generated by Optimizer",
-                                       expectedrows=3)
+        self._create_message_array(opt_id)
         self._writing_chunk[opt_id] = []
         self._groups[opt_id] = group
 
@@ -456,6 +452,14 @@ class FileLogger(BaseLogger):
 
             return []
 
+    def _create_message_array(self, opt_id: int):
+        """ Creates the array of messages of an optimizer in the HDF5 file. """
+        self.pytab_file.create_vlarray(where=f'/optimizer_{opt_id}',
+                                       name='messages',
+                                       atom=tb.VLUnicodeAtom(),
+                                       title="Messages Generated by Optimizer",
+                                       expectedrows=3)
+
     def _get_group(self, opt_id: int) -> tb.Group:
         """ Returns the the :class:`tables.Group` object for optimizer `opt_id`. """
         if opt_id not in self._groups:
@@ -516,6 +520,20 @@ class FileLogger(BaseLogger):
             self._tables = {int(t._v_pathname.split('/')[1].split('_')[1]): t for t in
                             self.pytab_file.walk_nodes('/', 'Table')}
 
+            # Optimizers alive at the checkpoint, undo what the file recorded about them after it
+            for opt_id, store in self._storage.items():
+                group = self._get_group(opt_id)
+                for key in ('t_stop', 'end_cond'):
+                    if key in group._v_attrs and key not in store['metadata']:
+                        del group._v_attrs[key]
+                if 'best_iter' in group._v_attrs:
+                    group._v_attrs['best_iter'] = self._best_iters[opt_id]
+                if group['messages'].nrows > len(store['messages']):
+                    self.pytab_file.remove_node(group, 'messages')
+                    self._create_message_array(opt_id)
+                    for message in store['messages']:
+                        group['messages'].append(message)
+
     def close(self):
         """ Remove from memory, flush to file and close the file. """
         for key, value in (('opts_started', self._o_counter),
@@ -530,4 +548,6 @@ class FileLogger(BaseLogger):
         self.pytab_file.close()
 
     def checkpoint_save(self, path: Union[Path, str] = '', block: Optional[Sequence[str]] = None):
+        if self.pytab_file is not None:
+            self.pytab_file.flush()
         super().checkpoint_save(path, ['pytab_file', '_tables', '_groups'])
-- 
2.43.0


From 27d3284a4ae015b893bd92a86cbe2e3b058b4a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:39 +0000
Subject: [PATCH 26/53] fix: reading the history of an optimizer cleared from
 the cache of a file log failed

---
 glompo/core/optimizerlogger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 64dd50e..5ec5e32 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -479,7 +479,7 @@ class FileLogger(BaseLogger):
         opt_ids = [opt_id] if opt_id else self._writing_chunk.keys()
 
         for o in opt_ids:
-            if len(self._writing_chunk[o]) > 0:
+            if self._writing_chunk.get(o):
                 self.put_metadata(o, 'best_iter', self._best_iters[o])
                 table = self._get_table(o)
                 table.append(self._writing_chunk[o])
-- 
2.43.0


From 56199dc7a72243823b0efc11089e003a86229e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:11 +0000
Subject: [PATCH 27/53] fix: keep the results of conditions which appear more
 than once in a combination

---
 glompo/common/corebase.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/glompo/common/corebase.py b/glompo/common/corebase.py
index ee26b52..cb6c515 100644
--- a/glompo/common/corebase.py
+++ b/glompo/common/corebase.py
@@ -73,6 +73,20 @@ class _CombiCore(_CoreBase):
     def __call__(self, *args, **kwargs):
         self.reset()
 
+    @staticmethod
+    def _evaluate(base: _CoreBase, *args, **kwargs) -> bool:
+        """ Evaluates one of the bases. Nested combinations are not reset again, as this would clear the results of
+        bases which appear more than once and have already been evaluated.
+        """
+        if isinstance(base, _CombiCore):
+            base._last_result = base._combine(*args, **kwargs)
+            return base._last_result
+        return base(*args, **kwargs)
+
+    def _combine(self, *args, **kwargs) -> bool:
+        """ Logical combination of the (lazily evaluated) bases. """
+        raise NotImplementedError
+
     def _combi_string_maker(self, keyword: str):
         return f"[{self._base1} {keyword} \n{self._base2}]"
 
@@ -107,9 +121,12 @@ class _OrCore(_CombiCore):
 
     def __call__(self, *args, **kwargs):
         super().__call__(*args, **kwargs)
-        self._last_result = self._base1(*args, **kwargs) or self._base2(*args, **kwargs)
+        self._last_result = self._combine(*args, **kwargs)
         return self._last_result
 
+    def _combine(self, *args, **kwargs) -> bool:
+        return self._evaluate(self._base1, *args, **kwargs) or self._evaluate(self._base2, *args, **kwargs)
+
     def __str__(self):
         return self._combi_string_maker("|")
 
@@ -122,9 +139,12 @@ class _AndCore(_CombiCore):
 
     def __call__(self, *args, **kwargs):
         super().__call__(*args, **kwargs)
-        self._last_result = self._base1(*args, **kwargs) and self._base2(*args, **kwargs)
+        self._last_result = self._combine(*args, **kwargs)
         return self._last_result
 
+    def _combine(self, *args, **kwargs) -> bool:
+        return self._evaluate(self._base1, *args, **kwargs) and self._evaluate(self._base2, *args, **kwargs)
+
     def __str__(self):
         return self._combi_string_maker("&")
 
-- 
2.43.0


From e1eb7ae4cf2a924070b98f742774b1b715f3bcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:11 +0000
Subject: [PATCH 28/53] fix: BestUnmoving ignores undefined evaluations

---
 glompo/hunters/bestunmoving.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glompo/hunters/bestunmoving.py b/glompo/hunters/bestunmoving.py
index ffa0b6f..6dde100 100644
--- a/glompo/hunters/bestunmoving.py
+++ b/glompo/hunters/bestunmoving.py
@@ -40,7 +40,8 @@ class BestUnmoving(BaseHunter):
             self.last_result = False
             return self.last_result
 
-        best_at_calls = min(vals[:-self.calls])
-        best_at_end = min(vals)
+        # Undefined evaluations (NaN) are never the best
+        best_at_calls = min((v for v in vals[:-self.calls] if v == v), default=float('nan'))
+        best_at_end = min((v for v in vals if v == v), default=float('nan'))
         self.last_result = abs(best_at_end - best_at_calls) <= abs(best_at_calls * self.tol)
         return self.last_result
-- 
2.43.0


From beea3347e8bb1903bdfdaf0f886285c614c624a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 29/53] fix: starting points of BasinHoppingGenerator stay
 inside the bounds

---
 glompo/generators/basinhopping.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/glompo/generators/basinhopping.py b/glompo/generators/basinhopping.py
index 7132be5..43e300c 100644
--- a/glompo/generators/basinhopping.py
+++ b/glompo/generators/basinhopping.py
@@ -117,7 +117,9 @@ class BasinHoppingGenerator(BaseGenerator):
                 self.logger.debug("Accept rate too low, step size decreasing %f -> %f.", old_step, self.step_size)
 
         # Random perturbation of the best vector based on the step size
-        x = best['x'].copy()
+        x = np.array(best['x'], dtype=float)
         x += np.random.uniform(-self.step_size, self.step_size, x.size)
 
-        return x
+        # A starting point must be inside the bounds
+        bnds = np.array(manager.bounds).T
+        return np.clip(x, bnds[0], bnds[1])
-- 
2.43.0


From 7a2219937a626291c0c06c0484ee69f7a2921fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 30/53] fix: IncumbentGenerator without any valid evaluation

---
 glompo/generators/best.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/generators/best.py b/glompo/generators/best.py
index 6a1ae0c..1378b74 100644
--- a/glompo/generators/best.py
+++ b/glompo/generators/best.py
@@ -23,7 +23,7 @@ class IncumbentGenerator(BaseGenerator):
 
     def generate(self, manager: 'GloMPOManager') -> np.ndarray:
         best: Result = manager.result
-        if best.x is None:
+        if best.x is None or len(best.x) == 0:
             return (self.bounds[:, 1] - self.bounds[:, 0]) * np.random.random(self.n_params) + self.bounds[:, 0]
 
         return best.x
-- 
2.43.0


From 314de77a5f5c9c2c7dd47686919415d08ed5d2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:09 +0000
Subject: [PATCH 31/53] fix: steps of BasinHoppingGenerator do not grow beyond
 the maximum

---
 glompo/generators/basinhopping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/generators/basinhopping.py b/glompo/generators/basinhopping.py
index 43e300c..0b9556f 100644
--- a/glompo/generators/basinhopping.py
+++ b/glompo/generators/basinhopping.py
@@ -110,7 +110,7 @@ class BasinHoppingGenerator(BaseGenerator):
             actual_accept_rate = self.n_accept / manager.o_counter
             self.logger.debug("Accept rate at %f", actual_accept_rate)
             if actual_accept_rate > self.target_accept_rate:
-                self.step_size /= self.factor
+                self.step_size = min(self.step_size / self.factor, self.max_step_size)
                 self.logger.debug("Accept rate too high, step size increasing %f -> %f.", old_step, self.step_size)
             elif actual_accept_rate < self.target_accept_rate:
                 self.step_size *= self.factor
-- 
2.43.0


From 982e8d3840da88e9929b04d4dcf598e5a5d3b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 32/53] fix: continue in a new log file when the log file of a
 checkpoint is missing

---
 glompo/core/optimizerlogger.py | 55 ++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index 5ec5e32..de3e3aa 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -332,6 +332,14 @@ class FileLogger(BaseLogger):
         Flag the logger to hold trajectories in memory to construct the summary image.
     """
 
+    @classmethod
+    def checkpoint_load(cls, path: Union[Path, str]):
+        opt_log = super().checkpoint_load(path)
+        opt_log.pytab_file = None
+        opt_log._groups = {}
+        opt_log._tables = {}
+        return opt_log
+
     def __init__(self,
                  n_parms: int,
                  expected_rows: int,
@@ -345,6 +353,7 @@ class FileLogger(BaseLogger):
         self._o_counter = 0  # Total number of optimizers started
         self._writing_chunk = {}  # Iterations are written to disk in chunks save time
         self._est_iter_size = 0  # Estimated size of a single iteration result
+        self._headers = {}  # Columns of the iteration history tables
         self._groups = {}  # In memory address to pytables_file groups (expensive otherwise)
         self._tables = {}  # In memory address to pytables_file tables (expensive otherwise)
 
@@ -366,16 +375,8 @@ class FileLogger(BaseLogger):
     def add_optimizer(self, opt_id: int, opt_type: str, t_start: datetime.datetime):
         """ Creates an HDF5 file and memory log for a new optimizer. """
         super().add_optimizer(opt_id, opt_type, t_start)
-        group = self.pytab_file.create_group(where='/',
-                                             name=f'optimizer_{opt_id}')
-        self._create_message_array(opt_id)
+        self._create_group(opt_id)
         self._writing_chunk[opt_id] = []
-        self._groups[opt_id] = group
-
-        for key, val in zip(('opt_id', 'opt_type', 't_start'),
-                            (opt_id, opt_type, t_start)):
-            group._v_attrs[key] = val
-
         self._o_counter += 1
 
     def add_iter_history(self, opt_id: int, extra_headers: Optional[Dict[str, tb.Col]] = None):
@@ -388,12 +389,8 @@ class FileLogger(BaseLogger):
         if extra_headers:
             headers = {**headers, **extra_headers}
 
-        table = self.pytab_file.create_table(where=f'/optimizer_{opt_id}',
-                                             name='iter_hist',
-                                             description=headers,
-                                             title="Iteration History",
-                                             expectedrows=self.expected_rows)
-        self._tables[opt_id] = table
+        self._headers[opt_id] = headers
+        self._create_table(opt_id)
 
     def has_iter_history(self, opt_id: int) -> bool:
         return opt_id in self._tables
@@ -452,6 +449,27 @@ class FileLogger(BaseLogger):
 
             return []
 
+    def _create_group(self, opt_id: int):
+        """ Creates the group of an optimizer in the HDF5 file with the metadata and messages known so far. """
+        group = self.pytab_file.create_group(where='/',
+                                             name=f'optimizer_{opt_id}')
+        self._create_message_array(opt_id)
+        self._groups[opt_id] = group
+
+        for key, val in self._storage[opt_id]['metadata'].items():
+            group._v_attrs[key] = val
+        for message in self._storage[opt_id]['messages']:
+            group['messages'].append(message)
+
+    def _create_table(self, opt_id: int):
+        """ Creates the iteration history table of an optimizer in the HDF5 file. """
+        table = self.pytab_file.create_table(where=f'/optimizer_{opt_id}',
+                                             name='iter_hist',
+                                             description=self._headers[opt_id],
+                                             title="Iteration History",
+                                             expectedrows=self.expected_rows)
+        self._tables[opt_id] = table
+
     def _create_message_array(self, opt_id: int):
         """ Creates the array of messages of an optimizer in the HDF5 file. """
         self.pytab_file.create_vlarray(where=f'/optimizer_{opt_id}',
@@ -534,6 +552,13 @@ class FileLogger(BaseLogger):
                     for message in store['messages']:
                         group['messages'].append(message)
 
+        elif self._o_counter > 0:
+            warnings.warn("The log file of the checkpoint was not found, continuing in a new log file.", RuntimeWarning)
+            for opt_id in self._storage:
+                self._create_group(opt_id)
+                if opt_id in self._headers:
+                    self._create_table(opt_id)
+
     def close(self):
         """ Remove from memory, flush to file and close the file. """
         for key, value in (('opts_started', self._o_counter),
-- 
2.43.0


From 02b63d9a5e3d13a3a35504d7f942ec9d4ea619b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 33/53] fix: unresponsive optimizers are also terminated while
 checkpointing, being paused is not unresponsive

A hanging process made a checkpoint wait forever although forced terminations were configured, and optimizers paused
by the manager for longer than the timeout were terminated after the checkpoint.
---
 glompo/core/manager.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 29840d2..ba14d76 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -19,7 +19,7 @@ from multiprocessing.managers import SyncManager
 from pathlib import Path
 from pickle import PickleError
 from time import time
-from typing import Any, Callable, Dict, List, Optional, Sequence, Set, Tuple, Union
+from typing import Any, Callable, Dict, Iterable, List, Optional, Sequence, Set, Tuple, Union
 
 import numpy as np
 import tables as tb
@@ -1429,8 +1429,14 @@ class GloMPOManager:
         """
 
         self._inspect_dead_children()
+        self._terminate_unresponsive(self._optimizer_packs)
+
+    def _terminate_unresponsive(self, opt_ids: Iterable[int]):
+        """ Force terminates processes among optimizers :obj:`opt_ids` which have given no feedback for too long. """
+
+        for opt_id in opt_ids:
+            pack = self._optimizer_packs[opt_id]
 
-        for opt_id, pack in self._optimizer_packs.items():
             # Find hanging processes
             if pack.process.is_alive() and \
                     time() - self._last_feedback[opt_id] > self._too_long and \
@@ -1446,6 +1452,7 @@ class GloMPOManager:
                     self.opt_log.put_metadata(opt_id, "t_stop", datetime.now())
                     self.opt_log.put_metadata(opt_id, "end_cond", "Forced GloMPO Termination")
                 pack.process.terminate()
+                pack.process.join(3)
 
             # Force kill zombies
             if opt_id in self.hunt_victims and \
@@ -1896,6 +1903,7 @@ class GloMPOManager:
                             continue
                         self.logger.debug("Received %d, %s from %d", key, message, opt_id)
                         if key == 1:
+                            self._last_feedback[opt_id] = time()
                             if self.visualisation:
                                 self.scope.update_pause(opt_id)
                             wait_reply.remove(opt_id)
@@ -1908,6 +1916,7 @@ class GloMPOManager:
                     not_chkpt.add(opt_id)
                     wait_reply.remove(opt_id)
                     living.remove(opt_id)
+            self._terminate_unresponsive(wait_reply)
         self._inspect_dead_children()
         self.logger.info("Optimizers paused and synced.")
 
@@ -1927,6 +1936,7 @@ class GloMPOManager:
         for opt_id in messaged:
             pack = self._optimizer_packs[opt_id]
             if pack.process.is_alive():
+                self._last_feedback[opt_id] = time()  # Silent until now because it was paused
                 if opt_id not in not_chkpt:
                     if self.visualisation:
                         self.scope.update_checkpoint(opt_id)
@@ -1942,11 +1952,12 @@ class GloMPOManager:
                 pack = self._optimizer_packs[opt_id]
                 if not pack.allow_run_event.is_set() or not pack.process.is_alive():
                     wait_reply.remove(opt_id)
+            self._terminate_unresponsive(wait_reply)
 
         # Confirm all restart files are found
         living_names = {f'{opt_id:04}' for opt_id in messaged - not_chkpt}
         for lv in living_names:
-            if not (path / 'optimizers' / lv).exists():
+            if int(lv) in self._graveyard or not (path / 'optimizers' / lv).exists():
                 raise CheckpointingError(f"Unable to identify restart file/folder for optimizer {lv}")
         self.logger.info("All optimizer restart files detected.")
 
@@ -2012,9 +2023,10 @@ class GloMPOManager:
             1 -> Optimizers on
         """
 
-        for pack in self._optimizer_packs.values():
+        for opt_id, pack in self._optimizer_packs.items():
             if pack.process.is_alive():
                 if on_off == 1:
+                    self._last_feedback[opt_id] = time()  # Silent until now because it was paused
                     pack.allow_run_event.set()
                 else:
                     pack.allow_run_event.clear()
-- 
2.43.0


From dbd109cbfe2d77378bd31b050ec084dd050f3bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:11 +0000
Subject: [PATCH 34/53] fix: earlier checkpoint is restored when the user
 interrupts its replacement

---
 glompo/core/manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index ba14d76..4b5099c 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -1184,13 +1184,15 @@ class GloMPOManager:
                 with tarfile.open(tar_path, 'x:gz') as tfile:
                     tfile.add(path, recursive=True, arcname='')
                 self.logger.debug("TarFile built")
-            except Exception as e:
+            except BaseException as e:  # Including a user interrupt
                 self.logger.error("Error encountered during compression.")
                 if tar_path.exists():
                     tar_path.unlink()
                 if overwriting_chkpt:
                     self.logger.info("Overwritten checkpoint restored")
                     ovw_path.replace(tar_path)
+                if not isinstance(e, Exception):
+                    raise
                 raise CheckpointingError("Could not compress checkpoint", e)
 
             # Delete old checkpoints
-- 
2.43.0


From d11875e99359aae6c2410e4f14ed6ff0e20e1f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 35/53] fix: elitist scope keeps the best value when points are
 truncated or undefined

---
 glompo/core/scope.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/glompo/core/scope.py b/glompo/core/scope.py
index 8d0b4a6..74765a9 100644
--- a/glompo/core/scope.py
+++ b/glompo/core/scope.py
@@ -119,6 +119,7 @@ class GloMPOScope:
 
         self.logger = logging.getLogger('glompo.scope')
         self._dead_streams: Set[int] = set()
+        self._opt_best: Dict[int, float] = {}
         self.n_streams = 0
         self.x_max = 0
         self.log_scale = log_scale
@@ -324,12 +325,8 @@ class GloMPOScope:
     def update_optimizer(self, opt_id: int, pt: tuple):
         """ Given `pt` is used to update the `opt_id` optimizer plot."""
         x, y = pt
-        if self.elitism:
-            y_vals = self.opt_streams[opt_id].get_ydata()
-            if len(y_vals) > 0:
-                last = 10 ** y_vals[-1] if self.log_scale else y_vals[-1]
-                if last < y:
-                    y = last
+        if self.elitism:  # Kept separately since the plotted points may be truncated
+            y = self._opt_best[opt_id] = np.fmin(y, self._opt_best.get(opt_id, np.nan))
 
         self._update_point(opt_id, 'all_opt', (x, y))
         self._redraw_graph()
-- 
2.43.0


From de19555ffe698ca5f8b9ca16364df0998eafa3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 36/53] fix: a user interrupt while drawing the scope is not
 lost

---
 glompo/core/scope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/core/scope.py b/glompo/core/scope.py
index 74765a9..52d2014 100644
--- a/glompo/core/scope.py
+++ b/glompo/core/scope.py
@@ -10,7 +10,7 @@ import matplotlib.pyplot as plt
 import numpy as np
 
 from ..common.helpers import glompo_colors
-from ..common.wrappers import catch_user_interrupt, decorate_all_methods, needs_optional_package
+from ..common.wrappers import catch_user_interrupt, needs_optional_package
 
 try:
     import dill
@@ -30,7 +30,6 @@ class MyFFMpegWriter(ani.FFMpegWriter):
         self._frame_sink().close()
 
 
-@decorate_all_methods(catch_user_interrupt)
 class GloMPOScope:
     """ Constructs and records the dynamic plotting of optimizers run in parallel.
 
@@ -386,6 +385,7 @@ class GloMPOScope:
         finally:
             self._is_setup = True
 
+    @catch_user_interrupt
     def generate_movie(self):
         """ Final call to write the saved frames into a single movie. """
         if self.record_movie:
-- 
2.43.0


From 46e4c19e92ba1018113829d531b8e1bdf7055dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 37/53] fix: CMAOptimizer reports success when its own
 convergence criteria are met

---
 glompo/optimizers/cmawrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index 6d08d97..ca9d0db 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -157,6 +157,7 @@ class CMAOptimizer(BaseOptimizer):
             self.logger.info("Setting up fresh CMA")
 
             self.result = MinimizeResult()
+            self.result.success = True  # Unless stopped by the manager, see callstop
             task_settings.update({'bounds': np.transpose(bounds).tolist()})
             self.es = cma.CMAEvolutionStrategy(x0, sigma0, task_settings)
             self.es.inject([x0], force=True)
-- 
2.43.0


From 18a454a7a3c6cea4aecdefc1439a4ca7aa371ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 38/53] fix: CMAOptimizer prints nothing unless verbose

---
 glompo/optimizers/cmawrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index ca9d0db..225663c 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -189,7 +189,7 @@ class CMAOptimizer(BaseOptimizer):
                                     "fx = 'inf' and x = (first vector generated by es.ask())")
                 self.result.x = x[0]
             self.logger.debug("Extracted x and fx from result")
-            if self.verbose and i % 10 == 0 or i == 1:
+            if self.verbose and (i % 10 == 0 or i == 1):
                 print(f"@ iter = {i} fx={self.result.fx:.2E} sigma={self.es.sigma:.3E}")
 
             if callbacks and callbacks():
@@ -206,7 +206,8 @@ class CMAOptimizer(BaseOptimizer):
                     self.injection_frequency and i - self.injection_counter > self.injection_frequency:
                 self.injection_counter = i
                 self.es.inject([self.incumbent['x']], force=self.force_injects)
-                print("Incumbent solution injected.")
+                if self.verbose:
+                    print("Incumbent solution injected.")
 
         self.logger.debug("Exited optimization loop")
 
-- 
2.43.0


From 6d1cdaf2fe0242089abdf07496a336b468a11916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 39/53] fix: CMAOptimizer uses the same population size rule
 every time minimize is called

---
 glompo/optimizers/cmawrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index 225663c..3e38306 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -140,7 +140,7 @@ class CMAOptimizer(BaseOptimizer):
             self.logger.critical('sigma0 value invalid. Please select a positive value.')
             raise ValueError('sigma0 value invalid. Please select a positive value.')
 
-        if not self.popsize:
+        if not self.is_restart and not task_settings.get('popsize'):
             if self.workers > 1:
                 task_settings['popsize'] = self.workers
             else:
-- 
2.43.0


From 348b53fe04a42b69d8f969bfee8f35d8c96f971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 40/53] fix: a CMAOptimizer without valid results can be
 restarted from a checkpoint of its last iteration

---
 glompo/optimizers/cmawrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index 3e38306..ef7858f 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -211,12 +211,14 @@ class CMAOptimizer(BaseOptimizer):
 
         self.logger.debug("Exited optimization loop")
 
+        last_x = self.result.x
         self.result.x, self.result.fx = self.es.result[:2]
         self.result.success = np.isfinite(self.result.fx) and self.result.success
         if self.result.fx == float('inf'):
             self.logger.warning("CMA iteration found no valid results."
                                 "fx = 'inf' and x = (first vector generated by es.ask())")
-            self.result.x = x[0]
+            # No vectors if loaded from a checkpoint made in its last iteration
+            self.result.x = x[0] if x is not None else last_x
 
         if self.verbose:
             print(f"Optimization terminated: success = {self.result.success}")
-- 
2.43.0


From 6fabe2b11dfe424f9bd41a0087bc45d71e48a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 41/53] fix: CMAOptimizer keeps a solution injected during its
 first generation

---
 glompo/optimizers/cmawrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index ef7858f..bfbf8e1 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -157,6 +157,7 @@ class CMAOptimizer(BaseOptimizer):
             self.logger.info("Setting up fresh CMA")
 
             self.result = MinimizeResult()
+            self.incumbent = {'x': None, 'fx': None}
             self.result.success = True  # Unless stopped by the manager, see callstop
             task_settings.update({'bounds': np.transpose(bounds).tolist()})
             self.es = cma.CMAEvolutionStrategy(x0, sigma0, task_settings)
@@ -178,8 +179,8 @@ class CMAOptimizer(BaseOptimizer):
                 self.logger.debug("Unfinished evaluation detected. Breaking out of loop")
                 break
 
-            if i == 1:
-                self.incumbent = {'x': x0, 'fx': fx[0]}
+            if i == 1 and self.incumbent['x'] is None:  # May already have been injected during the evaluations
+                self.incumbent = {'x': x[0], 'fx': fx[0]}
 
             self.es.tell(x, fx)
             self.logger.debug("Told solutions")
-- 
2.43.0


From 146e3bd5bccfa1679d76414cfc65affd75ba1e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 42/53] fix: CMAOptimizer starts counting injections anew when
 minimize is called again

---
 glompo/optimizers/cmawrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glompo/optimizers/cmawrapper.py b/glompo/optimizers/cmawrapper.py
index bfbf8e1..d38333c 100644
--- a/glompo/optimizers/cmawrapper.py
+++ b/glompo/optimizers/cmawrapper.py
@@ -158,6 +158,7 @@ class CMAOptimizer(BaseOptimizer):
 
             self.result = MinimizeResult()
             self.incumbent = {'x': None, 'fx': None}
+            self.injection_counter = 0
             self.result.success = True  # Unless stopped by the manager, see callstop
             task_settings.update({'bounds': np.transpose(bounds).tolist()})
             self.es = cma.CMAEvolutionStrategy(x0, sigma0, task_settings)
-- 
2.43.0


From 151d71b4da1e1a8330dc7c2b98e4fb9a000176e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 43/53] fix: a checkpoint can be resumed with other summary
 files

---
 glompo/core/manager.py         |  9 ++++++--
 glompo/core/optimizerlogger.py | 39 ++++++++++++++++++++++++++++------
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 4b5099c..8ae306c 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -794,8 +794,13 @@ class GloMPOManager:
                 self.scope = GloMPOScope(**self.visualisation_args)
 
         # Rebuild optimizer logger
-        self.opt_log = FileLogger if self.summary_files > 2 else BaseLogger
-        self.opt_log = self.opt_log.checkpoint_load(tmp_dir / 'opt_log')
+        log_type = FileLogger if self.summary_files > 2 else BaseLogger
+        self.opt_log = log_type(n_parms=self.n_parms,
+                                expected_rows=self._log_expected_rows(),
+                                build_traj_plot=self.summary_files > 1)
+        saved_log = vars(log_type.checkpoint_load(tmp_dir / 'opt_log'))
+        saved_log['build_traj_plot'] = self.summary_files > 1  # May have been changed from that of the checkpoint
+        vars(self.opt_log).update(saved_log)
 
         # Modify/create missing variables
         assert len(self.dt_starts) == len(self.dt_ends), "Timestamps missing from checkpoint."
diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index de3e3aa..ed63a5b 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -7,7 +7,7 @@ import numpy as np
 import tables as tb
 from tables.exceptions import HDF5ExtError
 
-from ..common.helpers import deepsizeof, glompo_colors, rolling_min
+from ..common.helpers import deepsizeof, glompo_colors, infer_headers, rolling_min
 from ..common.namedtuples import IterationResult
 from ..common.wrappers import needs_optional_package
 
@@ -253,7 +253,7 @@ class BaseLogger:
 
             ax.plot(f_calls, traj, ls='-', marker='.', c=colors(opt_id))
             leg_elements.append(lines.Line2D([], [], ls='-', c=colors(opt_id),
-                                             label=f"{opt_id}: {self.get_metadata(opt_id, 'opt_type')}"))
+                                             label=f"{opt_id}: {self._best_iters[opt_id]['type']}"))
 
             try:
                 end_cond = self.get_metadata(opt_id, "end_cond")
@@ -382,9 +382,7 @@ class FileLogger(BaseLogger):
     def add_iter_history(self, opt_id: int, extra_headers: Optional[Dict[str, tb.Col]] = None):
         """ Creates an iteration history table in the HDF5 file. """
         super().add_iter_history(opt_id, {})  # Do not hold extras in memory if file in use.
-        headers = {'call_id': tb.UInt32Col(pos=-3),
-                   'x': tb.Float64Col(shape=self.n_task_dims, pos=-2),
-                   'fx': tb.Float64Col(pos=-1)}
+        headers = self._base_headers()
 
         if extra_headers:
             headers = {**headers, **extra_headers}
@@ -436,6 +434,8 @@ class FileLogger(BaseLogger):
         try:
             return super().get_metadata(opt_id, key)
         except KeyError:
+            if opt_id not in self:  # Closed before the log file was started
+                raise
             return self._get_group(opt_id)._v_attrs[key]
 
     def get_history(self, opt_id: int, track: str) -> List:
@@ -449,6 +449,12 @@ class FileLogger(BaseLogger):
 
             return []
 
+    def _base_headers(self) -> Dict[str, tb.Col]:
+        """ Returns the columns present in every iteration history table. """
+        return {'call_id': tb.UInt32Col(pos=-3),
+                'x': tb.Float64Col(shape=self.n_task_dims, pos=-2),
+                'fx': tb.Float64Col(pos=-1)}
+
     def _create_group(self, opt_id: int):
         """ Creates the group of an optimizer in the HDF5 file with the metadata and messages known so far. """
         group = self.pytab_file.create_group(where='/',
@@ -538,8 +544,27 @@ class FileLogger(BaseLogger):
             self._tables = {int(t._v_pathname.split('/')[1].split('_')[1]): t for t in
                             self.pytab_file.walk_nodes('/', 'Table')}
 
+        fileless = self._o_counter == 0 and super().n_optimizers > 0
+        if fileless:  # Loaded from the checkpoint of a log without a file, write what is known of the living optimizers
+            self._o_counter = super().n_optimizers
+            for opt_id, store in self._storage.items():
+                self._writing_chunk[opt_id] = []
+                if super().has_iter_history(opt_id):
+                    columns = [key for key in store if key not in ('metadata', 'messages')]
+                    rows = [*zip(*(store[key] for key in columns))]
+                    self._headers[opt_id] = self._base_headers()
+                    if rows:
+                        self._headers[opt_id].update(zip(columns[3:], infer_headers(rows[-1][3:]).values()))
+                    known = self._tables[opt_id].col('call_id') if opt_id in self._tables else []
+                    self._writing_chunk[opt_id] = [[row] for row in rows if row[0] not in known]
+
+        if mode == 'a':
             # Optimizers alive at the checkpoint, undo what the file recorded about them after it
             for opt_id, store in self._storage.items():
+                if fileless and opt_id not in self:
+                    self._create_group(opt_id)
+                if fileless and opt_id in self._headers and opt_id not in self._tables:
+                    self._create_table(opt_id)
                 group = self._get_group(opt_id)
                 for key in ('t_stop', 'end_cond'):
                     if key in group._v_attrs and key not in store['metadata']:
@@ -553,7 +578,9 @@ class FileLogger(BaseLogger):
                         group['messages'].append(message)
 
         elif self._o_counter > 0:
-            warnings.warn("The log file of the checkpoint was not found, continuing in a new log file.", RuntimeWarning)
+            if not fileless:
+                warnings.warn("The log file of the checkpoint was not found, continuing in a new log file.",
+                              RuntimeWarning)
             for opt_id in self._storage:
                 self._create_group(opt_id)
                 if opt_id in self._headers:
-- 
2.43.0


From a0e014a0ca55683dd9c10cc803a9e98f57df1b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 44/53] fix: a manager whose checkpoint could not be loaded is
 not initialised

---
 glompo/core/manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 8ae306c..7ea677d 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -712,6 +712,7 @@ class GloMPOManager:
         try:
             with (tmp_dir / 'manager').open('rb') as file:
                 data = dill.load(file)
+                data.pop('_is_restart', None)  # Only initialised once everything is loaded
                 for var, val in data.items():
                     try:
                         setattr(self, var, val)
-- 
2.43.0


From 008de1786dc99027dfeaa01d868466b7e33a7b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 45/53] fix: the task provided is used if the task loader fails

---
 glompo/core/manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 7ea677d..3c50363 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -742,7 +742,9 @@ class GloMPOManager:
                     self.logger.info("Task successfully loaded.")
                 except Exception as e:
                     self.logger.error("Use of task_loader failed.")
-                    raise e
+                    self.task = None
+                    if not task:
+                        raise e
 
             if not self.task and task:
                 try:
-- 
2.43.0


From ba366860ca7a19dcee58b80b12495c1a2e721701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 46/53] fix: nothing of a checkpoint that could not be loaded
 remains in the manager

---
 glompo/core/manager.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/glompo/core/manager.py b/glompo/core/manager.py
index 3c50363..5384aa0 100644
--- a/glompo/core/manager.py
+++ b/glompo/core/manager.py
@@ -699,6 +699,20 @@ class GloMPOManager:
             self.logger.warning("Manager already initialised, cannot reinitialise. Aborting")
             return
 
+        initial = vars(self).copy()
+        try:
+            self._load_checkpoint(path, task_loader, task, **glompo_kwargs)
+        except Exception:
+            # Nothing of the checkpoint must remain behind for another attempt
+            vars(self).clear()
+            vars(self).update(initial)
+            raise
+
+    def _load_checkpoint(self, path: Union[Path, str],
+                         task_loader: Optional[Callable[[Union[Path, str]], Callable[[Sequence[float]], float]]],
+                         task: Optional[Callable[[Sequence[float]], float]], **glompo_kwargs):
+        """ Helper of :meth:`load_checkpoint`. """
+
         path = Path(path).resolve()
         self.logger.info("Initializing from Checkpoint: %s", path)
 
-- 
2.43.0


From e40bb4d5e5fda8828d284203cb3ff0d90098ea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:30 +0000
Subject: [PATCH 47/53] fix: extra columns of the log file keep the order in
 which their values are returned

---
 glompo/core/optimizerlogger.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glompo/core/optimizerlogger.py b/glompo/core/optimizerlogger.py
index ed63a5b..dd3edae 100644
--- a/glompo/core/optimizerlogger.py
+++ b/glompo/core/optimizerlogger.py
@@ -1,5 +1,6 @@
 import datetime
 import warnings
+from copy import copy
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Sequence, Union
 
@@ -386,6 +387,9 @@ class FileLogger(BaseLogger):
 
         if extra_headers:
             headers = {**headers, **extra_headers}
+            for pos, (name, col) in enumerate(headers.items()):  # Rows are written in this order
+                headers[name] = copy(col)
+                headers[name]._v_pos = pos
 
         self._headers[opt_id] = headers
         self._create_table(opt_id)
-- 
2.43.0


From 623f95ab51a4238f99e76528f9559c0482f3be0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:30 +0000
Subject: [PATCH 48/53] fix: minimum of the ZeroSum benchmark function

---
 glompo/benchmark_fncs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 5cc0165..57f90c4 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -1365,11 +1365,11 @@ class ZeroSum(BaseTestCase):
 
     @property
     def min_x(self) -> Sequence[float]:
-        return [7.70628098] * self.dims
+        return [0] * self.dims
 
     @property
     def min_fx(self) -> float:
-        return -self.dims
+        return 0
 
     @property
     def bounds(self) -> Sequence[Tuple[float, float]]:
-- 
2.43.0


From a95f0266ee9ff5a1dfb824a499aefcd905d53b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:30 +0000
Subject: [PATCH 49/53] fix: energy estimate of the LennardJones benchmark
 function in 3D space

---
 glompo/benchmark_fncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 57f90c4..bed192e 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -667,7 +667,7 @@ class LennardJones(BaseTestCase):
 
     @property
     def min_fx(self) -> float:
-        if self._dims == 3:
+        if self.d == 3:
             warnings.warn("Energy minimum estimate only.")
             energy = self.global_min_fitting_coefficients * self.N ** np.arange(6, -1, -1)
             return energy.sum()
-- 
2.43.0


From dba91178342eecdc0dc76fe8955a1161a22ac382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:30 +0000
Subject: [PATCH 50/53] fix: the LennardJones benchmark function observes its
 delay

---
 glompo/benchmark_fncs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index bed192e..ade4339 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -578,7 +578,7 @@ class LennardJones(BaseTestCase):
     The `x` parameter for the call method may be a :math:`Nd` length vector or a :math:`N \\times d` array.
     """
 
-    def __init__(self, atoms: int, dims: int, eps: float = 1, sigma: float = 1, *, delay=None):
+    def __init__(self, atoms: int, dims: int, eps: float = 1, sigma: float = 1, *, delay: float = 0):
         super().__init__(atoms * dims, delay=delay)
         self.N = atoms
         self.d = dims
@@ -604,6 +604,7 @@ class LennardJones(BaseTestCase):
         self._sig11 = sigma ** 11
 
     def __call__(self, x: Sequence[float]) -> float:
+        super().__call__(x)
         x, delta, dists_sq = self._common_calc(x)
 
         calc = self._sig2 / np.array(dists_sq)
-- 
2.43.0


From 9c4b259ca76cb852c1eae432c22665c35102d9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:30 +0000
Subject: [PATCH 51/53] fix: gradient of the LennardJones benchmark function
 for any sigma

---
 glompo/benchmark_fncs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index ade4339..4b58620 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -600,8 +600,8 @@ class LennardJones(BaseTestCase):
         # Pre-calculation shortcuts
         self._triu_indices = np.triu_indices(atoms, 1)
         self._sig2 = sigma ** 2
-        self._sig5 = sigma ** 5
-        self._sig11 = sigma ** 11
+        self._sig6 = sigma ** 6
+        self._sig12 = sigma ** 12
 
     def __call__(self, x: Sequence[float]) -> float:
         super().__call__(x)
@@ -630,7 +630,7 @@ class LennardJones(BaseTestCase):
 
         energy_grads = np.einsum(
             "n,nd->nd",
-            -24 * self.eps * (2 * self._sig11 * dists_sq ** -7 - self._sig5 * dists_sq ** -4),
+            -24 * self.eps * (2 * self._sig12 * dists_sq ** -7 - self._sig6 * dists_sq ** -4),
             delta
         )
 
-- 
2.43.0


From a3cee549184afe388459eb16319281333ca9a32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:30 +0000
Subject: [PATCH 52/53] fix: approximate minimum of the shifted Shekel
 benchmark function

---
 glompo/benchmark_fncs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/glompo/benchmark_fncs.py b/glompo/benchmark_fncs.py
index 4b58620..3af76c2 100644
--- a/glompo/benchmark_fncs.py
+++ b/glompo/benchmark_fncs.py
@@ -1079,6 +1079,9 @@ class Shekel(BaseTestCase):
     def min_fx(self) -> float:
         warnings.warn("Global minimum is only known for some combinations of m and d. The provided value is "
                       "approximate.")
+        if self.shift:
+            return -10.6 + 12
+
         return -10.6
 
     @property
-- 
2.43.0


From 3fdc7427e073e84c0f07176cae17928ce24c5fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:36 +0000
Subject: [PATCH 53/53] fix: best trajectories of values which are numpy
 numbers can be plotted

---
 glompo/common/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glompo/common/helpers.py b/glompo/common/helpers.py
index ef5a853..fb125ca 100644
--- a/glompo/common/helpers.py
+++ b/glompo/common/helpers.py
@@ -4,6 +4,7 @@ import logging
 import math
 import os
 import sys
+from numbers import Real
 from pathlib import Path
 from typing import Any, Dict, Iterator, Optional, Sequence, Tuple, Union, overload
 
@@ -308,7 +309,7 @@ def rolling_min(x: Sequence[float]) -> Sequence[float]:
         >>> rolling_min([3, 4, 5, 6, 2, 3, 4, 1, 2, 3])
         [3, 3, 3, 3, 2, 2, 2, 1, 1, 1]
     """
-    assert all([isinstance(i, (float, int)) and not math.isnan(i) for i in x]), \
+    assert all([isinstance(i, Real) and not math.isnan(i) for i in x]), \
         "Non numerical values found in array, unable to process."
 
     y = list(x).copy()
-- 
2.43.0

