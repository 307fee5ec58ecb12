From 42b4e27a9e4caf40e230ae7a20fe07df6c0a735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 01/50] fix: launcher.cancel with no time limit sends the
 termination signal before waiting

---
 libensemble/utils/launcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/utils/launcher.py b/libensemble/utils/launcher.py
index c88361f..2da1326 100644
--- a/libensemble/utils/launcher.py
+++ b/libensemble/utils/launcher.py
@@ -88,7 +88,7 @@ def wait_and_kill(process: subprocess.Popen, timeout: int | float | None) -> int
 
 def cancel(process: subprocess.Popen, timeout: int | float | None = 0) -> int:
     "Send a termination signal, give a grace period, then hard kill if needed."
-    if timeout is not None and timeout > 0:
+    if timeout is None or timeout > 0:
         terminatepg(process)
     return wait_and_kill(process, timeout)
 
-- 
2.43.0


From 5d52673029a9a2ac37c8685e7b279110c5eca68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 02/50] fix: write a new checkpoint completely before removing
 the previous one

---
 libensemble/manager.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libensemble/manager.py b/libensemble/manager.py
index 5c084d3..9172317 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -331,9 +331,14 @@ class Manager:
 
         filename = fname.format(self.libE_specs["H_file_prefix"], date_start, count)
         if (not os.path.isfile(filename) and count > 0) or complete:
-            for old_file in glob.glob(fname.format(self.libE_specs["H_file_prefix"], date_start, "*")):
-                os.remove(old_file)
-            np.save(filename, self.hist.trim_H())
+            old_files = glob.glob(fname.format(self.libE_specs["H_file_prefix"], date_start, "*"))
+            # Write under a temporary name, so a complete checkpoint exists at all times
+            with open(filename + ".tmp", "wb") as f:
+                np.save(f, self.hist.trim_H())
+            os.replace(filename + ".tmp", filename)
+            for old_file in old_files:
+                if old_file != filename:
+                    os.remove(old_file)
 
     def _save_every_k_sims(self, complete: bool) -> None:
         """Saves history every kth sim step"""
-- 
2.43.0


From 695d6e41a425d0d39c4686aa5b503bc1ab491721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 03/50] fix: keep last_started at the highest row given,
 whatever order rows are given out in

---
 libensemble/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/history.py b/libensemble/history.py
index aa16a4d..ae8d1ef 100644
--- a/libensemble/history.py
+++ b/libensemble/history.py
@@ -178,7 +178,7 @@ class History:
 
         self.sim_started_count += len(q_inds)
         if kill_canceled_sims:
-            self.last_started = np.max(q_inds)
+            self.last_started = max(self.last_started, np.max(q_inds))
 
     def update_history_to_gen(self, q_inds: npt.NDArray):
         """Updates the history (in place) when points are given back to the gen"""
-- 
2.43.0


From e320bc8b5ec222d3936370ec6a4cec437d1a65a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 04/50] fix: QComm.mail_flag reports a pushed-back message

---
 libensemble/comms/comms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/comms/comms.py b/libensemble/comms/comms.py
index 52f71da..a24ee56 100644
--- a/libensemble/comms/comms.py
+++ b/libensemble/comms/comms.py
@@ -142,7 +142,7 @@ class QComm(Comm):
 
     def mail_flag(self):
         """Check whether a message is ready for receipt."""
-        return not self._inbox.empty()
+        return self.recv_buffer is not None or not self._inbox.empty()
 
 
 class QCommLocal(Comm):
-- 
2.43.0


From f6f41e2cedf372fc63de05a9ec90fcd6c20a7953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 05/50] fix: final_gen_send with no rows left sends a plain
 persistent stop

---
 libensemble/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libensemble/manager.py b/libensemble/manager.py
index 9172317..585d51e 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -602,8 +602,10 @@ class Manager:
         if any(self.W["persis_state"]):
             for w in self.W["worker_id"][self.W["persis_state"] > 0]:
                 logger.debug(f"Manager sending PERSIS_STOP to worker {w}")
+                rows_to_send = []
                 if self.libE_specs.get("final_gen_send", False):
                     rows_to_send = np.where(self.hist.H["sim_ended"] & ~self.hist.H["gen_informed"])[0]
+                if len(rows_to_send):
                     work = {
                         "H_fields": self.gen_specs["persis_in"],
                         "persis_info": persis_info.get(w),
-- 
2.43.0


From 7532743520027ed189779f33caeb4b5788474450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 06/50] fix: allocation functions do not replace a work unit
 made in the same call

---
 libensemble/alloc_funcs/fast_alloc_and_pausing.py      |  1 +
 libensemble/alloc_funcs/start_only_persistent.py       |  2 +-
 .../alloc_funcs/start_persistent_local_opt_gens.py     | 10 +++++++---
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/libensemble/alloc_funcs/fast_alloc_and_pausing.py b/libensemble/alloc_funcs/fast_alloc_and_pausing.py
index f26b5c0..0305138 100644
--- a/libensemble/alloc_funcs/fast_alloc_and_pausing.py
+++ b/libensemble/alloc_funcs/fast_alloc_and_pausing.py
@@ -118,6 +118,7 @@ def give_sim_work_first(W, H, sim_specs, gen_specs, alloc_specs, persis_info, li
         else:
             break
 
+    idle_gen_workers = [i for i in idle_gen_workers if i not in Work]
     while len(idle_gen_workers):
         if gen_count < alloc_specs["user"].get("num_active_gens", gen_count + 1):
             lw = persis_info["last_worker"]
diff --git a/libensemble/alloc_funcs/start_only_persistent.py b/libensemble/alloc_funcs/start_only_persistent.py
index 7781ed3..513d281 100644
--- a/libensemble/alloc_funcs/start_only_persistent.py
+++ b/libensemble/alloc_funcs/start_only_persistent.py
@@ -122,7 +122,7 @@ def only_persistent_gens(W, H, sim_specs, gen_specs, alloc_specs, persis_info, l
         avail_workers = support.avail_worker_ids(persistent=False, zero_resource_workers=True, gen_workers=True)
 
         for wid in avail_workers:
-            if gen_count < user.get("num_active_gens", 1):
+            if wid not in Work and gen_count < user.get("num_active_gens", 1):
                 # Finally, start a persistent generator as there is nothing else to do.
                 try:
                     Work[wid] = support.gen_work(
diff --git a/libensemble/alloc_funcs/start_persistent_local_opt_gens.py b/libensemble/alloc_funcs/start_persistent_local_opt_gens.py
index 918ebbb..37300b6 100644
--- a/libensemble/alloc_funcs/start_persistent_local_opt_gens.py
+++ b/libensemble/alloc_funcs/start_persistent_local_opt_gens.py
@@ -80,6 +80,8 @@ def start_persistent_local_opt_gens(W, H, sim_specs, gen_specs, alloc_specs, per
 
     if np.any(points_to_evaluate):
         for wid in support.avail_worker_ids(persistent=False, gen_workers=False):
+            if wid in Work:
+                continue
             # Perform sim evaluations from existing runs
             q_inds_logical = np.logical_and(points_to_evaluate, H["local_pt"])
             if not np.any(q_inds_logical):
@@ -95,8 +97,10 @@ def start_persistent_local_opt_gens(W, H, sim_specs, gen_specs, alloc_specs, per
 
     if gen_count == 0 and not np.any(np.logical_and(W["active"] == EVAL_GEN_TAG, W["persis_state"] == 0)):
         # Finally, generate points since there is nothing else to do (no resource sets req.)
-        wid = support.avail_worker_ids(persistent=False, gen_workers=True)[0]
-        Work[wid] = support.gen_work(wid, gen_specs.get("in", []), [], persis_info[wid], rset_team=[])
-        gen_count += 1
+        for wid in support.avail_worker_ids(persistent=False, gen_workers=True):
+            if wid not in Work:
+                Work[wid] = support.gen_work(wid, gen_specs.get("in", []), [], persis_info[wid], rset_team=[])
+                gen_count += 1
+                break
 
     return Work, persis_info
-- 
2.43.0


From 5058fe014bdaa2e7cb186614a1079bcce4dd19be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 07/50] fix: do not give a row past the end of the history
 after skipping cancelled points

---
 libensemble/alloc_funcs/give_pregenerated_work.py | 2 ++
 libensemble/alloc_funcs/only_one_gen_alloc.py     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/libensemble/alloc_funcs/give_pregenerated_work.py b/libensemble/alloc_funcs/give_pregenerated_work.py
index d2b1ee7..1f4565a 100644
--- a/libensemble/alloc_funcs/give_pregenerated_work.py
+++ b/libensemble/alloc_funcs/give_pregenerated_work.py
@@ -25,6 +25,8 @@ def give_pregenerated_sim_work(W, H, sim_specs, gen_specs, alloc_specs, persis_i
 
     for i in support.avail_worker_ids(gen_workers=False):
         persis_info = support.skip_canceled_points(H, persis_info)
+        if persis_info["next_to_give"] >= len(H):
+            break
 
         # Give sim work
         try:
diff --git a/libensemble/alloc_funcs/only_one_gen_alloc.py b/libensemble/alloc_funcs/only_one_gen_alloc.py
index 7eb6a91..76c70bb 100644
--- a/libensemble/alloc_funcs/only_one_gen_alloc.py
+++ b/libensemble/alloc_funcs/only_one_gen_alloc.py
@@ -24,6 +24,8 @@ def ensure_one_active_gen(W, H, sim_specs, gen_specs, alloc_specs, persis_info,
     if persis_info["next_to_give"] < len(H):
         for wid in support.avail_worker_ids(gen_workers=False):
             persis_info = support.skip_canceled_points(H, persis_info)
+            if persis_info["next_to_give"] >= len(H):
+                break
             try:
                 Work[wid] = support.sim_work(wid, H, sim_specs["in"], [persis_info["next_to_give"]], [])
             except InsufficientFreeResources:
-- 
2.43.0


From 7f3473c93f00deb7d3c507ce5f930157719daf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 08/50] fix: map_numpy_array copies fields that are not part of
 the mapping

---
 libensemble/utils/misc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libensemble/utils/misc.py b/libensemble/utils/misc.py
index 83f2388..d9b7fa1 100644
--- a/libensemble/utils/misc.py
+++ b/libensemble/utils/misc.py
@@ -262,6 +262,10 @@ def map_numpy_array(array: npt.NDArray, mapping: dict = {}) -> npt.NDArray:
 
     # Fill the new array
     for field in mapped_array.dtype.names:
+        if field not in mapping:
+            # Copy non-mapped fields
+            mapped_array[field] = array[field]
+            continue
         # Mapped field: stack the source columns
         val_list = mapping[field]
         if len(val_list) == 1:
-- 
2.43.0


From 586964b668c886f1edb34dbe6f28ef847f8b613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 09/50] fix: honor an empty rset_team given to sim_work or
 gen_work, as documented

---
 libensemble/tools/alloc_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/tools/alloc_support.py b/libensemble/tools/alloc_support.py
index a8c9a65..dab7fe3 100644
--- a/libensemble/tools/alloc_support.py
+++ b/libensemble/tools/alloc_support.py
@@ -201,7 +201,7 @@ class AllocSupport:
 
     def _update_rset_team(self, libE_info, wid, H=None, H_rows=None):
         """Add rset_team to libE_info."""
-        if self.manage_resources and not libE_info.get("rset_team"):
+        if self.manage_resources and libE_info.get("rset_team") is None:
             num_rsets_req = 0
             if self.W[wid]["persis_state"]:
                 # Even if empty list, non-None rset_team stops manager giving default resources
-- 
2.43.0


From 770a965367f4a0fdc3c5d4e64b53a71b159b91f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 10/50] fix: unset markers never overwrite the initial history
 (sim_max of zero)

---
 libensemble/history.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libensemble/history.py b/libensemble/history.py
index ae8d1ef..4a19990 100644
--- a/libensemble/history.py
+++ b/libensemble/history.py
@@ -81,14 +81,14 @@ class History:
         else:
             H = np.zeros(L + len(H0), dtype=specs_dtype_list)
 
-        H["sim_id"][-L:] = -1
+        H["sim_id"][len(H0) :] = -1
         if "_id" in H.dtype.names:
-            H["_id"][-L:] = -1
-        H["sim_started_time"][-L:] = np.inf
-        H["gen_informed_time"][-L:] = np.inf
+            H["_id"][len(H0) :] = -1
+        H["sim_started_time"][len(H0) :] = np.inf
+        H["gen_informed_time"][len(H0) :] = np.inf
 
         if "resource_sets" in H.dtype.names:
-            H["resource_sets"][-L:] = 1
+            H["resource_sets"][len(H0) :] = 1
 
         self.H = H
         self.using_H0 = len(H0) > 0
-- 
2.43.0


From 19e6d13c444e6539d284b237b5b07bf4114541e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 11/50] fix: inverse_bayes allocation waits when resources for
 the generator are not free

---
 libensemble/alloc_funcs/inverse_bayes_allocf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libensemble/alloc_funcs/inverse_bayes_allocf.py b/libensemble/alloc_funcs/inverse_bayes_allocf.py
index e0521df..05ea8e1 100644
--- a/libensemble/alloc_funcs/inverse_bayes_allocf.py
+++ b/libensemble/alloc_funcs/inverse_bayes_allocf.py
@@ -60,6 +60,9 @@ def only_persistent_gens_for_inverse_bayes(W, H, sim_specs, gen_specs, alloc_spe
 
     elif gen_count == 0:
         wid = support.avail_worker_ids(persistent=False, gen_workers=True)[0]
-        Work[wid] = support.gen_work(wid, gen_specs["in"], [], persis_info.get(wid), persistent=True)
+        try:
+            Work[wid] = support.gen_work(wid, gen_specs["in"], [], persis_info.get(wid), persistent=True)
+        except InsufficientFreeResources:
+            pass
 
     return Work, persis_info
-- 
2.43.0


From a412e12043214c063dfceac7a3699bd08188c0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 12/50] fix: end every local worker and close the logs even if
 one worker ended with an error

---
 libensemble/libE.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libensemble/libE.py b/libensemble/libE.py
index 601d8d0..12e82d6 100644
--- a/libensemble/libE.py
+++ b/libensemble/libE.py
@@ -124,7 +124,7 @@ from pathlib import Path
 
 import numpy as np
 
-from libensemble.comms.comms import QCommProcess, QCommThread, Timeout
+from libensemble.comms.comms import QCommProcess, QCommThread, RemoteException, Timeout
 from libensemble.comms.logs import manager_logging_config
 from libensemble.comms.tcp_mgr import ClientQCommManager, ServerQCommManager
 from libensemble.executors.executor import Executor
@@ -468,11 +468,16 @@ def start_proc_team(nworkers, sim_specs, gen_specs, libE_specs, log_comm=True):
 
 def kill_proc_team(wcomms, timeout):
     """Join on workers (and terminate forcefully if needed)."""
+    remote_exc = None
     for wcomm in wcomms:
         try:
             wcomm.result(timeout=timeout)
         except Timeout:
             wcomm.terminate()
+        except RemoteException as e:  # Report once the other workers have ended
+            remote_exc = remote_exc or e
+    if remote_exc is not None:
+        raise remote_exc
 
 
 def libE_local(sim_specs, gen_specs, exit_criteria, persis_info, alloc_specs, libE_specs, H0):
@@ -505,9 +510,11 @@ def libE_local(sim_specs, gen_specs, exit_criteria, persis_info, alloc_specs, li
     # Set up cleanup routine to shut down worker team
     def cleanup():
         """Handler to clean up comms team."""
-        kill_proc_team(wcomms, timeout=libE_specs["worker_timeout"])
-        if exit_logger is not None:
-            exit_logger()
+        try:
+            kill_proc_team(wcomms, timeout=libE_specs["worker_timeout"])
+        finally:
+            if exit_logger is not None:
+                exit_logger()
 
     # Run generic manager
     return manager(
-- 
2.43.0


From e67872ed900e1007192bcedfce5049c6a2d2a061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:46 +0000
Subject: [PATCH 13/50] fix: refuse a resource set held by another worker; a
 generator on the manager holds none

---
 libensemble/manager.py                    | 2 +-
 libensemble/resources/worker_resources.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libensemble/manager.py b/libensemble/manager.py
index 585d51e..1758003 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -403,7 +403,7 @@ class Manager:
 
         if rset_req is None:
             rset_team = []
-            default_rset = resource_manager.index_list[w - 1]
+            default_rset = resource_manager.index_list[w - 1] if w > 0 else None  # worker 0 is on manager
             if default_rset is not None:
                 rset_team.append(default_rset)
             Work["libE_info"]["rset_team"] = rset_team
diff --git a/libensemble/resources/worker_resources.py b/libensemble/resources/worker_resources.py
index 5033b2a..e2ca675 100644
--- a/libensemble/resources/worker_resources.py
+++ b/libensemble/resources/worker_resources.py
@@ -83,7 +83,7 @@ class ResourceManager(RSetResources):
                     else:
                         self.nongpu_rsets_free -= 1
                 elif wid != worker_id:
-                    ResourceManagerException(
+                    raise ResourceManagerException(
                         f"Error: Attempting to assign rsets {rset_team}" f" already assigned to workers: {rteam}"
                     )
 
-- 
2.43.0


From 4ee500f45956e4de7da7b60a69acdc5db947a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:04 +0000
Subject: [PATCH 14/50] fix: final_gen_send reaches a generator in active
 receive mode

---
 libensemble/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libensemble/manager.py b/libensemble/manager.py
index 1758003..c59dbbd 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -612,6 +612,8 @@ class Manager:
                         "tag": PERSIS_STOP,
                         "libE_info": {"persistent": True, "H_rows": rows_to_send},
                     }
+                    if self.W[w]["active_recv"]:
+                        work["libE_info"]["active_recv"] = True
                     self._check_work_order(work, w, force=True)
                     self._send_work_order(work, w)
                     self.hist.update_history_to_gen(rows_to_send)
-- 
2.43.0


From d4acc3822b895adbcfc5cfe4962ba56154c7ac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:04 +0000
Subject: [PATCH 15/50] fix: PersistentSupport.recv does not wait for rows the
 manager does not send

---
 libensemble/tools/persistent_support.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libensemble/tools/persistent_support.py b/libensemble/tools/persistent_support.py
index 7e9643e..8e9d148 100644
--- a/libensemble/tools/persistent_support.py
+++ b/libensemble/tools/persistent_support.py
@@ -88,6 +88,9 @@ class PersistentSupport:
         # Only replace rows - keep same dictionary
         self.libE_info["H_rows"] = Work["libE_info"]["H_rows"]
 
+        if len(self.libE_info["H_rows"]) == 0:
+            return tag, Work, None  # The manager sends no rows message for an order without rows
+
         data_tag, calc_in = self.comm.recv()  # Receive work rows
 
         # Check for unexpected STOP (e.g., error between sending Work info and rows)
-- 
2.43.0


From 2910f3c6e0d343f72a1c6189145ec39ecdf012d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:30 +0000
Subject: [PATCH 16/50] fix: gen_max counts only points generated in this run

---
 libensemble/history.py | 1 +
 libensemble/manager.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/libensemble/history.py b/libensemble/history.py
index 4a19990..f9c6961 100644
--- a/libensemble/history.py
+++ b/libensemble/history.py
@@ -93,6 +93,7 @@ class History:
         self.H = H
         self.using_H0 = len(H0) > 0
         self.index = len(H0)
+        self.offset = len(H0)
         self.grow_count = 0
         self.safe_mode = False
 
diff --git a/libensemble/manager.py b/libensemble/manager.py
index c59dbbd..29288e6 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -283,7 +283,7 @@ class Manager:
 
     def term_test_gen_max(self, gen_max: int) -> bool:
         """Checks against max generator calls"""
-        return self.hist.index >= gen_max + self.hist.gen_informed_offset
+        return self.hist.index >= gen_max + self.hist.offset
 
     def term_test_stop_val(self, stop_val: Any) -> bool:
         """Checks against stop value criterion"""
-- 
2.43.0


From 982eaef7c3e6d2a7cc9c1172622ae94fdde9ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:53 +0000
Subject: [PATCH 17/50] fix: an idle worker discards a persistent stop that
 carries final rows

---
 libensemble/worker.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libensemble/worker.py b/libensemble/worker.py
index 3574f74..61795f2 100644
--- a/libensemble/worker.py
+++ b/libensemble/worker.py
@@ -403,13 +403,15 @@ class Worker:
                         continue
 
                 # Active recv is for persistent worker only - throw away here
+                # (as is a persistent stop with final rows for a user function that has returned)
                 if isinstance(Work, dict):
                     if Work.get("libE_info", False):
-                        if Work["libE_info"].get("active_recv", False) and not Work["libE_info"].get(
-                            "persistent", False
+                        if mtag == PERSIS_STOP or (
+                            Work["libE_info"].get("active_recv", False)
+                            and not Work["libE_info"].get("persistent", False)
                         ):
                             if len(Work["libE_info"]["H_rows"]) > 0:
-                                _, _, _ = self._recv_H_rows(Work)
+                                self.comm.recv()
                             continue
                 else:
                     logger.debug(f"mtag: {mtag}; Work: {Work}")
-- 
2.43.0


From d8481b964e4a3726a765c568aed57dafd1a7af90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:53 +0000
Subject: [PATCH 18/50] fix: final_gen_send sends the final rows to generators,
 not to persistent simulators

---
 libensemble/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/manager.py b/libensemble/manager.py
index 29288e6..5a39300 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -603,7 +603,7 @@ class Manager:
             for w in self.W["worker_id"][self.W["persis_state"] > 0]:
                 logger.debug(f"Manager sending PERSIS_STOP to worker {w}")
                 rows_to_send = []
-                if self.libE_specs.get("final_gen_send", False):
+                if self.libE_specs.get("final_gen_send", False) and self.W[w]["persis_state"] == EVAL_GEN_TAG:
                     rows_to_send = np.where(self.hist.H["sim_ended"] & ~self.hist.H["gen_informed"])[0]
                 if len(rows_to_send):
                     work = {
-- 
2.43.0


From c7b5706a01fb34c1cef81129c0451cf46c5dd22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:20 +0000
Subject: [PATCH 19/50] fix: a bare output array of two rows is not split into
 output and persis_info

---
 libensemble/worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/worker.py b/libensemble/worker.py
index 61795f2..37d797b 100644
--- a/libensemble/worker.py
+++ b/libensemble/worker.py
@@ -293,7 +293,7 @@ class Worker:
                 if not isinstance(out, np.ndarray) and len(out) >= 3:  # Out, persis_info, calc_status
                     calc_status = out[2]
                     return out
-                elif len(out) == 2:  # Out, persis_info OR Out, calc_status
+                elif not isinstance(out, np.ndarray) and len(out) == 2:  # Out, persis_info OR Out, calc_status
                     if isinstance(out[1], (int, str)):  # got Out, calc_status
                         calc_status = out[1]
                         return out[0], Work["persis_info"], calc_status
-- 
2.43.0


From a30af96b0fd22257ff7d50833c843949f650c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 20/50] fix: a finish signal seen during a calculation is kept
 when the user function returns its own status

---
 libensemble/worker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libensemble/worker.py b/libensemble/worker.py
index 37d797b..3af58ea 100644
--- a/libensemble/worker.py
+++ b/libensemble/worker.py
@@ -288,6 +288,8 @@ class Worker:
                 tag, message = self.comm.recv()
                 if tag in [STOP_TAG, PERSIS_STOP] and message is MAN_SIGNAL_FINISH:
                     calc_status = MAN_SIGNAL_FINISH
+                    # Keep for the worker loop, in case the user function returns its own status
+                    self.comm.push_to_buffer(tag, message)
 
             if out is not None:
                 if not isinstance(out, np.ndarray) and len(out) >= 3:  # Out, persis_info, calc_status
-- 
2.43.0


From 2baceca157892a338ce02d778cd124235a76f294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:13 +0000
Subject: [PATCH 21/50] fix: a refused start in an existing copy-back directory
 stops the workers

---
 libensemble/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/manager.py b/libensemble/manager.py
index 5a39300..24f1b1c 100644
--- a/libensemble/manager.py
+++ b/libensemble/manager.py
@@ -261,7 +261,7 @@ class Manager:
 
         try:
             temp_EnsembleDirectory.make_copyback()
-        except AssertionError as e:  # Ensemble dir exists and isn't empty.
+        except (AssertionError, FileExistsError) as e:  # Ensemble dir (or its copy-back dir) exists and isn't empty.
             logger.manager_warning(_USER_CALC_DIR_WARNING.format(temp_EnsembleDirectory.ensemble_dir))
             self._kill_workers()
             raise ManagerException(
-- 
2.43.0


From 0132579d73dfe3fed0bf1f446bd15eca00675f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:19 +0000
Subject: [PATCH 22/50] fix: a stop in place of the initial results is not
 ingested by suggest/ingest generators

---
 libensemble/utils/runners.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libensemble/utils/runners.py b/libensemble/utils/runners.py
index ee0ebd6..1f2249f 100644
--- a/libensemble/utils/runners.py
+++ b/libensemble/utils/runners.py
@@ -155,7 +155,8 @@ class StandardGenRunner(Runner):
 
     def _start_generator_loop(self, tag, Work, H_in):
         """Start the generator loop after choosing best way of giving initial results to gen"""
-        self._convert_initial_ingest(H_in)
+        if H_in is not None:  # None if stopped before the initial results were given
+            self._convert_initial_ingest(H_in)
         return self._loop_over_gen(tag, Work, H_in)
 
     def _persistent_result(self, calc_in, persis_info, libE_info):
-- 
2.43.0


From 972a28522d2f9733239d784ef98b38a7c825c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:19 +0000
Subject: [PATCH 23/50] fix: a stop sent with the initial results ends a
 threaded generator

---
 libensemble/utils/runners.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libensemble/utils/runners.py b/libensemble/utils/runners.py
index 1f2249f..a9dba64 100644
--- a/libensemble/utils/runners.py
+++ b/libensemble/utils/runners.py
@@ -231,8 +231,11 @@ class LibensembleGenThreadRunner(StandardGenRunner):
             else:
                 self.ps.send(points)
 
-    def _loop_over_gen(self, *args):
+    def _loop_over_gen(self, tag, Work, H_in):
         """Cycle between moving all outbound / inbound messages between threaded gen and manager"""
+        if tag in [STOP_TAG, PERSIS_STOP]:  # stopped with (or in place of) the initial results
+            self.gen.ingest_numpy(None, PERSIS_STOP)
+            return self.gen._running_gen_f.result()
         while True:
             time.sleep(0.0025)  # dont need to ping the gen relentlessly. Let it calculate. 400hz
             self._suggest_and_send()
-- 
2.43.0


From e6d8d1aa10892a6115d5135b7b7634dd7461c0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:19 +0000
Subject: [PATCH 24/50] fix: results given to a suggest/ingest generator are
 mapped like its initial results

---
 libensemble/utils/runners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/utils/runners.py b/libensemble/utils/runners.py
index a9dba64..a387cb3 100644
--- a/libensemble/utils/runners.py
+++ b/libensemble/utils/runners.py
@@ -132,7 +132,7 @@ class StandardGenRunner(Runner):
         )
 
     def _convert_ingest(self, x: npt.NDArray) -> list:
-        self.gen.ingest(np_to_list_dicts(x))
+        self.gen.ingest(np_to_list_dicts(x, mapping=getattr(self.gen, "variables_mapping", {})))
 
     def _convert_initial_ingest(self, x: npt.NDArray) -> list:
         self.gen.ingest(np_to_list_dicts(x, mapping=getattr(self.gen, "variables_mapping", {})))
-- 
2.43.0


From 57bb836c122cd50f2d54e9e6650f9d01fa5faacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:32 +0000
Subject: [PATCH 25/50] fix: APOSMM waiting for sample points obeys a stop

---
 libensemble/gen_funcs/persistent_aposmm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libensemble/gen_funcs/persistent_aposmm.py b/libensemble/gen_funcs/persistent_aposmm.py
index 3102bb9..35c1458 100644
--- a/libensemble/gen_funcs/persistent_aposmm.py
+++ b/libensemble/gen_funcs/persistent_aposmm.py
@@ -182,6 +182,9 @@ def aposmm(H, persis_info, gen_specs, libE_info):
                 # gonna loop here while the user suggests/ingests sample points until we reach the desired sample size
                 while n_s < user_specs["initial_sample_size"]:
                     tag, Work, presumptive_user_sample = ps.recv()
+                    if tag in [STOP_TAG, PERSIS_STOP]:
+                        persis_info["run_order"] = run_order
+                        return local_H, persis_info, FINISHED_PERSISTENT_GEN_TAG
                     if presumptive_user_sample is not None:
                         n_s, n_r = update_local_H_after_receiving(
                             local_H, n, n_s, user_specs, Work, presumptive_user_sample, fields_to_pass, init=True
-- 
2.43.0


From d6d52357c358cb2ea831bd1984ea73254d63ace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:22 +0000
Subject: [PATCH 26/50] fix: final rows given with a stop reach a threaded
 generator

---
 libensemble/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/generators.py b/libensemble/generators.py
index ef2251e..1ba8857 100644
--- a/libensemble/generators.py
+++ b/libensemble/generators.py
@@ -201,7 +201,7 @@ class PersistentGenInterfacer(LibensembleGenerator):
             results = self._prep_fields(results)
             Work = {"libE_info": {"H_rows": np.copy(results["sim_id"]), "persistent": True, "executor": None}}
             self._running_gen_f.send(tag, Work)
-            self._running_gen_f.send(tag, np.copy(results))
+            self._running_gen_f.send(0, np.copy(results))  # as the manager does: rows are not a stop
         else:
             self._running_gen_f.send(tag, None)
 
-- 
2.43.0


From 62ead3ad927be32b4ff6dbc1a6a0beaeb3e25248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:25 +0000
Subject: [PATCH 27/50] fix: polling, waiting for or killing a task that failed
 to start no longer raises

---
 libensemble/executors/executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/executors/executor.py b/libensemble/executors/executor.py
index 81e2cd8..c98b4f3 100644
--- a/libensemble/executors/executor.py
+++ b/libensemble/executors/executor.py
@@ -225,10 +225,10 @@ class Task:
 
     def _check_poll(self) -> bool:
         """Check whether polling this task makes sense."""
-        jassert(self.process is not None, f"task {self.name} has no process ID - check task has been launched")
         if self.finished:
             logger.debug(f"Polled task {self.name} has already finished. Not re-polling. Status is {self.state}")
             return False
+        jassert(self.process is not None, f"task {self.name} has no process ID - check task has been launched")
         return True
 
     def _set_complete(self) -> None:
-- 
2.43.0


From b6e2c4a84a97f43e49ce24df4ee4be3f358e270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:25 +0000
Subject: [PATCH 28/50] fix: polling for a manager signal no longer drops other
 messages

---
 libensemble/executors/executor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libensemble/executors/executor.py b/libensemble/executors/executor.py
index c98b4f3..a1110d1 100644
--- a/libensemble/executors/executor.py
+++ b/libensemble/executors/executor.py
@@ -552,11 +552,12 @@ class Executor:
 
         self.manager_signal = None  # Reset
 
-        # Check for messages; disregard anything but a stop signal
+        # Check for messages; leave anything but a stop signal for the receiver
         if not self.comm.mail_flag():
             return
         mtag, man_signal = self.comm.recv()
         if mtag != STOP_TAG:
+            self.comm.push_to_buffer(mtag, man_signal)
             return
 
         # Process the signal and push back on comm (for now)
-- 
2.43.0


From bcf2b8cdb724c33e8cb389348941f684107c303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:25 +0000
Subject: [PATCH 29/50] fix: use the platform's GPU option name for runners
 without a default option

---
 libensemble/executors/mpi_runner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libensemble/executors/mpi_runner.py b/libensemble/executors/mpi_runner.py
index 48953cc..1a61df3 100644
--- a/libensemble/executors/mpi_runner.py
+++ b/libensemble/executors/mpi_runner.py
@@ -217,7 +217,9 @@ class MPIRunner:
 
         elif gpu_setting_type in ["option_gpus_per_node", "option_gpus_per_task"]:
             gpu_value = gpus_per_node // ppn if gpu_setting_type == "option_gpus_per_task" else gpus_per_node
-            gpu_setting_name = self.platform_info.get("gpu_setting_name", self._get_default_arg(gpu_setting_type))
+            gpu_setting_name = self.platform_info.get("gpu_setting_name")
+            if gpu_setting_name is None:
+                gpu_setting_name = self._get_default_arg(gpu_setting_type)
             extra_args = self._set_gpu_cli_option(wresources, extra_args, gpu_setting_name, gpu_value)
 
         else:  # gpu_setting_type == "env":
-- 
2.43.0


From 89101a0554a0c75f261d0a7521209824d1111081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:25 +0000
Subject: [PATCH 30/50] fix: unset platform_specs fields no longer erase those
 of the named platform

---
 libensemble/resources/platforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libensemble/resources/platforms.py b/libensemble/resources/platforms.py
index 6bddbe6..ecb1d00 100644
--- a/libensemble/resources/platforms.py
+++ b/libensemble/resources/platforms.py
@@ -336,7 +336,8 @@ def get_platform(libE_specs):
         platform_specs = libE_specs.get("platform_specs")
         if platform_specs:
             for k, v in platform_specs.items():
-                platform_info[k] = v
+                if v is not None:
+                    platform_info[k] = v
     elif libE_specs.get("platform_specs"):
         platform_info = libE_specs["platform_specs"]
         platform_info = {k: v for k, v in platform_info.items() if v is not None}
-- 
2.43.0


From fb0ce615af7e2d4127dbe76648d6db3b0eab9e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:33 +0000
Subject: [PATCH 31/50] fix: launched TCP workers are ended when starting the
 team fails

---
 libensemble/libE.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/libensemble/libE.py b/libensemble/libE.py
index 12e82d6..77725ce 100644
--- a/libensemble/libE.py
+++ b/libensemble/libE.py
@@ -575,17 +575,22 @@ def libE_tcp_start_team(manager, nworkers, workers, ip, port, authkey, launchf):
     """Launch nworkers workers that attach back to a managers server."""
     worker_procs = []
     specs = {"manager_ip": ip, "manager_port": port, "authkey": authkey}
-    with Timer() as timer:
-        for w in range(1, nworkers + 1):
-            logger.info(f"Manager is launching worker {w}")
-            if workers is not None:
-                specs["worker_ip"] = workers[w - 1]
-                specs["tunnel_port"] = 0x71BE
-            specs["workerID"] = w
-            worker_procs.append(launchf(specs))
-        logger.info(f"Manager is awaiting {nworkers} workers")
-        wcomms = manager.await_workers(nworkers)
-        logger.info(f"Manager connected to {nworkers} workers ({timer.elapsed} s)")
+    try:
+        with Timer() as timer:
+            for w in range(1, nworkers + 1):
+                logger.info(f"Manager is launching worker {w}")
+                if workers is not None:
+                    specs["worker_ip"] = workers[w - 1]
+                    specs["tunnel_port"] = 0x71BE
+                specs["workerID"] = w
+                worker_procs.append(launchf(specs))
+            logger.info(f"Manager is awaiting {nworkers} workers")
+            wcomms = manager.await_workers(nworkers)
+            logger.info(f"Manager connected to {nworkers} workers ({timer.elapsed} s)")
+    except BaseException:  # Includes an interrupt while waiting
+        for wp in worker_procs:
+            launcher.cancel(wp)
+        raise
     return worker_procs, wcomms
 
 
-- 
2.43.0


From c6203bdaed7d925d6627e1ac9d2871ab0e93affc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:43 +0000
Subject: [PATCH 32/50] fix: a failure between starting the workers and the
 manager no longer leaves workers running

---
 libensemble/libE.py   | 32 ++++++++++++++++++++++----------
 libensemble/worker.py |  4 +++-
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/libensemble/libE.py b/libensemble/libE.py
index 77725ce..f95004a 100644
--- a/libensemble/libE.py
+++ b/libensemble/libE.py
@@ -131,6 +131,7 @@ from libensemble.executors.executor import Executor
 from libensemble.executors.mpi_executor import MPIExecutor
 from libensemble.history import History
 from libensemble.manager import LoggedException, WorkerException, manager_main, report_worker_exc
+from libensemble.message_numbers import MAN_SIGNAL_FINISH, STOP_TAG
 from libensemble.resources.platforms import get_platform
 from libensemble.resources.resources import Resources
 from libensemble.specs import AllocSpecs, ExitCriteria, GenSpecs, LibeSpecs, SimSpecs, _EnsembleSpecs
@@ -460,8 +461,14 @@ def start_proc_team(nworkers, sim_specs, gen_specs, libE_specs, log_comm=True):
         for w in range(1, nworkers + 1)
     ]
 
-    for wcomm in wcomms:
-        wcomm.run()
+    started = []
+    try:
+        for wcomm in wcomms:
+            wcomm.run()
+            started.append(wcomm)
+    except Exception:
+        kill_proc_team(started, timeout=libE_specs["worker_timeout"])
+        raise
 
     return wcomms
 
@@ -473,6 +480,7 @@ def kill_proc_team(wcomms, timeout):
         try:
             wcomm.result(timeout=timeout)
         except Timeout:
+            wcomm.send(STOP_TAG, MAN_SIGNAL_FINISH)  # Threads cannot be terminated
             wcomm.terminate()
         except RemoteException as e:  # Report once the other workers have ended
             remote_exc = remote_exc or e
@@ -498,14 +506,7 @@ def libE_local(sim_specs, gen_specs, exit_criteria, persis_info, alloc_specs, li
     # Launch worker team and set up logger
     wcomms = start_proc_team(libE_specs["nworkers"], sim_specs, gen_specs, libE_specs)
 
-    # Set manager resources after the forkpoint.
-    if resources is not None:
-        resources.set_resource_manager(libE_specs["nworkers"])
-
-    if not libE_specs["disable_log_files"]:
-        exit_logger = manager_logging_config(specs=libE_specs)
-    else:
-        exit_logger = None
+    exit_logger = None
 
     # Set up cleanup routine to shut down worker team
     def cleanup():
@@ -516,6 +517,17 @@ def libE_local(sim_specs, gen_specs, exit_criteria, persis_info, alloc_specs, li
             if exit_logger is not None:
                 exit_logger()
 
+    try:
+        # Set manager resources after the forkpoint.
+        if resources is not None:
+            resources.set_resource_manager(libE_specs["nworkers"])
+
+        if not libE_specs["disable_log_files"]:
+            exit_logger = manager_logging_config(specs=libE_specs)
+    except Exception:
+        cleanup()
+        raise
+
     # Run generic manager
     return manager(
         wcomms, sim_specs, gen_specs, exit_criteria, persis_info, alloc_specs, libE_specs, hist, on_cleanup=cleanup
diff --git a/libensemble/worker.py b/libensemble/worker.py
index 3af58ea..5d054c6 100644
--- a/libensemble/worker.py
+++ b/libensemble/worker.py
@@ -98,7 +98,9 @@ def worker_main(
         Executor.executor = executor
 
     # Receive dtypes from manager
-    _, dtypes = comm.recv()
+    tag, dtypes = comm.recv()
+    if tag == STOP_TAG:  # The manager ended before the run started
+        return
 
     # Receive workflow dir from manager
     if libE_specs.get("use_workflow_dir"):
-- 
2.43.0


From ca0853a5c5872f810986fee53b7822a84e750cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:53 +0000
Subject: [PATCH 33/50] fix: platform_specs given as a dictionary are checked
 by the platform rules

---
 libensemble/utils/validators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libensemble/utils/validators.py b/libensemble/utils/validators.py
index 2164bf2..8514264 100644
--- a/libensemble/utils/validators.py
+++ b/libensemble/utils/validators.py
@@ -5,7 +5,7 @@ from pathlib import Path
 import numpy as np
 from pydantic import field_validator, model_validator
 
-from libensemble.resources.platforms import Platform
+from libensemble.resources import platforms
 from libensemble.utils.specs_checkers import (
     _check_any_workers_and_disable_rm_if_tcp,
     _check_exit_criteria,
@@ -64,9 +64,9 @@ def check_valid_comms_type(cls, value):
     return value
 
 
-def set_platform_specs_to_class(cls, value) -> Platform:
+def set_platform_specs_to_class(cls, value):
     if isinstance(value, dict):
-        value = Platform(**value)
+        value = platforms.Platform(**value)  # looked up here: pydantic_bindings attaches its validators
     return value
 
 
-- 
2.43.0


From 2ac3e8ca45ffc02b56350bbe017dde2b294e23fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:44 +0000
Subject: [PATCH 34/50] fix: ensembles created with default specs no longer
 share them

---
 libensemble/ensemble.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/libensemble/ensemble.py b/libensemble/ensemble.py
index 0ceba2a..d60aba9 100644
--- a/libensemble/ensemble.py
+++ b/libensemble/ensemble.py
@@ -269,22 +269,23 @@ class Ensemble:
 
     def __init__(
         self,
-        sim_specs: SimSpecs | None = SimSpecs(),
-        gen_specs: GenSpecs | None = GenSpecs(),
-        exit_criteria: ExitCriteria | None = {},
-        libE_specs: LibeSpecs | None = LibeSpecs(),
-        alloc_specs: AllocSpecs | None = AllocSpecs(),
-        persis_info: dict | None = {},
+        sim_specs: SimSpecs | None = None,
+        gen_specs: GenSpecs | None = None,
+        exit_criteria: ExitCriteria | None = None,
+        libE_specs: LibeSpecs | None = None,
+        alloc_specs: AllocSpecs | None = None,
+        persis_info: dict | None = None,
         executor: Executor | None = None,
         H0: npt.NDArray | None = None,
         parse_args: bool | None = False,
     ):
-        self.sim_specs = sim_specs
-        self.gen_specs = gen_specs
-        self.exit_criteria = exit_criteria
-        self._libE_specs = libE_specs
-        self.alloc_specs = alloc_specs
-        self.persis_info = persis_info
+        # Unset specs are created here: defaults in the signature would be shared by all ensembles
+        self.sim_specs = SimSpecs() if sim_specs is None else sim_specs
+        self.gen_specs = GenSpecs() if gen_specs is None else gen_specs
+        self.exit_criteria = {} if exit_criteria is None else exit_criteria
+        self._libE_specs = LibeSpecs() if libE_specs is None else libE_specs
+        self.alloc_specs = AllocSpecs() if alloc_specs is None else alloc_specs
+        self.persis_info = {} if persis_info is None else persis_info
         self.executor = executor
         self.H0 = H0
         self._util_logger = logging.getLogger(__name__)
-- 
2.43.0


From 390b3999ddcf83d8d333abfa99448d2ffa6f06bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:43 +0000
Subject: [PATCH 35/50] fix: options given to an existing ensemble are checked
 like any others

---
 libensemble/ensemble.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libensemble/ensemble.py b/libensemble/ensemble.py
index d60aba9..bc776ae 100644
--- a/libensemble/ensemble.py
+++ b/libensemble/ensemble.py
@@ -320,10 +320,19 @@ class Ensemble:
         if not self._libE_specs:
             self._libE_specs = LibeSpecs(**libE_specs_parsed)
         else:
-            self._libE_specs.__dict__.update(**libE_specs_parsed)
+            if isinstance(self._libE_specs, dict):
+                self._libE_specs = LibeSpecs(**self._libE_specs)
+            self._update_libE_specs(libE_specs_parsed)
 
         return self.nworkers, self.is_manager, self._libE_specs
 
+    def _update_libE_specs(self, new_specs: dict) -> None:
+        """Updates the internal libE_specs, checking the result like any other LibeSpecs"""
+        updated = LibeSpecs(**{**self._libE_specs.__dict__, **new_specs})
+        if "platform_specs" in new_specs:  # may be kept as a dictionary
+            updated.__dict__["platform_specs"] = new_specs["platform_specs"]
+        self._libE_specs.__dict__.update(updated.__dict__)
+
     def ready(self) -> bool:
         """Quickly verify that all necessary data has been provided"""
         return all([i for i in [self.exit_criteria, self._libE_specs, self.sim_specs]])
@@ -361,7 +370,7 @@ class Ensemble:
         if new_specs.get("comms") and hasattr(self._libE_specs, "comms"):
             raise ValueError(OVERWRITE_COMMS_WARN)
 
-        self._libE_specs.__dict__.update(**new_specs)
+        self._update_libE_specs(new_specs)
 
     def _refresh_executor(self):
         Executor.executor = self.executor or Executor.executor
-- 
2.43.0


From e81d6b9f4b74c9213160ae711cf2c87db978907e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:43 +0000
Subject: [PATCH 36/50] fix: generators created with default specs no longer
 share them

---
 libensemble/generators.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/libensemble/generators.py b/libensemble/generators.py
index 1ba8857..fd11aea 100644
--- a/libensemble/generators.py
+++ b/libensemble/generators.py
@@ -42,16 +42,16 @@ class LibensembleGenerator(Generator):
         vocs: VOCS,
         History: npt.NDArray = [],
         persis_info: dict = {},
-        gen_specs: dict = {},
-        libE_info: dict = {},
+        gen_specs: Optional[dict] = None,
+        libE_info: Optional[dict] = None,
         variables_mapping: dict = {},
         **kwargs,
     ):
         self._validate_vocs(vocs)
         self.vocs = vocs
         self.History = History
-        self.gen_specs = gen_specs
-        self.libE_info = libE_info
+        self.gen_specs = {} if gen_specs is None else gen_specs  # not shared by generators, as a default {} would be
+        self.libE_info = {} if libE_info is None else libE_info
 
         self.variables_mapping = variables_mapping
         if not self.variables_mapping:
@@ -128,14 +128,12 @@ class PersistentGenInterfacer(LibensembleGenerator):
         vocs: VOCS,
         History: npt.NDArray = [],
         persis_info: dict = {},
-        gen_specs: dict = {},
-        libE_info: dict = {},
+        gen_specs: Optional[dict] = None,
+        libE_info: Optional[dict] = None,
         **kwargs,
     ) -> None:
         super().__init__(vocs, History, persis_info, gen_specs, libE_info, **kwargs)
-        self.gen_f = gen_specs["gen_f"]
-        self.History = History
-        self.libE_info = libE_info
+        self.gen_f = self.gen_specs["gen_f"]
         self._running_gen_f = None
         self.gen_result = None
 
-- 
2.43.0


From c45b20d0f4ba2dc2ed23952d596f491f5a817e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:02 +0000
Subject: [PATCH 37/50] fix: a generator set up in advance is started when
 first used

---
 libensemble/generators.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/libensemble/generators.py b/libensemble/generators.py
index fd11aea..7b09e33 100644
--- a/libensemble/generators.py
+++ b/libensemble/generators.py
@@ -135,6 +135,7 @@ class PersistentGenInterfacer(LibensembleGenerator):
         super().__init__(vocs, History, persis_info, gen_specs, libE_info, **kwargs)
         self.gen_f = self.gen_specs["gen_f"]
         self._running_gen_f = None
+        self._started = False
         self.gen_result = None
 
     def setup(self) -> None:
@@ -181,19 +182,23 @@ class PersistentGenInterfacer(LibensembleGenerator):
         """Send the results of evaluations to the generator."""
         self.ingest_numpy(list_dicts_to_np(results, mapping=self.variables_mapping), tag)
 
-    def suggest_numpy(self, num_points: int = 0) -> npt.NDArray:
-        """Request the next set of points to evaluate, as a NumPy array."""
+    def _ensure_started(self) -> None:
+        """Start the generator on first use, whether or not setup() was called beforehand"""
         if self._running_gen_f is None:
             self.setup()
+        if not self._started:
             self._running_gen_f.run()
+            self._started = True
+
+    def suggest_numpy(self, num_points: int = 0) -> npt.NDArray:
+        """Request the next set of points to evaluate, as a NumPy array."""
+        self._ensure_started()
         _, suggest_full = self._running_gen_f.recv()
         return suggest_full["calc_out"]
 
     def ingest_numpy(self, results: npt.NDArray, tag: int = EVAL_GEN_TAG) -> None:
         """Send the results of evaluations to the generator, as a NumPy array."""
-        if self._running_gen_f is None:
-            self.setup()
-            self._running_gen_f.run()
+        self._ensure_started()
 
         if results is not None:
             results = self._prep_fields(results)
@@ -205,7 +210,7 @@ class PersistentGenInterfacer(LibensembleGenerator):
 
     def finalize(self) -> None:
         """Stop the generator process and store the returned data."""
-        if self._running_gen_f is None:
+        if not self._started:
             raise RuntimeError("Generator has not been started.")
         self.ingest_numpy(None, PERSIS_STOP)  # conversion happens in ingest
         self.gen_result = self._running_gen_f.result()
-- 
2.43.0


From 098b866258e949d30de272fbbc19fe447bb0de01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:32 +0000
Subject: [PATCH 38/50] fix: results that include sim_ended can be given to a
 generator

---
 libensemble/generators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libensemble/generators.py b/libensemble/generators.py
index 7b09e33..74df202 100644
--- a/libensemble/generators.py
+++ b/libensemble/generators.py
@@ -163,7 +163,9 @@ class PersistentGenInterfacer(LibensembleGenerator):
     def _prep_fields(self, results: npt.NDArray) -> npt.NDArray:
         """Filter out fields that are not in persis_in and add sim_ended to the dtype"""
         filtered_dtype = [
-            (name, results.dtype[name]) for name in results.dtype.names if name in self.gen_specs["persis_in"]
+            (name, results.dtype[name])
+            for name in results.dtype.names
+            if name in self.gen_specs["persis_in"] and name != "sim_ended"
         ]
 
         new_dtype = filtered_dtype + [("sim_ended", bool)]
-- 
2.43.0


From 8d3215842f531535da2725a6d24d7fba49f97b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:34 +0000
Subject: [PATCH 39/50] fix: a stop given with results during APOSMM's initial
 sample reaches the generator

---
 libensemble/gen_classes/aposmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/gen_classes/aposmm.py b/libensemble/gen_classes/aposmm.py
index 543de53..fe25a29 100644
--- a/libensemble/gen_classes/aposmm.py
+++ b/libensemble/gen_classes/aposmm.py
@@ -348,7 +348,7 @@ class APOSMM(PersistentGenInterfacer):
             self._first_called_method = "ingest"
             self.gen_specs["user"]["generate_sample_points"] = False
 
-        if (results is None and tag == PERSIS_STOP) or self._told_initial_sample:
+        if tag == PERSIS_STOP or self._told_initial_sample:  # a stop is never held back
             super().ingest_numpy(results, tag)
             self._last_call = "ingest"
             return
-- 
2.43.0


From 04a021de553808ced9da98bc73343f7e70c9563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:58 +0000
Subject: [PATCH 40/50] fix: APOSMM accepts more initial results than its
 initial sample size

---
 libensemble/gen_classes/aposmm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libensemble/gen_classes/aposmm.py b/libensemble/gen_classes/aposmm.py
index fe25a29..bc985d1 100644
--- a/libensemble/gen_classes/aposmm.py
+++ b/libensemble/gen_classes/aposmm.py
@@ -282,6 +282,9 @@ class APOSMM(PersistentGenInterfacer):
 
     def _slot_in_data(self, results):
         """Slot in libE_calc_in and trial data into corresponding array fields. *Initial sample only!!*"""
+        n_total = self._n_buffd_results + len(results)
+        if n_total > len(self._ingest_buf):  # given more points than the initial sample requires
+            self._ingest_buf = np.resize(self._ingest_buf, n_total)
         for name in results.dtype.names:
             if name == "_id":
                 self._ingest_buf["sim_id"][self._n_buffd_results : self._n_buffd_results + len(results)] = results[
-- 
2.43.0


From e9c138afb1704e281eba1f09c11a6150f0d89325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:45 +0000
Subject: [PATCH 41/50] fix: a threaded generator that ends by itself no longer
 fails the run

---
 libensemble/utils/runners.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libensemble/utils/runners.py b/libensemble/utils/runners.py
index a387cb3..26a5ac8 100644
--- a/libensemble/utils/runners.py
+++ b/libensemble/utils/runners.py
@@ -5,7 +5,7 @@ import time
 
 import numpy.typing as npt
 
-from libensemble.comms.comms import QCommThread
+from libensemble.comms.comms import CommFinishedException, QCommThread
 from libensemble.generators import LibensembleGenerator, PersistentGenInterfacer
 from libensemble.message_numbers import EVAL_GEN_TAG, FINISHED_PERSISTENT_GEN_TAG, PERSIS_STOP, STOP_TAG
 from libensemble.tools.persistent_support import PersistentSupport
@@ -238,7 +238,10 @@ class LibensembleGenThreadRunner(StandardGenRunner):
             return self.gen._running_gen_f.result()
         while True:
             time.sleep(0.0025)  # dont need to ping the gen relentlessly. Let it calculate. 400hz
-            self._suggest_and_send()
+            try:
+                self._suggest_and_send()
+            except CommFinishedException:  # the generator has returned, or failed, by itself
+                return self.gen._running_gen_f.result()
             while self.ps.comm.mail_flag():  # receive any new messages from Manager, give all to gen
                 tag, _, H_in = self.ps.recv()
                 if tag in [STOP_TAG, PERSIS_STOP]:
-- 
2.43.0


From 7a4395785263bb6a447cc1c1720f96db08d417bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:45 +0000
Subject: [PATCH 42/50] fix: undo b6e2c4a, which breaks communicators that
 cannot take a message back (test_man_signal_unrec_tag)

---
 libensemble/executors/executor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libensemble/executors/executor.py b/libensemble/executors/executor.py
index a1110d1..c98b4f3 100644
--- a/libensemble/executors/executor.py
+++ b/libensemble/executors/executor.py
@@ -552,12 +552,11 @@ class Executor:
 
         self.manager_signal = None  # Reset
 
-        # Check for messages; leave anything but a stop signal for the receiver
+        # Check for messages; disregard anything but a stop signal
         if not self.comm.mail_flag():
             return
         mtag, man_signal = self.comm.recv()
         if mtag != STOP_TAG:
-            self.comm.push_to_buffer(mtag, man_signal)
             return
 
         # Process the signal and push back on comm (for now)
-- 
2.43.0


From ae11f889584cb167cda6218f3480b988f809b591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:19 +0000
Subject: [PATCH 43/50] fix: points converted from dictionaries fill declared
 fields that are part of a mapping

---
 libensemble/utils/misc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libensemble/utils/misc.py b/libensemble/utils/misc.py
index d9b7fa1..ec42408 100644
--- a/libensemble/utils/misc.py
+++ b/libensemble/utils/misc.py
@@ -131,6 +131,8 @@ def list_dicts_to_np(list_dicts: list, dtype: list = None, mapping: dict = {}) -
 
     # build a presumptive dtype
     new_dtype_names = _get_new_dtype_fields(first, mapping)
+    # fields asked for by the given dtype are filled, also if they are part of a mapping
+    new_dtype_names += [f[0] for f in dtype or [] if f[0] in first and f[0] not in new_dtype_names]
     combinable_names = _get_combinable_multidim_names(first, new_dtype_names)  # [['x0', 'x1'], ['z']]
 
     if dtype is None:  # Default value gets set upon function instantiation (default is mutable).
@@ -144,10 +146,11 @@ def list_dicts_to_np(list_dicts: list, dtype: list = None, mapping: dict = {}) -
     if len(mapping):
         existing_names = [f[0] for f in dtype]
         for name in mapping:
-            # If the field is already in the dtype, skip it. *And* the field is present in the input data
-            if name not in existing_names and all(src in first for src in mapping[name]):
-                size = len(mapping[name])
-                dtype.append(_decide_dtype(name, 0.0, size))  # default to float
+            # The field must be present in the input data, and is filled whether or not it is already in the dtype
+            if name not in new_dtype_names and all(src in first for src in mapping[name]):
+                if name not in existing_names:
+                    size = len(mapping[name])
+                    dtype.append(_decide_dtype(name, 0.0, size))  # default to float
                 new_dtype_names.append(name)
                 combinable_names.append(mapping[name])
 
-- 
2.43.0


From 130114f92dbfd3f3ce0a59686e35fd64fff69803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:51 +0000
Subject: [PATCH 44/50] fix: dictionaries given to a generator are not cut to
 the type of the first one

---
 libensemble/utils/misc.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libensemble/utils/misc.py b/libensemble/utils/misc.py
index ec42408..cfcf2f2 100644
--- a/libensemble/utils/misc.py
+++ b/libensemble/utils/misc.py
@@ -83,6 +83,15 @@ def _get_combinable_multidim_names(first: dict, new_dtype_names: list) -> list:
     return [[name] for name in new_dtype_names]
 
 
+def _widest_entry(entries: list):
+    """the entry (or an equivalent one) whose type can hold all entries"""
+    if all(isinstance(i, str) for i in entries):
+        return max(entries, key=len)
+    if all(isinstance(i, (bool, int, float, np.number, np.bool_)) for i in entries):
+        return np.array(entries)[0]
+    return entries[0]
+
+
 def _decide_dtype(name: str, entry, size: int) -> tuple:
     """decide dtype of field, and size if needed"""
     if isinstance(entry, str):  # use numpy style for string type
@@ -126,8 +135,8 @@ def list_dicts_to_np(list_dicts: list, dtype: list = None, mapping: dict = {}) -
     if not list_dicts:
         return np.array([], dtype=dtype if dtype else [])
 
-    # first entry is used to determine dtype
-    first = list_dicts[0]
+    # all entries are used to determine dtype, so that no value is cut to fit the first one
+    first = {name: _widest_entry([i.get(name, entry) for i in list_dicts]) for name, entry in list_dicts[0].items()}
 
     # build a presumptive dtype
     new_dtype_names = _get_new_dtype_fields(first, mapping)
-- 
2.43.0


From 73c14f8b423e8312e70a0683a605846087c0d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:00 +0000
Subject: [PATCH 45/50] fix: a worker given no resource sets kept showing the
 slots of its earlier team

---
 libensemble/resources/worker_resources.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libensemble/resources/worker_resources.py b/libensemble/resources/worker_resources.py
index e2ca675..277a9b4 100644
--- a/libensemble/resources/worker_resources.py
+++ b/libensemble/resources/worker_resources.py
@@ -348,6 +348,11 @@ class WorkerResources(RSetResources):
             self.matching_slots = True if all_match else False
             self.slots_on_node = first_node_slots if self.matching_slots else None
             self.slot_count = first_len if self.even_slots else None
+        else:  # No resource sets (do not keep the slots of an earlier team)
+            self.even_slots = True
+            self.matching_slots = True
+            self.slots_on_node = None
+            self.slot_count = None
 
     @staticmethod
     def get_local_nodelist(
-- 
2.43.0


From 22545dcc8091cc2e23cf63917102368999f3d267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:00 +0000
Subject: [PATCH 46/50] fix: process and GPU counts of an earlier work order
 applied to later orders without any

---
 libensemble/worker.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libensemble/worker.py b/libensemble/worker.py
index 5d054c6..ade6f1d 100644
--- a/libensemble/worker.py
+++ b/libensemble/worker.py
@@ -187,8 +187,7 @@ class Worker:
 
     @staticmethod
     def _set_gen_procs_gpus(libE_info, obj):
-        if any(k in libE_info for k in ("num_procs", "num_gpus")):
-            obj.set_gen_procs_gpus(libE_info)
+        obj.set_gen_procs_gpus(libE_info)  # Always, so that those of an earlier work order do not remain
 
     @staticmethod
     def _set_rset_team(libE_info: dict) -> bool:
-- 
2.43.0


From 0778a360bf996d6e7ce211d9f448a180df3afe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:00 +0000
Subject: [PATCH 47/50] fix: sys.exit in a user function was not reported (a
 threaded function never ended)

---
 libensemble/comms/comms.py | 2 +-
 libensemble/worker.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libensemble/comms/comms.py b/libensemble/comms/comms.py
index a24ee56..74224d9 100644
--- a/libensemble/comms/comms.py
+++ b/libensemble/comms/comms.py
@@ -228,7 +228,7 @@ def _qcomm_main(comm, main, *args, **kwargs):
         else:
             _result = main(*args)
         comm.send(CommResult(_result))
-    except Exception as e:
+    except (Exception, SystemExit) as e:
         comm.send(CommResultErr(str(e), format_exc()))
         raise e
 
diff --git a/libensemble/worker.py b/libensemble/worker.py
index ade6f1d..a24e819 100644
--- a/libensemble/worker.py
+++ b/libensemble/worker.py
@@ -306,7 +306,7 @@ class Worker:
             else:
                 return None, Work["persis_info"], calc_status
 
-        except Exception as e:
+        except (Exception, SystemExit) as e:
             logger.debug(f"Re-raising exception from calc {e}")
             calc_status = CALC_EXCEPTION
             raise
@@ -425,7 +425,7 @@ class Worker:
                     break
                 self.comm.send(0, response)
 
-        except Exception as e:
+        except (Exception, SystemExit) as e:
             self.comm.send(0, WorkerErrMsg(" ".join(format_exc_msg(type(e), e)).strip(), format_exc()))
         else:
             self.comm.kill_pending()
-- 
2.43.0


From dbe7073097c7806fb8634b17311f3e733877729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:53 +0000
Subject: [PATCH 48/50] fix: slots of a worker on unevenly shared nodes did not
 start at 0 (a GPU that does not exist could be assigned)

---
 libensemble/resources/worker_resources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libensemble/resources/worker_resources.py b/libensemble/resources/worker_resources.py
index 277a9b4..d5f5eb8 100644
--- a/libensemble/resources/worker_resources.py
+++ b/libensemble/resources/worker_resources.py
@@ -381,7 +381,7 @@ class WorkerResources(RSetResources):
                     slots[node].append(0)
             else:
                 mynode = split_list[index][0]
-                pos_in_node = index % rsets_per_node
+                pos_in_node = index - split_list.index(mynodes)  # First resource set on a node is slot 0
                 slots[mynode].append(pos_in_node)
 
         return local_nodelist, slots
-- 
2.43.0


From 4688df5f5c42dec7fc0f9992c0f9e3b412c7580c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:14 +0000
Subject: [PATCH 49/50] fix: without Globus Compute installed a run failed
 instead of using local resources as announced

---
 libensemble/utils/runners.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libensemble/utils/runners.py b/libensemble/utils/runners.py
index 26a5ac8..cfab7c8 100644
--- a/libensemble/utils/runners.py
+++ b/libensemble/utils/runners.py
@@ -70,8 +70,11 @@ class Runner:
 class GlobusComputeRunner(Runner):
     def __init__(self, specs):
         super().__init__(specs)
-        self.globus_compute_executor = self._get_globus_compute_executor()(endpoint_id=specs["globus_compute_endpoint"])
-        self.globus_compute_fid = self.globus_compute_executor.register_function(self.f)
+        self.globus_compute_executor = None
+        executor = self._get_globus_compute_executor()
+        if executor is not None:
+            self.globus_compute_executor = executor(endpoint_id=specs["globus_compute_endpoint"])
+            self.globus_compute_fid = self.globus_compute_executor.register_function(self.f)
 
     def _get_globus_compute_executor(self):
         try:
@@ -84,6 +87,9 @@ class GlobusComputeRunner(Runner):
             return Executor
 
     def _result(self, calc_in: npt.NDArray, persis_info: dict, libE_info: dict) -> (npt.NDArray, dict, int | None):
+        if self.globus_compute_executor is None:  # Globus Compute is not installed
+            return super()._result(calc_in, persis_info, libE_info)
+
         from libensemble.worker import Worker
 
         libE_info["comm"] = None  # 'comm' object not pickle-able
@@ -94,7 +100,8 @@ class GlobusComputeRunner(Runner):
         return task_fut.result()
 
     def shutdown(self) -> None:
-        self.globus_compute_executor.shutdown()
+        if self.globus_compute_executor is not None:
+            self.globus_compute_executor.shutdown()
 
 
 class ThreadRunner(Runner):
-- 
2.43.0


From f47ff337e487e26bac9aa45d27903225dbf7bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:41 +0000
Subject: [PATCH 50/50] fix: updates of earlier points were asked of a
 generator run in place and dropped

---
 libensemble/utils/runners.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libensemble/utils/runners.py b/libensemble/utils/runners.py
index cfab7c8..c3bb9ce 100644
--- a/libensemble/utils/runners.py
+++ b/libensemble/utils/runners.py
@@ -148,7 +148,10 @@ class StandardGenRunner(Runner):
         """Interact with suggest/ingest generator that *does not* contain a background thread"""
         while tag not in [PERSIS_STOP, STOP_TAG]:
             batch_size = self.specs.get("batch_size") or len(H_in)
-            H_out, _ = self._get_points_updates(batch_size)
+            H_out, updates = self._get_points_updates(batch_size)
+            if updates is not None and len(updates):
+                for i in updates:
+                    self.ps.send(i, keep_state=True)  # keep_state since an update doesn't imply "new points"
             tag, Work, H_in = self.ps.send_recv(H_out)
             if H_in is not None:
                 self._convert_ingest(H_in)
-- 
2.43.0

