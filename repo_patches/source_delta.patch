From 83b05c5fbd8374c3ebdcb8fe0f9e6e0f4a361857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 01/53] fix: accept more recordings than iterations (no
 division by zero)

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index a3377d8..0c63ed7 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -1185,7 +1185,7 @@ class DensityMethod(DensityMethodBase):
 
             if any(
                 (
-                    iter_num % (cfg.max_iters // cfg.record_times) == 0,
+                    iter_num % max(1, cfg.max_iters // cfg.record_times) == 0,
                     iter_num == 1,
                     (conv_rho and conv_kkt),
                     (iter_num == iter_limit - 1)
-- 
2.43.0


From 1bc42678e53e3d0e36befa8be474c60f0742c5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 02/53] fix: start the sensitivity scale afresh when an
 optimizer is restarted

---
 scikit-topt/sktopt/core/optimizers/logmoc.py | 3 ++-
 scikit-topt/sktopt/core/optimizers/oc.py     | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/logmoc.py b/scikit-topt/sktopt/core/optimizers/logmoc.py
index d003283..36fe61a 100644
--- a/scikit-topt/sktopt/core/optimizers/logmoc.py
+++ b/scikit-topt/sktopt/core/optimizers/logmoc.py
@@ -81,6 +81,7 @@ class LogMOC_Optimizer(common_density.DensityMethod):
         self.recorder.add("dV_chain", plot_type="min-max-mean-std", ylog=True)
         self.recorder.add("volume_chain_scale", ylog=True)
         self.lambda_v = cfg.lambda_v
+        self.running_scale = None
         self._dL_buffer = None
         self._dV_chain_design = None
         self._dV_projected_full = None
@@ -220,7 +221,7 @@ class LogMOC_Optimizer(common_density.DensityMethod):
         scale = np.percentile(np.abs(self._dL_buffer), scale_percentile)
         scale = max(scale, cfg.lagrangian_scale_floor)
         self.running_scale = 0.2 * self.running_scale + \
-            (1.0 - 0.2) * scale if iter_num > 1 else scale
+            (1.0 - 0.2) * scale if self.running_scale is not None else scale
         logger.info(f"running_scale: {self.running_scale}")
         self._dL_buffer /= self.running_scale
 
diff --git a/scikit-topt/sktopt/core/optimizers/oc.py b/scikit-topt/sktopt/core/optimizers/oc.py
index 7ffc448..d21f55a 100644
--- a/scikit-topt/sktopt/core/optimizers/oc.py
+++ b/scikit-topt/sktopt/core/optimizers/oc.py
@@ -119,7 +119,7 @@ class OC_Optimizer(common_density.DensityMethod):
         self.recorder = self.add_recorder(tsk)
         self.recorder.add("-dC", plot_type="min-max-mean-std", ylog=True)
         self.recorder.add("lmid", ylog=True)
-        self.running_scale = 0
+        self.running_scale = None
 
     def init_schedulers(self, export: bool = True):
         super().init_schedulers(False)
@@ -191,7 +191,7 @@ class OC_Optimizer(common_density.DensityMethod):
                 scale = np.max(np.abs(dC_drho_design_eles))
             scale = max(scale, cfg.sensitivity_scale_floor)
             self.running_scale = 0.6 * self.running_scale + \
-                (1 - 0.6) * scale if iter_num > 1 else scale
+                (1 - 0.6) * scale if self.running_scale is not None else scale
             dC_drho_design_eles /= self.running_scale
             kkt_scale = self.running_scale
 
-- 
2.43.0


From 35e180ae5830cc14a3b446081674856732a06f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 03/53] fix: keep registered but empty histories on export and
 import

---
 scikit-topt/sktopt/tools/history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index 519a932..62f2148 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -643,7 +643,8 @@ class HistoryCollection():
             return
 
         # Create new container to accumulate updated histories
-        new_histories = {}
+        # (series without entries are not in the file but stay registered)
+        new_histories = dict(self.histories)
 
         with np.load(path, allow_pickle=True) as data:
             for key in data.files:
-- 
2.43.0


From e4d7bde33b2df227cb62dcf0ad0b40e039f956cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 04/53] fix: restart only from complete checkpoints and write
 them atomically

---
 scikit-topt/sktopt/core/misc.py               | 41 ++++++++++++-------
 .../sktopt/core/optimizers/common_density.py  | 11 ++++-
 2 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/scikit-topt/sktopt/core/misc.py b/scikit-topt/sktopt/core/misc.py
index f7ad45d..738d429 100644
--- a/scikit-topt/sktopt/core/misc.py
+++ b/scikit-topt/sktopt/core/misc.py
@@ -2,24 +2,37 @@ import os
 import argparse
 import re
 
+import numpy as np
 from sktopt import tools
 
 
+def list_iter_files(dst_path: str) -> list[tuple[int, str]]:
+    """Checkpoints in ``dst_path`` as (iteration, path), newest first."""
+    pattern = re.compile(r"(\d{6,})-rho\.npz")
+    matches = (pattern.fullmatch(fname) for fname in os.listdir(dst_path))
+    return sorted(
+        (
+            (int(m.group(1)), os.path.join(dst_path, m.group(0)))
+            for m in matches if m
+        ),
+        reverse=True
+    )
+
+
+def _is_readable_checkpoint(path: str) -> bool:
+    try:
+        with np.load(path) as data:
+            return data["rho_design_elements"].ndim == 1
+    except Exception:
+        return False
+
+
 def find_latest_iter_file(dst_path: str):
-    pattern = re.compile(r"(\d{6})-rho\.npz")
-    max_iter = -1
-    latest_file = None
-
-    for fname in os.listdir(dst_path):
-        match = pattern.match(fname)
-        if match:
-            iter_num = int(match.group(1))
-            if iter_num > max_iter:
-                max_iter = iter_num
-                latest_file = fname
-
-    return max_iter, os.path.join(dst_path, latest_file) \
-        if latest_file else None
+    """Newest complete checkpoint; truncated files are ignored."""
+    for iter_num, path in list_iter_files(dst_path):
+        if _is_readable_checkpoint(path):
+            return iter_num, path
+    return -1, None
 
 
 def str2bool(value):
diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 0c63ed7..963b8f0 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -726,6 +726,10 @@ class DensityMethod(DensityMethodBase):
                 iter_num, data_path = misc.find_latest_iter_file(
                     f"{cfg.dst_path}/data"
                 )
+                if data_path is None:
+                    raise FileNotFoundError(
+                        f"no checkpoint to restart from in {cfg.dst_path}/data"
+                    )
                 data = np.load(data_path)
                 iter_begin = iter_num + 1
             iter_end = cfg.max_iters + 1
@@ -1227,10 +1231,15 @@ class DensityMethod(DensityMethodBase):
                             image_path=cfg.image_path(iter_num, "energy"),
                             image_title=f"Iteration : {iter_num}"
                         )
+                    # write aside and rename: a killed run never leaves a
+                    # truncated checkpoint under the final name
+                    data_path = \
+                        f"{cfg.dst_path}/data/{str(iter_num).zfill(6)}-rho.npz"
                     np.savez_compressed(
-                        f"{cfg.dst_path}/data/{str(iter_num).zfill(6)}-rho.npz",
+                        f"{data_path}.tmp.npz",
                         rho_design_elements=rho[tsk.design_elements]
                     )
+                    os.replace(f"{data_path}.tmp.npz", data_path)
                 with self._timed_section("timing_plot"):
                     self._save_timing_plot()
                 if conv_rho and conv_kkt:
-- 
2.43.0


From fca768f53fa16dbf59de4e0f50bfe346b28f186c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 05/53] fix: a fresh run discards checkpoints and histories of
 an earlier run

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 963b8f0..1163703 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -552,8 +552,14 @@ class DensityMethod(DensityMethodBase):
             if os.path.exists(f"{self.cfg.dst_path}/mesh_rho"):
                 shutil.rmtree(f"{self.cfg.dst_path}/mesh_rho")
             os.makedirs(f"{self.cfg.dst_path}/mesh_rho")
-            if not os.path.exists(f"{self.cfg.dst_path}/data"):
+            # leftovers of an earlier run must not be picked up by a restart
+            if os.path.exists(f"{self.cfg.dst_path}/data"):
+                for _, path in misc.list_iter_files(f"{self.cfg.dst_path}/data"):
+                    os.remove(path)
+            else:
                 os.makedirs(f"{self.cfg.dst_path}/data")
+            if os.path.exists(f"{self.cfg.dst_path}/histories.npz"):
+                os.remove(f"{self.cfg.dst_path}/histories.npz")
 
         if isinstance(tsk, sktopt.mesh.LinearElasticity):
             self.fem = fea.FEM_SimpLinearElasticity(
-- 
2.43.0


From 8b1d0aa3029fc2edaefecdcdc435a1f22c54b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 06/53] fix: keep the recorded histories aligned with the
 checkpoints

---
 scikit-topt/sktopt/core/optimizers/common_density.py |  9 +++++++++
 scikit-topt/sktopt/tools/history.py                  | 12 +++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 1163703..8712866 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -742,6 +742,14 @@ class DensityMethod(DensityMethodBase):
             self.recorder.import_histories()
             rho[tsk.design_elements] = data["rho_design_elements"]
             del data
+            # keep the entries of the iterations before the restart only and
+            # forget checkpoints of the continuation that is abandoned
+            self.recorder.truncate(iter_begin - 1)
+            for iter_saved, path in misc.list_iter_files(
+                f"{cfg.dst_path}/data"
+            ):
+                if iter_saved >= iter_begin:
+                    os.remove(path)
         else:
             rho += val_init
             np.clip(rho, cfg.rho_min, cfg.rho_max, out=rho)
@@ -1237,6 +1245,7 @@ class DensityMethod(DensityMethodBase):
                             image_path=cfg.image_path(iter_num, "energy"),
                             image_title=f"Iteration : {iter_num}"
                         )
+                    self.recorder.export_histories(fname="histories.npz")
                     # write aside and rename: a killed run never leaves a
                     # truncated checkpoint under the final name
                     data_path = \
diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index 62f2148..046495c 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -598,7 +598,12 @@ class HistoryCollection():
             return
 
         path = os.path.join(self.dst_path, fname)
-        np.savez(path, **histories)
+        if not path.endswith(".npz"):
+            path += ".npz"
+        # write aside and rename so that an interrupted export never
+        # destroys the histories saved before
+        np.savez(f"{path}.tmp.npz", **histories)
+        os.replace(f"{path}.tmp.npz", path)
 
         # import copy
         # before_histories = copy.deepcopy(self.histories)
@@ -687,6 +692,11 @@ class HistoryCollection():
         # Replace histories with updated ones
         self.histories = new_histories
 
+    def truncate(self, n_entries: int):
+        """Drop all entries after the first ``n_entries`` of every history."""
+        for hist in self.histories.values():
+            del hist.data[n_entries:]
+
     def latest(self, name: str):
         """
         Return the latest value of a specific history.
-- 
2.43.0


From 5d7f9f6f1e75156e9d5dc9b495d41e3c32c3a6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 07/53] fix: look up elements by nodes on the given mesh, not
 on one that had the same id

---
 scikit-topt/sktopt/mesh/utils.py | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index ee1067f..a43bf18 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -198,34 +198,16 @@ def get_elements_by_nodes(
         include any of the target nodes.
     """
 
-    # Initialize cache once
-    if not hasattr(get_elements_by_nodes, "_cache"):
-        get_elements_by_nodes._cache = {}
-
-    mesh_id = id(mesh)
-    if mesh_id not in get_elements_by_nodes._cache:
-        # Build: node index → set of element indices
-        node_to_elements = defaultdict(set)
-        # mesh.t.T: shape = (n_elements, nodes_per_element)
-        for e, nodes in enumerate(mesh.t.T):
-            for n in nodes:
-                node_to_elements[n].add(e)
-        get_elements_by_nodes._cache[mesh_id] = node_to_elements
-
-    node_to_elements = get_elements_by_nodes._cache[mesh_id]
-
     # Normalize target_nodes
     if isinstance(target_nodes, np.ndarray):
         all_target_nodes = np.unique(target_nodes)
     else:
         all_target_nodes = np.unique(np.concatenate(target_nodes))
 
-    # Accumulate matching element indices
-    elems = set()
-    for node in all_target_nodes:
-        elems.update(node_to_elements.get(node, []))
+    # Elements (columns of mesh.t) with at least one of the target nodes
+    elems = np.flatnonzero(np.isin(mesh.t, all_target_nodes).any(axis=0))
 
-    return np.ascontiguousarray(np.array(sorted(elems), dtype=np.int32))
+    return np.ascontiguousarray(elems.astype(np.int32))
 
 
 def build_element_adjacency_matrix_fast(mesh):
-- 
2.43.0


From c64161547ccbeb7f34e8b6ba2242a521778a2f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 08/53] fix: support regions given as a list, of any sizes, and
 heat problems with one region

---
 scikit-topt/sktopt/mesh/task_common.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 8b1c8c3..41bcf71 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -131,7 +131,7 @@ class FEMDomain():
                     assert isinstance(dirichlet_dir, list)
                     assert len(dirichlet_nodes) == len(dirichlet_dir)
             elif isinstance(dirichlet_nodes, np.ndarray):
-                assert isinstance(dirichlet_dir, str)
+                assert dirichlet_dir is None or isinstance(dirichlet_dir, str)
                 # assert dirichlet_dir in _lit_bc
             else:
                 raise ValueError("dirichlet_nodes should be list or np.ndarray")
@@ -153,18 +153,18 @@ class FEMDomain():
                         basis.get_dofs(nodes=nodes).all()
                         for nodes in dirichlet_nodes
                     ]
-
-                # dirichlet_dofs = np.concatenate(dirichlet_dofs)
-                # dirichlet_nodes = np.concatenate(dirichlet_nodes)
+                # union of the regions, whatever their sizes
+                dirichlet_dofs = np.unique(np.concatenate(dirichlet_dofs))
             elif isinstance(dirichlet_nodes, np.ndarray):
                 dofs = basis.get_dofs(nodes=dirichlet_nodes)
-                dirichlet_dofs = dofs.all() if dirichlet_dir == 'all' \
+                dirichlet_dofs = dofs.all() \
+                    if dirichlet_dir is None or dirichlet_dir == 'all' \
                     else dofs.nodal[dirichlet_dir]
             else:
                 raise ValueError("dirichlet_nodes is not np.ndarray or of list")
 
             dirichlet_elements = utils.get_elements_by_nodes(
-                basis.mesh, [dirichlet_nodes]
+                basis.mesh, dirichlet_nodes
             )
         else:
             dirichlet_dofs = None
@@ -232,8 +232,8 @@ class FEMDomain():
             if len(valid) > 0 else np.array([], dtype=int)
 
         free_dofs = setdiff1d(np.arange(basis.N), dirichlet_dofs)
-        free_elements = utils.get_elements_by_nodes(
-            basis.mesh, [free_dofs]
+        free_elements = np.flatnonzero(
+            np.isin(basis.element_dofs, free_dofs).any(axis=0)
         )
         elements_volume = composer.get_elements_volume(basis.mesh)
         print(
-- 
2.43.0


From cebe65a8dd5e458f9b1d9fcbc5856879e21b1388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 09/53] fix: force_nodes and force_elements_all return the
 loaded nodes and elements

---
 scikit-topt/sktopt/mesh/task_elastic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index 52f4ac4..2278f3f 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -133,7 +133,7 @@ class LinearElasticity(FEMDomain):
 
     @property
     def force_nodes(self):
-        return self.neumann_elements
+        return self.neumann_nodes
 
     @force_nodes.setter
     def force_nodes(self, value):
@@ -260,7 +260,7 @@ class LinearElasticity(FEMDomain):
 
     @property
     def force_elements_all(self) -> np.ndarray:
-        return self.neumann_elements_all
+        return self.neumann_elements
 
     @classmethod
     def from_mesh_tags(
-- 
2.43.0


From a7feb9a71791a6ad3668de83dfc56e9ee76a4479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 10/53] fix: numbered dirichlet tags of elasticity meshes are
 recognised

---
 scikit-topt/sktopt/mesh/task_elastic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index 2278f3f..40e06f5 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -281,7 +281,7 @@ class LinearElasticity(FEMDomain):
         design_elements = basis.mesh.subdomains["design"]
         keys = basis.mesh.boundaries.keys()
         dirichlet_keys = sorted(
-            [k for k in keys if re.match(r"dirichlete_\d+$", k)],
+            [k for k in keys if re.match(r"dirichlet_\d+$", k)],
             key=lambda x: int(re.search(r"\d+$", x).group())
         )
         if dirichlet_keys:
@@ -291,7 +291,7 @@ class LinearElasticity(FEMDomain):
         elif "dirichlet" in keys:
             dirichlet_facets_ids = basis.mesh.boundaries["dirichlet"]
         else:
-            dirichlet_facets_ids = np.array([])
+            dirichlet_facets_ids = np.array([], dtype=int)
         # 
         neumann_keys = sorted(
             [k for k in keys if re.match(r"neumann_\d+$", k)],
@@ -304,7 +304,7 @@ class LinearElasticity(FEMDomain):
         elif "neumann" in keys:
             neumann_facets_ids = [basis.mesh.boundaries["neumann"]]
         else:
-            neumann_facets_ids = np.array([])
+            neumann_facets_ids = np.array([], dtype=int)
         return cls.from_facets(
             basis,
             dirichlet_facets_ids,
-- 
2.43.0


From 3d0facc821a9e48823f45108ecc5f945c307efc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 11/53] fix: condition labels of absent conditions and of
 several regions

---
 scikit-topt/sktopt/mesh/task_common.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 41bcf71..5c0d5d8 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -372,9 +372,15 @@ class FEMDomain():
         # Points (shape: [n_nodes, dim])
         points = mesh.p.T
         node_colors_df = np.zeros(mesh.p.shape[1], dtype=int)
-        node_colors_df[self.neumann_nodes_all] = 1
-        node_colors_df[self.dirichlet_nodes] = 2
-        node_colors_df[self.robin_nodes] = 3
+        for nodes, color in (
+            (self.neumann_nodes, 1),
+            (self.dirichlet_nodes, 2),
+            (self.robin_nodes, 3),
+        ):
+            if nodes is None:
+                continue
+            for loop in (nodes if isinstance(nodes, list) else [nodes]):
+                node_colors_df[loop] = color
         point_outputs = dict()
         point_outputs["node_color"] = node_colors_df
 
-- 
2.43.0


From 0b910ed3099d1911a89c065cd85f8be75009b531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 12/53] fix: a history does not share the list of initial data
 with its caller or another history

---
 scikit-topt/sktopt/tools/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index 046495c..626b86f 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -70,7 +70,7 @@ class HistorySeries():
             if isinstance(data, np.ndarray):
                 self.data = data.tolist()
             elif isinstance(data, list):
-                self.data = data
+                self.data = list(data)
             else:
                 raise TypeError("data must be a list or np.ndarray")
         else:
-- 
2.43.0


From 8ba7b1c153edc5329f3c1d4c41339bad22f325c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 13/53] fix: export registered but empty histories too

---
 scikit-topt/sktopt/tools/history.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index 626b86f..d9cb053 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -542,7 +542,7 @@ class HistoryCollection():
         * ``f"{name}_header"``:
           header array containing metadata such as name and plot_type
 
-        Histories with no data are skipped.
+        A history with no data is represented by an empty array.
 
         Returns
         -------
@@ -554,9 +554,6 @@ class HistoryCollection():
         histories = {}
 
         for name, logger in self.histories.items():
-            if not logger.exists():
-                continue
-
             data, header = logger.data_to_array()
             histories[name] = data
 
@@ -648,7 +645,7 @@ class HistoryCollection():
             return
 
         # Create new container to accumulate updated histories
-        # (series without entries are not in the file but stay registered)
+        # (series that are not in the file stay registered)
         new_histories = dict(self.histories)
 
         with np.load(path, allow_pickle=True) as data:
-- 
2.43.0


From 040be32d977264eda8e620fa4a9386a306f940ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 14/53] fix: import histories under the file name they were
 exported with

---
 scikit-topt/sktopt/tools/history.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index d9cb053..b0abf25 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -640,6 +640,8 @@ class HistoryCollection():
             return
 
         path = os.path.join(self.dst_path, fname)
+        if not path.endswith(".npz"):
+            path += ".npz"
         if not os.path.exists(path):
             logger.warning(f"File not found: {path}")
             return
-- 
2.43.0


From 69491055eeabfa98c8e5f01b9b31afb8f74cab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 15/53] fix: saw-tooth resets at every cycle start, not one
 iteration late where total / num_steps rounds up

---
 scikit-topt/sktopt/tools/scheduler.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/scikit-topt/sktopt/tools/scheduler.py b/scikit-topt/sktopt/tools/scheduler.py
index 32d354c..2ee7b74 100644
--- a/scikit-topt/sktopt/tools/scheduler.py
+++ b/scikit-topt/sktopt/tools/scheduler.py
@@ -251,12 +251,9 @@ def schedule_sawtooth_decay(
     if total <= 0 or num_steps <= 0:
         raise ValueError("total and num_steps must be positive")
 
+    # position within the cycle, free of the rounding of total / num_steps
     it0 = it - 1
-    total0 = total
-    step_size = total0 / num_steps
-    step_index = int(it0 // step_size)
-    local_index = it0 - step_index * step_size
-    alpha = min(local_index / step_size, 1.0)
+    alpha = (it0 * num_steps % total) / total
 
     return (1 - alpha) * initial_value + alpha * target_value
 
-- 
2.43.0


From 2e255bfac1b2190b93e46d1ce35d0f5e7f07a2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 16/53] fix: sawtooth_decay validates its parameters like the
 other schedule factories

---
 scikit-topt/sktopt/tools/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/tools/scheduler.py b/scikit-topt/sktopt/tools/scheduler.py
index 2ee7b74..11093c9 100644
--- a/scikit-topt/sktopt/tools/scheduler.py
+++ b/scikit-topt/sktopt/tools/scheduler.py
@@ -668,7 +668,7 @@ class SchedulerConfig:
         within each cycle, then resets. Total iterations = iters_max,
         cycles = num_steps.
         """
-        return cls(
+        return cls.from_defaults(
             name=name,
             init_value=init_value,
             target_value=target_value,
-- 
2.43.0


From 254e39b8abd9eeb9295712e74a2c7fe3a60960e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 17/53] fix: heat problems with supports in the design domain
 keep their densities

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 8712866..1fa74bc 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -756,7 +756,9 @@ class DensityMethod(DensityMethodBase):
             iter_end = cfg.max_iters + 1
 
         if cfg.design_dirichlet is True:
-            rho[tsk.neumann_elements] = 1.0
+            # heat problems have no loaded elements
+            if tsk.neumann_elements is not None:
+                rho[tsk.neumann_elements] = 1.0
         else:
             rho[tsk.dirichlet_neumann_elements] = 1.0
         rho[tsk.fixed_elements] = 1.0
@@ -1147,7 +1149,8 @@ class DensityMethod(DensityMethodBase):
                 )
             rho[tsk.design_elements] = rho_design_eles
             if cfg.design_dirichlet is True:
-                rho[tsk.neumann_elements] = 1.0
+                if tsk.neumann_elements is not None:
+                    rho[tsk.neumann_elements] = 1.0
             else:
                 rho[tsk.dirichlet_neumann_elements] = 1.0
 
-- 
2.43.0


From 791392a942a7d4cef903b99e2b0c78c1f4a75f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 18/53] fix: OC densities stay finite where a sensitivity is
 positive

---
 scikit-topt/sktopt/core/optimizers/oc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scikit-topt/sktopt/core/optimizers/oc.py b/scikit-topt/sktopt/core/optimizers/oc.py
index d21f55a..190ac72 100644
--- a/scikit-topt/sktopt/core/optimizers/oc.py
+++ b/scikit-topt/sktopt/core/optimizers/oc.py
@@ -49,6 +49,9 @@ def bisection_with_physical_volume(
     vol_error = 0.0
     while True:
         np.negative(dC, out=scaling_rate)
+        # a non-negative sensitivity asks for the strongest reduction; its
+        # negative must not reach the fractional power below
+        np.maximum(scaling_rate, 0.0, out=scaling_rate)
         scaling_rate /= (lmid + eps)
         np.power(scaling_rate, eta, out=scaling_rate)
         np.clip(
-- 
2.43.0


From 292b8137ecaaffe4e718021410f21c00d7a5a57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 19/53] fix: sensitivity filter does not leak the solid value
 of passive elements into the sensitivity

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 1fa74bc..251f546 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -1122,7 +1122,10 @@ class DensityMethod(DensityMethodBase):
             if cfg.sensitivity_filter:
                 logger.info("--- sensitivity filter ---")
                 with self._timed_section("sensitivity_filter"):
-                    filtered = self.filter.forward(dC_drho_full)
+                    # the filter of a density field makes passive elements
+                    # solid: remove that contribution from the sensitivity
+                    filtered = self.filter.forward(dC_drho_full) \
+                        - self.filter.forward(np.zeros_like(dC_drho_full))
                     np.copyto(dC_drho_full, filtered)
 
             dC_drho_design_eles[:] = dC_drho_full[tsk.design_elements]
-- 
2.43.0


From 1607bb66fe189d354455ec3705b8b3fb561dfeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 20/53] fix: volumes of hexahedra follow the node order of
 scikit-fem

---
 scikit-topt/sktopt/fea/composer.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/scikit-topt/sktopt/fea/composer.py b/scikit-topt/sktopt/fea/composer.py
index 547a805..2d6c5f6 100644
--- a/scikit-topt/sktopt/fea/composer.py
+++ b/scikit-topt/sktopt/fea/composer.py
@@ -180,6 +180,10 @@ def _get_elements_volume_tet(t_conn, p_coords) -> np.ndarray:
     return elements_volume
 
 
+# positions of the nodes of a scikit-fem hexahedron in the order used below
+_HEX_NODE_ORDER = np.array([0, 3, 6, 2, 1, 5, 7, 4])
+
+
 @njit
 def _tet_volume_numba(p0, p1, p2, p3):
     v1 = p1 - p0
@@ -190,7 +194,7 @@ def _tet_volume_numba(p0, p1, p2, p3):
 
 def _get_elements_volume_hex(t_conn, p_coords) -> np.ndarray:
     """
-    Compute volume of Hex elements by decomposing into 6 tetrahedra.
+    Compute volume of Hex elements by decomposing into 5 tetrahedra.
 
     Parameters
     ----------
@@ -208,7 +212,7 @@ def _get_elements_volume_hex(t_conn, p_coords) -> np.ndarray:
     elements_volume = np.zeros(n_elements)
 
     for e in prange(n_elements):
-        n = t_conn[:, e]
+        n = t_conn[:, e][_HEX_NODE_ORDER]
 
         #   7--------6
         #  /|       /|
@@ -238,10 +242,6 @@ def _get_elements_volume_hex(t_conn, p_coords) -> np.ndarray:
             p_coords[:, n[1]], p_coords[:, n[3]],
             p_coords[:, n[6]], p_coords[:, n[4]]
         )
-        vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[6]],
-            p_coords[:, n[5]], p_coords[:, n[4]]
-        )
 
         elements_volume[e] = vol
 
@@ -251,7 +251,7 @@ def _get_elements_volume_hex(t_conn, p_coords) -> np.ndarray:
 @njit(parallel=True)
 def _get_elements_volume_hex_numba(t_conn, p_coords) -> np.ndarray:
     """
-    Compute volume of Hex elements by decomposing into 6 tetrahedra.
+    Compute volume of Hex elements by decomposing into 5 tetrahedra.
 
     Parameters
     ----------
@@ -269,9 +269,9 @@ def _get_elements_volume_hex_numba(t_conn, p_coords) -> np.ndarray:
     elements_volume = np.zeros(n_elements)
 
     for e in prange(n_elements):
-        n = t_conn[:, e]
+        n = t_conn[:, e][_HEX_NODE_ORDER]
 
-        # Tetra 6 division
+        # Tetra 5 division
         #   7--------6
         #  /|       /|
         # 4--------5 |
@@ -301,10 +301,6 @@ def _get_elements_volume_hex_numba(t_conn, p_coords) -> np.ndarray:
             p_coords[:, n[1]], p_coords[:, n[3]],
             p_coords[:, n[6]], p_coords[:, n[4]]
         )
-        vol += _tet_volume_numba(
-            p_coords[:, n[1]], p_coords[:, n[6]],
-            p_coords[:, n[5]], p_coords[:, n[4]]
-        )
 
         elements_volume[e] = vol
 
-- 
2.43.0


From 726d9a7ee9f87c3cbc235b1413284b577d501d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 21/53] fix: hexahedron orientation repair keeps the element

---
 scikit-topt/sktopt/mesh/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index a43bf18..cb6c89a 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -48,8 +48,10 @@ def fix_hexahedron_orientation(t, p):
         jac_det = np.dot(np.cross(v1, v2), v3)
 
         if jac_det < 0:
-            # Swap two nodes to flip orientation (commonly swap node 1 and 3)
+            # Swap the x- and z-direction (nodes 1 and 3, 4 and 6) to flip
+            # the orientation and keep the element
             t_fixed[1, e], t_fixed[3, e] = t_fixed[3, e], t_fixed[1, e]
+            t_fixed[4, e], t_fixed[6, e] = t_fixed[6, e], t_fixed[4, e]
 
     return t_fixed
 
-- 
2.43.0


From bdfc7dfd0e45f0a042d50fc43e2aa09ae2a3a7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 22/53] fix: adjacency matrix has unit entries and no self
 neighbours

---
 scikit-topt/sktopt/mesh/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index cb6c89a..4f9f97b 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -150,6 +150,8 @@ def build_element_adjacency_matrix(mesh):
         for node in elem_nodes:
             connected_elements = np.where((mesh.t == node).any(axis=0))[0]
             for j in connected_elements:
+                if j == i:
+                    continue
                 rows.append(i)
                 cols.append(j)
 
@@ -157,6 +159,8 @@ def build_element_adjacency_matrix(mesh):
     adjacency = csr_matrix(
         (data, (rows, cols)), shape=(num_elements, num_elements)
     )
+    # elements sharing several nodes were counted several times
+    adjacency.data[:] = 1
 
     return adjacency
 
-- 
2.43.0


From 60cbd619d6c46ddfb5633fdd5e0693d03bb51121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 23/53] fix: meshes are oriented on loading, as intended

---
 scikit-topt/sktopt/mesh/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/loader.py b/scikit-topt/sktopt/mesh/loader.py
index f8ebe7e..2696015 100644
--- a/scikit-topt/sktopt/mesh/loader.py
+++ b/scikit-topt/sktopt/mesh/loader.py
@@ -23,7 +23,7 @@ def basis_from_file(
     else:
         raise ValueError(f"Unsupported cell types: {cell_types}")
 
-    if hasattr(mesh_skfem, "mesh_skfem"):
+    if hasattr(mesh_skfem, "oriented"):
         mesh_skfem = mesh_skfem.oriented()
 
     basis = skfem.Basis(
-- 
2.43.0


From 26498182bb2647fb482237bc17427c1aec8e3ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 24/53] fix: a run whose final shape is empty completes

---
 scikit-topt/sktopt/mesh/visualization.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scikit-topt/sktopt/mesh/visualization.py b/scikit-topt/sktopt/mesh/visualization.py
index 0b1b51a..b8b3294 100644
--- a/scikit-topt/sktopt/mesh/visualization.py
+++ b/scikit-topt/sktopt/mesh/visualization.py
@@ -1,3 +1,5 @@
+import os
+
 import numpy as np
 import sktopt
 
@@ -21,6 +23,11 @@ def export_submesh(
     kept_elements = setdiff1d(
         tsk.all_elements, remove_elements
     )
+    if len(kept_elements) == 0:
+        # an empty mesh can not be written: leave no file for an empty shape
+        if os.path.exists(dst_path):
+            os.remove(dst_path)
+        return
     kept_t = mesh.t[:, kept_elements]
     unique_vertex_indices = np.unique(kept_t)
     new_points = np.ascontiguousarray(mesh.p[:, unique_vertex_indices])
-- 
2.43.0


From c5e4d39d3dc1b287e6bd1cb45d16b8ec2132a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 25/53] fix: excluding supports from the design keeps the fixed
 elements its complement

---
 scikit-topt/sktopt/mesh/task_common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 5c0d5d8..2facf7f 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -405,6 +405,9 @@ class FEMDomain():
         self.design_elements = setdiff1d(
             self.design_elements, self.dirichlet_elements
         )
+        self.fixed_elements = setdiff1d(
+            self.all_elements, self.design_elements
+        )
 
     def scale(
         self,
-- 
2.43.0


From f0d0d3cd8061325ca603e146bbf9db8f8ef5527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 26/53] fix: exported hexahedra have the node order of the VTU
 format

---
 scikit-topt/sktopt/core/visualization.py | 8 ++++++--
 scikit-topt/sktopt/mesh/task_common.py   | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/core/visualization.py b/scikit-topt/sktopt/core/visualization.py
index e9bdee3..79dbb8a 100644
--- a/scikit-topt/sktopt/core/visualization.py
+++ b/scikit-topt/sktopt/core/visualization.py
@@ -6,6 +6,7 @@ from typing import Optional
 import numpy as np
 import imageio.v2 as imageio
 import skfem
+from skfem.io.meshio import HEX_MAPPING
 import meshio
 import matplotlib.pyplot as plt
 
@@ -60,7 +61,10 @@ def export_mesh_with_info(
 
     # Convert skfem's (dim, n) shape to meshio format
     points = mesh.p.T
-    # cells = [(cell_type, mesh.t.T)]
+    cells = mesh.t.T
+    if cell_type == "hexahedron":
+        # scikit-fem numbers the nodes of a hexahedron differently
+        cells = cells[:, HEX_MAPPING[:8]]
 
     # Point data
     point_data = {}
@@ -77,7 +81,7 @@ def export_mesh_with_info(
     # Build and write meshio.Mesh
     meshio_mesh = meshio.Mesh(
         points=points,
-        cells=[meshio.CellBlock(cell_type, mesh.t.T)],
+        cells=[meshio.CellBlock(cell_type, cells)],
         point_data=point_data,
         cell_data=cell_data
     )
diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 2facf7f..6f765bb 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -5,6 +5,7 @@ import numpy as np
 import skfem
 
 from skfem import FacetBasis, asm, LinearForm
+from skfem.io.meshio import HEX_MAPPING
 from scipy.spatial import cKDTree
 import matplotlib.pyplot as plt
 from sktopt.mesh import utils
@@ -389,7 +390,11 @@ class FEMDomain():
         element_colors_df[self.free_elements] = 1
         element_colors_df[self.fixed_elements] = 2
         element_colors_df[self.design_elements] = 3
-        cells = [(cell_type, mesh.t.T)]
+        t = mesh.t
+        if cell_type == "hexahedron":
+            # scikit-fem numbers the nodes of a hexahedron differently
+            t = t[HEX_MAPPING[:8]]
+        cells = [(cell_type, t.T)]
         cell_outputs = dict()
         cell_outputs["condition"] = [element_colors_df]
 
-- 
2.43.0


From 3cfa10b0d71ef7b8c5a7b5751e1e9f11cf67c5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 27/53] fix: heat load cases that constrain different regions
 are solved with their own matrix

---
 scikit-topt/sktopt/fea/solver_heat.py | 77 ++++++++++++++-------------
 1 file changed, 40 insertions(+), 37 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 037a157..bd960a5 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -155,44 +155,47 @@ def solve_heat_system_multi(
         u_all[:, :] = 0.0
         return K_csr
 
-    D0 = dirichlet_dofs_list[0]
-    val0 = dirichlet_values_list[0]
-    K_e, _ = skfem.enforce(
-        K_csr,
-        emit,
-        D=D0,
-        x=np.full(D0.N, val0),
-    )
-
-    F_stack = np.column_stack([
-        skfem.enforce(
-            K_csr,
-            emit,
-            D=D_i,
-            x=np.full(D_i.N, val_i),
-        )[1]
-        for D_i, val_i in zip(dirichlet_dofs_list, dirichlet_values_list)
-    ])
-
-    if solver_name in {"petsc", "petsc_spdirect"}:
-        petsc_options = petsc_options_for_solver(
-            solver_name,
-            solver_config.petsc_options,
-        )
-        u_sol, infos = solve_u_petsc_multi(
-            K_e,
-            F_stack,
-            rtol=solver_config.rtol,
-            maxiter=solver_config.maxiter,
-            petsc_options=petsc_options,
-        )
-        logger.info(f"PETSc heat multi-load solver info: {infos}")
-    else:
-        lu = scipy.sparse.linalg.splu(K_e.tocsc())
-        u_sol = lu.solve(F_stack)
+    # the enforced matrix depends on the constrained dofs: load cases that
+    # constrain the same ones share a factorization
+    groups: dict[bytes, list[int]] = {}
+    for i, D_i in enumerate(dirichlet_dofs_list):
+        groups.setdefault(np.sort(D_i.all()).tobytes(), []).append(i)
+
+    K_first = None
+    for loads in groups.values():
+        enforced = [
+            skfem.enforce(
+                K_csr,
+                emit,
+                D=dirichlet_dofs_list[i],
+                x=np.full(dirichlet_dofs_list[i].N, dirichlet_values_list[i]),
+            )
+            for i in loads
+        ]
+        K_e = enforced[0][0]
+        F_stack = np.column_stack([f_e for _, f_e in enforced])
+
+        if solver_name in {"petsc", "petsc_spdirect"}:
+            petsc_options = petsc_options_for_solver(
+                solver_name,
+                solver_config.petsc_options,
+            )
+            u_sol, infos = solve_u_petsc_multi(
+                K_e,
+                F_stack,
+                rtol=solver_config.rtol,
+                maxiter=solver_config.maxiter,
+                petsc_options=petsc_options,
+            )
+            logger.info(f"PETSc heat multi-load solver info: {infos}")
+        else:
+            lu = scipy.sparse.linalg.splu(K_e.tocsc())
+            u_sol = lu.solve(F_stack)
 
-    u_all[:, :] = u_sol
-    return K_e.tocsr()
+        u_all[:, loads] = u_sol
+        if K_first is None:
+            K_first = K_e
+    return K_first.tocsr()
 
 
 def solve_multi_load(
-- 
2.43.0


From 2b61a34c2fa9f35e1e5296b56af6ff327fc546d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 28/53] fix: one prescribed temperature holds on every support
 region

---
 scikit-topt/sktopt/fea/solver_heat.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index bd960a5..f191729 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -711,12 +711,19 @@ class FEM_SimpLinearHeatConduction():
         timer=None,
         force_scale: float = 1.0,  # kept for interface parity; unused for heat
     ) -> np.ndarray:
-        dirichlet_nodes_list = self.task.dirichlet_nodes if isinstance(
-            self.task.dirichlet_nodes, list
-        ) else [self.task.dirichlet_nodes]
-        dirichlet_values_list = self.task.dirichlet_values if isinstance(
-            self.task.dirichlet_values, list
-        ) else [self.task.dirichlet_values]
+        dirichlet_nodes = self.task.dirichlet_nodes
+        if isinstance(self.task.dirichlet_values, list):
+            dirichlet_values_list = self.task.dirichlet_values
+            # one load case per value
+            dirichlet_nodes_list = dirichlet_nodes if isinstance(
+                dirichlet_nodes, list
+            ) else [dirichlet_nodes] * len(dirichlet_values_list)
+        else:
+            dirichlet_values_list = [self.task.dirichlet_values]
+            # one value for all regions: a single load case
+            dirichlet_nodes_list = [
+                np.unique(np.concatenate(dirichlet_nodes))
+            ] if isinstance(dirichlet_nodes, list) else [dirichlet_nodes]
 
         basis = self.task.basis
         robin_bilinear = list(self.task.robin_bilinear or [])
-- 
2.43.0


From 46c983ce1f8dfbc146d2e559220b7fb87729e884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 29/53] fix: heat problems with several convection regions can
 be solved

---
 scikit-topt/sktopt/fea/solver_heat.py | 38 ++++++++++++++++-----------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index f191729..2bf10f8 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -705,6 +705,17 @@ class FEM_SimpLinearHeatConduction():
         self.q = q
         self._warned_robin_compliance = False
 
+    def _robin_terms(self) -> tuple[list[float], list[float]]:
+        """Coefficients and ambient temperatures, one per Robin region."""
+        h, T_env = self.task.robin_coefficient, self.task.robin_bc_value
+        n = max(
+            len(v) if isinstance(v, list) else 1 for v in (h, T_env)
+        )
+        return (
+            h if isinstance(h, list) else [h] * n,
+            T_env if isinstance(T_env, list) else [T_env] * n,
+        )
+
     def objectives_multi_load(
         self,
         rho: np.ndarray, p: float, u_dofs: np.ndarray,
@@ -731,10 +742,7 @@ class FEM_SimpLinearHeatConduction():
         rho_nodal = None
 
         if self.task.robin_coefficient is not None:
-            robin_virtual_bilinear, robin_virtual_linear = get_robin_virtual(
-                self.task.robin_coefficient, self.task.robin_bc_value,
-                p, self.q
-            )
+            h_list, Tenv_list = self._robin_terms()
 
             t = basis.mesh.t
             nvert = basis.mesh.nvertices
@@ -747,12 +755,15 @@ class FEM_SimpLinearHeatConduction():
             rho_nodal /= np.maximum(count, 1.0)
 
             rho_field = basis.interpolate(rho_nodal)
-            robin_bilinear.append(
-                robin_virtual_bilinear.assemble(self.task.basis, rho=rho_field)
-            )
-            robin_linear.append(
-                robin_virtual_linear.assemble(self.task.basis, rho=rho_field)
-            )
+            for h, T_env in zip(h_list, Tenv_list):
+                robin_virtual_bilinear, robin_virtual_linear = \
+                    get_robin_virtual(h, T_env, p, self.q)
+                robin_bilinear.append(robin_virtual_bilinear.assemble(
+                    self.task.basis, rho=rho_field
+                ))
+                robin_linear.append(robin_virtual_linear.assemble(
+                    self.task.basis, rho=rho_field
+                ))
 
         if self.task.design_robin_boundary is True:
             self.task.update_robin_bc(rho, p)
@@ -964,12 +975,7 @@ class FEM_SimpLinearHeatConduction():
         rho_field = basis.interpolate(rho_nodal)
         Th_all = [basis.interpolate(u_dofs[:, i]) for i in range(n_loads)]
 
-        h_list = self.task.robin_coefficient if isinstance(
-            self.task.robin_coefficient, list
-        ) else [self.task.robin_coefficient]
-        Tenv_list = self.task.robin_bc_value if isinstance(
-            self.task.robin_bc_value, list
-        ) else [self.task.robin_bc_value]
+        h_list, Tenv_list = self._robin_terms()
 
         for h, T_env in zip(h_list, Tenv_list):
             T_env_field = basis.interpolate(np.full(basis.N, T_env))
-- 
2.43.0


From 5a707bbc08dad94524c90b67a6e579d958d8f06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 30/53] fix: nodal densities average the elements around the
 node

---
 scikit-topt/sktopt/fea/solver_heat.py | 4 ++--
 scikit-topt/sktopt/mesh/task_heat.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 2bf10f8..d984426 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -610,7 +610,7 @@ def _element_to_nodal_average(
 
     rho_nodal = np.zeros(nvert, dtype=float)
     count = np.zeros(nvert, dtype=float)
-    np.add.at(rho_nodal, t.ravel(), np.repeat(rho, nloc))
+    np.add.at(rho_nodal, t.ravel(), np.tile(rho, nloc))
     np.add.at(count, t.ravel(), 1.0)
     rho_nodal /= np.maximum(count, 1.0)
     return rho_nodal, count
@@ -750,7 +750,7 @@ class FEM_SimpLinearHeatConduction():
 
             rho_nodal = np.zeros(nvert, dtype=float)
             count = np.zeros(nvert, dtype=float)
-            np.add.at(rho_nodal, t.ravel(), np.repeat(rho, k))
+            np.add.at(rho_nodal, t.ravel(), np.tile(rho, k))
             np.add.at(count,     t.ravel(), 1)
             rho_nodal /= np.maximum(count, 1.0)
 
diff --git a/scikit-topt/sktopt/mesh/task_heat.py b/scikit-topt/sktopt/mesh/task_heat.py
index bad0ae5..19ed3fb 100644
--- a/scikit-topt/sktopt/mesh/task_heat.py
+++ b/scikit-topt/sktopt/mesh/task_heat.py
@@ -90,7 +90,7 @@ def assemble_surface_robin(
             rho_nodal = np.zeros(basis.mesh.nvertices)
             count = np.zeros(basis.mesh.nvertices)
             t = basis.mesh.t
-            np.add.at(rho_nodal, t.ravel(), np.repeat(rho, t.shape[0]))
+            np.add.at(rho_nodal, t.ravel(), np.tile(rho, t.shape[0]))
             np.add.at(count, t.ravel(), 1)
             rho_nodal /= np.maximum(count, 1)
         else:
-- 
2.43.0


From dca457d5ce8bf2d294c40192304887cee77b158f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 31/53] fix: derivative of the RAMP interpolation

---
 scikit-topt/sktopt/core/derivatives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/core/derivatives.py b/scikit-topt/sktopt/core/derivatives.py
index bcea868..3a33365 100644
--- a/scikit-topt/sktopt/core/derivatives.py
+++ b/scikit-topt/sktopt/core/derivatives.py
@@ -59,7 +59,7 @@ def dE_drho_ramp(rho, E0, Emin, p):
     E(rho) = Emin + (E0 - Emin) * rho / (1 + p * (1 - rho))
     """
     denom = 1.0 + p * (1.0 - rho)
-    return (E0 - Emin) * (denom - p * rho) / (denom ** 2)
+    return (E0 - Emin) * (denom + p * rho) / (denom ** 2)
 
 
 def dC_drho_ramp(rho, strain_energy, E0, Emin, p):
@@ -75,7 +75,7 @@ def dE_drho_ramp_inplace(rho, out, E0, Emin, p):
     """
     np.copyto(out, rho)
     denom = 1.0 + p * (1.0 - rho)
-    np.copyto(out, (E0 - Emin) * (denom - p * rho) / (denom ** 2))
+    np.copyto(out, (E0 - Emin) * (denom + p * rho) / (denom ** 2))
 
 
 def dC_drho_ramp_inplace(rho, strain_energy, out, E0, Emin, p):
-- 
2.43.0


From 664b1fe65704b35b2b4becb8ed46acf22fa89d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 32/53] fix: heat sensitivities follow the interpolation model

---
 scikit-topt/sktopt/fea/solver_heat.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index d984426..5059e5c 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -960,10 +960,13 @@ class FEM_SimpLinearHeatConduction():
         n_elem, n_loads = energy.shape
         grad_all = np.zeros((n_elem, n_loads), dtype=float)
 
-        for i in range(n_loads):
-            from sktopt.core import derivatives
+        from sktopt.core import derivatives
 
-            grad_all[:, i] = derivatives.dC_drho_simp(
+        dC_drho = derivatives.dC_drho_ramp if (
+            self.density_interpolation is composer.ramp_interpolation
+        ) else derivatives.dC_drho_simp
+        for i in range(n_loads):
+            grad_all[:, i] = dC_drho(
                 rho, energy[:, i], self.k_max, self.k_min, p
             )
 
-- 
2.43.0


From 98501e4d217face19a7c9855f2d5a3a7721e52a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 33/53] fix: an unconverged iterative solve raises an error

---
 scikit-topt/sktopt/fea/solver_elastic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scikit-topt/sktopt/fea/solver_elastic.py b/scikit-topt/sktopt/fea/solver_elastic.py
index 99f35f2..f07c4b4 100644
--- a/scikit-topt/sktopt/fea/solver_elastic.py
+++ b/scikit-topt/sktopt/fea/solver_elastic.py
@@ -134,6 +134,11 @@ def solve_u(
         else:
             raise ValueError(f"Unknown solver: {chosen_solver}")
 
+        if chosen_solver in ('cg_jacobi', 'cg_pyamg') and info != 0:
+            raise RuntimeError(
+                f"Solver {chosen_solver} did not converge (info={info})"
+            )
+
     except Exception as e:
         if not allow_fallback_to_spsolve:
             raise
-- 
2.43.0


From 678cd2f60ffd6e0b8bde4541a397dd09207b080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:45 +0000
Subject: [PATCH 34/53] fix: multi-load solver wrappers do not pass an option
 that does not exist

---
 scikit-topt/sktopt/fea/solver.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver.py b/scikit-topt/sktopt/fea/solver.py
index a3937e8..5ab2d6e 100644
--- a/scikit-topt/sktopt/fea/solver.py
+++ b/scikit-topt/sktopt/fea/solver.py
@@ -165,7 +165,6 @@ def solve_multi_load(
         elem_func=elem_func,
         rtol=rtol,
         maxiter=maxiter,
-        n_joblib=n_joblib,
     )
 
 
@@ -201,7 +200,6 @@ def compute_compliance_basis_multi_load(
         elem_func=elem_func,
         rtol=rtol,
         maxiter=maxiter,
-        n_joblib=n_joblib,
     )
 
 
-- 
2.43.0


From b0a42c705541284ef338c1f289ab0e5dbfba70b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:36 +0000
Subject: [PATCH 35/53] fix: the volume bisection resolves small multipliers

---
 scikit-topt/sktopt/core/optimizers/oc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/oc.py b/scikit-topt/sktopt/core/optimizers/oc.py
index 190ac72..2c0b4c0 100644
--- a/scikit-topt/sktopt/core/optimizers/oc.py
+++ b/scikit-topt/sktopt/core/optimizers/oc.py
@@ -85,7 +85,8 @@ def bisection_with_physical_volume(
             break
         if iter_num >= max_iter:
             break
-        if abs(l2 - l1) <= tolerance:
+        # relative to the multiplier: small ones need a fine bracket, too
+        if abs(l2 - l1) <= tolerance * (l1 + l2):
             break
 
         if vol_error > 0:
-- 
2.43.0


From b31e29f91b3b9ef0eccd7af49ef5badab49b5c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:27 +0000
Subject: [PATCH 36/53] fix: the spatial filter's gradient follows the current
 radius

---
 scikit-topt/sktopt/filters/spacial.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/scikit-topt/sktopt/filters/spacial.py b/scikit-topt/sktopt/filters/spacial.py
index 3e9cb5a..d52db1c 100644
--- a/scikit-topt/sktopt/filters/spacial.py
+++ b/scikit-topt/sktopt/filters/spacial.py
@@ -106,6 +106,7 @@ def build_filter_matrix(
 @dataclass
 class SpacialFilter(BaseFilter):
     element_centers: Optional[np.ndarray] = None
+    W: Optional[csr_matrix] = None
 
     def update_radius(
         self,
@@ -113,6 +114,7 @@ class SpacialFilter(BaseFilter):
         **args
     ):
         self.radius = radius
+        self.W = None
 
     @classmethod
     def from_defaults(
@@ -132,21 +134,24 @@ class SpacialFilter(BaseFilter):
             element_centers=element_centers
         )
 
-    def forward(
-        self,
-        rho_element: np.ndarray
-    ) -> np.ndarray:
+    def build(self) -> csr_matrix:
         kernel, support = make_kernel(
             kind="gaussian", r_min=self.radius
         )
         volume_array = None
-        self.W = build_filter_matrix(
+        return build_filter_matrix(
             self.element_centers,
             kernel, support,
             elem_volume=volume_array,
             volume_correction=False,
             design_mask=self.design_mask
         )
+
+    def forward(
+        self,
+        rho_element: np.ndarray
+    ) -> np.ndarray:
+        self.W = self.build()
         rho_filtered = np.copy(rho_element)
         if self.design_mask is None:
             rho_filtered[:] = self.W @ rho_element
@@ -157,6 +162,8 @@ class SpacialFilter(BaseFilter):
         return rho_filtered
 
     def gradient(self, v: np.ndarray) -> np.ndarray:
+        if self.W is None:
+            self.W = self.build()
         if self.design_mask is None:
             return self.W.T @ v
         else:
-- 
2.43.0


From d0e12157071e6e813e4a08c0576156d7a761c342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 37/53] fix: an imported configuration has schedules, not
 dictionaries

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 251f546..d08ee68 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -317,6 +317,9 @@ class DensityMethodConfig():
             data = json.load(f)
         # Drop legacy keys that may linger in old configs.
         data.pop("record_timing", None)
+        for key, value in data.items():
+            if isinstance(value, dict) and "scheduler_type" in value:
+                data[key] = tools.SchedulerConfig(**value)
         return cls(**data)
 
     def export(self, path: str):
-- 
2.43.0


From 1f7f037d947f6a1eedeaa94057a765371fa35170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:50 +0000
Subject: [PATCH 38/53] fix: command line defaults form a valid configuration

---
 scikit-topt/sktopt/core/misc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scikit-topt/sktopt/core/misc.py b/scikit-topt/sktopt/core/misc.py
index 738d429..6252fad 100644
--- a/scikit-topt/sktopt/core/misc.py
+++ b/scikit-topt/sktopt/core/misc.py
@@ -193,6 +193,9 @@ def args2OC_Config_dict(args) -> dict:
                 stype = "Step"
         else:
             stype = "Step"
+        if stype != "None" and args[f"{keyw}_step"] is None:
+            # no number of steps given: no continuation
+            stype = "Constant"
 
         ret[keyw] = tools.SchedulerConfig.from_defaults(
             name=keyw,
-- 
2.43.0


From a3a6b265aac4bd719e7129d70fb0ac7362c52258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:24 +0000
Subject: [PATCH 39/53] fix: scaling the loads keeps one load case a single
 load case

---
 scikit-topt/sktopt/mesh/task_elastic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/mesh/task_elastic.py b/scikit-topt/sktopt/mesh/task_elastic.py
index 40e06f5..a3137b6 100644
--- a/scikit-topt/sktopt/mesh/task_elastic.py
+++ b/scikit-topt/sktopt/mesh/task_elastic.py
@@ -121,7 +121,8 @@ class LinearElasticity(FEMDomain):
 
     @force.setter
     def force(self, value):
-        self.neumann_linear = value
+        # one entry per load case
+        self.neumann_linear = value if isinstance(value, list) else [value]
 
     @property
     def force_elements(self):
-- 
2.43.0


From 481285eef0ad86d9cbf3c33cdabec55e24cacd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:24 +0000
Subject: [PATCH 40/53] fix: scaling keeps mesh tags and integration rule and
 scales volumes

---
 scikit-topt/sktopt/mesh/task_common.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/task_common.py b/scikit-topt/sktopt/mesh/task_common.py
index 6f765bb..3232828 100644
--- a/scikit-topt/sktopt/mesh/task_common.py
+++ b/scikit-topt/sktopt/mesh/task_common.py
@@ -421,11 +421,13 @@ class FEMDomain():
     ):
         # this wont work
         # self.basis.mesh.p /= L_scale
-        mesh = self.basis.mesh
-        p_scaled = mesh.p * L_scale
-        mesh_scaled = type(mesh)(p_scaled, mesh.t)
-        basis_scaled = skfem.Basis(mesh_scaled, self.basis.elem)
+        # keeps the tags of the mesh and the integration rule of the basis
+        mesh_scaled = self.basis.mesh.scaled(float(L_scale))
+        basis_scaled = skfem.Basis(
+            mesh_scaled, self.basis.elem, quadrature=self.basis.quadrature
+        )
         self.basis = basis_scaled
+        self.elements_volume = self.elements_volume * L_scale**mesh_scaled.dim()
 
         if isinstance(self.force, np.ndarray):
             self.force *= F_scale
-- 
2.43.0


From ae651869101708a9d3e5157ec2c869fa72fcd27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:30 +0000
Subject: [PATCH 41/53] fix: the filter radius is scaled with the geometry

---
 .../sktopt/core/optimizers/common_density.py        | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index d08ee68..ffae6b8 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -649,6 +649,12 @@ class DensityMethod(DensityMethodBase):
             self.L_scale, self.F_scale
         )
 
+    def _radius_on_mesh(self, radius: float) -> float:
+        # the configured radius is a length of the original geometry
+        if self.cfg.scaling is True and radius is not None:
+            return radius / self.L_scale
+        return radius
+
     def init_schedulers(self, export: bool = True):
 
         cfg = self.cfg
@@ -692,13 +698,13 @@ class DensityMethod(DensityMethodBase):
         if self.cfg.filter_type == "spacial":
             self.filter = filters.SpacialFilter.from_defaults(
                 self.tsk.mesh, self.tsk.elements_volume,
-                self.cfg.filter_radius.init_value,
+                self._radius_on_mesh(self.cfg.filter_radius.init_value),
                 design_mask=self.tsk.design_mask,
             )
         elif self.cfg.filter_type == "helmholtz":
             self.filter = filters.HelmholtzFilterNodal.from_defaults(
                 self.tsk.mesh, self.tsk.elements_volume,
-                self.cfg.filter_radius.init_value,
+                self._radius_on_mesh(self.cfg.filter_radius.init_value),
                 design_mask=self.tsk.design_mask
             )
         # elif self.cfg.filter_type == "helmholtz_ele":
@@ -913,7 +919,7 @@ class DensityMethod(DensityMethodBase):
             ) = self.initialize_params()
             elements_volume_design = self.tsk.elements_volume[self.tsk.design_elements]
             elements_volume_design_sum = np.sum(elements_volume_design)
-            self.filter.update_radius(filter_radius)
+            self.filter.update_radius(self._radius_on_mesh(filter_radius))
             self._state = DensityState(
                 rho=rho,
                 rho_prev=rho_prev,
@@ -1058,6 +1064,7 @@ class DensityMethod(DensityMethodBase):
             )
             state.last_iter = iter_num
 
+            filter_radius = self._radius_on_mesh(filter_radius)
             if filter_radius != self.filter.radius:
                 logger.info("--- Filter Update ---")
                 self.filter.update_radius(filter_radius)
-- 
2.43.0


From b36e631475644744a4cdae43ae872a5feb6579a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 42/53] fix: the sensitivity filter does not round off small
 sensitivities

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index ffae6b8..774557a 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -1133,10 +1133,13 @@ class DensityMethod(DensityMethodBase):
                 logger.info("--- sensitivity filter ---")
                 with self._timed_section("sensitivity_filter"):
                     # the filter of a density field makes passive elements
-                    # solid: remove that contribution from the sensitivity
-                    filtered = self.filter.forward(dC_drho_full) \
-                        - self.filter.forward(np.zeros_like(dC_drho_full))
-                    np.copyto(dC_drho_full, filtered)
+                    # solid: remove that contribution from the sensitivity,
+                    # at magnitude one so that small ones are not rounded off
+                    peak = np.max(np.abs(dC_drho_full))
+                    if peak > 0.0:
+                        filtered = self.filter.forward(dC_drho_full / peak) \
+                            - self.filter.forward(np.zeros_like(dC_drho_full))
+                        np.multiply(filtered, peak, out=dC_drho_full)
 
             dC_drho_design_eles[:] = dC_drho_full[tsk.design_elements]
             rho_design_eles[:] = rho[tsk.design_elements]
-- 
2.43.0


From 3590204368ba459c2753eb18dc43c40f79e3cae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 43/53] fix: the compiled tetrahedron orientation repair
 compiles

---
 scikit-topt/sktopt/mesh/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/mesh/utils.py b/scikit-topt/sktopt/mesh/utils.py
index 4f9f97b..a68e715 100644
--- a/scikit-topt/sktopt/mesh/utils.py
+++ b/scikit-topt/sktopt/mesh/utils.py
@@ -115,10 +115,11 @@ def fix_tetrahedron_orientation_numba(t, p):
         tetrahedron is adjusted (if needed) to ensure positive volume.
     """
 
-    t_fixed = np.array(t, copy=True)
+    t_fixed = t.copy()
     n_elem = t.shape[1]
     for e in prange(n_elem):
-        n0, n1, n2, n3 = t_fixed[:, e]
+        n0, n1 = t_fixed[0, e], t_fixed[1, e]
+        n2, n3 = t_fixed[2, e], t_fixed[3, e]
         v1 = p[:, n1] - p[:, n0]
         v2 = p[:, n2] - p[:, n0]
         v3 = p[:, n3] - p[:, n0]
-- 
2.43.0


From 4cd3ca4692b67bdb163262d7904a873445bbdc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:32 +0000
Subject: [PATCH 44/53] fix: LogMOC volume chain drops the constant
 contribution of passive elements

---
 scikit-topt/sktopt/core/optimizers/logmoc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/logmoc.py b/scikit-topt/sktopt/core/optimizers/logmoc.py
index 36fe61a..bdb8f63 100644
--- a/scikit-topt/sktopt/core/optimizers/logmoc.py
+++ b/scikit-topt/sktopt/core/optimizers/logmoc.py
@@ -151,7 +151,10 @@ class LogMOC_Optimizer(common_density.DensityMethod):
             # destroys the volume-constraint adjoint for positive test fields.
             # The filter operator is self-adjoint in this setting, so falling
             # back to the forward application preserves the intended chain.
-            dV_backprop = self.filter.forward(self._dV_filtered_full)
+            # The filter of a density field makes passive elements solid:
+            # that constant is no part of the derivative.
+            dV_backprop = self.filter.forward(self._dV_filtered_full) \
+                - self.filter.forward(np.zeros_like(self._dV_filtered_full))
         np.copyto(self._dV_projected_full, dV_backprop)
         np.copyto(
             self._dV_chain_design,
-- 
2.43.0


From 9bd1f91807b36d98836229338139a236c4e12a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:32 +0000
Subject: [PATCH 45/53] fix: LogMOC filter_lagrangian drops the constant
 contribution of passive elements

---
 scikit-topt/sktopt/core/optimizers/logmoc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/logmoc.py b/scikit-topt/sktopt/core/optimizers/logmoc.py
index bdb8f63..5cb6723 100644
--- a/scikit-topt/sktopt/core/optimizers/logmoc.py
+++ b/scikit-topt/sktopt/core/optimizers/logmoc.py
@@ -210,7 +210,13 @@ class LogMOC_Optimizer(common_density.DensityMethod):
         if cfg.filter_lagrangian:
             np.copyto(self._dL_full, 0.0)
             self._dL_full[tsk.design_elements] = self._dL_buffer
-            np.copyto(self._dL_full, self.filter.forward(self._dL_full))
+            # passive elements are solid for the filter of a density field:
+            # no part of a derivative, see the sensitivity filter
+            peak = np.max(np.abs(self._dL_full))
+            if peak > 0.0:
+                filtered = self.filter.forward(self._dL_full / peak) \
+                    - self.filter.forward(np.zeros_like(self._dL_full))
+                np.multiply(filtered, peak, out=self._dL_full)
             np.copyto(self._dL_buffer, self._dL_full[tsk.design_elements])
         if cfg.center_lagrangian:
             dL_mean = np.sum(
-- 
2.43.0


From 36d60d9dfdf90cab58eafd1368329ebaef4d511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:55 +0000
Subject: [PATCH 46/53] fix: heat_exchange objective with several convection
 regions

---
 scikit-topt/sktopt/fea/solver_heat.py | 32 ++++++++++++---------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 5059e5c..308f3c5 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -831,25 +831,21 @@ class FEM_SimpLinearHeatConduction():
             J_list: list[float] = list()
             for i in range(n_loads):
                 T_i = u_dofs[:, i]
-                J_i = heat_exchange_objective(
-                    cbasis,
-                    T_i,
-                    rho_nodal,
-                    self.task.robin_bc_value,      # T_env
-                    self.task.robin_coefficient    # h
-                )
-                J_list.append(J_i)
+                # heat exchanged with every Robin region
+                J_list.append(sum(
+                    heat_exchange_objective(cbasis, T_i, rho_nodal, T_env, h)
+                    for h, T_env in zip(h_list, Tenv_list)
+                ))
 
-            T_env_field = cbasis.interpolate(
-                np.full(cbasis.N, self.task.robin_bc_value)
-            )
-            # h_eff_nodal = h * ρ^p (1-ρ)^q
-            h = self.task.robin_coefficient
-            h_eff_nodal = h * (rho_nodal**p) * (1.0 - rho_nodal)**self.q
-            h_eff_field = cbasis.interpolate(h_eff_nodal)
-            rhs_vec = _hx_adj_rhs_.assemble(
-                cbasis, rho=rhoh, T_env=T_env_field, h_eff=h_eff_field
-            )
+            rhs_vec = np.zeros(cbasis.N)
+            for h, T_env in zip(h_list, Tenv_list):
+                T_env_field = cbasis.interpolate(np.full(cbasis.N, T_env))
+                # h_eff_nodal = h * ρ^p (1-ρ)^q
+                h_eff_nodal = h * (rho_nodal**p) * (1.0 - rho_nodal)**self.q
+                h_eff_field = cbasis.interpolate(h_eff_nodal)
+                rhs_vec += _hx_adj_rhs_.assemble(
+                    cbasis, rho=rhoh, T_env=T_env_field, h_eff=h_eff_field
+                )
             rhs_vec /= J_den  # ∂J/∂T
 
             # solve adjoint K λ = ∂J/∂T
-- 
2.43.0


From 7773d17e857cac2c15042394aa8c7d2f7cb8a49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:55 +0000
Subject: [PATCH 47/53] fix: heat_exchange treats rounding noise of a uniform
 density as an interface

---
 scikit-topt/sktopt/fea/solver_heat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/fea/solver_heat.py b/scikit-topt/sktopt/fea/solver_heat.py
index 308f3c5..7714070 100644
--- a/scikit-topt/sktopt/fea/solver_heat.py
+++ b/scikit-topt/sktopt/fea/solver_heat.py
@@ -821,7 +821,8 @@ class FEM_SimpLinearHeatConduction():
             den_e = _hx_den_density_.elemental(cbasis, rho=rhoh)
             J_den = den_e.sum()
 
-            if J_den <= 1e-16:
+            # averaging a uniform density leaves rounding errors: no interface
+            if J_den <= 1e-16 or np.ptp(rho_nodal) <= 1e-12:
                 # the boundary is almost zero -> objective/grad = 0
                 J_list = [0.0 for _ in range(n_loads)]
                 λ_all = np.zeros_like(u_dofs)
-- 
2.43.0


From d4f6eb3f9dc5d515dc5e78f523af9c1618fef71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:55 +0000
Subject: [PATCH 48/53] fix: history series whose name ends in _header are
 exported and imported

---
 scikit-topt/sktopt/tools/history.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index b0abf25..ce0cb75 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -558,7 +558,11 @@ class HistoryCollection():
             histories[name] = data
 
             if header is not None:
-                histories[f"{name}_header"] = np.array(header, dtype=str)
+                # a series may itself be called "..._header"
+                header_key = f"{name}_header"
+                while header_key in histories or header_key in self.histories:
+                    header_key += "_header"
+                histories[header_key] = np.array(header, dtype=str)
 
         return histories
 
@@ -584,9 +588,7 @@ class HistoryCollection():
             fname = "histories.npz"
 
         histories = self.histories_to_array()
-        data_keys = [k for k in histories.keys() if not k.endswith("_header")]
-
-        if len(data_keys) == 0:
+        if len(histories) == 0:
             logger.warning("No histories to save.")
             return
 
@@ -651,15 +653,18 @@ class HistoryCollection():
         new_histories = dict(self.histories)
 
         with np.load(path, allow_pickle=True) as data:
-            for key in data.files:
-                if key.endswith("_header"):
+            arrays = {key: data[key] for key in data.files}
+            # headers are the arrays of strings; they name their series
+            headers = {
+                arr[0]: arr.tolist()
+                for arr in arrays.values() if arr.dtype.kind == "U"
+            }
+            for key, arr in arrays.items():
+                if arr.dtype.kind == "U":
                     continue
 
-                arr = data[key]
-                header_key = f"{key}_header"
-
-                if header_key in data:
-                    header = data[header_key].tolist()
+                if key in headers:
+                    header = headers[key]
                     name = header[0]
                     plot_type = header[1] if len(header) > 1 else "min-max-mean"
                 else:
-- 
2.43.0


From 1e7d9d55f490d3ca99e2bbdb784006537f82af2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:52 +0000
Subject: [PATCH 49/53] fix: a restart also forgets result meshes of the
 abandoned continuation

---
 scikit-topt/sktopt/core/optimizers/common_density.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/core/optimizers/common_density.py b/scikit-topt/sktopt/core/optimizers/common_density.py
index 774557a..28beed0 100644
--- a/scikit-topt/sktopt/core/optimizers/common_density.py
+++ b/scikit-topt/sktopt/core/optimizers/common_density.py
@@ -752,13 +752,16 @@ class DensityMethod(DensityMethodBase):
             rho[tsk.design_elements] = data["rho_design_elements"]
             del data
             # keep the entries of the iterations before the restart only and
-            # forget checkpoints of the continuation that is abandoned
+            # forget checkpoints and result meshes of the continuation that
+            # is abandoned
             self.recorder.truncate(iter_begin - 1)
             for iter_saved, path in misc.list_iter_files(
                 f"{cfg.dst_path}/data"
             ):
                 if iter_saved >= iter_begin:
                     os.remove(path)
+                    if os.path.exists(cfg.vtu_path(iter_saved)):
+                        os.remove(cfg.vtu_path(iter_saved))
         else:
             rho += val_init
             np.clip(rho, cfg.rho_min, cfg.rho_max, out=rho)
-- 
2.43.0


From d64d3bf39b89149f6e070960ced251596fd38db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:24 +0000
Subject: [PATCH 50/53] fix: an unconverged PETSc solve was returned silently

---
 scikit-topt/sktopt/fea/solver_petsc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scikit-topt/sktopt/fea/solver_petsc.py b/scikit-topt/sktopt/fea/solver_petsc.py
index a6bf857..a6dfa4f 100644
--- a/scikit-topt/sktopt/fea/solver_petsc.py
+++ b/scikit-topt/sktopt/fea/solver_petsc.py
@@ -182,7 +182,10 @@ def _solve_with_ksp(PETSc, ksp, rhs: np.ndarray, size: int) -> tuple[np.ndarray,
     )
     x = PETSc.Vec().createSeq(size, comm=PETSc.COMM_SELF)
     ksp.solve(b, x)
-    return x.getArray().copy(), ksp.getConvergedReason()
+    reason = ksp.getConvergedReason()
+    if reason < 0:
+        raise RuntimeError(f"PETSc did not converge (reason={reason})")
+    return x.getArray().copy(), reason
 
 
 def solve_u_petsc(
-- 
2.43.0


From 525cbb290ce318a1ed786ba5e3ba40ddc5e4afa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:24 +0000
Subject: [PATCH 51/53] fix: the stress tensor was integrated over elements
 instead of evaluated

---
 scikit-topt/sktopt/fea/composer.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/scikit-topt/sktopt/fea/composer.py b/scikit-topt/sktopt/fea/composer.py
index 2d6c5f6..0d311c2 100644
--- a/scikit-topt/sktopt/fea/composer.py
+++ b/scikit-topt/sktopt/fea/composer.py
@@ -476,13 +476,11 @@ def stress_tensor_skfem(
     lam_elem = np.tile(lam_elem, (n_qp, 1))  # shape: (n_qp, n_elements)
     mu_elem = np.tile(mu_elem, (n_qp, 1))
 
-    stress_tensor = compute_element_stress_tensor.elemental(
-        basis,
-        uh=uh,
-        # uh=u,
-        lam_elem=lam_elem, mu_elem=mu_elem
+    # evaluated, not integrated over the elements
+    stress_tensor = compute_element_stress_tensor.form(
+        {"uh": uh, "lam_elem": lam_elem, "mu_elem": mu_elem}
     )
-    return stress_tensor  # shape: (n_elem, n_qp, 3, 3)
+    return stress_tensor  # shape: (3, 3, n_elem, n_qp)
 
 
 def von_mises_from_stress_tensor(stress_tensor: np.ndarray) -> np.ndarray:
-- 
2.43.0


From f3ea772e325b9b582323f7e31b75f16ad3e315e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:24 +0000
Subject: [PATCH 52/53] fix: integer initial data made a history's array None

---
 scikit-topt/sktopt/tools/history.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/scikit-topt/sktopt/tools/history.py b/scikit-topt/sktopt/tools/history.py
index ce0cb75..585e074 100644
--- a/scikit-topt/sktopt/tools/history.py
+++ b/scikit-topt/sktopt/tools/history.py
@@ -112,15 +112,9 @@ class HistorySeries():
             converted to a NumPy array.
         """
 
-        try:
-            value = self.data[0]
-            if isinstance(value, float):
-                return np.array(self.data)
-            elif isinstance(value, list) or isinstance(value, np.ndarray):
-                return np.array(self.data)
-
-        except Exception as e:
-            raise ValueError(f"data not exit {e}")
+        if not self.exists():
+            raise ValueError(f"HistorySeries '{self.name}' has no data.")
+        return np.array(self.data)
 
     def add(self, data_input: np.ndarray | float):
         """
-- 
2.43.0


From c27f66b6402dce2213a25cc3af214641c8393627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:24 +0000
Subject: [PATCH 53/53] fix: timer charts merged nested sections of the same
 name

---
 scikit-topt/sktopt/tools/timer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scikit-topt/sktopt/tools/timer.py b/scikit-topt/sktopt/tools/timer.py
index 261178e..2d45f9d 100644
--- a/scikit-topt/sktopt/tools/timer.py
+++ b/scikit-topt/sktopt/tools/timer.py
@@ -373,7 +373,7 @@ class SectionTimer:
             ]
         data = [metric_map[value](s) for s in stats]
         if moving_average:
-            data = self._update_running_average(names, data)
+            data = self._update_running_average([s.name for s in stats], data)
 
         fig = None
         if ax is None:
@@ -383,7 +383,8 @@ class SectionTimer:
             fig = Figure(figsize=(6, 0.4 * len(stats) + 1))
             ax = fig.add_subplot(111)
 
-        ax.barh(names, data, color=color)
+        # labels of nested sections need not be unique
+        ax.barh(range(len(names)), data, color=color, tick_label=names)
         ax.set_xlabel(f"{value} [s]" if value in ("total", "avg", "max") else value)
         ax.set_title("Section timing")
         ax.invert_yaxis()
-- 
2.43.0

