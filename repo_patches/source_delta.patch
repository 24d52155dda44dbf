From baa9d0c55588f7a883eb34646534ffbe147cdd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:31 +0000
Subject: [PATCH 1/9] fix: pair the voltages and currents of the source
 terminals in the same order

---
 pypeec/lib_solver/problem_geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypeec/lib_solver/problem_geometry.py b/pypeec/lib_solver/problem_geometry.py
index c1ade26..350d7a8 100644
--- a/pypeec/lib_solver/problem_geometry.py
+++ b/pypeec/lib_solver/problem_geometry.py
@@ -214,6 +214,10 @@ def get_source_pos(source_idx, idx_vc, idx_src_c, idx_src_v):
         idx_vc_tmp = np.flatnonzero(idx_vc_tmp)
         idx_src_tmp = np.flatnonzero(idx_src_tmp)
 
+        # the voltages and currents should be in the same order (voxel indices)
+        idx_vc_tmp = idx_vc_tmp[np.argsort(idx_vc[idx_vc_tmp])]
+        idx_src_tmp = idx_src_tmp[np.argsort(idx_src[idx_src_tmp])]
+
         # assign the current and voltage
         source_idx[tag]["idx_vc"] = idx_vc_tmp
         source_idx[tag]["idx_src"] = idx_src_tmp
-- 
2.43.0


From efb82b7130a34907f9fd600fbfe308ba825c7f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 2/9] fix: get_ifft should not modify the spectrum of the
 caller

---
 pypeec/utils/fourier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypeec/utils/fourier.py b/pypeec/utils/fourier.py
index 4248ee7..0db64fb 100644
--- a/pypeec/utils/fourier.py
+++ b/pypeec/utils/fourier.py
@@ -51,7 +51,8 @@ def get_ifft(v_freq, n_time=None):
     The number of samples can be specified (undersampling/oversampling).
     """
 
-    # scale the DC coefficient
+    # scale the DC coefficient (without modifying the input array)
+    v_freq = np.copy(v_freq)
     v_freq[0] *= 2.0
 
     # if the required size is specified, use undersampling/oversampling
-- 
2.43.0


From c936bb13e3f9fa30367020384d4e37ee58953cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 3/9] fix: check the y index against the number of voxels along
 y

---
 pypeec/utils/voxel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/utils/voxel.py b/pypeec/utils/voxel.py
index e98a7da..3ef7372 100644
--- a/pypeec/utils/voxel.py
+++ b/pypeec/utils/voxel.py
@@ -30,7 +30,7 @@ def get_idx_linear(n, idx_tensor):
     # check bounds
     if not (np.all(idx_x >= 0) and np.all(idx_x < nx)):
         raise ValueError("invalid index range (x coordinate)")
-    if not (np.all(idx_y >= 0) and np.all(idx_y < nx)):
+    if not (np.all(idx_y >= 0) and np.all(idx_y < ny)):
         raise ValueError("invalid index range (y coordinate)")
     if not (np.all(idx_z >= 0) and np.all(idx_z < nz)):
         raise ValueError("invalid index range (z coordinate)")
-- 
2.43.0


From 116c058fa896bd0d4aaf7ada7a264c616f3e24e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 4/9] fix: reject materials and sources sharing the same voxels

---
 pypeec/lib_solver/problem_geometry.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pypeec/lib_solver/problem_geometry.py b/pypeec/lib_solver/problem_geometry.py
index 350d7a8..5683598 100644
--- a/pypeec/lib_solver/problem_geometry.py
+++ b/pypeec/lib_solver/problem_geometry.py
@@ -32,7 +32,7 @@ def _get_domain_indices(domain_list, domain_def):
     return idx_all
 
 
-def _check_indices(idx_vc, idx_src_c, idx_src_v):
+def _check_indices(idx_vc, idx_vm, idx_src_c, idx_src_v):
     """
     Check that the material and source indices are valid.
     The indices should be unique and compatible with the voxel size.
@@ -47,6 +47,15 @@ def _check_indices(idx_vc, idx_src_c, idx_src_v):
     if (len(idx_src_c) == 0) and (len(idx_src_v) == 0):
         raise RuntimeError("source indices cannot be empty")
 
+    # check that the indices are unique (materials of the same type and sources cannot overlap)
+    if not (len(np.unique(idx_vc)) == len(idx_vc)):
+        raise RuntimeError("electric indices should be unique")
+    if not (len(np.unique(idx_vm)) == len(idx_vm)):
+        raise RuntimeError("magnetic indices should be unique")
+    idx_src = np.concatenate((idx_src_c, idx_src_v))
+    if not (len(np.unique(idx_src)) == len(idx_src)):
+        raise RuntimeError("source indices should be unique")
+
     # check that the terminal indices are electric indices
     if not np.all(np.in1d(idx_src_c, idx_vc)):
         raise RuntimeError("current source indices should overlap with electric indices")
@@ -77,7 +86,7 @@ def get_problem_type(idx_vc, idx_vm, idx_src_c, idx_src_v, graph_def):
     """
 
     # check voxel indices
-    _check_indices(idx_vc, idx_src_c, idx_src_v)
+    _check_indices(idx_vc, idx_vm, idx_src_c, idx_src_v)
     _check_source_graph(idx_vc, idx_src_c, idx_src_v, graph_def)
 
     # detect the existence of magnetic domains
-- 
2.43.0


From 53b9f333bc66e9cb951f78e4c913925348039265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 5/9] fix: raise the errors detected for the voxel size and the
 Qt event loop

---
 pypeec/lib_mesher/mesher_shape.py | 4 ++--
 pypeec/lib_mesher/mesher_stl.py   | 4 ++--
 pypeec/lib_plot/manage_plotgui.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pypeec/lib_mesher/mesher_shape.py b/pypeec/lib_mesher/mesher_shape.py
index 71b5f2f..a276f0c 100644
--- a/pypeec/lib_mesher/mesher_shape.py
+++ b/pypeec/lib_mesher/mesher_shape.py
@@ -395,10 +395,10 @@ def _get_voxel_size(dx, dy, dz, stack_pos, xy_max, xy_min):
 
     # check voxel validity
     if not np.all(d > 0):
-        RuntimeError("invalid voxel dimension: should be positive")
+        raise RuntimeError("invalid voxel dimension: should be positive")
     # check voxel validity
     if not np.all(n > 0):
-        RuntimeError("invalid voxel number: should be positive")
+        raise RuntimeError("invalid voxel number: should be positive")
 
     return n, d, c
 
diff --git a/pypeec/lib_mesher/mesher_stl.py b/pypeec/lib_mesher/mesher_stl.py
index 8f9dfe2..fb60d56 100644
--- a/pypeec/lib_mesher/mesher_stl.py
+++ b/pypeec/lib_mesher/mesher_stl.py
@@ -134,10 +134,10 @@ def _get_voxel_size(d, xyz_max, xyz_min):
 
     # check voxel validity
     if not np.all(d > 0):
-        RuntimeError("invalid voxel dimension: should be positive")
+        raise RuntimeError("invalid voxel dimension: should be positive")
     # check voxel validity
     if not np.all(n > 0):
-        RuntimeError("invalid voxel number: should be positive")
+        raise RuntimeError("invalid voxel number: should be positive")
 
     return n, d, c
 
diff --git a/pypeec/lib_plot/manage_plotgui.py b/pypeec/lib_plot/manage_plotgui.py
index dbe571a..3255d0a 100644
--- a/pypeec/lib_plot/manage_plotgui.py
+++ b/pypeec/lib_plot/manage_plotgui.py
@@ -264,7 +264,7 @@ class PlotGui:
 
         # check status
         if exit_code != 0:
-            RuntimeError("error during the Qt event loop / exit_code = %d" % exit_code)
+            raise RuntimeError("error during the Qt event loop / exit_code = %d" % exit_code)
 
     def _show_figure_nb(self):
         """
-- 
2.43.0


From a633fb061c5eee194bd7da8b0c2a3c15c2a368b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 6/9] fix: accept null for the number of PARDISO and MKL
 threads

---
 pypeec/lib_matrix/matrix_factorization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypeec/lib_matrix/matrix_factorization.py b/pypeec/lib_matrix/matrix_factorization.py
index c0181c6..28501d7 100644
--- a/pypeec/lib_matrix/matrix_factorization.py
+++ b/pypeec/lib_matrix/matrix_factorization.py
@@ -57,9 +57,9 @@ def _get_fact_pardiso(mat):
     thread_mkl = PARDISO_OPTIONS["thread_mkl"]
 
     # find the number of threads
-    if thread_pardiso < 0:
+    if thread_pardiso is not None and thread_pardiso < 0:
         thread_pardiso = os.cpu_count()+thread_pardiso+1
-    if thread_mkl < 0:
+    if thread_mkl is not None and thread_mkl < 0:
         thread_mkl = os.cpu_count()+thread_mkl+1
     if thread_pardiso == 0:
         thread_pardiso = 1
-- 
2.43.0


From b7a87c7941feba8dcf036e8651a9634898d0dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 7/9] fix: validate the source values of the problem definition

---
 pypeec/data/schema_problem.yaml | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pypeec/data/schema_problem.yaml b/pypeec/data/schema_problem.yaml
index 69f05b9..1db2443 100644
--- a/pypeec/data/schema_problem.yaml
+++ b/pypeec/data/schema_problem.yaml
@@ -107,3 +107,23 @@
                                     "type":
                                         - "number"
                                         - "array"
+                        "source_val":
+                            "type": "object"
+                            "additionalProperties":
+                                "type": "object"
+                                "anyOf":
+                                    -   "required":
+                                            - "I_re"
+                                            - "I_im"
+                                            - "Y_re"
+                                            - "Y_im"
+                                    -   "required":
+                                            - "V_re"
+                                            - "V_im"
+                                            - "Z_re"
+                                            - "Z_im"
+                                "additionalProperties":
+                                    "type":
+                                        - "integer"
+                                        - "number"
+                                        - "array"
-- 
2.43.0


From 9d4af512598832c6e87167e191ecd63189459497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 8/9] fix: require the iteration options of the segregated
 solver

---
 pypeec/data/schema_tolerance.yaml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypeec/data/schema_tolerance.yaml b/pypeec/data/schema_tolerance.yaml
index 661d319..59a763d 100644
--- a/pypeec/data/schema_tolerance.yaml
+++ b/pypeec/data/schema_tolerance.yaml
@@ -36,6 +36,8 @@
         - "n_max"
         - "rel_tol"
         - "abs_tol"
+        - "iter_electric_options"
+        - "iter_magnetic_options"
     "properties":
         "relax_electric":
             "type": "number"
-- 
2.43.0


From 3640727dd10abb955c3b3736ce7bceef5b33a5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:59 +0000
Subject: [PATCH 9/9] fix: validate the clipping flag of the plots

---
 pypeec/data/schema_plot_pyvista.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/data/schema_plot_pyvista.yaml b/pypeec/data/schema_plot_pyvista.yaml
index df04f59..08292f6 100644
--- a/pypeec/data/schema_plot_pyvista.yaml
+++ b/pypeec/data/schema_plot_pyvista.yaml
@@ -12,7 +12,7 @@
             - "clip_axis"
             - "clip_value"
         "properties":
-            "plot_clip":
+            "clip_plot":
                 "type": "boolean"
             "clip_invert":
                 "type": "boolean"
-- 
2.43.0

