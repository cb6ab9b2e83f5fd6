From 0d37c43571011d4b0ae87fbe73529369e1f9041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 01/11] fix: pair the terminal voltages and currents of the
 same voxel

The positions of the source voxels were sorted by the material order for the
voltages and by the source order for the currents, such that the terminal power
was wrong if the domains (or voxels) are listed in different orders.
---
 pypeec/lib_solver/problem_geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypeec/lib_solver/problem_geometry.py b/pypeec/lib_solver/problem_geometry.py
index c1ade26..dd0f855 100644
--- a/pypeec/lib_solver/problem_geometry.py
+++ b/pypeec/lib_solver/problem_geometry.py
@@ -214,6 +214,10 @@ def get_source_pos(source_idx, idx_vc, idx_src_c, idx_src_v):
         idx_vc_tmp = np.flatnonzero(idx_vc_tmp)
         idx_src_tmp = np.flatnonzero(idx_src_tmp)
 
+        # match the order of the voltages and currents (sorted by voxel index)
+        idx_vc_tmp = idx_vc_tmp[np.argsort(idx_vc[idx_vc_tmp])]
+        idx_src_tmp = idx_src_tmp[np.argsort(idx_src[idx_src_tmp])]
+
         # assign the current and voltage
         source_idx[tag]["idx_vc"] = idx_vc_tmp
         source_idx[tag]["idx_src"] = idx_src_tmp
-- 
2.43.0


From 3fc8c4f43ee7acf8af3ad7bc165fc4ec130641c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:22 +0000
Subject: [PATCH 02/11] fix: check the y indices against the number of voxels
 along y

---
 pypeec/utils/voxel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/utils/voxel.py b/pypeec/utils/voxel.py
index e98a7da..3ef7372 100644
--- a/pypeec/utils/voxel.py
+++ b/pypeec/utils/voxel.py
@@ -30,7 +30,7 @@ def get_idx_linear(n, idx_tensor):
     # check bounds
     if not (np.all(idx_x >= 0) and np.all(idx_x < nx)):
         raise ValueError("invalid index range (x coordinate)")
-    if not (np.all(idx_y >= 0) and np.all(idx_y < nx)):
+    if not (np.all(idx_y >= 0) and np.all(idx_y < ny)):
         raise ValueError("invalid index range (y coordinate)")
     if not (np.all(idx_z >= 0) and np.all(idx_z < nz)):
         raise ValueError("invalid index range (z coordinate)")
-- 
2.43.0


From 29092a71fa9c9830345ddf4f95e784a3b357888b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:20 +0000
Subject: [PATCH 03/11] fix: reject duplicated material and source indices

The same domain in several electric materials (or magnetic materials, or sources)
was silently accepted: the duplicated rows of the incidence matrix remove faces and
the terminal currents are counted several times.
---
 pypeec/lib_solver/problem_geometry.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pypeec/lib_solver/problem_geometry.py b/pypeec/lib_solver/problem_geometry.py
index dd0f855..0fdf447 100644
--- a/pypeec/lib_solver/problem_geometry.py
+++ b/pypeec/lib_solver/problem_geometry.py
@@ -32,7 +32,7 @@ def _get_domain_indices(domain_list, domain_def):
     return idx_all
 
 
-def _check_indices(idx_vc, idx_src_c, idx_src_v):
+def _check_indices(idx_vc, idx_vm, idx_src_c, idx_src_v):
     """
     Check that the material and source indices are valid.
     The indices should be unique and compatible with the voxel size.
@@ -47,6 +47,15 @@ def _check_indices(idx_vc, idx_src_c, idx_src_v):
     if (len(idx_src_c) == 0) and (len(idx_src_v) == 0):
         raise RuntimeError("source indices cannot be empty")
 
+    # check that the indices are unique
+    if not (len(np.unique(idx_vc)) == len(idx_vc)):
+        raise RuntimeError("electric indices should be unique")
+    if not (len(np.unique(idx_vm)) == len(idx_vm)):
+        raise RuntimeError("magnetic indices should be unique")
+    idx_src = np.concatenate((idx_src_c, idx_src_v))
+    if not (len(np.unique(idx_src)) == len(idx_src)):
+        raise RuntimeError("source indices should be unique")
+
     # check that the terminal indices are electric indices
     if not np.all(np.in1d(idx_src_c, idx_vc)):
         raise RuntimeError("current source indices should overlap with electric indices")
@@ -77,7 +86,7 @@ def get_problem_type(idx_vc, idx_vm, idx_src_c, idx_src_v, graph_def):
     """
 
     # check voxel indices
-    _check_indices(idx_vc, idx_src_c, idx_src_v)
+    _check_indices(idx_vc, idx_vm, idx_src_c, idx_src_v)
     _check_source_graph(idx_vc, idx_src_c, idx_src_v, graph_def)
 
     # detect the existence of magnetic domains
-- 
2.43.0


From 280c2353c7cbc682916c59f1bdf21b72d538dfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:00 +0000
Subject: [PATCH 04/11] fix: raise the errors of the invalid voxel sizes

---
 pypeec/lib_mesher/mesher_shape.py | 4 ++--
 pypeec/lib_mesher/mesher_stl.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypeec/lib_mesher/mesher_shape.py b/pypeec/lib_mesher/mesher_shape.py
index 71b5f2f..a276f0c 100644
--- a/pypeec/lib_mesher/mesher_shape.py
+++ b/pypeec/lib_mesher/mesher_shape.py
@@ -395,10 +395,10 @@ def _get_voxel_size(dx, dy, dz, stack_pos, xy_max, xy_min):
 
     # check voxel validity
     if not np.all(d > 0):
-        RuntimeError("invalid voxel dimension: should be positive")
+        raise RuntimeError("invalid voxel dimension: should be positive")
     # check voxel validity
     if not np.all(n > 0):
-        RuntimeError("invalid voxel number: should be positive")
+        raise RuntimeError("invalid voxel number: should be positive")
 
     return n, d, c
 
diff --git a/pypeec/lib_mesher/mesher_stl.py b/pypeec/lib_mesher/mesher_stl.py
index 8f9dfe2..fb60d56 100644
--- a/pypeec/lib_mesher/mesher_stl.py
+++ b/pypeec/lib_mesher/mesher_stl.py
@@ -134,10 +134,10 @@ def _get_voxel_size(d, xyz_max, xyz_min):
 
     # check voxel validity
     if not np.all(d > 0):
-        RuntimeError("invalid voxel dimension: should be positive")
+        raise RuntimeError("invalid voxel dimension: should be positive")
     # check voxel validity
     if not np.all(n > 0):
-        RuntimeError("invalid voxel number: should be positive")
+        raise RuntimeError("invalid voxel number: should be positive")
 
     return n, d, c
 
-- 
2.43.0


From 0e7fdefe83ca9c21127e7854d9d000826d2b94c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:57 +0000
Subject: [PATCH 05/11] fix: limit the segregated solver to the maximum number
 of iterations

---
 pypeec/lib_solver/equation_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/lib_solver/equation_solver.py b/pypeec/lib_solver/equation_solver.py
index 8b51201..63f7965 100644
--- a/pypeec/lib_solver/equation_solver.py
+++ b/pypeec/lib_solver/equation_solver.py
@@ -404,7 +404,7 @@ def _get_solver_segregated(sol_init, fct_cpl, fct_sys, fct_pcd, rhs, segregated_
         status = status_c and status_m and status_res
 
         # check convergence
-        if (n_iter > n_max) or (status and (n_iter >= n_min)):
+        if (n_iter >= n_max) or (status and (n_iter >= n_min)):
             converged = True
 
     return status, sol_all
-- 
2.43.0


From 988d12b24f5cef969aab82e93ca1ccbc62fa7141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:57 +0000
Subject: [PATCH 06/11] fix: accept an empty power history for the solver stop
 criterion

---
 pypeec/lib_solver/equation_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/lib_solver/equation_solver.py b/pypeec/lib_solver/equation_solver.py
index 63f7965..6cf4880 100644
--- a/pypeec/lib_solver/equation_solver.py
+++ b/pypeec/lib_solver/equation_solver.py
@@ -95,7 +95,7 @@ class _IterCounter:
             power_cmp = self.power_vec[-(self.n_cmp+1):-1]
 
             # get convergence status
-            power_err = np.max(np.abs(power_ref-power_cmp))
+            power_err = np.max(np.abs(power_ref-power_cmp), initial=0.0)
             power_thr = np.maximum(self.rel_tol*np.abs(power_ref), self.abs_tol)
             status = power_err <= power_thr
 
-- 
2.43.0


From af37804309c1bac492536b96eeeeba6573f9d5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:20 +0000
Subject: [PATCH 07/11] fix: keep the spectrum of the caller in the inverse
 Fourier transform

---
 pypeec/utils/fourier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypeec/utils/fourier.py b/pypeec/utils/fourier.py
index 4248ee7..2432c43 100644
--- a/pypeec/utils/fourier.py
+++ b/pypeec/utils/fourier.py
@@ -51,7 +51,8 @@ def get_ifft(v_freq, n_time=None):
     The number of samples can be specified (undersampling/oversampling).
     """
 
-    # scale the DC coefficient
+    # scale the DC coefficient (without modifying the provided array)
+    v_freq = np.array(v_freq, dtype=np.complex128)
     v_freq[0] *= 2.0
 
     # if the required size is specified, use undersampling/oversampling
-- 
2.43.0


From 369f12645ad70e22a1e6580fd52424bcdf142b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 08/11] fix: check the minimum of the integers in the input
 data

---
 pypeec/lib_check/check_data_format.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pypeec/lib_check/check_data_format.py b/pypeec/lib_check/check_data_format.py
index 0f3ecb4..288b8bf 100644
--- a/pypeec/lib_check/check_data_format.py
+++ b/pypeec/lib_check/check_data_format.py
@@ -58,9 +58,16 @@ def _get_strict_validator():
     type_checker = type_checker.redefine("integer", get_int)
     type_checker = type_checker.redefine("array", get_array)
 
+    # the range should also be checked for the integers (which are not of the type number)
+    def get_minimum(validator, minimum, instance, _):
+        if validator.is_type(instance, "number") or validator.is_type(instance, "integer"):
+            if instance < minimum:
+                yield jsonschema.ValidationError("%r is less than the minimum of %r" % (instance, minimum))
+
     # custom validator
     StrictValidator = jsonschema.validators.extend(
         jsonschema.Draft202012Validator,
+        validators={"minimum": get_minimum},
         type_checker=type_checker,
     )
 
-- 
2.43.0


From 05be9239a1c56b3f0cddd5716bb0ea14d1773b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 09/11] fix: check the type of the clipping flag in the plot
 options

---
 pypeec/data/schema_plot_pyvista.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/data/schema_plot_pyvista.yaml b/pypeec/data/schema_plot_pyvista.yaml
index df04f59..08292f6 100644
--- a/pypeec/data/schema_plot_pyvista.yaml
+++ b/pypeec/data/schema_plot_pyvista.yaml
@@ -12,7 +12,7 @@
             - "clip_axis"
             - "clip_value"
         "properties":
-            "plot_clip":
+            "clip_plot":
                 "type": "boolean"
             "clip_invert":
                 "type": "boolean"
-- 
2.43.0


From f4dac137ab1b6dc8b48085039b5e8f5c3cf77211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 10/11] fix: quote the file names given to the external tools

---
 pypeec/utils/gerber.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pypeec/utils/gerber.py b/pypeec/utils/gerber.py
index 894c75a..6e5bb95 100644
--- a/pypeec/utils/gerber.py
+++ b/pypeec/utils/gerber.py
@@ -22,6 +22,7 @@ __license__ = "Mozilla Public License Version 2.0"
 
 import os
 import os.path
+import shlex
 import subprocess
 
 
@@ -103,19 +104,19 @@ def _get_png_file(filename_gerbv, filename_png, margin, voxel, oversampling):
 
     # transform the GERBER files into a PNG file
     cmd = "gerbv -p %s -o %s -x png --border %d --dpi %d 2>/dev/null" % (
-        filename_gerbv,
-        filename_png,
+        shlex.quote(filename_gerbv),
+        shlex.quote(filename_png),
         border,
         resolution,
     )
     subprocess.run(cmd, shell=True)
 
     # cut the border
-    cmd = "mogrify -trim %s" % filename_png
+    cmd = "mogrify -trim %s" % shlex.quote(filename_png)
     subprocess.run(cmd, shell=True)
 
     # cut the border
-    cmd = "mogrify -sample %.2f%% %s" % (resize, filename_png)
+    cmd = "mogrify -sample %.2f%% %s" % (resize, shlex.quote(filename_png))
     subprocess.run(cmd, shell=True)
 
 
-- 
2.43.0


From ff40a065bd7213eac915cc44e05b8c70ff1e7952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 11/11] fix: raise the error of the Qt event loop

---
 pypeec/lib_plot/manage_plotgui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypeec/lib_plot/manage_plotgui.py b/pypeec/lib_plot/manage_plotgui.py
index dbe571a..3255d0a 100644
--- a/pypeec/lib_plot/manage_plotgui.py
+++ b/pypeec/lib_plot/manage_plotgui.py
@@ -264,7 +264,7 @@ class PlotGui:
 
         # check status
         if exit_code != 0:
-            RuntimeError("error during the Qt event loop / exit_code = %d" % exit_code)
+            raise RuntimeError("error during the Qt event loop / exit_code = %d" % exit_code)
 
     def _show_figure_nb(self):
         """
-- 
2.43.0

