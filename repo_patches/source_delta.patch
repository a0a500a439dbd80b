From ba4d022ebd2393728d7595937f4d5c1edbda4314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 01/16] fix: give 3D elastic callbacks the models under their
 own names

The 2D list of model names replaced the 3D one, so in 3D the callback
state returned mu_zy as mu_yx, mu_zx as buoyancy_y and mu_yx as
buoyancy_x (and likewise the gradients), and the rest were missing.
---
 src/deepwave/elastic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 3de44c5..a22db69 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1482,8 +1482,9 @@ class ElasticForwardFunc(torch.autograd.Function):
                     "m_sigmaxyx_0",
                 ]
             )
+        if ndim == 2:
             model_names = ["lamb", "mu", "mu_yx", "buoyancy_y", "buoyancy_x"]
-        if ndim == 1:
+        elif ndim == 1:
             model_names = ["lamb", "mu", "buoyancy_x"]
         wavefield_names.extend(
             [
@@ -1813,8 +1814,9 @@ class ElasticForwardFunc(torch.autograd.Function):
                     "m_sigmaxyx_0",
                 ]
             )
+        if ndim == 2:
             model_names = ["lamb", "mu", "mu_yx", "buoyancy_y", "buoyancy_x"]
-        if ndim == 1:
+        elif ndim == 1:
             model_names = ["lamb", "mu", "buoyancy_x"]
         wavefield_names.extend(
             [
-- 
2.43.0


From d282d7efc07b469069571ef38f006d0d9b259a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 02/16] fix: provide m_sigmaxxx_0 to elastic backward callbacks

The last wavefield was dropped from the state given to backward
callbacks, so requesting it by its documented name raised a KeyError.
---
 src/deepwave/elastic.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index a22db69..1d65fcc 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1920,9 +1920,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         )
 
                 if backward_callback is not None:
-                    callback_wavefields = dict(
-                        zip(wavefield_names, grad_wavefields[:-1])
-                    )
+                    callback_wavefields = dict(zip(wavefield_names, grad_wavefields))
                     backward_callback(
                         deepwave.common.CallbackState(
                             dt,
-- 
2.43.0


From 9ebef1394d55718babef6babd69d72d00629d23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 03/16] fix: do not count gradients repeatedly when
 backpropagating in chunks

With a backward callback the backward pass is split into several calls
to the backend. Each call adds the per-thread (or, on GPUs, per-shot)
gradient buffers to the model gradient, but the buffers were not cleared
between calls, so with several shots and more than one thread the
contributions of early chunks were added once per remaining chunk.
---
 src/deepwave/acoustic.py    | 5 +++++
 src/deepwave/elastic.py     | 5 +++++
 src/deepwave/scalar.py      | 4 ++++
 src/deepwave/scalar_born.py | 7 +++++++
 4 files changed, 21 insertions(+)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index dbb1540..5947427 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1181,6 +1181,11 @@ class AcousticForwardFunc(torch.autograd.Function):
         if grad_wavefields[0].numel() > 0 and nt > 0:
             for step in range(nt // step_ratio, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                # The backend adds the contents of the temporary model gradient
+                # buffers to the model gradients at the end of every call, so
+                # they must not still hold the contribution of a previous chunk.
+                for grad_model_tmp in grad_models_tmp:
+                    grad_model_tmp.zero_()
                 if (
                     backward(
                         *[m.data_ptr() for m in models],
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 1d65fcc..e798329 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1832,6 +1832,11 @@ class ElasticForwardFunc(torch.autograd.Function):
         if grad_wavefields[0].numel() > 0 and nt > 0:
             for step in range(nt // step_ratio, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                # The backend adds the contents of the temporary model gradient
+                # buffers to the model gradients at the end of every call, so
+                # they must not still hold the contribution of a previous chunk.
+                for grad_model_tmp in grad_models_tmp:
+                    grad_model_tmp.zero_()
                 if (
                     backward(
                         *[model.data_ptr() for model in models],
diff --git a/src/deepwave/scalar.py b/src/deepwave/scalar.py
index b74ac33..b2d8315 100644
--- a/src/deepwave/scalar.py
+++ b/src/deepwave/scalar.py
@@ -1249,6 +1249,10 @@ class ScalarBackwardFunc(torch.autograd.Function):
         if grad_wfc.numel() > 0 and nt > 0:
             for step in range(nt // step_ratio, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                # The backend adds the contents of the temporary model gradient
+                # buffers to the model gradients at the end of every call, so
+                # they must not still hold the contribution of a previous chunk.
+                grad_v_tmp.zero_()
                 if (
                     backward(
                         v2dt2.data_ptr(),
diff --git a/src/deepwave/scalar_born.py b/src/deepwave/scalar_born.py
index 7b06e44..20f7611 100644
--- a/src/deepwave/scalar_born.py
+++ b/src/deepwave/scalar_born.py
@@ -1169,6 +1169,11 @@ class ScalarBornForwardFunc(torch.autograd.Function):
             if non_sc:
                 for step in range(nt // step_ratio, 0, -callback_frequency):
                     step_nt = min(step, callback_frequency)
+                    # The backend adds the contents of the temporary model gradient
+                    # buffers to the model gradients at the end of every call, so
+                    # they must not still hold the contribution of a previous chunk.
+                    grad_v_tmp.zero_()
+                    grad_scatter_tmp.zero_()
                     if (
                         backward(
                             v.data_ptr(),
@@ -1295,6 +1300,8 @@ class ScalarBornForwardFunc(torch.autograd.Function):
             else:
                 for step in range(nt // step_ratio, 0, -callback_frequency):
                     step_nt = min(step, callback_frequency)
+                    # As above, clear any contribution from a previous chunk.
+                    grad_scatter_tmp.zero_()
                     if (
                         backward_sc(
                             v.data_ptr(),
-- 
2.43.0


From 51c975379d08d0620225b0e737af27ee4b2ece0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 04/16] fix: run all time steps when nt is not a multiple of
 the gradient sampling interval

The trailing nt % step_ratio time steps were silently dropped (or the
propagator failed when nt < step_ratio).
---
 src/deepwave/acoustic.py    | 34 ++++++++++++++++++---------
 src/deepwave/common.py      |  2 +-
 src/deepwave/elastic.py     | 34 ++++++++++++++++++---------
 src/deepwave/scalar.py      | 36 +++++++++++++++++++----------
 src/deepwave/scalar_born.py | 46 ++++++++++++++++++++++++-------------
 5 files changed, 101 insertions(+), 51 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index 5947427..b1994f0 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -25,6 +25,7 @@ receiver amplitudes (empty if no receivers).
 All outputs are differentiable with respect to float torch.Tensor inputs.
 """
 
+import math
 from typing import Any, List, Literal, Optional, Sequence, Tuple, Union, cast
 
 import torch
@@ -906,8 +907,12 @@ class AcousticForwardFunc(torch.autograd.Function):
 
         rdx = [1 / dx for dx in grid_spacing]
 
+        # The last step is shorter than the others when `nt` is not a multiple
+        # of `step_ratio`.
+        n_steps = math.ceil(nt / step_ratio)
+
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         # Wavefield names for callback
         # Same order as wavefields list
@@ -946,7 +951,7 @@ class AcousticForwardFunc(torch.autograd.Function):
 
         # Main Loop
         if wavefields[0].numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = dict(zip(wf_names, wavefields))
                     forward_callback(
@@ -960,7 +965,8 @@ class AcousticForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                chunk_nt = min(step_nt * step_ratio, nt - step * step_ratio)
 
                 if (
                     forward(
@@ -974,7 +980,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         *[loc.data_ptr() for loc in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot_list,
@@ -1141,8 +1147,12 @@ class AcousticForwardFunc(torch.autograd.Function):
         )
         rdx = [1 / dx for dx in grid_spacing]
 
+        # The last step is shorter than the others when `nt` is not a multiple
+        # of `step_ratio`.
+        n_steps = math.ceil(nt / step_ratio)
+
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         wf_names = ["pressure_0"]
         if ndim == 3:
@@ -1179,8 +1189,10 @@ class AcousticForwardFunc(torch.autograd.Function):
         callback_grad_models = dict(zip(model_names, grad_models))
 
         if grad_wavefields[0].numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            for step in range(n_steps, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                chunk_end_t = min(step * step_ratio, nt)
+                chunk_nt = chunk_end_t - (step - step_nt) * step_ratio
                 # The backend adds the contents of the temporary model gradient
                 # buffers to the model gradients at the end of every call, so
                 # they must not still hold the contribution of a previous chunk.
@@ -1201,7 +1213,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         *[loc.data_ptr() for loc in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot_list_for_grad,
@@ -1218,7 +1230,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         ],
                         *model_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        chunk_end_t,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1227,7 +1239,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     (
                         grad_wavefields[-ndim:],
                         aux_wavefields[:],
@@ -1481,7 +1493,7 @@ def acoustic_python(
 
     callback_models = dict(zip(model_names, models))
 
-    for step in range(nt // step_ratio):
+    for step in range(math.ceil(nt / step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             current_wavefields = [p, *velocities, *phi, *psi]
             callback_wavefields = dict(zip(wf_names, current_wavefields))
@@ -1497,7 +1509,7 @@ def acoustic_python(
                 )
             )
 
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
 
             # Record receivers
diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 1f8e302..2fdd4ba 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -184,7 +184,7 @@ class StorageManager:
         temporary_storage: Optional[TemporaryStorage] = None
 
         if requires_grad and self.storage_mode != StorageMode.NONE:
-            num_steps_stored = self.nt // self.step_ratio
+            num_steps_stored = math.ceil(self.nt / self.step_ratio)
 
             if self.storage_mode == StorageMode.DEVICE:  # Device
                 if self.storage_compression:
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index e798329..03568ce 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -11,6 +11,7 @@ wave simulations. The outputs are differentiable with respect to the
 material parameters (Lam'e parameters and buoyancy) and source amplitudes.
 """
 
+import math
 from typing import Any, List, Literal, Optional, Sequence, Tuple, Union, cast
 
 import torch
@@ -1434,8 +1435,12 @@ class ElasticForwardFunc(torch.autograd.Function):
 
         rdx = [1 / dx for dx in grid_spacing]
 
+        # The last step is shorter than the others when `nt` is not a multiple
+        # of `step_ratio`.
+        n_steps = math.ceil(nt / step_ratio)
+
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         wavefield_names = []
         model_names = []
@@ -1498,7 +1503,7 @@ class ElasticForwardFunc(torch.autograd.Function):
         callback_wavefields = {}
 
         if wavefields[0].numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = dict(zip(wavefield_names, wavefields))
                     forward_callback(
@@ -1512,7 +1517,8 @@ class ElasticForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                chunk_nt = min(step_nt * step_ratio, nt - step * step_ratio)
 
                 if (
                     forward(
@@ -1526,7 +1532,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         *[locs.data_ptr() for locs in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot,
@@ -1766,8 +1772,12 @@ class ElasticForwardFunc(torch.autograd.Function):
 
         rdx = [1 / dx for dx in grid_spacing]
 
+        # The last step is shorter than the others when `nt` is not a multiple
+        # of `step_ratio`.
+        n_steps = math.ceil(nt / step_ratio)
+
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         wavefield_names = []
         model_names = []
@@ -1830,8 +1840,10 @@ class ElasticForwardFunc(torch.autograd.Function):
         callback_grad_models = dict(zip(model_names, grad_models))
 
         if grad_wavefields[0].numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            for step in range(n_steps, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                chunk_end_t = min(step * step_ratio, nt)
+                chunk_nt = chunk_end_t - (step - step_nt) * step_ratio
                 # The backend adds the contents of the temporary model gradient
                 # buffers to the model gradients at the end of every call, so
                 # they must not still hold the contribution of a previous chunk.
@@ -1852,7 +1864,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         *[locs.data_ptr() for locs in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *[
@@ -1877,7 +1889,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         mu_batched,
                         buoyancy_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        chunk_end_t,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1886,7 +1898,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     if ndim == 3:
                         (
                             grad_wavefields[9:14],
@@ -2505,7 +2517,7 @@ def elastic_python(
         model_names.extend(["lamb", "mu", "buoyancy_x"])
     callback_models = dict(zip(model_names, models))
 
-    for step in range(nt // step_ratio):
+    for step in range(math.ceil(nt / step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             callback_wavefields = dict(zip(v_names, velocities))
             callback_wavefields.update(dict(zip(normal_s_names, normal_stresses)))
@@ -2534,7 +2546,7 @@ def elastic_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
 
             for ridx in range(ndim):
diff --git a/src/deepwave/scalar.py b/src/deepwave/scalar.py
index b2d8315..2d8e57c 100644
--- a/src/deepwave/scalar.py
+++ b/src/deepwave/scalar.py
@@ -18,6 +18,7 @@ receivers).
 All outputs are differentiable with respect to float torch.Tensor inputs.
 """
 
+import math
 from typing import Any, List, Literal, Optional, Sequence, Tuple, Union, cast
 
 import torch
@@ -837,18 +838,22 @@ class ScalarForwardFunc(torch.autograd.Function):
         rdx = [1 / dx for dx in grid_spacing]
         rdx2 = [1 / dx**2 for dx in grid_spacing]
 
+        # The last step is shorter than the others when `nt` is not a multiple
+        # of `step_ratio`.
+        n_steps = math.ceil(nt / step_ratio)
+
         # If no callback is provided, the entire propagation can be done in a
         # single call to the backend function. We achieve this by setting the
         # callback frequency to be the total number of steps.
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
 
         # The main time-stepping loop. The propagation is chunked into segments
         # of `callback_frequency` steps to allow for callbacks.
         if wfc.numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 # If a `forward_callback` is provided, call it with the current
                 # state.
                 if forward_callback is not None:
@@ -871,7 +876,8 @@ class ScalarForwardFunc(torch.autograd.Function):
                         )
                     )
                 # `step_nt` is the number of steps to propagate in this chunk.
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                chunk_nt = min(step_nt * step_ratio, nt - step * step_ratio)
                 # Call the C/CUDA backend function to perform the wave
                 # propagation.
                 if (
@@ -891,7 +897,7 @@ class ScalarForwardFunc(torch.autograd.Function):
                         *rdx,
                         *rdx2,
                         dt**2,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot,
@@ -916,7 +922,7 @@ class ScalarForwardFunc(torch.autograd.Function):
                 # PML variables. If an odd number of time steps were performed
                 # in the chunk, the pointers to the current and previous time
                 # step buffers need to be swapped for the next iteration.
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     wfc, wfp = wfp, wfc
                     psi, psin = psin, psi
 
@@ -1241,14 +1247,20 @@ class ScalarBackwardFunc(torch.autograd.Function):
         # This initial negation is the first part of that trick.
         grad_wfp = -grad_wfp
 
+        # The last step is shorter than the others when `nt` is not a multiple
+        # of `step_ratio`.
+        n_steps = math.ceil(nt / step_ratio)
+
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
 
         if grad_wfc.numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            for step in range(n_steps, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                chunk_end_t = min(step * step_ratio, nt)
+                chunk_nt = chunk_end_t - (step - step_nt) * step_ratio
                 # The backend adds the contents of the temporary model gradient
                 # buffers to the model gradients at the end of every call, so
                 # they must not still hold the contribution of a previous chunk.
@@ -1272,7 +1284,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                         receivers_i.data_ptr(),
                         *rdx,
                         *rdx2,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot * source_amplitudes_requires_grad,
@@ -1286,7 +1298,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                         != deepwave.common.StorageMode.NONE,
                         v_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        chunk_end_t,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1295,7 +1307,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     grad_wfc, grad_wfp = grad_wfp, grad_wfc
                     grad_psi, grad_psin = grad_psin, grad_psi
                     grad_zeta, grad_zetan = grad_zetan, grad_zeta
@@ -2046,7 +2058,7 @@ def scalar_python(
 
     dim_names = ["z", "y", "x"]
 
-    for step in range(nt // step_ratio):
+    for step in range(math.ceil(nt / step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             wavefield_dict = {
                 "wavefield_0": wavefields[0],
@@ -2068,7 +2080,7 @@ def scalar_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
             if receivers_i_masked.numel() > 0:
                 val = wavefields[0].view(-1, flat_shape).gather(1, receivers_i_masked)
diff --git a/src/deepwave/scalar_born.py b/src/deepwave/scalar_born.py
index 20f7611..997b84f 100644
--- a/src/deepwave/scalar_born.py
+++ b/src/deepwave/scalar_born.py
@@ -6,6 +6,7 @@ described in the scalar module, with the addition of a scattered
 wavefield that uses 2 / v * scatter * dt^2 * wavefield as the source term.
 """
 
+import math
 from typing import Any, List, Literal, Optional, Sequence, Tuple, Union, cast
 
 import torch
@@ -820,14 +821,18 @@ class ScalarBornForwardFunc(torch.autograd.Function):
         rdx = [1 / dx for dx in grid_spacing]
         rdx2 = [1 / dx**2 for dx in grid_spacing]
 
+        # The last step is shorter than the others when `nt` is not a multiple
+        # of `step_ratio`.
+        n_steps = math.ceil(nt / step_ratio)
+
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
         callback_wavefields = {}
 
         if wfc.numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = {
                         "wavefield_0": wfc,
@@ -855,7 +860,8 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                chunk_nt = min(step_nt * step_ratio, nt - step * step_ratio)
                 if (
                     forward(
                         v.data_ptr(),
@@ -882,7 +888,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         *rdx,
                         *rdx2,
                         dt**2,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot,
@@ -908,7 +914,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     wfc, wfp, psi, psin = (
                         wfp,
                         wfc,
@@ -1160,15 +1166,21 @@ class ScalarBornForwardFunc(torch.autograd.Function):
             grad_wfp = -grad_wfp
         grad_wfpsc = -grad_wfpsc
 
+        # The last step is shorter than the others when `nt` is not a multiple
+        # of `step_ratio`.
+        n_steps = math.ceil(nt / step_ratio)
+
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
 
         if grad_wfcsc.numel() > 0 and nt > 0:
             if non_sc:
-                for step in range(nt // step_ratio, 0, -callback_frequency):
+                for step in range(n_steps, 0, -callback_frequency):
                     step_nt = min(step, callback_frequency)
+                    chunk_end_t = min(step * step_ratio, nt)
+                    chunk_nt = chunk_end_t - (step - step_nt) * step_ratio
                     # The backend adds the contents of the temporary model gradient
                     # buffers to the model gradients at the end of every call, so
                     # they must not still hold the contribution of a previous chunk.
@@ -1206,7 +1218,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             *rdx,
                             *rdx2,
                             dt**2,
-                            step_nt * step_ratio,
+                            chunk_nt,
                             n_shots,
                             *model_shape,
                             n_sources_per_shot * source_amplitudes_requires_grad,
@@ -1226,7 +1238,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             v_batched,
                             scatter_batched,
                             storage_manager.storage_compression,
-                            step * step_ratio,
+                            chunk_end_t,
                             *pml_b,
                             *pml_e,
                             aux,
@@ -1235,7 +1247,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         != 0
                     ):
                         raise RuntimeError("Compiled backend failed.")
-                    if (step_nt * step_ratio) % 2 != 0:
+                    if chunk_nt % 2 != 0:
                         (
                             grad_wfc,
                             grad_wfp,
@@ -1298,8 +1310,10 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             )
                         )
             else:
-                for step in range(nt // step_ratio, 0, -callback_frequency):
+                for step in range(n_steps, 0, -callback_frequency):
                     step_nt = min(step, callback_frequency)
+                    chunk_end_t = min(step * step_ratio, nt)
+                    chunk_nt = chunk_end_t - (step - step_nt) * step_ratio
                     # As above, clear any contribution from a previous chunk.
                     grad_scatter_tmp.zero_()
                     if (
@@ -1322,7 +1336,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             *rdx,
                             *rdx2,
                             dt**2,
-                            step_nt * step_ratio,
+                            chunk_nt,
                             n_shots,
                             *model_shape,
                             n_sources_per_shot * source_amplitudessc_requires_grad,
@@ -1337,7 +1351,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             v_batched,
                             scatter_batched,
                             storage_manager.storage_compression,
-                            step * step_ratio,
+                            chunk_end_t,
                             *pml_b,
                             *pml_e,
                             aux,
@@ -1346,7 +1360,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         != 0
                     ):
                         raise RuntimeError("Compiled backend failed.")
-                    if (step_nt * step_ratio) % 2 != 0:
+                    if chunk_nt % 2 != 0:
                         (
                             grad_wfcsc,
                             grad_wfpsc,
@@ -1653,7 +1667,7 @@ def scalar_born_python(
 
     dim_names = ["z", "y", "x"]
 
-    for step in range(nt // step_ratio):
+    for step in range(math.ceil(nt / step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             callback_wavefields = {
                 "wavefield_0": wavefields[0],
@@ -1684,7 +1698,7 @@ def scalar_born_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
             if receivers_i_masked.numel() > 0:
                 val = wavefields[0].view(-1, flat_shape).gather(1, receivers_i_masked)
-- 
2.43.0


From 76fa49c81683f5a274f6cc209b80af558b540382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 05/16] fix: report disk storage I/O errors instead of ignoring
 them

The CPU backend ignored the results of fopen (crashing when it failed),
fseek, fwrite, fread, and fclose, so a full disk, or a truncated file, lead
to silently incorrect gradients. Report failure through the return code, as
the GPU backend does, so that Python raises an exception.
---
 src/deepwave/acoustic.c      | 72 ++++++++++++++-------------
 src/deepwave/elastic.c       | 70 ++++++++++++++------------
 src/deepwave/scalar.c        | 44 +++++++++++------
 src/deepwave/scalar_born.c   | 96 ++++++++++++++++++++++--------------
 src/deepwave/storage_utils.c | 52 +++++++++----------
 src/deepwave/storage_utils.h | 30 +++++------
 6 files changed, 207 insertions(+), 157 deletions(-)

diff --git a/src/deepwave/acoustic.c b/src/deepwave/acoustic.c
index 708aa01..76d3d07 100644
--- a/src/deepwave/acoustic.c
+++ b/src/deepwave/acoustic.c
@@ -288,8 +288,9 @@ __declspec(dllexport)
 #endif
 
   int64_t shot;
+  int error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 
@@ -354,6 +355,7 @@ __declspec(dllexport)
   FILE *fp_##name = NULL;                                \
   if (storage_mode == STORAGE_DISK && (grad_cond)) {     \
     fp_##name = fopen(name##_filenames_ptr[shot], "ab"); \
+    if (!fp_##name) error = 1;                           \
   }
 
     OPEN_FILE_WRITE(k_grad, k_requires_grad)
@@ -365,7 +367,7 @@ __declspec(dllexport)
 #endif
     OPEN_FILE_WRITE(bx_grad, b_requires_grad)
 
-    for (t = start_t; t < start_t + nt; ++t) {
+    for (t = start_t; !error && t < start_t + nt; ++t) {
 #define SETUP_STORE_SAVE(name, grad_cond)                              \
   DW_DTYPE *__restrict const name##_store_1_t =                        \
       name##_store_1 + si +                                            \
@@ -609,13 +611,14 @@ __declspec(dllexport)
       }
 
       // Save snapshots
-#define SAVE_SNAPSHOT(name, grad_cond)                                     \
-  if (grad_cond) {                                                         \
-    int64_t const step_idx = t / step_ratio;                               \
-    STORAGE_FUNC(save_snapshot_cpu)(                                       \
-        name##_store_1_t, name##_store_2_t, fp_##name, storage_mode,       \
-        storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp, \
-        DIM_ARGS);                                                         \
+#define SAVE_SNAPSHOT(name, grad_cond)                                         \
+  if (grad_cond) {                                                             \
+    int64_t const step_idx = t / step_ratio;                                   \
+    if (STORAGE_FUNC(save_snapshot_cpu)(                                       \
+            name##_store_1_t, name##_store_2_t, fp_##name, storage_mode,       \
+            storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp, \
+            DIM_ARGS))                                                         \
+      error = 1;                                                               \
   }
 
       SAVE_SNAPSHOT(k_grad, k_requires_grad_t)
@@ -629,7 +632,7 @@ __declspec(dllexport)
     }
 
 #define CLOSE_FILE(name) \
-  if (fp_##name) fclose(fp_##name);
+  if (fp_##name && fclose(fp_##name) != 0) error = 1;
 
     CLOSE_FILE(k_grad)
 #if DW_NDIM >= 3
@@ -640,7 +643,7 @@ __declspec(dllexport)
 #endif
     CLOSE_FILE(bx_grad)
   }
-  return 0;
+  return error;
 }
 
 #ifdef _WIN32
@@ -844,8 +847,9 @@ __declspec(dllexport)
 #endif
 
   int64_t shot;
+  int error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #ifdef _OPENMP
@@ -923,6 +927,7 @@ __declspec(dllexport)
   FILE *fp_##name = NULL;                                \
   if (storage_mode == STORAGE_DISK && (grad_cond)) {     \
     fp_##name = fopen(name##_filenames_ptr[shot], "rb"); \
+    if (!fp_##name) error = 1;                           \
   }
 
     OPEN_FILE_READ(k_grad, k_requires_grad)
@@ -934,25 +939,26 @@ __declspec(dllexport)
 #endif
     OPEN_FILE_READ(bx_grad, b_requires_grad)
 
-    for (t = start_t - 1; t >= start_t - nt; --t) {
-#define SETUP_STORE_LOAD(name, grad_cond)                                    \
-  DW_DTYPE *__restrict const name##_store_1_t =                              \
-      name##_store_1 + si +                                                  \
-      ((storage_mode == STORAGE_DEVICE && !storage_compression)              \
-           ? (t / step_ratio) * n_shots * n_grid_points                      \
-           : 0);                                                             \
-  void *__restrict const name##_store_2_t =                                  \
-      (uint8_t *)name##_store_2 +                                            \
-      (shot + ((storage_mode == STORAGE_DEVICE && storage_compression)       \
-                   ? t / step_ratio * n_shots                                \
-                   : 0)) *                                                   \
-          (int64_t)shot_bytes_comp;                                          \
-  if ((grad_cond) && ((t % step_ratio) == 0)) {                              \
-    int64_t const step_idx = t / step_ratio;                                 \
-    STORAGE_FUNC(load_snapshot_cpu)(                                         \
-        (void *)name##_store_1_t, name##_store_2_t, fp_##name, storage_mode, \
-        storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,   \
-        DIM_ARGS);                                                           \
+    for (t = start_t - 1; !error && t >= start_t - nt; --t) {
+#define SETUP_STORE_LOAD(name, grad_cond)                                   \
+  DW_DTYPE *__restrict const name##_store_1_t =                             \
+      name##_store_1 + si +                                                 \
+      ((storage_mode == STORAGE_DEVICE && !storage_compression)             \
+           ? (t / step_ratio) * n_shots * n_grid_points                     \
+           : 0);                                                            \
+  void *__restrict const name##_store_2_t =                                 \
+      (uint8_t *)name##_store_2 +                                           \
+      (shot + ((storage_mode == STORAGE_DEVICE && storage_compression)      \
+                   ? t / step_ratio * n_shots                               \
+                   : 0)) *                                                  \
+          (int64_t)shot_bytes_comp;                                         \
+  if ((grad_cond) && ((t % step_ratio) == 0)) {                             \
+    int64_t const step_idx = t / step_ratio;                                \
+    if (STORAGE_FUNC(load_snapshot_cpu)(                                    \
+            (void *)name##_store_1_t, name##_store_2_t, fp_##name,          \
+            storage_mode, storage_compression, step_idx, shot_bytes_uncomp, \
+            shot_bytes_comp, DIM_ARGS))                                     \
+      error = 1;                                                            \
   }
 
       SETUP_STORE_LOAD(k_grad, k_requires_grad)
@@ -1211,7 +1217,7 @@ __declspec(dllexport)
     }
 
 #define CLOSE_FILE(name) \
-  if (fp_##name) fclose(fp_##name);
+  if (fp_##name && fclose(fp_##name) != 0) error = 1;
 
     CLOSE_FILE(k_grad)
 #if DW_NDIM >= 3
@@ -1242,5 +1248,5 @@ __declspec(dllexport)
   }
 #endif /* _OPENMP */
 
-  return 0;
+  return error;
 }
diff --git a/src/deepwave/elastic.c b/src/deepwave/elastic.c
index 88d0dae..ffd383d 100644
--- a/src/deepwave/elastic.c
+++ b/src/deepwave/elastic.c
@@ -625,8 +625,9 @@ __declspec(dllexport)
   int64_t const pml_bounds_xh[] = {FD_PAD, pml_x0, MAX(pml_x0, pml_x1 - 1),
                                    nx - FD_PAD};
   int64_t shot;
+  int error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -713,6 +714,7 @@ __declspec(dllexport)
   FILE *fp_##name = NULL;                                \
   if (storage_mode == STORAGE_DISK && (grad_cond)) {     \
     fp_##name = fopen(name##_filenames_ptr[shot], "ab"); \
+    if (!fp_##name) error = 1;                           \
   }
 
 #if DW_NDIM >= 3
@@ -729,7 +731,7 @@ __declspec(dllexport)
     OPEN_FILE_WRITE(dvxdbuoyancy, buoyancy_requires_grad)
     OPEN_FILE_WRITE(dvxdx, lamb_requires_grad || mu_requires_grad)
 
-    for (t = start_t; t < start_t + nt; ++t) {
+    for (t = start_t; !error && t < start_t + nt; ++t) {
       int64_t const store_1_t =
           (shot + ((storage_mode == STORAGE_DEVICE && !storage_compression)
                        ? t / step_ratio * n_shots
@@ -1233,13 +1235,14 @@ __declspec(dllexport)
             n_sources_p_per_shot);
       }
 
-#define SAVE_SNAPSHOT(name, grad_cond)                                     \
-  if (grad_cond) {                                                         \
-    int64_t const step_idx = t / step_ratio;                               \
-    STORAGE_FUNC(save_snapshot_cpu)(                                       \
-        name##_store_1_t, name##_store_2_t, fp_##name, storage_mode,       \
-        storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp, \
-        DIM_ARGS);                                                         \
+#define SAVE_SNAPSHOT(name, grad_cond)                                         \
+  if (grad_cond) {                                                             \
+    int64_t const step_idx = t / step_ratio;                                   \
+    if (STORAGE_FUNC(save_snapshot_cpu)(                                       \
+            name##_store_1_t, name##_store_2_t, fp_##name, storage_mode,       \
+            storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp, \
+            DIM_ARGS))                                                         \
+      error = 1;                                                               \
   }
 
 #if DW_NDIM >= 3
@@ -1258,7 +1261,7 @@ __declspec(dllexport)
     }
 
 #define CLOSE_FILE(name) \
-  if (fp_##name) fclose(fp_##name);
+  if (fp_##name && fclose(fp_##name) != 0) error = 1;
 
 #if DW_NDIM >= 3
     CLOSE_FILE(dvzdbuoyancy)
@@ -1274,7 +1277,7 @@ __declspec(dllexport)
     CLOSE_FILE(dvxdbuoyancy)
     CLOSE_FILE(dvxdx)
   }
-  return 0;
+  return error;
 }
 
 #ifdef _WIN32
@@ -1529,8 +1532,9 @@ __declspec(dllexport)
   int64_t const pml_bounds_xh[] = {FD_PAD, pml_x0, MAX(pml_x0, pml_x1 - 1),
                                    nx - FD_PAD};
   int64_t shot;
+  int error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -1630,6 +1634,7 @@ __declspec(dllexport)
   FILE *fp_##name = NULL;                                \
   if (storage_mode == STORAGE_DISK && (grad_cond)) {     \
     fp_##name = fopen(name##_filenames_ptr[shot], "rb"); \
+    if (!fp_##name) error = 1;                           \
   }
 
 #if DW_NDIM >= 3
@@ -1646,25 +1651,26 @@ __declspec(dllexport)
     OPEN_FILE_READ(dvxdbuoyancy, buoyancy_requires_grad)
     OPEN_FILE_READ(dvxdx, lamb_requires_grad || mu_requires_grad)
 
-    for (t = start_t - 1; t >= start_t - nt; --t) {
-#define SETUP_STORE_LOAD(name, grad_cond)                                    \
-  DW_DTYPE *__restrict const name##_store_1_t =                              \
-      name##_store_1 + si +                                                  \
-      ((storage_mode == STORAGE_DEVICE && !storage_compression)              \
-           ? (t / step_ratio) * n_shots * n_grid_points                      \
-           : 0);                                                             \
-  void *__restrict const name##_store_2_t =                                  \
-      (uint8_t *)name##_store_2 +                                            \
-      (shot + ((storage_mode == STORAGE_DEVICE && storage_compression)       \
-                   ? t / step_ratio * n_shots                                \
-                   : 0)) *                                                   \
-          (int64_t)shot_bytes_comp;                                          \
-  if ((grad_cond) && ((t % step_ratio) == 0)) {                              \
-    int64_t const step_idx = t / step_ratio;                                 \
-    STORAGE_FUNC(load_snapshot_cpu)(                                         \
-        (void *)name##_store_1_t, name##_store_2_t, fp_##name, storage_mode, \
-        storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,   \
-        DIM_ARGS);                                                           \
+    for (t = start_t - 1; !error && t >= start_t - nt; --t) {
+#define SETUP_STORE_LOAD(name, grad_cond)                                   \
+  DW_DTYPE *__restrict const name##_store_1_t =                             \
+      name##_store_1 + si +                                                 \
+      ((storage_mode == STORAGE_DEVICE && !storage_compression)             \
+           ? (t / step_ratio) * n_shots * n_grid_points                     \
+           : 0);                                                            \
+  void *__restrict const name##_store_2_t =                                 \
+      (uint8_t *)name##_store_2 +                                           \
+      (shot + ((storage_mode == STORAGE_DEVICE && storage_compression)      \
+                   ? t / step_ratio * n_shots                               \
+                   : 0)) *                                                  \
+          (int64_t)shot_bytes_comp;                                         \
+  if ((grad_cond) && ((t % step_ratio) == 0)) {                             \
+    int64_t const step_idx = t / step_ratio;                                \
+    if (STORAGE_FUNC(load_snapshot_cpu)(                                    \
+            (void *)name##_store_1_t, name##_store_2_t, fp_##name,          \
+            storage_mode, storage_compression, step_idx, shot_bytes_uncomp, \
+            shot_bytes_comp, DIM_ARGS))                                     \
+      error = 1;                                                            \
   }
 
 #if DW_NDIM >= 3
@@ -2250,5 +2256,5 @@ __declspec(dllexport)
                          nx);
   }
 #endif /* _OPENMP */
-  return 0;
+  return error;
 }
diff --git a/src/deepwave/scalar.c b/src/deepwave/scalar.c
index 06505e2..3589fcc 100644
--- a/src/deepwave/scalar.c
+++ b/src/deepwave/scalar.c
@@ -231,8 +231,9 @@ __declspec(dllexport)
 #endif
         int64_t const pml_x1, int64_t const n_threads, void *unused) {
   int64_t shot;
+  int error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -257,10 +258,13 @@ __declspec(dllexport)
 
     FILE *fp_w = NULL;
     if (storage_mode == STORAGE_DISK) {
-      if (v_requires_grad) fp_w = fopen(w_filenames_ptr[shot], "ab");
+      if (v_requires_grad) {
+        fp_w = fopen(w_filenames_ptr[shot], "ab");
+        if (!fp_w) error = 1;
+      }
     }
 
-    for (t = start_t; t < start_t + nt; ++t) {
+    for (t = start_t; !error && t < start_t + nt; ++t) {
       DW_DTYPE *__restrict const wfc_t =
           (((t - start_t) & 1) ? wfp : wfc) + shot_i;
       DW_DTYPE *__restrict const wfp_t =
@@ -398,9 +402,11 @@ __declspec(dllexport)
 
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(save_snapshot_cpu)(
-            w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
-            step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
+        if (STORAGE_FUNC(save_snapshot_cpu)(w_store_1_t, w_store_2_t, fp_w,
+                                            storage_mode, storage_compression,
+                                            step_idx, shot_bytes_uncomp,
+                                            shot_bytes_comp, DIM_ARGS))
+          error = 1;
       }
 
       add_to_wavefield(wfp_t, sources_i + si,
@@ -410,9 +416,9 @@ __declspec(dllexport)
                             r + t * n_shots * n_receivers_per_shot + ri,
                             n_receivers_per_shot);
     }
-    if (fp_w) fclose(fp_w);
+    if (fp_w && fclose(fp_w) != 0) error = 1;
   }
-  return 0;
+  return error;
 }
 
 #ifdef _WIN32
@@ -517,8 +523,9 @@ __declspec(dllexport)
   int64_t const n_grid_points = nx;
 #endif
   int64_t shot;
+  int error = 0;
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
     int64_t const shot_i = shot * n_grid_points;
@@ -537,10 +544,13 @@ __declspec(dllexport)
 
     FILE *fp_w = NULL;
     if (storage_mode == STORAGE_DISK) {
-      if (v_requires_grad) fp_w = fopen(w_filenames_ptr[shot], "rb");
+      if (v_requires_grad) {
+        fp_w = fopen(w_filenames_ptr[shot], "rb");
+        if (!fp_w) error = 1;
+      }
     }
 
-    for (t = start_t - 1; t >= start_t - nt; --t) {
+    for (t = start_t - 1; !error && t >= start_t - nt; --t) {
       DW_DTYPE *__restrict const wfc_t =
           (((start_t - 1 - t) & 1) ? wfp : wfc) + shot_i;
       DW_DTYPE *__restrict const wfp_t =
@@ -589,9 +599,11 @@ __declspec(dllexport)
 
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
-            w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
-            step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
+        if (STORAGE_FUNC(load_snapshot_cpu)(w_store_1_t, w_store_2_t, fp_w,
+                                            storage_mode, storage_compression,
+                                            step_idx, shot_bytes_uncomp,
+                                            shot_bytes_comp, DIM_ARGS))
+          error = 1;
       }
 
 #if DW_NDIM >= 3
@@ -699,12 +711,12 @@ __declspec(dllexport)
                             grad_f + t * n_shots * n_sources_per_shot + si,
                             n_sources_per_shot);
     }
-    if (fp_w) fclose(fp_w);
+    if (fp_w && fclose(fp_w) != 0) error = 1;
   }
 #ifdef _OPENMP
   if (v_requires_grad && !v_batched && n_threads > 1) {
     combine_grad(grad_v, grad_v_thread, n_threads, n_grid_points);
   }
 #endif /* _OPENMP */
-  return 0;
+  return error;
 }
diff --git a/src/deepwave/scalar_born.c b/src/deepwave/scalar_born.c
index ce76acd..89d636f 100644
--- a/src/deepwave/scalar_born.c
+++ b/src/deepwave/scalar_born.c
@@ -281,9 +281,10 @@ __declspec(dllexport)
 #endif
         int64_t const pml_x1, int64_t const n_threads, void *unused) {
   int64_t shot;
+  int error = 0;
 
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
 #if DW_NDIM == 3
@@ -315,12 +316,17 @@ __declspec(dllexport)
     FILE *fp_w = NULL;
     FILE *fp_wsc = NULL;
     if (storage_mode == STORAGE_DISK) {
-      if (v_requires_grad || scatter_requires_grad)
+      if (v_requires_grad || scatter_requires_grad) {
         fp_w = fopen(w_filenames_ptr[shot], "ab");
-      if (v_requires_grad) fp_wsc = fopen(wsc_filenames_ptr[shot], "ab");
+        if (!fp_w) error = 1;
+      }
+      if (v_requires_grad) {
+        fp_wsc = fopen(wsc_filenames_ptr[shot], "ab");
+        if (!fp_wsc) error = 1;
+      }
     }
 
-    for (t = start_t; t < start_t + nt; ++t) {
+    for (t = start_t; !error && t < start_t + nt; ++t) {
       DW_DTYPE *__restrict const wfc_t =
           (((t - start_t) & 1) ? wfp : wfc) + shot_i;
       DW_DTYPE *__restrict const wfp_t =
@@ -518,16 +524,19 @@ __declspec(dllexport)
       // Save Snapshots
       if (v_or_scatter_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(save_snapshot_cpu)(
-            w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
-            step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
+        if (STORAGE_FUNC(save_snapshot_cpu)(w_store_1_t, w_store_2_t, fp_w,
+                                            storage_mode, storage_compression,
+                                            step_idx, shot_bytes_uncomp,
+                                            shot_bytes_comp, DIM_ARGS))
+          error = 1;
       }
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(save_snapshot_cpu)(
-            wsc_store_1_t, wsc_store_2_t, fp_wsc, storage_mode,
-            storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,
-            DIM_ARGS);
+        if (STORAGE_FUNC(save_snapshot_cpu)(
+                wsc_store_1_t, wsc_store_2_t, fp_wsc, storage_mode,
+                storage_compression, step_idx, shot_bytes_uncomp,
+                shot_bytes_comp, DIM_ARGS))
+          error = 1;
       }
 
       add_to_wavefield(wfp_t, sources_i + si,
@@ -544,10 +553,10 @@ __declspec(dllexport)
                             n_receiverssc_per_shot);
     }
 
-    if (fp_w) fclose(fp_w);
-    if (fp_wsc) fclose(fp_wsc);
+    if (fp_w && fclose(fp_w) != 0) error = 1;
+    if (fp_wsc && fclose(fp_wsc) != 0) error = 1;
   }
-  return 0;
+  return error;
 }
 
 #ifdef _WIN32
@@ -696,9 +705,10 @@ __declspec(dllexport)
   int64_t const n_grid_points = nx;
 #endif
   int64_t shot;
+  int error = 0;
 
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
     int64_t const shot_i = shot * n_grid_points;
@@ -723,12 +733,17 @@ __declspec(dllexport)
     FILE *fp_w = NULL;
     FILE *fp_wsc = NULL;
     if (storage_mode == STORAGE_DISK) {
-      if (v_requires_grad || scatter_requires_grad)
+      if (v_requires_grad || scatter_requires_grad) {
         fp_w = fopen(w_filenames_ptr[shot], "rb");
-      if (v_requires_grad) fp_wsc = fopen(wsc_filenames_ptr[shot], "rb");
+        if (!fp_w) error = 1;
+      }
+      if (v_requires_grad) {
+        fp_wsc = fopen(wsc_filenames_ptr[shot], "rb");
+        if (!fp_wsc) error = 1;
+      }
     }
 
-    for (t = start_t - 1; t >= start_t - nt; --t) {
+    for (t = start_t - 1; !error && t >= start_t - nt; --t) {
       DW_DTYPE *__restrict const wfc_t =
           (((start_t - 1 - t) & 1) ? wfp : wfc) + shot_i;
       DW_DTYPE *__restrict const wfp_t =
@@ -827,17 +842,20 @@ __declspec(dllexport)
 
       if (v_requires_grad_t || scatter_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
-            w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
-            step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
+        if (STORAGE_FUNC(load_snapshot_cpu)(w_store_1_t, w_store_2_t, fp_w,
+                                            storage_mode, storage_compression,
+                                            step_idx, shot_bytes_uncomp,
+                                            shot_bytes_comp, DIM_ARGS))
+          error = 1;
       }
 
       if (v_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
-            wsc_store_1_t, wsc_store_2_t, fp_wsc, storage_mode,
-            storage_compression, step_idx, shot_bytes_uncomp, shot_bytes_comp,
-            DIM_ARGS);
+        if (STORAGE_FUNC(load_snapshot_cpu)(
+                wsc_store_1_t, wsc_store_2_t, fp_wsc, storage_mode,
+                storage_compression, step_idx, shot_bytes_uncomp,
+                shot_bytes_comp, DIM_ARGS))
+          error = 1;
       }
 
 #if DW_NDIM >= 3
@@ -977,8 +995,8 @@ __declspec(dllexport)
           n_sourcessc_per_shot);
     }
 
-    if (fp_w) fclose(fp_w);
-    if (fp_wsc) fclose(fp_wsc);
+    if (fp_w && fclose(fp_w) != 0) error = 1;
+    if (fp_wsc && fclose(fp_wsc) != 0) error = 1;
   }
 #ifdef _OPENMP
   if (v_requires_grad && !v_batched && n_threads > 1) {
@@ -988,7 +1006,7 @@ __declspec(dllexport)
     combine_grad(grad_scatter, grad_scatter_thread, n_threads, n_grid_points);
   }
 #endif /* _OPENMP */
-  return 0;
+  return error;
 }
 
 #ifdef _WIN32
@@ -1097,9 +1115,10 @@ __declspec(dllexport)
   int64_t const n_grid_points = nx;
 #endif
   int64_t shot;
+  int error = 0;
 
 #ifdef _OPENMP
-#pragma omp parallel for num_threads(n_threads)
+#pragma omp parallel for num_threads(n_threads) reduction(| : error)
 #endif /* _OPENMP */
   for (shot = 0; shot < n_shots; ++shot) {
     int64_t const shot_i = shot * n_grid_points;
@@ -1117,10 +1136,13 @@ __declspec(dllexport)
 
     FILE *fp_w = NULL;
     if (storage_mode == STORAGE_DISK) {
-      if (scatter_requires_grad) fp_w = fopen(w_filenames_ptr[shot], "rb");
+      if (scatter_requires_grad) {
+        fp_w = fopen(w_filenames_ptr[shot], "rb");
+        if (!fp_w) error = 1;
+      }
     }
 
-    for (t = start_t - 1; t >= start_t - nt; --t) {
+    for (t = start_t - 1; !error && t >= start_t - nt; --t) {
       DW_DTYPE *__restrict const wfcsc_t =
           (((start_t - 1 - t) & 1) ? wfpsc : wfcsc) + shot_i;
       DW_DTYPE *__restrict const wfpsc_t =
@@ -1179,9 +1201,11 @@ __declspec(dllexport)
 
       if (scatter_requires_grad_t) {
         int64_t const step_idx = t / step_ratio;
-        STORAGE_FUNC(load_snapshot_cpu)(
-            w_store_1_t, w_store_2_t, fp_w, storage_mode, storage_compression,
-            step_idx, shot_bytes_uncomp, shot_bytes_comp, DIM_ARGS);
+        if (STORAGE_FUNC(load_snapshot_cpu)(w_store_1_t, w_store_2_t, fp_w,
+                                            storage_mode, storage_compression,
+                                            step_idx, shot_bytes_uncomp,
+                                            shot_bytes_comp, DIM_ARGS))
+          error = 1;
       }
 
 #if DW_NDIM >= 3
@@ -1284,12 +1308,12 @@ __declspec(dllexport)
           n_sourcessc_per_shot);
     }
 
-    if (fp_w) fclose(fp_w);
+    if (fp_w && fclose(fp_w) != 0) error = 1;
   }
 #ifdef _OPENMP
   if (scatter_requires_grad && !scatter_batched && n_threads > 1) {
     combine_grad(grad_scatter, grad_scatter_thread, n_threads, n_grid_points);
   }
 #endif /* _OPENMP */
-  return 0;
+  return error;
 }
diff --git a/src/deepwave/storage_utils.c b/src/deepwave/storage_utils.c
index 5f9a813..0ff5266 100644
--- a/src/deepwave/storage_utils.c
+++ b/src/deepwave/storage_utils.c
@@ -8,24 +8,24 @@
 
 #if defined(DW_NDIM) && defined(DW_DTYPE)
 
-void STORAGE_FUNC(save_snapshot_cpu)(void const* const store_1,
-                                     void* const store_2, FILE* const fp,
-                                     int64_t const storage_mode,
-                                     bool const use_compression,
-                                     int64_t const step_idx,
-                                     size_t const step_bytes_uncomp,
-                                     size_t const step_bytes_comp,
+int STORAGE_FUNC(save_snapshot_cpu)(void const* const store_1,
+                                    void* const store_2, FILE* const fp,
+                                    int64_t const storage_mode,
+                                    bool const use_compression,
+                                    int64_t const step_idx,
+                                    size_t const step_bytes_uncomp,
+                                    size_t const step_bytes_comp,
 #if DW_NDIM >= 3
-                                     size_t nz,
+                                    size_t nz,
 #endif
 #if DW_NDIM >= 2
-                                     size_t ny,
+                                    size_t ny,
 #endif
-                                     size_t nx) {
+                                    size_t nx) {
   void const* source = store_1;
   size_t size_to_write = step_bytes_uncomp;
 
-  if (storage_mode == STORAGE_NONE) return;
+  if (storage_mode == STORAGE_NONE) return 0;
 
   if (use_compression) {
     SC_FUNC(compress_cpu)(store_1, store_2,
@@ -43,33 +43,34 @@ void STORAGE_FUNC(save_snapshot_cpu)(void const* const store_1,
   if (storage_mode == STORAGE_DISK) {
     // Append to file
     int64_t const offset = step_idx * (int64_t)size_to_write;
-    fseek(fp, offset, SEEK_SET);
-    fwrite(source, 1, size_to_write, fp);
+    if (fseek(fp, offset, SEEK_SET) != 0) return 1;
+    if (fwrite(source, 1, size_to_write, fp) != size_to_write) return 1;
   }
+  return 0;
 }
 
-void STORAGE_FUNC(load_snapshot_cpu)(void* const store_1, void* const store_2,
-                                     FILE* const fp, int64_t const storage_mode,
-                                     bool const use_compression,
-                                     int64_t const step_idx,
-                                     size_t const step_bytes_uncomp,
-                                     size_t const step_bytes_comp,
+int STORAGE_FUNC(load_snapshot_cpu)(void* const store_1, void* const store_2,
+                                    FILE* const fp, int64_t const storage_mode,
+                                    bool const use_compression,
+                                    int64_t const step_idx,
+                                    size_t const step_bytes_uncomp,
+                                    size_t const step_bytes_comp,
 #if DW_NDIM >= 3
-                                     size_t nz,
+                                    size_t nz,
 #endif
 #if DW_NDIM >= 2
-                                     size_t ny,
+                                    size_t ny,
 #endif
-                                     size_t nx) {
-  if (storage_mode == STORAGE_NONE) return;
+                                    size_t nx) {
+  if (storage_mode == STORAGE_NONE) return 0;
 
   if (storage_mode == STORAGE_DISK) {
     void* const read_dst = use_compression ? store_2 : store_1;
     size_t const size_to_read =
         use_compression ? step_bytes_comp : step_bytes_uncomp;
     int64_t const offset = step_idx * (int64_t)size_to_read;
-    fseek(fp, offset, SEEK_SET);
-    fread(read_dst, 1, size_to_read, fp);
+    if (fseek(fp, offset, SEEK_SET) != 0) return 1;
+    if (fread(read_dst, 1, size_to_read, fp) != size_to_read) return 1;
   }
 
   if (use_compression) {
@@ -82,6 +83,7 @@ void STORAGE_FUNC(load_snapshot_cpu)(void* const store_1, void* const store_2,
 #endif
                           nx);
   }
+  return 0;
 }
 
 #endif
\ No newline at end of file
diff --git a/src/deepwave/storage_utils.h b/src/deepwave/storage_utils.h
index 0927968..9384342 100644
--- a/src/deepwave/storage_utils.h
+++ b/src/deepwave/storage_utils.h
@@ -20,18 +20,18 @@ extern "C" {
 #define SS_CAT(name, ndim, dtype) SS_CAT_I(name, ndim, dtype)
 #define STORAGE_FUNC(name) SS_CAT(name, DW_NDIM, DW_DTYPE)
 
-void STORAGE_FUNC(save_snapshot_cpu)(void const* store_1, void* store_2,
-                                     FILE* fp, int64_t storage_mode,
-                                     bool use_compression, int64_t step_idx,
-                                     size_t step_bytes_uncomp,
-                                     size_t step_bytes_comp,
+int STORAGE_FUNC(save_snapshot_cpu)(void const* store_1, void* store_2,
+                                    FILE* fp, int64_t storage_mode,
+                                    bool use_compression, int64_t step_idx,
+                                    size_t step_bytes_uncomp,
+                                    size_t step_bytes_comp,
 #if DW_NDIM >= 3
-                                     size_t nz,
+                                    size_t nz,
 #endif
 #if DW_NDIM >= 2
-                                     size_t ny,
+                                    size_t ny,
 #endif
-                                     size_t nx);
+                                    size_t nx);
 
 int STORAGE_FUNC(save_snapshot_gpu)(void const* store_1, void* store_2,
                                     void* store_3, FILE* fp,
@@ -46,17 +46,17 @@ int STORAGE_FUNC(save_snapshot_gpu)(void const* store_1, void* store_2,
 #endif
                                     size_t nx, void* stream);
 
-void STORAGE_FUNC(load_snapshot_cpu)(void* store_1, void* store_2, FILE* fp,
-                                     int64_t storage_mode, bool use_compression,
-                                     int64_t step_idx, size_t step_bytes_uncomp,
-                                     size_t step_bytes_comp,
+int STORAGE_FUNC(load_snapshot_cpu)(void* store_1, void* store_2, FILE* fp,
+                                    int64_t storage_mode, bool use_compression,
+                                    int64_t step_idx, size_t step_bytes_uncomp,
+                                    size_t step_bytes_comp,
 #if DW_NDIM >= 3
-                                     size_t nz,
+                                    size_t nz,
 #endif
 #if DW_NDIM >= 2
-                                     size_t ny,
+                                    size_t ny,
 #endif
-                                     size_t nx);
+                                    size_t nx);
 
 int STORAGE_FUNC(load_snapshot_gpu)(void* store_1, void* store_2, void* store_3,
                                     FILE* fp, int64_t storage_mode,
-- 
2.43.0


From f77116510e81f6cff2c4c96da0cca3da7c5f86fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:00 +0000
Subject: [PATCH 06/16] fix: do not remove temporary storage from a forked
 process

A forked process (such as a DataLoader worker) deleted the storage of its
parent when its copy of the graph was released, so that the parent's
backward pass failed or used incorrect data.
---
 src/deepwave/common.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 2fdd4ba..90e9412 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -56,7 +56,8 @@ class TemporaryStorage:
             base_path: The base path for the temporary directory.
             num_files: The number of files to create.
         """
-        self.base_dir = Path(base_path) / f"deepwave_tmp_{os.getpid()}_{uuid4().hex}"
+        self.pid = os.getpid()
+        self.base_dir = Path(base_path) / f"deepwave_tmp_{self.pid}_{uuid4().hex}"
         self.base_dir.mkdir(parents=True, exist_ok=True)
         self.filenames: List[bytes] = []
 
@@ -70,8 +71,12 @@ class TemporaryStorage:
         return self.filenames_ptr
 
     def close(self) -> None:
-        """Close the storage and remove the temporary directory."""
-        if self.base_dir.exists():
+        """Close the storage and remove the temporary directory.
+
+        Only the process that created the directory removes it, as forked
+        processes hold copies of this object.
+        """
+        if self.pid == os.getpid() and self.base_dir.exists():
             with contextlib.suppress(OSError):
                 shutil.rmtree(self.base_dir)
 
-- 
2.43.0


From 392dee7981b9304cefd7d8cce829cef67d825ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:34 +0000
Subject: [PATCH 07/16] fix: keep using the same temporary storage if the
 current directory changes

The path of the temporary storage was relative when storage_path was, so
after a change of directory the backward pass could not find its files and
they were never removed.
---
 src/deepwave/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 90e9412..c2c69cc 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -57,7 +57,10 @@ class TemporaryStorage:
             num_files: The number of files to create.
         """
         self.pid = os.getpid()
-        self.base_dir = Path(base_path) / f"deepwave_tmp_{self.pid}_{uuid4().hex}"
+        # The current directory may have changed by the time the files are used.
+        self.base_dir = (
+            Path(base_path).absolute() / f"deepwave_tmp_{self.pid}_{uuid4().hex}"
+        )
         self.base_dir.mkdir(parents=True, exist_ok=True)
         self.filenames: List[bytes] = []
 
-- 
2.43.0


From c923020dc2f76a68dc299dc98adea040a7078de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 08/16] fix: give callbacks of the elastic Python backend the
 shear fields under their own names

---
 src/deepwave/elastic.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 03568ce..9086a6e 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -2521,20 +2521,26 @@ def elastic_python(
         if forward_callback is not None and step % callback_frequency == 0:
             callback_wavefields = dict(zip(v_names, velocities))
             callback_wavefields.update(dict(zip(normal_s_names, normal_stresses)))
-            for i in range(len(shear_s_names)):
+            # The diagonals of the shear variables are empty placeholders, and
+            # shear_stresses is symmetric.
+            for shear_names, shear_vars, symmetric in [
+                (shear_s_names, shear_stresses, True),
+                (v_mem_shear_names, v_mem_vars_shear, False),
+                (s_mem_shear_names, s_mem_vars_shear, False),
+            ]:
                 callback_wavefields.update(
-                    dict(zip(shear_s_names[i], shear_stresses[i]))
+                    zip(
+                        [name for row in shear_names for name in row],
+                        [
+                            var
+                            for i, row in enumerate(shear_vars)
+                            for j, var in enumerate(row)
+                            if (j > i if symmetric else j != i)
+                        ],
+                    )
                 )
             callback_wavefields.update(dict(zip(v_mem_normal_names, v_mem_vars_normal)))
-            for i in range(len(v_mem_shear_names)):
-                callback_wavefields.update(
-                    dict(zip(v_mem_shear_names[i], v_mem_vars_shear[i]))
-                )
             callback_wavefields.update(dict(zip(s_mem_normal_names, s_mem_vars_normal)))
-            for i in range(len(s_mem_shear_names)):
-                callback_wavefields.update(
-                    dict(zip(s_mem_shear_names[i], s_mem_vars_shear[i]))
-                )
             forward_callback(
                 deepwave.common.CallbackState(
                     dt,
-- 
2.43.0


From 8fd82c5550a6b08c5081ebf589fa4fa1b89f77b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:20 +0000
Subject: [PATCH 09/16] fix: remove temporary storage that is alive when the
 interpreter exits

---
 src/deepwave/common.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index c2c69cc..5ebf0fc 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -5,12 +5,14 @@ Deepwave propagators. These functions handle tasks such as input validation,
 PML setup, and data preparation for wave propagation simulations.
 """
 
+import atexit
 import contextlib
 import ctypes
 import math
 import os
 import shutil
 import warnings
+import weakref
 from collections import abc
 from enum import IntEnum
 from pathlib import Path
@@ -62,6 +64,7 @@ class TemporaryStorage:
             Path(base_path).absolute() / f"deepwave_tmp_{self.pid}_{uuid4().hex}"
         )
         self.base_dir.mkdir(parents=True, exist_ok=True)
+        _temporary_storages.add(self)
         self.filenames: List[bytes] = []
 
         for i in range(num_files):
@@ -88,6 +91,17 @@ class TemporaryStorage:
         self.close()
 
 
+# Objects that are still alive when the interpreter exits might never be deleted.
+_temporary_storages: "weakref.WeakSet[TemporaryStorage]" = weakref.WeakSet()
+
+
+@atexit.register
+def _close_temporary_storages() -> None:
+    """Remove the temporary directories that remain when the interpreter exits."""
+    for temporary_storage in list(_temporary_storages):
+        temporary_storage.close()
+
+
 class IntermediateStorage:
     """Stores pointers to wavefield storage for a single allocation."""
 
-- 
2.43.0


From 2793b84e0ad6476cd6a440bcef6b51255c64abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:43 +0000
Subject: [PATCH 10/16] fix: let threads backpropagate the same graph at the
 same time

---
 src/deepwave/acoustic.py    |  5 ++++-
 src/deepwave/common.py      | 29 +++++++++++++++++++++++++++++
 src/deepwave/elastic.py     |  5 ++++-
 src/deepwave/scalar.py      |  5 ++++-
 src/deepwave/scalar_born.py |  7 +++++--
 5 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index b1994f0..de6aa6a 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1145,6 +1145,9 @@ class AcousticForwardFunc(torch.autograd.Function):
         backward = deepwave.backend_utils.get_backend_function(
             "acoustic", ndim, "backward", accuracy, dtype, device
         )
+        storages = storage_manager.get_backward_storages()
+        storage_ptrs = [ptr for storage in storages for ptr in storage.get_ptrs()]
+
         rdx = [1 / dx for dx in grid_spacing]
 
         # The last step is shorter than the others when `nt` is not a multiple
@@ -1204,7 +1207,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         *[g.data_ptr() for g in grad_r],
                         *[field.data_ptr() for field in grad_wavefields],
                         *[field.data_ptr() for field in aux_wavefields],
-                        *storage_manager.storage_ptrs,
+                        *storage_ptrs,
                         *[g.data_ptr() for g in grad_f_list],
                         *[g.data_ptr() for g in grad_models],
                         *grad_models_tmp_ptr,
diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 5ebf0fc..1f171ab 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -312,6 +312,35 @@ class StorageManager:
         self.storages.append(storage)
         self.storage_ptrs.extend(storage.get_ptrs())
 
+    def get_backward_storages(self) -> List[IntermediateStorage]:
+        """Return the storages to load the stored wavefields from.
+
+        The wavefields are loaded into buffers before they are used if they
+        are compressed or on disk. The same graph can be backpropagated by
+        several threads at the same time on the CPU, so each propagation needs
+        its own buffers. The returned list must be kept until the propagation
+        has finished.
+        """
+        if (
+            self.is_cuda
+            or self.storage_mode == StorageMode.NONE
+            or (
+                self.storage_mode == StorageMode.DEVICE and not self.storage_compression
+            )
+        ):
+            return self.storages
+        stores_in_2 = self.storage_mode == StorageMode.DEVICE
+        return [
+            IntermediateStorage(
+                torch.empty_like(storage.store_1a),
+                torch.empty_like(storage.store_1b),
+                storage.store_2 if stores_in_2 else torch.empty_like(storage.store_2),
+                storage.store_3,
+                storage.temporary_storage,
+            )
+            for storage in self.storages
+        ]
+
 
 class CallbackState:
     """State provided to user callbacks."""
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 9086a6e..3b6bee7 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1770,6 +1770,9 @@ class ElasticForwardFunc(torch.autograd.Function):
             device,
         )
 
+        storages = storage_manager.get_backward_storages()
+        storage_ptrs = [ptr for storage in storages for ptr in storage.get_ptrs()]
+
         rdx = [1 / dx for dx in grid_spacing]
 
         # The last step is shorter than the others when `nt` is not a multiple
@@ -1855,7 +1858,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         *[amp.data_ptr() for amp in grad_r],
                         *[field.data_ptr() for field in grad_wavefields],
                         *[field.data_ptr() for field in aux_wavefields],
-                        *storage_manager.storage_ptrs,
+                        *storage_ptrs,
                         *[amp.data_ptr() for amp in grad_f],
                         *[model.data_ptr() for model in grad_models],
                         *grad_models_tmp_ptr,
diff --git a/src/deepwave/scalar.py b/src/deepwave/scalar.py
index 2d8e57c..2a0c633 100644
--- a/src/deepwave/scalar.py
+++ b/src/deepwave/scalar.py
@@ -1235,6 +1235,9 @@ class ScalarBackwardFunc(torch.autograd.Function):
         # pre-calculating it saves computation inside the time-stepping loop.
         v2dt2 = v**2 * dt**2
 
+        storages = storage_manager.get_backward_storages()
+        storage_ptrs = [ptr for storage in storages for ptr in storage.get_ptrs()]
+
         rdx = [1 / dx for dx in grid_spacing]
         rdx2 = [1 / dx**2 for dx in grid_spacing]
 
@@ -1275,7 +1278,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                         *[field.data_ptr() for field in grad_psin],
                         *[field.data_ptr() for field in grad_zeta],
                         *[field.data_ptr() for field in grad_zetan],
-                        *storage_manager.storage_ptrs,
+                        *storage_ptrs,
                         grad_f.data_ptr(),
                         grad_v.data_ptr(),
                         grad_v_tmp_ptr,
diff --git a/src/deepwave/scalar_born.py b/src/deepwave/scalar_born.py
index 997b84f..c3be0ad 100644
--- a/src/deepwave/scalar_born.py
+++ b/src/deepwave/scalar_born.py
@@ -1159,6 +1159,9 @@ class ScalarBornForwardFunc(torch.autograd.Function):
             extra="_sc",
         )
 
+        storages = storage_manager.get_backward_storages()
+        storage_ptrs = [ptr for storage in storages for ptr in storage.get_ptrs()]
+
         rdx = [1 / dx for dx in grid_spacing]
         rdx2 = [1 / dx**2 for dx in grid_spacing]
 
@@ -1204,7 +1207,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             *[field.data_ptr() for field in grad_psinsc],
                             *[field.data_ptr() for field in grad_zetasc],
                             *[field.data_ptr() for field in grad_zetansc],
-                            *storage_manager.storage_ptrs,
+                            *storage_ptrs,
                             grad_f.data_ptr(),
                             grad_fsc.data_ptr(),
                             grad_v.data_ptr(),
@@ -1326,7 +1329,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             *[field.data_ptr() for field in grad_psinsc],
                             *[field.data_ptr() for field in grad_zetasc],
                             *[field.data_ptr() for field in grad_zetansc],
-                            *storage_manager.storage_ptrs[:5],  # Not scattered
+                            *storage_ptrs[:5],  # Not scattered
                             grad_fsc.data_ptr(),
                             grad_scatter.data_ptr(),
                             grad_scatter_tmp_ptr,
-- 
2.43.0


From ccd9b229c9b59e19914d5290f8ee0bfc28a6db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 11/16] fix: do not modify the cached Hicks weights of points
 near a free surface

---
 src/deepwave/location_interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index dc30377..5d33140 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -87,7 +87,8 @@ def _get_hicks_for_one_location_dim(
                     * torch.i0(beta * (1 - (x / halfwidth) ** 2).sqrt())
                     / torch.i0(beta)
                 )
-            hicks_weight_cache[key] = weights
+            # Free surfaces modify the weights in-place below
+            hicks_weight_cache[key] = weights.clone()
         if free_surface[0] and locations[0].item() < free_surface_loc[0]:
             # idx0: first index at, or on model side of, free surface
             # idx1: first index on model side of free surface
-- 
2.43.0


From 46a9a518f934f29718935325b841c8d92a2f3cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 12/16] fix: do not let the default dtype affect tapers and
 Hicks interpolation

---
 src/deepwave/common.py                 | 14 ++++++++++----
 src/deepwave/location_interpolation.py |  6 ++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 1f171ab..67ae5b5 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1273,7 +1273,11 @@ def cosine_taper_end(signal: torch.Tensor, n_taper: int) -> torch.Tensor:
     if n_taper > 0:
         taper_values = (
             torch.cos(
-                torch.arange(1, n_taper + 1, device=signal.device) / n_taper * math.pi
+                torch.arange(
+                    1, n_taper + 1, dtype=torch.double, device=signal.device
+                )
+                / n_taper
+                * math.pi
             )
             + 1
         ).to(signal.dtype) / 2
@@ -1409,6 +1413,7 @@ def upsample(
         signal = signal * torch.hann_window(
             signal.shape[-1],
             periodic=False,
+            dtype=signal.dtype,
             device=signal.device,
         )
     return signal
@@ -1474,6 +1479,7 @@ def downsample(
         signal = signal * torch.hann_window(
             signal.shape[-1],
             periodic=False,
+            dtype=signal.dtype,
             device=signal.device,
         )
     n_time_pad = (
@@ -1492,9 +1498,9 @@ def downsample(
     elif signal_f.shape[-1] > 1:
         signal_f = zero_last_element_of_final_dimension(signal_f)
     if shift != 0.0:
-        freqs = torch.fft.rfftfreq(signal.shape[-1], device=signal.device)[
-            : down_nt // 2 + 1
-        ]
+        freqs = torch.fft.rfftfreq(
+            signal.shape[-1], dtype=signal.dtype, device=signal.device
+        )[: down_nt // 2 + 1]
         signal_f *= torch.exp(-1j * 2 * math.pi * freqs * shift)
     signal = torch.fft.irfft(signal_f, n=down_nt, norm="ortho") / math.sqrt(step_ratio)
     if n_time_pad > 0:
diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index 5d33140..82f1405 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -54,7 +54,7 @@ def _get_hicks_for_one_location_dim(
     if (free_surface[0] or free_surface[1]) and size <= 0:
         raise RuntimeError("n_grid_points must be positive.")
     if monopole and abs(location - round(location)) < eps:
-        locations = torch.tensor([location]).round().long().to(beta.device)
+        locations = torch.tensor([round(location)], device=beta.device)
         weights = torch.ones(1, dtype=beta.dtype, device=beta.device)
     else:
         key = (int((location - int(location)) / eps), halfwidth, int(monopole))
@@ -364,7 +364,9 @@ class Hicks:
         ):
             raise RuntimeError("dipole_dim must have dimensions [shot, per_shot]")
         betas = [0.0, 1.84, 3.04, 4.14, 5.26, 6.40, 7.51, 8.56, 9.56, 10.64]
-        beta = torch.tensor(betas[halfwidth - 1]).to(dtype).to(locations.device)
+        beta = torch.tensor(
+            betas[halfwidth - 1], dtype=dtype, device=locations.device
+        )
         self.locations = locations
         self.hicks_locations, self.idxs, self.weights = (
             _get_hicks_locations_and_weights(
-- 
2.43.0


From 4fa262b907980692943a7b16db7d6cd5c5c072e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 13/16] fix: do not round Hicks locations to the wrong cell in
 single precision

---
 src/deepwave/location_interpolation.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index 82f1405..667478c 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -58,17 +58,10 @@ def _get_hicks_for_one_location_dim(
         weights = torch.ones(1, dtype=beta.dtype, device=beta.device)
     else:
         key = (int((location - int(location)) / eps), halfwidth, int(monopole))
-        x = (
-            torch.arange(
-                -halfwidth + 1,
-                halfwidth + 1,
-                dtype=beta.dtype,
-                device=beta.device,
-            )
-            - location
-            + int(location)
-        )
-        locations = (location + x).long()
+        offsets = torch.arange(-halfwidth + 1, halfwidth + 1, device=beta.device)
+        x = offsets.to(beta.dtype) - location + int(location)
+        # Calculated with integers as location + x might be rounded down
+        locations = offsets + int(location)
 
         if key in hicks_weight_cache:
             weights = hicks_weight_cache[key].clone()
-- 
2.43.0


From 8adba31b106a95bdc3151ff198abfa06ae190f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 14/16] fix: calculate model gradients when saved tensor hooks
 return models that are not contiguous

---
 src/deepwave/acoustic.py    | 2 +-
 src/deepwave/elastic.py     | 4 +++-
 src/deepwave/scalar.py      | 4 ++--
 src/deepwave/scalar_born.py | 4 ++--
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index de6aa6a..5d72c47 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1039,7 +1039,7 @@ class AcousticForwardFunc(torch.autograd.Function):
         pml_profiles = saved_tensors
 
         grad_r = [g.contiguous() for g in grad_r]
-        models = [m.contiguous() for m in models]
+        models = [m.contiguous().requires_grad_(m.requires_grad) for m in models]
         sources_i = [locs.contiguous() for locs in sources_i]
         receivers_i = [locs.contiguous() for locs in receivers_i]
         source_amplitudes = [a.contiguous() for a in source_amplitudes]
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 3b6bee7..8ad6c08 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1649,7 +1649,9 @@ class ElasticForwardFunc(torch.autograd.Function):
         buoyancy_requires_grad = models[-1].requires_grad
 
         grad_r = [grad.contiguous() for grad in grad_r]
-        models = [model.contiguous() for model in models]
+        models = [
+            model.contiguous().requires_grad_(model.requires_grad) for model in models
+        ]
         sources_i = [loc.contiguous() for loc in sources_i]
         receivers_i = [loc.contiguous() for loc in receivers_i]
         source_amplitudes = [amp.contiguous() for amp in source_amplitudes]
diff --git a/src/deepwave/scalar.py b/src/deepwave/scalar.py
index 2a0c633..8841dbc 100644
--- a/src/deepwave/scalar.py
+++ b/src/deepwave/scalar.py
@@ -1108,7 +1108,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
         ctx.storage_path = storage_manager.storage_path
         ctx.storage_compression = storage_manager.storage_compression
 
-        v = v.contiguous()
+        v = v.contiguous().requires_grad_(v.requires_grad)
         sources_i = sources_i.contiguous()
         receivers_i = receivers_i.contiguous()
         source_amplitudes = source_amplitudes.contiguous()
@@ -1455,7 +1455,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
         if ggf.numel() == 0:
             ggf = torch.zeros_like(source_amplitudes.detach())
 
-        v = v.contiguous()
+        v = v.contiguous().requires_grad_(v.requires_grad)
         ggv = ggv.contiguous()
         source_amplitudes = source_amplitudes.contiguous()
         ggsource_amplitudes = ggf.contiguous()
diff --git a/src/deepwave/scalar_born.py b/src/deepwave/scalar_born.py
index c3be0ad..b1330f4 100644
--- a/src/deepwave/scalar_born.py
+++ b/src/deepwave/scalar_born.py
@@ -972,8 +972,8 @@ class ScalarBornForwardFunc(torch.autograd.Function):
             *pml_profiles,
         ) = ctx.saved_tensors
 
-        v = v.contiguous()
-        scatter = scatter.contiguous()
+        v = v.contiguous().requires_grad_(v.requires_grad)
+        scatter = scatter.contiguous().requires_grad_(scatter.requires_grad)
         grad_r = grad_r.contiguous()
         grad_rsc = grad_rsc.contiguous()
         grad_wavefields = [p.contiguous() for p in grad_wavefields]
-- 
2.43.0


From b726cbff69befce6313098b8439a9719e624261d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 15/16] fix: keep the PML bounds of small models inside the
 grid when calculating gradients

---
 src/deepwave/acoustic.py | 2 +-
 src/deepwave/elastic.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index 5d72c47..86fa736 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1101,7 +1101,7 @@ class AcousticForwardFunc(torch.autograd.Function):
         zero_edges_and_interiors(grad_wavefields, ndim, fd_pad, fd_pad_list, pml_width)
 
         pml_b = [
-            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - (fd_pad - 1))
+            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - fd_pad)
             for i in range(ndim)
         ]
         pml_e = [
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 8ad6c08..9b1ecb3 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1718,7 +1718,7 @@ class ElasticForwardFunc(torch.autograd.Function):
         zero_edges_and_interiors(grad_wavefields, ndim, fd_pad, fd_pad_list, pml_width)
 
         pml_b = [
-            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - (fd_pad - 1))
+            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - fd_pad)
             for i in range(ndim)
         ]
         pml_e = [
-- 
2.43.0


From fa8f2eb9f720f8c20aecd40195ac237fc5c91499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:08 +0000
Subject: [PATCH 16/16] fix: read initial wavefields in channels last layout
 correctly

---
 src/deepwave/common.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 67ae5b5..7982b74 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -2640,12 +2640,13 @@ def create_or_pad(
         fd_pad = [fd_pad] * (len(size) - 1) * 2
     if tensor.numel() == 0:
         return torch.zeros(size, device=device, dtype=dtype)
+    # `pad` and `clone` would otherwise keep layouts such as channels last.
     if max(fd_pad) == 0:
-        return tensor.clone()
+        return tensor.clone(memory_format=torch.contiguous_format)
     reversed_fd_pad = reverse_pad(fd_pad)
-    return (torch.nn.functional.pad(tensor, reversed_fd_pad)).requires_grad_(
-        tensor.requires_grad
-    )
+    return (
+        torch.nn.functional.pad(tensor.contiguous(), reversed_fd_pad)
+    ).requires_grad_(tensor.requires_grad)
 
 
 def zero_interior(
-- 
2.43.0

