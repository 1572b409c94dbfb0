From 3de3ab8351a88ffedb5844c10751336961e85fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:24 +0000
Subject: [PATCH 01/22] fix: detect flat extrema that start at the second
 sample

The leading-plateau guard compared with 1 (MATLAB indexing), so a flat
extremum starting at sample 1 was dropped while a plateau touching the first
sample was compared with the last difference and reported as an extremum.
---
 PyEMD/EMD.py                 | 2 +-
 PyEMD/EMD_matlab.py          | 2 +-
 PyEMD/experimental/jitemd.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 7a82403..1a00d76 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -646,7 +646,7 @@ class EMD:
             debs = np.nonzero(dd == 1)[0]
             fins = np.nonzero(dd == -1)[0]
 
-            if len(debs) > 0 and debs[0] == 1:
+            if len(debs) > 0 and debs[0] == 0:
                 if len(debs) > 1:
                     debs, fins = debs[1:], fins[1:]
                 else:
diff --git a/PyEMD/EMD_matlab.py b/PyEMD/EMD_matlab.py
index 30530e5..5e1bd5f 100644
--- a/PyEMD/EMD_matlab.py
+++ b/PyEMD/EMD_matlab.py
@@ -352,7 +352,7 @@ class EMD:
             dd = np.diff(np.append(np.append(0, bad), 0))
             debs = np.nonzero(dd == 1)[0]
             fins = np.nonzero(dd == -1)[0]
-            if debs[0] == 1:
+            if debs[0] == 0:
                 if len(debs) > 1:
                     debs, fins = debs[1:], fins[1:]
                 else:
diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index efdc10d..3c8b4be 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -191,7 +191,7 @@ def _find_extrema_simple(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
         dd = nb_diff(np.append(np.append(0, same_values), 0))
         _left_idx = np.nonzero(dd == 1)[0]
         _right_idx = np.nonzero(dd == -1)[0]
-        if _left_idx[0] == 1:
+        if _left_idx[0] == 0:
             _left_idx = _left_idx[1:]
             _right_idx = _right_idx[1:]
 
-- 
2.43.0


From 82071f9eac7e2fbb1a97b19e83f1d007bd4dd5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:44 +0000
Subject: [PATCH 02/22] fix: draw EEMD noise in the parent so that parallel
 trials are independent

With parallel=True every task chunk received a pickled copy of the same random
generator, so trials in different chunks were perturbed with identical noise
and the parent's generator never advanced between calls.
---
 PyEMD/EEMD.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/PyEMD/EEMD.py b/PyEMD/EEMD.py
index e4ebe2b..e89afa4 100644
--- a/PyEMD/EEMD.py
+++ b/PyEMD/EEMD.py
@@ -196,7 +196,9 @@ class EEMD:
             map_pool = pool.map
         else:
             map_pool = map
-        all_IMFs = map_pool(self._trial_update, range(self.trials))
+        # Noise is drawn here, in trial order, since workers only get a copy of the random generator
+        noises = (self.generate_noise(self._scale, self._N) for _ in range(self.trials))
+        all_IMFs = map_pool(self._trial_update, noises)
 
         if self.parallel:
             pool.close()
@@ -229,12 +231,8 @@ class EEMD:
 
         return self.E_IMF
 
-    def _trial_update(self, trial) -> Tuple[np.ndarray, Optional[np.ndarray]]:
-        """A single trial evaluation, i.e. EMD(signal + noise).
-
-        *Note*: Although `trial` argument isn't used it's needed for the (multiprocessing) map method.
-        """
-        noise = self.generate_noise(self._scale, self._N)
+    def _trial_update(self, noise: np.ndarray) -> Tuple[np.ndarray, Optional[np.ndarray]]:
+        """A single trial evaluation, i.e. EMD(signal + noise)."""
         imfs = self.emd(self._S + noise, self._T, self.max_imf)
         trend = None
         if self.separate_trends:
-- 
2.43.0


From dad57c53c3d198eca58995ee228e1e3f5624acd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:26 +0000
Subject: [PATCH 03/22] fix: keep generated timeline unique for low precision
 float signals

float16 signals longer than 2048 samples (float32: 2**24) got a timeline with
repeated values, which EMD rejects as non-unique time.
---
 PyEMD/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyEMD/utils.py b/PyEMD/utils.py
index ed91a26..a24b5ac 100644
--- a/PyEMD/utils.py
+++ b/PyEMD/utils.py
@@ -21,7 +21,8 @@ def get_timeline(range_max: int, dtype: Optional[np.dtype] = None) -> np.ndarray
 
     """
     timeline = np.arange(0, range_max, dtype=dtype)
-    if timeline[-1] != range_max - 1:
+    # Values can wrap (ints) or repeat (floats past their precision)
+    if timeline[-1] != range_max - 1 or not np.all(timeline[1:] > timeline[:-1]):
         inclusive_dtype = smallest_inclusive_dtype(timeline.dtype, range_max)
         timeline = np.arange(0, range_max, dtype=inclusive_dtype)
     return timeline
@@ -50,9 +51,9 @@ def smallest_inclusive_dtype(ref_dtype: np.dtype, ref_value) -> np.dtype:
     # Float path
     if np.issubdtype(ref_dtype, np.floating):
         for dtype in [np.float16, np.float32, np.float64]:
-            if ref_value < np.finfo(dtype).max:
+            if ref_value <= 2 ** (np.finfo(dtype).nmant + 1):  # All ints up to this value are exact
                 return dtype
-        max_val = np.finfo(np.float64).max
+        max_val = 2 ** (np.finfo(np.float64).nmant + 1)
         raise ValueError("Requested too large integer range. Exceeds max( float64 ) == '{}.".format(max_val))
 
     raise ValueError("Unsupported dtype '{}'. Only intX and floatX are supported.".format(ref_dtype))
-- 
2.43.0


From 2def02a5a2e645160812cac4355c28a727d9d515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:22 +0000
Subject: [PATCH 04/22] fix: mirror parabolic extrema at the edge when there is
 nothing to mirror about

Mirroring about the outermost extremum needs a second extremum of that kind.
Only one of the four branches checked it, so the others produced an envelope
that doesn't cover the signal (shape mismatch) or repeats a knot.
---
 PyEMD/EMD.py                 | 6 +++---
 PyEMD/experimental/jitemd.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 1a00d76..868fad6 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -232,7 +232,7 @@ class EMD:
 
         # Left extremum is maximum
         if left_ext_max_type:
-            if (S[0] > min_val[0]) and (np.abs(d_pos) > (max_pos[0] - T[0])):
+            if (S[0] > min_val[0]) and len(max_pos) > 1 and (np.abs(d_pos) > (max_pos[0] - T[0])):
                 # mirror signal to first extrema
                 expand_left_max_pos = 2 * max_pos[0] - max_pos[1 : nbsym + 1]
                 expand_left_min_pos = 2 * max_pos[0] - min_pos[0:nbsym]
@@ -247,7 +247,7 @@ class EMD:
 
         # Left extremum is minimum
         else:
-            if (S[0] < max_val[0]) and (np.abs(d_pos) > (min_pos[0] - T[0])):
+            if (S[0] < max_val[0]) and len(min_pos) > 1 and (np.abs(d_pos) > (min_pos[0] - T[0])):
                 # mirror signal to first extrema
                 expand_left_max_pos = 2 * min_pos[0] - max_pos[0:nbsym]
                 expand_left_min_pos = 2 * min_pos[0] - min_pos[1 : nbsym + 1]
@@ -275,7 +275,7 @@ class EMD:
 
         # Right extremum is maximum
         if not right_ext_max_type:
-            if (S[-1] < max_val[-1]) and (np.abs(d_pos) > (T[-1] - min_pos[-1])):
+            if (S[-1] < max_val[-1]) and len(min_pos) > 1 and (np.abs(d_pos) > (T[-1] - min_pos[-1])):
                 # mirror signal to last extrema
                 idx_max = max(0, end_max - nbsym)
                 idx_min = max(0, end_min - nbsym - 1)
diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index 3c8b4be..a16dffe 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -391,7 +391,7 @@ def _prepare_points_parabol(T, S, max_pos, max_val, min_pos, min_val, nbsym) ->
 
     # Left extremum is maximum
     if left_ext_max_type:
-        if (S[0] > min_val[0]) and (np.abs(d_pos) > (max_pos[0] - T[0])):
+        if (S[0] > min_val[0]) and len(max_pos) > 1 and (np.abs(d_pos) > (max_pos[0] - T[0])):
             # mirror signal to first extrema
             expand_left_max_pos = 2 * max_pos[0] - max_pos[1 : nbsym + 1]
             expand_left_min_pos = 2 * max_pos[0] - min_pos[0:nbsym]
@@ -406,7 +406,7 @@ def _prepare_points_parabol(T, S, max_pos, max_val, min_pos, min_val, nbsym) ->
 
     # Left extremum is minimum
     else:
-        if (S[0] < max_val[0]) and (np.abs(d_pos) > (min_pos[0] - T[0])):
+        if (S[0] < max_val[0]) and len(min_pos) > 1 and (np.abs(d_pos) > (min_pos[0] - T[0])):
             # mirror signal to first extrema
             expand_left_max_pos = 2 * min_pos[0] - max_pos[0:nbsym]
             expand_left_min_pos = 2 * min_pos[0] - min_pos[1 : nbsym + 1]
@@ -434,7 +434,7 @@ def _prepare_points_parabol(T, S, max_pos, max_val, min_pos, min_val, nbsym) ->
 
     # Right extremum is maximum
     if not right_ext_max_type:
-        if (S[-1] < max_val[-1]) and (np.abs(d_pos) > (T[-1] - min_pos[-1])):
+        if (S[-1] < max_val[-1]) and len(min_pos) > 1 and (np.abs(d_pos) > (T[-1] - min_pos[-1])):
             # mirror signal to last extrema
             idx_max = max(0, end_max - nbsym)
             idx_min = max(0, end_min - nbsym - 1)
-- 
2.43.0


From a8f9a7ff4d494e80af843ec9ff2d222f9cd7892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:27 +0000
Subject: [PATCH 05/22] fix: locate parabolic extrema relative to the sampled
 point

The parabola was evaluated at absolute positions, which cancels badly far from
zero: extrema of signals with equal neighbouring samples were reported twice
(or not at all) and the spline construction failed. Flat steps of a monotonic
signal were also reported as extrema, e.g. minima with no maxima in between.
---
 PyEMD/EMD.py                 | 41 ++++++++++++++----------------------
 PyEMD/experimental/jitemd.py | 41 ++++++++++++++----------------------
 2 files changed, 32 insertions(+), 50 deletions(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 868fad6..5137511 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -571,9 +571,6 @@ class EMD:
 
             indzer = np.sort(np.append(indzer, indz))
 
-        dt = float(T[1] - T[0])
-        scale = 2.0 * dt * dt
-
         idx = self._not_duplicate(S)
         T = T[idx]
         S = S[idx]
@@ -581,28 +578,22 @@ class EMD:
         # p - previous
         # 0 - current
         # n - next
-        Tp, T0, Tn = T[:-2], T[1:-1], T[2:]
-        Sp, S0, Sn = S[:-2], S[1:-1], S[2:]
-        # a = Sn + Sp - 2*S0
-        # b = 2*(Tn+Tp)*S0 - ((Tn+T0)*Sp+(T0+Tp)*Sn)
-        # c = Sp*T0*Tn -2*Tp*S0*Tn + Tp*T0*Sn
-        TnTp, T0Tn, TpT0 = Tn - Tp, T0 - Tn, Tp - T0
-        scale = Tp * Tn * Tn + Tp * Tp * T0 + T0 * T0 * Tn - Tp * Tp * Tn - Tp * T0 * T0 - T0 * Tn * Tn
-
-        a = T0Tn * Sp + TnTp * S0 + TpT0 * Sn
-        b = (S0 - Sn) * Tp**2 + (Sn - Sp) * T0**2 + (Sp - S0) * Tn**2
-        c = T0 * Tn * T0Tn * Sp + Tn * Tp * TnTp * S0 + Tp * T0 * TpT0 * Sn
-
-        a = a / scale
-        b = b / scale
-        c = c / scale
-        a[a == 0] = 1e-14
-        tVertex = -0.5 * b / a
-        idx = (tVertex < T0 + 0.5 * (Tn - T0)) & (tVertex >= T0 - 0.5 * (T0 - Tp))
-
-        a, b, c = a[idx], b[idx], c[idx]
-        tVertex = tVertex[idx]
-        sVertex = a * tVertex * tVertex + b * tVertex + c
+        slope = np.diff(S) / np.diff(T)
+        slope_p, slope_n = slope[:-1], slope[1:]
+
+        # The vertex is closest to the current point when the slope changes sign there.
+        # If the previous step is flat then compare with the slope before the plateau.
+        before = np.where(slope_p == 0, np.append(0, slope_p[:-1]), slope_p)
+        idx = np.sign(before) * np.sign(slope_n) < 0
+
+        Tp, T0, Tn = T[:-2][idx], T[1:-1][idx], T[2:][idx]
+        S0, slope_p, slope_n = S[1:-1][idx], slope_p[idx], slope_n[idx]
+
+        # Vertex relative to the current point; absolute positions lose precision far from 0
+        a = (slope_n - slope_p) / (Tn - Tp)
+        dVertex = 0.5 * ((Tn - T0) - (Tn - Tp) * (slope_n / (slope_n - slope_p)))
+        tVertex = T0 + dVertex
+        sVertex = S0 - a * dVertex * dVertex
 
         local_max_pos, local_max_val = tVertex[a < 0], sVertex[a < 0]
         local_min_pos, local_min_val = tVertex[a > 0], sVertex[a > 0]
diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index a16dffe..b0f7c1f 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -248,9 +248,6 @@ def _find_extrema_parabol(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
 
         indzer = np.sort(np.append(indzer, indz))
 
-    dt = float(T[1] - T[0])
-    scale = 2.0 * dt * dt
-
     idx = _not_duplicate(S)
     T = T[idx]
     S = S[idx]
@@ -258,28 +255,22 @@ def _find_extrema_parabol(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
     # p - previous
     # 0 - current
     # n - next
-    Tp, T0, Tn = T[:-2], T[1:-1], T[2:]
-    Sp, S0, Sn = S[:-2], S[1:-1], S[2:]
-    # a = Sn + Sp - 2*S0
-    # b = 2*(Tn+Tp)*S0 - ((Tn+T0)*Sp+(T0+Tp)*Sn)
-    # c = Sp*T0*Tn -2*Tp*S0*Tn + Tp*T0*Sn
-    TnTp, T0Tn, TpT0 = Tn - Tp, T0 - Tn, Tp - T0
-    scale = Tp * Tn * Tn + Tp * Tp * T0 + T0 * T0 * Tn - Tp * Tp * Tn - Tp * T0 * T0 - T0 * Tn * Tn
-
-    a = T0Tn * Sp + TnTp * S0 + TpT0 * Sn
-    b = (S0 - Sn) * Tp**2 + (Sn - Sp) * T0**2 + (Sp - S0) * Tn**2
-    c = T0 * Tn * T0Tn * Sp + Tn * Tp * TnTp * S0 + Tp * T0 * TpT0 * Sn
-
-    a = a / scale
-    b = b / scale
-    c = c / scale
-    a[a == 0] = 1e-14
-    tVertex = -0.5 * b / a
-    idx = np.logical_and(tVertex < T0 + 0.5 * (Tn - T0), tVertex >= T0 - 0.5 * (T0 - Tp))
-
-    a, b, c = a[idx], b[idx], c[idx]
-    tVertex = tVertex[idx]
-    sVertex = a * tVertex * tVertex + b * tVertex + c
+    slope = nb_diff(S) / nb_diff(T)
+    slope_p, slope_n = slope[:-1], slope[1:]
+
+    # The vertex is closest to the current point when the slope changes sign there.
+    # If the previous step is flat then compare with the slope before the plateau.
+    before = np.where(slope_p == 0, np.append(0, slope_p[:-1]), slope_p)
+    idx = np.sign(before) * np.sign(slope_n) < 0
+
+    Tp, T0, Tn = T[:-2][idx], T[1:-1][idx], T[2:][idx]
+    S0, slope_p, slope_n = S[1:-1][idx], slope_p[idx], slope_n[idx]
+
+    # Vertex relative to the current point; absolute positions lose precision far from 0
+    a = (slope_n - slope_p) / (Tn - Tp)
+    dVertex = 0.5 * ((Tn - T0) - (Tn - Tp) * (slope_n / (slope_n - slope_p)))
+    tVertex = T0 + dVertex
+    sVertex = S0 - a * dVertex * dVertex
 
     local_max_pos, local_max_val = tVertex[a < 0], sVertex[a < 0]
     local_min_pos, local_min_val = tVertex[a > 0], sVertex[a > 0]
-- 
2.43.0


From bd68c0a7d67c7a9d58b539f22c3f123452f20c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:17 +0000
Subject: [PATCH 06/22] fix: return empty imfs and zero trend when nothing was
 extracted

get_imfs_and_trend raised IndexError after decomposing an all-zero signal.
---
 PyEMD/EMD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 5137511..359077b 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -945,7 +945,7 @@ class EMD:
             raise ValueError("No IMF found. Please, run EMD method or its variant first.")
 
         imfs, residue = self.get_imfs_and_residue()
-        if np.allclose(residue, 0):
+        if len(imfs) > 0 and np.allclose(residue, 0):
             return imfs[:-1].copy(), imfs[-1].copy()
         else:
             return imfs, residue
-- 
2.43.0


From a2f1968e730f1fc91112f01f3b67f0b20757a56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:17 +0000
Subject: [PATCH 07/22] fix: plot a single component

plot_imfs with one row treated the single Axes as a sequence and failed.
---
 PyEMD/visualisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/visualisation.py b/PyEMD/visualisation.py
index eb6578e..59ea762 100644
--- a/PyEMD/visualisation.py
+++ b/PyEMD/visualisation.py
@@ -59,7 +59,7 @@ class Visualisation(object):
         fig, axes = plt.subplots(num_rows, 1, figsize=(self.PLOT_WIDTH, num_rows * self.PLOT_HEIGHT_PER_IMF))
 
         if num_rows == 1:
-            axes = list(axes)
+            axes = fig.axes
 
         axes[0].set_title("Time series")
 
-- 
2.43.0


From 5870b39b1a7780f53d78651b04ccb6529af6959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:17 +0000
Subject: [PATCH 08/22] fix: keep JitEMD residue one dimensional

The residue was kept as a (1, N) array so the trend could not be combined with
the imfs, e.g. in EEMD(separate_trends=True, ext_EMD=JitEMD()).
---
 PyEMD/experimental/jitemd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index b0f7c1f..da5b13b 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -74,7 +74,7 @@ class JitEMD:
             config=self.config,
         )
         self.imfs = imfs[:-1, :]
-        self.residue = imfs[-1:, :]
+        self.residue = s - np.sum(self.imfs, axis=0)
         return imfs
 
     def __call__(self, s, t, max_imf=-1):
-- 
2.43.0


From 40f539a12afb1b3efe3366070366e23ea5aac97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:17 +0000
Subject: [PATCH 09/22] fix: don't divide by zero deviation of a constant
 signal in CEEMDAN

All components were NaN.
---
 PyEMD/CEEMDAN.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyEMD/CEEMDAN.py b/PyEMD/CEEMDAN.py
index 0761bfa..d2e0f39 100644
--- a/PyEMD/CEEMDAN.py
+++ b/PyEMD/CEEMDAN.py
@@ -218,6 +218,8 @@ class CEEMDAN:
             CEEMDAN components.
         """
         scale_s = np.std(S)
+        if scale_s == 0:  # Constant signal
+            scale_s = 1.0
         S = S / scale_s
 
         # Define all noise
-- 
2.43.0


From e86736bb60878bf747baf1c2aede45894c42d0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:17 +0000
Subject: [PATCH 10/22] fix: rescale energies in the a posteriori white noise
 test

The energy of the rescaling IMF was computed but not used, so verdicts depended
on the signal's units, and the limit used exp(T)/2 in place of exp(T/2), so the
reference noise itself was reported significant.
---
 PyEMD/checks.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/PyEMD/checks.py b/PyEMD/checks.py
index 8818d11..df97df3 100644
--- a/PyEMD/checks.py
+++ b/PyEMD/checks.py
@@ -116,16 +116,17 @@ def whitenoise_check(IMFs: np.ndarray, test_name: str = "aposteriori", rescaling
         scaling_imf_energy_density = math.log(energy(IMFs[rescaling_imf - 1]) / N)
 
         k = abs(stats.norm.ppf((1 - alpha) / 2))
-        up_limit = -scaling_imf_mean_period + (k * math.sqrt(2 / N) * math.exp(scaling_imf_mean_period) / 2)
+        up_limit = -scaling_imf_mean_period + (k * (math.sqrt(2 / N) * math.exp(scaling_imf_mean_period / 2)))
 
-        scaling_factor = math.exp(up_limit)
+        # Shift (in log scale) which places the rescaling IMF at its upper limit
+        scaling_factor = up_limit - scaling_imf_energy_density
 
         for idx, imf in enumerate(IMFs):
             log_T = math.log(mean_period(imf))
             if idx != rescaling_imf - 1:
-                scaled_energy_density = math.log((energy(imf) / N) / scaling_factor)
+                scaled_energy_density = math.log(energy(imf) / N) + scaling_factor
             else:
-                scaled_energy_density = math.log(scaling_factor)
+                scaled_energy_density = up_limit
 
             sig_aposteriori = significance_aposteriori(scaled_energy_density, log_T, N, alpha)
 
-- 
2.43.0


From df8761a02bc56098acdf02decb1d1917128def32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:43 +0000
Subject: [PATCH 11/22] fix: sift in double precision so that low precision
 signals finish

The residue was rounded to the signal's type. With float32/float16 the rounding
alone creates extrema above range_thr, so decomposition kept adding IMFs forever
(e.g. float32 signal with an offset of a few thousands), and float16 signals also
failed in the three point spline as numpy.linalg doesn't support them.
---
 PyEMD/EMD.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 359077b..438b5e3 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -795,6 +795,10 @@ class EMD:
 
         # Make sure same types are dealt
         S, T = unify_types(S, T)
+        # Sift in (at least) double precision. Rounding errors of a shorter type create
+        # new extrema in each residue and the decomposition might never finish.
+        dtype = np.promote_types(S.dtype, np.float64)
+        S, T = S.astype(dtype), T.astype(dtype)
         self.DTYPE = S.dtype
         N = len(S)
 
-- 
2.43.0


From 02eae69744db9822282afd0c79d490948fe115e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:52 +0000
Subject: [PATCH 12/22] fix: don't overflow amplitude of integer signals in
 EEMD

max - min of a full range int8/int16 signal wraps around, which gave noise of
a wrong width.
---
 PyEMD/EEMD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/EEMD.py b/PyEMD/EEMD.py
index e89afa4..cb6ec3e 100644
--- a/PyEMD/EEMD.py
+++ b/PyEMD/EEMD.py
@@ -182,7 +182,7 @@ class EEMD:
         if T is None:
             T = get_timeline(len(S), S.dtype)
 
-        scale = self.noise_width * np.abs(np.max(S) - np.min(S))
+        scale = self.noise_width * (float(np.max(S)) - float(np.min(S)))
         self._S = S
         self._T = T
         self._N = len(S)
-- 
2.43.0


From ceabafb1b3bc905056c8041b580a4cfc212b616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:24 +0000
Subject: [PATCH 13/22] fix: normalise low precision signals in double
 precision in CEEMDAN

---
 PyEMD/CEEMDAN.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyEMD/CEEMDAN.py b/PyEMD/CEEMDAN.py
index d2e0f39..8ec891f 100644
--- a/PyEMD/CEEMDAN.py
+++ b/PyEMD/CEEMDAN.py
@@ -217,6 +217,8 @@ class CEEMDAN:
         components : np.ndarray
             CEEMDAN components.
         """
+        # Low precision signals would lose their values when normalised
+        S = S.astype(np.promote_types(S.dtype, np.float64))
         scale_s = np.std(S)
         if scale_s == 0:  # Constant signal
             scale_s = 1.0
-- 
2.43.0


From c206b7b39df48af4427ca8fd19465fd78e03233c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:04 +0000
Subject: [PATCH 14/22] fix: stop EMD_matlab when only rounding errors are left

---
 PyEMD/EMD_matlab.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyEMD/EMD_matlab.py b/PyEMD/EMD_matlab.py
index 5e1bd5f..593493f 100644
--- a/PyEMD/EMD_matlab.py
+++ b/PyEMD/EMD_matlab.py
@@ -505,6 +505,8 @@ class EMD:
 
             # ~ Res = scaledS - np.sum([IMF[i] for i in range(imfNo)],axis=0)
             Res -= imf
+            # Forced stop of EMD (same as in MATLAB): too small amplitude, i.e. only rounding errors are left
+            tooSmall = np.ptp(Res) < 1e-10 * np.ptp(scaledS)
             imf = Res.copy()
             mean = np.zeros(len(S), dtype=self.DTYPE)
 
@@ -530,7 +532,7 @@ class EMD:
                 extNo = len(mP) + len(MP)
                 nzm = len(indzer)
 
-                if extNo > 2:
+                if extNo > 2 and not tooSmall:
                     # Plotting. Either into file, or on-screen display.
                     imfOld = imf.copy()
                     imf = imf - self.reduceScale * mean
-- 
2.43.0


From f1097e91dec6b708048a807cad04f77456574bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:28 +0000
Subject: [PATCH 15/22] fix: don't lift the sifting loop of the compiled EMD

Numba's loop lifting miscompiles the exits of the sifting loop: emd() hung
as soon as MAX_ITERATION was reached for any component.
---
 PyEMD/experimental/jitemd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index da5b13b..b9a6cfc 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -777,6 +777,7 @@ def _normalize_time(t: np.ndarray) -> np.ndarray:
     ),
     nopython=False,
     forceobj=True,
+    looplift=False,  # lifted sifting loop never exits when MAX_ITERATION is reached
 )
 def emd(
     S: np.ndarray,
-- 
2.43.0


From ca5b24d4df869d22324b7b80a4ef0cc38743a522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:21 +0000
Subject: [PATCH 16/22] fix: take the offset into account when stopping
 EMD_matlab at rounding errors

---
 PyEMD/EMD_matlab.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyEMD/EMD_matlab.py b/PyEMD/EMD_matlab.py
index 593493f..6359849 100644
--- a/PyEMD/EMD_matlab.py
+++ b/PyEMD/EMD_matlab.py
@@ -506,7 +506,8 @@ class EMD:
             # ~ Res = scaledS - np.sum([IMF[i] for i in range(imfNo)],axis=0)
             Res -= imf
             # Forced stop of EMD (same as in MATLAB): too small amplitude, i.e. only rounding errors are left
-            tooSmall = np.ptp(Res) < 1e-10 * np.ptp(scaledS)
+            rounding = 100 * np.finfo(Res.dtype).eps * np.max(np.abs(scaledS))
+            tooSmall = np.ptp(Res) < max(1e-10 * np.ptp(scaledS), rounding)
             imf = Res.copy()
             mean = np.zeros(len(S), dtype=self.DTYPE)
 
-- 
2.43.0


From 63c489bf74bd10c150b5e55719f9e24c8f670eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:46 +0000
Subject: [PATCH 17/22] fix: give every JitEMD its own configuration

Changing the configuration of an instance created without one changed the
defaults of the function and of all other instances.
---
 PyEMD/experimental/jitemd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index b9a6cfc..70d702a 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -52,7 +52,7 @@ default_emd_config["MAX_ITERATION"] = 1000.0
 
 class JitEMD:
     def __init__(self, config=None, spline_kind="cubic", extrema_detection="simple"):
-        self.config = config or default_emd_config
+        self.config = config or default_emd_config.copy()
         self.spline_kind = spline_kind
         self.extrema_detection = extrema_detection
         self.imfs = None
-- 
2.43.0


From 6c7c538c3e25881a97c4e44a0441d152d875474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:09 +0000
Subject: [PATCH 18/22] fix: decompose integer images in double precision in
 EMD2D

---
 PyEMD/EMD2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyEMD/EMD2d.py b/PyEMD/EMD2d.py
index 2dbf5fb..734ba8d 100644
--- a/PyEMD/EMD2d.py
+++ b/PyEMD/EMD2d.py
@@ -292,6 +292,8 @@ class EMD2D:
             Set of IMFs in form of numpy array where the first dimension
             relates to IMF's ordinary number.
         """
+        # Integer images can't always represent their own range
+        image = image.astype(np.promote_types(image.dtype, np.float64))
         image_min, image_max = np.min(image), np.max(image)
         offset = image_min
         scale = image_max - image_min
-- 
2.43.0


From 0d625335a75b1eddfd6dc2e3c18989b11691a7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:30 +0000
Subject: [PATCH 19/22] fix: let parallel EEMD use JitEMD

JitEMD holds a numba typed dictionary, which can't be pickled, so EEMD with
ext_EMD=JitEMD() and parallel=True (the default) raised a TypeError.
---
 PyEMD/experimental/jitemd.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index 70d702a..ed38f86 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -59,6 +59,17 @@ class JitEMD:
         self.imfs = None
         self.residue = None
 
+    def __getstate__(self):
+        # Typed dictionary can't be pickled, i.e. sent to workers of a parallel EEMD
+        self_dict = self.__dict__.copy()
+        self_dict["config"] = dict(self.config)
+        return self_dict
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.config = nb.typed.Dict.empty(key_type=unicode_type, value_type=float64)
+        self.config.update(state["config"])
+
     def get_imfs_and_trend(self):
         if np.allclose(self.residue, 0):
             return self.imfs[:-1].copy(), self.imfs[-1].copy()
-- 
2.43.0


From 3896492c014d3c182a8706b78bf6f8696caca72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:03 +0000
Subject: [PATCH 20/22] fix: find extrema and zero crossings by direction, not
 by products

Products and differences of neighbouring samples wrapped around for integer
signals (e.g. any unsigned image row or audio passed to find_extrema) and
underflowed for tiny ones, so extrema and zero crossings were lost or invented.
---
 PyEMD/EMD.py                 | 9 +++++----
 PyEMD/EMD_matlab.py          | 4 ++--
 PyEMD/experimental/jitemd.py | 6 +++---
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 438b5e3..1c31983 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -559,7 +559,7 @@ class EMD:
         """
         # Finds indexes of zero-crossings
         S1, S2 = S[:-1], S[1:]
-        indzer = np.nonzero(S1 * S2 < 0)[0]
+        indzer = np.nonzero(np.sign(S1) * np.sign(S2) < 0)[0]
         if np.any(S == 0):
             indz = np.nonzero(S == 0)[0]
             if np.any(np.diff(indz) == 1):
@@ -578,7 +578,7 @@ class EMD:
         # p - previous
         # 0 - current
         # n - next
-        slope = np.diff(S) / np.diff(T)
+        slope = np.diff(S.astype(np.promote_types(S.dtype, np.float64))) / np.diff(T)
         slope_p, slope_n = slope[:-1], slope[1:]
 
         # The vertex is closest to the current point when the slope changes sign there.
@@ -611,7 +611,7 @@ class EMD:
 
         # Finds indexes of zero-crossings
         S1, S2 = S[:-1], S[1:]
-        indzer = np.nonzero(S1 * S2 < 0)[0]
+        indzer = np.nonzero(np.sign(S1) * np.sign(S2) < 0)[0]
         if np.any(S == 0):
             indz = np.nonzero(S == 0)[0]
             if np.any(np.diff(indz) == 1):
@@ -624,7 +624,8 @@ class EMD:
             indzer = np.sort(np.append(indzer, indz))
 
         # Finds local extrema
-        d = np.diff(S)
+        # Only directions matter; differences and their products can over- or underflow
+        d = (S2 > S1).astype(int) - (S2 < S1).astype(int)
         d1, d2 = d[:-1], d[1:]
         sign_change = d1 * d2 < 0
         indmin = np.nonzero(sign_change & (d1 < 0))[0] + 1
diff --git a/PyEMD/EMD_matlab.py b/PyEMD/EMD_matlab.py
index 6359849..666a20f 100644
--- a/PyEMD/EMD_matlab.py
+++ b/PyEMD/EMD_matlab.py
@@ -323,7 +323,7 @@ class EMD:
 
         # Finds indexes of zero-crossings
         s1, s2 = s[:-1], s[1:]
-        indzer = np.nonzero(s1 * s2 < 0)[0]
+        indzer = np.nonzero(np.sign(s1) * np.sign(s2) < 0)[0]
         if np.any(s == 0):
             iz = np.nonzero(s == 0)[0]
             indz = []
@@ -339,7 +339,7 @@ class EMD:
             indzer = np.sort(np.append(indzer, indz))
 
         # Finds local extrema
-        d = np.diff(s)
+        d = np.sign(np.diff(s))
         d1, d2 = d[:-1], d[1:]
         indmin = np.nonzero(np.r_[d1 * d2 < 0] & np.r_[d1 < 0])[0] + 1
         indmax = np.nonzero(np.r_[d1 * d2 < 0] & np.r_[d1 > 0])[0] + 1
diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index ed38f86..65ca623 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -171,7 +171,7 @@ def nb_diff(s):
 def _find_extrema_simple(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
     # Finds indexes of zero-crossings
     S1, S2 = S[:-1], S[1:]
-    indzer = np.nonzero(S1 * S2 < 0)[0]
+    indzer = np.nonzero(np.sign(S1) * np.sign(S2) < 0)[0]
     if np.any(S == 0):
         indz = np.nonzero(S == 0)[0]
         if np.any(nb_diff(indz) == 1):
@@ -187,7 +187,7 @@ def _find_extrema_simple(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
         indzer = np.sort(np.append(indzer, indz))
 
     # Finds local extrema
-    d = S2 - S1
+    d = np.sign(S2 - S1)
     d1, d2 = d[:-1], d[1:]
     indmin = np.nonzero(np.logical_and(d1 * d2 < 0, d1 < 0))[0] + 1
     indmax = np.nonzero(np.logical_and(d1 * d2 < 0, d1 > 0))[0] + 1
@@ -245,7 +245,7 @@ def _find_extrema_simple(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
 def _find_extrema_parabol(T: np.ndarray, S: np.ndarray) -> FindExtremaOutput:
     # Finds indexes of zero-crossings
     S1, S2 = S[:-1], S[1:]
-    indzer = np.nonzero(S1 * S2 < 0)[0]
+    indzer = np.nonzero(np.sign(S1) * np.sign(S2) < 0)[0]
     if np.any(S == 0):
         indz = np.nonzero(S == 0)[0]
         if np.any(nb_diff(indz) == 1):
-- 
2.43.0


From b91436d2e5f230c284a8c60560ac1a98bb1aedbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:46 +0000
Subject: [PATCH 21/22] fix: return matching positions and values from linear
 and quadratic spline_points

With positions outside the knots' range the other spline kinds return only the
positions they have values for; these returned all of them.
---
 PyEMD/EMD.py                 | 2 +-
 PyEMD/EMD_matlab.py          | 2 +-
 PyEMD/experimental/jitemd.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyEMD/EMD.py b/PyEMD/EMD.py
index 1c31983..11d759e 100644
--- a/PyEMD/EMD.py
+++ b/PyEMD/EMD.py
@@ -492,7 +492,7 @@ class EMD:
             return t, cubic_hermite(extrema[0], extrema[1], t)
 
         elif kind in ["slinear", "quadratic", "linear"]:
-            return T, interp1d(extrema[0], extrema[1], kind=kind)(t).astype(self.DTYPE)
+            return t, interp1d(extrema[0], extrema[1], kind=kind)(t).astype(self.DTYPE)
 
         else:
             raise ValueError("No such interpolation method!")
diff --git a/PyEMD/EMD_matlab.py b/PyEMD/EMD_matlab.py
index 666a20f..97ce721 100644
--- a/PyEMD/EMD_matlab.py
+++ b/PyEMD/EMD_matlab.py
@@ -256,7 +256,7 @@ class EMD:
                 return self.cubicSpline_3points(T, extrema)
 
         elif kind in ["slinear", "quadratic", "linear"]:
-            return T, interp1d(extrema[0], extrema[1], kind=kind)(t).astype(self.DTYPE)
+            return t, interp1d(extrema[0], extrema[1], kind=kind)(t).astype(self.DTYPE)
 
         else:
             raise ValueError("No such interpolation method!")
diff --git a/PyEMD/experimental/jitemd.py b/PyEMD/experimental/jitemd.py
index 65ca623..150a0c9 100644
--- a/PyEMD/experimental/jitemd.py
+++ b/PyEMD/experimental/jitemd.py
@@ -636,7 +636,7 @@ def spline_points(T: np.ndarray, extrema: np.ndarray, spline_kind: str) -> Tuple
     elif kind in ["slinear", "quadratic", "linear"]:
         interpolation = interp1d(extrema[0], extrema[1], kind=kind)
         interpolated: np.ndarray = interpolation(t)
-        return T, interpolated.astype(dtype)
+        return t, interpolated.astype(dtype)
 
     else:
         raise ValueError("No such interpolation method!")
-- 
2.43.0


From 98a3dc8c66ba8f5e60c1eaee5b262fe4c0d95e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:23 +0000
Subject: [PATCH 22/22] fix: honour include_residue and order given as numpy
 bools or numbers

---
 PyEMD/visualisation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyEMD/visualisation.py b/PyEMD/visualisation.py
index 59ea762..a5421e5 100644
--- a/PyEMD/visualisation.py
+++ b/PyEMD/visualisation.py
@@ -52,7 +52,7 @@ class Visualisation(object):
         imfs, residue = self._check_imfs(imfs, residue, include_residue)
 
         num_rows, t_length = imfs.shape
-        num_rows += include_residue is True
+        num_rows += bool(include_residue)
 
         t = t if t is not None else range(t_length)
 
@@ -135,7 +135,7 @@ class Visualisation(object):
     def _calc_inst_freq(self, sig, t, order, alpha):
         """Extracts instantaneous frequency through the Hilbert Transform."""
         inst_phase = self._calc_inst_phase(sig, alpha=alpha)
-        if order is False:
+        if not order:
             inst_freqs = np.diff(inst_phase) / (2 * np.pi * (t[1] - t[0]))
             inst_freqs = np.concatenate((inst_freqs, inst_freqs[:, -1].reshape(inst_freqs[:, -1].shape[0], 1)), axis=1)
         else:
-- 
2.43.0

