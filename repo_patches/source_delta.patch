From d7927330d0a15083269ee270702cd25d268c9804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:00 +0000
Subject: [PATCH 01/43] fix: round requested and generated frequencies the same
 way in qtcurrent

Python floats and numpy floats round ties differently, so a tone at, e.g.,
0.20005 was not found when its frequency was passed as a Python float.
---
 qmix/qtcurrent.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qmix/qtcurrent.py b/qmix/qtcurrent.py
index 7bc13d7..59030f0 100644
--- a/qmix/qtcurrent.py
+++ b/qmix/qtcurrent.py
@@ -86,8 +86,10 @@ def qtcurrent(vj, cct, resp, freq_list, num_b=15, verbose=True, resp_matrix=None
         freq_is_list = False
 
     # TODO: there must be a better way...
+    # Note: use the same type (and therefore the same rounding routine) as the
+    # mixing products that these values will be compared to
     for i, freq_val in enumerate(freq_list):
-        freq_list[i] = round(freq_val, ROUND_FREQ)
+        freq_list[i] = round(np.float64(freq_val), ROUND_FREQ)
     freq_npts = len(freq_list)
 
     freq = cct.freq
-- 
2.43.0


From c90a93c986af45a8692d06b3754e0c5791b01337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 02/43] fix: count coincident mixing products at dc once

When the tones are dependent (e.g., LO, RF and their IF), a mixing product
and its mirror image are both found at dc, where each one already holds the
contribution of the pair.
---
 qmix/qtcurrent.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/qmix/qtcurrent.py b/qmix/qtcurrent.py
index 59030f0..5dd9cc9 100644
--- a/qmix/qtcurrent.py
+++ b/qmix/qtcurrent.py
@@ -551,7 +551,11 @@ def _current_2_tones(freq_out, ccc, freq, resp_matrix, num_p, npts, num_b1, num_
 
             if freq_ab == freq_out:
 
-                current_out += _current_coeff_2_tones(a, b, ccc, resp_matrix, num_b1, num_b2, npts)
+                current = _current_coeff_2_tones(a, b, ccc, resp_matrix, num_b1, num_b2, npts)
+                # (a, b) and (-a, -b) are both found at dc: count them once
+                if freq_out == 0 and (a != 0 or b != 0):
+                    current = current / 2
+                current_out += current
 
     return current_out
 
@@ -660,8 +664,13 @@ def _current_3_tones(freq_out, ccc, freq, resp_matrix, num_p, npts, num_b1, num_
                     #                  b, freq[2],
                     #                  c, freq[3], freq_out)
 
-                    current_out += _current_coeff_3_tones(a, b, c, ccc, resp_matrix,
-                                                          num_b1, num_b2, num_b3)
+                    current = _current_coeff_3_tones(a, b, c, ccc, resp_matrix,
+                                                     num_b1, num_b2, num_b3)
+                    # (a, b, c) and (-a, -b, -c) are both found at dc: count
+                    # them once
+                    if freq_out == 0 and (a != 0 or b != 0 or c != 0):
+                        current = current / 2
+                    current_out += current
 
     return current_out
 
@@ -771,8 +780,13 @@ def _current_4_tones(freq_out, ccc, freq, resp_matrix, num_p, npts, num_b1, num_
 
                     if freq_abcd == freq_out:
 
-                        current_out += _current_coeff_4_tones(a, b, c, d, ccc, resp_matrix,
-                                                              num_b1, num_b2, num_b3, num_b4, npts)
+                        current = _current_coeff_4_tones(a, b, c, d, ccc, resp_matrix,
+                                                         num_b1, num_b2, num_b3, num_b4, npts)
+                        # (a, b, c, d) and (-a, -b, -c, -d) are both found
+                        # at dc: count them once
+                        if freq_out == 0 and (a != 0 or b != 0 or c != 0 or d != 0):
+                            current = current / 2
+                        current_out += current
 
     return current_out
 
-- 
2.43.0


From 00b16bd814552f30b20d34bc9812fc0e204563f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 03/43] fix: allow set_freq with normalized units when no gap
 is defined

---
 qmix/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index fb83274..2fdcce7 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -439,7 +439,7 @@ class EmbeddingCircuit(object):
 
         """
 
-        if units.lower != 'norm':
+        if units.lower() != 'norm':
             assert self.fgap is not None, 'Gap frequency must be defined!'
 
         if units.lower() == 'hz':
-- 
2.43.0


From f4aec8a49bedb6b00ed78d81114aab6b2f4edb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 04/43] fix: return the frequencies from EmbeddingCircuit.vph

---
 qmix/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index 2fdcce7..7499e56 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -575,7 +575,7 @@ class EmbeddingCircuit(object):
 
         """
 
-        return self.cct
+        return self.freq
 
 
 def read_circuit(filename):
-- 
2.43.0


From a3d21a36a339d92728a090b045795b1be4595677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 05/43] fix: set the gap current when the gap is given as a
 frequency

---
 qmix/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index 7499e56..7d1f86b 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -231,8 +231,8 @@ class EmbeddingCircuit(object):
         # Normal-state resistance
         if rn is not None:
             self.rn = float(rn)
-        if vgap is not None and rn is not None:
-            self.igap = vgap / rn
+        if self.vgap is not None and self.rn is not None:
+            self.igap = self.vgap / self.rn
 
         # Initialize embedding circuit
         self.freq = np.zeros((num_f + 1), dtype=float)
-- 
2.43.0


From 82706aaf5672745411058300045fee0b0cb8507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 06/43] fix: save embedding circuits with full precision

Frequencies, voltages and impedances were rounded to 4 (2) decimals, so
read_circuit did not regenerate the circuit that was saved.
---
 qmix/circuit.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index 7d1f86b..48e9b49 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -524,9 +524,10 @@ class EmbeddingCircuit(object):
 
         """
 
-        str1 = "   f={0}, p={1}\t\t\tfreq = {2:.4f} x {1}\n"
-        str2 = "\tThev. voltage:\t\t{:.4f} V / V_gap\n"
-        str3 = "\tThev. impedance:\t{:.2f} ohms / R_N\n"
+        # Note: use the shortest representations that read back exactly
+        str1 = "   f={0}, p={1}\t\t\tfreq = {2!r} x {1}\n"
+        str2 = "\tThev. voltage:\t\t{!r} V / V_gap\n"
+        str3 = "\tThev. impedance:\t{!r} ohms / R_N\n"
 
         with open(filename, 'w') as fout:
             fout.write("Embedding Circuit:\n")
@@ -535,9 +536,9 @@ class EmbeddingCircuit(object):
 
             for f in range(1, self.num_f + 1):
                 for p in range(1, self.num_p + 1):
-                    freq = self.freq[f]
-                    vt = self.vt[f, p]
-                    zt = self.zt[f, p]
+                    freq = float(self.freq[f])
+                    vt = complex(self.vt[f, p])
+                    zt = complex(self.zt[f, p])
                     fout.write(str1.format(f, p, freq))
                     fout.write(str2.format(vt))
                     fout.write(str3.format(zt))
-- 
2.43.0


From 1d971b76ae186065846d0405e73e20b4846e053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:20 +0000
Subject: [PATCH 07/43] fix: leave the embedding circuit unchanged in
 harmonic_balance

The minimum Thevenin voltage was written into the caller's circuit, which
also failed if the circuit was locked.
---
 qmix/harmonic_balance.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index bb4937f..d71bd68 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -79,7 +79,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     num_n = cct.num_n
     npts = cct.vb_npts
 
-    vt = cct.vt
+    vt = cct.vt.copy()  # don't change the caller's circuit
     zt = cct.zt
 
     # Harmonic balance isn't required if all zt are equal to zero
@@ -260,9 +260,12 @@ def check_hb_error(vj_check, cct, resp, num_b=15, stop_rerror=0.001):
     # Tunnelling current for all tones/harmonics (see below)
     ij_all = _qtcurrent_all_freq(vj_check, cct, resp, num_b)
 
+    # Same minimum Thevenin voltage as the harmonic balance function
+    vt = np.where(np.abs(cct.vt) < MIN_VT, MIN_VT, cct.vt)
+
     for f in range(1, cct.num_f + 1):
         for p in range(1, cct.num_p + 1):
-            error_fp = cct.vt[f, p] - \
+            error_fp = vt[f, p] - \
                        cct.zt[f, p] * ij_all[f, p, :] - \
                        vj_check[f, p, :]
             max_rel_error = np.max(np.abs(error_fp) /
-- 
2.43.0


From f624fbddeea1c647e6a2beff63148dde79933840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 08/43] fix: don't overwrite vj_initial in harmonic_balance

For one tone, reshape returns a view of the caller's array.
---
 qmix/harmonic_balance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index d71bd68..fb9d928 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -112,7 +112,8 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     # voltage) will be transformed into a matrix with shape 6 x npts.
 
     # Change format of data from [f, p] to [p] (reduce by one dimension)
-    vj_2d = vj_initial[1:, 1:, :].reshape((num_n, npts))
+    # (always copy vj because it is updated in place below)
+    vj_2d = np.array(vj_initial[1:, 1:, :], dtype=complex).reshape((num_n, npts))
     vt_2d = vt[1:, 1:].reshape(num_n)
     zt_2d = zt[1:, 1:].reshape(num_n)
 
-- 
2.43.0


From d363805ec94e32490bcae7bca1f20395b640fd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 09/43] fix: honour the output mode of harmonic_balance when
 all zt are zero

---
 qmix/harmonic_balance.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index fb9d928..7b0bea4 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -86,7 +86,12 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     if (zt == 0).all():
         if verbose:
             print("Done.\n")
-        return vt[:, :, None] * np.ones(npts, dtype=complex)
+        vj_out = vt[:, :, None] * np.ones(npts, dtype=complex)
+        if mode == "x":
+            return vj_out, 0, True
+        elif mode == "m":
+            return vj_out, np.ones(npts, dtype=bool)
+        return vj_out
 
     # Check whether any Thevenin voltages are zero (prevents div0 errors) ----
 
-- 
2.43.0


From 2286143c5e50d2991660c926415c12969495a04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 10/43] fix: report convergence of harmonic_balance from the
 error itself

Convergence on the last allowed iteration was reported as a failure, and
a NaN error was dropped by the built-in max().
---
 qmix/harmonic_balance.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qmix/harmonic_balance.py b/qmix/harmonic_balance.py
index 7b0bea4..bf6eb41 100644
--- a/qmix/harmonic_balance.py
+++ b/qmix/harmonic_balance.py
@@ -134,6 +134,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     # Perform harmonic balance -----------------------------------------------
 
     iteration = 0
+    converged = False
     for iteration in range(max_it + 1):
 
         # Current vector (junction current)
@@ -165,7 +166,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
                 # Check relative error at k
                 abs_error = np.abs(err_all[k, :])
                 rel_error = abs_error / np.abs(vj_2d[k, :])
-                max_rel_error = max(np.max(rel_error), max_rel_error)
+                max_rel_error = np.maximum(np.max(rel_error), max_rel_error)
                 med_rel_error = np.median(abs_error / np.abs(vj_2d[k, :]))
                 good_points = rel_error < stop_rerror
                 finished_points = finished_points & good_points
@@ -189,6 +190,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
 
         # Exit if the error is good enough
         if max_rel_error <= stop_rerror:
+            converged = True
             if verbose:
                 print("Done: Minimum error target was achieved.")
             break
@@ -228,8 +230,7 @@ def harmonic_balance(cct, resp, num_b=15, max_it=10, stop_rerror=0.001, vj_initi
     if mode == "o":  # return vj
         return vj_out
     elif mode == "x":  # return vj, number of iterations, and if converged
-        did_not_hit_max_it = iteration != max_it
-        return vj_out, iteration, did_not_hit_max_it
+        return vj_out, iteration, converged
     elif mode == "m":  # return vj and mask
         return vj_out, finished_points
 
-- 
2.43.0


From 3e0825e491629ec1bfe717c40e9268cca2829fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 11/43] fix: centre the kernel of gauss_conv

If ext_x * sigma was not an integer, the sampled Gaussian was not symmetric,
which shifted the data by up to half a sample.
---
 qmix/mathfn/filters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/mathfn/filters.py b/qmix/mathfn/filters.py
index 487c97d..aa27f25 100644
--- a/qmix/mathfn/filters.py
+++ b/qmix/mathfn/filters.py
@@ -48,8 +48,8 @@ def _gauss(sigma, n_sigma=3):
 
     """
 
-    x_range = n_sigma * sigma
-    x = np.arange(-x_range, x_range + 1e-5, 1, dtype=float)
+    x_range = int(n_sigma * sigma + 1e-5)
+    x = np.arange(-x_range, x_range + 1, dtype=float)
 
     y = 1 / (sigma * np.sqrt(2 * np.pi)) * np.exp(-0.5 * (x / sigma)**2)
 
-- 
2.43.0


From d14800641f8c02456291dcde04f80862f7d1cc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 12/43] fix: allow n=1 in slope_span_n

---
 qmix/mathfn/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/mathfn/misc.py b/qmix/mathfn/misc.py
index d7a8256..5597b8c 100644
--- a/qmix/mathfn/misc.py
+++ b/qmix/mathfn/misc.py
@@ -63,7 +63,7 @@ def slope_span_n(x, y, n=11, nozeros=True):
     run = x[2 * n + 1:] - x[:-2 * n - 1]
 
     with np.errstate(divide='ignore'):
-        der[n + 1:-n] = rise / run
+        der[n + 1:len(x) - n] = rise / run
         for n in range(1, n + 1):
             rise = y[2 * n + 1:] - y[:-2 * n - 1]
             run = x[2 * n + 1:] - x[:-2 * n - 1]
-- 
2.43.0


From adcc31bc72deba8453e972eb7876b7096662d624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 13/43] fix: reject any uneven voltage spacing in
 kk_trans_trapz

---
 qmix/mathfn/kktrans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/mathfn/kktrans.py b/qmix/mathfn/kktrans.py
index 234bdaa..2480123 100644
--- a/qmix/mathfn/kktrans.py
+++ b/qmix/mathfn/kktrans.py
@@ -64,7 +64,7 @@ def kk_trans_trapz(v, i):
     """
 
     # Ensure v has even spacing
-    assert ((v[1:] - v[:-1]) - (v[1] - v[0])).max() < 1e-5
+    assert np.abs((v[1:] - v[:-1]) - (v[1] - v[0])).max() < 1e-5
 
     # very crude integration
     ikk = []
-- 
2.43.0


From 655d7a5b36357115f7203db7c0a628fe4c922f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 14/43] fix: accept integers in the perfect I-V curve model

Integer arrays truncated the current at the gap to zero and integer numpy
scalars returned None.
---
 qmix/mathfn/ivcurve_models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qmix/mathfn/ivcurve_models.py b/qmix/mathfn/ivcurve_models.py
index a9ed2b1..d2d8ed8 100644
--- a/qmix/mathfn/ivcurve_models.py
+++ b/qmix/mathfn/ivcurve_models.py
@@ -30,12 +30,12 @@ def perfect(voltage):
     """
 
     if isinstance(voltage, np.ndarray):
-        current = np.copy(voltage)
+        current = np.array(voltage, dtype=float)
         current[voltage == 1.] = 0.5
         current[voltage == -1.] = -0.5
         current[np.abs(voltage) < 1] = 0
         return current
-    elif isinstance(voltage, float) or isinstance(voltage, int):
+    elif isinstance(voltage, (float, int, np.number)):
         if np.abs(voltage) < 1:
             return 0
         if np.abs(voltage) > 1:
@@ -74,7 +74,7 @@ def perfect_kk(voltage, max_kk=100.):
 
         return kk
 
-    elif isinstance(voltage, float) or isinstance(voltage, int):
+    elif isinstance(voltage, (float, int, np.number)):
 
         if abs(voltage) == 1.:
             return max_kk
-- 
2.43.0


From 271159992cbcad22e1a7ecae767045a9c3d345a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 15/43] fix: avoid overflow in the polynomial I-V curve model

The model returned NaN (or garbage for integer arrays) once
voltage ** (2 * order) overflowed, e.g., RespFnPolynomial(100) was all NaN.
---
 qmix/mathfn/ivcurve_models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qmix/mathfn/ivcurve_models.py b/qmix/mathfn/ivcurve_models.py
index d2d8ed8..e3bd7ae 100644
--- a/qmix/mathfn/ivcurve_models.py
+++ b/qmix/mathfn/ivcurve_models.py
@@ -96,7 +96,9 @@ def polynomial(voltage, order=50):
 
     """
 
-    current = voltage ** (2 * order + 1) / (1 + voltage ** (2 * order))
+    # Note: written this way to avoid overflow at high voltages / high orders
+    with np.errstate(divide='ignore', over='ignore'):
+        current = voltage / (1 + np.abs(voltage) ** (-2. * order))
 
     return current
 
-- 
2.43.0


From cc4f23458ab5516954faf7c1f34ede7eb250b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 16/43] fix: don't change numpy's global error state in the I-V
 curve models

---
 qmix/mathfn/ivcurve_models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qmix/mathfn/ivcurve_models.py b/qmix/mathfn/ivcurve_models.py
index e3bd7ae..7d7e290 100644
--- a/qmix/mathfn/ivcurve_models.py
+++ b/qmix/mathfn/ivcurve_models.py
@@ -103,6 +103,7 @@ def polynomial(voltage, order=50):
     return current
 
 
+@np.errstate(over='ignore')
 def exponential(voltage, vgap=2.8e-3, rn=14., rsg=300., agap=4e4, model='fixed'):
     """The exponential I-V curve model that is used in some papers from
     Chalmers.
@@ -140,7 +141,6 @@ def exponential(voltage, vgap=2.8e-3, rn=14., rsg=300., agap=4e4, model='fixed')
     v_v = voltage * vgap  # voltage in units [V]
 
     if model.lower() == 'fixed' or model.lower() == 'corrected':
-        np.seterr(over='ignore')
         i_a = (
                # Sub-gap resistance
                v_v / (rsg * 2) * (1 / (1 + np.exp(-agap * (v_v + vgap)))) -
@@ -152,7 +152,6 @@ def exponential(voltage, vgap=2.8e-3, rn=14., rsg=300., agap=4e4, model='fixed')
                v_v / rn * (1 / (1 + np.exp(-agap * (v_v - vgap)))))
         return i_a / igap
     elif model.lower() == 'original':
-        np.seterr(over='ignore')
         i_a = (
                # Sub-gap resistance
                v_v / rsg * (1 / (1 + np.exp(-agap * (v_v + vgap)))) +
@@ -165,6 +164,7 @@ def exponential(voltage, vgap=2.8e-3, rn=14., rsg=300., agap=4e4, model='fixed')
         raise ValueError("Model not recognized.")
 
 
+@np.errstate(over='ignore')
 def expanded(voltage, vgap=2.8e-3, rn=14., rsg=5e2, agap=4e4, a0=1e4,
              ileak=5e-6, vnot=2.85e-3, inot=1e-5, anot=2e4, ioff=1e-5):
     """My "expanded" I-V curve model.
@@ -201,7 +201,6 @@ def expanded(voltage, vgap=2.8e-3, rn=14., rsg=5e2, agap=4e4, a0=1e4,
     v_v = voltage * vgap
     igap = vgap / rn
 
-    np.seterr(over='ignore')
     i_a = (
         # Leakage current
         ileak * 2 * (1 / (1 + np.exp(-a0 * v_v))) -
-- 
2.43.0


From 84c3c52881ef925e17c500c5f99bec301a611c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 17/43] fix: check the absolute interpolation error of response
 functions

Interpolations that were too high always passed check_error.
---
 qmix/respfn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index 59db44f..d7e33e7 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -809,9 +809,9 @@ def _setup_interpolation(voltage, current, current_kk, **params):
 
     # Check error
     if check_error:
-        assert err_dc.max() < interp_error, \
+        assert np.abs(err_dc).max() < interp_error, \
             "Interpolation error too high. Please increase max_npts_dc"
-        assert err_kk.max() < interp_error, \
+        assert np.abs(err_kk).max() < interp_error, \
             "Interpolation error too high. Please increase max_npts_kk"
 
     return f_dc, f_kk, f_ddc, f_dkk
-- 
2.43.0


From 53af35c07ff07749d4d2f5d1e5230c46af7de7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 18/43] fix: use the zero-bias sample in RespFnFromIVData

The sample at vb=0 was dropped, so the current at zero bias was replaced with
the next sample's.
---
 qmix/respfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index d7e33e7..a141707 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -529,7 +529,7 @@ class RespFnFromIVData(RespFn):
 
         # Force slope=1 above vmax
         vmax = params.get('vlimit', 1.8)
-        mask = (voltage > 0) & (voltage < vmax)
+        mask = (voltage >= 0) & (voltage < vmax)
         current = current[mask]
         voltage = voltage[mask]
         b = current[-1] - voltage[-1]
-- 
2.43.0


From b705dcd1f8fa893beaf2a4d115a39e73b4c6276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 19/43] fix: smear the perfect I-V curve like the other I-V
 curves

RespFnPerfect(v_smear=...) added a spurious Gaussian bump at the gap and
then smeared the result again, instead of convolving the perfect I-V curve
with a Gaussian.
---
 qmix/respfn.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index a141707..a97c166 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -696,15 +696,6 @@ class RespFnPerfect(RespFn):
         # Smear IV curve (optional)
         else:
 
-            tmp = np.zeros_like(voltage)
-            idx = np.abs(voltage - 1.).argmin()
-            tmp[idx] = 1.
-
-            v_step = voltage[1] - voltage[0]
-            current = gauss_conv(tmp, sigma=params['v_smear']/v_step) + iv.perfect(voltage)
-            if params['verbose']:
-                print(" - Voltage smear: {:.4f}".format(params['v_smear']))
-
             RespFn.__init__(self, voltage, current, **params)
 
     def __str__(self):
-- 
2.43.0


From 264106ace92eb9294c96ea8d88fd58850f556ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 20/43] fix: check sorting correctly when removing doubles

The check failed if there were fewer than two samples (so clean_xy and
clean_matrix could not handle data with one valid sample) or if there were
repeated infinite values, and it always looked at the first column.
---
 qmix/exp/clean_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/clean_data.py b/qmix/exp/clean_data.py
index 87bcbc4..59e53d7 100644
--- a/qmix/exp/clean_data.py
+++ b/qmix/exp/clean_data.py
@@ -63,7 +63,7 @@ def remove_doubles_xy(x, y, check=True):
 
     # Check to see if x is sorted
     if check:
-        assert (x[1:] - x[:-1]).min() >= 0
+        assert (x[1:] >= x[:-1]).all()
 
     # Find doubles
     mask = np.ones(len(x), dtype=bool)
@@ -161,7 +161,7 @@ def remove_doubles_matrix(matrix, col=0, check=True):
 
     if check:
         # Check to see if x is sorted
-        assert (matrix[1:, 0] - matrix[:-1, 0]).min() >= 0
+        assert (matrix[1:, col] >= matrix[:-1, col]).all()
 
     column = matrix[:, col]
     mask = np.ones_like(column, dtype=bool)
-- 
2.43.0


From 45f84dd25c68c9a41577638e70580f96f224968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 21/43] fix: use the given offsets when both are known

dciv_curve only used voffset and ioffset to initialize the offset search,
while iv_curve subtracts them as is.
---
 qmix/exp/iv_data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index ac0b56e..42d796e 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -535,6 +535,12 @@ def _correct_offset(volt_v, curr_a, **kw):
         curr_a -= ioffset
         return volt_v, curr_a, (voffset, ioffset)
 
+    # If both offsets are known, then there is nothing to find
+    if voffset is not None and ioffset is not None:
+        volt_v -= voffset
+        curr_a -= ioffset
+        return volt_v, curr_a, (voffset, ioffset)
+
     # Take area around origin
     mask = (voffset_range[0] <= volt_v) & (volt_v <= voffset_range[1])
     volt_v_red, curr_a_red = volt_v[mask], curr_a[mask]
-- 
2.43.0


From b0774d991a8a7c1bca1366ff2701d75381b2ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 22/43] fix: handle zero current when correcting for a series
 resistance

Samples with zero current at a non-zero voltage were turned into NaN.
---
 qmix/exp/iv_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index 42d796e..31d8864 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -723,8 +723,9 @@ def _correct_series_resistance(vmeas, imeas, **kw):
     rstatic[rstatic < 0] = 0.
     mask = np.invert(np.isnan(rstatic))
     rj = rstatic - rseries
-    v0 = imeas[mask] * rj[mask]
-
     idc = imeas.copy()[mask]
 
+    # There is no voltage drop if there is no current
+    v0 = np.where(idc == 0, vmeas[mask], idc * rj[mask])
+
     return v0, idc
-- 
2.43.0


From ac8669ba4a4bd244626c5451eb43e7ed5abe16c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 23/43] fix: create the results folders inside the given folder

initialize_dir appended the sub-folder names to the folder name, so without
a trailing slash they ended up next to the given folder.
---
 qmix/exp/exp_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 00f21c0..281ed07 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1948,7 +1948,8 @@ def initialize_dir(fig_folder):  # pragma: no cover
     folder_list += list(_file_structure.values())
 
     for folder in folder_list:
-        if not os.path.exists(fig_folder + folder):
-            os.makedirs(fig_folder + folder)
+        path = os.path.join(fig_folder, folder)
+        if not os.path.exists(path):
+            os.makedirs(path)
             print('   - Created: ' + folder)
     print(" ")
-- 
2.43.0


From b0cb43450b27dd1c072e27c5f5006ff4ad3efbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 24/43] fix: accept integer I-V data in units of V and A

---
 qmix/exp/iv_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index 31d8864..1e3d38c 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -32,8 +32,8 @@ from qmix.misc.terminal import cprint
 
 filterwarnings(action="ignore", module="scipy", message="^internal gelsd")
 
-_vfmt_dict = {'uV': 1e-6, 'mV': 1e-3, 'V': 1}  # Voltage units
-_ifmt_dict = {'uA': 1e-6, 'mA': 1e-3, 'A': 1}  # Current units
+_vfmt_dict = {'uV': 1e-6, 'mV': 1e-3, 'V': 1.}  # Voltage units
+_ifmt_dict = {'uA': 1e-6, 'mA': 1e-3, 'A': 1.}  # Current units
 
 # Import and analyze I-V data ------------------------------------------------
 
-- 
2.43.0


From bb9a02263e4e924d539d4c414ede122e3d073fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 25/43] fix: accept integer IF data

---
 qmix/exp/if_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qmix/exp/if_data.py b/qmix/exp/if_data.py
index 2488ebf..3f99d33 100644
--- a/qmix/exp/if_data.py
+++ b/qmix/exp/if_data.py
@@ -400,6 +400,7 @@ def _load_if(ifdata, dc, **kwargs):
     assert ifdata.shape[1] == 2, 'IF data should have 2 columns.'
 
     # Units for voltage
+    ifdata = ifdata.astype(float)
     ifdata[:, 0] *= _vfmt_dict[v_fmt]
 
     # Clean
-- 
2.43.0


From a8cebb530c76786031ec627eefb7a6c3c8d9b871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 26/43] fix: keep a known offset while searching for the other
 one

---
 qmix/exp/iv_data.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index 1e3d38c..dd45ac0 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -558,17 +558,23 @@ def _correct_offset(volt_v, curr_a, **kw):
         # Find total error
         return np.sum(np.abs(yy1 - yy2))
 
-    # Initial guess
+    # Initial guess (an offset that is already known stays fixed)
+    unknown = np.array([voffset is None, ioffset is None])
     if voffset is None:
         voffset = 0
     if ioffset is None:
         ioffset = np.mean(curr_a_red)
 
     # Minimize to find I-V offsets
-    x0 = np.array([voffset, ioffset])
-    res = minimize(model, x0=x0)
-    voffset = res.x[0]
-    ioffset = res.x[1]
+    offset = np.array([voffset, ioffset], dtype=float)
+
+    def error(x):
+        offset[unknown] = x
+        return model(offset)
+
+    res = minimize(error, x0=offset[unknown])
+    offset[unknown] = res.x
+    voffset, ioffset = offset
 
     # Correct for the offset
     volt_v -= voffset
-- 
2.43.0


From d83bcecff6ec079cb7a0168363aca12b189309aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 27/43] fix: scale the search for the I-V offsets

---
 qmix/exp/iv_data.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index dd45ac0..4d41cd4 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -565,15 +565,18 @@ def _correct_offset(volt_v, curr_a, **kw):
     if ioffset is None:
         ioffset = np.mean(curr_a_red)
 
-    # Minimize to find I-V offsets
+    # Minimize to find I-V offsets (scaled, because the search algorithm
+    # expects values around one)
     offset = np.array([voffset, ioffset], dtype=float)
+    scale = np.array([np.ptp(volt_v_red), np.ptp(curr_a_red)])
+    scale[scale == 0] = 1.
 
     def error(x):
-        offset[unknown] = x
+        offset[unknown] = x * scale[unknown]
         return model(offset)
 
-    res = minimize(error, x0=offset[unknown])
-    offset[unknown] = res.x
+    res = minimize(error, x0=offset[unknown] / scale[unknown])
+    offset[unknown] = res.x * scale[unknown]
     voffset, ioffset = offset
 
     # Correct for the offset
-- 
2.43.0


From dc873f1dd9927fae09ea9545cc529920ca8b9124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 28/43] fix: correct IF data for a series resistance where the
 dc current is zero

---
 qmix/exp/if_data.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/qmix/exp/if_data.py b/qmix/exp/if_data.py
index 3f99d33..540f4d3 100644
--- a/qmix/exp/if_data.py
+++ b/qmix/exp/if_data.py
@@ -417,13 +417,8 @@ def _load_if(ifdata, dc, **kwargs):
     # Correct for series resistance
     if rseries is not None:
         v = ifdata[:, 0]
-        rstatic = dc.vraw / dc.iraw
-        rstatic[rstatic < 0] = 0.
-        rstatic = np.interp(v, dc.vraw, rstatic)
         iraw = np.interp(v, dc.vraw, dc.iraw)
-        rj = rstatic - rseries
-        v0 = iraw * rj
-        ifdata[:, 0] = v0
+        ifdata[:, 0] = v - iraw * rseries
 
     # Normalize voltage to gap voltage
     ifdata[:, 0] /= dc.vgap
-- 
2.43.0


From 90a0ad949f99e0952ce8725cbcd1ac41dc2f132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 29/43] fix: use a single given offset for pumped I-V data

---
 qmix/exp/iv_data.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index 4d41cd4..1e87004 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -282,12 +282,8 @@ def iv_curve(ivdata, dc, **kwargs):
     curr_a *= i_multiplier
 
     # Correct offset
-    if voffset is not None and ioffset is not None:
-        volt_v -= voffset
-        curr_a -= ioffset
-    else:
-        volt_v -= dc.offset[0]
-        curr_a -= dc.offset[1]
+    volt_v -= voffset if voffset is not None else dc.offset[0]
+    curr_a -= ioffset if ioffset is not None else dc.offset[1]
 
     if debug:  # pragma: no cover
         plt.figure()
-- 
2.43.0


From 791fd4568d5b38756f31d4efabe73402f5764c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:06 +0000
Subject: [PATCH 30/43] fix: use the default fit interval if fit_range is None

---
 qmix/exp/exp_data.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 281ed07..0b217a9 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -711,10 +711,12 @@ class PumpedData(object):
             fit_high = fit_range[1]
         else:
             fit_low  = self.kwargs.get('cut_low', None)
-            fit_high = 1 - self.kwargs.get('cut_high', None)
-            if fit_low is None or fit_high is None:
+            cut_high = self.kwargs.get('cut_high', None)
+            if fit_low is None or cut_high is None:
                 fit_low = PARAMS['fit_range'][0]
                 fit_high = PARAMS['fit_range'][1]
+            else:
+                fit_high = 1 - cut_high
         fit_high = 1 - fit_high
 
         # Range of impedance values to test
@@ -1319,10 +1321,12 @@ class PumpedData(object):
             fit_high = fit_range[1]
         else:
             fit_low  = self.kwargs.get('cut_low', None)
-            fit_high = self.kwargs.get('cut_high', None)
-            if fit_low is None or fit_high is None:
+            cut_high = self.kwargs.get('cut_high', None)
+            if fit_low is None or cut_high is None:
                 fit_low = PARAMS['fit_range'][0]
                 fit_high = PARAMS['fit_range'][1]
+            else:
+                fit_high = 1 - cut_high
         fit_high = 1 - fit_high
         v_min = (1 - vph + vph * fit_low) * self.vgap * 1e3
         v_max = (1 - vph * fit_high) * self.vgap * 1e3
-- 
2.43.0


From 26bca9ebbe3b6be28c7f713b578edb6a81400346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:06 +0000
Subject: [PATCH 31/43] fix: plot IF data on the given axis in plot_ivif

---
 qmix/exp/exp_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 0b217a9..3a0afa2 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -925,6 +925,7 @@ class PumpedData(object):
 
         if ax is None:
             fig, ax1 = plt.subplots()
+            ax2 = ax1.twinx()
         else:
             ax1, ax2 = ax
             fig = ax1.get_figure()
@@ -943,7 +944,6 @@ class PumpedData(object):
 
         # Plot IF data
         mv = self.if_hot[:, 0] * self.vgap * 1e3
-        ax2 = ax1.twinx()
         mask = self.if_hot[:, 1] != 0
         ax2.plot(mv[mask], self.if_hot[mask, 1], '#f96b6b', label='Hot')
         mask = self.if_cold[:, 1] != 0
-- 
2.43.0


From 11e640d76a48cbc41825bb8c05bc56ed10ec4bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:06 +0000
Subject: [PATCH 32/43] fix: label the leakage current and sub-gap resistance
 where they were measured

---
 qmix/exp/exp_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 3a0afa2..d25c186 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -283,7 +283,8 @@ class DCData(object):
         i_leak = np.interp(self.vleak / self.vgap, self.voltage, self.current)
 
         # Fit sub-gap resistance
-        mask = (self.vleak - 0.2e-3 < v_v) & (v_v < self.vleak + 0.2e-3)
+        vrsg = self.kwargs['vrsg']
+        mask = (vrsg - 0.2e-3 < v_v) & (v_v < vrsg + 0.2e-3)
         psg = np.polyfit(v_mv[mask], i_ua[mask], 1)
 
         # Strings for legend labels
@@ -304,7 +305,7 @@ class DCData(object):
                 marker='o', ls='None', color='r', mfc='None', ms=8,
                 markeredgewidth=1, label=lgd_str3)
         # Label leakage current
-        ax.plot(2, i_leak * ua,
+        ax.plot(self.vleak * 1e3, i_leak * ua,
                 marker='o', ls='None', color='g', mfc='None', ms=8,
                 markeredgewidth=1, label=lgd_str4)
         # Fit line to normal resistance slope
-- 
2.43.0


From 78cb28acfb0334df34e4bf9b03161850557de383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:06 +0000
Subject: [PATCH 33/43] fix: plot pumped data without IF data

---
 qmix/exp/exp_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index d25c186..bf5ada3 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1447,8 +1447,9 @@ class PumpedData(object):
 
         # Generate plots
         self.plot_iv(fig1, **kw)
-        self.plot_ivif(fig2, **kw)
-        self.plot_noise_temp(fig5, **kw)
+        if self.if_hot is not None:
+            self.plot_ivif(fig2, **kw)
+            self.plot_noise_temp(fig5, **kw)
         # self.plot_gain_noise_temp(fig6, **kw)
         if self.zt is not None:
             self.plot_error_surface(fig3)
-- 
2.43.0


From c47fe5544e5c3a33820b0b2efde9e44acc70a263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:06 +0000
Subject: [PATCH 34/43] fix: plot overall results of few or unsorted
 measurements

---
 qmix/exp/exp_data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index bf5ada3..b4357e8 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1700,9 +1700,12 @@ def plot_overall_results(dciv, data_list, fig_folder, vmax_plot=4.,
 
     fig, ax = plt.subplots(figsize=figsize)
     freq_t = np.linspace(np.min(freq), np.max(freq), 1001)
-    sp_1 = UnivariateSpline(freq, t_n)
     ax.plot(freq, t_n, 'o', color=_blue)
-    ax.plot(freq_t, sp_1(freq_t), '--', color=_blue)
+    if len(freq) > 1:
+        idx = np.argsort(freq)
+        sp_1 = UnivariateSpline(np.array(freq)[idx], t_n[idx],
+                                k=min(3, len(freq) - 1))
+        ax.plot(freq_t, sp_1(freq_t), '--', color=_blue)
     ax.set_xlabel('Frequency (GHz)')
     ax.set_ylabel('Noise Temperature (K)')
     if f_range is not None:
-- 
2.43.0


From b4f0eccd4bfca6319b1a837fbf0e550b3354e43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:15 +0000
Subject: [PATCH 35/43] fix: read the data files in plot_if_spectrum

---
 qmix/exp/exp_data.py | 65 ++++++++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index b4357e8..986f345 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -1482,43 +1482,44 @@ def plot_if_spectrum(data_folder, fig_folder=None, figsize=None):  # pragma: no
         print(" - {}".format(filename))
         base = filename.split('_')[0][1:]
 
-        freq, t_n, p_hot_db, p_cold_db = if_response(if_file)
+        if_data = np.genfromtxt(if_file)
+        freq, t_n, p_hot_db, p_cold_db = if_response(if_data)
+        t_n_smooth = gauss_conv(t_n, sigma=1)
 
-        fig2, ax2 = plt.subplots(figsize=figsize)
-        ax2.plot(freq, t_n)
         ax1.plot(freq, t_n, label="{} GHz".format(base))
-        ax2.plot(freq, gauss_conv(t_n, sigma=1), label="{} GHz".format(base))
-        ax2.set_ylabel('Noise Temperature (K)')
-        ax2.set_xlabel('Frequency (GHz)')
-        ax2.set_ylim([0, 400])
-        ax2.set_xlim([0, 20])
+        ax2.plot(freq, t_n_smooth, label="{} GHz".format(base))
+
+        fig3, ax3 = plt.subplots(figsize=figsize)
+        ax3.plot(freq, t_n)
+        ax3.plot(freq, t_n_smooth, label="{} GHz".format(base))
+        ax3.set_ylabel('Noise Temperature (K)')
+        ax3.set_xlabel('Frequency (GHz)')
+        ax3.set_ylim([0, 400])
+        ax3.set_xlim([0, 20])
         if fig_folder is not None:
             figname = os.path.join(fig_folder, filename)
-            fig2.savefig(figname + '.png', **_plot_params)
-            ax2.set_ylim([0, 2000])
-            fig2.savefig(figname + '2.png', **_plot_params)
+            fig3.savefig(figname + '.png', **_plot_params)
+            ax3.set_ylim([0, 2000])
+            fig3.savefig(figname + '2.png', **_plot_params)
+            plt.close(fig3)
         else:
-            fig2.show()
-
-    ax1.set_ylabel('Noise Temperature (K)')
-    ax1.set_xlabel('Frequency (GHz)')
-    ax1.set_ylim([0, 500])
-    ax1.set_xlim([0, 20])
-    ax1.legend()
-    fig1.savefig(os.path.join(fig_folder, 'if_spectra.png'), **_plot_params)
-    ax1.set_ylim([0, 2000])
-    fig1.savefig(os.path.join(fig_folder, 'if_spectra2.png'), **_plot_params)
-
-    ax2.set_ylabel('Noise Temperature (K)')
-    ax2.set_xlabel('Frequency (GHz)')
-    ax2.set_ylim([0, 500])
-    ax2.set_xlim([0, 20])
-    ax2.legend()
-    fig2.savefig(os.path.join(fig_folder, 'if_spectra_smooth.png'),
-                 **_plot_params)
-    ax2.set_ylim([0, 2000])
-    fig2.savefig(os.path.join(fig_folder, 'if_spectra_smooth2.png'),
-                 **_plot_params)
+            fig3.show()
+
+    for fig, ax, figname in [(fig1, ax1, 'if_spectra'),
+                             (fig2, ax2, 'if_spectra_smooth')]:
+        ax.set_ylabel('Noise Temperature (K)')
+        ax.set_xlabel('Frequency (GHz)')
+        ax.set_ylim([0, 500])
+        ax.set_xlim([0, 20])
+        ax.legend()
+        if fig_folder is not None:
+            figname = os.path.join(fig_folder, figname)
+            fig.savefig(figname + '.png', **_plot_params)
+            ax.set_ylim([0, 2000])
+            fig.savefig(figname + '2.png', **_plot_params)
+            plt.close(fig)
+        else:
+            fig.show()
 
     print("")
 
-- 
2.43.0


From 2b1293f4cd7ab3201b9873ce4b7319a358774263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:15 +0000
Subject: [PATCH 36/43] fix: leave the caller's array alone in
 set_available_power

---
 qmix/circuit.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index 48e9b49..724b9ea 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -356,15 +356,15 @@ class EmbeddingCircuit(object):
         if units.lower() == 'w':
             pass
         elif units.lower() == 'mw':
-            power *= sc.milli
+            power = power * sc.milli
         elif units.lower() == 'uw':
-            power *= sc.micro
+            power = power * sc.micro
         elif units.lower() == 'nw':
-            power *= sc.nano
+            power = power * sc.nano
         elif units.lower() == 'pw':
-            power *= sc.pico
+            power = power * sc.pico
         elif units.lower() == 'fw':
-            power *= sc.femto
+            power = power * sc.femto
         elif units.lower() == 'dbm':
             power = 10 ** (power / 10) * 1e-3
         elif units.lower() == 'dbw':
-- 
2.43.0


From d7ac3e77adcaf1ae895276d9579575b5af1c1c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:08 +0000
Subject: [PATCH 37/43] fix: adjust the layout of the figure plotted by
 plot_if_noise

---
 qmix/exp/exp_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/exp/exp_data.py b/qmix/exp/exp_data.py
index 986f345..3fc8164 100644
--- a/qmix/exp/exp_data.py
+++ b/qmix/exp/exp_data.py
@@ -414,7 +414,7 @@ class DCData(object):
         else:
             ax1, ax2 = ax
             fig = ax1.get_figure()
-        plt.subplots_adjust(hspace=0., wspace=0.)
+        fig.subplots_adjust(hspace=0., wspace=0.)
 
         # Plot DC I-V curve
         ax1.plot(v_mv, i_ua, label='I-V curve')
-- 
2.43.0


From 47d622b93bfd8824de294192759afbb54dd73f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:09 +0000
Subject: [PATCH 38/43] fix: printc printed the sign of a negative imaginary
 part twice

---
 qmix/misc/terminal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmix/misc/terminal.py b/qmix/misc/terminal.py
index d1ab427..f0f82a1 100644
--- a/qmix/misc/terminal.py
+++ b/qmix/misc/terminal.py
@@ -195,4 +195,4 @@ def printc(complex_number):  # pragma: no cover
         sign = '-'
 
     return str("{:+6.2f} {} j{:5.2f}".format(complex_number.real, sign,
-                                             complex_number.imag))
+                                             abs(complex_number.imag)))
-- 
2.43.0


From a853e0a84562b2d5664c72b71d21d6bccea701b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:09 +0000
Subject: [PATCH 39/43] fix: largest interpolation error that is printed
 ignored negative errors

---
 qmix/respfn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmix/respfn.py b/qmix/respfn.py
index a97c166..619edde 100644
--- a/qmix/respfn.py
+++ b/qmix/respfn.py
@@ -791,11 +791,11 @@ def _setup_interpolation(voltage, current, current_kk, **params):
         print(msg1)
         print(msg2.format(len(dc_idx)))
         print(msg3.format(np.mean(np.abs(err_dc))))
-        print(msg4.format(err_dc.max(), err_v[err_dc.argmax()]))
+        print(msg4.format(np.abs(err_dc).max(), err_v[np.abs(err_dc).argmax()]))
         print(msg5)
         print(msg6.format(len(kk_idx)))
         print(msg7.format(np.mean(np.abs(err_kk))))
-        print(msg8.format(err_kk.max(), err_v[err_kk.argmax()]))
+        print(msg8.format(np.abs(err_kk).max(), err_v[np.abs(err_kk).argmax()]))
         print(msg9)
 
     # Check error
-- 
2.43.0


From 4eabdbf32a26cd6bd50ef50847becdcc63a38db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:09 +0000
Subject: [PATCH 40/43] fix: print_info dropped the imaginary part of Thevenin
 voltages

---
 qmix/circuit.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qmix/circuit.py b/qmix/circuit.py
index 724b9ea..4c59c95 100644
--- a/qmix/circuit.py
+++ b/qmix/circuit.py
@@ -491,23 +491,23 @@ class EmbeddingCircuit(object):
             for f in range(1, self.num_f + 1):
                 for p in range(1, self.num_p + 1):
                     freq = self.freq[f]
-                    vt = self.vt[f, p]
+                    vt = self.vt[f, p] if self.vt[f, p].imag else self.vt[f, p].real
                     zt = self.zt[f, p]
                     cprint(str1.format(f, p, freq, self.comment[f][p]), 'GREEN')
-                    print(str3.format(float(vt.real)))
+                    print(str3.format(vt))
                     print(str4.format(zt))
         else:
             for f in range(1, self.num_f + 1):
                 for p in range(1, self.num_p + 1):
                     fq = self.freq[f] * self.fgap / 1e9
-                    vt = self.vt[f, p]
+                    vt = self.vt[f, p] if self.vt[f, p].imag else self.vt[f, p].real
                     zt = self.zt[f, p]
                     with np.errstate(divide='ignore'):
                         power_w = self.available_power(f, p, units='W')
                         power_dbm = self.available_power(f, p, units='dBm')
                     cprint(str2.format(f, p, fq, self.comment[f][p]), 'GREEN')
-                    print(str3.format(float(vt.real)))
-                    print(str6.format(float(vt.real / (self.freq[f] * p))))
+                    print(str3.format(vt))
+                    print(str6.format(vt / (self.freq[f] * p)))
                     print(str4.format(zt))
                     print(str7.format(power_w))
                     print(str8.format(power_dbm))
-- 
2.43.0


From 8153598adb4071969a53eaf24cdff3d9f737bea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:09 +0000
Subject: [PATCH 41/43] fix: series resistance was not removed where the
 current opposes the voltage

---
 qmix/exp/iv_data.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index 1e87004..ccf48bf 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -725,7 +725,6 @@ def _correct_series_resistance(vmeas, imeas, **kw):
         return vmeas, imeas
 
     rstatic = vmeas / imeas
-    rstatic[rstatic < 0] = 0.
     mask = np.invert(np.isnan(rstatic))
     rj = rstatic - rseries
     idc = imeas.copy()[mask]
-- 
2.43.0


From 58e86558850f0a434892bdd14f6e39fcc6db70ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:09 +0000
Subject: [PATCH 42/43] fix: data were no longer sorted after a negative
 voltage gain

---
 qmix/exp/if_data.py | 1 +
 qmix/exp/iv_data.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/qmix/exp/if_data.py b/qmix/exp/if_data.py
index 540f4d3..41276a3 100644
--- a/qmix/exp/if_data.py
+++ b/qmix/exp/if_data.py
@@ -410,6 +410,7 @@ def _load_if(ifdata, dc, **kwargs):
 
     # Correct errors in experimental system
     ifdata[:, 0] *= v_multiplier
+    ifdata = ifdata[np.argsort(ifdata[:, 0])]  # the gain may be negative
 
     # Correct for offset
     ifdata[:, 0] = ifdata[:, 0] - dc.offset[0]
diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index ccf48bf..781f001 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -142,6 +142,7 @@ def dciv_curve(ivdata, **kwargs):
     # Correct for DC gain errors in experimental system (if required)
     volt_v *= v_multiplier
     curr_a *= i_multiplier
+    volt_v, curr_a = sort_xy(volt_v, curr_a)  # the gain may be negative
 
     # Correct offsets in I-V data
     volt_v, curr_a, offset = _correct_offset(volt_v, curr_a, **kwargs)
@@ -280,6 +281,7 @@ def iv_curve(ivdata, dc, **kwargs):
     # Correct for DC gain errors in experimental system (if needed)
     volt_v *= v_multiplier
     curr_a *= i_multiplier
+    volt_v, curr_a = sort_xy(volt_v, curr_a)  # the gain may be negative
 
     # Correct offset
     volt_v -= voffset if voffset is not None else dc.offset[0]
-- 
2.43.0


From 69cef895d147346bb062a6fa3764998250170b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:35 +0000
Subject: [PATCH 43/43] fix: gap voltage of I-V curves with few or uneven
 points

Points further apart than 10 uV left fewer than two points for the line fit,
which gave a meaningless (negative) gap voltage, and the spacing was taken
from the first two points only.
---
 qmix/exp/iv_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qmix/exp/iv_data.py b/qmix/exp/iv_data.py
index 781f001..a65e4fd 100644
--- a/qmix/exp/iv_data.py
+++ b/qmix/exp/iv_data.py
@@ -645,14 +645,17 @@ def _find_gap_voltage(volt_v, curr_a, **kw):
     prn = np.polyfit(vtmp, itmp, 1)
 
     # Find max derivative in I-V curve
-    vstep = volt_v[1] - volt_v[0]
     mask = 2e-3 < volt_v
+    vstep = np.median(np.diff(volt_v[mask]))
     der = slope(volt_v[mask], curr_a[mask])
     der = gauss_conv(der, sigma=0.2e-3 / vstep)
     vgap = volt_v[mask][der.argmax()]
 
     # Fit line around max derivative
+    # (use the neighbouring points as well, if they are further away than that)
     mask = (vgap - 0.1e-4 < volt_v) & (volt_v < vgap + 0.1e-4)
+    idx = np.abs(volt_v - vgap).argmin()
+    mask[idx - 1:idx + 2] = True
     vtmp, itmp = volt_v[mask], curr_a[mask]
     pgap = np.polyfit(vtmp, itmp, 1)
 
-- 
2.43.0

