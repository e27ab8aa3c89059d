From 3f7a9f5fad6153bc44daa594f9c802ec7b2c8701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 01/22] fix: band filter keeps the last component below the
 upper limit

The slice end was one too low, so the highest component inside the band was
removed and filtering over adjacent bands lost it.
---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 5989527..1dfe11e 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -851,7 +851,7 @@ def applybandfilter(
     elif fhigh >= f[-1]:
         ihigh = Nf
     else:
-        ihigh = np.where(f < fhigh)[0][-1]
+        ihigh = np.where(f < fhigh)[0][-1] + 1
 
     # --- Initialize
     zFreq = np.zeros(len(xFreq)).astype(complex)
-- 
2.43.0


From a180101ddf8cfbbe6f3975a969d3c0002f081f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 02/22] fix: reject axes with a step smaller than the first

Only steps larger than the first were noticed, e.g. [0, 1, 1.1, 1.2] was
accepted as uniform.
---
 deltares_wave_toolbox/cores/core_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index 9bf0937..2854e46 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -67,7 +67,7 @@ def monotonic_increasing_constant_step(x: ArrayLike) -> bool:
         True when vector is monotonic increasing with constant step size
     """
     xDiff = np.diff(x)
-    isUniform = bool(np.all((xDiff - xDiff[0]) < 1000000 * sys.float_info.epsilon))
+    isUniform = bool(np.all(np.abs(xDiff - xDiff[0]) < 1000000 * sys.float_info.epsilon))
     xMonotonic = bool(np.all(xDiff > 0))
 
     return xMonotonic and isUniform
-- 
2.43.0


From 0bf0c78337c269319287da201c4fbee9c44b2831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 03/22] fix: band averages of integer spectra are not truncated

---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 1dfe11e..34a60a8 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -79,7 +79,7 @@ def frequency_averaging(
 
     # --- Initialize arrays
     f_coarse = np.zeros(len(f[0:nCoarse]))
-    sVarDens_coarse = np.zeros(len(f_coarse), dtype=type(sVarDens[0]))
+    sVarDens_coarse = np.zeros(len(f_coarse), dtype=np.result_type(sVarDens, float))
 
     # --- Perform the averaging
     for iFreq in np.arange(0, nCoarse):  # before np.arange(0,nCoarse)
-- 
2.43.0


From 32edf33f5d341c24cf3b3b6206a0c5076129d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 04/22] fix: reject gauge weights outside [0, 1]

The check passed when only one of the two limits was respected.
---
 deltares_wave_toolbox/cores/core_wave_decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wave_decomposition.py b/deltares_wave_toolbox/cores/core_wave_decomposition.py
index e8e4630..b42faeb 100644
--- a/deltares_wave_toolbox/cores/core_wave_decomposition.py
+++ b/deltares_wave_toolbox/cores/core_wave_decomposition.py
@@ -110,7 +110,7 @@ def decompose_linear_ZS(
     ), "ZS: input error: Dimensions of x_loc and t do not correspond."
     # --- Values of w_loc should be between 0 and 1
     assert (
-        min(w_loc) > 0 or max(w_loc) <= 1
+        min(w_loc) >= 0 and max(w_loc) <= 1
     ), "ZS: input error: Values of w_loc must be between 0 and 1."
 
     w_loc_sum = sum(w_loc)
-- 
2.43.0


From d934f49c65b0347fce5ecd125f6f2787a5adc16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 05/22] fix: steepness and default cut-offs do not reuse
 results of other queries

The steepness methods and the default cut-off frequencies took Hm0, Tps and
Tmm10 from whatever query came before, possibly over other limits.
---
 deltares_wave_toolbox/spectrum.py | 34 +++++++++----------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/deltares_wave_toolbox/spectrum.py b/deltares_wave_toolbox/spectrum.py
index 7edb495..99d84ec 100644
--- a/deltares_wave_toolbox/spectrum.py
+++ b/deltares_wave_toolbox/spectrum.py
@@ -120,9 +120,7 @@ class Spectrum:
             Hm0
         """
         if fmin == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
-            fmin = 0.45 / self.Tmm10
+            fmin = 0.45 / self.get_Tmm10()
 
             warnings.warn(
                 "Cutoff frequency fmin not set, using default value of 0.45 / Tmm10",
@@ -156,9 +154,7 @@ class Spectrum:
             Hm0
         """
         if fmax == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
-            fmax = 0.45 / self.Tmm10
+            fmax = 0.45 / self.get_Tmm10()
 
             warnings.warn(
                 "Cutoff frequency fmax not set, using default value of 0.45 / Tmm10",
@@ -270,9 +266,7 @@ class Spectrum:
             Tmm10
         """
         if fmin == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
-            fmin = 0.45 / self.Tmm10
+            fmin = 0.45 / self.get_Tmm10()
 
             warnings.warn(
                 "Cutoff frequency fmin not set, using default value of 0.45 / Tmm10",
@@ -306,9 +300,7 @@ class Spectrum:
             Tmm10
         """
         if fmax == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
-            fmax = 0.45 / self.Tmm10
+            fmax = 0.45 / self.get_Tmm10()
 
             warnings.warn(
                 "Cutoff frequency fmax not set, using default value of 0.45 / Tmm10",
@@ -383,11 +375,9 @@ class Spectrum:
         float
             s0p
         """
-        if not hasattr(self, "Hm0"):
-            self.get_Hm0(fmin=fmin, fmax=fmax)
+        self.get_Hm0(fmin=fmin, fmax=fmax)
 
-        if not hasattr(self, "Tps"):
-            self.get_Tps(fmin=fmin, fmax=fmax)
+        self.get_Tps(fmin=fmin, fmax=fmax)
 
         self.s0p = 2 * np.pi * self.Hm0 / (g * self.Tps**2)
         return self.s0p
@@ -414,11 +404,9 @@ class Spectrum:
         float
             smm10
         """
-        if not hasattr(self, "Hm0"):
-            self.get_Hm0(fmin=fmin, fmax=fmax)
+        self.get_Hm0(fmin=fmin, fmax=fmax)
 
-        if not hasattr(self, "Tmm10"):
-            self.get_Tmm10(fmin=fmin, fmax=fmax)
+        self.get_Tmm10(fmin=fmin, fmax=fmax)
 
         self.smm10 = 2 * np.pi * self.Hm0 / (g * self.Tmm10**2)
         return self.smm10
@@ -446,11 +434,9 @@ class Spectrum:
         float
             smm10_HF
         """
-        if not hasattr(self, "Hm0_HF"):
-            self.get_Hm0_HF(fmin=fmin, fmax=fmax)
+        self.get_Hm0_HF(fmin=fmin, fmax=fmax)
 
-        if not hasattr(self, "Tmm10_HF"):
-            self.get_Tmm10_HF(fmin=fmin, fmax=fmax)
+        self.get_Tmm10_HF(fmin=fmin, fmax=fmax)
 
         self.smm10_HF = 2 * np.pi * self.Hm0_HF / (g * self.Tmm10_HF**2)
         return self.smm10_HF
-- 
2.43.0


From 71ad3c642f86ba88d883d4c05b90be3e5791cd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 06/22] fix: smoothed peak period does not extrapolate outside
 the frequency axis

With the maximum at the first or last frequency the vertex of the parabola can
lie far outside the three points, even at negative frequency; the exceptional
branch is now taken there as well.
---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index b284fcb..331142c 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -671,7 +671,7 @@ def compute_tps(f: NDArray[float64], sVarDens: NDArray[float64]) -> float:
             a = p[0]
             b = p[1]
             # --- Compute Fps
-            if a < 0.0:
+            if a < 0.0 and ff[0] <= -b / (2 * a) <= ff[2]:
                 Fps = -b / (2 * a)
             else:
                 # Exceptional situation; can only occur if imax=1 or imax=nF
-- 
2.43.0


From 1f436fc3f1642ae739ab13cdb6db05ff8ea0dd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 07/22] fix: spectral moment honours a single given frequency
 limit

With only one of fmin and fmax given, it was silently ignored.
---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index 331142c..e56d76a 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -238,10 +238,14 @@ def compute_moment(
     integrand = freq ** (m) * spec
 
     # --- Depending on number of input arguments, compute the moment integral
-    if fmin == -1.0 or fmax == -1.0:  # integrate over all values in freq interval.
+    if fmin == -1.0 and fmax == -1.0:  # integrate over all values in freq interval.
         moment = integrate.simpson(integrand, x=freq)
     else:  # integrate over all values in sub interval.
-        # fmin and fmax are given
+        # fmin and/or fmax are given
+        if fmin == -1.0:
+            fmin = f[0]
+        if fmax == -1.0:
+            fmax = f[-1]
         fminn = fmin
         if m < 0 and f[0] == 0:
             if fmin == 0:
-- 
2.43.0


From 58b3091c47d00dc97e3313da78c975900638a343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:10 +0000
Subject: [PATCH 08/22] fix: negative spectral moments of an integer frequency
 axis

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index e56d76a..df0e536 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -235,7 +235,7 @@ def compute_moment(
         spec = sVarDens
 
     # --- Compute the integrand, that is the product of f^m * S
-    integrand = freq ** (m) * spec
+    integrand = freq ** float(m) * spec
 
     # --- Depending on number of input arguments, compute the moment integral
     if fmin == -1.0 and fmax == -1.0:  # integrate over all values in freq interval.
-- 
2.43.0


From be04435d856a5fcaab9feeb6e4a4e6685ebe15d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 09/22] fix: negative moments use the same integration points
 as the others

Dropping the point f=0 for m<0 changed the parity of the number of points and
with it all Simpson weights, so that Tm-1,0 could come out below Tm01.
---
 .../cores/core_wavefunctions.py               | 22 +++++++------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index df0e536..fd2816e 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -225,17 +225,16 @@ def compute_moment(
     if not (fSize[0] == SSize[0]):
         raise ValueError("compute_moment: Input error: array sizes differ in dimension")
 
-    # --- Remove the possible situation that f=0 in combination with m<0. This
-    #     would lead to division by zero
-    if m < 0 and f[0] == 0:
-        freq = f[1:]
-        spec = sVarDens[1:]
-    else:
-        freq = f
-        spec = sVarDens
+    freq = f
+    spec = sVarDens
 
     # --- Compute the integrand, that is the product of f^m * S
-    integrand = freq ** float(m) * spec
+    if m < 0 and f[0] == 0:
+        # f=0 would lead to division by zero and does not contribute. The point is
+        # kept, so that all moments are integrated over the same points
+        integrand = np.append(0.0, freq[1:] ** float(m) * spec[1:])
+    else:
+        integrand = freq ** float(m) * spec
 
     # --- Depending on number of input arguments, compute the moment integral
     if fmin == -1.0 and fmax == -1.0:  # integrate over all values in freq interval.
@@ -247,11 +246,6 @@ def compute_moment(
         if fmax == -1.0:
             fmax = f[-1]
         fminn = fmin
-        if m < 0 and f[0] == 0:
-            if fmin == 0:
-                fminn = f[1]
-
-        #
         if fmax <= freq[len(freq) - 1]:
             ifminn = core_engine.approx_array_index(freq, fminn)
             ifmax = core_engine.approx_array_index(freq, fmax) + 1
-- 
2.43.0


From 1a37737ef012f02e546481d4da859295450e33f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 10/22] fix: a zero-crossing does not round beyond the sample
 after it

---
 deltares_wave_toolbox/cores/core_time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_time.py b/deltares_wave_toolbox/cores/core_time.py
index a706487..f63afa9 100644
--- a/deltares_wave_toolbox/cores/core_time.py
+++ b/deltares_wave_toolbox/cores/core_time.py
@@ -178,6 +178,7 @@ def determine_zero_crossing(
                 tCrossing = t[iTime] + dt * xTime[iTime] / (
                     xTime[iTime] - xTime[iTime + 1]
                 )
+                tCrossing = min(tCrossing, t[iTime + 1])
                 tCross = np.append(tCross, tCrossing)
 
     elif typeCross.lower() == "down":
@@ -192,6 +193,7 @@ def determine_zero_crossing(
                 tCrossing = t[iTime] + dt * xTime[iTime] / (
                     xTime[iTime] - xTime[iTime + 1]
                 )
+                tCrossing = min(tCrossing, t[iTime + 1])
                 tCross = np.append(tCross, tCrossing)
     else:
         raise ValueError(
-- 
2.43.0


From c3281e83324a9b6494e3e6e66f1a2980778fe405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 11/22] fix: design period of a peak of a single frequency is
 not nan

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index fd2816e..59dcdf2 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -578,6 +578,8 @@ def tpd(f: NDArray[float64], sVarDens: NDArray[float64]) -> float:
     itemp = np.where(sVarDens / max_spectum >= 0.8)[0]
     temp = f[itemp]
     fp_limits = [min(temp), max(temp)]
+    if len(temp) == 1:
+        return 1 / temp[0]
 
     #  --- compute zeroth and first moment for selected frequency interval.
     m0 = compute_moment(f, sVarDens, 0, fp_limits[0], fp_limits[1])
-- 
2.43.0


From 1edd97e866407d188a3539ed6b93d0dcc49e4f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 12/22] fix: synthesised series does not get an extra sample by
 rounding

np.arange with a non-integer step may include its end, e.g. 1 to 1.3 in steps of
0.1 ended at 1.4.
---
 deltares_wave_toolbox/cores/core_spectral.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 34a60a8..b1c9550 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -662,7 +662,8 @@ def spectrum2timeseries(
             "compute_spectrum_freq_series: Input error: array sizes differ in dimension"
         )
 
-    t = np.arange(tInit, tEnd + dt, dt)
+    nTime = int(np.ceil((tEnd - tInit) / dt - 1e-9)) + 1
+    t = tInit + np.arange(0, nTime) * dt
 
     nTime = len(t)
     nTimeEven = int(2 * np.ceil(nTime / 2))
-- 
2.43.0


From c608aad5a8a5bda29a6cd096717c60e02b9305ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 13/22] fix: wave statistics of a record without waves are
 zero, not an error

The functions return zeros (or empty arrays) if there are no waves, but the 1D
check before it raised for every empty array.
---
 deltares_wave_toolbox/cores/core_time.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_time.py b/deltares_wave_toolbox/cores/core_time.py
index f63afa9..0087d16 100644
--- a/deltares_wave_toolbox/cores/core_time.py
+++ b/deltares_wave_toolbox/cores/core_time.py
@@ -58,11 +58,11 @@ def sort_wave_params(
 
     # Check on input arguments
     # --- Check whether the size of the input arguments is identical
-    is1d_array = core_engine.is1darray(hWave)
+    is1d_array = core_engine.is1darray(hWave) or hWave.size == 0
     if not is1d_array:
         raise ValueError("sort_wave_params: Input error, Input arrays hWave is not 1D")
 
-    is1d_array = core_engine.is1darray(tWave)
+    is1d_array = core_engine.is1darray(tWave) or tWave.size == 0
     if not is1d_array:
         raise ValueError("sort_wave_params: Input error, Input array tWave is not 1D")
 
@@ -263,13 +263,13 @@ def highest_waves_params(
     tWaveSorted = core_engine.convert_to_array_type(tWaveSorted)
 
     # Perform checks on the input arguments
-    is1d_array = core_engine.is1darray(hWaveSorted)
+    is1d_array = core_engine.is1darray(hWaveSorted) or hWaveSorted.size == 0
     if not is1d_array:
         raise ValueError(
             "highest_waves_params: Input error: Input arrays hWaveSorted is not 1D"
         )
 
-    is1d_array = core_engine.is1darray(tWaveSorted)
+    is1d_array = core_engine.is1darray(tWaveSorted) or tWaveSorted.size == 0
     if not is1d_array:
         raise ValueError(
             "highest_waves_params: Input error: Input arrays tWaveSorted is not 1D"
@@ -352,7 +352,7 @@ def exceedance_wave_height(hWaveSorted: NDArray[float64], excPerc: float) -> flo
     hWaveSorted = core_engine.convert_to_array_type(hWaveSorted)
 
     # Perform checks on the input arguments
-    is1d_array = core_engine.is1darray(hWaveSorted)
+    is1d_array = core_engine.is1darray(hWaveSorted) or hWaveSorted.size == 0
     if not is1d_array:
         raise ValueError(
             "exceedance_wave_height: Input error: Input arrays hWaveSorted is not 1D"
-- 
2.43.0


From db283d50ed39ff21e4dbfc3f6066875f1676a85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 14/22] fix: repeated wave height queries give the same period
 for waves of equal height

---
 deltares_wave_toolbox/cores/core_time.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_time.py b/deltares_wave_toolbox/cores/core_time.py
index 0087d16..233ae62 100644
--- a/deltares_wave_toolbox/cores/core_time.py
+++ b/deltares_wave_toolbox/cores/core_time.py
@@ -84,9 +84,8 @@ def sort_wave_params(
 
     # Computational core
     # --- Sort the wave height in descending order
-    iSorted = np.argsort(hWave)[
-        ::-1
-    ]  # term [::-1] reverses the array, meaning descending order.
+    # (waves of equal height keep their order, so that sorting again changes nothing)
+    iSorted = np.argsort(-hWave, kind="stable")
     hWaveSorted = hWave[iSorted]
     # --- Sort the wave periods
     tWaveSorted = tWave[iSorted]
-- 
2.43.0


From fe865589e7b8ad9954054f033418ee1dbe99ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:47 +0000
Subject: [PATCH 15/22] fix: tail contribution to moments for integer frequency
 arrays

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index 59dcdf2..70fcefd 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -259,7 +259,7 @@ def compute_moment(
             # 2: Integral over [freq(end),fmax]
             #    Variance density spectrum in this range: C * f^power, with
             #    C determined by power and spec(end)
-            power = -5  # Power of high-frequency tail
+            power = -5.0  # Power of high-frequency tail
             C = spec[len(spec) - 1] / (freq[len(freq) - 1] ** power)
             moment2 = (C / (m + power + 1)) * (
                 fmax ** (m + power + 1) - freq[len(freq) - 1] ** (m + power + 1)
-- 
2.43.0


From fba2f67676e39bf4c6b42895b141103cc65fb401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:01 +0000
Subject: [PATCH 16/22] fix: fourth spectral moment with a high-frequency tail

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index 70fcefd..cb38353 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -261,9 +261,12 @@ def compute_moment(
             #    C determined by power and spec(end)
             power = -5.0  # Power of high-frequency tail
             C = spec[len(spec) - 1] / (freq[len(freq) - 1] ** power)
-            moment2 = (C / (m + power + 1)) * (
-                fmax ** (m + power + 1) - freq[len(freq) - 1] ** (m + power + 1)
-            )
+            if m + power + 1 == 0:
+                moment2 = C * np.log(fmax / freq[len(freq) - 1])
+            else:
+                moment2 = (C / (m + power + 1)) * (
+                    fmax ** (m + power + 1) - freq[len(freq) - 1] ** (m + power + 1)
+                )
             # Add the two moments
             moment = moment1 + moment2
     return moment
-- 
2.43.0


From 1cfe869528aeaeefe94832c31931c43de52dd916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:01 +0000
Subject: [PATCH 17/22] fix: JONSWAP spectrum for integer frequency arrays

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index cb38353..f73b653 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -389,7 +389,7 @@ def create_spectrum_jonswap(
 
             # Variance density
             sVarDens[iff] = (
-                C * f_i ** (-5) * np.exp(-1.25 * nu ** (-4)) * lambda_jonswap
+                C * f_i ** (-5.0) * np.exp(-1.25 * nu ** (-4)) * lambda_jonswap
             )
 
     # --- Compute 'wave height' of the not yet correctly scaled variance
-- 
2.43.0


From f0f846f173c3efc1b760d5f3ef673f67b3780b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 18/22] fix: wave number in infinite depth and for the
 shallow-water option

---
 deltares_wave_toolbox/cores/core_dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_dispersion.py b/deltares_wave_toolbox/cores/core_dispersion.py
index c03a5f7..02575ab 100644
--- a/deltares_wave_toolbox/cores/core_dispersion.py
+++ b/deltares_wave_toolbox/cores/core_dispersion.py
@@ -81,7 +81,7 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
             arg[iq] = -c[iq] / b[iq]
             q = q + arg
 
-    k = np.sign(w) * q / h
+        k = np.sign(w) * q / h
 
     ik = np.isnan(k)
     k[ik] = np.zeros(np.size(k[ik]))
-- 
2.43.0


From ca1d167d7713d17d6cf2007f9894342ca52433cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 19/22] fix: wave number of very long waves

---
 deltares_wave_toolbox/cores/core_dispersion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_dispersion.py b/deltares_wave_toolbox/cores/core_dispersion.py
index 02575ab..77fd688 100644
--- a/deltares_wave_toolbox/cores/core_dispersion.py
+++ b/deltares_wave_toolbox/cores/core_dispersion.py
@@ -62,7 +62,9 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
         # --- Standard (nonlinear) dispersion relation for depths 0 < h < inf
         w2 = (w**2) * h / g
 
+        # the shallow water limit replaces the iteration for very long waves
         ielem = np.nonzero(w2 < 1.0e-8)
+        qlong = np.sqrt(w2[ielem])
         w2[ielem] = 1e-8
         q = w2 / (1 - np.exp(-(w2 ** (5 / 4)))) ** (2 / 5)
 
@@ -80,6 +82,7 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
             iq = np.nonzero(abs(a * c) < 1.0e-8 * (b**2))
             arg[iq] = -c[iq] / b[iq]
             q = q + arg
+        q[ielem] = qlong
 
         k = np.sign(w) * q / h
 
-- 
2.43.0


From 58ab90551575b4448ac3924f694120ba0f3b6f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:48 +0000
Subject: [PATCH 20/22] fix: spectrum objects reject two-dimensional arrays

---
 deltares_wave_toolbox/spectrum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_wave_toolbox/spectrum.py b/deltares_wave_toolbox/spectrum.py
index 99d84ec..5ccbc8a 100644
--- a/deltares_wave_toolbox/spectrum.py
+++ b/deltares_wave_toolbox/spectrum.py
@@ -43,6 +43,10 @@ class Spectrum:
         assert (
             fSize[0] == SSize[0]
         ), "compute_spectrum_params: Input error: array sizes differ in dimension"
+        # densities per frequency and direction only together with directions
+        assert fSize[1] <= 1 and (
+            SSize[1] <= 1 or D.size > 0
+        ), "compute_spectrum_params: Input error: input should be 1d arrays"
 
         self.f = f
         self.sVarDens = sVarDens
-- 
2.43.0


From 512b7f70f982b2a764333fa9003155482a2ddf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:52 +0000
Subject: [PATCH 21/22] fix: synthesis from a column of densities

---
 deltares_wave_toolbox/cores/core_spectral.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index b1c9550..6565aa2 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -650,14 +650,14 @@ def spectrum2timeseries(
 
     """
     f, fSize = core_engine.convert_to_vector(f)
-    xFreq, xFreqSize = core_engine.convert_to_vector(sVarDens)
+    sVarDens, SSize = core_engine.convert_to_vector(sVarDens)
 
-    if fSize[1] > 1 or xFreqSize[1] > 1:
+    if fSize[1] > 1 or SSize[1] > 1:
         raise ValueError(
             "compute_spectrum_freq_series: Input error: input should be 1d arrays"
         )
 
-    if not (fSize[0] == xFreqSize[0]):
+    if not (fSize[0] == SSize[0]):
         raise ValueError(
             "compute_spectrum_freq_series: Input error: array sizes differ in dimension"
         )
-- 
2.43.0


From 6d39d9c42f285d7af5e634b4d7a487c63951d53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:09 +0000
Subject: [PATCH 22/22] fix: draw the k-th highest of n waves at exceedance k/n
 in plot_exceedance_waveheight

The probabilities ran from 0 to 1, so the highest wave was drawn at
probability zero and vanished from the logarithmic axis, and every other wave
was drawn at a probability at which get_exceedance_waveheight gives another
wave height.
---
 deltares_wave_toolbox/series.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/series.py b/deltares_wave_toolbox/series.py
index 0b3574c..f05efec 100644
--- a/deltares_wave_toolbox/series.py
+++ b/deltares_wave_toolbox/series.py
@@ -160,9 +160,7 @@ class WaveHeights:
         """
         self.hwave, self.twave = core_time.sort_wave_params(self.hwave, self.twave)
         fig = plt.figure()
-        plt.plot(
-            self.hwave, np.linspace(0, self.nwave, self.nwave, self.nwave) / self.nwave
-        )
+        plt.plot(self.hwave, np.arange(1, self.nwave + 1) / self.nwave)
 
         plt.yscale("log")
         plt.grid("on")
-- 
2.43.0

