From a922b220e0a68383f76304008743f700b45945f7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:29 +0000
Subject: [PATCH 01/18] fix: kick_and_drift read phi12 one element past its end
 on the last turn

---
 longitudinal_tomography/cpp_routines/libtomo.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/libtomo.cpp b/longitudinal_tomography/cpp_routines/libtomo.cpp
index 84f75d7..5bb9797 100644
--- a/longitudinal_tomography/cpp_routines/libtomo.cpp
+++ b/longitudinal_tomography/cpp_routines/libtomo.cpp
@@ -211,11 +211,12 @@ py::tuple wrapper_kick_and_drift_scalar(
         const bool ftn_out,
         const std::optional<const py::object> callback
 ) {
-    real_t *ptr_phi12 = new real_t[nturns];
-    std::fill_n(ptr_phi12, nturns, phi12);
+    // The kick is evaluated for the turns 1..nturns, so nturns + 1 values are needed.
+    real_t *ptr_phi12 = new real_t[nturns + 1];
+    std::fill_n(ptr_phi12, nturns + 1, phi12);
 
     py::capsule capsule(ptr_phi12, [](void *p) { delete[] reinterpret_cast<real_t *>(p); });
-    real_Tarr arr_phi12({nturns}, ptr_phi12, capsule);
+    real_Tarr arr_phi12({nturns + 1}, ptr_phi12, capsule);
 
     wrapper_kick_and_drift_array(input_xp, input_yp, input_denergy, input_dphi, input_rf1v, input_rf2v, input_phi0,
                                  input_deltaE0,
-- 
2.43.0


From aef7f754a095c2b4eda2dfd3490e4984b4b20af2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:29 +0000
Subject: [PATCH 02/18] fix: reconstruct projected onto the recreated profiles
 of the previous iteration

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 65188f7..350fcb2 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -8,6 +8,7 @@
  * Meant to be called by a Python/C++ wrapper.
  */
 
+#include <algorithm>
 #include <iostream>
 #include <iomanip>
 #include <stdexcept>
@@ -402,6 +403,7 @@ void reconstruct(real_t *weights,             // out
             if (verbose)
                 std::cout << std::setw(3) << iteration + 1 << std::endl;
 
+            std::fill_n(flat_rec, all_bins, (real_t) 0);
             project(flat_rec, flat_points, weights, npart, nprof);
             normalize(flat_rec, nprof, nbins);
 
@@ -421,6 +423,7 @@ void reconstruct(real_t *weights,             // out
         } //end for
 
         // Calculating final discrepancy
+        std::fill_n(flat_rec, all_bins, (real_t) 0);
         project(flat_rec, flat_points, weights, npart, nprof);
         normalize(flat_rec, nprof, nbins);
 
-- 
2.43.0


From b6fde5c0c36eacccfe92b28c3c9c919d6965d9fa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:23 +0000
Subject: [PATCH 03/18] fix: reconstruct_multi projected onto the recreated
 profiles of the previous iteration

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 350fcb2..432b2d9 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -501,6 +501,7 @@ void reconstruct_multi(real_t *weights,             // out
             if (verbose)
                 std::cout << std::setw(3) << iteration + 1 << std::endl;
 
+            std::fill_n(flat_rec, all_bins, (real_t) 0);
             project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
             normalize(flat_rec, nprof, nbins);
             find_difference_profile(diff_prof, flat_rec, flat_profiles, all_bins);
@@ -521,6 +522,7 @@ void reconstruct_multi(real_t *weights,             // out
         } //end for
 
         // Calculating final discrepancy
+        std::fill_n(flat_rec, all_bins, (real_t) 0);
         project_multi(flat_rec, flat_points, weights, centers, npart, nprof, ncenter);
         normalize(flat_rec, nprof, nbins);
 
-- 
2.43.0


From 6a5e52f893b41562fa519f8eab505e9a95e76bf4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:23 +0000
Subject: [PATCH 04/18] fix: reconstruct_multi clipped and summed only the
 weights of the first bunch

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 432b2d9..aa62120 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -489,9 +489,9 @@ void reconstruct_multi(real_t *weights,             // out
         create_flat_points(xpRound0, flat_points, npart, nprof, nbins);
         back_project_multi(weights, flat_points, flat_profiles, mask, centers, npart, nprof, ncenter);
 
-        clip(weights, npart, 0.0);
+        clip(weights, npart*ncenter, 0.0);
 
-        if (sum(weights, npart) <= 0.)
+        if (sum(weights, npart*ncenter) <= 0.)
             throw std::runtime_error("All of phase space got reduced to zeroes");
 
         if (verbose)
@@ -515,7 +515,7 @@ void reconstruct_multi(real_t *weights,             // out
 
             clip(weights, npart*ncenter, 0.0);
 
-            if (sum(weights, npart) <= 0.)
+            if (sum(weights, npart*ncenter) <= 0.)
                 throw std::runtime_error("All of phase space got reduced to zeroes");
 
             callback(iteration + 1, niter);
-- 
2.43.0


From 2ca0411263c6fe886c24526281918623da3e9255 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:23 +0000
Subject: [PATCH 05/18] fix: discrepancy_multi summed one profile only and
 shared its sum between bunches

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index aa62120..fa31bab 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -158,16 +158,15 @@ void discrepancy_multi(const real_t *diff_prof,   // inn
                          const int nbins,
                          const int ncenter) {
 
-    int all_bins = nprof * nbins;
-    real_t squared_sum = 0;
     #pragma omp parallel for
     for (int c = 0; c < ncenter; c++)
     {
-        for (int i = 0; i < all_bins; i++)
+        real_t squared_sum = 0;
+        for (int i = 0; i < nprof; i++)
         {
-            if (i < cutright[c] && i > cutleft[c])
+            for (int j = cutleft[c]; j < cutright[c]; j++)
             {
-                squared_sum += std::pow(diff_prof[i], 2.0);
+                squared_sum += std::pow(diff_prof[i * nbins + j], 2.0);
             }
         }
         disc[iteration * ncenter + c] = std::sqrt(squared_sum / (nprof * (cutright[c] - cutleft[c])));
-- 
2.43.0


From b9eeafcf2324a4a89037a79efb92c632d4f9d745 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:23 +0000
Subject: [PATCH 06/18] fix: data race on the bin index in reciprocal_particles
 and reciprocal_particles_multi

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index fa31bab..9c68a41 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -273,11 +273,10 @@ void reciprocal_particles(real_t *rparts,    // out
             rparts[i] = 1.0;
 
     // Creating reciprocal
-    int idx;
     #pragma omp parallel for
     for (int i = 0; i < nprof; i++)
         for (int j = 0; j < nbins; j++) {
-            idx = i * nbins + j;
+            int idx = i * nbins + j;
             rparts[idx] = (real_t) max_bin_val / rparts[idx];
         }
 }
@@ -304,11 +303,10 @@ void reciprocal_particles_multi(real_t *rparts,   // out
             rparts[i] = 1.0;
 
     // Creating reciprocal
-    int idx;
     #pragma omp parallel for collapse(2)
     for (int i = 0; i < nprof; i++)
         for (int j = 0; j < nbins; j++) {
-            idx = i * nbins + j;
+            int idx = i * nbins + j;
             rparts[idx] = (double) max_bin_val / rparts[idx];
         }
 }
-- 
2.43.0


From 90f18f6801952db2f20ae0270aad5fad630ac7e1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:23 +0000
Subject: [PATCH 07/18] fix: data races on the weights in back_project_multi
 and the mask in create_mask

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 9c68a41..35d359d 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -38,7 +38,7 @@ void back_project_multi(real_t *weights,                     // inn/out
                         const int npart,
                         const int nprof,
                         const int ncenter) {     // inn
-    #pragma omp parallel for collapse(3)
+    #pragma omp parallel for collapse(2)
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
@@ -335,16 +335,14 @@ void create_mask(const int *xpRound0,       //inn
                  const int nprof,
                  const int ncenter) {
 
-    int bin;
-
-    #pragma omp parallel for collapse(3)
+    #pragma omp parallel for collapse(2)
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
         {
             for (int j = 0; j < nprof; j++)
             {
-                bin = xpRound0[i * nprof + j] + centers[c];
+                const int bin = xpRound0[i * nprof + j] + centers[c];
                 if ((bin < cutleft[c]) || (bin > cutright[c])) {mask[i + c*npart] = false;}
             }
         }
-- 
2.43.0


From 145d5d45c20ec35dc3d1ad3261c6111bba7e26fe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:23 +0000
Subject: [PATCH 08/18] fix: data races between overlapping bunches in
 project_multi and count_particles_in_bin_multi

---
 longitudinal_tomography/cpp_routines/reconstruct.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/reconstruct.cpp b/longitudinal_tomography/cpp_routines/reconstruct.cpp
index 35d359d..f0992f1 100644
--- a/longitudinal_tomography/cpp_routines/reconstruct.cpp
+++ b/longitudinal_tomography/cpp_routines/reconstruct.cpp
@@ -73,7 +73,6 @@ void project_multi(real_t *flat_rec,                     // inn/out
                    const int nprof,
                    const int ncenter) {      // inn
 
-    #pragma omp parallel for
     for (int c = 0; c < ncenter; c++)
     {
         for (int i = 0; i < npart; i++)
@@ -241,7 +240,6 @@ void count_particles_in_bin_multi(real_t *rparts,
                                   const int ncenters) {
 
     int bin;
-    #pragma omp parallel for
     for (int c = 0; c < ncenters; c++) {
         for (int j = 0; j < npart; j++) {
             for (int i = 0; i < nprof; i++) {
-- 
2.43.0


From 12d9c1a15f8c723d6565d1be0425a533c3b4d2b1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:23 +0000
Subject: [PATCH 09/18] fix: make_phase_space wrote outside the image or in a
 wrong cell for out-of-range coordinates

---
 longitudinal_tomography/cpp_routines/data_treatment.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/longitudinal_tomography/cpp_routines/data_treatment.cpp b/longitudinal_tomography/cpp_routines/data_treatment.cpp
index 1e62b60..e9f7366 100644
--- a/longitudinal_tomography/cpp_routines/data_treatment.cpp
+++ b/longitudinal_tomography/cpp_routines/data_treatment.cpp
@@ -22,12 +22,13 @@ template <typename real_t>
 real_t *make_phase_space(const int *const xp, const int *const yp, const real_t *const weight, const int n_particles,
                          const int n_bins) {
     real_t *phase_space = new real_t[n_bins * n_bins]();
-    int n_bins2 = n_bins * n_bins;
 
     for (int i = 0; i < n_particles; i++) {
-        int index = yp[i] + xp[i] * n_bins;
-        if (index >= n_bins2)
+        if (xp[i] < 0 || xp[i] >= n_bins || yp[i] < 0 || yp[i] >= n_bins) {
+            delete[] phase_space;
             throw std::out_of_range("Index out of bounds");
+        }
+        int index = yp[i] + xp[i] * n_bins;
         phase_space[index] += weight[i];
     }
 
-- 
2.43.0


From 29bc2935454708c459351004097feff246ecc8cd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:23 +0000
Subject: [PATCH 10/18] fix: Tracking.track rejected the last profile as
 reconstruction profile

---
 longitudinal_tomography/tracking/tracking.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/longitudinal_tomography/tracking/tracking.py b/longitudinal_tomography/tracking/tracking.py
index 91dc3f7..ca93cdf 100644
--- a/longitudinal_tomography/tracking/tracking.py
+++ b/longitudinal_tomography/tracking/tracking.py
@@ -146,12 +146,13 @@ class Tracking(ParticleTracker):
                          ValueError, '|deltaturn| must be less than the'
                          + ' number of turns between profiles')
 
-        asrt.assert_less(machine.dturns*recprof + deltaturn,
-                         'reconstruction turn',
-                         machine.dturns*(machine.nprofiles-1), ValueError,
-                         'Reconstruction turn '
-                         + '(machine.dturns*recprof + deltaturn) must be less'
-                         + ' than the total number of measured turns.')
+        asrt.assert_less_or_equal(machine.dturns*recprof + deltaturn,
+                                  'reconstruction turn',
+                                  machine.dturns*(machine.nprofiles-1),
+                                  ValueError, 'Reconstruction turn '
+                                  + '(machine.dturns*recprof + deltaturn) '
+                                  + 'must not exceed the total number of '
+                                  + 'measured turns.')
 
         asrt.assert_greater_or_equal(machine.dturns*recprof + deltaturn,
                                      'reconstruction turn', 0, ValueError,
-- 
2.43.0


From d3e8c6341e5b326176f5307c9ebdcd6137241183 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:23 +0000
Subject: [PATCH 11/18] fix: NaN x-coordinates passed the image width checks

---
 longitudinal_tomography/tomography/__tomography.py | 2 +-
 longitudinal_tomography/tracking/particles.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tomography/__tomography.py b/longitudinal_tomography/tomography/__tomography.py
index 0dc3432..71daf85 100644
--- a/longitudinal_tomography/tomography/__tomography.py
+++ b/longitudinal_tomography/tomography/__tomography.py
@@ -177,7 +177,7 @@ class TomographyABC(ABC):
                       f'{value.shape[1]} profiles.'
                 raise expt.CoordinateImportError(msg)
 
-            if conf.any(value < 0) or conf.any(value >= self.nbins):
+            if not conf.all((value >= 0) & (value < self.nbins)):
                 msg = 'X coordinate of particles outside of image width'
                 raise expt.XPOutOfImageWidthError(msg)
 
diff --git a/longitudinal_tomography/tracking/particles.py b/longitudinal_tomography/tracking/particles.py
index c0233e6..93f30d6 100644
--- a/longitudinal_tomography/tracking/particles.py
+++ b/longitudinal_tomography/tracking/particles.py
@@ -264,7 +264,7 @@ def filter_lost(xp: np.ndarray, yp: np.ndarray, img_width: int) \
     nr_lost_pts = 0
     
     # Find all particles outside of image width
-    invalid_pts = conf.argwhere(conf.logical_or(xp >= img_width, xp < 0))
+    invalid_pts = conf.argwhere(~conf.logical_and(xp >= 0, xp < img_width))
 
     if conf.size(invalid_pts) > 0:
         # Mark particle as invalid only once
-- 
2.43.0


From b3c1c58f2d1ff7e30cfe67393d8616e05429d0f8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:20 +0000
Subject: [PATCH 12/18] fix: multi-bunch reciprocal counted the transposed
 coordinates

---
 longitudinal_tomography/tomography/__tomography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tomography/__tomography.py b/longitudinal_tomography/tomography/__tomography.py
index 71daf85..b06c7f9 100644
--- a/longitudinal_tomography/tomography/__tomography.py
+++ b/longitudinal_tomography/tomography/__tomography.py
@@ -263,7 +263,7 @@ class TomographyABC(ABC):
         # for c in centers:
         #     ppb = self._count_particles_in_bins(
         #         ppb, self.nprofs, self.xp+int(np.floor(c)), self.nparts)
-        ppb = libtomo.count_particles_in_bins_multi(ppb, self.xp.T, centers,
+        ppb = libtomo.count_particles_in_bins_multi(ppb, self.xp, centers,
                                                     self.nprofs, self.nparts,
                                                     self.nbins, len(centers))
 
-- 
2.43.0


From 3571358a0edf8c58737b614478d69457846f5aaf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:51 +0000
Subject: [PATCH 13/18] fix: phase_low evaluates voltages and phi12 at the turn
 asked for

It indexed the turn-by-turn voltages with the number of the reference frame,
so the function and the derivative handed to the root finder belonged to
different turns whenever the voltages change along the ramp.
---
 longitudinal_tomography/utils/physics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/longitudinal_tomography/utils/physics.py b/longitudinal_tomography/utils/physics.py
index b8a6a89..89ec7a3 100644
--- a/longitudinal_tomography/utils/physics.py
+++ b/longitudinal_tomography/utils/physics.py
@@ -486,15 +486,15 @@ def phase_low(phase: float, bunch_phaselength: float, vrf1: np.ndarray,
     rf_turn: int
         Which turn to do the calculation at.
     ref_frame: int
-        Frame to which machine parameters are referenced.
+        Not used, the calculation is done at rf_turn.
     """
 
-    phi12 = phi12[ref_frame] if isinstance(phi12, np.ndarray) \
+    phi12 = phi12[rf_turn] if isinstance(phi12, np.ndarray) \
         or isinstance(phi12, Sequence) else phi12
 
-    v1 = vrf1[ref_frame] * (np.cos(phase + bunch_phaselength) - np.cos(phase))
+    v1 = vrf1[rf_turn] * (np.cos(phase + bunch_phaselength) - np.cos(phase))
 
-    v2 = (vrf2[ref_frame]
+    v2 = (vrf2[rf_turn]
           * (np.cos(h_ratio
                     * (phase + bunch_phaselength - phi12))
              - np.cos(h_ratio * (phase - phi12)))
-- 
2.43.0


From 4f9de2ddfc11d65c237bcb7f2789fa75c76165fd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:11 +0000
Subject: [PATCH 14/18] fix: rebinning an integer waterfall with a remainder
 raised a casting error

---
 longitudinal_tomography/data/pre_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/data/pre_process.py b/longitudinal_tomography/data/pre_process.py
index 1450080..3bbf62d 100644
--- a/longitudinal_tomography/data/pre_process.py
+++ b/longitudinal_tomography/data/pre_process.py
@@ -414,6 +414,6 @@ def _rebin_last(data: np.ndarray, rbn: int) -> np.ndarray:
     i0 = (int(nbins / rbn) - 1) * rbn
     ans = np.copy(data[:, i0:])
     ans = np.sum(ans, axis=1)
-    ans[:] *= rbn / (nbins - i0)
+    ans = ans * (rbn / (nbins - i0))
     ans = ans.reshape((nprofs, 1))
     return ans
-- 
2.43.0


From e6e36b71323d115cf56ad0c3616df1427d8e9739 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:28 +0000
Subject: [PATCH 15/18] fix: ProgramsMachine could not be given phi12

A number failed when subscripted by turn, an array when its size was called, and the checks on the shape of an array compared the wrong lengths.
---
 longitudinal_tomography/tracking/programs_machine.py | 8 ++++----
 longitudinal_tomography/utils/physics.py             | 6 ++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/longitudinal_tomography/tracking/programs_machine.py b/longitudinal_tomography/tracking/programs_machine.py
index a1075ed..4ea3b5f 100644
--- a/longitudinal_tomography/tracking/programs_machine.py
+++ b/longitudinal_tomography/tracking/programs_machine.py
@@ -133,11 +133,11 @@ class ProgramsMachine(MachineABC):
             )
         elif self.process_phase == 0:
             if isinstance(self.phi12, np.ndarray):
-                if self.phi12.size() == 1:
-                    pass
-                elif len(self.phi12.shape) == 2 and self.phi12.shape[1] == 2:
+                if self.phi12.size == 1:
+                    self.phi12 = self.phi12.item()
+                elif len(self.phi12.shape) == 2 and self.phi12.shape[0] == 2:
                     self.phi12 = np.interp(momentum_time, *self.phi12)
-                elif len(self.phi12) == len(self.voltage_raw):
+                elif self.phi12.shape == self.voltage_raw[0].shape:
                     self.phi12 = np.interp(momentum_time, self.voltage_raw[0],
                                            self.phi12)
                 else:
diff --git a/longitudinal_tomography/utils/physics.py b/longitudinal_tomography/utils/physics.py
index 89ec7a3..0a3020e 100644
--- a/longitudinal_tomography/utils/physics.py
+++ b/longitudinal_tomography/utils/physics.py
@@ -206,7 +206,8 @@ def rf_voltage_pmch(phi: float, machine: 'ProgramsMachine', rf_turn: int) \
     v1 = machine.vrf1_at_turn[rf_turn]
     v2 = machine.vrf2_at_turn[rf_turn]
     bdot = machine.bdot[rf_turn]
-    phi12 = machine.phi12[rf_turn]
+    phi12 = machine.phi12[rf_turn] if isinstance(machine.phi12, np.ndarray) \
+        else machine.phi12
 
     return rf_voltage(phi, v1, v2, bdot, machine.h_ratio,
                       phi12, machine.mean_orbit_rad,
@@ -260,7 +261,8 @@ def drf_voltage_pmch(phi: float, machine: 'ProgramsMachine', rf_turn: int) \
     """Objective function used in phi0 Newton optimization"""
     v1 = machine.vrf1_at_turn[rf_turn]
     v2 = machine.vrf2_at_turn[rf_turn]
-    phi12 = machine.phi12[rf_turn]
+    phi12 = machine.phi12[rf_turn] if isinstance(machine.phi12, np.ndarray) \
+        else machine.phi12
     return (v1 * np.cos(phi) + machine.h_ratio * v2 * np.cos(machine.h_ratio
             * (phi - phi12)))
 
-- 
2.43.0


From 8bf0d8d9f085d1eb6d22c3f3b5466a2414161522 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:34 +0000
Subject: [PATCH 16/18] fix: the phase limit of the full image could lie one
 bin outside of it

Dividing the default upper limit (bins times bin width) by the bin width can
give slightly more than the number of bins; rounded up, the last column was
the one after the image and creating the particles raised an IndexError.
---
 longitudinal_tomography/tracking/phase_space_info.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tracking/phase_space_info.py b/longitudinal_tomography/tracking/phase_space_info.py
index 58f5093..f2f45ff 100644
--- a/longitudinal_tomography/tracking/phase_space_info.py
+++ b/longitudinal_tomography/tracking/phase_space_info.py
@@ -283,7 +283,9 @@ class PhaseSpaceInfo:
             -> Tuple[np.ndarray, np.ndarray, int, int]:
 
         # Maximum and minimum bin, as specified by user.
-        max_dtbin = int(np.ceil(self.machine.max_dt / self.machine.dtbin))
+        # The limit can be at most at the end of the profile.
+        max_dtbin = min(int(np.ceil(self.machine.max_dt / self.machine.dtbin)),
+                        self.machine.nbins)
         min_dtbin = int(self.machine.min_dt / self.machine.dtbin)
 
         if min_dtbin > imin or self.machine.full_pp_flag:
-- 
2.43.0


From 6b8230e45b2a9ca55fcc95d5035666ea8a168111 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:32 +0000
Subject: [PATCH 17/18] fix: the column starting at the upper end of the time
 window was kept

The limit found was cut only when it was above the first bin after the window,
not when it was that bin.
---
 longitudinal_tomography/tracking/phase_space_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/longitudinal_tomography/tracking/phase_space_info.py b/longitudinal_tomography/tracking/phase_space_info.py
index f2f45ff..9f03cd3 100644
--- a/longitudinal_tomography/tracking/phase_space_info.py
+++ b/longitudinal_tomography/tracking/phase_space_info.py
@@ -293,7 +293,7 @@ class PhaseSpaceInfo:
             jmax[:min_dtbin] = np.floor(self.machine.synch_part_y)
             jmin = np.ceil(2.0 * self.machine.synch_part_y - jmax + 0.5)
 
-        if max_dtbin < imax or self.machine.full_pp_flag:
+        if max_dtbin <= imax or self.machine.full_pp_flag:
             imax = max_dtbin - 1  # -1 in order to count from idx 0
             jmax[max_dtbin:
                  self.machine.nbins] = np.floor(self.machine.synch_part_y)
-- 
2.43.0


From 9d84db5ac539839a692c7cae193fb01d1f9d16da Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:20 +0000
Subject: [PATCH 18/18] fix: a time window moved the energy limits of the
 columns inside of it

Cutting the reconstruction area to the window computed the lower energy limits
of all columns again, one bin higher than before, so that the first column
could end up with crossed limits and was rejected (EnergyLimitsError).
---
 longitudinal_tomography/tracking/phase_space_info.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/longitudinal_tomography/tracking/phase_space_info.py b/longitudinal_tomography/tracking/phase_space_info.py
index 9f03cd3..1dc7346 100644
--- a/longitudinal_tomography/tracking/phase_space_info.py
+++ b/longitudinal_tomography/tracking/phase_space_info.py
@@ -291,13 +291,13 @@ class PhaseSpaceInfo:
         if min_dtbin > imin or self.machine.full_pp_flag:
             imin = min_dtbin
             jmax[:min_dtbin] = np.floor(self.machine.synch_part_y)
-            jmin = np.ceil(2.0 * self.machine.synch_part_y - jmax + 0.5)
+            jmin = self._find_min_binned_energy(jmax)
 
         if max_dtbin <= imax or self.machine.full_pp_flag:
             imax = max_dtbin - 1  # -1 in order to count from idx 0
             jmax[max_dtbin:
                  self.machine.nbins] = np.floor(self.machine.synch_part_y)
-            jmin = np.ceil(2.0 * self.machine.synch_part_y - jmax + 0.5)
+            jmin = self._find_min_binned_energy(jmax)
 
         return jmin, jmax, imin, imax
 
-- 
2.43.0

