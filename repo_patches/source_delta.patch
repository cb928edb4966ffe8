From 9098535fee3ab5e68310e01240a9886974b24005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 01/16] fix: KLDivergence integrand is zero, not nan, where the
 density is zero

---
 bfit/measure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/measure.py b/bfit/measure.py
index 776ed7c..0f45663 100644
--- a/bfit/measure.py
+++ b/bfit/measure.py
@@ -222,6 +222,8 @@ class KLDivergence(Measure):
         # Add ignoring division by zero and multiplying by np.nan
         with np.errstate(divide='ignore', invalid="ignore"):
             value = density * np.log(ratio)
+        # f ln(f / g) vanishes wherever the density is zero (0 * ln(0) = 0)
+        value = np.where(density == 0.0, 0.0, value)
         # compute derivative
         if deriv:
             return value, -ratio
-- 
2.43.0


From b264ed09aa281f8f5f41c6ef075115ab1b9c9e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 02/16] fix: Tsallis integrand with alpha below one is finite
 at masked and zero-density points

---
 bfit/measure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfit/measure.py b/bfit/measure.py
index 0f45663..0677470 100644
--- a/bfit/measure.py
+++ b/bfit/measure.py
@@ -344,7 +344,10 @@ class TsallisDivergence(Measure):
         # compute ratio & replace masked values by 1.0
         ratio = density / np.ma.masked_less_equal(model, self.mask_value)
         ratio = np.ma.filled(ratio, fill_value=0.0)
-        value = density * (np.power(ratio, self.alpha - 1.0) - 1.0)
+        # (f / g)^(alpha - 1) vanishes at masked points & zero density, also when alpha < 1
+        with np.errstate(divide="ignore"):
+            power = np.where(ratio == 0.0, 0.0, np.power(ratio, self.alpha - 1.0))
+        value = density * (power - 1.0)
         integrand = value / (self.alpha - 1.0)
         if deriv:
             return integrand, -np.power(ratio, self.alpha)
-- 
2.43.0


From ee06720f7b0797b1ce15b07fe14adc7ee21c2bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 03/16] fix: CubicGrid.from_molecule uses the principal axes,
 not their transpose, as grid axes

---
 bfit/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfit/grid.py b/bfit/grid.py
index 15df63c..084ec2f 100644
--- a/bfit/grid.py
+++ b/bfit/grid.py
@@ -332,7 +332,8 @@ class CubicGrid:
             _, v = np.linalg.eigh(itensor)
             # Project the coordinates of atoms centered at the center of mass to the eigenvectors
             new_coordinates = np.dot((atcoords - com), v)
-            axes = spacing * v
+            # The axes of the grid are rows, whereas the eigenvectors are columns
+            axes = spacing * v.T
         else:
             # Just use the original coordinates
             new_coordinates = atcoords
-- 
2.43.0


From 68a74991d5024bc77c534d71c9dd25a44ecea666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 04/16] fix: CubicGrid.from_molecule centres the grid on the
 extent of the molecule

---
 bfit/grid.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bfit/grid.py b/bfit/grid.py
index 084ec2f..97de1c7 100644
--- a/bfit/grid.py
+++ b/bfit/grid.py
@@ -335,8 +335,8 @@ class CubicGrid:
             # The axes of the grid are rows, whereas the eigenvectors are columns
             axes = spacing * v.T
         else:
-            # Just use the original coordinates
-            new_coordinates = atcoords
+            # Just use the original coordinates centered at the center of mass
+            new_coordinates = atcoords - com
             # Compute the unit vectors of the cubic grid's coordinate system
             axes = np.diag([spacing, spacing, spacing])
 
@@ -348,9 +348,10 @@ class CubicGrid:
         # Add one to include the upper-bound as well.
         shape = np.ceil(shape)
         shape = np.array(shape, int)
-        # Compute origin by taking the center of mass then subtracting the half of the number
-        #    of points in the direction of the axes.
-        origin = com - np.dot((0.5 * shape), axes)
+        # Compute origin by taking the middle of the molecule (relative to the center of mass) then
+        #    subtracting the half of the number of points in the direction of the axes.
+        middle = 0.5 * (max_coordinate + min_coordinate) / spacing
+        origin = com + np.dot(middle - 0.5 * shape, axes)
         return cls(origin, axes, shape)
 
     def _calculate_volume(self, shape):
-- 
2.43.0


From 1339907adf914fd73b0cc0e8a69aec840975b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 05/16] fix: core/valence densities use the highest orbital
 energy as e_homo, not the last listed one

---
 bfit/density.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bfit/density.py b/bfit/density.py
index 564c9e9..4de0873 100644
--- a/bfit/density.py
+++ b/bfit/density.py
@@ -349,10 +349,10 @@ class SlaterAtoms:
         # compute orbital occupation numbers
         orb_occs = self.orbitals_occupation
         if mode == "valence":
-            orb_homo = self.orbitals_energy[len(self.orbitals_occupation) - 1]
+            orb_homo = np.max(self.orbitals_energy)
             orb_occs = orb_occs * np.exp(-(self.orbitals_energy - orb_homo)**2)
         elif mode == "core":
-            orb_homo = self.orbitals_energy[len(self.orbitals_occupation) - 1]
+            orb_homo = np.max(self.orbitals_energy)
             orb_occs = orb_occs * (1. - np.exp(-(self.orbitals_energy - orb_homo)**2))
         # compute density
         dens = np.dot(self.phi_matrix(points)**2, orb_occs).ravel() / (4 * np.pi)
-- 
2.43.0


From 31b423efd9c6e897062726da12d09c7c707b71f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 06/16] fix: trust-constr normalisation constraint keeps the
 group that is not optimised fixed

---
 bfit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index 9b061ba..14260ce 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -592,7 +592,8 @@ class ScipyFit(_BaseFit):
             if self.method == "slsqp":
                 constraints = [{"fun": self.const_norm, "type": "eq", "args": args}]
             elif self.method == "trust-constr":
-                constraints = [NonlinearConstraint(self.const_norm, 0.0, 0.0, jac="3-point")]
+                constraints = [NonlinearConstraint(lambda x: self.const_norm(x, *args), 0.0, 0.0,
+                                                   jac="3-point")]
         # set optimization options
         if self.method == "slsqp":
             options = {"ftol": tol, "maxiter": maxiter, "disp": disp}
-- 
2.43.0


From c87be955b4d9ec667f8c7ab4a550bfbbb15e8d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 07/16] fix: default measure of ScipyFit is an instance, as the
 constructor requires

---
 bfit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index 14260ce..7cdd917 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -467,7 +467,7 @@ class ScipyFit(_BaseFit):
 
     """
 
-    def __init__(self, grid, density, model, measure=KLDivergence, method="SLSQP", weights=None,
+    def __init__(self, grid, density, model, measure=KLDivergence(), method="SLSQP", weights=None,
                  integral_dens=None, spherical=False, mask_value=1e-18):
         r"""
         Construct the ScipyFit object.
-- 
2.43.0


From 862cfc8d4b84f50fc06a8106b233722f267f2d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:44 +0000
Subject: [PATCH 08/16] fix: a fixed-point run whose parameters or objective
 became NaN is not a success

---
 bfit/fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/fit.py b/bfit/fit.py
index 7cdd917..ece2303 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -420,6 +420,8 @@ class KLDivergenceFPI(_BaseFit):
         # check whether convergence is reached.
         if (maxiter == niter and diff_divergence > d_threshold) or np.isnan(diff_divergence):
             success = False
+        elif np.any(np.isnan(new_cs)) or np.any(np.isnan(new_es)) or np.any(np.isnan(fun)):
+            success = False
         else:
             success = True
 
-- 
2.43.0


From 9d69bb2cebd3fd6f1a3f8c51f12b8ad91f6894c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 09/16] fix: merging redundant functions keeps the total
 coefficient for chains of close exponents

---
 bfit/greedy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index cf3a279..e80fd5d 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -65,14 +65,18 @@ def remove_redundancies(coeffs, fparams, eps=1e-3):
 
     # Indexes where they're the same.
     indexes_same = []
+    merged = set()  # Indexes that are already merged into an earlier one.
     for i, alpha in enumerate(fparams):
         similar_indexes = []
+        if i in merged:
+            continue
         for j in range(i + 1, len(fparams)):
-            if j not in similar_indexes:
+            if j not in merged:
                 if np.abs(alpha - fparams[j]) < eps:
                     if i not in similar_indexes:
                         similar_indexes.append(i)
                     similar_indexes.append(j)
+                    merged.add(j)
         if len(similar_indexes) != 0:
             indexes_same.append(similar_indexes)
 
-- 
2.43.0


From 66f7df36a0c55b0a4de5acb4a79c0ca0d9084729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 10/16] fix: greedy search rolls back when the objective of the
 enlarged basis is not a number

---
 bfit/greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index e80fd5d..d6e4bc8 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -579,7 +579,7 @@ class GreedyStrategy(metaclass=ABCMeta):
             p_coeffs_new, _ = remove_redundancies(p_coeffs, p_exps)
             found_s_redundances = self.num_s != len(s_coeffs_new)
             found_p_redundancies = self.num_p != len(p_coeffs_new)
-            if found_s_redundances or found_p_redundancies or opt_lvalue > best_gval:
+            if found_s_redundances or found_p_redundancies or not opt_lvalue <= best_gval:
                 # Move back one function and try a different factor to generate
                 #    better initial guesses.
                 numb_redum += 1  # Update the termination criteria
-- 
2.43.0


From 3aaaf28cbb3251b7f3b1e535776b77534b33c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 11/16] fix: every greedy run starts afresh from a single
 s-type function

---
 bfit/greedy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index d6e4bc8..b93bacc 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -507,6 +507,8 @@ class GreedyStrategy(metaclass=ABCMeta):
             raise ValueError(f"Scale {factor} should be positive.")
 
         # Initialize all the variables
+        self.num_s, self.num_p, self.err_arr = 1, 0, []
+        self.model.change_numb_s_and_numb_p(self.num_s, self.num_p)
         gparams = self.get_best_one_function_solution()
         self.store_errors(gparams)
         exit_info = None  # String containing information about how it exits.
-- 
2.43.0


From 4f83a262838b1b2503a98153424b8b73ea56f13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 12/16] fix: greedy search with pick-two never exceeds the
 maximum number of functions

---
 bfit/greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index b93bacc..178348e 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -523,7 +523,7 @@ class GreedyStrategy(metaclass=ABCMeta):
             template_iters = self._print_header()
 
         success = True
-        while numb_funcs <= max_numb_funcs - 1 and numb_redum < 5 and \
+        while numb_funcs + self.numb_func_increase <= max_numb_funcs and numb_redum < 5 and \
                 np.abs(best_gval - prev_gval) >= d_threshold:
             s_coeffs, s_exps, p_coeffs, p_exps = self._split_parameters(gparams)
 
-- 
2.43.0


From 51f741268294e859e91df58551f82f73196564fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 13/16] fix: greedy search selects the best candidate whatever
 the size of the objective

---
 bfit/greedy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 178348e..5b2405e 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -387,7 +387,7 @@ class GreedyStrategy(metaclass=ABCMeta):
 
         """
         # Initialize the values being returned.
-        best_local_value = 1e10
+        best_local_value = np.inf
         best_local_param = None
         is_s_optimal = False
         for i in range(0, num_s_choices + num_p_choices):
@@ -410,7 +410,7 @@ class GreedyStrategy(metaclass=ABCMeta):
             local_param = self.get_optimization_routine(param, local=True)
             cost_func = self.eval_obj_function(local_param)
             # If it is the best found, then return it.
-            if cost_func < best_local_value:
+            if best_local_param is None or np.isnan(best_local_value) or cost_func < best_local_value:
                 best_local_value = self.eval_obj_function(local_param)
                 best_local_param = local_param
                 is_s_optimal = bool(i < num_s_choices)
-- 
2.43.0


From 959766030b0f8fddd03698051031eb39937635a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 14/16] fix: measures reject a non-array model with ValueError
 whatever the density is

---
 bfit/measure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bfit/measure.py b/bfit/measure.py
index 0677470..7a65cc6 100644
--- a/bfit/measure.py
+++ b/bfit/measure.py
@@ -98,7 +98,7 @@ class SquaredDifference(Measure):
         """
         if not isinstance(model, np.ndarray):
             raise ValueError(
-                f"Argument model should be {density.shape} array."
+                f"Argument model {type(model)} should be a numpy array."
             )
         if not isinstance(density, np.ndarray) or density.ndim != 1:
             raise ValueError("Arguments density should be a 1D numpy array.")
@@ -198,7 +198,7 @@ class KLDivergence(Measure):
         # check model density
         if not isinstance(model, np.ndarray):
             raise ValueError(
-                f"Argument model should be {density.shape} array."
+                f"Argument model {type(model)} should be a numpy array."
             )
         if not isinstance(density, np.ndarray) or density.ndim != 1:
             raise ValueError("Arguments density should be a 1D numpy array.")
@@ -331,7 +331,7 @@ class TsallisDivergence(Measure):
         # check model density
         if not isinstance(model, np.ndarray):
             raise ValueError(
-                f"Argument model should be {density.shape} array."
+                f"Argument model {type(model)} should be a numpy array."
             )
         if not isinstance(density, np.ndarray) or density.ndim != 1:
             raise ValueError("Arguments density should be a 1D numpy array.")
-- 
2.43.0


From 0066b876a969f09775cd83aad88df0c2ca9aa0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 15/16] fix: one-dimensional points with a many-dimensional
 centre are rejected, not mixed elementwise

---
 bfit/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/model.py b/bfit/model.py
index 9928c12..ce0d35c 100644
--- a/bfit/model.py
+++ b/bfit/model.py
@@ -81,6 +81,8 @@ class AtomicGaussianDensity:
                 raise ValueError("Argument center should be a 1D numpy array.")
             if points.ndim > 1 and points.shape[1] != center.size:
                 raise ValueError("Points & center should have the same number of columns.")
+            if points.ndim == 1 and center.size != 1:
+                raise ValueError("Center of one-dimensional points should have a single coordinate.")
         elif points.ndim > 1:
             center = np.array([0.] * points.shape[1])
         else:
-- 
2.43.0


From e5ef617d7250be61884558da4905cc52a90b5614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:31 +0000
Subject: [PATCH 16/16] fix: greedy guesses truncated the new exponents and
 fill value for integer arrays

---
 bfit/greedy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 5b2405e..f4a0a39 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -125,6 +125,8 @@ def get_next_choices(factor, coeffs, fparams, coeff_val=100.):
         List of the next possible initial guesses for :math:`(n+1)` basis-functions,
         coefficients are listed first, then exponents.
     """
+    # integer arrays would truncate the inserted values
+    coeffs, fparams = 1.0 * coeffs, 1.0 * fparams
     size = fparams.shape[0]
     all_choices = []
     for index, exp in np.ndenumerate(fparams):
@@ -199,6 +201,8 @@ def get_two_next_choices(factor, coeffs, fparams, coeff_val=100.):
                 all_choices_of_coeffs.append(np.append(coeffs, np.array([coeff_val])))
         return all_choices_of_coeffs, all_choices_of_exponents
 
+    # integer arrays would truncate the inserted values
+    coeffs, fparams = 1.0 * coeffs, 1.0 * fparams
     size = len(fparams)
     choices_coeff = []
     choices_fparams = []
-- 
2.43.0

