From 0ab415b92346b71b524d9f16efe0a5c6a7551608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 01/33] fix: CustomPrior.perturb_value used an unset
 perturb_std outside births

---
 src/bayesbay/prior/_prior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bayesbay/prior/_prior.py b/src/bayesbay/prior/_prior.py
index 57ef5ad..7a73295 100755
--- a/src/bayesbay/prior/_prior.py
+++ b/src/bayesbay/prior/_prior.py
@@ -969,6 +969,8 @@ class CustomPrior(Prior):
         """
         if is_birth:
             perturb_std = self.get_perturb_std_birth(position)
+        else:
+            perturb_std = self.get_perturb_std(position)
         random_deviate = random.normalvariate(0, perturb_std)
         new_value = value + random_deviate
         ratio = self.log_prior(new_value, position) - self.log_prior(value, position)
-- 
2.43.0


From dd2bd589100d9e8c6059c4c59f997041107cafa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 02/33] fix: CustomPrior.initialize returned one value per
 coordinate in 2D, and truncated to the dtype of positions

---
 src/bayesbay/prior/_prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/prior/_prior.py b/src/bayesbay/prior/_prior.py
index 7a73295..b86eef8 100755
--- a/src/bayesbay/prior/_prior.py
+++ b/src/bayesbay/prior/_prior.py
@@ -920,7 +920,7 @@ class CustomPrior(Prior):
         return self._sample(position) 
     
     def initialize(self, positions: np.ndarray = None) -> np.ndarray:
-        result = np.empty_like(positions)
+        result = np.empty(len(positions))
         for i, position in enumerate(positions):
             result[i] = self._sample(position)
         return result
-- 
2.43.0


From 6c85a2b3f222b8f592a0574e5bfb1053020a9a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 03/33] fix: initialize Gaussian and Laplace priors depending
 on a 2D position

---
 src/bayesbay/prior/_prior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bayesbay/prior/_prior.py b/src/bayesbay/prior/_prior.py
index b86eef8..111cdc3 100755
--- a/src/bayesbay/prior/_prior.py
+++ b/src/bayesbay/prior/_prior.py
@@ -1005,7 +1005,7 @@ class CustomPrior(Prior):
 def _interpolate_linear_nd(variable_name, interpolator):
     def func(x):
         y_interp = interpolator(x)
-        if np.isnan(y_interp):
+        if np.isnan(y_interp).any():
             raise OutOfDomainException(variable_name, x)
-        return y_interp.item()
+        return y_interp.item() if y_interp.size == 1 else y_interp
     return func
-- 
2.43.0


From c88252128c7d8f3ef1e6cf58a8677e72610675b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 04/33] fix: Voronoi site moves broke detailed balance near the
 domain boundary

---
 src/bayesbay/discretization/_voronoi.py | 48 +++++++++++++------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/bayesbay/discretization/_voronoi.py b/src/bayesbay/discretization/_voronoi.py
index c7a8467..7c2d1a5 100644
--- a/src/bayesbay/discretization/_voronoi.py
+++ b/src/bayesbay/discretization/_voronoi.py
@@ -190,21 +190,21 @@ class Voronoi(Discretization):
         Returns
         -------
         Union[Number, np.ndarray]
-            perturbed Voronoi site position
+            perturbed Voronoi site position, or None if it lies outside the domain
         """
-        while True:
-            if self.spatial_dimensions == 1:
-                random_deviate = random.normalvariate(0, self.perturb_std)
-                new_site = site + random_deviate
-                if new_site >= self.vmin and new_site <= self.vmax:
-                    return new_site
-            else:
-                random_deviate = np.random.normal(
-                    0, self.perturb_std, self.spatial_dimensions
-                )
-                new_site = site + random_deviate
-                if all((new_site >= self.vmin) & (new_site <= self.vmax)):
-                    return new_site
+        if self.spatial_dimensions == 1:
+            random_deviate = random.normalvariate(0, self.perturb_std)
+            new_site = site + random_deviate
+            if new_site >= self.vmin and new_site <= self.vmax:
+                return new_site
+        else:
+            random_deviate = np.random.normal(
+                0, self.perturb_std, self.spatial_dimensions
+            )
+            new_site = site + random_deviate
+            if all((new_site >= self.vmin) & (new_site <= self.vmax)):
+                return new_site
+        return None
 
     def perturb_value(
         self, old_ps_state: ParameterSpaceState, isite: int
@@ -234,6 +234,8 @@ class Voronoi(Discretization):
         old_sites = old_ps_state["discretization"]
         old_site = old_sites[isite]
         new_site = self._perturb_site(old_sites[isite])
+        if new_site is None:    # redrawing would make the proposal asymmetric
+            return old_ps_state, -math.inf
         new_sites = old_sites.copy()
         new_sites[isite] = new_site
         if self.spatial_dimensions == 1:
@@ -1395,18 +1397,18 @@ class Voronoi2D(Voronoi):
         Returns
         -------
         Union[Number, np.ndarray]
-            perturbed Voronoi site position
+            perturbed Voronoi site position, or None if it lies outside the domain
         """
         if self.polygon is None:
             return super()._perturb_site(site)
-        while True:
-            random_deviate = np.random.normal(
-                0, self.perturb_std, self.spatial_dimensions
-            )
-            new_site = site + random_deviate
-            point = shapely.geometry.Point(new_site)
-            if self.polygon.contains(point):
-                return new_site
+        random_deviate = np.random.normal(
+            0, self.perturb_std, self.spatial_dimensions
+        )
+        new_site = site + random_deviate
+        point = shapely.geometry.Point(new_site)
+        if self.polygon.contains(point):
+            return new_site
+        return None
 
     def perturb_value(self, old_ps_state: ParameterSpaceState, isite: int):
         new_ps_state, log_prior_ratio = super().perturb_value(old_ps_state, isite)
-- 
2.43.0


From c82778a6d388f001622c9eda9328c60328c42ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 05/33] fix: data noise moves broke detailed balance near the
 noise bounds

---
 src/bayesbay/perturbations/_data_noise.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/bayesbay/perturbations/_data_noise.py b/src/bayesbay/perturbations/_data_noise.py
index 732ebbe..88bafe8 100644
--- a/src/bayesbay/perturbations/_data_noise.py
+++ b/src/bayesbay/perturbations/_data_noise.py
@@ -1,5 +1,6 @@
 from numbers import Number
-from typing import Tuple, List
+from typing import Tuple, List, Union
+import math
 import random
 
 from .._state import State, DataNoiseState
@@ -29,7 +30,8 @@ class NoisePerturbation(Perturbation):
             \underbrace{\lvert \mathbf{J} \rvert}_{\begin{array}{c} \text{Jacobian} \\ \text{determinant} \end{array}},
 
         which in this case equals zero since a uniform probability distribution is
-        inherently assumed for the noise properties.
+        inherently assumed for the noise properties (or minus infinity if the perturbed
+        noise is out of bounds).
 
         Parameters
         ----------
@@ -50,6 +52,8 @@ class NoisePerturbation(Perturbation):
         for target in self.targets:
             old_data_noise_state = state[target.name]
             new_data_noise_state = self._perturb_target(target, old_data_noise_state)
+            if new_data_noise_state is None:    # out of bounds
+                return state, -math.inf
             new_data_noise_all[target.name] = new_data_noise_state
         new_state = state.copy(keep_dpred=True)
         new_state.param_values.update(new_data_noise_all)
@@ -57,7 +61,7 @@ class NoisePerturbation(Perturbation):
 
     def _perturb_target(
         self, target: Target, data_noise_state: DataNoiseState
-    ) -> DataNoiseState:
+    ) -> Union[DataNoiseState, None]:
         to_be_perturbed = ["std"]
         if target.noise_is_correlated:
             to_be_perturbed.append("correlation")
@@ -67,12 +71,10 @@ class NoisePerturbation(Perturbation):
             vmax = getattr(target, f"{p}_max")
             perturb_std = getattr(target, f"{p}_perturb_std")
             old_value = getattr(data_noise_state, p)
-            while True:
-                random_deviate = random.normalvariate(0, perturb_std)
-                new_value = old_value + random_deviate
-                if new_value < vmin or new_value > vmax:
-                    continue
-                break
+            random_deviate = random.normalvariate(0, perturb_std)
+            new_value = old_value + random_deviate
+            if new_value < vmin or new_value > vmax:
+                return None     # redrawing would make the proposal asymmetric
             new_values[p] = new_value
         return DataNoiseState(**new_values)
 
-- 
2.43.0


From 616c6f43a22841d0a9788201edc1cb70e69d63f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 06/33] fix: birth from neighbour failed with a nested
 ParameterSpace

---
 src/bayesbay/discretization/_discretization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/discretization/_discretization.py b/src/bayesbay/discretization/_discretization.py
index 4a3caec..89aec4e 100644
--- a/src/bayesbay/discretization/_discretization.py
+++ b/src/bayesbay/discretization/_discretization.py
@@ -367,7 +367,7 @@ class Discretization(Prior, ParameterSpace):
                 ) ** 2 / (2 * _perturb_std**2)
                 log_prob_ratio += log_prior_ratio + log_proposal_ratio
             elif isinstance(param, ParameterSpace):     # birth from prior
-                new_value, _ = param.sample()
+                new_value = param.sample()
                 new_born_values[param_name] = new_value
                 # log_prob_ratio += 0
             else:
-- 
2.43.0


From bdcd40f2a1f44e55b8dc4c31fbc2852e3d8e2ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 07/33] fix: Voronoi2D states sampled at a birth lacked the
 kd-tree

---
 src/bayesbay/discretization/_voronoi.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bayesbay/discretization/_voronoi.py b/src/bayesbay/discretization/_voronoi.py
index 7c2d1a5..940ee1a 100644
--- a/src/bayesbay/discretization/_voronoi.py
+++ b/src/bayesbay/discretization/_voronoi.py
@@ -1378,6 +1378,12 @@ class Voronoi2D(Voronoi):
             return self._add_kdtree_to_ps_state(ps_state)
         return ps_state
 
+    def sample_discretization(self) -> ParameterSpaceState:
+        ps_state = super().sample_discretization()
+        if self.compute_kdtree:
+            return self._add_kdtree_to_ps_state(ps_state)
+        return ps_state
+
     def _add_kdtree_to_ps_state(self, ps_state: ParameterSpaceState):
         voronoi_sites = ps_state.get_param_values("discretization")
         kdtree = scipy.spatial.KDTree(voronoi_sites)
-- 
2.43.0


From 8c1ab61af1a426e4ce09bd14e0091918dff57bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 08/33] fix: attribute access to perturbed values returned
 those before the perturbation

---
 src/bayesbay/perturbations/_data_noise.py   | 3 ++-
 src/bayesbay/perturbations/_param_values.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bayesbay/perturbations/_data_noise.py b/src/bayesbay/perturbations/_data_noise.py
index 88bafe8..f9296a3 100644
--- a/src/bayesbay/perturbations/_data_noise.py
+++ b/src/bayesbay/perturbations/_data_noise.py
@@ -56,7 +56,8 @@ class NoisePerturbation(Perturbation):
                 return state, -math.inf
             new_data_noise_all[target.name] = new_data_noise_state
         new_state = state.copy(keep_dpred=True)
-        new_state.param_values.update(new_data_noise_all)
+        for target_name, new_data_noise_state in new_data_noise_all.items():
+            new_state.set_param_values(target_name, new_data_noise_state)
         return new_state, 0
 
     def _perturb_target(
diff --git a/src/bayesbay/perturbations/_param_values.py b/src/bayesbay/perturbations/_param_values.py
index 94d3502..b0d6937 100644
--- a/src/bayesbay/perturbations/_param_values.py
+++ b/src/bayesbay/perturbations/_param_values.py
@@ -80,7 +80,8 @@ class ParamPerturbation(Perturbation, ParamSpaceMixin):
                 new_param_values[param.name][idx] = new_value
         # structure new param value(s) into new state
         new_ps_state = ps_state.copy()
-        new_ps_state.param_values.update(new_param_values)
+        for param_name, new_values in new_param_values.items():
+            new_ps_state.set_param_values(param_name, new_values)
         return new_ps_state, log_prob_ratio
 
     @property
-- 
2.43.0


From ab2c0e11c9e3bce0d531dfeced1064a419222aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 09/33] fix: inverse covariance of one or two correlated data
 points

---
 src/bayesbay/_utils_1d.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bayesbay/_utils_1d.pyx b/src/bayesbay/_utils_1d.pyx
index f4e8b97..ab5e979 100755
--- a/src/bayesbay/_utils_1d.pyx
+++ b/src/bayesbay/_utils_1d.pyx
@@ -200,14 +200,15 @@ cpdef inverse_covariance(double sigma, double r, size_t n):
     cdef double factor = 1 / (sigma**2 * (1 - r**2))
     cdef double[:, ::1] matrix = np.zeros((n, n), dtype=np.double)
     
-    for i in range(1, n-1):
+    if n == 1:
+        matrix[0, 0] = 1 / sigma**2
+        return np.asarray(matrix)
+    for i in range(1, n):
         matrix[i, i] = (1 + r**2) * factor
         matrix[i, i-1] = -r * factor
         matrix[i-1, i] = -r * factor
     matrix[0, 0] = factor
     matrix[n-1, n-1] = factor
-    matrix[i+1, i] = -r * factor
-    matrix[i, i+1] = -r * factor
     return np.asarray(matrix)
     
 
-- 
2.43.0


From 74fd9150fee4616d02f869a5d2403fb754de9b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 10/33] fix: extents of unbounded Voronoi cells and of
 single-cell tessellations

---
 src/bayesbay/_utils_1d.pyx | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/bayesbay/_utils_1d.pyx b/src/bayesbay/_utils_1d.pyx
index ab5e979..f0f3120 100755
--- a/src/bayesbay/_utils_1d.pyx
+++ b/src/bayesbay/_utils_1d.pyx
@@ -32,23 +32,20 @@ def compute_voronoi1d_cell_extents(double[:] sites,
                                    double ub=INFINITY,
                                    double fill_value=0):
     cdef size_t size = sites.shape[0]
-    cdef int i, istart
+    cdef size_t i
     cdef double d1, d2
     cdef double[:] extent = np.zeros(size, dtype=np.double)
-    size = sites.shape[0]
-    extent = np.zeros(size, dtype=np.double)
-    if not lb == -INFINITY:
-        istart = 0
-        d1 = lb
-    else:
-        istart = 1
-        extent[0] = fill_value
-        d1 = (sites[0] + sites[1]) / 2.
-    for i in range(istart, size - 1):
-        d2 = (sites[i] + sites[i+1]) / 2.
-        extent[i] = d2 - d1
+    # comparisons with INFINITY are optimised away by -ffast-math
+    cdef bool_cpp lower_bounded = not np.isinf(lb)
+    cdef bool_cpp upper_bounded = not np.isinf(ub)
+    d1 = lb
+    for i in range(size):
+        d2 = (sites[i] + sites[i+1]) / 2. if i + 1 < size else ub
+        if (i == 0 and not lower_bounded) or (i + 1 == size and not upper_bounded):
+            extent[i] = fill_value
+        else:
+            extent[i] = d2 - d1
         d1 = d2
-    extent[i+1] = ub - d2 if not ub==INFINITY else fill_value
     return np.asarray(extent)
 
 
-- 
2.43.0


From f7b9e209028507425a7ab628133d01f7e19c3594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 11/33] fix: parallel tempering swaps used a tempered
 likelihood ratio

---
 src/bayesbay/samplers/_samplers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bayesbay/samplers/_samplers.py b/src/bayesbay/samplers/_samplers.py
index b60f6b1..fdfe13e 100644
--- a/src/bayesbay/samplers/_samplers.py
+++ b/src/bayesbay/samplers/_samplers.py
@@ -332,7 +332,9 @@ class ParallelTempering(Sampler):
         for i in range(len(self.chains)):
             chain1, chain2 = np.random.choice(self.chains, 2, replace=False)
             T1, T2 = chain1.temperature, chain2.temperature
-            log_like_ratio = chain1._log_likelihood_ratio(chain2.current_state)
+            log_like_ratio = chain1.log_likelihood.log_likelihood_ratio(
+                chain1.current_state, chain2.current_state
+            )
             prob = (1 / T1 - 1 / T2) * log_like_ratio
             if prob > math.log(random.random()):
                 chain1.temperature = T2
-- 
2.43.0


From 5c273c028a1e0632d5cba082783d010e36d0139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 12/33] fix: parallel tempering saved burn-in samples after the
 first swap

---
 src/bayesbay/samplers/_samplers.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/bayesbay/samplers/_samplers.py b/src/bayesbay/samplers/_samplers.py
index fdfe13e..b9b713d 100644
--- a/src/bayesbay/samplers/_samplers.py
+++ b/src/bayesbay/samplers/_samplers.py
@@ -351,12 +351,9 @@ class ParallelTempering(Sampler):
         while True:
             iteration = self.chains[0].statistics["n_proposed_models_total"]
             n_it = min(self._swap_every, n_iterations - iteration)
-            burnin_it = max(
-                0, min(self._swap_every, burnin_iterations - iteration)
-            )
             self.advance_chain(
                 n_iterations=n_it,
-                burnin_iterations=burnin_it,
+                burnin_iterations=burnin_iterations,
                 save_every=save_every,
                 verbose=verbose,
                 print_every=print_every,
-- 
2.43.0


From 1f2c1e7c55e0c0209d4db869edcae45bbb87babd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 13/33] fix: parallel tempering ignored the iterations
 requested by a second run

---
 src/bayesbay/samplers/_samplers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/bayesbay/samplers/_samplers.py b/src/bayesbay/samplers/_samplers.py
index b9b713d..e007fad 100644
--- a/src/bayesbay/samplers/_samplers.py
+++ b/src/bayesbay/samplers/_samplers.py
@@ -348,9 +348,9 @@ class ParallelTempering(Sampler):
         verbose=True,
         print_every=100,
     ) -> List[BaseMarkovChain]:
-        while True:
-            iteration = self.chains[0].statistics["n_proposed_models_total"]
-            n_it = min(self._swap_every, n_iterations - iteration)
+        n_remaining = n_iterations
+        while n_remaining > 0:
+            n_it = min(self._swap_every, n_remaining)
             self.advance_chain(
                 n_iterations=n_it,
                 burnin_iterations=burnin_iterations,
@@ -358,8 +358,7 @@ class ParallelTempering(Sampler):
                 verbose=verbose,
                 print_every=print_every,
             )
-            if iteration >= n_iterations:
-                break
+            n_remaining -= n_it
         return self.chains
 
 
-- 
2.43.0


From b3df141956c1cb63de0aad71cbe6ff6667853d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 14/33] fix: hooks added with add_on_end_advance_chain were
 never called

---
 src/bayesbay/samplers/_samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/samplers/_samplers.py b/src/bayesbay/samplers/_samplers.py
index e007fad..f7a356f 100644
--- a/src/bayesbay/samplers/_samplers.py
+++ b/src/bayesbay/samplers/_samplers.py
@@ -234,7 +234,7 @@ class Sampler(ABC):
             )
         else:
             self._chains = [func(chain) for chain in self.chains]
-        self.on_end_advance_chain()
+        self.end_advance_chain()
         return self.chains
 
 
-- 
2.43.0


From 6503282ce6987dbb42007b2a08fb47ee3972689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 15/33] fix: setting the chains of an inversion rejected valid
 chains

---
 src/bayesbay/_bayes_inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/_bayes_inversion.py b/src/bayesbay/_bayes_inversion.py
index db1fa1b..186a8ae 100644
--- a/src/bayesbay/_bayes_inversion.py
+++ b/src/bayesbay/_bayes_inversion.py
@@ -194,7 +194,7 @@ class BaseBayesianInversion:
             :class:`BaseMarkovChain`
         """
         if not isinstance(updated_chains, list) or \
-            all([isinstance(c, BaseMarkovChain) for c in updated_chains]):
+            not all([isinstance(c, BaseMarkovChain) for c in updated_chains]):
                 raise TypeError("make sure the `updated_chains` is a list of chains")
         self._chains = updated_chains
         self.n_chains = len(updated_chains)
-- 
2.43.0


From 9909c86b21290f37a9b9cee198dae14f63b426c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 16/33] fix: simulated annealing kept chains past burn-in at
 the starting temperature

---
 src/bayesbay/samplers/_samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/samplers/_samplers.py b/src/bayesbay/samplers/_samplers.py
index f7a356f..fb371b1 100644
--- a/src/bayesbay/samplers/_samplers.py
+++ b/src/bayesbay/samplers/_samplers.py
@@ -398,7 +398,7 @@ class SimulatedAnnealing(Sampler):
             chain.temperature = self.temperature_start * math.exp(
                 -self.cooling_rate * iteration
             )
-        elif iteration == self.burnin_iterations:
+        else:
             chain.temperature = 1
 
     def on_end_iteration(self, chain: BaseMarkovChain):
-- 
2.43.0


From 2edf80ca3b145dab5c6aea2a454461cfd58bbb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 17/33] fix: log prior of a ParameterSpace with nested spaces

---
 src/bayesbay/parameterization/_parameter_space.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bayesbay/parameterization/_parameter_space.py b/src/bayesbay/parameterization/_parameter_space.py
index 7ff65ce..3190672 100644
--- a/src/bayesbay/parameterization/_parameter_space.py
+++ b/src/bayesbay/parameterization/_parameter_space.py
@@ -190,7 +190,10 @@ class ParameterSpace:
         joint_log_prior = 0
         for param_name, param in self.parameters.items():
             param_values = param_space_state[param_name]
-            all_log_priors = [param.log_prior(v, None) for v in param_values]
+            if isinstance(param, ParameterSpace):
+                all_log_priors = [param.log_prior(v) for v in param_values]
+            else:
+                all_log_priors = [param.log_prior(v, None) for v in param_values]
             joint_log_prior += sum(all_log_priors)
         return joint_log_prior
 
-- 
2.43.0


From c29c9a59c63387b60d9e645cc97d9b8de853081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 18/33] fix: advance_chain failed with its default callbacks

---
 src/bayesbay/_markov_chain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bayesbay/_markov_chain.py b/src/bayesbay/_markov_chain.py
index 1dedc81..0f711af 100755
--- a/src/bayesbay/_markov_chain.py
+++ b/src/bayesbay/_markov_chain.py
@@ -285,9 +285,11 @@ class BaseMarkovChain:
             else:
                 self.save_current_iteration = not (i - burnin_iterations) % save_every
 
-            begin_iteration(self)
+            if begin_iteration is not None:
+                begin_iteration(self)
             self._next_iteration()
-            end_iteration(self)
+            if end_iteration is not None:
+                end_iteration(self)
             if verbose and not i % print_every:
                 self.print_statistics()
 
-- 
2.43.0


From a95d0620b35fa232b05fed0d6455e44d61ef9fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 19/33] fix: Voronoi site moves ignored the position dependence
 of a CustomPrior

---
 src/bayesbay/discretization/_voronoi.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/bayesbay/discretization/_voronoi.py b/src/bayesbay/discretization/_voronoi.py
index 940ee1a..4032d67 100644
--- a/src/bayesbay/discretization/_voronoi.py
+++ b/src/bayesbay/discretization/_voronoi.py
@@ -14,7 +14,7 @@ from ..perturbations._param_values import ParamPerturbation
 from ..perturbations._param_space import ParamSpacePerturbation
 from ..perturbations._birth_death import BirthPerturbation, DeathPerturbation
 from ._discretization import Discretization
-from ..prior import Prior
+from ..prior import Prior, CustomPrior
 from .._state import State, ParameterSpaceState
 from .._utils_1d import (
     interpolate_depth_profile,
@@ -29,6 +29,13 @@ from .._utils_1d import (
 SQRT_TWO_PI = math.sqrt(2 * math.pi)
 
 
+def _depends_on_position(param: Union[Prior, ParameterSpace]) -> bool:
+    # the functions defining a CustomPrior may use the position they are given
+    return not isinstance(param, ParameterSpace) and (
+        param.position is not None or isinstance(param, CustomPrior)
+    )
+
+
 def _plot(x, y, ax, swap_xy_axes=False, **kwargs):
     if swap_xy_axes:
         ax.plot(y, x, **kwargs)
@@ -245,7 +252,7 @@ class Voronoi(Discretization):
             log_prior_ratio = 0
             for param_name, param in self.parameters.items():
                 values = old_ps_state[param_name]
-                if not isinstance(param, ParameterSpace) and param.position is not None:
+                if _depends_on_position(param):
                     log_prior_old = param.log_prior(values[isite], old_site)
                     log_prior_new = param.log_prior(values[isite], new_site)
                     log_prior_ratio += log_prior_new - log_prior_old
@@ -259,7 +266,7 @@ class Voronoi(Discretization):
             log_prior_ratio = 0
             for param_name, param in self.parameters.items():
                 values = old_ps_state[param_name]
-                if not isinstance(param, ParameterSpace) and param.position is not None:
+                if _depends_on_position(param):
                     log_prior_old = param.log_prior(values[isite], old_site)
                     log_prior_new = param.log_prior(values[isite], new_site)
                     log_prior_ratio += log_prior_new - log_prior_old
-- 
2.43.0


From 43c260379ea71045337e572bb79a667d9b31fed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 20/33] fix: saving states of type dict failed unless
 save_dpred was False

---
 src/bayesbay/_markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/_markov_chain.py b/src/bayesbay/_markov_chain.py
index 0f711af..14bfd07 100755
--- a/src/bayesbay/_markov_chain.py
+++ b/src/bayesbay/_markov_chain.py
@@ -123,7 +123,7 @@ class BaseMarkovChain:
                 ):
                     continue
                 self.saved_states[k].append(v)
-            if self.save_dpred:
+            if self.save_dpred and isinstance(self.current_state, State):
                 for k, v in self.current_state.cache.items():
                     if "dpred" in k:
                         self.saved_states[k].append(v)
-- 
2.43.0


From c6dcf561cbeae33ff8eccf05b0876e85207f84f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 21/33] fix: saving failed for names of parameters or extra
 results containing n_dimensions

---
 src/bayesbay/_markov_chain.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/bayesbay/_markov_chain.py b/src/bayesbay/_markov_chain.py
index 14bfd07..a3ba6c0 100755
--- a/src/bayesbay/_markov_chain.py
+++ b/src/bayesbay/_markov_chain.py
@@ -112,16 +112,12 @@ class BaseMarkovChain:
     def _save_state(self):
         if isinstance(self.current_state, (State, dict)):
             for k, v in self.current_state.items():
-                if (
-                    ("n_dimensions" in k)
-                    and (hasattr(self, "parameterization"))
-                    and (
-                        not self.parameterization.parameter_spaces[
-                            k[: -len(".n_dimensions")]
-                        ].trans_d
+                if k.endswith(".n_dimensions") and hasattr(self, "parameterization"):
+                    param_space = self.parameterization.parameter_spaces.get(
+                        k[: -len(".n_dimensions")]
                     )
-                ):
-                    continue
+                    if param_space is not None and not param_space.trans_d:
+                        continue
                 self.saved_states[k].append(v)
             if self.save_dpred and isinstance(self.current_state, State):
                 for k, v in self.current_state.cache.items():
-- 
2.43.0


From be2f2aacb89b368da0db9fa58f5dfa85e4621abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 22/33] fix: targets added to a LogLikelihood after its
 construction

---
 src/bayesbay/likelihood/_log_likelihood.py | 44 +++++++++++-----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/bayesbay/likelihood/_log_likelihood.py b/src/bayesbay/likelihood/_log_likelihood.py
index 2c32046..f4ff553 100644
--- a/src/bayesbay/likelihood/_log_likelihood.py
+++ b/src/bayesbay/likelihood/_log_likelihood.py
@@ -180,23 +180,26 @@ class LogLikelihood:
             or when the ``fwd_functions`` isn't a list of functions or a single 
             function
         """
-        if targets is not None:
-            if not isinstance(targets, list):
-                targets = [targets]
-            for target in targets:
-                if not isinstance(target, Target):
-                    raise TypeError("`targets` should either be a list of Target instances or a Target")
-            self.targets.extend(targets)
+        if targets is None:
+            targets = []
+        if not isinstance(targets, list):
+            targets = [targets]
+        for target in targets:
+            if not isinstance(target, Target):
+                raise TypeError("`targets` should either be a list of Target instances or a Target")
         
-        if fwd_functions is not None:
-            if not isinstance(fwd_functions, list):
-                fwd_functions = [fwd_functions]
-            for func in fwd_functions:
-                if not isinstance(func, (Callable, tuple)):
-                    raise TypeError("`fwd_functions` should be a Callable/tuple or a list of Callables/tuples")
-            self.fwd_functions.extend(fwd_functions)
+        if fwd_functions is None:
+            fwd_functions = []
+        if not isinstance(fwd_functions, list):
+            fwd_functions = [fwd_functions]
+        for func in fwd_functions:
+            if not isinstance(func, (Callable, tuple)):
+                raise TypeError("`fwd_functions` should be a Callable/tuple or a list of Callables/tuples")
         
-        self._check_duplicate_target_names()
+        self._check_duplicate_target_names(self.targets + targets)
+        fwd_functions = [_preprocess_func(func) for func in fwd_functions]
+        self.targets.extend(targets)
+        self.fwd_functions.extend(fwd_functions)
         self._init_perturbation_funcs()
         for inversion in self._perturbation_funcs_observers:
             inversion.update_log_likelihood_targets(targets)
@@ -262,19 +265,16 @@ class LogLikelihood:
     ) -> Number:
         return self.log_like_ratio_func(old_state, new_state)
 
-    def _check_duplicate_target_names(self):
-        if self.targets is not None:
-            all_target_names = [t.name for t in self.targets]
-            if len(all_target_names) != len(set(all_target_names)):
-                raise ValueError("duplicate target names found")
+    def _check_duplicate_target_names(self, targets: List[Target]):
+        all_target_names = [t.name for t in targets]
+        if len(all_target_names) != len(set(all_target_names)):
+            raise ValueError("duplicate target names found")
 
     def _init_log_likelihood_ratio(self):
         if self.targets and self.fwd_functions:
             _fwd_functions = self.fwd_functions
             _targets = self.targets
             assert len(_fwd_functions) == len(_targets)
-            self._targets = _targets
-            self._fwd_functions = [_preprocess_func(func) for func in _fwd_functions]
             self._log_likelihood_ratio = self._log_likelihood_ratio_from_targets
         elif self.log_like_ratio_func:
             self.log_like_ratio_func = _preprocess_func(self.log_like_ratio_func)
-- 
2.43.0


From 6b692aeec149b088d7928dbfcbb974334de09b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 23/33] fix: duplicate parameter names silently replaced one
 another

---
 src/bayesbay/parameterization/_parameter_space.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bayesbay/parameterization/_parameter_space.py b/src/bayesbay/parameterization/_parameter_space.py
index 3190672..ddca8c4 100644
--- a/src/bayesbay/parameterization/_parameter_space.py
+++ b/src/bayesbay/parameterization/_parameter_space.py
@@ -59,6 +59,10 @@ class ParameterSpace:
         self._parameters = dict()
         if parameters is not None:
             for param in parameters:
+                if param.name in self._parameters:
+                    raise ValueError(
+                        f"duplicate parameter names found in ParameterSpace {name}"
+                    )
                 self._parameters[param.name] = param
         self._is_leaf = not any(
             isinstance(p, ParameterSpace) for p in self._parameters.values()
-- 
2.43.0


From 98e1387a22f556a0da575c2e82a0a5f919e256f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 24/33] fix: distinct nested parameter spaces sharing a name
 were perturbed as one another

---
 src/bayesbay/parameterization/_parameterization.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bayesbay/parameterization/_parameterization.py b/src/bayesbay/parameterization/_parameterization.py
index 162e28a..8115c1e 100644
--- a/src/bayesbay/parameterization/_parameterization.py
+++ b/src/bayesbay/parameterization/_parameterization.py
@@ -28,6 +28,16 @@ class Parameterization:
         all_param_space_names = [ps.name for ps in parameter_spaces]
         if len(all_param_space_names) != len(set(all_param_space_names)):
             raise ValueError("duplicate parameter space names found")
+        # nested parameter spaces are looked up by name when they are perturbed
+        spaces_by_name = dict()
+        queue = list(parameter_spaces)
+        while queue:
+            ps = queue.pop(0)
+            if spaces_by_name.setdefault(ps.name, ps) is not ps:
+                raise ValueError("duplicate parameter space names found")
+            queue.extend(
+                p for p in ps.parameters.values() if isinstance(p, ParameterSpace)
+            )
     
     def _check_duplicate_param_names(self, parameter_spaces: List[ParameterSpace]):
         for ps in parameter_spaces:
-- 
2.43.0


From 9d950992ecf240d46f8db7cc4f985915f418f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 25/33] fix: interpolation of cell extents at query points that
 are not sorted

---
 src/bayesbay/_utils_1d.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bayesbay/_utils_1d.pyx b/src/bayesbay/_utils_1d.pyx
index f0f3120..15e8199 100755
--- a/src/bayesbay/_utils_1d.pyx
+++ b/src/bayesbay/_utils_1d.pyx
@@ -125,6 +125,10 @@ cpdef interpolate_depth_profile(double[:] x, double[:] y, double[:] x0):
     
     for i in range(x0_len):
         x_i = x0[i]
+        if x_i < interface_lower:   # query points need not be in increasing order
+            ilayer = 0
+            interface_lower = 0
+            interface_upper = x[0]
         while True:
             if interface_lower <= x_i < interface_upper or \
                 ilayer + 1 >= x_len:
-- 
2.43.0


From a87e9ac2514d3fffdfbd15bb4821680c5a1cc7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 26/33] fix: adding targets without as many forward functions
 was accepted

---
 src/bayesbay/likelihood/_log_likelihood.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bayesbay/likelihood/_log_likelihood.py b/src/bayesbay/likelihood/_log_likelihood.py
index f4ff553..ef967b9 100644
--- a/src/bayesbay/likelihood/_log_likelihood.py
+++ b/src/bayesbay/likelihood/_log_likelihood.py
@@ -179,6 +179,9 @@ class LogLikelihood:
             when the ``targets`` isn't a list of Target of a single Target instance, 
             or when the ``fwd_functions`` isn't a list of functions or a single 
             function
+        ValueError
+            when a target name is already in use, or when there would be a different
+            number of targets and forward functions
         """
         if targets is None:
             targets = []
@@ -197,6 +200,13 @@ class LogLikelihood:
                 raise TypeError("`fwd_functions` should be a Callable/tuple or a list of Callables/tuples")
         
         self._check_duplicate_target_names(self.targets + targets)
+        n_targets = len(self.targets) + len(targets)
+        n_functions = len(self.fwd_functions) + len(fwd_functions)
+        if n_targets and n_functions and n_targets != n_functions:
+            raise ValueError(
+                "the number of `targets` and `fwd_functions` should be the same: "
+                f"{n_targets} != {n_functions}"
+            )
         fwd_functions = [_preprocess_func(func) for func in fwd_functions]
         self.targets.extend(targets)
         self.fwd_functions.extend(fwd_functions)
-- 
2.43.0


From dd529127506d1ef783f9d2a38c56d0b4f7e34c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:01 +0000
Subject: [PATCH 27/33] fix: results of models that are neither states nor
 dictionaries could not be read

---
 src/bayesbay/_bayes_inversion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bayesbay/_bayes_inversion.py b/src/bayesbay/_bayes_inversion.py
index 186a8ae..6f57bc4 100644
--- a/src/bayesbay/_bayes_inversion.py
+++ b/src/bayesbay/_bayes_inversion.py
@@ -328,6 +328,7 @@ class BaseBayesianInversion:
                     results.extend(chain.saved_states)
                 else:
                     results.append(chain.saved_states)
+            return results
         return dict(results)
     
     def _init_repr_args(self):
-- 
2.43.0


From 8ed1e49d85b39eeca7621a8ce3350eeb1a0d01b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:13 +0000
Subject: [PATCH 28/33] fix: replacing perturbation functions modified the
 weights passed to it

---
 src/bayesbay/_bayes_inversion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bayesbay/_bayes_inversion.py b/src/bayesbay/_bayes_inversion.py
index 6f57bc4..554f0df 100644
--- a/src/bayesbay/_bayes_inversion.py
+++ b/src/bayesbay/_bayes_inversion.py
@@ -123,6 +123,7 @@ class BaseBayesianInversion:
         # pad weights if it's None
         if perturbation_weights is None:
             perturbation_weights = [1] * len(perturbation_funcs)
+        perturbation_weights = list(perturbation_weights)
         # check lengths
         assert len(perturbation_funcs) == len(perturbation_weights),  (
                 "`perturbation_funcs` should have the same length of "
-- 
2.43.0


From 743bad65636b4359ff95661c82ab826451c6b00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 29/33] fix: failures carrying a message that is no string
 stopped the chain

---
 src/bayesbay/exceptions/_exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bayesbay/exceptions/_exceptions.py b/src/bayesbay/exceptions/_exceptions.py
index ea03155..b9a0a9b 100644
--- a/src/bayesbay/exceptions/_exceptions.py
+++ b/src/bayesbay/exceptions/_exceptions.py
@@ -4,7 +4,7 @@ class ForwardException(Exception):
     """
     def __init__(self, original_exc):
         self.message = "error occurred when running the forward function - " + (
-            original_exc.message
+            str(original_exc.message)
             if hasattr(original_exc, "message")
             else f"{type(original_exc).__name__}: {str(original_exc)}"
         )
@@ -32,7 +32,7 @@ class UserFunctionException(Exception):
 
     def __init__(self, original_exc):
         self.message = "error occurred when running the user-provided function - " + (
-            original_exc.message
+            str(original_exc.message)
             if hasattr(original_exc, "message")
             else f"{type(original_exc).__name__}: {str(original_exc)}"
         )
-- 
2.43.0


From 2d945316ba46d728f2f3445602048dc5314f9433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 30/33] fix: dictionary models with keys that are no strings
 could not be saved

---
 src/bayesbay/_markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/_markov_chain.py b/src/bayesbay/_markov_chain.py
index a3ba6c0..7726f9c 100755
--- a/src/bayesbay/_markov_chain.py
+++ b/src/bayesbay/_markov_chain.py
@@ -112,7 +112,7 @@ class BaseMarkovChain:
     def _save_state(self):
         if isinstance(self.current_state, (State, dict)):
             for k, v in self.current_state.items():
-                if k.endswith(".n_dimensions") and hasattr(self, "parameterization"):
+                if hasattr(self, "parameterization") and k.endswith(".n_dimensions"):
                     param_space = self.parameterization.parameter_spaces.get(
                         k[: -len(".n_dimensions")]
                     )
-- 
2.43.0


From e500eb0a84c158decd84cded1ead32851a9a520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 31/33] fix: sampling a parameter space turned nested
 discretizations into an array

---
 src/bayesbay/parameterization/_parameter_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bayesbay/parameterization/_parameter_space.py b/src/bayesbay/parameterization/_parameter_space.py
index ddca8c4..6742a2b 100644
--- a/src/bayesbay/parameterization/_parameter_space.py
+++ b/src/bayesbay/parameterization/_parameter_space.py
@@ -186,7 +186,7 @@ class ParameterSpace:
         parameter_vals = dict()
         for name, param in self.parameters.items():
             parameter_vals[name] = [param.sample() for _ in range(n_dimensions)]
-            if isinstance(param, Prior):
+            if not isinstance(param, ParameterSpace):
                 parameter_vals[name] = np.array(parameter_vals[name])
         return ParameterSpaceState(n_dimensions, parameter_vals)
 
-- 
2.43.0


From 0792411bc85a514a389a660fcf9300ed5a89673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 32/33] fix: targets added after a run in worker processes did
 not reach the chains

---
 src/bayesbay/_bayes_inversion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bayesbay/_bayes_inversion.py b/src/bayesbay/_bayes_inversion.py
index 554f0df..ad6ce02 100644
--- a/src/bayesbay/_bayes_inversion.py
+++ b/src/bayesbay/_bayes_inversion.py
@@ -470,6 +470,8 @@ class BayesianInversion(BaseBayesianInversion):
         self.perturbation_funcs, self.perturbation_weights = \
             self._init_perturbation_funcs()
         for chain in self.chains:
+            # chains that come back from worker processes hold a copy
+            chain.log_likelihood = self.log_likelihood
             chain.set_perturbation_funcs(
                 self.perturbation_funcs, self.perturbation_weights
             )
-- 
2.43.0


From 2f66444847b234410eab80bff7ccfb38e1276f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:43 +0000
Subject: [PATCH 33/33] fix: hyperparameters given at positions that are not in
 increasing order

---
 src/bayesbay/prior/_prior.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bayesbay/prior/_prior.py b/src/bayesbay/prior/_prior.py
index 111cdc3..99a2efb 100755
--- a/src/bayesbay/prior/_prior.py
+++ b/src/bayesbay/prior/_prior.py
@@ -290,7 +290,10 @@ class Prior(ABC):
         if np.isscalar(hyper_param):
             return hyper_param
         elif np.ndim(self.position) == 1:
-            return partial(interpolate_linear_1d, x=self.position, y=hyper_param)
+            order = np.argsort(self.position)
+            return partial(
+                interpolate_linear_1d, x=self.position[order], y=hyper_param[order]
+            )
         else:
             interpolator = scipy.interpolate.LinearNDInterpolator(
                 points=self.position, values=hyper_param,
-- 
2.43.0

