From 05bc6e590157ac4184dff6d8d2407011a3a6e1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 01/29] fix: reject not-a-number error probabilities in
 IidNoise

---
 flamingpy/noise/iid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/noise/iid.py b/flamingpy/noise/iid.py
index 7db8652..bd92972 100644
--- a/flamingpy/noise/iid.py
+++ b/flamingpy/noise/iid.py
@@ -28,7 +28,7 @@ class IidNoise:
     def __init__(self, code, error_probability):
         self.egraph = code.graph
 
-        if error_probability < 0.0 or error_probability > 1.0:
+        if not 0.0 <= error_probability <= 1.0:
             raise ValueError("Probability is not between 0 and 1.")
 
         self.error_probability = error_probability
-- 
2.43.0


From c276ae92d33b1755155c2163233304bb21684257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 02/29] fix: make the LC-equivalence search exhaustive

---
 flamingpy/utils/linalg.py | 100 ++++++++++++++++++++++++++------------
 1 file changed, 68 insertions(+), 32 deletions(-)

diff --git a/flamingpy/utils/linalg.py b/flamingpy/utils/linalg.py
index cf76e24..f3745fd 100644
--- a/flamingpy/utils/linalg.py
+++ b/flamingpy/utils/linalg.py
@@ -1,5 +1,7 @@
 """Helper functions for linear algebra used for testing LC equivalence."""
 
+from itertools import chain, combinations
+
 import numpy as np
 
 
@@ -76,6 +78,25 @@ def lc_constraint_system(G, H):
     return np.block(M).astype(int)
 
 
+def connected_components(G):
+    """Return the connected components of a graph.
+
+    Args:
+        G (numpy.array): n x n adjacency matrix.
+    Returns:
+        list[list[int]]: the sorted vertices of each component.
+    """
+    components = []
+    unseen = list(range(np.shape(G)[0]))
+    while unseen:
+        component = [unseen[0]]
+        for i in component:
+            component += [j for j in np.nonzero(G[i])[0].tolist() if j not in component]
+        components.append(sorted(component))
+        unseen = [i for i in unseen if i not in component]
+    return components
+
+
 def nullspace_basis(M):
     """Return the nullspace basis of matrix M.
 
@@ -103,8 +124,10 @@ def nullspace_basis(M):
 def search_nullspace(basis):
     """Check if the nullspace satisfies the determinant constraints.
 
-     Search through sums of pairs of basis vectors of the nullspace and
-     see if any satisfy the determinant constraints. If no solution is found,
+     Search through the basis vectors and the sums of pairs of basis vectors of
+     the nullspace (or through the whole nullspace, if its dimension is at most
+     4) and see if any satisfy the determinant constraints. This is exhaustive
+     for connected graphs; see arXiv:quant-ph/0405023. If no solution is found,
      output None. If a solution is found, return a vector specifying the local
      Clifford in the form:
 
@@ -125,31 +148,28 @@ def search_nullspace(basis):
     equivalent = False
     # array to store potential solutions
     sols = []
-    # search through distinct pairs of basis vectors
-    for i in range(d):
-        for j in range(i):
-            # boolean for checking solution constraints
-            sat = True
-            # potential solution as sum (modulo 2) of basis pair
-            sol = np.vectorize(lambda x: x % 2)(np.add(basis[i], basis[j]))
-            # store potential solution
-            sols.append(sol)
-            for k in range(n):
-                # check the determinants (modulo 2)
-                det = (sol[k] * sol[k + 3 * n] + sol[k + n] * sol[k + 2 * n]) % 2
-                if det != 1:
-                    # constraints not satisfied
-                    sat = False
-                    # remove the false solution
-                    sols.pop()
-                    break
-            # if solution found, set equivalent to True
-            if sat:
-                # equivalence is satisfied
-                equivalent = sat
+    # search through sums of at most two (or, in small nullspaces, any number of)
+    # distinct basis vectors
+    max_terms = d if d <= 4 else 2
+    for terms in chain(*(combinations(range(d), r) for r in range(1, max_terms + 1))):
+        # boolean for checking solution constraints
+        sat = True
+        # potential solution as sum (modulo 2) of basis vectors
+        sol = np.sum(basis[list(terms)], axis=0) % 2
+        # store potential solution
+        sols.append(sol)
+        for k in range(n):
+            # check the determinants (modulo 2)
+            det = (sol[k] * sol[k + 3 * n] + sol[k + n] * sol[k + 2 * n]) % 2
+            if det != 1:
+                # constraints not satisfied
+                sat = False
+                # remove the false solution
+                sols.pop()
                 break
-        # end search loop
-        if equivalent:
+        # end search loop, if solution found
+        if sat:
+            equivalent = sat
             break
     # if no solution found, return None
     if not equivalent:
@@ -270,12 +290,28 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
 
     # perform algorithm to search for solution
     #
-    # construct system of constraints for two adjacency matrices G and H
-    system = lc_constraint_system(G, H)
-    # construct nullspace basis of system of constraints
-    nullspace = nullspace_basis(system)
-    # search nullspace for solution vector
-    solution_vector = search_nullspace(nullspace)
+    # local Cliffords preserve entanglement, so equivalent graphs have the same
+    # connected components, which can be treated one at a time
+    n = np.shape(G)[0]
+    solution_vector = np.zeros(4 * n, dtype=int)
+    for component in connected_components(G):
+        others = [i for i in range(n) if i not in component]
+        if np.any(H[np.ix_(component, others)]):
+            solution_vector = None
+            break
+        # construct system of constraints for two adjacency matrices G and H
+        block = np.ix_(component, component)
+        system = lc_constraint_system(G[block], H[block])
+        # construct nullspace basis of system of constraints
+        nullspace = nullspace_basis(system)
+        # search nullspace for solution vector
+        component_solution = search_nullspace(nullspace)
+        if component_solution is None:
+            solution_vector = None
+            break
+        for k in range(4):
+            indices = [i + k * n for i in component]
+            solution_vector[indices] = component_solution.reshape(4, -1)[k]
 
     # if graphs are not equivalent set clifford_output to None
     if solution_vector is None:
-- 
2.43.0


From 9f889a42794e80393594f6e10318d0a9cc1288d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 03/29] fix: bin outcomes on every bin boundary to 0, as
 documented

---
 flamingpy/cv/gkp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flamingpy/cv/gkp.py b/flamingpy/cv/gkp.py
index 4cac738..4336928 100644
--- a/flamingpy/cv/gkp.py
+++ b/flamingpy/cv/gkp.py
@@ -21,14 +21,16 @@ def integer_fractional(x, alpha):
 
     Any real number x can be expressed as n * alpha + f, where n is an
     integer, alpha is any real number, and f is a real number such that
-    \|f\| <= alpha / 2. This function returns n and f.
+    \|f\| <= alpha / 2. This function returns n and f. If \|f\| = alpha / 2, the
+    even choice of n is returned.
 
     Args:
         x (float or array): real numbers
         alpha (float): alpha from above.
     """
     int_frac = np.divmod(x, alpha)
-    large_frac = np.greater(int_frac[1], alpha / 2).astype(int)
+    tie_up = np.equal(int_frac[1], alpha / 2) & np.equal(int_frac[0] % 2, 1)
+    large_frac = (np.greater(int_frac[1], alpha / 2) | tie_up).astype(int)
     f = int_frac[1] - alpha * large_frac
     n = int_frac[0].astype(int) + large_frac
     return n, f
-- 
2.43.0


From 436cfbefd0cbfd85566ac27b07c3f37edd3bbb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 04/29] fix: 0/0 replacements and broadcasting in Z_err_cond

---
 flamingpy/cv/gkp.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/flamingpy/cv/gkp.py b/flamingpy/cv/gkp.py
index 4336928..9d9fd1d 100644
--- a/flamingpy/cv/gkp.py
+++ b/flamingpy/cv/gkp.py
@@ -131,11 +131,13 @@ def Z_err_cond(var, hom_val, var_num=10, replace_undefined=0, use_hom_val=False)
         denominator = np.sum(ex_val(np.arange(-n_max, n_max)))
         if denominator != 0:
             return numerator / denominator
+        elif replace_undefined == "bin_location":
+            return np.abs(frac) / np.sqrt(np.pi)
         else:
             return replace_undefined
     else:
-        # Initiate a list with length same as var
-        error = np.zeros(np.shape(var))
+        # One variance and one outcome per entry
+        var, val, frac, factor = np.broadcast_arrays(*np.atleast_1d(var, val, frac, factor))
 
         def ex(z, n):
             return np.exp(-((z - n * np.sqrt(np.pi)) ** 2) / var)
@@ -149,13 +151,10 @@ def Z_err_cond(var, hom_val, var_num=10, replace_undefined=0, use_hom_val=False)
         # For 0 denominator, populate error according to replace_undefined
         if len(where_0):
             if replace_undefined == "bin_location":
-                zero_dem_result = np.abs(val) / np.sqrt(np.pi)
+                zero_dem_result = (np.abs(frac) / np.sqrt(np.pi))[where_0]
             else:
                 zero_dem_result = replace_undefined
             error[where_0] = np.full(len(where_0), zero_dem_result)
-        if np.size(var) == 1:
-            numerator = np.array([numerator])
-            denominator = np.array([denominator])
         if the_rest.size > 0:
             error[the_rest] = numerator[the_rest] / denominator[the_rest]
         if np.size(var) == 1:
-- 
2.43.0


From 4671bd361f0a4e62e3cd13f4e7ab2d190cb0a0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 05/29] fix: sum the same range of Gaussians in both parts of
 Z_err_cond

---
 flamingpy/cv/gkp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flamingpy/cv/gkp.py b/flamingpy/cv/gkp.py
index 9d9fd1d..1bc2239 100644
--- a/flamingpy/cv/gkp.py
+++ b/flamingpy/cv/gkp.py
@@ -128,7 +128,7 @@ def Z_err_cond(var, hom_val, var_num=10, replace_undefined=0, use_hom_val=False)
             return np.exp(-((val - n * np.sqrt(np.pi)) ** 2) / var)
 
         numerator = np.sum(ex_val(2 * np.arange(-n_max, n_max) + factor))
-        denominator = np.sum(ex_val(np.arange(-n_max, n_max)))
+        denominator = np.sum(ex_val(np.arange(-2 * n_max, 2 * n_max)))
         if denominator != 0:
             return numerator / denominator
         elif replace_undefined == "bin_location":
@@ -143,7 +143,7 @@ def Z_err_cond(var, hom_val, var_num=10, replace_undefined=0, use_hom_val=False)
             return np.exp(-((z - n * np.sqrt(np.pi)) ** 2) / var)
 
         numerator = np.sum([ex(val, 2 * i + factor) for i in range(-n_max, n_max)], 0)
-        denominator = np.sum([ex(val, i) for i in range(-n_max, n_max)], 0)
+        denominator = np.sum([ex(val, i) for i in range(-2 * n_max, 2 * n_max)], 0)
         # Dealing with 0 denonimators
         where_0 = np.where(denominator == 0)[0]
         the_rest = np.delete(np.arange(np.size(var)), where_0)
-- 
2.43.0


From 7c2bc8cfb43670324b5287561e452f40a72522ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 06/29] fix: do not grow odd Union-Find clusters that already
 touch a boundary

---
 flamingpy/decoders/unionfind/algos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/decoders/unionfind/algos.py b/flamingpy/decoders/unionfind/algos.py
index 11e568c..3e3b6e2 100644
--- a/flamingpy/decoders/unionfind/algos.py
+++ b/flamingpy/decoders/unionfind/algos.py
@@ -125,7 +125,7 @@ def initialize_cluster_trees(stabilizer_graph):
                     ),
                 ),
             )
-        if cluster_root.parity:
+        if cluster_root.parity and not cluster_root.boundary:
             odd_clusters += [cluster_root]
         cluster_trees += [cluster_root]
 
-- 
2.43.0


From 491d51f8058572511b86aa74a1e06a8d233a1e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 07/29] fix: accept boundaries given as a list or tuple in
 RHG_graph

---
 flamingpy/codes/surface_code.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flamingpy/codes/surface_code.py b/flamingpy/codes/surface_code.py
index 0750d83..ef9a9ed 100644
--- a/flamingpy/codes/surface_code.py
+++ b/flamingpy/codes/surface_code.py
@@ -167,6 +167,7 @@ def RHG_graph(
     # Dealing with boundaries.
     if isinstance(boundaries, str):
         boundaries = str_to_bound(boundaries)
+    boundaries = np.asarray(boundaries)
 
     # Locations of all primal vertices.
     max_dict = {"primal": 1, "dual": 0, "periodic": 0}
-- 
2.43.0


From f077e69548588cdecc8ec5d4d22c55a18163eadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 08/29] fix: repartition all the modes each time CV noise is
 applied

---
 flamingpy/noise/cv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 1103b05..f5f045b 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -92,7 +92,7 @@ class CVLayer:
         # Set some noise model parameters.
         self.delta = delta
         self.p_swap = kwargs.get("p_swap")
-        self.states = supplied_states or {"p": np.empty(0, dtype=int)}
+        self.states = dict(supplied_states or {"p": np.empty(0, dtype=int)})
         self._sampling_order = kwargs.get("sampling_order") or "initial"
         self._translator = kwargs.get("translator") or GKP_binner
 
@@ -307,7 +307,9 @@ class CVLayer:
         """Associate all indices not in self.states with GKP states."""
         used_inds = np.empty(0, dtype=int)
         for psi in self.states:
-            used_inds = np.concatenate([used_inds, self.states[psi]])
+            # Indices of GKP states from a previous round must not be reused.
+            if psi != "GKP":
+                used_inds = np.concatenate([used_inds, self.states[psi]])
         remaining_inds = list(set(range(self._N)) - set(used_inds))
         self.states["GKP"] = np.array(remaining_inds, dtype=int)
 
-- 
2.43.0


From d8c7959231592d00396526f8b51ffd854e1e14b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:53 +0000
Subject: [PATCH 09/29] fix: store a custom beamsplitter network in
 CVMacroLayer

---
 flamingpy/noise/cv.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index f5f045b..ceb1ef9 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -376,8 +376,7 @@ class CVMacroLayer(CVLayer):
         # Instantiate the CVLayer parent class with the right noise model.
         super().__init__(macro_graph, delta=delta, sampling_order="two-step", **kwargs)
         self.reduced_graph = code.graph
-        if bs_network is None:
-            self.bs_network = splitter_symp()
+        self.bs_network = splitter_symp() if bs_network is None else bs_network
 
     def apply_noise(self, rng=default_rng()):
         """Reduce the macronode code lattice to the canonical code lattice.
-- 
2.43.0


From d692c9b8d070f6c1f43f910efa8cf027fab18bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 10/29] fix: account for edge weights when reducing macronodes

---
 flamingpy/noise/cv.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index ceb1ef9..8b95703 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -501,9 +501,9 @@ class CVMacroLayer(CVLayer):
         self.egraph.
 
         Suppose micronode i (in macronode j) is adjacent to a neighbor.
-        Return the vertex (tuple) and the body index of the neighbor to
-        help the subsequent processing rules. If there is no such
-        neighbor, return None.
+        Return the vertex (tuple) and the body index of the neighbor, as
+        well as the weight of the edge between them, to help the subsequent
+        processing rules. If there is no such neighbor, return None.
         """
         macro_graph = self.egraph
         # Index of ith micronode in the jth macronode.
@@ -514,7 +514,8 @@ class CVMacroLayer(CVLayer):
         if ith_adjacency:
             ith_neighbor = list(macro_graph[ith_vertex])[0]
             ith_body_index = macro_graph.nodes[ith_neighbor]["body_index"]
-            return ith_neighbor, ith_body_index
+            weight = macro_graph.edges[ith_vertex, ith_neighbor].get("weight", 1)
+            return ith_neighbor, ith_body_index, weight
         return None
 
     def _permute_star_inds(self):
@@ -574,6 +575,7 @@ class CVMacroLayer(CVLayer):
         verts_and_inds = [self._neighbor_of_micro_i_macro_j(i, j) for i in (1, 2, 3, 4)]
         neighbors = [tup[0] if tup else None for tup in verts_and_inds]
         body_indices = [tup[1] if tup else None for tup in verts_and_inds]
+        weights = [tup[2] if tup else 1 for tup in verts_and_inds]
 
         # Array of arrays of measurement outcomes in all the
         # macronodes adjacent to j.
@@ -604,7 +606,7 @@ class CVMacroLayer(CVLayer):
         for i in (1, 2, 3, 4):
             if types[i - 1] == "p":
                 num_p += 1
-                outcome -= Z_arr[i]
+                outcome -= weights[i - 1] * Z_arr[i]
             if types[i - 1] == "GKP":
                 if delta > 0:
                     p_err += Z_err_cond(2 * delta, Z_arr[i], use_hom_val=True)
-- 
2.43.0


From 913d1807b987dfd589bb31f9592d4ed3b59d3eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 11/29] fix: measure with the two-step sampling order outside
 of macronodes

---
 flamingpy/noise/cv.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 8b95703..1792e54 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -188,18 +188,23 @@ class CVLayer:
         if updated_means is None:
             means = self._means_sampler(propagate=propagate, rng=rng)
         else:
+            means = updated_means
+        # In the two-step order, only the measured quadratures are sampled.
+        if self._sampling_order == "two-step":
             if quad == "q":
-                means = updated_means[:N][inds]
-            if quad == "p":
-                means = updated_means[N:][inds]
+                means = means[:N][inds]
+            elif quad == "p":
+                means = means[N:][inds]
 
         if updated_covs is None:
             covs = self._covs_sampler(inds=inds)
         else:
-            if quad == "q":
-                covs = updated_covs[:N][inds]
-            elif quad == "p":
-                covs = updated_covs[N:][inds]
+            covs = updated_covs
+            if self._sampling_order == "two-step":
+                if quad == "q":
+                    covs = covs[:N][inds]
+                elif quad == "p":
+                    covs = covs[N:][inds]
 
         # Conduct the sample
         outcomes = rng.normal(means, covs)
@@ -290,8 +295,7 @@ class CVLayer:
             self._init_covs = covs
 
         elif self._sampling_order == "two-step":
-            if inds is None:
-                inds = range(self._N)
+            inds = np.arange(self._N) if inds is None else np.asarray(inds)
             N_inds = len(inds)
             covs = np.full(N_inds, (self.delta / 2) ** 0.5, dtype=np.float32)
             if self._perfect_inds:
-- 
2.43.0


From 64b9038ec38bec2dac01ddb3449b49c82a4649f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:39 +0000
Subject: [PATCH 12/29] fix: adjacency matrix after a qubit has been removed

---
 flamingpy/codes/graphs/egraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index cd9b80e..c18acca 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -168,7 +168,8 @@ class EGraph(nx.Graph):
             return self.adj_mat
         if self.to_points is None:
             self.index_generator()
-        sorted_nodes = [self.to_points[i] for i in range(self.order())]
+        # Indices need not be consecutive after a removal.
+        sorted_nodes = [self.to_points[i] for i in sorted(self.to_points)]
         # TODO: Reconsider data type for more intricate weights.
         if sparse:
             adj = nx.to_scipy_sparse_array(self, nodelist=sorted_nodes, dtype=np.int8)
-- 
2.43.0


From c7658825b2dd97bf53e94653086a111ebb78e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 13/29] fix: honour the sparse option of adj_generator once a
 matrix is cached

---
 flamingpy/codes/graphs/egraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index c18acca..cc4c374 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -164,7 +164,7 @@ class EGraph(nx.Graph):
         self.index_generator(). This function demands that the indices
         match.
         """
-        if self.adj_mat is not None:
+        if self.adj_mat is not None and isinstance(self.adj_mat, np.ndarray) != sparse:
             return self.adj_mat
         if self.to_points is None:
             self.index_generator()
-- 
2.43.0


From 7a27dafff22ade2c744c6d779d9574d261024c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 14/29] fix: index macronized graphs with qubits outside of the
 macronodes

---
 flamingpy/codes/graphs/egraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index cc4c374..df46f5a 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -149,6 +149,8 @@ class EGraph(nx.Graph):
             points = []
             for vertex in sorted_macro:
                 points += self.macro_to_micro[vertex]
+            # Qubits added outside of the macronodes come last.
+            points += sorted(set(self.nodes()).difference(points))
             ind_dict = {points[i]: i for i in range(N)}
         self.to_indices = ind_dict
         self.to_points = {index: point for point, index in ind_dict.items()}
-- 
2.43.0


From 5680397f5e3e145852e4e12b570c1e4d1983d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 15/29] fix: leave the graph alone when add_qubit rejects the
 neighbors

---
 flamingpy/codes/graphs/egraph.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index df46f5a..c98c528 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -269,6 +269,15 @@ class EGraph(nx.Graph):
                 "Cannot add a qubit to macronode because current EGraph is not macronized."
             )
 
+        # Make sure that the neighbors are supported before changing anything
+        if neighbors is not None and len(neighbors) != 0:
+            if not isinstance(neighbors[0], (int, tuple)):
+                raise TypeError(
+                    "Unsupported type of neighbors. Expected tuples but"
+                    f" {type(neighbors[0])} was given. Type int can only be used when "
+                    "macro is False."
+                )
+
         # Add node
         self.add_node(qubit)
 
@@ -282,14 +291,8 @@ class EGraph(nx.Graph):
                     if self.to_points is None:
                         self.index_generator()
                     neighborhood = [(self.to_points[ind], qubit) for ind in neighbors]
-                elif isinstance(neighbors[0], tuple):
-                    neighborhood = [(tup, qubit) for tup in neighbors]
                 else:
-                    raise TypeError(
-                        "Unsupported type of neighbors. Expected tuples but"
-                        f" {type(neighbors[0])} was given. Type int can only be used when "
-                        "macro is False."
-                    )
+                    neighborhood = [(tup, qubit) for tup in neighbors]
 
                 self.add_edges_from(neighborhood)
 
-- 
2.43.0


From 4bdf1efd4686a007683a7ff2faef6bbf27e3dc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 16/29] fix: keep the micronodes distinct and in their
 macronode for every displacement

---
 flamingpy/codes/graphs/egraph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index c98c528..e874e1a 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -56,7 +56,7 @@ def macronize(can_graph, pad_boundary=False, disp=0.1):
         nx.Graph: the macronized graph, with a macronode-to-micronode
             dictionary stored as a graph attribute.
     """
-    if disp >= 0.5 or disp < 0:
+    if disp >= 0.5 or disp <= 0:
         raise ValueError("Please set disp to a positive value strictly less than 0.5.")
     macro_graph = nx.Graph(**can_graph.graph)
     # The macronode-to-micronode dictionary
@@ -66,8 +66,7 @@ def macronize(can_graph, pad_boundary=False, disp=0.1):
         direction_vec = old_point_2 - old_point_1
         distance = np.linalg.norm(direction_vec)
         periodic_flip = -1 if can_graph.edges[edge].get("periodic") else 1
-        shortened_vec = periodic_flip * disp * direction_vec / distance
-        shortened_vec = np.round(shortened_vec, -int(np.log10(disp)) + 2)
+        shortened_vec = periodic_flip * disp * np.round(direction_vec / distance, 2)
         new_point_1 = tuple(old_point_1 + shortened_vec)
         new_point_2 = tuple(old_point_2 - shortened_vec)
         macro_graph.add_node(new_point_1, **can_graph.nodes[edge[0]])
@@ -89,7 +88,8 @@ def macronize(can_graph, pad_boundary=False, disp=0.1):
                 n_new = 4 - macro_size
                 for i in range(n_new):
                     new_node = list(node)
-                    new_node[i] = new_node[i] + 0.05
+                    # Half the displacement cannot clash with another micronode.
+                    new_node[i] = new_node[i] + disp / 2
                     new_node_tup = tuple(new_node)
                     macro_graph.add_node(new_node_tup, **can_graph.nodes[node])
                     macro_dict[node].append(new_node_tup)
-- 
2.43.0


From c84b013784f15596902e6956c2e192ff9814d404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 17/29] fix: quote record values that contain commas

---
 flamingpy/simulations.py | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/flamingpy/simulations.py b/flamingpy/simulations.py
index 30852a0..a409836 100644
--- a/flamingpy/simulations.py
+++ b/flamingpy/simulations.py
@@ -16,6 +16,7 @@
 # pylint: disable=wrong-import-position,consider-using-with,unused-import
 
 import argparse
+import csv
 import sys
 import warnings
 import logging
@@ -168,29 +169,23 @@ def run_ec_simulation(
         # Open the file for appending if it already exists.
         except FileExistsError:
             file = open(file_name, "a", newline="", encoding="utf8")
-            # writer = csv.writer(file)
-        file.write("%s," % (code.__name__))
-        for value in code_args.values():
-            file.write("%s," % (value))
-        file.write("%s," % (noise.__name__))
-        for value in noise_args.values():
-            file.write("%s," % (value))
-        file.write("%s," % (decoder))
-        for key, value in decoder_args.items():
-            if key == "weight_opts":
-                file.write('"%s",' % (value))
-            else:
-                file.write("%s," % (value))
         current_time = datetime.now().time().strftime("%H:%M:%S")
-        file.write(
-            "%i,%i,%s,%f,%i\n"
-            % (
-                errors,
-                trials,
+        # The writer quotes the values that contain commas (e.g. tuples and dictionaries).
+        writer = csv.writer(file, lineterminator="\n")
+        writer.writerow(
+            [
+                code.__name__,
+                *map(str, code_args.values()),
+                noise.__name__,
+                *map(str, noise_args.values()),
+                decoder,
+                *map(str, decoder_args.values()),
+                "%i" % errors,
+                "%i" % trials,
                 current_time,
-                (simulation_stop_time - simulation_start_time),
-                mpi_size,
-            )
+                "%f" % (simulation_stop_time - simulation_start_time),
+                "%i" % mpi_size,
+            ]
         )
         file.close()
 
-- 
2.43.0


From 466438b64e3eada24fce74a6a06a85cba4121645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 18/29] fix: keep the fractional part of weights in the
 rustworkx backends

---
 flamingpy/codes/graphs/stabilizer_graph.py |  2 +-
 flamingpy/decoders/mwpm/matching.py        | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/flamingpy/codes/graphs/stabilizer_graph.py b/flamingpy/codes/graphs/stabilizer_graph.py
index f1c4761..898f939 100644
--- a/flamingpy/codes/graphs/stabilizer_graph.py
+++ b/flamingpy/codes/graphs/stabilizer_graph.py
@@ -496,7 +496,7 @@ class RxStabilizerGraph(StabilizerGraph):
     def _path_weight(self, path):
         weight = 0
         for e in range(len(path) - 1):
-            weight += int(rx_weight_fn(self.graph.get_edge_data(path[e], path[e + 1])))
+            weight += self.graph.get_edge_data(path[e], path[e + 1])["weight"]
         return weight
 
     def _all_path_nodes(self, paths):
diff --git a/flamingpy/decoders/mwpm/matching.py b/flamingpy/decoders/mwpm/matching.py
index 15f6065..d334042 100644
--- a/flamingpy/decoders/mwpm/matching.py
+++ b/flamingpy/decoders/mwpm/matching.py
@@ -237,19 +237,20 @@ class RxEdgePayload:
         path: the nodes in the stabilizer graph along the minimum-weight-path.
     """
 
-    weight: int
+    weight: Union[int, float]
     path: List[Node]
 
 
 class RxMatchingGraph(MatchingGraph):
     """A matching graph backed by rustworkx.
 
-    The edge weights must be of type int.
+    The edge weights can be either of type int or float. Since rustworkx only
+    supports integers, non-integer weights are matched in fixed-point precision.
 
     See the MatchingGraph class for more details.
     """
 
-    Weight = int
+    Weight = Union[int, float]
 
     def __init__(self, ec, code=None):
         self.graph = rx.PyGraph(multigraph=False)
@@ -284,10 +285,12 @@ class RxMatchingGraph(MatchingGraph):
         return self.graph.get_edge_data(self.node_index(edge[0]), self.node_index(edge[1])).path
 
     def min_weight_perfect_matching(self) -> List[Edge]:
+        integral = all(edge.weight == int(edge.weight) for edge in self.graph.edges())
+        scale = 1 if integral else 2**32
         matches = rx.max_weight_matching(
             self.graph,
             max_cardinality=True,
-            weight_fn=lambda edge: -edge.weight,
+            weight_fn=lambda edge: -round(edge.weight * scale),
         )
         return [(self.index_to_node[pair[0]], self.index_to_node[pair[1]]) for pair in matches]
 
-- 
2.43.0


From 1f2ce193e4fbf739ec0c86dd7b7e053c6babd1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:40 +0000
Subject: [PATCH 19/29] fix: recognise sparse matrices as well as sparse arrays

---
 flamingpy/cv/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/cv/ops.py b/flamingpy/cv/ops.py
index 225545a..dd1c6fb 100644
--- a/flamingpy/cv/ops.py
+++ b/flamingpy/cv/ops.py
@@ -30,7 +30,7 @@ def invert_permutation(p):
 
 def issparse(array):
     """Check if an array is sparse. Backwards-compatible with old SciPy versions."""
-    return isinstance(array, getattr(sp, "sparray", sp.coo_matrix))
+    return sp.issparse(array)
 
 
 def SCZ_mat(adj, sparse=True):
-- 
2.43.0


From 3d9083f9e5317167a009922a619596159c5ef452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:40 +0000
Subject: [PATCH 20/29] fix: do not truncate block-wise CZ results to the type
 of the quadratures

---
 flamingpy/cv/ops.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/flamingpy/cv/ops.py b/flamingpy/cv/ops.py
index dd1c6fb..68c309b 100644
--- a/flamingpy/cv/ops.py
+++ b/flamingpy/cv/ops.py
@@ -85,9 +85,7 @@ def SCZ_apply(adj, quads, one_shot=True):
         else:
             old_qs = quads[:N]
             old_ps = quads[N:]
-            new_quads = np.empty(2 * N, quads.dtype)
-            new_quads[:N] = old_qs
-            new_quads[N:] = adj.dot(old_qs) + old_ps
+            new_quads = np.concatenate((old_qs, adj.dot(old_qs) + old_ps))
     if len(quads.shape) == 2:
         if one_shot:
             SCZ = SCZ_mat(adj)
-- 
2.43.0


From 553e28eaf31cb5113616a4e7e221f968d1a1eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 21/29] fix: accept lists of state indices in CVLayer

---
 flamingpy/noise/cv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 1792e54..53a567e 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -287,6 +287,7 @@ class CVLayer:
             noise_q = {"p": 1 / (2 * delta) ** 0.5, "GKP": (delta / 2) ** 0.5}
             noise_p = {"p": (delta / 2) ** 0.5, "GKP": (delta / 2) ** 0.5}
             for state, indices in self.states.items():
+                indices = np.asarray(indices)
                 if self._perfect_inds:
                     indices = np.array(list(set(indices).difference(self._perfect_inds)))
                 if len(indices) > 0:
-- 
2.43.0


From acc69dfa2eafd3bce53f463c641a5b064d2e6189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:24 +0000
Subject: [PATCH 22/29] fix: index qubits added to an emptied graph

---
 flamingpy/codes/graphs/egraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index e874e1a..cb6fdaa 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -312,7 +312,7 @@ class EGraph(nx.Graph):
 
         # Update dictionaries
         if self.to_indices is not None:
-            new_index = max(self.to_points) + 1
+            new_index = max(self.to_points, default=-1) + 1
             self.to_points[new_index] = qubit
             self.to_indices[qubit] = new_index
 
-- 
2.43.0


From d5a507ec88e495fa9ad92c984fc697a3950ac2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:24 +0000
Subject: [PATCH 23/29] fix: resolve neighbor indices before the new qubit is
 added

---
 flamingpy/codes/graphs/egraph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index cb6fdaa..89a8468 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -277,6 +277,9 @@ class EGraph(nx.Graph):
                     f" {type(neighbors[0])} was given. Type int can only be used when "
                     "macro is False."
                 )
+            # Indices refer to the graph without the new qubit
+            if isinstance(neighbors[0], int) and self.to_points is None:
+                self.index_generator()
 
         # Add node
         self.add_node(qubit)
@@ -288,8 +291,6 @@ class EGraph(nx.Graph):
         if neighbors is not None:
             if len(neighbors) != 0:
                 if isinstance(neighbors[0], int):
-                    if self.to_points is None:
-                        self.index_generator()
                     neighborhood = [(self.to_points[ind], qubit) for ind in neighbors]
                 else:
                     neighborhood = [(tup, qubit) for tup in neighbors]
-- 
2.43.0


From 870dea8d56b3f7ebb2155096162dcf6c30d63eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:56 +0000
Subject: [PATCH 24/29] fix: to_nx keeps the stabilizers and boundary points of
 the converted graph

---
 flamingpy/codes/graphs/stabilizer_graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flamingpy/codes/graphs/stabilizer_graph.py b/flamingpy/codes/graphs/stabilizer_graph.py
index 898f939..365db27 100644
--- a/flamingpy/codes/graphs/stabilizer_graph.py
+++ b/flamingpy/codes/graphs/stabilizer_graph.py
@@ -337,6 +337,9 @@ class StabilizerGraph(ABC):
         if isinstance(self, NxStabilizerGraph):
             return self
         nx_graph = NxStabilizerGraph()
+        nx_graph.stabilizers = list(self.stabilizers)
+        nx_graph.low_bound_points = list(self.low_bound_points)
+        nx_graph.high_bound_points = list(self.high_bound_points)
         for edge in self.edges():
             nx_graph.add_edge(*edge, self.edge_data(*edge)["common_vertex"])
             if "weight" in self.edge_data(*edge):
-- 
2.43.0


From 9c15672b15face2be338a9c7f25921e6ff21ed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:46 +0000
Subject: [PATCH 25/29] fix: list every syndrome qubit once in the syndrome
 indices

---
 flamingpy/codes/surface_code.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flamingpy/codes/surface_code.py b/flamingpy/codes/surface_code.py
index ef9a9ed..9df5f04 100644
--- a/flamingpy/codes/surface_code.py
+++ b/flamingpy/codes/surface_code.py
@@ -420,7 +420,9 @@ class SurfaceCode:
                 cube.physical = stabe
                 syndrome_coords += actual_stabe
                 all_cubes.append(cube)
-            setattr(self, ec + "_syndrome_coords", list(set(syndrome_coords)))
+            # Qubits shared by several stabilizers are listed once.
+            syndrome_coords = list(set(syndrome_coords))
+            setattr(self, ec + "_syndrome_coords", syndrome_coords)
             setattr(
                 self,
                 ec + "_syndrome_inds",
-- 
2.43.0


From 35e5d59dc709626422c9a4d8bf4726b7def28cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:32 +0000
Subject: [PATCH 26/29] fix: peel forests with branches longer than the
 recursion limit

---
 flamingpy/decoders/unionfind/algos.py | 38 +++++++++++++++------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/flamingpy/decoders/unionfind/algos.py b/flamingpy/decoders/unionfind/algos.py
index 3e3b6e2..cb8c055 100644
--- a/flamingpy/decoders/unionfind/algos.py
+++ b/flamingpy/decoders/unionfind/algos.py
@@ -268,23 +268,27 @@ def trim_forest(spanning_forest, leaf, parity_dict, recovery):
     Returns:
         NoneType
     """
-    edges = list(spanning_forest.out_edges(leaf))
-    if edges:
-        edge = edges[0]
-    else:
-        return
-    edge_qubit_index = spanning_forest.get_edge_data(edge[0], edge[1])["common_vertex"]
-    spanning_forest.remove_edge(edge[0], edge[1])
-    if edge[0] == leaf:
-        new_leaf = edge[1]
-    else:
-        new_leaf = edge[0]
-    if parity_dict[leaf] == 1:
-        recovery.add(edge_qubit_index)
-        parity_dict[leaf] = 0
-        parity_dict[new_leaf] ^= 1
-    if spanning_forest.degree(new_leaf) == 1:
-        trim_forest(spanning_forest, new_leaf, parity_dict, recovery)
+    # Iterate rather than recurse: a branch can be longer than the recursion
+    # limit.
+    while True:
+        edges = list(spanning_forest.out_edges(leaf))
+        if edges:
+            edge = edges[0]
+        else:
+            return
+        edge_qubit_index = spanning_forest.get_edge_data(edge[0], edge[1])["common_vertex"]
+        spanning_forest.remove_edge(edge[0], edge[1])
+        if edge[0] == leaf:
+            new_leaf = edge[1]
+        else:
+            new_leaf = edge[0]
+        if parity_dict[leaf] == 1:
+            recovery.add(edge_qubit_index)
+            parity_dict[leaf] = 0
+            parity_dict[new_leaf] ^= 1
+        if spanning_forest.degree(new_leaf) != 1:
+            return
+        leaf = new_leaf
 
 
 def peeling(spanning_forest, parity_dict):
-- 
2.43.0


From 90a8fbf036957a34e8bfd79971acc31a0f2742d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:45 +0000
Subject: [PATCH 27/29] fix: do not remove the boundary nodes of the stabilizer
 graph when drawing it

---
 flamingpy/utils/viz.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index b685e12..c559cad 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -728,11 +728,13 @@ def draw_dec_graph(graph, label_edges=False, node_labels=None, title=""):
     if not isinstance(graph.graph, nx.Graph):
         raise ValueError("The graph must be implemented with the networkx backend.")
 
-    # Remove 'low' and 'high' nodes, which are not important for visualization.
+    # Remove 'low' and 'high' nodes, which are not important for visualization
+    # (from a copy, since the graph is still needed for decoding).
     if graph.__class__.__name__ == "NxStabilizerGraph":
-        graph.graph.remove_nodes_from({"low", "high"})
-
-    graph = graph.graph
+        graph = graph.graph.copy()
+        graph.remove_nodes_from(("low", "high"))
+    else:
+        graph = graph.graph
     layout = nx.circular_layout(graph)
 
     fig, ax = plt.subplots()
-- 
2.43.0


From daed74151be3255a2bd027dee971f01cfbbf592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:00 +0000
Subject: [PATCH 28/29] fix: report nodes without the requested label when the
 plot has no title

---
 flamingpy/utils/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index c559cad..48486eb 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -551,7 +551,7 @@ def _plot_EGraph_nodes(ax, egraph, color_nodes, label, name, legend):
 
     if label and n_uncomputed > 0:
         message = "{} at {} node(s) have not yet been computed."
-        print(message.format(name.lower(), n_uncomputed))
+        print(message.format((name or _get_title(True, label)).lower(), n_uncomputed))
 
     # Plotting nodes legend
     if isinstance(color_nodes, tuple) and legend:
-- 
2.43.0


From 507129a20dee971a5b1976cee53296ffb24bc547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:28 +0000
Subject: [PATCH 29/29] fix: draw syndromes and recoveries in the same axes as
 the graph state

---
 flamingpy/utils/viz.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index 48486eb..69bfc9e 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -880,14 +880,15 @@ def syndrome_plot(code, ec, index_dict=None, drawing_opts=None):
         fig = plt.figure()
         ax = fig.add_subplot(projection="3d")
         plt.xticks(range(0, 2 * shape[0] - 1))
-        plt.yticks(range(0, 2 * shape[1] - 1))
-        ax.set_zticks(range(0, 2 * shape[2] - 1))
+        plt.yticks(range(0, 2 * shape[2] - 1))
+        ax.set_zticks(range(0, 2 * shape[1] - 1))
         ax.set_xlabel("x", labelpad=20)
         ax.set_ylabel("z", labelpad=20)
         ax.set_zlabel("y", labelpad=20)
         leg = None
     # Illustrate stabilizers with voxels colored green for even
-    # parity and red for odd pariy.
+    # parity and red for odd pariy. As in draw_EGraph, y and z are swapped
+    # so that z goes into the page.
     positions, colors, sizes = [], [], []
     for cube in cubes:
         # Obtain smallest, largest, and middle coordinates for each
@@ -904,15 +905,15 @@ def syndrome_plot(code, ec, index_dict=None, drawing_opts=None):
 
         # gap defines the distance between adjacent cubes
         gap = 0.15
-        min_arr = np.array([xmin, ymin, zmin])
-        max_arr = np.array([xmax, ymax, zmax])
+        min_arr = np.array([xmin, zmin, ymin])
+        max_arr = np.array([xmax, zmax, ymax])
         positions.append(min_arr + gap)
         sizes.append(np.abs(max_arr - min_arr) - 2 * gap)
         colors.append(color)
 
         if drawing_opts["label_stabilizers"] and index_dict:
             if cube in index_dict:
-                ax.text(xmid, ymid, zmid, index_dict[cube])
+                ax.text(xmid, zmid, ymid, index_dict[cube])
 
     # draw cubes
     pc = _plot_cubes_at(positions, colors=colors, sizes=sizes)
@@ -921,14 +922,15 @@ def syndrome_plot(code, ec, index_dict=None, drawing_opts=None):
     # setting plot limits to give some room to the boxes
     ymin = 0 if ec == "primal" else -2
     ax.set_xlim(0, 2 * shape[0])
-    ax.set_ylim(ymin, 2 * shape[1])
-    ax.set_zlim(0, 2 * shape[2])
+    ax.set_ylim(0, 2 * shape[2])
+    ax.set_zlim(ymin, 2 * shape[1])
 
     if drawing_opts["label_boundary"] and index_dict:
         bound_points = getattr(code, ec + "_bound_points")
         for point in bound_points:
-            ax.scatter(*point, s=5, c="k")
-            ax.text(*point, index_dict[point])
+            x, z, y = point
+            ax.scatter(x, y, z, s=5, c="k")
+            ax.text(x, y, z, index_dict[point])
 
     # Define a legend for red/green cubes.
     legend_elements = [
@@ -1005,7 +1007,8 @@ def add_recovery_drawing(ax, **kwargs):
     recovery_set = kwargs.get("recovery_set")
     if recovery_set:
         for point in recovery_set:
-            ax.plot(*point, "o", c="k", markersize=6)
+            x, z, y = point
+            ax.plot(x, y, z, "o", c="k", markersize=6)
     matching = kwargs.get("matching")
     G_match = kwargs.get("matching_graph")
     if matching:
@@ -1016,9 +1019,9 @@ def add_recovery_drawing(ax, **kwargs):
                 path = G_match.edge_path(pair)
                 for node in path:
                     if isinstance(node, Stabilizer):
-                        x, y, z = node.midpoint()
+                        x, z, y = node.midpoint()
                     else:
-                        x, y, z = node
+                        x, z, y = node
                         plt.plot(x, y, z, marker="2", markersize=15, c="k")
                     xlist += [x]
                     ylist += [y]
-- 
2.43.0

