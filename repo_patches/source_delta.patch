From 477f7d8b4c8f3bda88db043540a1781d6a6ad77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 01/23] fix: dual_graph_H misses dual edges when an edge is
 reported as (larger, smaller)

---
 src/ff/ff_graph_theory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index e2098f7..4469616 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -277,6 +277,8 @@ def dual_graph_H(G, F, T):
 
     # go through edges missing from tree
     for e in edges_not_in_t:
+        # face edges are stored sorted, so compare with the sorted edge
+        e = tuple(sorted(e))
         u = None
         v = None
 
-- 
2.43.0


From 2a2015421cdf26e1b4b3973d016ce31f9408b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 02/23] fix: pfo_algorithm assumes nodes are labelled 0..n-1 in
 order

---
 src/ff/ff_graph_theory.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 4469616..796e276 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -548,8 +548,12 @@ def pfo_algorithm(graph, verbose=False):
         verbose: Print debug information and plots (optional)
 
     Returns:
-        NumPy array representing the pfaffian ordering matrix
+        NumPy array representing the pfaffian ordering matrix. Rows and columns
+        follow the order of graph.nodes, as in nx.adjacency_matrix(graph).
     """
+    # the orientation is indexed by node, so label the nodes by their position
+    graph = nx.convert_node_labels_to_integers(graph)
+
     # Step 1: Find spanning tree
     T = nx.maximum_spanning_tree(graph)
 
-- 
2.43.0


From 1597612a5a3c8302c591743c6220cc7681aec4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 03/23] fix: pfo_algorithm fails on disconnected and edgeless
 graphs

---
 src/ff/ff_graph_theory.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 796e276..72762c6 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -554,6 +554,21 @@ def pfo_algorithm(graph, verbose=False):
     # the orientation is indexed by node, so label the nodes by their position
     graph = nx.convert_node_labels_to_integers(graph)
 
+    # the dual graph is only a tree for a connected graph with a face, so orient
+    # each connected component on its own
+    if graph.number_of_edges() == 0:
+        return np.zeros((len(graph), len(graph)))
+
+    if not nx.is_connected(graph):
+        pfo = np.zeros((len(graph), len(graph)))
+        for component in nx.connected_components(graph):
+            nodes = sorted(component)
+            part = graph.__class__()
+            part.add_nodes_from(nodes)
+            part.add_edges_from(graph.edges(nodes, data=True))
+            pfo[np.ix_(nodes, nodes)] = pfo_algorithm(part, verbose=verbose)
+        return pfo
+
     # Step 1: Find spanning tree
     T = nx.maximum_spanning_tree(graph)
 
-- 
2.43.0


From 800374b1caddecd92ada2c44839c79650e385ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 04/23] fix: complete_face leaves the orientation matrix not
 skew-symmetric

---
 src/ff/ff_graph_theory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 72762c6..35ca28d 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -445,10 +445,10 @@ def complete_face(pfo, edges, verbose=False):
 
     if sign == -1:
         pfo[u, v] = prefix
-        pfo[v, u] = prefix
+        pfo[v, u] = -1 * prefix
     else:
         pfo[u, v] = -1 * prefix
-        pfo[v, u] = -1 * prefix
+        pfo[v, u] = prefix
 
     return pfo
 
-- 
2.43.0


From 59a1df5385efe3c4eb78f48d6b538577176d76af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 05/23] fix: count_perfect_matchings returns complex or nan
 counts for singular graphs

---
 src/ff/ff_graph_theory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index 35ca28d..f7fd52d 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -499,7 +499,8 @@ def count_perfect_matchings_planar(graph):
     pfoA = np.triu(pfoA)
     pfoA = pfoA - pfoA.T
 
-    return clean(np.sqrt(dt_eigen(pfoA)), 10)
+    # det(pfoA) = pf(pfoA)^2 is real and non-negative up to rounding errors
+    return clean(np.sqrt(np.abs(dt_eigen(pfoA))), 10)
 
 
 def find_perfect_matchings_brute(graph):
-- 
2.43.0


From 32abfca39c95bf8ed3c60e1422b41977740b839c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 06/23] fix: generate_random_planar_graph ignores seed=0

---
 src/ff/ff_graph_theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index f7fd52d..b757375 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -187,7 +187,7 @@ def generate_random_planar_graph(n, seed=None):
         Returns None if a planar graph with n nodes cannot be generated
         within a reasonable number of attempts.
     """
-    if seed:
+    if seed is not None:
         random.seed(seed)
 
     max_attempts = 1000  # Limit the number of attempts to find a planar graph
-- 
2.43.0


From fd79b9d52c4a66c89b58e6d21afe72f5a604e64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:34 +0000
Subject: [PATCH 07/23] fix: compute_cov_matrix fails without an explicit
 n_sites

---
 src/ff/ff_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index cbdaf5f..a4d9b6a 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -810,7 +810,7 @@ def compute_cov_matrix(rho, n_sites=None, alphas=None):
     """
     if n_sites is None:
         N = rho.shape[0]
-        n_sites = np.round(np.log2(N))
+        n_sites = int(np.round(np.log2(N)))
 
     if alphas is None:
         alphas = jordan_wigner_alphas(n_sites)
-- 
2.43.0


From 28ef3b3bb0f3df7e267004f9f4d0ecbc61edabc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:34 +0000
Subject: [PATCH 08/23] fix: random_FF_state(pure=True, returnH=True) returns
 an unrelated generator without a seed

---
 src/ff/ff_lib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index a4d9b6a..273cb10 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -472,7 +472,8 @@ def random_FF_state(n_sites, fixedN=False, seed=None, returnH=False, pure=False)
 
     if pure:
         # For pure states, apply Haar random unitary to vacuum state
-        W_op = random_FF_rotation(n_sites, seed=seed)
+        H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)
+        W_op = expm(-1j * H_op)
         zero_state = np.zeros((2**n_sites, 1), dtype=complex)
         zero_state[0, 0] = 1  # Set the first element to 1 (ground state)
         psi = W_op @ zero_state
@@ -481,8 +482,7 @@ def random_FF_state(n_sites, fixedN=False, seed=None, returnH=False, pure=False)
         assert np.allclose(1, np.linalg.norm(psi))
 
         if returnH:
-            # Get the generator that produced this unitary
-            H_op = random_FF_rotation(n_sites, seed=seed, returnH=True)
+            # Return the generator that produced this unitary
             return psi, H_op
         else:
             return psi
-- 
2.43.0


From 06e89a9be10631b208e2f003349e0fc320813834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:00 +0000
Subject: [PATCH 09/23] fix: eigm_sp_can loses the canonical block form in the
 presence of zero modes

---
 src/ff/ff_lib.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 273cb10..4711a8e 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -1243,8 +1243,14 @@ def eigm_sp_can(G):
 
     iG = -G.imag
 
+    # we want the non-zero eigenvalue to appear first (otherwise a zero mode
+    # shifts the 2x2 blocks that follow it out of alignment)
+    def sfunction(x, y=None):
+        z = x if y is None else x + y * 1j
+        return abs(z) > 1e-10
+
     # from scipy.linalg
-    [L, O] = schur(iG)
+    [L, O, _] = schur(iG, sort=sfunction)
 
     # we will sort the states according to eigenvalues of A
 
-- 
2.43.0


From 2d847d2060683124191ec48e46df3b5ca0549f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:00 +0000
Subject: [PATCH 10/23] fix: kron_plus fails on rectangular blocks

---
 src/ff/ff_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 65801dc..99371eb 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -185,7 +185,8 @@ def kron_plus(a, b):
         Direct sum matrix [[a, 0], [0, b]]
     """
     Z01 = np.zeros((a.shape[0], b.shape[1]))
-    return np.block([[a, Z01], [Z01.T, b]])
+    Z10 = np.zeros((b.shape[0], a.shape[1]))
+    return np.block([[a, Z01], [Z10, b]])
 
 
 def cast_to_pdf(rho):
-- 
2.43.0


From 998868769efcdec717a1200b18f3d54bd21163c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:00 +0000
Subject: [PATCH 11/23] fix: renyi_entropy underflows to inf for large alpha

---
 src/ff/ff_distance_measures.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_distance_measures.py b/src/ff/ff_distance_measures.py
index 7ec7d3e..767fbca 100644
--- a/src/ff/ff_distance_measures.py
+++ b/src/ff/ff_distance_measures.py
@@ -312,9 +312,11 @@ def renyi_entropy(p, a):
 
     # General case: α-Rényi entropy
     # S_α(p) = (1/(1-α)) * log(||p||_α^α) where ||p||_α is the α-norm
-    l_a = np.linalg.norm(p, ord=a)
+    # with the largest element factored out, so that p_i^α cannot underflow
+    p_max = np.max(p)
+    l_a = np.linalg.norm(p / p_max, ord=a)
 
-    return np.log(l_a) * (a / (1 - a))
+    return (np.log(p_max) + np.log(l_a)) * (a / (1 - a))
 
 
 def linear_entropy(p):
-- 
2.43.0


From 7f6735a17c6311ea40e1a933191b5b08e7e003c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 12/23] fix: cast_to_pdf returns negative probabilities for
 rounded density matrices

---
 src/ff/ff_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 99371eb..740795e 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -203,6 +203,10 @@ def cast_to_pdf(rho):
             "Probability distribution has " "non-negligible imaginary part"
         )
 
+    # a valid density matrix can have diagonal elements that are negative by a
+    # rounding error, probabilities cannot
+    pdf = np.maximum(pdf, 0)
+
     return pdf
 
 
-- 
2.43.0


From 9d63f851635cda0c1df7fc5b93e6287845a1b535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:41 +0000
Subject: [PATCH 13/23] fix: clean keeps values below the threshold in real
 arrays and scalars

---
 src/ff/ff_utils.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index 740795e..aebc383 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -63,6 +63,13 @@ def _print(obj, k=9):
         np.set_printoptions(precision=p)
 
 
+def _round_small(obj, ndigits, threshold):
+    """Round obj to ndigits, with values below the threshold set to zero."""
+    rounded = np.array(np.round(obj, ndigits), subok=True)
+    rounded[(np.abs(obj) < threshold) | (np.abs(rounded) < threshold)] = 0
+    return rounded[()]
+
+
 def clean(obj, threshold=1e-6):
     """
     Clean small numerical values from arrays or matrices.
@@ -87,10 +94,7 @@ def clean(obj, threshold=1e-6):
     if isinstance(obj, list):
         # If it's a list, convert to numpy array
         obj_array = np.array(obj)
-        obj_array = np.round(obj_array, ndigits)
-        # Set small values to zero
-        obj_array[np.abs(obj_array) < threshold] = 0
-        return obj_array.tolist()
+        return _round_small(obj_array, ndigits, threshold).tolist()
 
     elif isinstance(obj, (np.matrix, np.ndarray)):
         # If it's a numpy matrix or array, ensure it's a numpy array
@@ -98,33 +102,31 @@ def clean(obj, threshold=1e-6):
             # If it's complex, check the imaginary part
             if np.all(np.abs(obj.imag) < threshold):
                 # If the imaginary part is small, return only the real part
-                return np.round(obj.real, ndigits)
+                obj = obj.real
         # Round the array and set small values to zero
-        obj = np.round(obj, ndigits)
-        obj[np.abs(obj) < threshold] = 0
-        return obj
+        return _round_small(obj, ndigits, threshold)
 
     if isinstance(obj, str):
         if obj.replace(".", "", 1).isnumeric():
             # If it's a numeric string, convert to float
             obj = float(obj)
-            obj = np.round(obj, ndigits)
+            obj = _round_small(obj, ndigits, threshold)
             return str(obj)
         else:
             # If it's a non-numeric string, return as is
             return obj
 
     elif isinstance(obj, (int, float)):
-        return np.round(obj, ndigits)
+        return _round_small(obj, ndigits, threshold)
 
     elif isinstance(obj, complex):
         if abs(obj.imag) < threshold:
             # If the imaginary part is small, return only the real part
-            return np.round(obj.real, ndigits)
+            return _round_small(obj.real, ndigits, threshold)
         else:
             # If the imaginary part is significant, return the
             # complex number rounded
-            return np.round(obj, ndigits)
+            return _round_small(obj, ndigits, threshold)
     else:
         raise TypeError("Unsupported type for cleaning: {}".format(type(obj)))
 
-- 
2.43.0


From 72cd3a41595bf5145dcc93c87ece32fd5f4e1382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:41 +0000
Subject: [PATCH 14/23] fix: pf, hf, pt and dt overflow for integer matrices

---
 src/ff/ff_combinatorics.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_combinatorics.py b/src/ff/ff_combinatorics.py
index c544023..4dbd393 100644
--- a/src/ff/ff_combinatorics.py
+++ b/src/ff/ff_combinatorics.py
@@ -14,6 +14,11 @@ import math
 import numpy as np
 
 
+def _exact(A):
+    """Use Python integers for integer matrices: fixed-width ones can overflow."""
+    return A.astype(object) if A.dtype.kind in "iu" else A
+
+
 def sgn(permutation):
     """Computes the sign of a permutation by counting inversions.
 
@@ -53,6 +58,7 @@ def pf(A):
     """
     if not isinstance(A, np.ndarray):
         A = np.array(A)
+    A = _exact(A)
 
     n_verts = A.shape[0]
     if n_verts % 2 != 0:
@@ -93,6 +99,7 @@ def hf(A):
     """
     if not isinstance(A, np.ndarray):
         A = np.asarray(A)
+    A = _exact(A)
 
     n_verts = A.shape[0]
     if n_verts % 2 != 0:
@@ -130,7 +137,7 @@ def pt(A):
     Returns:
         Permanent value (complex or real)
     """
-    A = np.asarray(A)
+    A = _exact(np.asarray(A))
     n = len(A)
 
     perms = itertools.permutations(range(n))
@@ -162,7 +169,7 @@ def dt(A):
     Returns:
         Determinant value (complex or real)
     """
-    A = np.asarray(A)
+    A = _exact(np.asarray(A))
     n = len(A)
 
     perms = itertools.permutations(range(n))
-- 
2.43.0


From b2533b804e806c62145d49852281a0d4d93b42a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:41 +0000
Subject: [PATCH 15/23] fix: build_unitary_path fails for a degenerate
 eigenvalue -1

---
 src/ff/ff_random_states.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_random_states.py b/src/ff/ff_random_states.py
index 45b6d04..c413eb2 100644
--- a/src/ff/ff_random_states.py
+++ b/src/ff/ff_random_states.py
@@ -17,7 +17,7 @@ Copyright 2025 James.D.Whitfield@dartmouth.edu
 """
 
 import numpy as np
-from scipy.linalg import expm, logm
+from scipy.linalg import expm, schur
 from scipy.stats import unitary_group
 
 from .ff_lib import (
@@ -727,8 +727,11 @@ def build_unitary_path(w, v):
 
     assert np.allclose(U @ U.conj().T, np.eye(n)), "U is not unitary"
 
-    # Compute the Hermitian matrix of U
-    H = 1j * logm(U)
+    # Compute the Hermitian matrix of U. The Schur vectors of a unitary are its
+    # orthonormal eigenvectors, also for a degenerate eigenvalue on the branch
+    # cut of the logarithm
+    T, Z = schur(U, output="complex")
+    H = -(Z * np.angle(np.diag(T))) @ Z.conj().T
 
     assert np.allclose(
         H - H.conj().T, 0
-- 
2.43.0


From c94cc17d5f72958b7a792913ab927c1d11a5c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:41 +0000
Subject: [PATCH 16/23] fix: SRE of a maximally mixed state depends on rounding
 errors

---
 src/ff/ff_distance_measures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_distance_measures.py b/src/ff/ff_distance_measures.py
index 767fbca..642a8b5 100644
--- a/src/ff/ff_distance_measures.py
+++ b/src/ff/ff_distance_measures.py
@@ -216,7 +216,8 @@ def SRE(rho, a=2):
     xi = stabilizer_distribution(rho)
 
     # Appendix of Leone et al does not define SRE for completely mixed state
-    if np.nonzero(xi)[0].size == 1:
+    # (where only the identity has weight, up to rounding errors)
+    if np.isclose(xi[0], 1):
         return 0.0
 
     # Compute Rényi entropy of the distribution and subtract log(d)
-- 
2.43.0


From 413441320afbfe49e7abacae0b7162aeb6d6ab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 17/23] fix: generate_gaussian_state exponentiates the
 coefficient matrix itself for one and two sites

---
 src/ff/ff_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 4711a8e..e58a54a 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -735,7 +735,8 @@ def generate_gaussian_state(n_sites, H, alphas=None):
     if H.shape[0] == 2 * n_sites:
         H_op = build_op(n_sites, H, alphas)
 
-    if H.shape[0] == 2**n_sites:
+    # 2n == 2**n for one and two sites: H is the coefficient matrix there
+    elif H.shape[0] == 2**n_sites:
         H_op = H
 
     if H_op is None:
-- 
2.43.0


From 01c366a85d88ed0d27c3a76fdea7943b9b60c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:14 +0000
Subject: [PATCH 18/23] fix: cast_to_density_matrix reads near-deterministic
 distributions as distributions

---
 src/ff/ff_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ff/ff_utils.py b/src/ff/ff_utils.py
index aebc383..eb3f48b 100644
--- a/src/ff/ff_utils.py
+++ b/src/ff/ff_utils.py
@@ -233,8 +233,12 @@ def cast_to_density_matrix(rho):
         l1_norm = np.linalg.norm(rho_flat, ord=1)
         l2_norm = np.linalg.norm(rho_flat, ord=2)
 
-        # Determine if it's a wavefunction or probability distribution
-        if np.allclose(l2_norm, 1):
+        # Determine if it's a wavefunction or probability distribution. Close to
+        # a single outcome both norms are near 1: nonnegative entries whose L1
+        # norm is the nearer one are a distribution.
+        nonnegative = np.allclose(rho_flat, np.abs(rho_flat), rtol=0, atol=1e-12)
+        nearer_l1 = abs(l1_norm - 1) < abs(l2_norm - 1)
+        if np.allclose(l2_norm, 1) and not (nonnegative and nearer_l1):
             # Treated as normalized wavefunction
             rho = rho.reshape(-1, 1)  # Ensure column vector
             rho = rho @ rho.conj().T
-- 
2.43.0


From 36e3eeab7f980621b8558282676d9c60cd2a0c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 19/23] fix: count_perfect_matchings returns rounding noise for
 graphs without a perfect matching

For larger planar graphs the noise of the singular determinant exceeds the
clean-up threshold: a 59-vertex cactus was reported to have 336395 matchings.
---
 src/ff/ff_graph_theory.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ff/ff_graph_theory.py b/src/ff/ff_graph_theory.py
index b757375..0aff55c 100644
--- a/src/ff/ff_graph_theory.py
+++ b/src/ff/ff_graph_theory.py
@@ -489,6 +489,12 @@ def count_perfect_matchings_planar(graph):
         return 0
         # Trivial case, no non-zero matchings
 
+    # without a perfect matching the determinant below is only rounding noise,
+    # which grows with the graph
+    largest = nx.max_weight_matching(nx.Graph(graph), maxcardinality=True, weight=None)
+    if 2 * len(largest) < len(graph):
+        return 0
+
     A = nx.adjacency_matrix(graph).toarray()
 
     # run the pfo algorithm
-- 
2.43.0


From 67b5ea46c55d75e82986aa5ec4a7d44b247e990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 20/23] fix: renyi_entropy overflows to inf for small orders

---
 src/ff/ff_distance_measures.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ff/ff_distance_measures.py b/src/ff/ff_distance_measures.py
index 642a8b5..05d95ea 100644
--- a/src/ff/ff_distance_measures.py
+++ b/src/ff/ff_distance_measures.py
@@ -315,9 +315,8 @@ def renyi_entropy(p, a):
     # S_α(p) = (1/(1-α)) * log(||p||_α^α) where ||p||_α is the α-norm
     # with the largest element factored out, so that p_i^α cannot underflow
     p_max = np.max(p)
-    l_a = np.linalg.norm(p / p_max, ord=a)
-
-    return (np.log(p_max) + np.log(l_a)) * (a / (1 - a))
+    log_sum = np.log(np.sum((p / p_max) ** a))
+    return (a * np.log(p_max) + log_sum) / (1 - a)
 
 
 def linear_entropy(p):
-- 
2.43.0


From a608ca9c3f8db220efb26eadacfaa4144abcff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 21/23] fix: is_symp accepts the 3x3 identity and raises for
 other matrices of odd or unequal dimensions

---
 src/ff/ff_lib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index e58a54a..068be93 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -649,6 +649,10 @@ def is_symp(U):
     Returns:
         True if U is symplectic, False otherwise
     """
+    if U.ndim != 2 or U.shape[0] != U.shape[1] or U.shape[0] % 2:
+        print("Error: a symplectic matrix is square of even dimension")
+        return False
+
     n_sites = U.shape[0] // 2
 
     aa = U[:n_sites, :n_sites]
-- 
2.43.0


From d776f67ad4d4315b7b349bf6d947303a57952d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:44 +0000
Subject: [PATCH 22/23] fix: build_unitary_path fails for single-precision
 vectors

---
 src/ff/ff_random_states.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ff/ff_random_states.py b/src/ff/ff_random_states.py
index c413eb2..e153745 100644
--- a/src/ff/ff_random_states.py
+++ b/src/ff/ff_random_states.py
@@ -624,6 +624,8 @@ def get_orthogonal_vectors(v):
         - For zero vectors, returns standard basis vectors
     """
     v = np.asarray(v)
+    # single precision would not give a basis orthonormal to working accuracy
+    v = v.astype(np.result_type(v, np.float64))
     if len(v.shape) == 1:
         v = v.reshape(-1, 1)
 
@@ -695,6 +697,8 @@ def build_unitary_path(w, v):
     # Normalize the vectors
     w = np.asarray(w)
     v = np.asarray(v)
+    w = w.astype(np.result_type(w, np.float64))
+    v = v.astype(np.result_type(v, np.float64))
 
     if len(w.shape) == 1:
         w = w.reshape(-1, 1)
-- 
2.43.0


From d75a42b42ac84f33d2bf41ca359e0816cca1a881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:16 +0000
Subject: [PATCH 23/23] fix: build_H, build_V and generate_gaussian_state wrap
 around for unsigned integers

---
 src/ff/ff_lib.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ff/ff_lib.py b/src/ff/ff_lib.py
index 068be93..7140563 100644
--- a/src/ff/ff_lib.py
+++ b/src/ff/ff_lib.py
@@ -366,6 +366,9 @@ def build_V(n_sites, A, Z=None):
     if Z is None:
         Z = np.zeros_like(A)
 
+    # the negations below would wrap around for unsigned integers
+    A, Z = np.asarray(A, dtype=complex), np.asarray(Z, dtype=complex)
+
     V = np.zeros((2 * n_sites, 2 * n_sites), dtype=complex)
 
     V[:n_sites, :n_sites] = -Z.conj()
@@ -401,6 +404,9 @@ def build_H(n_sites, A, B=None):
     if B is None:
         B = np.zeros_like(A)
 
+    # the negations below would wrap around for unsigned integers
+    A, B = np.asarray(A, dtype=complex), np.asarray(B, dtype=complex)
+
     N = n_sites
     H = np.zeros((2 * N, 2 * N), dtype=complex)
 
@@ -733,6 +739,9 @@ def generate_gaussian_state(n_sites, H, alphas=None):
     """
     H_op = None
 
+    if H.dtype.kind in "bu":
+        H = H.astype(float)  # -H would wrap around
+
     if alphas is None:
         alphas = jordan_wigner_alphas(n_sites)
 
-- 
2.43.0

