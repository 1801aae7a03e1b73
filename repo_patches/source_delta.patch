From 1f0c6a99568236cc732fd4f8b08eab2e377217f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:31 +0000
Subject: [PATCH 01/38] fix: EvolvingTensor could not be loaded from file

load_from_hdf5_group passed an argument __init__ does not take.
---
 src/tenkit/decomposition/decompositions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index f8c9afa..745bf64 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -438,9 +438,8 @@ class EvolvingTensor(BaseDecomposedTensor):
         B = [group[cls.B_template.format(k)][...] for k in range(group.attrs['num_Bs'])]
         C = group['C'][...]
         warning = group.attrs['warning']
-        all_same_size = group.attrs['all_same_size']
 
-        return cls(A, B, C, all_same_size=all_same_size, warning=warning)
+        return cls(A, B, C, warning=warning)
     
     def __getitem__(self, item):
         if item == 0:
-- 
2.43.0


From f976834477574acd05344e5113a49fc178decfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:50 +0000
Subject: [PATCH 02/38] fix: Parafac2 fit_transform ignored max_its and
 initial_decomposition

---
 src/tenkit/decomposition/parafac2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index a804457..387e37b 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -205,7 +205,7 @@ class BaseParafac2(BaseDecomposer):
         self._fit()
 
     def fit_transform(self, X, y=None, max_its=None, initial_decomposition=None):
-        self.fit(X, y=None, max_its=None, initial_decomposition=None)
+        self.fit(X, y=y, max_its=max_its, initial_decomposition=initial_decomposition)
         return self.decomposition
 
     @property
-- 
2.43.0


From f5340b06d6ea0173c7a97ca9e05edc338c08e7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:50 +0000
Subject: [PATCH 03/38] fix: KruskalTensor separate mode FMS called a function
 that does not exist

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 745bf64..a86e859 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -217,7 +217,7 @@ class KruskalTensor(BaseDecomposedTensor):
                                           fms_reduction=fms_reduction)
     
     def seperate_mode_factor_match_score(self, decomposition, fms_reduction='min'):
-        return metrics.seperate_mode_factor_match_score(self.factor_matrices,
+        return metrics.separate_mode_factor_match_score(self.factor_matrices,
                                                         decomposition.factor_matrices, 
                                                         fms_reduction=fms_reduction)
     def get_sign_scores(self, X):
-- 
2.43.0


From a01c5cd7636a0a66fea068d356a23daee3cd6297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:50 +0000
Subject: [PATCH 04/38] fix: EvolvingTensor separate mode FMS crashed for
 Kruskal tensors

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index a86e859..b731d9c 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -471,7 +471,7 @@ class EvolvingTensor(BaseDecomposedTensor):
 
     def separate_mode_factor_match_score(self, decomposition, fms_reduction='min'):
         if not isinstance(decomposition, EvolvingTensor):
-            decomposition = decomposition.to_evolving_tensor()
+            decomposition = EvolvingTensor.from_kruskaltensor(decomposition)
         return metrics.separate_mode_factor_match_score([self.A, self.B_unfolded, self.C],
                                                       [decomposition.A, decomposition.B_unfolded, decomposition.C], 
                                                        fms_reduction=fms_reduction)
-- 
2.43.0


From 4a433a5e001b0f212b6ee6a9f1c5e3e5fa92aa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:50 +0000
Subject: [PATCH 05/38] fix: Parafac2Tensor.factor_match_score crashed for
 irregular tensors

---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index b731d9c..428012f 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -687,8 +687,8 @@ class Parafac2Tensor(EvolvingTensor):
     def factor_match_score(self, decomposition, weight_penalty=True, fms_reduction='min'):
         assert decomposition.rank == self.rank
 
-        factors1 = [self.A, np.array(self.B).reshape(-1, self.rank), self.C]
-        factors2 = [decomposition.A, np.array(decomposition.B).reshape(-1, self.rank), decomposition.C]
+        factors1 = [self.A, self.B_unfolded, self.C]
+        factors2 = [decomposition.A, decomposition.B_unfolded, decomposition.C]
 
         return metrics.factor_match_score(factors1, 
                                           factors2, 
-- 
2.43.0


From 39a5228f3283366c8d1803a34bef588d4ce081c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:50 +0000
Subject: [PATCH 06/38] fix: single components of irregular Parafac2 tensors
 could not be extracted

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 428012f..1040047 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -697,7 +697,7 @@ class Parafac2Tensor(EvolvingTensor):
 
     def get_single_component_decomposition(self, component):
         A = self.A[:, component, np.newaxis]
-        B = self.B[:, ..., component, np.newaxis]
+        B = [B_k[:, component, np.newaxis] for B_k in self.B]
         C = self.C[:, component, np.newaxis]
 
         single_component_decomposition = EvolvingTensor(
-- 
2.43.0


From 2f7e0e93a0b01f054f31774f7f47367bdafb6251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:50 +0000
Subject: [PATCH 07/38] fix: EvolvingTensor.from_kruskaltensor discarded the
 component weights

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 1040047..1453311 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -334,7 +334,7 @@ class EvolvingTensor(BaseDecomposedTensor):
 
         if len(ktensor.factor_matrices) != 3:
             raise ValueError('Kruskal tensor must be third order to be converted into an evolving tensor')
-        A = ktensor.factor_matrices[0]
+        A = ktensor.factor_matrices[0]*ktensor.weights[np.newaxis]
         B = ktensor.factor_matrices[1]
         C = ktensor.factor_matrices[2]
 
-- 
2.43.0


From 4a38ce604a55bd347ceef52fe4ff40d646e96a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:50 +0000
Subject: [PATCH 08/38] fix: num_elements (and so the PARAFAC2 MSE) disregarded
 the first mode

---
 src/tenkit/decomposition/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 1453311..21785c0 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -322,7 +322,7 @@ class EvolvingTensor(BaseDecomposedTensor):
         self.warning = warning
         self.all_same_size = self._check_all_same_size(B)
         self.slice_shapes = [(self.A.shape[0], B_k.shape[0]) for B_k in self.B]
-        self.num_elements = sum((shape[1] for shape in self.slice_shapes))
+        self.num_elements = sum((shape[0]*shape[1] for shape in self.slice_shapes))
 
     @classmethod
     def from_kruskaltensor(cls, ktensor, allow_same_class=False):
@@ -599,7 +599,7 @@ class Parafac2Tensor(EvolvingTensor):
 
         self.all_same_size = self._check_all_same_size(projection_matrices)
         self.slice_shapes = [(self.A.shape[0], B_k.shape[0]) for B_k in self.B] 
-        self.num_elements = sum(shape[1] for shape in self.slice_shapes)
+        self.num_elements = sum(shape[0]*shape[1] for shape in self.slice_shapes)
 
         self.warning = warning
 
-- 
2.43.0


From 31f8b1a5e20738a2695a0db709e6e0bc3355d957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:50 +0000
Subject: [PATCH 09/38] fix: Kruskal tensors with integer weights could not be
 normalised

---
 src/tenkit/decomposition/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 21785c0..9301e3f 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -125,7 +125,7 @@ class KruskalTensor(BaseDecomposedTensor):
                     f'There must be as many weights as there are columns in the factor matrices.'
                     f'The factor matrices has {self.rank} columns, but there are {len(weights)} weights.'
                 )
-        self.weights = np.asarray(weights)
+        self.weights = np.asarray(weights, dtype=float)
     
     @property
     def shape(self):
-- 
2.43.0


From 0585e719fe6e329de31e409d5f41db37916eea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:50 +0000
Subject: [PATCH 10/38] fix: non_negative_rightsolve crashed for a single right
 hand side vector

---
 src/tenkit/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 4d63dc8..6dfb4d4 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -18,7 +18,7 @@ def non_negative_rightsolve(A, B):
     """
     # Discussion tracking in Enron Email Using PARAFAC has non negative updates
     if len(B.shape) == 1:
-        B = B[np.newaxis, B]
+        B = B[np.newaxis]
 
     x = np.zeros((B.shape[0], A.shape[0]))
     for i, b_i in enumerate(B):
-- 
2.43.0


From 3803b3e53ccd60c74bbd516869d5c6d705ba034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:50 +0000
Subject: [PATCH 11/38] fix: rightsolve blew up for rank deficient systems

Singular values that are zero up to rounding were inverted, so the
returned solution was not a least squares solution.
---
 src/tenkit/base.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 6dfb4d4..4f600ea 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -7,10 +7,17 @@ from abc import ABC, abstractmethod, abstractclassmethod
 def rightsolve(A, B):
     """Solve the equation X*A = B wrt X.
     """
-    U, S, Vh = np.linalg.svd(A, full_matrices=False)
-    S[S != 0] = 1/S[S != 0]
-
-    return B @ (Vh.T * S @ U.T)
+    # Scale the rows of A, so that the solution is accurate also if they differ much in size
+    norms = np.linalg.norm(A, axis=1)
+    inverse_norms = (norms > 0) / np.where(norms > 0, norms, 1)
+    U, S, Vh = np.linalg.svd(A * inverse_norms[:, np.newaxis], full_matrices=False)
+    # Singular values below the rounding error are zero in exact arithmetic
+    S_tol = max(A.shape) * np.finfo(S.dtype).eps * S[0]
+    should_keep = S > S_tol
+    S[should_keep] = 1/S[should_keep]
+    S[~should_keep] = 0
+
+    return B @ (Vh.T * S @ U.T) * inverse_norms
 
 
 def non_negative_rightsolve(A, B):
-- 
2.43.0


From f03ae6bf67bb54c099ca9d0c458fb261df48b879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:28 +0000
Subject: [PATCH 12/38] fix: CP SSE was computed from a cache that could be
 stale

The cached inner product was not dropped when the decomposer was fitted
again (TypeError), when a checkpoint was loaded or when the returned
decomposition was normalised (wrong SSE), and it could give a negative
SSE, so that the RMSE was NaN. Compute it from the current decomposition,
as the base class does.
---
 src/tenkit/decomposition/cp.py | 26 --------------------------
 1 file changed, 26 deletions(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 4154beb..72b72df 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -165,26 +165,6 @@ class BaseCP(BaseDecomposer):
     def _fit(self):
         pass
 
-    @property
-    def SSE(self):
-        """Sum Squared Error"""
-        if hasattr(self, '_last_updated_mode') and self._last_updated_mode is not None:
-            # ||X - Y||_F^2 = ||X||_F^2 + ||Y||_F^2 - 2<X, Y>_F
-            # Y = [U_0, U_1, U_2], <X, Y> = sum(U_i*mttkrp(X, Y, skip=i))
-            
-            return (
-                self.X_norm**2
-                 + np.linalg.norm(self.reconstructed_X)**2
-                 - 2*self._inner_prod_X_reconstructed_X
-            )
-            
-        return np.linalg.norm(self.X - self.reconstructed_X)**2
-
-    @property
-    def _inner_prod_X_reconstructed_X(self):
-        M = self.factor_matrices[self._last_updated_mode]*self._matrix_khatri_rao_product_cache
-        return np.sum(self.weights*M.sum(0), axis=0)
-
     def fit(self, X, y=None, *, max_its=None, initial_decomposition=None):
         """Fit a CP model. Precomputed components must be specified if init method is `precomputed`.
 
@@ -348,9 +328,6 @@ class CP_ALS(BaseCP):
         self._rel_function_change = np.inf
         self.prev_SSE = self.SSE
 
-        self._matrix_khatri_rao_product_cache = None
-        # self._matrix_khatri_rao_product_cache = [np.empty_like(factor) for factor in self.factor_matrices]
-
     def _get_als_lhs(self, skip_mode):
         """Compute left hand side of least squares problem."""
         V = np.ones((self.rank, self.rank))
@@ -389,9 +366,6 @@ class CP_ALS(BaseCP):
 
         rightsolve = self._get_rightsolve(mode)
 
-        self._last_updated_mode = mode
-        self._matrix_khatri_rao_product_cache = rhs
-
         new_factor = rightsolve(lhs, rhs)
         self.factor_matrices[mode][...] = new_factor
 
-- 
2.43.0


From 8ea9a93fb92576c91a716cf1f1b55b275e0e2caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:28 +0000
Subject: [PATCH 13/38] fix: checkpoints were lost, overlapped and resumed at
 the wrong iteration

Number checkpoints by the last completed iteration and resume after it.
Before, the checkpoint after the last iteration was numbered by the
iteration count, so that continue_fit could crash as the name was taken,
and resuming repeated an iteration. Whether to store it was decided from
the wrong iteration number, so the final state could be missing, and fit
and continue_fit crashed if there was no iteration to run. The last
iteration is now stored also without a checkpoint frequency, as documented,
and nothing is stored without a checkpoint path.
---
 src/tenkit/decomposition/base_decomposer.py | 30 ++++++++++++++-------
 src/tenkit/decomposition/cmtf.py            | 11 +-------
 src/tenkit/decomposition/cp.py              |  3 +--
 src/tenkit/decomposition/parafac2.py        |  7 +----
 4 files changed, 23 insertions(+), 28 deletions(-)

diff --git a/src/tenkit/decomposition/base_decomposer.py b/src/tenkit/decomposition/base_decomposer.py
index 56fbe82..fd6e183 100644
--- a/src/tenkit/decomposition/base_decomposer.py
+++ b/src/tenkit/decomposition/base_decomposer.py
@@ -176,15 +176,18 @@ class BaseDecomposer(ABC):
         self._fit()
     
     def store_checkpoint(self):
+        # Checkpoints are numbered by the last completed iteration
+        iteration = self.current_iteration - 1
         with h5py.File(self.checkpoint_path, 'a') as h5:
-            if 'checkpoint_its' not in h5.attrs:
-                h5.attrs['checkpoint_its'] = [self.current_iteration]
-            else:
-                h5.attrs['checkpoint_its'] = [*h5.attrs['checkpoint_its'], self.current_iteration]
+            old_its = [it for it in h5.attrs.get('checkpoint_its', []) if it != iteration]
+            h5.attrs['checkpoint_its'] = [*old_its, iteration]
 
-            h5.attrs['final_iteration'] = self.current_iteration
+            h5.attrs['final_iteration'] = iteration
             h5.attrs['decomposition_type'] = type(self).__name__
-            checkpoint_group = h5.create_group(f'checkpoint_{self.current_iteration:05d}')
+            group_name = f'checkpoint_{iteration:05d}'
+            if group_name in h5:
+                del h5[group_name]
+            checkpoint_group = h5.create_group(group_name)
             self.decomposition.store_in_hdf5_group(checkpoint_group)
 
             for logger in self.loggers:
@@ -206,7 +209,6 @@ class BaseDecomposer(ABC):
 
             if load_it is None:
                 load_it = h5.attrs['final_iteration']
-            self.current_iteration = load_it
 
             group_name = f'checkpoint_{load_it:05d}'
             if group_name not in h5:
@@ -217,13 +219,21 @@ class BaseDecomposer(ABC):
 
         self._check_valid_components(initial_decomposition)
         self.decomposition = initial_decomposition
+        self.current_iteration = load_it + 1
     
     def _after_fit_iteration(self):
         for logger in self.loggers:
             logger.log(self)
 
-        it = self.current_iteration
-        if ((it+1) % self.checkpoint_frequency == 0) and (self.checkpoint_frequency > 0):
+        self.current_iteration += 1
+        if self.checkpoint_path is None or self.checkpoint_frequency <= 0:
+            return
+        if self.current_iteration % self.checkpoint_frequency == 0:
             self.store_checkpoint()
 
-        self.current_iteration += 1
\ No newline at end of file
+    def _store_final_checkpoint(self):
+        """Store the last iteration unless it already is stored."""
+        if self.checkpoint_path is None or self.current_iteration == 0:
+            return
+        if self.checkpoint_frequency <= 0 or self.current_iteration % self.checkpoint_frequency != 0:
+            self.store_checkpoint()
diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 704f0c3..2f01888 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -8,16 +8,7 @@ from .. import base
 
 
 class CMTF_ALS(CP_ALS): 
-    def store_checkpoint(self):
-        #TODO: store the matrices as well
-        with h5py.File(self.checkpoint_path, 'a') as h5:
-            h5.attrs['final_iteration'] = self.current_iteration
-            checkpoint_group = h5.create_group(f'checkpoint_{self.current_iteration:05d}')
-            self.decomposition.store_in_hdf5_group(checkpoint_group)
-            for logger in self.loggers:
-                logger.write_to_hdf5_group(h5)
-
-
+    #TODO: store the matrices in the checkpoints as well
     @property
     def coupled_factor_matrices(self):
         return [self.factor_matrices[mode] for mode in self.coupling_modes]
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 72b72df..3885192 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -397,8 +397,7 @@ class CP_ALS(BaseCP):
 
             self._after_fit_iteration()
 
-        if ((it+1) % self.checkpoint_frequency != 0) and (self.checkpoint_frequency > 0):
-            self.store_checkpoint()
+        self._store_final_checkpoint()
 
     def init_random(self):
         super().init_random()
diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 387e37b..eb6e0ca 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -402,12 +402,7 @@ class Parafac2_ALS(BaseParafac2):
 
             self._after_fit_iteration()
 
-
-        if (
-            ((self.current_iteration+1) % self.checkpoint_frequency != 0) and 
-            (self.checkpoint_frequency > 0)
-        ):
-            self.store_checkpoint()
+        self._store_final_checkpoint()
 
     def _update_convergence(self):
         loss = self.loss
-- 
2.43.0


From 3ad9bc377277b53abdb8f93595fccf007876a8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:57 +0000
Subject: [PATCH 14/38] fix: constrained and regularised CP updates did not
 minimise the loss

The normal equations were solved subject to nonnegativity, orthonormality
or with a ridge penalty. That minimises the residual of the normal
equations, not that of the data, so the loss could increase. Solve the
equivalent least squares problem instead.
---
 src/tenkit/base.py               | 21 +++++++++++++++++++++
 src/tenkit/decomposition/cmtf.py |  5 +++++
 src/tenkit/decomposition/cp.py   |  6 ++++++
 3 files changed, 32 insertions(+)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 4f600ea..f4b0f86 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -67,6 +67,27 @@ def add_rightsolve_ridge(rightsolve, ridge_penalty):
     return ridge_rightsolve
 
 
+def least_squares_from_normal_equations(lhs, rhs):
+    """Find A and B so A@A.T = lhs and B@A.T = rhs.
+
+    If X*lhs = rhs are the normal equations of a least squares problem, then
+    ||X*A - B|| differs from the norm of the residual of that problem only
+    by a constant, also for X that do not satisfy the normal equations.
+    """
+    # Scale to unit diagonal, so that the result is accurate also for small components
+    norms = np.sqrt(np.diagonal(lhs))
+    is_zero = np.diagonal(lhs) < np.finfo(norms.dtype).tiny
+    norms = np.where(is_zero, 1, norms)
+    scaled_lhs = np.where(np.logical_or.outer(is_zero, is_zero), 0, lhs / norms / norms[:, np.newaxis])
+    eigvals, eigvecs = np.linalg.eigh(scaled_lhs)
+    should_keep = eigvals > len(eigvals) * np.finfo(eigvals.dtype).eps * np.max(eigvals)
+    scale = np.sqrt(np.where(should_keep, eigvals, 1))
+
+    A = np.where(is_zero, 0, norms)[:, np.newaxis] * eigvecs * (should_keep * scale)
+    B = (rhs / norms) @ eigvecs * (should_keep / scale)
+    return A, B
+
+
 def kron_binary_vectors(u, v):
     """Efficient Kronecker product between two vectors.
     """
diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 2f01888..947fdbc 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -161,6 +161,11 @@ class CMTF_ALS(CP_ALS):
             return super()._get_als_rhs(mode)
 
 
+    def _get_least_squares_problem(self, mode, lhs, rhs):
+        if mode in self.mode_to_cm_idx:
+            return lhs, rhs  # Not normal equations
+        return super()._get_least_squares_problem(mode, lhs, rhs)
+
     def _update_uncoupled_matrix_factors(self):
         for mode, cm_idx in self.mode_to_cm_idx.items():
             cm_idx = self.mode_to_cm_idx[mode][0]
diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 3885192..9e5fd11 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -340,6 +340,11 @@ class CP_ALS(BaseCP):
     def _get_als_rhs(self, mode):
         return base.matrix_khatri_rao_product(self.X, self.factor_matrices, mode)
 
+    def _get_least_squares_problem(self, mode, lhs, rhs):
+        # The lhs and rhs are the normal equations. Solving these subject to constraints
+        # or with regularisation does not minimise the loss.
+        return base.least_squares_from_normal_equations(lhs, rhs)
+
     def _get_rightsolve(self, mode):
         rightsolve = base.rightsolve
         if self.non_negativity_constraints[mode]:
@@ -365,6 +370,7 @@ class CP_ALS(BaseCP):
         rhs = self._get_als_rhs(mode)
 
         rightsolve = self._get_rightsolve(mode)
+        lhs, rhs = self._get_least_squares_problem(mode, lhs, rhs)
 
         new_factor = rightsolve(lhs, rhs)
         self.factor_matrices[mode][...] = new_factor
-- 
2.43.0


From 6c82487e2f1303092b05fad5c851be27edc99536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:57 +0000
Subject: [PATCH 15/38] fix: PARAFAC2 did not update orthonormality constrained
 factors

The CP decomposer replaced the orthonormal factor by a new array, so that
the PARAFAC2 decomposition kept the initial one.
---
 src/tenkit/decomposition/cp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 9e5fd11..5902168 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -323,7 +323,8 @@ class CP_ALS(BaseCP):
         for mode, (orthogonality) in enumerate(self.orthonormality_constraints):
             fm = self.decomposition.factor_matrices[mode]
             if orthogonality:
-                self.decomposition.factor_matrices[mode] = np.linalg.qr(fm)[0]
+                # Nearest orthonormal matrix: does not alter a factor that is orthonormal already
+                fm[...] = base.orthogonal_solve(np.identity(len(fm)), fm)
 
         self._rel_function_change = np.inf
         self.prev_SSE = self.SSE
-- 
2.43.0


From 4ea4b6e1ddb729317da67e8a800bfeb54e800783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:57 +0000
Subject: [PATCH 16/38] fix: PARAFAC2 projection matrices shared memory with CP
 initialisation

All the slices then had the projection matrix of the last slice.
---
 src/tenkit/decomposition/parafac2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index eb6e0ca..7371980 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -127,7 +127,7 @@ class BaseParafac2(BaseDecomposer):
         cp_als.fit(X)
         C, A, B = cp_als.factor_matrices
         P, blueprint_B = np.linalg.qr(B)
-        P = [P for _ in range(len(self.X))]
+        P = [P.copy() for _ in range(len(self.X))]
         self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
 
     def init_components(self, initial_decomposition=None):
-- 
2.43.0


From 27d0fa68f796b513f215fd5d603819b4998b5d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:57 +0000
Subject: [PATCH 17/38] fix: PARAFAC2 SVD initialisation crashed

The shape of the evolving mode is a list, and the A factor has a row for
each row of the slices.
---
 src/tenkit/decomposition/parafac2.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index 7371980..b07b844 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -102,19 +102,17 @@ class BaseParafac2(BaseDecomposer):
     def init_svd(self):
         """SVD initalisation
         """
-        # TODO: This does not work for irregular tensors
-        K = self.X_shape[2]
-        J = self.X_shape[1]
-        Y = np.zeros([J, J])
+        I, J, K = self.X_shape
+        Y = np.zeros([I, I])
 
         for k in range(K):
-            Y += self.X[k].T @ self.X[k]
+            Y += self.X[k] @ self.X[k].T
 
         A = get_pca_loadings(Y, self.rank)
         blueprint_B = np.identity(self.rank)
         C = np.ones((K, self.rank))
 
-        P = [np.eye(J, self.rank) for k in range(K)]
+        P = [np.eye(J[k], self.rank) for k in range(K)]
         self.decomposition = self.DecompositionType(A, blueprint_B, C, P)
 
         self._update_projection_matrices()
-- 
2.43.0


From 970f52883f9856bb6d0996017f5dc9cc4f2da67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:47 +0000
Subject: [PATCH 18/38] fix: create_data and create_non_negative_data called a
 missing function

base.ktensor was used there (and in the examples) but did not exist.
---
 src/tenkit/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index f4b0f86..bdf9730 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -170,6 +170,13 @@ def kron_binary(A, B):
     return kprod.reshape(n*p, m*q)
 
 
+def ktensor(*factors):
+    """Construct the tensor with the given factor matrices.
+    """
+    shape = [factor.shape[0] for factor in factors]
+    return fold(factors[0] @ khatri_rao(*factors[1:]).T, 0, shape)
+
+
 def matrix_khatri_rao_product(X, factors, mode):
     """Compute the matricised tensor times Khatri Rao product along given mode.
 
-- 
2.43.0


From 7c604e2c348120c405dc002a403df5bb6eb3547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:47 +0000
Subject: [PATCH 19/38] fix: KruskalTensor.core_consistency disregarded the
 weights

It changed when the components were normalised.
---
 src/tenkit/decomposition/decompositions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 9301e3f..589e58a 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -273,7 +273,8 @@ class KruskalTensor(BaseDecomposedTensor):
     def core_consistency(self, X, normalized=False):
         if len(self.factor_matrices) != 3:
             raise ValueError('Core consistency is only implemented for third order tensors')
-        return metrics.core_consistency(X, *self.factor_matrices, normalized=normalized)
+        A, B, C = self.factor_matrices
+        return metrics.core_consistency(X, self.weights[np.newaxis]*A, B, C, normalized=normalized)
         
 
 class EvolvingTensor(BaseDecomposedTensor):
-- 
2.43.0


From c87884628cae7c758e5e0933b6e33ca4181765d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:47 +0000
Subject: [PATCH 20/38] fix: CMTF with nonnegativity constraints called a
 missing method

_update_als_factor handles the constraints.
---
 src/tenkit/decomposition/cmtf.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 947fdbc..39c349f 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -137,10 +137,7 @@ class CMTF_ALS(CP_ALS):
     def _update_als_factors(self):
         num_modes = len(self.X.shape) # TODO: Should this be cashed?
         for mode in range(num_modes):
-            if self.non_negativity_constraints[mode]:
-                self._update_als_factor_non_negative(mode) 
-            else:
-                self._update_als_factor(mode)
+            self._update_als_factor(mode)
         self._update_uncoupled_matrix_factors()
 
     def _get_als_lhs(self, mode):
-- 
2.43.0


From 717d3937347cf2382368f382f94d7c147bda83f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:47 +0000
Subject: [PATCH 21/38] fix: CMTF MSE counted the elements of the factors, not
 those of the data

---
 src/tenkit/decomposition/cmtf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 39c349f..46ac8a9 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -38,7 +38,7 @@ class CMTF_ALS(CP_ALS):
     def MSE(self):
         #raise NotImplementedError('Not implemented') 
         # TODO: fix this
-        num_elements = np.prod(self.X.shape) + sum(np.prod(Yi.shape) for Yi in self.coupled_factor_matrices)
+        num_elements = np.prod(self.X.shape) + sum(np.prod(Yi.shape) for Yi in self.coupled_matrices)
         return self.SSE/num_elements
 
     @property
-- 
2.43.0


From 17f442e1fb5ef15015b60d1b5a5050e913c3cc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:47 +0000
Subject: [PATCH 22/38] fix: CMTF loss disregarded the ridge penalties

The factors are fitted with them.
---
 src/tenkit/decomposition/cmtf.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 46ac8a9..1f97523 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -45,10 +45,6 @@ class CMTF_ALS(CP_ALS):
     def RMSE(self):
         return np.sqrt(self.MSE)
 
-    @property
-    def loss(self):
-        return self.SSE  # TODO: skal det være property?
-
     def set_coupled_matrices(self, coupled_matrices, coupling_modes):
         self.coupled_matrices = coupled_matrices
         self.coupling_modes = coupling_modes
-- 
2.43.0


From fc7500cdb9557f71d2a8a7de24992952465a9c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:19 +0000
Subject: [PATCH 23/38] fix: CMTF fitted the wrong model unless the component
 weights were one

The updates disregard the weights, the reconstruction does not. They
were not one with an initial decomposition that is not normalised and
in continue_fit, since a fit ends with normalising the components.
---
 src/tenkit/decomposition/cmtf.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 1f97523..412ffba 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -66,12 +66,22 @@ class CMTF_ALS(CP_ALS):
         self._rel_function_change = np.inf
         self.prev_SSE = self.SSE
         
-        self.decomposition.normalize_components()
+        self.decomposition.normalize_components(update_weights=False)
 
     def _fit(self):
+        self._absorb_weights()
         super()._fit()
         self._normalize_components()
     
+    def _absorb_weights(self):
+        # The updates assume that the weights are one, but they are not after _normalize_components
+        mode = next(i for i, orthonormal in enumerate(self.orthonormality_constraints) if not orthonormal)
+        weights = self.weights.copy()
+        self.factor_matrices[mode][...] = self.factor_matrices[mode]*weights
+        for cm_idx in self.mode_to_cm_idx.get(mode, []):
+            self.uncoupled_factor_matrices[cm_idx][...] /= np.where(weights == 0, 1, weights)
+        self.decomposition.reset_weights()
+
     def _normalize_components(self):
         for uncoupled_matrix, coupling_mode in zip(self.uncoupled_factor_matrices, self.coupling_modes):
             fm = self.decomposition.factor_matrices[coupling_mode]
-- 
2.43.0


From 578465578028b0d5a68233e09fc8581196e0146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:54 +0000
Subject: [PATCH 24/38] fix: KruskalTensor.factor_match_score disregarded the
 weights

The weight penalty changed when the components were normalised.
---
 src/tenkit/decomposition/decompositions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 589e58a..7677721 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -210,9 +210,11 @@ class KruskalTensor(BaseDecomposedTensor):
 
     def factor_match_score(self, decomposition, weight_penalty=True, fms_reduction='min'):
         assert decomposition.rank == self.rank
+        A1, *other_factors1 = self.factor_matrices
+        A2, *other_factors2 = decomposition.factor_matrices
 
-        return metrics.factor_match_score(self.factor_matrices, 
-                                          decomposition.factor_matrices, 
+        return metrics.factor_match_score([self.weights[np.newaxis]*A1, *other_factors1],
+                                          [decomposition.weights[np.newaxis]*A2, *other_factors2],
                                           weight_penalty=weight_penalty, 
                                           fms_reduction=fms_reduction)
     
-- 
2.43.0


From 5f93b35343833d59de7e730de05a29dd572aacfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:13 +0000
Subject: [PATCH 25/38] fix: non-negative updates could be wrong for degenerate
 problems

scipy's nnls returns, without notice, a vector far from the minimiser for some
problems with a gradient that is zero up to rounding errors (for example rows
of sparse data). Check for stationarity and use lsq_linear for these.
---
 src/tenkit/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index bdf9730..8780a4c 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.optimize import nnls
+from scipy.optimize import lsq_linear, nnls
 import h5py
 from abc import ABC, abstractmethod, abstractclassmethod
 
@@ -31,6 +31,12 @@ def non_negative_rightsolve(A, B):
     for i, b_i in enumerate(B):
         x[i, :], _ = nnls(A.T, b_i) 
 
+        # nnls can, without notice, go wrong if the gradient is zero up to rounding errors
+        gradient = A @ (A.T @ x[i] - b_i)
+        is_stationary = np.all(np.abs(x[i] * gradient) <= 1e-10 * (b_i @ b_i))
+        if not is_stationary:
+            x[i, :] = np.maximum(lsq_linear(A.T, b_i, bounds=(0, np.inf), method='bvls').x, 0)
+
     return x
 
 
-- 
2.43.0


From 59ef904f174fff0520303b991a0f95aa7bd5ee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:15 +0000
Subject: [PATCH 26/38] fix: fits from integer factor matrices truncated every
 update

The updates are stored in the arrays of the given start, so that a start with
integer factor or projection matrices ended as a decomposition of zeros.
Neither could such a decomposition be normalised in place.
---
 src/tenkit/decomposition/decompositions.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 7677721..38ea323 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -9,6 +9,13 @@ from .. import utils
 __all__ = ['KruskalTensor', 'EvolvingTensor', 'Parafac2Tensor']
 
 
+def _to_floating(factor_matrix):
+    # Integer factor matrices would truncate what is stored in them
+    if np.issubdtype(factor_matrix.dtype, np.floating):
+        return factor_matrix
+    return factor_matrix.astype(float)
+
+
 class BaseDecomposedTensor(ABC):
     @abstractmethod
     def __init__(self):
@@ -116,7 +123,7 @@ class KruskalTensor(BaseDecomposedTensor):
                     f'has {factor_matrix.shape[1]} columns.'
                 )
 
-        self.factor_matrices = factor_matrices
+        self.factor_matrices = [_to_floating(factor_matrix) for factor_matrix in factor_matrices]
         if weights is None:
             weights = np.ones(self.rank)
         else:
@@ -593,11 +600,11 @@ class Parafac2Tensor(EvolvingTensor):
         projection_matrices : list[np.ndarray]
         """
         self.rank = A.shape[1]
-        self._A = A
-        self._blueprint_B = blueprint_B
-        self._C = C
-        self._projection_matrices = tuple(projection_matrices)
-        self._B = ProjectedFactor(blueprint_B, self._projection_matrices)
+        self._A = _to_floating(A)
+        self._blueprint_B = _to_floating(blueprint_B)
+        self._C = _to_floating(C)
+        self._projection_matrices = tuple(_to_floating(P) for P in projection_matrices)
+        self._B = ProjectedFactor(self._blueprint_B, self._projection_matrices)
 
 
         self.all_same_size = self._check_all_same_size(projection_matrices)
-- 
2.43.0


From ce42b7cde5f24e72a44bdb294d22f15a2ee881bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:15 +0000
Subject: [PATCH 27/38] fix: CP fits disregarded the weights of the given start

The weights are one while fitting, but were reset without scaling a factor
matrix, so the fit started from another tensor than the one it was given.
---
 src/tenkit/decomposition/cp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 5902168..351fd78 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -315,6 +315,8 @@ class CP_ALS(BaseCP):
 
     def _init_fit(self, X, max_its, initial_decomposition):
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
+        # The updates assume that the weights are one
+        self.factor_matrices[0][...] = self.factor_matrices[0]*self.weights
         self.decomposition.reset_weights()
         if self.non_negativity_constraints is None:
             self.non_negativity_constraints = [False]*len(self.factor_matrices)
-- 
2.43.0


From c820c66243e8aa36e55c50995c43e5556a5f84b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:05 +0000
Subject: [PATCH 28/38] fix: weights of the given start were lost if the first
 mode is orthonormal

---
 src/tenkit/decomposition/cp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index 351fd78..e2a2e1e 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -315,13 +315,14 @@ class CP_ALS(BaseCP):
 
     def _init_fit(self, X, max_its, initial_decomposition):
         super()._init_fit(X=X, max_its=max_its, initial_decomposition=initial_decomposition)
-        # The updates assume that the weights are one
-        self.factor_matrices[0][...] = self.factor_matrices[0]*self.weights
-        self.decomposition.reset_weights()
         if self.non_negativity_constraints is None:
             self.non_negativity_constraints = [False]*len(self.factor_matrices)
         if self.orthonormality_constraints is None:
             self.orthonormality_constraints = [False]*len(self.factor_matrices)
+        # The updates assume that the weights are one
+        mode = next((i for i, orthonormal in enumerate(self.orthonormality_constraints) if not orthonormal), 0)
+        self.factor_matrices[mode][...] = self.factor_matrices[mode]*self.weights
+        self.decomposition.reset_weights()
         for mode, (orthogonality) in enumerate(self.orthonormality_constraints):
             fm = self.decomposition.factor_matrices[mode]
             if orthogonality:
-- 
2.43.0


From 09e3ced1b475ae7627e5c4f3f2fa26441cb30b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:50 +0000
Subject: [PATCH 29/38] fix: CP starts with a different number of modes than
 the data were not refused

---
 src/tenkit/decomposition/cp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tenkit/decomposition/cp.py b/src/tenkit/decomposition/cp.py
index e2a2e1e..ce5bacd 100644
--- a/src/tenkit/decomposition/cp.py
+++ b/src/tenkit/decomposition/cp.py
@@ -114,6 +114,12 @@ class BaseCP(BaseDecomposer):
     def _check_valid_components(self, decomposition):
         """Check if provided factor matrices have correct shape.
         """
+        n_modes = len(decomposition.factor_matrices)
+        if n_modes != len(self.X.shape):
+            raise ValueError(
+                f"The number of factor matrices ({n_modes}) is not the same as the number of modes of X ({len(self.X.shape)})."
+            )
+
         for i, factor_matrix in enumerate(decomposition.factor_matrices):
             len_, rank = factor_matrix.shape
             if rank != self.rank:
-- 
2.43.0


From 2eacffd8840e2bfa190848e1095cbcf9f69d10a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:50 +0000
Subject: [PATCH 30/38] fix: sign fixing called get_signs with arguments it
 does not have

---
 src/tenkit/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index d36b61f..10af8ab 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -189,10 +189,10 @@ def get_signs(factor_matrix, X):
     return np.sign(sign_weight), sign_weight
     
 def signfix_evolving_factors(data_tensor, evolving_factor, evolve_over_factor, data_driven=True):
-    fixed_evolving_factor = evolving_factor.copy()
+    fixed_evolving_factor = [factor.copy() for factor in evolving_factor]
     fixed_evolve_over_factor = evolve_over_factor.copy()
     for k in range(len(evolving_factor)):
-        signs = get_signs(data_tensor[k], evolving_factor[k], data_driven=data_driven)[0]
+        signs = get_signs(evolving_factor[k], data_tensor[k].T if data_driven else None)[0]
         
         fixed_evolving_factor[k] *= signs
         fixed_evolve_over_factor[k] *= signs
@@ -201,7 +201,7 @@ def signfix_evolving_factors(data_tensor, evolving_factor, evolve_over_factor, d
 
 def signfix_normal_factors(data_tensor, fixing_factors, flipping_factors, data_driven=True):
     unfolded_data_tensor = data_tensor.reshape(data_tensor.shape[0], -1)
-    signs = get_signs(unfolded_data_tensor, fixing_factors, data_driven)[0]
+    signs = get_signs(fixing_factors, unfolded_data_tensor if data_driven else None)[0]
     
     return fixing_factors*signs[np.newaxis], flipping_factors*signs[np.newaxis]
 
-- 
2.43.0


From 51ee015f796404a0bcd6978974e82959600718f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:13 +0000
Subject: [PATCH 31/38] fix: a file with metadata could not be used for another
 experiment

---
 src/tenkit/log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tenkit/log.py b/src/tenkit/log.py
index a1f6072..128757b 100644
--- a/src/tenkit/log.py
+++ b/src/tenkit/log.py
@@ -108,6 +108,8 @@ class Experiment:
             g = h5['metadata']
 
         for name, value in metadata.items():
+            if name in g:
+                del g[name]
             g[name] = value
     
     def _init_h5_file(self, attributes, metadata):
-- 
2.43.0


From 0a224114aa34b660901d9ee56147b808f874afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:23 +0000
Subject: [PATCH 32/38] fix: PARAFAC2 fits with print_frequency=0 do not divide
 by zero

---
 src/tenkit/decomposition/parafac2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index b07b844..e01c34e 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -394,7 +394,7 @@ class Parafac2_ALS(BaseParafac2):
             self._update_parafac2_factors()
             self._update_convergence()
 
-            if self.current_iteration % self.print_frequency == 0 and self.print_frequency > 0:
+            if self.print_frequency > 0 and self.current_iteration % self.print_frequency == 0:
                 print(f'{self.current_iteration:6d}: The MSE is {self.MSE:4g}, f is {self.loss:4g}, '
                       f'improvement is {self._rel_function_change:g}')
 
-- 
2.43.0


From f99a5018b1bd25e813fcaadf2039391ff6aef155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:23 +0000
Subject: [PATCH 33/38] fix: iter_checkpoints keeps the order of iterations
 beyond 99999

---
 src/tenkit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tenkit/utils.py b/src/tenkit/utils.py
index 10af8ab..2b76469 100644
--- a/src/tenkit/utils.py
+++ b/src/tenkit/utils.py
@@ -218,7 +218,7 @@ def fix_signs_evolving_tensor(evolving_tensor, data_tensor):
     return fixed_evolving_tensor
 
 def iter_checkpoints(h5_checkpoint_file):
-    for groupname in sorted(h5_checkpoint_file):
+    for groupname in sorted(h5_checkpoint_file, key=lambda name: (len(name), name)):
         if groupname.startswith('checkpoint'):
             yield h5_checkpoint_file[groupname]
     
\ No newline at end of file
-- 
2.43.0


From 7ad65d64a55e4fa5ad98054964087b8f22ffa205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:43 +0000
Subject: [PATCH 34/38] fix: all matrices coupled to the same mode are fitted,
 not only the first

---
 src/tenkit/decomposition/cmtf.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/tenkit/decomposition/cmtf.py b/src/tenkit/decomposition/cmtf.py
index 412ffba..e7fba10 100644
--- a/src/tenkit/decomposition/cmtf.py
+++ b/src/tenkit/decomposition/cmtf.py
@@ -149,17 +149,17 @@ class CMTF_ALS(CP_ALS):
     def _get_als_lhs(self, mode):
         if mode in self.mode_to_cm_idx:
             khatri_rao_product= base.khatri_rao(*self.factor_matrices, skip=mode)
-            V = [self.uncoupled_factor_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]][0]
-            return np.concatenate([khatri_rao_product, V], axis=0).T
+            V = [self.uncoupled_factor_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]]
+            return np.concatenate([khatri_rao_product, *V], axis=0).T
         else:
             return super()._get_als_lhs(mode)
     
     def _get_als_rhs(self, mode):
         if mode in self.mode_to_cm_idx:
             unfolded_X = base.unfold(self.X, mode)
-            coupled_Y = [self.coupled_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]][0]
+            coupled_Y = [self.coupled_matrices[cm_idx] for cm_idx in self.mode_to_cm_idx[mode]]
 
-            return np.concatenate([unfolded_X, coupled_Y], axis=1)
+            return np.concatenate([unfolded_X, *coupled_Y], axis=1)
         else:
             return super()._get_als_rhs(mode)
 
@@ -170,9 +170,7 @@ class CMTF_ALS(CP_ALS):
         return super()._get_least_squares_problem(mode, lhs, rhs)
 
     def _update_uncoupled_matrix_factors(self):
-        for mode, cm_idx in self.mode_to_cm_idx.items():
-            cm_idx = self.mode_to_cm_idx[mode][0]
-            
+        for cm_idx, mode in enumerate(self.coupling_modes):
             lhs = self.factor_matrices[mode].T
             rhs = self.coupled_matrices[cm_idx].T
 
-- 
2.43.0


From 00f9893db6139525f2d589c49e3e7e1a6f547bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:41 +0000
Subject: [PATCH 35/38] fix: PARAFAC2 SVD start does not overflow for data of
 small integers

---
 src/tenkit/decomposition/parafac2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tenkit/decomposition/parafac2.py b/src/tenkit/decomposition/parafac2.py
index e01c34e..a59c3a1 100644
--- a/src/tenkit/decomposition/parafac2.py
+++ b/src/tenkit/decomposition/parafac2.py
@@ -106,7 +106,8 @@ class BaseParafac2(BaseDecomposer):
         Y = np.zeros([I, I])
 
         for k in range(K):
-            Y += self.X[k] @ self.X[k].T
+            Xk = np.asarray(self.X[k], dtype=float)  # Products of small integers can overflow
+            Y += Xk @ Xk.T
 
         A = get_pca_loadings(Y, self.rank)
         blueprint_B = np.identity(self.rank)
-- 
2.43.0


From 13319eef4a7c79f06a1b063082987ac24fcf1c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:37 +0000
Subject: [PATCH 36/38] fix: factor matrices given as the same array are not
 changed together

---
 src/tenkit/decomposition/decompositions.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/tenkit/decomposition/decompositions.py b/src/tenkit/decomposition/decompositions.py
index 38ea323..a7e4508 100644
--- a/src/tenkit/decomposition/decompositions.py
+++ b/src/tenkit/decomposition/decompositions.py
@@ -16,6 +16,16 @@ def _to_floating(factor_matrix):
     return factor_matrix.astype(float)
 
 
+def _without_shared_memory(factor_matrices):
+    # Factor matrices are changed in place, one at a time
+    separate = []
+    for factor_matrix in factor_matrices:
+        if any(np.may_share_memory(factor_matrix, other) for other in separate):
+            factor_matrix = factor_matrix.copy()
+        separate.append(factor_matrix)
+    return separate
+
+
 class BaseDecomposedTensor(ABC):
     @abstractmethod
     def __init__(self):
@@ -123,7 +133,7 @@ class KruskalTensor(BaseDecomposedTensor):
                     f'has {factor_matrix.shape[1]} columns.'
                 )
 
-        self.factor_matrices = [_to_floating(factor_matrix) for factor_matrix in factor_matrices]
+        self.factor_matrices = _without_shared_memory([_to_floating(factor_matrix) for factor_matrix in factor_matrices])
         if weights is None:
             weights = np.ones(self.rank)
         else:
@@ -600,10 +610,10 @@ class Parafac2Tensor(EvolvingTensor):
         projection_matrices : list[np.ndarray]
         """
         self.rank = A.shape[1]
-        self._A = _to_floating(A)
-        self._blueprint_B = _to_floating(blueprint_B)
-        self._C = _to_floating(C)
-        self._projection_matrices = tuple(_to_floating(P) for P in projection_matrices)
+        self._A, self._blueprint_B, self._C, *projection_matrices = _without_shared_memory(
+            [_to_floating(matrix) for matrix in [A, blueprint_B, C, *projection_matrices]]
+        )
+        self._projection_matrices = tuple(projection_matrices)
         self._B = ProjectedFactor(self._blueprint_B, self._projection_matrices)
 
 
-- 
2.43.0


From 9bd59d8f0a098086503609ef311d5565cafaaa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:29 +0000
Subject: [PATCH 37/38] fix: non-negative least squares when nnls does not
 converge

scipy's nnls raises an error when it reaches its maximum number of
iterations, which can happen if the columns differ much in size. Use the
fallback that is there already for when it stops at a wrong point.
---
 src/tenkit/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 8780a4c..6dee285 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -29,9 +29,12 @@ def non_negative_rightsolve(A, B):
 
     x = np.zeros((B.shape[0], A.shape[0]))
     for i, b_i in enumerate(B):
-        x[i, :], _ = nnls(A.T, b_i) 
+        try:
+            x[i, :], _ = nnls(A.T, b_i)
+        except RuntimeError:  # The maximum number of iterations was reached
+            x[i, :] = np.nan
 
-        # nnls can, without notice, go wrong if the gradient is zero up to rounding errors
+        # nnls can, also without notice, go wrong if the gradient is zero up to rounding errors
         gradient = A @ (A.T @ x[i] - b_i)
         is_stationary = np.all(np.abs(x[i] * gradient) <= 1e-10 * (b_i @ b_i))
         if not is_stationary:
-- 
2.43.0


From 80ff52b1d14e6748b6fe0a6dd62df7bd07f95596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:41 +0000
Subject: [PATCH 38/38] fix: non-negative least squares when elements grow
 without bound

If combinations of the rows of A cancel, then nnls as well as bvls can return
elements so large (1e13) that rounding errors decide the residual. Solve with
a small ridge penalty if neither returned a stationary point.
---
 src/tenkit/base.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/tenkit/base.py b/src/tenkit/base.py
index 6dee285..ba27f68 100644
--- a/src/tenkit/base.py
+++ b/src/tenkit/base.py
@@ -20,6 +20,11 @@ def rightsolve(A, B):
     return B @ (Vh.T * S @ U.T) * inverse_norms
 
 
+def _is_stationary(A, b, x):
+    gradient = A @ (A.T @ x - b)
+    return np.all(np.abs(x * gradient) <= 1e-10 * (b @ b))
+
+
 def non_negative_rightsolve(A, B):
     """Solve the equation X*A = B wrt X under nonnegativity constraints.
     """
@@ -35,11 +40,18 @@ def non_negative_rightsolve(A, B):
             x[i, :] = np.nan
 
         # nnls can, also without notice, go wrong if the gradient is zero up to rounding errors
-        gradient = A @ (A.T @ x[i] - b_i)
-        is_stationary = np.all(np.abs(x[i] * gradient) <= 1e-10 * (b_i @ b_i))
-        if not is_stationary:
+        if not _is_stationary(A, b_i, x[i]):
             x[i, :] = np.maximum(lsq_linear(A.T, b_i, bounds=(0, np.inf), method='bvls').x, 0)
 
+        # If combinations of rows of A cancel, then the elements of x can become so large that
+        # rounding errors dominate. A small penalty bounds them.
+        if not _is_stationary(A, b_i, x[i]):
+            norms = np.linalg.norm(A, axis=1)
+            norms = np.where(norms > 0, norms, 1)
+            A_ = np.concatenate([A / norms[:, np.newaxis], 1e-6*np.identity(len(A))], axis=1)
+            b_ = np.concatenate([b_i, np.zeros(len(A))])
+            x[i, :] = np.maximum(lsq_linear(A_.T, b_, bounds=(0, np.inf), method='bvls').x, 0) / norms
+
     return x
 
 
-- 
2.43.0

