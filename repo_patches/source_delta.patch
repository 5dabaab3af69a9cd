From 9e6fad3349d1108b0f037ca444c5ac416e69c9fa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:10:34 +0000
Subject: [PATCH 01/19] fix: keep only the complete dense kernel matrix between
 accesses

A kernel failure part-way left a partly filled matrix that the next access
returned, and full_sparse or km[:, :] left a sparse or upper-triangular
matrix that full, centered and frob_norm then used.
---
 kernelmethods/base.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index f84bc4a..c506c54 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -21,7 +21,7 @@ from kernelmethods.operations import (center_km, frobenius_norm, is_PSD,
                                       normalize_km_2sample)
 from kernelmethods.utils import (check_callable, contains_nan_inf, ensure_ndarray_1D,
                                  ensure_ndarray_2D, get_callable_name, not_symmetric)
-from scipy.sparse import issparse, lil_matrix
+from scipy.sparse import lil_matrix
 
 
 class BaseKernelFunction(ABC):
@@ -624,7 +624,7 @@ class KernelMatrix(object):
         # the entire kernel matrix with KM[:,:],
         # without exploiting the fact that KM is symmetric
         if are_all_selected_dim_one and are_all_selected_dim_two:
-            return self._populate_fully(fill_lower_tri=True)
+            return self._populate_fully(fill_lower_tri=True, dense_fmt=True)
         else:
             return self._compute_for_index_combinations(set_one, set_two)
 
@@ -708,13 +708,17 @@ class KernelMatrix(object):
         #   so we need only to STORE half the matrix!
         # as we are computing the full matrix anyways, it's better to keep a copy
         #   to avoid recomputing it for each access of self.full* attributes
-        if not self._populated_fully and not hasattr(self, '_full_km'):
+        # only the complete matrix in dense format is kept, so that neither an
+        #   error part-way nor another format affects the later accesses
+        if dense_fmt and self._populated_fully:
+            full_km = self._full_km
+        else:
             if not dense_fmt:
-                self._full_km = lil_matrix(self.shape, dtype=cfg.km_dtype)
+                full_km = lil_matrix(self.shape, dtype=cfg.km_dtype)
             else:
                 # filling with nan to avoid unexpected usage!
-                self._full_km = np.full(self.shape, fill_value=np.nan,
-                                        dtype=cfg.km_dtype)
+                full_km = np.full(self.shape, fill_value=np.nan,
+                                  dtype=cfg.km_dtype)
 
             try:
                 # kernel matrix is symmetric (in a single sample case)
@@ -724,40 +728,37 @@ class KernelMatrix(object):
                 #   refers to sample_two in the two_samples case
                 for ix_one in range(self.shape[0]): # number of rows!
                     for ix_two in range(ix_one, self.shape[1]): # from second sample!
-                        self._full_km[ix_one, ix_two] = \
+                        full_km[ix_one, ix_two] = \
                             self._eval_kernel(ix_one, ix_two)
             except:
                 raise RuntimeError('Unable to fully compute the kernel matrix!')
-            else:
-                self._populated_fully = True
 
-        if fill_lower_tri and not self._lower_tri_km_filled:
+        if fill_lower_tri and not (dense_fmt and self._lower_tri_km_filled):
             try:
                 # choosing k=-1 as main diag is already covered above (nested for
                 # loop)
                 ix_lower_tri = np.tril_indices(self.shape[0], m=self.shape[1], k=-1)
 
                 if not self._two_samples and self.shape[0] == self.shape[1]:
-                    self._full_km[ix_lower_tri] = self._full_km.T[ix_lower_tri]
+                    full_km[ix_lower_tri] = full_km.T[ix_lower_tri]
                 else:
                     # evaluating it for the lower triangle as well!
                     for ix_one, ix_two in zip(*ix_lower_tri):
-                        self._full_km[ix_one, ix_two] = self._eval_kernel(ix_one,
-                                                                          ix_two)
+                        full_km[ix_one, ix_two] = self._eval_kernel(ix_one, ix_two)
             except:
                 raise RuntimeError('Unable to symmetrize the kernel matrix!')
-            else:
-                self._lower_tri_km_filled = True
 
-        if issparse(self._full_km) and dense_fmt:
-            self._full_km = self._full_km.todense()
+        if dense_fmt and fill_lower_tri:
+            self._full_km = full_km
+            self._populated_fully = True
+            self._lower_tri_km_filled = True
 
-        if contains_nan_inf(self._full_km):
+        if contains_nan_inf(full_km):
             warn('Kernel matrix computation resulted in Inf or NaN values!'
                  ' Check your parameters and data!\n Kernel function: {}'
                  ''.format(self.kernel), KernelMethodsWarning)
 
-        return self._full_km
+        return full_km
 
 
     def __str__(self):
-- 
2.43.0


From b54f568f4f395205d9d74f978521f38c3799a0f7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:10:34 +0000
Subject: [PATCH 02/19] fix: a rejected attach_to leaves the kernel matrix
 unchanged

---
 kernelmethods/base.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index c506c54..b72e982 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -248,7 +248,15 @@ class KernelMatrix(object):
             Name for the second sample.
         """
 
-        self._sample = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)
+        # validating all the inputs before changing anything in this instance
+        sample_one = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)
+        if sample_two is not None:
+            sample_two = ensure_ndarray_2D(sample_two,
+                                           ensure_dtype=sample_two.dtype)
+            if sample_one.shape[1] != sample_two.shape[1]:
+                raise ValueError('Dimensionalities of the two samples differ!')
+
+        self._sample = sample_one
         self._sample_name = name_one
 
         if sample_two is None:
@@ -263,12 +271,7 @@ class KernelMatrix(object):
                                                 self._sample.shape)
 
         else:
-            self._sample_two = ensure_ndarray_2D(sample_two,
-                                                 ensure_dtype=sample_two.dtype)
-
-            if self._sample.shape[1] != self._sample_two.shape[1]:
-                raise ValueError('Dimensionalities of the two samples differ!')
-
+            self._sample_two = sample_two
             self._name_two = name_two
             self._num_samples = (self._sample.shape[0], self._sample_two.shape[0])
             self.shape = (self._sample.shape[0], self._sample_two.shape[0])
-- 
2.43.0


From 7a914020a20112b0cc943d2676cc18143598b438 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:10:34 +0000
Subject: [PATCH 03/19] fix: raise the documented error when accessing an
 unattached kernel matrix

---
 kernelmethods/base.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index b72e982..e2a0f4e 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -380,6 +380,14 @@ class KernelMatrix(object):
         self._num_ker_eval = 0
 
 
+    def _check_attached(self):
+        """Raises an error when no sample is attached yet"""
+
+        if self._sample is None:
+            raise ValueError('No sample is attached yet!\n Attach a sample first '
+                             'before trying to use the KernelMatrix')
+
+
     @property
     def size(self):
         """
@@ -391,6 +399,8 @@ class KernelMatrix(object):
         Defining this to correspond to .size attr of numpy arrays
         """
 
+        self._check_attached()
+
         if not self._two_samples:
             return self._num_samples ** 2
         else:
@@ -408,9 +418,7 @@ class KernelMatrix(object):
     def full(self):
         """Fully populated kernel matrix in dense ndarray format."""
 
-        if self._sample is None:
-            raise ValueError('No sample is attached yet!\n Attach a sample first '
-                             'before trying to use the KernelMatrix')
+        self._check_attached()
 
         if not self._populated_fully:
             self._populate_fully(fill_lower_tri=True, dense_fmt=True)
@@ -427,6 +435,8 @@ class KernelMatrix(object):
     def full_sparse(self):
         """Kernel matrix populated in upper tri in sparse array format."""
 
+        self._check_attached()
+
         if self._keep_normed:
             if not self._is_normed:
                 self.normalize()
@@ -451,6 +461,8 @@ class KernelMatrix(object):
             Centering a KM is possible only when attached to a single sample.
         """
 
+        self._check_attached()
+
         if self._two_samples:
             raise NotImplementedError('Centering is not implemented (or possible)'
                                       ' when KM is attached two separate samples.')
@@ -481,6 +493,8 @@ class KernelMatrix(object):
 
         """
 
+        self._check_attached()
+
         if not self._populated_fully:
             self._populate_fully(dense_fmt=True, fill_lower_tri=True)
 
@@ -514,6 +528,8 @@ class KernelMatrix(object):
     def centered(self):
         """Exposes the centered version of the kernel matrix"""
 
+        self._check_attached()
+
         if self._two_samples:
             raise KMAccessError('Centering not defined when attached to 2 samples!')
 
@@ -527,6 +543,8 @@ class KernelMatrix(object):
     def frob_norm(self):
         """Returns the Frobenius norm of the current kernel matrix"""
 
+        self._check_attached()
+
         if not self._populated_fully:
             self._populate_fully(dense_fmt=True, fill_lower_tri=True)
 
@@ -546,6 +564,8 @@ class KernelMatrix(object):
                 When this instance is attached to more than one sample
         """
 
+        self._check_attached()
+
         if self._two_samples:
             raise KMAccessError('Diagonal() not defined when attached to 2 samples!')
 
@@ -608,6 +628,8 @@ class KernelMatrix(object):
 
         """
 
+        self._check_attached()
+
         if np.issubdtype(type(index_obj), np.int_):
             index_obj = np.unravel_index(index_obj, self.shape)
 
-- 
2.43.0


From e770bac62edfd48f6ae8658ef45fbf4cab1ba9a7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:10:57 +0000
Subject: [PATCH 04/19] fix: format() and str.format() work on kernel matrices,
 sets and composites

__format__ takes a format spec, which __str__ does not accept.
---
 kernelmethods/base.py | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index e2a0f4e..591e6b5 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -142,7 +142,6 @@ class KernelFromCallable(BaseKernelFunction):
 
 
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
@@ -798,8 +797,13 @@ class KernelMatrix(object):
         return string
 
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
@@ -887,8 +891,13 @@ class KernelMatrixPrecomputed(object):
         return "{}(num_samples={})".format(self.name, self.num_samples)
 
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
@@ -1057,8 +1066,13 @@ class ConstantKernelMatrix(object):
                "".format(self.name, self.const_value, self.num_samples)
 
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
@@ -1272,8 +1286,13 @@ class KernelSet(object):
                          "\n\t".join(map(str, self._km_set)))
 
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
@@ -1456,8 +1475,13 @@ class CompositeKernel(ABC):
         return "{}-->{}".format(self.name, str(self.km_set))
 
 
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
     # aliasing them to __str__ for now
-    __format__ = __str__
     __repr__ = __str__
 
 
-- 
2.43.0


From 9f7c17850be98ca44db4f1b7e50108e362217596 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:10:57 +0000
Subject: [PATCH 05/19] fix: a non-square matrix is not symmetric

not_symmetric broadcast a constant row or column into a symmetric matrix.
---
 kernelmethods/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index 779354d..869a50a 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -135,7 +135,8 @@ def _ensure_min_eps(x):
 def not_symmetric(matrix):
     """Returns true if the input matrix is not symmetric."""
 
-    if not np.isclose(matrix, matrix.T).all():
+    # checking shape first, as isclose broadcasts e.g. a single row or column
+    if matrix.shape != matrix.T.shape or not np.isclose(matrix, matrix.T).all():
         return True
     else:
         return False
-- 
2.43.0


From 5562df8132011ff901102f952ac36fa379a7f895 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:10:57 +0000
Subject: [PATCH 06/19] fix: constant kernel matrix rejects empty and
 non-integer selections

An empty selection failed with a NameError, non-integers were truncated.
---
 kernelmethods/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 591e6b5..0436cb1 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1031,9 +1031,7 @@ class ConstantKernelMatrix(object):
             _slice_index_list = index_obj_per_dim.indices(self.num_samples)
             indices = list(range(*_slice_index_list))  # *list expands it as args
         elif isinstance(index_obj_per_dim, Iterable):
-            # TODO no restriction on float: float indices will be rounded down
-            #  towards 0
-            indices = list(map(int, index_obj_per_dim))
+            indices = list(index_obj_per_dim)
         else:
             raise KMAccessError('Invalid index method/indices {indices} '
                                 'for kernel matrix of shape : {km_shape}.'
@@ -1041,6 +1039,11 @@ class ConstantKernelMatrix(object):
                                 ''.format(km_shape=self.shape,
                                           indices=index_obj_per_dim))
 
+        for index in indices:
+            if not np.issubdtype(type(index), np.integer):
+                raise KMAccessError('Indices must be integers or slices. '
+                                    'Received {}'.format(type(index).__name__))
+
         # enforcing constraints
         if any([index >= self.num_samples or index < 0 for index in indices]):
             raise KMAccessError('Invalid index method/indices for kernel matrix!\n'
@@ -1051,7 +1054,7 @@ class ConstantKernelMatrix(object):
 
         # slice object returns empty list if all specified are out of range
         if len(indices) == 0:
-            raise KMAccessError('No samples were selected in dim {}'.format(dim))
+            raise KMAccessError('No samples were selected')
 
         # removing duplicates and sorting
         indices = sorted(list(set(indices)))
-- 
2.43.0


From 3b4cc9b390c78759a455db410f43d329821ca359 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:11:44 +0000
Subject: [PATCH 07/19] fix: kernel machines are recognized as classifier and
 regressor

scikit-learn requires the mixins to precede BaseEstimator: is_classifier and
is_regressor returned False, hence classes_ was not set and integer regression
targets truncated the predictions.
---
 kernelmethods/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 4c69fc8..c48f540 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -184,11 +184,11 @@ class BaseKernelMachine(BaseEstimator):
             return dict()
 
 
-class KernelMachine(BaseKernelMachine, ClassifierMixin):
+class KernelMachine(ClassifierMixin, BaseKernelMachine):
     """Classifier version of the KernelMachine"""
 
 
-class KernelMachineRegressor(BaseKernelMachine, RegressorMixin):
+class KernelMachineRegressor(RegressorMixin, BaseKernelMachine):
     """Regressor version of the KernelMachine
 
     Parameters
-- 
2.43.0


From 388eed635a130efc9ca7ffb35d5c0b3dd5910a97 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:11:44 +0000
Subject: [PATCH 08/19] fix: honour the requested normalization method for two
 samples too

---
 kernelmethods/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 0436cb1..d14b741 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -514,7 +514,8 @@ class KernelMatrix(object):
                 # diagonal
                 self._normed_km = normalize_km_2sample(self._full_km,
                                                        KM_XX.diagonal(),
-                                                       KM_YY.diagonal())
+                                                       KM_YY.diagonal(),
+                                                       method=method)
             self._is_normed = True
 
             if contains_nan_inf(self._normed_km):
-- 
2.43.0


From a02548c741b937e5d48c785ba8085f605e798e2e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:11:44 +0000
Subject: [PATCH 09/19] fix: accept any integer type as index, reject linear
 indices out of range

np.int32 etc were refused, and an invalid linear index raised ValueError
instead of KMAccessError.
---
 kernelmethods/base.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index d14b741..c962087 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -630,8 +630,13 @@ class KernelMatrix(object):
 
         self._check_attached()
 
-        if np.issubdtype(type(index_obj), np.int_):
-            index_obj = np.unravel_index(index_obj, self.shape)
+        if np.issubdtype(type(index_obj), np.integer):
+            try:
+                index_obj = np.unravel_index(index_obj, self.shape)
+            except ValueError:
+                raise KMAccessError('Linear index {} is out of range for kernel '
+                                    'matrix of shape {}'.format(index_obj,
+                                                                self.shape))
 
         if (not isinstance(index_obj, Iterable)) or len(index_obj) != 2 or \
             isinstance(index_obj, str) or index_obj is None:
@@ -667,7 +672,7 @@ class KernelMatrix(object):
 
         are_all_selected = False
 
-        if np.issubdtype(type(index_obj_per_dim), np.int_):
+        if np.issubdtype(type(index_obj_per_dim), np.integer):
             indices = [index_obj_per_dim, ]  # making it iterable
         elif isinstance(index_obj_per_dim, slice):
             if index_obj_per_dim is None:
@@ -1026,7 +1031,7 @@ class ConstantKernelMatrix(object):
         if isinstance(index_obj_per_dim, str) or index_obj_per_dim is None:
             raise KMAccessError('Indices can not be strings!')
 
-        if np.issubdtype(type(index_obj_per_dim), np.int_):
+        if np.issubdtype(type(index_obj_per_dim), np.integer):
             indices = [index_obj_per_dim, ]  # making it iterable
         elif isinstance(index_obj_per_dim, slice):
             _slice_index_list = index_obj_per_dim.indices(self.num_samples)
-- 
2.43.0


From e010f0626bdd3343082935549bdbba983a690b30 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:12:04 +0000
Subject: [PATCH 10/19] fix: a kernel function is not a valid member of a
 kernel set

It was let through and failed with AttributeError on num_samples.
---
 kernelmethods/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index c962087..c7e1d55 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1182,8 +1182,7 @@ class KernelSet(object):
 
         """
 
-        if not isinstance(KM, (BaseKernelFunction, KernelMatrix,
-                               KernelMatrixPrecomputed)):
+        if not isinstance(KM, (KernelMatrix, KernelMatrixPrecomputed)):
             KM = KernelMatrixPrecomputed(KM)
 
         if not self._is_init and self._num_samples is None:
-- 
2.43.0


From 02eb157495b4b19203d830328d969a310948254d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:12:04 +0000
Subject: [PATCH 11/19] fix: get_kernel_funcs returns the documented tuple, not
 a lazy generator

---
 kernelmethods/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index c7e1d55..ffe218a 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1267,7 +1267,7 @@ class KernelSet(object):
 
         indices = self._check_indices(indices)
 
-        return (self._km_set[index].kernel for index in indices)
+        return tuple(self._km_set[index].kernel for index in indices)
 
 
     def _check_indices(self, indices):
-- 
2.43.0


From 6a3550c3c5e63430ae0d240e19f68ab857a8039d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:12:04 +0000
Subject: [PATCH 12/19] fix: a rejected sample is not kept by the kernel set

---
 kernelmethods/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index ffe218a..aabddf9 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1331,11 +1331,12 @@ class KernelSet(object):
 
         """
 
-        self.sample = ensure_ndarray_2D(sample)
+        sample = ensure_ndarray_2D(sample)
         if self._num_samples is not None and sample.shape[0] != self._num_samples:
             raise ValueError('Number of samples in input differ from this KernelSet')
         else:
             self._num_samples = sample.shape[0]
+        self.sample = sample
 
         for index in range(self.size):
             self._km_set[index].attach_to(sample, name_one=name)
-- 
2.43.0


From cb75f1246ca344c7d83ee38fc86ff5e80b530fe5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:12:04 +0000
Subject: [PATCH 13/19] fix: optimal-kernel estimators can rank kernels by
 alignment

They pass estimator_name to every ranking method, which raised TypeError.
---
 kernelmethods/ranking.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index a360b9c..e82a2c6 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -131,13 +131,16 @@ def CV_ranking(kernel_bucket, targets, num_folds=3, estimator_name='SVM'):
     return 100 * min_max_scale(cv_scores)
 
 
-def alignment_ranking(kernel_bucket, targets, **method_params):
+def alignment_ranking(kernel_bucket, targets, estimator_name=None, **method_params):
     """Method to rank kernels that depend on target alignment.
 
     .. note:
 
         To be implemented.
 
+    ``estimator_name`` plays no role here, it is accepted for compatibility with
+    the CV-based ranking.
+
     """
 
     targets = np.asarray(targets)
-- 
2.43.0


From 1953234c04bd4adfb656cb3affa35737253e659b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:12:28 +0000
Subject: [PATCH 14/19] fix: optimal-kernel estimators train on the optimal
 kernel

They fitted an RBF kernel on top of the rows of the optimal kernel matrix.
---
 kernelmethods/algorithms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index c48f540..98ffe9c 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -355,6 +355,8 @@ class BaseOptimalKernelMachine(BaseEstimator):
 
         self.opt_kernel_ = self._find_optimal_kernel()
 
+        # training on the optimal kernel itself, as it is already computed
+        self.kernel = 'precomputed'
         super().fit(X=self.opt_kernel_.full, y=self._train_y,
                     sample_weight=sample_weight)
 
-- 
2.43.0


From d37ab2d2db93f250ab91ad25068dfdf375596df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:22 +0000
Subject: [PATCH 15/19] fix: the shape of an unattached kernel matrix can be
 queried

---
 kernelmethods/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index aabddf9..b04d29b 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -206,6 +206,7 @@ class KernelMatrix(object):
 
         # to ensure we can always query the size attribute
         self._num_samples = None
+        self.shape = None
         self._sample = None
         self._sample_name = None
 
-- 
2.43.0


From e9aabae958d1268a47998c5fc6b7ca8d03786bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:19 +0000
Subject: [PATCH 16/19] fix: alignment of non-arrays raises the intended
 TypeError

---
 kernelmethods/operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kernelmethods/operations.py b/kernelmethods/operations.py
index 7c597e8..7e978db 100644
--- a/kernelmethods/operations.py
+++ b/kernelmethods/operations.py
@@ -349,14 +349,14 @@ def alignment_centered(km_one, km_two,
 
     """
 
+    if not isinstance(km_one, np.ndarray) or not isinstance(km_two, np.ndarray):
+        raise TypeError('Input KMs must be numpy arrays')
+
     if km_one.shape != km_two.shape:
         raise ValueError('Dimensions of the two matrices must be the same '
                          'to compute their alignment! They differ: {}, {}'
                          ''.format(km_one.shape, km_two.shape))
 
-    if not isinstance(km_one, np.ndarray) or not isinstance(km_two, np.ndarray):
-        raise TypeError('Input KMs must be numpy arrays')
-
     if not centered_already:
         kC_one = center_km(km_one)
         kC_two = center_km(km_two)
-- 
2.43.0


From fdde354357286cbca2900febc07226716dbdfc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:31 +0000
Subject: [PATCH 17/19] fix: fitting a kernel machine no longer draws from
 numpy's global random state

---
 kernelmethods/ranking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index e82a2c6..31d1904 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -184,7 +184,9 @@ def get_estimator(learner_id='svm'):
         from sklearn.svm import SVC
         range_C = np.power(10.0, range(-6, 6))
         param_grid = dict(C=range_C)
-        base_learner = SVC(kernel='precomputed', probability=True, C=10)
+        # seeded, as estimating the probabilities draws from numpy's global state
+        base_learner = SVC(kernel='precomputed', probability=True, C=10,
+                           random_state=0)
     elif learner_id in ('svr',):
         from sklearn.svm import SVR
         range_C = np.power(10.0, range(-6, 6))
-- 
2.43.0


From 9af8559a60744979f6e824b9eb8f06ec134af934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:33 +0000
Subject: [PATCH 18/19] fix: array helpers never return floats when an integer
 type is required

---
 kernelmethods/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index 869a50a..e7cb20f 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -84,7 +84,8 @@ def ensure_ndarray_size(array, ensure_dtype=np.number, ensure_num_dim=1):
             target_dtype = np.dtype(ensure_dtype)
             array = array.astype(target_dtype)
         except TypeError:
-            if np.issubdtype(ensure_dtype, np.number):
+            # float64 serves only those abstract types that include it
+            if np.issubdtype(np.float64, ensure_dtype):
                 try:
                     array = array.astype(np.float64)
                 except (TypeError, ValueError):
-- 
2.43.0


From 15d143fae8a9e5486d70eb0f7c38ebbcce40b9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:58 +0000
Subject: [PATCH 19/19] fix: numeric kernels no longer wrap around on unsigned
 or narrow integer features

---
 kernelmethods/numeric_kernels.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kernelmethods/numeric_kernels.py b/kernelmethods/numeric_kernels.py
index 41d937c..079bd4d 100644
--- a/kernelmethods/numeric_kernels.py
+++ b/kernelmethods/numeric_kernels.py
@@ -65,7 +65,7 @@ class HadamardKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.inexact)
 
         abs_x_a = np.power(np.abs(x), self.alpha)
         abs_y_a = np.power(np.abs(y), self.alpha)
@@ -139,7 +139,7 @@ class PolyKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.inexact)
 
         return (self.b + self.gamma * np.dot(x, y)) ** self.degree
 
@@ -197,7 +197,7 @@ class GaussianKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.inexact)
 
         return np.exp(-self.gamma * np.linalg.norm(x - y, ord=2) ** 2)
 
@@ -251,7 +251,7 @@ class LaplacianKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.inexact)
 
         return np.exp(-self.gamma * np.sum(np.abs(x - y)))
 
@@ -391,7 +391,7 @@ class SigmoidKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.inexact)
 
         return np.tanh(self.offset + (self.gamma * np.dot(x, y)))
 
@@ -435,7 +435,7 @@ class LinearKernel(BaseKernelFunction):
         """Actual implementation of kernel func"""
 
         if not self.skip_input_checks:
-            x, y = check_input_arrays(x, y, ensure_dtype=np.number)
+            x, y = check_input_arrays(x, y, ensure_dtype=np.inexact)
 
         return x.dot(y.T)
 
-- 
2.43.0

