From e35d0017a1570c7e01977fdfc9f176948f2f382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:29 +0000
Subject: [PATCH 01/15] fix: accept SupervisedData in herding, Stein thinning,
 recombination and KSD

Unpacking the leaves of the dataset into exactly two values raised for
SupervisedData, which has three.
---
 coreax/metrics.py               | 3 +--
 coreax/solvers/coresubset.py    | 7 ++++---
 coreax/solvers/recombination.py | 7 ++++---
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/coreax/metrics.py b/coreax/metrics.py
index 7848bc5..cfde3b5 100644
--- a/coreax/metrics.py
+++ b/coreax/metrics.py
@@ -30,7 +30,6 @@ import equinox as eqx
 import jax
 import jax.numpy as jnp
 import jax.scipy as jsp
-import jax.tree_util as jtu
 from jaxtyping import Array, Shaped
 
 import coreax.util
@@ -246,7 +245,7 @@ class KSD(Metric[Data]):
         """
         del kwargs
         # Train Stein kernel with data from P
-        x, w_x = jtu.tree_leaves(reference_data)
+        x, w_x = reference_data.data, reference_data.weights
         kernel = convert_stein_kernel(x, self.kernel, self.score_matching)
 
         # Variable rename allows for nicer automatic formatting.
diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index bc1198b..03418a1 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -24,7 +24,6 @@ import jax
 import jax.numpy as jnp
 import jax.random as jr
 import jax.scipy as jsp
-import jax.tree_util as jtu
 from jaxtyping import Array, ArrayLike, Bool, Float, Scalar, Shaped
 from typing_extensions import override
 
@@ -161,7 +160,8 @@ def _greedy_kernel_selection(
     # The kernel similarity penalty must be computed for the initial coreset. If we did
     # not support refinement, the penalty could be initialised to the zeroes vector, and
     # the result would be invariant to the initial coresubset.
-    data, data_weights = jtu.tree_leaves(coresubset.pre_coreset_data)
+    data = coresubset.pre_coreset_data.data
+    data_weights = coresubset.pre_coreset_data.weights
     init_kernel_similarity_penalty = init_coreset_size * kernel.compute_mean(
         data,
         padded_coresubset.points,
@@ -502,7 +502,8 @@ class SteinThinning(
         :return: A refined coresubset and relevant intermediate solver state
             information.
         """
-        x, w_x = jtu.tree_leaves(coresubset.pre_coreset_data)
+        x = coresubset.pre_coreset_data.data
+        w_x = coresubset.pre_coreset_data.weights
         kernel = convert_stein_kernel(x, self.kernel, self.score_matching)
         stein_kernel_diagonal = jax.vmap(self.kernel.compute_elementwise)(x, x)
         if self.regularise:
diff --git a/coreax/solvers/recombination.py b/coreax/solvers/recombination.py
index a89579d..1852de0 100644
--- a/coreax/solvers/recombination.py
+++ b/coreax/solvers/recombination.py
@@ -92,7 +92,6 @@ from typing import Generic, Literal, NamedTuple, TypeVar
 import jax
 import jax.numpy as jnp
 import jax.scipy as jsp
-import jax.tree_util as jtu
 from jaxtyping import Array, Bool, DTypeLike, Float, Integer, Real, Shaped
 from typing_extensions import override
 
@@ -181,7 +180,8 @@ class CaratheodoryRecombination(RecombinationSolver[Data, None]):
     def reduce(
         self, dataset: Data, solver_state: None = None
     ) -> tuple[Coresubset, None]:
-        nodes, weights = jtu.tree_leaves(dataset.normalize(preserve_zeros=True))
+        normalized_dataset = dataset.normalize(preserve_zeros=True)
+        nodes, weights = normalized_dataset.data, normalized_dataset.weights
         push_forward_nodes = _push_forward(nodes, self.test_functions)
         # Handle pre-existing zero-weighted nodes (not handled by the base algorithm
         # described in :cite:`tchernychova2016recombination`)
@@ -504,7 +504,8 @@ class TreeRecombination(RecombinationSolver[Data, None]):
     def reduce(
         self, dataset: Data, solver_state: None = None
     ) -> tuple[Coresubset, None]:
-        nodes, weights = jtu.tree_leaves(dataset.normalize(preserve_zeros=True))
+        normalized_dataset = dataset.normalize(preserve_zeros=True)
+        nodes, weights = normalized_dataset.data, normalized_dataset.weights
         # Push the nodes forward through the test-functions \Phi^\prime.
         push_forward_nodes = _push_forward(nodes, self.test_functions, augment=False)
         n, m = push_forward_nodes.shape
-- 
2.43.0


From 57c0973cd1ba78d35f59a9bd7fd8a1563fa5d0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:29 +0000
Subject: [PATCH 02/15] fix: give zero-weighted points zero probability in
 probabilistic herding

A zero-weighted data point made every selection probability NaN, so that the
first data point was selected at every iteration.
---
 coreax/solvers/coresubset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 03418a1..484c16c 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -342,7 +342,11 @@ class KernelHerding(
 
             # Apply softmax to the metric for probabilistic selection
             if self.probabilistic:
-                probs = jax.nn.softmax(valid_residuals / self.temperature)
+                # Zero-weighted data points (marked by NaN) have zero probability
+                logits = jnp.where(
+                    jnp.isnan(valid_residuals), -jnp.inf, valid_residuals
+                )
+                probs = jax.nn.softmax(logits / self.temperature)
                 key = jr.fold_in(self.random_key, i)
                 return jr.choice(
                     key, gramian_row_mean.shape[0], (), p=probs, replace=False
-- 
2.43.0


From 94003fbbf351ea3af0890c11b9df273e20dbdaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:29 +0000
Subject: [PATCH 03/15] fix: keep zero-weighted TreeRecombination indices
 within the dataset

The padding was indexed beyond the end of the dataset, and these indices could
be returned in the 'implicit' mode.
---
 coreax/solvers/recombination.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/recombination.py b/coreax/solvers/recombination.py
index 1852de0..1a9efed 100644
--- a/coreax/solvers/recombination.py
+++ b/coreax/solvers/recombination.py
@@ -560,7 +560,9 @@ class TreeRecombination(RecombinationSolver[Data, None]):
             updated_indices = _indices[weight_update_indices.reshape(-1, order="F")]
             return updated_weights.reshape(-1, order="F"), updated_indices
 
-        in_state = (jnp.pad(weights, (0, padding)), jnp.arange(n + padding))
+        # Padding is zero-weighted, hence it can index any (valid) node
+        padded_indices = jnp.minimum(jnp.arange(n + padding), n - 1)
+        in_state = (jnp.pad(weights, (0, padding)), padded_indices)
         out_weights, indices = jax.lax.fori_loop(0, depth, _tree_reduce, in_state)
         coresubset_nodes = _coresubset_nodes(
             push_forward_nodes, out_weights, indices, self.mode
-- 
2.43.0


From c21f110315ac38b9f843cae54f1b385755746ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:16 +0000
Subject: [PATCH 04/15] fix: never return padding or repeated indices from
 batched GreedyKernelPoints

With a candidate batch smaller than the dataset, the padding index -1 could be
selected when 'unique' was False, and an already selected index could be
repeated when 'unique' was True and every candidate had been selected.
---
 coreax/solvers/coresubset.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 484c16c..e94aad8 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -975,6 +975,7 @@ def _update_candidate_coresets_and_coreset_indices(
     coreset_indices: Shaped[Array, " n"],
     loss: Shaped[Array, " p"],
     candidate_batch_indices: Shaped[Array, " n p"],
+    num_data_pairs: int | None = None,
 ) -> tuple[Shaped[Array, " p n"], Shaped[Array, " n"]]:
     """
     Update the coreset indices and candidate coreset matrix following loss computation.
@@ -996,6 +997,9 @@ def _update_candidate_coresets_and_coreset_indices(
         point.
     :param candidate_batch_indices: Matrix of batch indices for consideration of adding
         to the coreset. Each column contains the candidate indices for each iteration.
+    :param num_data_pairs: Number of data pairs in the original dataset. If given, and
+        every candidate index is already in a unique coreset, the first data pair that
+        is not in the coreset is included instead.
     :return: Tuple of matrices (``updated_candidate_coresets`,
         ``updated_coreset_indices``), the first is  ``candidate_coresets`` with the
         chosen coreset index repeated into the ``i``th column, and the next batch of
@@ -1008,13 +1012,26 @@ def _update_candidate_coresets_and_coreset_indices(
     # ensures it is not chosen. There is additional logic here to ensure that if
     # we are refining (i.e. not reducing), we are allowed to keep the index that
     # currently exists in the coreset if it is the best one.
+    other_coreset_indices = coreset_indices.at[i].set(-1)
     if unique:
         already_chosen_indices_mask = jnp.isin(
-            candidate_coresets[:, i],
-            coreset_indices.at[i].set(-1),
+            candidate_coresets[:, i], other_coreset_indices
         )
         loss += jnp.where(already_chosen_indices_mask, jnp.inf, 0)
+    # The -1 index points towards the zero-valued padding and can never be chosen.
+    loss = jnp.where(candidate_coresets[:, i] < 0, jnp.inf, loss)
     index_to_include_in_coreset = candidate_coresets[loss.argmin(), i]
+    if unique and num_data_pairs is not None:
+        available_mask = (
+            jnp.ones(num_data_pairs + 1, dtype=bool)
+            .at[other_coreset_indices]
+            .set(False)
+        )
+        index_to_include_in_coreset = jnp.where(
+            jnp.all(already_chosen_indices_mask),
+            available_mask.argmax().astype(index_to_include_in_coreset.dtype),
+            index_to_include_in_coreset,
+        )
 
     # Repeat the chosen coreset index into the ith column of the array of
     # the candidate_batch_size x coreset_size candidate_coresets array. Replace the
@@ -1304,6 +1321,7 @@ class GreedyKernelPoints(
                     coreset_indices,
                     loss,
                     candidate_batch_indices,
+                    num_data_pairs,
                 )
             )
             return updated_coreset_indices, updated_identity, updated_candidate_coresets
-- 
2.43.0


From 3cd6a1b8b872bc0dd8163c4a110006a969f4ed39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:15 +0000
Subject: [PATCH 05/15] fix: spread MapReduce padding so that it is never
 selected

All of the zero-valued padding could share a partition, leaving fewer points
with non-zero weight than the coreset size; the base solver then selected the
padding, which was reported as the last index of the dataset.
---
 coreax/solvers/composite.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/coreax/solvers/composite.py b/coreax/solvers/composite.py
index b66a4d6..57d371f 100644
--- a/coreax/solvers/composite.py
+++ b/coreax/solvers/composite.py
@@ -207,9 +207,10 @@ def _jit_tree(
     # leaf_size <= n_points <= 2 * leaf_size
     # It is not obvious in this case if 'n_points' can be determined a priori.
     #
-    # A simple solution is to pad the dataset with zero valued and weighted points, up
-    # to the smallest integer power of two. An additional benefit of this padding is
-    # that all partitions will be perfectly balanced (of identical size).
+    # A simple solution is to split the points, in tree order, into as many partitions
+    # as there are leaves, whose sizes differ by at most one. The smaller partitions are
+    # padded with a single zero valued and weighted point, such that all partitions
+    # will be perfectly balanced (of identical size).
     #
     # IMPORTANT: the base solver should ignore/be invariant to these padding values;
     # ignorance is weaker condition than invariance. For example, due to implementation
@@ -221,16 +222,22 @@ def _jit_tree(
     # Divide by two so the leaf_size is the partition size.
     _leaf_size = max(1, leaf_size // 2)
     n_leaves = 2 ** max(0, math.floor(math.log2((len(dataset) - 1) / _leaf_size)))
-    padding = math.ceil(len(dataset) / n_leaves) * n_leaves - len(dataset)
-    padded_dataset = tree_zero_pad_leading_axis(dataset, padding)
-    shape = (n_leaves, len(padded_dataset) // n_leaves)
+    n_points = len(dataset)
+    padded_dataset = tree_zero_pad_leading_axis(dataset, 1)
+    shape = (n_leaves, math.ceil(n_points / n_leaves))
     result_shape = jax.ShapeDtypeStruct(shape, jnp.int32)
 
     def _binary_tree(_input_data: Data) -> np.ndarray:
         _, node_indices, _, _ = tree_type(
             _input_data.data, leaf_size=_leaf_size, sample_weight=_input_data.weights
         ).get_arrays()
-        return node_indices.reshape(n_leaves, -1).astype(np.int32)
-
-    indices = jax.pure_callback(_binary_tree, result_shape, padded_dataset)
-    return padded_dataset[indices], jnp.arange(len(dataset))[indices]
+        # The index 'n_points' is that of the zero-weighted padding
+        partitions = np.full(shape, n_points, dtype=np.int32)
+        for row, leaf_indices in zip(
+            partitions, np.array_split(node_indices, n_leaves), strict=True
+        ):
+            row[: len(leaf_indices)] = leaf_indices
+        return partitions
+
+    indices = jax.pure_callback(_binary_tree, result_shape, dataset)
+    return padded_dataset[indices], jnp.arange(n_points)[indices]
-- 
2.43.0


From 6f2e2ce77fed6b76a359acdda4054edbec6fd98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:27 +0000
Subject: [PATCH 06/15] fix: weight the kernel density score estimate in
 SteinThinning

The default score function of SteinThinning gave zero-weighted (padding) points
the same influence as any other, so the solver was not padding invariant.
---
 coreax/score_matching.py     | 30 ++++++++++++++++++++++++------
 coreax/solvers/coresubset.py |  6 +++---
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/coreax/score_matching.py b/coreax/score_matching.py
index e215568..878d48e 100644
--- a/coreax/score_matching.py
+++ b/coreax/score_matching.py
@@ -47,6 +47,7 @@ from jaxtyping import Array, DTypeLike, Float, Shaped
 from tqdm import tqdm
 from typing_extensions import override
 
+from coreax.data import Data
 from coreax.kernels import ScalarValuedKernel, SquaredExponentialKernel, SteinKernel
 from coreax.networks import ScoreNetwork, _LearningRateOptimiser, create_train_state
 from coreax.util import KeyArrayLike
@@ -383,7 +384,9 @@ class KernelDensityMatching(ScoreMatching):
         the kernel density estimate.
 
         :param x: Set of :math:`n \times d` samples from the underlying distribution
-            that are used to build the kernel density estimate
+            that are used to build the kernel density estimate; may be an instance of
+            :class:`~coreax.data.Data`, in which case the kernel density estimate is
+            weighted by the weights of the data
         :return: A function that applies the learned score function to input ``x``
         """
         kde_data = x
@@ -423,7 +426,14 @@ class KernelDensityMatching(ScoreMatching):
             gram_matrix_row_means = self.kernel.compute_mean(x_, kde_data, axis=1)
 
             # Compute gradients with respect to x
-            gradients = self.kernel.grad_x(x_, kde_data).mean(axis=1)
+            if isinstance(kde_data, Data):
+                gradients = jnp.average(
+                    self.kernel.grad_x(x_, kde_data.data),
+                    axis=1,
+                    weights=kde_data.weights,
+                )
+            else:
+                gradients = self.kernel.grad_x(x_, kde_data).mean(axis=1)
 
             # Compute final evaluation of the score function
             score_result = gradients / gram_matrix_row_means[:, None]
@@ -439,14 +449,16 @@ class KernelDensityMatching(ScoreMatching):
 
 
 def convert_stein_kernel(
-    x: Shaped[Array, " n d"],
+    x: Shaped[Array, " n d"] | Data,
     kernel: ScalarValuedKernel,
     score_matching: ScoreMatching | None,
 ) -> SteinKernel:
     r"""
     Convert the kernel to a :class:`~coreax.kernels.SteinKernel`.
 
-    :param x: The data used to call `score_matching.match(x)`
+    :param x: The data used to call `score_matching.match(x)`; the weights of an
+        instance of :class:`~coreax.data.Data` are only used with
+        :class:`~coreax.score_matching.KernelDensityMatching`
     :param kernel: :class:`~coreax.kernels.ScalarValuedKernel` instance implementing a
         kernel function
         :math:`k: \mathbb{R}^d \times \mathbb{R}^d \rightarrow \mathbb{R}`; if 'kernel'
@@ -460,10 +472,16 @@ def convert_stein_kernel(
        function is used.
     :return: The (potentially) converted/updated :class:`~coreax.kernels.SteinKernel`.
     """
+
+    def _match(matching: ScoreMatching) -> Callable:
+        if isinstance(x, Data) and not isinstance(matching, KernelDensityMatching):
+            return matching.match(x.data)
+        return matching.match(x)
+
     if isinstance(kernel, SteinKernel):
         if score_matching is not None:
             _kernel = eqx.tree_at(
-                lambda x: x.score_function, kernel, score_matching.match(x)
+                lambda x: x.score_function, kernel, _match(score_matching)
             )
         else:
             _kernel = kernel
@@ -471,5 +489,5 @@ def convert_stein_kernel(
         if score_matching is None:
             length_scale = getattr(kernel, "length_scale", 1.0)
             score_matching = KernelDensityMatching(length_scale)
-        _kernel = SteinKernel(kernel, score_function=score_matching.match(x))
+        _kernel = SteinKernel(kernel, score_function=_match(score_matching))
     return _kernel
diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index e94aad8..d567017 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -506,9 +506,9 @@ class SteinThinning(
         :return: A refined coresubset and relevant intermediate solver state
             information.
         """
-        x = coresubset.pre_coreset_data.data
-        w_x = coresubset.pre_coreset_data.weights
-        kernel = convert_stein_kernel(x, self.kernel, self.score_matching)
+        dataset = coresubset.pre_coreset_data
+        x, w_x = dataset.data, dataset.weights
+        kernel = convert_stein_kernel(dataset, self.kernel, self.score_matching)
         stein_kernel_diagonal = jax.vmap(self.kernel.compute_elementwise)(x, x)
         if self.regularise:
             kde = jsp.stats.gaussian_kde(x.T, weights=w_x, bw_method=self.kde_bw_method)
-- 
2.43.0


From 081be06b7c7e2661d6ac2edc0f3dc34c30d8feff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:27 +0000
Subject: [PATCH 07/15] fix: use the converted Stein kernel in SteinThinning's
 objective

The greedy objective was evaluated with the base kernel, ignoring the score
function, unless the user passed a SteinKernel without score matching.
---
 coreax/solvers/coresubset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index d567017..48f4696 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -509,7 +509,7 @@ class SteinThinning(
         dataset = coresubset.pre_coreset_data
         x, w_x = dataset.data, dataset.weights
         kernel = convert_stein_kernel(dataset, self.kernel, self.score_matching)
-        stein_kernel_diagonal = jax.vmap(self.kernel.compute_elementwise)(x, x)
+        stein_kernel_diagonal = jax.vmap(kernel.compute_elementwise)(x, x)
         if self.regularise:
             kde = jsp.stats.gaussian_kde(x.T, weights=w_x, bw_method=self.kde_bw_method)
 
@@ -548,7 +548,7 @@ class SteinThinning(
             coresubset,
             selection_function,
             self.coreset_size,
-            self.kernel,
+            kernel,
             self.unique,
             self.block_size,
             self.unroll,
-- 
2.43.0


From 052ecc68798b2f2769f44ec8704befe712bb50e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:31 +0000
Subject: [PATCH 08/15] fix: give the gradients of a constant kernel the shape
 of a gradient

The divergence of a kernel multiplied by a number was a vector for each pair of
points, rather than a scalar.
---
 coreax/kernels/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coreax/kernels/base.py b/coreax/kernels/base.py
index 0e4b74d..00f9ac5 100644
--- a/coreax/kernels/base.py
+++ b/coreax/kernels/base.py
@@ -608,11 +608,11 @@ class _Constant(ScalarValuedKernel):
 
     @override
     def grad_x_elementwise(self, x, y):
-        return jnp.asarray(0)
+        return jnp.zeros(jnp.shape(x))
 
     @override
     def grad_y_elementwise(self, x, y):
-        return jnp.asarray(0)
+        return jnp.zeros(jnp.shape(y))
 
     @override
     def divergence_x_grad_y_elementwise(self, x, y):
-- 
2.43.0


From 581862aefe252d92d3e8b645a34071f35b8f112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:31 +0000
Subject: [PATCH 09/15] fix: avoid dividing by zero in the divergence of a
 kernel to the power one

The divergence was NaN wherever the base kernel is zero.
---
 coreax/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coreax/kernels/base.py b/coreax/kernels/base.py
index 00f9ac5..9d80482 100644
--- a/coreax/kernels/base.py
+++ b/coreax/kernels/base.py
@@ -690,7 +690,7 @@ class PowerKernel(UniCompositeKernel, ScalarValuedKernel):
                 * self.base_kernel.divergence_x_grad_y_elementwise(x, y)
             )
             + (n - 1)
-            * compute ** (n - 2)
+            * compute ** max(n - 2, 0)
             * (
                 self.base_kernel.grad_x_elementwise(x, y).dot(
                     self.base_kernel.grad_y_elementwise(x, y)
-- 
2.43.0


From c075a48d3dc02d37496fa2db044e45cf756b6985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:23 +0000
Subject: [PATCH 10/15] fix: weights optimisers account for the dataset's
 weights

---
 coreax/weights.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coreax/weights.py b/coreax/weights.py
index 3ece129..7578d09 100644
--- a/coreax/weights.py
+++ b/coreax/weights.py
@@ -136,9 +136,9 @@ def _prepare_kernel_system(
         and type(coreset) is Data
         and isinstance(kernel, ScalarValuedKernel)
     ):
-        x_d, x_c = dataset.data, coreset.data
+        x_c = coreset.data
         kernel_cd = kernel.compute_mean(
-            x_d, x_c, axis=0, block_size=block_size, unroll=unroll
+            dataset, x_c, axis=0, block_size=block_size, unroll=unroll
         )
         kernel_cc = kernel.compute(x_c, x_c) + epsilon * jnp.eye(len(coreset))
     else:
-- 
2.43.0


From 279857f7b6f9529872702dede1997c03ab40b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:12 +0000
Subject: [PATCH 11/15] fix: kernel thinning keeps its randomness after a pair
 of coincident points

---
 coreax/solvers/coresubset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 48f4696..e2e754a 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1490,11 +1490,14 @@ class KernelThinning(CoresubsetSolver[_Data, None], ExplicitSizeSolver):
             :param x2: The second data point.
             :return: The kernel distance between `x1` and `x2`.
             """
-            return jnp.sqrt(k(x1, x1) + k(x2, x2) - 2 * k(x1, x2))
+            # Rounding can make the squared distance of close points negative
+            return jnp.sqrt(jnp.maximum(k(x1, x1) + k(x2, x2) - 2 * k(x1, x2), 0.0))
 
         def get_a_and_sigma(b, sigma):
             """Compute 'a' and new sigma parameter."""
             a = jnp.maximum(b * sigma * jnp.sqrt(2 * jnp.log(2 / self.delta)), b**2)
+            # Coincident points (b = 0) are exchangeable and must not affect sigma
+            a = jnp.where(b > 0, a, 1.0)
 
             # Update sigma
             new_sigma = jnp.sqrt(
-- 
2.43.0


From e4a644bcc9d7dc4005b326ec102fbbd8298eeaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:06 +0000
Subject: [PATCH 12/15] fix: kernel thinning halves the data as often as the
 size allows

---
 coreax/solvers/coresubset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index e2e754a..6b90441 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1397,7 +1397,8 @@ class KernelThinning(CoresubsetSolver[_Data, None], ExplicitSizeSolver):
         if self.coreset_size > len(dataset):
             raise ValueError(MSG)
         n = len(dataset)
-        m = math.floor(math.log2(n) - math.log2(self.coreset_size))
+        # Integer arithmetic: a difference of logarithms can fall short of an integer
+        m = (n // self.coreset_size).bit_length() - 1
         clipped_original_dataset = dataset[: self.coreset_size * 2**m]
 
         partition = self.kt_half_recursive(clipped_original_dataset, m, dataset)
-- 
2.43.0


From 34c46a4c1aca96415d529a5d081b20072f97df74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:50 +0000
Subject: [PATCH 13/15] fix: MapReduce partitions must hold at least
 coreset_size points

---
 coreax/solvers/composite.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/composite.py b/coreax/solvers/composite.py
index 57d371f..d526a7f 100644
--- a/coreax/solvers/composite.py
+++ b/coreax/solvers/composite.py
@@ -161,8 +161,11 @@ class MapReduce(
                     return x.points, x.indices.data
                 return x.points, None
 
+            # Every partition must hold at least as many points as are to be selected
             partitioned_dataset, partitioned_indices = _jit_tree(
-                data, self.leaf_size, self.tree_type
+                data,
+                max(self.leaf_size, 2 * self.base_solver.coreset_size),
+                self.tree_type,
             )
             # Reduce each partition and get indices from each
             coreset_ensemble, ensemble_indices = jax.vmap(wrapper)(partitioned_dataset)
-- 
2.43.0


From 30eeb614c96250a783fb80de5e552257a26c8641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:14 +0000
Subject: [PATCH 14/15] fix: NystromApproximateKernel regresses on the
 dataset's row-mean

---
 coreax/approximation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coreax/approximation.py b/coreax/approximation.py
index dd78e7d..9ce32b1 100644
--- a/coreax/approximation.py
+++ b/coreax/approximation.py
@@ -336,5 +336,5 @@ class NystromApproximateKernel(RandomRegressionKernel):
             x,
             features,
             self.num_train_points,
-            self.base_kernel.gramian_row_mean,
+            partial(self.base_kernel.compute_mean, x, axis=0),
         )
-- 
2.43.0


From e686363a2be0cbb3970e3088c6054e01360e2ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:40 +0000
Subject: [PATCH 15/15] fix: refinement counts every coreset member once,
 whatever its weight

---
 coreax/solvers/coresubset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 6b90441..e2b6742 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -162,9 +162,11 @@ def _greedy_kernel_selection(
     # the result would be invariant to the initial coresubset.
     data = coresubset.pre_coreset_data.data
     data_weights = coresubset.pre_coreset_data.weights
+    # All members count equally, whatever their (non-zero) weight, because the loop below
+    # removes (and adds) the similarity of each member exactly once.
     init_kernel_similarity_penalty = init_coreset_size * kernel.compute_mean(
         data,
-        padded_coresubset.points,
+        Data(padded_coresubset.points.data, jnp.greater(coreset_weights, 0)),
         axis=1,
         block_size=block_size,
         unroll=unroll,
-- 
2.43.0

