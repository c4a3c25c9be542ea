From f802df0aebdf57bf2c82973dc02f34ef894ff749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 01/32] fix: accept diagonal's keyword options on DataLoaderMV

diagonal() of a streamed operator rejected mv_jittable and
diagonal_batch_size with a TypeError, although the plain operator and the
streamed to_dense accept theirs.
---
 laplax/util/loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/util/loader.py b/laplax/util/loader.py
index 1fdae31..519e11a 100644
--- a/laplax/util/loader.py
+++ b/laplax/util/loader.py
@@ -363,13 +363,13 @@ def _(mv: DataLoaderMV, layout: Layout, **kwargs: Kwargs) -> Array:
 
 
 @diagonal.register
-def _(mv: DataLoaderMV, layout: Layout | None = None) -> Array:
+def _(mv: DataLoaderMV, layout: Layout | None = None, **kwargs: Kwargs) -> Array:
     """Apply diagonal to DataLoaderMV.
 
     Returns:
         The result of applying the function to the data loader.
     """
-    return mv.lower_func(diagonal, layout=layout)
+    return mv.lower_func(diagonal, layout=layout, **kwargs)
 
 
 @wrap_function.register
-- 
2.43.0


From dfbcccfbd75f9abf102036f94992f82d1cf3d023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 02/32] fix: make the (binary) cross-entropy losses usable for
 Hessian products

concatenate_model_and_loss_fn documents BINARY_CROSS_ENTROPY but rejected it,
and for CROSS_ENTROPY returned an unreduced element-wise sigmoid loss that
cannot be differentiated and is not the loss whose Hessian the GGN uses.
---
 laplax/curv/utils.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/laplax/curv/utils.py b/laplax/curv/utils.py
index 4c44a20..e7a34d3 100644
--- a/laplax/curv/utils.py
+++ b/laplax/curv/utils.py
@@ -125,6 +125,25 @@ def log_sigmoid_cross_entropy(
     )
 
 
+def softmax_cross_entropy(
+    logits: Num[Array, "..."], targets: Num[Array, "..."]
+) -> Num[Array, "..."]:
+    r"""Computes the softmax cross entropy given logits and targets.
+
+    Args:
+        logits: The predicted logits, with the classes along the last axis.
+        targets: Either integer class labels or class probabilities (e.g., one-hot).
+
+    Returns:
+        The computed loss values (one per set of logits).
+    """
+    log_probs = jax.nn.log_softmax(logits, axis=-1)
+    if targets.ndim == logits.ndim:
+        return -jnp.sum(targets * log_probs, axis=-1)
+    labels = jnp.expand_dims(targets, -1).astype(int)
+    return -jnp.take_along_axis(log_probs, labels, axis=-1)[..., 0]
+
+
 def concatenate_model_and_loss_fn(
     model_fn: ModelFn,  # type: ignore[reportRedeclaration]
     loss_fn: LossFn | str | Callable,
@@ -182,7 +201,16 @@ def concatenate_model_and_loss_fn(
         def loss_wrapper(
             input: InputArray, target: TargetArray, params: Params
         ) -> Num[Array, "..."]:
-            return log_sigmoid_cross_entropy(model_fn(input, params), target)
+            return jnp.sum(softmax_cross_entropy(model_fn(input, params), target))
+
+        return loss_wrapper
+
+    if loss_fn == LossFn.BINARY_CROSS_ENTROPY:
+
+        def loss_wrapper(
+            input: InputArray, target: TargetArray, params: Params
+        ) -> Num[Array, "..."]:
+            return jnp.sum(log_sigmoid_cross_entropy(model_fn(input, params), target))
 
         return loss_wrapper
 
-- 
2.43.0


From 92792f79dd9bcd4e341f71545d52ea255d3755b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 03/32] fix: apply the loss scaling to low-rank curvature
 eigenvalues too

low_rank_curvature_to_precision divided only the prior precision by
loss_scaling_factor, so low-rank posteriors disagreed with the full and
diagonal ones for every factor other than one.
---
 laplax/curv/low_rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/low_rank.py b/laplax/curv/low_rank.py
index 411a388..d8bab0e 100644
--- a/laplax/curv/low_rank.py
+++ b/laplax/curv/low_rank.py
@@ -143,7 +143,7 @@ def low_rank_curvature_to_precision(
     U, S, _ = jax.tree.leaves(curv_estimate)
     return LowRankTerms(
         U=U,
-        S=(sigma_squared * S),
+        S=(sigma_squared * S) / loss_scaling_factor,
         scalar=prior_prec / loss_scaling_factor,
     )
 
-- 
2.43.0


From 0e6899e335687f3219133c10721c07d02c5b2517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 04/32] fix: support the documented integer layout for full
 curvature

create_full_curvature warned and then failed with an AttributeError, because
it asked for the tree size of the integer.
---
 laplax/curv/full.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/laplax/curv/full.py b/laplax/curv/full.py
index bb1ad12..6979efe 100644
--- a/laplax/curv/full.py
+++ b/laplax/curv/full.py
@@ -48,10 +48,12 @@ def create_full_curvature(
         )
         logger.warning(msg)
         mv_wrapped = mv
+        size = layout
     else:
         flatten, unflatten = create_pytree_flattener(layout)
         mv_wrapped = wrap_function(mv, input_fn=unflatten, output_fn=flatten)
-    curv_estimate = to_dense(mv_wrapped, layout=get_size(layout))
+        size = get_size(layout)
+    curv_estimate = to_dense(mv_wrapped, layout=size)
     return curv_estimate
 
 
-- 
2.43.0


From 9061171a93c60cec46b9d00e2e1fdb37571cd94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 05/32] fix: pad with zeros when the Lanczos process breaks
 down

Once the Krylov space was exhausted the last vector was repeated, so the
tridiagonal matrix gained spurious eigenpairs and U S U' no longer matched the
operator whenever the requested rank exceeded the Krylov dimension.
---
 laplax/curv/lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 6273be4..fee6f1d 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -66,7 +66,7 @@ def lanczos_iterations(
         v_next = jax.lax.cond(
             b_val > 0,  # type: ignore[operator]
             lambda _: w / b_val,
-            lambda _: v,  # In degenerate cases, no progress is made.
+            lambda _: jnp.zeros_like(v),  # Krylov space exhausted; pad with zeros.
             operand=None,
         )
         alpha = alpha.at[i].set(a)
-- 
2.43.0


From 0979955a775108993e20d92353bf8fc87752057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:17 +0000
Subject: [PATCH 06/32] fix: reduce the LOBPCG rank when the size equals five
 times the rank

jax's lobpcg_standard requires 5 * rank < size, so the boundary case was
passed on unreduced and rejected with a ValueError.
---
 laplax/curv/lobpcg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index ee47547..fe31f10 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -365,7 +365,7 @@ def lobpcg_lowrank(
     matmat = jax.vmap(matvec, in_axes=-1, out_axes=-1)
 
     # Adjust rank if it's too large compared to problem size
-    if size < rank * 5:
+    if size <= rank * 5:
         rank = max(1, size // 5 - 1)
         msg = f"reduced rank to {rank} due to insufficient size"
         warnings.warn(msg, stacklevel=1)
-- 
2.43.0


From bf691250b2dc022404a1b000247ff0f5f5a8e56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 07/32] fix: scope the x64 switch of the low-rank solvers

lanczos_lowrank and lobpcg_lowrank flipped the process-wide x64 flag: it stayed
flipped when the operator (or an argument check) raised, other threads saw it
meanwhile, and a caller's enable_x64 context was ignored. Results requested in
float64 from a float32 calculation were silently returned as float32.
---
 laplax/curv/lanczos.py | 53 +++++++++++++++++++++++++++++++-----------
 laplax/curv/lobpcg.py  | 49 +++++++++++++++++++++++++++-----------
 2 files changed, 76 insertions(+), 26 deletions(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index fee6f1d..951812f 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -1,5 +1,6 @@
 import jax
 import jax.numpy as jnp
+from jax.experimental import enable_x64
 
 from laplax.curv.utils import LowRankTerms, get_matvec
 from laplax.types import Array, Callable, DType, Float, KeyType, Kwargs, Layout
@@ -190,7 +191,7 @@ def lanczos_lowrank(
     del kwargs
 
     # Initialize handling mixed precision.
-    original_float64_enabled = jax.config.read("jax_enable_x64")
+    original_float64_enabled = jax.config.jax_enable_x64
 
     if mv_dtype is None:
         mv_dtype = jnp.float64 if original_float64_enabled else jnp.float32
@@ -198,8 +199,44 @@ def lanczos_lowrank(
     if return_dtype is None:
         return_dtype = jnp.float64 if original_float64_enabled else jnp.float32
 
-    jax.config.update("jax_enable_x64", calc_dtype == jnp.float64)
+    # Calculate in the requested precision. The switch only affects this thread and is
+    # undone however the calculation ends.
+    with enable_x64(calc_dtype == jnp.float64):
+        eigvals, eigvecs = _lanczos_eigenpairs(
+            A,
+            key=key,
+            b=b,
+            layout=layout,
+            rank=rank,
+            tol=tol,
+            mv_dtype=mv_dtype,
+            calc_dtype=calc_dtype,
+            mv_jit=mv_jit,
+            full_reorthogonalize=full_reorthogonalize,
+        )
+
+    # Prepare and convert the results
+    with enable_x64(jnp.float64 in (calc_dtype, return_dtype)):
+        return LowRankTerms(
+            U=jnp.asarray(eigvecs, dtype=return_dtype),
+            S=jnp.asarray(eigvals, dtype=return_dtype),
+            scalar=jnp.asarray(0.0, dtype=return_dtype),
+        )
+
 
+def _lanczos_eigenpairs(
+    A: Callable[[Array], Array] | Array,
+    *,
+    key: KeyType | None,
+    b: Array | None,
+    layout: Layout | None,
+    rank: int,
+    tol: float,
+    mv_dtype: DType,
+    calc_dtype: DType,
+    mv_jit: bool,
+    full_reorthogonalize: bool,
+) -> tuple[Array, Array]:
     # Obtain a uniform matrix-vector multiplication function.
     matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
 
@@ -231,14 +268,4 @@ def lanczos_lowrank(
         mv_jit=mv_jit,
     )
     eigvals, eigvecs = compute_eigendecomposition(alpha, beta, V, compute_vectors=True)
-
-    # Prepare and convert the results
-    low_rank_result = LowRankTerms(
-        U=jnp.asarray(eigvecs, dtype=return_dtype),
-        S=jnp.asarray(eigvals, dtype=return_dtype),
-        scalar=jnp.asarray(0.0, dtype=return_dtype),
-    )
-
-    # Restore the original configuration dtype
-    jax.config.update("jax_enable_x64", original_float64_enabled)
-    return low_rank_result
+    return eigvals, eigvecs
diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index fe31f10..bbf002f 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -67,6 +67,7 @@ import warnings
 
 import jax
 import jax.numpy as jnp
+from jax.experimental import enable_x64
 from jax.experimental.sparse import linalg
 from jax.experimental.sparse.linalg import (
     _check_inputs,  # noqa: PLC2701
@@ -348,7 +349,7 @@ def lobpcg_lowrank(
     del kwargs
 
     # Initialize handling mixed precision.
-    original_float64_enabled = jax.config.read("jax_enable_x64")
+    original_float64_enabled = jax.config.jax_enable_x64
 
     if mv_dtype is None:
         mv_dtype = jnp.float64 if original_float64_enabled else jnp.float32
@@ -356,8 +357,40 @@ def lobpcg_lowrank(
     if return_dtype is None:
         return_dtype = jnp.float64 if original_float64_enabled else jnp.float32
 
-    jax.config.update("jax_enable_x64", calc_dtype == jnp.float64)
+    # Calculate in the requested precision. The switch only affects this thread and is
+    # undone however the calculation ends.
+    with enable_x64(calc_dtype == jnp.float64):
+        eigenvals, eigenvecs = _lobpcg_eigenpairs(
+            A,
+            key=key,
+            layout=layout,
+            rank=rank,
+            tol=tol,
+            mv_dtype=mv_dtype,
+            calc_dtype=calc_dtype,
+            mv_jit=mv_jit,
+        )
+
+    # Prepare and convert the results
+    with enable_x64(jnp.float64 in (calc_dtype, return_dtype)):
+        return LowRankTerms(
+            U=jnp.asarray(eigenvecs, dtype=return_dtype),
+            S=jnp.asarray(eigenvals, dtype=return_dtype),
+            scalar=jnp.asarray(0.0, dtype=return_dtype),
+        )
+
 
+def _lobpcg_eigenpairs(
+    A: Callable[[Array], Array] | Array,
+    *,
+    key: KeyType | None,
+    layout: Layout | None,
+    rank: int,
+    tol: Float,
+    mv_dtype: DType,
+    calc_dtype: DType,
+    mv_jit: bool,
+) -> tuple[Array, Array]:
     # Obtain a matrix-vector multiplication function.
     matvec, size = get_matvec(A, layout=layout, jit=mv_jit)
 
@@ -394,14 +427,4 @@ def lobpcg_lowrank(
         A_jit=mv_jit,
     )
 
-    # Prepare and convert the results
-    low_rank_result = LowRankTerms(
-        U=jnp.asarray(eigenvecs, dtype=return_dtype),
-        S=jnp.asarray(eigenvals, dtype=return_dtype),
-        scalar=jnp.asarray(0.0, dtype=return_dtype),
-    )
-
-    # Restore the original configuration dtype
-    jax.config.update("jax_enable_x64", original_float64_enabled)
-
-    return low_rank_result
+    return eigenvals, eigenvecs
-- 
2.43.0


From 62b560f17d6118b0c6b3a9a8139c861d05d07487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 08/32] fix: subtract the previous Lanczos vector without
 reorthogonalization

With full_reorthogonalize=False the beta term of the three-term recurrence was
never subtracted, so the vectors were not orthogonal and the low-rank terms were
wrong from the second iteration on.
---
 laplax/curv/lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 951812f..47cf5bc 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -57,7 +57,7 @@ def lanczos_iterations(
     @jax.jit
     def iteration_step(v, w, alpha, beta, V, i):
         a = jnp.dot(v, w)
-        w = w - a * v
+        w = w - a * v - beta[i - 1] * V[i - 1]  # beta[-1] = 0 in the first step.
         if full_reorthogonalize:
             w = reorthogonalize(w, V, i)
             w = reorthogonalize(w, V, i)
-- 
2.43.0


From 11a8b214af65c0750e84f88553abfbacf4a6a899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 09/32] fix: stop the grid search after max_iterations
 candidates

---
 laplax/eval/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/calibrate.py b/laplax/eval/calibrate.py
index 30b09a2..130ff5c 100644
--- a/laplax/eval/calibrate.py
+++ b/laplax/eval/calibrate.py
@@ -131,7 +131,7 @@ def grid_search(
         previous_result = result
 
         # Check if maximum iterations reached
-        if max_iterations is not None and iteration >= max_iterations:
+        if max_iterations is not None and iteration + 1 >= max_iterations:
             logger.info(f"Stopping due to reaching max iterations = {max_iterations}")
             break
 
-- 
2.43.0


From d62d50a3404fcf38c2dd326f0d85ec1050a53082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 10/32] fix: reject an unknown default before registering a
 curvature method

---
 laplax/register.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/laplax/register.py b/laplax/register.py
index 220064e..9f10460 100644
--- a/laplax/register.py
+++ b/laplax/register.py
@@ -129,6 +129,10 @@ def register_curvature_method(
         )
         raise ValueError(msg)
 
+    if default is not None and default not in CURVATURE_METHODS:
+        msg = f"Unknown default curvature method: {default}."
+        raise ValueError(msg)
+
     CURVATURE_METHODS[name] = create_curvature_fn or CURVATURE_METHODS[default]
     CURVATURE_PRECISION_METHODS[name] = (
         curvature_to_precision_fn or CURVATURE_PRECISION_METHODS[default]
-- 
2.43.0


From 837d605894caea6122e540c0469e33dda997b875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 11/32] fix: accept registered curvature methods in laplace()

---
 laplax/api.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index 603c0f2..195ab4b 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -20,7 +20,12 @@ import jax.numpy as jnp
 from loguru import logger
 
 # Laplax imports
-from laplax.curv.cov import Posterior, estimate_curvature, set_posterior_fn
+from laplax.curv.cov import (
+    CURVATURE_METHODS,
+    Posterior,
+    estimate_curvature,
+    set_posterior_fn,
+)
 from laplax.curv.ggn import create_ggn_mv_without_data
 from laplax.enums import (
     CalibrationMethod,
@@ -661,8 +666,12 @@ def laplace(
         - Diagonal GGN: Approximates the GGN with its diagonal
         - Low-rank GGN: Uses Lanczos or LOBPCG for efficient approximation
     """
-    # Convert curv_type to enum
-    curv_type_enum = _convert_to_enum(CurvApprox, curv_type)
+    # Convert curv_type to enum (registered curvature methods keep their name)
+    curv_type_enum = (
+        curv_type
+        if curv_type in CURVATURE_METHODS
+        else _convert_to_enum(CurvApprox, curv_type)
+    )
 
     # Calculate factor
     factor = float(num_curv_samples) / float(num_total_samples)
-- 
2.43.0


From 81c2ed1c1c90e130946615b97a60ffbee555773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 12/32] fix: use the log-determinant of the full low-rank
 posterior precision

---
 laplax/eval/likelihood.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/laplax/eval/likelihood.py b/laplax/eval/likelihood.py
index b25b52b..8d78587 100644
--- a/laplax/eval/likelihood.py
+++ b/laplax/eval/likelihood.py
@@ -235,11 +235,10 @@ def low_rank_marginal_log_likelihood(
     )
 
     # Log det of posterior precision
-    rank = posterior_precision.S.shape[0]
-    log_det_H = rank * jnp.log(posterior_precision.scalar) + jnp.sum(
-        jnp.log(1 + posterior_precision.scalar * posterior_precision.S)
-    )
     param_count = get_size(params)
+    log_det_H = param_count * jnp.log(posterior_precision.scalar) + jnp.sum(
+        jnp.log(1 + posterior_precision.S / posterior_precision.scalar)
+    )
     evidence = -0.5 * param_count * jnp.log(2 * jnp.pi) + 0.5 * log_det_H
 
     # Compute the marginal log-likelihood
-- 
2.43.0


From b89a16f9de45d29b0bfdf02ea8a1d5b53b817d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 13/32] fix: return a covariance matrix for linearized
 predictions of any rank

---
 laplax/eval/pushforward.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index acac18c..49733ae 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -662,7 +662,12 @@ def lin_pred_cov(
     pred_mean = results["pred_mean"]
     cov_mv = aux["cov_mv"]
 
-    results["pred_cov"] = util.mv.to_dense(cov_mv, layout=pred_mean)
+    if pred_mean.ndim > 1:  # Covariance matrix of the flattened output
+        results["pred_cov"] = util.mv.to_dense(
+            lambda vec: cov_mv(vec).reshape(-1), layout=pred_mean
+        )
+    else:
+        results["pred_cov"] = util.mv.to_dense(cov_mv, layout=pred_mean)
     return results, aux
 
 
-- 
2.43.0


From 6fe11e0c4cd4124cbb540ea323d2e08198157a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 14/32] fix: accept array layouts for the dense posterior GP
 kernel

---
 laplax/eval/pushforward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index 49733ae..08ec547 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -1008,7 +1008,7 @@ def set_posterior_gp_kernel(
 
     if kwargs.get("dense"):
         output_layout = kwargs.get("output_layout")
-        if output_layout:
+        if output_layout is not None:
             return lambda x1, x2: util.mv.to_dense(
                 lambda v: kernel_mv(v, x1, x2, dist_state), layout=output_layout
             ), dist_state
-- 
2.43.0


From ac860472c459c4480289b4bdc27e6de7fb37c35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 15/32] fix: make the ensemble covariance consistent with
 variance and std

---
 laplax/eval/pushforward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index 08ec547..fd2aef5 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -301,7 +301,7 @@ def nonlin_pred_cov(
     pred_ensemble = aux["pred_ensemble"]
 
     results["pred_cov"] = util.tree.cov(
-        pred_ensemble.reshape(pred_ensemble.shape[0], -1), rowvar=False
+        pred_ensemble.reshape(pred_ensemble.shape[0], -1), rowvar=False, ddof=0
     )
     return results, aux
 
-- 
2.43.0


From 053e13e02720da5266d48ab0a242df8fa7fb6e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 16/32] fix: use the ensemble variance in the nonlinear special
 predictives

---
 laplax/eval/pushforward.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index fd2aef5..dcecca6 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -113,8 +113,9 @@ def special_pred_act(
     if special_pred_type in var_pred_dict:
         pred_fn = var_pred_dict[special_pred_type]
 
-        if "pred_var" not in results:  # Fall back to `lin_pred_var`
-            results, aux = lin_pred_var(results, aux, **kwargs)
+        if "pred_var" not in results:  # Fall back to the predictive variance
+            pred_var_fn = lin_pred_var if linearized else nonlin_pred_var
+            results, aux = pred_var_fn(results, aux, **kwargs)
 
         pred_var = results["pred_var"]
 
-- 
2.43.0


From 1c3f9ff6f668fd5b3ac319b136008ffba8f2caed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 17/32] fix: average Monte Carlo class probabilities over the
 whole ensemble

---
 laplax/eval/pushforward.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index dcecca6..636c128 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -439,8 +439,9 @@ def nonlin_mc_pred_act(
     if "samples" not in results:
         results, aux = nonlin_samples(results=results, aux=aux, **kwargs)
 
+    # Average over the whole ensemble (`samples` only holds a subset of it)
     results["mc_pred_act"] = jnp.mean(
-        jax.nn.softmax(results["samples"], axis=1), axis=0
+        jax.nn.softmax(aux["pred_ensemble"], axis=1), axis=0
     )
 
     return results, aux
-- 
2.43.0


From 7b40957713f676b5fa18b556c19a586af2f16433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 18/32] fix: take the number of classes from the class axis in
 the Laplace bridge

---
 laplax/eval/predictives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/predictives.py b/laplax/eval/predictives.py
index e344cba..b7c65a7 100644
--- a/laplax/eval/predictives.py
+++ b/laplax/eval/predictives.py
@@ -19,7 +19,7 @@ def laplace_bridge(
     Returns:
         The predictive.
     """
-    num_classes = mean.shape[1]
+    num_classes = mean.shape[0]
 
     if use_correction:
         c = jnp.sum(var, axis=0) / math.sqrt(num_classes / 2)  # [...]
-- 
2.43.0


From e8757b00a36b409f3765c9d34e09b9ec3e8b4171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 19/32] fix: ensemble covariance of a single weight sample

---
 laplax/eval/pushforward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index 636c128..7a31889 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -302,7 +302,7 @@ def nonlin_pred_cov(
     pred_ensemble = aux["pred_ensemble"]
 
     results["pred_cov"] = util.tree.cov(
-        pred_ensemble.reshape(pred_ensemble.shape[0], -1), rowvar=False, ddof=0
+        pred_ensemble.reshape(pred_ensemble.shape[0], -1).T, ddof=0
     )
     return results, aux
 
-- 
2.43.0


From b7cd1d553b2644f36fc8aea6e3cdbd82031e20d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 20/32] fix: accept the precompute option when sampling weights

---
 laplax/eval/pushforward.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index 7a31889..3044f3a 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -79,12 +79,12 @@ def set_get_weight_sample(
     def get_weight_sample(idx):
         return util.tree.normal_like(keys[idx], mean=mean_params, scale_mv=scale_mv)
 
+    precompute = kwargs.pop("precompute", None)
+
     return precompute_list(
         get_weight_sample,
         jnp.arange(num_samples),
-        precompute=kwargs.get(
-            "set_get_weight_sample_precompute", kwargs.get("precompute")
-        ),
+        precompute=kwargs.get("set_get_weight_sample_precompute", precompute),
         **kwargs,
     )
 
-- 
2.43.0


From ea55a147bc41813a2e444973daac37d096b2db9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 21/32] fix: return the Brier score as the documented mean
 squared difference

---
 laplax/eval/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/metrics.py b/laplax/eval/metrics.py
index af1fc1c..ad481d4 100644
--- a/laplax/eval/metrics.py
+++ b/laplax/eval/metrics.py
@@ -158,7 +158,7 @@ def multiclass_brier(prob: Array, target: Array, **kwargs: Kwargs) -> Array:
     preds_squared_sum = jnp.sum(prob**2, axis=-1, keepdims=True)
     score_components = 1 - 2 * prob + preds_squared_sum
 
-    return -jnp.mean(target * score_components)
+    return jnp.mean(target * score_components)
 
 
 def calculate_bin_metrics(
-- 
2.43.0


From b01a6764736bd894654b79c31850fac8758bd680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 22/32] fix: accept boolean correctness in the calibration bins

---
 laplax/eval/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/metrics.py b/laplax/eval/metrics.py
index ad481d4..d48da18 100644
--- a/laplax/eval/metrics.py
+++ b/laplax/eval/metrics.py
@@ -191,7 +191,7 @@ def calculate_bin_metrics(
 
     bin_counts = jnp.zeros(num_bins, dtype=confidence.dtype)
     bin_confidences = jnp.zeros(num_bins, dtype=confidence.dtype)
-    bin_accuracies = jnp.zeros(num_bins, dtype=correctness.dtype)
+    bin_accuracies = jnp.zeros(num_bins, dtype=confidence.dtype)
 
     bin_counts = bin_counts.at[indices].add(1)
     bin_confidences = bin_confidences.at[indices].add(confidence)
-- 
2.43.0


From 6b80e3144a736f31a36251469e580ed53cb218a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:14 +0000
Subject: [PATCH 23/32] fix: leave the caller's metric list untouched when
 evaluating metrics

---
 laplax/eval/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/eval/utils.py b/laplax/eval/utils.py
index 7d3497c..65f3fac 100644
--- a/laplax/eval/utils.py
+++ b/laplax/eval/utils.py
@@ -269,7 +269,7 @@ def evaluate_metrics_on_dataset(
     if metrics is None:
         metrics = metrics_from_dict
     elif metrics_dict is not None:
-        metrics.extend(metrics_from_dict)
+        metrics = [*metrics, *metrics_from_dict]
 
     def evaluate_data_point(dp: Data) -> dict[str, Array]:
         pred = {**pred_fn(dp["input"]), "target": dp["target"]}
@@ -339,7 +339,7 @@ def evaluate_metrics_on_generator(
     if metrics is None:
         metrics = metrics_from_dict
     elif metrics_dict is not None:
-        metrics.extend(metrics_from_dict)
+        metrics = [*metrics, *metrics_from_dict]
 
     def evaluate_data(dp: Data) -> dict[str, Array]:
         pred = {**pred_fn(dp["input"]), "target": dp["target"]}
-- 
2.43.0


From a90a409581184906a39aada1c318d4b580cc1a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 24/32] fix: scale the curvature by total over used samples in
 laplace()

The factor was inverted compared to create_ggn_mv, which takes the same two
arguments and scales the sum over the data by num_total / num_curv.
---
 laplax/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index 195ab4b..a09319a 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -674,11 +674,11 @@ def laplace(
     )
 
     # Calculate factor
-    factor = float(num_curv_samples) / float(num_total_samples)
+    factor = float(num_total_samples) / float(num_curv_samples)
     logger.debug(
         "Creating curvature MV - factor = {}/{} = {}",
-        num_curv_samples,
         num_total_samples,
+        num_curv_samples,
         factor,
     )
 
-- 
2.43.0


From d80f85805e21f31c4ec5de0091596940dcda421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 25/32] fix: make the default classification metrics callable

The metric table hands all predictions to its functions, but the Gaussian NLL
entry only accepted three of them.
---
 laplax/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/laplax/api.py b/laplax/api.py
index a09319a..b0f49c6 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -533,7 +533,8 @@ def _resolve_metrics(
                 ],
             ),
             apply_fns(
-                lambda pred_mean, pred_std, target: nll_gaussian(
+                lambda pred_mean, pred_std, target, **kwargs:  # noqa: ARG005
+                nll_gaussian(
                     pred_mean,
                     pred_std,
                     jax.nn.one_hot(target, num_classes=pred_mean.shape[-1]),
-- 
2.43.0


From 79a21d7bf2806c08ea613ddab087b8e608d6add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 26/32] fix: provide pred_act for nonlinear Monte Carlo
 predictions

---
 laplax/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/laplax/api.py b/laplax/api.py
index b0f49c6..ba17586 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -284,6 +284,7 @@ def _setup_pushforward(
             pushforward_fns = [nonlin_setup, nonlin_pred_mean, nonlin_pred_std]
             if predictive_type is Predictive.MC_BRIDGE:
                 pushforward_fns.append(nonlin_mc_pred_act)
+                pushforward_fns.append(get_pred_act)
             elif predictive_type in _SPECIAL_PREDICTIVES:
                 msg = (
                     f"{predictive_type.value} not supported for non-linear pushforward."
-- 
2.43.0


From e220f09cee926266518760b9655dd329a2b0beeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 27/32] fix: do not lose the first batch of a one-shot data
 stream

Peeking at the first batch consumed it when the data is an iterator, so
evaluation() left its samples out; an empty stream leaked StopIteration.
---
 laplax/api.py | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index ba17586..5ef8487 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -13,6 +13,7 @@ Public entry points
 from collections.abc import Iterator
 from enum import StrEnum
 from functools import partial
+from itertools import chain
 from typing import cast
 
 import jax
@@ -156,6 +157,27 @@ def _is_data_loader(data: Data | tuple | Iterable):
     return isinstance(data, Iterable) and not isinstance(data, (tuple, dict, list))
 
 
+def _peek(data: Iterable) -> tuple[Any, Iterable]:
+    """Look at the first batch of an iterable without losing it.
+
+    Args:
+        data: Iterable of batches (may be a one-shot iterator).
+
+    Returns:
+        The first batch and an iterable that yields all batches.
+
+    Raises:
+        ValueError: If there is no batch.
+    """
+    iterator = iter(data)
+    try:
+        first = next(iterator)
+    except StopIteration as error:
+        msg = "Data loader does not provide any batch."
+        raise ValueError(msg) from error
+    return first, chain([first], iterator) if iterator is data else data
+
+
 def _maybe_wrap_loader_or_batch(
     mv_fn: Callable[..., Params],
     data: Data | Iterable,
@@ -174,11 +196,11 @@ def _maybe_wrap_loader_or_batch(
     Returns:
         Wrapped matrix-vector function.
     """
-    transform = (
-        _validate_and_get_transform(next(iter(data)) if _is_data_loader(data) else data)
-        if transform is None
-        else transform
-    )
+    if transform is None:
+        first = data
+        if _is_data_loader(data):
+            first, data = _peek(data)
+        transform = _validate_and_get_transform(first)
 
     if isinstance(data, (tuple, dict)):
         logger.debug("Using *single batch* curvature evaluation.")
@@ -964,9 +986,10 @@ def evaluation(
 
     # Evaluate
     is_data_loader = _is_data_loader(data)
-    transform = _validate_and_get_transform(
-        next(iter(data)) if is_data_loader else data
-    )
+    first = data
+    if is_data_loader:
+        first, data = _peek(data)
+    transform = _validate_and_get_transform(first)
 
     if is_data_loader:
         results = evaluate_metrics_on_generator(
-- 
2.43.0


From 0ced87a12103553a05a3b814a720e1c8428c1beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 28/32] fix: apply the reduction of evaluation() to streamed
 data too

The reduction was ignored for data loaders. The stray has_batch option was
handed on to the metrics as if it were a prediction.
---
 laplax/api.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index 5ef8487..187c528 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -997,8 +997,7 @@ def evaluation(
             data_generator=cast("Iterator[Data]", data),
             metrics=metrics_list,
             transform=transform,
-            reduce=jnp.concatenate,
-            has_batch=True,
+            reduce=lambda batches: reduce(jnp.concatenate(batches)),
         )
     else:
         results = evaluate_metrics_on_dataset(
-- 
2.43.0


From 8af5048f4608fa4c7c984a2c7fac556e91ddb911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 29/32] fix: treat option names alike in calibration()

Names that laplace() and the pushforward setup accept (e.g. "NONE" or "FULL")
selected a classification task or failed inside the objective.
---
 laplax/api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/laplax/api.py b/laplax/api.py
index 187c528..32e02cc 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -811,6 +811,11 @@ def calibration(
 
         - GRID_SEARCH: Grid search over prior precision
     """
+    # Convert option names (registered curvature methods keep their name)
+    predictive_type = _convert_to_enum(Predictive, predictive_type)
+    if isinstance(curv_type, str) and curv_type not in CURVATURE_METHODS:
+        curv_type = _convert_to_enum(CurvApprox, curv_type, str_default=True)
+
     # If task is classification, then no NLL objective
     is_classification = predictive_type != Predictive.NONE
 
-- 
2.43.0


From 5e8c6d63d5eca256d4ff584b6d6794ee68c0e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 30/32] fix: hand max_iterations on to the grid search in
 calibration()

---
 laplax/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/laplax/api.py b/laplax/api.py
index 32e02cc..e650bef 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -884,6 +884,7 @@ def calibration(
             log_prior_prec_max=log_prior_prec_max,
             grid_size=grid_size,
             patience=patience,
+            max_iterations=calibration_kwargs.get("max_iterations"),
         )
         prior_args = {"prior_prec": prior_prec}
 
-- 
2.43.0


From 144f053495bb01cdfeb639dd07d5128d57a1bbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:13 +0000
Subject: [PATCH 31/32] fix: basis vectors of trees that contain an empty leaf

---
 laplax/util/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/laplax/util/tree.py b/laplax/util/tree.py
index ab82b3c..36eda62 100644
--- a/laplax/util/tree.py
+++ b/laplax/util/tree.py
@@ -312,6 +312,8 @@ def basis_vector_from_index(idx: int, tree: PyTree) -> PyTree:
 
     # Define a function to update the k-th array with the basis vector
     def update_array(i, arr):
+        if arr.size == 0:  # Empty leaves hold no entry of the basis vector
+            return arr
         return jax.lax.cond(
             i == k,
             lambda: arr.flatten().at[idx_corr].set(1.0).reshape(arr.shape),
-- 
2.43.0


From 2d5df8f60f0befec6e5766ba24c8b7dc8705206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:16 +0000
Subject: [PATCH 32/32] fix: overflow in the Laplace bridge for large logits

---
 laplax/eval/predictives.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/laplax/eval/predictives.py b/laplax/eval/predictives.py
index b7c65a7..bc9f0cd 100644
--- a/laplax/eval/predictives.py
+++ b/laplax/eval/predictives.py
@@ -27,16 +27,15 @@ def laplace_bridge(
         mean = mean / jnp.sqrt(c_expanded)  # [C, ...]
         var = var / c_expanded  # [C, ...]
 
-    # Laplace bridge
-    sum_exp_neg_mean_p = jnp.sum(jnp.exp(-mean), axis=0)  # [...]
-    sum_exp_neg_mean_p_expanded = jnp.expand_dims(
-        sum_exp_neg_mean_p, axis=0
-    )  # [1, ...]
-    dirichlet_params = (
-        1
-        - 2 / num_classes
-        + jnp.exp(mean) * sum_exp_neg_mean_p_expanded / (num_classes**2)
-    ) / var  # [C, ...]
+    # Laplace bridge, in log-space since exp(mean) overflows for large logits
+    log_sum_exp_neg_mean = jax.nn.logsumexp(-mean, axis=0, keepdims=True)  # [1, ...]
+    log_dirichlet_params = jnp.logaddexp(
+        jnp.log(1 - 2 / num_classes),
+        mean + log_sum_exp_neg_mean - 2 * math.log(num_classes),
+    ) - jnp.log(var)  # [C, ...]
+
+    # The predictive does not depend on the scale of the parameters
+    dirichlet_params = jnp.exp(log_dirichlet_params - jnp.max(log_dirichlet_params))
 
     return dirichlet_predictive(dirichlet_params)
 
-- 
2.43.0

