From efb3b65f7466869ad307ea299ca90593b5048490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 01/46] fix: posterior mean when the response count equals the
 neighbor count

---
 src/MuyGPyS/_src/gp/muygps/numpy.py | 18 +++++++++++++-----
 src/MuyGPyS/_src/gp/muygps/torch.py | 18 +++++++++++++-----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/muygps/numpy.py b/src/MuyGPyS/_src/gp/muygps/numpy.py
index 93901d3..092b146 100644
--- a/src/MuyGPyS/_src/gp/muygps/numpy.py
+++ b/src/MuyGPyS/_src/gp/muygps/numpy.py
@@ -7,11 +7,19 @@ import MuyGPyS._src.math.numpy as np
 
 
 def _find_matching_ndim(nn_targets: np.ndarray, Kin: np.ndarray):
-    # assumes that nntargets.ndim <= Kin.ndim
-    nshape = np.array(nn_targets.shape)
-    Kshape = np.array(Kin.shape)
-    shared_shape = np.equal(nshape, Kshape[: nn_targets.ndim])
-    return np.count_nonzero(shared_shape)
+    # Kin has shape batch_shape + in_shape + in_shape, whereas nn_targets has
+    # shape batch_shape + in_shape + extra_shape. Only count the leading matching
+    # dimensions, and discard trailing response dimensions of nn_targets that
+    # merely coincide with the trailing dimensions of Kin.
+    ndim = 0
+    max_ndim = min(nn_targets.ndim, Kin.ndim - 1)
+    while ndim < max_ndim and nn_targets.shape[ndim] == Kin.shape[ndim]:
+        ndim += 1
+    while 2 * ndim > Kin.ndim and (
+        Kin.shape[2 * ndim - Kin.ndim : ndim] != Kin.shape[ndim:]
+    ):
+        ndim -= 1
+    return ndim
 
 
 def _muygps_posterior_mean(
diff --git a/src/MuyGPyS/_src/gp/muygps/torch.py b/src/MuyGPyS/_src/gp/muygps/torch.py
index a43e4b9..c5dc78f 100644
--- a/src/MuyGPyS/_src/gp/muygps/torch.py
+++ b/src/MuyGPyS/_src/gp/muygps/torch.py
@@ -7,11 +7,19 @@ import MuyGPyS._src.math.torch as torch
 
 
 def _find_matching_ndim(nn_targets: torch.ndarray, Kin: torch.ndarray):
-    # assumes that nntargets.ndim <= Kin.ndim
-    nshape = torch.array(nn_targets.shape)
-    Kshape = torch.array(Kin.shape)
-    shared_shape = torch.eq(nshape, Kshape[: nn_targets.ndim])
-    return torch.count_nonzero(shared_shape)
+    # Kin has shape batch_shape + in_shape + in_shape, whereas nn_targets has
+    # shape batch_shape + in_shape + extra_shape. Only count the leading matching
+    # dimensions, and discard trailing response dimensions of nn_targets that
+    # merely coincide with the trailing dimensions of Kin.
+    ndim = 0
+    max_ndim = min(nn_targets.ndim, Kin.ndim - 1)
+    while ndim < max_ndim and nn_targets.shape[ndim] == Kin.shape[ndim]:
+        ndim += 1
+    while 2 * ndim > Kin.ndim and (
+        Kin.shape[2 * ndim - Kin.ndim : ndim] != Kin.shape[ndim:]
+    ):
+        ndim -= 1
+    return ndim
 
 
 def _muygps_posterior_mean(
-- 
2.43.0


From b5c71bd03f4bf1b77238fb597609553b5a8e5b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 02/46] fix: multivariate lool uses the log determinant, not
 the slogdet pair

---
 src/MuyGPyS/_src/optimize/loss/jax.py   | 2 +-
 src/MuyGPyS/_src/optimize/loss/numpy.py | 2 +-
 src/MuyGPyS/_src/optimize/loss/torch.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/jax.py b/src/MuyGPyS/_src/optimize/loss/jax.py
index 2fe9a5f..b09410f 100644
--- a/src/MuyGPyS/_src/optimize/loss/jax.py
+++ b/src/MuyGPyS/_src/optimize/loss/jax.py
@@ -82,7 +82,7 @@ def _lool_fn_unscaled(
         quad_form = jnp.squeeze(
             residual.swapaxes(-2, -1) @ jnp.linalg.solve(variances, residual)
         )
-        logdet = jnp.linalg.slogdet(variances)
+        _, logdet = jnp.linalg.slogdet(variances)
         return jnp.sum(quad_form + logdet)
     else:
         return jnp.sum(
diff --git a/src/MuyGPyS/_src/optimize/loss/numpy.py b/src/MuyGPyS/_src/optimize/loss/numpy.py
index bc198db..eb47f74 100644
--- a/src/MuyGPyS/_src/optimize/loss/numpy.py
+++ b/src/MuyGPyS/_src/optimize/loss/numpy.py
@@ -47,7 +47,7 @@ def _lool_fn_unscaled(
         quad_form = np.squeeze(
             residual.swapaxes(-2, -1) @ np.linalg.solve(variances, residual)
         )
-        logdet = np.linalg.slogdet(variances)
+        _, logdet = np.linalg.slogdet(variances)
         return np.sum(quad_form + logdet)
 
 
diff --git a/src/MuyGPyS/_src/optimize/loss/torch.py b/src/MuyGPyS/_src/optimize/loss/torch.py
index cbb7fb0..882507f 100644
--- a/src/MuyGPyS/_src/optimize/loss/torch.py
+++ b/src/MuyGPyS/_src/optimize/loss/torch.py
@@ -56,7 +56,7 @@ def _lool_fn_unscaled(
         quad_form = torch.squeeze(
             residual.swapaxes(-2, -1) @ torch.linalg.solve(variances, residual)
         )
-        logdet = torch.linalg.slogdet(variances)
+        _, logdet = torch.linalg.slogdet(variances)
         return torch.sum(quad_form + logdet)
     else:
         return torch.sum(
-- 
2.43.0


From afeb6af2a06963ddf50b6cf799d8d44505bc2e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 03/46] fix: multivariate posterior variance applies each scale
 exactly once

---
 src/MuyGPyS/gp/multivariate_muygps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/gp/multivariate_muygps.py b/src/MuyGPyS/gp/multivariate_muygps.py
index 2cae149..d6f2867 100644
--- a/src/MuyGPyS/gp/multivariate_muygps.py
+++ b/src/MuyGPyS/gp/multivariate_muygps.py
@@ -220,10 +220,9 @@ class MultivariateMuyGPS:
         for i, model in enumerate(self.models):
             Kin = model.kernel(pairwise_diffs)
             Kcross = model.kernel(crosswise_diffs)
-            ss = model.scale()
             diagonal_variance = mm.assign(
                 diagonal_variance,
-                model.posterior_variance(Kin, Kcross).reshape(batch_count) * ss,
+                model.posterior_variance(Kin, Kcross).reshape(batch_count),
                 slice(None),
                 i,
             )
@@ -380,6 +379,7 @@ class MultivariateMuyGPS:
                 nn_targets[:, :, i].reshape(batch_count, nn_count, 1),
             )
             model.scale._set(new_scale_val)
+            model._make()
         return self
 
     @mpi_chunk(return_count=3)
-- 
2.43.0


From c7f992b2cb69502300fcd82e99906b75139b5b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 04/46] fix: anisotropic length scales keep feature order
 whatever subset is given by keyword

---
 src/MuyGPyS/gp/hyperparameter/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/vector.py b/src/MuyGPyS/gp/hyperparameter/vector.py
index 17262d2..aec7729 100644
--- a/src/MuyGPyS/gp/hyperparameter/vector.py
+++ b/src/MuyGPyS/gp/hyperparameter/vector.py
@@ -107,7 +107,7 @@ class NamedVectorParameter(VectorParameter):
             The current value of the hyperparameter.
         """
         params, kwargs = self.filter_kwargs(**kwargs)
-        return mm.array([param for _, param in params.items()])
+        return mm.array([params[p.name()] for p in self._params])
 
     def apply_fn(self, fn: Callable) -> Callable:
         def applied_fn(*args, **kwargs):
-- 
2.43.0


From 927a4582714fa5cdde73ef3c017fd794d3eb6d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 05/46] fix: VectorParameter.fixed reports a bool rather than a
 truthy generator

---
 src/MuyGPyS/gp/hyperparameter/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/vector.py b/src/MuyGPyS/gp/hyperparameter/vector.py
index aec7729..bac9a51 100644
--- a/src/MuyGPyS/gp/hyperparameter/vector.py
+++ b/src/MuyGPyS/gp/hyperparameter/vector.py
@@ -70,7 +70,7 @@ class VectorParameter:
         Returns:
             `True` if fixed, `False` otherwise.
         """
-        return mm.all(param._fixed for param in self._params)
+        return all(param.fixed() for param in self._params)
 
 
 class NamedVectorParameter(VectorParameter):
-- 
2.43.0


From 68617d493ac9d4fa315448418b54d39f517ed390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 06/46] fix: fast posterior mean keeps batch and neighbor
 dimensions of size one

---
 src/MuyGPyS/_src/gp/muygps/numpy.py | 8 ++++----
 src/MuyGPyS/_src/gp/muygps/torch.py | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/muygps/numpy.py b/src/MuyGPyS/_src/gp/muygps/numpy.py
index 092b146..8a3fb59 100644
--- a/src/MuyGPyS/_src/gp/muygps/numpy.py
+++ b/src/MuyGPyS/_src/gp/muygps/numpy.py
@@ -80,9 +80,8 @@ def _muygps_fast_posterior_mean(
     coeffs_tensor: np.ndarray,
     **kwargs,
 ) -> np.ndarray:
-    return np.squeeze(
-        np.einsum("ij,ijk->ik", Kcross, np.atleast_3d(coeffs_tensor))
-    )
+    ret = np.einsum("ij,ijk->ik", Kcross, np.atleast_3d(coeffs_tensor))
+    return np.squeeze(ret, axis=-1) if ret.shape[-1] == 1 else ret
 
 
 def _mmuygps_fast_posterior_mean(
@@ -100,4 +99,5 @@ def _muygps_fast_posterior_mean_precompute(
 ) -> np.ndarray:
     if train_nn_targets_fast.ndim == 2:
         train_nn_targets_fast = train_nn_targets_fast[:, :, None]
-    return np.squeeze(np.linalg.solve(Kin, train_nn_targets_fast))
+    ret = np.linalg.solve(Kin, train_nn_targets_fast)
+    return np.squeeze(ret, axis=-1) if ret.shape[-1] == 1 else ret
diff --git a/src/MuyGPyS/_src/gp/muygps/torch.py b/src/MuyGPyS/_src/gp/muygps/torch.py
index c5dc78f..c89851c 100644
--- a/src/MuyGPyS/_src/gp/muygps/torch.py
+++ b/src/MuyGPyS/_src/gp/muygps/torch.py
@@ -80,9 +80,9 @@ def _muygps_fast_posterior_mean(
     Kcross: torch.ndarray,
     coeffs_tensor: torch.ndarray,
 ) -> torch.ndarray:
-    return torch.squeeze(
-        torch.einsum("ij,ijk->ik", Kcross, torch.atleast_3d(coeffs_tensor))
-    )
+    return torch.einsum(
+        "ij,ijk->ik", Kcross, torch.atleast_3d(coeffs_tensor)
+    ).squeeze(-1)
 
 
 def _mmuygps_fast_posterior_mean(
-- 
2.43.0


From fd56aa5a13b19d73ae5e897428f441c78e1f7c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 07/46] fix: multivariate fast coefficients and mean keep their
 results and perturb once

---
 src/MuyGPyS/gp/multivariate_muygps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/gp/multivariate_muygps.py b/src/MuyGPyS/gp/multivariate_muygps.py
index d6f2867..9a7265d 100644
--- a/src/MuyGPyS/gp/multivariate_muygps.py
+++ b/src/MuyGPyS/gp/multivariate_muygps.py
@@ -275,10 +275,10 @@ class MultivariateMuyGPS:
 
         for i, model in enumerate(self.models):
             Kin = model.kernel(pairwise_diffs_fast)
-            mm.assign(
+            coeffs_tensor = mm.assign(
                 coeffs_tensor,
                 model.fast_coefficients(
-                    model.noise.perturb(Kin),
+                    Kin,
                     train_nn_targets_fast[:, :, i],
                 ),
                 slice(None),
@@ -329,7 +329,7 @@ class MultivariateMuyGPS:
         """
         Kcross = mm.zeros(coeffs_tensor.shape)
         for i, model in enumerate(self.models):
-            mm.assign(
+            Kcross = mm.assign(
                 Kcross,
                 model.kernel(crosswise_diffs),
                 slice(None),
-- 
2.43.0


From 4f06d3161c933a5f4994762363243fc25f70fe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 08/46] fix: mpi lool_fn_unscaled calls the serial loss instead
 of itself

---
 src/MuyGPyS/_src/optimize/loss/mpi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/mpi.py b/src/MuyGPyS/_src/optimize/loss/mpi.py
index 1abe25b..1bda80d 100644
--- a/src/MuyGPyS/_src/optimize/loss/mpi.py
+++ b/src/MuyGPyS/_src/optimize/loss/mpi.py
@@ -11,6 +11,7 @@ from MuyGPyS._src.optimize.loss.numpy import (
     _mse_fn_unnormalized,
     _cross_entropy_fn as _cross_entropy_fn_n,
     _lool_fn as _lool_fn_n,
+    _lool_fn_unscaled as _lool_fn_unscaled_n,
     _pseudo_huber_fn as _pseudo_huber_fn_n,
     _looph_fn as _looph_fn_n,
 )
@@ -64,7 +65,7 @@ def _lool_fn_unscaled(
     variances: np.ndarray,
     **kwargs,
 ) -> float:
-    local_likelihoods = _lool_fn_unscaled(
+    local_likelihoods = _lool_fn_unscaled_n(
         predictions, targets, variances, **kwargs
     )
     global_likelihood = world.allreduce(local_likelihoods, op=MPI.SUM)
-- 
2.43.0


From f1af68fd0a8c330cc62858b85922369f25b40ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 09/46] fix: batch neighbor queries exclude the point itself
 even among coincident points

---
 src/MuyGPyS/neighbors.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/neighbors.py b/src/MuyGPyS/neighbors.py
index 8e9baf8..616758b 100644
--- a/src/MuyGPyS/neighbors.py
+++ b/src/MuyGPyS/neighbors.py
@@ -208,7 +208,18 @@ class NN_Wrapper:
             self.train[batch_indices, :],
             self.nn_count + 1,
         )
-        return batch_nn_indices[:, 1:], batch_nn_dists[:, 1:]
+        # Training points that coincide with the queried point can be listed
+        # ahead of it, so the point itself need not be in the first column. If
+        # it is missing altogether, discard the most distant neighbor instead.
+        is_self = np.iarray(batch_nn_indices) == np.iarray(
+            batch_indices
+        ).reshape(-1, 1)
+        is_self[np.sum(is_self, axis=1) == 0, -1] = True
+        keep = ~is_self
+        return (
+            batch_nn_indices[keep].reshape(-1, self.nn_count),
+            batch_nn_dists[keep].reshape(-1, self.nn_count),
+        )
 
     def _get_nns(
         self,
-- 
2.43.0


From fde060568e5ce9fe3af42d39f2a0b60fe7a193be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 10/46] fix: setting kernel parameters rebuilds the kernel
 function they select

---
 src/MuyGPyS/gp/kernels/kernel_fn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MuyGPyS/gp/kernels/kernel_fn.py b/src/MuyGPyS/gp/kernels/kernel_fn.py
index 9ecc869..8bc0cef 100644
--- a/src/MuyGPyS/gp/kernels/kernel_fn.py
+++ b/src/MuyGPyS/gp/kernels/kernel_fn.py
@@ -84,6 +84,7 @@ class KernelFn:
         """
         for name in kwargs:
             self._hyperparameters[name]._set(kwargs[name])
+        self._make()
 
     def __call__(self, diffs: mm.ndarray, **kwargs) -> mm.ndarray:
         raise NotImplementedError(
-- 
2.43.0


From 232679cf893d01232d5d04861d2989876563479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 11/46] fix: default deformation, noise and scale objects are
 not shared among models

---
 src/MuyGPyS/gp/kernels/experimental/shear.py | 14 +++++++-------
 src/MuyGPyS/gp/kernels/matern.py             |  8 ++++----
 src/MuyGPyS/gp/kernels/rbf.py                |  8 ++++----
 src/MuyGPyS/gp/muygps.py                     | 11 +++++++----
 4 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/MuyGPyS/gp/kernels/experimental/shear.py b/src/MuyGPyS/gp/kernels/experimental/shear.py
index 98737db..a1028b0 100644
--- a/src/MuyGPyS/gp/kernels/experimental/shear.py
+++ b/src/MuyGPyS/gp/kernels/experimental/shear.py
@@ -39,7 +39,7 @@ Note that the :class:`~MuyGPyS.gp.kernels.experimental.shear.ShearKernel`
 functor
 """
 
-from typing import Callable, List, Tuple
+from typing import Callable, List, Optional, Tuple
 
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.gp.kernels.shear import (
@@ -77,13 +77,13 @@ class ShearKernel(KernelFn):
 
     def __init__(
         self,
-        deformation: DifferenceIsotropy = DifferenceIsotropy(
-            F2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DifferenceIsotropy] = None,
         _backend_fn: Callable = _shear_33_fn,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
     ):
+        if deformation is None:
+            deformation = DifferenceIsotropy(F2, length_scale=ScalarParam(1.0))
         super().__init__(deformation=deformation)
         if not isinstance(self.deformation, DifferenceIsotropy):
             raise ValueError(
@@ -187,15 +187,15 @@ class ShearKernel2in3out(KernelFn):
 
     def __init__(
         self,
-        deformation: DifferenceIsotropy = DifferenceIsotropy(
-            F2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DifferenceIsotropy] = None,
         _backend_Kin_fn: Callable = _shear_Kin23_fn,
         _backend_Kcross_fn: Callable = _shear_Kcross23_fn,
         _backend_Kout_fn: Callable = _shear_33_fn,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
     ):
+        if deformation is None:
+            deformation = DifferenceIsotropy(F2, length_scale=ScalarParam(1.0))
         super().__init__(deformation=deformation)
         if not isinstance(self.deformation, DifferenceIsotropy):
             raise ValueError(
diff --git a/src/MuyGPyS/gp/kernels/matern.py b/src/MuyGPyS/gp/kernels/matern.py
index 7143df4..0eeff62 100644
--- a/src/MuyGPyS/gp/kernels/matern.py
+++ b/src/MuyGPyS/gp/kernels/matern.py
@@ -37,7 +37,7 @@ Example:
     >>> Kcross = kern(crosswise_diffs)
 """
 
-from typing import Callable, List, Tuple
+from typing import Callable, List, Optional, Tuple
 
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.gp.kernels import (
@@ -120,14 +120,14 @@ class Matern(KernelFn):
     def __init__(
         self,
         smoothness: ScalarParam = ScalarParam(0.5),
-        deformation: DeformationFn = Isotropy(
-            l2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DeformationFn] = None,
         _backend_ones: Callable = mm.ones,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
         **_backend_fns,
     ):
+        if deformation is None:
+            deformation = Isotropy(l2, length_scale=ScalarParam(1.0))
         super().__init__(deformation=deformation)
         self.smoothness = NamedParam("smoothness", smoothness)
         self._backend_ones = _backend_ones
diff --git a/src/MuyGPyS/gp/kernels/rbf.py b/src/MuyGPyS/gp/kernels/rbf.py
index 761ad74..1434c0a 100644
--- a/src/MuyGPyS/gp/kernels/rbf.py
+++ b/src/MuyGPyS/gp/kernels/rbf.py
@@ -37,7 +37,7 @@ Example:
     >>> Kcross = kernel_fn(crosswise_diffs)
 """
 
-from typing import Callable
+from typing import Callable, Optional
 
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.gp.kernels import _rbf_fn
@@ -71,14 +71,14 @@ class RBF(KernelFn):
 
     def __init__(
         self,
-        deformation: DeformationFn = Isotropy(
-            F2, length_scale=ScalarParam(1.0)
-        ),
+        deformation: Optional[DeformationFn] = None,
         _backend_fn: Callable = _rbf_fn,
         _backend_ones: Callable = mm.ones,
         _backend_zeros: Callable = mm.zeros,
         _backend_squeeze: Callable = mm.squeeze,
     ):
+        if deformation is None:
+            deformation = Isotropy(F2, length_scale=ScalarParam(1.0))
         super().__init__(deformation=deformation)
         self._backend_ones = _backend_ones
         self._backend_zeros = _backend_zeros
diff --git a/src/MuyGPyS/gp/muygps.py b/src/MuyGPyS/gp/muygps.py
index d1bf8f4..de877bf 100644
--- a/src/MuyGPyS/gp/muygps.py
+++ b/src/MuyGPyS/gp/muygps.py
@@ -93,16 +93,19 @@ class MuyGPS:
     def __init__(
         self,
         kernel: KernelFn,
-        noise: NoiseFn = HomoscedasticNoise(0.0, "fixed"),
-        scale: ScaleFn = FixedScale(response_count=1),
+        noise: Optional[NoiseFn] = None,
+        scale: Optional[ScaleFn] = None,
         _backend_mean_fn: Callable = _muygps_posterior_mean,
         _backend_var_fn: Callable = _muygps_diagonal_variance,
         _backend_fast_mean_fn: Callable = _muygps_fast_posterior_mean,
         _backend_fast_precompute_fn: Callable = _muygps_fast_posterior_mean_precompute,
     ):
+        # NOTE: the defaults are stateful, and must not be shared among models
         self.kernel = kernel
-        self.scale = scale
-        self.noise = noise
+        self.scale = FixedScale(response_count=1) if scale is None else scale
+        self.noise = (
+            HomoscedasticNoise(0.0, "fixed") if noise is None else noise
+        )
         self._backend_mean_fn = _backend_mean_fn
         self._backend_var_fn = _backend_var_fn
         self._backend_fast_mean_fn = _backend_fast_mean_fn
-- 
2.43.0


From a2ec85fbad41a387e9f26cd6f4962e81d74b519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 12/46] fix: models with null noise report fixedness and
 optimization parameters

---
 src/MuyGPyS/gp/noise/null.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/gp/noise/null.py b/src/MuyGPyS/gp/noise/null.py
index 87addd2..f4bbc88 100644
--- a/src/MuyGPyS/gp/noise/null.py
+++ b/src/MuyGPyS/gp/noise/null.py
@@ -9,7 +9,7 @@ Noise modeling
 Defines data structures and functors that handle noise priors for MuyGPs models.
 """
 
-from typing import Callable
+from typing import Callable, List, Tuple
 
 import MuyGPyS._src.math as mm
 
@@ -23,8 +23,7 @@ class NullNoise(ScalarParam, NoiseFn):
     """
 
     def __init__(self, *args, **kwargs):
-        self.val = 0.0
-        self.bounds = "fixed"
+        super(NullNoise, self).__init__(0.0, "fixed")
 
     def __call__(self, *args, **kwargs):
         return 0.0
@@ -48,3 +47,11 @@ class NullNoise(ScalarParam, NoiseFn):
 
     def perturb_fn(self, fn: Callable) -> Callable:
         return fn
+
+    def append_lists(
+        self,
+        names: List[str],
+        params: List[float],
+        bounds: List[Tuple[float, float]],
+    ):
+        pass
-- 
2.43.0


From 7dbd212044469ea0df14665475b0d31f24bb83d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 13/46] fix: the scale used during training sees the noise
 value being tried

---
 src/MuyGPyS/gp/hyperparameter/scale.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index 49ace1f..d8f0b03 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -203,16 +203,14 @@ class AnalyticScale(ScaleFn):
         """
 
         def analytic_scale_opt_fn(Kin, nn_targets, *args, **kwargs):
-            scale = self._fn(muygps.noise.perturb(Kin), nn_targets, **kwargs)
+            pK = muygps.noise.perturb(Kin, **kwargs)
+            scale = self._fn(pK, nn_targets, **kwargs)
             if np.array(self.val).size != 1:
                 # iterative process only works for scalar responses
                 return scale
             for _ in range(1, self.iteration_count):
                 scale = 0.5 * (
-                    scale
-                    + self._fn(
-                        scale * muygps.noise.perturb(Kin), nn_targets, **kwargs
-                    )
+                    scale + self._fn(scale * pK, nn_targets, **kwargs)
                 )
             return scale
 
@@ -273,7 +271,7 @@ class DownSampleScale(ScaleFn):
                     f"bad attempt to downsample {self._down_count} elements "
                     f"from a set of only {nn_count} options"
                 )
-            pK = muygps.noise.perturb(Kin)
+            pK = muygps.noise.perturb(Kin, **kwargs)
             scales = []
             for _ in range(self._iteration_count):
                 sampled_indices = np.random.choice(
-- 
2.43.0


From 253858f0518dcea769c8c270d0d89f4957110018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 14/46] fix: torch difference tensors support one-dimensional
 features

---
 src/MuyGPyS/_src/gp/tensors/torch.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/MuyGPyS/_src/gp/tensors/torch.py b/src/MuyGPyS/_src/gp/tensors/torch.py
index f9a51df..1034a28 100644
--- a/src/MuyGPyS/_src/gp/tensors/torch.py
+++ b/src/MuyGPyS/_src/gp/tensors/torch.py
@@ -52,6 +52,9 @@ def _crosswise_tensor(
 ) -> torch.ndarray:
     locations = data[data_indices]
     points = nn_data[nn_indices]
+    if data.ndim == 1:
+        # promote vector-valued data to a single feature
+        return locations[:, None, None] - points[..., None]
     return _crosswise_differences(locations, points)
 
 
@@ -60,6 +63,9 @@ def _pairwise_tensor(
     nn_indices: torch.ndarray,
 ) -> torch.ndarray:
     points = data[nn_indices]
+    if data.ndim == 1:
+        # promote vector-valued data to a single feature
+        points = points[..., None]
     return _pairwise_differences(points)
 
 
-- 
2.43.0


From 5dabf46a4ed4c2faa58c990417b5df6587273bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 15/46] fix: general Matern kernels stay finite in single
 precision

---
 src/MuyGPyS/_src/gp/kernels/numpy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/kernels/numpy.py b/src/MuyGPyS/_src/gp/kernels/numpy.py
index 9bb1914..8e1d2d2 100644
--- a/src/MuyGPyS/_src/gp/kernels/numpy.py
+++ b/src/MuyGPyS/_src/gp/kernels/numpy.py
@@ -34,10 +34,11 @@ def _matern_inf_fn(dists: np.ndarray, **kwargs) -> np.ndarray:
 def _matern_gen_fn(
     dists: np.ndarray, smoothness: float, **kwargs
 ) -> np.ndarray:
-    K = dists
+    # the Bessel function factors under- and overflow in single precision
+    K = dists.astype(float)
     K[K == 0.0] += np.finfo(float).eps
     tmp = np.sqrt(2 * smoothness) * K
     K.fill((2 ** (1.0 - smoothness)) / gamma(smoothness))
     K *= tmp**smoothness
     K *= kv(smoothness, tmp)
-    return K
+    return K.astype(dists.dtype)
-- 
2.43.0


From abe450e66e9c270ae67d7f96f507f412f77908a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 16/46] fix: torch hyperparameters are stored with the
 configured precision

---
 src/MuyGPyS/_src/math/torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/math/torch.py b/src/MuyGPyS/_src/math/torch.py
index 610a89b..99744bb 100644
--- a/src/MuyGPyS/_src/math/torch.py
+++ b/src/MuyGPyS/_src/math/torch.py
@@ -103,4 +103,4 @@ diagonal, eye, full, linspace, ones, zeros = fix_function_types(
 
 
 def parameter(x):
-    return nn.Parameter(_array(x))
+    return nn.Parameter(array(x))
-- 
2.43.0


From a93fc6429784bfce84567ebdc48ad63eae0ea5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 17/46] fix: copies of kernels and models do not share
 parameters with the original

---
 src/MuyGPyS/gp/kernels/kernel_fn.py | 9 +++++++++
 src/MuyGPyS/gp/muygps.py            | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/MuyGPyS/gp/kernels/kernel_fn.py b/src/MuyGPyS/gp/kernels/kernel_fn.py
index 8bc0cef..485490c 100644
--- a/src/MuyGPyS/gp/kernels/kernel_fn.py
+++ b/src/MuyGPyS/gp/kernels/kernel_fn.py
@@ -39,6 +39,7 @@ Example:
     >>> Kcross = kern(crosswise_diffs)
 """
 
+from copy import copy, deepcopy
 from typing import Callable, Dict, List, Tuple
 
 import MuyGPyS._src.math as mm
@@ -74,6 +75,14 @@ class KernelFn:
     def _make(self):
         raise NotImplementedError("_make is not implemented for base KernelFn")
 
+    def __deepcopy__(self, memo):
+        # The evaluation closures refer to the hyperparameters of the original.
+        ret = copy(self)
+        memo[id(self)] = ret
+        ret.__dict__ = deepcopy(self.__dict__, memo)
+        ret._make()
+        return ret
+
     def set_params(self, **kwargs) -> None:
         """
         Reset hyperparameters using hyperparameter dict(s).
diff --git a/src/MuyGPyS/gp/muygps.py b/src/MuyGPyS/gp/muygps.py
index de877bf..b65eb2c 100644
--- a/src/MuyGPyS/gp/muygps.py
+++ b/src/MuyGPyS/gp/muygps.py
@@ -7,6 +7,7 @@
 MuyGPs implementation
 """
 
+from copy import copy, deepcopy
 from typing import Callable, List, Optional, Tuple
 
 import MuyGPyS._src.math as mm
@@ -128,6 +129,14 @@ class MuyGPS:
             self.noise, _backend_fn=self._backend_fast_precompute_fn
         )
 
+    def __deepcopy__(self, memo):
+        # The prediction closures refer to the members of the original.
+        ret = copy(self)
+        memo[id(self)] = ret
+        ret.__dict__ = deepcopy(self.__dict__, memo)
+        ret._make()
+        return ret
+
     def fixed(self) -> bool:
         """
         Checks whether all kernel and model parameters are fixed.
-- 
2.43.0


From ef5a90c33bd8629af884ed10a87b3f34cf28e6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 18/46] fix: torch models can train analytic and down-sampled
 scales repeatedly

---
 src/MuyGPyS/gp/hyperparameter/scale.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index d8f0b03..b49269a 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -205,9 +205,6 @@ class AnalyticScale(ScaleFn):
         def analytic_scale_opt_fn(Kin, nn_targets, *args, **kwargs):
             pK = muygps.noise.perturb(Kin, **kwargs)
             scale = self._fn(pK, nn_targets, **kwargs)
-            if np.array(self.val).size != 1:
-                # iterative process only works for scalar responses
-                return scale
             for _ in range(1, self.iteration_count):
                 scale = 0.5 * (
                     scale + self._fn(scale * pK, nn_targets, **kwargs)
@@ -286,6 +283,8 @@ class DownSampleScale(ScaleFn):
                 nn_targets_down = nn_targets[:, sampled_indices]
                 scales.append(self._fn(pK_down, nn_targets_down))
 
-            return np.median(scales, axis=0) / (self._down_count * batch_count)
+            return np.median([float(scale) for scale in scales]) / (
+                self._down_count * batch_count
+            )
 
         return downsample_analytic_scale_opt_fn
-- 
2.43.0


From 907a6fa19d744b0587cd5b67d239908dfd85178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 19/46] fix: masked multivariate losses keep the response
 covariance submatrix

---
 src/MuyGPyS/optimize/loss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/optimize/loss.py b/src/MuyGPyS/optimize/loss.py
index 052b40b..f757290 100644
--- a/src/MuyGPyS/optimize/loss.py
+++ b/src/MuyGPyS/optimize/loss.py
@@ -169,7 +169,8 @@ def make_var_predict_and_loss_fn(
 
         if target_mask is not None:
             predictions = predictions[:, target_mask]
-            variances = variances[:, target_mask, target_mask]
+            if variances.ndim > 1:
+                variances = variances[:, target_mask][:, :, target_mask]
 
         return -loss_fn(
             predictions, batch_targets, variances, scale, **loss_kwargs
-- 
2.43.0


From 43b1295b236d216bab4d593c5b2f5c579ed59ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 20/46] fix: lool_fn_unscaled can be used as an optimization
 objective

---
 src/MuyGPyS/optimize/loss.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/optimize/loss.py b/src/MuyGPyS/optimize/loss.py
index f757290..59265d2 100644
--- a/src/MuyGPyS/optimize/loss.py
+++ b/src/MuyGPyS/optimize/loss.py
@@ -179,6 +179,34 @@ def make_var_predict_and_loss_fn(
     return predict_and_loss_fn
 
 
+def make_unscaled_var_predict_and_loss_fn(
+    loss_fn: Callable, *args, **kwargs
+) -> Callable:
+    """
+    Make a predict_and_loss function that depends on the posterior mean and
+    the unscaled posterior variance.
+
+    Equivalent to :func:`make_var_predict_and_loss_fn`, except that `loss_fn`
+    has signature `(predictions, targets, variances, **kwargs)` and does not
+    accept a scale argument.
+
+    Args:
+        loss_fn:
+            A loss function Callable with signature
+            `(predictions, responses, variances, **kwargs)`.
+
+    Returns:
+        A Callable with signature `(Kin, Kcross, *args, **kwargs) -> float` that
+        computes the posterior mean and variance and applies the loss function
+        to them and the `batch_targets`.
+    """
+
+    def unscaled_loss_fn(predictions, targets, variances, scale, **loss_kwargs):
+        return loss_fn(predictions, targets, variances, **loss_kwargs)
+
+    return make_var_predict_and_loss_fn(unscaled_loss_fn, *args, **kwargs)
+
+
 class LossFn:
     """
     Loss functor class.
@@ -297,7 +325,9 @@ Returns:
     The LOOL loss of the prediction.
 """
 
-lool_fn_unscaled = LossFn(_lool_fn_unscaled, make_var_predict_and_loss_fn)
+lool_fn_unscaled = LossFn(
+    _lool_fn_unscaled, make_unscaled_var_predict_and_loss_fn
+)
 """
 Unscaled version of the leave-one-out likelihood function.
 
-- 
2.43.0


From 6ee8a895a09a743fb24c1403443a43f4759d0504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 21/46] fix: torch cross entropy agrees with the other backends
 for more than two classes

---
 src/MuyGPyS/_src/optimize/loss/torch.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/torch.py b/src/MuyGPyS/_src/optimize/loss/torch.py
index 882507f..b3f1b42 100644
--- a/src/MuyGPyS/_src/optimize/loss/torch.py
+++ b/src/MuyGPyS/_src/optimize/loss/torch.py
@@ -10,15 +10,9 @@ def _cross_entropy_fn(
     predictions: torch.ndarray, targets: torch.ndarray, **kwargs
 ) -> torch.ndarray:
     one_hot_targets = torch.where(targets > 0.0, 1.0, 0.0)
-    softmax_predictions = predictions.softmax(dim=1)
+    log_probabilities = predictions.log_softmax(dim=1)
 
-    return (
-        -torch.mean(
-            one_hot_targets * torch.log(softmax_predictions)
-            + (1 - one_hot_targets) * torch.log(1 - softmax_predictions)
-        )
-        * one_hot_targets.shape[0]
-    )
+    return -torch.sum(one_hot_targets * log_probabilities)
 
 
 def _mse_fn_unnormalized(
-- 
2.43.0


From 2f276d97020e3d1c3088179002a9e60bf87918de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 22/46] fix: shear kernels keep batch and neighbor dimensions
 of size one

---
 src/MuyGPyS/_src/gp/kernels/shear/numpy.py   |  6 +++---
 src/MuyGPyS/gp/kernels/experimental/shear.py | 12 +++++++-----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/kernels/shear/numpy.py b/src/MuyGPyS/_src/gp/kernels/shear/numpy.py
index 341901b..169a66c 100644
--- a/src/MuyGPyS/_src/gp/kernels/shear/numpy.py
+++ b/src/MuyGPyS/_src/gp/kernels/shear/numpy.py
@@ -159,7 +159,7 @@ def _shear_33_fn(diffs, length_scale=1.0, **kwargs):
         length_scale,
     )  # (2, 2)
 
-    return np.squeeze(full_m)
+    return full_m
 
 
 # compute the full covariance matrix for shear1 and shear2 only
@@ -202,7 +202,7 @@ def _shear_Kin23_fn(diffs, length_scale=1.0, **kwargs):
         length_scale,
     )  # (1, 1)
 
-    return np.squeeze(full_m)
+    return full_m
 
 
 # compute the crosscovariance matrix relating shear1 and shear2 only
@@ -257,4 +257,4 @@ def _shear_Kcross23_fn(diffs, length_scale=1.0, **kwargs):
         length_scale,
     )  # (1, 2)
 
-    return np.squeeze(full_m)
+    return full_m
diff --git a/src/MuyGPyS/gp/kernels/experimental/shear.py b/src/MuyGPyS/gp/kernels/experimental/shear.py
index a1028b0..05fa526 100644
--- a/src/MuyGPyS/gp/kernels/experimental/shear.py
+++ b/src/MuyGPyS/gp/kernels/experimental/shear.py
@@ -126,11 +126,12 @@ class ShearKernel(KernelFn):
         if adjust and diffs.shape[-2] != diffs.shape[-3]:
             # this is probably a crosswise differences tensor
             # reshape to insert a unitary dimension
-            diffs = diffs[..., None, :]
+            # and remove it from the result
+            return self._fn(diffs[..., None, :], **kwargs)[..., 0]
         return self._fn(diffs, **kwargs)
 
     def Kout(self, **kwargs) -> mm.ndarray:
-        return self.__call__(self._backend_zeros((1, 1, 2)))
+        return self._fn(self._backend_zeros((1, 1, 2)), **kwargs)[:, 0, :, 0]
 
     def get_opt_params(
         self,
@@ -260,12 +261,13 @@ class ShearKernel2in3out(KernelFn):
         elif adjust and diffs.shape[-2] != diffs.shape[-3]:
             # this is probably a crosswise differences tensor
             # reshape to insert a unitary dimension
-            diffs = diffs[..., None, :]
-            return self._Kcross_fn(diffs, **kwargs)
+            # and remove it from the result
+            return self._Kcross_fn(diffs[..., None, :], **kwargs)[..., 0]
         return self._Kin_fn(diffs, **kwargs)
 
     def Kout(self, **kwargs) -> mm.ndarray:
-        return self._Kout_fn(self._backend_zeros((1, 1, 2)))
+        Kout = self._Kout_fn(self._backend_zeros((1, 1, 2)), **kwargs)
+        return Kout[:, 0, :, 0]
 
     def get_opt_params(
         self,
-- 
2.43.0


From d51fad79f1fe0c72bb36c1abf4e2bbf4d872fd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 23/46] fix: the prior variance of shear models follows their
 length scale

---
 src/MuyGPyS/gp/kernels/kernel_fn.py | 2 +-
 src/MuyGPyS/gp/muygps.py            | 6 ++++--
 src/MuyGPyS/gp/variance.py          | 9 ++++++---
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/MuyGPyS/gp/kernels/kernel_fn.py b/src/MuyGPyS/gp/kernels/kernel_fn.py
index 485490c..7f9d372 100644
--- a/src/MuyGPyS/gp/kernels/kernel_fn.py
+++ b/src/MuyGPyS/gp/kernels/kernel_fn.py
@@ -105,7 +105,7 @@ class KernelFn:
             "get_opt_fn is not implemented for base KernelFn"
         )
 
-    def Kout(self) -> mm.ndarray:
+    def Kout(self, **kwargs) -> mm.ndarray:
         raise NotImplementedError("Kout is not implemented for base KernelFn")
 
     def get_opt_params(
diff --git a/src/MuyGPyS/gp/muygps.py b/src/MuyGPyS/gp/muygps.py
index b65eb2c..b6f26e0 100644
--- a/src/MuyGPyS/gp/muygps.py
+++ b/src/MuyGPyS/gp/muygps.py
@@ -118,9 +118,11 @@ class MuyGPS:
         self._mean_fn = PosteriorMean(
             self.noise, _backend_fn=self._backend_mean_fn
         )
-        Kout = self.kernel.Kout()
         self._var_fn = PosteriorVariance(
-            Kout, self.noise, self.scale, _backend_fn=self._backend_var_fn
+            self.kernel.Kout,
+            self.noise,
+            self.scale,
+            _backend_fn=self._backend_var_fn,
         )
         self._fast_posterior_mean_fn = FastPosteriorMean(
             _backend_fn=self._backend_fast_mean_fn
diff --git a/src/MuyGPyS/gp/variance.py b/src/MuyGPyS/gp/variance.py
index d3de219..89b1b57 100644
--- a/src/MuyGPyS/gp/variance.py
+++ b/src/MuyGPyS/gp/variance.py
@@ -7,7 +7,7 @@
 MuyGPs implementation
 """
 
-from typing import Callable
+from typing import Callable, Union
 
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.gp.muygps import _muygps_diagonal_variance
@@ -22,7 +22,7 @@ from MuyGPyS.gp.noise import NoiseFn
 class PosteriorVariance:
     def __init__(
         self,
-        Kout: mm.ndarray,
+        Kout: Union[mm.ndarray, Callable],
         noise: NoiseFn,
         scale: ScaleFn,
         _backend_fn: Callable = _muygps_diagonal_variance,
@@ -32,7 +32,10 @@ class PosteriorVariance:
 
         def fix_Kout_fn(fn: Callable) -> Callable:
             def fixed_Kout_fn(Kin, Kcross, *args, **kwargs):
-                return fn(Kin, Kcross, Kout, *args, **kwargs)
+                # kernels whose prior variance depends on their parameters pass
+                # a function, so that it is evaluated at the same parameters
+                prior = Kout(**kwargs) if callable(Kout) else Kout
+                return fn(Kin, Kcross, prior, *args, **kwargs)
 
             return fixed_Kout_fn
 
-- 
2.43.0


From 50acfd54c4776fa38ff0b9b8d1ade9df7ac57948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 24/46] fix: torch reductions cover every dimension by default,
 so multi-response losses are scalars

---
 src/MuyGPyS/_src/math/meta.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/_src/math/meta.py b/src/MuyGPyS/_src/math/meta.py
index f4f12d3..24b8ea1 100644
--- a/src/MuyGPyS/_src/math/meta.py
+++ b/src/MuyGPyS/_src/math/meta.py
@@ -26,8 +26,9 @@ def fix_function_types(dtype, *fns):
 
 
 def wrap_torch_signature(fn):
-    def wrapped_fn(x, axis=0):
-        return fn(x, dim=axis)
+    def wrapped_fn(x, axis=None):
+        # reduce over every dimension by default, like the other backends
+        return fn(x) if axis is None else fn(x, dim=axis)
 
     return wrapped_fn
 
-- 
2.43.0


From 10c8a1da7d172089033a1754cf20b8badfa12f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 25/46] fix: lool treats per-response variances of shape
 (batch, response) elementwise

---
 src/MuyGPyS/_src/optimize/loss/numpy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/numpy.py b/src/MuyGPyS/_src/optimize/loss/numpy.py
index eb47f74..2d34ccf 100644
--- a/src/MuyGPyS/_src/optimize/loss/numpy.py
+++ b/src/MuyGPyS/_src/optimize/loss/numpy.py
@@ -37,18 +37,18 @@ def _lool_fn_unscaled(
     variances: np.ndarray,
     **kwargs,
 ) -> float:
-    if variances.ndim == 1:
-        return np.sum(
-            np.divide((predictions - targets) ** 2, variances)
-            + np.log(variances)
-        )
-    else:
+    if variances.ndim == 3:
         residual = np.atleast_3d(predictions - targets)
         quad_form = np.squeeze(
             residual.swapaxes(-2, -1) @ np.linalg.solve(variances, residual)
         )
         _, logdet = np.linalg.slogdet(variances)
         return np.sum(quad_form + logdet)
+    else:
+        return np.sum(
+            np.divide((predictions - targets) ** 2, variances)
+            + np.log(variances)
+        )
 
 
 def _lool_fn(
-- 
2.43.0


From b6a9cf9fc7fd4ff0ea57e5620c249adc6ee6ba68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 26/46] fix: torch scales accept zero-dimensional estimates

---
 src/MuyGPyS/gp/hyperparameter/scale.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index b49269a..3102383 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -49,6 +49,7 @@ class ScaleFn:
         if (
             isinstance(val, Sequence)
             or hasattr(val, "__len__")
+            and getattr(val, "ndim", 1) != 0
             and len(val) != 1
         ):
             raise ValueError(f"Scale parameter must be scalar, not {val}.")
-- 
2.43.0


From 3f0766c33a37337ccad06639bc75e41eec3342a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 27/46] fix: named hierarchical parameters report whether their
 knots are fixed

---
 src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
index 84579f8..5b9d63d 100644
--- a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
+++ b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
@@ -96,6 +96,7 @@ class NamedHierarchicalParameter(HierarchicalParameter):
         self._knot_count = rhs._knot_count
         self._knot_features = rhs._knot_features
         self._params = NamedVectorParam(name, rhs._knot_params)
+        self._knot_params = self._params
         self._Kin_higher = rhs._Kin_higher
         self._kernel = rhs._kernel
         self._noise = rhs._noise
-- 
2.43.0


From 5616b0a7cfebc00576ffc0886d6182daa83488f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 28/46] fix: deformations distribute each tensor over the MPI
 ranks only once

---
 src/MuyGPyS/gp/deformation/metric.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/deformation/metric.py b/src/MuyGPyS/gp/deformation/metric.py
index 73fd8f4..0185589 100644
--- a/src/MuyGPyS/gp/deformation/metric.py
+++ b/src/MuyGPyS/gp/deformation/metric.py
@@ -15,7 +15,17 @@ from typing import Callable
 
 import MuyGPyS._src.math as mm
 from MuyGPyS._src.gp.tensors import _l2, _F2
-from MuyGPyS._src.gp.tensors import _crosswise_tensor, _pairwise_tensor
+from MuyGPyS._src.mpi_utils import _is_mpi_mode
+
+if _is_mpi_mode() is True:
+    # The deformation and model functors chunk finished tensors among the ranks,
+    # so the metrics that they are made of must compute whole tensors.
+    from MuyGPyS._src.gp.tensors.numpy import (
+        _crosswise_tensor,
+        _pairwise_tensor,
+    )
+else:
+    from MuyGPyS._src.gp.tensors import _crosswise_tensor, _pairwise_tensor
 
 
 class MetricFn:
-- 
2.43.0


From 754f94c431b5c8c038af38049c82250d9f490def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 29/46] fix: hierarchical parameters evaluate their knots on
 every MPI rank

---
 src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
index 5b9d63d..55a5089 100644
--- a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
+++ b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
@@ -51,7 +51,9 @@ class HierarchicalParameter:
         self._kernel = kernel
         self._Kin_higher = self._kernel(
             self._kernel.deformation.pairwise_tensor(
-                self._knot_features, mm.arange(knot_features.shape[0])
+                self._knot_features,
+                mm.arange(knot_features.shape[0]),
+                disable_mpi=True,
             )
         )
         self._noise = noise
@@ -120,6 +122,7 @@ class NamedHierarchicalParameter(HierarchicalParameter):
                 self._knot_features,
                 mm.arange(batch_features.shape[0]),
                 mm.arange(self._knot_features.shape[0]),
+                disable_mpi=True,
             )
         )
         return mm.squeeze(lower_Kcross @ solve)
-- 
2.43.0


From 59103441aa7d955fe5e90ca08a13145610609092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 30/46] fix: MPI cross entropy tolerates ranks without batch
 elements

---
 src/MuyGPyS/_src/optimize/loss/mpi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/mpi.py b/src/MuyGPyS/_src/optimize/loss/mpi.py
index 1bda80d..2c30a22 100644
--- a/src/MuyGPyS/_src/optimize/loss/mpi.py
+++ b/src/MuyGPyS/_src/optimize/loss/mpi.py
@@ -40,7 +40,11 @@ def _cross_entropy_fn(
     targets: np.ndarray,
     **kwargs,
 ) -> float:
-    local_log_loss = _cross_entropy_fn_n(predictions, targets, **kwargs)
+    # log_loss rejects the empty chunks of batches with fewer items than ranks
+    if predictions.shape[0] == 0:
+        local_log_loss = 0.0
+    else:
+        local_log_loss = _cross_entropy_fn_n(predictions, targets, **kwargs)
     global_log_loss = world.allreduce(local_log_loss, op=MPI.SUM)
     return global_log_loss
 
-- 
2.43.0


From 86c680da0126e6164928b6c40649ca7b7020f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:02 +0000
Subject: [PATCH 31/46] fix: downsampled scale training agrees on all MPI ranks

---
 src/MuyGPyS/gp/hyperparameter/scale.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index 3102383..aa5faa3 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -12,6 +12,8 @@ from typing import Callable
 
 import MuyGPyS._src.math as mm
 import MuyGPyS._src.math.numpy as np
+from MuyGPyS import config
+from MuyGPyS._src.mpi_utils import _consistent_reduce_scalar, _is_mpi_mode
 from MuyGPyS._src.optimize.scale import (
     _analytic_scale_optim,
     _analytic_scale_optim_unnormalized,
@@ -278,14 +280,22 @@ class DownSampleScale(ScaleFn):
                     replace=False,
                 )
                 sampled_indices.sort()
+                if _is_mpi_mode() is True:
+                    sampled_indices = config.mpi_state.comm_world.bcast(
+                        sampled_indices, root=0
+                    )
 
                 pK_down = pK[:, sampled_indices, :]
                 pK_down = pK_down[:, :, sampled_indices]
                 nn_targets_down = nn_targets[:, sampled_indices]
-                scales.append(self._fn(pK_down, nn_targets_down))
+                scales.append(
+                    _consistent_reduce_scalar(
+                        self._fn(pK_down, nn_targets_down)
+                    )
+                )
 
             return np.median([float(scale) for scale in scales]) / (
-                self._down_count * batch_count
+                self._down_count * _consistent_reduce_scalar(batch_count)
             )
 
         return downsample_analytic_scale_opt_fn
-- 
2.43.0


From 4e1c95a62a289cfad9ce551bb382713c7d954b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 32/46] fix: MPI ranks share the random source of Bayesian
 optimization

---
 src/MuyGPyS/_src/optimize/chassis/mpi.py | 29 +++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/_src/optimize/chassis/mpi.py b/src/MuyGPyS/_src/optimize/chassis/mpi.py
index 25b8847..bd9d1fa 100644
--- a/src/MuyGPyS/_src/optimize/chassis/mpi.py
+++ b/src/MuyGPyS/_src/optimize/chassis/mpi.py
@@ -3,7 +3,34 @@
 #
 # SPDX-License-Identifier: MIT
 
+from typing import Callable
+
+import numpy as np
+
+from MuyGPyS import config
 from MuyGPyS._src.optimize.chassis.numpy import (
     _scipy_optimize,
-    _bayes_opt_optimize,
+    _bayes_opt_optimize as _bayes_opt_optimize_n,
 )
+from MuyGPyS.gp import MuyGPS
+
+world = config.mpi_state.comm_world
+
+
+def _bayes_opt_optimize(
+    muygps: MuyGPS,
+    obj_fn: Callable,
+    verbose: bool = False,
+    random_state=None,
+    **kwargs,
+) -> MuyGPS:
+    # Each rank drives its own optimizer, so they must share a random source.
+    if random_state is None:
+        random_state = np.random.RandomState()
+    return _bayes_opt_optimize_n(
+        muygps,
+        obj_fn,
+        verbose=verbose,
+        random_state=world.bcast(random_state, root=0),
+        **kwargs,
+    )
-- 
2.43.0


From 56598c174ef929d3483eecca548762c503878b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 33/46] fix: likelihood losses pair each prediction with its
 own variance

---
 src/MuyGPyS/_src/optimize/loss/jax.py   | 14 ++++++++++++--
 src/MuyGPyS/_src/optimize/loss/numpy.py | 14 ++++++++++++--
 src/MuyGPyS/_src/optimize/loss/torch.py | 14 ++++++++++++--
 3 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/MuyGPyS/_src/optimize/loss/jax.py b/src/MuyGPyS/_src/optimize/loss/jax.py
index b09410f..05937a5 100644
--- a/src/MuyGPyS/_src/optimize/loss/jax.py
+++ b/src/MuyGPyS/_src/optimize/loss/jax.py
@@ -59,6 +59,14 @@ def _mse_fn(predictions: jnp.ndarray, targets: jnp.ndarray, **kwargs) -> float:
     )
 
 
+def _align_variances(
+    variances: jnp.ndarray, residual: jnp.ndarray
+) -> jnp.ndarray:
+    # a single variance per prediction applies to all of its responses
+    missing = max(residual.ndim - variances.ndim, 0)
+    return variances.reshape(tuple(variances.shape) + (1,) * missing)
+
+
 @jit
 def _lool_fn(
     predictions: jnp.ndarray,
@@ -85,9 +93,10 @@ def _lool_fn_unscaled(
         _, logdet = jnp.linalg.slogdet(variances)
         return jnp.sum(quad_form + logdet)
     else:
+        residual = predictions - targets
+        variances = _align_variances(variances, residual)
         return jnp.sum(
-            jnp.divide((predictions - targets) ** 2, variances)
-            + jnp.log(variances)
+            jnp.divide(residual**2, variances) + jnp.log(variances)
         )
 
 
@@ -113,6 +122,7 @@ def _looph_fn_unscaled(
 ) -> float:
     boundary_scale_sq = boundary_scale**2
     if variances.ndim == 1:
+        variances = _align_variances(variances, predictions)
         return jnp.sum(
             2
             * boundary_scale_sq
diff --git a/src/MuyGPyS/_src/optimize/loss/numpy.py b/src/MuyGPyS/_src/optimize/loss/numpy.py
index 2d34ccf..28c347c 100644
--- a/src/MuyGPyS/_src/optimize/loss/numpy.py
+++ b/src/MuyGPyS/_src/optimize/loss/numpy.py
@@ -31,6 +31,14 @@ def _mse_fn(predictions: np.ndarray, targets: np.ndarray, **kwargs) -> float:
     )
 
 
+def _align_variances(
+    variances: np.ndarray, residual: np.ndarray
+) -> np.ndarray:
+    # a single variance per prediction applies to all of its responses
+    missing = max(residual.ndim - variances.ndim, 0)
+    return variances.reshape(tuple(variances.shape) + (1,) * missing)
+
+
 def _lool_fn_unscaled(
     predictions: np.ndarray,
     targets: np.ndarray,
@@ -45,9 +53,10 @@ def _lool_fn_unscaled(
         _, logdet = np.linalg.slogdet(variances)
         return np.sum(quad_form + logdet)
     else:
+        residual = predictions - targets
+        variances = _align_variances(variances, residual)
         return np.sum(
-            np.divide((predictions - targets) ** 2, variances)
-            + np.log(variances)
+            np.divide(residual**2, variances) + np.log(variances)
         )
 
 
@@ -81,6 +90,7 @@ def _looph_fn_unscaled(
 ) -> float:
     boundary_scale_sq = boundary_scale**2
     if variances.ndim == 1:
+        variances = _align_variances(variances, predictions)
         return np.sum(
             2
             * boundary_scale_sq
diff --git a/src/MuyGPyS/_src/optimize/loss/torch.py b/src/MuyGPyS/_src/optimize/loss/torch.py
index b3f1b42..69d4db1 100644
--- a/src/MuyGPyS/_src/optimize/loss/torch.py
+++ b/src/MuyGPyS/_src/optimize/loss/torch.py
@@ -29,6 +29,14 @@ def _mse_fn(
     )
 
 
+def _align_variances(
+    variances: torch.ndarray, residual: torch.ndarray
+) -> torch.ndarray:
+    # a single variance per prediction applies to all of its responses
+    missing = max(residual.ndim - variances.ndim, 0)
+    return variances.reshape(tuple(variances.shape) + (1,) * missing)
+
+
 def _lool_fn(
     predictions: torch.ndarray,
     targets: torch.ndarray,
@@ -53,9 +61,10 @@ def _lool_fn_unscaled(
         _, logdet = torch.linalg.slogdet(variances)
         return torch.sum(quad_form + logdet)
     else:
+        residual = predictions - targets
+        variances = _align_variances(variances, residual)
         return torch.sum(
-            torch.divide((predictions - targets) ** 2, variances)
-            + torch.log(variances)
+            torch.divide(residual**2, variances) + torch.log(variances)
         )
 
 
@@ -79,6 +88,7 @@ def _looph_fn_unscaled(
     **kwargs
 ) -> float:
     boundary_scale_sq = boundary_scale**2
+    variances = _align_variances(variances, predictions)
     return torch.sum(
         2
         * boundary_scale_sq
-- 
2.43.0


From 100a31208bb461bf17592b23aa22dfd333709f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:47 +0000
Subject: [PATCH 34/46] fix: mini-batch optimization rescales neighborhoods by
 the learned length scales

---
 src/MuyGPyS/optimize/experimental/chassis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/MuyGPyS/optimize/experimental/chassis.py b/src/MuyGPyS/optimize/experimental/chassis.py
index c1cbdb5..162b682 100644
--- a/src/MuyGPyS/optimize/experimental/chassis.py
+++ b/src/MuyGPyS/optimize/experimental/chassis.py
@@ -285,8 +285,7 @@ def optimize_from_tensors_mini_batch(
         if isinstance(muygps.kernel.deformation, Anisotropy) and (
             epoch < (num_epochs - 1)
         ):
-            length_scales = muygps.kernel.deformation._length_scale_array(
-                train_features.shape,
+            length_scales = muygps.kernel.deformation.length_scale(
                 **optimizer.max["params"],
             )
             train_features_scaled = train_features / length_scales
-- 
2.43.0


From dfbf6515165ef70d3529a3d46304e87d81f96cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:47 +0000
Subject: [PATCH 35/46] fix: mini-batch optimization defaults init_points and
 n_iter

---
 src/MuyGPyS/optimize/experimental/chassis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MuyGPyS/optimize/experimental/chassis.py b/src/MuyGPyS/optimize/experimental/chassis.py
index 162b682..4ea525f 100644
--- a/src/MuyGPyS/optimize/experimental/chassis.py
+++ b/src/MuyGPyS/optimize/experimental/chassis.py
@@ -199,6 +199,8 @@ def optimize_from_tensors_mini_batch(
         verbose=verbose,
         **kwargs,
     )
+    maximize_kwargs.setdefault("init_points", 5)
+    maximize_kwargs.setdefault("n_iter", 20)
     total_pts_probed = num_epochs * maximize_kwargs["init_points"]
     total_opt_steps = num_epochs * maximize_kwargs["n_iter"]
 
-- 
2.43.0


From 16e38b4472a57e65e4570fe7feedfb1256d16418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:17 +0000
Subject: [PATCH 36/46] fix: an unknown float type raises instead of silently
 selecting the default

---
 src/MuyGPyS/_src/math/meta.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MuyGPyS/_src/math/meta.py b/src/MuyGPyS/_src/math/meta.py
index 24b8ea1..d938e9d 100644
--- a/src/MuyGPyS/_src/math/meta.py
+++ b/src/MuyGPyS/_src/math/meta.py
@@ -42,3 +42,7 @@ def set_type(t64, t32):
         return t64
     elif config.state.ftype == "32":
         return t32
+    else:
+        raise ValueError(
+            f'MuyGPyS float type is in bad state "{config.state.ftype}"'
+        )
-- 
2.43.0


From b17f1004b1e2060a46740a9c07e8cd6d92921826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:41 +0000
Subject: [PATCH 37/46] fix: compare the class labels of neighborhoods without
 truncating them to integers

---
 src/MuyGPyS/optimize/batch.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/MuyGPyS/optimize/batch.py b/src/MuyGPyS/optimize/batch.py
index 09323e2..de55a7d 100644
--- a/src/MuyGPyS/optimize/batch.py
+++ b/src/MuyGPyS/optimize/batch.py
@@ -102,10 +102,8 @@ def full_filtered_batch(
     # filter out indices whose neighors all belong to one class
     # What if the index is mislabeled? Currently assuming that constant nn
     # labels -> correctly classified.
-    nonconstant_mask = np.max(np.iarray(nn_labels), axis=1) != np.min(
-        np.iarray(nn_labels),
-        axis=1,
-    )
+    nn_labels = np.array(nn_labels, dtype=None)  # keep the type of the labels
+    nonconstant_mask = np.any(nn_labels != nn_labels[:, :1], axis=1)
 
     batch_indices = indices[nonconstant_mask]
     batch_nn_indices = nn_indices[nonconstant_mask, :]
@@ -148,10 +146,8 @@ def sample_balanced_batch(
     # filter out indices whose neighors all belong to one class
     # What if the index is mislabeled? Currently assuming that constant nn
     # labels -> correctly classified.
-    nonconstant_mask = np.max(np.iarray(nn_labels), axis=1) != np.min(
-        np.iarray(nn_labels),
-        axis=1,
-    )
+    nn_labels = np.array(nn_labels, dtype=None)  # keep the type of the labels
+    nonconstant_mask = np.any(nn_labels != nn_labels[:, :1], axis=1)
     classes = np.unique(labels)
     class_count = len(classes)
     each_batch_count = int(batch_count / class_count)
-- 
2.43.0


From 17d276fb5fba3b4a8792a236dd2f6a7c6f94f627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:16 +0000
Subject: [PATCH 38/46] fix: a changed higher-level kernel takes effect on both
 sides of the knot interpolation

---
 .../hyperparameter/experimental/hierarchical.py   | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
index 55a5089..b32ebb6 100644
--- a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
+++ b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
@@ -49,12 +49,10 @@ class HierarchicalParameter:
         self._knot_features = knot_features
         self._knot_params = knot_params
         self._kernel = kernel
-        self._Kin_higher = self._kernel(
-            self._kernel.deformation.pairwise_tensor(
-                self._knot_features,
-                mm.arange(knot_features.shape[0]),
-                disable_mpi=True,
-            )
+        self._pairwise_higher = self._kernel.deformation.pairwise_tensor(
+            self._knot_features,
+            mm.arange(knot_features.shape[0]),
+            disable_mpi=True,
         )
         self._noise = noise
 
@@ -99,7 +97,7 @@ class NamedHierarchicalParameter(HierarchicalParameter):
         self._knot_features = rhs._knot_features
         self._params = NamedVectorParam(name, rhs._knot_params)
         self._knot_params = self._params
-        self._Kin_higher = rhs._Kin_higher
+        self._pairwise_higher = rhs._pairwise_higher
         self._kernel = rhs._kernel
         self._noise = rhs._noise
         self._name = name
@@ -113,7 +111,8 @@ class NamedHierarchicalParameter(HierarchicalParameter):
     def __call__(self, batch_features, **kwargs) -> float:
         params, kwargs = self._params.filter_kwargs(**kwargs)
         solve = mm.linalg.solve(
-            self._Kin_higher + self._noise() * mm.eye(self._knot_count),
+            self._kernel(self._pairwise_higher)
+            + self._noise() * mm.eye(self._knot_count),
             self._params(**params),
         )
         lower_Kcross = self._kernel(
-- 
2.43.0


From 96a5fa3d46a7e0b7e460886ae86fbb276a0eb52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:27 +0000
Subject: [PATCH 39/46] fix: comparing models considers kernels, metrics and
 tensor-valued noise

---
 src/MuyGPyS/gp/muygps.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/gp/muygps.py b/src/MuyGPyS/gp/muygps.py
index b6f26e0..e7c91eb 100644
--- a/src/MuyGPyS/gp/muygps.py
+++ b/src/MuyGPyS/gp/muygps.py
@@ -565,7 +565,7 @@ class MuyGPS:
         )
 
     def __eq__(self, rhs) -> bool:
-        if isinstance(rhs, self.__class__):
+        if isinstance(rhs, self.__class__) and _same_form(self, rhs):
             return all(
                 (
                     all(
@@ -573,9 +573,31 @@ class MuyGPS:
                         == rhs.kernel._hyperparameters[h]()
                         for h in self.kernel._hyperparameters
                     ),
-                    self.noise() == rhs.noise(),
-                    self.scale() == rhs.scale(),
+                    _same_values(self.noise(), rhs.noise()),
+                    bool(self.scale() == rhs.scale()),
                 )
             )
         else:
             return False
+
+
+def _same_form(lhs: MuyGPS, rhs: MuyGPS) -> bool:
+    # models whose parameters can be compared one by one
+    lhs_deformation = lhs.kernel.deformation
+    rhs_deformation = rhs.kernel.deformation
+    return (
+        type(lhs.kernel) is type(rhs.kernel)
+        and type(lhs_deformation) is type(rhs_deformation)
+        and vars(lhs_deformation.metric) == vars(rhs_deformation.metric)
+        and lhs.kernel._hyperparameters.keys()
+        == rhs.kernel._hyperparameters.keys()
+        and type(lhs.noise) is type(rhs.noise)
+    )
+
+
+def _same_values(lhs, rhs) -> bool:
+    # noise values might be scalars or (heteroscedastic) tensors
+    if getattr(lhs, "shape", ()) != getattr(rhs, "shape", ()):
+        return False
+    same = lhs == rhs
+    return bool(same.all() if hasattr(same, "all") else same)
-- 
2.43.0


From 1b0aa211231dd82c2bff24dc728a1cdb467b44aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:27 +0000
Subject: [PATCH 40/46] fix: a refused set_params changes nothing

---
 src/MuyGPyS/gp/kernels/kernel_fn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/kernels/kernel_fn.py b/src/MuyGPyS/gp/kernels/kernel_fn.py
index 7f9d372..3077bfd 100644
--- a/src/MuyGPyS/gp/kernels/kernel_fn.py
+++ b/src/MuyGPyS/gp/kernels/kernel_fn.py
@@ -91,8 +91,9 @@ class KernelFn:
             kwargs:
                 Hyperparameter kwargs.
         """
+        params = {name: self._hyperparameters[name] for name in kwargs}
         for name in kwargs:
-            self._hyperparameters[name]._set(kwargs[name])
+            params[name]._set(kwargs[name])
         self._make()
 
     def __call__(self, diffs: mm.ndarray, **kwargs) -> mm.ndarray:
-- 
2.43.0


From 95d5d969debaa696872ec6b8f469cd5efd3400eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:27 +0000
Subject: [PATCH 41/46] fix: multivariate scale training that fails changes no
 model

---
 src/MuyGPyS/gp/multivariate_muygps.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/MuyGPyS/gp/multivariate_muygps.py b/src/MuyGPyS/gp/multivariate_muygps.py
index 9a7265d..0fdedea 100644
--- a/src/MuyGPyS/gp/multivariate_muygps.py
+++ b/src/MuyGPyS/gp/multivariate_muygps.py
@@ -371,13 +371,17 @@ class MultivariateMuyGPS:
                 f"Response count ({response_count}) does not match the number "
                 f"of models ({len(self.models)})."
             )
+        new_scale_vals = []
         for i, model in enumerate(self.models):
             Kin = model.kernel(pairwise_diffs)
             opt_fn = model.scale.get_opt_fn(model)
-            new_scale_val = opt_fn(
-                Kin,
-                nn_targets[:, :, i].reshape(batch_count, nn_count, 1),
+            new_scale_vals.append(
+                opt_fn(
+                    Kin,
+                    nn_targets[:, :, i].reshape(batch_count, nn_count, 1),
+                )
             )
+        for model, new_scale_val in zip(self.models, new_scale_vals):
             model.scale._set(new_scale_val)
             model._make()
         return self
-- 
2.43.0


From 10f74f9845ebc6ec542a6f1ebb8daac5e439714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:36 +0000
Subject: [PATCH 42/46] fix: the general Matern kernel is 1 at distance zero
 for every smoothness

---
 src/MuyGPyS/_src/gp/kernels/numpy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/kernels/numpy.py b/src/MuyGPyS/_src/gp/kernels/numpy.py
index 8e1d2d2..4423dae 100644
--- a/src/MuyGPyS/_src/gp/kernels/numpy.py
+++ b/src/MuyGPyS/_src/gp/kernels/numpy.py
@@ -36,9 +36,12 @@ def _matern_gen_fn(
 ) -> np.ndarray:
     # the Bessel function factors under- and overflow in single precision
     K = dists.astype(float)
-    K[K == 0.0] += np.finfo(float).eps
     tmp = np.sqrt(2 * smoothness) * K
+    bessel = kv(smoothness, tmp)
+    vanishing = bessel == np.inf  # the kernel is 1 in the limit
+    tmp = np.where(bessel == 0.0, 0.0, tmp)
     K.fill((2 ** (1.0 - smoothness)) / gamma(smoothness))
     K *= tmp**smoothness
-    K *= kv(smoothness, tmp)
+    K *= np.where(vanishing, 0.0, bessel)
+    K[vanishing] = 1.0
     return K.astype(dists.dtype)
-- 
2.43.0


From 053b316d98a98fa7c87a501cae0257d333cf7c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:48 +0000
Subject: [PATCH 43/46] fix: sampled knots follow numpy's random state, are the
 same on every rank and have the configured type

---
 .../gp/hyperparameter/experimental/hierarchical.py       | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
index b32ebb6..b971370 100644
--- a/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
+++ b/src/MuyGPyS/gp/hyperparameter/experimental/hierarchical.py
@@ -8,6 +8,9 @@ from typing import Callable, Dict, List, Tuple
 from scipy.stats.qmc import LatinHypercube
 
 import MuyGPyS._src.math as mm
+import MuyGPyS._src.math.numpy as np
+from MuyGPyS import config
+from MuyGPyS._src.mpi_utils import _is_mpi_mode
 from MuyGPyS.gp.hyperparameter import VectorParam, NamedVectorParam
 from MuyGPyS.gp.noise import HomoscedasticNoise
 
@@ -198,4 +201,8 @@ def sample_knots(feature_count: int, knot_count: int) -> mm.ndarray:
         Tensor of floats of shape `(knot_count, feature_count)`
         containing the sampled feature vectors for each knot.
     """
-    return LatinHypercube(feature_count, scramble=False).random(knot_count)
+    seed = int(np.random.randint(2**31 - 1))
+    if _is_mpi_mode() is True:
+        seed = config.mpi_state.comm_world.bcast(seed, root=0)
+    sampler = LatinHypercube(feature_count, scramble=False, seed=seed)
+    return mm.array(sampler.random(knot_count))
-- 
2.43.0


From a00738274b2ebf92f3202c37b39222ce09055038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:12 +0000
Subject: [PATCH 44/46] fix: zero down-sampling counts are not positive

---
 src/MuyGPyS/gp/hyperparameter/scale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/scale.py b/src/MuyGPyS/gp/hyperparameter/scale.py
index aa5faa3..022da69 100644
--- a/src/MuyGPyS/gp/hyperparameter/scale.py
+++ b/src/MuyGPyS/gp/hyperparameter/scale.py
@@ -41,7 +41,7 @@ class ScaleFn:
         self._trained = False
 
     def _check_positive_integer(self, count, name) -> int:
-        if not isinstance(count, int) or count < 0:
+        if not isinstance(count, int) or count <= 0:
             raise ValueError(
                 f"{name} count must be a positive integer, not {count}"
             )
-- 
2.43.0


From f5f5b02d1aced871e745e6dfa3a2424d6a1658d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:12 +0000
Subject: [PATCH 45/46] fix: differences of integer features do not wrap around

---
 src/MuyGPyS/_src/gp/tensors/numpy.py | 10 +++++++++-
 src/MuyGPyS/_src/gp/tensors/torch.py | 15 ++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/MuyGPyS/_src/gp/tensors/numpy.py b/src/MuyGPyS/_src/gp/tensors/numpy.py
index d573b33..c07902d 100644
--- a/src/MuyGPyS/_src/gp/tensors/numpy.py
+++ b/src/MuyGPyS/_src/gp/tensors/numpy.py
@@ -44,6 +44,13 @@ def _batch_features_tensor(
     return features[batch_indices]
 
 
+def _as_floats(features: np.ndarray) -> np.ndarray:
+    # small and unsigned integers wrap around when subtracted and squared
+    return (
+        features.astype(np.ftype) if features.dtype.kind in "biu" else features
+    )
+
+
 def _crosswise_tensor(
     data: np.ndarray,
     nn_data: np.ndarray,
@@ -52,6 +59,7 @@ def _crosswise_tensor(
 ) -> np.ndarray:
     locations = data[data_indices]
     points = nn_data[nn_indices]
+    locations, points = _as_floats(locations), _as_floats(points)
     if data.ndim == 1:
         return locations[..., :, None, None] - points[..., None]
     else:
@@ -62,7 +70,7 @@ def _pairwise_tensor(
     data: np.ndarray,
     nn_indices: np.ndarray,
 ) -> np.ndarray:
-    points = data[nn_indices]
+    points = _as_floats(data[nn_indices])
     if data.ndim == 1:
         return points[..., :, None, None] - points[..., None, :, None]
     else:
diff --git a/src/MuyGPyS/_src/gp/tensors/torch.py b/src/MuyGPyS/_src/gp/tensors/torch.py
index 1034a28..bc9b3ef 100644
--- a/src/MuyGPyS/_src/gp/tensors/torch.py
+++ b/src/MuyGPyS/_src/gp/tensors/torch.py
@@ -44,14 +44,23 @@ def _batch_features_tensor(
     return features[batch_indices]
 
 
+def _as_floats(features: torch.ndarray) -> torch.ndarray:
+    # small and unsigned integers wrap around when subtracted and squared
+    return (
+        features
+        if features.is_floating_point()
+        else features.to(torch.ftype)
+    )
+
+
 def _crosswise_tensor(
     data: torch.ndarray,
     nn_data: torch.ndarray,
     data_indices: torch.ndarray,
     nn_indices: torch.ndarray,
 ) -> torch.ndarray:
-    locations = data[data_indices]
-    points = nn_data[nn_indices]
+    locations = _as_floats(data[data_indices])
+    points = _as_floats(nn_data[nn_indices])
     if data.ndim == 1:
         # promote vector-valued data to a single feature
         return locations[:, None, None] - points[..., None]
@@ -62,7 +71,7 @@ def _pairwise_tensor(
     data: torch.ndarray,
     nn_indices: torch.ndarray,
 ) -> torch.ndarray:
-    points = data[nn_indices]
+    points = _as_floats(data[nn_indices])
     if data.ndim == 1:
         # promote vector-valued data to a single feature
         points = points[..., None]
-- 
2.43.0


From 408bfc9ac7c0d155c9f6cafc3e136c2455d18e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:48 +0000
Subject: [PATCH 46/46] fix: hyperparameters refuse nan inside free bounds and
 log sampling from zero or below

---
 src/MuyGPyS/gp/hyperparameter/scalar.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/MuyGPyS/gp/hyperparameter/scalar.py b/src/MuyGPyS/gp/hyperparameter/scalar.py
index 49ab210..981f2de 100644
--- a/src/MuyGPyS/gp/hyperparameter/scalar.py
+++ b/src/MuyGPyS/gp/hyperparameter/scalar.py
@@ -132,6 +132,11 @@ class Parameter:
                 np.random.uniform(low=self._bounds[0], high=self._bounds[1])
             )
         elif val == "log_sample":
+            if self._bounds[0] <= 0.0:
+                raise ValueError(
+                    f"Cannot sample on a log scale between bounds "
+                    f"{self._bounds} that are not strictly positive."
+                )
             newval = float(
                 np.exp(
                     np.random.uniform(
@@ -181,6 +186,11 @@ class Parameter:
             val = float(val)
 
         if self.fixed() is False:
+            if val != val:
+                raise ValueError(
+                    f"Hyperparameter value {val} is not within the "
+                    f"optimization bounds {self._bounds}"
+                )
             any_below = np.any(
                 np.choose(
                     cast(float, val) < cast(float, self._bounds[0]) - 1e-5,
@@ -258,7 +268,7 @@ class Parameter:
                     f"supported hyperparameter bound type."
                 )
             bounds = (float(bounds[0]), float(bounds[1]))
-            if bounds[0] > bounds[1]:
+            if not bounds[0] <= bounds[1]:
                 raise ValueError(
                     f"Lower bound {bounds[0]} is not lesser than upper bound "
                     f"{bounds[1]}."
-- 
2.43.0

