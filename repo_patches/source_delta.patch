From 34fb8b475485b03cf45effe8074f29e01a9f1910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:02 +0000
Subject: [PATCH 01/26] fix: LevenbergMarquardt madsen-nielsen criterion adds
 xtol to the norm of the parameters, as documented

---
 jaxopt/_src/levenberg_marquardt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 0820e26..7df8006 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -171,7 +171,7 @@ class LevenbergMarquardt(base.IterativeSolver):
     if self.verbose:
       print_iteration(state)
     if self.stop_criterion == 'madsen-nielsen':
-      tree_mul_term = self.xtol * (tree_l2_norm(params) - self.xtol)
+      tree_mul_term = self.xtol * (tree_l2_norm(params) + self.xtol)
       return jnp.all(jnp.array([
         tree_inf_norm(state.gradient) > self.gtol,
         tree_l2_norm(state.delta) > tree_mul_term
-- 
2.43.0


From b98b28bf4a3c0e2f4d0bcb40e78883f0ca4ae0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:02 +0000
Subject: [PATCH 02/26] fix: LevenbergMarquardt selects between accepted and
 rejected states instead of blending them

---
 jaxopt/_src/levenberg_marquardt.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 7df8006..2ff34ab 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -220,7 +220,7 @@ class LevenbergMarquardt(base.IterativeSolver):
     return LevenbergMarquardtState(
         iter_num=jnp.asarray(0),
         damping_factor=damping_factor,
-        increase_factor=2,
+        increase_factor=2.0,
         error=tree_l2_norm(gradient),
         residual=residual,
         value=0.5 * jnp.sum(jnp.square(residual)),
@@ -295,16 +295,11 @@ class LevenbergMarquardt(base.IterativeSolver):
     gain_ratio_test_not_met_ret = gain_ratio_test_false_func(
         *gain_ratio_test_init_state)
 
-    gain_ratio_test_is_met_ret = jax.tree.map(
-        lambda x: gain_ratio_test_is_met * x, gain_ratio_test_is_met_ret)
-
-    gain_ratio_test_not_met_ret = jax.tree.map(
-        lambda x: (1.0 - gain_ratio_test_is_met) * x,
-        gain_ratio_test_not_met_ret)
-
+    # Select rather than blend: a rejected trial may contain NaNs, and aux may
+    # hold integers or booleans.
     params, damping_factor, increase_factor, residual, gradient, jac, jt, jtj, hess_res, aux = jax.tree.map(
-        lambda x, y: x + y, gain_ratio_test_is_met_ret,
-        gain_ratio_test_not_met_ret)
+        lambda x, y: jnp.where(gain_ratio_test_is_met, x, y),
+        gain_ratio_test_is_met_ret, gain_ratio_test_not_met_ret)
 
     return params, damping_factor, increase_factor, residual, gradient, jac, jt, jtj, hess_res, aux
 
-- 
2.43.0


From 2ef5dafc0bca86b09e9cc53c23be0d13a94505a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:02 +0000
Subject: [PATCH 03/26] fix: LevenbergMarquardt uses jac_fun when the Jacobian
 is materialized

---
 jaxopt/_src/levenberg_marquardt.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 2ff34ab..4dee3ad 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -485,14 +485,11 @@ class LevenbergMarquardt(base.IterativeSolver):
     if self.materialize_jac:
       if self.jac_fun is None:
         self._jac_fun = jax.jacfwd(self._fun, argnums=(0))
-        if self.geodesic:
-          self._hess_res_fun = jax.jacfwd(
-              jax.jacfwd(self._fun, argnums=(0)), argnums=(0))
-    else:
-      if self.jac_fun:
+      else:
         self._jac_fun = self.jac_fun
-        if self.geodesic:
-          self._hess_res_fun = jax.jacfwd(self.jac_fun, argnums=(0))
+      if self.geodesic:
+        self._hess_res_fun = jax.jacfwd(self._jac_fun, argnums=(0))
+    else:
       if self.solver == 'qr':
         raise ValueError("QR factorization solver materializes Jacobian to solve the augmented "
                          "Jacobian equation instead of the normal equation. Hence, this solver "
-- 
2.43.0


From e81742b7222e97513df7fd932efca95cb2a55f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:02 +0000
Subject: [PATCH 04/26] fix: LevenbergMarquardt accepts its documented
 contribution_ratio_threshold option

---
 jaxopt/_src/levenberg_marquardt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index 4dee3ad..c7601d2 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -153,7 +153,6 @@ class LevenbergMarquardt(base.IterativeSolver):
 
   solver: Union[Literal['cholesky', 'lu', 'qr', 'inv'], Callable] = solve_cg
   geodesic: bool = False
-  contribution_ratio_threshold = 0.75
 
   verbose: Union[bool, int] = False
   jac_fun: Optional[Callable[..., jnp.ndarray]] = None
@@ -164,6 +163,8 @@ class LevenbergMarquardt(base.IterativeSolver):
   jit: bool = True
   unroll: base.AutoOrBoolean = 'auto'
 
+  contribution_ratio_threshold: float = 0.75
+
   # We are overriding the _cond_fun of the base solver to enable stopping based
   # on gradient or delta_params
   def _cond_fun(self, inputs):
-- 
2.43.0


From a1505a589a618e75fb6ba6f1d81d35cc7ab2bd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:02 +0000
Subject: [PATCH 05/26] fix: LevenbergMarquardt solutions can be differentiated
 with respect to keyword arguments

---
 jaxopt/_src/levenberg_marquardt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaxopt/_src/levenberg_marquardt.py b/jaxopt/_src/levenberg_marquardt.py
index c7601d2..4206b01 100644
--- a/jaxopt/_src/levenberg_marquardt.py
+++ b/jaxopt/_src/levenberg_marquardt.py
@@ -477,6 +477,8 @@ class LevenbergMarquardt(base.IterativeSolver):
       self._fun = self.residual_fun
       self._fun_with_aux = lambda *a, **kw: (self.residual_fun(*a, **kw), None)
 
+    self.reference_signature = self.residual_fun
+
     # Define maximum value for the damping factor and increase factor. This is
     # particularly helpful for X32 usage.
     self.damping_factor_max = jnp.asarray(2**32, dtype=float)
-- 
2.43.0


From ec778360526514ee4087bec76b2fbeb144e5e387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:27 +0000
Subject: [PATCH 06/26] fix: GaussNewton solutions can be differentiated with
 respect to keyword arguments

---
 jaxopt/_src/gauss_newton.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jaxopt/_src/gauss_newton.py b/jaxopt/_src/gauss_newton.py
index ea1d89c..d356eae 100644
--- a/jaxopt/_src/gauss_newton.py
+++ b/jaxopt/_src/gauss_newton.py
@@ -145,6 +145,8 @@ class GaussNewton(base.IterativeSolver):
       self._fun = self.residual_fun
       self._fun_with_aux = lambda *a, **kw: (self.residual_fun(*a, **kw),
                                              None)
+    self.reference_signature = self.residual_fun
+
     # We need this definition in the base solver run function
     def optimality_fun(params, *args, **kwargs):
       residual = self._fun(params, *args, **kwargs)
-- 
2.43.0


From 1f0e786c05332cbe8adc672d03dabb4f39773661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:27 +0000
Subject: [PATCH 07/26] fix: ProjectedGradient forwards implicit_diff_solve to
 its inner solver

---
 jaxopt/_src/projected_gradient.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaxopt/_src/projected_gradient.py b/jaxopt/_src/projected_gradient.py
index 5093e54..291e01d 100644
--- a/jaxopt/_src/projected_gradient.py
+++ b/jaxopt/_src/projected_gradient.py
@@ -157,5 +157,6 @@ class ProjectedGradient(base.IterativeSolver):
                                 decrease_factor=self.decrease_factor,
                                 verbose=self.verbose,
                                 implicit_diff=self.implicit_diff,
+                                implicit_diff_solve=self.implicit_diff_solve,
                                 jit=self.jit,
                                 unroll=self.unroll)
-- 
2.43.0


From 6f64c6c7188268b66f8d66163d11ee0bdcdc23bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:27 +0000
Subject: [PATCH 08/26] fix: ProximalGradient.init_state takes aux, not the
 gradient, when fun returns both

---
 jaxopt/_src/proximal_gradient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/proximal_gradient.py b/jaxopt/_src/proximal_gradient.py
index 76dba7e..7181476 100644
--- a/jaxopt/_src/proximal_gradient.py
+++ b/jaxopt/_src/proximal_gradient.py
@@ -179,7 +179,7 @@ class ProximalGradient(base.IterativeSolver):
     del hyperparams_prox  # Not used.
 
     if self.has_aux:
-      _, aux = self.fun(init_params, *args, **kwargs)
+      _, aux = self._fun_with_aux(init_params, *args, **kwargs)
     else:
       aux = None
 
@@ -327,11 +327,11 @@ class ProximalGradient(base.IterativeSolver):
   def __post_init__(self):
     super().__post_init__()
 
-    fun_with_aux, _, self._value_and_grad_with_aux = \
+    self._fun_with_aux, _, self._value_and_grad_with_aux = \
       base._make_funs_with_aux(fun=self.fun,
                                value_and_grad=self.value_and_grad,
                                has_aux=self.has_aux)
-    fun_without_aux = lambda *a, **kw: fun_with_aux(*a, **kw)[0]
+    fun_without_aux = lambda *a, **kw: self._fun_with_aux(*a, **kw)[0]
 
     # Sets up reference signature.
     fun = getattr(self.fun, "subfun", self.fun)
-- 
2.43.0


From d2b3af91a6a3e5b69332929a12a4a277ebcc0f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:47 +0000
Subject: [PATCH 09/26] fix: MulticlassLinearSvmDual column-wise Lipschitz
 constants account for l2reg

---
 jaxopt/_src/objective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/objective.py b/jaxopt/_src/objective.py
index d7776b6..9576ff7 100644
--- a/jaxopt/_src/objective.py
+++ b/jaxopt/_src/objective.py
@@ -327,7 +327,7 @@ class MulticlassLinearSvmDual(CompositeLinearFunction):
   def columnwise_lipschitz_const(self, l2reg, data):
     """Column-wise Lipschitz constants."""
     linop = self.make_linop(l2reg, data)
-    return linop.column_l2_norms(squared=True)
+    return linop.column_l2_norms(squared=True) / l2reg
 
   def b(self, l2reg, data):
     return data[1] - 1
-- 
2.43.0


From c83a7447070784f9946ea4f4528ad41478893c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:41 +0000
Subject: [PATCH 10/26] fix: direct linear solvers accept scalar right-hand
 sides under jit

---
 jaxopt/_src/linear_solve.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jaxopt/_src/linear_solve.py b/jaxopt/_src/linear_solve.py
index 34b5d0d..1dfd75f 100644
--- a/jaxopt/_src/linear_solve.py
+++ b/jaxopt/_src/linear_solve.py
@@ -58,7 +58,7 @@ def solve_lu(matvec: Callable,
     matvec = _make_ridge_matvec(matvec, ridge=ridge)
   A = _materialize_array(matvec, b.shape, b.dtype) # 4d array (tensor) if len(b.shape) == 2
   if len(b.shape) == 0:
-    if A == 0.0:
+    if not isinstance(A, jax.core.Tracer) and A == 0.0:
       raise ValueError('A should be non-zero for scalar b.')
     return b / A
   elif len(b.shape) == 1:
@@ -89,7 +89,7 @@ def solve_cholesky(matvec: Callable,
     matvec = _make_ridge_matvec(matvec, ridge=ridge)
   A = _materialize_array(matvec, b.shape)
   if len(b.shape) == 0:
-    if A == 0.0:
+    if not isinstance(A, jax.core.Tracer) and A == 0.0:
       raise ValueError('A should be non-zero for scalar b.')
     return b / A
   elif len(b.shape) == 1:
@@ -119,7 +119,7 @@ def solve_inv(matvec: Callable,
     matvec = _make_ridge_matvec(matvec, ridge=ridge)
   A = _materialize_array(matvec, b.shape)
   if len(b.shape) == 0:
-    if A == 0.0:
+    if not isinstance(A, jax.core.Tracer) and A == 0.0:
       raise ValueError('A should be non-zero for scalar b.')
     return b / A
   elif len(b.shape) == 1:
@@ -148,7 +148,7 @@ def solve_qr(matvec: Callable,
     matvec = _make_ridge_matvec(matvec, ridge=ridge)
   A = _materialize_array(matvec, b.shape)
   if len(b.shape) == 0:
-    if A == 0.0:
+    if not isinstance(A, jax.core.Tracer) and A == 0.0:
       raise ValueError('A should be non-zero for scalar b.')
     return b / A
   elif len(b.shape) == 1:
-- 
2.43.0


From 3c83c2002d525c28e667f574d614d4994833f9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:41 +0000
Subject: [PATCH 11/26] fix: solve_cholesky reshapes the materialized operator
 for 2-d right-hand sides

---
 jaxopt/_src/linear_solve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaxopt/_src/linear_solve.py b/jaxopt/_src/linear_solve.py
index 1dfd75f..e0c32d0 100644
--- a/jaxopt/_src/linear_solve.py
+++ b/jaxopt/_src/linear_solve.py
@@ -95,6 +95,7 @@ def solve_cholesky(matvec: Callable,
   elif len(b.shape) == 1:
     return jsp.linalg.solve(A, b, assume_a='pos')
   elif len(b.shape) == 2:
+    A = A.reshape(-1, b.shape[0] * b.shape[1])  # 2d array (matrix)
     return  jsp.linalg.solve(A, b.ravel(), assume_a='pos').reshape(*b.shape)
   else:
     raise NotImplementedError
-- 
2.43.0


From f9c847b1ef77fe97388b26b7dd7e295e94a7cf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:41 +0000
Subject: [PATCH 12/26] fix: IterativeRefinement starts from the residual of
 its initial parameters

---
 jaxopt/_src/iterative_refinement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/iterative_refinement.py b/jaxopt/_src/iterative_refinement.py
index cb32bfb..648ebc9 100644
--- a/jaxopt/_src/iterative_refinement.py
+++ b/jaxopt/_src/iterative_refinement.py
@@ -127,9 +127,9 @@ class IterativeRefinement(base.IterativeSolver):
     return IterativeRefinementState(
       iter_num=jnp.asarray(0),
       error=jnp.asarray(jnp.inf),
-      target_residuals=b,
+      target_residuals=tree_sub(b, self.matvec_A(A)(init_params)),
       init=init_params,
-      num_matvec_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE),
+      num_matvec_eval=jnp.asarray(1, base.NUM_EVAL_DTYPE),
       num_matvec_bar_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE),
       num_solve_eval=jnp.asarray(0, base.NUM_EVAL_DTYPE)
 )
-- 
2.43.0


From 40a604c96352bd4758ff1092cf5b2ea813ace4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:41 +0000
Subject: [PATCH 13/26] fix: Bisection supports has_aux=True

---
 jaxopt/_src/bisection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jaxopt/_src/bisection.py b/jaxopt/_src/bisection.py
index 97f259c..0392965 100644
--- a/jaxopt/_src/bisection.py
+++ b/jaxopt/_src/bisection.py
@@ -90,7 +90,7 @@ class Bisection(base.IterativeSolver):
     lower = jnp.asarray(self.lower, float)
     upper = jnp.asarray(self.upper, float)
 
-    lower_value = self.optimality_fun(lower, *args, **kwargs)
+    lower_value, aux = self._fun_with_aux(lower, *args, **kwargs)
     upper_value = self.optimality_fun(upper, *args, **kwargs)
 
     # sign = 1: the function is increasing
@@ -112,6 +112,7 @@ class Bisection(base.IterativeSolver):
                           error=jnp.asarray(jnp.inf),
                           low=lower, high=upper,
                           sign=jnp.asarray(sign),
+                          aux=aux,
                           num_fun_eval=jnp.array(2, base.NUM_EVAL_DTYPE))
 
   def update(self,
@@ -172,7 +173,10 @@ class Bisection(base.IterativeSolver):
     super().__post_init__()
 
     if self.has_aux:
-      self._fun_with_aux = self.optimality_fun
+      fun_with_aux = self.optimality_fun
+      self._fun_with_aux = fun_with_aux
+      self.optimality_fun = lambda *a, **kw: fun_with_aux(*a, **kw)[0]
+      self.reference_signature = fun_with_aux
     else:
       self._fun_with_aux = lambda *a, **kw: (self.optimality_fun(*a, **kw),
                                              None)
-- 
2.43.0


From 6243fa1a189bfdc7c2b49eebbfaf5d5d1eb8d5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:41 +0000
Subject: [PATCH 14/26] fix: ScipyRootFinding and ScipyLeastSquares support
 has_aux=True

---
 jaxopt/_src/scipy_wrappers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index fcd116e..f76475a 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -22,6 +22,7 @@
 """
 
 from dataclasses import dataclass
+import functools
 from typing import Any
 from typing import Callable
 from typing import Dict
@@ -560,13 +561,15 @@ class ScipyRootFinding(ScipyWrapper):
     return base.OptStep(params, info)
 
   def __post_init__(self):
-    super().__post_init__()
-
     if self.has_aux:
+      fun_with_aux = self.optimality_fun
+      @functools.wraps(fun_with_aux)
       def optimality_fun(x, *args, **kwargs):
-        return self.optimality_fun(x, *args, **kwargs)[0]
+        return fun_with_aux(x, *args, **kwargs)[0]
       self.optimality_fun = optimality_fun
 
+    super().__post_init__()
+
     # Pre-compile useful functions.
     self._jac_fun = (jax.jacrev(self.optimality_fun) if self.use_jacrev
                      else jax.jacfwd(self.optimality_fun))
@@ -709,7 +712,8 @@ class ScipyLeastSquares(ScipyWrapper):
           self.options[k] = v
 
     if self.has_aux:
-      self.fun = lambda x, *args, **kwargs: self.fun(x, *args, **kwargs)[0]
+      fun_with_aux = self.fun
+      self.fun = lambda x, *args, **kwargs: fun_with_aux(x, *args, **kwargs)[0]
 
     # Handles PyTree inputs for `x_scale` arg.
     if self.options['x_scale'] != 'jac' and not isinstance(
-- 
2.43.0


From bdc8f81db390404459265ed8c0497b80bc1b68ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:41 +0000
Subject: [PATCH 15/26] fix: SciPy wrappers copy the options dictionary instead
 of modifying the caller's and the defaults

---
 jaxopt/_src/scipy_wrappers.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index f76475a..fca9602 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -402,8 +402,7 @@ class ScipyMinimize(ScipyWrapper):
       self._grad_fun = jax.jit(self._grad_fun)
       self._value_and_grad_fun = jax.jit(self._value_and_grad_fun)
 
-    if self.options is None:
-      self.options = {}
+    self.options = {} if self.options is None else dict(self.options)
     if 'maxiter' in self.options:
       raise ValueError("Cannot pass maxiter through options dictionary, use maxiter keyword argument instead.")
     self.options['maxiter'] = self.maxiter
@@ -704,12 +703,7 @@ class ScipyLeastSquares(ScipyWrapper):
   def __post_init__(self):
     super().__post_init__()
 
-    if self.options is None:
-      self.options = LS_DEFAULT_OPTIONS
-    else:
-      for k, v in LS_DEFAULT_OPTIONS.items():
-        if k not in self.options:
-          self.options[k] = v
+    self.options = {**LS_DEFAULT_OPTIONS, **(self.options or {})}
 
     if self.has_aux:
       fun_with_aux = self.fun
-- 
2.43.0


From f7aabc330f4a00b69aadd89021466bd618acdc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:41 +0000
Subject: [PATCH 16/26] fix: ScipyLeastSquares huber loss is symmetric in the
 sign of the residual

---
 jaxopt/_src/scipy_wrappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/scipy_wrappers.py b/jaxopt/_src/scipy_wrappers.py
index fca9602..9517137 100644
--- a/jaxopt/_src/scipy_wrappers.py
+++ b/jaxopt/_src/scipy_wrappers.py
@@ -583,7 +583,8 @@ class ScipyRootFinding(ScipyWrapper):
 LS_RHO_FUNS = {
     'linear': lambda z: z ** 2,
     'soft_l1': lambda z: 2.0 * ((1 + z ** 2) ** 0.5 - 1),
-    'huber': lambda z: jnp.where(z <= 1, z ** 2, 2.0 * z - 1),
+    'huber': lambda z: jnp.where(
+        jnp.abs(z) <= 1, z ** 2, 2.0 * jnp.abs(z) - 1),
     'cauchy': lambda z: jnp.log1p(z ** 2),
     'arctan': lambda z: jnp.arctan(z ** 2),
 }
-- 
2.43.0


From 940e8dc350da9e33d7fb25f31028f2893cf41845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:48 +0000
Subject: [PATCH 17/26] fix: BoxOSQP optimality conditions with fun= received
 the pair (x, z) instead of x

---
 jaxopt/_src/osqp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 83cb920..50a8066 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -100,7 +100,9 @@ def _make_osqp_optimality_fun(matvec_Q, matvec_A, fun):
       qp_obj = tree_add_scalar_mul(tree_vdot(c, x), 0.5, tree_vdot(x, Q(x)))
       return qp_obj
   else:
-    obj_fun = fun
+    def obj_fun(primal_var, params_obj):
+      x, _ = primal_var
+      return fun(x, params_obj)
 
   def eq_fun(primal_var, params_eq):
     # constraint Ax=z associated to y^T(Ax-z)=0
-- 
2.43.0


From 7d8e1127062fca4258b566c8f2187dc6710f8253 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 22:43:42 +0000
Subject: [PATCH 18/26] fix: solve_qr used the plain transpose of Q, wrong for
 complex systems

---
 jaxopt/_src/linear_solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxopt/_src/linear_solve.py b/jaxopt/_src/linear_solve.py
index e0c32d0..4fe658a 100644
--- a/jaxopt/_src/linear_solve.py
+++ b/jaxopt/_src/linear_solve.py
@@ -155,7 +155,7 @@ def solve_qr(matvec: Callable,
   elif len(b.shape) == 1:
     # TODO: consider passing mode='economic' instead of current 'full'.
     q, r = jsp.linalg.qr(A)
-    return jsp.linalg.solve_triangular(r, q.T @ b)
+    return jsp.linalg.solve_triangular(r, q.conj().T @ b)
   else:
     # TODO: support for 2D b arrays.
     raise NotImplementedError
-- 
2.43.0


From c6b63586f152fb5c7f5e17d401092f4cf3cf634c Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 22:43:42 +0000
Subject: [PATCH 19/26] fix: solve_lu raised TypeError for a complex right-hand
 side

---
 jaxopt/_src/linear_solve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/linear_solve.py b/jaxopt/_src/linear_solve.py
index 4fe658a..c526662 100644
--- a/jaxopt/_src/linear_solve.py
+++ b/jaxopt/_src/linear_solve.py
@@ -28,7 +28,8 @@ from jaxopt._src.tree_util import tree_add_scalar_mul
 
 def _materialize_array(matvec, shape, dtype=None):
   """Materializes the matrix A used in matvec(x) = Ax."""
-  x = jnp.zeros(shape, dtype)
+  # jacfwd needs a real input; the columns of A are its images of real vectors.
+  x = jnp.zeros(shape, dtype).real
   return jax.jacfwd(matvec)(x)
 
 
-- 
2.43.0


From 28c5d49c1f74e5f800e5c6de1c7555a23281da3f Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 22:43:42 +0000
Subject: [PATCH 20/26] fix: solve_normal_cg used A^T instead of A^H, diverging
 on complex systems

---
 jaxopt/_src/linear_solve.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jaxopt/_src/linear_solve.py b/jaxopt/_src/linear_solve.py
index c526662..cd58deb 100644
--- a/jaxopt/_src/linear_solve.py
+++ b/jaxopt/_src/linear_solve.py
@@ -24,6 +24,7 @@ import jax.numpy as jnp
 import jax.scipy as jsp
 
 from jaxopt._src.tree_util import tree_add_scalar_mul
+from jaxopt._src.tree_util import tree_conj
 
 
 def _materialize_array(matvec, shape, dtype=None):
@@ -187,13 +188,14 @@ def solve_cg(matvec: Callable,
 
 def _make_rmatvec(matvec, x):
   transpose = jax.linear_transpose(matvec, x)
-  return lambda y: transpose(y)[0]
+  # Conjugate transpose (the transpose if A is real).
+  return lambda y: tree_conj(transpose(tree_conj(y))[0])
 
 
 def _normal_matvec(matvec, x):
-  """Computes A^T A x from matvec(x) = A x."""
+  """Computes A^H A x from matvec(x) = A x."""
   matvec_x, vjp = jax.vjp(matvec, x)
-  return vjp(matvec_x)[0]
+  return tree_conj(vjp(tree_conj(matvec_x))[0])
 
 
 def solve_normal_cg(matvec: Callable,
-- 
2.43.0


From 44cab9c0f85b700bcdb9bda8316c3f65f263ea0a Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Wed, 18 Nov 2026 23:08:19 +0000
Subject: [PATCH 21/26] fix: make_perturbed_fun derivative failed for control
 variates on arrays and size-1 output axes

---
 jaxopt/_src/perturbations.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jaxopt/_src/perturbations.py b/jaxopt/_src/perturbations.py
index 021baee..b06ff2e 100644
--- a/jaxopt/_src/perturbations.py
+++ b/jaxopt/_src/perturbations.py
@@ -256,7 +256,7 @@ def make_perturbed_fun(fun: Callable[[jax.Array], float],
   def pert_jvp(tangent, _, inputs, rng):
     samples = noise.sample(seed=rng,
                            sample_shape=(num_samples,) + inputs.shape)
-    output_pert = jax.vmap(fun)(inputs + sigma * samples)[..., jnp.newaxis]
+    output_pert = jax.vmap(fun)(inputs + sigma * samples)
     # noise.log_prob corresponds to -nu in the paper.
     nabla_z_flat = -jax.vmap(jax.grad(noise.log_prob))(samples.reshape([-1]))
     tangent_flat = 1.0 / (num_samples * sigma) * jnp.einsum(
@@ -264,13 +264,12 @@ def make_perturbed_fun(fun: Callable[[jax.Array], float],
         jnp.reshape(output_pert, (num_samples, -1)),
         jnp.reshape(nabla_z_flat, (num_samples, -1)),
         jnp.reshape(tangent, (-1,)))
-    tangent_out = jnp.squeeze(jnp.reshape(tangent_flat, output_pert.shape[1:]))
-    return tangent_out
+    return jnp.reshape(tangent_flat, output_pert.shape[1:])
 
   def pert_jvp_control_variate(tangent, _, inputs, rng):
     samples = noise.sample(seed=rng,
                            sample_shape=(num_samples,) + inputs.shape)
-    output_pert = jax.vmap(fun)(inputs + sigma * samples)[..., jnp.newaxis]
+    output_pert = jax.vmap(fun)(inputs + sigma * samples)
     output = fun(inputs)
     # noise.log_prob corresponds to -nu in the paper.
     nabla_z_flat = -jax.vmap(jax.grad(noise.log_prob))(samples.reshape([-1]))
@@ -279,8 +278,7 @@ def make_perturbed_fun(fun: Callable[[jax.Array], float],
         jnp.reshape(output_pert - output, (num_samples, -1)),
         jnp.reshape(nabla_z_flat, (num_samples, -1)),
         jnp.reshape(tangent, (-1,)))
-    tangent_out = jnp.squeeze(jnp.reshape(tangent_flat, output_pert.shape[1:]))
-    return tangent_out
+    return jnp.reshape(tangent_flat, output_pert.shape[1:])
 
   if control_variate:
     forward_pert.defjvps(pert_jvp_control_variate, None)
-- 
2.43.0


From 3a3ed40b8bf4bea10a1cee0630b3ffcedcaeeeb3 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 01:34:48 +0000
Subject: [PATCH 22/26] fix: HagerZhangLineSearch returned the initial step
 size when done at initialisation

---
 jaxopt/_src/hager_zhang_linesearch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index 6d03cd9..f83ec33 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -520,7 +520,8 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
 
     value_best_point = jnp.minimum(value_low, value_high)
 
-    new_stepsize = jnp.where(state.done, stepsize, best_point)
+    # If done already, `low` and `high` are unchanged and so is `best_point`.
+    new_stepsize = best_point
     new_params = tree_add_scalar_mul(params, best_point, descent_direction)
     (new_value, new_aux), new_grad = self._value_and_grad_fun_with_aux(
         new_params, *fun_args, **fun_kwargs
-- 
2.43.0


From c9ef2482f7a827fbf5c5ffa3c7972ae8aecb17aa Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 01:34:48 +0000
Subject: [PATCH 23/26] fix: HagerZhangLineSearch reported failure for a step
 accepted at initialisation

---
 jaxopt/_src/hager_zhang_linesearch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxopt/_src/hager_zhang_linesearch.py b/jaxopt/_src/hager_zhang_linesearch.py
index f83ec33..b75223b 100644
--- a/jaxopt/_src/hager_zhang_linesearch.py
+++ b/jaxopt/_src/hager_zhang_linesearch.py
@@ -488,7 +488,8 @@ class HagerZhangLineSearch(base.IterativeLineSearch):
     new_num_fun_eval += num_fun_grad_calls
     new_num_grad_eval += num_fun_grad_calls
 
-    failed = state.failed | failed
+    # If done already, this step is discarded and so are its failures.
+    failed = state.failed | (failed & ~state.done)
 
     new_low = jnp.where(state.done, state.low, new_low)
     new_high = jnp.where(state.done, state.high, new_high)
-- 
2.43.0


From 0b457e0dde859d9c7668c3f76c18c70eb3b08b60 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 02:13:21 +0000
Subject: [PATCH 24/26] fix: BoxOSQP reported an infeasible problem for a step
 that leaves the iterates unchanged

With delta_x = 0 (resp. delta_y = 0) every infeasibility certificate held
trivially (0 <= 0), so a feasible problem whose solution is the initial
point, or that stops moving before the termination test, was declared
infeasible (and with jit=False raised ValueError).
---
 jaxopt/_src/osqp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 50a8066..9605fbb 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -556,6 +556,8 @@ class BoxOSQP(base.IterativeSolver):
     certif_A   = tree_reduce(jnp.logical_and, tree_map(jnp.logical_and, certif_l, certif_u))
 
     certif_dual_infeasible = jnp.logical_and(jnp.logical_and(certif_Q <= criterion, certif_c <= criterion), certif_A)
+    # a null step certifies nothing
+    certif_dual_infeasible = jnp.logical_and(certif_dual_infeasible, criterion > 0)
 
     if int(self.verbose) >= 2:
       jax.debug.print("certif_Q: {certif_Q} certif_c: {certif_c} certif_A: {certif_A} "
@@ -578,6 +580,8 @@ class BoxOSQP(base.IterativeSolver):
     dy_minus  = tree_negative(tree_map(jax.nn.relu, tree_negative(delta_y)))
     certif_lu = tree_add(tree_vdot(bounded_l, dy_minus), tree_vdot(bounded_u, dy_plus))
     certif_primal_infeasible = jnp.logical_and(certif_A  <= criterion, certif_lu  <= criterion)
+    # a null step certifies nothing
+    certif_primal_infeasible = jnp.logical_and(certif_primal_infeasible, criterion > 0)
 
     if int(self.verbose) >= 2:
       jax.debug.print("certif_A: {certif_A}, certif_lu: {certif_lu}, criterion: {criterion}",
-- 
2.43.0


From 0368e00897c6cb63cd0d7cc81136ca40bdb25dae Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Thu, 19 Nov 2026 02:14:54 +0000
Subject: [PATCH 25/26] fix: BoxOSQP accepted a step towards an infinite bound
 as a certificate of primal infeasibility

Infinite bounds were replaced by zero in the certificate, so a feasible
problem with one-sided constraints could be declared primal infeasible.
The support function of the constraint set is +inf in those directions.
---
 jaxopt/_src/osqp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jaxopt/_src/osqp.py b/jaxopt/_src/osqp.py
index 9605fbb..147b143 100644
--- a/jaxopt/_src/osqp.py
+++ b/jaxopt/_src/osqp.py
@@ -582,6 +582,11 @@ class BoxOSQP(base.IterativeSolver):
     certif_primal_infeasible = jnp.logical_and(certif_A  <= criterion, certif_lu  <= criterion)
     # a null step certifies nothing
     certif_primal_infeasible = jnp.logical_and(certif_primal_infeasible, criterion > 0)
+    # neither does a step towards an infinite bound
+    certif_inf = tree_map(lambda dyi, li, ui: jnp.all(jnp.logical_and(jnp.logical_or(li != -jnp.inf, dyi >= -criterion),
+                                                                      jnp.logical_or(ui != jnp.inf, dyi <= criterion))),
+                          delta_y, l, u)
+    certif_primal_infeasible = tree_reduce(jnp.logical_and, certif_inf, certif_primal_infeasible)
 
     if int(self.verbose) >= 2:
       jax.debug.print("certif_A: {certif_A}, certif_lu: {certif_lu}, criterion: {criterion}",
-- 
2.43.0


From bad2957423699604c53f2d04c7fa654ac77b98a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:24 +0000
Subject: [PATCH 26/26] fix: ZoomLineSearch counted a gradient evaluation for
 the value-only evaluation of aux at initialisation

---
 jaxopt/_src/zoom_linesearch.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/jaxopt/_src/zoom_linesearch.py b/jaxopt/_src/zoom_linesearch.py
index 96b790c..dba3223 100644
--- a/jaxopt/_src/zoom_linesearch.py
+++ b/jaxopt/_src/zoom_linesearch.py
@@ -684,7 +684,6 @@ class ZoomLineSearch(base.IterativeLineSearch):
     if aux is None and self.has_aux:
       _, aux = self._fun_with_aux(params, *fun_args, **fun_kwargs)
       num_fun_eval += 1
-      num_grad_eval += 1
 
     if descent_direction is None:
       descent_direction = tree_scalar_mul(-1.0, tree_conj(grad))
-- 
2.43.0

