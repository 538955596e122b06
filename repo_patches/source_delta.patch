From a6ad66003700a6d4276831fef97ee882a6e2c14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 01/88] fix: TransitionChoice keeps the option selected by
 standardized data

Converting the index back and forth through the value selected the first
option able to hold the value, so that an option which is a parameter could
shadow all the following ones.
---
 nevergrad/parametrization/choice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/choice.py b/nevergrad/parametrization/choice.py
index d735e48..b63f8d7 100644
--- a/nevergrad/parametrization/choice.py
+++ b/nevergrad/parametrization/choice.py
@@ -214,7 +214,7 @@ class TransitionChoice(BaseChoice):
         ref = reference if self._ref is None else self._ref
         super()._internal_set_standardized_data(data, ref)  # type: ignore
         # force to bin
-        super()._layered_set_value(super()._layered_get_value())
+        self.indices.value = self.indices.value
 
     def _internal_get_standardized_data(self: T, reference: T) -> np.ndarray:
         ref = reference if self._ref is None else self._ref
-- 
2.43.0


From 78818dfe836256885444ecc1d0e9a5b5610e5daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:03 +0000
Subject: [PATCH 02/88] fix: mutate unordered TransitionChoice with parameter
 options or transitions

It passed data for the indices only to a method expecting data for the
whole container, and failed whenever the options were parameters; options
selected are now mutated as documented.
---
 nevergrad/parametrization/choice.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/choice.py b/nevergrad/parametrization/choice.py
index b63f8d7..b9c9ad9 100644
--- a/nevergrad/parametrization/choice.py
+++ b/nevergrad/parametrization/choice.py
@@ -227,7 +227,12 @@ class TransitionChoice(BaseChoice):
     def mutate(self) -> None:
         if self._ref is not None:
             new = self.random_state.normal(size=self.indices.value.size)
-            self._internal_set_standardized_data(new, self._ref)
+            self.indices.set_standardized_data(new, reference=self._ref.indices)
+            # force to bin
+            self.indices.value = self.indices.value
+            # mutate corresponding parameter
+            for ind in set(self.indices.value):
+                self.choices[ind].mutate()
             return
         # force random_state sync
         self.random_state  # pylint: disable=pointless-statement
-- 
2.43.0


From f9ec5a4e28f28f3bd73526f81d50a3a55d92f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:45 +0000
Subject: [PATCH 03/88] fix: bounds reached by arctan, tanh and gaussian
 transforms

Rounding errors let values exceed the bounds by one ulp, the inverse of a
bound of the arctan transform could be the opposite bound, and the one of
tanh was infinite (leading to nan after recombination).
---
 nevergrad/parametrization/transforms.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/nevergrad/parametrization/transforms.py b/nevergrad/parametrization/transforms.py
index 388d8c0..5bc3d01 100644
--- a/nevergrad/parametrization/transforms.py
+++ b/nevergrad/parametrization/transforms.py
@@ -168,7 +168,7 @@ class TanhBound(BoundTransform):
 
     def forward(self, x: np.ndarray) -> np.ndarray:
         self._check_shape(x)
-        return self._b + self._a * np.tanh(x)  # type: ignore
+        return np.clip(self._b + self._a * np.tanh(x), self.a_min, self.a_max)  # type: ignore
 
     def backward(self, y: np.ndarray) -> np.ndarray:
         self._check_shape(y)
@@ -177,7 +177,10 @@ class TanhBound(BoundTransform):
                 f"Only data between {self.a_min} and {self.a_max} "
                 "can be transformed back (bounds lead to infinity)."
             )
-        return np.arctanh((y - self._b) / self._a)  # type: ignore
+        # make up for rounding errors at the bounds, and avoid infinity (tanh(20) == 1)
+        with np.errstate(divide="ignore"):
+            out = np.arctanh(np.clip((y - self._b) / self._a, -1, 1))
+        return np.clip(out, -20, 20)  # type: ignore
 
 
 class Clipping(BoundTransform):
@@ -243,13 +246,14 @@ class ArctanBound(BoundTransform):
 
     def forward(self, x: np.ndarray) -> np.ndarray:
         self._check_shape(x)
-        return self._b + self._a * np.arctan(x)  # type: ignore
+        return np.clip(self._b + self._a * np.arctan(x), self.a_min, self.a_max)  # type: ignore
 
     def backward(self, y: np.ndarray) -> np.ndarray:
         self._check_shape(y)
         if (y > self.a_max).any() or (y < self.a_min).any():
             raise ValueError(f"Only data between {self.a_min} and {self.a_max} can be transformed back.")
-        return np.tan((y - self._b) / self._a)  # type: ignore
+        # make up for rounding errors: tan changes sign if pi / 2 is exceeded
+        return np.tan(np.clip((y - self._b) / self._a, -np.pi / 2, np.pi / 2))  # type: ignore
 
 
 class CumulativeDensity(BoundTransform):
@@ -294,7 +298,8 @@ class CumulativeDensity(BoundTransform):
             self._back = stats.cauchy.ppf
 
     def forward(self, x: np.ndarray) -> np.ndarray:
-        return self._a * self._forw(x / self._scale) + self._b  # type: ignore
+        out = self._a * self._forw(x / self._scale) + self._b
+        return np.clip(out, self.a_min, self.a_max)  # type: ignore
 
     def backward(self, y: np.ndarray) -> np.ndarray:
         if (y > self.a_max).any() or (y < self.a_min).any():
-- 
2.43.0


From 4dbc759eb6a7174ad28a88c76a512a59d2dd0537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 04/88] fix: integer casting reaches large integer bounds

Adding 0.5 - 1e-12 to bounds above 2**14 loses the epsilon, and rounding then
excluded odd bounds (or included the integer after them).
---
 nevergrad/parametrization/_layering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nevergrad/parametrization/_layering.py b/nevergrad/parametrization/_layering.py
index 9922201..57b8d74 100644
--- a/nevergrad/parametrization/_layering.py
+++ b/nevergrad/parametrization/_layering.py
@@ -277,9 +277,9 @@ class Int(Layered, Filterable):
         # make sure rounding does not reach beyond the bounds
         eps = 1e-12
         if bounds[0] is not None:
-            out = np.maximum(_to_int(bounds[0] + 0.5 - eps), out)
+            out = np.maximum(_to_int(np.ceil(bounds[0] - eps)), out)
         if bounds[1] is not None:
-            out = np.minimum(_to_int(bounds[1] - 0.5 + eps), out)
+            out = np.minimum(_to_int(np.floor(bounds[1] + eps)), out)
         # return out
         self._cache = out
         return self._cache
-- 
2.43.0


From 087ca88e6304e9203270989028accd68c6d2ad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:14 +0000
Subject: [PATCH 05/88] fix: stochastic integer casting does not alter the
 underlying data

Each read of the value moved the data of the parameter in place.
---
 nevergrad/parametrization/_layering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/_layering.py b/nevergrad/parametrization/_layering.py
index 57b8d74..d279273 100644
--- a/nevergrad/parametrization/_layering.py
+++ b/nevergrad/parametrization/_layering.py
@@ -272,7 +272,7 @@ class Int(Layered, Filterable):
         bounds = self._layers[0].bounds  # type: ignore
         out = super()._layered_get_value()
         if not self.deterministic:
-            out += self.random_state.rand(*out.shape) - 0.5
+            out = out + self.random_state.rand(*out.shape) - 0.5  # do not update the data inplace
         out = np.round(out).astype(np.int64)
         # make sure rounding does not reach beyond the bounds
         eps = 1e-12
-- 
2.43.0


From 4aed0ca18997a376f3ceb1db778f5fcbe64e5502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:09 +0000
Subject: [PATCH 06/88] fix: values of bounded logarithmic parameters can be
 assigned back

The value of a Log at one of its bounds could be rejected as out of bounds
because of the rounding errors of the exponent.
---
 nevergrad/parametrization/transforms.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/nevergrad/parametrization/transforms.py b/nevergrad/parametrization/transforms.py
index 5bc3d01..1f4b7c3 100644
--- a/nevergrad/parametrization/transforms.py
+++ b/nevergrad/parametrization/transforms.py
@@ -147,6 +147,14 @@ class BoundTransform(Transform):  # pylint: disable=abstract-method
             if dims[0] != dims[1] and not any(x == 1 for x in dims):  # same or broadcastable
                 raise ValueError(f"Shapes do not match: {self.shape} and {x.shape}")
 
+    def _clip_rounding(self, y: np.ndarray) -> np.ndarray:
+        """Moves the data onto the bounds if it is out of them because of rounding errors only
+        (for instance after an exponent), so that a value of the range is not rejected.
+        """
+        clipped = np.clip(y, self.a_min, self.a_max)
+        close = np.abs(clipped - y) <= 1e-12 * np.maximum(1.0, np.abs(clipped))
+        return np.where(close, clipped, y)  # type: ignore
+
 
 class TanhBound(BoundTransform):
     """Bounds all real values into [a_min, a_max] using a tanh transform.
@@ -172,6 +180,7 @@ class TanhBound(BoundTransform):
 
     def backward(self, y: np.ndarray) -> np.ndarray:
         self._check_shape(y)
+        y = self._clip_rounding(y)
         if (y > self.a_max).any() or (y < self.a_min).any():
             raise ValueError(
                 f"Only data between {self.a_min} and {self.a_max} "
@@ -219,6 +228,8 @@ class Clipping(BoundTransform):
 
     def backward(self, y: np.ndarray) -> np.ndarray:
         self._check_shape(y)
+        if not self.checker(y):
+            y = self._clip_rounding(y)
         if not self.checker(y):
             raise ValueError(
                 f"Only data between {self.a_min} and {self.a_max} can be transformed back.\n" f"Got: {y}"
@@ -250,6 +261,7 @@ class ArctanBound(BoundTransform):
 
     def backward(self, y: np.ndarray) -> np.ndarray:
         self._check_shape(y)
+        y = self._clip_rounding(y)
         if (y > self.a_max).any() or (y < self.a_min).any():
             raise ValueError(f"Only data between {self.a_min} and {self.a_max} can be transformed back.")
         # make up for rounding errors: tan changes sign if pi / 2 is exceeded
@@ -302,6 +314,7 @@ class CumulativeDensity(BoundTransform):
         return np.clip(out, self.a_min, self.a_max)  # type: ignore
 
     def backward(self, y: np.ndarray) -> np.ndarray:
+        y = self._clip_rounding(y)
         if (y > self.a_max).any() or (y < self.a_min).any():
             raise ValueError(
                 f"Only data between {self.a_min} and {self.a_max} can be transformed back.\nGot: {y}"
-- 
2.43.0


From b6ba78e8b75e5abfa9475b1ed50847ae9d786d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:21 +0000
Subject: [PATCH 07/88] fix: bounds of parameters after decreasing operations

Multiplying a bounded parameter by a negative number (or any other decreasing
operation) swapped its bounds, so that integer casting returned one of the
bounds whatever the data.
---
 nevergrad/parametrization/_datalayers.py | 30 ++++++++++++++++++++++++
 nevergrad/parametrization/data.py        |  2 +-
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/_datalayers.py b/nevergrad/parametrization/_datalayers.py
index 3f60a7a..1222038 100644
--- a/nevergrad/parametrization/_datalayers.py
+++ b/nevergrad/parametrization/_datalayers.py
@@ -177,6 +177,22 @@ class ForwardableOperation(Operation):
     def backward(self, value: tp.Any) -> tp.Any:
         raise NotImplementedError
 
+    def _is_decreasing(self) -> tp.Any:
+        """Whether the operation is decreasing (boolean or boolean array)"""
+        return False
+
+    def forward_bounds(self, lower: tp.Any, upper: tp.Any) -> tp.Tuple[tp.Any, tp.Any]:
+        """Bounds of the output, given the bounds of the input (None if unbounded, or unknown)"""
+        lower, upper = (None if b is None else self.forward(b) for b in (lower, upper))
+        decreasing = self._is_decreasing()
+        if not np.any(decreasing):
+            return lower, upper
+        if np.all(decreasing):
+            return upper, lower
+        if lower is None or upper is None:
+            return None, None
+        return np.minimum(lower, upper), np.maximum(lower, upper)
+
 
 class Exponent(ForwardableOperation):
     """Applies an array as exponent of a float"""
@@ -194,6 +210,9 @@ class Exponent(ForwardableOperation):
     def backward(self, value: tp.Any) -> tp.Any:
         return np.log(value) / np.log(self._base)
 
+    def _is_decreasing(self) -> tp.Any:
+        return self._base < 1
+
 
 class Power(ForwardableOperation):
     """Applies a float as exponent of a Data parameter"""
@@ -208,6 +227,14 @@ class Power(ForwardableOperation):
     def backward(self, value: tp.Any) -> tp.Any:
         return value ** (1.0 / self._power)
 
+    def _is_decreasing(self) -> tp.Any:
+        return self._power < 0
+
+    def forward_bounds(self, lower: tp.Any, upper: tp.Any) -> tp.Tuple[tp.Any, tp.Any]:
+        if lower is None or np.any(lower < 0) or (self._power < 0 and np.any(lower == 0)):
+            return None, None  # not monotonous
+        return super().forward_bounds(lower, upper)
+
 
 class Add(ForwardableOperation):
     """Applies an array as exponent of a floar"""
@@ -237,6 +264,9 @@ class Multiply(ForwardableOperation):
     def backward(self, value: tp.Any) -> tp.Any:
         return value / self._mult
 
+    def _is_decreasing(self) -> tp.Any:
+        return np.asarray(self._mult) < 0
+
 
 class Bound(BoundLayer):
     def __init__(
diff --git a/nevergrad/parametrization/data.py b/nevergrad/parametrization/data.py
index 901d9ff..1b7c912 100644
--- a/nevergrad/parametrization/data.py
+++ b/nevergrad/parametrization/data.py
@@ -131,7 +131,7 @@ class Data(core.Parameter):
         forwardable = _datalayers.ForwardableOperation.filter_from(self)
         forwardable = [x for x in forwardable if x._layer_index > bound_layers[-1]._layer_index]
         for f in forwardable:
-            bounds = tuple(None if b is None else f.forward(b) for b in bounds)  # type: ignore
+            bounds = f.forward_bounds(*bounds)
         return bounds
 
     @property
-- 
2.43.0


From ae9c19a7dba8a03050b6ab3646a676b11db3a386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:39 +0000
Subject: [PATCH 08/88] fix: finite weight when setting the value of a Choice
 with a unique option

The weight was log(-0.0) = -inf, hence infinite standardized data.
---
 nevergrad/parametrization/discretization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/parametrization/discretization.py b/nevergrad/parametrization/discretization.py
index e071c56..c3d6c17 100644
--- a/nevergrad/parametrization/discretization.py
+++ b/nevergrad/parametrization/discretization.py
@@ -64,6 +64,8 @@ def noisy_inverse_threshold_discretization(
 
 def weight_for_reset(arity: int) -> float:
     """p is an arbitrary probability that the provided arg will be sampled with the returned point"""
+    if arity < 2:
+        return 0.0  # a unique option is always drawn
     p = (1 / arity) * 1.5
     w = float(np.log((p * (arity - 1)) / (1 - p)))
     return w
-- 
2.43.0


From 4e63b1b2c26a553feed6dfc666803edd5154c0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:35 +0000
Subject: [PATCH 09/88] fix: told candidates of tabu optimizers update the
 archive

---
 nevergrad/optimization/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index fb411bf..1486b6c 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -394,7 +394,8 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
             callback(self, candidate, loss)
         no_update = False
 
-        if not candidate.satisfies_constraints(self.parametrization) and self.budget is not None:
+        # (the tabu list only applies to asked points: this candidate is in the list since it was asked)
+        if not candidate.satisfies_constraints(no_tabu=True) and self.budget is not None:
             penalty = self._constraints_manager.penalty(candidate, self.num_ask, self.budget)
             no_update = True
             loss = loss + penalty
-- 
2.43.0


From ccb7c1e711621d188542ce2730d100781bb3fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:16 +0000
Subject: [PATCH 10/88] fix: constraints of sub-parameters in the constraint
 solver

---
 nevergrad/optimization/base.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index 1486b6c..a5387c3 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -860,17 +860,32 @@ class ConfiguredOptimizer:
         return False
 
 
+def _list_with_subparameters(parameter: p.Parameter) -> tp.List[p.Parameter]:
+    """Lists a parameter and all its subparameters (which may hold their own constraints)"""
+    parameters = [parameter]
+    for _, subparameter in parameter._subobjects.items():
+        parameters.extend(_list_with_subparameters(subparameter))
+    return parameters
+
+
 def _constraint_solver(parameter: p.Parameter, budget: int) -> p.Parameter:
     """Runs a suboptimization to solve the parameter constraints"""
+    checkers = [list(sub._constraint_checkers) for sub in _list_with_subparameters(parameter)]
     parameter_without_constraint = parameter.copy()
-    parameter_without_constraint._constraint_checkers.clear()
+    for sub in _list_with_subparameters(parameter_without_constraint):
+        if not isinstance(sub, p.Constant):  # constants are not copied
+            sub._constraint_checkers.clear()
     parameter_without_constraint.tabu_length = 0
     opt = registry["OnePlusOne"](parameter_without_constraint, num_workers=1, budget=budget)
     for _ in range(budget):
         cand = opt.ask()
         # Our objective function is minimum for the point the closest to
         # the original candidate under the constraints.
-        penalty = sum(utils._float_penalty(func(cand.value)) for func in parameter._constraint_checkers)
+        penalty = sum(
+            utils._float_penalty(func(sub.value))
+            for sub, funcs in zip(_list_with_subparameters(cand), checkers)
+            for func in funcs
+        )
 
         # TODO: this may not scale well with dimension
         distance = np.tanh(np.sum(cand.get_standardized_data(reference=parameter) ** 2))
-- 
2.43.0


From 6c33bfac5e321a185435968bdfaf524b6e809205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:48 +0000
Subject: [PATCH 11/88] fix: Constraint operator with optimizers recommending
 points which were not evaluated

---
 nevergrad/ops/constraints.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nevergrad/ops/constraints.py b/nevergrad/ops/constraints.py
index fe79c27..ada9e05 100644
--- a/nevergrad/ops/constraints.py
+++ b/nevergrad/ops/constraints.py
@@ -50,7 +50,7 @@ class Constraint(core.Operator):
         early_stopping = callbacks.EarlyStopping(self.stopping_criterion)
         optim.register_callback("ask", early_stopping)
         optim.minimize(self.function)
-        return optim.pareto_front()[0]
+        return self._best(optim)
 
     def function(self, *args: tp.Any, **kwargs: tp.Any) -> tp.Loss:
         out = self._func(*args, **kwargs)
@@ -74,8 +74,14 @@ class Constraint(core.Operator):
         """
         if optimizer.num_tell < 1:
             return False
-        best = optimizer.pareto_front()[0]
-        return not np.any(best.losses > 0)
+        return not np.any(self._best(optimizer).losses > 0)
+
+    @staticmethod
+    def _best(optimizer: tp.Any) -> core.Parameter:
+        """Best evaluated point (as opposed to the recommendation, which may not have been evaluated)"""
+        if optimizer.num_objectives > 1:
+            return optimizer.pareto_front()[0]  # type: ignore
+        return optimizer.current_bests["minimum"].parameter  # type: ignore
 
     def _layered_get_value(self) -> tp.Any:
         # TODO: this can be made more efficient (fewer copy) if need be.
-- 
2.43.0


From 392858acfc2a49210649cc4cac3f73e17390ebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:10 +0000
Subject: [PATCH 12/88] fix: hypervolume of the points within the upper bounds
 only

---
 nevergrad/optimization/multiobjective/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/multiobjective/core.py b/nevergrad/optimization/multiobjective/core.py
index b9deb06..a20c115 100644
--- a/nevergrad/optimization/multiobjective/core.py
+++ b/nevergrad/optimization/multiobjective/core.py
@@ -129,7 +129,9 @@ class HypervolumePareto:
         if self._hypervolume is None:
             self._hypervolume = HypervolumeIndicator(self._upper_bounds)
             self._pf._hypervolume = self._hypervolume
-        new_volume = self._hypervolume.compute([pa.losses for pa in self._pf.get_raw()] + [losses])
+        # (points over the upper bounds have no volume)
+        inside = [pa.losses for pa in self._pf.get_raw() if (pa.losses <= self._upper_bounds).all()]
+        new_volume = self._hypervolume.compute(inside + [losses])
         if new_volume > self._best_volume:
             # This point is good! Let us give him a great mono-fitness value.
             self._best_volume = new_volume
-- 
2.43.0


From 95caed16c8f03fab4bd68d5c01343c96fb93c5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:54 +0000
Subject: [PATCH 13/88] fix: non-dominated points without additional
 hypervolume are on the Pareto front

---
 nevergrad/optimization/multiobjective/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nevergrad/optimization/multiobjective/core.py b/nevergrad/optimization/multiobjective/core.py
index a20c115..2b53589 100644
--- a/nevergrad/optimization/multiobjective/core.py
+++ b/nevergrad/optimization/multiobjective/core.py
@@ -148,6 +148,10 @@ class HypervolumePareto:
                 if (stored_losses <= losses).all():
                     distance_to_pareto = min(distance_to_pareto, min(losses - stored_losses))
             assert distance_to_pareto >= 0
+            if np.isinf(distance_to_pareto) and (losses <= self._upper_bounds).all():  # (excludes nans)
+                # non-dominated but without additional volume (e.g. on the upper bounds)
+                self._pf.add_to_pareto(parameter)
+                return -new_volume
             return 0.0 if self._no_hypervolume else -new_volume + distance_to_pareto
 
     def pareto_front(
-- 
2.43.0


From 6460d746ee237e3de704dd8404bfa911c33943c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:32 +0000
Subject: [PATCH 14/88] fix: mutations of arrays clear the cached value of
 integer layers

---
 nevergrad/parametrization/mutation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nevergrad/parametrization/mutation.py b/nevergrad/parametrization/mutation.py
index a62f3c1..6848d42 100644
--- a/nevergrad/parametrization/mutation.py
+++ b/nevergrad/parametrization/mutation.py
@@ -232,6 +232,7 @@ class Translation(DataMutation):
     def _layered_mutate(self) -> None:
         root = self.root()
         root._value = self._apply_array([root._value])
+        del root.value  # clear cache
 
     def _apply_array(self, arrays: tp.Sequence[np.ndarray]) -> np.ndarray:
         assert len(arrays) == 1
@@ -269,6 +270,7 @@ class Jumping(DataMutation):
     def _layered_mutate(self) -> None:
         root = self.root()
         root._value = self._apply_array([root._value])
+        del root.value  # clear cache
 
     def _apply_array(self, arrays: tp.Sequence[np.ndarray]) -> np.ndarray:
         assert len(arrays) == 1
@@ -308,6 +310,7 @@ class LocalGaussian(DataMutation):
         shape = data[tuple(slices)].shape
         data[tuple(slices)] += self.random_state.normal(0, 1, size=shape)
         root._internal_set_standardized_data(data.ravel(), reference=root)
+        del root.value  # clear cache
 
 
 def rolling_mean(vector: np.ndarray, window: int) -> np.ndarray:
-- 
2.43.0


From e7729c7a24b2ed4d1b79e07c81eb03a232805691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:26 +0000
Subject: [PATCH 15/88] fix: Normalizer forward transform of multidimensional
 arrays

---
 nevergrad/parametrization/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/helpers.py b/nevergrad/parametrization/helpers.py
index 3142edf..32afbad 100644
--- a/nevergrad/parametrization/helpers.py
+++ b/nevergrad/parametrization/helpers.py
@@ -232,7 +232,7 @@ class Normalizer:
                 array = ref.spawn_child()
                 if forward:
                     array.set_standardized_data(x[start:end])
-                    x[start:end] = array._layers[layer_index].get_normalized_value()[:]  # type: ignore
+                    x[start:end] = array._layers[layer_index].get_normalized_value().ravel()  # type: ignore
 
                 else:
                     normalized = x[start:end].reshape(ref._value.shape)
-- 
2.43.0


From 123398a9053f3f5c73171b4d0689152db4798ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:52 +0000
Subject: [PATCH 16/88] fix: coordinatewise mutation at the limits of the
 discretization range asked infinite points

---
 nevergrad/parametrization/discretization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/discretization.py b/nevergrad/parametrization/discretization.py
index c3d6c17..1937bae 100644
--- a/nevergrad/parametrization/discretization.py
+++ b/nevergrad/parametrization/discretization.py
@@ -46,7 +46,8 @@ def inverse_threshold_discretization(indexes: tp.List[int], arity: int = 2) -> n
     pdf_bin_size = 1 / arity
     # We take the center of each bin (in the pdf space)
     x = scipy.stats.norm.ppf(indexes_arr * pdf_bin_size + (pdf_bin_size / 2))  # type: ignore
-    nan_indices = np.where(np.isnan(x))
+    # out of range (nan) and at the exact limits of the range (infinity)
+    nan_indices = np.where(np.logical_not(np.isfinite(x)))
     x[nan_indices] = np.sign(indexes_arr[nan_indices] - (arity / 2.0)) * np.finfo(np.dtype("float")).max
     return x
 
-- 
2.43.0


From cd3ead4fd3243e6233d630688fea30cb31fe0519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:52 +0000
Subject: [PATCH 17/88] fix: EMNA with a budget below 4 had no parent (division
 by zero)

---
 nevergrad/optimization/optimizerlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 28797d7..937a0a6 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -3668,7 +3668,7 @@ class _EMNA(base.Optimizer):
             self.popsize.llambda = max(self.popsize.llambda, num_workers)
             if budget is not None and self.popsize.llambda > budget:
                 self.popsize.llambda = budget
-                self.popsize.mu = self.popsize.llambda // 4
+                self.popsize.mu = max(1, self.popsize.llambda // 4)
                 warnings.warn(
                     "Budget may be too small in front of the dimension for EMNA",
                     errors.InefficientSettingsWarning,
-- 
2.43.0


From 366a0cac88d5cddecd6a5dc3733ae2293dc1215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:52 +0000
Subject: [PATCH 18/88] fix: parallel anisotropic EMNA with population size
 adaptation

---
 nevergrad/optimization/optimizerlib.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 937a0a6..bbba330 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -3723,13 +3723,11 @@ class _EMNA(base.Optimizer):
                 if (
                     self.popsize.llambda < self.min_coef_parallel_context * self.dimension
                 ):  # Population size not large enough for emna
-                    self.sigma = np.exp(
-                        np.sum(
-                            np.log([c._meta["sigma"] for c in self.parents]),
-                            axis=0 if self.isotropic else None,  # type: ignore
-                        )
-                        / self.popsize.mu
-                    )
+                    log_sigmas = [np.log(c._meta["sigma"]) for c in self.parents]
+                    if not self.isotropic:
+                        # summed individually, because the initial sigmas are arrays and the next ones are not
+                        log_sigmas = [np.sum(s) for s in log_sigmas]
+                    self.sigma = np.exp(np.sum(log_sigmas, axis=0) / self.popsize.mu)  # type: ignore
                 else:
                     stdd = [
                         (
-- 
2.43.0


From 2a373501bb9294b30d4126d9cd217cb97cfd706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:52 +0000
Subject: [PATCH 19/88] fix: DiscreteDoerrOnePlusOne in dimension 1

---
 nevergrad/optimization/optimizerlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index bbba330..3a7fba9 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -242,7 +242,7 @@ class _OnePlusOne(base.Optimizer):
             self._doerr_mutation_rewards = [0.0, 0.0]
             self._doerr_counters = [0.0, 0.0]
             self._doerr_epsilon = 0.25  # self.dimension ** (-0.01)
-            self._doerr_gamma = 1 - 2 / self.dimension
+            self._doerr_gamma = max(0.0, 1 - 2 / self.dimension)
             self._doerr_current_best = float("inf")
             i = 3
             j = 2
-- 
2.43.0


From e5055eeffcaa10ab0f2a95b3bc33a9bbf9f691a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:52 +0000
Subject: [PATCH 20/88] fix: rotated crossover in dimension 1

---
 nevergrad/optimization/mutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/mutations.py b/nevergrad/optimization/mutations.py
index df7a21f..7134a15 100644
--- a/nevergrad/optimization/mutations.py
+++ b/nevergrad/optimization/mutations.py
@@ -131,7 +131,7 @@ class Mutator:
     ) -> tp.ArrayLike:
         if rotation:
             dim = len(parent)
-            k = self.random_state.randint(1, dim)
+            k = self.random_state.randint(1, max(2, dim))
             mix = [self.random_state.choice([donor[(i + k) % dim], parent[i]]) for i in range(len(parent))]
         else:
             if crossover_type == "rand":
-- 
2.43.0


From 525aeba448b6411b6925f5f91919f6b7f7eec66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:52 +0000
Subject: [PATCH 21/88] fix: automatic rescaling of one-shot optimizers in
 dimension 1 asked infinite or nan points

---
 nevergrad/optimization/oneshot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/oneshot.py b/nevergrad/optimization/oneshot.py
index f42c5e6..0e23444 100644
--- a/nevergrad/optimization/oneshot.py
+++ b/nevergrad/optimization/oneshot.py
@@ -164,7 +164,7 @@ class _RandomSearch(OneShotOptimizer):
         if isinstance(scale, str) and scale == "auto":
             # Some variants use a rescaling depending on the budget and the dimension (1st version).
             assert self.budget is not None
-            scale = (1 + np.log(self.budget)) / (4 * np.log(self.dimension))
+            scale = (1 + np.log(self.budget)) / (4 * np.log(max(2, self.dimension)))
         if isinstance(scale, str) and scale == "autotune":
             assert self.budget is not None
             scale = np.sqrt(np.log(self.budget) / self.dimension)
@@ -327,7 +327,7 @@ class _SamplingSearch(OneShotOptimizer):
             sample = self._rescaler.apply(sample)
         if self.autorescale is True or self.autorescale == "auto":
             assert self.budget is not None
-            self.scale = (1 + np.log(self.budget)) / (4 * np.log(self.dimension))
+            self.scale = (1 + np.log(self.budget)) / (4 * np.log(max(2, self.dimension)))
         if self.autorescale == "autotune":
             assert self.budget is not None
             self.scale = np.sqrt(np.log(self.budget) / self.dimension)
-- 
2.43.0


From 1418a5dbb6cd52cce7e3c6be48504131b2d28762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:58 +0000
Subject: [PATCH 22/88] fix: declare the sequential optimizers MultiDS, BAR4,
 DS9 and MetaModelDSproba (deadlock or error in parallel)

---
 nevergrad/optimization/optimizerlib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 3a7fba9..a13dd88 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -2110,6 +2110,7 @@ MultiCMA = ConfPortfolio(
 MultiDS = ConfPortfolio(optimizers=[DSproba for _ in range(3)], warmup_ratio=0.1).set_name(
     "MultiDS", register=True
 )
+MultiDS.no_parallelization = True
 TripleCMA = ConfPortfolio(
     optimizers=[ParametrizedCMA(random_init=True) for _ in range(3)], warmup_ratio=0.33
 ).set_name("TripleCMA", register=True)
@@ -2291,6 +2292,7 @@ ImageMetaModelDiagonalCMA = ParametrizedMetaModel(
 MetaModelDSproba = ParametrizedMetaModel(multivariate_optimizer=DSproba).set_name(
     "MetaModelDSproba", register=True
 )
+MetaModelDSproba.no_parallelization = True
 RFMetaModelOnePlusOne = ParametrizedMetaModel(multivariate_optimizer=OnePlusOne, algorithm="rf").set_name(
     "RFMetaModelOnePlusOne", register=True
 )
@@ -3503,6 +3505,7 @@ DS9 = Chaining(
 Carola9.no_parallelization = True
 Carola8.no_parallelization = True
 DS8.no_parallelization = True
+DS9.no_parallelization = True
 Carola10 = Chaining([Cobyla, CmaFmin2, RBFGS], ["tenth", "most"]).set_name("Carola10", register=True)
 Carola10.no_parallelization = True
 
@@ -3567,6 +3570,7 @@ ChainNaiveTBPSACMAPowell = Chaining([NaiveTBPSA, MetaCMA, Powell], ["third", "th
 )
 ChainNaiveTBPSACMAPowell.no_parallelization = True
 BAR4 = ConfPortfolio(optimizers=[ChainMetaModelSQP, QNDE], warmup_ratio=0.5).set_name("BAR4", register=True)
+BAR4.no_parallelization = True
 
 
 @registry.register
-- 
2.43.0


From 0f73cbc14dc4d45af5a07bec797383f91185f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:58 +0000
Subject: [PATCH 23/88] fix: rescaling a sample with a unique point asked nan
 points

---
 nevergrad/optimization/sequences.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/sequences.py b/nevergrad/optimization/sequences.py
index fb0592d..d065f6a 100644
--- a/nevergrad/optimization/sequences.py
+++ b/nevergrad/optimization/sequences.py
@@ -217,5 +217,7 @@ class Rescaler:
 
     def apply(self, point: tp.ArrayLike) -> np.ndarray:
         point = np.asarray(point)
-        factor = (1 - 2 * self.epsilon) / (self.sample_maxs - self.sample_mins)
-        return self.epsilon + factor * (point - self.sample_mins)  # type: ignore
+        width = self.sample_maxs - self.sample_mins
+        # coordinates without any width cannot be rescaled (eg: unique point)
+        factor = (1 - 2 * self.epsilon) / np.where(width > 0, width, 1.0)
+        return np.where(width > 0, self.epsilon + factor * (point - self.sample_mins), point)  # type: ignore
-- 
2.43.0


From be7651c6aede52aafecef5d1352edb589a8ce30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:58 +0000
Subject: [PATCH 24/88] fix: HyperOpt with unbounded scalars in the
 instrumentation

---
 nevergrad/optimization/externalbo.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/externalbo.py b/nevergrad/optimization/externalbo.py
index 934b1f2..2dca90a 100644
--- a/nevergrad/optimization/externalbo.py
+++ b/nevergrad/optimization/externalbo.py
@@ -58,10 +58,8 @@ def _get_search_space(param_name, param):
         return space
 
     elif isinstance(param, (p.Log, p.Scalar)):
-        if (param.bounds[0][0] is None) or (param.bounds[1][0] is None):
-            if isinstance(param, p.Scalar) and not param.integer:
-                return hp.lognormal(label=param_name, mu=0, sigma=1)
-            raise ValueError(f"Scalar {param_name} not bounded.")
+        if (param.bounds[0] is None) or (param.bounds[1] is None):
+            raise NotImplementedError  # use the standardized space for unbounded scalars
         elif isinstance(param, p.Log):
             return hp.loguniform(
                 label=param_name, low=np.log(param.bounds[0][0]), high=np.log(param.bounds[1][0])
-- 
2.43.0


From 2e2f48bce5f27cc9ebd9ff9d85bb6240a869b4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:58 +0000
Subject: [PATCH 25/88] fix: default scale of Rescaled optimizers with a budget
 of 1

---
 nevergrad/optimization/optimizerlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index a13dd88..a504b10 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -1630,7 +1630,7 @@ class _Rescaled(base.Optimizer):
         self._subcandidates: tp.Dict[str, p.Parameter] = {}
         if scale is None:
             assert self.budget is not None, "Either scale or budget must be known in _Rescaled."
-            scale = math.sqrt(math.log(self.budget) / self.dimension)
+            scale = math.sqrt(math.log(max(2, self.budget)) / self.dimension)
         self.scale = scale
         self.shift = shift
         assert self.scale != 0.0, "scale should be non-zero in Rescaler."
-- 
2.43.0


From 5740104dac8e0178babd4056104c404327813bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:58 +0000
Subject: [PATCH 26/88] fix: tabu search on nested values (unhashable or
 truncated arrays)

---
 nevergrad/parametrization/core.py  |  6 +-----
 nevergrad/parametrization/utils.py | 11 +++++++++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/nevergrad/parametrization/core.py b/nevergrad/parametrization/core.py
index a010eac..dfeae2c 100644
--- a/nevergrad/parametrization/core.py
+++ b/nevergrad/parametrization/core.py
@@ -292,11 +292,7 @@ class Parameter(Layered):
         val = self.value
         if not no_tabu and ref is not None and ref.tabu_length > 0 and self.tabu_fails < 30:
             tabu_val = self.tabu_congruence(val)
-            if isinstance(tabu_val, np.ndarray):
-                tabu_val = hash(tabu_val.tobytes())
-            if isinstance(tabu_val, dict):
-                keys = sorted(list(tabu_val.keys()))
-                tabu_val = str(keys) + str([tabu_val[k] for k in keys])
+            tabu_val = utils.as_hashable(tabu_val)
             try:
                 if tabu_val in ref.tabu_set:
                     self.tabu_fails += 1
diff --git a/nevergrad/parametrization/utils.py b/nevergrad/parametrization/utils.py
index 27afa71..f494559 100644
--- a/nevergrad/parametrization/utils.py
+++ b/nevergrad/parametrization/utils.py
@@ -266,6 +266,17 @@ class Subobjects(tp.Generic[X]):
         return outputs
 
 
+def as_hashable(value: tp.Any) -> tp.Any:
+    """Hashable equivalent of a (possibly nested) value: equal values provide equal outputs"""
+    if isinstance(value, np.ndarray):
+        return (value.shape, hash(value.tobytes()))
+    if isinstance(value, dict):
+        return tuple((k, as_hashable(value[k])) for k in sorted(value, key=str))
+    if isinstance(value, (list, tuple)):
+        return tuple(as_hashable(v) for v in value)
+    return value
+
+
 def float_penalty(x: tp.Union[bool, float]) -> float:
     """Unifies penalties as float (bool=False becomes 1).
     The value is positive for unsatisfied penality else 0.
-- 
2.43.0


From 4673ede9ec6c0de0a66d704bb942f1ed3fbdc860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:18 +0000
Subject: [PATCH 27/88] fix: losses provided as singletons are processed as
 scalars (integers raised, huge and nan values were not clipped)

---
 nevergrad/optimization/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index a5387c3..cf4651b 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -334,6 +334,8 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
         will use this suggestion.
         """
         # Check loss type
+        if isinstance(loss, (tuple, list, np.ndarray)) and np.size(loss) == 1:
+            loss = float(np.asarray(loss, dtype=float).ravel()[0])  # single objective
         if isinstance(loss, (Real, float)) or (isinstance(loss, np.ndarray) and not loss.shape):
             # using "float" along "Real" because mypy does not understand "Real" for now Issue #3186
             loss = float(loss)
@@ -346,7 +348,7 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
                 )
                 loss = 5.0e20  # sys.float_info.max leads to numerical problems so let us do this.
         elif isinstance(loss, (tuple, list, np.ndarray)):
-            loss = np.asarray(loss, dtype=float).ravel() if len(loss) != 1 else loss[0]
+            loss = np.asarray(loss, dtype=float).ravel()
         elif not isinstance(loss, np.ndarray):
             raise TypeError(
                 f'"tell" method only supports float values but the passed loss was: {loss} (type: {type(loss)}.'
-- 
2.43.0


From b7b8d93c07df923b128043b035eed3c629b5444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:18 +0000
Subject: [PATCH 28/88] fix: minimize never ended when more points than the
 budget were already asked

---
 nevergrad/optimization/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index cf4651b..df6f6a0 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -683,7 +683,7 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
         tmp_finished: tp.Deque[tp.Tuple[p.Parameter, tp.JobLike[tp.Loss]]] = deque()
         # go
         sleeper = ngtools.Sleeper()  # manages waiting time depending on execution time of the jobs
-        remaining_budget = self.budget - self.num_ask
+        remaining_budget = max(0, self.budget - self.num_ask)
         first_iteration = True
         #
         t0 = time.time()
@@ -733,7 +733,7 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
                 if new_sugg:
                     sleeper.start_timer()
             if remaining_budget > 0:  # early stopping sets it to 0
-                remaining_budget = self.budget - self.num_ask
+                remaining_budget = max(0, self.budget - self.num_ask)
             # split (repopulate finished and runnings in only one loop to avoid
             # weird effects if job finishes in between two list comprehensions)
             tmp_runnings, tmp_finished = [], deque()
-- 
2.43.0


From 81902cb5298c28b66d95564a5bdfbbbbc723eb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:48 +0000
Subject: [PATCH 29/88] fix: CMA in dimension 1 switched all other instances of
 the same configuration to fcmaes

---
 nevergrad/optimization/optimizerlib.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index a504b10..b31ab45 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -733,6 +733,8 @@ class _CMA(base.Optimizer):
         super().__init__(parametrization, budget=budget, num_workers=num_workers)
         self.algorithm = algorithm
         self._config = ParametrizedCMA() if config is None else config
+        # pycma does not support dimension 1 (the config may be shared with other instances: it must not be modified)
+        self._fcmaes = self._config.fcmaes or self.dimension == 1
         pop = self._config.popsize
         self._popsize = (
             max(num_workers, 4 + int(self._config.popsize_factor * np.log(self.dimension)))
@@ -752,12 +754,10 @@ class _CMA(base.Optimizer):
     @property
     def es(self) -> tp.Any:  # typing not possible since cmaes not imported :(
         scale_multiplier = 1.0
-        if self.dimension == 1:
-            self._config.fcmaes = True
         if p.helpers.Normalizer(self.parametrization).fully_bounded:
             scale_multiplier = 0.3 if self.dimension < 18 else 0.15
-        if self._es is None or (not self._config.fcmaes and self._es.stop()):
-            if not self._config.fcmaes:
+        if self._es is None or (not self._fcmaes and self._es.stop()):
+            if not self._fcmaes:
                 import cma  # import inline in order to avoid matplotlib initialization warning
 
                 inopts = dict(
@@ -811,7 +811,7 @@ class _CMA(base.Optimizer):
         if len(self._to_be_told) >= self.es.popsize:
             listx = [c._meta[self._CACHE_KEY] for c in self._to_be_told]
             listy = [c.loss for c in self._to_be_told]
-            args = (listy, listx) if self._config.fcmaes else (listx, listy)
+            args = (listy, listx) if self._fcmaes else (listx, listy)
             try:
                 self.es.tell(*args)
             except (RuntimeError, AssertionError):
@@ -835,7 +835,7 @@ class _CMA(base.Optimizer):
                 pass
         if self._es is None:
             return pessimistic
-        cma_best: tp.Optional[np.ndarray] = self.es.best_x if self._config.fcmaes else self.es.result.xbest
+        cma_best: tp.Optional[np.ndarray] = self.es.best_x if self._fcmaes else self.es.result.xbest
         if cma_best is None:
             return pessimistic
         return cma_best
-- 
2.43.0


From 1048d353646ef254fa780ab1096bfef526e0e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:09 +0000
Subject: [PATCH 30/88] fix: portfolios deadlocked when asking a sequential
 optimizer before its previous tell

---
 nevergrad/optimization/optimizerlib.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index b31ab45..f36efae 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -2051,6 +2051,12 @@ class Portfolio(base.Optimizer):
             self._current += 1
             # optim_index = self._current % len(self.optims)
             optim_index = self.turns[self._current % len(self.turns)]
+            # sequential optimizers cannot be asked before they are told about their previous point
+            for _ in self.turns:
+                if not (self.optims[optim_index].no_parallelization and self.optims[optim_index]._asked):
+                    break
+                self._current += 1
+                optim_index = self.turns[self._current % len(self.turns)]
             assert optim_index < len(
                 self.optims
             ), f"{optim_index}, {self.turns}, {len(self.optims)} {self.num_times} {self.str_info} {self.optims}"
-- 
2.43.0


From 827170296fa75f043795df3c1bd015649888b157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:25 +0000
Subject: [PATCH 31/88] fix: VoronoiDE in dimension 1

---
 nevergrad/optimization/differentialevolution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index 1324edc..42018a2 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -83,7 +83,10 @@ class Crossover:
         shape = self.shape
         if shape is None or len(shape) < 2:
             warnings.warn("Voronoi DE needs a shape.")
-            self.twopoints(donor, individual)
+            if donor.size == 1:
+                self.variablewise(donor, individual)  # two points cannot be drawn
+            else:
+                self.twopoints(donor, individual)
             return
         local_donor = donor.reshape(shape)
         local_individual = individual.reshape(shape)
-- 
2.43.0


From 95d17b1de59da4ad55b48cc18dbefe4893371a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:31 +0000
Subject: [PATCH 32/88] fix: coordinatewise mutation overflowed to infinity
 when scaled by sigma

---
 nevergrad/parametrization/discretization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nevergrad/parametrization/discretization.py b/nevergrad/parametrization/discretization.py
index 1937bae..8ce87ba 100644
--- a/nevergrad/parametrization/discretization.py
+++ b/nevergrad/parametrization/discretization.py
@@ -46,9 +46,11 @@ def inverse_threshold_discretization(indexes: tp.List[int], arity: int = 2) -> n
     pdf_bin_size = 1 / arity
     # We take the center of each bin (in the pdf space)
     x = scipy.stats.norm.ppf(indexes_arr * pdf_bin_size + (pdf_bin_size / 2))  # type: ignore
-    # out of range (nan) and at the exact limits of the range (infinity)
+    # out of range (nan) and at the exact limits of the range (infinity): large enough to fall in the last bins
+    # but small enough to avoid overflows (to infinity) when the data is scaled by sigma
+    limit = np.sqrt(np.finfo(np.dtype("float")).max)
     nan_indices = np.where(np.logical_not(np.isfinite(x)))
-    x[nan_indices] = np.sign(indexes_arr[nan_indices] - (arity / 2.0)) * np.finfo(np.dtype("float")).max
+    x[nan_indices] = np.sign(indexes_arr[nan_indices] - (arity / 2.0)) * limit
     return x
 
 
-- 
2.43.0


From 26ed8e16083f54fc5f68f821d5453838a5fdcbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:13 +0000
Subject: [PATCH 33/88] fix: Carola3 turns refer to its own optimizers

---
 nevergrad/optimization/optimizerlib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index f36efae..891ec54 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -3533,6 +3533,9 @@ class Carola3(Portfolio):
             opt.initial_guess = self._rng.normal(0, 1, self.dimension)  # type: ignore
         self.optims.clear()
         self.optims.extend(optims)
+        # the turns must refer to the new optimizers
+        self.turns = [0] * cma_workers + list(range(1, len(optims)))
+        self.num_times = [0] * len(optims)
 
 
 BAR = ConfPortfolio(optimizers=[OnePlusOne, DiagonalCMA, OpoDE], warmup_ratio=0.5).set_name(
-- 
2.43.0


From 52d388ce89af32813cea68b7b2655de1d854917e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:39 +0000
Subject: [PATCH 34/88] fix: high speed CMA recommendation with pending or
 repeated points

---
 nevergrad/optimization/optimizerlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 891ec54..d5ecbe1 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -825,7 +825,7 @@ class _CMA(base.Optimizer):
             reference=self.parametrization
         )
         d = self.dimension
-        n = self.num_ask
+        n = len(self.archive)  # may be less than num_ask (pending or repeated points)
         sample_size = int(d * d / 2 + d / 2 + 3)
         if self._config.high_speed and n >= sample_size:
             try:
-- 
2.43.0


From 01326443b2a1a02419b8a26faa15afc99090b150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:48 +0000
Subject: [PATCH 35/88] fix: HyperOpt with a repeated choice in the
 instrumentation

---
 nevergrad/optimization/externalbo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/optimization/externalbo.py b/nevergrad/optimization/externalbo.py
index 2dca90a..374a0df 100644
--- a/nevergrad/optimization/externalbo.py
+++ b/nevergrad/optimization/externalbo.py
@@ -71,6 +71,8 @@ def _get_search_space(param_name, param):
                 return hp.uniform(label=param_name, low=param.bounds[0][0], high=param.bounds[1][0])
 
     elif isinstance(param, p.Choice):
+        if param._repetitions is not None:
+            raise NotImplementedError  # use the standardized space
         list_types = [
             type(param.choices[i])
             for i in range(len(param.choices))
-- 
2.43.0


From 2871ff106d58f245d219d111cd7870b5bda84c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:04 +0000
Subject: [PATCH 36/88] fix: HyperOpt never asked the upper bound of integer
 scalars

---
 nevergrad/optimization/externalbo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/externalbo.py b/nevergrad/optimization/externalbo.py
index 374a0df..880bdff 100644
--- a/nevergrad/optimization/externalbo.py
+++ b/nevergrad/optimization/externalbo.py
@@ -66,7 +66,9 @@ def _get_search_space(param_name, param):
             )
         elif isinstance(param, p.Scalar):
             if param.integer:
-                return hp.randint(label=param_name, low=int(param.bounds[0][0]), high=int(param.bounds[1][0]))
+                # the upper bound is excluded by hyperopt
+                low, high = (int(b[0]) for b in param.bounds)
+                return hp.randint(label=param_name, low=low, high=high + 1)
             else:
                 return hp.uniform(label=param_name, low=param.bounds[0][0], high=param.bounds[1][0])
 
-- 
2.43.0


From 2e0e1886096c036b950d3988dc4b36c5bae54976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:54 +0000
Subject: [PATCH 37/88] fix: voronoi crossover draws from the parametrization
 random state

---
 nevergrad/optimization/differentialevolution.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index 42018a2..dec52bf 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -90,10 +90,10 @@ class Crossover:
             return
         local_donor = donor.reshape(shape)
         local_individual = individual.reshape(shape)
-        x1 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
-        x2 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
-        x3 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
-        x4 = np.array([np.random.randint(shape[i]) for i in range(len(shape))])
+        x1 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
+        x2 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
+        x3 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
+        x4 = np.array([self.random_state.randint(shape[i]) for i in range(len(shape))])
         it = np.nditer(local_donor, flags=["multi_index"])
         for _ in it:
             d1 = np.linalg.norm(np.array(it.multi_index) - x1)
-- 
2.43.0


From 0c2ad2ca8177b9e6aa51ad48ef166b30a2e2caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:54 +0000
Subject: [PATCH 38/88] fix: lognormal mutations, smoothing and rescalings draw
 from the parametrization random state

---
 nevergrad/optimization/optimizerlib.py | 62 +++++++++++++-------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index d5ecbe1..978a5f0 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -75,11 +75,11 @@ def smooth_copy(array: p.Array, possible_radii: tp.Optional[tp.List[int]] = None
     except Exception as e:
         assert False, f"{e} in smooth_copy, {radii}, {np.prod(radii)}"
     # DE style operator.
-    invfreq = 4 if len(possible_radii) == 1 else max(4, np.random.randint(max(4, len(array.value.flatten()))))
+    invfreq = 4 if len(possible_radii) == 1 else max(4, array.random_state.randint(max(4, len(array.value.flatten()))))
     indices = array.random_state.randint(invfreq, size=value.shape) == 0
     while np.sum(indices) == 0 and len(possible_radii) > 1:
         invfreq = (
-            4 if len(possible_radii) == 1 else max(4, np.random.randint(max(4, len(array.value.flatten()))))
+            4 if len(possible_radii) == 1 else max(4, array.random_state.randint(max(4, len(array.value.flatten()))))
         )
         indices = array.random_state.randint(invfreq, size=value.shape) == 0
     value[indices] = value2[indices]
@@ -280,7 +280,7 @@ class _OnePlusOne(base.Optimizer):
             and self._num_ask % max(self.num_workers + 1, self.antismooth) == 0
             and isinstance(self.parametrization, p.Array)
         ):
-            possible_radii = [3] if not self.super_radii else [3, 3 + np.random.randint(int(np.sqrt(np.sqrt(self.dimension))))]  # type: ignore
+            possible_radii = [3] if not self.super_radii else [3, 3 + self._rng.randint(int(np.sqrt(np.sqrt(self.dimension))))]  # type: ignore
             self.suggest(smooth_copy(pessimistic, possible_radii=possible_radii).value)  # type: ignore
         if self.num_objectives > 1 and self.use_pareto:  # multiobjective
             # revert to using a sample of the pareto front (not "pessimistic" though)
@@ -329,7 +329,7 @@ class _OnePlusOne(base.Optimizer):
                 mutation_rate = max(0.1 / self.dimension, self._global_mr)
                 assert mutation_rate > 0.0
                 individual_mutation_rate = 1.0 / (
-                    1.0 + (((1.0 - mutation_rate) / mutation_rate) * np.exp(0.22 * np.random.randn()))
+                    1.0 + (((1.0 - mutation_rate) / mutation_rate) * np.exp(0.22 * self._rng.randn()))
                 )
                 # print(f"pd={pessimistic_data}_imr={individual_mutation_rate}, d={self.dimension}, arity={self.arity_for_discrete_mutation}")
                 data = mutator.portfolio_discrete_mutation(
@@ -1638,7 +1638,7 @@ class _Rescaled(base.Optimizer):
     def rescale_candidate(self, candidate: p.Parameter, inverse: bool = False) -> p.Parameter:
         data = candidate.get_standardized_data(reference=self.parametrization)
         if self.shift is not None:
-            data = data + self.shift * np.random.randn(self.dimension)
+            data = data + self.shift * self._rng.randn(self.dimension)
         scale = self.scale if not inverse else 1.0 / self.scale
         return self.parametrization.spawn_child().set_standardized_data(scale * data)
 
@@ -2372,8 +2372,8 @@ RFMetaModelTwoPointsDE = ParametrizedMetaModel(algorithm="rf", multivariate_opti
 )
 
 
-def rescaled(n: int, o: tp.Any):
-    return Rescaled(base_optimizer=o, scale=1.0 / np.exp(np.log(n) * np.random.rand()))  # type: ignore
+def rescaled(n: int, o: tp.Any, rng: np.random.RandomState):
+    return Rescaled(base_optimizer=o, scale=1.0 / np.exp(np.log(n) * rng.rand()))  # type: ignore
 
 
 @registry.register
@@ -2386,7 +2386,7 @@ class MultiBFGSPlus(Portfolio):
         super().__init__(parametrization, budget=budget, num_workers=num_workers)
         optims: tp.List[base.Optimizer] = []
         optims += [
-            rescaled(num_workers, BFGS)(self.parametrization, num_workers=1) for _ in range(num_workers)
+            rescaled(num_workers, BFGS, self._rng)(self.parametrization, num_workers=1) for _ in range(num_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
             opt.initial_guess = self._rng.normal(0, 1, self.dimension)  # type: ignore
@@ -2407,7 +2407,7 @@ class LogMultiBFGSPlus(Portfolio):
             num_workers = int(max(num_workers, 1 + np.log(budget)))
         optims: tp.List[base.Optimizer] = []
         optims += [
-            rescaled(num_workers, BFGS)(self.parametrization, num_workers=1) for _ in range(num_workers)
+            rescaled(num_workers, BFGS, self._rng)(self.parametrization, num_workers=1) for _ in range(num_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
             opt.initial_guess = self._rng.normal(0, 1, self.dimension)  # type: ignore
@@ -2428,7 +2428,7 @@ class SqrtMultiBFGSPlus(Portfolio):
             num_workers = int(max(num_workers, 1 + np.sqrt(budget)))
         optims: tp.List[base.Optimizer] = []
         optims += [
-            rescaled(num_workers, BFGS)(self.parametrization, num_workers=1) for _ in range(num_workers)
+            rescaled(num_workers, BFGS, self._rng)(self.parametrization, num_workers=1) for _ in range(num_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
             opt.initial_guess = self._rng.normal(0, 1, self.dimension)  # type: ignore
@@ -2445,7 +2445,7 @@ class MultiCobylaPlus(Portfolio):
         super().__init__(parametrization, budget=budget, num_workers=num_workers)
         optims: tp.List[base.Optimizer] = []
         optims += [
-            rescaled(num_workers, Cobyla)(self.parametrization, num_workers=1) for _ in range(num_workers)
+            rescaled(num_workers, Cobyla, self._rng)(self.parametrization, num_workers=1) for _ in range(num_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
             opt.initial_guess = self._rng.normal(0, 1, self.dimension)  # type: ignore
@@ -2464,7 +2464,7 @@ class MultiSQPPlus(Portfolio):
         super().__init__(parametrization, budget=budget, num_workers=num_workers)
         optims: tp.List[base.Optimizer] = []
         optims += [
-            rescaled(num_workers, SQP)(self.parametrization, num_workers=1) for _ in range(num_workers)
+            rescaled(num_workers, SQP, self._rng)(self.parametrization, num_workers=1) for _ in range(num_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
             opt.initial_guess = self._rng.normal(0, 1, self.dimension)  # type: ignore
@@ -2486,7 +2486,7 @@ class BFGSCMAPlus(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            rescaled(num_workers, BFGS)(self.parametrization, num_workers=1)
+            rescaled(num_workers, BFGS, self._rng)(self.parametrization, num_workers=1)
             for _ in range(num_workers - cma_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
@@ -2511,7 +2511,7 @@ class LogBFGSCMAPlus(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            rescaled(num_workers, BFGS)(self.parametrization, num_workers=1)
+            rescaled(num_workers, BFGS, self._rng)(self.parametrization, num_workers=1)
             for _ in range(num_workers - cma_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
@@ -2536,7 +2536,7 @@ class SqrtBFGSCMAPlus(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            rescaled(num_workers, BFGS)(self.parametrization, num_workers=1)
+            rescaled(num_workers, BFGS, self._rng)(self.parametrization, num_workers=1)
             for _ in range(num_workers - cma_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
@@ -2559,7 +2559,7 @@ class SQPCMAPlus(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            rescaled(num_workers, SQP)(self.parametrization, num_workers=1)
+            rescaled(num_workers, SQP, self._rng)(self.parametrization, num_workers=1)
             for _ in range(num_workers - cma_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
@@ -2584,7 +2584,7 @@ class LogSQPCMAPlus(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            rescaled(num_workers, SQP)(self.parametrization, num_workers=1)
+            rescaled(num_workers, SQP, self._rng)(self.parametrization, num_workers=1)
             for _ in range(num_workers - cma_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
@@ -2609,7 +2609,7 @@ class SqrtSQPCMAPlus(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            rescaled(num_workers, SQP)(self.parametrization, num_workers=1)
+            rescaled(num_workers, SQP, self._rng)(self.parametrization, num_workers=1)
             for _ in range(num_workers - cma_workers)
         ]
         for opt in optims[2:]:  # make sure initializations differ
@@ -2910,7 +2910,7 @@ class F3SQPCMA(Portfolio):
             MetaCMA(self.parametrization, budget=budget, num_workers=cma_workers)
         ]
         optims += [
-            Rescaled(base_optimizer=SQP, scale=max(0.01, np.exp(-1.0 / np.random.rand())))(
+            Rescaled(base_optimizer=SQP, scale=max(0.01, np.exp(-1.0 / self._rng.rand())))(
                 self.parametrization, num_workers=1
             )
             for _ in range(num_workers - cma_workers)
@@ -5811,7 +5811,7 @@ class NgIoh14(NgIoh11):
                 optimizers += [
                     Rescaled(
                         base_optimizer=NgIoh11._select_optimizer_cls(self),
-                        scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                        scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                     )
                 ]
                 if len(optimizers) < num:
@@ -5827,7 +5827,7 @@ class NgIoh14(NgIoh11):
                     optimizers += [
                         Rescaled(
                             base_optimizer=NgIoh11._select_optimizer_cls(self),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                 return ConfPortfolio(optimizers=optimizers, warmup_ratio=0.70, no_crossing=True)
@@ -5934,7 +5934,7 @@ class NgIoh13(NgIoh11):
                 optimizers += [
                     Rescaled(
                         base_optimizer=NgIoh11._select_optimizer_cls(self),
-                        scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                        scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                     )
                 ]
                 if len(optimizers) < num:
@@ -5950,7 +5950,7 @@ class NgIoh13(NgIoh11):
                     optimizers += [
                         Rescaled(
                             base_optimizer=NgIoh11._select_optimizer_cls(self),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                 return ConfPortfolio(optimizers=optimizers, warmup_ratio=1.00, no_crossing=True)
@@ -6058,7 +6058,7 @@ class NgIoh15(NgIoh11):
                     optimizers += [
                         Rescaled(
                             base_optimizer=NgIoh11._select_optimizer_cls(self),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                     # optimizers += [NgIoh11]
@@ -6166,7 +6166,7 @@ class NgIoh12(NgIoh11):
                     optimizers += [
                         Rescaled(
                             base_optimizer=NgIoh11._select_optimizer_cls(self),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                     # optimizers += [NgIoh11]
@@ -6277,7 +6277,7 @@ class NgIoh16(NgIoh11):
                         Rescaled(
                             base_optimizer=Carola14,
                             # base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                 # print("NgIoh16 chooses ", optimizers)
@@ -6389,7 +6389,7 @@ class NgIoh17(NgIoh11):
                         Rescaled(
                             # base_optimizer=Carola2,
                             base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                            scale=max(0.01, np.exp(-1.0 / np.random.rand())),
+                            scale=max(0.01, np.exp(-1.0 / self._rng.rand())),
                         )
                     ]
                     # optimizers += [NgIoh11]
@@ -7038,7 +7038,7 @@ class NgIoh18(NgIoh11):
                             Rescaled(
                                 # base_optimizer=Carola2,
                                 base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                                scale=np.random.rand() * 2.0,
+                                scale=self._rng.rand() * 2.0,
                             )
                         ]
                         if k % 3 == 2
@@ -7047,7 +7047,7 @@ class NgIoh18(NgIoh11):
                                 Rescaled(
                                     # base_optimizer=Carola2,
                                     base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                                    shift=np.random.randn(),
+                                    shift=self._rng.randn(),
                                 )
                             ]
                             if k % 3 == 0
@@ -7055,8 +7055,8 @@ class NgIoh18(NgIoh11):
                                 Rescaled(
                                     # base_optimizer=Carola2,
                                     base_optimizer=NgIoh11._select_optimizer_cls(self, sub_budget),
-                                    scale=np.random.rand() * 2.0,
-                                    shift=np.random.randn(),
+                                    scale=self._rng.rand() * 2.0,
+                                    shift=self._rng.randn(),
                                 )
                             ]
                         )
-- 
2.43.0


From 6c4c8e3ecb0941d567afb95218617c33262c177e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:54 +0000
Subject: [PATCH 39/88] fix: recast CMA initializations draw from the
 parametrization random state

---
 nevergrad/optimization/recastlib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/recastlib.py b/nevergrad/optimization/recastlib.py
index efedefa..59c2f56 100644
--- a/nevergrad/optimization/recastlib.py
+++ b/nevergrad/optimization/recastlib.py
@@ -452,9 +452,9 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                     )
                     x0 = (
                         0.5
-                        + np.random.uniform() * np.random.uniform(low=-0.5, high=0.5, size=weakself.dimension)
+                        + weakself._rng.uniform() * weakself._rng.uniform(low=-0.5, high=0.5, size=weakself.dimension)
                         if weakself._normalizer is not None and weakself._normalizer.fully_bounded
-                        else np.random.randn(weakself.dimension)
+                        else weakself._rng.randn(weakself.dimension)
                     )
                     if res[1] < best_res:
                         best_res = res[1]
@@ -620,12 +620,12 @@ class _PymooMinimizeBase(recaster.SequentialRecastOptimizer):
         if weakself.algorithm == "CMAES":
             from pymoo.algorithms.soo.nonconvex.cmaes import CMAES
 
-            algorithm = CMAES(x0=np.random.random(problem.n_var), maxfevals=weakself.budget)
+            algorithm = CMAES(x0=weakself._rng.random_sample(problem.n_var), maxfevals=weakself.budget)
         elif weakself.algorithm == "BIPOP":
             from pymoo.algorithms.soo.nonconvex.cmaes import CMAES
 
             algorithm = CMAES(
-                x0=np.random.random(problem.n_var),
+                x0=weakself._rng.random_sample(problem.n_var),
                 sigma=0.5,
                 restarts=2,
                 maxfevals=weakself.budget,
-- 
2.43.0


From f121902a6988f387e3174bd2a772833722de4fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:51 +0000
Subject: [PATCH 40/88] fix: cma and stochastic nlopt methods are seeded by the
 parametrization random state

---
 nevergrad/optimization/recastlib.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/recastlib.py b/nevergrad/optimization/recastlib.py
index 59c2f56..9c8515f 100644
--- a/nevergrad/optimization/recastlib.py
+++ b/nevergrad/optimization/recastlib.py
@@ -77,6 +77,8 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
             #            if normalizer.fully_bounded or method == "AX" or "pysot" == method or "SMAC" in method:
             #                self._normalizer = normalizer
             self._normalizer = normalizer
+        # seed of the stochastic libraries, stored so that a replay is identical
+        self._initial_seed = -1
 
     def _internal_tell_not_asked(self, candidate: p.Parameter, loss: tp.Loss) -> None:
         """Called whenever calling "tell" on a candidate that was not "asked".
@@ -84,6 +86,8 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
         """  # We do not do anything; this just updates the current best.
 
     def get_optimization_function(self) -> tp.Callable[[tp.Callable[[tp.ArrayLike], float]], tp.ArrayLike]:
+        if self._initial_seed == -1 and any(x in self.method for x in ["CmaFmin2", "NLOPT_G", "PRAXIS"]):
+            self._initial_seed = self._rng.randint(1, 2**30)
         return functools.partial(self._optimization_function, weakref.proxy(self))
 
     @staticmethod
@@ -177,6 +181,8 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                     getattr(nlopt, weakself.method[6:]) if len(weakself.method) > 5 else nlopt.LN_SBPLX
                 )
                 opt = nlopt.opt(nlopt_param, weakself.dimension)
+                if weakself._initial_seed != -1:  # stochastic methods are otherwise seeded with the time
+                    nlopt.srand(weakself._initial_seed)
                 # Assign the objective function calculator
                 opt.set_min_objective(nlopt_objective_function)
                 # Set the bounds.
@@ -438,8 +444,10 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                     else np.zeros(weakself.dimension)
                 )
                 num_calls = 0
+                rng = np.random.RandomState(weakself._initial_seed)
                 while budget - num_calls > 0:
                     options = {"maxfevals": budget - num_calls, "verbose": -9}
+                    options["seed"] = rng.randint(1, 2**30)  # cma is otherwise seeded with the time
                     if weakself._normalizer is not None and weakself._normalizer.fully_bounded:
                         # Tell CMA to work in [0, 1].
                         options["bounds"] = [0.0, 1.0]
@@ -452,9 +460,9 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                     )
                     x0 = (
                         0.5
-                        + weakself._rng.uniform() * weakself._rng.uniform(low=-0.5, high=0.5, size=weakself.dimension)
+                        + rng.uniform() * rng.uniform(low=-0.5, high=0.5, size=weakself.dimension)
                         if weakself._normalizer is not None and weakself._normalizer.fully_bounded
-                        else weakself._rng.randn(weakself.dimension)
+                        else rng.randn(weakself.dimension)
                     )
                     if res[1] < best_res:
                         best_res = res[1]
@@ -620,12 +628,15 @@ class _PymooMinimizeBase(recaster.SequentialRecastOptimizer):
         if weakself.algorithm == "CMAES":
             from pymoo.algorithms.soo.nonconvex.cmaes import CMAES
 
-            algorithm = CMAES(x0=weakself._rng.random_sample(problem.n_var), maxfevals=weakself.budget)
+            algorithm = CMAES(
+                x0=np.random.RandomState(weakself._initial_seed).random_sample(problem.n_var),
+                maxfevals=weakself.budget,
+            )
         elif weakself.algorithm == "BIPOP":
             from pymoo.algorithms.soo.nonconvex.cmaes import CMAES
 
             algorithm = CMAES(
-                x0=weakself._rng.random_sample(problem.n_var),
+                x0=np.random.RandomState(weakself._initial_seed).random_sample(problem.n_var),
                 sigma=0.5,
                 restarts=2,
                 maxfevals=weakself.budget,
-- 
2.43.0


From 2b31cb51e75265813dffe1b8255a75d137a4e69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:27 +0000
Subject: [PATCH 41/88] fix: minimize stopped before any evaluation returned a
 constant None instead of the recommendation

---
 nevergrad/optimization/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index df6f6a0..9e42775 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -741,7 +741,7 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
                 (tmp_finished if x_job[1].done() else tmp_runnings).append(x_job)
             self._running_jobs, self._finished_jobs = tmp_runnings, tmp_finished
             first_iteration = False
-        return self.provide_recommendation() if self.num_objectives == 1 else p.Constant(None)
+        return self.provide_recommendation() if self.num_objectives < 2 else p.Constant(None)
 
     def _info(self) -> tp.Dict[str, tp.Any]:
         """Easy access to debug/benchmark info"""
-- 
2.43.0


From dc5c887fb9b601886d680546b11882a459d76594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:17 +0000
Subject: [PATCH 42/88] fix: scipy and nlopt optimizers with enable_pickling
 could not be loaded after a tell

---
 nevergrad/optimization/recaster.py  | 4 ++++
 nevergrad/optimization/recastlib.py | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/nevergrad/optimization/recaster.py b/nevergrad/optimization/recaster.py
index aa0c07e..81d23eb 100644
--- a/nevergrad/optimization/recaster.py
+++ b/nevergrad/optimization/recaster.py
@@ -308,7 +308,9 @@ class SequentialRecastOptimizer(RecastOptimizer):
         # We temporarily unset _enable_pickling so that the replays do not
         # get archived again.
         self._enable_pickling = False
+        num_ask = self._num_ask
         for i, candidate in enumerate(self.replay_archive_tell):
+            self._num_ask = i  # the optimization function may depend on the remaining budget
             new_candidate = self._internal_ask_candidate()
             norm = np.linalg.norm(new_candidate.get_standardized_data(reference=candidate))
             # Check that the replay wants the same value as we had the first time.
@@ -316,7 +318,9 @@ class SequentialRecastOptimizer(RecastOptimizer):
             # check the reproducibility of your optimizer.
             if norm > 0.00001:
                 raise RuntimeError(f"Mismatch in replay at index {i} of {len(self.replay_archive_tell)}.")
+            self._num_ask = i + 1
             self._internal_tell_candidate(candidate, candidate.loss)
+        self._num_ask = num_ask
 
         if self.num_ask > self.num_tell:
             self._internal_ask_candidate()
diff --git a/nevergrad/optimization/recastlib.py b/nevergrad/optimization/recastlib.py
index 9c8515f..12c5c40 100644
--- a/nevergrad/optimization/recastlib.py
+++ b/nevergrad/optimization/recastlib.py
@@ -77,8 +77,9 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
             #            if normalizer.fully_bounded or method == "AX" or "pysot" == method or "SMAC" in method:
             #                self._normalizer = normalizer
             self._normalizer = normalizer
-        # seed of the stochastic libraries, stored so that a replay is identical
+        # seed of the stochastic libraries and starting point, stored so that a replay is identical
         self._initial_seed = -1
+        self._initial_x: tp.Optional[tp.ArrayLike] = None
 
     def _internal_tell_not_asked(self, candidate: p.Parameter, loss: tp.Loss) -> None:
         """Called whenever calling "tell" on a candidate that was not "asked".
@@ -88,6 +89,8 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
     def get_optimization_function(self) -> tp.Callable[[tp.Callable[[tp.ArrayLike], float]], tp.ArrayLike]:
         if self._initial_seed == -1 and any(x in self.method for x in ["CmaFmin2", "NLOPT_G", "PRAXIS"]):
             self._initial_seed = self._rng.randint(1, 2**30)
+        if self._initial_x is None:
+            self._initial_x = self.current_bests["average"].x
         return functools.partial(self._optimization_function, weakref.proxy(self))
 
     @staticmethod
@@ -97,7 +100,7 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
         # pylint:disable=unused-argument
         budget = np.inf if weakself.budget is None else weakself.budget
         best_res = np.inf
-        best_x: np.ndarray = weakself.current_bests["average"].x
+        best_x: np.ndarray = weakself._initial_x
         if weakself.initial_guess is not None:
             best_x = np.array(weakself.initial_guess, copy=True)  # copy, just to make sure it is not modified
 
-- 
2.43.0


From 3de835e06e503c1446b8a68e5733c896fc15d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:11 +0000
Subject: [PATCH 43/88] fix: multiple single runs replaced the loss of
 candidates

---
 nevergrad/optimization/optimizerlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 978a5f0..8df6cd7 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -5384,9 +5384,11 @@ class _MSR(Portfolio):
             self.coeffs = [
                 self.parametrization.random_state.uniform(size=self.num_objectives) for _ in self.optims
             ]
+        candidate_loss = candidate.loss
         for coeffs, opt in zip(self.coeffs, self.optims):
             this_loss = np.sum(loss * coeffs)
             opt.tell(candidate, this_loss)
+        candidate.loss = candidate_loss  # was replaced by the weighted loss
 
 
 class MultipleSingleRuns(base.ConfiguredOptimizer):
-- 
2.43.0


From 8e62f248565c07c7716b0a06cdc21e7a1e3d098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:11 +0000
Subject: [PATCH 44/88] fix: multiple single runs did not apply their weights
 to the objectives

---
 nevergrad/optimization/optimizerlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 8df6cd7..265b045 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -5385,8 +5385,9 @@ class _MSR(Portfolio):
                 self.parametrization.random_state.uniform(size=self.num_objectives) for _ in self.optims
             ]
         candidate_loss = candidate.loss
+        losses = loss if self.num_objectives == 1 else candidate.losses
         for coeffs, opt in zip(self.coeffs, self.optims):
-            this_loss = np.sum(loss * coeffs)
+            this_loss = np.sum(losses * coeffs)
             opt.tell(candidate, this_loss)
         candidate.loss = candidate_loss  # was replaced by the weighted loss
 
-- 
2.43.0


From 1c360eac504b3c61c343f1cb973c2faa0b678f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:36 +0000
Subject: [PATCH 45/88] fix: recast optimizers could wait forever for a thread
 which had sent its last message

---
 nevergrad/optimization/recaster.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/recaster.py b/nevergrad/optimization/recaster.py
index 81d23eb..fab5952 100644
--- a/nevergrad/optimization/recaster.py
+++ b/nevergrad/optimization/recaster.py
@@ -67,8 +67,8 @@ class _MessagingThread(threading.Thread):
         except StopOptimizerThread:  # gracefully stopping the thread
             self.messages_ask.put(ValueError("Optimization told to finish"))
         except Exception as e:  # pylint: disable=broad-except
-            self.messages_ask.put(e)
             self.error = e
+            self.messages_ask.put(e)
         else:
             self.messages_ask.put(None)
 
@@ -96,10 +96,19 @@ class MessagingThread:
 
     def __init__(self, caller: tp.Callable[..., tp.Any], *args: tp.Any, **kwargs: tp.Any) -> None:
         self._thread = _MessagingThread(caller, *args, **kwargs)
+        self._over = False  # the last message of the thread was received (the thread itself may end a bit later)
         self._thread.start()
 
     def is_alive(self) -> bool:
-        return self._thread.is_alive()
+        return not self._over and self._thread.is_alive()
+
+    def get_ask(self) -> tp.Any:
+        """Waits for the next message of the thread: a point or batch of points to evaluate,
+        None if it finished, or an exception
+        """
+        message = self._thread.messages_ask.get()
+        self._over = message is None or isinstance(message, Exception)
+        return message
 
     @property
     def output(self) -> tp.Any:
@@ -265,7 +274,7 @@ class SequentialRecastOptimizer(RecastOptimizer):
             self._messaging_thread = MessagingThread(self.get_optimization_function())
         alive = self._messaging_thread.is_alive()
         if alive:
-            point = self._messaging_thread.messages_ask.get()
+            point = self._messaging_thread.get_ask()
             if isinstance(point, Exception):
                 raise point
         if not alive or point is None:  # In case the algorithm stops before the budget is elapsed.
@@ -372,7 +381,7 @@ class BatchRecastOptimizer(RecastOptimizer):
         alive = self._messaging_thread.is_alive()
         # wait for a message
         if alive:
-            points = self._messaging_thread.messages_ask.get()
+            points = self._messaging_thread.get_ask()
             if isinstance(points, Exception):
                 raise points
         if not alive or points is None:  # In case the algorithm stops before the budget is elapsed.
-- 
2.43.0


From 443826918d2ad9f1bdb13eee8279c8b0c1ab3236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:35 +0000
Subject: [PATCH 46/88] fix: batch pymoo optimizers failed on several initial
 points asked before the first tell

---
 nevergrad/optimization/recastlib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/optimization/recastlib.py b/nevergrad/optimization/recastlib.py
index 12c5c40..4d7b070 100644
--- a/nevergrad/optimization/recastlib.py
+++ b/nevergrad/optimization/recastlib.py
@@ -800,6 +800,8 @@ class _PymooBatchMinimizeBase(recaster.BatchRecastOptimizer):
         """
         if self._messaging_thread is None:
             return  # dummy tell i.e. not activating pymoo until num_objectives is set
+        if self._messaging_thread.is_alive() and candidate.uid not in self.indices:
+            return  # dummy tell of another point which was asked before num_objectives was set
         super()._internal_tell_candidate(candidate, loss)
 
     def _post_loss(self, candidate: p.Parameter, loss: float) -> tp.Loss:
-- 
2.43.0


From 90d56402cd6a8f6bd971b7558c5e2bb130367e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:21 +0000
Subject: [PATCH 47/88] fix: violated constraints of sub-parameters were not
 penalized

---
 nevergrad/optimization/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/utils.py b/nevergrad/optimization/utils.py
index 72aade6..57f5cac 100644
--- a/nevergrad/optimization/utils.py
+++ b/nevergrad/optimization/utils.py
@@ -395,5 +395,10 @@ class ConstraintManager:
         """Computes the penalty associated with a Parameter, for constraint management"""
         budget = 1 if budget is None else budget
         coeff = self.penalty_factor * (self.penalty_exponent ** (num_ask / np.sqrt(budget)))
+        return coeff * self._violation(parameter)  # type: ignore
+
+    def _violation(self, parameter: p.Parameter) -> float:
+        """Sums the violations of the constraints of a Parameter and of its sub-parameters"""
         val = parameter.value
-        return coeff * sum(_float_penalty(func(val)) for func in parameter._constraint_checkers)  # type: ignore
+        violation = sum(_float_penalty(func(val)) for func in parameter._constraint_checkers)
+        return violation + sum(self._violation(sub) for _, sub in parameter._subobjects.items())
-- 
2.43.0


From d0b70ab031e8df030d1df0b57ba53fa25660133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:41 +0000
Subject: [PATCH 48/88] fix: infinite and nan constraint violations could give
 nan losses to the optimizers

---
 nevergrad/optimization/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index 9e42775..f872378 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -408,13 +408,15 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
             else:
                 a, b, c, d, e, f = (1e5, 1.0, 0.5, 1.0, 0.5, 1.0)
             ratio = 1 if self.budget is not None and self._num_tell > self.budget / 2.0 else 0.0
-            iviolation = np.sum(np.maximum(constraint_violation, 0.0))
-            if iviolation > 0.0:
+            cv = np.maximum(constraint_violation, 0.0)
+            # non-sense violations (including nan) are considered as very high, as for losses
+            cv = np.where(cv < 5.0e20, cv, 5.0e20)
+            if np.sum(cv) > 0.0:
                 no_update = True
             violation = float(
                 (a * ratio + np.sum(np.maximum(loss, 0.0)))
                 * ((f + self._num_tell) ** e)
-                * (b * np.sum(np.maximum(constraint_violation, 0.0) ** c) ** d)
+                * (b * np.sum(cv**c) ** d)
             )
             loss += violation
 
-- 
2.43.0


From be6c797f841af56a2869290ef27ec828dd1b12bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:37 +0000
Subject: [PATCH 49/88] fix: the order of the parameters logger was ignored

---
 nevergrad/optimization/callbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index e20a4d7..aa65d93 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -159,7 +159,7 @@ class ParametersLogger:
             data["#meta-sigma"] = candidate._meta["sigma"]  # for TBPSA-like algorithms
         if candidate.generation > 1:
             data["#parents_uids"] = candidate.parents_uids
-        for name, param in helpers.flatten(candidate, with_containers=False, order=1):
+        for name, param in helpers.flatten(candidate, with_containers=False, order=self._order):
             val = param.value
             if isinstance(val, (np.float64, np.int_, np.bool_)):
                 val = val.item()
-- 
2.43.0


From cd988cd361e7fa693da4d5ed951f0d2dc1cf0e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:37 +0000
Subject: [PATCH 50/88] fix: the interval between displays of the optimization
 printer and logger was ignored

---
 nevergrad/optimization/callbacks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/callbacks.py b/nevergrad/optimization/callbacks.py
index aa65d93..31831c7 100644
--- a/nevergrad/optimization/callbacks.py
+++ b/nevergrad/optimization/callbacks.py
@@ -37,11 +37,11 @@ class OptimizationPrinter:
         assert print_interval_seconds > 0
         self._print_interval_tells = int(print_interval_tells)
         self._print_interval_seconds = print_interval_seconds
-        self._next_tell = self._print_interval_tells
+        self._next_tell = 0  # the first call prints
         self._next_time = time.time() + print_interval_seconds
 
     def __call__(self, optimizer: base.Optimizer, *args: tp.Any, **kwargs: tp.Any) -> None:
-        if time.time() >= self._next_time or self._next_tell >= optimizer.num_tell:
+        if time.time() >= self._next_time or optimizer.num_tell >= self._next_tell:
             self._next_time = time.time() + self._print_interval_seconds
             self._next_tell = optimizer.num_tell + self._print_interval_tells
             x = optimizer.provide_recommendation()
@@ -78,11 +78,11 @@ class OptimizationLogger:
         self._log_level = log_level
         self._log_interval_tells = int(log_interval_tells)
         self._log_interval_seconds = log_interval_seconds
-        self._next_tell = self._log_interval_tells
+        self._next_tell = 0  # the first call logs
         self._next_time = time.time() + log_interval_seconds
 
     def __call__(self, optimizer: base.Optimizer, *args: tp.Any, **kwargs: tp.Any) -> None:
-        if time.time() >= self._next_time or self._next_tell >= optimizer.num_tell:
+        if time.time() >= self._next_time or optimizer.num_tell >= self._next_tell:
             self._next_time = time.time() + self._log_interval_seconds
             self._next_tell = optimizer.num_tell + self._log_interval_tells
             if optimizer.num_objectives == 1:
-- 
2.43.0


From c61e45dca6156d912593badbeb9b4addb5947eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:08 +0000
Subject: [PATCH 51/88] fix: discarding a missing element of an ordered set
 raised KeyError

---
 nevergrad/common/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/common/tools.py b/nevergrad/common/tools.py
index f83286e..e2621da 100644
--- a/nevergrad/common/tools.py
+++ b/nevergrad/common/tools.py
@@ -147,7 +147,7 @@ class OrderedSet(tp.MutableSet[X]):
         return key
 
     def discard(self, key: X) -> None:
-        del self._data[key]
+        self._data.pop(key, None)
 
     def __contains__(self, key: tp.Any) -> bool:
         return key in self._data
-- 
2.43.0


From 87c713383b864ab1ba27d10418b9616420a8879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:08 +0000
Subject: [PATCH 52/88] fix: set_env failed to restore the environment if a
 variable was removed in the context

---
 nevergrad/common/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/common/tools.py b/nevergrad/common/tools.py
index e2621da..6b91562 100644
--- a/nevergrad/common/tools.py
+++ b/nevergrad/common/tools.py
@@ -215,7 +215,7 @@ def set_env(**environ: tp.Any) -> tp.Generator[None, None, None]:
         yield
     finally:
         for k, val in old_environ.items():
-            os.environ.pop(k)
+            os.environ.pop(k, None)
             if val is not None:
                 os.environ[k] = val
 
-- 
2.43.0


From 9cd46d05b5c121a7d83f28f6df7059f3a85ae5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:08 +0000
Subject: [PATCH 53/88] fix: losses above 1e10 were replaced by 1e10 when a
 point was evaluated again

---
 nevergrad/optimization/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/utils.py b/nevergrad/optimization/utils.py
index 57f5cac..edf00b2 100644
--- a/nevergrad/optimization/utils.py
+++ b/nevergrad/optimization/utils.py
@@ -76,10 +76,10 @@ class MultiValue:
         y: float
             the new evaluation
         """
-        if y > 1e10:
-            y = 1e10
-        elif y < -1e10:
-            y = -1e10
+        if y > 5.0e20:  # same limit as in "tell"
+            y = 5.0e20
+        elif y < -5.0e20:
+            y = -5.0e20
         self._minimum = min(self._minimum, y)
         ratio = self.count / (self.count + 1)
         self.mean = ratio * self.mean + (y / float(self.count + 1))
-- 
2.43.0


From be166166e2b0ba4568b6106600e19a19bae485c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:43 +0000
Subject: [PATCH 54/88] fix: portfolios and chains mixed up the optimizers
 which asked for a point when nested

---
 nevergrad/optimization/optimizerlib.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 265b045..81f1700 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -2034,12 +2034,14 @@ class Portfolio(base.Optimizer):
         if not any(x is None for x in (cfg.warmup_ratio, budget)):
             self._warmup_budget = int(cfg.warmup_ratio * budget)  # type: ignore
         self.num_times = [0] * num
+        # sub-optimizer which asked for each point ("_meta" may be overwritten by another portfolio or chain)
+        self._asker_index: tp.Dict[str, int] = {}
 
     def _internal_ask_candidate(self) -> p.Parameter:
         # optimizer selection if budget is over
         if self._warmup_budget is not None:
             if len(self.optims) > 1 and self._warmup_budget < self.num_tell:
-                ind = self.current_bests["pessimistic"].parameter._meta.get("optim_index", -1)
+                ind = self._asker_index.get(self.current_bests["pessimistic"].parameter.uid, -1)
                 if ind >= 0 and ind < len(self.optims):  # not a tell not asked
                     if self.num_workers == 1 or self.optims[ind].num_workers > 1:
                         self.optims = [self.optims[ind]]  # throw away everything else
@@ -2081,14 +2083,15 @@ class Portfolio(base.Optimizer):
             # (hacky suggestion to avoid calling args and kwargs)
         candidate = opt.ask()
         candidate._meta["optim_index"] = optim_index
+        self._asker_index[candidate.uid] = optim_index
         return candidate
 
     def _internal_tell_candidate(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
         # Telling all optimizers is presumably better than just
         # self.optims[optim_index].tell(candidate, value)
         accepted = 0
-        if self.no_crossing and len(self.optims) > candidate._meta["optim_index"]:
-            self.optims[candidate._meta["optim_index"]].tell(candidate, loss)
+        if self.no_crossing and len(self.optims) > self._asker_index.get(candidate.uid, len(self.optims)):
+            self.optims[self._asker_index[candidate.uid]].tell(candidate, loss)
             return
         for opt in self.optims:
             try:
@@ -3371,6 +3374,8 @@ class _Chain(base.Optimizer):
             optimizers = [LHSSearch, DE]
         super().__init__(parametrization, budget=budget, num_workers=num_workers)
         self.no_crossing = no_crossing
+        # sub-optimizer which asked for each point ("_meta" may be overwritten by another portfolio or chain)
+        self._asker_index: tp.Dict[str, int] = {}
         # delayed initialization
         # Either we have the budget for each algorithm, or the last algorithm uses the rest of the budget, so:
         self.optimizers: tp.List[base.Optimizer] = []
@@ -3416,18 +3421,17 @@ class _Chain(base.Optimizer):
 
         candidate = opt.ask()
         candidate._meta["optim_index"] = chosen_index
+        self._asker_index[candidate.uid] = chosen_index
         return candidate
 
     def _internal_tell_candidate(self, candidate: p.Parameter, loss: tp.FloatLoss) -> None:
         # Let us inform all concerned algorithms
         sum_budget = 0.0
+        asker_index = self._asker_index.pop(candidate.uid, None)
         for k, opt in enumerate(self.optimizers):
             is_last = k == len(self.optimizers) - 1
             sum_budget += float("inf") if opt.budget is None or is_last else opt.budget
-            if self.num_tell < sum_budget and not (
-                self.no_crossing
-                and ("optim_index" not in candidate._meta or k != candidate._meta["optim_index"])
-            ):
+            if self.num_tell < sum_budget and not (self.no_crossing and k != asker_index):
                 opt.tell(candidate, loss)
 
     def enable_pickling(self):
-- 
2.43.0


From be5f52931b2abc7cf1f8a60ed800e13b5a77921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:09 +0000
Subject: [PATCH 55/88] fix: no_crossing was ignored by portfolios

---
 nevergrad/optimization/optimizerlib.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 81f1700..b5e23a0 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -1945,10 +1945,10 @@ class Portfolio(base.Optimizer):
         num_workers: int = 1,
         config: tp.Optional["ConfPortfolio"] = None,
     ) -> None:
-        self.no_crossing = False
         distribute_workers = config is not None and config.warmup_ratio == 1.0
         self._config = ConfPortfolio() if config is None else config
         cfg = self._config
+        self.no_crossing = cfg.no_crossing
         super().__init__(parametrization, budget=budget, num_workers=num_workers)
         optimizers = list(cfg.optimizers)
         if not optimizers:  # default
@@ -2045,6 +2045,8 @@ class Portfolio(base.Optimizer):
                 if ind >= 0 and ind < len(self.optims):  # not a tell not asked
                     if self.num_workers == 1 or self.optims[ind].num_workers > 1:
                         self.optims = [self.optims[ind]]  # throw away everything else
+                        # (-1 for the points asked by the other optimizers)
+                        self._asker_index = {u: 0 if k == ind else -1 for u, k in self._asker_index.items()}
         num = len(self.optims)
         if num == 1:
             optim_index = 0
@@ -2090,8 +2092,10 @@ class Portfolio(base.Optimizer):
         # Telling all optimizers is presumably better than just
         # self.optims[optim_index].tell(candidate, value)
         accepted = 0
-        if self.no_crossing and len(self.optims) > self._asker_index.get(candidate.uid, len(self.optims)):
-            self.optims[self._asker_index[candidate.uid]].tell(candidate, loss)
+        if self.no_crossing and candidate.uid in self._asker_index:
+            optim_index = self._asker_index[candidate.uid]
+            if optim_index >= 0:  # else the optimizer which asked for this point was thrown away
+                self.optims[optim_index].tell(candidate, loss)
             return
         for opt in self.optims:
             try:
-- 
2.43.0


From 479afba0fb74b08ac8b82f788733551b54d39566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:46 +0000
Subject: [PATCH 56/88] fix: chained optimizers were not told about their own
 points after many tells

---
 nevergrad/optimization/optimizerlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index b5e23a0..1bd31d2 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -3435,7 +3435,8 @@ class _Chain(base.Optimizer):
         for k, opt in enumerate(self.optimizers):
             is_last = k == len(self.optimizers) - 1
             sum_budget += float("inf") if opt.budget is None or is_last else opt.budget
-            if self.num_tell < sum_budget and not (self.no_crossing and k != asker_index):
+            # the optimizer which asked for the point is always concerned
+            if k == asker_index or (self.num_tell < sum_budget and not self.no_crossing):
                 opt.tell(candidate, loss)
 
     def enable_pickling(self):
-- 
2.43.0


From 6300f4d7f7f12acbf8117999dd92421100677787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:46 +0000
Subject: [PATCH 57/88] fix: portfolios could refuse points which were asked by
 optimizers thrown away

---
 nevergrad/optimization/optimizerlib.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index 1bd31d2..df78565 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -2092,18 +2092,18 @@ class Portfolio(base.Optimizer):
         # Telling all optimizers is presumably better than just
         # self.optims[optim_index].tell(candidate, value)
         accepted = 0
-        if self.no_crossing and candidate.uid in self._asker_index:
-            optim_index = self._asker_index[candidate.uid]
-            if optim_index >= 0:  # else the optimizer which asked for this point was thrown away
-                self.optims[optim_index].tell(candidate, loss)
-            return
-        for opt in self.optims:
+        asker_index = self._asker_index.get(candidate.uid, None)
+        optims = self.optims
+        if self.no_crossing and asker_index is not None:
+            # only the asker is concerned, and nobody if it was thrown away
+            optims = [] if asker_index < 0 else [self.optims[asker_index]]
+        for opt in optims:
             try:
                 opt.tell(candidate, loss)
                 accepted += 1
             except errors.TellNotAskedNotSupportedError:
                 pass
-        if not accepted:
+        if not accepted and asker_index is None:
             raise errors.TellNotAskedNotSupportedError("No sub-optimizer accepted the tell-not-asked")
 
     def enable_pickling(self) -> None:
-- 
2.43.0


From 50264a058acb98a1fd7a3e31be2de6582e5d895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:42 +0000
Subject: [PATCH 58/88] fix: points asked over the budget of a chain were
 attributed to the first optimizer

---
 nevergrad/optimization/optimizerlib.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nevergrad/optimization/optimizerlib.py b/nevergrad/optimization/optimizerlib.py
index df78565..d31eb70 100644
--- a/nevergrad/optimization/optimizerlib.py
+++ b/nevergrad/optimization/optimizerlib.py
@@ -3416,10 +3416,9 @@ class _Chain(base.Optimizer):
         sum_budget = 0.0
         opt = self.optimizers[0]
         chosen_index = 0
-        for index, opt in enumerate(self.optimizers):
+        for chosen_index, opt in enumerate(self.optimizers):
             sum_budget += float("inf") if opt.budget is None else opt.budget
             if self.num_ask < sum_budget:
-                chosen_index = index
                 break
         # if we are over budget, then use the last one...
 
-- 
2.43.0


From d7199b98c99796e405fc7298ff17498418d81c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:05 +0000
Subject: [PATCH 59/88] fix: NSGA-II ranking used a majority of better losses
 instead of the Pareto dominance

---
 nevergrad/optimization/multiobjective/nsga2.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/multiobjective/nsga2.py b/nevergrad/optimization/multiobjective/nsga2.py
index fadab22..5a24b8b 100644
--- a/nevergrad/optimization/multiobjective/nsga2.py
+++ b/nevergrad/optimization/multiobjective/nsga2.py
@@ -123,11 +123,11 @@ class FastNonDominatedRanking:
         :param candidate1: Candidate.
         :param candidate2: Candidate.
         """
-        one_wins = np.sum(candidate1.losses < candidate2.losses)
-        two_wins = np.sum(candidate2.losses < candidate1.losses)
-        if one_wins > two_wins:
+        one_wins = np.any(candidate1.losses < candidate2.losses)
+        two_wins = np.any(candidate2.losses < candidate1.losses)
+        if one_wins and not two_wins:
             return -1
-        if two_wins > one_wins:
+        if two_wins and not one_wins:
             return 1
         return 0
 
-- 
2.43.0


From 7ecf82ef037acbcd9191ed7c75d7d4e1852eaf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:30 +0000
Subject: [PATCH 60/88] fix: hypervolume was wrong in dimension 4 or more with
 equal coordinates or points on the reference bounds

---
 nevergrad/optimization/multiobjective/hypervolume.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/multiobjective/hypervolume.py b/nevergrad/optimization/multiobjective/hypervolume.py
index d3581c8..c61eccb 100644
--- a/nevergrad/optimization/multiobjective/hypervolume.py
+++ b/nevergrad/optimization/multiobjective/hypervolume.py
@@ -84,9 +84,11 @@ class VectorLinkedList:
         by i-th coordinate attribute in i-th row."""
         linked_list = cls(dimension)
         nodes = [VectorNode(dimension, coordinates=point) for point in points]
-        for i in range(dimension):
-            sorted_node = cls.sort_by_index(nodes, i)
-            linked_list.extend(sorted_node, i)
+        # equal coordinates are ordered according to the next ones, since a point which is skipped because
+        # it is dominated for its first coordinates must come after the points which dominate it in all rows
+        for i in reversed(range(dimension)):
+            nodes = cls.sort_by_index(nodes, i)
+            linked_list.extend(nodes, i)
         return linked_list
 
     @staticmethod
@@ -198,6 +200,8 @@ class HypervolumeIndicator:
     def compute(self, points: tp.Union[tp.List[np.ndarray], np.ndarray]) -> float:
         points = points - self.reference_point  # type: ignore
         # TODO: not sure why it would work with lists tough, investigate the ignored typing
+        # points on the reference bounds have no volume
+        points = points[(points < 0).all(axis=1) | (points > 0).any(axis=1)]  # type: ignore
         self.reference_bounds = np.full(self.dimension, -np.inf)
         self._multilist = VectorLinkedList.create_sorted(self.dimension, points)
         hypervolume = self.recursive_hypervolume(self.dimension - 1)
@@ -223,7 +227,7 @@ class HypervolumeIndicator:
         """Recursive hypervolume computation. The algorithm is provided by Algorithm 3.
         of the original paper."""
         if self.multilist.chain_length(dimension - 1) == 0:
-            return 0
+            return 0.0
         assert self.multilist is not None
         if dimension == 0:
             return -float(self.multilist.sentinel.next[0].coordinates[0])
-- 
2.43.0


From 5ffac2bc0e3de76ccb1d6200ead3252b4b11cd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:22 +0000
Subject: [PATCH 61/88] fix: subsets of the Pareto front had repeated points,
 exposed the internal list, and EPS subsets were arbitrary

---
 nevergrad/optimization/multiobjective/core.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nevergrad/optimization/multiobjective/core.py b/nevergrad/optimization/multiobjective/core.py
index 2b53589..7e11b59 100644
--- a/nevergrad/optimization/multiobjective/core.py
+++ b/nevergrad/optimization/multiobjective/core.py
@@ -217,6 +217,10 @@ class ParetoFront:
         """Retrieve current values, which may not be a Pareto front, as they have not been filtered."""
         return self._pareto
 
+    def _random_subset(self, size: int) -> tp.List[p.Parameter]:
+        indices = self._rng.choice(len(self._pareto), size, replace=False)
+        return [self._pareto[i] for i in indices]
+
     # pylint: disable=too-many-branches
     def get_front(
         self, size: tp.Optional[int] = None, subset: str = "random", subset_tentatives: int = 12
@@ -243,10 +247,10 @@ class ParetoFront:
         if self._pareto_needs_filtering:
             self._filter_pareto_front()
         if size is None or size >= len(self._pareto):  # No limit: we return the full set.
-            return self._pareto
+            return list(self._pareto)
         if subset == "random":
-            return self._rng.choice(self._pareto, size).tolist()  # type: ignore
-        tentatives = [self._rng.choice(self._pareto, size).tolist() for _ in range(subset_tentatives)]  # type: ignore
+            return self._random_subset(size)
+        tentatives = [self._random_subset(size) for _ in range(subset_tentatives)]
         if self._hypervolume is None and subset == "hypervolume":
             raise RuntimeError("Hypervolume subsetting not supported as hypervolume not in use")
         hypervolume = self._hypervolume
@@ -257,7 +261,7 @@ class ParetoFront:
             else:
                 score: float = 0.0
                 for v in self._pareto:
-                    best_score = float("inf") if subset != "EPS" else 0.0
+                    best_score = float("inf")
                     for pa in tentative:
                         if subset == "loss-covering":  # Equivalent to IGD.
                             best_score = min(best_score, np.linalg.norm(pa.losses - v.losses))  # type: ignore
@@ -269,6 +273,6 @@ class ParetoFront:
                             )  # TODO verify
                         else:
                             raise ValueError(f'Unknown subset for Pareto-Set subsampling: "{subset}"')
-                    score += best_score**2 if subset != "EPS" else max(score, best_score)
+                    score = score + best_score**2 if subset != "EPS" else max(score, best_score)
                 scores += [score]
         return tentatives[scores.index(min(scores))]  # type: ignore
-- 
2.43.0


From 1375c914ce69280b8a05769a327b9fabfed3fe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:46 +0000
Subject: [PATCH 62/88] fix: DE failed or depended on the uids when told a
 point which was not asked in the multiobjective case

---
 nevergrad/optimization/differentialevolution.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index dec52bf..9abd751 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -292,10 +292,9 @@ class _DE(base.Optimizer):
             else:  # multiobjective: replace if in pareto and some parents are not
                 pareto_uids = {c.uid for c in self.pareto_front()}
                 if candidate.uid in pareto_uids:
-                    non_pareto_pop = {c.uid for c in self.population.values()} - pareto_uids
-                    if non_pareto_pop:
-                        nonpareto = {c.uid: c for c in self.population.values()}[list(non_pareto_pop)[0]]
-                        discardable = nonpareto.heritage["lineage"]
+                    # (the key is the lineage of the individual, or its uid if it was not asked)
+                    non_pareto = (key for key, c in self.population.items() if c.uid not in pareto_uids)
+                    discardable = next(non_pareto, None)
         if discardable is not None:  # if we found a point to kick, kick it
             del self.population[discardable]
             self._uid_queue.discard(discardable)
-- 
2.43.0


From 08307924feb813fd8f3ce8f394c7bc000691b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:46 +0000
Subject: [PATCH 63/88] fix: random state of the Pareto front when no reference
 is provided

---
 nevergrad/optimization/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index f872378..8266bc5 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -438,7 +438,9 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
     def _preprocess_multiobjective(self, candidate: p.Parameter) -> tp.FloatLoss:
         if self._hypervolume_pareto is None:
             self._hypervolume_pareto = mobj.HypervolumePareto(
-                auto_bound=self._MULTIOBJECTIVE_AUTO_BOUND, no_hypervolume=self._no_hypervolume
+                auto_bound=self._MULTIOBJECTIVE_AUTO_BOUND,
+                seed=self._rng,
+                no_hypervolume=self._no_hypervolume,
             )
         return self._hypervolume_pareto.add(candidate)
 
-- 
2.43.0


From c2d6623bd5ab2c3a2f6174f1c6ab2f5703155cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:40 +0000
Subject: [PATCH 64/88] fix: points which are uniformly worse than the first
 ones had infinite multiobjective losses

---
 nevergrad/optimization/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index 8266bc5..ea0e080 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -386,7 +386,8 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
         if isinstance(loss, np.ndarray):
             candidate._losses = loss
         if not isinstance(loss, float):
-            loss = self._preprocess_multiobjective(candidate)
+            # (as for single objective, non-sense values such as infinity should not be propagated)
+            loss = min(self._preprocess_multiobjective(candidate), 5.0e20)
         # call callbacks for logging etc...
         candidate.loss = loss
         assert isinstance(loss, float)
-- 
2.43.0


From 129171334a06575799bdbbb565064f06be0a88f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:25 +0000
Subject: [PATCH 65/88] fix: invalid multiobjective losses (nan, infinity) were
 not clipped contrarily to the other ones

---
 nevergrad/optimization/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index ea0e080..ae9579b 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -349,6 +349,12 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
                 loss = 5.0e20  # sys.float_info.max leads to numerical problems so let us do this.
         elif isinstance(loss, (tuple, list, np.ndarray)):
             loss = np.asarray(loss, dtype=float).ravel()
+            if not (loss < 5.0e20).all():  # same as above, for each of the losses
+                self._warn(
+                    f"Clipping very high value {loss} in tell (rescale the cost function?).",
+                    errors.LossTooLargeWarning,
+                )
+                loss = np.where(loss < 5.0e20, loss, 5.0e20)
         elif not isinstance(loss, np.ndarray):
             raise TypeError(
                 f'"tell" method only supports float values but the passed loss was: {loss} (type: {type(loss)}.'
-- 
2.43.0


From a0bc1c6e999830475ef793d870af0c3af21bec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:24 +0000
Subject: [PATCH 66/88] fix: seeded experiments failed because the random
 module does not accept numpy integers

---
 nevergrad/benchmark/xpbase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/benchmark/xpbase.py b/nevergrad/benchmark/xpbase.py
index 99d07e3..1eca9ff 100644
--- a/nevergrad/benchmark/xpbase.py
+++ b/nevergrad/benchmark/xpbase.py
@@ -131,7 +131,8 @@ def create_seed_generator(seed: tp.Optional[int]) -> tp.Iterator[tp.Optional[int
     """
     generator = None if seed is None else np.random.RandomState(seed=seed)
     while True:
-        yield None if generator is None else generator.randint(2**32, dtype=np.uint32)  # type: ignore
+        # (conversion to int because the "random" module does not accept numpy integers)
+        yield None if generator is None else int(generator.randint(2**32, dtype=np.uint32))
 
 
 class Experiment:
-- 
2.43.0


From 86a1d520a0837c584d79661e3936082116582f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:24 +0000
Subject: [PATCH 67/88] fix: reading twice the result of a job of the mocked
 executor failed in steady mode

---
 nevergrad/benchmark/execution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/benchmark/execution.py b/nevergrad/benchmark/execution.py
index 70a827a..3b40854 100644
--- a/nevergrad/benchmark/execution.py
+++ b/nevergrad/benchmark/execution.py
@@ -57,6 +57,8 @@ class MockedTimedJob:
         self.process()
         if not self.done():
             raise RuntimeError("Asking result which is not ready")
+        if self._is_read:  # the executor was already notified
+            return self._output
         self._is_read = True
         self._executor.notify_read(self)
         return self._output
-- 
2.43.0


From d09e09217966bd2c6ef0b889c2c251ab3cedadcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:24 +0000
Subject: [PATCH 68/88] fix: CmaFmin2 sampled from the global random generator,
 shared with other optimizers

---
 nevergrad/optimization/recastlib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/recastlib.py b/nevergrad/optimization/recastlib.py
index 4d7b070..63e7375 100644
--- a/nevergrad/optimization/recastlib.py
+++ b/nevergrad/optimization/recastlib.py
@@ -450,7 +450,8 @@ class _NonObjectMinimizeBase(recaster.SequentialRecastOptimizer):
                 rng = np.random.RandomState(weakself._initial_seed)
                 while budget - num_calls > 0:
                     options = {"maxfevals": budget - num_calls, "verbose": -9}
-                    options["seed"] = rng.randint(1, 2**30)  # cma is otherwise seeded with the time
+                    # cma would otherwise (seed and) sample from the global generator, shared with other optimizers
+                    options.update(randn=rng.randn, seed=np.nan)
                     if weakself._normalizer is not None and weakself._normalizer.fully_bounded:
                         # Tell CMA to work in [0, 1].
                         options["bounds"] = [0.0, 1.0]
-- 
2.43.0


From b0002203d3867c18e51bf563597459df8acfde0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:56 +0000
Subject: [PATCH 69/88] fix: removing errors from benchmark data changed the
 input and mixed up rows with the same index

---
 nevergrad/benchmark/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/benchmark/plotting.py b/nevergrad/benchmark/plotting.py
index f984926..26d9173 100644
--- a/nevergrad/benchmark/plotting.py
+++ b/nevergrad/benchmark/plotting.py
@@ -137,6 +137,8 @@ def remove_errors(df: pd.DataFrame) -> utils.Selector:
     df = utils.Selector(df)
     if "error" not in df.columns:  # backward compatibility
         return df  # type: ignore
+    # copy the data (the input must not change) and make sure each row has its own index
+    df = utils.Selector(df.reset_index(drop=True))
     # errors with no recommendation
     nandf = df.select(loss=np.isnan)
     for row in nandf.itertuples():
-- 
2.43.0


From c66a24b84106785fd629b180bce7270acc19e2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:23 +0000
Subject: [PATCH 70/88] fix: hm function returned nan when a coordinate was
 null

---
 nevergrad/functions/corefuncs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nevergrad/functions/corefuncs.py b/nevergrad/functions/corefuncs.py
index 3dce628..3bdfd83 100644
--- a/nevergrad/functions/corefuncs.py
+++ b/nevergrad/functions/corefuncs.py
@@ -254,6 +254,7 @@ def stepdoublelinearslope(x: np.ndarray) -> float:
 @registry.register
 def hm(x: np.ndarray) -> float:
     """New multimodal function (proposed for Nevergrad)."""
+    x = x[x**2 > 0]  # no impact of null coordinates, while 1 / x is undefined
     return float((x**2).dot(1.1 + np.cos(1.0 / x)))
 
 
-- 
2.43.0


From 8c80abd0fca84a5b71e8bbaf8b5eb6765c429b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:23 +0000
Subject: [PATCH 71/88] fix: deceptivemultimodal function failed close to its
 optimum

---
 nevergrad/functions/corefuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/functions/corefuncs.py b/nevergrad/functions/corefuncs.py
index 3bdfd83..fa03105 100644
--- a/nevergrad/functions/corefuncs.py
+++ b/nevergrad/functions/corefuncs.py
@@ -323,7 +323,7 @@ def deceptivemultimodal(x: np.ndarray) -> float:
     if distance == 0.0:
         return 0.0
     angle = np.arctan(x[0] / x[1]) if x[1] != 0.0 else np.pi / 2.0
-    invdistance = int(1.0 / distance) if distance > 0.0 else 0.0
+    invdistance = np.trunc(1.0 / distance) if distance > 0.0 else 0.0
     if np.abs(np.cos(invdistance) - angle) > 0.1:
         return 1.0
     return float(distance)
-- 
2.43.0


From 3836027f7cbce00b1e1cce5f5ea9cd1ad4f6828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:39 +0000
Subject: [PATCH 72/88] fix: undo the changes of nevergrad/benchmark (defects
 recorded as known findings instead)

---
 nevergrad/benchmark/execution.py | 2 --
 nevergrad/benchmark/plotting.py  | 2 --
 nevergrad/benchmark/xpbase.py    | 3 +--
 3 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/nevergrad/benchmark/execution.py b/nevergrad/benchmark/execution.py
index 3b40854..70a827a 100644
--- a/nevergrad/benchmark/execution.py
+++ b/nevergrad/benchmark/execution.py
@@ -57,8 +57,6 @@ class MockedTimedJob:
         self.process()
         if not self.done():
             raise RuntimeError("Asking result which is not ready")
-        if self._is_read:  # the executor was already notified
-            return self._output
         self._is_read = True
         self._executor.notify_read(self)
         return self._output
diff --git a/nevergrad/benchmark/plotting.py b/nevergrad/benchmark/plotting.py
index 26d9173..f984926 100644
--- a/nevergrad/benchmark/plotting.py
+++ b/nevergrad/benchmark/plotting.py
@@ -137,8 +137,6 @@ def remove_errors(df: pd.DataFrame) -> utils.Selector:
     df = utils.Selector(df)
     if "error" not in df.columns:  # backward compatibility
         return df  # type: ignore
-    # copy the data (the input must not change) and make sure each row has its own index
-    df = utils.Selector(df.reset_index(drop=True))
     # errors with no recommendation
     nandf = df.select(loss=np.isnan)
     for row in nandf.itertuples():
diff --git a/nevergrad/benchmark/xpbase.py b/nevergrad/benchmark/xpbase.py
index 1eca9ff..99d07e3 100644
--- a/nevergrad/benchmark/xpbase.py
+++ b/nevergrad/benchmark/xpbase.py
@@ -131,8 +131,7 @@ def create_seed_generator(seed: tp.Optional[int]) -> tp.Iterator[tp.Optional[int
     """
     generator = None if seed is None else np.random.RandomState(seed=seed)
     while True:
-        # (conversion to int because the "random" module does not accept numpy integers)
-        yield None if generator is None else int(generator.randint(2**32, dtype=np.uint32))
+        yield None if generator is None else generator.randint(2**32, dtype=np.uint32)  # type: ignore
 
 
 class Experiment:
-- 
2.43.0


From e34f21ce8a30a6c7277753a92de185b9b811cbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:00 +0000
Subject: [PATCH 73/88] fix: verbose minimize asked twice for the result of
 each of the jobs

---
 nevergrad/optimization/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/optimization/base.py b/nevergrad/optimization/base.py
index ae9579b..6a3eafc 100644
--- a/nevergrad/optimization/base.py
+++ b/nevergrad/optimization/base.py
@@ -720,7 +720,7 @@ class Optimizer:  # pylint: disable=too-many-instance-attributes
                         self.tell(x, result)
                     self._finished_jobs.popleft()  # remove it after the tell to make sure it was indeed "told" (in case of interruption)
                     if verbosity:
-                        print(f"Updating fitness with value {job.result()}")
+                        print(f"Updating fitness with value {result}")
                 if verbosity:
                     print(f"{remaining_budget} remaining budget and {len(self._running_jobs)} running jobs")
                     if verbosity > 1:
-- 
2.43.0


From 37e8dc7684cae3bb39d47e04832e281f333d127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:00 +0000
Subject: [PATCH 74/88] fix: an initial point of evolution strategies was
 selected twice when it was waiting as well

---
 nevergrad/optimization/es.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/es.py b/nevergrad/optimization/es.py
index 41680ab..d53895e 100644
--- a/nevergrad/optimization/es.py
+++ b/nevergrad/optimization/es.py
@@ -77,7 +77,10 @@ class _EvolutionStrategy(base.Optimizer):
                 self._select()
 
     def _select(self) -> None:
-        choices = self._waiting + ([] if self._config.only_offsprings else list(self._population.values()))
+        choices = list(self._waiting)
+        if not self._config.only_offsprings:
+            waiting = {x.uid for x in self._waiting}  # an initial point can also be waiting
+            choices += [x for uid, x in self._population.items() if uid not in waiting]
         if self._rank_method is not None and self.num_objectives > 1:
             choices_rank = self._rank_method(choices, n_selected=self._config.popsize)
             choices = [x for x in choices if x.uid in choices_rank]
-- 
2.43.0


From ee18a95cd6bb65908ac2ad5f4e1264e6e8c90c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:00 +0000
Subject: [PATCH 75/88] fix: DE with the mean recommendation raised a KeyError

---
 nevergrad/optimization/differentialevolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nevergrad/optimization/differentialevolution.py b/nevergrad/optimization/differentialevolution.py
index 9abd751..3ccdcf9 100644
--- a/nevergrad/optimization/differentialevolution.py
+++ b/nevergrad/optimization/differentialevolution.py
@@ -169,7 +169,8 @@ class _DE(base.Optimizer):
             except metamodel.MetaModelFailure:  # The optimum is at infinity. Shit happens.
                 pass  # MetaModel failures are something which happens, no worries.
         if self._config.recommendation != "noisy":
-            return self.current_bests[self._config.recommendation].parameter
+            name = "average" if self._config.recommendation == "mean" else self._config.recommendation
+            return self.current_bests[name].parameter
         med_fitness = np.median([p.loss for p in self.population.values() if p.loss is not None])
         good_guys = [p for p in self.population.values() if p.loss is not None and p.loss < med_fitness]
         if not good_guys:
-- 
2.43.0


From d2f47e15017fea6b6c26181c949e2a8f6fe48ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:00 +0000
Subject: [PATCH 76/88] fix: multiobjective upper bounds of FarOptimumFunction
 were reset

---
 nevergrad/functions/functionlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/functions/functionlib.py b/nevergrad/functions/functionlib.py
index 8e3ee3d..717bccb 100644
--- a/nevergrad/functions/functionlib.py
+++ b/nevergrad/functions/functionlib.py
@@ -335,8 +335,8 @@ class FarOptimumFunction(ExperimentFunction):
         parametrization.set_mutation(sigma=sigma)
         if recombination == "crossover":
             parametrization = ng.ops.mutations.Crossover()(parametrization)
-        self.multiobjective_upper_bounds = np.array(2 * self._optimum) if multiobjective else None
         super().__init__(self._multifunc if multiobjective else self._monofunc, parametrization.set_name(""))  # type: ignore
+        self.multiobjective_upper_bounds = np.array(2 * self._optimum) if multiobjective else None
 
     def _multifunc(self, x: np.ndarray) -> np.ndarray:
         return np.abs(x - self._optimum)  # type: ignore
-- 
2.43.0


From a65de9ab6e1aa88d433b8998fda80b7b7913fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:00 +0000
Subject: [PATCH 77/88] fix: symmetries of functions with bounds for each of
 the coordinates used the middle of the first one

---
 nevergrad/functions/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nevergrad/functions/base.py b/nevergrad/functions/base.py
index 77878c3..417215f 100644
--- a/nevergrad/functions/base.py
+++ b/nevergrad/functions/base.py
@@ -333,13 +333,13 @@ class ArrayExperimentFunction(ExperimentFunction):
             self._function = self.symmetrized_function
             self.threshold_coefficients = np.zeros(self.dimension)
             self.slope_coefficients = np.ones(self.dimension)
+            middles = np.zeros(self.dimension)
+            if self.parametrization.bounds[0] is not None and self.parametrization.bounds[1] is not None:  # type: ignore
+                # (the bounds are either the same for all coordinates or given for each of them)
+                middles += np.ravel((self.parametrization.bounds[0] + self.parametrization.bounds[1]) / 2.0)  # type: ignore
             for i in range(self.dimension):  # pylint: disable=consider-using-enumerate
                 if symmetry % 2 == 1:
-                    if self.parametrization.bounds[0] is not None and self.parametrization.bounds[1] is not None:  # type: ignore
-                        middle = (self.parametrization.bounds[0][0] + self.parametrization.bounds[1][0]) / 2.0  # type: ignore
-                    else:
-                        middle = 0.0
-                    self.threshold_coefficients[i] = 2.0 * middle  # Otherwise we keep 0.
+                    self.threshold_coefficients[i] = 2.0 * middles[i]  # Otherwise we keep 0.
                     self.slope_coefficients[i] = -1.0  # Otherwise we keep 1.
                 symmetry = symmetry // 2
         else:
-- 
2.43.0


From e962f2f12a7cca9fbce9a6c3e222a2a0f211e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:00 +0000
Subject: [PATCH 78/88] fix: copies of SpecialEvaluationExperiment shared the
 parametrization

---
 nevergrad/functions/helpers.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nevergrad/functions/helpers.py b/nevergrad/functions/helpers.py
index 1a8ff00..c5511c9 100644
--- a/nevergrad/functions/helpers.py
+++ b/nevergrad/functions/helpers.py
@@ -40,15 +40,15 @@ class SpecialEvaluationExperiment(base.ExperimentFunction):
     def _delegate_to_experiment(self, *args: tp.Any, **kwargs: tp.Any) -> tp.Loss:
         return self._experiment(*args, **kwargs)
 
-    def copy(self) -> "SpecialEvaluationExperiment":
+    def _internal_copy(self) -> "SpecialEvaluationExperiment":
         """Creates with new experiments and evaluations"""
-        instance = super().copy()
-        for name in [
-            "_experiment",
-            "_evaluation",
-        ]:
-            setattr(instance, name, getattr(self, name).copy())
-        return instance
+        return self.__class__(
+            self._experiment.copy(),
+            self._evaluation.copy(),
+            pareto_size=self._pareto_size,
+            pareto_subset=self._pareto_subset,
+            pareto_subset_tentatives=self._pareto_subset_tentatives,
+        )
 
     def compute_pseudotime(  # pylint: disable=unused-argument
         self, input_parameter: tp.Any, loss: tp.Loss
-- 
2.43.0


From e4e001c75d1c7f99857c33604e90fac63f771438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:00 +0000
Subject: [PATCH 79/88] fix: discarding a uid from UidQueue left its other
 occurrences

---
 nevergrad/optimization/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nevergrad/optimization/utils.py b/nevergrad/optimization/utils.py
index edf00b2..f9fd91b 100644
--- a/nevergrad/optimization/utils.py
+++ b/nevergrad/optimization/utils.py
@@ -349,6 +349,8 @@ class UidQueue:
             self.asked.discard(uid)
         else:
             self.told.remove(uid)
+        while uid in self.told:  # the uid can have been asked and told several times
+            self.told.remove(uid)
 
 
 class ConstraintManager:
-- 
2.43.0


From 3ff81a216a859e8f3344bb1330959a45c115e156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:00 +0000
Subject: [PATCH 80/88] fix: comment characters of registered file types were
 used as a regular expression

---
 nevergrad/parametrization/instantiate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/instantiate.py b/nevergrad/parametrization/instantiate.py
index 8848cb0..a63a983 100644
--- a/nevergrad/parametrization/instantiate.py
+++ b/nevergrad/parametrization/instantiate.py
@@ -96,7 +96,7 @@ def uncomment_line(line: str, extension: str) -> str:
             f"Unknown file type: {extension}\nDid you register it using {FolderFunction.register_file_type.__name__}?"
         )
     pattern = r"^(?P<indent> *)"
-    pattern += r"(?P<linetoken>" + COMMENT_CHARS[extension] + r" *" + LINETOKEN + r" *)"
+    pattern += r"(?P<linetoken>" + re.escape(COMMENT_CHARS[extension]) + r" *" + LINETOKEN + r" *)"
     pattern += r"(?P<command>.*)"
     lineseg = re.search(pattern, line)
     if lineseg is not None:
-- 
2.43.0


From 294acec64e1db9f40f3bc78cc2b82b829d555c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:00 +0000
Subject: [PATCH 81/88] fix: upper case file suffixes were registered or
 instantiated differently

---
 nevergrad/parametrization/instantiate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nevergrad/parametrization/instantiate.py b/nevergrad/parametrization/instantiate.py
index a63a983..4c24dd8 100644
--- a/nevergrad/parametrization/instantiate.py
+++ b/nevergrad/parametrization/instantiate.py
@@ -145,7 +145,7 @@ class FileTextFunction:
 
     def __call__(self, **kwargs: tp.Any) -> str:
         testing.assert_set_equal(kwargs, self.parameters, err_msg="Wrong input parameters.")
-        return Placeholder.sub(self._text, self.filepath.suffix, replacers=kwargs)
+        return Placeholder.sub(self._text, self.filepath.suffix.lower(), replacers=kwargs)
 
     def __repr__(self) -> str:
         names = sorted(self.parameters)
@@ -281,7 +281,7 @@ class FolderFunction:
         the characters that indicate a comment."""
         if not suffix.startswith("."):
             suffix = f".{suffix}"
-        COMMENT_CHARS[suffix] = comment_chars
+        COMMENT_CHARS[suffix.lower()] = comment_chars  # (the suffixes of the files are lowered as well)
 
     @property
     def placeholders(self) -> tp.List[Placeholder]:
-- 
2.43.0


From 6b82c176d70d837e6f4c8e69b5e8213f670776da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:00 +0000
Subject: [PATCH 82/88] fix: instantiation over the source folder (through a
 link or ..) deleted its files

---
 nevergrad/parametrization/instantiate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/instantiate.py b/nevergrad/parametrization/instantiate.py
index 4c24dd8..5f29f3b 100644
--- a/nevergrad/parametrization/instantiate.py
+++ b/nevergrad/parametrization/instantiate.py
@@ -206,7 +206,7 @@ class FolderInstantiator:
             kwargs, {x.name for x in self.placeholders}, err_msg="Wrong input parameters."
         )
         outfolder = Path(outfolder).expanduser().absolute()
-        assert outfolder != self.folder, "Do not instantiate on same folder!"
+        assert outfolder.resolve() != self.folder.resolve(), "Do not instantiate on same folder!"
         symlink_folder_tree(self.folder, outfolder)
         for file_func in self.file_functions:
             inst_fp = outfolder / file_func.filepath.relative_to(self.folder)
-- 
2.43.0


From 7faa5b109643d4c9624ea196599327075b3bc592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:00 +0000
Subject: [PATCH 83/88] fix: placeholders with the same name in several files
 were not detected

---
 nevergrad/parametrization/instantiate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nevergrad/parametrization/instantiate.py b/nevergrad/parametrization/instantiate.py
index 5f29f3b..7889e18 100644
--- a/nevergrad/parametrization/instantiate.py
+++ b/nevergrad/parametrization/instantiate.py
@@ -190,6 +190,7 @@ class FolderInstantiator:
                         raise RuntimeError(
                             f"Found {fp} placeholders in another file (names must be unique): {fnames & names}"
                         )
+                    names |= fnames
                     self.file_functions.append(file_func)
         assert self.file_functions, "Found no file with placeholders"
         self.file_functions = sorted(self.file_functions, key=operator.attrgetter("filepath"))
-- 
2.43.0


From 53667714aa8689a7905fb3036c65e299dcdb60dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:00 +0000
Subject: [PATCH 84/88] fix: CommandFunction blocked for ever when the process
 wrote a lot to stderr

---
 nevergrad/parametrization/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nevergrad/parametrization/utils.py b/nevergrad/parametrization/utils.py
index f494559..248ab4e 100644
--- a/nevergrad/parametrization/utils.py
+++ b/nevergrad/parametrization/utils.py
@@ -170,10 +170,11 @@ class CommandFunction:
         if self.verbose:
             print(f"The following command is sent: {full_command}")
         outlines: tp.List[str] = []
-        with subprocess.Popen(
+        # (a pipe for stderr would block the process as soon as it is full, since stdout is read first)
+        with tempfile.TemporaryFile() as errfile, subprocess.Popen(
             full_command,
             stdout=subprocess.PIPE,
-            stderr=subprocess.PIPE,
+            stderr=errfile,
             shell=False,
             cwd=self.cwd,
             env=self.env,
@@ -190,7 +191,9 @@ class CommandFunction:
                 process.kill()
                 process.wait()
                 raise FailedJobError("Job got killed for an unknown reason.")
-            stderr = process.communicate()[1]  # we already got stdout
+            process.wait()  # we already got stdout
+            errfile.seek(0)
+            stderr = errfile.read()
             stdout = "\n".join(outlines)
             retcode = process.poll()
             if stderr and (retcode or self.verbose):
-- 
2.43.0


From 541c6794523d6f610745d7b66315a6454e294569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:00 +0000
Subject: [PATCH 85/88] fix: CommandFunction removed the indentation of the
 output of the command

---
 nevergrad/parametrization/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/parametrization/utils.py b/nevergrad/parametrization/utils.py
index 248ab4e..a42c93b 100644
--- a/nevergrad/parametrization/utils.py
+++ b/nevergrad/parametrization/utils.py
@@ -184,7 +184,7 @@ class CommandFunction:
                 for line in iter(process.stdout.readline, b""):
                     if not line:
                         break
-                    outlines.append(line.decode().strip())
+                    outlines.append(line.decode().rstrip("\r\n"))
                     if self.verbose:
                         print(outlines[-1], flush=True)
             except Exception:  # pylint: disable=broad-except
-- 
2.43.0


From 0e4d926531424885cd6e7aa9d8c122ad82479207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:12 +0000
Subject: [PATCH 86/88] fix: information of unregistered objects was kept in
 registries

---
 nevergrad/common/decorators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nevergrad/common/decorators.py b/nevergrad/common/decorators.py
index 777e844..98befee 100644
--- a/nevergrad/common/decorators.py
+++ b/nevergrad/common/decorators.py
@@ -64,6 +64,7 @@ class Registry(tp.MutableMapping[str, X]):
 
     def __delitem__(self, key: str) -> None:
         del self.data[key]
+        self._information.pop(key, None)
 
     def __iter__(self) -> tp.Iterator[str]:
         return iter(self.data)
-- 
2.43.0


From 6045fa8c34366dc4c8b6253f1ff0a4a3e3e48b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:12 +0000
Subject: [PATCH 87/88] fix: last point of antithetic_pm was not normalized
 with an odd number of points

---
 nevergrad/common/sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/common/sphere.py b/nevergrad/common/sphere.py
index be62e78..b9afa61 100644
--- a/nevergrad/common/sphere.py
+++ b/nevergrad/common/sphere.py
@@ -78,7 +78,7 @@ def antithetic_pm(n, shape, conv=None):
     x = normalize(x)
     x = x + [-xi for xi in x]
     if len(x) < n:
-        x = x + [np.random.randn(*shape)]
+        x = x + normalize([np.random.randn(*shape)])
     return np.array(x)
 
 
-- 
2.43.0


From 9e3c40082c9a452a1f82edf608bc6a6c22f1d8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:12 +0000
Subject: [PATCH 88/88] fix: jittered failed with its default number of blocks

---
 nevergrad/common/sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nevergrad/common/sphere.py b/nevergrad/common/sphere.py
index b9afa61..1821298 100644
--- a/nevergrad/common/sphere.py
+++ b/nevergrad/common/sphere.py
@@ -592,7 +592,7 @@ def get_class(x, num_blocks, just_max):
 
 def jittered(n, shape, num_blocks=None, just_max=False):
     if num_blocks is None:
-        num_blocs = [2, 2]
+        num_blocks = [2, 2]
     hash_to_set = defaultdict(list)
     for i in range(int(np.sqrt(n)) * n):
         x = normalize([np.random.randn(*shape)])[0]
-- 
2.43.0

