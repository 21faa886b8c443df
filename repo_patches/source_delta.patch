From bc6c6a7703b3679c6d362c1608ff92bd7233e204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:34 +0000
Subject: [PATCH 01/34] fix: use the integrand in Monte Carlo integration

The integrators averaged the weights and ignored the function values.
The batched version also sampled with the key it split, and mixed the
components of array valued integrands in the variance.
---
 cyjax/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index 3f2bb5b..815c85b 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -196,7 +196,7 @@ def mc_integrate(
     zs, w = sample(key, count)
 
     vals = fn(zs) * w
-    val = jnp.mean(w, axis=0)
+    val = jnp.mean(vals, axis=0)
     if var:
         var = (jnp.mean(vals ** 2, axis=0) - val ** 2) / count
         return val, var
@@ -227,10 +227,10 @@ def mc_integrate_batched(key, batches, batch_size, fn, sample, var):
     def step(key, _):
         k1, k2 = jax.random.split(key)
 
-        zs, w = sample(key, batch_size)
+        zs, w = sample(k1, batch_size)
 
         vals = fn(zs) * w
-        val = jnp.mean(w, axis=0)
+        val = jnp.mean(vals, axis=0)
         val2 = None
         if var:
             val2 = jnp.mean(vals ** 2, axis=0) / batch_size
@@ -240,7 +240,7 @@ def mc_integrate_batched(key, batches, batch_size, fn, sample, var):
     res, val2 = jax.lax.scan(step, key, None, batches)[1]
     mean = jnp.mean(res, axis=0)
     if var:
-        variance = jnp.mean(val2) / batches - mean**2 / (batches * batch_size)
+        variance = jnp.mean(val2, axis=0) / batches - mean**2 / (batches * batch_size)
         return mean, variance
     return mean
 
-- 
2.43.0


From eaaf1aa10aaf2bb38e48f984f0240472a196d754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:34 +0000
Subject: [PATCH 02/34] fix: do not modify the first factor in place in prod

Multiplying in place changed the caller's array when a scalar variable
of a polynomial was passed as numpy array.
---
 cyjax/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index 815c85b..9a419d8 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -33,7 +33,7 @@ def prod(factors: Union[np.ndarray, Array, Generator]) \
         if pr is None:
             pr = factor
         else:
-            pr *= factor
+            pr = pr * factor
     return np.ones(()) if pr is None else pr
 
 
-- 
2.43.0


From 5d60e151741626f195ce56c0d98fd2e30b28dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:34 +0000
Subject: [PATCH 03/34] fix: pass arguments in order in best_dependent

Parameters and patch were swapped and the wrong axis was used, so every
call raised an error.
---
 cyjax/variety.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 2dca0f2..dd4e798 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -147,7 +147,7 @@ class VarietySingle:
         and thus avoid large values.
         """
         dependent = jnp.argmax(
-            jnp.abs(self.grad_defining(zs, patch, params)), axis=1)
+            jnp.abs(self.grad_defining(zs, params, patch)), axis=-1)
         return dependent
 
     @auto_vmap(zs=1, params=1, patch=0, dependent=0)
-- 
2.43.0


From 3e9415810d592f54d43e4d705593f9f7c857dbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:34 +0000
Subject: [PATCH 04/34] fix: allow homogeneous coordinates in solve_defining

The default of no patch raised an error because an affine index was
converted without a patch.
---
 cyjax/variety.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index dd4e798..18c8c61 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -299,10 +299,11 @@ class VarietySingle:
         # solve defining equation given all but one coordinate
         if patch is None:
             defining_poly = self.defining_poly
+            dep_hom = dependent
         else:
             defining_poly = self.defining_poly.affine_poly(patch)
+            dep_hom = index_affine_to_hom(patch, dependent)
 
-        dep_hom = index_affine_to_hom(patch, dependent)
         dep = self.defining_poly.all_symbols(True, False)[0][dep_hom]
         # get coefficient polynomials
         coeffs = univariate_coefficients(defining_poly, dep)
-- 
2.43.0


From 4c9c9554c9a109b4bd700d8a75a45c15b4010bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:34 +0000
Subject: [PATCH 05/34] fix: support conjugate coordinates for varieties
 without parameters

The induced metric tried to conjugate missing parameters.
---
 cyjax/variety.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 18c8c61..93ad16c 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -179,7 +179,8 @@ class VarietySingle:
         if zs_c is None:
             ind_met = induced_metric(metric, grad_def, dependent)
         else:
-            grad_def_c = self.grad_defining(zs_c, jnp.conj(params), patch)
+            params_c = None if params is None else jnp.conj(params)
+            grad_def_c = self.grad_defining(zs_c, params_c, patch)
             ind_met = induced_metric(metric, grad_def, dependent, grad_def_c)
 
         return (ind_met, dependent) if return_dep else ind_met
-- 
2.43.0


From 35d3e94e850c02a5b4796801aebd9828b49295ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:34 +0000
Subject: [PATCH 06/34] fix: sample enough lines if the degree differs from the
 dimension

Fewer points than requested were returned if the degree of the variety
is smaller than the number of homogeneous coordinates.
---
 cyjax/variety.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 93ad16c..f814a69 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -253,9 +253,10 @@ class VarietySingle:
         poly = self.defining_poly(z, np.array(self.parameters))
         poly = Poly.from_sympy(poly, [t, ps, qs], self.parameters)
 
-        sample_count = np.ceil(count / self.dim_complex).astype(int)
-        ps, qs = complex_sphere(key, (2, sample_count, self.dim_complex))
         coefficients = univariate_coefficients(poly, t)
+        # each line intersects the variety in as many points as its degree
+        sample_count = np.ceil(count / (len(coefficients) - 1)).astype(int)
+        ps, qs = complex_sphere(key, (2, sample_count, self.dim_complex))
         zs_hom = _solve_intersect(ps, qs, params, coefficients)
         zs_hom = zs_hom.reshape(-1, self.dim_complex)[:count]
 
-- 
2.43.0


From 7c1c3a29d5b046ed0bf865239af109c408836b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:34 +0000
Subject: [PATCH 07/34] fix: return second derivative of psi for diagonal
 matrices

The result was dropped, so the Ricci tensor could not be computed if the
matrix is given by its diagonal.
---
 cyjax/donaldson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index 69de177..872db83 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -452,7 +452,7 @@ class GeometricObjects(ProgEval, transformer=_transform_if_static):
     def psi_hh(h, s_2, s_c):
         r"""@math \partial_{i} \partial_{j} \psi"""
         if h.ndim == 1:
-            jnp.einsum('iab,i,i->ab', s_2, h, s_c)
+            return jnp.einsum('iab,i,i->ab', s_2, h, s_c)
         return jnp.einsum('iab,ij,j->ab', s_2, h, s_c)
 
     @staticmethod
-- 
2.43.0


From 9ee172df0c5fea658ba37e10db2890b76898fba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:34 +0000
Subject: [PATCH 08/34] fix: treat patch as position in affine_poly

The patch was compared with the printed variable indices, which is wrong
if these are not consecutive or do not start at zero.
---
 cyjax/polynomial.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 01cdba6..d766a03 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -1130,10 +1130,11 @@ class HomPoly(Poly):
         patch_index = self.unique_patch_index(patch)
         p = self._affine_poly[patch_index]
         if p is None:
-            subs = {merge_subscript(name, p): 1
-                    for name, p in zip(self.variable_names, patch)}
+            subs = {merge_subscript(name, ind[p]): 1
+                    for name, ind, p in zip(
+                        self.variable_names, self.variable_indices, patch)}
             sympy_poly = self.sympy_poly.subs(subs)
-            indices = [[i for i in ind if i != p]
+            indices = [[i for i in ind if i != ind[p]]
                        for ind, p in zip(self.variable_indices, patch)]
             p = Poly(sympy_poly, self.variable_names, self.parameters, indices)
             self._affine_poly[patch_index] = p
-- 
2.43.0


From 4641aecde4230137f7d5f95e7051d7b8343a95bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:34 +0000
Subject: [PATCH 09/34] fix: evaluate polynomials whose parameters have text
 subscripts

Parameters were split like variables first, which rejects subscripts
that are not integers.
---
 cyjax/polynomial.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index d766a03..763a7ca 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -181,6 +181,9 @@ def _sympy_eval_num(val):
 def _eval_sympy_poly(p, var_names, index_reorder, par_index):
     """Recursively return function evaluating the sympy expression."""
     if p.func == sympy.Symbol:
+        if p in par_index:
+            index = par_index[p]
+            return lambda var, par: par[index]
         name, index = split_subscript(p)
         if name in var_names:
             reo = index_reorder[name]
@@ -189,9 +192,7 @@ def _eval_sympy_poly(p, var_names, index_reorder, par_index):
             else:
                 i = reo[index]
                 return lambda var, par: var[name][i]
-        else:
-            index = par_index[p]
-            return lambda var, par: par[index]
+        raise KeyError(p)
 
     elif issubclass(p.func, sympy.Number):
         num = _sympy_eval_num(p)
-- 
2.43.0


From 27d4ce01cc33b95123dfc5e41bf7e25ce91689f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:34 +0000
Subject: [PATCH 10/34] fix: evaluate polynomials with complex coefficients

The imaginary unit was not recognized as a number.
---
 cyjax/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 763a7ca..62dfdfc 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -194,7 +194,7 @@ def _eval_sympy_poly(p, var_names, index_reorder, par_index):
                 return lambda var, par: var[name][i]
         raise KeyError(p)
 
-    elif issubclass(p.func, sympy.Number):
+    elif p.is_Atom and p.is_number:
         num = _sympy_eval_num(p)
         return lambda var, par: num
 
-- 
2.43.0


From 7add5c3be65b2e4450445d993f63b9289658b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:34 +0000
Subject: [PATCH 11/34] fix: keep complex factors and parameter powers in
 coefficients

Only the last numeric factor of a coefficient was kept and powers of
parameters raised an error.
---
 cyjax/polynomial.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 62dfdfc..f372a3d 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -798,9 +798,13 @@ class Poly:
                         f'Encountered parameter {p} which ' \
                         f'is not in list of parameters.'
                     coeffs_params[-1].append(p)
+                elif p.func == sympy.Pow and not p.is_number:
+                    for _ in range(int(p.exp)):
+                        _add_coeff(p.base)
+                elif p.is_real:
+                    coeffs[-1] = coeffs[-1] * _sympy_eval_num(p)
                 else:
-                    # assume only one numeric value in coeff.args
-                    coeffs[-1] = _sympy_eval_num(p)
+                    coeffs[-1] = coeffs[-1] * complex(p)
 
             if coeff.func == sympy.Mul:
                 for c in coeff.args:
@@ -819,6 +823,7 @@ class Poly:
                         power_entry.append(pows[index])
 
         for pows, coeff in sympy_poly.terms():
+            coeff = sympy.expand(coeff)
             if coeff.func == sympy.Add:
                 for c in coeff.args:
                     _add_term(pows, c)
-- 
2.43.0


From befa0efc94e01240f1cbabc70cde070046023ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:34 +0000
Subject: [PATCH 12/34] fix: make construction from coefficients and powers
 deterministic

The order of extracted parameters changed between interpreter runs and
constant polynomials could not be constructed.
---
 cyjax/polynomial.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index f372a3d..5ae3092 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -745,7 +745,9 @@ class Poly:
         if variable_indices is None:
             variable_indices = [range(len(pws[0])) for pws in powers]
         if parameters is None:
-            parameters = list(reduce(set.union, map(set, coeffs_params)))
+            # sort since the order of sets is unpredictable
+            parameters = sorted(
+                reduce(set.union, map(set, coeffs_params), set()), key=str)
         else:
             parameters = [sympy.Symbol(p) if isinstance(p, str) else p
                           for p in parameters]
@@ -761,7 +763,8 @@ class Poly:
         sympy_poly = np.sum(compute_monomials(
             poly.all_symbols(True, False), coeffs, powers, symbolic=True))
 
-        poly._sympy_poly = sympy.Poly(sympy_poly, domain=poly.domain)
+        poly._sympy_poly = sympy.Poly(
+            sympy_poly, *poly.all_symbols(False, False), domain=poly.domain)
         return cls.from_poly(poly)
 
     def to_coeffs_and_powers(self) \
-- 
2.43.0


From 1390fc8e54d17a6ddb0888e0b77bec685900804c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:34 +0000
Subject: [PATCH 13/34] fix: detect vector variables automatically and in a
 fixed order

A second index of a detected variable was treated as another variable
of the same name, names were not normalized, and the order of detected
variables changed between interpreter runs.
---
 cyjax/polynomial.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 5ae3092..de8d37b 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -553,7 +553,8 @@ class Poly:
             poly_expr = poly.expr
             if not have_variables:
                 have_variables = True
-                variable_names = list({split_subscript(g)[0] for g in poly.gens})
+                variable_names = list(dict.fromkeys(
+                    split_subscript(g)[0] for g in poly.gens))
             if parameters is None and hasattr(poly.domain, 'symbols'):
                 have_parameters = True
                 parameters = parameters or poly.domain.symbols
@@ -575,7 +576,8 @@ class Poly:
         # index of variable name in list of variables
         var_name_index = {n: i for i, n in enumerate(variable_names)}
 
-        for v in poly_expr.free_symbols:
+        # sort since the order of free symbols is unpredictable
+        for v in sorted(poly_expr.free_symbols, key=str):
             assert isinstance(v, sympy.Symbol), \
                 f'Encountered free symbol {v} that is not of type Symbol.'
             if v in parameters:
@@ -601,10 +603,10 @@ class Poly:
                         f'but does not appear in list of variable names.')
                 else:
                     # found a new variable
+                    var_index = var_name_index[name] = len(variable_names)
                     variable_names.append(name)
-                    variable_indices.append(None if index is None else [index])
-                    var_appeared.append(True)
-                    continue
+                    variable_indices.append(None)
+                    var_appeared.append(False)
 
             if index is None:
                 # If it appeared before, it must have appeared with index
@@ -612,6 +614,7 @@ class Poly:
                 assert variable_indices[var_index] is None, \
                     f'Variable "{name}" appeared both with and ' \
                     f'without subscript.'
+                var_appeared[var_index] = True
                 continue
             elif have_indices:
                 # Indices already available, only make sure it is not missing.
-- 
2.43.0


From 7ee051bd19244356ea0e8b65b0eaf8f3619c61fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:34 +0000
Subject: [PATCH 14/34] fix: draw overlap radii independently

The random number of the first coordinate was used twice unless it
belongs to the other patch, so the distribution was not invariant under
a change of chart.
---
 cyjax/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/random.py b/cyjax/random.py
index 4186ee0..77fcc92 100644
--- a/cyjax/random.py
+++ b/cyjax/random.py
@@ -198,7 +198,7 @@ def projective_overlap(
     # symmetric sampling, 1 / patch_size < rad_0 < patch_size
     log_rad_min = jnp.log(1 / patch_size)
     rad_0 = jnp.exp(
-        log_rad_min + (jnp.log(patch_size) - log_rad_min) * rand_r[:, 0])
+        log_rad_min + (jnp.log(patch_size) - log_rad_min) * rand_r[:, other])
 
     # remaining radii < min(patch_size, rad_max * patch_size)
     rad_max = jnp.minimum(patch_size * rad_0, patch_size)
-- 
2.43.0


From 4098514d75964a54fa998e840ba3e9c259ef691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:34 +0000
Subject: [PATCH 15/34] fix: evaluate monomials with logarithms at zero
 coordinates

The result was NaN instead of zero, or of the other factors' product if
the coordinate does not appear.
---
 cyjax/donaldson.py  | 7 ++++++-
 cyjax/polynomial.py | 9 ++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index 872db83..1427d3d 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -123,7 +123,12 @@ def _compute_monomials_log(zs, patch, pows):
         pows = jnp.roll(pows, -patch, axis=1)[:, 1:]
         zs = jnp.roll(zs, -patch, axis=0)
 
-    return jnp.exp(pows @ jnp.log(zs))
+    logs = jnp.log(zs)
+    # sum parts separately since complex products turn log(0) into NaN
+    exponent = jnp.sum(jnp.where(pows == 0, 0, pows * logs.real), axis=1)
+    if jnp.iscomplexobj(logs):
+        exponent = jax.lax.complex(exponent, pows @ logs.imag)
+    return jnp.exp(exponent)
 
 
 class LBSections:
diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index de8d37b..ca893c2 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -224,12 +224,19 @@ def _replace_float_ints(expr: sympy.Expr) -> sympy.Expr:
     return e.xreplace({v: k for k, v in reps.items()})
 
 
+def _scale_log(log, power):
+    # scale parts separately since a complex product turns log(0) into NaN
+    if jnp.iscomplexobj(log):
+        return jax.lax.complex(log.real * power, log.imag * power)
+    return log * power
+
+
 @partial(jax.jit, static_argnums=3)
 def _compute_mon_scalar(arr, power, product, log):
     out = jax.lax.cond(
         power == 0,
         lambda args: args[2],
-        lambda args: (args[2] + args[0] * args[1] if log else
+        lambda args: (args[2] + _scale_log(args[0], args[1]) if log else
                       args[2] * args[0] ** args[1]),
         (arr, power, product))
     return out
-- 
2.43.0


From 07287a5267385734d955c3d72a26716fc4d9383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:30 +0000
Subject: [PATCH 16/34] fix: keep coordinates if old and new patch agree in
 change_chart

The point was changed silently instead of being returned as it is.
---
 cyjax/projective.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cyjax/projective.py b/cyjax/projective.py
index f14e5fd..18a9dbb 100644
--- a/cyjax/projective.py
+++ b/cyjax/projective.py
@@ -65,8 +65,7 @@ def change_chart(affine: Array, old_patch: int, new_patch: int) -> Array:
          Array like ``affine`` corresponding to the points but expressed
          in terms of affine coordinates of the new patch.
     """
-    z0, z = pop(affine, new_patch - (old_patch < new_patch))
-    return insert_1d(z / z0, 1 / z0, old_patch - (new_patch < old_patch))
+    return hom_to_affine(affine_to_hom(affine, old_patch), new_patch)
 
 
 @jax.jit
-- 
2.43.0


From e73d3a16100c0f44cef2aec1030beef1fc66e175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:39 +0000
Subject: [PATCH 17/34] fix: keep the order of remaining values in pop for
 negative indices

The right value was removed but the rest was returned rotated.
---
 cyjax/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cyjax/util.py b/cyjax/util.py
index 9a419d8..0c52133 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -48,6 +48,7 @@ def pop(arr: Array, index: int) -> tuple[Array, Array]:
         A tuple of the removed value and the remaining array.
     """
     chex.assert_type(index, int)
+    index = index % arr.shape[0]  # index may be counted from the back
     rolled = jnp.roll(arr, -index, axis=0)
     return rolled[0], jnp.roll(rolled[1:], index, axis=0)
 
-- 
2.43.0


From 30bbd4c2ee94b3683a4ecd2b31223cc8561b6985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:07 +0000
Subject: [PATCH 18/34] fix: substitute symbolic polynomial inputs
 simultaneously

Inputs containing symbols of the polynomial itself, e.g. permuted
variables, were substituted one after the other.
---
 cyjax/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index ca893c2..b5a1f42 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -1001,7 +1001,7 @@ class Poly:
             if params is not None:
                 var_list.extend(params)
             subs = {s: v for s, v in zip(self.all_symbols(False), var_list)}
-            return self.sympy_poly.expr.subs(subs)
+            return self.sympy_poly.expr.subs(subs, simultaneous=True)
 
         # Convert sympy to function which can be JIT compiled.
         fn = _eval_sympy_poly(self.sympy_poly.expr,
-- 
2.43.0


From 1b5f77c44e9f28dffb151c17e6940886eaf7af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:27 +0000
Subject: [PATCH 19/34] fix: accept both subscript spellings of one variable in
 an expression

z1 and z_1 are equivalent, but using both in one expression duplicated the
detected index.
---
 cyjax/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index b5a1f42..33251e9 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -641,7 +641,7 @@ class Poly:
 
             rename[v] = merge_subscript(name, index)
         if not have_indices:
-            variable_indices = [ind if ind is None else list(sorted(ind))
+            variable_indices = [ind if ind is None else list(sorted(set(ind)))
                                 for ind in variable_indices]
         if not have_parameters:
             # sympy yields unpredictable order
-- 
2.43.0


From 37ea760dd3dd889823e5e5a62b25024acc88526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:29 +0000
Subject: [PATCH 20/34] fix: extract coefficients of polynomials in a single
 entry

With parameters but no remaining variables the coefficients could not be
constructed.
---
 cyjax/polynomial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 33251e9..19a6dad 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -541,7 +541,7 @@ class Poly:
         if have_variables:
             all_str = all(isinstance(vn, str) for vn in variable_names)
             all_sym = all(isinstance(vn, np.ndarray) for vn in variable_names)
-            assert all_sym ^ all_str, \
+            assert all_sym or all_str, \
                 'Variable_names must either all be strings or all ' \
                 'numpy arrays of variables.'
             if all_sym:
@@ -649,6 +649,8 @@ class Poly:
         # temporarily init Poly object
         poly_obj = Poly(None, variable_names, parameters, variable_indices)
         variables = np.array(poly_obj.all_symbols(False, False))
+        if len(variables) == 0:  # sympy polynomials need a generator
+            variables = [sympy.Dummy()]
         poly_obj._sympy_poly = sympy.Poly(
             poly_expr.subs(rename), *variables, domain=poly_obj.domain)
         # return a new object of the right type (for subclasses)
-- 
2.43.0


From 3028710cf0ea4476d13dde41712f61694e9a3b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:33 +0000
Subject: [PATCH 21/34] fix: conjugate the whole gradient for explicit
 conjugate coordinates

The coefficients of the defining polynomial were not conjugated, only its
parameters.
---
 cyjax/variety.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index f814a69..16e28a8 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -179,8 +179,9 @@ class VarietySingle:
         if zs_c is None:
             ind_met = induced_metric(metric, grad_def, dependent)
         else:
-            params_c = None if params is None else jnp.conj(params)
-            grad_def_c = self.grad_defining(zs_c, params_c, patch)
+            # coefficients of the defining polynomial can be complex
+            grad_def_c = self.grad_defining(
+                jnp.conj(zs_c), params, patch).conj()
             ind_met = induced_metric(metric, grad_def, dependent, grad_def_c)
 
         return (ind_met, dependent) if return_dep else ind_met
-- 
2.43.0


From 6228f94f848f764c4cafad5a5ed08614f55ea46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:33 +0000
Subject: [PATCH 22/34] fix: use the given volume in the sampling weights

The returned weight ignored vol while the separately returned densities
used it.
---
 cyjax/variety.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/variety.py b/cyjax/variety.py
index 16e28a8..60bbc42 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -230,7 +230,7 @@ class VarietySingle:
             dvol *= vol
         if separate:
             return dvol, det
-        return 1 / (det * jnp.abs(grad_dep) ** 2)
+        return dvol / det
 
     def sample_intersect(self, key: chex.PRNGKey, params, count: int, affine=False, weights=False):
         """Sample points on the variety using the intersection method.
-- 
2.43.0


From aa7e93945f0456f876733c2175da4b50b306c911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:47 +0000
Subject: [PATCH 23/34] fix: evaluate polynomials which are constant in some
 patches

Branches for different patches had different output types if the polynomial
reduces to a constant in one of them.
---
 cyjax/polynomial.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 19a6dad..1d6896f 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -1195,7 +1195,12 @@ class HomPoly(Poly):
                 return self.__call__(*args, **kwargs, patch=None)
             else:
                 patch_index = self.unique_patch_index(patch)
-                return jax.lax.switch(patch_index, branches, args, kwargs)
+                # constant in some patches: output types may differ
+                dtype = jnp.result_type(*(
+                    jax.eval_shape(fn, args, kwargs) for fn in branches))
+                return jax.lax.switch(patch_index, [
+                    lambda *arg, fn=fn: jnp.asarray(fn(*arg), dtype)
+                    for fn in branches], args, kwargs)
 
         eval_poly.__signature__ = sig
         names = [v for v, (s, _) in static.items()
-- 
2.43.0


From 2d0517621a1ff4d5e75e09479f7ba9291d6abb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:41 +0000
Subject: [PATCH 24/34] fix: integrate array valued functions sample by sample

Weights were broadcast against the last axis of the function values instead of
the sample axis.
---
 cyjax/util.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index 0c52133..0e9748f 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -165,6 +165,12 @@ def unflatten_coord(arr: Union[Array, tuple[Array, ...]], old_shape: Shape) \
             lambda a: a.reshape((*old_shape, *a.shape[1:])), arr)
 
 
+def _weighted(vals: Array, w: Array) -> Array:
+    # values may have additional dimensions, weights are one per sample
+    vals = jnp.asarray(vals)
+    return vals * w.reshape(w.shape + (1,) * (vals.ndim - w.ndim))
+
+
 def mc_integrate(
         key: PRNGKey, count: int, fn: Callable[[Array], Array],
         sample: Callable[[PRNGKey, int], Array], var: bool = False) \
@@ -196,7 +202,7 @@ def mc_integrate(
     """
     zs, w = sample(key, count)
 
-    vals = fn(zs) * w
+    vals = _weighted(fn(zs), w)
     val = jnp.mean(vals, axis=0)
     if var:
         var = (jnp.mean(vals ** 2, axis=0) - val ** 2) / count
@@ -230,7 +236,7 @@ def mc_integrate_batched(key, batches, batch_size, fn, sample, var):
 
         zs, w = sample(k1, batch_size)
 
-        vals = fn(zs) * w
+        vals = _weighted(fn(zs), w)
         val = jnp.mean(vals, axis=0)
         val2 = None
         if var:
-- 
2.43.0


From c8e598dc0464eec13a5c4361d761548aed1c303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:12 +0000
Subject: [PATCH 25/34] fix: include coordinates missing in the polynomial in
 the reduced basis

The generators were taken from the polynomial expression, so the power matrix
had too few columns.
---
 cyjax/donaldson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index 1427d3d..94fcb10 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -293,7 +293,7 @@ class MonomialBasisReduced(_MonomialBasis):
         zs = sympy.symarray('z', variety.dim_projective + 1)
         poly = variety.defining_poly(zs, np.array(params))
         pows_mod = np.array(
-            [t[0] for t in sympy.Poly(poly, domain='CC').terms()])
+            [t[0] for t in sympy.Poly(poly, *zs, domain='CC').terms()])
         power_matrix = reduced_monomial_basis(degree, pows_mod)
         super().__init__(degree, power_matrix)
 
-- 
2.43.0


From 02b56fbced1ad9e2dd850b0564334e314e428307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:12 +0000
Subject: [PATCH 26/34] fix: allow varieties without parameters in the reduced
 basis

---
 cyjax/donaldson.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index 94fcb10..e89979a 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -291,7 +291,8 @@ class MonomialBasisReduced(_MonomialBasis):
                 polynomial and is thus in general dependent on moduli values.
         """
         zs = sympy.symarray('z', variety.dim_projective + 1)
-        poly = variety.defining_poly(zs, np.array(params))
+        params = None if params is None else np.array(params)
+        poly = variety.defining_poly(zs, params)
         pows_mod = np.array(
             [t[0] for t in sympy.Poly(poly, *zs, domain='CC').terms()])
         power_matrix = reduced_monomial_basis(degree, pows_mod)
-- 
2.43.0


From d9e9b6e7bfd9e6641c1d9623a6a6fb5f2cb31996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:12 +0000
Subject: [PATCH 27/34] fix: accept real matrices in donaldson_step

---
 cyjax/donaldson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index e89979a..5cc9a36 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -868,7 +868,7 @@ class AlgebraicMetric:
         Returns:
             New value of the H matrix.
         """
-        T = jnp.zeros_like(h)
+        T = jnp.zeros_like(h, dtype=complex)
         h = (h + h.T.conj()) / 2
         keys = jax.random.split(key, batches)
 
-- 
2.43.0


From 054c010f739fd82d51856c03e2f60634eaf89a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:24 +0000
Subject: [PATCH 28/34] fix: recompute sections when the patch of a geometry
 object is replaced

---
 cyjax/donaldson.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index 5cc9a36..0ed44a9 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -367,15 +367,15 @@ class GeometricObjects(ProgEval, transformer=_transform_if_static):
         assert zs.shape[-1] == variety.dim_projective, \
             'coordinates do not match variety dimension'
 
-        def pow_fn(zs):
+        def pow_fn(zs, patch):
             return sections(zs, patch, **section_args)
 
         jac_fn = jax.jacfwd(pow_fn, holomorphic=True)
 
         # compute sections & gradients
         self.s = pow_fn  # computes monomials
-        self.register('s_1', jac_fn, ['zs'])
-        self.register('s_2', jax.jacfwd(jac_fn, holomorphic=True), ['zs'])
+        self.register('s_1', jac_fn, ['zs', 'patch'])
+        self.register('s_2', jax.jacfwd(jac_fn, holomorphic=True), ['zs', 'patch'])
 
         if grad_def is not None:
             self.grad_def = grad_def
-- 
2.43.0


From 46679cfb2dcdf807327cd79a653857b729b32c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:24 +0000
Subject: [PATCH 29/34] fix: accept numpy integers as seed of a key sequence

---
 cyjax/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/util.py b/cyjax/util.py
index 0e9748f..923c34a 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -262,7 +262,7 @@ class PRNGSequence:
         >>> rns = PRNGSequence(42)
         >>> key = next(rns)
         """
-        if isinstance(seed, int):
+        if isinstance(seed, (int, np.integer)):
             self._key = jax.random.PRNGKey(seed)
         else:
             self._key = seed
-- 
2.43.0


From 4a08fa27a6aa8109289e79ff3b1515fa6475511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:06 +0000
Subject: [PATCH 30/34] fix: print integer valued coefficients as integers

Newer sympy versions never compare a float equal to an integer.
---
 cyjax/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyjax/polynomial.py b/cyjax/polynomial.py
index 1d6896f..cebcc65 100644
--- a/cyjax/polynomial.py
+++ b/cyjax/polynomial.py
@@ -219,7 +219,7 @@ def _replace_float_ints(expr: sympy.Expr) -> sympy.Expr:
     """Replace all integer-valued floats in Expr with integers."""
     reps = dict()
     e = expr.replace(
-        lambda x: x.is_Float and x == int(x),
+        lambda x: x.is_Float and float(x).is_integer(),
         lambda x: reps.setdefault(int(x), sympy.Dummy()))
     return e.xreplace({v: k for k, v in reps.items()})
 
-- 
2.43.0


From e46424eaf05dabfc513ad89320f5f7c429d5a851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:07 +0000
Subject: [PATCH 31/34] fix: centre the pixels of accuracy plots on the grid
 values

---
 scripts/train.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/train.py b/scripts/train.py
index 4a55497..b7fea7e 100644
--- a/scripts/train.py
+++ b/scripts/train.py
@@ -88,8 +88,8 @@ def plot_accuracies(accuracies, ranges, params, fig=None, vmin=None, vmax=None,
             axes = tuple(a for a in range(count) if a != i and a != j)
 
             marg = marg2d(accuracies, axis=axes)
-            delta1 = (2 * r1) / marg.shape[0] / 2
-            delta2 = (2 * r2) / marg.shape[1] / 2
+            delta1 = r1 / max(marg.shape[0] - 1, 1)
+            delta2 = r2 / max(marg.shape[1] - 1, 1)
 
             img = plt.imshow(
                 marg.T,
-- 
2.43.0


From 37a52e594731ccdb76ac42e59cd5c71b17c8038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:07 +0000
Subject: [PATCH 32/34] fix: label the outer axes of the accuracy images

---
 scripts/train.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/train.py b/scripts/train.py
index b7fea7e..ed42357 100644
--- a/scripts/train.py
+++ b/scripts/train.py
@@ -99,12 +99,12 @@ def plot_accuracies(accuracies, ranges, params, fig=None, vmin=None, vmax=None,
                 cmap=cmap,
                 extent=(-r1 - delta1, r1 + delta1, -r2 - delta2, r2 + delta2),
                 aspect='auto')
-            if j == 0:
-                comp = 'Re' if part1 == 0 else 'Im'
-                plt.ylabel(fr'$\mathrm{{{comp}}}[{sympy.printing.latex(p1)}]$')
-            if i == count - 1:
+            if i == 0:
                 comp = 'Re' if part2 == 0 else 'Im'
-                plt.xlabel(fr'$\mathrm{{{comp}}}[{sympy.printing.latex(p2)}]$')
+                plt.ylabel(fr'$\mathrm{{{comp}}}[{sympy.printing.latex(p2)}]$')
+            if j == count - 1:
+                comp = 'Re' if part1 == 0 else 'Im'
+                plt.xlabel(fr'$\mathrm{{{comp}}}[{sympy.printing.latex(p1)}]$')
 
     plt.tight_layout()
 
-- 
2.43.0


From f860776b06bec3027e8f45f7393b247de19956d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:10:07 +0000
Subject: [PATCH 33/34] fix: draw accuracy plots into the figure passed in

---
 scripts/train.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/train.py b/scripts/train.py
index ed42357..fd88758 100644
--- a/scripts/train.py
+++ b/scripts/train.py
@@ -45,6 +45,8 @@ def cube_param_sampler(key, batch_size, *, max_abs=1, params_count):
 def plot_accuracies(accuracies, ranges, params, fig=None, vmin=None, vmax=None, marg2d=np.mean, cmap='Spectral_r'):
     if fig is None:
         fig = plt.figure(figsize=(11, 9))
+    else:
+        plt.figure(fig.number)
     if vmin is None:
         vmin = np.min(accuracies)
     if vmax is None:
-- 
2.43.0


From f9369b260010ea85b13812684dde05dff82c23eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:09 +0000
Subject: [PATCH 34/34] fix: accept unsigned integers as indices

---
 cyjax/donaldson.py | 3 ++-
 cyjax/util.py      | 9 ++++++++-
 cyjax/variety.py   | 1 +
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/cyjax/donaldson.py b/cyjax/donaldson.py
index 0ed44a9..97e43bf 100644
--- a/cyjax/donaldson.py
+++ b/cyjax/donaldson.py
@@ -22,7 +22,7 @@ import jax.numpy as jnp
 import numpy as np
 import sympy
 
-from .util import binomial, pop
+from .util import _signed, binomial, pop
 from .differential import jacobian_embed
 from .variety import VarietySingle
 from .projective import hom_to_affine
@@ -120,6 +120,7 @@ def _compute_monomials_log(zs, patch, pows):
         pows: N * n matrix of integers.
     """
     if patch is not None:
+        patch = _signed(patch)
         pows = jnp.roll(pows, -patch, axis=1)[:, 1:]
         zs = jnp.roll(zs, -patch, axis=0)
 
diff --git a/cyjax/util.py b/cyjax/util.py
index 923c34a..3bd2db5 100644
--- a/cyjax/util.py
+++ b/cyjax/util.py
@@ -37,6 +37,11 @@ def prod(factors: Union[np.ndarray, Array, Generator]) \
     return np.ones(()) if pr is None else pr
 
 
+def _signed(index):
+    # negating unsigned integers wraps around
+    return index + jnp.zeros((), dtype=int)
+
+
 @jax.jit
 def pop(arr: Array, index: int) -> tuple[Array, Array]:
     """Pop value of arr at index in JIT-compatible way.
@@ -48,7 +53,7 @@ def pop(arr: Array, index: int) -> tuple[Array, Array]:
         A tuple of the removed value and the remaining array.
     """
     chex.assert_type(index, int)
-    index = index % arr.shape[0]  # index may be counted from the back
+    index = _signed(index) % arr.shape[0]  # index may be counted from the back
     rolled = jnp.roll(arr, -index, axis=0)
     return rolled[0], jnp.roll(rolled[1:], index, axis=0)
 
@@ -71,6 +76,7 @@ def insert_1d(arr: Array, val: Numeric, index: int) -> Array:
     val = jnp.atleast_1d(val)
     chex.assert_rank(arr, 1)
     chex.assert_rank(val, 1)
+    index = _signed(index)
     shift = -jnp.where(index < 0, index + 1, index)
     shift_back = jnp.where(index < 0, -shift, index + len(val))
     shifted = jnp.roll(arr, shift)
@@ -95,6 +101,7 @@ def insert_col(mat: Array, col: Array, index: int) -> Array:
         col = col.reshape(-1, 1)
     chex.assert_rank(col, 2)
 
+    index = _signed(index)
     shift = -jnp.where(index < 0, index + 1, index)
     shift_back = jnp.where(index < 0, -shift, index + col.shape[1])
     mat = jnp.roll(mat, shift, axis=1)
diff --git a/cyjax/variety.py b/cyjax/variety.py
index 60bbc42..84ef6b3 100644
--- a/cyjax/variety.py
+++ b/cyjax/variety.py
@@ -299,6 +299,7 @@ class VarietySingle:
             dependent: Dependent coordinate; range 0, ..., dim_proj.
             params: Parameters of variety.
         """
+        dependent = int(dependent)  # may be unsigned
         # solve defining equation given all but one coordinate
         if patch is None:
             defining_poly = self.defining_poly
-- 
2.43.0

