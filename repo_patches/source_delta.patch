From bd041b855f1b28e299f004f378c57962f528aa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 01/78] fix: raise KeyError for an unknown parameter of a
 single-node GraphState

---
 src/lightcurvelynx/graph_state.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 08e3610..7ed4a36 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -170,8 +170,7 @@ class GraphState:
             node_state = list(self.states.values())[0]
             if key in node_state:
                 return node_state[key]
-        else:
-            raise KeyError(f"Unknown GraphState key: {key}")
+        raise KeyError(f"Unknown GraphState key: {key}")
 
     def copy(self):
         """Create a deep copy of the GraphState.
-- 
2.43.0


From b23617600a78d52568ce8ba63cba6aa176c1a6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 02/78] fix: store scalars when concatenating to a
 single-sample GraphState

---
 src/lightcurvelynx/graph_state.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 7ed4a36..4f14230 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -337,6 +337,9 @@ class GraphState:
             for current in graph_states:
                 values_list.append(np.atleast_1d(current[full_name]))
             values = np.concatenate(values_list)
+            if total_samples == 1:
+                # A single sample is stored as a scalar value instead of an array.
+                values = values[0]
             result.set(node_name, param_name, values, force_copy=False, fixed=False)
         return result
 
-- 
2.43.0


From d1e2eda47232476ee8ceb54fc97fa16abea8bbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 03/78] fix: leave the GraphState unchanged when a set is
 refused

---
 src/lightcurvelynx/graph_state.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 4f14230..c0d3bf8 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -409,6 +409,14 @@ class GraphState:
         if "." in node_name or "." in var_name:
             raise ValueError("GraphState names (node or variable) cannot contain the character '.'")
 
+        # Check the number of samples before changing anything.
+        is_fixed = var_name in self.fixed_vars.get(node_name, ())
+        if self.num_samples > 1 and not is_fixed and not np.isscalar(value) and len(value) != self.num_samples:
+            raise ValueError(
+                f"Incompatible number of samples when setting GraphState for node={node_name}, "
+                f"variable={var_name}: {self.num_samples} vs {len(value)}."
+            )
+
         # Update the meta data.
         if node_name not in self.states:
             self.states[node_name] = {}
@@ -427,11 +435,6 @@ class GraphState:
         elif np.isscalar(value):
             # If the value is a scalar, expand it to the correct number of samples.
             self.states[node_name][var_name] = np.full(self.num_samples, value)
-        elif len(value) != self.num_samples:
-            raise ValueError(
-                f"Incompatible number of samples when setting GraphState for node={node_name}, "
-                f"variable={var_name}: {self.num_samples} vs {len(value)}."
-            )
         elif force_copy:
             self.states[node_name][var_name] = np.array(value.copy())
         else:
-- 
2.43.0


From 7212fffca65ac359eea4d3d4dfb7d9bcf915a8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 04/78] fix: sample single-column tables in TableSampler

---
 src/lightcurvelynx/math_nodes/given_sampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightcurvelynx/math_nodes/given_sampler.py b/src/lightcurvelynx/math_nodes/given_sampler.py
index 8b7abba..231ff56 100644
--- a/src/lightcurvelynx/math_nodes/given_sampler.py
+++ b/src/lightcurvelynx/math_nodes/given_sampler.py
@@ -312,6 +312,10 @@ class TableSampler(NumpyRandomFunc):
             else:
                 results.append(attr_values)
 
+        # A single output is saved as its values instead of a list of outputs.
+        if len(self.outputs) == 1:
+            results = results[0]
+
         # Save and return the results.
         self._save_results(results, graph_state)
         return results
-- 
2.43.0


From 459ef6a7a2e3c8271be9e2b7b6e3da59c28fc3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 05/78] fix: use the given random number generator in
 DistributionSampler

---
 src/lightcurvelynx/math_nodes/distribution_sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/distribution_sampler.py b/src/lightcurvelynx/math_nodes/distribution_sampler.py
index 9c27e6c..f57de19 100644
--- a/src/lightcurvelynx/math_nodes/distribution_sampler.py
+++ b/src/lightcurvelynx/math_nodes/distribution_sampler.py
@@ -94,7 +94,8 @@ class DistributionSampler(FunctionNode):
 
         # Draw samples of the CDF [0, 1] and then use the inverse CDF spline to map those
         # back to the corresponding x values.
-        cdf_points = self._rng.random(num_samples)
+        rng = rng_info if rng_info is not None else self._rng
+        cdf_points = rng.random(num_samples)
         x_samples = self._inv_cdf(cdf_points)
         self._save_results(x_samples, graph_state)
         return x_samples
-- 
2.43.0


From a690e06ef24d5ab770c87df21f0d31c486e2ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 06/78] fix: return scalars for a single sample of
 ObsTableRADECSampler with a radius

---
 src/lightcurvelynx/math_nodes/ra_dec_sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
index 8fd248e..2a07cc2 100644
--- a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
+++ b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
@@ -138,8 +138,9 @@ class ObsTableRADECSampler(TableSampler):
 
             # Choose a uniform circle around the center point. Not that this is not uniform over
             # the final RA, dec because it does not account for compression in dec around the polls.
-            offset_amt = self.radius * np.sqrt(rng.uniform(0.0, 1.0, size=graph_state.num_samples))
-            offset_ang = 2.0 * np.pi * rng.uniform(0.0, 1.0, size=graph_state.num_samples)
+            size = None if graph_state.num_samples == 1 else graph_state.num_samples
+            offset_amt = self.radius * np.sqrt(rng.uniform(0.0, 1.0, size=size))
+            offset_ang = 2.0 * np.pi * rng.uniform(0.0, 1.0, size=size)
 
             # Add the offsets to RA and dec. Keep time unchanged.
             results[0] += offset_amt * np.cos(offset_ang)  # RA
-- 
2.43.0


From 8e7c6c4c4bdf25082f813e51a2369a35d16e0252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 07/78] fix: allow a single sample of a conditional PZFlowNode

---
 src/lightcurvelynx/astro_utils/pzflow_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/pzflow_node.py b/src/lightcurvelynx/astro_utils/pzflow_node.py
index 58e2ced..ce02816 100644
--- a/src/lightcurvelynx/astro_utils/pzflow_node.py
+++ b/src/lightcurvelynx/astro_utils/pzflow_node.py
@@ -101,7 +101,7 @@ class PZFlowNode(FunctionNode, CiteClass):
             all_params = self.get_local_params(graph_state)
             input_params = {}
             for col in self.conditional_cols:
-                input_params[col] = all_params[col]
+                input_params[col] = np.atleast_1d(all_params[col])
             input_df = pd.DataFrame(input_params)
 
             samples = self.flow.sample(1, conditions=input_df, seed=seed)
-- 
2.43.0


From 8b75f8cb9d268ed5f975958e681547a0831c313e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 08/78] fix: draw the SN position angle from the given random
 number generator

---
 src/lightcurvelynx/astro_utils/snia_utils.py | 31 ++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/snia_utils.py b/src/lightcurvelynx/astro_utils/snia_utils.py
index 3f22571..8654ae7 100644
--- a/src/lightcurvelynx/astro_utils/snia_utils.py
+++ b/src/lightcurvelynx/astro_utils/snia_utils.py
@@ -386,7 +386,7 @@ class SNCoordGivenPhysicalSep(FunctionNode):
 
         return angular_sep_rad
 
-    def _sn_coord(self, host_ra, host_dec, physical_sep_kpc, redshift):
+    def _sn_coord(self, host_ra, host_dec, physical_sep_kpc, redshift, rng=None):
         """
         Function to generate SN coordinates given the host coordinates and angular separation.
 
@@ -400,6 +400,8 @@ class SNCoordGivenPhysicalSep(FunctionNode):
             The physical host-sn separation(s) in kpc.
         redshift : float or numpy.ndarray
             The redshift to convert physical separation to angular separation.
+        rng : numpy.random._generator.Generator, optional
+            The random number generator to use for the position angle.
 
         Returns
         -------
@@ -411,10 +413,35 @@ class SNCoordGivenPhysicalSep(FunctionNode):
 
         self.angular_sep_rad = self._host_sn_angular_separation(physical_sep_kpc, redshift)
         center = SkyCoord(host_ra * u.deg, host_dec * u.deg, frame="icrs")
-        rand_pa = 2 * np.pi * np.random.random(center.size) * u.rad  # random position angle
+        if rng is None:
+            rng = np.random.default_rng()
+        rand_pa = 2 * np.pi * rng.random(center.size) * u.rad  # random position angle
 
         sn_coord = center.directional_offset_by(rand_pa, self.angular_sep_rad)
         ra = sn_coord.ra.deg
         dec = sn_coord.dec.deg
 
         return ra, dec
+
+    def compute(self, graph_state, rng_info=None, **kwargs):
+        """Sample the SN coordinates.
+
+        Parameters
+        ----------
+        graph_state : GraphState
+            An object mapping graph parameters to their values. This object is modified
+            in place as it is sampled.
+        rng_info : numpy.random._generator.Generator, optional
+            A given numpy random number generator to use for this computation.
+        **kwargs : dict, optional
+            Additional function arguments.
+
+        Returns
+        -------
+        results : tuple
+            The RA and dec of the SN (in degrees).
+        """
+        args = self._build_inputs(graph_state, **kwargs)
+        results = self._sn_coord(**args, rng=rng_info)
+        self._save_results(results, graph_state)
+        return results
-- 
2.43.0


From 3ba025e41b64df4bc209500cde3132d5c539f21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 09/78] fix: evaluate max and min of BasicMathNode element-wise

---
 .../math_nodes/basic_math_node.py             | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/basic_math_node.py b/src/lightcurvelynx/math_nodes/basic_math_node.py
index 79405e8..143f894 100644
--- a/src/lightcurvelynx/math_nodes/basic_math_node.py
+++ b/src/lightcurvelynx/math_nodes/basic_math_node.py
@@ -5,6 +5,7 @@ small FunctionNodes to perform basic math.
 """
 
 import ast
+import functools
 
 # Disable unused import because we need all of these imported
 # so they can be used during evaluation of the node.
@@ -16,6 +17,26 @@ import numpy as np  # noqa: F401
 from lightcurvelynx.base_models import FunctionNode
 
 
+def _np_max(*args):
+    """The element-wise maximum of the arguments."""
+    return functools.reduce(np.maximum, args)
+
+
+def _np_min(*args):
+    """The element-wise minimum of the arguments."""
+    return functools.reduce(np.minimum, args)
+
+
+def _jnp_max(*args):
+    """The element-wise maximum of the arguments (JAX)."""
+    return functools.reduce(jnp.maximum, args)
+
+
+def _jnp_min(*args):
+    """The element-wise minimum of the arguments (JAX)."""
+    return functools.reduce(jnp.minimum, args)
+
+
 class BasicMathNode(FunctionNode):
     """A node that evaluates basic mathematical functions.
 
@@ -98,8 +119,8 @@ class BasicMathNode(FunctionNode):
         "log": ["math.log", "np.log", "jnp.log"],
         "log10": ["math.log10", "np.log10", "jnp.log10"],
         "log2": ["math.log2", "np.log2", "jnp.log2"],
-        "max": ["max", "np.max", "jnp.max"],  # Special handling for math
-        "min": ["min", "np.min", "jnp.min"],  # Special handling for math
+        "max": ["max", "_np_max", "_jnp_max"],  # Special handling for math
+        "min": ["min", "_np_min", "_jnp_min"],  # Special handling for math
         "pi": ["math.pi", "np.pi", "jnp.pi"],
         "pow": ["math.pow", "np.power", "jnp.power"],  # Special handling for numpy
         "power": ["math.pow", "np.power", "jnp.power"],  # Special handling for math
-- 
2.43.0


From 7043e80045382e0bc946d122ff6458f00ba42923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 10/78] fix: copy the weights of GivenValueSampler before
 normalizing them

---
 src/lightcurvelynx/math_nodes/given_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/given_sampler.py b/src/lightcurvelynx/math_nodes/given_sampler.py
index 231ff56..a67f2a8 100644
--- a/src/lightcurvelynx/math_nodes/given_sampler.py
+++ b/src/lightcurvelynx/math_nodes/given_sampler.py
@@ -150,7 +150,7 @@ class GivenValueSampler(NumpyRandomFunc):
 
         # Compute the normalized weights for each value.
         if weights is not None:
-            self._weights = np.asarray(weights)
+            self._weights = np.array(weights, dtype=float)
             if len(self._weights) != self._num_values:
                 raise ValueError("Weights must match the number of values provided.")
             self._weights /= np.sum(self._weights)
-- 
2.43.0


From 416c3ce4b13710f08bc69c40ea7e2e19cbd9ce81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 11/78] fix: map draws below the first cumulative value to the
 first point in DistributionSampler

---
 src/lightcurvelynx/math_nodes/distribution_sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/distribution_sampler.py b/src/lightcurvelynx/math_nodes/distribution_sampler.py
index f57de19..413dd2d 100644
--- a/src/lightcurvelynx/math_nodes/distribution_sampler.py
+++ b/src/lightcurvelynx/math_nodes/distribution_sampler.py
@@ -55,7 +55,10 @@ class DistributionSampler(FunctionNode):
         # of the inverse CDF function.
         cdf_samples = np.cumsum(y)
         cdf_samples /= cdf_samples[-1]
-        self._inv_cdf = interp1d(cdf_samples, x, kind=kind, fill_value=0.0)
+        # The first point carries all the probability up to its own cumulative value.
+        self._inv_cdf = interp1d(
+            cdf_samples, x, kind=kind, bounds_error=False, fill_value=(x[0], x[-1])
+        )
 
     def set_seed(self, new_seed):
         """Update the random number generator's seed to a given value.
-- 
2.43.0


From fc5f91ec5446e43f1559918a238f01f9360b6d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 12/78] fix: look up observations by position in
 ObsTable.get_observations

---
 src/lightcurvelynx/obstable/obs_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index d0c658d..7c7479e 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -654,7 +654,7 @@ class ObsTable:
             # by using the class accessor (__getitem__), instead of the table one.
             if col not in self:
                 raise KeyError(f"Unrecognized column name {col}")
-            results[col] = self[col][neighbors].to_numpy()
+            results[col] = self[col].iloc[neighbors].to_numpy()
         return results
 
     def bandflux_error_point_source(self, bandflux, index):
-- 
2.43.0


From 7b05410e697f88182996c4ea55a97bea1af9f585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 13/78] fix: accept scalar time bounds for several query points
 in ObsTable.range_search

---
 src/lightcurvelynx/obstable/obs_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 7c7479e..df6df23 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -566,14 +566,14 @@ class ObsTable:
             if t_min is None:
                 t_min = np.full(num_queries, -np.inf)
             else:
-                t_min = np.atleast_1d(t_min)
+                t_min = np.full(num_queries, t_min) if np.ndim(t_min) == 0 else np.atleast_1d(t_min)
             if len(t_min) != num_queries:
                 raise ValueError(f"t_min must be a scalar or an array of length {num_queries}.")
 
             if t_max is None:
                 t_max = np.full(num_queries, np.inf)
             else:
-                t_max = np.atleast_1d(t_max)
+                t_max = np.full(num_queries, t_max) if np.ndim(t_max) == 0 else np.atleast_1d(t_max)
             if len(t_max) != num_queries:
                 raise ValueError(f"t_max must be a scalar or an array of length {num_queries}.")
 
-- 
2.43.0


From a5f77e3f54b4d17e03b96b5c4b325bb30885312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 14/78] fix: update the filters of an ObsTable when its rows
 are filtered

---
 src/lightcurvelynx/obstable/obs_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index df6df23..4daee16 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -466,6 +466,8 @@ class ObsTable:
 
         # Filter the rows in-place and build a new kd-tree.
         self._table = self._table[mask]
+        if "filter" in self._table.columns:
+            self.filters = np.unique(self._table["filter"])
         self._kd_tree = None
         self._build_kd_tree()
 
-- 
2.43.0


From 2fbc7e084137ab68d36da193db3460e14442d58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 15/78] fix: do not modify the table given to RomanObsTable and
 accept dictionaries

---
 src/lightcurvelynx/obstable/roman_obstable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/roman_obstable.py b/src/lightcurvelynx/obstable/roman_obstable.py
index db90386..236ddd5 100644
--- a/src/lightcurvelynx/obstable/roman_obstable.py
+++ b/src/lightcurvelynx/obstable/roman_obstable.py
@@ -103,7 +103,7 @@ class RomanObsTable(ObsTable):
     def __init__(self, table, colmap=None, ma_table_path=None, **kwargs):
         colmap = self._default_colnames if colmap is None else colmap
 
-        self.apt_table = table
+        self.apt_table = pd.DataFrame(table).copy()
         self.ma_table = _get_ma_table(ma_table_path)
         roman_char = _get_roman_char()
         self.zp_table = roman_char["zp_table"]
-- 
2.43.0


From a4248f1fe4848f18adb26c84d49864d44599fc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 16/78] fix: read the multi-accum table of RomanObsTable from
 the given path

---
 src/lightcurvelynx/obstable/roman_obstable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/roman_obstable.py b/src/lightcurvelynx/obstable/roman_obstable.py
index 236ddd5..a1f545f 100644
--- a/src/lightcurvelynx/obstable/roman_obstable.py
+++ b/src/lightcurvelynx/obstable/roman_obstable.py
@@ -59,11 +59,11 @@ def _get_roman_char():
 
 def _get_ma_table(ma_table_path=None):
     if ma_table_path is None:
-        ma_table_file = (
+        ma_table_path = (
             _LIGHTCURVELYNX_BASE_DATA_DIR
             / "roman_characterization/roman_wfi_imaging_multiaccum_tables_with_exptime.csv"
         )
-    ma_table = pd.read_csv(ma_table_file)
+    ma_table = pd.read_csv(ma_table_path)
 
     return ma_table
 
-- 
2.43.0


From baa95049b909e23cf717e06227f30327c2e5e193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 17/78] fix: derive ZTF zero points from the detector values of
 the survey

---
 src/lightcurvelynx/obstable/ztf_obstable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/obstable/ztf_obstable.py b/src/lightcurvelynx/obstable/ztf_obstable.py
index ca1c0cf..1fb4bd0 100644
--- a/src/lightcurvelynx/obstable/ztf_obstable.py
+++ b/src/lightcurvelynx/obstable/ztf_obstable.py
@@ -99,9 +99,9 @@ class ZTFObsTable(ObsTable):
             maglim=self._table["maglim"],
             sky=self._table["sky"],
             fwhm=self._table["fwhm"],
-            gain=_ztfcam_ccd_gain,
-            readnoise=_ztfcam_readout_noise,
-            darkcurrent=_ztfcam_dark_current,
+            gain=self.safe_get_survey_value("gain"),
+            readnoise=self.safe_get_survey_value("read_noise"),
+            darkcurrent=self.safe_get_survey_value("dark_current"),
             exptime=self._table["exptime"],
             nexposure=1,
         )
-- 
2.43.0


From 8e2cad087452dbc753b377bbaf7bc97aa2228d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 18/78] fix: allow any number of time points in
 oversample_opsim

---
 src/lightcurvelynx/obstable/opsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/opsim.py b/src/lightcurvelynx/obstable/opsim.py
index 622fb73..7920d25 100644
--- a/src/lightcurvelynx/obstable/opsim.py
+++ b/src/lightcurvelynx/obstable/opsim.py
@@ -324,7 +324,7 @@ def oversample_opsim(
             "time": new_times,
             "ra": ra,
             "dec": dec,
-            "filter": np.tile(bands, n // len(bands)),
+            "filter": np.resize(bands, n),
         }
     )
     other_columns = [column for column in observations.columns if column not in new_table.columns]
-- 
2.43.0


From 4a3380cd6f5fddb78e4da9e189dc89090de121cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 19/78] fix: pass the keyword arguments of evaluate_sed on when
 extrapolating

---
 src/lightcurvelynx/models/physical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index 2754ca7..1a1affb 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -371,7 +371,7 @@ class SEDModel(BasePhysicalModel):
 
         # Pad the wavelengths with the min and max values and compute the flux at those points.
         query_waves = np.concatenate(([min_valid_wave], wavelengths[in_range], [max_valid_wave]))
-        computed_flux = self.compute_sed(times, query_waves, graph_state)
+        computed_flux = self.compute_sed(times, query_waves, graph_state, **kwargs)
 
         # Initially zero pad the full array until we fill in the values with extrapolation.
         # We drop the first and last flux values since they were added to get the flux at the
-- 
2.43.0


From 57cf0291775b8c33a44351fcc36523f8fc7d5f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 20/78] fix: query models with a single wavelength limit only
 inside their range

---
 src/lightcurvelynx/models/physical_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index 1a1affb..78141fc 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -358,7 +358,10 @@ class SEDModel(BasePhysicalModel):
         max_query_wave = np.max(wavelengths)
         max_valid_wave = self.maxwave(graph_state=graph_state)
         if max_valid_wave is None:
-            max_valid_wave = max_query_wave
+            # There is no upper limit, but the lower one still applies.
+            max_valid_wave = max(max_query_wave, min_valid_wave)
+        # If there is no lower limit, the upper one still applies.
+        min_valid_wave = min(min_valid_wave, max_valid_wave)
 
         # If no extrapolation is needed, just call compute SED.
         if min_query_wave >= min_valid_wave and max_query_wave <= max_valid_wave:
-- 
2.43.0


From 0cab87b6c1f899f51853663e5e772c2fe1fb1685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 21/78] fix: average duplicate wavelengths of transmission
 tables

---
 src/lightcurvelynx/astro_utils/passbands.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 7346a61..d38b50b 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -704,7 +704,8 @@ class Passband:
             raise ValueError("Wavelengths in transmission table must be strictly increasing.")
         if np.any(diffs == 0.0):
             logger.warning("Duplicate wavelengths found in transmission table; averaging values.")
-            dup_inds = np.where(diffs == 0.0)
+            dup_inds = np.where(diffs == 0.0)[0]
+            table_values = np.copy(table_values)
             table_values[dup_inds, 1] = 0.5 * (table_values[dup_inds, 1] + table_values[dup_inds + 1, 1])
             table_values = np.delete(table_values, dup_inds + 1, axis=0)
         self._loaded_table = np.copy(table_values)
@@ -997,7 +998,7 @@ class Passband:
             raise ValueError("Wavelengths in transmission table must be increasing.")
         if np.any(diffs == 0.0):
             logger.warning("Duplicate wavelengths found in transmission table; averaging values.")
-            dup_inds = np.where(diffs == 0.0)
+            dup_inds = np.where(diffs == 0.0)[0]
             loaded_table[dup_inds, 1] = 0.5 * (loaded_table[dup_inds, 1] + loaded_table[dup_inds + 1, 1])
             loaded_table = np.delete(loaded_table, dup_inds + 1, axis=0)
 
-- 
2.43.0


From 1adfdb672880edb90e53b83d0db62dfe87fd99e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 22/78] fix: integrate bandfluxes with the actual step of the
 wavelength grid

---
 src/lightcurvelynx/astro_utils/passbands.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index d38b50b..94041b5 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -1209,7 +1209,9 @@ class Passband:
             # integration and removing half the first and last values (to make it trapezoidal).
             first_val = np.take(integrand, 0, axis=w_axis)
             last_val = np.take(integrand, -1, axis=w_axis)
-            bandfluxes = (np.sum(integrand, axis=w_axis) - 0.5 * (first_val + last_val)) * self.delta_wave
+            # The actual grid step can differ from the requested one to fit the passband's range.
+            step = self.waves[1] - self.waves[0]
+            bandfluxes = (np.sum(integrand, axis=w_axis) - 0.5 * (first_val + last_val)) * step
         else:
             # Do the full integration.
             bandfluxes = scipy.integrate.trapezoid(integrand, x=self.waves, axis=w_axis)
-- 
2.43.0


From bc7339555c47f9e17a5a01ed4bc9e57da3753c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 23/78] fix: report passbands without transmission with a
 ValueError

---
 src/lightcurvelynx/astro_utils/passbands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 94041b5..a51d608 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -1144,7 +1144,7 @@ class Passband:
             raise ValueError(
                 "Denominator is zero; cannot normalize transmission table. "
                 f"Consider checking the transmission table for band {self.full_name}. "
-                f"With wave grid set to: {self._wave_grid}, transmission table wavelengths are: "
+                f"With wave grid step set to: {self.delta_wave}, transmission table wavelengths are: "
                 f"{transmission_table[:, 0]}."
             )
 
-- 
2.43.0


From ee29af58136dc3379a57943bcd30e7e02169e3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 24/78] fix: use the right columns for merged wavelengths in
 PassbandGroup

---
 src/lightcurvelynx/astro_utils/passbands.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index a51d608..67bad7f 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -495,7 +495,9 @@ class PassbandGroup:
             if np.array_equal(self.waves[lower_index : upper_index + 1], passband.waves):
                 indices = slice(lower_index, upper_index + 1)
             else:
-                indices = np.searchsorted(self.waves, passband.waves)
+                # Nearly identical wavelengths are merged into the smallest one, so use the last
+                # grid point that is not above the passband's wavelength.
+                indices = np.searchsorted(self.waves, passband.waves, side="right") - 1
             self._in_band_wave_indices[name] = indices
 
     def wave_bounds(self):
-- 
2.43.0


From cc224c1b91a77cf5fa83d2731412e3b2473fa206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:06 +0000
Subject: [PATCH 25/78] fix: load passbands from a relative directory path

---
 src/lightcurvelynx/astro_utils/passbands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 67bad7f..c146667 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -214,7 +214,7 @@ class PassbandGroup:
                     params = {
                         "survey": dir_path.name,
                         "filter_name": filter_name,
-                        "table_path": dir_path / entry,
+                        "table_path": entry,
                         "delta_wave": delta_wave,
                         "trim_quantile": trim_quantile,
                         "units": units,
-- 
2.43.0


From 0693e12512eac5ff034caa73e594e4562f8abaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 26/78] fix: accept both names of a passband in the filters of
 a PassbandGroup

---
 src/lightcurvelynx/astro_utils/passbands.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index c146667..39b73f6 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -112,9 +112,9 @@ class PassbandGroup:
 
             for pb_name in all_bands:
                 pb_obj = self.passbands[pb_name]
-                if pb_name in filters:
+                if pb_name in filters or pb_obj.filter_name in filters:
+                    # The passband may be listed under either name (or both).
                     filters_remaining.discard(pb_name)
-                elif pb_obj.filter_name in filters:
                     filters_remaining.discard(pb_obj.filter_name)
                 else:
                     del self.passbands[pb_name]
-- 
2.43.0


From 823327a50ba0da56c96cbd91b59d762e0ef5c063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 27/78] fix: evaluate the models of a simulation with the given
 random number generator

---
 src/lightcurvelynx/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 37b39bb..7689af6 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -193,7 +193,7 @@ def simulate_lightcurves(
 
             # Compute the bandfluxes and errors over just the given filters.
             bandfluxes_perfect = model.evaluate_bandfluxes(
-                passbands[survey_idx], obs_times, obs_filters, state
+                passbands[survey_idx], obs_times, obs_filters, state, rng_info=rng
             )
             bandfluxes_error = obstable[survey_idx].bandflux_error_point_source(bandfluxes_perfect, obs_index)
             bandfluxes = apply_noise(bandfluxes_perfect, bandfluxes_error, rng=rng)
-- 
2.43.0


From 9ad2851c80fced7d54e02120b4702add8352bb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:46 +0000
Subject: [PATCH 28/78] fix: do not truncate zero point coefficients given as
 integers

---
 src/lightcurvelynx/astro_utils/zeropoint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/zeropoint.py b/src/lightcurvelynx/astro_utils/zeropoint.py
index 88182d5..f3a9bb7 100644
--- a/src/lightcurvelynx/astro_utils/zeropoint.py
+++ b/src/lightcurvelynx/astro_utils/zeropoint.py
@@ -51,8 +51,8 @@ def magnitude_electron_zeropoint(  # noqa: D103
     instr_zp = _lsstcam_zeropoint_per_sec_zenith if instr_zp is None else instr_zp
     ext_coeff = _lsstcam_extinction_coeff if ext_coeff is None else ext_coeff
 
-    instr_zp_getter = np.vectorize(instr_zp.get)
-    ext_coeff_getter = np.vectorize(ext_coeff.get)
+    instr_zp_getter = np.vectorize(instr_zp.__getitem__, otypes=[float])
+    ext_coeff_getter = np.vectorize(ext_coeff.__getitem__, otypes=[float])
 
     return instr_zp_getter(band) + ext_coeff_getter(band) * (airmass - 1) + 2.5 * np.log10(exptime)
 
-- 
2.43.0


From 4748815a84d5aeaece22f274cedeeb0773d0b952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 29/78] fix: map noise-free light curves of blueshifted sources
 to observer times

---
 src/lightcurvelynx/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 7689af6..5c7d6f1 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -288,7 +288,7 @@ def compute_single_noise_free_lightcurve(
 
     # Compute the observed-frame times (MJD) if needed.
     redshift = model.get_param(graph_state, "redshift")
-    if redshift is not None and redshift > 0:
+    if redshift is not None:
         times = times * (1 + redshift)
 
     t0 = model.get_param(graph_state, "t0")
-- 
2.43.0


From 803c541117bb614e88b6d798f52eb356460d01ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 30/78] fix: noise-free light curves with integer phases and a
 fractional t0

---
 src/lightcurvelynx/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 5c7d6f1..b319a08 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -293,7 +293,7 @@ def compute_single_noise_free_lightcurve(
 
     t0 = model.get_param(graph_state, "t0")
     if t0 is not None:
-        times += t0
+        times = times + t0
 
     # Compute the light curve without noise for each time in each filter.
     lightcurves = {"times": times, "rest_phase": rest_phase}
-- 
2.43.0


From d4c0bc2b2a480375b0ddddd9b0cf99f886729a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 31/78] fix: do not overwrite the caller's baseline dictionary
 of a light curve

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index e98ff0e..ad30131 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -145,7 +145,8 @@ class LightcurveData:
             for filter in self.lightcurves:
                 if filter not in baseline:
                     raise ValueError(f"Baseline value for filter {filter} is missing.")
-            self.baseline = baseline
+            # Make a copy of the baseline to avoid modifying the original data.
+            self.baseline = dict(baseline)
 
         # Convert the baseline from magnitudes to fluxes if needed.
         if magnitudes_in:
-- 
2.43.0


From 5314268e0029b7e48bd96609f809a0226268edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 32/78] fix: keep the default baseline at zero flux for light
 curves in magnitudes

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index ad30131..ef61771 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -141,6 +141,7 @@ class LightcurveData:
         # set the baseline to 0.0 for each filter.
         if baseline is None:
             self.baseline = {filter: 0.0 for filter in self.lightcurves}
+            magnitudes_in = False  # The default baseline is already a flux.
         else:
             for filter in self.lightcurves:
                 if filter not in baseline:
-- 
2.43.0


From adf1fbd21c42f3c93b20a79081a518358daf72f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 33/78] fix: accept light curves given as integer arrays
 without truncating them

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index ef61771..c31be24 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -93,8 +93,8 @@ class LightcurveData:
         self.period = None
 
         if isinstance(lightcurves, dict):
-            # Make a copy of the light curves to avoid modifying the original data.
-            self.lightcurves = {filter: lc.copy() for filter, lc in lightcurves.items()}
+            # Make a (float) copy of the light curves to avoid modifying the original data.
+            self.lightcurves = {filter: lc.astype(float) for filter, lc in lightcurves.items()}
         elif isinstance(lightcurves, np.ndarray):
             if lightcurves.shape[1] != 3:
                 raise ValueError("Light curves array must have 3 columns: time, flux, and filter.")
-- 
2.43.0


From f93469314e4d7e27232581aa58271c7de8cb94be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 34/78] fix: index the passband's own wavelengths when building
 the light curve SED basis

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index c31be24..eb0fe12 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -466,7 +466,7 @@ class BaseLightcurveTemplateModel(BandfluxModel, ABC):
             # for this filter and find their indices in the passband group.
             is_significant = passbands[filter].processed_transmission_table[:, 1] > 1e-5
             significant_waves = passbands[filter].waves[is_significant]
-            indices = np.searchsorted(passbands.waves, significant_waves)
+            indices = np.searchsorted(passbands.waves, significant_waves, side="right") - 1
 
             # Mark all non-negligible wavelengths as used by this filter.
             waves_per_filter[idx, indices] = 1.0
-- 
2.43.0


From c6bc56f84f638a0a2578ec65b4fbd318fc3d757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 35/78] fix: do not carry the metadata of one LCLIB event over
 to the next

---
 src/lightcurvelynx/utils/io_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index 17891b5..ced720e 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -163,7 +163,8 @@ def _read_lclib_data_from_open_file(input_file):
     """
     colnames = []
     curves = []
-    meta = {}
+    file_meta = {}
+    meta = file_meta  # Outside of an event, the metadata applies to the whole file.
     current_model = {}
     parnames = []
     in_doc_block = False
@@ -202,6 +203,7 @@ def _read_lclib_data_from_open_file(input_file):
 
             # Save the table we have so far.
             curves.append(Table(current_model, meta=meta))
+            meta = file_meta
         elif key == "START_EVENT":
             if len(colnames) == 0:
                 raise ValueError(f"Error on line= {l_num}: No filters defined.")
@@ -210,6 +212,9 @@ def _read_lclib_data_from_open_file(input_file):
             current_model["type"] = []  # Initialize the type list.
             for col in colnames:
                 current_model[col] = []
+
+            # Start from the file's metadata, so one event's values do not carry over to the next.
+            meta = file_meta.copy()
             meta["id"] = value
         elif key == "S" or key == "T":
             # Save an observation or template to the current light curve.
-- 
2.43.0


From 596eac6038bbfc018d4be8b296d082cf66ad0541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 36/78] fix: toggle the redshift of every object of a
 multi-object model

---
 src/lightcurvelynx/models/multi_object_model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 2098781..2e5572d 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -88,9 +88,8 @@ class MultiObjectModel(SEDModel):
         apply_redshift : bool
             The new value for apply_redshift.
         """
-        for idx, object in enumerate(self.objects):
-            if self._is_bandflux[idx]:
-                object.set_apply_redshift(apply_redshift)
+        for object in self.objects:
+            object.set_apply_redshift(apply_redshift)
 
     def add_effect(self, effect):
         """Add an effect to each of the submodels.
-- 
2.43.0


From 7189c406c46a28f0f8f218dbcf93aa8128784d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:33 +0000
Subject: [PATCH 37/78] fix: look up the selected object by name for its
 wavelength limits

---
 src/lightcurvelynx/models/multi_object_model.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 2e5572d..cb08d7b 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -442,6 +442,11 @@ class RandomMultiObjectModel(MultiObjectModel):
         self._sampler_node = GivenValueSampler(object_names, weights=weights)
         self.add_parameter("selected_object", value=self._sampler_node, allow_gradient=False)
 
+    def _get_selected_object(self, graph_state):
+        """Get the object (given by its name or index) that is selected in the graph state."""
+        selected = self.get_param(graph_state, "selected_object")
+        return self.object_map[selected] if selected in self.object_map else self.objects[selected]
+
     def minwave(self, graph_state=None):
         """Get the minimum wavelength of the model.
 
@@ -457,8 +462,7 @@ class RandomMultiObjectModel(MultiObjectModel):
             The minimum wavelength of the model (in angstroms) or None
             if the model does not have a defined minimum wavelength.
         """
-        idx = self.get_param(graph_state, "selected_object")
-        return self.objects[idx].minwave(graph_state=graph_state)
+        return self._get_selected_object(graph_state).minwave(graph_state=graph_state)
 
     def maxwave(self, graph_state=None):
         """Get the maximum wavelength of the model.
@@ -475,8 +479,7 @@ class RandomMultiObjectModel(MultiObjectModel):
             The maximum wavelength of the model (in angstroms) or None
             if the model does not have a defined maximum wavelength.
         """
-        idx = self.get_param(graph_state, "selected_object")
-        return self.objects[idx].maxwave(graph_state=graph_state)
+        return self._get_selected_object(graph_state).maxwave(graph_state=graph_state)
 
     def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
         """Evaluate the model and apply the effects for a single, given graph state.
-- 
2.43.0


From 7cc8887e46ae2c7c537e4e578cb169d4ec41c819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:33 +0000
Subject: [PATCH 38/78] fix: give each object of a random multi-object model
 its own name

---
 src/lightcurvelynx/models/multi_object_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index cb08d7b..738fe2a 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -437,7 +437,13 @@ class RandomMultiObjectModel(MultiObjectModel):
         super().__init__(objects, **kwargs)
 
         # Create a parameter to indicate which object was selected.
-        object_names = object_names or [src.node_string for src in objects]
+        if object_names is None:
+            object_names = [src.node_string for src in objects]
+            if len(set(object_names)) != len(object_names):
+                # Objects without a label share their default name, so add the index.
+                object_names = [f"{name}_{idx}" for idx, name in enumerate(object_names)]
+        if len(object_names) != len(objects) or len(set(object_names)) != len(object_names):
+            raise ValueError("Each object must have its own unique name.")
         self.object_map = {name: src for name, src in zip(object_names, objects, strict=False)}
         self._sampler_node = GivenValueSampler(object_names, weights=weights)
         self.add_parameter("selected_object", value=self._sampler_node, allow_gradient=False)
-- 
2.43.0


From b4814d98f2bbf36b83cf78879ec3dc8ca78f5a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:33 +0000
Subject: [PATCH 39/78] fix: sample the objects of nested multi-object models

---
 .../models/multi_object_model.py              | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 738fe2a..1354d59 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -111,6 +111,27 @@ class MultiObjectModel(SEDModel):
                     self.add_parameter(param_name, setter, allow_gradient=False)
             self.obs_frame_effects.append(effect)
 
+    def _sample_helper(self, graph_state, seen_nodes, rng_info=None):
+        """Internal recursive function to sample the parameters of the objects and then
+        the model's own parameters.
+
+        Parameters
+        ----------
+        graph_state : GraphState
+            An object mapping graph parameters to their values. This object is modified
+            in place as it is sampled.
+        seen_nodes : dict
+            A dictionary mapping nodes strings seen during this sampling run to their object.
+            Used to avoid sampling nodes multiple times and to validity check the graph.
+        rng_info : numpy.random._generator.Generator, optional
+            A given numpy random number generator to use for this computation. If not
+            provided, the function uses the node's random number generator.
+        """
+        if str(self) not in seen_nodes:
+            for object in self.objects:
+                object._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
+        super()._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
+
     def sample_parameters(self, given_args=None, num_samples=1, rng_info=None):
         """Sample the model's underlying parameters if they are provided by a function
         or ParameterizedModel.
@@ -146,8 +167,6 @@ class MultiObjectModel(SEDModel):
             graph_state.update(given_args, all_fixed=True)
 
         seen_nodes = {}
-        for object in self.objects:
-            object._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
         self._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
 
         return graph_state
-- 
2.43.0


From 11a8a2f9dbbe6a2da39331072f4f17d907fdc1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 40/78] fix: mark observations without a signal to noise ratio
 as not detected

---
 src/lightcurvelynx/utils/post_process_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 8092744..3387dcb 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -144,7 +144,7 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
     # Compute SNR and detection flag.
     snr = lightcurve_compute_snr(flux, fluxerr)
     results["lightcurve.snr"] = snr
-    results["lightcurve.detection"] = [(x is not None and x >= min_snr) for x in snr]
+    results["lightcurve.detection"] = [(x is not ma.masked and x >= min_snr) for x in snr]
 
     # Compute magnitude and magnitude error.
     mag, magerr = lightcurve_compute_mag(flux, fluxerr)
-- 
2.43.0


From 9a7a3790f8d47ee3364741d84977598eef58f081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 41/78] fix: compute the relative times with the t0 of the
 light curve's own row

---
 src/lightcurvelynx/utils/post_process_results.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 3387dcb..005a579 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -156,8 +156,7 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
         if "mjd" not in results["lightcurve"].nest.fields:
             raise ValueError("lightcurve.mjd must be present in the DataFrame.")
 
-        # Get the index for the t0 entry for each lightcurve MJD and use that
+        # Repeat the t0 of each row for each of its lightcurve MJDs and use that
         # to subtract out the reference t0.
-        t0 = np.asanyarray(results["t0"])
-        t0_idx = np.array(results["lightcurve"]["mjd"].index)
-        results["lightcurve.time_rel"] = results["lightcurve.mjd"] - t0[t0_idx]
+        t0 = np.repeat(np.asarray(results["t0"]), results["lightcurve"].nest.list_lengths)
+        results["lightcurve.time_rel"] = results["lightcurve.mjd"] - t0
-- 
2.43.0


From a61bc6c3d5d7d933bb66b08831ec0b06df4273f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 42/78] fix: compute the relative times when a t0 is zero

---
 src/lightcurvelynx/utils/post_process_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 005a579..f53f52d 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -152,7 +152,7 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
     results["lightcurve.magerr"] = magerr
 
     # If t0 is provided as a column in results, compute relative time.
-    if "t0" in results.columns and np.all(results["t0"]) and results["t0"].notna().all():
+    if "t0" in results.columns and results["t0"].notna().all():
         if "mjd" not in results["lightcurve"].nest.fields:
             raise ValueError("lightcurve.mjd must be present in the DataFrame.")
 
-- 
2.43.0


From d90466b6be8ce82b4c84dccd91decf263378aaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:25 +0000
Subject: [PATCH 43/78] fix: accept the keyword arguments of evaluate_sed in
 the static model

---
 src/lightcurvelynx/models/static_sed_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/static_sed_model.py b/src/lightcurvelynx/models/static_sed_model.py
index d44a01d..3bef6fa 100644
--- a/src/lightcurvelynx/models/static_sed_model.py
+++ b/src/lightcurvelynx/models/static_sed_model.py
@@ -177,7 +177,7 @@ class StaticSEDModel(SEDModel):
         idx = self.get_param(graph_state, "selected_idx")
         return self.sed_values[idx][0, -1]
 
-    def compute_sed(self, times, wavelengths, graph_state):
+    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
         """Draw effect-free observer frame flux densities.
 
         Parameters
@@ -188,6 +188,8 @@ class StaticSEDModel(SEDModel):
             A length N array of observer frame wavelengths (in angstroms).
         graph_state : GraphState
             An object mapping graph parameters to their values.
+        **kwargs : dict, optional
+           Any additional keyword arguments.
 
         Returns
         -------
-- 
2.43.0


From 2d5d44b1f3ed40666d9ddd41b79f9c22b90be5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:25 +0000
Subject: [PATCH 44/78] fix: compare the distance and the radius of a galaxy in
 the same unit

---
 src/lightcurvelynx/models/galaxy_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/galaxy_models.py b/src/lightcurvelynx/models/galaxy_models.py
index b4240f9..f714578 100644
--- a/src/lightcurvelynx/models/galaxy_models.py
+++ b/src/lightcurvelynx/models/galaxy_models.py
@@ -67,8 +67,9 @@ class GaussianGalaxy(SEDModel):
                 dec * np.pi / 180.0,
             )
 
-        # Scale the brightness as a Guassian function centered on the object's RA and Dec.
-        std = params["galaxy_radius_std"]
+        # Scale the brightness as a Guassian function centered on the object's RA and Dec
+        # (the distance is in radians and the standard deviation in degrees).
+        std = params["galaxy_radius_std"] * np.pi / 180.0
         scale = np.exp(-(dist * dist) / (2.0 * std * std))
 
         return np.full((len(times), len(wavelengths)), params["brightness"] * scale)
-- 
2.43.0


From 8bb9da582f91721756af4375dc9524594819e206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:25 +0000
Subject: [PATCH 45/78] fix: evaluate a spline model at times in any order

---
 src/lightcurvelynx/models/spline_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/spline_model.py b/src/lightcurvelynx/models/spline_model.py
index 572526f..dec6e52 100644
--- a/src/lightcurvelynx/models/spline_model.py
+++ b/src/lightcurvelynx/models/spline_model.py
@@ -5,6 +5,7 @@ It is adapted from sncosmo's TimeSeriesSource model:
 https://github.com/sncosmo/sncosmo/blob/v2.10.1/sncosmo/models.py
 """
 
+import numpy as np
 from scipy.interpolate import RectBivariateSpline
 
 from lightcurvelynx.models.physical_model import SEDModel
@@ -187,5 +188,8 @@ class SplineModel(SEDModel):
         if t0 is None:
             t0 = 0.0
 
-        fluxes = params["amplitude"] * self._spline(times - t0, wavelengths, grid=True)
+        # Evaluate the spline point by point, because the times and wavelengths may be in any order.
+        times = np.asarray(times) - t0
+        wavelengths = np.asarray(wavelengths)
+        fluxes = params["amplitude"] * self._spline(times[:, np.newaxis], wavelengths[np.newaxis, :], grid=False)
         return fluxes
-- 
2.43.0


From e5e1c9479c78d9aed02f7566ac53cbbbdea6f6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:08 +0000
Subject: [PATCH 46/78] fix: evaluate a model without a graph state when given
 extra keyword arguments

---
 src/lightcurvelynx/models/physical_model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index 78141fc..c45c3cf 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -498,9 +498,7 @@ class SEDModel(BasePhysicalModel):
 
         # Check if we need to sample the graph.
         if graph_state is None:
-            graph_state = self.sample_parameters(
-                given_args=given_args, num_samples=1, rng_info=rng_info, **kwargs
-            )
+            graph_state = self.sample_parameters(given_args=given_args, num_samples=1, rng_info=rng_info)
 
         # If we only have a single sample, do not bother to iterate through the states.
         if graph_state.num_samples == 1:
-- 
2.43.0


From 520b39e0a5d9ef3f7aa00cd8eea1a1e2898d26e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:36 +0000
Subject: [PATCH 47/78] fix: keep the given PriorDict of a BilbyPriorNode

---
 src/lightcurvelynx/math_nodes/bilby_priors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/bilby_priors.py b/src/lightcurvelynx/math_nodes/bilby_priors.py
index 2dc6564..c812abb 100644
--- a/src/lightcurvelynx/math_nodes/bilby_priors.py
+++ b/src/lightcurvelynx/math_nodes/bilby_priors.py
@@ -58,7 +58,9 @@ class BilbyPriorNode(FunctionNode, CiteClass):
                     "Bilby package is not installed be default. To use the bilby priors, "
                     "please install it. For example, you can install it with `pip install bilby`."
                 ) from err
-            prior = PriorDict(prior)
+            # Keep an existing PriorDict, which may hold conditions and constraints.
+            if not isinstance(prior, PriorDict):
+                prior = PriorDict(prior)
         if len(prior) == 0:
             raise ValueError("The provided prior is empty.")
         self.prior = prior
-- 
2.43.0


From 11a0f8aaf479c4423a2dfa8d6b463ad2b3d5eb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:05 +0000
Subject: [PATCH 48/78] fix: extrapolate redback models outside of the
 wavelengths of their result

---
 src/lightcurvelynx/models/physical_model.py | 12 +++++++++---
 src/lightcurvelynx/models/redback_models.py | 12 ++++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index c45c3cf..7311118 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -330,7 +330,7 @@ class SEDModel(BasePhysicalModel):
         """
         raise NotImplementedError()
 
-    def compute_sed_with_extrapolation(self, times, wavelengths, graph_state, **kwargs):
+    def compute_sed_with_extrapolation(self, times, wavelengths, graph_state, wave_range=None, **kwargs):
         """Draw effect-free observations for this object, extrapolating
         to wavelengths where the model is not defined.
 
@@ -342,6 +342,9 @@ class SEDModel(BasePhysicalModel):
             A length N array of wavelengths (in angstroms).
         graph_state : GraphState
             An object mapping graph parameters to their values.
+        wave_range : tuple, optional
+            The minimum and maximum wavelength (in angstroms) at which the model is defined.
+            If None the limits given by minwave() and maxwave() are used.
         **kwargs : dict, optional
            Any additional keyword arguments.
 
@@ -350,13 +353,16 @@ class SEDModel(BasePhysicalModel):
         flux_density : numpy.ndarray
             A length T x N matrix of SED values (in nJy).
         """
+        if wave_range is None:
+            wave_range = (self.minwave(graph_state=graph_state), self.maxwave(graph_state=graph_state))
+
         min_query_wave = np.min(wavelengths)
-        min_valid_wave = self.minwave(graph_state=graph_state)
+        min_valid_wave = wave_range[0]
         if min_valid_wave is None:
             min_valid_wave = min_query_wave
 
         max_query_wave = np.max(wavelengths)
-        max_valid_wave = self.maxwave(graph_state=graph_state)
+        max_valid_wave = wave_range[1]
         if max_valid_wave is None:
             # There is no upper limit, but the lower one still applies.
             max_valid_wave = max(max_query_wave, min_valid_wave)
diff --git a/src/lightcurvelynx/models/redback_models.py b/src/lightcurvelynx/models/redback_models.py
index 24472f6..480873b 100644
--- a/src/lightcurvelynx/models/redback_models.py
+++ b/src/lightcurvelynx/models/redback_models.py
@@ -205,8 +205,16 @@ class RedbackWrapperModel(SEDModel, CiteClass):
         # need to use extrapolation if the wavelengths are out of bounds. The function
         # compute_sed_with_extrapolation() will trim the input wavelengths to be within the model's bounds
         # and call this function again. So the second call passes this bounds check and does not recurse.
-        if np.any(wavelengths < rb_result.minwave()) or np.any(wavelengths > rb_result.maxwave()):
-            return self.compute_sed_with_extrapolation(times, wavelengths, graph_state, **kwargs)
+        # The bounds depend on the parameters, so they are only known from the result.
+        wave_range = (rb_result.minwave(), rb_result.maxwave())
+        if np.any(wavelengths < wave_range[0]) or np.any(wavelengths > wave_range[1]):
+            return self.compute_sed_with_extrapolation(
+                times,
+                wavelengths,
+                graph_state,
+                wave_range=wave_range,
+                **kwargs,
+            )
 
         # Query the model and convert the output to nJy.
         model_flam = rb_result.get_flux_density(shifted_times, wavelengths)
-- 
2.43.0


From fa0ff8000e01effe0b56ef63aef9cc52e4081bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:21 +0000
Subject: [PATCH 49/78] fix: draw from bilby priors with constraints

---
 src/lightcurvelynx/math_nodes/bilby_priors.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/bilby_priors.py b/src/lightcurvelynx/math_nodes/bilby_priors.py
index c812abb..98b47e2 100644
--- a/src/lightcurvelynx/math_nodes/bilby_priors.py
+++ b/src/lightcurvelynx/math_nodes/bilby_priors.py
@@ -52,7 +52,7 @@ class BilbyPriorNode(FunctionNode, CiteClass):
         # PriorDict object.
         if isinstance(prior, dict):
             try:
-                from bilby.core.prior import PriorDict
+                from bilby.core.prior import Constraint, PriorDict
             except ImportError as err:
                 raise ImportError(
                     "Bilby package is not installed be default. To use the bilby priors, "
@@ -65,8 +65,11 @@ class BilbyPriorNode(FunctionNode, CiteClass):
             raise ValueError("The provided prior is empty.")
         self.prior = prior
 
-        # Set the outputs to be the names of the parameters in the prior.
+        # Set the outputs to be the names of the parameters in the prior. Constraints restrict
+        # the draws, but are not drawn themselves.
         outputs = [param for param in prior]
+        if isinstance(prior, dict):
+            outputs = [param for param in outputs if not isinstance(prior[param], Constraint)]
         super().__init__(self._non_func, outputs=outputs, **kwargs)
 
     def set_seed(self, new_seed):
-- 
2.43.0


From 44305a214ff9f9fc28f512fe69046f092ffe7004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:24 +0000
Subject: [PATCH 50/78] fix: use the Rv parameter of the BayeSN model in its
 extinction law

---
 src/lightcurvelynx/models/bayesn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/bayesn.py b/src/lightcurvelynx/models/bayesn.py
index 0e1bcfa..69d4f1b 100644
--- a/src/lightcurvelynx/models/bayesn.py
+++ b/src/lightcurvelynx/models/bayesn.py
@@ -486,9 +486,9 @@ class BayesnModel(SEDModel, CiteClass):
         flux_density = H_grid * 10 ** (-0.4 * W_grid)
 
         # Apply dust extinction law
-        # Get ebv such that ebv = Rv/Av
+        # Get ebv such that ebv = Av/Rv
         ebv = params["Av"] / params["Rv"]
-        ext = ExtinctionEffect(extinction_model="F99", ebv=ebv, frame="rest")
+        ext = ExtinctionEffect(extinction_model="F99", ebv=ebv, frame="rest", Rv=params["Rv"])
         flux_density = ext.apply(flux_density, tau, wavelengths, ebv)
 
         # Apply the fixed distance modulus normalisation factor effect
-- 
2.43.0


From e13568dea68237910dde3f4ef4103122a16c1ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:24 +0000
Subject: [PATCH 51/78] fix: pass the 2D spline of the BayeSN model through its
 knots

---
 src/lightcurvelynx/models/bayesn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/models/bayesn.py b/src/lightcurvelynx/models/bayesn.py
index 69d4f1b..6e10433 100644
--- a/src/lightcurvelynx/models/bayesn.py
+++ b/src/lightcurvelynx/models/bayesn.py
@@ -239,7 +239,7 @@ class BayesnModel(SEDModel, CiteClass):
         # Step1: Compute RHS alpha for the linear system
         alpha = np.zeros(n)
         for i in range(1, n - 1):
-            alpha[i] = (3 / h[i]) * (y[i + 1] - y[i]) - (3 / h[i - 1]) * (y[i] - y[i - 1])
+            alpha[i] = (6 / h[i]) * (y[i + 1] - y[i]) - (6 / h[i - 1]) * (y[i] - y[i - 1])
 
         # Step 2: Forward elimination (Thomas algorithm for tridiagonal system)
         wave = np.ones(n)
@@ -357,10 +357,10 @@ class BayesnModel(SEDModel, CiteClass):
                 Mx11 = Mx[x1_idx, y1_idx]
 
                 # Interpolate in x for both fixed y0 and y1
-                fx0 = (ax**3 * Mx00 + bx**3 * Mx10) * hx / 6 + (
+                fx0 = (ax**3 * Mx00 + bx**3 * Mx10) * hx**2 / 6 + (
                     ax * (z00 - Mx00 * hx**2 / 6) + bx * (z10 - Mx10 * hx**2 / 6)
                 )
-                fx1 = (ax**3 * Mx01 + bx**3 * Mx11) * hx / 6 + (
+                fx1 = (ax**3 * Mx01 + bx**3 * Mx11) * hx**2 / 6 + (
                     ax * (z01 - Mx01 * hx**2 / 6) + bx * (z11 - Mx11 * hx**2 / 6)
                 )
 
@@ -375,7 +375,7 @@ class BayesnModel(SEDModel, CiteClass):
             My0 = My[xi_idx, y0_idx]
             My1 = My[xi_idx, y1_idx]
 
-            Zq[:, j] = (ay**3 * My0 + by**3 * My1) * hy / 6 + (
+            Zq[:, j] = (ay**3 * My0 + by**3 * My1) * hy**2 / 6 + (
                 ay * (f_y0 - My0 * hy**2 / 6) + by * (f_y1 - My1 * hy**2 / 6)
             )
 
-- 
2.43.0


From 7bf918b92247df174ef36a86bb486867ccb6f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:24 +0000
Subject: [PATCH 52/78] fix: use the curvature at the queried phase in the 2D
 spline of the BayeSN model

---
 src/lightcurvelynx/models/bayesn.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/models/bayesn.py b/src/lightcurvelynx/models/bayesn.py
index 6e10433..a043036 100644
--- a/src/lightcurvelynx/models/bayesn.py
+++ b/src/lightcurvelynx/models/bayesn.py
@@ -322,6 +322,7 @@ class BayesnModel(SEDModel, CiteClass):
         px, py = len(xq), len(yq)
 
         xi_idx = np.clip(np.searchsorted(x, xq) - 1, 0, nx - 2)
+        x_weight = (xq - x[xi_idx]) / (x[xi_idx + 1] - x[xi_idx])
         yj_idx = np.clip(np.searchsorted(y, yq) - 1, 0, ny - 2)
 
         Zq = np.zeros((px, py))
@@ -371,9 +372,9 @@ class BayesnModel(SEDModel, CiteClass):
             f_y0 = np.array(f_y0)
             f_y1 = np.array(f_y1)
 
-            # Spline in y using fx0 and fx1
-            My0 = My[xi_idx, y0_idx]
-            My1 = My[xi_idx, y1_idx]
+            # Spline in y using fx0 and fx1 and the second derivatives at the query positions in x
+            My0 = (1 - x_weight) * My[xi_idx, y0_idx] + x_weight * My[xi_idx + 1, y0_idx]
+            My1 = (1 - x_weight) * My[xi_idx, y1_idx] + x_weight * My[xi_idx + 1, y1_idx]
 
             Zq[:, j] = (ay**3 * My0 + by**3 * My1) * hy**2 / 6 + (
                 ay * (f_y0 - My0 * hy**2 / 6) + by * (f_y1 - My1 * hy**2 / 6)
-- 
2.43.0


From 69169c00fcecbc5225f1d74efcc9b58a2df24bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 53/78] fix: convert the survey's pixel scale to degrees for
 the detector footprint

---
 src/lightcurvelynx/obstable/obs_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 4daee16..45fc986 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -141,7 +141,10 @@ class ObsTable:
         # Create the footprint if one is provided.
         self._wcs = wcs
         if isinstance(detector_footprint, Region):
+            # The survey's pixel scale is in arcseconds per pixel, but the footprint uses degrees.
             pixel_scale = self.survey_values.get("pixel_scale", None)
+            if pixel_scale is not None:
+                pixel_scale = pixel_scale / 3600.0
             detector_footprint = DetectorFootprint(detector_footprint, wcs=wcs, pixel_scale=pixel_scale)
         self._detector_footprint = detector_footprint
 
-- 
2.43.0


From 8c467eec416945f05b09852d82a72bad76ee30d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 54/78] fix: center the default detector footprint on the
 pointing

---
 src/lightcurvelynx/astro_utils/detector_footprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/detector_footprint.py b/src/lightcurvelynx/astro_utils/detector_footprint.py
index 4ce9916..954d867 100644
--- a/src/lightcurvelynx/astro_utils/detector_footprint.py
+++ b/src/lightcurvelynx/astro_utils/detector_footprint.py
@@ -35,7 +35,7 @@ class DetectorFootprint:
             wcs = WCS(naxis=2)
             wcs.wcs.ctype = ["RA---TAN", "DEC--TAN"]
             wcs.wcs.crval = [0.0, 0.0]  # Centered on (0.0, 0.0)
-            wcs.wcs.crpix = [0.5, 0.5]  # Reference pixel at the center of (0.0, 0.0)
+            wcs.wcs.crpix = [1.0, 1.0]  # The center of pixel (0, 0). FITS counts pixels from one.
             wcs.wcs.cdelt = [pixel_scale, pixel_scale]  # The given pixel scale in degrees/pixel
         self.wcs = wcs
 
-- 
2.43.0


From 7afe3c89d76a9debc82e469ed2b60f3aa07fbcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:40 +0000
Subject: [PATCH 55/78] fix: accept passband tables of whole numbers

---
 src/lightcurvelynx/astro_utils/passbands.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 39b73f6..09ec16e 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -698,7 +698,9 @@ class Passband:
         self.full_name = f"{survey}_{filter_name}"
         self.delta_wave = delta_wave
 
-        # Perform validation of the transmission table.
+        # Perform validation of the transmission table. Whole numbers are converted to floats,
+        # so that later changes to the values are not truncated.
+        table_values = np.asarray(table_values, dtype=float)
         if table_values.shape[1] != 2:
             raise ValueError("Passband requires an input table with exactly two columns.")
         diffs = np.diff(table_values[:, 0])
-- 
2.43.0


From 88e4f1a4a0f3b00e285d1e3b8a62824dfc26b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:40 +0000
Subject: [PATCH 56/78] fix: average all transmissions given for the same
 wavelength

---
 src/lightcurvelynx/astro_utils/passbands.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 09ec16e..ca9fbf7 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -708,10 +708,11 @@ class Passband:
             raise ValueError("Wavelengths in transmission table must be strictly increasing.")
         if np.any(diffs == 0.0):
             logger.warning("Duplicate wavelengths found in transmission table; averaging values.")
-            dup_inds = np.where(diffs == 0.0)[0]
-            table_values = np.copy(table_values)
-            table_values[dup_inds, 1] = 0.5 * (table_values[dup_inds, 1] + table_values[dup_inds + 1, 1])
-            table_values = np.delete(table_values, dup_inds + 1, axis=0)
+            unique_waves, inverse, counts = np.unique(
+                table_values[:, 0], return_inverse=True, return_counts=True
+            )
+            sums = np.bincount(inverse, weights=table_values[:, 1])
+            table_values = np.column_stack((unique_waves, sums / counts))
         self._loaded_table = np.copy(table_values)
 
         # Ensure the wavelengths are in Angstroms.
-- 
2.43.0


From 6ba4c24e513f7e03d6fefe4c837b3d9ecdf44206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:40 +0000
Subject: [PATCH 57/78] fix: offset sampled pointings given as whole numbers

---
 src/lightcurvelynx/math_nodes/ra_dec_sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
index 2a07cc2..4dac355 100644
--- a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
+++ b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
@@ -143,8 +143,8 @@ class ObsTableRADECSampler(TableSampler):
             offset_ang = 2.0 * np.pi * rng.uniform(0.0, 1.0, size=size)
 
             # Add the offsets to RA and dec. Keep time unchanged.
-            results[0] += offset_amt * np.cos(offset_ang)  # RA
-            results[1] += offset_amt * np.sin(offset_ang)  # dec
+            results[0] = results[0] + offset_amt * np.cos(offset_ang)  # RA
+            results[1] = results[1] + offset_amt * np.sin(offset_ang)  # dec
 
             # Resave the results (overwriting the previous results)
             self._save_results(results, graph_state)
-- 
2.43.0


From fd7bd23d69ca8871defc3127268a031361bb7870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:02 +0000
Subject: [PATCH 58/78] fix: save graph states with a single sample

---
 src/lightcurvelynx/graph_state.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index c0d3bf8..c44d1ab 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -597,7 +597,9 @@ class GraphState:
         values = Table()
         for node_name, node_params in self.states.items():
             for param_name, param_value in node_params.items():
-                values[self.extended_param_name(node_name, param_name)] = np.array(param_value)
+                # A single sample is stored without a samples dimension, but is one row of the table.
+                column = [param_value] if self.num_samples == 1 else param_value
+                values[self.extended_param_name(node_name, param_name)] = np.array(column)
         return values
 
     def to_dict(self):
-- 
2.43.0


From 4dd809654ea0337d8650e4f12818f06b127b7c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:02 +0000
Subject: [PATCH 59/78] fix: compare graph states with strings, missing values
 and vectors

---
 src/lightcurvelynx/graph_state.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index c44d1ab..85560a0 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -135,7 +135,14 @@ class GraphState:
             for var_name, var_value in node_params.items():
                 if var_name not in other_params:
                     return False
-                if not np.allclose(var_value, other_params[var_name]):
+                value1 = np.asarray(var_value)
+                value2 = np.asarray(other_params[var_name])
+                if value1.shape != value2.shape:
+                    return False
+                if value1.dtype.kind in "biufc" and value2.dtype.kind in "biufc":
+                    if not np.allclose(value1, value2):
+                        return False
+                elif not np.all(value1 == value2):  # Strings, None, or other objects.
                     return False
 
         # Finally check that the 'fixed' dictionary is the same.
-- 
2.43.0


From d4a5302f9feca9d92ac493913516d97e89e8dfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:02 +0000
Subject: [PATCH 60/78] fix: keep empty strings of a saved graph state

---
 src/lightcurvelynx/graph_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 85560a0..84b4566 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -253,7 +253,7 @@ class GraphState:
         filename : str or Path
             The name of the file.
         """
-        data_table = ascii.read(filename, format="ecsv")
+        data_table = ascii.read(filename, format="ecsv", fill_values=[])  # Empty strings are values.
         return GraphState.from_table(data_table)
 
     @classmethod
-- 
2.43.0


From 3eb9c341bb457c6fbcc0f1272f60fc50670f8c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:02 +0000
Subject: [PATCH 61/78] fix: read the .dat files that write_numpy_data writes

---
 src/lightcurvelynx/utils/io_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index ced720e..5d1bf95 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -8,8 +8,8 @@ from astropy.table import Table
 
 def read_numpy_data(file_path):
     """Read in a numpy array from different formats depending on the file extension.
-    Automatically detects and handles files in .npy, .npz, .csv, .ecsv, and .txt
-    formats.
+    Automatically detects and handles files in .npy, .npz, .csv, .ecsv, .txt,
+    and .dat formats.
 
     Parameters
     ----------
@@ -33,7 +33,7 @@ def read_numpy_data(file_path):
         data = np.load(file_path)["arr_0"]
     elif file_path.suffix in [".csv", ".ecsv"]:
         data = np.loadtxt(file_path, delimiter=",", comments="#")
-    elif file_path.suffix in [".txt"]:
+    elif file_path.suffix in [".txt", ".dat"]:
         data = np.loadtxt(file_path, comments="#")
     else:
         raise ValueError(f"Unsupported file format: {file_path.suffix}.")
-- 
2.43.0


From f20c8404427748629ae76c454a15d59240cde7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:02 +0000
Subject: [PATCH 62/78] fix: do not add an index column when a table is written
 to a database

---
 src/lightcurvelynx/obstable/obs_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 45fc986..9d0119d 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -400,7 +400,7 @@ class ObsTable:
 
         con = sqlite3.connect(filename)
         try:
-            self._table.to_sql(tablename, con, if_exists=if_exists)
+            self._table.to_sql(tablename, con, if_exists=if_exists, index=False)
         except Exception:
             raise ValueError("Database write failed.") from None
 
-- 
2.43.0


From d27efdc7db7cf0a715bad15fabd00ed56a81d5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:02 +0000
Subject: [PATCH 63/78] fix: is_observed for a list of declinations at one
 right ascension

---
 src/lightcurvelynx/obstable/obs_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 9d0119d..8aee234 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -503,7 +503,7 @@ class ObsTable:
             of query points.
         """
         inds = self.range_search(query_ra, query_dec, radius=radius, t_min=t_min, t_max=t_max)
-        if np.isscalar(query_ra):
+        if np.isscalar(query_ra) and np.isscalar(query_dec):
             return len(inds) > 0
         return [len(entry) > 0 for entry in inds]
 
-- 
2.43.0


From 3f0049c70337627deef31e7322c5153a7831ccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:02 +0000
Subject: [PATCH 64/78] fix: keep the survey values stored in a parquet file

---
 src/lightcurvelynx/obstable/obs_table.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 8aee234..756dcdb 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -302,7 +302,11 @@ class ObsTable:
         if not Path(filename).is_file():
             raise FileNotFoundError(f"File {filename} not found.")
         survey_data = pd.read_parquet(filename)
-        return cls(survey_data)
+        obs_table = cls(survey_data)
+
+        # The stored survey values take precedence over the constructor's default arguments.
+        obs_table.survey_values.update(survey_data.attrs.get("lightcurvelynx_survey_data", {}))
+        return obs_table
 
     def build_moc(self, *, radius=None, max_depth=10):
         """Build a Multi-Order Coverage Map from the regions in the data set.
-- 
2.43.0


From bd30c821e91ba87d0009e482aa7a92e0de7ceb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:02 +0000
Subject: [PATCH 65/78] fix: keep the constant flux errors of a stored
 FakeObsTable

---
 src/lightcurvelynx/obstable/fake_obs_table.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/fake_obs_table.py b/src/lightcurvelynx/obstable/fake_obs_table.py
index 999f4a3..8a389e1 100644
--- a/src/lightcurvelynx/obstable/fake_obs_table.py
+++ b/src/lightcurvelynx/obstable/fake_obs_table.py
@@ -87,7 +87,10 @@ class FakeObsTable(ObsTable):
         **kwargs,
     ):
         self.zp_per_band = zp_per_band
-        self.const_flux_error = const_flux_error
+
+        # Keep any constant flux error with the survey values, so it is stored with the table.
+        if const_flux_error is not None:
+            kwargs["const_flux_error"] = const_flux_error
 
         # Pass along all the survey parameters to the parent class.
         super().__init__(
@@ -104,6 +107,8 @@ class FakeObsTable(ObsTable):
             **kwargs,
         )
 
+        const_flux_error = self.survey_values.get("const_flux_error", None)
+        self.const_flux_error = const_flux_error
         if const_flux_error is not None:
             # Convert a constant into a per-band dictionary.
             if isinstance(const_flux_error, int | float):
-- 
2.43.0


From 576495430044871925291f4d8f417f66ad2b2fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:02 +0000
Subject: [PATCH 66/78] fix: read back ZTF tables made from dates

---
 src/lightcurvelynx/obstable/ztf_obstable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/ztf_obstable.py b/src/lightcurvelynx/obstable/ztf_obstable.py
index 1fb4bd0..6fef411 100644
--- a/src/lightcurvelynx/obstable/ztf_obstable.py
+++ b/src/lightcurvelynx/obstable/ztf_obstable.py
@@ -75,7 +75,7 @@ class ZTFObsTable(ObsTable):
 
         # Make a copy of the table data with the obsdate converted to the MJD and
         # save in time.
-        if "obsdate" in table and "obsmjd" not in table:
+        if "obsdate" in table and "obsmjd" not in table and "time" not in table:
             table = table.copy()
             t = Time(list(table["obsdate"]), format="iso", scale="utc")
             table["obsmjd"] = t.mjd
-- 
2.43.0


From 63c20240f67701280da05c48c14c175f07c0a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:03 +0000
Subject: [PATCH 67/78] fix: accept the units and forced downloads of the Roman
 preset

---
 src/lightcurvelynx/astro_utils/passbands.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index ca9fbf7..03b51b6 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -339,12 +339,11 @@ class PassbandGroup:
         passbands = []
 
         # Check that units are what is expected for this preset.
-        if kwargs.get("units", "micron") != "micron":
-            raise ValueError(
-                f"Roman passbands are expected to be in microns (micron), but got {kwargs.get('units')}"
-            )
+        units = kwargs.pop("units", "micron")
+        if units != "micron":
+            raise ValueError(f"Roman passbands are expected to be in microns (micron), but got {units}")
 
-        force_download = kwargs.get("force_download", False)
+        force_download = kwargs.pop("force_download", False)
         table_path = table_dir / "Roman" / "roman_wfi_filters.ecsv"
         table_url = (
             "https://github.com/RomanSpaceTelescope/roman-technical-information/blob/main/data/"
-- 
2.43.0


From 734f76eeb76989b47a5018c747702504f87661f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:56 +0000
Subject: [PATCH 68/78] fix: scale bicubic grids given as whole numbers

---
 src/lightcurvelynx/utils/bicubic_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/bicubic_interp.py b/src/lightcurvelynx/utils/bicubic_interp.py
index 8f8a868..57fddcc 100644
--- a/src/lightcurvelynx/utils/bicubic_interp.py
+++ b/src/lightcurvelynx/utils/bicubic_interp.py
@@ -187,7 +187,7 @@ class BicubicInterpolator:
             Default: 1.0
         """
         x_vals, y_vals, z_vals = read_grid_data(filename)
-        z_vals *= scale_factor
+        z_vals = z_vals * scale_factor
         return BicubicInterpolator(x_vals, y_vals, z_vals)
 
     def __call__(self, x_q, y_q):
-- 
2.43.0


From 35da6ef4b3cc82fc123bf1b272cb499f92d2552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:31 +0000
Subject: [PATCH 69/78] fix: join single samples whose values are arrays

---
 src/lightcurvelynx/graph_state.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 84b4566..d9faa99 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -342,7 +342,9 @@ class GraphState:
             # from each of the GraphStates.
             values_list = []
             for current in graph_states:
-                values_list.append(np.atleast_1d(current[full_name]))
+                # The value of a single sample can itself be an array.
+                value = current[full_name]
+                values_list.append(np.asarray([value]) if current.num_samples == 1 else np.asarray(value))
             values = np.concatenate(values_list)
             if total_samples == 1:
                 # A single sample is stored as a scalar value instead of an array.
-- 
2.43.0


From 70e8f6bd828ed7cb19e0b9f5279334bba4a14f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:43 +0000
Subject: [PATCH 70/78] fix: update all samples from a state with a single
 sample of any value

---
 src/lightcurvelynx/graph_state.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index d9faa99..2e6c6ca 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -420,7 +420,8 @@ class GraphState:
 
         # Check the number of samples before changing anything.
         is_fixed = var_name in self.fixed_vars.get(node_name, ())
-        if self.num_samples > 1 and not is_fixed and not np.isscalar(value) and len(value) != self.num_samples:
+        is_scalar = value is None or np.isscalar(value)
+        if self.num_samples > 1 and not is_fixed and not is_scalar and len(value) != self.num_samples:
             raise ValueError(
                 f"Incompatible number of samples when setting GraphState for node={node_name}, "
                 f"variable={var_name}: {self.num_samples} vs {len(value)}."
@@ -441,8 +442,8 @@ class GraphState:
         if self.num_samples == 1:
             # If this GraphState holds only a single sample, set it from the given value.
             self.states[node_name][var_name] = value
-        elif np.isscalar(value):
-            # If the value is a scalar, expand it to the correct number of samples.
+        elif is_scalar:
+            # If the value is a scalar (or missing), expand it to the correct number of samples.
             self.states[node_name][var_name] = np.full(self.num_samples, value)
         elif force_copy:
             self.states[node_name][var_name] = np.array(value.copy())
@@ -494,6 +495,13 @@ class GraphState:
         # number of samples.
         for node_name, node_vars in new_states.items():
             for var_name, value in node_vars.items():
+                if (
+                    isinstance(inputs, GraphState)
+                    and inputs.num_samples < self.num_samples
+                    and not (value is None or np.isscalar(value))
+                ):
+                    # The value of the single sample is itself an array that applies to each sample.
+                    value = np.repeat(np.asarray([value]), self.num_samples, axis=0)
                 self.set(node_name, var_name, value, force_copy=force_copy, fixed=all_fixed)
 
     def extract_single_sample(self, sample_num):
-- 
2.43.0


From f5b01c1e7468548d07d010b8eda42f18f1fd558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:09 +0000
Subject: [PATCH 71/78] fix: copy the array values of a state with a single
 sample

---
 src/lightcurvelynx/graph_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 2e6c6ca..5b5ed22 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -192,7 +192,7 @@ class GraphState:
         for node_name, node_vars in self.states.items():
             new_state.states[node_name] = {}
             for var_name, var_value in node_vars.items():
-                if self.num_samples == 1:
+                if self.num_samples == 1 and not isinstance(var_value, np.ndarray | list):
                     new_state.states[node_name][var_name] = var_value
                 else:
                     new_state.states[node_name][var_name] = var_value.copy()
@@ -441,7 +441,8 @@ class GraphState:
         # Set the actual values.
         if self.num_samples == 1:
             # If this GraphState holds only a single sample, set it from the given value.
-            self.states[node_name][var_name] = value
+            is_array = isinstance(value, np.ndarray | list)
+            self.states[node_name][var_name] = value.copy() if force_copy and is_array else value
         elif is_scalar:
             # If the value is a scalar (or missing), expand it to the correct number of samples.
             self.states[node_name][var_name] = np.full(self.num_samples, value)
-- 
2.43.0


From 693cf2955e3d8a7906cb662802b70a1b568831a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:40 +0000
Subject: [PATCH 72/78] fix: apply no time window to several samples of a model
 without t0

---
 src/lightcurvelynx/simulate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index b319a08..adb4d8a 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -42,6 +42,9 @@ def get_time_windows(t0, time_window_offset):
     # If t0 is a scalar apply the offset directly.
     if np.isscalar(t0):
         t0 = np.array([t0])
+    if all(value is None for value in np.atleast_1d(t0)):
+        # The model does not have a t0 for any of the samples.
+        return None, None
     start_times = t0 - before if before is not None else None
     end_times = t0 + after if after is not None else None
 
-- 
2.43.0


From 6d90f54c2e93b3a02bea4b3eb623ca16595df150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:00 +0000
Subject: [PATCH 73/78] fix: save parameter columns of a single sample whose
 value is an array

---
 src/lightcurvelynx/simulate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index adb4d8a..f939a73 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -149,7 +149,9 @@ def simulate_lightcurves(
                     f"Parameter column {col} not found in model parameters. "
                     f"Available parameters are: {sample_states.get_all_params_names()}."
                 )
-            results_dict[col.replace(".", "_")] = np.atleast_1d(sample_states[col]).tolist()
+            # The value of a single sample can itself be an array.
+            values = [sample_states[col]] if num_samples == 1 else sample_states[col]
+            results_dict[col.replace(".", "_")] = np.asarray(values).tolist()
 
     # Set up the nested array for the per-observation data, including ObsTable information.
     nested_index = []
-- 
2.43.0


From 57ba52d100be09aa81e34aee7f2a590e19fba658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:10 +0000
Subject: [PATCH 74/78] fix: fetch a file anew when a forced download finds an
 old copy

---
 src/lightcurvelynx/utils/data_download.py | 30 +++++++++++++++++------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/lightcurvelynx/utils/data_download.py b/src/lightcurvelynx/utils/data_download.py
index 1f805ba..1a1f5e2 100644
--- a/src/lightcurvelynx/utils/data_download.py
+++ b/src/lightcurvelynx/utils/data_download.py
@@ -39,15 +39,29 @@ def download_data_file_if_needed(data_path, data_url, force_download=False):
     # Create the directory in which to save the file if it does not already exist.
     data_path.parent.mkdir(parents=True, exist_ok=True)
 
+    # pooch trusts an existing file that it has no hash of, so an old copy is set aside
+    # (and put back if the download fails).
+    old_path = data_path.with_name(data_path.name + ".old")
+    if data_path.exists():
+        data_path.replace(old_path)
+
     # Use pooch to download the data files and extract them to the data directory.
-    full_path = pooch.retrieve(
-        url=data_url,
-        known_hash=None,
-        fname=data_path.name,
-        path=data_path.parent,
-    )
-
-    if full_path is None or not Path(full_path).exists():
+    downloaded = False
+    try:
+        full_path = pooch.retrieve(
+            url=data_url,
+            known_hash=None,
+            fname=data_path.name,
+            path=data_path.parent,
+        )
+        downloaded = full_path is not None and Path(full_path).exists()
+    finally:
+        if downloaded:
+            old_path.unlink(missing_ok=True)
+        elif old_path.exists():
+            old_path.replace(data_path)
+
+    if not downloaded:
         logger.error(f"Transmission table not downloaded from {data_url}.")
         return False
     return True
-- 
2.43.0


From 9587f51668ce3621a2de68c75f80e3387b8c229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:38 +0000
Subject: [PATCH 75/78] fix: drop the empty lightcurves that are not missing

---
 src/lightcurvelynx/utils/post_process_results.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index f53f52d..5e5e9dc 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -21,7 +21,8 @@ def results_drop_empty(results):
     nested_pandas.NestedFrame
         The DataFrame with empty lightcurves removed.
     """
-    return results.dropna(subset=["lightcurve"])
+    # A lightcurve without observations is either missing or an empty table.
+    return results[results["lightcurve"].nest.list_lengths > 0]
 
 
 def lightcurve_compute_snr(flux, fluxerr):
-- 
2.43.0


From a89992fd4fe5381a9505a62653ee08ee7f65504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:33 +0000
Subject: [PATCH 76/78] fix: name the nodes added to a graph that was sampled
 before

---
 src/lightcurvelynx/base_models.py             | 43 +++++++++++++++----
 .../models/multi_object_model.py              | 24 +++++++++--
 2 files changed, 56 insertions(+), 11 deletions(-)

diff --git a/src/lightcurvelynx/base_models.py b/src/lightcurvelynx/base_models.py
index ffcbf26..150e907 100644
--- a/src/lightcurvelynx/base_models.py
+++ b/src/lightcurvelynx/base_models.py
@@ -261,6 +261,37 @@ class ParameterizedNode:
             if setter_info.dependency is not None and setter_info.dependency is not self:
                 setter_info.dependency.set_graph_positions(seen_nodes)
 
+    def _collect_nodes(self, seen_nodes=None):
+        """Collect this node and all of the nodes on which it depends.
+
+        Parameters
+        ----------
+        seen_nodes : set, optional
+            A set of nodes that have already been collected.
+            Caller should not set.
+
+        Returns
+        -------
+        seen_nodes : set
+            The set of all the nodes in this graph.
+        """
+        if seen_nodes is None:
+            seen_nodes = set()
+        if self not in seen_nodes:
+            seen_nodes.add(self)
+            for setter_info in self.setters.values():
+                if setter_info.dependency is not None:
+                    setter_info.dependency._collect_nodes(seen_nodes)
+        return seen_nodes
+
+    def _check_graph_positions(self):
+        """Set the graph positions if a node of the graph does not have one yet (because the
+        graph is new or has changed) or if two of the nodes share a name."""
+        nodes = self._collect_nodes()
+        names = set(node.node_string for node in nodes)
+        if len(names) < len(nodes) or any(node.node_pos is None for node in nodes):
+            self.set_graph_positions()
+
     def list_params(self):
         """Return a list of this node's parameterized values.
 
@@ -637,10 +668,8 @@ class ParameterizedNode:
         ValueError
             If the sampling encounters a problem with the order of dependencies.
         """
-        # If the graph structure has never been set, do that now.
-        if self.node_pos is None:
-            nodes = set()
-            self.set_graph_positions(seen_nodes=nodes)
+        # If the graph structure is not (completely) set, do that now.
+        self._check_graph_positions()
 
         # Create space for the results and set all the given_args as fixed parameters.
         results = GraphState(num_samples)
@@ -702,10 +731,8 @@ class ParameterizedNode:
         dependency_graph : DependencyGraph
             An object tracking the dependencies between parameters.
         """
-        # If the graph structure has never been set, do that now.
-        if self.node_pos is None:
-            nodes = set()
-            self.set_graph_positions(seen_nodes=nodes)
+        # If the graph structure is not (completely) set, do that now.
+        self._check_graph_positions()
 
         # Create space for the results and set all the given_args as fixed parameters.
         dependency_graph = DependencyGraph()
diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 1354d59..ef9f318 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -80,6 +80,25 @@ class MultiObjectModel(SEDModel):
         for object in self.objects:
             object.set_graph_positions(seen_nodes=seen_nodes)
 
+    def _collect_nodes(self, seen_nodes=None):
+        """Collect this node, the objects, and all of the nodes on which they depend.
+
+        Parameters
+        ----------
+        seen_nodes : set, optional
+            A set of nodes that have already been collected.
+            Caller should not set.
+
+        Returns
+        -------
+        seen_nodes : set
+            The set of all the nodes in this graph.
+        """
+        seen_nodes = super()._collect_nodes(seen_nodes)
+        for object in self.objects:
+            object._collect_nodes(seen_nodes)
+        return seen_nodes
+
     def set_apply_redshift(self, apply_redshift):
         """Toggles the apply_redshift setting.
 
@@ -156,9 +175,8 @@ class MultiObjectModel(SEDModel):
         graph_state : GraphState
             An object mapping graph parameters to their values.
         """
-        # If the graph has not been sampled ever, update the node positions for every node.
-        if self.node_pos is None:
-            self.set_graph_positions()
+        # If the graph structure is not (completely) set, update the node positions for every node.
+        self._check_graph_positions()
 
         # We use the same seen_nodes for all sampling calls so each node
         # is sampled at most one time regardless of link structure.
-- 
2.43.0


From db0402753d6eb7765893e45ba2a7e454782c7627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:55 +0000
Subject: [PATCH 77/78] fix: include the objects of a multi-object model in its
 dependency graph and gradient inputs

---
 .../models/multi_object_model.py              | 34 +++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index ef9f318..c76ffd3 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -151,6 +151,40 @@ class MultiObjectModel(SEDModel):
                 object._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
         super()._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
 
+    def _dependency_graph_helper(self, dependency_graph):
+        """Internal recursive function to build the dependency graph, including the objects.
+
+        Parameters
+        ----------
+        dependency_graph : DependencyGraph
+            An object tracking the dependencies between parameters. Modified in place.
+        """
+        super()._dependency_graph_helper(dependency_graph)
+        for object in self.objects:
+            object._dependency_graph_helper(dependency_graph)
+
+    def build_pytree(self, graph_state, partial=None):
+        """Build a JAX PyTree representation of the variables in this graph,
+        including those of the objects.
+
+        Parameters
+        ----------
+        graph_state : GraphState
+            An object mapping graph parameters to their values.
+        partial : dict
+            The partially built PyTree to add to.
+
+        Returns
+        -------
+        values : dict
+            A dictionary mapping the combination of the object identifier string and parameter name
+            to its value.
+        """
+        partial = super().build_pytree(graph_state, partial)
+        for object in self.objects:
+            partial = object.build_pytree(graph_state, partial)
+        return partial
+
     def sample_parameters(self, given_args=None, num_samples=1, rng_info=None):
         """Sample the model's underlying parameters if they are provided by a function
         or ParameterizedModel.
-- 
2.43.0


From cd2e921b5b07c20a9803ac435536676b89a8c383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:41 +0000
Subject: [PATCH 78/78] fix: average all the values a transmission file gives
 for a wavelength

---
 src/lightcurvelynx/astro_utils/passbands.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 03b51b6..7f8701f 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -1002,9 +1002,11 @@ class Passband:
             raise ValueError("Wavelengths in transmission table must be increasing.")
         if np.any(diffs == 0.0):
             logger.warning("Duplicate wavelengths found in transmission table; averaging values.")
-            dup_inds = np.where(diffs == 0.0)[0]
-            loaded_table[dup_inds, 1] = 0.5 * (loaded_table[dup_inds, 1] + loaded_table[dup_inds + 1, 1])
-            loaded_table = np.delete(loaded_table, dup_inds + 1, axis=0)
+            unique_waves, inverse, counts = np.unique(
+                loaded_table[:, 0], return_inverse=True, return_counts=True
+            )
+            sums = np.bincount(inverse, weights=loaded_table[:, 1])
+            loaded_table = np.column_stack((unique_waves, sums / counts))
 
         return loaded_table
 
-- 
2.43.0

