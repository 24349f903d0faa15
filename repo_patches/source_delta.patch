From 50c607f95a57c3878c06dad2a6bc4df8cf4504ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 1/5] fix: interpolate simulated continuation values on the
 model's experience grid

---
 soepy/simulate/simulate_auxiliary.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/soepy/simulate/simulate_auxiliary.py b/soepy/simulate/simulate_auxiliary.py
index 3ddada2..f02fda0 100644
--- a/soepy/simulate/simulate_auxiliary.py
+++ b/soepy/simulate/simulate_auxiliary.py
@@ -139,7 +139,9 @@ def simulate_agents_over_periods(
         # Interpolate continuation values on the experience grid.
         continuation_grid = emaxs[idx, :, :NUM_CHOICES]
         continuation_grid = np.transpose(continuation_grid, (0, 2, 1))
-        continuation_values = _interp_uniform_grid(continuation_grid, stock[:, None])
+        continuation_values = _interp_on_grid(
+            np.asarray(model_spec.exp_grid), continuation_grid, stock[:, None]
+        )
 
         non_cons_util_agents = non_consumption_utilities[idx]
 
@@ -322,11 +324,13 @@ def simulate_agents_over_periods(
     return data
 
 
-def _interp_uniform_grid(values, stock):
-    """Interpolate along the last axis on a uniform [0,1] grid.
+def _interp_on_grid(grid, values, stock):
+    """Interpolate along the last axis on the experience grid.
 
     Parameters
     ----------
+    grid : np.ndarray
+        Shape (n_grid,) increasing grid on [0,1], the one the model was solved on.
     values : np.ndarray
         Shape (..., n_grid)
     stock : np.ndarray
@@ -334,11 +338,12 @@ def _interp_uniform_grid(values, stock):
     """
 
     n_grid = values.shape[-1]
-    u = np.clip(stock, 0.0, 1.0) * (n_grid - 1)
+    x = np.clip(stock, 0.0, 1.0)
 
-    idx_lo = np.floor(u).astype(int)
-    idx_hi = np.minimum(idx_lo + 1, n_grid - 1)
-    w = u - idx_lo
+    idx_hi = np.clip(np.searchsorted(grid, x, side="right"), 1, n_grid - 1)
+    idx_lo = idx_hi - 1
+    width = grid[idx_hi] - grid[idx_lo]
+    w = np.where(width > 0, x - grid[idx_lo], 0.0) / np.where(width > 0, width, 1.0)
 
     take_lo = np.take_along_axis(values, idx_lo[..., None], axis=-1)[..., 0]
     take_hi = np.take_along_axis(values, idx_hi[..., None], axis=-1)[..., 0]
-- 
2.43.0


From ce42112fd7101a9f99875927047b5d299c3242f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 2/5] fix: scale wages in simulated non-employment resources as
 in the solution

---
 soepy/simulate/simulate_auxiliary.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soepy/simulate/simulate_auxiliary.py b/soepy/simulate/simulate_auxiliary.py
index f02fda0..d4be13b 100644
--- a/soepy/simulate/simulate_auxiliary.py
+++ b/soepy/simulate/simulate_auxiliary.py
@@ -201,14 +201,15 @@ def simulate_agents_over_periods(
         )
         employment_resources = employment_resources - child_care_costs
 
-        # Compute non-employment resources at current wages.
+        # Compute non-employment resources at current wages, scaled as in the solution.
         non_emp_resources_agents = np.asarray(
             calculate_non_employment_consumption_resources(
                 deductions_spec=model_spec.ssc_deductions,
                 income_tax_spec=model_spec.tax_params,
                 model_spec=model_spec,
                 states=state_space[idx],
-                log_wage_systematic=log_wage_agents[:, None],
+                log_wage_systematic=log_wage_agents[:, None]
+                + np.log(float(model_spec.elasticity_scale)),
                 male_wage=male_wage,
                 child_benefits=child_benefits,
                 tax_splitting=model_spec.tax_splitting,
-- 
2.43.0


From 939316573239d7ae9740702b9e5df885ad79d920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 3/5] fix: pay erziehungsgeld in the solution even when child
 benefits are zero

---
 soepy/solve/validation_solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soepy/solve/validation_solve.py b/soepy/solve/validation_solve.py
index 55238b4..013592e 100644
--- a/soepy/solve/validation_solve.py
+++ b/soepy/solve/validation_solve.py
@@ -54,7 +54,7 @@ def _get_max_aggregated_utilities(
             erziehungsgeld_inc_married,
             erziehungsgeld,
         )
-        net_income = net_income + jnp.where((child_benefits > 0) & (j == 1), eg, 0.0)
+        net_income = net_income + jnp.where(j == 1, eg, 0.0)
 
         child_costs = child_care_costs[child_care_bin, j - 1]
 
-- 
2.43.0


From b6c6a002746f3e2f83c01a912089174bcfcdd96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 4/5] fix: match shares and utilities of unobserved types by
 type number

---
 soepy/pre_processing/model_processing.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/soepy/pre_processing/model_processing.py b/soepy/pre_processing/model_processing.py
index b05e736..ba651f7 100644
--- a/soepy/pre_processing/model_processing.py
+++ b/soepy/pre_processing/model_processing.py
@@ -1,5 +1,6 @@
 import collections
 import copy
+import re
 
 import jax.numpy as jnp
 import numpy as np
@@ -49,7 +50,9 @@ def expand_model_params_dict(model_params_dict):
     # Extract the values of the type shares
     try:
         type_shares_non_baseline = [
-            _ for k, _ in model_params_dict["shares"].items() if "share" in k
+            v
+            for k, v in sorted(model_params_dict["shares"].items(), key=_type_number)
+            if "share" in k
         ]
 
         num_types = len(type_shares_non_baseline) + 1
@@ -77,6 +80,11 @@ def expand_model_params_dict(model_params_dict):
     return model_params_dict
 
 
+def _type_number(item):
+    """Number of the unobserved type a parameter belongs to, e.g. 10 for theta_p10."""
+    return int(re.search(r"\d+$", item[0]).group())
+
+
 def group_parameters(model_params_dict_expanded):
     """Groups the parameters to be estimates
     in flat dictionary structure"""
@@ -140,7 +148,9 @@ def group_parameters(model_params_dict_expanded):
         model_params_dict_flat["theta_" + i] = np.array(
             [
                 v
-                for k, v in sorted(model_params_dict_expanded["hetrg_unobs"].items())
+                for k, v in sorted(
+                    model_params_dict_expanded["hetrg_unobs"].items(), key=_type_number
+                )
                 if "{}".format("theta_" + i) in k
             ],
             dtype=float,
-- 
2.43.0


From 95149241dccd806521c5296e48b7475edcdcdcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 5/5] fix: keep periods and years of experience beyond 127 in
 the compact output

---
 soepy/simulate/constants_sim.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/soepy/simulate/constants_sim.py b/soepy/simulate/constants_sim.py
index 705a6c3..066834b 100644
--- a/soepy/simulate/constants_sim.py
+++ b/soepy/simulate/constants_sim.py
@@ -66,4 +66,13 @@ DATA_FORMATS_OTHER = {
 LABELS_DATA_SPARSE = [*LABELS_SPARSE_INT8, *DATA_FORMATS_OTHER.keys()]
 
 DATA_FORMATS_INT8 = {key: np.int8 for key in LABELS_SPARSE_INT8}
-DATA_FORMATS_SPARSE = {**DATA_FORMATS_INT8, **DATA_FORMATS_OTHER}
+# Periods, and what grows with them, need not fit into eight bits.
+DATA_FORMATS_INT16 = {
+    key: np.int16
+    for key in ["Period", "Experience_Part_Time", "Experience_Full_Time"]
+}
+DATA_FORMATS_SPARSE = {
+    **DATA_FORMATS_INT8,
+    **DATA_FORMATS_INT16,
+    **DATA_FORMATS_OTHER,
+}
-- 
2.43.0

